@@ fn Lalr::without_look group=lalr
@spec
    ensures r == cores(*state),
@loop 1 inv
    forall|q: Position<T>| #[trigger] $c1@.contains(q) <==> cored(state@, q, $i1 as int),
@exit
    proof { lemma_cored(*state, $r); lemma_bset_ext($r); lemma_bset_ext(cores(*state)); }
@@ fn Lalr::merged Clr::merged Slr::merged group=lalr
@spec
    ensures is_merged(states@, r@),
@entry
    let ghost s0 = states@;
    proof { lemma_mpart_0(s0); }
@loop 1 inv
    mpart(s0, $i1 as int, new@),
@loop 1 begin
    let ghost p0 = $x1;
    let ghost n0 = new@;
@loop 2 inv
    new@ == n0, forall|j: int| 0 <= j < $i2 ==> core(#[trigger] set_seq(n0)[j]) != core(p0),
@loop 2 begin
    let ghost k0 = set_seq(n0)[$i2 - 1];
    proof { assert(n0.contains(k0)); assert(p0.look@.union(k0.look@) =~= k0.look@.union(p0.look@)); }
    proof { assert forall|u: Position<T>| core(u) == core(p0) && core(k0) == core(p0) && u.look@ == p0.look@.union(k0.look@) implies mpart(s0, $i1 as int, #[trigger] n0.remove(k0).insert(u)) by {
        lemma_mpart_old(s0, $i1 - 1, n0, k0, u); } }
@loop 2 after
    proof { lemma_mpart_new(s0, $i1 - 1, n0); }
@loop 2 inv find
    new@ == n0, hit(n0, $f2) ==> core(*$f2->0) == core(p0),
    $f2 is None || hit(n0, $f2), $f2 is None ==> forall|j: int| 0 <= j < $i2 ==> core(#[trigger] set_seq(n0)[j]) != core(p0),
@loop 2 begin find
    let ghost k0 = set_seq(n0)[$i2 - 1];
    proof { assert(n0.contains(k0)); }
@loop 2 after find
    proof {
        if $f2 is None {
            lemma_mpart_new(s0, $i1 - 1, n0);
        } else {
            let k0 = *$f2->0;
            assert(p0.look@.union(k0.look@) =~= k0.look@.union(p0.look@));
            assert forall|u: Position<T>| core(u) == core(p0) && u.look@ == p0.look@.union(k0.look@) implies mpart(s0, $i1 as int, #[trigger] n0.remove(k0).insert(u)) by {
                lemma_mpart_old(s0, $i1 - 1, n0, k0, u); }
        }
    }
@loop 1 after
    proof { lemma_mpart_all(s0, set_seq(s0).len() as int, new@); }
@@ fn Lalr::update_state group=lalr
@spec
    requires tbase(old(self).table), lst(old(self).table, old(self).raws@), old(self).table.kernels@.contains_key(*main), *main != e_state::<T>(),
        cores(inc) == cores(*main), items_ok(old(self).table.grammar, inc@), items_ok(old(self).table.grammar, closures@),
        aclo(old(self).table.grammar, inc@, closures@), ksound(old(self).table.grammar, inc),
    ensures
        r is None ==> *final(self) == *old(self) && asub(inc@, main@),
        r is Some ==> lst(final(self).table, final(self).raws@) && lgrow(old(self).table, old(self).raws@, final(self).table, final(self).raws@, *main, r->0)
            && asub(inc@, (r->0)@) && items_ok(old(self).table.grammar, (r->0)@),
@entry
    let ghost s0 = *self;
    let ghost g = self.table.grammar;
    let ghost inc0 = inc;
    let ghost cl0 = closures;
    proof { assert(lker(self.table, self.raws@, *main)); }
@let new_kernel
    proof { lemma_uni(inc0@, main@); lemma_both(inc0, *main, new_kernel); assert(items_ok(g, new_kernel@)); lemma_lone(s0.table, s0.raws@, *main, new_kernel); }
@exit
    proof {
        if $r is Some {
            let id = s0.table.kernels@[*main] as int;
            let nk = $r->0;
            lemma_uni(s0.table.states@[id]@, cl0@);
            lemma_both2(s0.table.states@[id], cl0, self.table.states@[id]);
            lemma_lupdate(s0.table, s0.raws@, self.table, self.raws@, *main, inc0, cl0, nk);
        }
    }
@@ fn Lalr::proc_closures_first_row group=lalr
@spec
    requires tbase(old(self).table), old(self).table.states@.len() == 0, old(self).table.kernels@ == Map::<State<T>, usize>::empty(), old(self).raws@ == Map::<State<T>, State<T>>::empty(),
    ensures lst(final(self).table, final(self).raws@), same_base(final(self).table, old(self).table), final(self).table.states@.len() == 1,
@entry
    proof { lemma_basis_ok(self.table.grammar); lemma_e_state::<T>(); }
@exit
    proof { lemma_lfirst(self.table, self.raws@); }
@@ fn Lalr::proc_closures group=lalr
@spec
    requires tbase(old(self).table), old(self).table.states@.len() == 0, old(self).table.kernels@ == Map::<State<T>, usize>::empty(), old(self).raws@ == Map::<State<T>, State<T>>::empty(),
    ensures lgraph(final(self).table, final(self).raws@), same_base(final(self).table, old(self).table),
@loop 1 inv
    idx <= self.table.states@.len(), lst(self.table, self.raws@), ldone(self.table, self.raws@, idx as int), same_base(self.table, old(self).table),
@loop 1 dec
    froom(self.table.grammar, self.raws@), powerset(univ(self.table.grammar)).len() - idx
@loop 1 begin
    let ghost i0 = idx as int;
    let ghost g = self.table.grammar;
    let ghost rw0 = self.raws@;
    proof { lemma_lbound(self.table, self.raws@); lemma_row_sound(self.table, self.raws@, i0); }
@loop 2 inv
    idx < self.table.states@.len(), idx == i0, lst(self.table, self.raws@), same_base(self.table, old(self).table), next_idx <= i0 + 1,
    ldone(self.table, self.raws@, if next_idx <= i0 { next_idx as int } else { i0 }),
    froom(g, self.raws@) <= froom(g, rw0),
    next_idx <= i0 ==> froom(g, self.raws@) < froom(g, rw0),
    next_idx > i0 ==> self.table.states@[i0] == row && forall|x: T| g.symbols@.contains(x) && set_idx(g.symbols@, x) < $i2 ==> #[trigger] ldone1(self.table, self.raws@, i0, x),
@loop 2 begin
    let ghost t1 = self.table;
    let ghost rw1 = self.raws@;
    let ghost sy = *$x2;
    let ghost nx1 = next_idx;
    let ghost kn = gotok(row, sy);
    proof {
        let ss = g.symbols@; assert(sy == set_seq(ss)[$i2 - 1]); assert(ss.contains(set_seq(ss)[$i2 - 1]));
        lemma_ksound(g, row, sy);
        lemma_e_state::<T>();
        lemma_cores_empty(kn);
        lemma_lstep_old(t1, rw1, i0, sy, row);
        lemma_lbound(t1, rw1);
    }
@let raw_kernel
    let ghost cl1 = closures;
    proof { lemma_closure_aclo(g, kn@, closures@); if rw1.contains_key(cores(kn)) { assert(lraw(t1, rw1, cores(kn))); assert(lker(t1, rw1, rw1[cores(kn)])); } }
@loop 2 end
    proof {
        let mk = rw1[cores(kn)];
        let nk = self.raws@[cores(kn)];
        if rw1.contains_key(cores(kn)) && t1.kernels@.contains_key(mk) && mk != e_state::<T>() && lgrow(t1, rw1, self.table, self.raws@, mk, nk) {
            lemma_lgrow_done(t1, rw1, self.table, self.raws@, mk, nk);
            lemma_facts_grow(t1, rw1, self.table, self.raws@, mk, nk);
            lemma_froom(g, rw1, self.raws@);
        }
        if self.table.states@.len() != t1.states@.len() {
            lemma_lnew(t1, rw1, self.table, self.raws@, kn, self.table.states@.last());
            lemma_froom(g, rw1, self.raws@);
        }
    }
@loop 1 end
    proof { lemma_lbound(self.table, self.raws@); lemma_froom(g, self.raws@, self.raws@); }
@exit
    proof { lemma_lgraph(self.table, self.raws@, idx as int); }
@@ fn Lalr::decision group=tables
@spec
    requires *start == self.table.grammar.basis.rule, top(*pos) is Some ==> khas(auto_lalr(self.table, self.raws), gotok(*row, top(*pos)->0)),
    ensures is_dec(auto_lalr(self.table, self.raws), *row, *pos, r@),
@entry
    let ghost m = auto_lalr(self.table, self.raws);
    let ghost p0 = *pos;
@loop 1 inv
    reds($c1@.as_map(), las(m, p0), red_act(m, p0), $i1 as int),
@loop 1 after
    proof { lemma_dec_red(m, *row, p0, $c1@.as_map()); }
@@ fn Lalr::uninit group=lalr,tables
@spec
    ensures r.table == table, r.raws@ == Map::<State<T>, State<T>>::empty(),
@@ fn Lalr::final_kernel group=lalr,tables
@spec
    ensures r is Some <==> fk_has(auto_lalr(self.table, self.raws), *kernel), r is Some ==> *(r->0) == fk(auto_lalr(self.table, self.raws), *kernel),
@@ fn Lalr::state_from_kernel group=lalr,tables
@spec
    ensures khas(auto_lalr(self.table, self.raws), *kernel) ==> r == Some(kid(auto_lalr(self.table, self.raws), *kernel)), !khas(auto_lalr(self.table, self.raws), *kernel) ==> r is None,
@@ fn Lalr::proc_actions group=tables,cells
@spec
    requires tbase(old(self).table), old(self).table.states@.len() == 0, old(self).table.kernels@ == Map::<State<T>, usize>::empty(), old(self).table.actions@.len() == 0, old(self).raws@ == Map::<State<T>, State<T>>::empty(),
    ensures lgraph(final(self).table, final(self).raws@), lalr_exact(auto_lalr(final(self).table, final(self).raws)), table_exact(auto_lalr(final(self).table, final(self).raws), final(self).table.actions@), same_base3(final(self).table, old(self).table),
@entry
    let ghost mut t0 = self.table;
@let start
    proof { t0 = self.table; }
    let ghost rw0 = self.raws;
    let ghost m = auto_lalr(t0, rw0);
    proof { lemma_lalr_exact(t0, rw0); }
@loop 1 inv
    same_but_actions(self.table, t0), self.raws == rw0, rows_done(m, self.table.actions@, $i1 as int),
@loop 1 inv unless self
    rows_done(m, $m1@, $i1 as int),
@loop 1 begin
    let ghost row0 = *$x1;
    proof { assert(row0 == m.states[$i1 - 1]); lemma_row_start(m, row0, Set::<T>::empty());  }
@loop 2 inv
    row_upto(m, row0, $i2 as int, Set::<T>::empty(), 0, map@),
@loop 2 begin
    let ghost it = *$x2;
    let ghost dm = dec_map(m, row0, it).dom();
    proof {
        assert(row0@.contains(it));
        lemma_dec_map(m, row0, it);
        if top(it) is Some { lemma_goto_nonempty(row0, it); assert(khas(m, gotok(t0.states@[$i1 - 1], top(it)->0))); }
    }
@loop 3 before
    proof { assert(ddom(m, row0, it, dm)); lemma_row_dm(m, row0, $i2 - 1, Set::<T>::empty(), map@, dm); }
@loop 3 inv
    row_upto(m, row0, $i2 - 1, dm, $i3 as int, map@),
@loop 3 begin
    let ghost map0 = map@;
    let ghost kv = $x3;
    proof { assert(dm.contains(set_seq(dm)[$i3 - 1])); }
@loop 3 end
    proof { lemma_row_put(m, row0, $i2 - 1, dm, $i3 - 1, map0, kv.0, kv.1); assert(map@ =~= put(map0, kv.0, kv.1)); }
@loop 3 after
    proof { lemma_row_next(m, row0, $i2 - 1, dm, map@, Set::<T>::empty()); }
@loop 2 after
    proof { lemma_row_end(m, row0, set_seq(row0@).len() as int, Set::<T>::empty(), map@); }
@exit
    proof { lemma_lgraph_actions(t0, self.table, rw0@); }
@@ fn Lalr::with_table group=tables
@spec
    requires tbase(table), table.states@.len() == 0, table.kernels@ == Map::<State<T>, usize>::empty(), table.actions@.len() == 0,
    ensures lgraph(r.table, r.raws@), lalr_exact(auto_lalr(r.table, r.raws)), table_exact(auto_lalr(r.table, r.raws), r.table.actions@), same_base3(r.table, table),
@@ fn Lalr::new group=tables
@spec
    requires gwf(grammar), !nonterm(grammar, eof_of(grammar)),
    ensures tbase(r.table), r.table.grammar == grammar, lgraph(r.table, r.raws@), lalr_exact(auto_lalr(r.table, r.raws)), table_exact(auto_lalr(r.table, r.raws), r.table.actions@),
        gpre(grammar) ==> built(r.table),
@exit
    proof { if gpre(grammar) { lemma_lalr_ready($r.table, $r.raws); } }
