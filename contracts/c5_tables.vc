@@ fn Clr::tables Slr::tables Lalr::tables group=tables
@spec
    ensures *r == self.table,
@@ fn Clr::uninit Slr::uninit group=tables,graph
@spec
    ensures r.table == table,
@@ fn Clr::final_kernel Slr::final_kernel group=tables
@spec
    ensures r == Some(kernel),
@@ fn Clr::state_from_kernel group=tables
@spec
    ensures khas(auto_clr(self.table), *kernel) ==> r == Some(kid(auto_clr(self.table), *kernel)), !khas(auto_clr(self.table), *kernel) ==> r is None,
@@ fn Slr::state_from_kernel group=tables
@spec
    ensures khas(auto_slr(self.table), *kernel) ==> r == Some(kid(auto_slr(self.table), *kernel)), !khas(auto_slr(self.table), *kernel) ==> r is None,
@@ fn Clr::decision group=tables
@spec
    requires *entry_point == self.table.grammar.basis.rule, top(*pos) is Some ==> khas(auto_clr(self.table), gotok(*row, top(*pos)->0)),
    ensures is_dec(auto_clr(self.table), *row, *pos, r@),
@entry
    let ghost m = auto_clr(self.table);
    let ghost p0 = *pos;
@loop 1 inv
    reds($c1@.as_map(), las(m, p0), red_act(m, p0), $i1 as int),
@loop 1 after
    proof { lemma_dec_red(m, *row, p0, $c1@.as_map()); }
@@ fn Slr::decision group=tables
@spec
    requires *start == self.table.grammar.basis.rule, top(*pos) is Some ==> khas(auto_slr(self.table), gotok(*row, top(*pos)->0)),
        self.table.follow@.contains_key(pos.rule),
    ensures is_dec(auto_slr(self.table), *row, *pos, r@),
@entry
    let ghost m = auto_slr(self.table);
    let ghost p0 = *pos;
@loop 1 inv
    reds($c1@.as_map(), las(m, p0), red_act(m, p0), $i1 as int),
@loop 1 after
    proof { lemma_dec_red(m, *row, p0, $c1@.as_map()); }
@@ fn Clr::proc_actions group=tables,cells
@spec
    requires tbase(old(self).table), old(self).table.states@.len() == 0, old(self).table.kernels@ == Map::<State<T>, usize>::empty(), old(self).table.actions@.len() == 0,
    ensures kgraph(final(self).table, true), table_exact(auto_clr(final(self).table), final(self).table.actions@), same_base3(final(self).table, old(self).table),
@entry
    let ghost mut t0 = self.table;
@let start
    proof { t0 = self.table; }
    let ghost m = auto_clr(t0);
@loop 1 inv
    same_but_actions(self.table, t0), rows_done(m, self.table.actions@, $i1 as int),
@loop 1 inv unless self
    rows_done(m, $m1@, $i1 as int),
@loop 1 begin
    let ghost row0 = *$x1;
    proof { assert(row0 == m.states[$i1 - 1]); lemma_row_start(m, row0, Set::<T>::empty());  }
@loop 2 inv
    row_upto(m, row0, $i2 as int, Set::<T>::empty(), 0, map@),
@loop 2 begin
    let ghost it = *$x2;
    let ghost dm = dec_map(m, row0, it).dom();
    proof {
        assert(row0@.contains(it));
        lemma_dec_map(m, row0, it);
        assert(t0.kernels@.contains_key(gotok(t0.states@[$i1 - 1], top(it)->0)));
    }
@loop 3 before
    proof { assert(ddom(m, row0, it, dm)); lemma_row_dm(m, row0, $i2 - 1, Set::<T>::empty(), map@, dm); }
@loop 3 inv
    row_upto(m, row0, $i2 - 1, dm, $i3 as int, map@),
@loop 3 begin
    let ghost map0 = map@;
    let ghost kv = $x3;
    proof { assert(dm.contains(set_seq(dm)[$i3 - 1])); }
@loop 3 end
    proof { lemma_row_put(m, row0, $i2 - 1, dm, $i3 - 1, map0, kv.0, kv.1); assert(map@ =~= put(map0, kv.0, kv.1)); }
@loop 3 after
    proof { lemma_row_next(m, row0, $i2 - 1, dm, map@, Set::<T>::empty()); }
@loop 2 after
    proof { lemma_row_end(m, row0, set_seq(row0@).len() as int, Set::<T>::empty(), map@); }
@exit
    proof { lemma_graph_actions(t0, self.table, true); }
@@ fn Clr::with_table group=tables
@spec
    requires tbase(table), table.states@.len() == 0, table.kernels@ == Map::<State<T>, usize>::empty(), table.actions@.len() == 0,
    ensures kgraph(r.table, true), table_exact(auto_clr(r.table), r.table.actions@), same_base3(r.table, table),
@@ fn Clr::new group=tables
@spec
    requires gwf(grammar), !nonterm(grammar, eof_of(grammar)),
    ensures tbase(r.table), r.table.grammar == grammar, kgraph(r.table, true), table_exact(auto_clr(r.table), r.table.actions@),
        gpre(grammar) ==> built(r.table),
@exit
    proof { if gpre(grammar) { lemma_clr_ready($r.table); } }
@@ fn Slr::proc_actions group=tables,cells
@spec
    requires tbase(old(self).table), old(self).table.states@.len() == 0, old(self).table.kernels@ == Map::<State<T>, usize>::empty(), old(self).table.actions@.len() == 0,
    ensures kgraph(final(self).table, false), table_exact(auto_slr(final(self).table), final(self).table.actions@), same_base3(final(self).table, old(self).table),
@entry
    let ghost mut t0 = self.table;
@let start
    proof { t0 = self.table; }
    let ghost m = auto_slr(t0);
@loop 1 inv
    same_but_actions(self.table, t0), rows_done(m, self.table.actions@, $i1 as int),
@loop 1 inv unless self
    rows_done(m, $m1@, $i1 as int),
@loop 1 begin
    let ghost row0 = *$x1;
    proof { assert(row0 == m.states[$i1 - 1]); lemma_row_start(m, row0, Set::<T>::empty()); lemma_fkeys(t0, false, $i1 - 1); }
@loop 2 inv
    row_upto(m, row0, $i2 as int, Set::<T>::empty(), 0, map@),
@loop 2 begin
    let ghost it = *$x2;
    let ghost dm = dec_map(m, row0, it).dom();
    proof {
        assert(row0@.contains(it));
        lemma_dec_map(m, row0, it);
        assert(t0.kernels@.contains_key(gotok(t0.states@[$i1 - 1], top(it)->0)));
    }
@loop 3 before
    proof { assert(ddom(m, row0, it, dm)); lemma_row_dm(m, row0, $i2 - 1, Set::<T>::empty(), map@, dm); }
@loop 3 inv
    row_upto(m, row0, $i2 - 1, dm, $i3 as int, map@),
@loop 3 begin
    let ghost map0 = map@;
    let ghost kv = $x3;
    proof { assert(dm.contains(set_seq(dm)[$i3 - 1])); }
@loop 3 end
    proof { lemma_row_put(m, row0, $i2 - 1, dm, $i3 - 1, map0, kv.0, kv.1); assert(map@ =~= put(map0, kv.0, kv.1)); }
@loop 3 after
    proof { lemma_row_next(m, row0, $i2 - 1, dm, map@, Set::<T>::empty()); }
@loop 2 after
    proof { lemma_row_end(m, row0, set_seq(row0@).len() as int, Set::<T>::empty(), map@); }
@exit
    proof { lemma_graph_actions(t0, self.table, false); }
@@ fn Slr::with_table group=tables
@spec
    requires tbase(table), table.states@.len() == 0, table.kernels@ == Map::<State<T>, usize>::empty(), table.actions@.len() == 0,
    ensures kgraph(r.table, false), table_exact(auto_slr(r.table), r.table.actions@), same_base3(r.table, table),
@@ fn Slr::new group=tables
@spec
    requires gwf(grammar), !nonterm(grammar, eof_of(grammar)),
    ensures tbase(r.table), r.table.grammar == grammar, kgraph(r.table, false), table_exact(auto_slr(r.table), r.table.actions@),
        gpre(grammar) ==> built(r.table),
@exit
    proof { if gpre(grammar) { lemma_slr_ready($r.table); } }
@@ fn Tabler::conflicts group=conflicts
@spec
    ensures derefs(r@, confs(self.actions@, self.actions@.len() as int)),
@loop 1 inv
    derefs($c1@, confs(self.actions@, $i1 as int)),
@loop 1 begin
    let ghost row0 = self.actions@[$i1 - 1]@;
    proof { assert(confs(self.actions@, $i1 as int) == confs(self.actions@, $i1 - 1) + confs_row(row0, set_seq(row0.dom()).len() as int)); }
@loop 2 inv
    derefs($c1@, confs(self.actions@, $i1 - 1) + confs_row(row0, $i2 as int)),
@loop 2 begin
    let ghost c0 = $c1@;
@loop 2 end
    proof { assert(confs_row(row0, $i2 as int) == if *$x2 is Conflict { confs_row(row0, $i2 - 1).push(*$x2) } else { confs_row(row0, $i2 - 1) }); }
