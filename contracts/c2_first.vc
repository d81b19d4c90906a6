@@ fn Tabler::basis_pos group=grammar
@spec
    ensures r == self.grammar.basis,

@@ fn Tabler::gen_first group=first
@spec
    requires gwf(self.grammar),
    ensures fok(self.grammar, r@), tin(r@, self.grammar.symbols@),
@loop 1 inv
    forall|x: T| table@.contains_key(x) <==> self.grammar.rules@.contains_key(x) && set_idx(self.grammar.rules@.dom(), x) < $i1,
    forall|x: T, a: T| table@.contains_key(x) ==> (#[trigger] table@[x]@.contains(a) <==> fedge(self.grammar, x, a) && a != x),
@loop 2 inv
    forall|a: T| #[trigger] $c1@.contains(a) <==> a != rule.name && begins(rule.prods@, a, $i2 as int),
@loop 1 begin
    let ghost xx = set_seq(self.grammar.rules@.dom())[$i1 - 1];
    proof { assert(self.grammar.rules@.dom().contains(xx)); assert(self.grammar.rules@.contains_key(xx)); }
@loop 2 after
    proof {
        assert forall|a: T| begins(rule.prods@, a, rule.prods@.len() as int) <==> fedge(self.grammar, xx, a) by {
            if fedge(self.grammar, xx, a) {
                let p = choose|p: Production<T>| #[trigger] is_prod(self.grammar, xx, p) && p.0@.len() > 0 && p.0@[0] == a;
                assert(rule.prods@[p.1 as int].0@[0] == a);
            }
            if begins(rule.prods@, a, rule.prods@.len() as int) {
                let j = choose|j: int| 0 <= j < rule.prods@.len() && (#[trigger] rule.prods@[j]).0@[0] == a;
                assert(is_prod(self.grammar, xx, *rule.prods@[j]));
            }
        }
    }
@exit
    proof {
        assert forall|x: T, a: T| $r@.contains_key(x) && #[trigger] $r@[x]@.contains(a) implies leads(self.grammar, x, a) && self.grammar.symbols@.contains(a) by {
            lemma_leads_edge(self.grammar, x, a);
            lemma_leads_sym(self.grammar, x, a, 1);
        }
        assert($r@.dom() =~= self.grammar.rules@.dom());
    }


@@ fn Tabler::first_step group=first
@spec
    requires gwf(self.grammar), fok(self.grammar, input@),
    ensures fok(self.grammar, r@), tmono(input@, r@), r@ == input@ ==> tclosed(self.grammar, r@),
@loop 1 before
    let ghost all = $c1@.as_map() == input@;
@loop 1 inv
    all ==> forall|x: T| #[trigger] input@.contains_key(x) ==> $c1@.as_map().contains_key(x),
    step_part(self.grammar, input@, $c1@.as_map(), $i1 as int),
@loop 1 begin
    let ghost xx = set_seq(input@.dom())[$i1 - 1];
    let ghost told = $c1@.as_map();
    proof { assert(input@.dom().contains(xx)); assert(input@.contains_key(xx)); assert(told.contains_key(xx) ==> told[xx] == input@[xx]); assert(self.grammar.rules@.dom().contains(xx)); }
@loop 2 before
    proof { assert(table@.dom() =~= told.insert(xx, *firsts).dom()); assert(table@ =~= told.insert(xx, table@[xx])); }
@loop 2 inv
    table@.dom() == told.insert(xx, *firsts).dom(), table@ == told.insert(xx, table@[xx]),
    forall|c: T| #[trigger] table@[xx]@.contains(c) <==> input@[xx]@.contains(c)
        || exists|b: T| input@[xx]@.contains(b) && set_idx(input@[xx]@, b) < $i2 && #[trigger] brings(self.grammar, input@, b, c),
@loop 2 begin
    let ghost tb = table@;
    let ghost bb = *$x2;
    proof { assert(input@[xx]@.contains(*$x2)); }
@loop 2 end
    proof {
        assert(set_idx(input@[xx]@, bb) == $i2 - 1);
        assert forall|c: T| #[trigger] table@[xx]@.contains(c) <==> tb[xx]@.contains(c) || brings(self.grammar, input@, bb, c) by {}
        assert(table@ =~= told.insert(xx, table@[xx]));
    }
@loop 2 before unless table
    let ghost r0 = $m2@;
@loop 2 inv unless table
    forall|c: T| #[trigger] $m2@.contains(c) <==> r0.contains(c)
        || exists|b: T| input@[xx]@.contains(b) && set_idx(input@[xx]@, b) < $i2 && #[trigger] brings(self.grammar, input@, b, c),
@loop 2 begin unless table
    let ghost tb = $m2@;
    let ghost bb = *$x2;
    proof { assert(input@[xx]@.contains(*$x2)); }
@loop 2 end unless table
    proof {
        assert(set_idx(input@[xx]@, bb) == $i2 - 1);
        assert forall|c: T| #[trigger] $m2@.contains(c) <==> tb.contains(c) || brings(self.grammar, input@, bb, c) by {}
    }
@loop 1 end
    proof {
        let s = $c1@.as_map()[xx];
        assert($c1@.as_map() =~= told.insert(xx, s));
        lemma_step_next(self.grammar, input@, told, $i1 - 1, s);
    }
@exit
    proof { lemma_step_all(self.grammar, input@, $r@); lemma_first_step(self.grammar, input@, $r@); }

@@ fn Tabler::follow_step group=follow
@spec
    requires gwf(self.grammar), !nonterm(self.grammar, eof_of(self.grammar)), wok(self.grammar, input@),
    ensures wok(self.grammar, r@), tmono(input@, r@), r@ == input@ ==> tclosed(self.grammar, r@),
@loop 1 before
    let ghost all = $c1@.as_map() == input@;
@loop 1 inv
    all ==> forall|x: T| #[trigger] input@.contains_key(x) ==> $c1@.as_map().contains_key(x),
    step_part(self.grammar, input@, $c1@.as_map(), $i1 as int),
@loop 1 begin
    let ghost xx = set_seq(input@.dom())[$i1 - 1];
    let ghost told = $c1@.as_map();
    proof { assert(input@.dom().contains(xx)); assert(input@.contains_key(xx)); assert(told.contains_key(xx) ==> told[xx] == input@[xx]); }
@loop 2 before
    proof { assert(table@.dom() =~= told.insert(xx, *terms).dom()); assert(table@ =~= told.insert(xx, table@[xx])); }
@loop 2 inv
    table@.dom() == told.insert(xx, *terms).dom(), table@ == told.insert(xx, table@[xx]),
    forall|c: T| #[trigger] table@[xx]@.contains(c) <==> input@[xx]@.contains(c)
        || exists|b: T| input@[xx]@.contains(b) && set_idx(input@[xx]@, b) < $i2 && #[trigger] brings(self.grammar, input@, b, c),
@loop 2 begin
    let ghost tb = table@;
    let ghost bb = *$x2;
    proof { assert(input@[xx]@.contains(*$x2)); }
@loop 2 end
    proof {
        assert(set_idx(input@[xx]@, bb) == $i2 - 1);
        assert forall|c: T| #[trigger] table@[xx]@.contains(c) <==> tb[xx]@.contains(c) || brings(self.grammar, input@, bb, c) by {}
        assert(table@ =~= told.insert(xx, table@[xx]));
    }
@loop 2 before unless table
    let ghost r0 = $m2@;
@loop 2 inv unless table
    forall|c: T| #[trigger] $m2@.contains(c) <==> r0.contains(c)
        || exists|b: T| input@[xx]@.contains(b) && set_idx(input@[xx]@, b) < $i2 && #[trigger] brings(self.grammar, input@, b, c),
@loop 2 begin unless table
    let ghost tb = $m2@;
    let ghost bb = *$x2;
    proof { assert(input@[xx]@.contains(*$x2)); }
@loop 2 end unless table
    proof {
        assert(set_idx(input@[xx]@, bb) == $i2 - 1);
        assert forall|c: T| #[trigger] $m2@.contains(c) <==> tb.contains(c) || brings(self.grammar, input@, bb, c) by {}
    }
@loop 1 end
    proof {
        let s = $c1@.as_map()[xx];
        assert($c1@.as_map() =~= told.insert(xx, s));
        lemma_step_next(self.grammar, input@, told, $i1 - 1, s);
    }
@exit
    proof { lemma_step_all(self.grammar, input@, $r@); lemma_follow_step(self.grammar, input@, $r@); }

@@ fn Tabler::only_terminals group=first
@spec
    ensures only_terms(self.grammar, table@, r@),
@loop 1 inv
    ot_part(self.grammar, table@, $c1@.as_map(), $i1 as int),
@loop 1 begin
    let ghost xx = set_seq(table@.dom())[$i1 - 1];
    let ghost o0 = $c1@.as_map();
    proof { assert(table@.dom().contains(xx)); assert(table@.contains_key(xx)); }
@loop 2 inv
    forall|c: T| #[trigger] $c2@.contains(c) <==> table@[xx]@.contains(c) && !nonterm(self.grammar, c) && set_idx(table@[xx]@, c) < $i2,
@loop 1 end
    proof {
        let s = $c1@.as_map()[xx];
        assert($c1@.as_map() =~= o0.insert(xx, s));
        lemma_ot_step(self.grammar, table@, o0, $i1 - 1, s);
    }
@exit
    proof { lemma_ot_all(self.grammar, table@, $r@); }

@@ fn Tabler::proc_first group=first
@spec
    requires gwf(old(self).grammar), fok(old(self).grammar, old(self).first@),
    ensures first_exact(final(self).grammar, final(self).first@),
        *final(self) == (Tabler { first: final(self).first, ..*old(self) }),
@entry
    let ghost g = self.grammar;
@loop 1 inv
    fok(g, val@), *self == (Tabler { first: self.first, ..*old(self) }),
@loop 1 inv if new
    fok(g, new@), tmono(val@, new@), new@ == val@ ==> tclosed(g, new@),
@loop 1 begin
    let ghost v0 = val;
@loop 1 dec
    troom(val@, g.symbols@)
@loop 1 end
    proof { lemma_tin_first(g, val@); lemma_bmap_ext(v0); lemma_bmap_ext(val); lemma_troom(v0@, val@, g.symbols@); }
@let first
    proof { lemma_first_fix(g, first@); }
@loop 2 inv
    $c1,
@loop 3 inv
    $c1,

@@ fn Tabler::proc_follow group=follow
@spec
    requires gwf(old(self).grammar), !nonterm(old(self).grammar, eof_of(old(self).grammar)), wok(old(self).grammar, old(self).follow@),
    ensures follow_exact(final(self).grammar, final(self).follow@),
        *final(self) == (Tabler { follow: final(self).follow, ..*old(self) }),
@entry
    let ghost g = self.grammar;
@loop 1 inv
    wok(g, val@), *self == (Tabler { follow: self.follow, ..*old(self) }),
@loop 1 inv if new
    wok(g, new@), tmono(val@, new@), new@ == val@ ==> tclosed(g, new@),
@loop 1 begin
    let ghost v0 = val;
@loop 1 dec
    troom(val@, g.symbols@)
@loop 1 end
    proof { lemma_tin_follow(g, val@); lemma_bmap_ext(v0); lemma_bmap_ext(val); lemma_troom(v0@, val@, g.symbols@); }
@let follow
    proof { lemma_follow_fix(g, follow@); }
@loop 2 inv
    $c1,
@loop 3 inv
    $c1,
@exit
    proof {
        let t = self.follow@;
        assert forall|x: T| #[trigger] t.contains_key(x) implies nonterm(g, x) by {}
        assert forall|x: T, a: T| t.contains_key(x) implies (#[trigger] t[x]@.contains(a) <==> follow_has(g, x, a)) by {}
        assert forall|x: T, a: T| #[trigger] follow_has(g, x, a) implies t.contains_key(x) by {}
    }

@@ fn Tabler::gen_follow group=follow
@spec
    requires gwf(self.grammar), !nonterm(self.grammar, eof_of(self.grammar)), first_exact(self.grammar, self.first@),
    ensures wok(self.grammar, r@),
@entry
    let ghost g = self.grammar;
    let ghost kd = g.rules@.dom();
@loop 1 inv
    wseed(g, table@, $i1 as int, 0, 0),
@loop 1 begin
    let ghost zz = set_seq(kd)[$i1 - 1];
    proof { assert(kd.contains(zz)); assert(g.rules@.contains_key(zz)); }
@loop 2 inv
    wseed(g, table@, $i1 - 1, $i2 as int, 0),
@loop 2 begin
    let ghost pp = rcv($x2);
    let ghost mut t1 = table@;
    proof { assert(is_prod(g, zz, pp)); }
@loop 3 after
    proof { t1 = table@; }
@loop 3 inv
    wseed(g, table@, $i1 - 1, $i2 - 1, $i3 as int),
@loop 3 begin
    let ghost t0 = table@;
    let ghost ii = $i3 - 1;
    let ghost xx = pp.0@[ii];
    let ghost bb = pp.0@[ii + 1];
    proof { assert(nonterm(g, xx) ==> at_pair(g, zz, pp, ii, xx)); }
@loop 3 end
    proof {
        if nonterm(g, xx) {
            assert(table@.contains_key(xx));
            assert forall|c: T| #[trigger] table@[xx]@.contains(c) <==> (t0.contains_key(xx) && t0[xx]@.contains(c)) || first_has(g, bb, c) by {
                if nonterm(g, bb) { assert(self.first@.contains_key(bb)); }
                else { assert(!leads(g, bb, c)) by { if leads(g, bb, c) { let n = choose|n: nat| leads_n(g, bb, c, n); lemma_leads_sym(g, bb, c, n); } } }
            }
            assert forall|c: T| first_has(g, bb, c) implies #[trigger] fbase(g, xx, c) by { assert(at_pair(g, zz, pp, ii, xx) && first_has(g, pp.0@[ii + 1], c)); }
            assert(table@ =~= t0.insert(xx, table@[xx]));
        } else { assert(table@ == t0); }
    }
@let last
    proof { assert(nonterm(g, pp.0@.last()) ==> ledge(g, pp.0@.last(), zz)); }
@loop 2 end
    proof {
        let x = pp.0@.last();
        if nonterm(g, x) && x != zz {
            assert forall|c: T| #[trigger] table@[x]@.contains(c) <==> (t1.contains_key(x) && t1[x]@.contains(c)) || c == zz by {}
            assert(table@ =~= t1.insert(x, table@[x]));
        } else { assert(table@ == t1); }
    }
@loop 1 after
    proof { lemma_wseed_end(g, table@, $i1 as int); }

@@ fn Tabler::new group=first,follow
@spec
    requires gwf(grammar), !nonterm(grammar, eof_of(grammar)),
    ensures r.grammar == grammar, first_exact(grammar, r.first@), follow_exact(grammar, r.follow@),
        r.actions@.len() == 0, r.states@.len() == 0, r.kernels@ == Map::<State<T>, usize>::empty(),

@@ fn Tabler::first_of group=first
@spec
    requires first_exact(self.grammar, self.first@),
    ensures forall|a: T| #[trigger] r@.contains(a) <==> exists|s: T| #[trigger] items@.contains(s) && first_of_sym(self.grammar, s, a),
@loop 1 inv
    forall|a: T| #[trigger] $c1@.contains(a) <==> exists|s: T| #[trigger] items@.contains(s) && first_of_sym(self.grammar, s, a) && set_idx(items@, s) < $i1,
@loop 1 begin
    let ghost f0 = $c1@;
    let ghost it = *$x1;
    proof { assert(items@.contains(it)); assert(set_idx(items@, it) == $i1 - 1); }
@loop 1 end
    proof { assert forall|a: T| #[trigger] $c1@.contains(a) <==> f0.contains(a) || first_of_sym(self.grammar, it, a) by {
        assert(self.grammar.rules@.dom().contains(it) <==> self.first@.dom().contains(it)); } }

@@ fn Tabler::sym_filter group=items
@spec
    ensures r == gotok(*state, *sym),
@loop 1 inv
    forall|q: Position<T>| #[trigger] $c1@.contains(q) <==> moved_upto(state@, *sym, q, $i1 as int),
@loop 1 begin
    proof { assert(state@.contains(*$x1)); assert(set_idx(state@, *$x1) == $i1 - 1); if top(*$x1) is Some { lemma_adv_back(*$x1); } }
@loop 1 end
    proof { assert forall|q: Position<T>| moved(state@, *sym, q) implies #[trigger] adv(back(q)) == q by {} }
@exit
    proof { lemma_moved_eq(*state, *sym, $r); }
