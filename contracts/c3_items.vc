
@@ fn Clr::closure Lalr::closure group=closure
@spec
    requires tbase(self.table), items_ok(self.table.grammar, state@),
    ensures is_cl1(self.table.grammar, true, state@, r@),
@entry
    let ghost g = self.table.grammar;
    let ghost st = state@;
@loop 1 before
    let ghost n00 = new_state@;
@loop 1 inv
    forall|q: Position<T>| #[trigger] new_state@.contains(q) <==> n00.contains(q) || cl_upto(g, true, st, $i1 as int, q),
@loop 1 begin
    let ghost n0 = new_state@;
    proof { assert(st.contains(*$x1)); assert(set_idx(st, *$x1) == $i1 - 1); assert(item_ok(g, *$x1)); assert($x1.seq.0.len() <= usize::MAX); }
@loop 1 end
    proof {
        assert forall|q: Position<T>| #[trigger] new_state@.contains(q) <==> n0.contains(q) || cstep(g, true, *$x1, q) by {
            assert(cstep(g, true, *$x1, q) <==> cstep(g, true, *$x1, q) && g.rules@.contains_key(q.rule));
        }
        assert forall|q: Position<T>| #[trigger] new_state@.contains(q) <==> n00.contains(q) || cl_upto(g, true, st, $i1 as int, q) by {
            if n0.contains(q) { let p = choose|p: Position<T>| st.contains(p) && set_idx(st, p) < $i1 - 1 && #[trigger] cstep(g, true, p, q); }
        }
    }
@loop 2 before
    let ghost n1 = new_state@;
    proof {
        assert forall|a: T| #[trigger] look@.contains(a) <==> look_has(g, true, *pos, a) by {
            if next_of(*pos) is Some {
                let b = next_of(*pos)->0;
                let one = Set::<T>::empty().insert(b);
                assert(one.contains(b));
                if first_of_sym(g, b, a) { assert(one.contains(b) && first_of_sym(g, b, a)); }
            }
        }
    }
@loop 2 inv
    forall|q: Position<T>| #[trigger] new_state@.contains(q) <==> n1.contains(q) || derived_upto(top, g.rules@[top].prods@, look, $i2 as int, q),
@loop 2 after
    proof { lemma_derived(g, true, *pos, top, look); }

@@ fn Slr::closure group=closure
@spec
    requires tbase(self.table), items_ok(self.table.grammar, state@),
    ensures is_cl1(self.table.grammar, false, state@, r@),
@entry
    let ghost g = self.table.grammar;
    let ghost st = state@;
@loop 1 before
    let ghost n00 = new_state@;
@loop 1 inv
    forall|q: Position<T>| #[trigger] new_state@.contains(q) <==> n00.contains(q) || cl_upto(g, false, st, $i1 as int, q),
@loop 1 begin
    let ghost n0 = new_state@;
    proof { assert(st.contains(*$x1)); assert(set_idx(st, *$x1) == $i1 - 1); assert(item_ok(g, *$x1)); assert($x1.seq.0.len() <= usize::MAX); }
@loop 1 end
    proof {
        assert forall|q: Position<T>| #[trigger] new_state@.contains(q) <==> n0.contains(q) || cstep(g, false, *$x1, q) by {
            assert(cstep(g, false, *$x1, q) <==> cstep(g, false, *$x1, q) && g.rules@.contains_key(q.rule));
        }
        assert forall|q: Position<T>| #[trigger] new_state@.contains(q) <==> n00.contains(q) || cl_upto(g, false, st, $i1 as int, q) by {
            if n0.contains(q) { let p = choose|p: Position<T>| st.contains(p) && set_idx(st, p) < $i1 - 1 && #[trigger] cstep(g, false, p, q); }
        }
    }
@loop 2 before
    let ghost n1 = new_state@;
    let ghost e: BSet<T> = bset(Set::empty());
    proof { lemma_bset_view(Set::<T>::empty()); }
@loop 2 inv
    forall|q: Position<T>| #[trigger] new_state@.contains(q) <==> n1.contains(q) || derived_upto(top, g.rules@[top].prods@, e, $i2 as int, q),
@loop 2 after
    proof { lemma_derived(g, false, *pos, top, e); }

@@ fn Clr::prop_closure Lalr::prop_closure group=closure
@spec
    requires tbase(self.table), items_ok(self.table.grammar, seed@),
    ensures is_closure(self.table.grammar, true, seed@, r@), items_ok(self.table.grammar, r@),
@entry
    let ghost g = self.table.grammar;
    let ghost sd = seed@;
    proof { lemma_cpart_refl(g, true, sd); }
@loop 1 inv
    cpart(g, true, sd, val@), items_ok(g, val@),
@loop 1 inv if new
    is_cl1(g, true, val@, new@), items_ok(g, new@), cpart(g, true, sd, new@),
@loop 1 after if new
    proof { lemma_cl1_ok(g, true, val@, new@); lemma_cpart_step(g, true, sd, val@, new@); lemma_bset_ext(val); lemma_bset_ext(new); }
@loop 1 begin
    let ghost v0 = val;
@loop 1 dec
    croom(g, val@)
@let new
    proof { lemma_cl1_ok(g, true, val@, new@); lemma_cpart_step(g, true, sd, val@, new@); lemma_bset_ext(val); lemma_bset_ext(new); }
@loop 1 end
    proof { lemma_croom(g, v0@, val@); }

@@ fn Slr::prop_closure group=closure
@spec
    requires tbase(self.table), items_ok(self.table.grammar, seed@),
    ensures is_closure(self.table.grammar, false, seed@, r@), items_ok(self.table.grammar, r@),
@entry
    let ghost g = self.table.grammar;
    let ghost sd = seed@;
    proof { lemma_cpart_refl(g, false, sd); }
@loop 1 inv
    cpart(g, false, sd, val@), items_ok(g, val@),
@loop 1 inv if new
    is_cl1(g, false, val@, new@), items_ok(g, new@), cpart(g, false, sd, new@),
@loop 1 after if new
    proof { lemma_cl1_ok(g, false, val@, new@); lemma_cpart_step(g, false, sd, val@, new@); lemma_bset_ext(val); lemma_bset_ext(new); }
@loop 1 begin
    let ghost v0 = val;
@loop 1 dec
    croom(g, val@)
@let new
    proof { lemma_cl1_ok(g, false, val@, new@); lemma_cpart_step(g, false, sd, val@, new@); lemma_bset_ext(val); lemma_bset_ext(new); }
@loop 1 end
    proof { lemma_croom(g, v0@, val@); }

@@ fn Clr::goto Lalr::goto group=closure
@spec
    requires tbase(self.table), items_ok(self.table.grammar, kernels@),
    ensures
        r is None ==> self.table.kernels@.contains_key(gotok(*kernels, *sym)) || gotok(*kernels, *sym)@ == Set::<Position<T>>::empty(),
        r is Some ==> (r->0).0 == gotok(*kernels, *sym) && !self.table.kernels@.contains_key((r->0).0) && (r->0).0@ != Set::<Position<T>>::empty()
            && is_closure(self.table.grammar, true, (r->0).0@, (r->0).1@) && items_ok(self.table.grammar, (r->0).1@) && items_ok(self.table.grammar, (r->0).0@),
@entry
    let ghost g = self.table.grammar;
    let ghost k0 = *kernels;
    proof { lemma_goto_ok(g, *kernels, *sym); }
@exit
    proof { lemma_closure_empty(g, true, gotok(k0, *sym)@); }

@@ fn Slr::goto group=closure
@spec
    requires tbase(self.table), items_ok(self.table.grammar, kernels@),
    ensures
        r is None ==> self.table.kernels@.contains_key(gotok(*kernels, *sym)) || gotok(*kernels, *sym)@ == Set::<Position<T>>::empty(),
        r is Some ==> (r->0).0 == gotok(*kernels, *sym) && !self.table.kernels@.contains_key((r->0).0) && (r->0).0@ != Set::<Position<T>>::empty()
            && is_closure(self.table.grammar, false, (r->0).0@, (r->0).1@) && items_ok(self.table.grammar, (r->0).1@) && items_ok(self.table.grammar, (r->0).0@),
@entry
    let ghost g = self.table.grammar;
    let ghost k0 = *kernels;
    proof { lemma_goto_ok(g, *kernels, *sym); }
@exit
    proof { lemma_closure_empty(g, false, gotok(k0, *sym)@); }
