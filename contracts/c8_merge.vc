@@ fn Tabler::update_entry group=merge
@spec
    requires tgts(travel@, *old(entry)),
    ensures *final(entry) == relab(travel@, *old(entry)),
    decreases *old(entry),
@@ fn Tabler::reduced_actions group=merge
@spec
    requires self.actions@.len() <= self.states@.len(),
    ensures folded(self.actions@, r.0@, r.1@),
@loop 1 inv
    folded(self.actions@.take($i1 as int), travel_idx@, actions@),
@loop 1 inv if actions_map
    rowsmap(self.actions@, $i1 as int, actions_map@, actions@),
@loop 1 begin
    let ghost f0 = travel_idx@;
    let ghost a0 = actions@;
    let ghost o0 = *$x1.1;
    proof { assert($x1.0 == $i1 - 1 && o0 == self.actions@[$i1 - 1]); }
@loop 1 end
    proof {
        assert(travel_idx@ =~= f0.insert(($i1 - 1) as usize, travel_idx@[($i1 - 1) as usize]));
        lemma_fold_step(self.actions@, $i1 - 1, f0, a0, travel_idx@, actions@);
    }
@loop 1 after
    proof { assert(self.actions@.take(self.actions@.len() as int) =~= self.actions@); }
@@ fn Tabler::reduce_equals group=merge
@spec
    requires rng(old(self).actions@), old(self).actions@.len() <= old(self).states@.len(),
    ensures exists|f: Map<usize, usize>| #[trigger] merged(old(self).actions@, f, final(self).actions@),
        same_but_actions(*final(self), *old(self)),
@entry
    let ghost s0 = *self;
@let new_actions
    let ghost mid = new_actions@;
    let ghost f = travel@;
@loop 1 inv
    same_but_actions(*self, s0), forall|j: int| 0 <= j < $i1 ==> relrow(f, mid[j]@, (#[trigger] $p1@[j])@), forall|j: int| $i1 <= j < mid.len() ==> #[trigger] $p1@[j] == mid[j],
@loop 1 begin
    let ghost r0 = $x1@;
    let ghost mut q0 = $x1@;
@loop 2 inv
    q0 == $x1@,
    row_upd(f, r0, set_seq(r0.dom()), $i2 as int, $x1@),
@loop 2 begin
    proof {
        let a = set_seq(r0.dom())[$i2 - 1];
        assert(r0.dom().contains(a));
        lemma_row_tgts(s0.actions@, f, mid, $i1 - 1, a);
        assert(q0[a] == r0[a]);
    }
@loop 2 end
    proof { lemma_upd_next(f, r0, set_seq(r0.dom()), $i2 - 1, q0, $x1@); q0 = $x1@; }
@loop 2 after
    proof { lemma_upd_all(f, r0, set_seq(r0.dom()), $x1@); }
@loop 1 after
    proof { lemma_folded(s0.actions@, f, mid, $p1@); }
@exit
    proof { assert(merged(s0.actions@, f, self.actions@)); }
