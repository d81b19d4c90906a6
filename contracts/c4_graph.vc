
@@ fn Clr::proc_closures_first_row group=graph
@spec
    requires tbase(old(self).table), old(self).table.states@.len() == 0, old(self).table.kernels@ == Map::<State<T>, usize>::empty(),
    ensures kpart(final(self).table, true, 0, 0), same_base(final(self).table, old(self).table), final(self).table.states@.len() == 1,
@entry
    proof { lemma_basis_ok(self.table.grammar); lemma_e_state::<T>(); }
@exit
    proof { lemma_kfirst(self.table, true); }

@@ fn Clr::proc_closures group=graph
@spec
    requires tbase(old(self).table), old(self).table.states@.len() == 0, old(self).table.kernels@ == Map::<State<T>, usize>::empty(),
    ensures kgraph(final(self).table, true), same_base(final(self).table, old(self).table),
@loop 1 inv
    idx <= self.table.states@.len(), kpart(self.table, true, idx as int, 0), same_base(self.table, old(self).table),
@loop 1 dec
    powerset(univ(self.table.grammar)).len() - idx
@loop 1 begin
    let ghost st0 = self.table.states@;
    proof { lemma_kbound(self.table, true); }
@loop 2 inv
    idx < self.table.states@.len(), self.table.states@[idx as int] == st0[idx as int], kpart(self.table, true, idx as int, $i2 as int), same_base(self.table, old(self).table),
@loop 2 begin
    let ghost t0 = self.table;
    let ghost sy = set_seq(self.table.grammar.symbols@)[$i2 - 1];
    proof { let ss = self.table.grammar.symbols@; assert(ss.contains(set_seq(ss)[$i2 - 1])); assert(items_ok(self.table.grammar, self.table.states@[idx as int]@)); }
@loop 2 end
    proof {
        if self.table.states@.len() == t0.states@.len() { lemma_kstep_old(t0, true, idx as int, $i2 - 1, sy); }
        else { lemma_kstep_new(t0, self.table, true, idx as int, $i2 - 1, sy, gotok(t0.states@[idx as int], sy), self.table.states@.last()); }
    }
@loop 1 end
    proof { lemma_kbound(self.table, true); lemma_knext(self.table, true, idx - 1); }
@exit
    proof { lemma_kdone_all(self.table, true, idx as int); }

@@ fn Slr::proc_closures_first_row group=graph
@spec
    requires tbase(old(self).table), old(self).table.states@.len() == 0, old(self).table.kernels@ == Map::<State<T>, usize>::empty(),
    ensures kpart(final(self).table, false, 0, 0), same_base(final(self).table, old(self).table), final(self).table.states@.len() == 1,
@entry
    proof { lemma_basis_ok(self.table.grammar); lemma_e_state::<T>(); }
@exit
    proof { lemma_kfirst(self.table, false); }

@@ fn Slr::proc_closures group=graph
@spec
    requires tbase(old(self).table), old(self).table.states@.len() == 0, old(self).table.kernels@ == Map::<State<T>, usize>::empty(),
    ensures kgraph(final(self).table, false), same_base(final(self).table, old(self).table),
@loop 1 inv
    idx <= self.table.states@.len(), kpart(self.table, false, idx as int, 0), same_base(self.table, old(self).table),
@loop 1 dec
    powerset(univ(self.table.grammar)).len() - idx
@loop 1 begin
    let ghost st0 = self.table.states@;
    proof { lemma_kbound(self.table, false); }
@loop 2 inv
    idx < self.table.states@.len(), self.table.states@[idx as int] == st0[idx as int], kpart(self.table, false, idx as int, $i2 as int), same_base(self.table, old(self).table),
@loop 2 begin
    let ghost t0 = self.table;
    let ghost sy = set_seq(self.table.grammar.symbols@)[$i2 - 1];
    proof { let ss = self.table.grammar.symbols@; assert(ss.contains(set_seq(ss)[$i2 - 1])); assert(items_ok(self.table.grammar, self.table.states@[idx as int]@)); }
@loop 2 end
    proof {
        if self.table.states@.len() == t0.states@.len() { lemma_kstep_old(t0, false, idx as int, $i2 - 1, sy); }
        else { lemma_kstep_new(t0, self.table, false, idx as int, $i2 - 1, sy, gotok(t0.states@[idx as int], sy), self.table.states@.last()); }
    }
@loop 1 end
    proof { lemma_kbound(self.table, false); lemma_knext(self.table, false, idx - 1); }
@exit
    proof { lemma_kdone_all(self.table, false, idx as int); }
