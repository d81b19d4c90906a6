@@ fn Clr::dfa Slr::dfa Lalr::dfa group=parser
@spec
    requires gwf(self.table.grammar),
    ensures made_of(r, self.table, buffer@), r.reductors == maps,
@@ fn Clr::simple_dfa Slr::simple_dfa Lalr::simple_dfa group=parser
@spec
    requires gwf(self.table.grammar),
    ensures made_of(r, self.table, buffer@), reds_full(self.table.grammar, r.reductors),
@@ fn Clr::cloned Slr::cloned Lalr::cloned group=parser
@spec
    ensures rules_wf(self.table.grammar.rules@) ==> reds_full(self.table.grammar, r),
@@ fn Clr::empty Slr::empty Lalr::empty group=parser
@spec
    ensures rules_wf(self.table.grammar.rules@) ==> reds_full(self.table.grammar, r),
@@ fn Clr::parse Slr::parse Lalr::parse group=parser
@spec
    requires built(self.table), reds_full(self.table.grammar, maps),
    ensures
        only_sentences(self.table.grammar, buffer@, r),
        all_sentences(self.table.grammar, self.table.actions@, buffer@, r),
        evaluated(self.table.grammar, maps, buffer@, r),
        err_kind(self.table.actions@, eof_of(self.table.grammar), buffer@, r),
        accurate(self.table.grammar, self.table.actions@, eof_of(self.table.grammar), buffer@, r),
        decided(self.table.actions@, eof_of(self.table.grammar), buffer@, r),
        outcome(self.table.actions@, eof_of(self.table.grammar), buffer@, maps, r),
@entry
    proof {
        lemma_built_gpre(self.table);
        lemma_made(self.table, maps, buffer@);
        assert forall|d: Dfa<M, T>, e: Dfa<M, T>, q: BaseResult<(), Error<T>>| made_of(d, self.table, buffer@) && d.reductors == maps && #[trigger] ran(d, e, q) implies
            (q is Ok ==> e.items@.len() > 0) && outcome(self.table.actions@, eof_of(self.table.grammar), buffer@, maps, res_of(e, q)) && parsed(self.table.grammar, self.table.actions@, buffer@, maps, res_of(e, q)) by {
            lemma_ran_parsed(self.table, maps, buffer@, d, e, q);
        }
    }
@@ fn Clr::validate Slr::validate Lalr::validate group=parser
@spec
    requires built(self.table),
    ensures r <==> accepts(self.table.actions@, eof_of(self.table.grammar), buffer@), r ==> sentence(self.table.grammar, buffer@),
        sentence(self.table.grammar, buffer@) && noconf(self.table.actions@) ==> r,
@entry
    proof { lemma_built_gpre(self.table); }
@@ fn Clr::reduce_equals Slr::reduce_equals Lalr::reduce_equals group=merge
@spec
    requires built(old(self).table),
    ensures exists|f: Map<usize, usize>| #[trigger] merged(old(self).table.actions@, f, final(self).table.actions@),
        same_but_actions(final(self).table, old(self).table), built(final(self).table), rng(final(self).table.actions@),
@entry
    let ghost t0 = self.table;
    proof { lemma_ready_rng(t0.grammar, t0.actions@); }
@exit
    proof {
        let f = choose|f: Map<usize, usize>| #[trigger] merged(t0.actions@, f, self.table.actions@);
        lemma_built_merged(t0, self.table, f);
        lemma_merged_rng(t0.actions@, f, self.table.actions@);
    }
