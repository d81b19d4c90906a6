@@ fn Token::new group=token
@spec
    ensures r.item == item, r.ty == ty,
@@ fn Token::empty group=token
@spec
    ensures r.ty == ty,
@@ fn to_tokens group=token
@spec
    ensures typed(r@, it@),
@loop 1 inv
    typed($c1@, it@.take($i1 as int)),
@@ fn Dfa::new group=driver_init
@spec
    ensures r.table == table, r.reductors == reductors, r.eof == eof, r.buffer@ == buffer@, fresh(r),
@@ fn Dfa::transparent group=driver_init
@spec
    ensures rules_wf(table.grammar.rules@) ==> reds_full(table.grammar, r),
@loop 1 inv
    frows(table.grammar, $c1@.as_map(), $i1 as int),
@loop 1 begin
    let ghost c0 = $c1@.as_map();
@loop 2 inv
    $c2@.len() == $i2,
@loop 1 end
    proof {
        if rules_wf(table.grammar.rules@) {
            let d = set_seq(table.grammar.rules@.dom());
            assert(table.grammar.rules@.dom().contains(d[$i1 - 1]));
            assert forall|i: int| 0 <= i < $i1 implies #[trigger] frow(table.grammar, $c1@.as_map(), i) by { assert(table.grammar.rules@.dom().contains(d[i])); if i < $i1 - 1 { assert(frow(table.grammar, c0, i)); } }
        }
    }
@loop 1 after
    proof { assert forall|red: ReductMap<T, M>| rules_wf(table.grammar.rules@) && red@ == $c1@.as_map() implies #[trigger] reds_full(table.grammar, red) by { lemma_frows(table.grammar, red); } }
@@ fn Dfa::shift group=driver
@spec
    ensures shift_ctl(*old(self), to, *final(self), r), shift_val(*old(self), *final(self)),
@@ fn Dfa::accept group=driver
@spec
    ensures ends_run(*old(self), *final(self), r),
@@ fn Dfa::goto group=driver
@spec
    ensures goes(*old(self), to, *final(self), r),
@@ fn Dfa::travel group=driver
@spec
    requires can_travel(*old(self), *symbol),
    ensures travel_ctl(*old(self), *symbol, *final(self), r), travel_val(*old(self), *symbol, *final(self)), reports(*old(self), *symbol, r),
    decreases travel_rank(*old(self), *symbol),
@@ fn Dfa::reduce group=driver
@spec
    requires can_reduce(*old(self), *name, *prod),
    ensures reduce_ctl(*old(self), *name, *prod, *final(self), r), reduce_val(*old(self), *name, *prod, *final(self)),
    decreases 1nat,
@@ fn Dfa::start group=driver
@spec
    requires fresh(*old(self)), safe(old(self).table@, old(self).eof, old(self).buffer@), reds_ok(old(self).table@, old(self).reductors),
    ensures ran(*old(self), *final(self), r),
@entry
    let ghost d0 = *self;
    let ghost mut c = init(self.buffer@);
    let ghost mut k: nat = 0;
    proof { lemma_fresh(d0); }
@loop 1 inv
    same_env(d0, *self), loop_ok(d0, *self, c, k),
    forall|n: nat| #[trigger] halts_by(d0.table@, d0.eof, d0.buffer@, n) ==> k <= n,
@loop 1 begin
    let ghost d = *self;
    proof {
        let a = look_of(c.buf, self.eof);
        assert(iter(d0.table@, d0.eof, init(d0.buffer@), k + 1) == step(d0.table@, d0.eof, c));
        lemma_can_travel(d, c, a);
        assert forall|e: Dfa<T, M>, r: BaseResult<(), Error<M>>| #[trigger] travel_ctl(d, a, e, r) && travel_val(d, a, e) && reports(d, a, r) implies
            did(d, c, e, r) by { lemma_did(d, c, a, e, r); }
        lemma_not_yet(d0.table@, d0.eof, d0.buffer@, c, k);
    }
@loop 1 end
    proof { k = k + 1; c = out_next(step(d0.table@, d0.eof, c), c); }
@@ fn Dfa::reset group=reset
@spec
    ensures same_env(*old(self), *final(self)), fresh(*final(self)), final(self).buffer == old(self).buffer,
@@ fn Dfa::parse group=reset
@spec
    requires safe(old(self).table@, old(self).eof, input@), reds_ok(old(self).table@, old(self).reductors),
    ensures same_env(*old(self), *final(self)), outcome(old(self).table@, old(self).eof, input@, old(self).reductors, r),
