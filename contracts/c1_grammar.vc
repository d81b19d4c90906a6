@@ fn Rule::new group=grammar
@spec
    ensures r.name == name, r.prods@.len() == prods@.len(),
        forall|i: int| 0 <= i < r.prods@.len() ==> (#[trigger] r.prods@[i]).0 == prods@[i] && r.prods@[i].1 == i,
        rule_wf(r),
@loop 1 inv
    rule_acc($c1@, prods@, $i1 as int),
@@ fn Rule::single group=grammar
@spec
    ensures r.name == name, r.prods@.len() == 1, r.prods@[0].0 == prod, r.prods@[0].1 == 0, rule_wf(r),
@@ fn Rule::prods group=grammar
@spec
    ensures r@ =~= self.prods@,

@@ fn Grammar::new group=grammar
@spec
    requires rules_wf(rules@), rules@.contains_key(start), rules@[start].prods@.len() == 1,
    ensures gwf(r), r.rules == rules, r.basis.rule == start, eof_of(r) == eof,
        !rules@.contains_key(eof) && !in_body(rules@, eof) && !in_body(rules@, start) ==> gpre(r),
        forall|a: T| #[trigger] r.terminals@.contains(a) <==> (in_body(rules@, a) && !rules@.contains_key(a)) || a == eof,
        forall|a: T| #[trigger] r.symbols@.contains(a) <==> rules@.contains_key(a) || in_body(rules@, a) || a == eof,
@loop 1 before
    let ghost t0 = terminals@;
@loop 1 inv
    t0.subset_of(terminals@),
    forall|a: T| #[trigger] terminals@.contains(a) ==> a == eof || !rules@.contains_key(a) && in_body(rules@, a),
    forall|x: T, i: int, j: int, a: T| #[trigger] body_at(rules@, x, i, j, a) && !rules@.contains_key(a) && set_idx(rules@.dom(), x) < $i1 ==> terminals@.contains(a),
@loop 2 inv
    t0.subset_of(terminals@),
    forall|a: T| #[trigger] terminals@.contains(a) ==> a == eof || !rules@.contains_key(a) && in_body(rules@, a),
    forall|x: T, i: int, j: int, a: T| #[trigger] body_at(rules@, x, i, j, a) && !rules@.contains_key(a)
        && (set_idx(rules@.dom(), x) < $i1 - 1 || (set_idx(rules@.dom(), x) == $i1 - 1 && i < $i2)) ==> terminals@.contains(a),
@loop 3 inv
    t0.subset_of(terminals@),
    forall|a: T| #[trigger] terminals@.contains(a) ==> a == eof || !rules@.contains_key(a) && in_body(rules@, a),
    forall|x: T, i: int, j: int, a: T| #[trigger] body_at(rules@, x, i, j, a) && !rules@.contains_key(a)
        && (set_idx(rules@.dom(), x) < $i1 - 1 || (set_idx(rules@.dom(), x) == $i1 - 1 && (i < $i2 - 1 || (i == $i2 - 1 && j < $i3)))) ==> terminals@.contains(a),
@loop 3 begin
    proof {
        let x = set_seq(rules@.dom())[$i1 - 1];
        assert(rules@.dom().contains(x));
        assert(body_at(rules@, x, $i2 - 1, $i3 - 1, *$x3));
    }
@exit
    proof { assert(rules@.dom().contains(start)); lemma_single(eof); }

@@ fn Grammar::basis group=grammar
@spec
    ensures r == self.basis,
@@ fn Grammar::is_terminal group=grammar
@spec
    ensures r == !nonterm(*self, *term),
@@ fn Grammar::rules group=grammar
@spec
    ensures r@.len() == set_seq(self.rules@.dom()).len(),
        forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == self.rules@[set_seq(self.rules@.dom())[i]],
@@ fn Grammar::symbols group=grammar
@spec
    ensures r@ =~= set_seq(self.symbols@),

@@ fn Position::new group=pos
@spec
    ensures r == (Position { rule, seq, point, look }),
@@ fn Position::with_look group=pos
@spec
    ensures r == (Position { look, ..self }),
@@ fn Position::next group=pos
@spec
    requires self.point < usize::MAX,
    ensures r == next_of(*self),
@@ fn Position::peek group=pos
@spec
    requires self.point + qty <= usize::MAX,
    ensures r == (if self.point + qty < self.seq.0@.len() { Some(self.seq.0@[self.point + qty]) } else { None }),
@@ fn Position::top group=pos
@spec
    ensures r == top(*self),
@@ fn Position::finished group=pos
@spec
    ensures r == (top(*self) is None),
@@ fn Position::body_eq group=pos
@spec
    ensures r == (core(*self) == core(*rhs)),
@@ fn Position::adv group=pos
@spec
    requires old(self).point < usize::MAX,
    ensures *final(self) == adv(*old(self)),
@@ fn Position::abs_idx group=pos
@spec
    ensures r == (if idx < self.seq.0@.len() { Some(self.seq.0@[idx as int]) } else { None }),
@@ fn Position::no_look group=pos
@spec
    ensures r == core(*self),
@@ fn Position::clone_next group=pos
@spec
    ensures r == (if top(*self) is None { None } else { Some(adv(*self)) }),
@entry
    proof { assert(self.seq.0.len() <= usize::MAX); }
