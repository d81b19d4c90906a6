
// ===================================================================================================
// Grammar, positions: spec vocabulary
// ===================================================================================================
pub mod th_grammar {
use super::*;
broadcast use model::group_model;

pub open spec fn nonterm<T>(g: Grammar<T>, x: T) -> bool { g.rules@.contains_key(x) }

/// `x -> p.0` is the production number `p.1` of rule `x`.
pub open spec fn is_prod<T>(g: Grammar<T>, x: T, p: Production<T>) -> bool {
    g.rules@.contains_key(x) && 0 <= p.1 < g.rules@[x].prods@.len() && *g.rules@[x].prods@[p.1 as int] == p
}

/// A rule as `Rule::new` builds it: productions numbered in declaration order.
pub open spec fn rule_wf<T>(r: Rule<T>) -> bool {
    forall|i: int| 0 <= i < r.prods@.len() ==> (#[trigger] r.prods@[i]).1 == i
}
/// No empty production.
pub open spec fn rule_full<T>(r: Rule<T>) -> bool {
    forall|i: int| 0 <= i < r.prods@.len() ==> (#[trigger] r.prods@[i]).0@.len() > 0
}
pub open spec fn rules_wf<T>(rules: Map<T, Rule<T>>) -> bool {
    forall|x: T| #[trigger] rules.contains_key(x) ==> rules[x].name == x && rule_wf(rules[x]) && rule_full(rules[x])
}
/// `a` is a symbol of some body.
pub open spec fn in_body<T>(rules: Map<T, Rule<T>>, a: T) -> bool {
    exists|x: T, i: int, j: int| #[trigger] body_at(rules, x, i, j, a)
}
pub open spec fn body_at<T>(rules: Map<T, Rule<T>>, x: T, i: int, j: int, a: T) -> bool {
    rules.contains_key(x) && 0 <= i < rules[x].prods@.len() && 0 <= j < rules[x].prods@[i].0@.len()
        && rules[x].prods@[i].0@[j] == a
}
pub open spec fn eof_of<T>(g: Grammar<T>) -> T { set_seq(g.basis.look@)[0] }

/// What `Grammar::new` establishes.
pub open spec fn gwf<T>(g: Grammar<T>) -> bool {
    &&& rules_wf(g.rules@)
    &&& (forall|a: T| #[trigger] g.terminals@.contains(a) <==> (in_body(g.rules@, a) && !nonterm(g, a)) || a == eof_of(g))
    &&& (forall|a: T| #[trigger] g.symbols@.contains(a) <==> nonterm(g, a) || g.terminals@.contains(a))
    &&& g.rules@.contains_key(g.basis.rule)
    &&& g.rules@[g.basis.rule].prods@.len() == 1
    &&& g.basis.seq == g.rules@[g.basis.rule].prods@[0]
    &&& g.basis.point == 0
    &&& g.basis.look@ == Set::<T>::empty().insert(eof_of(g))
}
/// The documented precondition on grammars given to a parser: augmented (the start symbol is in no
/// body) with a fresh end marker.
pub open spec fn gpre<T>(g: Grammar<T>) -> bool {
    &&& gwf(g)
    &&& !in_body(g.rules@, g.basis.rule)
    &&& !in_body(g.rules@, eof_of(g))
    &&& !nonterm(g, eof_of(g))
}

// ---- positions
pub open spec fn top<T>(p: Position<T>) -> Option<T> {
    if p.point < p.seq.0@.len() { Some(p.seq.0@[p.point as int]) } else { None }
}
pub open spec fn next_of<T>(p: Position<T>) -> Option<T> {
    if p.point + 1 < p.seq.0@.len() { Some(p.seq.0@[p.point + 1]) } else { None }
}
pub open spec fn adv<T>(p: Position<T>) -> Position<T> { Position { point: (p.point + 1) as usize, ..p } }
pub open spec fn back<T>(p: Position<T>) -> Position<T> { Position { point: (p.point - 1) as usize, ..p } }
pub open spec fn core<T>(p: Position<T>) -> Position<T> { Position { look: bset(Set::empty()), ..p } }

pub broadcast proof fn lemma_push_contains<T>(s: Seq<T>, x: T, a: T)
    ensures #[trigger] s.push(x).contains(a) <==> s.contains(a) || a == x
{
    if s.contains(a) { let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(s.push(x)[i] == a); }
    if a == x { assert(s.push(x)[s.len() as int] == a); }
    if s.push(x).contains(a) && a != x { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == a; assert(s[i] == a); }
}
pub broadcast proof fn lemma_empty_contains<T>(a: T)
    ensures !(#[trigger] Seq::<T>::empty().contains(a))
{}
pub broadcast proof fn lemma_to_set_contains<T>(s: Seq<T>, a: T)
    ensures #[trigger] s.to_set().contains(a) <==> s.contains(a)
{ broadcast use vstd::seq_lib::group_seq_properties; }
pub proof fn lemma_single<T>(x: T)
    ensures set_seq(Set::<T>::empty().insert(x)).len() == 1, set_seq(Set::<T>::empty().insert(x))[0] == x
{
    broadcast use vstd::set::group_set_lemmas;
    let s = Set::<T>::empty().insert(x);
    assert(s.contains(x));
    assert(s.len() == 1);
}
pub open spec fn rcv<A>(x: Rc<A>) -> A { *x }
pub open spec fn rule_acc<T>(c: Seq<Rc<Production<T>>>, bodies: Seq<Vec<T>>, n: int) -> bool {
    c.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] c[i]).0 == bodies[i] && c[i].1 == i
}

/// `q` is an item of `s` that has `x` after the dot, with the dot moved over `x`.
pub open spec fn moved<T>(s: Set<Position<T>>, x: T, q: Position<T>) -> bool {
    q.point > 0 && s.contains(back(q)) && top(back(q)) == Some(x)
}
pub proof fn lemma_adv_back<T>(p: Position<T>)
    requires top(p) is Some ensures back(adv(p)) == p, adv(p).point > 0, adv(p).point == p.point + 1
{ assert(p.seq.0.len() <= usize::MAX); }
pub open spec fn moved_upto<T>(s: Set<Position<T>>, x: T, q: Position<T>, n: int) -> bool {
    moved(s, x, q) && set_idx(s, back(q)) < n
}
pub broadcast proof fn lemma_core<T>(p: Position<T>)
    ensures (#[trigger] core(p)).look@ == Set::<T>::empty(), core(p).rule == p.rule, core(p).seq == p.seq, core(p).point == p.point
{
    let e: BSet<T> = bset(Set::empty());
    lemma_bset_view(Set::<T>::empty());
}
pub proof fn lemma_prod_body<T>(g: Grammar<T>, x: T, p: Production<T>, j: int)
    requires is_prod(g, x, p), 0 <= j < p.0@.len()
    ensures in_body(g.rules@, p.0@[j]), body_at(g.rules@, x, p.1 as int, j, p.0@[j])
{
    assert(body_at(g.rules@, x, p.1 as int, j, p.0@[j]));
}
pub proof fn lemma_body_sym<T>(g: Grammar<T>, x: T, p: Production<T>, j: int)
    requires gwf(g), is_prod(g, x, p), 0 <= j < p.0@.len()
    ensures g.symbols@.contains(p.0@[j])
{
    lemma_prod_body(g, x, p, j);
    assert(nonterm(g, p.0@[j]) || g.terminals@.contains(p.0@[j]));
}
pub proof fn lemma_prod_nonempty<T>(g: Grammar<T>, x: T, p: Production<T>)
    requires gwf(g), is_prod(g, x, p)
    ensures p.0@.len() > 0
{}
pub broadcast group group_base { lemma_push_contains, lemma_empty_contains, lemma_to_set_contains }
} // mod th_grammar
pub use th_grammar::*;
