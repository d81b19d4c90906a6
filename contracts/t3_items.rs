
// ===================================================================================================
// Item sets: closure and goto.  `lr` = true: items carry lookaheads (CLR, LALR); false: no lookahead (SLR).
// ===================================================================================================
pub mod th_items {
use super::*;
broadcast use {model::group_model, th_grammar::group_base};

/// FIRST of one symbol: {x} for a terminal.
pub open spec fn first_of_sym<T>(g: Grammar<T>, x: T, a: T) -> bool {
    if nonterm(g, x) { first_has(g, x, a) } else { a == x }
}
pub proof fn lemma_first_of_sym<T>(g: Grammar<T>, x: T, a: T)
    requires gwf(g)
    ensures first_of_sym(g, x, a) <==> first_has(g, x, a), first_of_sym(g, x, a) && g.symbols@.contains(x) ==> g.symbols@.contains(a) && !nonterm(g, a)
{
    if leads(g, x, a) { let n = choose|n: nat| leads_n(g, x, a, n); lemma_leads_sym(g, x, a, n); }
}

/// Lookaheads of the items that the closure derives from `p`.
pub open spec fn look_has<T>(g: Grammar<T>, lr: bool, p: Position<T>, a: T) -> bool {
    lr && match next_of(p) { Some(b) => first_of_sym(g, b, a), None => p.look@.contains(a) }
}
/// `q` is derived from `p` in one closure step: p = [X -> α . B β, l], q = [B -> . γ, FIRST(βl)].
pub open spec fn cstep<T>(g: Grammar<T>, lr: bool, p: Position<T>, q: Position<T>) -> bool {
    &&& top(p) == Some(q.rule)
    &&& is_prod(g, q.rule, *q.seq)
    &&& q.point == 0
    &&& forall|a: T| #[trigger] q.look@.contains(a) <==> look_has(g, lr, p, a)
}
/// `q` is in the closure of `s`, after at most `n` closure steps.
pub open spec fn creach<T>(g: Grammar<T>, lr: bool, s: Set<Position<T>>, q: Position<T>, n: nat) -> bool decreases n {
    s.contains(q) || (n > 0 && exists|p: Position<T>| creach(g, lr, s, p, (n - 1) as nat) && #[trigger] cstep(g, lr, p, q))
}
pub open spec fn in_closure<T>(g: Grammar<T>, lr: bool, s: Set<Position<T>>, q: Position<T>) -> bool {
    exists|n: nat| creach(g, lr, s, q, n)
}
/// `r` is exactly the closure of `s`.
pub open spec fn is_closure<T>(g: Grammar<T>, lr: bool, s: Set<Position<T>>, r: Set<Position<T>>) -> bool {
    forall|q: Position<T>| #[trigger] r.contains(q) <==> in_closure(g, lr, s, q)
}
pub open spec fn cclosed<T>(g: Grammar<T>, lr: bool, s: Set<Position<T>>) -> bool {
    forall|p: Position<T>, q: Position<T>| s.contains(p) && #[trigger] cstep(g, lr, p, q) ==> s.contains(q)
}
/// One application of `closure`.
pub open spec fn is_cl1<T>(g: Grammar<T>, lr: bool, s: Set<Position<T>>, r: Set<Position<T>>) -> bool {
    forall|q: Position<T>| #[trigger] r.contains(q) <==> s.contains(q) || exists|p: Position<T>| s.contains(p) && #[trigger] cstep(g, lr, p, q)
}
/// While iterating: nothing outside the closure, the seed inside.
pub open spec fn cpart<T>(g: Grammar<T>, lr: bool, s: Set<Position<T>>, r: Set<Position<T>>) -> bool {
    s.subset_of(r) && forall|q: Position<T>| #[trigger] r.contains(q) ==> in_closure(g, lr, s, q)
}
pub proof fn lemma_cpart_refl<T>(g: Grammar<T>, lr: bool, s: Set<Position<T>>)
    ensures cpart(g, lr, s, s)
{
    assert forall|q: Position<T>| #[trigger] s.contains(q) implies in_closure(g, lr, s, q) by { assert(creach(g, lr, s, q, 0)); }
}
pub proof fn lemma_cpart_step<T>(g: Grammar<T>, lr: bool, s: Set<Position<T>>, r: Set<Position<T>>, u: Set<Position<T>>)
    requires cpart(g, lr, s, r), is_cl1(g, lr, r, u)
    ensures cpart(g, lr, s, u), r.subset_of(u), u == r ==> is_closure(g, lr, s, r) && cclosed(g, lr, r)
{
    assert forall|q: Position<T>| #[trigger] u.contains(q) implies in_closure(g, lr, s, q) by {
        if !r.contains(q) {
            let p = choose|p: Position<T>| r.contains(p) && #[trigger] cstep(g, lr, p, q);
            let n = choose|n: nat| creach(g, lr, s, p, n);
            assert(creach(g, lr, s, q, n + 1));
        }
    }
    if u == r {
        assert(cclosed(g, lr, r));
        assert forall|q: Position<T>| in_closure(g, lr, s, q) implies #[trigger] r.contains(q) by {
            let n = choose|n: nat| creach(g, lr, s, q, n);
            lemma_closed_has(g, lr, s, r, q, n);
        }
    }
}
pub proof fn lemma_closed_has<T>(g: Grammar<T>, lr: bool, s: Set<Position<T>>, r: Set<Position<T>>, q: Position<T>, n: nat)
    requires s.subset_of(r), cclosed(g, lr, r), creach(g, lr, s, q, n)
    ensures r.contains(q)
    decreases n
{
    if !s.contains(q) {
        let p = choose|p: Position<T>| creach(g, lr, s, p, (n - 1) as nat) && #[trigger] cstep(g, lr, p, q);
        lemma_closed_has(g, lr, s, r, p, (n - 1) as nat);
    }
}
pub proof fn lemma_closure_closed<T>(g: Grammar<T>, lr: bool, s: Set<Position<T>>, r: Set<Position<T>>)
    requires is_closure(g, lr, s, r)
    ensures cclosed(g, lr, r), s.subset_of(r)
{
    assert forall|p: Position<T>, q: Position<T>| r.contains(p) && #[trigger] cstep(g, lr, p, q) implies r.contains(q) by {
        let n = choose|n: nat| creach(g, lr, s, p, n);
        assert(creach(g, lr, s, q, n + 1));
    }
    assert forall|q: Position<T>| s.contains(q) implies r.contains(q) by { assert(creach(g, lr, s, q, 0)); }
}
/// Every item of a closure is a seed item, or starts a production and comes from an item of the closure.
pub proof fn lemma_closure_origin<T>(g: Grammar<T>, lr: bool, s: Set<Position<T>>, r: Set<Position<T>>, q: Position<T>)
    requires is_closure(g, lr, s, r), r.contains(q)
    ensures s.contains(q) || exists|p: Position<T>| r.contains(p) && #[trigger] cstep(g, lr, p, q)
{
    let n = choose|n: nat| creach(g, lr, s, q, n);
    if !s.contains(q) {
        let p = choose|p: Position<T>| creach(g, lr, s, p, (n - 1) as nat) && #[trigger] cstep(g, lr, p, q);
        assert(r.contains(p));
    }
}

pub open spec fn derived_upto<T>(x: T, ps: Seq<Rc<Production<T>>>, l: BSet<T>, n: int, q: Position<T>) -> bool {
    q.rule == x && q.point == 0 && q.look == l && exists|k: int| 0 <= k < n && #[trigger] ps[k] == q.seq
}
pub proof fn lemma_derived<T>(g: Grammar<T>, lr: bool, p: Position<T>, x: T, l: BSet<T>)
    requires gwf(g), top(p) == Some(x), nonterm(g, x), forall|a: T| #[trigger] l@.contains(a) <==> look_has(g, lr, p, a)
    ensures forall|q: Position<T>| #[trigger] cstep(g, lr, p, q) <==> derived_upto(x, g.rules@[x].prods@, l, g.rules@[x].prods@.len() as int, q)
{
    let ps = g.rules@[x].prods@;
    assert forall|q: Position<T>| #[trigger] cstep(g, lr, p, q) <==> derived_upto(x, ps, l, ps.len() as int, q) by {
        if cstep(g, lr, p, q) {
            assert(ps[q.seq.1 as int] == q.seq);
            assert(q.look@ =~= l@);
            lemma_bset_ext(q.look); lemma_bset_ext(l);
        }
        if derived_upto(x, ps, l, ps.len() as int, q) {
            let k = choose|k: int| 0 <= k < ps.len() && #[trigger] ps[k] == q.seq;
            assert(rule_wf(g.rules@[x]));
        }
    }
}
/// Closure steps of the first `n` items of `s`.
pub open spec fn cl_upto<T>(g: Grammar<T>, lr: bool, s: Set<Position<T>>, n: int, q: Position<T>) -> bool {
    exists|p: Position<T>| s.contains(p) && set_idx(s, p) < n && #[trigger] cstep(g, lr, p, q)
}
pub open spec fn tbase<T>(t: Tabler<T>) -> bool {
    gwf(t.grammar) && !nonterm(t.grammar, eof_of(t.grammar)) && first_exact(t.grammar, t.first@) && follow_exact(t.grammar, t.follow@)
}
pub proof fn lemma_closure_empty<T>(g: Grammar<T>, lr: bool, s: Set<Position<T>>)
    ensures
        s == Set::<Position<T>>::empty() ==> forall|r: Set<Position<T>>| #[trigger] is_closure(g, lr, s, r) ==> r == Set::<Position<T>>::empty(),
        forall|r: Set<Position<T>>| #[trigger] is_closure(g, lr, s, r) && r == Set::<Position<T>>::empty() ==> s == r,
{
    assert forall|r: Set<Position<T>>| #[trigger] is_closure(g, lr, s, r) && r == Set::<Position<T>>::empty() implies s == r by {
        lemma_closure_closed(g, lr, s, r);
        assert(s =~= r);
    }
    if s == Set::<Position<T>>::empty() {
        assert forall|r: Set<Position<T>>| #[trigger] is_closure(g, lr, s, r) implies r == Set::<Position<T>>::empty() by {
            assert forall|q: Position<T>| r.contains(q) implies false by {
                let n = choose|n: nat| creach(g, lr, s, q, n);
                lemma_closed_has(g, lr, s, s, q, n);
            }
            assert(r =~= Set::<Position<T>>::empty());
        }
    }
}
/// goto, before the closure: the items of `s` with `x` after the dot, dot moved over it.
pub open spec fn goto_set<T>(s: Set<Position<T>>, x: T) -> Set<Position<T>> {
    s.filter(|p: Position<T>| top(p) == Some(x)).map(|p: Position<T>| adv(p))
}
pub open spec fn gotok<T>(s: State<T>, x: T) -> State<T> { bset(goto_set(s@, x)) }
pub proof fn lemma_goto_set<T>(s: Set<Position<T>>, x: T)
    ensures forall|q: Position<T>| #[trigger] goto_set(s, x).contains(q) <==> moved(s, x, q)
{
    assert forall|q: Position<T>| #[trigger] goto_set(s, x).contains(q) <==> moved(s, x, q) by {
        let f = s.filter(|p: Position<T>| top(p) == Some(x));
        if goto_set(s, x).contains(q) {
            let p = choose|p: Position<T>| f.contains(p) && adv(p) == q;
            lemma_adv_back(p);
        }
        if moved(s, x, q) { assert(f.contains(back(q))); assert(adv(back(q)) == q); }
    }
}
pub proof fn lemma_gotok<T>(s: State<T>, x: T)
    ensures gotok(s, x)@ == goto_set(s@, x), forall|q: Position<T>| #[trigger] gotok(s, x)@.contains(q) <==> moved(s@, x, q)
{ lemma_bset_view(goto_set(s@, x)); lemma_goto_set(s@, x); }
pub proof fn lemma_gotok_adv<T>(s: State<T>, x: T, p: Position<T>)
    requires s@.contains(p), top(p) == Some(x) ensures gotok(s, x)@.contains(adv(p))
{ lemma_gotok(s, x); lemma_adv_back(p); }
pub proof fn lemma_moved_eq<T>(s: State<T>, x: T, r: State<T>)
    requires forall|q: Position<T>| #[trigger] r@.contains(q) <==> moved(s@, x, q)
    ensures r == gotok(s, x)
{
    lemma_gotok(s, x);
    assert(r@ =~= gotok(s, x)@);
    lemma_bset_ext(r); lemma_bset_ext(gotok(s, x));
}

// ---- well-formed items, and the finite universe they live in
pub open spec fn item_ok<T>(g: Grammar<T>, p: Position<T>) -> bool {
    is_prod(g, p.rule, *p.seq) && p.point <= p.seq.0@.len() && p.look@.subset_of(g.symbols@)
}
pub open spec fn items_ok<T>(g: Grammar<T>, s: Set<Position<T>>) -> bool {
    forall|p: Position<T>| #[trigger] s.contains(p) ==> item_ok(g, p)
}
pub proof fn lemma_top_sym<T>(g: Grammar<T>, p: Position<T>)
    requires gwf(g), item_ok(g, p)
    ensures top(p) is Some ==> g.symbols@.contains(top(p)->0), next_of(p) is Some ==> g.symbols@.contains(next_of(p)->0)
{
    if top(p) is Some { lemma_body_sym(g, p.rule, rcv(p.seq), p.point as int); }
    if next_of(p) is Some { lemma_body_sym(g, p.rule, rcv(p.seq), p.point + 1); }
}
pub proof fn lemma_cstep_ok<T>(g: Grammar<T>, lr: bool, p: Position<T>, q: Position<T>)
    requires gwf(g), item_ok(g, p), cstep(g, lr, p, q) ensures item_ok(g, q)
{
    lemma_top_sym(g, p);
    assert forall|a: T| q.look@.contains(a) implies g.symbols@.contains(a) by {
        if next_of(p) is Some { lemma_first_of_sym(g, next_of(p)->0, a); }
    }
}
pub proof fn lemma_cl1_ok<T>(g: Grammar<T>, lr: bool, s: Set<Position<T>>, r: Set<Position<T>>)
    requires gwf(g), items_ok(g, s), is_cl1(g, lr, s, r) ensures items_ok(g, r)
{
    assert forall|q: Position<T>| #[trigger] r.contains(q) implies item_ok(g, q) by {
        if !s.contains(q) {
            let p = choose|p: Position<T>| s.contains(p) && #[trigger] cstep(g, lr, p, q);
            lemma_cstep_ok(g, lr, p, q);
        }
    }
}
pub proof fn lemma_goto_ok<T>(g: Grammar<T>, s: State<T>, x: T)
    requires items_ok(g, s@) ensures items_ok(g, gotok(s, x)@)
{
    lemma_gotok(s, x);
    assert forall|q: Position<T>| #[trigger] gotok(s, x)@.contains(q) implies item_ok(g, q) by { assert(item_ok(g, back(q))); }
}
pub proof fn lemma_basis_ok<T>(g: Grammar<T>)
    requires gwf(g) ensures item_ok(g, g.basis), items_ok(g, Set::<Position<T>>::empty().insert(g.basis)), is_prod(g, g.basis.rule, *g.basis.seq)
{
    assert(rule_wf(g.rules@[g.basis.rule]));
    assert(g.terminals@.contains(eof_of(g)));
}

// sub-sets of a finite set, as a finite set
pub open spec fn subsets<A>(s: Seq<A>) -> Set<BSet<A>> decreases s.len() {
    if s.len() == 0 { Set::empty().insert(bset(Set::empty())) }
    else { subsets(s.drop_last()).union(subsets(s.drop_last()).map(|b: BSet<A>| bset(b@.insert(s.last())))) }
}
pub proof fn lemma_subsets<A>(s: Seq<A>, b: BSet<A>)
    requires forall|a: A| #[trigger] b@.contains(a) ==> s.contains(a)
    ensures subsets(s).contains(b)
    decreases s.len()
{
    if s.len() == 0 {
        assert(b@ =~= Set::<A>::empty());
        lemma_bset_ext(b);
    } else {
        let d = s.drop_last(); let l = s.last();
        let c = bset(b@.remove(l));
        lemma_bset_view(b@.remove(l));
        assert forall|a: A| #[trigger] c@.contains(a) implies d.contains(a) by {
            assert(b@.contains(a));
            let i = choose|i: int| 0 <= i < s.len() && s[i] == a;
            assert(d[i] == a);
        }
        lemma_subsets(d, c);
        if b@.contains(l) {
            assert(c@.insert(l) =~= b@);
            lemma_bset_ext(b);
            assert(subsets(d).map(|b: BSet<A>| bset(b@.insert(s.last()))).contains(bset(c@.insert(l))));
        } else {
            assert(c@ =~= b@);
            lemma_bset_ext(b); lemma_bset_ext(c);
        }
    }
}
pub open spec fn powerset<A>(s: Set<A>) -> Set<BSet<A>> { subsets(set_seq(s)) }
pub proof fn lemma_powerset<A>(s: Set<A>, b: BSet<A>)
    requires b@.subset_of(s) ensures powerset(s).contains(b)
{
    assert forall|a: A| #[trigger] b@.contains(a) implies set_seq(s).contains(a) by {
        assert(s.contains(a));
        assert(set_seq(s)[set_idx(s, a)] == a);
    }
    lemma_subsets(set_seq(s), b);
}
// all items of one production with the lookahead `l`
pub open spec fn univ_prod<T>(x: T, rc: Rc<Production<T>>, l: BSet<T>) -> Set<Position<T>> {
    Seq::new((rc.0@.len() + 1) as nat, |i: int| Position { rule: x, seq: rc, point: i as usize, look: l }).to_set()
}
pub open spec fn univ_prods<T>(x: T, ps: Seq<Rc<Production<T>>>, l: BSet<T>) -> Set<Position<T>> decreases ps.len() {
    if ps.len() == 0 { Set::empty() } else { univ_prods(x, ps.drop_last(), l).union(univ_prod(x, ps.last(), l)) }
}
pub open spec fn univ_rules<T>(g: Grammar<T>, ks: Seq<T>, l: BSet<T>) -> Set<Position<T>> decreases ks.len() {
    if ks.len() == 0 { Set::empty() } else { univ_rules(g, ks.drop_last(), l).union(univ_prods(ks.last(), g.rules@[ks.last()].prods@, l)) }
}
pub open spec fn univ_looks<T>(g: Grammar<T>, ls: Seq<BSet<T>>) -> Set<Position<T>> decreases ls.len() {
    if ls.len() == 0 { Set::empty() } else { univ_looks(g, ls.drop_last()).union(univ_rules(g, keys(g.rules@), ls.last())) }
}
pub open spec fn univ<T>(g: Grammar<T>) -> Set<Position<T>> { univ_looks(g, set_seq(powerset(g.symbols@))) }

pub proof fn lemma_univ_prods<T>(x: T, ps: Seq<Rc<Production<T>>>, l: BSet<T>, q: Position<T>, i: int)
    requires 0 <= i < ps.len(), ps[i] == q.seq, q.rule == x, q.look == l, q.point <= q.seq.0@.len()
    ensures univ_prods(x, ps, l).contains(q)
    decreases ps.len()
{
    if i < ps.len() - 1 { lemma_univ_prods(x, ps.drop_last(), l, q, i); } else {
        let s = Seq::new((q.seq.0@.len() + 1) as nat, |i: int| Position { rule: x, seq: q.seq, point: i as usize, look: l });
        assert(s[q.point as int] == q);
    }
}
pub proof fn lemma_univ_rules<T>(g: Grammar<T>, ks: Seq<T>, l: BSet<T>, q: Position<T>, i: int, j: int)
    requires 0 <= i < ks.len(), ks[i] == q.rule, q.look == l, q.point <= q.seq.0@.len(), 0 <= j < g.rules@[q.rule].prods@.len(), g.rules@[q.rule].prods@[j] == q.seq
    ensures univ_rules(g, ks, l).contains(q)
    decreases ks.len()
{
    if i < ks.len() - 1 { lemma_univ_rules(g, ks.drop_last(), l, q, i, j); } else {
        lemma_univ_prods(q.rule, g.rules@[q.rule].prods@, l, q, j);
    }
}
pub proof fn lemma_univ_looks<T>(g: Grammar<T>, ls: Seq<BSet<T>>, q: Position<T>, k: int)
    requires 0 <= k < ls.len(), ls[k] == q.look, is_prod(g, q.rule, *q.seq), q.point <= q.seq.0@.len()
    ensures univ_looks(g, ls).contains(q)
    decreases ls.len()
{
    if k < ls.len() - 1 { lemma_univ_looks(g, ls.drop_last(), q, k); } else {
        assert(g.rules@.dom().contains(q.rule));
        lemma_univ_rules(g, keys(g.rules@), q.look, q, set_idx(g.rules@.dom(), q.rule), q.seq.1 as int);
    }
}
pub proof fn lemma_univ<T>(g: Grammar<T>, s: Set<Position<T>>)
    requires items_ok(g, s) ensures s.subset_of(univ(g)), s.len() <= univ(g).len()
{
    assert forall|q: Position<T>| #[trigger] s.contains(q) implies univ(g).contains(q) by {
        lemma_powerset(g.symbols@, q.look);
        let pw = powerset(g.symbols@);
        assert(pw.contains(q.look));
        lemma_univ_looks(g, set_seq(pw), q, set_idx(pw, q.look));
    }
    vstd::set_lib::lemma_len_subset(s, univ(g));
}
/// Room left in an item set.
pub open spec fn croom<T>(g: Grammar<T>, s: Set<Position<T>>) -> int { univ(g).len() - s.len() }
pub proof fn lemma_croom<T>(g: Grammar<T>, s: Set<Position<T>>, r: Set<Position<T>>)
    requires items_ok(g, r), s.subset_of(r), s != r
    ensures 0 <= croom(g, r) < croom(g, s)
{
    lemma_univ(g, r);
    vstd::set_lib::lemma_len_subset(s, r);
    if s.len() == r.len() { vstd::set_lib::lemma_subset_equality(s, r); }
}
} // mod th_items
pub use th_items::*;
