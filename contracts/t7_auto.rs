
// ===================================================================================================
// What the driver needs to know about an automaton, and that CLR, LALR and SLR provide it.
// ===================================================================================================
pub mod th_auto {
use super::*;
broadcast use {model::group_model, th_grammar::group_base};

pub open spec fn la1<T>(m: Auto<T>, p: Position<T>, c: Position<T>, o: Option<T>) -> bool { core(p) == c && (o is Some ==> las(m, p).contains(o->0)) }
/// State `i` has the item with core `c`, with `o` among the symbols on which it reduces.
pub open spec fn la<T>(m: Auto<T>, i: int, c: Position<T>, o: Option<T>) -> bool { exists|p: Position<T>| m.states[i]@.contains(p) && #[trigger] la1(m, p, c, o) }
pub open spec fn edge<T>(m: Auto<T>, i: int, x: T, j: int) -> bool {
    0 <= i < m.states.len() && gotok(m.states[i], x) != e_state::<T>() && succ(m, i, x) == j
}
pub open spec fn has_top<T>(m: Auto<T>, i: int, x: T) -> bool { exists|p: Position<T>| m.states[i]@.contains(p) && #[trigger] top(p) == Some(x) }
pub open spec fn item_place<T>(m: Auto<T>, i: int, p: Position<T>) -> bool {
    &&& p.point == 0 && p.rule == m.g.basis.rule ==> i == 0
    &&& i == 0 ==> p.point == 0
    &&& p.point == 0 && p.rule != m.g.basis.rule ==> has_top(m, i, p.rule)
    &&& forall|a: T| #[trigger] las(m, p).contains(a) ==> !nonterm(m.g, a) && (p.rule == m.g.basis.rule ==> a == eof_of(m.g))
}
pub open spec fn edges_ok<T>(m: Auto<T>) -> bool {
    forall|i: int, x: T, j: int| #[trigger] edge(m, i, x, j) ==> khas(m, gotok(m.states[i], x)) && 1 <= j < m.states.len()
}
pub open spec fn fwd_ok<T>(m: Auto<T>) -> bool {
    forall|i: int, c: Position<T>, o: Option<T>| 0 <= i < m.states.len() && #[trigger] la(m, i, c, o) && top(c) is Some ==> la(m, succ(m, i, top(c)->0), adv(c), o)
}
pub open spec fn bwd_ok<T>(m: Auto<T>) -> bool {
    forall|i: int, x: T, j: int, q: Position<T>| #[trigger] edge(m, i, x, j) && #[trigger] m.states[j]@.contains(q) && q.point > 0 ==>
        top(back(q)) == Some(x) && la(m, i, core(back(q)), None)
}
pub open spec fn clo_ok<T>(m: Auto<T>) -> bool {
    forall|i: int, c: Position<T>, o: Option<T>, d: Position<T>, b: T| 0 <= i < m.states.len() && #[trigger] la(m, i, c, o) && #[trigger] astep(m.g, c, o, d, Some(b)) ==> la(m, i, d, Some(b))
}
pub open spec fn auto_ok<T>(m: Auto<T>) -> bool {
    &&& gpre(m.g)
    &&& m.states.len() >= 1
    &&& forall|i: int| 0 <= i < m.states.len() ==> items_ok(m.g, (#[trigger] m.states[i])@)
    &&& edges_ok(m)
    &&& la(m, 0, core(m.g.basis), Some(eof_of(m.g)))
    &&& forall|i: int, p: Position<T>| 0 <= i < m.states.len() && #[trigger] m.states[i]@.contains(p) ==> item_place(m, i, p)
    &&& fwd_ok(m) && bwd_ok(m) && clo_ok(m)
}
pub proof fn lemma_la_ha<T>(m: Auto<T>)
    requires !m.slr ensures forall|i: int, c: Position<T>, o: Option<T>| #[trigger] la(m, i, c, o) <==> ha(m.states[i]@, c, o)
{
    assert forall|i: int, c: Position<T>, o: Option<T>| #[trigger] la(m, i, c, o) <==> ha(m.states[i]@, c, o) by {
        if la(m, i, c, o) { let p = choose|p: Position<T>| m.states[i]@.contains(p) && #[trigger] la1(m, p, c, o); assert(ha1(p, c, o)); }
        if ha(m.states[i]@, c, o) { let p = choose|p: Position<T>| m.states[i]@.contains(p) && #[trigger] ha1(p, c, o); assert(la1(m, p, c, o)); }
    }
}
pub proof fn lemma_aclo_has<T>(g: Grammar<T>, k: Set<Position<T>>, s: Set<Position<T>>)
    requires aclo(g, k, s)
    ensures asub(k, s), forall|c: Position<T>, o: Option<T>, d: Position<T>, w: Option<T>| #[trigger] ha(s, c, o) && #[trigger] astep(g, c, o, d, w) ==> ha(s, d, w)
{
    assert forall|c: Position<T>, o: Option<T>| #[trigger] ha(k, c, o) implies ha(s, c, o) by { assert(areach(g, k, c, o, 0)); }
    assert forall|c: Position<T>, o: Option<T>, d: Position<T>, w: Option<T>| #[trigger] ha(s, c, o) && #[trigger] astep(g, c, o, d, w) implies ha(s, d, w) by {
        let n = choose|n: nat| areach(g, k, c, o, n);
        assert(areach(g, k, d, w, n + 1));
    }
}
pub open spec fn afrom<T>(g: Grammar<T>, s: Set<Position<T>>, c: Position<T>, o: Option<T>, d: Position<T>, w: Option<T>) -> bool { ha(s, c, o) && astep(g, c, o, d, w) }
pub proof fn lemma_aclo_origin<T>(g: Grammar<T>, k: Set<Position<T>>, s: Set<Position<T>>, d: Position<T>, w: Option<T>)
    requires aclo(g, k, s), ha(s, d, w)
    ensures ha(k, d, w) || exists|c: Position<T>, o: Option<T>| #[trigger] afrom(g, s, c, o, d, w)
{
    let n = choose|n: nat| areach(g, k, d, w, n);
    if !ha(k, d, w) {
        let (c, o) = choose|c: Position<T>, o: Option<T>| areach(g, k, c, o, (n - 1) as nat) && #[trigger] astep(g, c, o, d, w);
        assert(ain(g, k, c, o));
        assert(afrom(g, s, c, o, d, w));
    }
}
/// A nonterminal after a dot is not the start symbol.
pub proof fn lemma_top_not_start<T>(g: Grammar<T>, p: Position<T>)
    requires gpre(g), item_ok(g, p), top(p) is Some ensures top(p)->0 != g.basis.rule, top(p)->0 != eof_of(g)
{ lemma_prod_body(g, p.rule, rcv(p.seq), p.point as int); }

// ---- LR(1): lookaheads are terminals; the start item has only the end marker
pub open spec fn tprop<T>(g: Grammar<T>, s: Set<Position<T>>) -> bool {
    forall|c: Position<T>, a: T| #[trigger] ha(s, c, Some(a)) ==> !nonterm(g, a) && (c.rule == g.basis.rule ==> a == eof_of(g))
}
pub proof fn lemma_tprop_reach<T>(g: Grammar<T>, k: Set<Position<T>>, d: Position<T>, a: T, n: nat)
    requires gpre(g), items_ok(g, k), tprop(g, k), areach(g, k, d, Some(a), n)
    ensures !nonterm(g, a), d.rule == g.basis.rule ==> a == eof_of(g)
    decreases n
{
    if !ha(k, d, Some(a)) {
        let (c, o) = choose|c: Position<T>, o: Option<T>| areach(g, k, c, o, (n - 1) as nat) && #[trigger] astep(g, c, o, d, Some(a));
        lemma_areach_creach(g, k, c, o, (n - 1) as nat);
        let p = choose|p: Position<T>| #[trigger] creach(g, true, k, p, (n - 1) as nat) && item_ok(g, p) && ha1(p, c, o);
        lemma_core(p);
        lemma_top_not_start(g, p);
        lemma_top_sym(g, p);
        if next_of(c) is Some { lemma_first_of_sym(g, next_of(c)->0, a); } else { lemma_tprop_reach(g, k, c, a, (n - 1) as nat); }
    }
}
pub proof fn lemma_tprop_aclo<T>(g: Grammar<T>, k: Set<Position<T>>, s: Set<Position<T>>)
    requires gpre(g), items_ok(g, k), tprop(g, k), aclo(g, k, s) ensures tprop(g, s)
{
    assert forall|c: Position<T>, a: T| #[trigger] ha(s, c, Some(a)) implies !nonterm(g, a) && (c.rule == g.basis.rule ==> a == eof_of(g)) by {
        let n = choose|n: nat| areach(g, k, c, Some(a), n);
        lemma_tprop_reach(g, k, c, a, n);
    }
}
pub proof fn lemma_tprop_goto<T>(g: Grammar<T>, s: State<T>, x: T)
    requires tprop(g, s@) ensures tprop(g, gotok(s, x)@)
{
    assert forall|c: Position<T>, a: T| #[trigger] ha(gotok(s, x)@, c, Some(a)) implies !nonterm(g, a) && (c.rule == g.basis.rule ==> a == eof_of(g)) by { lemma_ha_goto(s, x, c, Some(a)); }
}
pub proof fn lemma_tprop_basis<T>(g: Grammar<T>)
    requires gpre(g) ensures tprop(g, only(g.basis))
{
    assert forall|c: Position<T>, a: T| #[trigger] ha(only(g.basis), c, Some(a)) implies !nonterm(g, a) && (c.rule == g.basis.rule ==> a == eof_of(g)) by {
        let p = choose|p: Position<T>| only(g.basis).contains(p) && #[trigger] ha1(p, c, Some(a));
        assert(p.look@.contains(a));
    }
}
pub proof fn lemma_tprop_can<T>(g: Grammar<T>, y: Seq<T>)
    requires gpre(g) ensures tprop(g, can(g, y)@)
    decreases y.len()
{
    lemma_can(g, y);
    if y.len() == 0 { lemma_basis_ok(g); lemma_tprop_basis(g); lemma_tprop_aclo(g, only(g.basis), can(g, y)@); }
    else {
        lemma_tprop_can(g, y.drop_last());
        lemma_tprop_goto(g, can(g, y.drop_last()), y.last());
        lemma_tprop_aclo(g, kpath(g, y)@, can(g, y)@);
    }
}

// ---- LR(1) automata in general
pub open spec fn kern<T>(m: Auto<T>, j: int, r: Set<Position<T>>) -> bool { aclo(m.g, r, m.states[j]@) && forall|q: Position<T>| #[trigger] r.contains(q) ==> q.point > 0 }
pub open spec fn lrnode<T>(m: Auto<T>, j: int) -> bool { exists|r: Set<Position<T>>| #[trigger] kern(m, j, r) }
pub open spec fn ekern<T>(m: Auto<T>, i: int, x: T, j: int, r: Set<Position<T>>) -> bool {
    aclo(m.g, r, m.states[j]@) && asub(gotok(m.states[i], x)@, r) && ceq(gotok(m.states[i], x)@, r)
}
pub open spec fn lredge<T>(m: Auto<T>, i: int, x: T, j: int) -> bool { exists|r: Set<Position<T>>| #[trigger] ekern(m, i, x, j, r) }
pub open spec fn lr_auto<T>(m: Auto<T>) -> bool {
    &&& gpre(m.g) && !m.slr
    &&& m.states.len() >= 1
    &&& forall|i: int| 0 <= i < m.states.len() ==> items_ok(m.g, (#[trigger] m.states[i])@) && tprop(m.g, m.states[i]@)
    &&& edges_ok(m)
    &&& aclo(m.g, only(m.g.basis), m.states[0]@)
    &&& forall|j: int| 1 <= j < m.states.len() ==> #[trigger] lrnode(m, j)
    &&& forall|i: int, x: T, j: int| #[trigger] edge(m, i, x, j) ==> lredge(m, i, x, j)
}
/// Items at the beginning of a production are there because of an item before that nonterminal.
pub proof fn lemma_lr_place<T>(m: Auto<T>, i: int, p: Position<T>)
    requires lr_auto(m), 0 <= i < m.states.len(), m.states[i]@.contains(p) ensures item_place(m, i, p)
{
    let g = m.g;
    let s = m.states[i]@;
    assert(item_ok(g, p));
    lemma_core(p);
    lemma_ha_in(s, p);
    let none: Option<T> = None;
    let k = if i == 0 { only(g.basis) } else { assert(lrnode(m, i)); choose|r: Set<Position<T>>| #[trigger] kern(m, i, r) };
    assert forall|a: T| #[trigger] las(m, p).contains(a) implies !nonterm(g, a) && (p.rule == g.basis.rule ==> a == eof_of(g)) by { assert(ha(s, core(p), Some(a))); }
    lemma_aclo_origin(g, k, s, core(p), none);
    if ha(k, core(p), none) {
        let q = choose|q: Position<T>| k.contains(q) && #[trigger] ha1(q, core(p), none);
        lemma_core(q);
        if i == 0 { assert(q == g.basis); } else { assert(q.point > 0); }
    } else {
        let (c, o) = choose|c: Position<T>, o: Option<T>| #[trigger] afrom(g, s, c, o, core(p), none);
        let q = choose|q: Position<T>| s.contains(q) && #[trigger] ha1(q, c, o);
        lemma_core(q);
        assert(item_ok(g, q));
        lemma_top_not_start(g, q);
        assert(top(q) == Some(p.rule));
    }
}
pub proof fn lemma_lr_auto<T>(m: Auto<T>)
    requires lr_auto(m) ensures auto_ok(m)
{
    let g = m.g;
    lemma_la_ha(m);
    lemma_basis_ok(g);
    lemma_aclo_has(g, only(g.basis), m.states[0]@);
    assert(only(g.basis).contains(g.basis));
    lemma_ha_in(only(g.basis), g.basis);
    assert(g.basis.look@.contains(eof_of(g)));
    assert(ha(only(g.basis), core(g.basis), Some(eof_of(g))));
    assert(la(m, 0, core(g.basis), Some(eof_of(g))));
    assert forall|i: int, p: Position<T>| 0 <= i < m.states.len() && #[trigger] m.states[i]@.contains(p) implies item_place(m, i, p) by { lemma_lr_place(m, i, p); }
    assert forall|i: int, c: Position<T>, o: Option<T>| 0 <= i < m.states.len() && #[trigger] la(m, i, c, o) && top(c) is Some implies la(m, succ(m, i, top(c)->0), adv(c), o) by {
        let x = top(c)->0; let j = succ(m, i, x);
        lemma_lr_edge(m, i, c, o);
        assert(edge(m, i, x, j));
        assert(lredge(m, i, x, j));
        let r = choose|r: Set<Position<T>>| #[trigger] ekern(m, i, x, j, r);
        lemma_adv_back(c);
        lemma_ha_goto(m.states[i], x, adv(c), o);
        lemma_aclo_has(g, r, m.states[j]@);
        assert(ha(r, adv(c), o));
        assert(ha(m.states[j]@, adv(c), o));
    }
    assert forall|i: int, x: T, j: int, q: Position<T>| #[trigger] edge(m, i, x, j) && #[trigger] m.states[j]@.contains(q) && q.point > 0 implies
        top(back(q)) == Some(x) && la(m, i, core(back(q)), None) by {
        assert(lredge(m, i, x, j));
        let none: Option<T> = None;
        let r = choose|r: Set<Position<T>>| #[trigger] ekern(m, i, x, j, r);
        lemma_ha_in(m.states[j]@, q);
        lemma_core(q);
        lemma_aclo_origin(g, r, m.states[j]@, core(q), none);
        assert(ha(r, core(q), none));
        assert(ha(gotok(m.states[i], x)@, core(q), none));
        lemma_ha_goto(m.states[i], x, core(q), none);
        lemma_core(back(q));
        assert(back(core(q)) == core(back(q)));
        assert(ha(m.states[i]@, core(back(q)), none));
    }
    assert forall|i: int, c: Position<T>, o: Option<T>, d: Position<T>, b: T| 0 <= i < m.states.len() && #[trigger] la(m, i, c, o) && #[trigger] astep(m.g, c, o, d, Some(b)) implies la(m, i, d, Some(b)) by {
        if i == 0 { assert(ha(m.states[0]@, d, Some(b))); }
        else {
            assert(lrnode(m, i));
            let r = choose|r: Set<Position<T>>| #[trigger] kern(m, i, r);
            lemma_aclo_has(g, r, m.states[i]@);
            assert(ha(m.states[i]@, d, Some(b)));
        }
    }
}
/// A state with an item before `x` has a nonempty successor on `x`.
pub proof fn lemma_lr_edge<T>(m: Auto<T>, i: int, c: Position<T>, o: Option<T>)
    requires 0 <= i < m.states.len(), la(m, i, c, o), top(c) is Some ensures edge(m, i, top(c)->0, succ(m, i, top(c)->0)), core(c) == c
{
    let p = choose|p: Position<T>| m.states[i]@.contains(p) && #[trigger] la1(m, p, c, o);
    lemma_core(p);
    lemma_goto_nonempty(m.states[i], p);
}

// ---- CLR
pub open spec fn is_can<T>(g: Grammar<T>, s: State<T>, y: Seq<T>) -> bool { s == can(g, y) }
pub proof fn lemma_clr_can<T>(t: Tabler<T>, i: int)
    requires gwf(t.grammar), kstates(t, true), 0 <= i < t.states@.len() ensures exists|y: Seq<T>| #[trigger] is_can(t.grammar, t.states@[i], y)
    decreases i
{
    let g = t.grammar;
    if i == 0 {
        let y = Seq::<T>::empty();
        lemma_basis_ok(g);
        lemma_clo(g, only(g.basis));
        assert(t.states@[0]@ =~= can(g, y)@);
        lemma_bset_ext(t.states@[0]); lemma_bset_ext(can(g, y));
        assert(is_can(g, t.states@[i], y));
    } else {
        assert(preded(t, i));
        let (j, x) = choose|j: int, x: T| #[trigger] has_pred(t, j, i, x);
        lemma_clr_can(t, j);
        let z = choose|y: Seq<T>| #[trigger] is_can(g, t.states@[j], y);
        let y = z.push(x);
        assert(y.drop_last() =~= z);
        let k = gotok(t.states@[j], x);
        lemma_goto_ok(g, t.states@[j], x);
        lemma_clo(g, k@);
        assert(t.states@[i]@ =~= can(g, y)@);
        lemma_bset_ext(t.states@[i]); lemma_bset_ext(can(g, y));
        assert(is_can(g, t.states@[i], y));
    }
}
pub proof fn lemma_clr_auto<T>(t: Tabler<T>)
    requires gpre(t.grammar), kgraph(t, true) ensures auto_ok(auto_clr(t))
{
    let g = t.grammar; let m = auto_clr(t);
    lemma_e_state::<T>();
    lemma_basis_ok(g);
    lemma_closure_aclo(g, only(g.basis), t.states@[0]@);
    assert forall|i: int| 0 <= i < m.states.len() implies items_ok(m.g, (#[trigger] m.states[i])@) && tprop(m.g, m.states[i]@) by {
        lemma_clr_can(t, i);
        let y = choose|y: Seq<T>| #[trigger] is_can(g, t.states@[i], y);
        lemma_tprop_can(g, y);
    }
    assert forall|i: int, x: T, j: int| #[trigger] edge(m, i, x, j) implies khas(m, gotok(m.states[i], x)) && 1 <= j < m.states.len() by {
        assert(t.kernels@.contains_key(gotok(t.states@[i], x)));
    }
    assert forall|j: int| 1 <= j < m.states.len() implies #[trigger] lrnode(m, j) by {
        assert(preded(t, j));
        let (i, x) = choose|i: int, x: T| #[trigger] has_pred(t, i, j, x);
        let k = gotok(t.states@[i], x);
        lemma_closure_aclo(g, k@, t.states@[j]@);
        lemma_gotok(t.states@[i], x);
        assert(kern(m, j, k@));
    }
    assert forall|i: int, x: T, j: int| #[trigger] edge(m, i, x, j) implies lredge(m, i, x, j) by {
        let k = gotok(t.states@[i], x);
        assert(t.kernels@.contains_key(k));
        lemma_closure_aclo(g, k@, t.states@[j]@);
        assert(ekern(m, i, x, j, k@));
    }
    lemma_lr_auto(m);
}

// ---- LALR
pub proof fn lemma_lalr_auto<T>(t: Tabler<T>, raws: BMap<State<T>, State<T>>)
    requires gpre(t.grammar), lgraph(t, raws@) ensures auto_ok(auto_lalr(t, raws))
{
    let g = t.grammar; let m = auto_lalr(t, raws);
    lemma_e_state::<T>();
    lemma_basis_ok(g);
    lemma_lalr_exact(t, raws);
    assert forall|i: int| 0 <= i < m.states.len() implies items_ok(m.g, (#[trigger] m.states[i])@) && tprop(m.g, m.states[i]@) by {
        assert forall|c: Position<T>, a: T| #[trigger] ha(m.states[i]@, c, Some(a)) implies !nonterm(g, a) && (c.rule == g.basis.rule ==> a == eof_of(g)) by {
            let y = choose|y: Seq<T>| has_can(m, y, i, c, Some(a));
            lemma_tprop_can(g, y);
            assert(ha(can(g, y)@, c, Some(a)));
        }
    }
    assert forall|i: int, x: T, j: int| #[trigger] edge(m, i, x, j) implies khas(m, gotok(m.states[i], x)) && 1 <= j < m.states.len() && lredge(m, i, x, j) by {
        let k = gotok(t.states@[i], x);
        assert(khas(m, k));
        lemma_cores_empty(k);
        assert(ldone1(t, raws@, i, x));
        assert(lraw(t, raws@, cores(k)));
        let r = raws@[cores(k)];
        assert(lker(t, raws@, r));
        lemma_cores_eq(k, r);
        assert(ekern(m, i, x, j, r@));
    }
    assert forall|j: int| 1 <= j < m.states.len() implies #[trigger] lrnode(m, j) by {
        assert(numd(t, j));
        let k = choose|k: State<T>| #[trigger] t.kernels@.contains_key(k) && t.kernels@[k] == j;
        assert(lker(t, raws@, k));
        assert forall|q: Position<T>| #[trigger] k@.contains(q) implies q.point > 0 by {
            lemma_ha_in(k@, q);
            let none: Option<T> = None;
            let y = choose|y: Seq<T>| ksrc(g, k, core(q), none, y);
            assert(ha(kpath(g, y)@, core(q), none));
            lemma_core(q);
            assert(y.len() > 0);
            lemma_ha_goto(can(g, y.drop_last()), y.last(), core(q), none);
        }
        assert(kern(m, j, k@));
    }
    lemma_lr_auto(m);
}

// ---- SLR
pub proof fn lemma_slr_la<T>(m: Auto<T>)
    requires m.slr ensures forall|i: int, c: Position<T>, o: Option<T>| #[trigger] la(m, i, c, o) <==> ha(m.states[i]@, c, None) && (o is Some ==> m.fol[c.rule]@.contains(o->0))
{
    let none: Option<T> = None;
    assert forall|i: int, c: Position<T>, o: Option<T>| #[trigger] la(m, i, c, o) <==> ha(m.states[i]@, c, none) && (o is Some ==> m.fol[c.rule]@.contains(o->0)) by {
        if la(m, i, c, o) { let p = choose|p: Position<T>| m.states[i]@.contains(p) && #[trigger] la1(m, p, c, o); lemma_core(p); assert(ha1(p, c, none)); }
        if ha(m.states[i]@, c, none) && (o is Some ==> m.fol[c.rule]@.contains(o->0)) {
            let p = choose|p: Position<T>| m.states[i]@.contains(p) && #[trigger] ha1(p, c, none); lemma_core(p); assert(la1(m, p, c, o)); }
    }
}
pub proof fn lemma_follow_start<T>(g: Grammar<T>, a: T)
    requires gpre(g), follow_has(g, g.basis.rule, a) ensures a == eof_of(g)
{
    let n = choose|n: nat| follow_n(g, g.basis.rule, a, n);
    assert forall|z: T, p: Production<T>, i: int| #[trigger] at_pair(g, z, p, i, g.basis.rule) implies false by { lemma_prod_body(g, z, p, i); }
    assert forall|z: T| #[trigger] ledge(g, g.basis.rule, z) implies false by {
        let p = choose|p: Production<T>| #[trigger] is_prod(g, z, p) && p.0@.len() > 0 && p.0@.last() == g.basis.rule;
        lemma_prod_body(g, z, p, p.0@.len() - 1);
    }
}
pub proof fn lemma_slr_place<T>(t: Tabler<T>, i: int, p: Position<T>)
    requires gpre(t.grammar), kgraph(t, false), follow_exact(t.grammar, t.follow@), 0 <= i < t.states@.len(), t.states@[i]@.contains(p)
    ensures item_place(auto_slr(t), i, p)
{
    let g = t.grammar; let m = auto_slr(t);
    lemma_e_state::<T>();
    lemma_fkeys(t, false, i);
    assert(item_ok(g, p));
    assert forall|a: T| #[trigger] las(m, p).contains(a) implies !nonterm(g, a) && (p.rule == g.basis.rule ==> a == eof_of(g)) by {
        assert(fkey(g, p.rule));
        assert(t.follow@.contains_key(p.rule));
        assert(m.fol[p.rule]@.contains(a));
        assert(follow_has(g, p.rule, a));
        let n = choose|n: nat| follow_n(g, p.rule, a, n);
        lemma_follow_sym(g, p.rule, a, n);
        if p.rule == g.basis.rule { lemma_follow_start(g, a); }
    }
    if i > 0 { assert(preded(t, i)); }
    let k = if i == 0 { only(g.basis) } else { let (j, x) = choose|j: int, x: T| #[trigger] has_pred(t, j, i, x); lemma_gotok(t.states@[j], x); gotok(t.states@[j], x)@ };
    lemma_closure_origin(g, false, k, t.states@[i]@, p);
    if !k.contains(p) {
        let q = choose|q: Position<T>| t.states@[i]@.contains(q) && #[trigger] cstep(g, false, q, p);
        assert(item_ok(g, q));
        lemma_top_not_start(g, q);
        assert(top(q) == Some(p.rule));
    } else if i > 0 { assert(p.point > 0); } else { assert(p == g.basis); }
}
pub open spec fn slr_ok<T>(t: Tabler<T>) -> bool { gpre(t.grammar) && kgraph(t, false) && follow_exact(t.grammar, t.follow@) }
pub open spec fn kof<T>(t: Tabler<T>, i: int) -> Set<Position<T>> {
    if i == 0 { only(t.grammar.basis) } else { let (j, x) = choose|j: int, x: T| #[trigger] has_pred(t, j, i, x); gotok(t.states@[j], x)@ }
}
pub proof fn lemma_kof<T>(t: Tabler<T>, i: int)
    requires kgraph(t, false), 0 <= i < t.states@.len() ensures is_closure(t.grammar, false, kof(t, i), t.states@[i]@)
{ lemma_e_state::<T>(); if i > 0 { assert(preded(t, i)); } }
pub proof fn lemma_slr_top<T>(t: Tabler<T>)
    requires slr_ok(t) ensures la(auto_slr(t), 0, core(t.grammar.basis), Some(eof_of(t.grammar)))
{
    let g = t.grammar; let m = auto_slr(t);
    lemma_slr_la(m);
    lemma_closure_closed(g, false, only(g.basis), t.states@[0]@);
    assert(only(g.basis).contains(g.basis));
    assert(t.states@[0]@.contains(g.basis));
    lemma_ha_in(t.states@[0]@, g.basis);
    lemma_core(g.basis);
    assert(follow_n(g, g.basis.rule, eof_of(g), 0));
    assert(fkey(g, g.basis.rule));
    assert(t.follow@.contains_key(g.basis.rule));
    assert(t.follow@[g.basis.rule]@.contains(eof_of(g)));
}
pub proof fn lemma_slr_edge<T>(t: Tabler<T>, i: int, x: T)
    requires slr_ok(t), 0 <= i < t.states@.len(), gotok(t.states@[i], x) != e_state::<T>()
    ensures khas(auto_slr(t), gotok(t.states@[i], x)), 1 <= succ(auto_slr(t), i, x) < t.states@.len(),
        is_closure(t.grammar, false, gotok(t.states@[i], x)@, t.states@[succ(auto_slr(t), i, x)]@)
{ assert(t.kernels@.contains_key(gotok(t.states@[i], x))); }
pub proof fn lemma_slr_fwd<T>(t: Tabler<T>, i: int, c: Position<T>, o: Option<T>)
    requires slr_ok(t), 0 <= i < t.states@.len(), la(auto_slr(t), i, c, o), top(c) is Some
    ensures la(auto_slr(t), succ(auto_slr(t), i, top(c)->0), adv(c), o)
{
    let g = t.grammar; let m = auto_slr(t);
    let x = top(c)->0; let j = succ(m, i, x);
    lemma_lr_edge(m, i, c, o);
    lemma_slr_edge(t, i, x);
    let p = choose|p: Position<T>| m.states[i]@.contains(p) && #[trigger] la1(m, p, c, o);
    lemma_core(p); lemma_core(adv(p));
    assert(core(adv(p)) == adv(c));
    lemma_gotok_adv(m.states[i], x, p);
    let k = gotok(t.states@[i], x);
    lemma_closure_closed(g, false, k@, t.states@[j]@);
    assert(m.states[j]@.contains(adv(p)));
    assert(la1(m, adv(p), adv(c), o));
}
pub proof fn lemma_slr_bwd<T>(t: Tabler<T>, i: int, x: T, q: Position<T>)
    requires slr_ok(t), edge(auto_slr(t), i, x, succ(auto_slr(t), i, x)), t.states@[succ(auto_slr(t), i, x)]@.contains(q), q.point > 0
    ensures top(back(q)) == Some(x), la(auto_slr(t), i, core(back(q)), None)
{
    let g = t.grammar; let m = auto_slr(t);
    let j = succ(m, i, x);
    lemma_slr_edge(t, i, x);
    let k = gotok(t.states@[i], x);
    lemma_closure_origin(g, false, k@, t.states@[j]@, q);
    assert(k@.contains(q));
    lemma_gotok(t.states@[i], x);
    let none: Option<T> = None;
    assert(la1(m, back(q), core(back(q)), none));
}
pub proof fn lemma_slr_clo<T>(t: Tabler<T>, i: int, c: Position<T>, o: Option<T>, d: Position<T>, b: T)
    requires slr_ok(t), 0 <= i < t.states@.len(), la(auto_slr(t), i, c, o), astep(t.grammar, c, o, d, Some(b))
    ensures la(auto_slr(t), i, d, Some(b))
{
    let g = t.grammar; let m = auto_slr(t);
    let p = choose|p: Position<T>| m.states[i]@.contains(p) && #[trigger] la1(m, p, c, o);
    lemma_core(p); lemma_core(d);
    assert(item_ok(g, p));
    lemma_kof(t, i);
    lemma_closure_closed(g, false, kof(t, i), t.states@[i]@);
    assert(cstep(g, false, p, d));
    assert(t.states@[i]@.contains(d));
    lemma_fkeys(t, false, i);
    let bd = rcv(p.seq); let x = d.rule;
    assert(is_prod(g, p.rule, bd));
    assert(nonterm(g, x));
    if next_of(c) is Some {
        lemma_first_of_sym(g, next_of(c)->0, b);
        assert(at_pair(g, p.rule, bd, p.point as int, x));
        assert(fbase(g, x, b));
        assert(follow_n(g, x, b, 0));
    } else {
        assert(bd.0@.last() == x);
        assert(ledge(g, x, p.rule));
        assert(fkey(g, p.rule));
        assert(m.fol[p.rule]@.contains(b));
        assert(t.follow@.contains_key(p.rule));
        assert(follow_has(g, p.rule, b));
        let n = choose|n: nat| follow_n(g, p.rule, b, n);
        assert(follow_n(g, x, b, n + 1));
    }
    assert(follow_has(g, x, b));
    assert(fkey(g, x));
    assert(t.follow@.contains_key(x));
    assert(t.follow@[x]@.contains(b));
    assert(la1(m, d, d, Some(b)));
}
pub proof fn lemma_slr_auto<T>(t: Tabler<T>)
    requires gpre(t.grammar), kgraph(t, false), follow_exact(t.grammar, t.follow@) ensures auto_ok(auto_slr(t))
{
    let g = t.grammar; let m = auto_slr(t);
    lemma_slr_top(t);
    assert(edges_ok(m)) by {
        assert forall|i: int, x: T, j: int| #[trigger] edge(m, i, x, j) implies khas(m, gotok(m.states[i], x)) && 1 <= j < m.states.len() by { lemma_slr_edge(t, i, x); }
    }
    assert forall|i: int, p: Position<T>| 0 <= i < m.states.len() && #[trigger] m.states[i]@.contains(p) implies item_place(m, i, p) by { lemma_slr_place(t, i, p); }
    assert(fwd_ok(m)) by {
        assert forall|i: int, c: Position<T>, o: Option<T>| 0 <= i < m.states.len() && #[trigger] la(m, i, c, o) && top(c) is Some implies la(m, succ(m, i, top(c)->0), adv(c), o) by { lemma_slr_fwd(t, i, c, o); }
    }
    assert(bwd_ok(m)) by {
        assert forall|i: int, x: T, j: int, q: Position<T>| #[trigger] edge(m, i, x, j) && #[trigger] m.states[j]@.contains(q) && q.point > 0 implies
            top(back(q)) == Some(x) && la(m, i, core(back(q)), None) by { lemma_slr_bwd(t, i, x, q); }
    }
    assert(clo_ok(m)) by {
        assert forall|i: int, c: Position<T>, o: Option<T>, d: Position<T>, b: T| 0 <= i < m.states.len() && #[trigger] la(m, i, c, o) && #[trigger] astep(m.g, c, o, d, Some(b)) implies la(m, i, d, Some(b)) by { lemma_slr_clo(t, i, c, o, d, b); }
    }
}
} // mod th_auto
pub use th_auto::*;
