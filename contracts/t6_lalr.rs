
// ===================================================================================================
// LALR: states are compared by their atoms: (core, None) for "the item is there", (core, Some(a)) for
// "the item is there with a in its lookahead".  Closure, goto and merging act on atoms one by one.
// ===================================================================================================
pub mod th_lalr {
use super::*;
broadcast use {model::group_model, th_grammar::group_base};

pub open spec fn ha1<T>(p: Position<T>, c: Position<T>, o: Option<T>) -> bool { core(p) == c && (o is Some ==> p.look@.contains(o->0)) }
pub open spec fn ha<T>(s: Set<Position<T>>, c: Position<T>, o: Option<T>) -> bool { exists|p: Position<T>| s.contains(p) && #[trigger] ha1(p, c, o) }
pub open spec fn asub<T>(s: Set<Position<T>>, t: Set<Position<T>>) -> bool { forall|c: Position<T>, o: Option<T>| #[trigger] ha(s, c, o) ==> ha(t, c, o) }
pub open spec fn aeq<T>(s: Set<Position<T>>, t: Set<Position<T>>) -> bool { forall|c: Position<T>, o: Option<T>| #[trigger] ha(s, c, o) <==> ha(t, c, o) }
pub open spec fn aunion<T>(u: Set<Position<T>>, s: Set<Position<T>>, t: Set<Position<T>>) -> bool {
    forall|c: Position<T>, o: Option<T>| #[trigger] ha(u, c, o) <==> ha(s, c, o) || ha(t, c, o)
}
/// Same items, lookaheads aside.
pub open spec fn ceq<T>(s: Set<Position<T>>, t: Set<Position<T>>) -> bool { forall|c: Position<T>| #[trigger] ha(s, c, None) <==> ha(t, c, None) }
/// At most one item for each core.
pub open spec fn cuniq<T>(s: Set<Position<T>>) -> bool {
    forall|p: Position<T>, q: Position<T>| #[trigger] s.contains(p) && #[trigger] s.contains(q) && core(p) == core(q) ==> p == q
}
pub proof fn lemma_ha_in<T>(s: Set<Position<T>>, p: Position<T>)
    requires s.contains(p) ensures ha(s, core(p), None), forall|a: T| #[trigger] p.look@.contains(a) ==> ha(s, core(p), Some(a))
{
    assert(ha1(p, core(p), None));
    assert forall|a: T| #[trigger] p.look@.contains(a) implies ha(s, core(p), Some(a)) by { assert(ha1(p, core(p), Some(a))); }
}
pub proof fn lemma_ha_none<T>(s: Set<Position<T>>, c: Position<T>, o: Option<T>)
    requires ha(s, c, o) ensures ha(s, c, None), core(c) == c
{
    let p = choose|p: Position<T>| s.contains(p) && #[trigger] ha1(p, c, o);
    assert(ha1(p, c, None));
}
pub proof fn lemma_core_eq<T>(p: Position<T>, q: Position<T>)
    requires core(p) == core(q) ensures p.rule == q.rule, p.seq == q.seq, p.point == q.point, p.look@ == q.look@ ==> p == q
{
    lemma_core(p); lemma_core(q);
    if p.look@ == q.look@ { lemma_bset_ext(p.look); lemma_bset_ext(q.look); }
}
pub proof fn lemma_cuniq_eq<T>(s: State<T>, t: State<T>)
    requires cuniq(s@), cuniq(t@), aeq(s@, t@) ensures s == t
{
    assert forall|p: Position<T>| s@.contains(p) implies t@.contains(p) by { lemma_cuniq_sub(s, t, p); }
    assert forall|p: Position<T>| t@.contains(p) implies s@.contains(p) by { lemma_cuniq_sub(t, s, p); }
    assert(s@ =~= t@);
    lemma_bset_ext(s); lemma_bset_ext(t);
}
pub proof fn lemma_cuniq_sub<T>(s: State<T>, t: State<T>, p: Position<T>)
    requires cuniq(s@), cuniq(t@), aeq(s@, t@), s@.contains(p) ensures t@.contains(p)
{
    lemma_ha_in(s@, p);
    let q = choose|q: Position<T>| t@.contains(q) && #[trigger] ha1(q, core(p), None);
    lemma_ha_in(t@, q);
    assert forall|a: T| p.look@.contains(a) <==> q.look@.contains(a) by {
        if p.look@.contains(a) {
            assert(ha(s@, core(p), Some(a)));
            let r = choose|r: Position<T>| t@.contains(r) && #[trigger] ha1(r, core(p), Some(a));
            assert(r == q);
        }
        if q.look@.contains(a) {
            assert(ha(t@, core(p), Some(a)));
            assert(core(q) == core(p));
            assert(ha(t@, core(q), Some(a)));
            assert(ha(t@, core(p), Some(a)));
            assert(ha(s@, core(p), Some(a)));
            let r = choose|r: Position<T>| s@.contains(r) && #[trigger] ha1(r, core(p), Some(a));
            assert(r == p);
        }
    }
    assert(p.look@ =~= q.look@);
    lemma_core_eq(p, q);
}

// ---- one closure step between atoms
pub open spec fn astep<T>(g: Grammar<T>, c: Position<T>, o: Option<T>, d: Position<T>, w: Option<T>) -> bool {
    &&& top(c) == Some(d.rule)
    &&& is_prod(g, d.rule, *d.seq)
    &&& d.point == 0
    &&& core(d) == d
    &&& match w { None => true, Some(a) => match next_of(c) { Some(b) => first_of_sym(g, b, a), None => o == Some(a) } }
}
pub open spec fn areach<T>(g: Grammar<T>, s: Set<Position<T>>, d: Position<T>, w: Option<T>, n: nat) -> bool decreases n {
    ha(s, d, w) || (n > 0 && exists|c: Position<T>, o: Option<T>| areach(g, s, c, o, (n - 1) as nat) && #[trigger] astep(g, c, o, d, w))
}
pub open spec fn ain<T>(g: Grammar<T>, s: Set<Position<T>>, d: Position<T>, w: Option<T>) -> bool { exists|n: nat| areach(g, s, d, w, n) }
/// The atoms of `r` are those of the closure of `s`.
pub open spec fn aclo<T>(g: Grammar<T>, s: Set<Position<T>>, r: Set<Position<T>>) -> bool {
    forall|d: Position<T>, w: Option<T>| #[trigger] ha(r, d, w) <==> ain(g, s, d, w)
}
pub proof fn lemma_creach_areach<T>(g: Grammar<T>, s: Set<Position<T>>, q: Position<T>, n: nat)
    requires creach(g, true, s, q, n)
    ensures areach(g, s, core(q), None, n), forall|a: T| #[trigger] q.look@.contains(a) ==> areach(g, s, core(q), Some(a), n)
    decreases n
{
    if s.contains(q) { lemma_ha_in(s, q); } else {
        let p = choose|p: Position<T>| creach(g, true, s, p, (n - 1) as nat) && #[trigger] cstep(g, true, p, q);
        lemma_creach_areach(g, s, p, (n - 1) as nat);
        lemma_core(p); lemma_core(q);
        let e: Option<T> = None;
        assert(core(core(q)) == core(q));
        assert(astep(g, core(p), e, core(q), e));
        assert forall|a: T| #[trigger] q.look@.contains(a) implies areach(g, s, core(q), Some(a), n) by {
            assert(look_has(g, true, p, a));
            if next_of(p) is Some { assert(astep(g, core(p), e, core(q), Some(a))); }
            else { assert(p.look@.contains(a)); assert(astep(g, core(p), Some(a), core(q), Some(a))); }
        }
    }
}
pub open spec fn look_set<T>(g: Grammar<T>, p: Position<T>) -> BSet<T> { bset(g.symbols@.filter(|a: T| look_has(g, true, p, a))) }
pub proof fn lemma_look_set<T>(g: Grammar<T>, p: Position<T>)
    requires gwf(g), item_ok(g, p) ensures forall|a: T| #[trigger] look_set(g, p)@.contains(a) <==> look_has(g, true, p, a)
{
    lemma_bset_view(g.symbols@.filter(|a: T| look_has(g, true, p, a)));
    lemma_top_sym(g, p);
    assert forall|a: T| look_has(g, true, p, a) implies g.symbols@.contains(a) by {
        if next_of(p) is Some { lemma_first_of_sym(g, next_of(p)->0, a); }
    }
}
pub proof fn lemma_areach_creach<T>(g: Grammar<T>, s: Set<Position<T>>, d: Position<T>, w: Option<T>, n: nat)
    requires gwf(g), items_ok(g, s), areach(g, s, d, w, n)
    ensures exists|q: Position<T>| #[trigger] creach(g, true, s, q, n) && item_ok(g, q) && ha1(q, d, w)
    decreases n
{
    if ha(s, d, w) {
        let q = choose|q: Position<T>| s.contains(q) && #[trigger] ha1(q, d, w);
        assert(creach(g, true, s, q, n));
    } else {
        let (c, o) = choose|c: Position<T>, o: Option<T>| areach(g, s, c, o, (n - 1) as nat) && #[trigger] astep(g, c, o, d, w);
        lemma_areach_creach(g, s, c, o, (n - 1) as nat);
        let p = choose|p: Position<T>| #[trigger] creach(g, true, s, p, (n - 1) as nat) && item_ok(g, p) && ha1(p, c, o);
        lemma_look_set(g, p);
        let q = Position { look: look_set(g, p), ..d };
        lemma_core(p); lemma_core(q); lemma_core(d);
        assert(core(q) == core(d));
        assert(cstep(g, true, p, q));
        lemma_cstep_ok(g, true, p, q);
        assert(creach(g, true, s, q, n));
        if w is Some { assert(look_has(g, true, p, w->0)); }
        assert(ha1(q, d, w));
    }
}
pub proof fn lemma_closure_aclo<T>(g: Grammar<T>, s: Set<Position<T>>, r: Set<Position<T>>)
    requires gwf(g), items_ok(g, s), is_closure(g, true, s, r) ensures aclo(g, s, r)
{
    assert forall|d: Position<T>, w: Option<T>| #[trigger] ha(r, d, w) <==> ain(g, s, d, w) by {
        if ha(r, d, w) {
            let q = choose|q: Position<T>| r.contains(q) && #[trigger] ha1(q, d, w);
            let n = choose|n: nat| creach(g, true, s, q, n);
            lemma_creach_areach(g, s, q, n);
            if w is Some { assert(q.look@.contains(w->0)); }
            assert(areach(g, s, d, w, n));
        }
        if ain(g, s, d, w) {
            let n = choose|n: nat| areach(g, s, d, w, n);
            lemma_areach_creach(g, s, d, w, n);
            let q = choose|q: Position<T>| #[trigger] creach(g, true, s, q, n) && item_ok(g, q) && ha1(q, d, w);
            assert(in_closure(g, true, s, q));
            assert(r.contains(q));
        }
    }
}
pub proof fn lemma_areach_mono<T>(g: Grammar<T>, s: Set<Position<T>>, t: Set<Position<T>>, d: Position<T>, w: Option<T>, n: nat)
    requires asub(s, t), areach(g, s, d, w, n) ensures areach(g, t, d, w, n) decreases n
{
    if !ha(s, d, w) {
        let (c, o) = choose|c: Position<T>, o: Option<T>| areach(g, s, c, o, (n - 1) as nat) && #[trigger] astep(g, c, o, d, w);
        lemma_areach_mono(g, s, t, c, o, (n - 1) as nat);
    }
}
pub proof fn lemma_areach_union<T>(g: Grammar<T>, u: Set<Position<T>>, s: Set<Position<T>>, t: Set<Position<T>>, d: Position<T>, w: Option<T>, n: nat)
    requires aunion(u, s, t), areach(g, u, d, w, n) ensures areach(g, s, d, w, n) || areach(g, t, d, w, n) decreases n
{
    if !ha(u, d, w) {
        let (c, o) = choose|c: Position<T>, o: Option<T>| areach(g, u, c, o, (n - 1) as nat) && #[trigger] astep(g, c, o, d, w);
        lemma_areach_union(g, u, s, t, c, o, (n - 1) as nat);
    }
}
pub proof fn lemma_ain_mono<T>(g: Grammar<T>, s: Set<Position<T>>, t: Set<Position<T>>, d: Position<T>, w: Option<T>)
    requires asub(s, t), ain(g, s, d, w) ensures ain(g, t, d, w)
{ let n = choose|n: nat| areach(g, s, d, w, n); lemma_areach_mono(g, s, t, d, w, n); }
/// Closure distributes over union.
pub proof fn lemma_aclo_union<T>(g: Grammar<T>, s: Set<Position<T>>, t: Set<Position<T>>, u: Set<Position<T>>, rs: Set<Position<T>>, rt: Set<Position<T>>, ru: Set<Position<T>>)
    requires aclo(g, s, rs), aclo(g, t, rt), aunion(u, s, t), aunion(ru, rs, rt) ensures aclo(g, u, ru)
{
    assert forall|d: Position<T>, w: Option<T>| #[trigger] ha(ru, d, w) <==> ain(g, u, d, w) by {
        if ha(ru, d, w) {
            if ha(rs, d, w) { lemma_ain_mono(g, s, u, d, w); } else { assert(ha(rt, d, w)); lemma_ain_mono(g, t, u, d, w); }
        }
        if ain(g, u, d, w) {
            let n = choose|n: nat| areach(g, u, d, w, n);
            lemma_areach_union(g, u, s, t, d, w, n);
            if areach(g, s, d, w, n) { assert(ha(rs, d, w)); } else { assert(ha(rt, d, w)); }
        }
    }
}
pub proof fn lemma_aclo_sub<T>(g: Grammar<T>, s: Set<Position<T>>, t: Set<Position<T>>, rs: Set<Position<T>>, rt: Set<Position<T>>)
    requires aclo(g, s, rs), aclo(g, t, rt), asub(s, t) ensures asub(rs, rt)
{
    assert forall|d: Position<T>, w: Option<T>| #[trigger] ha(rs, d, w) implies ha(rt, d, w) by { lemma_ain_mono(g, s, t, d, w); }
}
/// The cores of a closure are determined by the cores of the kernel.
pub proof fn lemma_areach_core<T>(g: Grammar<T>, s: Set<Position<T>>, t: Set<Position<T>>, d: Position<T>, w: Option<T>, n: nat)
    requires ceq(s, t), areach(g, s, d, w, n) ensures areach(g, t, d, None, n) decreases n
{
    if ha(s, d, w) { lemma_ha_none(s, d, w); assert(ha(t, d, None)); } else {
        let (c, o) = choose|c: Position<T>, o: Option<T>| areach(g, s, c, o, (n - 1) as nat) && #[trigger] astep(g, c, o, d, w);
        lemma_areach_core(g, s, t, c, o, (n - 1) as nat);
        let e: Option<T> = None;
        assert(astep(g, c, e, d, e));
    }
}
pub proof fn lemma_aclo_ceq<T>(g: Grammar<T>, s: Set<Position<T>>, t: Set<Position<T>>, rs: Set<Position<T>>, rt: Set<Position<T>>)
    requires aclo(g, s, rs), aclo(g, t, rt), ceq(s, t) ensures ceq(rs, rt)
{
    assert forall|d: Position<T>| #[trigger] ha(rs, d, None) <==> ha(rt, d, None) by {
        if ha(rs, d, None) { let n = choose|n: nat| areach(g, s, d, None, n); lemma_areach_core(g, s, t, d, None, n); assert(ain(g, t, d, None)); }
        if ha(rt, d, None) { let n = choose|n: nat| areach(g, t, d, None, n); lemma_areach_core(g, t, s, d, None, n); assert(ain(g, s, d, None)); }
    }
}
/// Atoms of a successor kernel.
pub proof fn lemma_ha_goto<T>(s: State<T>, x: T, d: Position<T>, w: Option<T>)
    ensures ha(gotok(s, x)@, d, w) <==> d.point > 0 && ha(s@, back(d), w) && top(back(d)) == Some(x)
{
    lemma_gotok(s, x);
    if ha(gotok(s, x)@, d, w) {
        let q = choose|q: Position<T>| gotok(s, x)@.contains(q) && #[trigger] ha1(q, d, w);
        lemma_core(q); lemma_core(back(q));
        assert(core(back(q)) == back(d));
        assert(ha1(back(q), back(d), w));
    }
    if d.point > 0 && ha(s@, back(d), w) && top(back(d)) == Some(x) {
        let p = choose|p: Position<T>| s@.contains(p) && #[trigger] ha1(p, back(d), w);
        lemma_core(p); lemma_core(adv(p));
        lemma_adv_back(p);
        lemma_gotok_adv(s, x, p);
        assert(core(adv(p)) == d);
        assert(ha1(adv(p), d, w));
    }
}
pub proof fn lemma_goto_asub<T>(s: State<T>, t: State<T>, x: T)
    requires asub(s@, t@) ensures asub(gotok(s, x)@, gotok(t, x)@)
{
    assert forall|d: Position<T>, w: Option<T>| #[trigger] ha(gotok(s, x)@, d, w) implies ha(gotok(t, x)@, d, w) by { lemma_ha_goto(s, x, d, w); lemma_ha_goto(t, x, d, w); }
}
pub proof fn lemma_goto_ceq<T>(s: State<T>, t: State<T>, x: T)
    requires ceq(s@, t@) ensures ceq(gotok(s, x)@, gotok(t, x)@)
{
    assert forall|d: Position<T>| #[trigger] ha(gotok(s, x)@, d, None) <==> ha(gotok(t, x)@, d, None) by { lemma_ha_goto(s, x, d, None); lemma_ha_goto(t, x, d, None); }
}
pub proof fn lemma_cores<T>(k: State<T>)
    ensures cores(k)@ == core_set(k@), forall|c: Position<T>| #[trigger] cores(k)@.contains(c) <==> ha(k@, c, None)
{
    lemma_bset_view(core_set(k@));
    assert forall|c: Position<T>| #[trigger] cores(k)@.contains(c) <==> ha(k@, c, None) by {
        if cores(k)@.contains(c) { let p = choose|p: Position<T>| k@.contains(p) && core(p) == c; assert(ha1(p, c, None)); }
        if ha(k@, c, None) { let p = choose|p: Position<T>| k@.contains(p) && #[trigger] ha1(p, c, None); assert(core_set(k@).contains(core(p))); }
    }
}
pub proof fn lemma_cores_eq<T>(k: State<T>, l: State<T>)
    ensures cores(k) == cores(l) <==> ceq(k@, l@)
{
    lemma_cores(k); lemma_cores(l);
    if ceq(k@, l@) {
        assert forall|c: Position<T>| cores(k)@.contains(c) <==> cores(l)@.contains(c) by { assert(ha(k@, c, None) <==> ha(l@, c, None)); }
        assert(cores(k)@ =~= cores(l)@);
        lemma_bset_ext(cores(k)); lemma_bset_ext(cores(l));
    }
    if cores(k) == cores(l) {
        assert forall|c: Position<T>| #[trigger] ha(k@, c, None) <==> ha(l@, c, None) by { assert(cores(k)@.contains(c) <==> cores(l)@.contains(c)); }
    }
}
pub proof fn lemma_cores_empty<T>(k: State<T>)
    ensures cores(k) == e_state::<T>() <==> k@ == Set::<Position<T>>::empty(), k@ == Set::<Position<T>>::empty() <==> k == e_state::<T>(), cores(e_state::<T>()) == e_state::<T>()
{
    lemma_e_state::<T>();
    lemma_cores(k);
    lemma_cores(e_state::<T>());
    assert(core_set(Set::<Position<T>>::empty()) =~= Set::<Position<T>>::empty());
    if k@ != Set::<Position<T>>::empty() {
        assert(!(k@ =~= Set::<Position<T>>::empty()));
        let p = choose|p: Position<T>| k@.contains(p);
        assert(core_set(k@).contains(core(p)));
    }
}

// ---- the canonical collection, by the symbols read
pub open spec fn clo<T>(g: Grammar<T>, s: Set<Position<T>>) -> State<T> { bset(univ(g).filter(|q: Position<T>| in_closure(g, true, s, q))) }
pub proof fn lemma_clo<T>(g: Grammar<T>, s: Set<Position<T>>)
    requires gwf(g), items_ok(g, s) ensures is_closure(g, true, s, clo(g, s)@), items_ok(g, clo(g, s)@)
{
    let f = univ(g).filter(|q: Position<T>| in_closure(g, true, s, q));
    lemma_bset_view(f);
    assert forall|q: Position<T>| in_closure(g, true, s, q) implies item_ok(g, q) && univ(g).contains(q) by {
        let n = choose|n: nat| creach(g, true, s, q, n);
        lemma_creach_ok(g, true, s, q, n);
        let one = only(q);
        lemma_univ(g, one);
        assert(one.contains(q));
    }
}
pub proof fn lemma_creach_ok<T>(g: Grammar<T>, lr: bool, s: Set<Position<T>>, q: Position<T>, n: nat)
    requires gwf(g), items_ok(g, s), creach(g, lr, s, q, n) ensures item_ok(g, q) decreases n
{
    if !s.contains(q) {
        let p = choose|p: Position<T>| creach(g, lr, s, p, (n - 1) as nat) && #[trigger] cstep(g, lr, p, q);
        lemma_creach_ok(g, lr, s, p, (n - 1) as nat);
        lemma_cstep_ok(g, lr, p, q);
    }
}
/// The canonical LR(1) state after reading `y`, and its kernel (no kernel for the initial state).
pub open spec fn can<T>(g: Grammar<T>, y: Seq<T>) -> State<T> decreases y.len() {
    if y.len() == 0 { clo(g, only(g.basis)) } else { clo(g, gotok(can(g, y.drop_last()), y.last())@) }
}
pub open spec fn kpath<T>(g: Grammar<T>, y: Seq<T>) -> State<T> {
    if y.len() == 0 { e_state() } else { gotok(can(g, y.drop_last()), y.last()) }
}
pub proof fn lemma_can<T>(g: Grammar<T>, y: Seq<T>)
    requires gwf(g) ensures items_ok(g, can(g, y)@), items_ok(g, kpath(g, y)@),
        aclo(g, if y.len() == 0 { only(g.basis) } else { kpath(g, y)@ }, can(g, y)@)
    decreases y.len()
{
    lemma_e_state::<T>();
    if y.len() == 0 { lemma_basis_ok(g); lemma_clo(g, only(g.basis)); lemma_closure_aclo(g, only(g.basis), can(g, y)@); }
    else {
        lemma_can(g, y.drop_last());
        lemma_goto_ok(g, can(g, y.drop_last()), y.last());
        let k = kpath(g, y)@;
        lemma_clo(g, k);
        lemma_closure_aclo(g, k, can(g, y)@);
    }
}
/// The atom comes from the canonical kernel reached by `y`, which has the same cores as `k`.
pub open spec fn ksrc<T>(g: Grammar<T>, k: State<T>, c: Position<T>, o: Option<T>, y: Seq<T>) -> bool {
    cores(kpath(g, y)) == cores(k) && ha(kpath(g, y)@, c, o)
}
pub open spec fn ksound<T>(g: Grammar<T>, k: State<T>) -> bool {
    forall|c: Position<T>, o: Option<T>| #[trigger] ha(k@, c, o) ==> exists|y: Seq<T>| ksrc(g, k, c, o, y)
}
pub open spec fn ssrc<T>(g: Grammar<T>, s: State<T>, c: Position<T>, o: Option<T>, y: Seq<T>) -> bool {
    ceq(can(g, y)@, s@) && ha(can(g, y)@, c, o)
}
pub open spec fn ssound<T>(g: Grammar<T>, s: State<T>) -> bool {
    forall|c: Position<T>, o: Option<T>| #[trigger] ha(s@, c, o) ==> exists|y: Seq<T>| ssrc(g, s, c, o, y)
}
pub proof fn lemma_areach_src<T>(g: Grammar<T>, s: Set<Position<T>>, d: Position<T>, w: Option<T>, n: nat) -> (r: (Position<T>, Option<T>))
    requires areach(g, s, d, w, n)
    ensures ha(s, r.0, r.1), forall|t: Set<Position<T>>| #[trigger] ha(t, r.0, r.1) ==> areach(g, t, d, w, n)
    decreases n
{
    if ha(s, d, w) { (d, w) } else {
        let (c, o) = choose|c: Position<T>, o: Option<T>| areach(g, s, c, o, (n - 1) as nat) && #[trigger] astep(g, c, o, d, w);
        let r = lemma_areach_src(g, s, c, o, (n - 1) as nat);
        assert forall|t: Set<Position<T>>| #[trigger] ha(t, r.0, r.1) implies areach(g, t, d, w, n) by {
            assert(areach(g, t, c, o, (n - 1) as nat) && astep(g, c, o, d, w));
        }
        r
    }
}
/// Kernel sound ==> state sound.
pub proof fn lemma_ssound<T>(g: Grammar<T>, k: State<T>, s: State<T>)
    requires gwf(g), ksound(g, k), aclo(g, k@, s@) ensures ssound(g, s)
{
    assert forall|c: Position<T>, o: Option<T>| #[trigger] ha(s@, c, o) implies exists|y: Seq<T>| ssrc(g, s, c, o, y) by {
        let n = choose|n: nat| areach(g, k@, c, o, n);
        let (c0, o0) = lemma_areach_src(g, k@, c, o, n);
        let y = choose|y: Seq<T>| ksrc(g, k, c0, o0, y);
        assert(areach(g, kpath(g, y)@, c, o, n));
        lemma_e_state::<T>();
        assert(y.len() > 0);
        lemma_can(g, y);
        lemma_cores_eq(kpath(g, y), k);
        lemma_aclo_ceq(g, kpath(g, y)@, k@, can(g, y)@, s@);
        assert(ain(g, kpath(g, y)@, c, o));
        assert(ssrc(g, s, c, o, y));
    }
}
pub proof fn lemma_ssound_0<T>(g: Grammar<T>, s: State<T>)
    requires gwf(g), aclo(g, only(g.basis), s@) ensures ssound(g, s)
{
    let y = Seq::<T>::empty();
    lemma_can(g, y);
    assert forall|c: Position<T>, o: Option<T>| #[trigger] ha(s@, c, o) implies exists|y: Seq<T>| ssrc(g, s, c, o, y) by {
        assert(ha(can(g, y)@, c, o));
        assert(ssrc(g, s, c, o, y));
    }
}
/// State sound ==> its successor kernels are.
pub proof fn lemma_ksound<T>(g: Grammar<T>, s: State<T>, x: T)
    requires gwf(g), ssound(g, s) ensures ksound(g, gotok(s, x))
{
    let k = gotok(s, x);
    assert forall|c: Position<T>, o: Option<T>| #[trigger] ha(k@, c, o) implies exists|y: Seq<T>| ksrc(g, k, c, o, y) by {
        lemma_ha_goto(s, x, c, o);
        let y = choose|y: Seq<T>| ssrc(g, s, back(c), o, y);
        let z = y.push(x);
        assert(z.drop_last() =~= y);
        lemma_goto_ceq(can(g, y), s, x);
        lemma_cores_eq(gotok(can(g, y), x), k);
        lemma_ha_goto(can(g, y), x, c, o);
        assert(ksrc(g, k, c, o, z));
    }
}
pub proof fn lemma_ksound_union<T>(g: Grammar<T>, k: State<T>, l: State<T>, u: State<T>)
    requires ksound(g, k), ksound(g, l), cores(k) == cores(l), cores(u) == cores(k), aunion(u@, k@, l@) ensures ksound(g, u)
{
    assert forall|c: Position<T>, o: Option<T>| #[trigger] ha(u@, c, o) implies exists|y: Seq<T>| ksrc(g, u, c, o, y) by {
        if ha(k@, c, o) { let y = choose|y: Seq<T>| ksrc(g, k, c, o, y); assert(ksrc(g, u, c, o, y)); }
        else { assert(ha(l@, c, o)); let y = choose|y: Seq<T>| ksrc(g, l, c, o, y); assert(ksrc(g, u, c, o, y)); }
    }
}

// ---- merging of items with the same core
pub open spec fn pre<A>(s: Set<A>, n: int) -> Set<A> { s.filter(|x: A| set_idx(s, x) < n) }
/// `new` stands for the first `n` items of `s`.
/// A search over the set found this.
pub open spec fn hit<A>(s: Set<A>, o: Option<&A>) -> bool {
    o is Some && s.contains(*o->0)
}
pub open spec fn mpart<T>(s: Set<Position<T>>, n: int, new: Set<Position<T>>) -> bool {
    &&& aeq(new, pre(s, n))
    &&& cuniq(new)
    &&& cuniq(s) ==> new == pre(s, n)
    &&& forall|g: Grammar<T>| #[trigger] items_ok(g, s) ==> items_ok(g, new)
}
pub proof fn lemma_mpart_0<T>(s: Set<Position<T>>)
    ensures mpart(s, 0, Set::<Position<T>>::empty())
{
    assert(pre(s, 0) =~= Set::<Position<T>>::empty());
}
pub proof fn lemma_pre<T>(s: Set<Position<T>>, n: int)
    requires 0 <= n < set_seq(s).len()
    ensures pre(s, n + 1) == pre(s, n).insert(set_seq(s)[n]), s.contains(set_seq(s)[n]), !pre(s, n).contains(set_seq(s)[n])
{
    let p = set_seq(s)[n];
    assert(s.contains(p));
    assert forall|x: Position<T>| pre(s, n + 1).contains(x) <==> pre(s, n).insert(p).contains(x) by {}
    assert(pre(s, n + 1) =~= pre(s, n).insert(p));
}
pub proof fn lemma_ha_insert<T>(s: Set<Position<T>>, p: Position<T>)
    ensures forall|c: Position<T>, o: Option<T>| #[trigger] ha(s.insert(p), c, o) <==> ha(s, c, o) || ha1(p, c, o)
{
    assert forall|c: Position<T>, o: Option<T>| #[trigger] ha(s.insert(p), c, o) <==> ha(s, c, o) || ha1(p, c, o) by {
        if ha(s.insert(p), c, o) { let q = choose|q: Position<T>| s.insert(p).contains(q) && #[trigger] ha1(q, c, o); }
        if ha(s, c, o) { let q = choose|q: Position<T>| s.contains(q) && #[trigger] ha1(q, c, o); assert(s.insert(p).contains(q)); }
        if ha1(p, c, o) { assert(s.insert(p).contains(p)); }
    }
}
pub proof fn lemma_mpart_new<T>(s: Set<Position<T>>, n: int, new: Set<Position<T>>)
    requires mpart(s, n, new), 0 <= n < set_seq(s).len(), forall|k: Position<T>| #[trigger] new.contains(k) ==> core(k) != core(set_seq(s)[n])
    ensures mpart(s, n + 1, new.insert(set_seq(s)[n]))
{
    let p = set_seq(s)[n];
    lemma_pre(s, n);
    lemma_ha_insert(new, p);
    lemma_ha_insert(pre(s, n), p);
    assert forall|g: Grammar<T>| #[trigger] items_ok(g, s) implies items_ok(g, new.insert(p)) by { assert(items_ok(g, new)); }
}
pub proof fn lemma_mpart_old<T>(s: Set<Position<T>>, n: int, new: Set<Position<T>>, k: Position<T>, u: Position<T>)
    requires mpart(s, n, new), 0 <= n < set_seq(s).len(), new.contains(k), core(k) == core(set_seq(s)[n]), core(u) == core(k),
        u.look@ == set_seq(s)[n].look@.union(k.look@)
    ensures mpart(s, n + 1, new.remove(k).insert(u))
{
    let p = set_seq(s)[n];
    let r = new.remove(k).insert(u);
    lemma_pre(s, n);
    lemma_ha_insert(new.remove(k), u);
    lemma_ha_insert(new.remove(k), k);
    assert(new.remove(k).insert(k) =~= new);
    lemma_ha_insert(pre(s, n), p);
    assert forall|c: Position<T>, o: Option<T>| #[trigger] ha(r, c, o) <==> ha(pre(s, n + 1), c, o) by {
        assert(ha1(u, c, o) <==> ha1(p, c, o) || ha1(k, c, o));
        assert(ha(new, c, o) <==> ha(pre(s, n), c, o));
    }
    assert(cuniq(r)) by {
        assert forall|a: Position<T>, b: Position<T>| #[trigger] r.contains(a) && #[trigger] r.contains(b) && core(a) == core(b) implies a == b by {
            if a == u && b != u { assert(new.contains(b)); }
            if b == u && a != u { assert(new.contains(a)); }
            if a != u && b != u { assert(new.contains(a) && new.contains(b)); }
        }
    }
    if cuniq(s) { assert(pre(s, n).contains(k)); assert(s.contains(k) && s.contains(p)); assert(k == p); }
    assert forall|g: Grammar<T>| #[trigger] items_ok(g, s) implies items_ok(g, r) by {
        assert(items_ok(g, new));
        lemma_core(u); lemma_core(k); lemma_core(p);
        assert(item_ok(g, k) && item_ok(g, p));
        assert(item_ok(g, u));
    }
}
pub open spec fn is_merged<T>(s: Set<Position<T>>, r: Set<Position<T>>) -> bool {
    aeq(r, s) && cuniq(r) && (cuniq(s) ==> r == s) && forall|g: Grammar<T>| #[trigger] items_ok(g, s) ==> items_ok(g, r)
}
pub proof fn lemma_mpart_all<T>(s: Set<Position<T>>, n: int, new: Set<Position<T>>)
    requires mpart(s, n, new), n >= set_seq(s).len() ensures is_merged(s, new)
{ assert(pre(s, n) =~= s); }

// ---- the worklist
pub open spec fn numd<T>(t: Tabler<T>, i: int) -> bool { exists|k: State<T>| #[trigger] t.kernels@.contains_key(k) && t.kernels@[k] == i }
pub open spec fn lker<T>(t: Tabler<T>, raws: Map<State<T>, State<T>>, k: State<T>) -> bool {
    &&& 1 <= t.kernels@[k] < t.states@.len()
    &&& items_ok(t.grammar, k@)
    &&& aclo(t.grammar, k@, t.states@[t.kernels@[k] as int]@)
    &&& raws.contains_key(cores(k)) && raws[cores(k)] == k
    &&& ksound(t.grammar, k)
}
pub open spec fn lraw<T>(t: Tabler<T>, raws: Map<State<T>, State<T>>, r: State<T>) -> bool {
    t.kernels@.contains_key(raws[r]) && raws[r] != e_state::<T>() && cores(raws[r]) == r
}
pub open spec fn lst<T>(t: Tabler<T>, raws: Map<State<T>, State<T>>) -> bool {
    &&& t.states@.len() >= 1
    &&& aclo(t.grammar, only(t.grammar.basis), t.states@[0]@)
    &&& forall|i: int| 0 <= i < t.states@.len() ==> items_ok(t.grammar, (#[trigger] t.states@[i])@)
    &&& t.kernels@.contains_key(e_state::<T>()) && t.kernels@[e_state::<T>()] == 0
    &&& forall|k: State<T>| #[trigger] t.kernels@.contains_key(k) && k != e_state::<T>() ==> lker(t, raws, k)
    &&& forall|r: State<T>| #[trigger] raws.contains_key(r) && r != e_state::<T>() ==> lraw(t, raws, r)
    &&& forall|k: State<T>, l: State<T>| #[trigger] t.kernels@.contains_key(k) && #[trigger] t.kernels@.contains_key(l) && t.kernels@[k] == t.kernels@[l] ==> k == l
    &&& forall|i: int| 0 <= i < t.states@.len() ==> #[trigger] numd(t, i)
    &&& t.kernels@.dom().len() == t.states@.len()
}
/// The x-successor of state `i` is covered by a kernel of the graph.
pub open spec fn ldone1<T>(t: Tabler<T>, raws: Map<State<T>, State<T>>, i: int, x: T) -> bool {
    let k = gotok(t.states@[i], x);
    k == e_state::<T>() || (raws.contains_key(cores(k)) && asub(k@, raws[cores(k)]@))
}
pub open spec fn ldone<T>(t: Tabler<T>, raws: Map<State<T>, State<T>>, n: int) -> bool {
    forall|i: int, x: T| 0 <= i < n && t.grammar.symbols@.contains(x) ==> #[trigger] ldone1(t, raws, i, x)
}
pub open spec fn lgraph<T>(t: Tabler<T>, raws: Map<State<T>, State<T>>) -> bool {
    lst(t, raws) && forall|i: int, x: T| 0 <= i < t.states@.len() ==> #[trigger] ldone1(t, raws, i, x)
}
pub proof fn lemma_lgraph<T>(t: Tabler<T>, raws: Map<State<T>, State<T>>, n: int)
    requires gwf(t.grammar), lst(t, raws), ldone(t, raws, n), n >= t.states@.len() ensures lgraph(t, raws)
{
    assert forall|i: int, x: T| 0 <= i < t.states@.len() implies #[trigger] ldone1(t, raws, i, x) by {
        if !t.grammar.symbols@.contains(x) { lemma_gotok_empty(t.grammar, t.states@[i], x); }
    }
}
pub proof fn lemma_lfirst<T>(t: Tabler<T>, raws: Map<State<T>, State<T>>)
    requires gwf(t.grammar), t.states@.len() == 1, is_closure(t.grammar, true, only(t.grammar.basis), t.states@[0]@), items_ok(t.grammar, t.states@[0]@),
        t.kernels@ == Map::<State<T>, usize>::empty().insert(e_state::<T>(), 0usize),
        forall|r: State<T>| #[trigger] raws.contains_key(r) ==> r == e_state::<T>()
    ensures lst(t, raws)
{
    lemma_basis_ok(t.grammar);
    lemma_closure_aclo(t.grammar, only(t.grammar.basis), t.states@[0]@);
    let d = t.kernels@.dom();
    assert(d =~= Set::<State<T>>::empty().insert(e_state::<T>()));
    assert(d.len() == 1);
    assert(numd(t, 0)) by { assert(t.kernels@.contains_key(e_state::<T>())); }
}
pub proof fn lemma_lbound<T>(t: Tabler<T>, raws: Map<State<T>, State<T>>)
    requires lst(t, raws) ensures t.states@.len() <= powerset(univ(t.grammar)).len()
{
    lemma_e_state::<T>();
    let pw = powerset(univ(t.grammar));
    assert forall|k: State<T>| t.kernels@.dom().contains(k) implies pw.contains(k) by {
        assert(t.kernels@.contains_key(k));
        if k != e_state::<T>() { assert(lker(t, raws, k)); lemma_univ(t.grammar, k@); }
        lemma_powerset(univ(t.grammar), k);
    }
    vstd::set_lib::lemma_len_subset(t.kernels@.dom(), pw);
}
/// State sets reached from a sound kernel are sound.
pub proof fn lemma_row_sound<T>(t: Tabler<T>, raws: Map<State<T>, State<T>>, i: int)
    requires gwf(t.grammar), lst(t, raws), 0 <= i < t.states@.len() ensures ssound(t.grammar, t.states@[i])
{
    assert(numd(t, i));
    let k = choose|k: State<T>| #[trigger] t.kernels@.contains_key(k) && t.kernels@[k] == i;
    if k == e_state::<T>() { lemma_ssound_0(t.grammar, t.states@[0]); }
    else { assert(lker(t, raws, k)); lemma_ssound(t.grammar, k, t.states@[i]); }
}
/// A kernel with new cores.
pub proof fn lemma_lnew<T>(t: Tabler<T>, raws: Map<State<T>, State<T>>, u: Tabler<T>, raws2: Map<State<T>, State<T>>, kn: State<T>, cl: State<T>)
    requires gwf(t.grammar), lst(t, raws), kn@ != Set::<Position<T>>::empty(), !raws.contains_key(cores(kn)),
        is_closure(t.grammar, true, kn@, cl@), items_ok(t.grammar, cl@), items_ok(t.grammar, kn@), ksound(t.grammar, kn),
        t.states@.len() <= usize::MAX,
        u.states@ == t.states@.push(cl), u.kernels@ == t.kernels@.insert(kn, t.states@.len() as usize), same_base(u, t), raws2 == raws.insert(cores(kn), kn),
    ensures lst(u, raws2), !t.kernels@.contains_key(kn),
        forall|i: int, x: T| 0 <= i < t.states@.len() && ldone1(t, raws, i, x) ==> #[trigger] ldone1(u, raws2, i, x),
        facts(t.grammar, raws).subset_of(facts(t.grammar, raws2)),
{
    let e = e_state::<T>();
    lemma_e_state::<T>();
    lemma_cores_empty(kn);
    lemma_closure_aclo(t.grammar, kn@, cl@);
    if t.kernels@.contains_key(kn) { assert(lker(t, raws, kn)); }
    assert(u.states@[0] == t.states@[0]);
    assert forall|i: int| 0 <= i < u.states@.len() implies items_ok(u.grammar, (#[trigger] u.states@[i])@) by { if i < t.states@.len() { assert(u.states@[i] == t.states@[i]); } }
    assert forall|k: State<T>| #[trigger] u.kernels@.contains_key(k) && k != e implies lker(u, raws2, k) by {
        if k != kn {
            assert(t.kernels@.contains_key(k)); assert(lker(t, raws, k));
            assert(u.states@[u.kernels@[k] as int] == t.states@[t.kernels@[k] as int]);
        }
    }
    assert forall|r: State<T>| #[trigger] raws2.contains_key(r) && r != e implies lraw(u, raws2, r) by {
        if r != cores(kn) { assert(raws.contains_key(r)); assert(lraw(t, raws, r)); }
    }
    assert forall|k: State<T>, l: State<T>| #[trigger] u.kernels@.contains_key(k) && #[trigger] u.kernels@.contains_key(l) && u.kernels@[k] == u.kernels@[l] implies k == l by {
        if k != kn { assert(t.kernels@.contains_key(k)); if k != e { assert(lker(t, raws, k)); } }
        if l != kn { assert(t.kernels@.contains_key(l)); if l != e { assert(lker(t, raws, l)); } }
    }
    assert forall|i: int| 0 <= i < u.states@.len() implies #[trigger] numd(u, i) by {
        if i < t.states@.len() {
            assert(numd(t, i));
            let k = choose|k: State<T>| #[trigger] t.kernels@.contains_key(k) && t.kernels@[k] == i;
            assert(u.kernels@.contains_key(k) && u.kernels@[k] == i);
        } else { assert(u.kernels@.contains_key(kn) && u.kernels@[kn] == i); }
    }
    assert(u.kernels@.dom() =~= t.kernels@.dom().insert(kn));
    assert(u.kernels@.dom().len() == t.kernels@.dom().len() + 1);
    assert forall|i: int, x: T| 0 <= i < t.states@.len() && ldone1(t, raws, i, x) implies #[trigger] ldone1(u, raws2, i, x) by { assert(u.states@[i] == t.states@[i]); }
    assert forall|f: (State<T>, Option<Position<T>>)| facts(t.grammar, raws).contains(f) implies facts(t.grammar, raws2).contains(f) by {}
}
/// The kernel `mk` grows to `nk`.
pub open spec fn lgrow<T>(t: Tabler<T>, raws: Map<State<T>, State<T>>, u: Tabler<T>, raws2: Map<State<T>, State<T>>, mk: State<T>, nk: State<T>) -> bool {
    &&& same_base(u, t)
    &&& u.kernels@ == t.kernels@.remove(mk).insert(nk, t.kernels@[mk])
    &&& raws2 == raws.insert(cores(mk), nk)
    &&& u.states@.len() == t.states@.len()
    &&& forall|i: int| 0 <= i < t.states@.len() && i != t.kernels@[mk] ==> #[trigger] u.states@[i] == t.states@[i]
    &&& cores(nk) == cores(mk) && nk != mk && cuniq(nk@) && asub(mk@, nk@)
}
/// No two kernels of the graph have the same core.
pub proof fn lemma_lone<T>(t: Tabler<T>, raws: Map<State<T>, State<T>>, mk: State<T>, nk: State<T>)
    requires lst(t, raws), t.kernels@.contains_key(mk), mk != e_state::<T>(), cores(nk) == cores(mk),
    ensures t.kernels@.contains_key(nk) ==> nk == mk,
{
    lemma_e_state::<T>();
    lemma_cores_empty(nk); lemma_cores_empty(mk);
    assert(lker(t, raws, mk));
    if t.kernels@.contains_key(nk) { assert(lker(t, raws, nk)); }
}
pub proof fn lemma_lupdate<T>(t: Tabler<T>, raws: Map<State<T>, State<T>>, u: Tabler<T>, raws2: Map<State<T>, State<T>>, mk: State<T>, inc: State<T>, cl: State<T>, nk: State<T>)
    requires gwf(t.grammar), lst(t, raws), t.kernels@.contains_key(mk), mk != e_state::<T>(), cores(inc) == cores(mk),
        items_ok(t.grammar, inc@), items_ok(t.grammar, cl@), aclo(t.grammar, inc@, cl@), ksound(t.grammar, inc),
        lgrow(t, raws, u, raws2, mk, nk), aunion(nk@, inc@, mk@), items_ok(t.grammar, nk@),
        aunion(u.states@[t.kernels@[mk] as int]@, t.states@[t.kernels@[mk] as int]@, cl@), items_ok(t.grammar, u.states@[t.kernels@[mk] as int]@),
    ensures lst(u, raws2), !t.kernels@.contains_key(nk),
{
    let e = e_state::<T>();
    lemma_e_state::<T>();
    lemma_cores_empty(nk); lemma_cores_empty(mk);
    assert(lker(t, raws, mk));
    if t.kernels@.contains_key(nk) { assert(lker(t, raws, nk)); }
    let id = t.kernels@[mk];
    assert(u.states@[0] == t.states@[0]);
    assert forall|i: int| 0 <= i < u.states@.len() implies items_ok(u.grammar, (#[trigger] u.states@[i])@) by { if i != id { assert(u.states@[i] == t.states@[i]); } }
    assert forall|k: State<T>| #[trigger] u.kernels@.contains_key(k) && k != e implies lker(u, raws2, k) by {
        if k != nk {
            assert(t.kernels@.contains_key(k)); assert(lker(t, raws, k));
            assert(t.kernels@[k] != id);
            assert(u.states@[u.kernels@[k] as int] == t.states@[t.kernels@[k] as int]);
            if cores(k) == cores(mk) { assert(raws[cores(k)] == k); }
        } else {
            lemma_aclo_union(t.grammar, inc@, mk@, nk@, cl@, t.states@[id as int]@, u.states@[id as int]@);
            lemma_ksound_union(t.grammar, inc, mk, nk);
        }
    }
    assert forall|r: State<T>| #[trigger] raws2.contains_key(r) && r != e implies lraw(u, raws2, r) by {
        if r != cores(mk) { assert(raws.contains_key(r)); assert(lraw(t, raws, r)); }
    }
    assert forall|k: State<T>, l: State<T>| #[trigger] u.kernels@.contains_key(k) && #[trigger] u.kernels@.contains_key(l) && u.kernels@[k] == u.kernels@[l] implies k == l by {
        if k != nk { assert(t.kernels@.contains_key(k)); }
        if l != nk { assert(t.kernels@.contains_key(l)); }
    }
    assert forall|i: int| 0 <= i < u.states@.len() implies #[trigger] numd(u, i) by {
        if i != id {
            assert(numd(t, i));
            let k = choose|k: State<T>| #[trigger] t.kernels@.contains_key(k) && t.kernels@[k] == i;
            assert(u.kernels@.contains_key(k) && u.kernels@[k] == i);
        } else { assert(u.kernels@.contains_key(nk) && u.kernels@[nk] == i); }
    }
    assert(u.kernels@.dom() =~= t.kernels@.dom().remove(mk).insert(nk));
    assert(u.kernels@.dom().len() == t.kernels@.dom().len());
}
pub proof fn lemma_lgrow_done<T>(t: Tabler<T>, raws: Map<State<T>, State<T>>, u: Tabler<T>, raws2: Map<State<T>, State<T>>, mk: State<T>, nk: State<T>)
    requires lst(t, raws), t.kernels@.contains_key(mk), mk != e_state::<T>(), lgrow(t, raws, u, raws2, mk, nk)
    ensures forall|i: int, x: T| 0 <= i < t.states@.len() && i != t.kernels@[mk] && ldone1(t, raws, i, x) ==> #[trigger] ldone1(u, raws2, i, x)
{
    assert(lker(t, raws, mk));
    assert forall|i: int, x: T| 0 <= i < t.states@.len() && i != t.kernels@[mk] && ldone1(t, raws, i, x) implies #[trigger] ldone1(u, raws2, i, x) by {
        assert(u.states@[i] == t.states@[i]);
    }
}

// ---- termination: facts about kernels only grow
pub open spec fn hasf<T>(k: Set<Position<T>>, f: Position<T>) -> bool { exists|p: Position<T>| #[trigger] k.contains(p) && core(p) == core(f) && f.look@.subset_of(p.look@) }
pub open spec fn fopts<T>(g: Grammar<T>) -> Set<Option<Position<T>>> { univ(g).map(|p: Position<T>| Some(p)).insert(None) }
pub open spec fn big<A, B>(rs: Seq<A>, fs: Set<B>) -> Set<(A, B)> decreases rs.len() {
    if rs.len() == 0 { Set::empty() } else { big(rs.drop_last(), fs).union(fs.map(|f: B| (rs.last(), f))) }
}
pub proof fn lemma_big<A, B>(rs: Seq<A>, fs: Set<B>, i: int, f: B)
    requires 0 <= i < rs.len(), fs.contains(f) ensures big(rs, fs).contains((rs[i], f)) decreases rs.len()
{
    if i < rs.len() - 1 { lemma_big(rs.drop_last(), fs, i, f); }
    else { assert(fs.map(|f: B| (rs.last(), f)).contains((rs[i], f))); }
}
pub open spec fn allf<T>(g: Grammar<T>) -> Set<(State<T>, Option<Position<T>>)> { big(set_seq(powerset(univ(g))), fopts(g)) }
pub proof fn lemma_allf<T>(g: Grammar<T>, r: State<T>, f: Option<Position<T>>)
    requires r@.subset_of(univ(g)), f is Some ==> univ(g).contains(f->0) ensures allf(g).contains((r, f))
{
    lemma_powerset(univ(g), r);
    let pw = powerset(univ(g));
    assert(pw.contains(r));
    if f is Some { assert(univ(g).map(|p: Position<T>| Some(p)).contains(Some(f->0))); }
    lemma_big(set_seq(pw), fopts(g), set_idx(pw, r), f);
}
pub open spec fn fact<T>(raws: Map<State<T>, State<T>>, f: (State<T>, Option<Position<T>>)) -> bool {
    raws.contains_key(f.0) && match f.1 { None => cuniq(raws[f.0]@), Some(p) => hasf(raws[f.0]@, p) }
}
pub open spec fn facts<T>(g: Grammar<T>, raws: Map<State<T>, State<T>>) -> Set<(State<T>, Option<Position<T>>)> {
    allf(g).filter(|f: (State<T>, Option<Position<T>>)| fact(raws, f))
}
pub open spec fn froom<T>(g: Grammar<T>, raws: Map<State<T>, State<T>>) -> int { allf(g).len() - facts(g, raws).len() }
pub proof fn lemma_froom<T>(g: Grammar<T>, raws: Map<State<T>, State<T>>, raws2: Map<State<T>, State<T>>)
    requires facts(g, raws).subset_of(facts(g, raws2))
    ensures 0 <= froom(g, raws2) <= froom(g, raws), facts(g, raws) != facts(g, raws2) ==> froom(g, raws2) < froom(g, raws)
{
    vstd::set_lib::lemma_len_subset(facts(g, raws), facts(g, raws2));
    vstd::set_lib::lemma_len_subset(facts(g, raws2), allf(g));
    if facts(g, raws).len() == facts(g, raws2).len() { vstd::set_lib::lemma_subset_equality(facts(g, raws), facts(g, raws2)); }
}
pub proof fn lemma_hasf_mono<T>(k: Set<Position<T>>, l: Set<Position<T>>, f: Position<T>)
    requires asub(k, l), cuniq(l), hasf(k, f) ensures hasf(l, f)
{
    let p = choose|p: Position<T>| #[trigger] k.contains(p) && core(p) == core(f) && f.look@.subset_of(p.look@);
    lemma_ha_in(k, p);
    assert(ha(l, core(p), None));
    let q = choose|q: Position<T>| l.contains(q) && #[trigger] ha1(q, core(p), None);
    assert forall|a: T| f.look@.contains(a) implies q.look@.contains(a) by {
        assert(p.look@.contains(a));
        assert(ha(k, core(p), Some(a)));
        let r = choose|r: Position<T>| l.contains(r) && #[trigger] ha1(r, core(p), Some(a));
        assert(r == q);
    }
}
pub open spec fn atom<T>(c: Position<T>, o: Option<T>) -> Position<T> { Position { look: bset(match o { None => Set::<T>::empty(), Some(a) => Set::<T>::empty().insert(a) }), ..c } }
pub proof fn lemma_atom<T>(s: Set<Position<T>>, c: Position<T>, o: Option<T>)
    requires core(c) == c
    ensures cuniq(s) || true ==> (hasf(s, atom(c, o)) <==> ha(s, c, o)), core(atom(c, o)) == c
{
    let f = atom(c, o);
    lemma_bset_view(Set::<T>::empty());
    if o is Some { lemma_bset_view(Set::<T>::empty().insert(o->0)); }
    assert(core(f) == core(c));
    if hasf(s, f) {
        let p = choose|p: Position<T>| #[trigger] s.contains(p) && core(p) == core(f) && f.look@.subset_of(p.look@);
        if o is Some { assert(f.look@.contains(o->0)); }
        assert(ha1(p, c, o));
    }
    if ha(s, c, o) {
        let p = choose|p: Position<T>| s.contains(p) && #[trigger] ha1(p, c, o);
        assert(f.look@.subset_of(p.look@));
    }
}
pub proof fn lemma_facts_grow<T>(t: Tabler<T>, raws: Map<State<T>, State<T>>, u: Tabler<T>, raws2: Map<State<T>, State<T>>, mk: State<T>, nk: State<T>)
    requires gwf(t.grammar), lst(t, raws), t.kernels@.contains_key(mk), mk != e_state::<T>(), lgrow(t, raws, u, raws2, mk, nk), items_ok(t.grammar, nk@),
    ensures facts(t.grammar, raws).subset_of(facts(t.grammar, raws2)), facts(t.grammar, raws) != facts(t.grammar, raws2),
{
    let g = t.grammar;
    assert(lker(t, raws, mk));
    let r = cores(mk);
    assert forall|f: (State<T>, Option<Position<T>>)| facts(g, raws).contains(f) implies facts(g, raws2).contains(f) by {
        assert(fact(raws, f));
        if f.0 == r && f.1 is Some { lemma_hasf_mono(mk@, nk@, f.1->0); }
        assert(fact(raws2, f));
    }
    lemma_cores(mk);
    assert forall|p: Position<T>| #[trigger] r@.contains(p) implies univ(g).contains(p) by {
        let q = choose|q: Position<T>| mk@.contains(q) && core(q) == p;
        assert(item_ok(g, q));
        lemma_core(q);
        let one = only(p);
        lemma_univ(g, one);
        assert(one.contains(p));
    }
    assert(r@.subset_of(univ(g)));
    if !cuniq(mk@) {
        lemma_allf(g, r, None);
        assert(facts(g, raws2).contains((r, None)));
        assert(!facts(g, raws).contains((r, None)));
    } else {
        if aeq(mk@, nk@) { lemma_cuniq_eq(mk, nk); }
        let (c, o) = choose|c: Position<T>, o: Option<T>| !(#[trigger] ha(mk@, c, o) <==> ha(nk@, c, o));
        assert(ha(nk@, c, o));
        lemma_ha_none(nk@, c, o);
        let f = atom(c, o);
        lemma_atom(mk@, c, o); lemma_atom(nk@, c, o);
        let q = choose|q: Position<T>| nk@.contains(q) && #[trigger] ha1(q, c, o);
        assert(item_ok(g, q));
        lemma_core(q); lemma_core(f);
        assert(f.look@.subset_of(q.look@)) by {
            lemma_bset_view(Set::<T>::empty());
            if o is Some { lemma_bset_view(Set::<T>::empty().insert(o->0)); }
        }
        lemma_core_eq(f, q);
        assert(item_ok(g, f));
        let one = only(f);
        lemma_univ(g, one);
        assert(one.contains(f));
        lemma_allf(g, r, Some(f));
        assert(facts(g, raws2).contains((r, Some(f))));
        assert(!facts(g, raws).contains((r, Some(f))));
    }
}

// ---- the result: the canonical states, merged by core
/// The state for the canonical state reached by `y` is number `i`.
pub open spec fn at<T>(m: Auto<T>, y: Seq<T>, i: int) -> bool {
    if y.len() == 0 { i == 0 } else { kpath(m.g, y) != e_state::<T>() && khas(m, kpath(m.g, y)) && kid(m, kpath(m.g, y)) == i }
}
pub open spec fn has_can<T>(m: Auto<T>, y: Seq<T>, i: int, c: Position<T>, o: Option<T>) -> bool { at(m, y, i) && ha(can(m.g, y)@, c, o) }
pub open spec fn reached<T>(m: Auto<T>, i: int) -> bool { exists|y: Seq<T>| #[trigger] at(m, y, i) }
pub open spec fn lalr_exact<T>(m: Auto<T>) -> bool {
    // every canonical state has its state, and canonical states share one exactly if they have the same core
    &&& forall|y: Seq<T>| #[trigger] kpath(m.g, y) != e_state::<T>() ==> khas(m, kpath(m.g, y)) && 1 <= kid(m, kpath(m.g, y)) < m.states.len()
    &&& forall|y: Seq<T>, z: Seq<T>| #[trigger] kpath(m.g, y) != e_state::<T>() && #[trigger] kpath(m.g, z) != e_state::<T>() ==>
            (kid(m, kpath(m.g, y)) == kid(m, kpath(m.g, z)) <==> cores(kpath(m.g, y)) == cores(kpath(m.g, z)))
    &&& forall|y: Seq<T>, i: int| #[trigger] at(m, y, i) ==> 0 <= i < m.states.len() && ceq(can(m.g, y)@, m.states[i]@)
    // every state is that of some canonical state
    &&& forall|i: int| 0 <= i < m.states.len() ==> #[trigger] reached(m, i)
    // lookaheads are the union of those of the canonical states
    &&& forall|i: int, c: Position<T>, o: Option<T>| 0 <= i < m.states.len() ==>
            (#[trigger] ha(m.states[i]@, c, o) <==> exists|y: Seq<T>| has_can(m, y, i, c, o))
    // looking up a kernel leads to the state of its core
    &&& forall|k: State<T>, l: State<T>| #[trigger] khas(m, k) && #[trigger] khas(m, l) && cores(k) == cores(l) ==> kid(m, k) == kid(m, l)
}
pub proof fn lemma_asub_ceq<T>(s: Set<Position<T>>, t: Set<Position<T>>)
    requires asub(s, t), ceq(s, t) || true ensures forall|c: Position<T>| #[trigger] ha(s, c, None) ==> ha(t, c, None)
{}
/// The canonical state after `y` is inside its state.
pub proof fn lemma_lcomplete<T>(t: Tabler<T>, raws: BMap<State<T>, State<T>>, y: Seq<T>)
    requires gwf(t.grammar), lgraph(t, raws@)
    ensures y.len() == 0 ==> aeq(can(t.grammar, y)@, t.states@[0]@),
        y.len() > 0 && kpath(t.grammar, y) == e_state::<T>() ==> can(t.grammar, y)@ == Set::<Position<T>>::empty(),
        y.len() > 0 && kpath(t.grammar, y) != e_state::<T>() ==> {
            let m = auto_lalr(t, raws); let k = kpath(t.grammar, y);
            khas(m, k) && lker(t, raws@, raws@[cores(k)]) && asub(k@, raws@[cores(k)]@) && ceq(k@, raws@[cores(k)]@)
                && asub(can(t.grammar, y)@, t.states@[kid(m, k) as int]@) && ceq(can(t.grammar, y)@, t.states@[kid(m, k) as int]@) },
    decreases y.len()
{
    let g = t.grammar;
    let e = e_state::<T>();
    lemma_e_state::<T>();
    lemma_can(g, y);
    if y.len() == 0 {
        assert forall|c: Position<T>, o: Option<T>| #[trigger] ha(can(g, y)@, c, o) <==> ha(t.states@[0]@, c, o) by {}
    } else {
        let z = y.drop_last(); let x = y.last();
        lemma_lcomplete(t, raws, z);
        lemma_can(g, z);
        let k = kpath(g, y);
        if k == e {
            lemma_clo(g, k@);
            lemma_closure_empty(g, true, k@);
        } else {
            // the state of z is not empty
            lemma_gotok(can(g, z), x);
            assert(can(g, z)@ != Set::<Position<T>>::empty()) by {
                assert(!(k@ =~= Set::<Position<T>>::empty()));
                let q = choose|q: Position<T>| k@.contains(q);
                assert(can(g, z)@.contains(back(q)));
            }
            let i = if z.len() == 0 { 0 } else { kid(auto_lalr(t, raws), kpath(g, z)) as int };
            let l = gotok(t.states@[i], x);
            if z.len() == 0 {
                assert(asub(can(g, z)@, t.states@[0]@)); assert(ceq(can(g, z)@, t.states@[0]@));
            }
            lemma_goto_asub(can(g, z), t.states@[i], x);
            lemma_goto_ceq(can(g, z), t.states@[i], x);
            lemma_cores_eq(k, l);
            lemma_cores_empty(k); lemma_cores_empty(l);
            assert(ldone1(t, raws@, i, x));
            let r = raws@[cores(k)];
            assert(lraw(t, raws@, cores(k)));
            assert(lker(t, raws@, r));
            lemma_cores_eq(k, r);
            assert(asub(k@, r@)) by { assert forall|c: Position<T>, o: Option<T>| #[trigger] ha(k@, c, o) implies ha(r@, c, o) by { assert(ha(l@, c, o)); } }
            let s = t.states@[t.kernels@[r] as int]@;
            lemma_aclo_sub(g, k@, r@, can(g, y)@, s);
            lemma_aclo_ceq(g, k@, r@, can(g, y)@, s);
        }
    }
}
pub proof fn lemma_lalr_exact<T>(t: Tabler<T>, raws: BMap<State<T>, State<T>>)
    requires gwf(t.grammar), lgraph(t, raws@) ensures lalr_exact(auto_lalr(t, raws)), forall|i: int, x: T| 0 <= i < t.states@.len() && gotok(t.states@[i], x) != e_state::<T>() ==> khas(auto_lalr(t, raws), #[trigger] gotok(t.states@[i], x)),
{
    let g = t.grammar;
    let m = auto_lalr(t, raws);
    let e = e_state::<T>();
    lemma_e_state::<T>();
    assert forall|y: Seq<T>| #[trigger] kpath(g, y) != e implies y.len() > 0 && khas(m, kpath(g, y)) && 1 <= kid(m, kpath(g, y)) < m.states.len() by { lemma_lcomplete(t, raws, y); }
    assert forall|y: Seq<T>, z: Seq<T>| #[trigger] kpath(g, y) != e && #[trigger] kpath(g, z) != e implies
            (kid(m, kpath(g, y)) == kid(m, kpath(g, z)) <==> cores(kpath(g, y)) == cores(kpath(g, z))) by {
        lemma_lcomplete(t, raws, y); lemma_lcomplete(t, raws, z);
        lemma_cores_empty(kpath(g, y)); lemma_cores_empty(kpath(g, z));
        assert(lraw(t, raws@, cores(kpath(g, y)))); assert(lraw(t, raws@, cores(kpath(g, z))));
    }
    assert forall|y: Seq<T>, i: int| #[trigger] at(m, y, i) implies 0 <= i < m.states.len() && ceq(can(g, y)@, m.states[i]@) && asub(can(g, y)@, m.states[i]@) by { lemma_lcomplete(t, raws, y); }
    assert forall|i: int, c: Position<T>, o: Option<T>| 0 <= i < m.states.len() && #[trigger] ha(m.states[i]@, c, o) implies exists|y: Seq<T>| has_can(m, y, i, c, o) by {
        lemma_src_at(t, raws, i, c, o);
    }
    assert forall|i: int, c: Position<T>, o: Option<T>| 0 <= i < m.states.len() && (exists|y: Seq<T>| has_can(m, y, i, c, o)) implies #[trigger] ha(m.states[i]@, c, o) by {
        let y = choose|y: Seq<T>| has_can(m, y, i, c, o);
        lemma_lcomplete(t, raws, y);
        assert(at(m, y, i));
    }
    assert forall|i: int| 0 <= i < m.states.len() implies #[trigger] reached(m, i) by {
        assert(numd(t, i));
        let k = choose|k: State<T>| #[trigger] t.kernels@.contains_key(k) && t.kernels@[k] == i;
        if k == e { assert(at(m, Seq::empty(), i)); } else {
            assert(lker(t, raws@, k));
            lemma_cores_empty(k);
            assert(!(k@ =~= Set::<Position<T>>::empty()));
            let p = choose|p: Position<T>| k@.contains(p);
            lemma_ha_in(k@, p);
            let y = choose|y: Seq<T>| ksrc(g, k, core(p), None, y);
            lemma_cores_empty(kpath(g, y));
            assert(at(m, y, i));
        }
    }
    assert forall|i: int, x: T| 0 <= i < t.states@.len() && gotok(t.states@[i], x) != e implies khas(m, #[trigger] gotok(t.states@[i], x)) by {
        let k = gotok(t.states@[i], x);
        assert(ldone1(t, raws@, i, x));
        lemma_cores_empty(k);
        assert(lraw(t, raws@, cores(k)));
    }
}
pub proof fn lemma_src_at<T>(t: Tabler<T>, raws: BMap<State<T>, State<T>>, i: int, c: Position<T>, o: Option<T>)
    requires gwf(t.grammar), lgraph(t, raws@), 0 <= i < t.states@.len(), ha(t.states@[i]@, c, o)
    ensures exists|y: Seq<T>| has_can(auto_lalr(t, raws), y, i, c, o)
{
    let g = t.grammar;
    let m = auto_lalr(t, raws);
    let e = e_state::<T>();
    lemma_e_state::<T>();
    assert(numd(t, i));
    let k = choose|k: State<T>| #[trigger] t.kernels@.contains_key(k) && t.kernels@[k] == i;
    if k == e {
        let y = Seq::<T>::empty();
        lemma_lcomplete(t, raws, y);
        assert(ha(can(g, y)@, c, o));
        assert(has_can(m, y, i, c, o));
    } else {
        assert(lker(t, raws@, k));
        let n = choose|n: nat| areach(g, k@, c, o, n);
        let (c0, o0) = lemma_areach_src(g, k@, c, o, n);
        let y = choose|y: Seq<T>| ksrc(g, k, c0, o0, y);
        assert(areach(g, kpath(g, y)@, c, o, n));
        assert(y.len() > 0);
        lemma_can(g, y);
        lemma_cores_empty(k); lemma_cores_empty(kpath(g, y));
        assert(ain(g, kpath(g, y)@, c, o));
        assert(at(m, y, i));
        assert(has_can(m, y, i, c, o));
    }
}
pub proof fn lemma_lgraph_actions<T>(t: Tabler<T>, u: Tabler<T>, raws: Map<State<T>, State<T>>)
    requires lgraph(t, raws), same_but_actions(u, t) ensures lgraph(u, raws)
{
    assert forall|k: State<T>| #[trigger] u.kernels@.contains_key(k) && k != e_state::<T>() implies lker(u, raws, k) by { assert(lker(t, raws, k)); }
    assert forall|r: State<T>| #[trigger] raws.contains_key(r) && r != e_state::<T>() implies lraw(u, raws, r) by { assert(lraw(t, raws, r)); }
    assert forall|i: int| 0 <= i < u.states@.len() implies #[trigger] numd(u, i) by {
        assert(numd(t, i));
        let k = choose|k: State<T>| #[trigger] t.kernels@.contains_key(k) && t.kernels@[k] == i;
        assert(u.kernels@.contains_key(k));
    }
    assert forall|i: int, x: T| 0 <= i < u.states@.len() implies #[trigger] ldone1(u, raws, i, x) by { assert(ldone1(t, raws, i, x)); }
}

/// `q` is the core of one of the first `n` items.
pub open spec fn cored<T>(s: Set<Position<T>>, q: Position<T>, n: int) -> bool {
    exists|i: int| 0 <= i < n && q == core(#[trigger] set_seq(s)[i])
}
pub proof fn lemma_cored<T>(s: State<T>, r: State<T>)
    requires forall|q: Position<T>| #[trigger] r@.contains(q) <==> cored(s@, q, set_seq(s@).len() as int)
    ensures r@ == cores(s)@
{
    lemma_cores(s);
    assert forall|q: Position<T>| #[trigger] r@.contains(q) <==> core_set(s@).contains(q) by {
        if r@.contains(q) { let i = choose|i: int| 0 <= i < set_seq(s@).len() && q == core(#[trigger] set_seq(s@)[i]); assert(s@.contains(set_seq(s@)[i])); }
        if core_set(s@).contains(q) { let p = choose|p: Position<T>| s@.contains(p) && core(p) == q; assert(set_seq(s@)[set_idx(s@, p)] == p); }
    }
    assert(r@ =~= core_set(s@));
}
pub open spec fn uni<A>(u: Set<A>, s: Set<A>, t: Set<A>) -> bool {
    forall|x: A| #[trigger] u.contains(x) <==> s.contains(x) || t.contains(x)
}
/// `r` is what merging the items of both makes, however they were put together.
pub open spec fn both_merged<T>(s: Set<Position<T>>, t: Set<Position<T>>, r: Set<Position<T>>) -> bool {
    exists|u: Set<Position<T>>| #[trigger] is_merged(u, r) && uni(u, s, t)
}
/// The ways two sets may be put together.
pub proof fn lemma_uni<A>(s: Set<A>, t: Set<A>)
    ensures uni((set_seq(s) + set_seq(t)).to_set(), s, t), uni((set_seq(t) + set_seq(s)).to_set(), s, t),
        uni(s.union(set_seq(t).to_set()), s, t), uni(t.union(set_seq(s).to_set()), s, t), uni(s.union(t), s, t), uni(t.union(s), s, t)
{
    lemma_seqs_union(s, t);
    lemma_seqs_union(t, s);
    assert forall|x: A| #[trigger] s.union(set_seq(t).to_set()).contains(x) <==> s.contains(x) || t.contains(x) by { if t.contains(x) { assert(set_seq(t)[set_idx(t, x)] == x); } }
    assert forall|x: A| #[trigger] t.union(set_seq(s).to_set()).contains(x) <==> s.contains(x) || t.contains(x) by { if s.contains(x) { assert(set_seq(s)[set_idx(s, x)] == x); } }
}
pub proof fn lemma_both<T>(inc: State<T>, mk: State<T>, r: State<T>)
    requires cores(inc) == cores(mk), both_merged(inc@, mk@, r@)
    ensures aunion(r@, inc@, mk@), cores(r) == cores(mk), asub(inc@, r@), asub(mk@, r@), r == mk ==> asub(inc@, mk@),
        forall|g: Grammar<T>| #[trigger] items_ok(g, inc@) && items_ok(g, mk@) ==> items_ok(g, r@)
{
    lemma_both2(inc, mk, r);
    lemma_cores_eq(inc, mk); lemma_cores_eq(r, mk);
    assert(ceq(r@, mk@)) by { assert forall|c: Position<T>| #[trigger] ha(r@, c, None) <==> ha(mk@, c, None) by { assert(ha(inc@, c, None) <==> ha(mk@, c, None)); } }
}
pub proof fn lemma_both2<T>(inc: State<T>, mk: State<T>, r: State<T>)
    requires both_merged(inc@, mk@, r@)
    ensures aunion(r@, inc@, mk@), forall|g: Grammar<T>| #[trigger] items_ok(g, inc@) && items_ok(g, mk@) ==> items_ok(g, r@)
{
    let u = choose|u: Set<Position<T>>| #[trigger] is_merged(u, r@) && uni(u, inc@, mk@);
    assert forall|c: Position<T>, o: Option<T>| #[trigger] ha(r@, c, o) <==> ha(inc@, c, o) || ha(mk@, c, o) by {
        assert(ha(r@, c, o) <==> ha(u, c, o));
        if ha(u, c, o) { let q = choose|q: Position<T>| u.contains(q) && #[trigger] ha1(q, c, o); }
        if ha(inc@, c, o) { let q = choose|q: Position<T>| inc@.contains(q) && #[trigger] ha1(q, c, o); assert(u.contains(q)); }
        if ha(mk@, c, o) { let q = choose|q: Position<T>| mk@.contains(q) && #[trigger] ha1(q, c, o); assert(u.contains(q)); }
    }
    assert forall|g: Grammar<T>| #[trigger] items_ok(g, inc@) && items_ok(g, mk@) implies items_ok(g, r@) by { assert(items_ok(g, u)); }
}
pub proof fn lemma_seqs_union<A>(s: Set<A>, t: Set<A>)
    ensures forall|x: A| #[trigger] (set_seq(s) + set_seq(t)).to_set().contains(x) <==> s.contains(x) || t.contains(x)
{
    let c = set_seq(s) + set_seq(t);
    assert forall|x: A| #[trigger] c.to_set().contains(x) <==> s.contains(x) || t.contains(x) by {
        if c.contains(x) { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; if i < set_seq(s).len() { assert(set_seq(s)[i] == x); } else { assert(set_seq(t)[i - set_seq(s).len()] == x); } }
        if s.contains(x) { assert(c[set_idx(s, x)] == x); }
        if t.contains(x) { assert(c[set_seq(s).len() + set_idx(t, x)] == x); }
    }
}
/// The x-successor of state `i` is known already.
pub proof fn lemma_lstep_old<T>(t: Tabler<T>, raws: Map<State<T>, State<T>>, i: int, x: T, row: State<T>)
    requires lst(t, raws), 0 <= i < t.states@.len()
    ensures t.states@[i] == row && t.kernels@.contains_key(gotok(row, x)) || t.states@[i] == row && gotok(row, x)@ == Set::<Position<T>>::empty() ==> ldone1(t, raws, i, x),
{
    lemma_e_state::<T>();
    let kn = gotok(row, x);
    if t.kernels@.contains_key(kn) && kn != e_state::<T>() { assert(lker(t, raws, kn)); }
}
pub proof fn lemma_goto_nonempty<T>(s: State<T>, p: Position<T>)
    requires s@.contains(p), top(p) is Some ensures gotok(s, top(p)->0) != e_state::<T>()
{ lemma_e_state::<T>(); lemma_gotok_adv(s, top(p)->0, p); }
} // mod th_lalr
pub use th_lalr::*;
