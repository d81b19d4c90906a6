
// ===================================================================================================
// FIRST and FOLLOW
// ===================================================================================================
pub mod th_first {
use super::*;
broadcast use {model::group_model, th_grammar::group_base};

/// Some production of `x` begins with `y`.
pub open spec fn fedge<T>(g: Grammar<T>, x: T, y: T) -> bool {
    exists|p: Production<T>| #[trigger] is_prod(g, x, p) && p.0@.len() > 0 && p.0@[0] == y
}
/// `x` derives in `n >= 1` leftmost steps a string that begins with `y`.
pub open spec fn leads_n<T>(g: Grammar<T>, x: T, y: T, n: nat) -> bool decreases n {
    if n == 0 { false } else { fedge(g, x, y) || exists|z: T| #[trigger] fedge(g, x, z) && leads_n(g, z, y, (n - 1) as nat) }
}
pub open spec fn leads<T>(g: Grammar<T>, x: T, y: T) -> bool { exists|n: nat| leads_n(g, x, y, n) }

/// a ∈ FIRST(x): a terminal that can begin a string derived from the symbol x.
pub open spec fn first_has<T>(g: Grammar<T>, x: T, a: T) -> bool {
    !nonterm(g, a) && (a == x || leads(g, x, a))
}
/// The FIRST table holds, for each nonterminal, exactly its FIRST set.
pub open spec fn first_exact<T>(g: Grammar<T>, t: Map<T, BSet<T>>) -> bool {
    t.dom() == g.rules@.dom() && forall|x: T, a: T| t.contains_key(x) ==> (#[trigger] t[x]@.contains(a) <==> first_has(g, x, a))
}

/// `a` begins one of the first `n` productions.
pub open spec fn begins<T>(prods: Seq<Rc<Production<T>>>, a: T, n: int) -> bool {
    exists|j: int| 0 <= j < n && (#[trigger] prods[j]).0@[0] == a
}
// ---- the iteration
pub open spec fn fok<T>(g: Grammar<T>, t: Map<T, BSet<T>>) -> bool {
    &&& t.dom() == g.rules@.dom()
    &&& forall|x: T, a: T| t.contains_key(x) && #[trigger] t[x]@.contains(a) ==> leads(g, x, a) && a != x
    &&& forall|x: T, a: T| #[trigger] fedge(g, x, a) && a != x ==> t[x]@.contains(a)
}
pub open spec fn tclosed<T>(g: Grammar<T>, t: Map<T, BSet<T>>) -> bool {
    forall|x: T, b: T, c: T| t.contains_key(x) && #[trigger] t[x]@.contains(b) && nonterm(g, b) && t.contains_key(b) && #[trigger] t[b]@.contains(c) && c != x
        ==> t[x]@.contains(c)
}
pub open spec fn tmono<T>(t: Map<T, BSet<T>>, u: Map<T, BSet<T>>) -> bool {
    t.dom() == u.dom() && forall|x: T, a: T| t.contains_key(x) && #[trigger] t[x]@.contains(a) ==> u[x]@.contains(a)
}
pub open spec fn tin<T>(t: Map<T, BSet<T>>, s: Set<T>) -> bool {
    forall|x: T, a: T| t.contains_key(x) && #[trigger] t[x]@.contains(a) ==> s.contains(a)
}
pub open spec fn tsize<T>(t: Map<T, BSet<T>>, k: Seq<T>) -> nat decreases k.len() {
    if k.len() == 0 { 0 } else { tsize(t, k.drop_last()) + t[k.last()]@.len() }
}
pub open spec fn keys<T, V>(t: Map<T, V>) -> Seq<T> { set_seq(t.dom()) }
/// What is left to add: decreases with every step that changes the table.
pub open spec fn troom<T>(t: Map<T, BSet<T>>, s: Set<T>) -> int { t.dom().len() * s.len() - tsize(t, keys(t)) }

/// What one symbol `b` of a row brings in.
pub open spec fn brings<T>(g: Grammar<T>, t: Map<T, BSet<T>>, b: T, c: T) -> bool {
    nonterm(g, b) && t.contains_key(b) && t[b]@.contains(c)
}
/// Row `x` of the result of a step: the old row, plus the rows of its nonterminals, minus `x`.
pub open spec fn step_row<T>(g: Grammar<T>, t: Map<T, BSet<T>>, x: T, c: T) -> bool {
    c != x && (t[x]@.contains(c) || exists|b: T| t[x]@.contains(b) && #[trigger] brings(g, t, b, c))
}
pub open spec fn step_of<T>(g: Grammar<T>, t: Map<T, BSet<T>>, u: Map<T, BSet<T>>) -> bool {
    u.dom() == t.dom() && forall|x: T, c: T| t.contains_key(x) ==> (#[trigger] u[x]@.contains(c) <==> step_row(g, t, x, c))
}
/// The first `n` rows are done; the others are not there, or as they were.
pub open spec fn step_part<T>(g: Grammar<T>, t: Map<T, BSet<T>>, m: Map<T, BSet<T>>, n: int) -> bool {
    &&& forall|x: T| #[trigger] t.contains_key(x) && set_idx(t.dom(), x) < n ==> m.contains_key(x)
    &&& forall|x: T| #[trigger] m.contains_key(x) ==> t.contains_key(x) && (set_idx(t.dom(), x) >= n ==> m[x] == t[x])
    &&& forall|x: T, c: T| t.contains_key(x) && set_idx(t.dom(), x) < n ==> (#[trigger] m[x]@.contains(c) <==> step_row(g, t, x, c))
}
pub proof fn lemma_step_next<T>(g: Grammar<T>, t: Map<T, BSet<T>>, m: Map<T, BSet<T>>, n: int, s: BSet<T>)
    requires step_part(g, t, m, n), 0 <= n < set_seq(t.dom()).len(), forall|c: T| #[trigger] s@.contains(c) <==> step_row(g, t, set_seq(t.dom())[n], c)
    ensures step_part(g, t, m.insert(set_seq(t.dom())[n], s), n + 1)
{
    let x = set_seq(t.dom())[n];
    assert(t.dom().contains(x));
    assert(t.contains_key(x));
    let u = m.insert(x, s);
    assert forall|y: T, c: T| t.contains_key(y) && set_idx(t.dom(), y) < n + 1 implies (#[trigger] u[y]@.contains(c) <==> step_row(g, t, y, c)) by {
        if y != x {
            assert(set_idx(t.dom(), y) != n);
            assert(u[y] == m[y]);
            assert(m[y]@.contains(c) <==> step_row(g, t, y, c));
        } else {
            assert(s@.contains(c) <==> step_row(g, t, x, c));
        }
    }
}
pub proof fn lemma_step_all<T>(g: Grammar<T>, t: Map<T, BSet<T>>, m: Map<T, BSet<T>>)
    requires step_part(g, t, m, set_seq(t.dom()).len() as int)
    ensures step_of(g, t, m)
{
    assert forall|x: T| #[trigger] m.dom().contains(x) <==> t.dom().contains(x) by {
        if t.dom().contains(x) { assert(t.contains_key(x)); assert(m.contains_key(x)); }
        if m.dom().contains(x) { assert(m.contains_key(x)); }
    }
    assert(m.dom() =~= t.dom());
    assert forall|x: T, c: T| t.contains_key(x) implies (#[trigger] m[x]@.contains(c) <==> step_row(g, t, x, c)) by {
        assert(set_idx(t.dom(), x) < set_seq(t.dom()).len());
    }
}
pub proof fn lemma_first_step<T>(g: Grammar<T>, t: Map<T, BSet<T>>, u: Map<T, BSet<T>>)
    requires fok(g, t), step_of(g, t, u)
    ensures fok(g, u), tmono(t, u), u == t ==> tclosed(g, u)
{
    assert forall|x: T, a: T| u.contains_key(x) && #[trigger] u[x]@.contains(a) implies leads(g, x, a) && a != x by {
        if !t[x]@.contains(a) {
            let b = choose|b: T| t[x]@.contains(b) && #[trigger] brings(g, t, b, a);
            lemma_leads_trans(g, x, b, a);
        }
    }
    assert forall|x: T, a: T| #[trigger] fedge(g, x, a) && a != x implies u[x]@.contains(a) by {
        assert(g.rules@.dom().contains(x));
        assert(step_row(g, t, x, a));
    }
    if u == t {
        assert forall|x: T, b: T, c: T| t.contains_key(x) && #[trigger] t[x]@.contains(b) && nonterm(g, b) && t.contains_key(b) && #[trigger] t[b]@.contains(c) && c != x
            implies t[x]@.contains(c) by { assert(brings(g, t, b, c)); assert(step_row(g, t, x, c)); }
    }
}
pub proof fn lemma_follow_step<T>(g: Grammar<T>, t: Map<T, BSet<T>>, u: Map<T, BSet<T>>)
    requires gwf(g), !nonterm(g, eof_of(g)), wok(g, t), step_of(g, t, u)
    ensures wok(g, u), tmono(t, u), u == t ==> tclosed(g, u)
{
    assert forall|x: T| #[trigger] u.contains_key(x) <==> fkey(g, x) by { assert(u.dom().contains(x) <==> t.dom().contains(x)); }
    assert forall|x: T, a: T| u.contains_key(x) && #[trigger] u[x]@.contains(a) implies wsound(g, x, a) && a != x by {
        if !t[x]@.contains(a) {
            let b = choose|b: T| t[x]@.contains(b) && #[trigger] brings(g, t, b, a);
            lemma_wsound(g, x, b, a);
        }
    }
    assert forall|x: T, a: T| #[trigger] fbase(g, x, a) implies u[x]@.contains(a) by {
        lemma_fbase_term(g, x, a);
        assert(step_row(g, t, x, a));
    }
    assert forall|x: T, z: T| #[trigger] ledge(g, x, z) && z != x implies u[x]@.contains(z) by {
        assert(fkey(g, x));
        assert(step_row(g, t, x, z));
    }
    if u == t {
        assert forall|x: T, b: T, c: T| t.contains_key(x) && #[trigger] t[x]@.contains(b) && nonterm(g, b) && t.contains_key(b) && #[trigger] t[b]@.contains(c) && c != x
            implies t[x]@.contains(c) by { assert(brings(g, t, b, c)); assert(step_row(g, t, x, c)); }
    }
}
pub proof fn lemma_tin_first<T>(g: Grammar<T>, t: Map<T, BSet<T>>)
    requires gwf(g), fok(g, t) ensures tin(t, g.symbols@)
{
    assert forall|x: T, a: T| t.contains_key(x) && #[trigger] t[x]@.contains(a) implies g.symbols@.contains(a) by {
        let n = choose|n: nat| leads_n(g, x, a, n); lemma_leads_sym(g, x, a, n); }
}
pub proof fn lemma_chain_sym<T>(g: Grammar<T>, x: T, z: T, n: nat)
    requires gwf(g), lchain(g, x, z, n), nonterm(g, x) ensures g.symbols@.contains(z), nonterm(g, z) decreases n
{
    if n > 0 {
        let y = choose|y: T| #[trigger] ledge(g, x, y) && lchain(g, y, z, (n - 1) as nat);
        lemma_chain_sym(g, y, z, (n - 1) as nat);
    }
}
pub proof fn lemma_follow_sym<T>(g: Grammar<T>, x: T, a: T, n: nat)
    requires gwf(g), !nonterm(g, eof_of(g)), follow_n(g, x, a, n)
    ensures !nonterm(g, a), g.symbols@.contains(a) decreases n
{
    if fbase(g, x, a) { lemma_fbase_term(g, x, a); } else {
        let z = choose|z: T| #[trigger] ledge(g, x, z) && follow_n(g, z, a, (n - 1) as nat);
        lemma_follow_sym(g, z, a, (n - 1) as nat);
    }
}
pub proof fn lemma_tin_follow<T>(g: Grammar<T>, t: Map<T, BSet<T>>)
    requires gwf(g), !nonterm(g, eof_of(g)), wok(g, t) ensures tin(t, g.symbols@)
{
    assert forall|x: T, a: T| t.contains_key(x) && #[trigger] t[x]@.contains(a) implies g.symbols@.contains(a) by {
        assert(wsound(g, x, a));
        if nonterm(g, a) { let n = choose|n: nat| lchain(g, x, a, n); lemma_fkey_nonterm(g, x); lemma_chain_sym(g, x, a, n); }
        else { let n = choose|n: nat| follow_n(g, x, a, n); lemma_follow_sym(g, x, a, n); }
    }
}
/// The table without the nonterminals of its rows.
pub open spec fn only_terms<T>(g: Grammar<T>, t: Map<T, BSet<T>>, u: Map<T, BSet<T>>) -> bool {
    u.dom() == t.dom() && forall|x: T, a: T| t.contains_key(x) ==> (#[trigger] u[x]@.contains(a) <==> t[x]@.contains(a) && !nonterm(g, a))
}
/// The part of `only_terms` that the first i entries make up.
pub open spec fn ot_part<T>(g: Grammar<T>, t: Map<T, BSet<T>>, u: Map<T, BSet<T>>, i: int) -> bool {
    (forall|x: T| #[trigger] u.dom().contains(x) <==> t.dom().contains(x) && set_idx(t.dom(), x) < i)
    && forall|x: T, a: T| u.dom().contains(x) ==> (#[trigger] u[x]@.contains(a) <==> t[x]@.contains(a) && !nonterm(g, a))
}
pub proof fn lemma_ot_all<T>(g: Grammar<T>, t: Map<T, BSet<T>>, u: Map<T, BSet<T>>)
    requires ot_part(g, t, u, set_seq(t.dom()).len() as int) ensures only_terms(g, t, u)
{
    assert forall|x: T| t.dom().contains(x) implies #[trigger] u.dom().contains(x) by { assert(set_idx(t.dom(), x) < set_seq(t.dom()).len()); }
    assert(u.dom() =~= t.dom());
}
pub proof fn lemma_ot_step<T>(g: Grammar<T>, t: Map<T, BSet<T>>, u: Map<T, BSet<T>>, i: int, s: BSet<T>)
    requires ot_part(g, t, u, i), 0 <= i < set_seq(t.dom()).len(),
        forall|a: T| #[trigger] s@.contains(a) <==> t[set_seq(t.dom())[i]]@.contains(a) && !nonterm(g, a),
    ensures ot_part(g, t, u.insert(set_seq(t.dom())[i], s), i + 1)
{
    let x = set_seq(t.dom())[i];
    let v = u.insert(x, s);
    assert(t.dom().contains(x) && set_idx(t.dom(), x) == i);
    assert forall|y: T| #[trigger] v.dom().contains(y) <==> t.dom().contains(y) && set_idx(t.dom(), y) < i + 1 by {
        if t.dom().contains(y) && set_idx(t.dom(), y) == i { assert(set_seq(t.dom())[set_idx(t.dom(), y)] == y); }
        if y != x { assert(v.dom().contains(y) == u.dom().contains(y)); }
    }
}
pub open spec fn fdone<T>(g: Grammar<T>, t: BMap<T, BSet<T>>) -> bool { fok(g, t@) && tclosed(g, t@) }
pub open spec fn wdone<T>(g: Grammar<T>, t: BMap<T, BSet<T>>) -> bool { wok(g, t@) && tclosed(g, t@) }
pub proof fn lemma_tsize_bound<T>(t: Map<T, BSet<T>>, k: Seq<T>, s: Set<T>)
    requires tin(t, s), forall|i: int| 0 <= i < k.len() ==> t.contains_key(#[trigger] k[i])
    ensures tsize(t, k) <= k.len() * s.len()
    decreases k.len()
{
    if k.len() > 0 {
        assert(t.contains_key(k[k.len() - 1]));
        assert forall|i: int| 0 <= i < k.drop_last().len() implies t.contains_key(#[trigger] k.drop_last()[i]) by { assert(t.contains_key(k[i])); }
        lemma_tsize_bound(t, k.drop_last(), s);
        assert(t[k.last()]@.subset_of(s));
        vstd::set_lib::lemma_len_subset(t[k.last()]@, s);
        assert(k.len() * s.len() == (k.len() - 1) * s.len() + s.len()) by (nonlinear_arith);
    }
}
pub proof fn lemma_tsize_mono<T>(t: Map<T, BSet<T>>, u: Map<T, BSet<T>>, k: Seq<T>)
    requires tmono(t, u), forall|i: int| 0 <= i < k.len() ==> t.contains_key(#[trigger] k[i])
    ensures tsize(t, k) <= tsize(u, k),
        (exists|i: int| 0 <= i < k.len() && t[#[trigger] k[i]]@ != u[k[i]]@) ==> tsize(t, k) < tsize(u, k)
    decreases k.len()
{
    if k.len() > 0 {
        let l = k.last();
        assert(t.contains_key(k[k.len() - 1]));
        assert forall|i: int| 0 <= i < k.drop_last().len() implies t.contains_key(#[trigger] k.drop_last()[i]) by { assert(t.contains_key(k[i])); }
        lemma_tsize_mono(t, u, k.drop_last());
        assert(t[l]@.subset_of(u[l]@));
        vstd::set_lib::lemma_len_subset(t[l]@, u[l]@);
        if t[l]@.len() == u[l]@.len() { vstd::set_lib::lemma_subset_equality(t[l]@, u[l]@); }
        if exists|i: int| 0 <= i < k.len() && t[#[trigger] k[i]]@ != u[k[i]]@ {
            let i = choose|i: int| 0 <= i < k.len() && t[#[trigger] k[i]]@ != u[k[i]]@;
            if i < k.len() - 1 { assert(k.drop_last()[i] == k[i]); }
        }
    }
}
/// A step that changes the table leaves less room.
pub proof fn lemma_troom<T>(t: Map<T, BSet<T>>, u: Map<T, BSet<T>>, s: Set<T>)
    requires tmono(t, u), tin(u, s), t != u
    ensures 0 <= troom(u, s) < troom(t, s)
{
    assert forall|i: int| 0 <= i < keys(t).len() implies t.contains_key(#[trigger] keys(t)[i]) by {}
    lemma_tsize_mono(t, u, keys(t));
    lemma_tsize_bound(u, keys(u), s);
    if forall|x: T| t.contains_key(x) ==> #[trigger] t[x]@ == u[x]@ {
        assert forall|x: T| t.contains_key(x) implies #[trigger] t[x] == u[x] by {
            lemma_bset_ext(t[x]); lemma_bset_ext(u[x]); }
        assert(t =~= u);
    }
    let x = choose|x: T| t.contains_key(x) && #[trigger] t[x]@ != u[x]@;
    assert(t.dom().contains(x));
    assert(keys(t)[set_idx(t.dom(), x)] == x);
}

pub proof fn lemma_leads_edge<T>(g: Grammar<T>, x: T, y: T)
    requires fedge(g, x, y) ensures leads(g, x, y)
{ assert(leads_n(g, x, y, 1)); }

pub proof fn lemma_leads_trans_n<T>(g: Grammar<T>, x: T, y: T, z: T, n: nat)
    requires leads_n(g, x, y, n), leads(g, y, z) ensures leads(g, x, z)
    decreases n
{
    let m = choose|m: nat| leads_n(g, y, z, m);
    if fedge(g, x, y) {
        assert(leads_n(g, x, z, m + 1));
    } else {
        let w = choose|w: T| #[trigger] fedge(g, x, w) && leads_n(g, w, y, (n - 1) as nat);
        lemma_leads_trans_n(g, w, y, z, (n - 1) as nat);
        let k = choose|k: nat| leads_n(g, w, z, k);
        assert(leads_n(g, x, z, k + 1));
    }
}
pub proof fn lemma_leads_trans<T>(g: Grammar<T>, x: T, y: T, z: T)
    requires leads(g, x, y), leads(g, y, z) ensures leads(g, x, z)
{ let n = choose|n: nat| leads_n(g, x, y, n); lemma_leads_trans_n(g, x, y, z, n); }

/// Symbols reachable by `leads` are symbols of the grammar.
pub proof fn lemma_leads_sym<T>(g: Grammar<T>, x: T, y: T, n: nat)
    requires gwf(g), leads_n(g, x, y, n) ensures g.symbols@.contains(y), g.rules@.contains_key(x)
    decreases n
{
    if fedge(g, x, y) {
        let p = choose|p: Production<T>| #[trigger] is_prod(g, x, p) && p.0@.len() > 0 && p.0@[0] == y;
        lemma_body_sym(g, x, p, 0);
    } else {
        let w = choose|w: T| #[trigger] fedge(g, x, w) && leads_n(g, w, y, (n - 1) as nat);
        lemma_leads_sym(g, w, y, (n - 1) as nat);
    }
}

pub proof fn lemma_first_complete_n<T>(g: Grammar<T>, t: Map<T, BSet<T>>, x: T, a: T, n: nat)
    requires fok(g, t), tclosed(g, t), leads_n(g, x, a, n), a != x
    ensures t.contains_key(x), t[x]@.contains(a)
    decreases n
{
    if !fedge(g, x, a) {
        let z = choose|z: T| #[trigger] fedge(g, x, z) && leads_n(g, z, a, (n - 1) as nat);
        if z == x {
            lemma_first_complete_n(g, t, x, a, (n - 1) as nat);
        } else {
            assert(t[x]@.contains(z));
            if a != z { lemma_first_complete_n(g, t, z, a, (n - 1) as nat); }
        }
    }
    assert(g.rules@.dom().contains(x));
}
/// A table that the step leaves alone contains, per nonterminal, everything it leads to.
pub proof fn lemma_first_fix<T>(g: Grammar<T>, t: Map<T, BSet<T>>)
    requires fok(g, t), tclosed(g, t)
    ensures forall|x: T, a: T| t.contains_key(x) && !nonterm(g, a) ==> (#[trigger] t[x]@.contains(a) <==> first_has(g, x, a))
{
    assert forall|x: T, a: T| t.contains_key(x) && !nonterm(g, a) && first_has(g, x, a) implies #[trigger] t[x]@.contains(a) by {
        assert(g.rules@.dom().contains(x));
        let n = choose|n: nat| leads_n(g, x, a, n);
        lemma_first_complete_n(g, t, x, a, n);
    }
}

// ---- FOLLOW
/// `a` directly follows nonterminal `x` somewhere: the next symbol is `a`, or can begin with `a`;
/// or `x` is the start symbol and `a` is the end marker.
pub open spec fn fbase<T>(g: Grammar<T>, x: T, a: T) -> bool {
    (x == g.basis.rule && a == eof_of(g))
    || exists|z: T, p: Production<T>, i: int| #[trigger] at_pair(g, z, p, i, x) && first_has(g, p.0@[i + 1], a)
}
pub open spec fn at_pair<T>(g: Grammar<T>, z: T, p: Production<T>, i: int, x: T) -> bool {
    is_prod(g, z, p) && 0 <= i < p.0@.len() - 1 && p.0@[i] == x && nonterm(g, x)
}
/// `x` ends a production of `z`.
pub open spec fn ledge<T>(g: Grammar<T>, x: T, z: T) -> bool {
    nonterm(g, x) && exists|p: Production<T>| #[trigger] is_prod(g, z, p) && p.0@.len() > 0 && p.0@.last() == x
}
pub open spec fn follow_n<T>(g: Grammar<T>, x: T, a: T, n: nat) -> bool decreases n {
    fbase(g, x, a) || (n > 0 && exists|z: T| #[trigger] ledge(g, x, z) && follow_n(g, z, a, (n - 1) as nat))
}
/// a ∈ FOLLOW(x)
pub open spec fn follow_has<T>(g: Grammar<T>, x: T, a: T) -> bool { exists|n: nat| follow_n(g, x, a, n) }

/// The FOLLOW table holds exactly FOLLOW(x) for its keys, and FOLLOW(x) is empty for the others.
pub open spec fn follow_exact<T>(g: Grammar<T>, t: Map<T, BSet<T>>) -> bool {
    &&& forall|x: T| #[trigger] t.contains_key(x) ==> nonterm(g, x)
    &&& forall|x: T| fkey(g, x) ==> #[trigger] t.contains_key(x)
    &&& forall|x: T, a: T| t.contains_key(x) ==> (#[trigger] t[x]@.contains(a) <==> follow_has(g, x, a))
    &&& forall|x: T, a: T| #[trigger] follow_has(g, x, a) ==> t.contains_key(x)
}
/// The nonterminals that have a row in the FOLLOW table.
pub open spec fn fkey<T>(g: Grammar<T>, x: T) -> bool {
    x == g.basis.rule || (exists|z: T, p: Production<T>, i: int| #[trigger] at_pair(g, z, p, i, x)) || exists|z: T| #[trigger] ledge(g, x, z) && z != x
}
pub open spec fn wok<T>(g: Grammar<T>, t: Map<T, BSet<T>>) -> bool {
    &&& forall|x: T| #[trigger] t.contains_key(x) <==> fkey(g, x)
    &&& forall|x: T, a: T| t.contains_key(x) && #[trigger] t[x]@.contains(a) ==> a != x && wsound(g, x, a)
    &&& forall|x: T, a: T| #[trigger] fbase(g, x, a) ==> t[x]@.contains(a)
    &&& forall|x: T, z: T| #[trigger] ledge(g, x, z) && z != x ==> t[x]@.contains(z)
}
pub open spec fn lchain<T>(g: Grammar<T>, x: T, z: T, n: nat) -> bool decreases n {
    if n == 0 { x == z } else { exists|y: T| #[trigger] ledge(g, x, y) && lchain(g, y, z, (n - 1) as nat) }
}
pub open spec fn wsound<T>(g: Grammar<T>, x: T, a: T) -> bool {
    if nonterm(g, a) { exists|n: nat| lchain(g, x, a, n) } else { follow_has(g, x, a) }
}
/// State of the FOLLOW table while it is seeded: rules before index `r`, productions before `k` of
/// rule `r`, and symbols before `j` of production `k` are done.
pub open spec fn seeded<T>(r: int, k: int, j: int, zi: int, pk: int, i: int) -> bool {
    zi < r || (zi == r && (pk < k || (pk == k && i < j)))
}
pub open spec fn wseed_sound<T>(g: Grammar<T>, t: Map<T, BSet<T>>) -> bool {
    &&& forall|x: T| #[trigger] t.contains_key(x) ==> fkey(g, x)
    &&& forall|x: T, a: T| t.contains_key(x) && #[trigger] t[x]@.contains(a) ==> a != x && (fbase(g, x, a) || (nonterm(g, a) && ledge(g, x, a)))
    &&& t.contains_key(g.basis.rule) && t[g.basis.rule]@.contains(eof_of(g))
}
pub open spec fn wseed<T>(g: Grammar<T>, t: Map<T, BSet<T>>, r: int, k: int, j: int) -> bool {
    &&& wseed_sound(g, t)
    &&& forall|z: T, p: Production<T>, i: int, x: T| #[trigger] at_pair(g, z, p, i, x) && seeded::<T>(r, k, j, set_idx(g.rules@.dom(), z), p.1 as int, i)
            ==> t.contains_key(x) && (forall|a: T| #[trigger] first_has(g, p.0@[i + 1], a) ==> t[x]@.contains(a))
    &&& forall|z: T, p: Production<T>| #[trigger] is_prod(g, z, p) && seeded::<T>(r, k, 0, set_idx(g.rules@.dom(), z), p.1 as int, 0) && nonterm(g, p.0@.last()) && p.0@.last() != z
            ==> t.contains_key(p.0@.last()) && t[p.0@.last()]@.contains(z)
}
pub proof fn lemma_wseed_end<T>(g: Grammar<T>, t: Map<T, BSet<T>>, r: int)
    requires gwf(g), !nonterm(g, eof_of(g)), wseed(g, t, r, 0, 0), r >= g.rules@.dom().len()
    ensures wok(g, t)
{
    let kd = g.rules@.dom();
    assert forall|z: T| #[trigger] kd.contains(z) implies set_idx(kd, z) < r by {}
    assert forall|x: T, a: T| #[trigger] fbase(g, x, a) implies t.contains_key(x) && t[x]@.contains(a) by {
        if !(x == g.basis.rule && a == eof_of(g)) {
            let (z, p, i) = choose|z: T, p: Production<T>, i: int| #[trigger] at_pair(g, z, p, i, x) && first_has(g, p.0@[i + 1], a);
            assert(kd.contains(z));
        }
    }
    assert forall|x: T, z: T| #[trigger] ledge(g, x, z) && z != x implies t.contains_key(x) && t[x]@.contains(z) by {
        let p = choose|p: Production<T>| #[trigger] is_prod(g, z, p) && p.0@.len() > 0 && p.0@.last() == x;
        assert(kd.contains(z));
    }
    assert forall|x: T| fkey(g, x) implies #[trigger] t.contains_key(x) by {
        if x != g.basis.rule {
            if exists|z: T, p: Production<T>, i: int| #[trigger] at_pair(g, z, p, i, x) {
                let (z, p, i) = choose|z: T, p: Production<T>, i: int| #[trigger] at_pair(g, z, p, i, x);
                assert(kd.contains(z));
            } else {
                let z = choose|z: T| #[trigger] ledge(g, x, z) && z != x;
            }
        }
    }
    assert forall|x: T, a: T| t.contains_key(x) && #[trigger] t[x]@.contains(a) implies wsound(g, x, a) by {
        if fbase(g, x, a) { lemma_fbase_term(g, x, a); assert(follow_n(g, x, a, 0)); }
        else { assert(lchain(g, a, a, 0)); assert(ledge(g, x, a) && lchain(g, a, a, 0)); assert(lchain(g, x, a, 1)); }
    }
}
pub proof fn lemma_follow_chain<T>(g: Grammar<T>, x: T, z: T, a: T, n: nat)
    requires lchain(g, x, z, n), follow_has(g, z, a) ensures follow_has(g, x, a) decreases n
{
    if n > 0 {
        let y = choose|y: T| #[trigger] ledge(g, x, y) && lchain(g, y, z, (n - 1) as nat);
        lemma_follow_chain(g, y, z, a, (n - 1) as nat);
        let k = choose|k: nat| follow_n(g, y, a, k);
        assert(follow_n(g, x, a, k + 1));
    }
}
pub proof fn lemma_chain_trans<T>(g: Grammar<T>, x: T, y: T, z: T, n: nat, m: nat)
    requires lchain(g, x, y, n), lchain(g, y, z, m) ensures lchain(g, x, z, n + m) decreases n
{
    if n > 0 {
        let w = choose|w: T| #[trigger] ledge(g, x, w) && lchain(g, w, y, (n - 1) as nat);
        lemma_chain_trans(g, w, y, z, (n - 1) as nat, m);
        assert(ledge(g, x, w) && lchain(g, w, z, (n + m - 1) as nat));
    }
}
/// wsound is transitive through a nonterminal.
pub proof fn lemma_wsound<T>(g: Grammar<T>, x: T, b: T, c: T)
    requires nonterm(g, b), wsound(g, x, b), wsound(g, b, c) ensures wsound(g, x, c)
{
    let n = choose|n: nat| lchain(g, x, b, n);
    if nonterm(g, c) {
        let m = choose|m: nat| lchain(g, b, c, m);
        lemma_chain_trans(g, x, b, c, n, m);
    } else { lemma_follow_chain(g, x, b, c, n); }
}
pub proof fn lemma_fbase_term<T>(g: Grammar<T>, x: T, a: T)
    requires gwf(g), !nonterm(g, eof_of(g)), fbase(g, x, a)
    ensures !nonterm(g, a), nonterm(g, x), fkey(g, x), g.symbols@.contains(a)
{
    if !(x == g.basis.rule && a == eof_of(g)) {
        let (z, p, i) = choose|z: T, p: Production<T>, i: int| #[trigger] at_pair(g, z, p, i, x) && first_has(g, p.0@[i + 1], a);
        lemma_body_sym(g, z, p, i + 1);
        if a != p.0@[i + 1] {
            let y = p.0@[i + 1];
            let n = choose|n: nat| leads_n(g, y, a, n);
            lemma_leads_sym(g, y, a, n);
        }
    }
    assert(g.terminals@.contains(eof_of(g)));
}
pub proof fn lemma_fkey_nonterm<T>(g: Grammar<T>, x: T)
    requires gwf(g), fkey(g, x) ensures nonterm(g, x)
{}
pub proof fn lemma_follow_n<T>(g: Grammar<T>, t: Map<T, BSet<T>>, x: T, a: T, n: nat)
    requires gwf(g), !nonterm(g, eof_of(g)), wok(g, t), tclosed(g, t), follow_n(g, x, a, n)
    ensures t.contains_key(x), t[x]@.contains(a), !nonterm(g, a), nonterm(g, x), g.symbols@.contains(a)
    decreases n
{
    if fbase(g, x, a) {
        lemma_fbase_term(g, x, a);
        assert(fkey(g, x));
    } else {
        let z = choose|z: T| #[trigger] ledge(g, x, z) && follow_n(g, z, a, (n - 1) as nat);
        lemma_follow_n(g, t, z, a, (n - 1) as nat);
        if z != x {
            assert(fkey(g, x));
            assert(t[x]@.contains(z));
        }
    }
}
pub proof fn lemma_follow_fix<T>(g: Grammar<T>, t: Map<T, BSet<T>>)
    requires gwf(g), !nonterm(g, eof_of(g)), wok(g, t), tclosed(g, t)
    ensures
        forall|x: T, a: T| t.contains_key(x) && !nonterm(g, a) ==> (#[trigger] t[x]@.contains(a) <==> follow_has(g, x, a)),
        forall|x: T, a: T| #[trigger] follow_has(g, x, a) ==> t.contains_key(x) && !nonterm(g, a),
{
    assert forall|x: T, a: T| #[trigger] follow_has(g, x, a) implies t.contains_key(x) && !nonterm(g, a) && t[x]@.contains(a) by {
        let n = choose|n: nat| follow_n(g, x, a, n);
        lemma_follow_n(g, t, x, a, n);
    }
}
} // mod th_first
pub use th_first::*;
