
// ===================================================================================================
// The state graph of CLR and SLR: states are closures of kernels, kernels are numbered by `kernels`.
// ===================================================================================================
pub mod th_graph {
use super::*;
broadcast use {model::group_model, th_grammar::group_base};

pub open spec fn e_state<T>() -> State<T> { bset(Set::empty()) }
pub proof fn lemma_e_state<T>()
    ensures e_state::<T>()@ == Set::<Position<T>>::empty(), forall|k: State<T>| #[trigger] k@ == Set::<Position<T>>::empty() ==> k == e_state::<T>()
{
    lemma_bset_view(Set::<Position<T>>::empty());
    assert forall|k: State<T>| #[trigger] k@ == Set::<Position<T>>::empty() implies k == e_state::<T>() by { lemma_bset_ext(k); }
}
pub open spec fn only<A>(x: A) -> Set<A> { Set::empty().insert(x) }
/// State `j` is the x-successor of an earlier state.
pub open spec fn has_pred<T>(t: Tabler<T>, j: int, i: int, x: T) -> bool {
    0 <= j < i && t.kernels@.contains_key(gotok(t.states@[j], x)) && gotok(t.states@[j], x) != e_state::<T>()
        && t.kernels@[gotok(t.states@[j], x)] == i
}
pub open spec fn preded<T>(t: Tabler<T>, i: int) -> bool { exists|j: int, x: T| #[trigger] has_pred(t, j, i, x) }
pub open spec fn kstates<T>(t: Tabler<T>, lr: bool) -> bool {
    &&& t.states@.len() >= 1
    &&& is_closure(t.grammar, lr, only(t.grammar.basis), t.states@[0]@)
    &&& forall|i: int| 0 <= i < t.states@.len() ==> items_ok(t.grammar, (#[trigger] t.states@[i])@)
    &&& t.kernels@.contains_key(e_state::<T>()) && t.kernels@[e_state::<T>()] == 0
    &&& forall|k: State<T>| #[trigger] t.kernels@.contains_key(k) && k != e_state::<T>() ==>
            1 <= t.kernels@[k] < t.states@.len() && items_ok(t.grammar, k@) && is_closure(t.grammar, lr, k@, t.states@[t.kernels@[k] as int]@)
    &&& forall|k: State<T>, l: State<T>| #[trigger] t.kernels@.contains_key(k) && #[trigger] t.kernels@.contains_key(l) && t.kernels@[k] == t.kernels@[l] ==> k == l
    &&& forall|i: int| 1 <= i < t.states@.len() ==> #[trigger] preded(t, i)
    &&& t.kernels@.dom().len() == t.states@.len()
}
/// Successors of the states before `n`, and of state `n` for the symbols before index `k`, are in the graph.
pub open spec fn kdone<T>(t: Tabler<T>, n: int, k: int) -> bool {
    forall|i: int, x: T| 0 <= i < t.states@.len() && t.grammar.symbols@.contains(x) && (i < n || (i == n && set_idx(t.grammar.symbols@, x) < k))
        ==> t.kernels@.contains_key(#[trigger] gotok(t.states@[i], x))
}
pub open spec fn kpart<T>(t: Tabler<T>, lr: bool, n: int, k: int) -> bool { kstates(t, lr) && kdone(t, n, k) }
/// The complete graph: every state's successor on every symbol is in it.
pub open spec fn kgraph<T>(t: Tabler<T>, lr: bool) -> bool {
    kstates(t, lr) && forall|i: int, x: T| 0 <= i < t.states@.len() ==> t.kernels@.contains_key(#[trigger] gotok(t.states@[i], x))
}
pub open spec fn same_base<T>(t: Tabler<T>, u: Tabler<T>) -> bool {
    t == (Tabler { states: t.states, kernels: t.kernels, ..u })
}
pub proof fn lemma_gotok_empty<T>(g: Grammar<T>, s: State<T>, x: T)
    requires gwf(g), items_ok(g, s@), !g.symbols@.contains(x)
    ensures gotok(s, x) == e_state::<T>()
{
    lemma_gotok(s, x);
    lemma_e_state::<T>();
    assert forall|q: Position<T>| gotok(s, x)@.contains(q) implies false by { assert(item_ok(g, back(q))); lemma_top_sym(g, back(q)); }
    assert(gotok(s, x)@ =~= Set::<Position<T>>::empty());
}
pub proof fn lemma_kdone_all<T>(t: Tabler<T>, lr: bool, n: int)
    requires gwf(t.grammar), kpart(t, lr, n, 0), n >= t.states@.len() ensures kgraph(t, lr)
{
    assert forall|i: int, x: T| 0 <= i < t.states@.len() implies t.kernels@.contains_key(#[trigger] gotok(t.states@[i], x)) by {
        if !t.grammar.symbols@.contains(x) { lemma_gotok_empty(t.grammar, t.states@[i], x); }
    }
}
pub proof fn lemma_kfirst<T>(t: Tabler<T>, lr: bool)
    requires gwf(t.grammar), t.states@.len() == 1, is_closure(t.grammar, lr, only(t.grammar.basis), t.states@[0]@), items_ok(t.grammar, t.states@[0]@),
        t.kernels@ == Map::<State<T>, usize>::empty().insert(e_state::<T>(), 0usize)
    ensures kpart(t, lr, 0, 0)
{
    let d = t.kernels@.dom();
    assert(d =~= Set::<State<T>>::empty().insert(e_state::<T>()));
    assert(d.len() == 1);
}
/// A known successor.
pub proof fn lemma_kstep_old<T>(t: Tabler<T>, lr: bool, n: int, k: int, x: T)
    requires kpart(t, lr, n, k), 0 <= n < t.states@.len(), t.grammar.symbols@.contains(x), set_idx(t.grammar.symbols@, x) == k,
        t.kernels@.contains_key(gotok(t.states@[n], x)) || gotok(t.states@[n], x)@ == Set::<Position<T>>::empty()
    ensures kpart(t, lr, n, k + 1)
{
    lemma_e_state::<T>();
    assert forall|i: int, y: T| 0 <= i < t.states@.len() && t.grammar.symbols@.contains(y) && (i < n || (i == n && set_idx(t.grammar.symbols@, y) < k + 1))
        implies t.kernels@.contains_key(#[trigger] gotok(t.states@[i], y)) by {
        if i == n && set_idx(t.grammar.symbols@, y) == k {
            assert(set_seq(t.grammar.symbols@)[k] == y);
        }
    }
}
/// A new successor.
pub proof fn lemma_kstep_new<T>(t: Tabler<T>, u: Tabler<T>, lr: bool, n: int, k: int, x: T, kn: State<T>, cl: State<T>)
    requires gwf(t.grammar), kpart(t, lr, n, k), 0 <= n < t.states@.len(), t.grammar.symbols@.contains(x), set_idx(t.grammar.symbols@, x) == k,
        kn == gotok(t.states@[n], x), !t.kernels@.contains_key(kn), kn@ != Set::<Position<T>>::empty(),
        is_closure(t.grammar, lr, kn@, cl@), items_ok(t.grammar, cl@), items_ok(t.grammar, kn@),
        t.states@.len() <= usize::MAX,
        u.states@ == t.states@.push(cl), u.kernels@ == t.kernels@.insert(kn, t.states@.len() as usize), same_base(u, t),
    ensures kpart(u, lr, n, k + 1)
{
    lemma_e_state::<T>();
    assert(u.states@[0] == t.states@[0]);
    assert forall|i: int| 0 <= i < u.states@.len() implies items_ok(u.grammar, (#[trigger] u.states@[i])@) by { if i < t.states@.len() { assert(u.states@[i] == t.states@[i]); } }
    assert forall|k: State<T>| #[trigger] u.kernels@.contains_key(k) && k != e_state::<T>() implies
            1 <= u.kernels@[k] < u.states@.len() && items_ok(u.grammar, k@) && is_closure(u.grammar, lr, k@, u.states@[u.kernels@[k] as int]@) by {
        if k != kn { assert(t.kernels@.contains_key(k)); assert(u.states@[u.kernels@[k] as int] == t.states@[t.kernels@[k] as int]); }
    }
    assert forall|k: State<T>, l: State<T>| #[trigger] u.kernels@.contains_key(k) && #[trigger] u.kernels@.contains_key(l) && u.kernels@[k] == u.kernels@[l] implies k == l by {
        if k != kn { assert(t.kernels@.contains_key(k)); }
        if l != kn { assert(t.kernels@.contains_key(l)); }
    }
    assert forall|i: int| 1 <= i < u.states@.len() implies #[trigger] preded(u, i) by {
        if i < t.states@.len() {
            assert(preded(t, i));
            let (j, y) = choose|j: int, y: T| #[trigger] has_pred(t, j, i, y);
            assert(u.states@[j] == t.states@[j]);
            assert(has_pred(u, j, i, y));
        } else {
            assert(u.states@[n] == t.states@[n]);
            assert(has_pred(u, n, i, x));
        }
    }
    assert(u.kernels@.dom() =~= t.kernels@.dom().insert(kn));
    assert(u.kernels@.dom().len() == t.kernels@.dom().len() + 1);
    assert forall|i: int, y: T| 0 <= i < u.states@.len() && u.grammar.symbols@.contains(y) && (i < n || (i == n && set_idx(u.grammar.symbols@, y) < k + 1))
        implies u.kernels@.contains_key(#[trigger] gotok(u.states@[i], y)) by {
        assert(u.states@[i] == t.states@[i]);
        if i == n && set_idx(t.grammar.symbols@, y) == k { assert(set_seq(t.grammar.symbols@)[k] == y); }
        else { assert(t.kernels@.contains_key(gotok(t.states@[i], y))); }
    }
}
pub proof fn lemma_knext<T>(t: Tabler<T>, lr: bool, n: int)
    requires kpart(t, lr, n, set_seq(t.grammar.symbols@).len() as int) ensures kpart(t, lr, n + 1, 0)
{
    assert forall|i: int, y: T| 0 <= i < t.states@.len() && t.grammar.symbols@.contains(y) && (i < n + 1 || (i == n + 1 && set_idx(t.grammar.symbols@, y) < 0))
        implies t.kernels@.contains_key(#[trigger] gotok(t.states@[i], y)) by {}
}
/// There are finitely many states.
pub proof fn lemma_kbound<T>(t: Tabler<T>, lr: bool)
    requires kstates(t, lr) ensures t.states@.len() <= powerset(univ(t.grammar)).len()
{
    lemma_e_state::<T>();
    let pw = powerset(univ(t.grammar));
    assert forall|k: State<T>| t.kernels@.dom().contains(k) implies pw.contains(k) by {
        assert(t.kernels@.contains_key(k));
        if k != e_state::<T>() { lemma_univ(t.grammar, k@); }
        lemma_powerset(univ(t.grammar), k);
    }
    vstd::set_lib::lemma_len_subset(t.kernels@.dom(), pw);
}
} // mod th_graph
pub use th_graph::*;
