
// ===================================================================================================
// Tables with equal rows merged (C15): the machine on the merged table does what it did before.
// ===================================================================================================
pub mod th_merge {
use super::*;
broadcast use {model::group_model, th_grammar::group_base};

/// The action with the state numbers replaced.
pub open spec fn relab<T>(f: Map<usize, usize>, a: Action<T>) -> Action<T> decreases a {
    match a {
        Action::Shift(n) => Action::Shift(f[n]),
        Action::Goto(n) => Action::Goto(f[n]),
        Action::Conflict(x, y) => Action::Conflict(Box::new(relab(f, *x)), Box::new(relab(f, *y))),
        a => a,
    }
}
/// The state numbers in the action are below `n`.
pub open spec fn inr<T>(n: int, a: Action<T>) -> bool decreases a {
    match a {
        Action::Shift(k) => k < n,
        Action::Goto(k) => k < n,
        Action::Conflict(x, y) => inr(n, *x) && inr(n, *y),
        _ => true,
    }
}
/// Every state number in the table is one of a row of the table.
pub open spec fn rng<T>(acts: Acts<T>) -> bool { forall|s: usize, a: T| (#[trigger] cell(acts, s, a)) is Some ==> inr(acts.len() as int, cell(acts, s, a)->0) }
pub open spec fn relrow<T>(f: Map<usize, usize>, r: Map<T, Action<T>>, q: Map<T, Action<T>>) -> bool {
    r.dom() == q.dom() && forall|a: T| #[trigger] r.contains_key(a) ==> q[a] == relab(f, r[a])
}
pub open spec fn img(f: Map<usize, usize>, j: int) -> bool { exists|i: usize| #[trigger] f.contains_key(i) && f[i] == j }
/// `new` is `old` with rows merged; `f` says which row became which.
pub open spec fn merged<T>(old: Acts<T>, f: Map<usize, usize>, new: Acts<T>) -> bool {
    &&& forall|i: usize| #[trigger] f.contains_key(i) <==> i < old.len()
    &&& forall|i: usize| #[trigger] f.contains_key(i) ==> f[i] < new.len() && relrow(f, old[i as int]@, new[f[i] as int]@)
    &&& old.len() > 0 ==> f[0] == 0
    &&& forall|j: int| 0 <= j < new.len() ==> #[trigger] img(f, j)
    &&& new.len() <= old.len() <= usize::MAX
}
pub proof fn lemma_relab_inr<T>(old: int, f: Map<usize, usize>, new: int, a: Action<T>)
    requires inr(old, a), forall|i: usize| i < old ==> #[trigger] f[i] < new ensures inr(new, relab(f, a)) decreases a
{ match a { Action::Conflict(x, y) => { lemma_relab_inr(old, f, new, *x); lemma_relab_inr(old, f, new, *y); }, _ => {} } }
pub proof fn lemma_merged_f<T>(old: Acts<T>, f: Map<usize, usize>, new: Acts<T>)
    requires merged(old, f, new) ensures forall|i: usize| i < old.len() ==> #[trigger] f[i] < new.len()
{ assert forall|i: usize| i < old.len() implies #[trigger] f[i] < new.len() by { assert(f.contains_key(i)); } }
pub proof fn lemma_merged_rng<T>(old: Acts<T>, f: Map<usize, usize>, new: Acts<T>)
    requires merged(old, f, new), rng(old) ensures rng(new)
{
    lemma_merged_f(old, f, new);
    assert forall|s: usize, a: T| (#[trigger] cell(new, s, a)) is Some implies inr(new.len() as int, cell(new, s, a)->0) by {
        assert(img(f, s as int));
        let i = choose|i: usize| #[trigger] f.contains_key(i) && f[i] == s;
        assert(old[i as int]@.contains_key(a));
        assert(cell(old, i, a) is Some);
        lemma_relab_inr(old.len() as int, f, new.len() as int, old[i as int]@[a]);
    }
}
pub open spec fn ident(n: int) -> Map<usize, usize> { Map::new(usize_below(n), |i: usize| i) }
pub open spec fn usize_below(n: int) -> Set<usize> decreases n { if n <= 0 { Set::empty() } else { usize_below(n - 1).insert((n - 1) as usize) } }
pub proof fn lemma_below(n: int)
    requires n <= usize::MAX ensures forall|i: usize| #[trigger] usize_below(n).contains(i) <==> i < n decreases n
{
    if n > 0 {
        lemma_below(n - 1);
        assert forall|i: usize| #[trigger] usize_below(n).contains(i) <==> i < n by { assert(usize_below(n - 1).contains(i) <==> i < n - 1); assert(usize_below(n) == usize_below(n - 1).insert((n - 1) as usize)); }
    }
}
pub proof fn lemma_relab_id<T>(n: int, a: Action<T>)
    requires inr(n, a), n <= usize::MAX ensures relab(ident(n), a) == a decreases a
{ lemma_below(n); match a { Action::Conflict(x, y) => { lemma_relab_id(n, *x); lemma_relab_id(n, *y); }, _ => {} } }
pub proof fn lemma_merged_id<T>(acts: Acts<T>)
    requires rng(acts), acts.len() <= usize::MAX ensures merged(acts, ident(acts.len() as int), acts)
{
    let n = acts.len() as int;
    let f = ident(n);
    lemma_below(n);
    assert forall|i: usize| #[trigger] f.contains_key(i) implies f[i] < acts.len() && relrow(f, acts[i as int]@, acts[f[i] as int]@) by {
        assert forall|a: T| #[trigger] acts[i as int]@.contains_key(a) implies acts[i as int]@[a] == relab(f, acts[i as int]@[a]) by {
            assert(cell(acts, i, a) is Some);
            lemma_relab_id(n, acts[i as int]@[a]);
        }
    }
    assert forall|j: int| 0 <= j < acts.len() implies #[trigger] img(f, j) by { assert(f.contains_key(j as usize) && f[j as usize] == j); }
}
pub open spec fn after_map(f: Map<usize, usize>, h: Map<usize, usize>) -> Map<usize, usize> { Map::new(f.dom(), |i: usize| h[f[i]]) }
pub proof fn lemma_relab_comp<T>(n: int, f: Map<usize, usize>, h: Map<usize, usize>, a: Action<T>)
    requires inr(n, a), forall|i: usize| i < n ==> #[trigger] f.contains_key(i) ensures relab(after_map(f, h), a) == relab(h, relab(f, a)) decreases a
{ match a { Action::Conflict(x, y) => { lemma_relab_comp(n, f, h, *x); lemma_relab_comp(n, f, h, *y); }, _ => {} } }
pub proof fn lemma_merged_comp<T>(old: Acts<T>, f: Map<usize, usize>, mid: Acts<T>, h: Map<usize, usize>, new: Acts<T>)
    requires rng(old), merged(old, f, mid), merged(mid, h, new) ensures merged(old, after_map(f, h), new)
{
    let k = after_map(f, h);
    assert forall|i: usize| #[trigger] k.contains_key(i) implies k[i] < new.len() && relrow(k, old[i as int]@, new[k[i] as int]@) by {
        assert(f.contains_key(i));
        assert(h.contains_key(f[i]));
        assert forall|a: T| #[trigger] old[i as int]@.contains_key(a) implies new[k[i] as int]@[a] == relab(k, old[i as int]@[a]) by {
            assert(cell(old, i, a) is Some);
            assert(mid[f[i] as int]@.contains_key(a));
            lemma_relab_comp(old.len() as int, f, h, old[i as int]@[a]);
        }
    }
    if old.len() > 0 { assert(f.contains_key(0)); }
    assert forall|j: int| 0 <= j < new.len() implies #[trigger] img(k, j) by {
        assert(img(h, j));
        let i = choose|i: usize| #[trigger] h.contains_key(i) && h[i] == j;
        assert(img(f, i as int));
        let l = choose|l: usize| #[trigger] f.contains_key(l) && f[l] == i;
        assert(k.contains_key(l) && k[l] == j);
    }
}

// ---- the run on the merged table
pub open spec fn relab_cfg<V, T>(f: Map<usize, usize>, c: Cfg<V, T>) -> Cfg<V, T> { Cfg { st: Seq::new(c.st.len(), |i: int| f[c.st[i]]), ..c } }
pub open spec fn relab_err<T>(f: Map<usize, usize>, e: Error<T>) -> Error<T> { match e { Error::Conflict(x, y) => Error::Conflict(relab(f, x), relab(f, y)), e => e } }
pub open spec fn relab_out<V, T>(f: Map<usize, usize>, o: Out<V, T>) -> Out<V, T> {
    match o { Out::Run(c) => Out::Run(relab_cfg(f, c)), Out::Acc(c) => Out::Acc(relab_cfg(f, c)), Out::Fail(c, e) => Out::Fail(relab_cfg(f, c), relab_err(f, e)), Out::Stuck => Out::Stuck }
}
pub open spec fn st_in<V, T>(n: int, c: Cfg<V, T>) -> bool { forall|i: int| 0 <= i < c.st.len() ==> #[trigger] c.st[i] < n }
pub open spec fn out_in<V, T>(n: int, o: Out<V, T>) -> bool { match o { Out::Run(c) => st_in(n, c), Out::Fail(c, _) => st_in(n, c), _ => true } }
pub proof fn lemma_cell_merged<T>(old: Acts<T>, f: Map<usize, usize>, new: Acts<T>, s: usize, a: T)
    requires merged(old, f, new), s < old.len()
    ensures f[s] < new.len(), new[f[s] as int]@.dom() == old[s as int]@.dom(), cell(old, s, a) is None ==> cell(new, f[s], a) is None,
        cell(old, s, a) is Some ==> cell(new, f[s], a) == Some(relab(f, cell(old, s, a)->0))
{ assert(f.contains_key(s)); assert(relrow(f, old[s as int]@, new[f[s] as int]@)); assert(old[s as int]@.contains_key(a) <==> new[f[s] as int]@.contains_key(a)) by { assert(old[s as int]@.dom().contains(a) <==> new[f[s] as int]@.dom().contains(a)); } }
pub proof fn lemma_merge_step<V, T>(old: Acts<T>, f: Map<usize, usize>, new: Acts<T>, eof: T, c: Cfg<V, T>)
    requires rng(old), merged(old, f, new), st_in(old.len() as int, c)
    ensures step(new, eof, relab_cfg(f, c)) == relab_out(f, step(old, eof, c)), out_in(old.len() as int, step(old, eof, c))
{
    let d = relab_cfg(f, c);
    let a = look_of(c.buf, eof);
    if c.st.len() > 0 && c.st.len() == c.tr.len() + 1 {
        let s = c.st.last();
        assert(c.st[c.st.len() - 1] < old.len());
        assert(d.st.last() == f[s]);
        lemma_cell_merged(old, f, new, s, a);
        match cell(old, s, a) {
            Some(Action::Shift(to)) => {
                assert(inr(old.len() as int, cell(old, s, a)->0));
                if c.buf.len() > 0 {
                    let e = step(old, eof, c)->Run_0;
                    assert(d.st.push(f[to]) =~= relab_cfg(f, e).st);
                }
            },
            Some(Action::Reduce(name, prod)) => {
                let n = prod.0@.len() as int;
                if c.tr.len() >= n {
                    let u = popped(c, n).last();
                    assert(popped(c, n).last() == c.st[c.st.len() - n - 1]);
                    assert(popped(d, n).last() == f[u]);
                    lemma_cell_merged(old, f, new, u, name);
                    match cell(old, u, name) {
                        Some(Action::Goto(to)) => {
                            assert(inr(old.len() as int, cell(old, u, name)->0));
                            let e = step(old, eof, c)->Run_0;
                            assert(popped(d, n).push(f[to]) =~= relab_cfg(f, e).st);
                        },
                        _ => {},
                    }
                }
            },
            _ => {},
        }
    }
}
pub proof fn lemma_merge_iter<V, T>(old: Acts<T>, f: Map<usize, usize>, new: Acts<T>, eof: T, input: Seq<Token<V, T>>, n: nat)
    requires rng(old), merged(old, f, new), old.len() > 0
    ensures iter(new, eof, init(input), n) == relab_out(f, iter(old, eof, init(input), n)), out_in(old.len() as int, iter(old, eof, init(input), n))
    decreases n
{
    if n == 0 { assert(relab_cfg(f, init(input)).st =~= init(input).st); } else {
        lemma_merge_iter(old, f, new, eof, input, (n - 1) as nat);
        match iter(old, eof, init(input), (n - 1) as nat) { Out::Run(c) => { lemma_merge_step(old, f, new, eof, c); }, _ => {} }
    }
}
/// The result with the state numbers in a conflict replaced.
pub open spec fn relab_res<V, T>(f: Map<usize, usize>, r: BaseResult<V, Error<T>>) -> BaseResult<V, Error<T>> { match r { Ok(v) => Ok(v), Err(e) => Err(relab_err(f, e)) } }
/// The same results before and after: the whole of C15 for an input.
pub proof fn lemma_merge_outcome<V, T>(old: Acts<T>, f: Map<usize, usize>, new: Acts<T>, eof: T, input: Seq<Token<V, T>>, red: ReductMap<V, T>, r: BaseResult<V, Error<T>>)
    requires rng(old), merged(old, f, new), old.len() > 0, outcome(old, eof, input, red, r)
    ensures outcome(new, eof, input, red, relab_res(f, r))
{
    let n = choose|n: nat| concludes(#[trigger] iter(old, eof, init(input), n), red, r);
    lemma_merge_iter(old, f, new, eof, input, n);
    assert(concludes(iter(new, eof, init(input), n), red, relab_res(f, r)));
}

// ---- the tables that the methods make, and their merged forms
pub open spec fn from_tab<T>(g: Grammar<T>, m: Auto<T>, old: Acts<T>, f: Map<usize, usize>, acts: Acts<T>) -> bool {
    tab(m, old, eof_of(g)) && m.g == g && rng(old) && old.len() > 0 && merged(old, f, acts)
}
/// The action table of a parser for `g`: built from an automaton, then merged any number of times.
pub open spec fn ready<T>(g: Grammar<T>, acts: Acts<T>) -> bool { exists|m: Auto<T>, old: Acts<T>, f: Map<usize, usize>| #[trigger] from_tab(g, m, old, f, acts) }
pub proof fn lemma_leaf_inr<T>(m: Auto<T>, n: int, row: State<T>, a: T, act: Action<T>)
    requires forall|x: Action<T>| #[trigger] leaf(act, x) ==> inr(n, x) ensures inr(n, act) decreases act
{
    match act {
        Action::Conflict(x, y) => {
            assert forall|u: Action<T>| #[trigger] leaf(*x, u) implies inr(n, u) by { assert(leaf(act, u)); }
            assert forall|u: Action<T>| #[trigger] leaf(*y, u) implies inr(n, u) by { assert(leaf(act, u)); }
            lemma_leaf_inr(m, n, row, a, *x); lemma_leaf_inr(m, n, row, a, *y);
        },
        _ => { assert(leaf(act, act)); },
    }
}
/// The table of an automaton names only its states.
pub proof fn lemma_tab_rng<T>(m: Auto<T>, acts: Acts<T>, eof: T)
    requires tab(m, acts, eof) ensures rng(acts)
{
    assert forall|s: usize, a: T| (#[trigger] cell(acts, s, a)) is Some implies inr(acts.len() as int, cell(acts, s, a)->0) by {
        let row = m.states[s as int];
        let c = cell(acts, s, a)->0;
        assert(row_exact(m, row, acts[s as int]@));
        assert(cell_ok(m, row, a, c));
        assert forall|u: Action<T>| #[trigger] leaf(c, u) implies inr(acts.len() as int, u) by {
            assert(demands(m, row, a, u));
            let p = choose|p: Position<T>| row@.contains(p) && #[trigger] act_for(m, row, p, a) == Some(u);
            assert(item_place(m, s as int, p));
            lemma_e_state::<T>();
            if top(p) is Some { lemma_goto_nonempty(row, p); assert(edge(m, s as int, top(p)->0, succ(m, s as int, top(p)->0))); }
        }
        lemma_leaf_inr(m, acts.len() as int, row, a, c);
    }
}
pub proof fn lemma_tab_ready<T>(m: Auto<T>, acts: Acts<T>)
    requires tab(m, acts, eof_of(m.g)) ensures ready(m.g, acts), rng(acts), acts.len() > 0
{
    lemma_tab_rng(m, acts, eof_of(m.g));
    lemma_merged_id(acts);
    assert(from_tab(m.g, m, acts, ident(acts.len() as int), acts));
}
pub proof fn lemma_ready_rng<T>(g: Grammar<T>, acts: Acts<T>)
    requires ready(g, acts) ensures rng(acts), acts.len() > 0
{
    let (m, old, f) = choose|m: Auto<T>, old: Acts<T>, f: Map<usize, usize>| #[trigger] from_tab(g, m, old, f, acts);
    lemma_merged_rng(old, f, acts);
    assert(f.contains_key(0));
}
pub proof fn lemma_ready_merged<T>(g: Grammar<T>, acts: Acts<T>, h: Map<usize, usize>, new: Acts<T>)
    requires ready(g, acts), merged(acts, h, new) ensures ready(g, new)
{
    let (m, old, f) = choose|m: Auto<T>, old: Acts<T>, f: Map<usize, usize>| #[trigger] from_tab(g, m, old, f, acts);
    lemma_merged_comp(old, f, acts, h, new);
    assert(from_tab(g, m, old, after_map(f, h), new));
}

// ---- the functions that merge
/// `new` has the rows of `old`, each once; `f` says where.
pub open spec fn folded<T>(old: Acts<T>, f: Map<usize, usize>, new: Acts<T>) -> bool {
    &&& forall|i: usize| #[trigger] f.contains_key(i) <==> i < old.len()
    &&& forall|i: usize| #[trigger] f.contains_key(i) ==> f[i] < new.len() && new[f[i] as int] == old[i as int]
    &&& old.len() > 0 ==> f[0] == 0
    &&& forall|j: int| 0 <= j < new.len() ==> #[trigger] img(f, j)
    &&& new.len() <= old.len() <= usize::MAX
}
pub open spec fn rowsmap<T>(old: Acts<T>, n: int, h: Map<BMap<T, Action<T>>, usize>, new: Acts<T>) -> bool {
    &&& forall|r: BMap<T, Action<T>>| #[trigger] h.contains_key(r) ==> h[r] < new.len() && new[h[r] as int] == r
    &&& forall|i: int| 0 <= i < n ==> h.contains_key(#[trigger] old[i])
}
pub proof fn lemma_fold_step<T>(old: Acts<T>, i: int, f0: Map<usize, usize>, a0: Acts<T>, f: Map<usize, usize>, a: Acts<T>)
    requires 0 <= i < old.len() <= usize::MAX, folded(old.take(i), f0, a0),
        f == f0.insert(i as usize, f[i as usize]), f[i as usize] < a.len(), a[f[i as usize] as int] == old[i],
        a == a0 || (a == a0.push(old[i]) && f[i as usize] == a0.len()),
    ensures folded(old.take(i + 1), f, a)
{
    let o = old.take(i + 1);
    assert forall|j: usize| #[trigger] f.contains_key(j) <==> j < o.len() by { assert(f0.contains_key(j) <==> j < i); }
    assert forall|j: usize| #[trigger] f.contains_key(j) implies f[j] < a.len() && a[f[j] as int] == o[j as int] by { if j < i { assert(f0.contains_key(j)); assert(old.take(i)[j as int] == o[j as int]); } }
    assert forall|j: int| 0 <= j < a.len() implies #[trigger] img(f, j) by {
        if j < a0.len() { assert(img(f0, j)); let l = choose|l: usize| #[trigger] f0.contains_key(l) && f0[l] == j; assert(f.contains_key(l) && f[l] == j); }
        else { assert(f.contains_key(i as usize) && f[i as usize] == j); }
    }
    if i == 0 { assert(a0.len() == 0); } else { assert(f0.contains_key(0usize)); }
}
/// Every state number in the action has a new one.
pub open spec fn tgts<T>(f: Map<usize, usize>, a: Action<T>) -> bool decreases a {
    match a {
        Action::Shift(n) => f.contains_key(n),
        Action::Goto(n) => f.contains_key(n),
        Action::Conflict(x, y) => tgts(f, *x) && tgts(f, *y),
        _ => true,
    }
}
pub proof fn lemma_tgts<T>(n: int, f: Map<usize, usize>, a: Action<T>)
    requires inr(n, a), forall|i: usize| i < n ==> #[trigger] f.contains_key(i) ensures tgts(f, a) decreases a
{ match a { Action::Conflict(x, y) => { lemma_tgts(n, f, *x); lemma_tgts(n, f, *y); }, _ => {} } }
/// The first `n` keys of the row are renumbered.
pub open spec fn row_upd<T>(f: Map<usize, usize>, r: Map<T, Action<T>>, ks: Seq<T>, n: int, q: Map<T, Action<T>>) -> bool {
    &&& r.dom() == q.dom()
    &&& forall|j: int| 0 <= j < n ==> q[#[trigger] ks[j]] == relab(f, r[ks[j]])
    &&& forall|j: int| n <= j < ks.len() ==> q[#[trigger] ks[j]] == r[ks[j]]
}
pub proof fn lemma_folded<T>(old: Acts<T>, f: Map<usize, usize>, mid: Acts<T>, new: Acts<T>)
    requires folded(old, f, mid), new.len() == mid.len(), forall|j: int| 0 <= j < mid.len() ==> relrow(f, mid[j]@, (#[trigger] new[j])@)
    ensures merged(old, f, new)
{
    assert forall|i: usize| #[trigger] f.contains_key(i) implies f[i] < new.len() && relrow(f, old[i as int]@, new[f[i] as int]@) by { assert(relrow(f, mid[f[i] as int]@, new[f[i] as int]@)); }
}
pub proof fn lemma_upd_all<T>(f: Map<usize, usize>, r: Map<T, Action<T>>, ks: Seq<T>, q: Map<T, Action<T>>)
    requires row_upd(f, r, ks, ks.len() as int, q), ks == set_seq(r.dom()) ensures relrow(f, r, q)
{
    assert forall|a: T| #[trigger] r.contains_key(a) implies q[a] == relab(f, r[a]) by { assert(r.dom().contains(a)); assert(ks[set_idx(r.dom(), a)] == a); }
}
pub proof fn lemma_upd_next<T>(f: Map<usize, usize>, r: Map<T, Action<T>>, ks: Seq<T>, n: int, q: Map<T, Action<T>>, w: Map<T, Action<T>>)
    requires row_upd(f, r, ks, n, q), ks == set_seq(r.dom()), 0 <= n < ks.len(), w == q.insert(ks[n], relab(f, q[ks[n]])) ensures row_upd(f, r, ks, n + 1, w)
{
    assert(r.dom().contains(ks[n]));
    assert(q.dom().contains(ks[n]));
    assert(w.dom() =~= q.dom());
    assert forall|j: int| 0 <= j < n + 1 implies w[#[trigger] ks[j]] == relab(f, r[ks[j]]) by { assert(set_idx(r.dom(), ks[j]) == j); assert(set_idx(r.dom(), ks[n]) == n); }
    assert forall|j: int| n + 1 <= j < ks.len() implies w[#[trigger] ks[j]] == r[ks[j]] by { assert(set_idx(r.dom(), ks[j]) == j); assert(set_idx(r.dom(), ks[n]) == n); }
}
pub proof fn lemma_row_tgts<T>(old: Acts<T>, f: Map<usize, usize>, mid: Acts<T>, j: int, a: T)
    requires folded(old, f, mid), rng(old), 0 <= j < mid.len(), mid[j]@.contains_key(a) ensures tgts(f, mid[j]@[a])
{
    assert(img(f, j));
    let i = choose|i: usize| #[trigger] f.contains_key(i) && f[i] == j;
    assert(cell(old, i, a) is Some);
    lemma_tgts(old.len() as int, f, mid[j]@[a]);
}
} // mod th_merge
pub use th_merge::*;
