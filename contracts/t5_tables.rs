
// ===================================================================================================
// Action tables
// ===================================================================================================
pub mod th_tables {
use super::*;
broadcast use {model::group_model, th_grammar::group_base};

/// The automaton behind a table: item sets, the numbering of kernels, and the source of lookaheads.
#[verifier::reject_recursive_types(T)]
pub ghost struct Auto<T> {
    pub g: Grammar<T>,
    pub states: Seq<State<T>>,
    pub ker: Map<State<T>, usize>,
    /// LALR: kernels are first taken to their core, `raws` maps it to the kernel that `ker` numbers.
    pub merged: bool,
    pub raws: Map<State<T>, State<T>>,
    /// SLR: lookaheads come from the FOLLOW table.
    pub slr: bool,
    pub fol: Map<T, BSet<T>>,
}
pub open spec fn auto_clr<T>(t: Tabler<T>) -> Auto<T> {
    Auto { g: t.grammar, states: t.states@, ker: t.kernels@, merged: false, raws: Map::empty(), slr: false, fol: t.follow@ }
}
pub open spec fn auto_slr<T>(t: Tabler<T>) -> Auto<T> { Auto { slr: true, ..auto_clr(t) } }
pub open spec fn auto_lalr<T>(t: Tabler<T>, raws: BMap<State<T>, State<T>>) -> Auto<T> { Auto { merged: true, raws: raws@, ..auto_clr(t) } }

/// The items of a kernel without their lookaheads.
pub open spec fn core_set<T>(s: Set<Position<T>>) -> Set<Position<T>> { s.map(|p: Position<T>| core(p)) }
pub open spec fn cores<T>(k: State<T>) -> State<T> { bset(core_set(k@)) }
/// The kernel that has a number.
pub open spec fn fk_has<T>(m: Auto<T>, k: State<T>) -> bool { m.merged ==> m.raws.contains_key(cores(k)) }
pub open spec fn fk<T>(m: Auto<T>, k: State<T>) -> State<T> { if m.merged { m.raws[cores(k)] } else { k } }
pub open spec fn khas<T>(m: Auto<T>, k: State<T>) -> bool { fk_has(m, k) && m.ker.contains_key(fk(m, k)) }
pub open spec fn kid<T>(m: Auto<T>, k: State<T>) -> usize { m.ker[fk(m, k)] }
/// The number of the x-successor of state `i`.
pub open spec fn succ<T>(m: Auto<T>, i: int, x: T) -> int { kid(m, gotok(m.states[i], x)) as int }
/// The lookaheads on which a complete item reduces.
pub open spec fn las<T>(m: Auto<T>, p: Position<T>) -> Set<T> { if m.slr { m.fol[p.rule]@ } else { p.look@ } }

/// What the item `p` of `row` demands on the symbol `a`.
pub open spec fn act_for<T>(m: Auto<T>, row: State<T>, p: Position<T>, a: T) -> Option<Action<T>> {
    match top(p) {
        Some(x) => if a != x { None } else if nonterm(m.g, x) { Some(Action::Goto(kid(m, gotok(row, x)))) } else { Some(Action::Shift(kid(m, gotok(row, x)))) },
        None => if !las(m, p).contains(a) { None } else if p.rule == m.g.basis.rule { Some(Action::Acc) } else { Some(Action::Reduce(p.rule, p.seq)) },
    }
}
pub open spec fn demands<T>(m: Auto<T>, row: State<T>, a: T, act: Action<T>) -> bool {
    exists|p: Position<T>| row@.contains(p) && #[trigger] act_for(m, row, p, a) == Some(act)
}
/// The actions that a table entry stands for.
pub open spec fn leaf<T>(c: Action<T>, act: Action<T>) -> bool decreases c {
    match c { Action::Conflict(a, b) => leaf(*a, act) || leaf(*b, act), _ => c == act }
}
/// The entry `c` for `a` is a conflict if and only if at least two actions are demanded, and stands
/// for exactly the demanded actions.
pub open spec fn cell_ok<T>(m: Auto<T>, row: State<T>, a: T, c: Action<T>) -> bool {
    &&& forall|act: Action<T>| #[trigger] leaf(c, act) <==> demands(m, row, a, act)
    &&& c is Conflict <==> exists|u: Action<T>, v: Action<T>| u != v && #[trigger] demands(m, row, a, u) && #[trigger] demands(m, row, a, v)
}
pub open spec fn demanded<T>(m: Auto<T>, row: State<T>, a: T) -> bool { exists|act: Action<T>| demands(m, row, a, act) }
pub open spec fn row_exact<T>(m: Auto<T>, row: State<T>, map: Map<T, Action<T>>) -> bool {
    &&& forall|a: T| #[trigger] map.contains_key(a) <==> demanded(m, row, a)
    &&& forall|a: T| #[trigger] map.contains_key(a) ==> cell_ok(m, row, a, map[a])
}
pub open spec fn table_exact<T>(m: Auto<T>, acts: Seq<BMap<T, Action<T>>>) -> bool {
    acts.len() == m.states.len() && forall|i: int| 0 <= i < acts.len() ==> row_exact(m, m.states[i], (#[trigger] acts[i])@)
}

// ---- while a row is filled
/// Demanded by an item before index `n`, or by item `n` on a symbol before index `k` of `dm`.
pub open spec fn dupto<T>(m: Auto<T>, row: State<T>, n: int, dm: Set<T>, k: int, a: T, act: Action<T>) -> bool {
    exists|p: Position<T>| row@.contains(p) && #[trigger] act_for(m, row, p, a) == Some(act) && (set_idx(row@, p) < n || (set_idx(row@, p) == n && 0 <= set_idx(dm, a) < k))
}
pub open spec fn dany<T>(m: Auto<T>, row: State<T>, n: int, dm: Set<T>, k: int, a: T) -> bool { exists|act: Action<T>| dupto(m, row, n, dm, k, a, act) }
pub open spec fn dtwo<T>(m: Auto<T>, row: State<T>, n: int, dm: Set<T>, k: int, a: T) -> bool {
    exists|u: Action<T>, v: Action<T>| u != v && #[trigger] dupto(m, row, n, dm, k, a, u) && #[trigger] dupto(m, row, n, dm, k, a, v)
}
pub open spec fn row_upto<T>(m: Auto<T>, row: State<T>, n: int, dm: Set<T>, k: int, map: Map<T, Action<T>>) -> bool {
    &&& forall|a: T, act: Action<T>| #[trigger] dupto(m, row, n, dm, k, a, act) ==> map.contains_key(a)
    &&& forall|a: T| #[trigger] map.contains_key(a) ==> dany(m, row, n, dm, k, a)
    &&& forall|a: T, act: Action<T>| map.contains_key(a) ==> (#[trigger] leaf(map[a], act) <==> dupto(m, row, n, dm, k, a, act))
    &&& forall|a: T| #[trigger] map.contains_key(a) && map[a] is Conflict ==>
            dtwo(m, row, n, dm, k, a)
}
pub open spec fn put<T>(map: Map<T, Action<T>>, a: T, act: Action<T>) -> Map<T, Action<T>> {
    if map.contains_key(a) && map[a] != act { map.insert(a, Action::Conflict(Box::new(map[a]), Box::new(act))) } else { map.insert(a, act) }
}
pub proof fn lemma_row_start<T>(m: Auto<T>, row: State<T>, dm: Set<T>)
    ensures row_upto(m, row, 0, dm, 0, Map::<T, Action<T>>::empty())
{}
pub proof fn lemma_act_leaf<T>(m: Auto<T>, row: State<T>, p: Position<T>, a: T, u: Action<T>)
    requires act_for(m, row, p, a) is Some
    ensures leaf(act_for(m, row, p, a)->0, u) <==> u == act_for(m, row, p, a)->0, !(act_for(m, row, p, a)->0 is Conflict)
{}
/// `dm` is the set of symbols on which the item `p` demands something.
pub open spec fn ddom<T>(m: Auto<T>, row: State<T>, p: Position<T>, dm: Set<T>) -> bool {
    forall|b: T| #[trigger] dm.contains(b) <==> act_for(m, row, p, b) is Some
}
pub open spec fn dwit<T>(m: Auto<T>, row: State<T>, n: int, dm: Set<T>, k: int, a: T, act: Action<T>, p: Position<T>) -> bool {
    row@.contains(p) && act_for(m, row, p, a) == Some(act) && (set_idx(row@, p) < n || (set_idx(row@, p) == n && 0 <= set_idx(dm, a) < k))
}
pub proof fn lemma_dupto<T>(m: Auto<T>, row: State<T>, n: int, dm: Set<T>, k: int, a: T, act: Action<T>)
    requires dupto(m, row, n, dm, k, a, act) ensures exists|p: Position<T>| #[trigger] dwit(m, row, n, dm, k, a, act, p)
{
    let p = choose|p: Position<T>| row@.contains(p) && #[trigger] act_for(m, row, p, a) == Some(act) && (set_idx(row@, p) < n || (set_idx(row@, p) == n && 0 <= set_idx(dm, a) < k));
    assert(dwit(m, row, n, dm, k, a, act, p));
}
pub proof fn lemma_row_put<T>(m: Auto<T>, row: State<T>, n: int, dm: Set<T>, k: int, map: Map<T, Action<T>>, a: T, act: Action<T>)
    requires row_upto(m, row, n, dm, k, map), 0 <= n < set_seq(row@).len(), 0 <= k < set_seq(dm).len(), set_seq(dm)[k] == a,
        ddom(m, row, set_seq(row@)[n], dm), act_for(m, row, set_seq(row@)[n], a) == Some(act),
    ensures row_upto(m, row, n, dm, k + 1, put(map, a, act))
{
    let p0 = set_seq(row@)[n];
    let r = put(map, a, act);
    lemma_act_leaf(m, row, p0, a, act);
    assert(row@.contains(p0));
    assert forall|b: T, u: Action<T>| #[trigger] dupto(m, row, n, dm, k + 1, b, u) <==> dupto(m, row, n, dm, k, b, u) || (b == a && u == act) by {
        if dupto(m, row, n, dm, k + 1, b, u) && !dupto(m, row, n, dm, k, b, u) {
            lemma_dupto(m, row, n, dm, k + 1, b, u);
            let p = choose|p: Position<T>| #[trigger] dwit(m, row, n, dm, k + 1, b, u, p);
            assert(p == p0);
            assert(dm.contains(b));
        }
        if dupto(m, row, n, dm, k, b, u) { lemma_dupto(m, row, n, dm, k, b, u); }
    }
    assert forall|b: T| #[trigger] r.contains_key(b) implies dany(m, row, n, dm, k + 1, b) by {
        if b == a { assert(dupto(m, row, n, dm, k + 1, a, act)); }
        else { let u = choose|u: Action<T>| dupto(m, row, n, dm, k, b, u); assert(dupto(m, row, n, dm, k + 1, b, u)); }
    }
    assert forall|b: T, u: Action<T>| r.contains_key(b) implies (#[trigger] leaf(r[b], u) <==> dupto(m, row, n, dm, k + 1, b, u)) by {
        lemma_act_leaf(m, row, p0, a, u);
        assert(dupto(m, row, n, dm, k + 1, b, u) <==> dupto(m, row, n, dm, k, b, u) || (b == a && u == act));
        if b == a {
            if map.contains_key(a) {
                assert(leaf(map[a], u) <==> dupto(m, row, n, dm, k, a, u));
                if map[a] != act {
                    assert(r[a] == Action::Conflict(Box::new(map[a]), Box::new(act)));
                    assert(leaf(r[a], u) <==> leaf(map[a], u) || leaf(act, u));
                }
            }
        } else { assert(leaf(map[b], u) <==> dupto(m, row, n, dm, k, b, u)); }
    }
    assert forall|b: T| #[trigger] r.contains_key(b) && r[b] is Conflict implies
            dtwo(m, row, n, dm, k + 1, b) by {
        if map.contains_key(b) && map[b] is Conflict {
            let (u, v) = choose|u: Action<T>, v: Action<T>| u != v && #[trigger] dupto(m, row, n, dm, k, b, u) && #[trigger] dupto(m, row, n, dm, k, b, v);
            assert(dupto(m, row, n, dm, k + 1, b, u)); assert(dupto(m, row, n, dm, k + 1, b, v));
        } else {
            assert(b == a && map.contains_key(a) && map[a] != act);
            assert(leaf(map[a], map[a]));
            assert(dupto(m, row, n, dm, k, a, map[a]));
            assert(dupto(m, row, n, dm, k + 1, a, map[a])); assert(dupto(m, row, n, dm, k + 1, a, act));
        }
    }
}
/// All symbols of one item done.
pub proof fn lemma_row_next<T>(m: Auto<T>, row: State<T>, n: int, dm: Set<T>, map: Map<T, Action<T>>, em: Set<T>)
    requires row_upto(m, row, n, dm, set_seq(dm).len() as int, map), 0 <= n < set_seq(row@).len(), ddom(m, row, set_seq(row@)[n], dm)
    ensures row_upto(m, row, n + 1, em, 0, map)
{
    assert forall|b: T, u: Action<T>| #[trigger] dupto(m, row, n + 1, em, 0, b, u) <==> dupto(m, row, n, dm, set_seq(dm).len() as int, b, u) by {
        if dupto(m, row, n + 1, em, 0, b, u) {
            lemma_dupto(m, row, n + 1, em, 0, b, u);
            let p = choose|p: Position<T>| #[trigger] dwit(m, row, n + 1, em, 0, b, u, p);
            if set_idx(row@, p) == n { assert(p == set_seq(row@)[n]); assert(dm.contains(b)); }
        }
        if dupto(m, row, n, dm, set_seq(dm).len() as int, b, u) { lemma_dupto(m, row, n, dm, set_seq(dm).len() as int, b, u); }
    }
    assert forall|a: T| #[trigger] map.contains_key(a) implies dany(m, row, n + 1, em, 0, a) by {
        let u = choose|u: Action<T>| dupto(m, row, n, dm, set_seq(dm).len() as int, a, u); assert(dupto(m, row, n + 1, em, 0, a, u));
    }
    assert forall|b: T| #[trigger] map.contains_key(b) && map[b] is Conflict implies
            dtwo(m, row, n + 1, em, 0, b) by {
        let (u, v) = choose|u: Action<T>, v: Action<T>| u != v && #[trigger] dupto(m, row, n, dm, set_seq(dm).len() as int, b, u) && #[trigger] dupto(m, row, n, dm, set_seq(dm).len() as int, b, v);
        assert(dupto(m, row, n + 1, em, 0, b, u)); assert(dupto(m, row, n + 1, em, 0, b, v));
    }
    assert forall|a: T, act: Action<T>| map.contains_key(a) implies (#[trigger] leaf(map[a], act) <==> dupto(m, row, n + 1, em, 0, a, act)) by {
        assert(leaf(map[a], act) <==> dupto(m, row, n, dm, set_seq(dm).len() as int, a, act));
    }
}
/// The other start of an item's symbols.
pub proof fn lemma_row_dm<T>(m: Auto<T>, row: State<T>, n: int, dm: Set<T>, map: Map<T, Action<T>>, em: Set<T>)
    requires row_upto(m, row, n, dm, 0, map), 0 <= n, ddom(m, row, set_seq(row@)[n], em)
    ensures row_upto(m, row, n, em, 0, map)
{
    assert(forall|b: T, u: Action<T>| dupto(m, row, n, em, 0, b, u) <==> dupto(m, row, n, dm, 0, b, u));
}
/// All items done.
pub proof fn lemma_row_end<T>(m: Auto<T>, row: State<T>, n: int, dm: Set<T>, map: Map<T, Action<T>>)
    requires row_upto(m, row, n, dm, 0, map), n >= set_seq(row@).len() ensures row_exact(m, row, map)
{
    assert forall|b: T, u: Action<T>| #[trigger] demands(m, row, b, u) <==> dupto(m, row, n, dm, 0, b, u) by {
        if demands(m, row, b, u) { let p = choose|p: Position<T>| row@.contains(p) && #[trigger] act_for(m, row, p, b) == Some(u); assert(dupto(m, row, n, dm, 0, b, u)); }
        if dupto(m, row, n, dm, 0, b, u) { lemma_dupto(m, row, n, dm, 0, b, u); }
    }
    assert forall|a: T| #[trigger] map.contains_key(a) implies cell_ok(m, row, a, map[a]) by {
        let c = map[a];
        assert forall|act: Action<T>| #[trigger] leaf(c, act) <==> demands(m, row, a, act) by {
            assert(leaf(c, act) <==> dupto(m, row, n, dm, 0, a, act)); assert(demands(m, row, a, act) <==> dupto(m, row, n, dm, 0, a, act)); }
        if c is Conflict {
            let (u, v) = choose|u: Action<T>, v: Action<T>| u != v && #[trigger] dupto(m, row, n, dm, 0, a, u) && #[trigger] dupto(m, row, n, dm, 0, a, v);
            assert(demands(m, row, a, u) && demands(m, row, a, v));
        } else {
            assert forall|u: Action<T>, v: Action<T>| u != v && #[trigger] demands(m, row, a, u) && #[trigger] demands(m, row, a, v) implies false by {
                assert(leaf(c, u)); assert(leaf(c, v)); }
        }
    }
    assert forall|a: T| #[trigger] map.contains_key(a) <==> demanded(m, row, a) by {
        if map.contains_key(a) { let u = choose|u: Action<T>| dupto(m, row, n, dm, 0, a, u); assert(demands(m, row, a, u)); }
        if demanded(m, row, a) { let u = choose|u: Action<T>| demands(m, row, a, u); assert(dupto(m, row, n, dm, 0, a, u)); }
    }
}
pub proof fn lemma_map_of<K, V>(s: Seq<(K, V)>)
    ensures forall|k: K| #[trigger] map_of(s).contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k,
        forall|k: K| #[trigger] map_of(s).contains_key(k) ==> s.contains((k, map_of(s)[k])),
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_map_of(d);
        assert forall|k: K| #[trigger] map_of(s).contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by {
            if map_of(s).contains_key(k) {
                if k == s.last().0 { assert(s[s.len() - 1].0 == k); }
                else { assert(map_of(d).contains_key(k)); let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k; assert(s[i].0 == k); }
            }
            if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k {
                let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
                if i < d.len() { assert(d[i].0 == k); assert(map_of(d).contains_key(k)); }
            }
        }
        assert forall|k: K| #[trigger] map_of(s).contains_key(k) implies s.contains((k, map_of(s)[k])) by {
            if k == s.last().0 { assert(s[s.len() - 1] == (k, map_of(s)[k])); }
            else { assert(map_of(d).contains_key(k)); let i = choose|i: int| 0 <= i < d.len() && d[i] == (k, map_of(d)[k]); assert(s[i] == (k, map_of(s)[k])); }
        }
    }
}
/// The actions of a complete item, up to the n-th lookahead.
pub open spec fn reds<T>(c: Map<T, Action<T>>, ls: Set<T>, act: Action<T>, n: int) -> bool {
    &&& forall|a: T| #[trigger] c.contains_key(a) <==> ls.contains(a) && set_idx(ls, a) < n
    &&& forall|a: T| #[trigger] c.contains_key(a) ==> c[a] == act
}
pub open spec fn red_act<T>(m: Auto<T>, p: Position<T>) -> Action<T> { if p.rule == m.g.basis.rule { Action::Acc } else { Action::Reduce(p.rule, p.seq) } }
/// The result of `decision`.
pub open spec fn is_dec<T>(m: Auto<T>, row: State<T>, p: Position<T>, r: Map<T, Action<T>>) -> bool {
    &&& forall|a: T| #[trigger] r.contains_key(a) <==> act_for(m, row, p, a) is Some
    &&& forall|a: T| #[trigger] r.contains_key(a) ==> act_for(m, row, p, a) == Some(r[a])
}
pub proof fn lemma_dec_red<T>(m: Auto<T>, row: State<T>, p: Position<T>, c: Map<T, Action<T>>)
    requires top(p) is None, reds(c, las(m, p), red_act(m, p), set_seq(las(m, p)).len() as int)
    ensures is_dec(m, row, p, c)
{
}
pub open spec fn dec_map<T>(m: Auto<T>, row: State<T>, p: Position<T>) -> Map<T, Action<T>> { choose|d: Map<T, Action<T>>| is_dec(m, row, p, d) }
pub proof fn lemma_dec_map<T>(m: Auto<T>, row: State<T>, p: Position<T>)
    ensures forall|d: Map<T, Action<T>>| #[trigger] is_dec(m, row, p, d) ==> d == dec_map(m, row, p) && ddom(m, row, p, d.dom())
{
    assert forall|d: Map<T, Action<T>>| #[trigger] is_dec(m, row, p, d) implies d == dec_map(m, row, p) && ddom(m, row, p, d.dom()) by {
        let e = dec_map(m, row, p);
        assert(is_dec(m, row, p, e));
        assert forall|a: T| d.contains_key(a) <==> e.contains_key(a) by {}
        assert(d =~= e);
    }
}
/// The rows before `n` are filled.
pub open spec fn rows_done<T>(m: Auto<T>, acts: Seq<BMap<T, Action<T>>>, n: int) -> bool {
    acts.len() == n && forall|i: int| 0 <= i < n ==> row_exact(m, m.states[i], (#[trigger] acts[i])@)
}
pub open spec fn same_but_actions<T>(t: Tabler<T>, u: Tabler<T>) -> bool { t == (Tabler { actions: t.actions, ..u }) }
pub proof fn lemma_graph_actions<T>(t: Tabler<T>, u: Tabler<T>, lr: bool)
    requires kgraph(t, lr), same_but_actions(u, t) ensures kgraph(u, lr)
{
    assert forall|i: int| 1 <= i < u.states@.len() implies #[trigger] preded(u, i) by {
        assert(preded(t, i));
        let (j, x) = choose|j: int, x: T| #[trigger] has_pred(t, j, i, x);
        assert(has_pred(u, j, i, x));
    }
    assert forall|i: int, x: T| 0 <= i < u.states@.len() implies u.kernels@.contains_key(#[trigger] gotok(u.states@[i], x)) by {
        assert(t.kernels@.contains_key(gotok(t.states@[i], x)));
    }
}
pub open spec fn same_base3<T>(t: Tabler<T>, u: Tabler<T>) -> bool { t == (Tabler { actions: t.actions, states: t.states, kernels: t.kernels, ..u }) }

// ---- SLR: every item's nonterminal has a row in the FOLLOW table
pub open spec fn fkeys<T>(g: Grammar<T>, s: Set<Position<T>>) -> bool { forall|p: Position<T>| #[trigger] s.contains(p) ==> fkey(g, p.rule) }
pub proof fn lemma_fkeys_closure<T>(g: Grammar<T>, lr: bool, s: Set<Position<T>>, q: Position<T>, n: nat)
    requires gwf(g), items_ok(g, s), fkeys(g, s), creach(g, lr, s, q, n) ensures fkey(g, q.rule), item_ok(g, q)
    decreases n
{
    if !s.contains(q) {
        let p = choose|p: Position<T>| creach(g, lr, s, p, (n - 1) as nat) && #[trigger] cstep(g, lr, p, q);
        lemma_fkeys_closure(g, lr, s, p, (n - 1) as nat);
        lemma_cstep_ok(g, lr, p, q);
        let b = rcv(p.seq); let x = q.rule;
        assert(is_prod(g, p.rule, b));
        if p.point < b.0@.len() - 1 { assert(at_pair(g, p.rule, b, p.point as int, x)); }
        else { assert(b.0@.last() == x); assert(ledge(g, x, p.rule)); if x != p.rule { assert(ledge(g, x, p.rule) && p.rule != x); } }
    }
}
pub proof fn lemma_fkeys<T>(t: Tabler<T>, lr: bool, i: int)
    requires gwf(t.grammar), kstates(t, lr), 0 <= i < t.states@.len() ensures fkeys(t.grammar, t.states@[i]@)
    decreases i
{
    let g = t.grammar;
    lemma_basis_ok(g);
    if i == 0 {
        assert forall|q: Position<T>| #[trigger] t.states@[0]@.contains(q) implies fkey(g, q.rule) by {
            let n = choose|n: nat| creach(g, lr, only(g.basis), q, n);
            lemma_fkeys_closure(g, lr, only(g.basis), q, n);
        }
    } else {
        assert(preded(t, i));
        let (j, x) = choose|j: int, x: T| #[trigger] has_pred(t, j, i, x);
        lemma_fkeys(t, lr, j);
        let k = gotok(t.states@[j], x);
        lemma_gotok(t.states@[j], x);
        lemma_goto_ok(g, t.states@[j], x);
        assert forall|q: Position<T>| #[trigger] k@.contains(q) implies fkey(g, q.rule) by { assert(t.states@[j]@.contains(back(q))); }
        assert(t.kernels@.contains_key(k));
        assert forall|q: Position<T>| #[trigger] t.states@[i]@.contains(q) implies fkey(g, q.rule) by {
            let n = choose|n: nat| creach(g, lr, k@, q, n);
            lemma_fkeys_closure(g, lr, k@, q, n);
        }
    }
}

// ---- the list of conflicts
/// The conflicts among the first `n` entries of a row, in the order of the row.
pub open spec fn confs_row<T>(m: Map<T, Action<T>>, n: int) -> Seq<Action<T>> decreases n {
    if n <= 0 { Seq::empty() } else {
        let a = m[set_seq(m.dom())[n - 1]];
        if a is Conflict { confs_row(m, n - 1).push(a) } else { confs_row(m, n - 1) }
    }
}
pub open spec fn confs<T>(acts: Seq<BMap<T, Action<T>>>, n: int) -> Seq<Action<T>> decreases n {
    if n <= 0 { Seq::empty() } else { confs(acts, n - 1) + confs_row(acts[n - 1]@, set_seq(acts[n - 1]@.dom()).len() as int) }
}
pub open spec fn derefs<A>(r: Seq<&A>, s: Seq<A>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *#[trigger] r[i] == s[i] }
} // mod th_tables
pub use th_tables::*;
