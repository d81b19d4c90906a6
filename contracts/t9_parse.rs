
// ===================================================================================================
// The machine on the table of an automaton: it gets never stuck, accepts only sentences (C07, C11,
// C12), and accepts every sentence unless it meets a conflict (C08-C10).
// ===================================================================================================
pub mod th_parse {
use super::*;
broadcast use {model::group_model, th_grammar::group_base};

/// The action table `acts` belongs to the automaton `m`.
pub open spec fn tab<T>(m: Auto<T>, acts: Acts<T>, eof: T) -> bool { auto_ok(m) && table_exact(m, acts) && eof == eof_of(m.g) && m.states.len() <= usize::MAX }

pub open spec fn pedge<V, T>(m: Auto<T>, c: Cfg<V, T>, k: int) -> bool { edge(m, c.st[k] as int, root(c.tr[k]), c.st[k + 1] as int) }
pub open spec fn inv<V, T>(m: Auto<T>, input: Seq<Token<V, T>>, c: Cfg<V, T>) -> bool {
    &&& c.st.len() == c.tr.len() + 1
    &&& c.st[0] == 0
    &&& forall|k: int| 0 <= k < c.tr.len() ==> #[trigger] pedge(m, c, k)
    &&& forall|k: int| 0 <= k < c.tr.len() ==> valid(m.g, #[trigger] c.tr[k])
    &&& yields(c.tr) + c.buf == input
}
pub proof fn lemma_inv_st<V, T>(m: Auto<T>, input: Seq<Token<V, T>>, c: Cfg<V, T>, k: int)
    requires auto_ok(m), inv(m, input, c), 0 <= k < c.st.len() ensures c.st[k] < m.states.len(), k > 0 ==> c.st[k] > 0
{ if k > 0 { assert(pedge(m, c, k - 1)); } }
/// A cell that is no conflict is demanded by an item of the state.
pub open spec fn wants<T>(m: Auto<T>, s: int, p: Position<T>, a: T, act: Action<T>) -> bool {
    m.states[s]@.contains(p) && act_for(m, m.states[s], p, a) == Some(act) && item_ok(m.g, p) && item_place(m, s, p)
}
pub proof fn lemma_cell<T>(m: Auto<T>, acts: Acts<T>, eof: T, s: usize, a: T)
    requires tab(m, acts, eof), s < m.states.len(), cell(acts, s, a) is Some, !(cell(acts, s, a)->0 is Conflict)
    ensures exists|p: Position<T>| #[trigger] wants(m, s as int, p, a, cell(acts, s, a)->0)
{
    let act = cell(acts, s, a)->0;
    assert(row_exact(m, m.states[s as int], acts[s as int]@));
    assert(cell_ok(m, m.states[s as int], a, act));
    assert(leaf(act, act));
    assert(demands(m, m.states[s as int], a, act));
    let p = choose|p: Position<T>| m.states[s as int]@.contains(p) && #[trigger] act_for(m, m.states[s as int], p, a) == Some(act);
    assert(items_ok(m.g, m.states[s as int]@));
    assert(wants(m, s as int, p, a, act));
}
/// What an item demands is in the cell, unless the cell is a conflict.
pub proof fn lemma_demand<T>(m: Auto<T>, acts: Acts<T>, eof: T, s: usize, p: Position<T>, a: T)
    requires tab(m, acts, eof), s < m.states.len(), m.states[s as int]@.contains(p), act_for(m, m.states[s as int], p, a) is Some
    ensures cell(acts, s, a) is Some, !(cell(acts, s, a)->0 is Conflict) ==> cell(acts, s, a) == act_for(m, m.states[s as int], p, a)
{
    let act = act_for(m, m.states[s as int], p, a)->0;
    assert(row_exact(m, m.states[s as int], acts[s as int]@));
    assert(demands(m, m.states[s as int], a, act));
    assert(demanded(m, m.states[s as int], a));
    assert(leaf(cell(acts, s, a)->0, act));
}
/// The entry of a nonterminal that is after a dot is the goto to the successor.
pub proof fn lemma_goto_cell<T>(m: Auto<T>, acts: Acts<T>, eof: T, s: usize, x: T)
    requires tab(m, acts, eof), s < m.states.len(), has_top(m, s as int, x), nonterm(m.g, x)
    ensures cell(acts, s, x) == Some(Action::<T>::Goto(succ(m, s as int, x) as usize)), edge(m, s as int, x, succ(m, s as int, x)), 1 <= succ(m, s as int, x) < m.states.len()
{
    let row = m.states[s as int];
    let p = choose|p: Position<T>| row@.contains(p) && #[trigger] top(p) == Some(x);
    lemma_demand(m, acts, eof, s, p, x);
    let c = cell(acts, s, x)->0;
    let go = Action::<T>::Goto(kid(m, gotok(row, x)));
    assert forall|u: Action<T>| #[trigger] demands(m, row, x, u) implies u == go by {
        let q = choose|q: Position<T>| row@.contains(q) && #[trigger] act_for(m, row, q, x) == Some(u);
        assert(item_place(m, s as int, q));
        assert(item_ok(m.g, q));
        if top(q) is None { assert(las(m, q).contains(x)); }
    }
    assert(row_exact(m, row, acts[s as int]@));
    assert(cell_ok(m, row, x, c));
    lemma_goto_nonempty(row, p);
    lemma_e_state::<T>();
    assert(edge(m, s as int, x, succ(m, s as int, x)));
}
/// Below an item with the dot at `point` are the symbols before its dot, and its beginning.
pub proof fn lemma_depth<V, T>(m: Auto<T>, input: Seq<Token<V, T>>, c: Cfg<V, T>, k: int, q: Position<T>)
    requires auto_ok(m), inv(m, input, c), 0 <= k < c.st.len(), m.states[c.st[k] as int]@.contains(q)
    ensures q.point <= k,
        forall|j: int| 0 <= j < q.point ==> root(#[trigger] c.tr[k - q.point + j]) == q.seq.0@[j],
        exists|p: Position<T>| #[trigger] m.states[c.st[k - q.point] as int]@.contains(p) && p.point == 0 && p.rule == q.rule && p.seq == q.seq,
    decreases q.point
{
    lemma_inv_st(m, input, c, k);
    if q.point > 0 {
        assert(item_place(m, c.st[k] as int, q));
        assert(pedge(m, c, k - 1));
        let x = root(c.tr[k - 1]);
        let none: Option<T> = None;
        assert(edge(m, c.st[k - 1] as int, x, c.st[k] as int));
        assert(top(back(q)) == Some(x) && la(m, c.st[k - 1] as int, core(back(q)), None));
        let r = choose|r: Position<T>| m.states[c.st[k - 1] as int]@.contains(r) && #[trigger] la1(m, r, core(back(q)), none);
        lemma_core(r); lemma_core(back(q));
        assert(r.point == q.point - 1 && r.seq == q.seq && r.rule == q.rule);
        lemma_depth(m, input, c, k - 1, r);
        assert forall|j: int| 0 <= j < q.point implies root(#[trigger] c.tr[k - q.point + j]) == q.seq.0@[j] by {
            if j < q.point - 1 { assert(root(c.tr[k - 1 - r.point + j]) == r.seq.0@[j]); }
        }
    }
}
pub proof fn lemma_yields_split<V, T>(f: Seq<Tree<V, T>>, n: int)
    requires 0 <= n <= f.len() ensures yields(f) == yields(f.take(n)) + yields(f.skip(n))
{ lemma_yields_add(f.take(n), f.skip(n)); assert(f.take(n) + f.skip(n) =~= f); }

/// What an accepted configuration is.
pub open spec fn whole<V, T>(g: Grammar<T>, c: Cfg<V, T>) -> Tree<V, T> { Tree::Node(g.basis.rule, g.basis.seq, c.tr) }
pub open spec fn fail_ok<V, T>(acts: Acts<T>, eof: T, c: Cfg<V, T>, e: Error<T>) -> bool {
    let a = look_of(c.buf, eof);
    match e {
        Error::UnexpectedToken(..) => e == unexpected(acts, c.st.last(), a) && (cell(acts, c.st.last(), a) is None || cell(acts, c.st.last(), a)->0 is Goto),
        Error::Conflict(x, y) => cell(acts, c.st.last(), a) == Some(Action::Conflict(Box::new(x), Box::new(y))),
        Error::IncompleteExec => c.buf.len() > 0 && c.buf[0].ty == eof,
        _ => false,
    }
}
pub open spec fn good<V, T>(m: Auto<T>, acts: Acts<T>, eof: T, input: Seq<Token<V, T>>, o: Out<V, T>) -> bool {
    match o {
        Out::Run(d) => inv(m, input, d),
        Out::Acc(d) => inv(m, input, d) && parse_tree(m.g, input, whole(m.g, d)) && d.tr.len() > 0,
        Out::Fail(d, e) => inv(m, input, d) && fail_ok(acts, eof, d, e),
        Out::Stuck => false,
    }
}
pub proof fn lemma_step_shift<V, T>(m: Auto<T>, acts: Acts<T>, eof: T, input: Seq<Token<V, T>>, c: Cfg<V, T>)
    requires tab(m, acts, eof), inv(m, input, c), cell(acts, c.st.last(), look_of(c.buf, eof)) is Some, cell(acts, c.st.last(), look_of(c.buf, eof))->0 is Shift
    ensures good(m, acts, eof, input, step(acts, eof, c)), step(acts, eof, c) is Run
{
    let a = look_of(c.buf, eof); let s = c.st.last();
    lemma_inv_st(m, input, c, c.tr.len() as int);
    lemma_cell(m, acts, eof, s, a);
    let p = choose|p: Position<T>| #[trigger] wants(m, s as int, p, a, cell(acts, s, a)->0);
    lemma_top_not_start(m.g, p);
    assert(top(p) == Some(a));
    let to = succ(m, s as int, a);
    lemma_goto_nonempty(m.states[s as int], p);
    lemma_e_state::<T>();
    assert(edge(m, s as int, a, to));
    let d = Cfg { st: c.st.push(to as usize), tr: c.tr.push(Tree::Leaf(c.buf[0])), buf: c.buf.skip(1) };
    assert(step(acts, eof, c) == Out::Run(d));
    assert forall|k: int| 0 <= k < d.tr.len() implies #[trigger] pedge(m, d, k) by { if k < c.tr.len() { assert(pedge(m, c, k)); } }
    assert forall|k: int| 0 <= k < d.tr.len() implies valid(m.g, #[trigger] d.tr[k]) by { if k < c.tr.len() { assert(valid(m.g, c.tr[k])); } }
    lemma_yields_push(c.tr, Tree::Leaf(c.buf[0]));
    assert(yields(d.tr) + d.buf =~= input);
}
pub proof fn lemma_step_reduce<V, T>(m: Auto<T>, acts: Acts<T>, eof: T, input: Seq<Token<V, T>>, c: Cfg<V, T>)
    requires tab(m, acts, eof), inv(m, input, c), cell(acts, c.st.last(), look_of(c.buf, eof)) is Some, cell(acts, c.st.last(), look_of(c.buf, eof))->0 is Reduce
    ensures good(m, acts, eof, input, step(acts, eof, c)), step(acts, eof, c) is Run
{
    let a = look_of(c.buf, eof); let s = c.st.last(); let l = c.tr.len() as int;
    lemma_inv_st(m, input, c, l);
    lemma_cell(m, acts, eof, s, a);
    let p = choose|p: Position<T>| #[trigger] wants(m, s as int, p, a, cell(acts, s, a)->0);
    assert(top(p) is None);
    let n = p.point as int; let x = p.rule;
    assert(cell(acts, s, a) == Some(Action::Reduce(x, p.seq)));
    assert(n == p.seq.0@.len());
    lemma_depth(m, input, c, l, p);
    let b = c.st[l - n];
    lemma_inv_st(m, input, c, l - n);
    let q = choose|q: Position<T>| #[trigger] m.states[b as int]@.contains(q) && q.point == 0 && q.rule == x && q.seq == p.seq;
    assert(item_place(m, b as int, q));
    assert(nonterm(m.g, x));
    lemma_goto_cell(m, acts, eof, b, x);
    assert(popped(c, n).last() == b);
    let k = c.tr.skip(l - n);
    let y = Tree::Node(x, p.seq, k);
    let to = succ(m, b as int, x);
    let d = Cfg { st: popped(c, n).push(to as usize), tr: c.tr.take(l - n).push(y), buf: c.buf };
    assert(step(acts, eof, c) == Out::Run(d));
    assert(valid(m.g, y)) by {
        assert forall|i: int| 0 <= i < k.len() implies valid(m.g, #[trigger] k[i]) && root(k[i]) == p.seq.0@[i] by { assert(k[i] == c.tr[l - n + i]); assert(valid(m.g, c.tr[l - n + i])); }
    }
    assert forall|j: int| 0 <= j < d.tr.len() implies #[trigger] pedge(m, d, j) by { if j < l - n { assert(pedge(m, c, j)); } }
    assert forall|j: int| 0 <= j < d.tr.len() implies valid(m.g, #[trigger] d.tr[j]) by { if j < l - n { assert(valid(m.g, c.tr[j])); } }
    lemma_yields_split(c.tr, l - n);
    lemma_yields_push(c.tr.take(l - n), y);
    lemma_yield_node(y);
}
pub proof fn lemma_step<V, T>(m: Auto<T>, acts: Acts<T>, eof: T, input: Seq<Token<V, T>>, c: Cfg<V, T>)
    requires tab(m, acts, eof), inv(m, input, c) ensures good(m, acts, eof, input, step(acts, eof, c))
{
    let a = look_of(c.buf, eof); let s = c.st.last(); let l = c.tr.len() as int;
    lemma_inv_st(m, input, c, l);
    match cell(acts, s, a) {
        Some(Action::Shift(_)) => { lemma_step_shift(m, acts, eof, input, c); },
        Some(Action::Reduce(_, _)) => { lemma_step_reduce(m, acts, eof, input, c); },
        Some(Action::Acc) => {
            lemma_cell(m, acts, eof, s, a);
            let p = choose|p: Position<T>| #[trigger] wants(m, s as int, p, a, cell(acts, s, a)->0);
            assert(top(p) is None);
            assert(las(m, p).contains(a));
            assert(a == eof);
            lemma_depth(m, input, c, l, p);
            let n = p.point as int;
            let b = c.st[l - n];
            lemma_inv_st(m, input, c, l - n);
            let q = choose|q: Position<T>| #[trigger] m.states[b as int]@.contains(q) && q.point == 0 && q.rule == p.rule && q.seq == p.seq;
            assert(item_place(m, b as int, q));
            assert(l == n);
            lemma_start_prod(m.g, p.rule, rcv(p.seq));
            lemma_prod_nonempty(m.g, p.rule, rcv(p.seq));
            assert(p.seq == m.g.basis.seq);
            let y = whole(m.g, c);
            assert forall|i: int| 0 <= i < l implies valid(m.g, #[trigger] c.tr[i]) && root(c.tr[i]) == p.seq.0@[i] by { assert(c.tr[l - n + i] == c.tr[i]); }
            assert(valid(m.g, y));
            lemma_yield_node(y);
            if c.buf.len() == 0 { assert(yields(c.tr) + c.buf =~= yields(c.tr)); }
        },
        _ => {},
    }
}
pub proof fn lemma_start_prod<T>(g: Grammar<T>, x: T, p: Production<T>)
    requires gwf(g), is_prod(g, x, p), x == g.basis.rule ensures p == *g.basis.seq
{}
pub proof fn lemma_init<V, T>(m: Auto<T>, input: Seq<Token<V, T>>)
    requires auto_ok(m) ensures inv(m, input, init(input))
{ assert(yields(Seq::<Tree<V, T>>::empty()) + input =~= input); }
/// Every point of every run is good.
pub proof fn lemma_run<V, T>(m: Auto<T>, acts: Acts<T>, eof: T, input: Seq<Token<V, T>>, n: nat)
    requires tab(m, acts, eof) ensures good(m, acts, eof, input, iter(acts, eof, init(input), n))
    decreases n
{
    if n == 0 { lemma_init(m, input); } else {
        lemma_run(m, acts, eof, input, (n - 1) as nat);
        match iter(acts, eof, init(input), (n - 1) as nat) { Out::Run(d) => { lemma_step(m, acts, eof, input, d); }, _ => {} }
    }
}

// ---- completeness
pub open spec fn conflicted<V, T>(o: Out<V, T>) -> bool { match o { Out::Fail(_, Error::Conflict(..)) => true, _ => false } }
/// From `c` the machine comes to `d`, or to a conflict.
pub open spec fn comes<V, T>(acts: Acts<T>, eof: T, c: Cfg<V, T>, d: Cfg<V, T>) -> bool {
    exists|n: nat| (#[trigger] iter(acts, eof, c, n)) == Out::Run(d) || conflicted(iter(acts, eof, c, n))
}
pub proof fn lemma_comes<V, T>(acts: Acts<T>, eof: T, c: Cfg<V, T>, d: Cfg<V, T>, e: Cfg<V, T>)
    requires comes(acts, eof, c, d), comes(acts, eof, d, e) ensures comes(acts, eof, c, e)
{
    let n = choose|n: nat| (#[trigger] iter(acts, eof, c, n)) == Out::Run(d) || conflicted(iter(acts, eof, c, n));
    let k = choose|k: nat| (#[trigger] iter(acts, eof, d, k)) == Out::Run(e) || conflicted(iter(acts, eof, d, k));
    if !conflicted(iter(acts, eof, c, n)) { lemma_iter_comp(acts, eof, c, n, d, k); assert(iter(acts, eof, c, n + k) == iter(acts, eof, d, k)); }
}
/// `c` after reading the tree `x`, and after reading the first `i` trees of `k`.
pub open spec fn after<V, T>(m: Auto<T>, c: Cfg<V, T>, x: Tree<V, T>) -> Cfg<V, T> {
    Cfg { st: c.st.push(succ(m, c.st.last() as int, root(x)) as usize), tr: c.tr.push(x), buf: c.buf.skip(yield_of(x).len() as int) }
}
pub open spec fn afters<V, T>(m: Auto<T>, c: Cfg<V, T>, k: Seq<Tree<V, T>>, i: int) -> Cfg<V, T> decreases i {
    if i <= 0 { c } else { after(m, afters(m, c, k, i - 1), k[i - 1]) }
}
pub proof fn lemma_afters<V, T>(m: Auto<T>, c: Cfg<V, T>, k: Seq<Tree<V, T>>, rest: Seq<Token<V, T>>, i: int)
    requires 0 <= i <= k.len(), c.buf == yields(k) + rest, c.st.len() >= 1, c.st.len() == c.tr.len() + 1
    ensures afters(m, c, k, i).st.len() == c.st.len() + i, afters(m, c, k, i).st.take(c.st.len() as int) == c.st,
        afters(m, c, k, i).tr == c.tr + k.take(i), afters(m, c, k, i).buf == yields(k.skip(i)) + rest
    decreases i
{
    if i > 0 {
        lemma_afters(m, c, k, rest, i - 1);
        let d = afters(m, c, k, i - 1);
        assert(k.take(i) =~= k.take(i - 1).push(k[i - 1]));
        assert((c.tr + k.take(i - 1)).push(k[i - 1]) =~= c.tr + k.take(i));
        assert(d.st.push(succ(m, d.st.last() as int, root(k[i - 1])) as usize).take(c.st.len() as int) =~= d.st.take(c.st.len() as int));
        lemma_yields_split(k.skip(i - 1), 1);
        assert(k.skip(i - 1).skip(1) =~= k.skip(i));
        assert(k.skip(i - 1).take(1) =~= Seq::empty().push(k[i - 1]));
        lemma_yields_push(Seq::empty(), k[i - 1]);
        assert(yields(Seq::<Tree<V, T>>::empty()) + yield_of(k[i - 1]) =~= yield_of(k[i - 1]));
        assert((yields(k.skip(i - 1)) + rest).skip(yield_of(k[i - 1]).len() as int) =~= yields(k.skip(i)) + rest);
    } else {
        assert(c.st.take(c.st.len() as int) =~= c.st);
        assert(k.take(0) =~= Seq::empty());
        assert(c.tr + Seq::<Tree<V, T>>::empty() =~= c.tr);
        assert(k.skip(0) =~= k);
    }
}
pub open spec fn item0<T>(x: T, p: Rc<Production<T>>) -> Position<T> { Position { rule: x, seq: p, point: 0, look: bset(Set::empty()) } }
pub open spec fn itemn<T>(x: T, p: Rc<Production<T>>, i: int) -> Position<T> { Position { rule: x, seq: p, point: i as usize, look: bset(Set::empty()) } }
/// State `s` reads `x` when `b` follows.
pub open spec fn expects<V, T>(m: Auto<T>, s: usize, x: Tree<V, T>, b: T) -> bool {
    s < m.states.len() && has_top(m, s as int, root(x)) && match x { Tree::Leaf(_) => true, Tree::Node(n, p, _) => la(m, s as int, item0(n, p), Some(b)) }
}
/// Reading the children: the item moves along.
pub proof fn lemma_kids<V, T>(m: Auto<T>, acts: Acts<T>, eof: T, c: Cfg<V, T>, x: Tree<V, T>, rest: Seq<Token<V, T>>, i: int)
    requires tab(m, acts, eof), x is Node, valid(m.g, x), 0 <= i <= kids(x).len(), c.buf == yields(kids(x)) + rest, c.st.len() == c.tr.len() + 1,
        c.st.last() < m.states.len(), la(m, c.st.last() as int, item0(x->Node_0, x->Node_1), Some(look_of(rest, eof)))
    ensures comes(acts, eof, c, afters(m, c, kids(x), i)), afters(m, c, kids(x), i).st.last() < m.states.len(),
        la(m, afters(m, c, kids(x), i).st.last() as int, itemn(x->Node_0, x->Node_1, i), Some(look_of(rest, eof)))
    decreases x, i
{
    let k = kids(x); let n = x->Node_0; let p = x->Node_1; let b = look_of(rest, eof);
    let d0 = afters(m, c, k, i);
    lemma_afters(m, c, k, rest, i);
    if i == 0 { assert(iter(acts, eof, c, 0) == Out::Run(c)); }
    else {
        lemma_kids(m, acts, eof, c, x, rest, i - 1);
        lemma_afters(m, c, k, rest, i - 1);
        let d = afters(m, c, k, i - 1);
        let y = k[i - 1];
        let r = yields(k.skip(i)) + rest;
        let it = itemn(n, p, i - 1);
        let s = d.st.last();
        assert(valid(m.g, y) && root(y) == p.0@[i - 1]);
        assert(p.0.len() <= usize::MAX);
        assert(top(it) == Some(root(y)));
        let w = choose|w: Position<T>| m.states[s as int]@.contains(w) && #[trigger] la1(m, w, it, Some(b));
        lemma_core(w); lemma_core(it);
        assert(top(w) == Some(root(y)));
        assert(has_top(m, s as int, root(y)));
        lemma_yields_split(k.skip(i - 1), 1);
        assert(k.skip(i - 1).skip(1) =~= k.skip(i));
        assert(k.skip(i - 1).take(1) =~= Seq::empty().push(y));
        lemma_yields_push(Seq::empty(), y);
        assert(yields(Seq::<Tree<V, T>>::empty()) + yield_of(y) =~= yield_of(y));
        assert(d.buf =~= yield_of(y) + r);
        let b2 = look_of(r, eof);
        match y {
            Tree::Leaf(_) => {},
            Tree::Node(yn, yp, _) => {
                let it2 = item0(yn, yp);
                lemma_bset_view(Set::<T>::empty());
                lemma_core(it2);
                if i < k.len() {
                    let z = k[i];
                    assert(valid(m.g, z) && root(z) == p.0@[i]);
                    lemma_yield_first(m.g, z);
                    lemma_yields_split(k.skip(i), 1);
                    assert(k.skip(i).take(1) =~= Seq::empty().push(z));
                    lemma_yields_push(Seq::empty(), z);
                    assert(yields(Seq::<Tree<V, T>>::empty()) + yield_of(z) =~= yield_of(z));
                    assert(r[0] == yield_of(z)[0]);
                    lemma_first_of_sym(m.g, root(z), b2);
                    assert(next_of(it) == Some(root(z)));
                } else {
                    assert(k.skip(i) =~= Seq::empty());
                    assert(r =~= rest);
                    assert(next_of(it) is None);
                }
                assert(astep(m.g, it, Some(b), it2, Some(b2)));
                assert(la(m, s as int, it2, Some(b2)));
            },
        }
        lemma_tree(m, acts, eof, d, y, r);
        lemma_comes(acts, eof, c, d, d0);
        assert(adv(it) == itemn(n, p, i));
        assert(la(m, succ(m, s as int, root(y)), adv(it), Some(b)));
    }
}
/// Reading a tree.
pub proof fn lemma_tree<V, T>(m: Auto<T>, acts: Acts<T>, eof: T, c: Cfg<V, T>, x: Tree<V, T>, rest: Seq<Token<V, T>>)
    requires tab(m, acts, eof), valid(m.g, x), c.buf == yield_of(x) + rest, c.st.len() == c.tr.len() + 1, c.st.len() >= 1, expects(m, c.st.last(), x, look_of(rest, eof))
    ensures comes(acts, eof, c, after(m, c, x)), 1 <= succ(m, c.st.last() as int, root(x)) < m.states.len()
    decreases x, kids(x).len() + 1
{
    let s = c.st.last(); let b = look_of(rest, eof);
    let w = choose|w: Position<T>| m.states[s as int]@.contains(w) && #[trigger] top(w) == Some(root(x));
    lemma_goto_nonempty(m.states[s as int], w);
    lemma_e_state::<T>();
    assert(edge(m, s as int, root(x), succ(m, s as int, root(x))));
    match x {
        Tree::Leaf(t) => {
            lemma_demand(m, acts, eof, s, w, t.ty);
            assert(yield_of(x) =~= Seq::empty().push(t));
            assert(c.buf[0] == t);
            assert(c.buf.skip(1) =~= after(m, c, x).buf);
            lemma_iter_one(acts, eof, c);
            assert(step(acts, eof, c) == Out::Run(after(m, c, x)) || conflicted(step(acts, eof, c)));
        },
        Tree::Node(n, p, k) => {
            lemma_yield_node(x);
            let l = k.len() as int;
            lemma_kids(m, acts, eof, c, x, rest, l);
            lemma_afters(m, c, k, rest, l);
            let d = afters(m, c, k, l);
            let e = after(m, c, x);
            let it = itemn(n, p, l);
            assert(p.0.len() <= usize::MAX);
            let z = d.st.last();
            let q = choose|q: Position<T>| m.states[z as int]@.contains(q) && #[trigger] la1(m, q, it, Some(b));
            lemma_core(q); lemma_core(it);
            assert(top(q) is None);
            assert(item_ok(m.g, w));
            lemma_top_not_start(m.g, w);
            assert(k.skip(l) =~= Seq::empty());
            assert(d.buf =~= rest);
            lemma_demand(m, acts, eof, z, q, b);
            lemma_goto_cell(m, acts, eof, s, n);
            assert(popped(d, l) =~= c.st);
            assert(k.take(l) =~= k);
            assert(d.tr.take(d.tr.len() - l) =~= c.tr);
            assert(d.tr.skip(d.tr.len() - l) =~= k);
            assert(rest =~= e.buf);
            lemma_iter_one(acts, eof, d);
            assert(step(acts, eof, d) == Out::Run(e) || conflicted(step(acts, eof, d)));
            assert(comes(acts, eof, d, e));
            lemma_comes(acts, eof, c, d, e);
        },
    }
}
/// A sentence is accepted, with its own tree, unless there is a conflict on the way.
pub open spec fn accepts_as<V, T>(acts: Acts<T>, eof: T, input: Seq<Token<V, T>>, x: Tree<V, T>, n: nat) -> bool {
    match iter(acts, eof, init(input), n) { Out::Acc(d) => d.tr == kids(x), o => conflicted(o) }
}
pub proof fn lemma_complete<V, T>(m: Auto<T>, acts: Acts<T>, eof: T, input: Seq<Token<V, T>>, x: Tree<V, T>)
    requires tab(m, acts, eof), parse_tree(m.g, input, x)
    ensures exists|n: nat| #[trigger] accepts_as(acts, eof, input, x, n)
{
    let c = init(input); let g = m.g;
    let p = x->Node_1; let k = kids(x);
    let rest = Seq::<Token<V, T>>::empty();
    lemma_start_prod(g, root(x), rcv(p));
    assert(p == g.basis.seq);
    lemma_yield_node(x);
    assert(c.buf =~= yields(k) + rest);
    lemma_core(g.basis);
    assert(item0(g.basis.rule, p) == core(g.basis));
    let l = k.len() as int;
    lemma_kids(m, acts, eof, c, x, rest, l);
    lemma_afters(m, c, k, rest, l);
    let d = afters(m, c, k, l);
    let z = d.st.last();
    let it = itemn(g.basis.rule, p, l);
    assert(p.0.len() <= usize::MAX);
    let q = choose|q: Position<T>| m.states[z as int]@.contains(q) && #[trigger] la1(m, q, it, Some(eof));
    lemma_core(q); lemma_core(it);
    lemma_demand(m, acts, eof, z, q, eof);
    assert(k.skip(l) =~= Seq::empty());
    assert(d.buf =~= rest);
    assert(k.take(l) =~= k);
    assert(d.tr =~= k);
    lemma_prod_nonempty(g, g.basis.rule, rcv(p));
    lemma_iter_one(acts, eof, d);
    let n = choose|n: nat| (#[trigger] iter(acts, eof, c, n)) == Out::Run(d) || conflicted(iter(acts, eof, c, n));
    if conflicted(iter(acts, eof, c, n)) { assert(accepts_as(acts, eof, input, x, n)); }
    else { lemma_iter_comp(acts, eof, c, n, d, 1); assert(accepts_as(acts, eof, input, x, n + 1)); }
}
} // mod th_parse
pub use th_parse::*;
