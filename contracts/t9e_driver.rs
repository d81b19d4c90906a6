
// ===================================================================================================
// What the functions of the driver do (their contracts), and the machine's view of it.
// ===================================================================================================
pub mod th_driver {
use super::*;
broadcast use {model::group_model, th_grammar::group_base};

pub open spec fn same_env<V, T>(a: Dfa<V, T>, b: Dfa<V, T>) -> bool { a.table == b.table && a.reductors == b.reductors && a.eof == b.eof }
/// Nothing changed that the machine can see.
pub open spec fn same_dfa<V, T>(a: Dfa<V, T>, b: Dfa<V, T>) -> bool {
    same_env(a, b) && a.states@ == b.states@ && a.items@ == b.items@ && a.buffer@ == b.buffer@ && a.top == b.top && a.finished == b.finished
}
pub open spec fn cell_at<V, T>(d: Dfa<V, T>, a: T) -> Option<Action<T>> { cell(d.table@, d.top, a) }
/// What an unexpected token is reported with.
pub open spec fn reports<V, T>(d: Dfa<V, T>, a: T, r: BaseResult<(), Error<T>>) -> bool {
    match r { Err(Error::UnexpectedToken(b, es)) => a == b && es@ =~= set_seq(d.table@[d.top as int]@.dom()), _ => true }
}
pub open spec fn refuses<T>(r: BaseResult<(), Error<T>>) -> bool { r is Err && r->Err_0 is UnexpectedToken }
pub open spec fn shift_ctl<V, T>(d: Dfa<V, T>, to: usize, e: Dfa<V, T>, r: BaseResult<(), Error<T>>) -> bool {
    if d.buffer@.len() == 0 { same_dfa(d, e) && r == Err::<(), Error<T>>(Error::UnexpectedEof) } else {
        same_env(d, e) && r is Ok && e.states@ == d.states@.push(to) && e.top == to && e.items@.len() == d.items@.len() + 1 && e.buffer@ == d.buffer@.skip(1) && e.finished == d.finished
    }
}
pub open spec fn shift_val<V, T>(d: Dfa<V, T>, e: Dfa<V, T>) -> bool { d.buffer@.len() > 0 ==> e.items@ == d.items@.push(d.buffer@[0]) }
pub open spec fn goes<V, T>(d: Dfa<V, T>, to: usize, e: Dfa<V, T>, r: BaseResult<(), Error<T>>) -> bool {
    same_env(d, e) && r is Ok && e.states@ == d.states@.push(to) && e.top == to && e.items@ == d.items@ && e.buffer@ == d.buffer@ && e.finished == d.finished
}
pub open spec fn ends_run<V, T>(d: Dfa<V, T>, e: Dfa<V, T>, r: BaseResult<(), Error<T>>) -> bool {
    same_env(d, e) && e.states@ == d.states@ && e.top == d.top && e.items@ == d.items@ && e.buffer@ == d.buffer@ && e.finished
        && r == if d.buffer@.len() == 0 { Ok::<(), Error<T>>(()) } else { Err::<(), Error<T>>(Error::IncompleteExec) }
}
/// The state below the items of a production.
pub open spec fn below<V, T>(d: Dfa<V, T>, n: int) -> usize { d.states@[d.states@.len() - n - 1] }
pub open spec fn goto_at<V, T>(d: Dfa<V, T>, n: int, name: T) -> Option<Action<T>> { cell(d.table@, below(d, n), name) }
pub open spec fn can_reduce<V, T>(d: Dfa<V, T>, name: T, prod: Production<T>) -> bool {
    let n = prod.0@.len();
    &&& d.states@.len() == d.items@.len() + 1 && n <= d.items@.len()
    &&& d.reductors@.contains_key(name) && prod.1 < d.reductors@[name]@.len()
    &&& goto_at(d, n as int, name) is Some && goto_at(d, n as int, name)->0 is Goto
}
pub open spec fn reduce_ctl<V, T>(d: Dfa<V, T>, name: T, prod: Production<T>, e: Dfa<V, T>, r: BaseResult<(), Error<T>>) -> bool {
    let n = prod.0@.len() as int;
    &&& r is Ok && e.items@.len() == d.items@.len() - n + 1
    &&& e.states@ == d.states@.take(d.states@.len() - n).push(goto_at(d, n, name)->0->Goto_0) && e.top == goto_at(d, n, name)->0->Goto_0
    &&& same_env(d, e) && e.buffer@ == d.buffer@ && e.finished == d.finished
}
/// The last items become one, valued by the function of the production.
pub open spec fn reduce_val<V, T>(d: Dfa<V, T>, name: T, prod: Production<T>, e: Dfa<V, T>) -> bool {
    let k = d.items@.len() - prod.0@.len();
    &&& e.items@.len() > 0 && e.items@ == d.items@.take(k).push(e.items@.last())
    &&& e.items@.last().ty == name && d.reductors@[name]@[prod.1 as int].rel(d.items@.skip(k), e.items@.last().item)
}
/// The action of `symbol` in the current state can be taken.
pub open spec fn can_travel<V, T>(d: Dfa<V, T>, a: T) -> bool {
    match cell_at(d, a) { Some(Action::Reduce(x, p)) => can_reduce(d, x, *p), _ => true }
}
pub open spec fn travel_ctl<V, T>(d: Dfa<V, T>, a: T, e: Dfa<V, T>, r: BaseResult<(), Error<T>>) -> bool {
    if d.top >= d.table@.len() { same_dfa(d, e) && r == Err::<(), Error<T>>(Error::StateNotSpecified) } else {
        match cell_at(d, a) {
            None => same_dfa(d, e) && refuses(r),
            Some(Action::Shift(to)) => shift_ctl(d, to, e, r),
            Some(Action::Goto(to)) => if d.items@.len() < d.states@.len() { same_dfa(d, e) && refuses(r) } else { goes(d, to, e, r) },
            Some(Action::Reduce(x, p)) => reduce_ctl(d, x, *p, e, r),
            Some(Action::Acc) => ends_run(d, e, r),
            Some(Action::Conflict(x, y)) => same_dfa(d, e) && r == Err::<(), Error<T>>(Error::Conflict(*x, *y)),
        }
    }
}
pub open spec fn travel_val<V, T>(d: Dfa<V, T>, a: T, e: Dfa<V, T>) -> bool {
    d.top < d.table@.len() ==> match cell_at(d, a) {
        Some(Action::Shift(_)) => shift_val(d, e),
        Some(Action::Reduce(x, p)) => reduce_val(d, x, *p, e),
        _ => true,
    }
}
pub open spec fn travels<V, T>(d: Dfa<V, T>, a: T, e: Dfa<V, T>, r: BaseResult<(), Error<T>>) -> bool {
    travel_ctl(d, a, e, r) && travel_val(d, a, e) && reports(d, a, r)
}
pub open spec fn travel_rank<V, T>(d: Dfa<V, T>, a: T) -> nat { if cell_at(d, a) is Some && cell_at(d, a)->0 is Reduce { 2 } else { 0 } }

/// A driver at the beginning of a run.
pub open spec fn fresh<V, T>(d: Dfa<V, T>) -> bool { d.states@.len() == 1 && d.states@[0] == 0 && d.items@.len() == 0 && d.top == 0 && !d.finished }
/// The driver `d` is at the configuration `c` of the machine.
pub open spec fn is_at<V, T>(d: Dfa<V, T>, c: Cfg<V, T>) -> bool {
    d.states@ == c.st && c.st.len() > 0 && d.top == c.st.last() && d.buffer@ == c.buf && evs(d.reductors, c.tr, d.items@)
}
pub open spec fn stands<V, T>(e: Dfa<V, T>, o: Out<V, T>, r: BaseResult<(), Error<T>>) -> bool {
    match o {
        Out::Acc(c) => r is Ok && c.tr.len() > 0 && is_at(e, c),
        Out::Fail(c, x) => r == Err::<(), Error<T>>(x) && is_at(e, c),
        _ => false,
    }
}
/// The run from `d` to `e` is the one of the machine.
pub open spec fn ran<V, T>(d: Dfa<V, T>, e: Dfa<V, T>, r: BaseResult<(), Error<T>>) -> bool {
    same_env(d, e) && exists|n: nat| stands(e, #[trigger] iter(d.table@, d.eof, init(d.buffer@), n), r)
}
pub open spec fn loop_ok<V, T>(d0: Dfa<V, T>, d: Dfa<V, T>, c: Cfg<V, T>, k: nat) -> bool {
    if d.finished { stands(d, iter(d0.table@, d0.eof, init(d0.buffer@), k), Ok::<(), Error<T>>(())) }
    else { iter(d0.table@, d0.eof, init(d0.buffer@), k) == Out::Run(c) && is_at(d, c) && c.st.len() == c.tr.len() + 1 }
}
pub proof fn lemma_red_evs<V, T>(red: ReductMap<V, T>, f: Seq<Tree<V, T>>, ts: Seq<Token<V, T>>, n: int)
    requires evs(red, f, ts), 0 <= n <= f.len()
    ensures evs(red, f.take(n), ts.take(n)), evs(red, f.skip(n), ts.skip(n))
{
    assert forall|i: int| 0 <= i < f.len() - n implies evals(red, #[trigger] f.skip(n)[i], ts.skip(n)[i]) by { assert(evals(red, f[i + n], ts[i + n])); }
}
pub proof fn lemma_evs_push<V, T>(red: ReductMap<V, T>, f: Seq<Tree<V, T>>, ts: Seq<Token<V, T>>, x: Tree<V, T>, t: Token<V, T>)
    requires evs(red, f, ts), evals(red, x, t) ensures evs(red, f.push(x), ts.push(t))
{
    assert forall|i: int| 0 <= i < f.len() + 1 implies evals(red, #[trigger] f.push(x)[i], ts.push(t)[i]) by { if i < f.len() { assert(evals(red, f[i], ts[i])); } }
}
pub proof fn lemma_node_evals<V, T>(red: ReductMap<V, T>, x: T, p: Rc<Production<T>>, k: Seq<Tree<V, T>>, ts: Seq<Token<V, T>>, tok: Token<V, T>)
    requires evs(red, k, ts), tok.ty == x, red@.contains_key(x), p.1 < red@[x]@.len(), red@[x]@[p.1 as int].rel(ts, tok.item)
    ensures evals(red, Tree::Node(x, p, k), tok)
{}
/// The next action can be taken, as the machine is not stuck.
pub proof fn lemma_can_travel<V, T>(d: Dfa<V, T>, c: Cfg<V, T>, a: T)
    requires is_at(d, c), reds_ok(d.table@, d.reductors), a == look_of(c.buf, d.eof), !(step(d.table@, d.eof, c) is Stuck)
    ensures can_travel(d, a), d.top < d.table@.len(), d.items@.len() + 1 == d.states@.len()
{
    match cell_at(d, a) {
        Some(Action::Reduce(x, p)) => {
            assert(cell(d.table@, c.st.last(), a) is Some);
            assert(red_has(d.reductors, cell(d.table@, c.st.last(), a)->0));
            assert(popped(c, p.0@.len() as int).last() == below(d, p.0@.len() as int));
        },
        _ => {},
    }
}
pub proof fn lemma_fresh<V, T>(d: Dfa<V, T>)
    requires fresh(d) ensures is_at(d, init(d.buffer@))
{ assert(d.states@ =~= Seq::empty().push(0usize)); }
pub open spec fn out_next<V, T>(o: Out<V, T>, c: Cfg<V, T>) -> Cfg<V, T> { match o { Out::Run(x) => x, _ => c } }
pub open spec fn did<V, T>(d: Dfa<V, T>, c: Cfg<V, T>, e: Dfa<V, T>, r: BaseResult<(), Error<T>>) -> bool {
    &&& same_env(d, e)
    &&& r is Err ==> stands(e, step(d.table@, d.eof, c), r)
    &&& r is Ok && e.finished ==> stands(e, step(d.table@, d.eof, c), Ok::<(), Error<T>>(()))
    &&& r is Ok && !e.finished ==> step(d.table@, d.eof, c) is Run && is_at(e, step(d.table@, d.eof, c)->Run_0) && (step(d.table@, d.eof, c)->Run_0).st.len() == (step(d.table@, d.eof, c)->Run_0).tr.len() + 1
}
pub proof fn lemma_not_yet<V, T>(acts: Acts<T>, eof: T, input: Seq<Token<V, T>>, c: Cfg<V, T>, k: nat)
    requires iter(acts, eof, init(input), k) == Out::Run(c) ensures forall|n: nat| #[trigger] halts_by(acts, eof, input, n) ==> k + 1 <= n
{
    assert forall|n: nat| #[trigger] halts_by(acts, eof, input, n) implies k + 1 <= n by { if n <= k { lemma_iter_stays(acts, eof, init(input), n, k); } }
}
/// What `travel` did is what the machine does.
pub proof fn lemma_did<V, T>(d: Dfa<V, T>, c: Cfg<V, T>, a: T, e: Dfa<V, T>, r: BaseResult<(), Error<T>>)
    requires is_at(d, c), reds_ok(d.table@, d.reductors), a == look_of(c.buf, d.eof), !(step(d.table@, d.eof, c) is Stuck), travels(d, a, e, r), !d.finished
    ensures did(d, c, e, r),
{
    lemma_can_travel(d, c, a);
    let o = step(d.table@, d.eof, c);
    match cell_at(d, a) {
        Some(Action::Shift(to)) => { lemma_evs_push(d.reductors, c.tr, d.items@, Tree::Leaf(c.buf[0]), c.buf[0]); },
        Some(Action::Reduce(x, p)) => {
            let n = p.0@.len() as int;
            let tok = e.items@.last();
            let k = c.tr.len() - n;
            lemma_red_evs(d.reductors, c.tr, d.items@, k);
            assert(popped(c, n).last() == below(d, n));
            let y = Tree::Node(x, p, c.tr.skip(k));
            assert(cell(d.table@, c.st.last(), a) is Some);
            assert(red_has(d.reductors, cell(d.table@, c.st.last(), a)->0));
            let ts = d.items@.skip(k);
            assert(d.reductors@[x]@[p.1 as int].rel(ts, tok.item));
            let ks = c.tr.skip(k);
            assert(ts.len() == ks.len());
            assert forall|i: int| 0 <= i < ks.len() implies evals(d.reductors, #[trigger] ks[i], ts[i]) by {}
            lemma_node_evals(d.reductors, x, p, ks, ts, tok);
            lemma_evs_push(d.reductors, c.tr.take(k), d.items@.take(k), y, tok);
        },
        _ => {},
    }
}
// ---- tokens and default semantic functions
pub open spec fn typed<T>(s: Seq<Token<(), T>>, it: Seq<T>) -> bool { s.len() == it.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ty == it[i] }
pub open spec fn frow<V, T>(g: Grammar<T>, m: Map<T, Vec<ReductFn<V, T>>>, i: int) -> bool {
    let x = set_seq(g.rules@.dom())[i];
    m.contains_key(x) && m[x]@.len() == g.rules@[x].prods@.len()
}
/// The first n rules have a function for each production.
pub open spec fn frows<V, T>(g: Grammar<T>, m: Map<T, Vec<ReductFn<V, T>>>, n: int) -> bool { rules_wf(g.rules@) ==> forall|i: int| 0 <= i < n ==> #[trigger] frow(g, m, i) }
pub proof fn lemma_frows<V, T>(g: Grammar<T>, red: ReductMap<V, T>)
    requires rules_wf(g.rules@), frows(g, red@, set_seq(g.rules@.dom()).len() as int) ensures reds_full(g, red)
{
    let d = set_seq(g.rules@.dom());
    assert forall|x: T, p: Production<T>| #[trigger] is_prod(g, x, p) implies red@.contains_key(x) && p.1 < red@[x]@.len() by {
        let i = set_idx(g.rules@.dom(), x);
        assert(g.rules@.dom().contains(x));
        assert(d[i] == x);
        assert(frow(g, red@, i));
        assert(rule_wf(g.rules@[x]));
    }
}
} // mod th_driver
pub use th_driver::*;
