
// ===================================================================================================
// What a parse with a table of the library returns (C07-C15, C17), from the runs of the machine.
// ===================================================================================================
pub mod th_result {
use super::*;
broadcast use {model::group_model, th_grammar::group_base};

/// One semantic function per production.
pub open spec fn reds_full<V, T>(g: Grammar<T>, red: ReductMap<V, T>) -> bool {
    forall|x: T, p: Production<T>| #[trigger] is_prod(g, x, p) ==> red@.contains_key(x) && p.1 < red@[x]@.len()
}
pub open spec fn accepted<V, T>(o: Out<V, T>) -> bool { o is Acc }
pub open spec fn accepts<V, T>(acts: Acts<T>, eof: T, input: Seq<Token<V, T>>) -> bool { exists|n: nat| accepted(#[trigger] iter(acts, eof, init(input), n)) }

/// C07
pub open spec fn only_sentences<V, T>(g: Grammar<T>, input: Seq<Token<V, T>>, r: BaseResult<V, Error<T>>) -> bool { r is Ok ==> sentence(g, input) }
/// C08-C10
pub open spec fn all_sentences<V, T>(g: Grammar<T>, acts: Acts<T>, input: Seq<Token<V, T>>, r: BaseResult<V, Error<T>>) -> bool {
    sentence(g, input) ==> r is Ok || (r is Err && r->Err_0 is Conflict && !noconf(acts))
}
/// C11
pub open spec fn evaluates<V, T>(g: Grammar<T>, red: ReductMap<V, T>, input: Seq<Token<V, T>>, x: Tree<V, T>, v: V) -> bool {
    parse_tree(g, input, x) && kids(x).len() > 0 && evals(red, kids(x).last(), Token { item: v, ty: root(kids(x).last()) })
}
pub open spec fn evaluated<V, T>(g: Grammar<T>, red: ReductMap<V, T>, input: Seq<Token<V, T>>, r: BaseResult<V, Error<T>>) -> bool {
    r is Ok ==> exists|x: Tree<V, T>| #[trigger] evaluates(g, red, input, x, r->Ok_0)
}
/// C12
pub open spec fn is_conflict<T>(acts: Acts<T>, s: usize, a: T, x: Action<T>, y: Action<T>) -> bool { cell(acts, s, a) == Some(Action::Conflict(Box::new(x), Box::new(y))) }
pub open spec fn err_kind<V, T>(acts: Acts<T>, eof: T, input: Seq<Token<V, T>>, r: BaseResult<V, Error<T>>) -> bool {
    match r {
        Ok(_) => true,
        Err(Error::UnexpectedToken(..)) => true,
        Err(Error::Conflict(x, y)) => exists|s: usize, a: T| #[trigger] is_conflict(acts, s, a, x, y),
        Err(Error::IncompleteExec) => exists|i: int| 0 <= i < input.len() && (#[trigger] input[i]).ty == eof,
        _ => false,
    }
}
/// C13
pub open spec fn accurate<V, T>(g: Grammar<T>, acts: Acts<T>, eof: T, input: Seq<Token<V, T>>, r: BaseResult<V, Error<T>>) -> bool {
    r is Err && r->Err_0 is UnexpectedToken ==> exists|d: Cfg<V, T>| #[trigger] refused(g, acts, eof, input, d, r->Err_0)
}
pub open spec fn decided<V, T>(acts: Acts<T>, eof: T, input: Seq<Token<V, T>>, r: BaseResult<V, Error<T>>) -> bool { r is Ok <==> accepts(acts, eof, input) }
/// Everything above.
pub open spec fn parsed<V, T>(g: Grammar<T>, acts: Acts<T>, input: Seq<Token<V, T>>, red: ReductMap<V, T>, r: BaseResult<V, Error<T>>) -> bool {
    &&& only_sentences(g, input, r)
    &&& all_sentences(g, acts, input, r)
    &&& evaluated(g, red, input, r)
    &&& err_kind(acts, eof_of(g), input, r)
    &&& accurate(g, acts, eof_of(g), input, r)
    &&& decided(acts, eof_of(g), input, r)
}
pub proof fn lemma_ready_safe<V, T>(g: Grammar<T>, acts: Acts<T>, input: Seq<Token<V, T>>)
    requires ready(g, acts) ensures safe(acts, eof_of(g), input)
{
    let (m, old, f) = choose|m: Auto<T>, old: Acts<T>, f: Map<usize, usize>| #[trigger] from_tab(g, m, old, f, acts);
    assert forall|n: nat| !(#[trigger] iter(acts, eof_of(g), init(input), n) is Stuck) by {
        lemma_run(m, old, eof_of(g), input, n);
        lemma_merge_iter(old, f, acts, eof_of(g), input, n);
    }
}
pub proof fn lemma_ready_reds<V, T>(g: Grammar<T>, acts: Acts<T>, red: ReductMap<V, T>)
    requires ready(g, acts), reds_full(g, red) ensures reds_ok(acts, red)
{
    let (m, old, f) = choose|m: Auto<T>, old: Acts<T>, f: Map<usize, usize>| #[trigger] from_tab(g, m, old, f, acts);
    assert forall|s: usize, a: T| (#[trigger] cell(acts, s, a)) is Some && cell(acts, s, a)->0 is Reduce implies red_has(red, cell(acts, s, a)->0) by {
        assert(img(f, s as int));
        let i = choose|i: usize| #[trigger] f.contains_key(i) && f[i] == s;
        lemma_cell_merged(old, f, acts, i, a);
        let c = cell(old, i, a)->0;
        lemma_cell(m, old, eof_of(g), i, a);
        let p = choose|p: Position<T>| #[trigger] wants(m, i as int, p, a, c);
        let b = rcv(p.seq);
        assert(is_prod(g, p.rule, b));
    }
}
pub proof fn lemma_ready_noconf<T>(old: Acts<T>, f: Map<usize, usize>, acts: Acts<T>)
    requires merged(old, f, acts), noconf(acts) ensures noconf(old)
{
    assert forall|s: usize, a: T| (#[trigger] cell(old, s, a)) is Some implies !(cell(old, s, a)->0 is Conflict) by {
        lemma_cell_merged(old, f, acts, s, a);
        assert(cell(acts, f[s], a) is Some);
    }
}
/// C17
pub proof fn lemma_ready_ends<V, T>(g: Grammar<T>, acts: Acts<T>, input: Seq<Token<V, T>>)
    requires ready(g, acts), noconf(acts), reduced(g) ensures ends(acts, eof_of(g), input)
{
    let (m, old, f) = choose|m: Auto<T>, old: Acts<T>, f: Map<usize, usize>| #[trigger] from_tab(g, m, old, f, acts);
    lemma_ready_noconf(old, f, acts);
    lemma_ends(m, old, eof_of(g), input);
    let n = choose|n: nat| halts_by(old, eof_of(g), input, n);
    lemma_merge_iter(old, f, acts, eof_of(g), input, n);
    assert(halts_by(acts, eof_of(g), input, n));
}
pub proof fn lemma_tree_eval<V, T>(red: ReductMap<V, T>, x: Tree<V, T>, t: Token<V, T>)
    requires evals(red, x, t) ensures t.ty == root(x)
{}
pub proof fn lemma_parsed_ok<V, T>(g: Grammar<T>, acts: Acts<T>, input: Seq<Token<V, T>>, red: ReductMap<V, T>, v: V)
    requires ready(g, acts), outcome(acts, eof_of(g), input, red, Ok::<V, Error<T>>(v)) ensures parsed(g, acts, input, red, Ok::<V, Error<T>>(v))
{
    let r = Ok::<V, Error<T>>(v);
    let eof = eof_of(g);
    let (m, old, f) = choose|m: Auto<T>, old: Acts<T>, f: Map<usize, usize>| #[trigger] from_tab(g, m, old, f, acts);
    let n = choose|n: nat| concludes(#[trigger] iter(acts, eof, init(input), n), red, r);
    lemma_run(m, old, eof, input, n);
    lemma_merge_iter(old, f, acts, eof, input, n);
    let c = iter(old, eof, init(input), n)->Acc_0;
    let x = whole(g, c);
    assert(kids(x) == c.tr);
    assert(evaluates(g, red, input, x, v));
    assert(accepted(iter(acts, eof, init(input), n)));
}
pub proof fn lemma_parsed_err<V, T>(g: Grammar<T>, acts: Acts<T>, input: Seq<Token<V, T>>, red: ReductMap<V, T>, e: Error<T>)
    requires ready(g, acts), outcome(acts, eof_of(g), input, red, Err::<V, Error<T>>(e)) ensures parsed(g, acts, input, red, Err::<V, Error<T>>(e))
{
    let r = Err::<V, Error<T>>(e);
    let eof = eof_of(g);
    let (m, old, f) = choose|m: Auto<T>, old: Acts<T>, f: Map<usize, usize>| #[trigger] from_tab(g, m, old, f, acts);
    let n = choose|n: nat| concludes(#[trigger] iter(acts, eof, init(input), n), red, r);
    lemma_run(m, old, eof, input, n);
    lemma_merge_iter(old, f, acts, eof, input, n);
    let o = iter(old, eof, init(input), n);
    let c = o->Fail_0;
    let e0 = o->Fail_1;
    lemma_inv_st(m, input, c, c.st.len() - 1);
    lemma_cell_merged(old, f, acts, c.st.last(), look_of(c.buf, eof));
    assert(e == relab_err(f, e0));
    // the kind
    match e0 {
        Error::Conflict(x, y) => { assert(is_conflict(acts, f[c.st.last()], look_of(c.buf, eof), relab(f, x), relab(f, y))); },
        Error::IncompleteExec => {
            assert((yields(c.tr) + c.buf)[yields(c.tr).len() as int] == c.buf[0]);
            assert(input[yields(c.tr).len() as int].ty == eof);
        },
        Error::UnexpectedToken(a, b) => {
            lemma_refused(m, old, eof, input, n);
            let d = relab_cfg(f, c);
            assert(d.st.last() == f[c.st.last()]);
            assert(refused(g, acts, eof, input, d, e));
        },
        _ => {},
    }
    assert(err_kind(acts, eof, input, r));
    // never for a sentence, but for a conflict
    if sentence(g, input) {
        let x = choose|x: Tree<V, T>| parse_tree(g, input, x);
        lemma_complete(m, old, eof, input, x);
        let k = choose|k: nat| #[trigger] accepts_as(old, eof, input, x, k);
        lemma_iter_det(old, eof, init(input), n, k);
        assert(conflicted(o));
        let a = look_of(c.buf, eof);
        assert(cell(acts, f[c.st.last()], a) is Some && cell(acts, f[c.st.last()], a)->0 is Conflict);
        assert(!noconf(acts));
    }
    if accepts(acts, eof, input) {
        let k = choose|n: nat| accepted(#[trigger] iter(acts, eof, init(input), n));
        lemma_iter_det(acts, eof, init(input), n, k);
    }
}
/// Everything the properties say about a parse, from the outcome of the machine.
pub proof fn lemma_parsed<V, T>(g: Grammar<T>, acts: Acts<T>, input: Seq<Token<V, T>>, red: ReductMap<V, T>, r: BaseResult<V, Error<T>>)
    requires ready(g, acts), outcome(acts, eof_of(g), input, red, r) ensures parsed(g, acts, input, red, r)
{ match r { Ok(v) => lemma_parsed_ok(g, acts, input, red, v), Err(e) => lemma_parsed_err(g, acts, input, red, e) } }

// ---- C14: the outcomes of two runs on the same input agree
/// The same error, or trees evaluated by the same functions.
pub open spec fn agree<V, T>(red: ReductMap<V, T>, r: BaseResult<V, Error<T>>, s: BaseResult<V, Error<T>>) -> bool {
    match (r, s) {
        (Ok(v), Ok(w)) => exists|x: Tree<V, T>| evals(red, x, Token { item: v, ty: root(x) }) && #[trigger] evals(red, x, Token { item: w, ty: root(x) }),
        (Err(d), Err(e)) => d == e,
        _ => false,
    }
}
pub proof fn lemma_agree<V, T>(acts: Acts<T>, eof: T, input: Seq<Token<V, T>>, red: ReductMap<V, T>, r: BaseResult<V, Error<T>>, s: BaseResult<V, Error<T>>)
    requires outcome(acts, eof, input, red, r), outcome(acts, eof, input, red, s) ensures agree(red, r, s)
{
    let n = choose|n: nat| concludes(#[trigger] iter(acts, eof, init(input), n), red, r);
    let k = choose|n: nat| concludes(#[trigger] iter(acts, eof, init(input), n), red, s);
    lemma_iter_det(acts, eof, init(input), n, k);
    match iter(acts, eof, init(input), n) {
        Out::Acc(c) => { let x = c.tr.last(); assert(evals(red, x, Token { item: r->Ok_0, ty: root(x) }) && evals(red, x, Token { item: s->Ok_0, ty: root(x) })); },
        _ => {},
    }
}
} // mod th_result
pub use th_result::*;
