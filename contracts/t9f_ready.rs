
// ===================================================================================================
// The tables that `new` returns are ready to parse.
// ===================================================================================================
pub mod th_ready {
use super::*;
broadcast use {model::group_model, th_grammar::group_base};

/// A table as a parser holds it: ready for its grammar, with at most one row per state.
pub open spec fn built<T>(t: Tabler<T>) -> bool { ready(t.grammar, t.actions@) && t.actions@.len() <= t.states@.len() }
pub proof fn lemma_clr_ready<T>(t: Tabler<T>)
    requires tbase(t), gpre(t.grammar), kgraph(t, true), table_exact(auto_clr(t), t.actions@) ensures built(t)
{ lemma_clr_auto(t); assert(t.states.len() == t.states@.len()); lemma_tab_ready(auto_clr(t), t.actions@); }
pub proof fn lemma_slr_ready<T>(t: Tabler<T>)
    requires tbase(t), gpre(t.grammar), kgraph(t, false), table_exact(auto_slr(t), t.actions@) ensures built(t)
{ lemma_slr_auto(t); assert(t.states.len() == t.states@.len()); lemma_tab_ready(auto_slr(t), t.actions@); }
pub proof fn lemma_lalr_ready<T>(t: Tabler<T>, raws: BMap<State<T>, State<T>>)
    requires tbase(t), gpre(t.grammar), lgraph(t, raws@), table_exact(auto_lalr(t, raws), t.actions@) ensures built(t)
{ lemma_lalr_auto(t, raws); assert(t.states.len() == t.states@.len()); lemma_tab_ready(auto_lalr(t, raws), t.actions@); }
pub proof fn lemma_built_gpre<T>(t: Tabler<T>)
    requires built(t) ensures gpre(t.grammar)
{ let (m, old, f) = choose|m: Auto<T>, old: Acts<T>, f: Map<usize, usize>| #[trigger] from_tab(t.grammar, m, old, f, t.actions@); }
pub proof fn lemma_built_merged<T>(t: Tabler<T>, u: Tabler<T>, f: Map<usize, usize>)
    requires built(t), same_but_actions(u, t), merged(t.actions@, f, u.actions@) ensures built(u)
{ lemma_ready_merged(t.grammar, t.actions@, f, u.actions@); }
/// What a driver of a parser is made of.
pub open spec fn made_of<V, T>(d: Dfa<V, T>, t: Tabler<T>, input: Seq<Token<V, T>>) -> bool {
    d.table == t.actions && d.eof == eof_of(t.grammar) && d.buffer@ == input && fresh(d)
}
/// C14, C17 and the preconditions of the driver, for a driver made of a ready table.
pub proof fn lemma_made<V, T>(t: Tabler<T>, red: ReductMap<V, T>, input: Seq<Token<V, T>>)
    requires built(t), reds_full(t.grammar, red)
    ensures safe(t.actions@, eof_of(t.grammar), input), reds_ok(t.actions@, red),
        noconf(t.actions@) && reduced(t.grammar) ==> ends(t.actions@, eof_of(t.grammar), input)
{
    lemma_ready_safe(t.grammar, t.actions@, input);
    lemma_ready_reds(t.grammar, t.actions@, red);
    if noconf(t.actions@) && reduced(t.grammar) { lemma_ready_ends(t.grammar, t.actions@, input); }
}
/// What is left of a run: the value of the last item, or the error.
pub open spec fn res_of<V, T>(e: Dfa<V, T>, q: BaseResult<(), Error<T>>) -> BaseResult<V, Error<T>> {
    match q { Ok(_) => Ok(e.items@.last().item), Err(x) => Err(x) }
}
/// A run of a driver made of a ready table has everything the properties ask for.
pub proof fn lemma_ran_parsed<V, T>(t: Tabler<T>, red: ReductMap<V, T>, input: Seq<Token<V, T>>, d: Dfa<V, T>, e: Dfa<V, T>, q: BaseResult<(), Error<T>>)
    requires built(t), reds_full(t.grammar, red), made_of(d, t, input), d.reductors == red, ran(d, e, q)
    ensures q is Ok ==> e.items@.len() > 0, outcome(t.actions@, eof_of(t.grammar), input, red, res_of(e, q)), parsed(t.grammar, t.actions@, input, red, res_of(e, q))
{
    let n = choose|n: nat| stands(e, #[trigger] iter(d.table@, d.eof, init(d.buffer@), n), q);
    match iter(d.table@, d.eof, init(d.buffer@), n) {
        Out::Acc(c) => {
            let k = c.tr.len() - 1;
            assert(evals(red, c.tr[k], e.items@[k]));
            lemma_tree_eval(red, c.tr[k], e.items@[k]);
            assert(Token { item: e.items@[k].item, ty: root(c.tr[k]) } == e.items@[k]);
        },
        _ => {},
    }
    assert(concludes(iter(t.actions@, eof_of(t.grammar), init(input), n), red, res_of(e, q)));
    lemma_parsed(t.grammar, t.actions@, input, red, res_of(e, q));
}
/// C15 for whole parsers: the results on a merged table are those on the table it was made from.
pub proof fn lemma_merged_same<V, T>(g: Grammar<T>, old: Acts<T>, f: Map<usize, usize>, new: Acts<T>, input: Seq<Token<V, T>>, red: ReductMap<V, T>, r: BaseResult<V, Error<T>>, s: BaseResult<V, Error<T>>)
    requires ready(g, old), merged(old, f, new), outcome(old, eof_of(g), input, red, r), outcome(new, eof_of(g), input, red, s)
    ensures agree(red, relab_res(f, r), s), rng(new), new.len() <= old.len()
{
    lemma_ready_rng(g, old);
    lemma_merge_outcome(old, f, new, eof_of(g), input, red, r);
    lemma_agree(new, eof_of(g), input, red, relab_res(f, r), s);
    lemma_merged_rng(old, f, new);
}
} // mod th_ready
pub use th_ready::*;
