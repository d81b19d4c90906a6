
// ===================================================================================================
// Parse trees, and the LR machine that a table describes: what the driver is specified against.
// ===================================================================================================
pub mod th_machine {
use super::*;
broadcast use {model::group_model, th_grammar::group_base};

#[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(T)] pub enum Tree<V, T> { Leaf(Token<V, T>), Node(T, Rc<Production<T>>, Seq<Tree<V, T>>) }

pub open spec fn root<V, T>(x: Tree<V, T>) -> T { match x { Tree::Leaf(t) => t.ty, Tree::Node(n, _, _) => n } }
pub open spec fn kids<V, T>(x: Tree<V, T>) -> Seq<Tree<V, T>> { match x { Tree::Leaf(_) => Seq::empty(), Tree::Node(_, _, k) => k } }
/// The tokens of a tree, and of its first `n` children.
pub open spec fn yield_of<V, T>(x: Tree<V, T>) -> Seq<Token<V, T>> decreases x, kids(x).len() + 1 {
    match x { Tree::Leaf(t) => Seq::empty().push(t), Tree::Node(_, _, k) => yield_upto(x, k.len() as int) }
}
pub open spec fn yield_upto<V, T>(x: Tree<V, T>, n: int) -> Seq<Token<V, T>> decreases x, n {
    match x {
        Tree::Leaf(_) => Seq::empty(),
        Tree::Node(_, _, k) => if 0 < n <= k.len() { yield_upto(x, n - 1) + yield_of(k[n - 1]) } else { Seq::empty() },
    }
}
pub open spec fn yields<V, T>(f: Seq<Tree<V, T>>) -> Seq<Token<V, T>> decreases f.len() {
    if f.len() == 0 { Seq::empty() } else { yields(f.drop_last()) + yield_of(f.last()) }
}
/// `x` is a parse tree of the grammar.
pub open spec fn valid<V, T>(g: Grammar<T>, x: Tree<V, T>) -> bool decreases x {
    match x {
        Tree::Leaf(t) => !nonterm(g, t.ty),
        Tree::Node(n, p, k) => is_prod(g, n, *p) && k.len() == p.0@.len()
            && forall|i: int| 0 <= i < k.len() ==> valid(g, #[trigger] k[i]) && root(k[i]) == p.0@[i],
    }
}
/// `z` is a sentence of the grammar: `x` is a parse tree of it.
pub open spec fn parse_tree<V, T>(g: Grammar<T>, z: Seq<Token<V, T>>, x: Tree<V, T>) -> bool { x is Node && valid(g, x) && root(x) == g.basis.rule && yield_of(x) == z }
pub open spec fn sentence<V, T>(g: Grammar<T>, z: Seq<Token<V, T>>) -> bool { exists|x: Tree<V, T>| parse_tree(g, z, x) }

/// `tok` is what the semantic functions make of the tree `x`.
pub open spec fn evals<V, T>(red: ReductMap<V, T>, x: Tree<V, T>, tok: Token<V, T>) -> bool decreases x {
    match x {
        Tree::Leaf(t) => tok == t,
        Tree::Node(n, p, k) => tok.ty == n && red@.contains_key(n) && p.1 < red@[n]@.len() && exists|ts: Seq<Token<V, T>>| #[trigger] red@[n]@[p.1 as int].rel(ts, tok.item)
            && ts.len() == k.len() && forall|i: int| 0 <= i < k.len() ==> evals(red, #[trigger] k[i], ts[i]),
    }
}
pub open spec fn evs<V, T>(red: ReductMap<V, T>, f: Seq<Tree<V, T>>, ts: Seq<Token<V, T>>) -> bool {
    ts.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> evals(red, #[trigger] f[i], ts[i])
}

// ---- the machine
#[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(T)] pub struct Cfg<V, T> { pub st: Seq<usize>, pub tr: Seq<Tree<V, T>>, pub buf: Seq<Token<V, T>> }
#[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(T)] pub enum Out<V, T> { Run(Cfg<V, T>), Acc(Cfg<V, T>), Fail(Cfg<V, T>, Error<T>), Stuck }
pub type Acts<T> = Seq<BMap<T, Action<T>>>;

pub open spec fn cell<T>(acts: Acts<T>, s: usize, a: T) -> Option<Action<T>> {
    if s < acts.len() && acts[s as int]@.contains_key(a) { Some(acts[s as int]@[a]) } else { None }
}
pub open spec fn unexpected<T>(acts: Acts<T>, s: usize, a: T) -> Error<T> { Error::UnexpectedToken(a, vecof(set_seq(acts[s as int]@.dom()))) }
pub open spec fn look_of<V, T>(buf: Seq<Token<V, T>>, eof: T) -> T { if buf.len() > 0 { buf[0].ty } else { eof } }
pub open spec fn popped<V, T>(c: Cfg<V, T>, n: int) -> Seq<usize> { c.st.take(c.st.len() - n) }
/// One action: a shift; a reduction and the goto after it; acceptance; an error.  `Stuck` is what no
/// table that belongs to an automaton leads to.
pub open spec fn step<V, T>(acts: Acts<T>, eof: T, c: Cfg<V, T>) -> Out<V, T> {
    let a = look_of(c.buf, eof);
    if c.st.len() == 0 || c.st.last() >= acts.len() || c.st.len() != c.tr.len() + 1 { Out::Stuck } else {
        match cell(acts, c.st.last(), a) {
            None => Out::Fail(c, unexpected(acts, c.st.last(), a)),
            Some(Action::Goto(_)) => Out::Fail(c, unexpected(acts, c.st.last(), a)),
            Some(Action::Shift(to)) => if c.buf.len() == 0 { Out::Stuck } else { Out::Run(Cfg { st: c.st.push(to), tr: c.tr.push(Tree::Leaf(c.buf[0])), buf: c.buf.skip(1) }) },
            Some(Action::Acc) => if c.buf.len() > 0 { Out::Fail(c, Error::IncompleteExec) } else if c.tr.len() == 0 { Out::Stuck } else { Out::Acc(c) },
            Some(Action::Conflict(x, y)) => Out::Fail(c, Error::Conflict(*x, *y)),
            Some(Action::Reduce(name, prod)) => {
                let n = prod.0@.len() as int;
                if c.tr.len() < n { Out::Stuck } else {
                    match cell(acts, popped(c, n).last(), name) {
                        Some(Action::Goto(to)) => Out::Run(Cfg { st: popped(c, n).push(to), tr: c.tr.take(c.tr.len() - n).push(Tree::Node(name, prod, c.tr.skip(c.tr.len() - n))), buf: c.buf }),
                        _ => Out::Stuck,
                    }
                }
            },
        }
    }
}
pub open spec fn iter<V, T>(acts: Acts<T>, eof: T, c: Cfg<V, T>, n: nat) -> Out<V, T> decreases n {
    if n == 0 { Out::Run(c) } else { match iter(acts, eof, c, (n - 1) as nat) { Out::Run(d) => step(acts, eof, d), o => o } }
}
pub open spec fn init<V, T>(input: Seq<Token<V, T>>) -> Cfg<V, T> { Cfg { st: Seq::empty().push(0usize), tr: Seq::empty(), buf: input } }
/// The machine never gets stuck on this input.
pub open spec fn safe<V, T>(acts: Acts<T>, eof: T, input: Seq<Token<V, T>>) -> bool { forall|n: nat| !(#[trigger] iter(acts, eof, init(input), n) is Stuck) }
/// The machine halts on this input after at most `n` steps.
pub open spec fn halts_by<V, T>(acts: Acts<T>, eof: T, input: Seq<Token<V, T>>, n: nat) -> bool { !(iter(acts, eof, init(input), n) is Run) }
/// A semantic function for every production that the table reduces by.
pub open spec fn reds_ok<V, T>(acts: Acts<T>, red: ReductMap<V, T>) -> bool {
    forall|s: usize, a: T| (#[trigger] cell(acts, s, a)) is Some && cell(acts, s, a)->0 is Reduce ==> red_has(red, cell(acts, s, a)->0)
}
pub open spec fn red_has<V, T>(red: ReductMap<V, T>, c: Action<T>) -> bool {
    match c { Action::Reduce(x, p) => red@.contains_key(x) && p.1 < red@[x]@.len(), _ => true }
}
/// The result of a run of the driver is the one of the machine.
pub open spec fn concludes<V, T>(o: Out<V, T>, red: ReductMap<V, T>, r: BaseResult<V, Error<T>>) -> bool {
    match o {
        Out::Acc(c) => r is Ok && c.tr.len() > 0 && evals(red, c.tr.last(), Token { item: r->Ok_0, ty: root(c.tr.last()) }),
        Out::Fail(_, e) => r == Err::<V, Error<T>>(e),
        _ => false,
    }
}
pub open spec fn outcome<V, T>(acts: Acts<T>, eof: T, input: Seq<Token<V, T>>, red: ReductMap<V, T>, r: BaseResult<V, Error<T>>) -> bool {
    exists|n: nat| concludes(#[trigger] iter(acts, eof, init(input), n), red, r)
}

// ---- iteration
pub proof fn lemma_iter_stays<V, T>(acts: Acts<T>, eof: T, c: Cfg<V, T>, n: nat, m: nat)
    requires n <= m, !(iter(acts, eof, c, n) is Run) ensures iter(acts, eof, c, m) == iter(acts, eof, c, n) decreases m
{ if n < m { lemma_iter_stays(acts, eof, c, n, (m - 1) as nat); } }
pub proof fn lemma_iter_comp<V, T>(acts: Acts<T>, eof: T, c: Cfg<V, T>, n: nat, d: Cfg<V, T>, m: nat)
    requires iter(acts, eof, c, n) == Out::Run(d) ensures iter(acts, eof, c, n + m) == iter(acts, eof, d, m) decreases m
{ if m > 0 { lemma_iter_comp(acts, eof, c, n, d, (m - 1) as nat); } }
pub proof fn lemma_iter_one<V, T>(acts: Acts<T>, eof: T, c: Cfg<V, T>)
    ensures iter(acts, eof, c, 1) == step(acts, eof, c)
{ assert(iter(acts, eof, c, 0) == Out::Run(c)); assert(iter(acts, eof, c, 1) == step(acts, eof, c)) by { reveal_with_fuel(iter, 2); } }
/// Two halting points have the same result.
pub proof fn lemma_iter_det<V, T>(acts: Acts<T>, eof: T, c: Cfg<V, T>, n: nat, m: nat)
    requires !(iter(acts, eof, c, n) is Run), !(iter(acts, eof, c, m) is Run) ensures iter(acts, eof, c, n) == iter(acts, eof, c, m)
{ if n <= m { lemma_iter_stays(acts, eof, c, n, m); } else { lemma_iter_stays(acts, eof, c, m, n); } }

// ---- trees
pub proof fn lemma_yield_upto<V, T>(x: Tree<V, T>, n: int)
    requires x is Node, 0 <= n <= kids(x).len() ensures yield_upto(x, n) == yields(kids(x).take(n)) decreases n
{
    if n > 0 {
        lemma_yield_upto(x, n - 1);
        assert(kids(x).take(n).drop_last() =~= kids(x).take(n - 1));
    } else { assert(kids(x).take(0) =~= Seq::empty()); }
}
pub proof fn lemma_yield_node<V, T>(x: Tree<V, T>)
    requires x is Node ensures yield_of(x) == yields(kids(x))
{ lemma_yield_upto(x, kids(x).len() as int); assert(kids(x).take(kids(x).len() as int) =~= kids(x)); }
pub proof fn lemma_yields_add<V, T>(a: Seq<Tree<V, T>>, b: Seq<Tree<V, T>>)
    ensures yields(a + b) == yields(a) + yields(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(yields(a) + yields(b) =~= yields(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_yields_add(a, b.drop_last());
        assert((yields(a) + yields(b.drop_last())) + yield_of(b.last()) =~= yields(a) + (yields(b.drop_last()) + yield_of(b.last())));
    }
}
pub proof fn lemma_yields_push<V, T>(a: Seq<Tree<V, T>>, x: Tree<V, T>)
    ensures yields(a.push(x)) == yields(a) + yield_of(x)
{ assert(a.push(x).drop_last() =~= a); }
/// A tree has at least one token, and the first one is in FIRST of the root.
pub proof fn lemma_yield_first<V, T>(g: Grammar<T>, x: Tree<V, T>)
    requires gwf(g), valid(g, x)
    ensures yield_of(x).len() > 0, first_has(g, root(x), yield_of(x)[0].ty)
    decreases x
{
    match x {
        Tree::Leaf(t) => {},
        Tree::Node(n, p, k) => {
            lemma_prod_nonempty(g, n, rcv(p));
            lemma_yield_node(x);
            assert(k =~= k.take(1) + k.skip(1));
            lemma_yields_add(k.take(1), k.skip(1));
            assert(k.take(1).drop_last() =~= Seq::empty());
            assert(yields(k.take(1)) =~= yield_of(k[0])) by { reveal_with_fuel(yields, 2); }
            lemma_yield_first(g, k[0]);
            let a = yield_of(k[0])[0].ty;
            assert(yield_of(x)[0] == yield_of(k[0])[0]);
            let b = rcv(p);
            assert(is_prod(g, n, b) && b.0@[0] == root(k[0]));
            assert(fedge(g, n, root(k[0])));
            lemma_leads_edge(g, n, root(k[0]));
            if a != root(k[0]) { lemma_leads_trans(g, n, root(k[0]), a); }
        },
    }
}
} // mod th_machine
pub use th_machine::*;
