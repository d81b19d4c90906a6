
// ===================================================================================================
// What follows from the runs: error reports (C13), termination (C17), merged tables (C15).
// ===================================================================================================
pub mod th_after {
use super::*;
broadcast use {model::group_model, th_grammar::group_base};

// ---- C13: no sentence begins with what was read and the refused token
/// `z` begins with the first `n` tokens of `input`.
pub open spec fn same_start<V, T>(z: Seq<Token<V, T>>, input: Seq<Token<V, T>>, n: int) -> bool { 0 <= n <= z.len() && n <= input.len() && z.take(n) == input.take(n) }
/// The configuration with the tokens after position `len - n` replaced.
pub open spec fn swap<V, T>(c: Cfg<V, T>, n: int, s: Seq<Token<V, T>>) -> Cfg<V, T> { Cfg { buf: c.buf.take(c.buf.len() - n) + s, ..c } }
pub open spec fn out_cfg<V, T>(o: Out<V, T>) -> Cfg<V, T> { match o { Out::Run(c) => c, Out::Acc(c) => c, Out::Fail(c, _) => c, Out::Stuck => arbitrary() } }
pub open spec fn out_swap<V, T>(o: Out<V, T>, n: int, s: Seq<Token<V, T>>) -> Out<V, T> {
    match o { Out::Run(c) => Out::Run(swap(c, n, s)), Out::Fail(c, e) => Out::Fail(swap(c, n, s), e), o => o }
}
pub open spec fn unread<V, T>(o: Out<V, T>, n: int) -> bool { match o { Out::Run(c) => c.buf.len() >= n, Out::Fail(c, Error::UnexpectedToken(..)) => c.buf.len() >= n, _ => false } }
pub proof fn lemma_swap_step<V, T>(acts: Acts<T>, eof: T, c: Cfg<V, T>, n: int, s: Seq<Token<V, T>>)
    requires 0 < n <= c.buf.len(), s.len() > 0, c.buf[c.buf.len() - n] == s[0], unread(step(acts, eof, c), n)
    ensures step(acts, eof, swap(c, n, s)) == out_swap(step(acts, eof, c), n, s)
{
    let w = swap(c, n, s);
    assert(w.buf[0] == c.buf[0]);
    let a = look_of(c.buf, eof);
    match cell(acts, c.st.last(), a) {
        Some(Action::Shift(_)) => { assert(w.buf.skip(1) =~= c.buf.skip(1).take(c.buf.len() - 1 - n) + s); },
        _ => {},
    }
}
pub proof fn lemma_buf_step<V, T>(acts: Acts<T>, eof: T, c: Cfg<V, T>)
    requires !(step(acts, eof, c) is Stuck)
    ensures exists|k: int| 0 <= k <= c.buf.len() && out_cfg(step(acts, eof, c)).buf == #[trigger] c.buf.skip(k)
{ assert(c.buf.skip(0) =~= c.buf); assert(c.buf.skip(1) =~= c.buf.skip(1)); }
pub proof fn lemma_swap<V, T>(acts: Acts<T>, eof: T, c: Cfg<V, T>, n: int, s: Seq<Token<V, T>>, i: nat)
    requires 0 < n <= c.buf.len(), s.len() > 0, c.buf[c.buf.len() - n] == s[0], unread(iter(acts, eof, c, i), n)
    ensures iter(acts, eof, swap(c, n, s), i) == out_swap(iter(acts, eof, c, i), n, s),
        exists|k: int| 0 <= k <= c.buf.len() - n && out_cfg(iter(acts, eof, c, i)).buf == #[trigger] c.buf.skip(k)
    decreases i
{
    if i == 0 { assert(c.buf.skip(0) =~= c.buf); } else {
        let p = iter(acts, eof, c, (i - 1) as nat);
        match p {
            Out::Run(d) => {
                lemma_buf_step(acts, eof, d);
                let j = choose|j: int| 0 <= j <= d.buf.len() && out_cfg(step(acts, eof, d)).buf == #[trigger] d.buf.skip(j);
                assert(d.buf.len() >= n);
                lemma_swap(acts, eof, c, n, s, (i - 1) as nat);
                let k = choose|k: int| 0 <= k <= c.buf.len() - n && d.buf == #[trigger] c.buf.skip(k);
                assert(d.buf[d.buf.len() - n] == s[0]);
                lemma_swap_step(acts, eof, d, n, s);
                assert(d.buf.skip(j) =~= c.buf.skip(k + j));
            },
            _ => { lemma_swap(acts, eof, c, n, s, (i - 1) as nat); },
        }
    }
}
/// The whole of C13 for a run that stops at `d` with an unexpected token.
pub open spec fn refused<V, T>(g: Grammar<T>, acts: Acts<T>, eof: T, input: Seq<Token<V, T>>, d: Cfg<V, T>, e: Error<T>) -> bool {
    let read = input.len() - d.buf.len();
    &&& d.st.len() > 0 && e == unexpected(acts, d.st.last(), look_of(d.buf, eof))
    &&& 0 <= read <= input.len() && d.buf == input.skip(read) && yields(d.tr) == input.take(read)
    &&& d.buf.len() == 0 ==> !sentence(g, input)
    &&& d.buf.len() > 0 ==> forall|z: Seq<Token<V, T>>| #[trigger] sentence(g, z) ==> !same_start(z, input, read + 1)
}
pub proof fn lemma_refused<V, T>(m: Auto<T>, acts: Acts<T>, eof: T, input: Seq<Token<V, T>>, n: nat)
    requires tab(m, acts, eof), iter(acts, eof, init(input), n) is Fail, iter(acts, eof, init(input), n)->Fail_1 is UnexpectedToken
    ensures refused(m.g, acts, eof, input, iter(acts, eof, init(input), n)->Fail_0, iter(acts, eof, init(input), n)->Fail_1)
{
    let o = iter(acts, eof, init(input), n);
    let d = o->Fail_0; let e = o->Fail_1;
    lemma_run(m, acts, eof, input, n);
    let read = input.len() - d.buf.len();
    assert((yields(d.tr) + d.buf).skip(yields(d.tr).len() as int) =~= d.buf);
    assert((yields(d.tr) + d.buf).take(yields(d.tr).len() as int) =~= yields(d.tr));
    if d.buf.len() == 0 {
        if sentence(m.g, input) {
            let x = choose|x: Tree<V, T>| parse_tree(m.g, input, x);
            lemma_complete(m, acts, eof, input, x);
            let k = choose|k: nat| #[trigger] accepts_as(acts, eof, input, x, k);
            lemma_iter_det(acts, eof, init(input), n, k);
        }
    } else {
        assert forall|z: Seq<Token<V, T>>| #[trigger] sentence(m.g, z) implies !same_start(z, input, read + 1) by {
            if same_start(z, input, read + 1) {
                let x = choose|x: Tree<V, T>| parse_tree(m.g, z, x);
                lemma_complete(m, acts, eof, z, x);
                let k = choose|k: nat| #[trigger] accepts_as(acts, eof, z, x, k);
                let s = z.skip(read);
                assert(s[0] == z[read]);
                assert(z[read] == z.take(read + 1)[read]);
                assert(input[read] == input.take(read + 1)[read]);
                assert(d.buf == input.skip(read));
                lemma_swap(acts, eof, init(input), d.buf.len() as int, s, n);
                assert(z.take(read) =~= z.take(read + 1).take(read));
                assert(input.take(read) =~= input.take(read + 1).take(read));
                assert(swap(init(input), d.buf.len() as int, s).buf =~= z);
                assert(swap(init(input), d.buf.len() as int, s) == init(z));
                lemma_iter_det(acts, eof, init(z), n, k);
            }
        }
    }
}
// sentences are about the types of tokens only
pub open spec fn same_types<V, W, T>(a: Seq<Token<V, T>>, b: Seq<Token<W, T>>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).ty == b[i].ty }
pub proof fn lemma_retag_kids<V, W, T>(g: Grammar<T>, x: Tree<V, T>, n: int, z: Seq<Token<W, T>>) -> (f: Seq<Tree<W, T>>)
    requires gwf(g), valid(g, x), x is Node, 0 <= n <= kids(x).len(), same_types(yields(kids(x).take(n)), z)
    ensures f.len() == n, yields(f) == z, forall|i: int| 0 <= i < n ==> valid(g, #[trigger] f[i]) && root(f[i]) == root(kids(x)[i])
    decreases x, n
{
    if n == 0 { assert(kids(x).take(0) =~= Seq::empty()); assert(z =~= Seq::empty()); Seq::empty() } else {
        let k = kids(x);
        assert(k.take(n).drop_last() =~= k.take(n - 1));
        let a = yields(k.take(n - 1)); let b = yield_of(k[n - 1]);
        let l = a.len() as int;
        assert(yields(k.take(n)) == a + b);
        let za = z.take(l); let zb = z.skip(l);
        assert(za + zb =~= z);
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).ty == za[i].ty by { assert((a + b)[i].ty == z[i].ty); }
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).ty == zb[i].ty by { assert((a + b)[l + i].ty == z[l + i].ty); }
        assert(valid(g, k[n - 1]));
        let f = lemma_retag_kids(g, x, n - 1, za);
        let y = lemma_retag(g, k[n - 1], zb);
        lemma_yields_push(f, y);
        let h = f.push(y);
        assert forall|i: int| 0 <= i < n implies valid(g, #[trigger] h[i]) && root(h[i]) == root(k[i]) by { if i < n - 1 { assert(valid(g, f[i])); } }
        h
    }
}
pub proof fn lemma_retag<V, W, T>(g: Grammar<T>, x: Tree<V, T>, z: Seq<Token<W, T>>) -> (y: Tree<W, T>)
    requires gwf(g), valid(g, x), same_types(yield_of(x), z)
    ensures valid(g, y), root(y) == root(x), yield_of(y) == z, x is Node <==> y is Node
    decreases x, kids(x).len() + 1
{
    match x {
        Tree::Leaf(t) => {
            assert(yield_of(x)[0].ty == z[0].ty);
            assert(z =~= Seq::empty().push(z[0]));
            Tree::Leaf(z[0])
        },
        Tree::Node(n, p, k) => {
            lemma_yield_node(x);
            assert(k.take(k.len() as int) =~= k);
            let f = lemma_retag_kids(g, x, k.len() as int, z);
            let y = Tree::Node(n, p, f);
            lemma_yield_node(y);
            assert forall|i: int| 0 <= i < f.len() implies valid(g, #[trigger] f[i]) && root(f[i]) == p.0@[i] by { assert(valid(g, k[i])); }
            y
        },
    }
}
/// Whether a token sequence is a sentence depends on its types only.
pub proof fn lemma_sentence_types<V, W, T>(g: Grammar<T>, a: Seq<Token<V, T>>, b: Seq<Token<W, T>>)
    requires gwf(g), sentence(g, a), same_types(a, b) ensures sentence(g, b)
{
    let x = choose|x: Tree<V, T>| parse_tree(g, a, x);
    let y = lemma_retag(g, x, b);
    assert(parse_tree(g, b, y));
}

// ---- C17: without conflicts and useless symbols every run ends
pub open spec fn noconf<T>(acts: Acts<T>) -> bool { forall|s: usize, a: T| (#[trigger] cell(acts, s, a)) is Some ==> !(cell(acts, s, a)->0 is Conflict) }
/// `a -> b` is a production.
pub open spec fn uedge<T>(g: Grammar<T>, a: T, b: T) -> bool { exists|p: Production<T>| #[trigger] is_prod(g, a, p) && p.0@.len() == 1 && p.0@[0] == b }
pub open spec fn uchain<T>(g: Grammar<T>, a: T, b: T, n: nat) -> bool decreases n {
    if n == 0 { a == b } else { exists|c: T| #[trigger] uedge(g, a, c) && uchain(g, c, b, (n - 1) as nat) }
}
pub open spec fn above<T>(g: Grammar<T>, a: T, b: T) -> bool { exists|n: nat| n > 0 && #[trigger] uchain(g, a, b, n) }
pub open spec fn at_body<T>(g: Grammar<T>, z: T, p: Production<T>, i: int, a: T) -> bool { is_prod(g, z, p) && 0 <= i < p.0@.len() && p.0@[i] == a }
pub open spec fn reach_n<T>(g: Grammar<T>, a: T, n: nat) -> bool decreases n {
    a == g.basis.rule || (n > 0 && exists|z: T, p: Production<T>, i: int| #[trigger] at_body(g, z, p, i, a) && reach_n(g, z, (n - 1) as nat))
}
pub open spec fn makes<T>(g: Grammar<T>, a: T, x: Tree<(), T>) -> bool { valid(g, x) && root(x) == a }
/// Every nonterminal is reachable from the start symbol and derives a terminal string.
pub open spec fn reduced<T>(g: Grammar<T>) -> bool {
    forall|a: T| #[trigger] nonterm(g, a) ==> (exists|n: nat| reach_n(g, a, n)) && exists|x: Tree<(), T>| x is Node && makes(g, a, x)
}
pub proof fn lemma_unique<V, T>(m: Auto<T>, acts: Acts<T>, eof: T, z: Seq<Token<V, T>>, x: Tree<V, T>, y: Tree<V, T>)
    requires tab(m, acts, eof), noconf(acts), parse_tree(m.g, z, x), parse_tree(m.g, z, y) ensures x == y
{
    lemma_complete(m, acts, eof, z, x);
    lemma_complete(m, acts, eof, z, y);
    let n = choose|n: nat| #[trigger] accepts_as(acts, eof, z, x, n);
    let k = choose|n: nat| #[trigger] accepts_as(acts, eof, z, y, n);
    lemma_noconf_iter(acts, eof, init(z), n);
    lemma_noconf_iter(acts, eof, init(z), k);
    lemma_iter_det(acts, eof, init(z), n, k);
    lemma_start_prod(m.g, root(x), rcv(x->Node_1));
    lemma_start_prod(m.g, root(y), rcv(y->Node_1));
    assert(x->Node_1 == m.g.basis.seq && y->Node_1 == m.g.basis.seq);
}
pub proof fn lemma_noconf_iter<V, T>(acts: Acts<T>, eof: T, c: Cfg<V, T>, n: nat)
    requires noconf(acts) ensures !conflicted(iter(acts, eof, c, n)) decreases n
{ if n > 0 { lemma_noconf_iter(acts, eof, c, (n - 1) as nat); } }
pub open spec fn some_tree<T>(g: Grammar<T>, a: T) -> Tree<(), T> { if nonterm(g, a) { choose|x: Tree<(), T>| x is Node && makes(g, a, x) } else { Tree::Leaf(Token { item: (), ty: a }) } }
pub open spec fn two<T>(g: Grammar<T>, x: Tree<(), T>, y: Tree<(), T>) -> bool { valid(g, x) && valid(g, y) && root(x) == root(y) && yield_of(x) == yield_of(y) && x != y && x is Node && y is Node }
pub proof fn lemma_context<T>(g: Grammar<T>, a: T, n: nat, x: Tree<(), T>, y: Tree<(), T>)
    requires gwf(g), reduced(g), reach_n(g, a, n), two(g, x, y), root(x) == a
    ensures exists|u: Tree<(), T>, v: Tree<(), T>| #[trigger] two(g, u, v) && root(u) == g.basis.rule
    decreases n
{
    if a != g.basis.rule {
        let (z, p, i) = choose|z: T, p: Production<T>, i: int| #[trigger] at_body(g, z, p, i, a) && reach_n(g, z, (n - 1) as nat);
        let r = g.rules@[z].prods@[p.1 as int];
        assert(*r == p);
        let f = Seq::new(p.0@.len(), |j: int| some_tree(g, p.0@[j]));
        let fx = f.update(i, x); let fy = f.update(i, y);
        let u = Tree::Node(z, r, fx); let v = Tree::Node(z, r, fy);
        assert forall|j: int| 0 <= j < f.len() implies valid(g, #[trigger] f[j]) && root(f[j]) == p.0@[j] by {
            let b = p.0@[j];
            if nonterm(g, b) { assert(exists|x: Tree<(), T>| x is Node && makes(g, b, x)); }
        }
        assert forall|j: int| 0 <= j < fx.len() implies valid(g, #[trigger] fx[j]) && root(fx[j]) == p.0@[j] by { if j != i { assert(valid(g, f[j])); } }
        assert forall|j: int| 0 <= j < fy.len() implies valid(g, #[trigger] fy[j]) && root(fy[j]) == p.0@[j] by { if j != i { assert(valid(g, f[j])); } }
        assert(fx[i] == x && fy[i] == y);
        lemma_update_yields(f, i, x); lemma_update_yields(f, i, y);
        lemma_yield_node(u); lemma_yield_node(v);
        assert(two(g, u, v));
        lemma_context(g, z, (n - 1) as nat, u, v);
    }
}
pub proof fn lemma_update_yields<V, T>(f: Seq<Tree<V, T>>, i: int, x: Tree<V, T>)
    requires 0 <= i < f.len() ensures yields(f.update(i, x)) == yields(f.take(i)) + yield_of(x) + yields(f.skip(i + 1))
{
    let h = f.update(i, x);
    lemma_yields_split(h, i + 1);
    assert(h.take(i + 1) =~= f.take(i).push(x));
    lemma_yields_push(f.take(i), x);
    assert(h.skip(i + 1) =~= f.skip(i + 1));
}
pub open spec fn hgt<V, T>(x: Tree<V, T>) -> nat decreases x { match x { Tree::Leaf(_) => 0, Tree::Node(_, _, k) => if k.len() > 0 { hgt(k[0]) + 1 } else { 0 } } }
pub proof fn lemma_wrap<T>(g: Grammar<T>, a: T, b: T, n: nat, x: Tree<(), T>) -> (y: Tree<(), T>)
    requires gwf(g), uchain(g, a, b, n), makes(g, b, x), x is Node
    ensures makes(g, a, y), yield_of(y) == yield_of(x), hgt(y) == hgt(x) + n, y is Node
    decreases n
{
    if n == 0 { x } else {
        let c = choose|c: T| #[trigger] uedge(g, a, c) && uchain(g, c, b, (n - 1) as nat);
        let p = choose|p: Production<T>| #[trigger] is_prod(g, a, p) && p.0@.len() == 1 && p.0@[0] == c;
        let r = g.rules@[a].prods@[p.1 as int];
        assert(*r == p);
        let w = lemma_wrap(g, c, b, (n - 1) as nat, x);
        let k = Seq::empty().push(w);
        let y = Tree::Node(a, r, k);
        lemma_yield_node(y);
        lemma_yields_push(Seq::empty(), w);
        assert(yields(Seq::<Tree<(), T>>::empty()) + yield_of(w) =~= yield_of(w));
        assert(k[0] == w);
        y
    }
}
/// A conflict-free table without useless symbols: no nonterminal derives itself.
pub proof fn lemma_acyclic<T>(m: Auto<T>, acts: Acts<T>, eof: T, a: T)
    requires tab(m, acts, eof), noconf(acts), reduced(m.g) ensures !above(m.g, a, a)
{
    let g = m.g;
    if above(g, a, a) {
        let n = choose|n: nat| n > 0 && #[trigger] uchain(g, a, a, n);
        let c = choose|c: T| #[trigger] uedge(g, a, c) && uchain(g, c, a, (n - 1) as nat);
        assert(nonterm(g, a));
        let x = choose|x: Tree<(), T>| x is Node && makes(g, a, x);
        let y = lemma_wrap(g, a, a, n, x);
        assert(two(g, x, y));
        let k = choose|k: nat| reach_n(g, a, k);
        lemma_context(g, a, k, x, y);
        let (u, v) = choose|u: Tree<(), T>, v: Tree<(), T>| #[trigger] two(g, u, v) && root(u) == g.basis.rule;
        lemma_unique(m, acts, eof, yield_of(u), u, v);
    }
}
pub open spec fn ups<T>(g: Grammar<T>, x: T) -> Set<T> { g.rules@.dom().filter(|z: T| above(g, z, x)) }
pub proof fn lemma_ups<T>(g: Grammar<T>, a: T, x: T)
    requires uedge(g, a, x), !above(g, a, a) ensures ups(g, a).len() < ups(g, x).len()
{
    broadcast use vstd::set::group_set_lemmas;
    let one: nat = 1;
    assert(uchain(g, x, x, 0));
    assert(uchain(g, a, x, one)) by { reveal_with_fuel(uchain, 2); }
    assert(ups(g, x).contains(a));
    assert forall|z: T| ups(g, a).contains(z) implies #[trigger] ups(g, x).contains(z) by {
        let n = choose|n: nat| n > 0 && #[trigger] uchain(g, z, a, n);
        lemma_uchain_push(g, z, a, x, n);
        assert(uchain(g, z, x, n + 1));
    }
    assert(ups(g, a).subset_of(ups(g, x).remove(a)));
    vstd::set_lib::lemma_len_subset(ups(g, a), ups(g, x).remove(a));
}
pub proof fn lemma_uchain_push<T>(g: Grammar<T>, a: T, b: T, c: T, n: nat)
    requires uchain(g, a, b, n), uedge(g, b, c) ensures uchain(g, a, c, n + 1) decreases n
{
    if n == 0 { assert(uchain(g, c, c, 0)); assert(uchain(g, a, c, 1)) by { reveal_with_fuel(uchain, 2); } } else {
        let d = choose|d: T| #[trigger] uedge(g, a, d) && uchain(g, d, b, (n - 1) as nat);
        lemma_uchain_push(g, d, b, c, (n - 1) as nat);
        assert(uedge(g, a, d) && uchain(g, d, c, n));
    }
}
pub open spec fn rank<V, T>(g: Grammar<T>, c: Cfg<V, T>) -> nat { if c.tr.len() > 0 { ups(g, root(c.tr.last())).len() } else { 0 } }
pub open spec fn room<V, T>(c: Cfg<V, T>) -> nat { 2 * c.buf.len() + c.tr.len() }
pub proof fn lemma_down<V, T>(m: Auto<T>, acts: Acts<T>, eof: T, input: Seq<Token<V, T>>, c: Cfg<V, T>)
    requires tab(m, acts, eof), noconf(acts), reduced(m.g), inv(m, input, c), step(acts, eof, c) is Run
    ensures room(step(acts, eof, c)->Run_0) < room(c) || (room(step(acts, eof, c)->Run_0) == room(c) && rank(m.g, step(acts, eof, c)->Run_0) < rank(m.g, c))
{
    let g = m.g;
    let d = step(acts, eof, c)->Run_0;
    lemma_step(m, acts, eof, input, c);
    match cell(acts, c.st.last(), look_of(c.buf, eof)) {
        Some(Action::Reduce(x, p)) => {
            let y = d.tr.last();
            assert(y == Tree::Node(x, p, c.tr.skip(c.tr.len() - p.0@.len())));
            assert(valid(g, d.tr[d.tr.len() - 1]));
            lemma_prod_nonempty(g, x, rcv(p));
            if p.0@.len() == 1 {
                assert(kids(y)[0] == c.tr.last());
                let b = rcv(p);
                assert(is_prod(g, x, b) && b.0@[0] == root(c.tr.last()));
                assert(uedge(g, x, root(c.tr.last())));
                lemma_acyclic(m, acts, eof, x);
                lemma_ups(g, x, root(c.tr.last()));
            }
        },
        _ => {},
    }
}
pub proof fn lemma_halts_from<V, T>(m: Auto<T>, acts: Acts<T>, eof: T, input: Seq<Token<V, T>>, c: Cfg<V, T>) -> (n: nat)
    requires tab(m, acts, eof), noconf(acts), reduced(m.g), inv(m, input, c)
    ensures !(iter(acts, eof, c, n) is Run)
    decreases room(c), rank(m.g, c)
{
    match step(acts, eof, c) {
        Out::Run(d) => {
            lemma_down(m, acts, eof, input, c);
            lemma_step(m, acts, eof, input, c);
            let k = lemma_halts_from(m, acts, eof, input, d);
            lemma_iter_one(acts, eof, c);
            lemma_iter_comp(acts, eof, c, 1, d, k);
            1 + k
        },
        _ => { lemma_iter_one(acts, eof, c); 1 },
    }
}
pub open spec fn ends<V, T>(acts: Acts<T>, eof: T, input: Seq<Token<V, T>>) -> bool { exists|n: nat| halts_by(acts, eof, input, n) }
pub proof fn lemma_ends<V, T>(m: Auto<T>, acts: Acts<T>, eof: T, input: Seq<Token<V, T>>)
    requires tab(m, acts, eof), noconf(acts), reduced(m.g) ensures ends(acts, eof, input)
{
    lemma_init(m, input);
    let n = lemma_halts_from(m, acts, eof, input, init(input));
    assert(halts_by(acts, eof, input, n));
}
} // mod th_after
pub use th_after::*;
