//! same SECONDS SEED: runs the lifted text (ghost code erased) beside the crate it was lifted from,
//! on random grammars and inputs, and compares everything both compute. Exit 1 on a difference.
#![allow(warnings)]
#[path = "../search/src/gram.rs"]
mod gram;
mod model;
mod lifted {
    use crate::model::*;
    use std::rc::Rc;
    use verus_builtin_macros::verus;
    include!(env!("LIFTED"));
}
use gram::{Rng, G, T};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

fn pos<X: std::fmt::Debug>(rule: &T, seq: &(Vec<T>, usize), point: usize, look: X) -> String {
    format!("({rule} {seq:?} {point} {look:?})")
}
macro_rules! side {
    ($m:ident, $k:ident, $($set:tt)*) => {
        mod $m {
            use super::*;
            side!(@use $m);
            pub fn grammar(g: &G) -> k::Grammar<T> {
                let mut m = side!(@map $m);
                for (n, bs) in &g.rules {
                    m.insert(*n, Rl::new(*n, bs.clone()));
                }
                k::Grammar::new(g.start, m, g.eof)
            }
            fn p(x: &k::Position<T>) -> String { pos(&x.rule, &x.seq, x.point, &side!(@in $m x.look)) }
            fn st(s: &k::State<T>) -> Vec<String> { side!(@in $m s).iter().map(p).collect() }
            pub fn act(a: &k::Action<T>) -> String {
                match a {
                    k::Action::Shift(n) => format!("s{n}"),
                    k::Action::Goto(n) => format!("g{n}"),
                    k::Action::Reduce(x, q) => format!("r{x} {q:?}"),
                    k::Action::Acc => "acc".into(),
                    k::Action::Conflict(a, b) => format!("<{} / {}>", act(a), act(b)),
                }
            }
            fn tab(t: &k::Table<T>) -> Vec<String> { side!(@in $m t).iter().map(|(n, s)| format!("{n}: {:?}", side!(@in $m s))).collect() }
            fn acts(t: &k::ActTable<T>) -> Vec<String> {
                t.iter().map(|r| side!(@in $m r).iter().map(|(s, a)| format!("{s} {}", act(a))).collect::<Vec<_>>().join(", ")).collect()
            }
            pub fn tabler(t: &k::Tabler<T>) -> Vec<String> {
                let g = &t.grammar;
                let mut o = vec![p(&g.basis), format!("{:?} {:?}", side!(@in $m g.terminals), side!(@in $m g.symbols))];
                o.extend(side!(@in $m g.rules).iter().map(|(n, r)| format!("{n} {} {:?}", r.name, r.prods)));
                o.push("first".into()); o.extend(tab(&t.first));
                o.push("follow".into()); o.extend(tab(&t.follow));
                o.push("states".into()); o.extend(t.states.iter().map(|s| format!("{:?}", st(s))));
                o.push("kernels".into()); o.extend(side!(@in $m t.kernels).iter().map(|(s, i)| format!("{:?} {i}", st(s))));
                o.push("actions".into()); o.extend(acts(&t.actions));
                o
            }
            pub fn err(e: &k::Error<T>) -> String {
                match e {
                    k::Error::UnexpectedToken(t, v) => format!("unexpected {t} {v:?}"),
                    k::Error::UnexpectedEof => "eof".into(),
                    k::Error::Conflict(a, b) => format!("conflict {} {}", act(a), act(b)),
                    k::Error::MissingPreviousState => "missing".into(),
                    k::Error::StateNotSpecified => "nostate".into(),
                    k::Error::IncompleteExec => "incomplete".into(),
                }
            }
            fn f<const K: u64>(a: &[k::Token<u64, T>]) -> u64 {
                a.iter().fold(K + 7, |h, t| h.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17) ^ t.item.wrapping_mul(31).wrapping_add(u64::from(t.ty)))
            }
            fn fs(n: usize) -> k::ReductFn<u64, T> {
                side!(@fn $m [f::<0>, f::<1>, f::<2>, f::<3>, f::<4>, f::<5>, f::<6>][n % 7])
            }
            fn reds(g: &G) -> k::ReductMap<u64, T> {
                let mut m = side!(@map $m);
                for (n, bs) in &g.rules {
                    m.insert(*n, (0..bs.len()).map(|i| fs(i + *n as usize)).collect::<Vec<_>>());
                }
                m
            }
            fn toks(w: &[T]) -> Vec<k::Token<u64, T>> { w.iter().enumerate().map(|(i, t)| k::Token::new(i as u64 + 100, *t)).collect() }
            fn units(w: &[T]) -> Vec<k::Token<(), T>> { w.iter().map(|t| k::Token::new((), *t)).collect() }
            fn res(r: Result<u64, k::Error<T>>) -> String { match r { Ok(v) => format!("ok {v}"), Err(e) => err(&e) } }
            macro_rules! method {
                ($name:ident, $o:ident, $g:expr, $ws:expr) => {{
                    let mut c = k::$name::new(grammar($g));
                    $o.extend(tabler(c.tables()));
                    let n = c.tables().conflicts();
                    $o.push(format!("conflicts {:?}", n.into_iter().map(act).collect::<Vec<_>>()));
                    for s in c.tables().states.clone() {
                        for x in side!(@in $m c.tables().grammar.symbols).iter() {
                            let q = k::Tabler::sym_filter(&s, x);
                            $o.push(format!("{:?}", c.state_from_kernel(&q)));
                        }
                    }
                    if !$ws.is_empty() {
                        for round in 0..2 {
                            let mut d = side!(@dfa $m c, $g);
                            for w in $ws {
                                $o.push(format!("{w:?} {}", res(c.parse(toks(w), reds($g)))));
                                $o.push(format!("{w:?} {}", c.validate(units(w))));
                                $o.push(format!("{w:?} {}", res(side!(@again $m d, w))));
                                $o.push(format!("{:?} {:?} {} {}", d.states, d.items.iter().map(|t| (t.item, t.ty)).collect::<Vec<_>>(), d.top, d.finished));
                            }
                            c.reduce_equals();
                            $o.extend(acts(&c.tables().actions));
                        }
                    }
                }};
            }
            pub fn all(g: &G, ws: &[Vec<T>]) -> Vec<String> {
                let mut o = tabler(&k::Tabler::new(grammar(g)));
                method!(Clr, o, g, ws);
                method!(Lalr, o, g, ws);
                method!(Slr, o, g, ws);
                o
            }
        }
    };
    (@use real) => { use lrp as k; use lrp::Parser; use lrp::grammar::Rule as Rl; };
    (@use lift) => { use crate::lifted as k; use crate::model::*; use crate::lifted::Rule as Rl; };
    (@map real) => { lrp::Map::new() };
    (@map lift) => { BMap::new() };
    (@in real $($e:tt)*) => { $($e)* };
    (@in lift $($e:tt)*) => { $($e)*.0 };
    (@fn real $($e:tt)*) => { $($e)* };
    (@fn lift $($e:tt)*) => { VFn(Some($($e)*)) };
    (@dfa real $c:expr, $g:expr) => { $c.dfa(Vec::new().into_iter(), reds($g)) };
    (@dfa lift $c:expr, $g:expr) => { $c.dfa(Vec::new(), reds($g)) };
    (@again real $d:ident, $w:expr) => { $d.parse(toks($w).into_iter()) };
    (@again lift $d:ident, $w:expr) => { $d.parse(toks($w)) };
}
side!(real, k, );
side!(lift, k, );

/// Some nonterminal derives itself: a parse may reduce forever.
fn cyclic(g: &G) -> bool {
    g.rules.keys().any(|n| {
        let mut seen: Vec<T> = vec![];
        let mut todo = vec![*n];
        while let Some(x) = todo.pop() {
            for b in g.rules.get(&x).into_iter().flatten() {
                if b.len() == 1 && b[0] == *n {
                    return true;
                }
                if b.len() == 1 && !seen.contains(&b[0]) {
                    seen.push(b[0]);
                    todo.push(b[0]);
                }
            }
        }
        false
    })
}
fn inputs(g: &G, r: &mut Rng) -> Vec<Vec<T>> {
    let (reach, prod) = (g.reachable(), g.productive());
    if g.rules.keys().any(|n| !reach.contains(n) || !prod.contains(n)) || cyclic(g) {
        return vec![];
    }
    let al = g.input_alphabet();
    let mut ws = vec![vec![]];
    for _ in 0..4 {
        if let Some(w) = gram::derive(g, r, 12) {
            let mut v = w.clone();
            ws.push(w);
            if !v.is_empty() && !al.is_empty() {
                let i = r.below(v.len());
                v[i] = al[r.below(al.len())];
                ws.push(v);
            }
        }
    }
    if let Some(w) = ws.last().cloned() {
        ws.push([w, vec![g.eof]].concat());
    }
    ws
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let secs: f64 = a[1].parse().unwrap();
    let mut r = Rng(a[2].parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let (mut n, mut facts, mut parses) = (0u64, 0u64, 0u64);
    while t0.elapsed() < Duration::from_secs_f64(secs) {
        let mut g = gram::random(&mut r, 4, 4, 3, 4);
        if r.below(3) == 0 {
            g = gram::mutate(&g, &mut r);
        }
        let ws = inputs(&g, &mut r);
        let x = catch_unwind(AssertUnwindSafe(|| real::all(&g, &ws))).map_err(|_| ());
        let y = catch_unwind(AssertUnwindSafe(|| lift::all(&g, &ws))).map_err(|_| ());
        if x != y {
            println!("DIFFERENT grammar {}", g.show());
            match (x, y) {
                (Ok(x), Ok(y)) => {
                    for (a, b) in x.iter().zip(&y) {
                        if a != b {
                            println!("crate: {a}\nlifted: {b}");
                            break;
                        }
                    }
                }
                (x, y) => println!("panics: crate {}, lifted {}", x.is_err(), y.is_err()),
            }
            std::process::exit(1);
        }
        n += 1;
        parses += ws.len() as u64 * 12;
        facts += x.map_or(1, |v| v.len() as u64);
    }
    println!("{{\"grammars\": {n}, \"compared\": {facts}, \"parses\": {parses}}}");
}
