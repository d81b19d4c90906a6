//! One executable reading of every property in properties.jsonl: runs the real code of /repo on one
//! grammar (and inputs) and compares with the textbook definitions of `oracle`.
use crate::gram::*;
use crate::oracle::*;
use lrp::{Action, Clr, Dfa, Error, Lalr, Parser, Position, ReductMap, Slr, State, Tabler, Token};
use std::collections::{BTreeMap, BTreeSet};

pub const ALL: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
];

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Val {
    Leaf(usize),
    Node(usize, Vec<(T, Val)>),
}
pub type Tok = Token<Val, T>;

fn red<const R: usize>(toks: &[Tok]) -> Val {
    Val::Node(R, toks.iter().map(|t| (t.ty, t.item.clone())).collect())
}
macro_rules! reds { ($v:ident: $($n:literal)*) => { $($v.extend([
    red::<{ $n * 8 }> as lrp::ReductFn<Val, T>, red::<{ $n * 8 + 1 }>, red::<{ $n * 8 + 2 }>, red::<{ $n * 8 + 3 }>,
    red::<{ $n * 8 + 4 }>, red::<{ $n * 8 + 5 }>, red::<{ $n * 8 + 6 }>, red::<{ $n * 8 + 7 }>,
]);)* } }
pub const NRED: usize = 320;
fn red_table() -> Vec<lrp::ReductFn<Val, T>> {
    let mut v = Vec::with_capacity(NRED);
    reds!(v: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39);
    v
}
/// Production number -> (rule, body index)
pub fn numbering(g: &G) -> Vec<(T, usize)> {
    g.rules.iter().flat_map(|(n, bs)| (0..bs.len()).map(move |i| (*n, i))).collect()
}
pub fn reductors(g: &G) -> ReductMap<Val, T> {
    let f = red_table();
    let mut m: ReductMap<Val, T> = ReductMap::new();
    for (i, (n, _)) in numbering(g).iter().enumerate() {
        m.entry(*n).or_default().push(f[i]);
    }
    m
}
pub fn toks(w: &[T]) -> Vec<Tok> {
    w.iter().enumerate().map(|(i, t)| Token::new(Val::Leaf(i), *t)).collect()
}

pub enum P3 {
    C(Clr<T>),
    S(Slr<T>),
    L(Lalr<T>),
}
impl P3 {
    pub fn new(k: Kind, g: &G) -> P3 {
        match k {
            Kind::Clr => P3::C(Clr::new(g.to_lrp())),
            Kind::Slr => P3::S(Slr::new(g.to_lrp())),
            Kind::Lalr => P3::L(Lalr::new(g.to_lrp())),
        }
    }
    pub fn t(&self) -> &Tabler<T> {
        match self {
            P3::C(p) => p.tables(),
            P3::S(p) => p.tables(),
            P3::L(p) => p.tables(),
        }
    }
    pub fn reduce_equals(&mut self) {
        match self {
            P3::C(p) => p.reduce_equals(),
            P3::S(p) => p.reduce_equals(),
            P3::L(p) => p.reduce_equals(),
        }
    }
    pub fn parse(&self, w: &[T], m: &ReductMap<Val, T>) -> Result<Val, Error<T>> {
        match self {
            P3::C(p) => p.parse(toks(w), m.clone()),
            P3::S(p) => p.parse(toks(w), m.clone()),
            P3::L(p) => p.parse(toks(w), m.clone()),
        }
    }
    pub fn validate(&self, w: &[T]) -> bool {
        let v: Vec<Token<(), T>> = w.iter().map(|t| Token::new((), *t)).collect();
        match self {
            P3::C(p) => p.validate(v),
            P3::S(p) => p.validate(v),
            P3::L(p) => p.validate(v),
        }
    }
    pub fn dfa(&self, w: &[T], m: &ReductMap<Val, T>) -> Dfa<Val, T, std::vec::IntoIter<Tok>> {
        match self {
            P3::C(p) => p.dfa(toks(w).into_iter(), m.clone()),
            P3::S(p) => p.dfa(toks(w).into_iter(), m.clone()),
            P3::L(p) => p.dfa(toks(w).into_iter(), m.clone()),
        }
    }
    pub fn state_from_kernel(&self, k: &State<T>) -> Option<usize> {
        match self {
            P3::C(p) => p.state_from_kernel(k),
            P3::S(p) => p.state_from_kernel(k),
            P3::L(p) => p.state_from_kernel(k),
        }
    }
}

pub fn flat(a: &Action<T>, out: &mut Vec<Action<T>>) {
    match a {
        Action::Conflict(x, y) => {
            flat(x, out);
            flat(y, out)
        }
        a => out.push(a.clone()),
    }
}

/// Bisimulation of the real table with the textbook automaton. `states`: also compare item sets.
pub fn cmp_tables(g: &G, t: &Tabler<T>, a: &Auto, items: bool, shape: bool) -> Result<(), String> {
    let mut map: BTreeMap<usize, usize> = BTreeMap::from([(0, 0)]);
    let mut q = vec![(0usize, 0usize)];
    while let Some((l, r)) = q.pop() {
        let Some(lr) = t.actions.get(l) else { return Err(format!("state {l} has no row")) };
        let rr = &a.acts[r];
        if items {
            let got = pairs(&t.states[l], g)?;
            let want: BTreeSet<(Core, T)> = a.states[r].iter().flat_map(|(c, la)| la.iter().map(move |x| (*c, *x))).collect();
            if got != want {
                return Err(format!("state {l}: items {got:?}, expected {want:?}"));
            }
        }
        let lk: BTreeSet<_> = lr.keys().copied().collect();
        let rk: BTreeSet<_> = rr.keys().copied().collect();
        if lk != rk && shape {
            return Err(format!("state {l}: entries for {lk:?}, expected {rk:?}"));
        }
        for (k, act) in lr {
            let mut fl = vec![];
            flat(act, &mut fl);
            let Some(want) = rr.get(k) else { continue };
            let mut used = BTreeSet::new();
            for f in &fl {
                let mut m = None;
                for w in want {
                    let ok = match (f, w) {
                        (Action::Shift(i), Act::Shift(j)) | (Action::Goto(i), Act::Goto(j)) => match map.get(i) {
                            None => {
                                map.insert(*i, *j);
                                q.push((*i, *j));
                                true
                            }
                            Some(k) => k == j,
                        },
                        (Action::Reduce(n, p), Act::Reduce(n2, b)) => n == n2 && p.1 == *b && p.0 == g.rules[n2][*b],
                        (Action::Acc, Act::Acc) => true,
                        _ => false,
                    };
                    if ok {
                        m = Some(w.clone());
                    }
                }
                match m {
                    None if shape => return Err(format!("state {l} on {k}: {f:?}, expected {want:?}")),
                    None => (),
                    Some(w) => {
                        used.insert(w);
                    }
                }
            }
            if used != *want && shape {
                return Err(format!("state {l} on {k}: {act:?}, expected {want:?}"));
            }
        }
    }
    Ok(())
}

fn core_of(p: &Position<T>, g: &G) -> Result<Core, String> {
    let bs = g.rules.get(&p.rule).ok_or(format!("item of unknown rule {p:?}"))?;
    if bs.get(p.seq.1) != Some(&p.seq.0) || p.point > p.seq.0.len() {
        return Err(format!("item {p:?} is no item of the grammar"));
    }
    Ok((p.rule, p.seq.1, p.point))
}
pub fn pairs(s: &State<T>, g: &G) -> Result<BTreeSet<(Core, T)>, String> {
    let mut o = BTreeSet::new();
    for p in s {
        let c = core_of(p, g)?;
        for a in &p.look {
            o.insert((c, *a));
        }
    }
    Ok(o)
}
fn cores(s: &State<T>, g: &G) -> Result<BTreeSet<Core>, String> {
    s.iter().map(|p| core_of(p, g)).collect()
}

/// CLR, SLR: the states are the closures of their kernels, successors are exact, all reachable.
fn collection(g: &G, t: &Tabler<T>, slr: bool) -> Result<(), String> {
    let f = first(g);
    let to_items = |s: &State<T>| -> Result<Items, String> {
        let mut it = Items::new();
        for p in s {
            let e = it.entry(core_of(p, g)?).or_default();
            if !slr {
                e.extend(p.look.iter().copied());
            }
        }
        Ok(it)
    };
    let clos = |it: Items| -> Items {
        if slr {
            let mut it = crate::oracle::closure(g, &f, it);
            it.values_mut().for_each(BTreeSet::clear);
            it
        } else {
            crate::oracle::closure(g, &f, it)
        }
    };
    let basis = Items::from([((g.start, 0, 0), BTreeSet::from([g.eof]))]);
    if t.states.is_empty() || to_items(&t.states[0])? != clos(basis) {
        return Err("state 0 is not the closure of the start item".into());
    }
    let mut reached = BTreeSet::from([0]);
    let mut target: BTreeMap<usize, State<T>> = BTreeMap::new();
    for (i, s) in t.states.iter().enumerate() {
        let syms: BTreeSet<T> = s.iter().filter_map(|p| p.seq.0.get(p.point).copied()).collect();
        for x in syms {
            let k: State<T> = s
                .iter()
                .filter(|p| p.seq.0.get(p.point) == Some(&x))
                .map(|p| Position::new(p.rule, p.seq.clone(), p.point + 1, p.look.clone()))
                .collect();
            let Some(j) = t.kernels.get(&k) else { return Err(format!("no state for the {x}-successor of state {i}")) };
            let Some(sj) = t.states.get(*j) else { return Err(format!("{x}-successor of state {i} is {j}, out of range")) };
            if to_items(sj)? != clos(to_items(&k)?) {
                return Err(format!("state {j} is not the closure of the {x}-successor kernel of state {i}"));
            }
            if let Some(o) = target.insert(*j, k.clone()) {
                if o != k {
                    return Err(format!("state {j} has two kernels"));
                }
            }
            if i < *j {
                reached.insert(*j);
            }
        }
    }
    if reached.len() != t.states.len() {
        return Err("some state is the successor of no earlier state".into());
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok,
    Unexpected(T, BTreeSet<T>, usize),
    Conflict,
    Incomplete,
    Loop,
}
/// The textbook driver on the textbook automaton.
pub fn run(g: &G, a: &Auto, w: &[T]) -> Out {
    let mut st = vec![0usize];
    let mut i = 0;
    for _ in 0..10_000 {
        let tok = w.get(i).copied().unwrap_or(g.eof);
        let row = &a.acts[*st.last().unwrap()];
        match row.get(&tok) {
            None => return Out::Unexpected(tok, row.keys().copied().collect(), i),
            Some(s) if s.len() > 1 => return Out::Conflict,
            Some(s) => match s.first().unwrap() {
                Act::Shift(j) => {
                    st.push(*j);
                    i += 1;
                }
                // an input token named as a rule: no terminal, hence unexpected
                Act::Goto(_) => return Out::Unexpected(tok, row.keys().copied().collect(), i),
                Act::Acc => return if i == w.len() { Out::Ok } else { Out::Incomplete },
                Act::Reduce(n, b) => {
                    st.truncate(st.len() - g.rules[n][*b].len());
                    let row = &a.acts[*st.last().unwrap()];
                    match row[n].first().unwrap() {
                        Act::Goto(j) if row[n].len() == 1 => st.push(*j),
                        _ => return Out::Conflict,
                    }
                }
            },
        }
    }
    Out::Loop
}

/// Is `v` the value of a tree with root symbol `x` over w[from..]? Returns the end of its yield.
fn tree(g: &G, num: &[(T, usize)], x: T, v: &Val, w: &[T], from: usize) -> Result<usize, String> {
    match v {
        Val::Leaf(i) => {
            if !g.is_term(x) || *i != from || w.get(from) != Some(&x) {
                return Err(format!("token {i} stands for symbol {x} at position {from}"));
            }
            Ok(from + 1)
        }
        Val::Node(r, ch) => {
            let Some((n, b)) = num.get(*r) else { return Err("unknown reductor".into()) };
            let body = &g.rules[n][*b];
            if *n != x || ch.len() != body.len() || ch.iter().zip(body).any(|(c, s)| c.0 != *s) {
                return Err(format!("reductor of {n} -> {body:?} called with {:?} for symbol {x}", ch.iter().map(|c| c.0).collect::<Vec<_>>()));
            }
            let mut p = from;
            for (s, c) in ch {
                p = tree(g, num, *s, c, w, p)?;
            }
            Ok(p)
        }
    }
}

/// Same outcome; state numbers inside conflicting actions are not compared.
fn same_out(a: &Result<Val, Error<T>>, b: &Result<Val, Error<T>>) -> bool {
    match (a, b) {
        (Err(Error::Conflict(..)), Err(Error::Conflict(..))) => true,
        (a, b) => a == b,
    }
}

pub struct Case {
    pub g: G,
    pub inputs: Vec<Vec<T>>,
}

fn kinds_of(prop: &str) -> &'static [Kind] {
    match prop {
        "C04" | "C10" => &[Kind::Lalr],
        "C08" => &[Kind::Clr],
        "C09" => &[Kind::Slr],
        "C03" => &[Kind::Clr, Kind::Slr],
        _ => &[Kind::Clr, Kind::Slr, Kind::Lalr],
    }
}
pub fn needs_inputs(prop: &str) -> bool {
    matches!(prop, "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C17")
}

/// Checks `prop` on one case; `None`: the case is outside the property's precondition.
pub fn check(prop: &str, c: &Case, cap: usize) -> Option<Result<(), String>> {
    let g = &c.g;
    match prop {
        "C01" => {
            let t = Tabler::new(g.to_lrp());
            let want = first(g);
            return Some(if t.first == want { Ok(()) } else { Err(format!("FIRST is {:?}, expected {want:?}", t.first)) });
        }
        "C02" => {
            let t = Tabler::new(g.to_lrp());
            let want: Tab = follow(g).into_iter().filter(|x| !x.1.is_empty()).collect();
            let got: Tab = t.follow.into_iter().filter(|x| !x.1.is_empty()).collect();
            return Some(if got == want { Ok(()) } else { Err(format!("FOLLOW is {got:?}, expected {want:?}")) });
        }
        "C18" => return Some(grammar_facts(g)),
        _ => {}
    }
    let can = canonical(g, cap)?;
    // The work of the crate grows with the lookaheads of the items; every case must take well under
    // a second, or "does not end" could not be told from "is slow".
    let pairs = |x: &Items| x.values().map(|l| l.len()).sum::<usize>();
    if can.states.iter().map(pairs).sum::<usize>() > 8000 || can.states.iter().map(pairs).max() > Some(1200) {
        return None;
    }
    let num = numbering(g);
    if num.len() > NRED {
        return None;
    }
    let lang = Earley::new(g);
    let m = reductors(g);
    for &k in kinds_of(prop) {
        let a = match k {
            Kind::Clr => Auto { states: can.states.clone(), trans: can.trans.clone(), acts: can.acts.clone() },
            Kind::Slr => merged(g, &can, true),
            Kind::Lalr => merged(g, &can, false),
        };
        let mut p = P3::new(k, g);
        // A table with conflicts may drive the parser around a cycle of unit reductions for ever
        // (SLR only); every property but C17 speaks of runs that end.
        let conflicts = conflict_cells(&a) > 0;
        let part = Case {
            g: g.clone(),
            inputs: c.inputs.iter().filter(|w| !conflicts || run(g, &a, w) != Out::Loop).cloned().collect(),
        };
        let r = one(prop, &part, k, &a, &mut p, &num, &m, &lang);
        if let Err(e) = r {
            return Some(Err(format!("{k:?}: {e}")));
        }
    }
    Some(Ok(()))
}

fn grammar_facts(g: &G) -> Result<(), String> {
    let l = g.to_lrp();
    if l.terminals != g.terminals() {
        return Err(format!("terminals are {:?}, expected {:?}", l.terminals, g.terminals()));
    }
    let syms: BTreeSet<T> = g.terminals().into_iter().chain(g.rules.keys().copied()).collect();
    if l.symbols != syms {
        return Err(format!("symbols are {:?}, expected {syms:?}", l.symbols));
    }
    for s in &syms {
        if l.is_terminal(s) != g.is_term(*s) {
            return Err(format!("is_terminal({s}) is wrong"));
        }
    }
    for (n, bs) in &g.rules {
        let r = &l.rules[n];
        if r.name != *n || r.prods.len() != bs.len() || r.prods.iter().enumerate().any(|(i, p)| p.1 != i || p.0 != bs[i]) {
            return Err(format!("productions of {n} are {:?}", r.prods));
        }
        let one = lrp::grammar::Rule::single(*n, bs[0].clone());
        if one.name != *n || one.prods.len() != 1 || one.prods[0].0 != bs[0] || one.prods[0].1 != 0 {
            return Err("Rule::single".into());
        }
    }
    let b = l.basis();
    if b.rule != g.start || b.seq.0 != g.rules[&g.start][0] || b.point != 0 || b.look != BTreeSet::from([g.eof]) {
        return Err(format!("start item is {b:?}"));
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn one(
    prop: &str,
    c: &Case,
    k: Kind,
    a: &Auto,
    p: &mut P3,
    num: &[(T, usize)],
    m: &ReductMap<Val, T>,
    lang: &Earley,
) -> Result<(), String> {
    let g = &c.g;
    match prop {
        "C03" => return collection(g, p.t(), k == Kind::Slr),
        "C04" => {
            cmp_tables(g, p.t(), a, true, false)?;
            if p.t().states.len() != a.states.len() {
                return Err(format!("{} states, expected {}", p.t().states.len(), a.states.len()));
            }
            // kernels lead to their states
            for (i, s) in p.t().states.iter().enumerate() {
                let ker: State<T> = s.iter().filter(|q| q.point > 0).cloned().collect();
                if i > 0 && p.state_from_kernel(&ker) != Some(i) {
                    return Err(format!("state_from_kernel of the kernel of state {i} is {:?}", p.state_from_kernel(&ker)));
                }
                cores(s, g)?;
            }
        }
        "C05" => {
            if p.t().actions.len() != p.t().states.len() {
                return Err(format!("{} rows for {} states", p.t().actions.len(), p.t().states.len()));
            }
            cmp_tables(g, p.t(), a, false, true)?;
        }
        "C06" => {
            let t = p.t();
            let mut cells = vec![];
            for (i, row) in t.actions.iter().enumerate() {
                for (x, act) in row {
                    let mut fl = vec![];
                    flat(act, &mut fl);
                    let d: BTreeSet<_> = fl.iter().cloned().collect();
                    let is = matches!(act, Action::Conflict(..));
                    if is != (d.len() > 1) {
                        return Err(format!("state {i} on {x}: {act:?}"));
                    }
                    if is {
                        cells.push(act.clone());
                    }
                }
            }
            let got: Vec<_> = t.conflicts().cloned().collect();
            if got != cells {
                return Err(format!("conflicts() yields {} cells of {}", got.len(), cells.len()));
            }
            if !t.actions.is_empty() {
                conflicts_match(g, t, a)?;
            }
        }
        "C16" => {}
        "C07" => {
            for w in &c.inputs {
                if lang.sentence(w) != Some(false) {
                    continue;
                }
                if p.parse(w, m).is_ok() {
                    return Err(format!("input {w:?} is no sentence but is accepted"));
                }
                if p.validate(w) {
                    return Err(format!("input {w:?} is no sentence but is validated"));
                }
            }
        }
        "C08" | "C09" | "C10" => {
            for w in &c.inputs {
                if lang.sentence(w) != Some(true) {
                    continue;
                }
                match p.parse(w, m) {
                    Ok(_) => {}
                    Err(Error::Conflict(..)) => {
                        if run(g, a, w) != Out::Conflict {
                            return Err(format!("sentence {w:?}: conflict reported where there is none"));
                        }
                    }
                    Err(e) => return Err(format!("sentence {w:?} is rejected: {e:?}")),
                }
            }
        }
        "C11" => {
            for w in &c.inputs {
                if let Ok(v) = p.parse(w, m) {
                    let body = &g.rules[&g.start][0];
                    let x = *body.last().unwrap();
                    let n = yield_len(&v);
                    let from = w.len().checked_sub(n).ok_or("value covers more than the input")?;
                    if body.len() == 1 && from != 0 {
                        return Err(format!("input {w:?}: value covers only {n} tokens"));
                    }
                    let e = tree(g, num, x, &v, w, from).map_err(|e| format!("input {w:?}: {e}"))?;
                    if e != w.len() {
                        return Err(format!("input {w:?}: value covers up to {e}"));
                    }
                }
            }
        }
        "C12" => {
            for w in &c.inputs {
                match p.parse(w, m) {
                    Ok(_) | Err(Error::UnexpectedToken(..)) => {}
                    Err(Error::Conflict(..)) if a.acts.iter().any(|r| r.values().any(|c| c.len() > 1)) => {}
                    Err(Error::IncompleteExec) if w.contains(&g.eof) => {}
                    Err(e) => return Err(format!("input {w:?}: {e:?}")),
                }
                if p.validate(w) != p.parse(w, m).is_ok() {
                    return Err(format!("input {w:?}: validate and parse disagree"));
                }
            }
        }
        "C13" => {
            for w in &c.inputs {
                let want = run(g, a, w);
                let mut d = p.dfa(w, m);
                let r = d.start();
                let left = d.buffer.by_ref().count();
                match (&r, &want) {
                    (Err(Error::UnexpectedToken(t, ex)), Out::Unexpected(t2, ex2, i)) => {
                        let got: BTreeSet<T> = ex.iter().copied().collect();
                        if t != t2 || got != *ex2 || got.len() != ex.len() || left != w.len() - i {
                            return Err(format!("input {w:?}: unexpected {t} at {}, expected {ex:?}; should be {t2} at {i}, {ex2:?}", w.len() - left));
                        }
                        let at = (*i + 1).min(w.len());
                        if *i < w.len() && lang.read(&w[..at]).is_some_and(|x| x.0 == at) {
                            return Err(format!("input {w:?}: {t} at {i} reported, but {:?} begins a sentence", &w[..at]));
                        }
                        if *i == w.len() && lang.sentence(w) == Some(true) {
                            return Err(format!("input {w:?}: unexpected end reported for a sentence"));
                        }
                    }
                    (Err(Error::UnexpectedToken(t, _)), _) => return Err(format!("input {w:?}: unexpected token {t} reported; should be {want:?}")),
                    (r, Out::Unexpected(t, _, i)) => return Err(format!("input {w:?}: {r:?}; should report {t} at {i}")),
                    _ => {}
                }
            }
        }
        "C14" => {
            // the first run of the automaton is a plain one, the others reuse it
            let mut d = p.dfa(c.inputs.first().map_or(&[], |w| w), m);
            let _ = d.start();
            for w in c.inputs.iter().chain(c.inputs.iter().rev()) {
                let want = p.parse(w, m);
                let got = d.parse(toks(w).into_iter());
                if got != want {
                    return Err(format!("input {w:?} on a used Dfa: {got:?}, on a new one: {want:?}"));
                }
            }
            for w in c.inputs.iter().take(20) {
                // reset by hand, in the middle of a run and after it
                let mut d = p.dfa(w, m);
                let _ = d.start();
                d.reset();
                d.buffer = toks(w).into_iter().peekable();
                let again = d.start().map(|()| d.items.pop().map(|t| t.item));
                let mut e = p.dfa(w, m);
                let once = e.start().map(|()| e.items.pop().map(|t| t.item));
                if again != once {
                    return Err(format!("input {w:?} after reset: {again:?}, on a new one: {once:?}"));
                }
            }
        }
        "C15" => {
            let before: Vec<_> = c.inputs.iter().map(|w| p.parse(w, m)).collect();
            let n = p.t().actions.len();
            p.reduce_equals();
            for (w, b) in c.inputs.iter().zip(&before) {
                let r = p.parse(w, m);
                if !same_out(&r, b) {
                    return Err(format!("input {w:?}: {r:?} after reduce_equals, {b:?} before"));
                }
            }
            if p.t().actions.len() > n {
                return Err("more rows than before".into());
            }
            let equal = |t: &Tabler<T>| t.actions.iter().collect::<BTreeSet<_>>().len() < t.actions.len();
            if equal(&P3::new(k, g).t()) && p.t().actions.len() == n {
                return Err("there are equal rows, but none was merged".into());
            }
            // the renumbered table behaves like the original one on every path
            if p.t().actions.iter().enumerate().any(|(i, r)| {
                r.values().any(|x| {
                    let mut fl = vec![];
                    flat(x, &mut fl);
                    fl.iter().any(|y| matches!(y, Action::Shift(j) | Action::Goto(j) if *j >= p.t().actions.len()))
                }) || i > n
            }) {
                return Err("a target is out of range".into());
            }
            reduced_bisim(p.t(), &P3::new(k, g))?;
            // a second merge may fold rows that the first made equal
            p.reduce_equals();
            for (w, b) in c.inputs.iter().zip(&before).take(20) {
                let r = p.parse(w, m);
                if !same_out(&r, b) {
                    return Err(format!("input {w:?}: {r:?} after reduce_equals twice, {b:?} before"));
                }
            }
            reduced_bisim(p.t(), &P3::new(k, g))?;
        }
        "C17" => {
            if conflict_cells(a) > 0 || g.reachable().len() < g.rules.len() || g.productive().len() < g.rules.len() {
                return Ok(());
            }
            for w in &c.inputs {
                let mut steps = 0usize;
                let most = 100_000 + 1_000 * w.len();
                let _ = p.dfa(w, m).trace(|_| {
                    steps += 1;
                    assert!(steps < most, "no end on {w:?}: {steps} steps");
                });
                let _ = p.parse(w, m);
            }
        }
        _ => panic!("unknown property {prop}"),
    }
    Ok(())
}

/// Conflict cells against the textbook automaton, along the transitions that agree.
fn conflicts_match(_g: &G, t: &Tabler<T>, a: &Auto) -> Result<(), String> {
    let mut map: BTreeMap<usize, usize> = BTreeMap::from([(0, 0)]);
    let mut q = vec![(0usize, 0usize)];
    while let Some((l, r)) = q.pop() {
        let Some(lr) = t.actions.get(l) else { return Ok(()) };
        for (x, want) in &a.acts[r] {
            let Some(act) = lr.get(x) else {
                if want.len() > 1 {
                    return Err(format!("state {l} on {x}: no entry, conflict of {want:?} expected"));
                }
                continue;
            };
            let mut fl = vec![];
            flat(act, &mut fl);
            let d: BTreeSet<_> = fl.iter().cloned().collect();
            let is = matches!(act, Action::Conflict(..));
            if is != (want.len() > 1) || (is && d.len() != want.len()) {
                return Err(format!("state {l} on {x}: {act:?}, demanded: {want:?}"));
            }
            for f in &fl {
                for w in want {
                    if let (Action::Shift(i), Act::Shift(j)) | (Action::Goto(i), Act::Goto(j)) = (f, w) {
                        if !map.contains_key(i) {
                            map.insert(*i, *j);
                            q.push((*i, *j));
                        }
                    }
                }
            }
        }
        for (x, act) in lr {
            if matches!(act, Action::Conflict(..)) && !a.acts[r].contains_key(x) {
                return Err(format!("state {l} on {x}: {act:?}, nothing demanded"));
            }
        }
    }
    Ok(())
}

fn reduced_bisim(n: &Tabler<T>, o: &P3) -> Result<(), String> {
    let o = o.t();
    let mut seen = BTreeSet::from([(0usize, 0usize)]);
    let mut q = vec![(0usize, 0usize)];
    while let Some((i, j)) = q.pop() {
        let (Some(a), Some(b)) = (n.actions.get(i), o.actions.get(j)) else { return Err(format!("state {i}/{j} missing")) };
        if a.keys().collect::<Vec<_>>() != b.keys().collect::<Vec<_>>() {
            return Err(format!("row {i} (was {j}): entries {:?}, before {:?}", a.keys(), b.keys()));
        }
        for (x, u) in a {
            let (mut fu, mut fv) = (vec![], vec![]);
            flat(u, &mut fu);
            flat(&b[x], &mut fv);
            if fu.len() != fv.len() {
                return Err(format!("row {i} (was {j}) on {x}: {u:?}, before {:?}", b[x]));
            }
            for (u, v) in fu.iter().zip(&fv) {
                match (u, v) {
                    (Action::Shift(s), Action::Shift(t)) | (Action::Goto(s), Action::Goto(t)) => {
                        if seen.insert((*s, *t)) {
                            q.push((*s, *t));
                        }
                    }
                    (u, v) if u == v => {}
                    _ => return Err(format!("row {i} (was {j}) on {x}: {u:?}, before {v:?}")),
                }
            }
        }
    }
    Ok(())
}

fn yield_len(v: &Val) -> usize {
    match v {
        Val::Leaf(_) => 1,
        Val::Node(_, c) => c.iter().map(|c| yield_len(&c.1)).sum(),
    }
}
