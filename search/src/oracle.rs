//! Textbook definitions, computed naively and independently of lrp.
use crate::gram::{G, T};
use std::collections::{BTreeMap, BTreeSet};

pub type Tab = BTreeMap<T, BTreeSet<T>>;

pub fn first(g: &G) -> Tab {
    let mut f: Tab = g.rules.keys().map(|k| (*k, BTreeSet::new())).collect();
    loop {
        let mut ch = false;
        for (n, bs) in &g.rules {
            for b in bs {
                let add: BTreeSet<T> =
                    if g.is_term(b[0]) { BTreeSet::from([b[0]]) } else { f[&b[0]].clone() };
                let e = f.get_mut(n).unwrap();
                let l = e.len();
                e.extend(add);
                ch |= e.len() != l;
            }
        }
        if !ch {
            return f;
        }
    }
}

pub fn first_sym(g: &G, f: &Tab, x: T) -> BTreeSet<T> {
    if g.is_term(x) {
        BTreeSet::from([x])
    } else {
        f[&x].clone()
    }
}

/// FOLLOW; nonterminals that nothing follows are absent or empty.
pub fn follow(g: &G) -> Tab {
    let f = first(g);
    let mut fo: Tab = g.rules.keys().map(|k| (*k, BTreeSet::new())).collect();
    fo.get_mut(&g.start).unwrap().insert(g.eof);
    loop {
        let mut ch = false;
        for (n, bs) in &g.rules {
            for b in bs {
                for i in 0..b.len() {
                    if g.is_term(b[i]) {
                        continue;
                    }
                    let add = if i + 1 < b.len() { first_sym(g, &f, b[i + 1]) } else { fo[n].clone() };
                    let e = fo.get_mut(&b[i]).unwrap();
                    let l = e.len();
                    e.extend(add);
                    ch |= e.len() != l;
                }
            }
        }
        if !ch {
            return fo;
        }
    }
}

/// (rule, body index, dot)
pub type Core = (T, usize, usize);
pub type Items = BTreeMap<Core, BTreeSet<T>>;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Act {
    Shift(usize),
    Goto(usize),
    Reduce(T, usize),
    Acc,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Slr,
    Lalr,
    Clr,
}

pub struct Auto {
    pub states: Vec<Items>,
    pub trans: Vec<BTreeMap<T, usize>>,
    pub acts: Vec<BTreeMap<T, BTreeSet<Act>>>,
}

pub fn closure(g: &G, f: &Tab, mut it: Items) -> Items {
    loop {
        let mut ch = false;
        let cur = it.clone();
        for ((n, b, d), la) in &cur {
            let body = &g.rules[n][*b];
            if *d >= body.len() || g.is_term(body[*d]) {
                continue;
            }
            let x = body[*d];
            let add = if d + 1 < body.len() { first_sym(g, f, body[d + 1]) } else { la.clone() };
            for j in 0..g.rules[&x].len() {
                if !it.contains_key(&(x, j, 0)) {
                    ch = true;
                }
                let e = it.entry((x, j, 0)).or_default();
                let l = e.len();
                e.extend(add.iter().copied());
                ch |= e.len() != l;
            }
        }
        if !ch {
            return it;
        }
    }
}

fn kernel_goto(g: &G, it: &Items, x: T) -> Items {
    it.iter()
        .filter(|((n, b, d), _)| g.rules[n][*b].get(*d) == Some(&x))
        .map(|((n, b, d), la)| ((*n, *b, d + 1), la.clone()))
        .collect()
}

/// Canonical LR(1) automaton, or `None` when it exceeds `cap` states.
pub fn canonical(g: &G, cap: usize) -> Option<Auto> {
    let f = first(g);
    let s0 = closure(g, &f, BTreeMap::from([((g.start, 0, 0), BTreeSet::from([g.eof]))]));
    let mut states = vec![s0];
    let mut trans: Vec<BTreeMap<T, usize>> = vec![];
    let syms: BTreeSet<T> = g.rules.keys().copied().chain(g.terminals()).collect();
    let mut i = 0;
    while i < states.len() {
        let mut tr = BTreeMap::new();
        for x in &syms {
            let k = kernel_goto(g, &states[i], *x);
            if k.is_empty() {
                continue;
            }
            let c = closure(g, &f, k);
            let id = states.iter().position(|s| *s == c).unwrap_or_else(|| {
                states.push(c);
                states.len() - 1
            });
            tr.insert(*x, id);
        }
        trans.push(tr);
        if states.len() > cap {
            return None;
        }
        i += 1;
    }
    let mut a = Auto { states, trans, acts: vec![] };
    fill(g, &mut a, None);
    Some(a)
}

/// LALR(1) (canonical merged by core) or SLR(1) (LR(0) cores with FOLLOW).
pub fn merged(g: &G, c: &Auto, slr: bool) -> Auto {
    let core = |s: &Items| s.keys().copied().collect::<BTreeSet<Core>>();
    let mut ids: BTreeMap<BTreeSet<Core>, usize> = BTreeMap::new();
    let mut map = vec![];
    let mut states: Vec<Items> = vec![];
    for s in &c.states {
        let k = core(s);
        let id = *ids.entry(k).or_insert_with(|| {
            states.push(s.keys().map(|k| (*k, BTreeSet::new())).collect());
            states.len() - 1
        });
        for (c, la) in s {
            states[id].get_mut(c).unwrap().extend(la.iter().copied());
        }
        map.push(id);
    }
    let mut trans = vec![BTreeMap::new(); states.len()];
    for (i, t) in c.trans.iter().enumerate() {
        for (x, j) in t {
            trans[map[i]].insert(*x, map[*j]);
        }
    }
    let mut a = Auto { states, trans, acts: vec![] };
    let fo = follow(g);
    fill(g, &mut a, if slr { Some(&fo) } else { None });
    a
}

fn fill(g: &G, a: &mut Auto, follow: Option<&Tab>) {
    for (i, s) in a.states.iter().enumerate() {
        let mut row: BTreeMap<T, BTreeSet<Act>> = BTreeMap::new();
        for (x, j) in &a.trans[i] {
            row.entry(*x)
                .or_default()
                .insert(if g.is_term(*x) { Act::Shift(*j) } else { Act::Goto(*j) });
        }
        for ((n, b, d), la) in s {
            if *d == g.rules[n][*b].len() {
                let la = follow.map_or(la, |f| &f[n]);
                for l in la {
                    row.entry(*l).or_default().insert(if *n == g.start {
                        Act::Acc
                    } else {
                        Act::Reduce(*n, *b)
                    });
                }
            }
        }
        a.acts.push(row);
    }
}

pub fn conflict_cells(a: &Auto) -> usize {
    a.acts.iter().flat_map(|r| r.values()).filter(|c| c.len() > 1).count()
}

/// All sentences (from the start symbol) of length at most `n`.
pub fn language(g: &G, n: usize) -> BTreeSet<Vec<T>> {
    let mut l: BTreeMap<T, BTreeSet<Vec<T>>> =
        g.rules.keys().map(|k| (*k, BTreeSet::new())).collect();
    loop {
        let mut ch = false;
        for (nt, bs) in &g.rules {
            for b in bs {
                let mut acc: BTreeSet<Vec<T>> = BTreeSet::from([vec![]]);
                for (i, x) in b.iter().enumerate() {
                    let rest = b.len() - i - 1;
                    let mut next = BTreeSet::new();
                    for p in &acc {
                        if g.is_term(*x) {
                            if p.len() + 1 + rest <= n {
                                let mut q = p.clone();
                                q.push(*x);
                                next.insert(q);
                            }
                        } else {
                            for s in &l[x] {
                                if p.len() + s.len() + rest <= n {
                                    let mut q = p.clone();
                                    q.extend(s);
                                    next.insert(q);
                                }
                            }
                        }
                    }
                    acc = next;
                }
                let e = l.get_mut(nt).unwrap();
                let k = e.len();
                e.extend(acc);
                ch |= e.len() != k;
            }
        }
        if !ch {
            return l.remove(&g.start).unwrap();
        }
    }
}

/// Earley recognition of `w` read from the left: how many tokens form a prefix of some sentence
/// (capped by the length of `w`), and whether `w` is a sentence.
pub struct Earley {
    rules: BTreeMap<T, Vec<Vec<T>>>,
    start: T,
}
impl Earley {
    pub fn new(g: &G) -> Earley {
        let ok = g.productive();
        let rules = g
            .rules
            .iter()
            .map(|(n, bs)| (*n, bs.iter().filter(|b| b.iter().all(|x| g.is_term(*x) || ok.contains(x))).cloned().collect()))
            .collect();
        Earley { rules, start: g.start }
    }
    /// `None`: more work than it is worth (long inputs of ambiguous grammars).
    pub fn read(&self, w: &[T]) -> Option<(usize, bool)> {
        let mut work = 0usize;
        // item: (rule, body, dot, origin)
        let mut sets: Vec<BTreeSet<(T, usize, usize, usize)>> = vec![BTreeSet::new()];
        for b in 0..self.rules[&self.start].len() {
            sets[0].insert((self.start, b, 0, 0));
        }
        for i in 0..=w.len() {
            let mut todo: Vec<_> = sets[i].iter().copied().collect();
            let mut next = BTreeSet::new();
            while let Some((n, b, d, o)) = todo.pop() {
                let body = &self.rules[&n][b];
                let mut add = vec![];
                if d == body.len() {
                    for (m, c, e, p) in &sets[o] {
                        if self.rules[m][*c].get(*e) == Some(&n) {
                            add.push((*m, *c, e + 1, *p));
                        }
                    }
                } else if let Some(bs) = self.rules.get(&body[d]) {
                    add.extend((0..bs.len()).map(|c| (body[d], c, 0, i)));
                } else if w.get(i) == Some(&body[d]) {
                    next.insert((n, b, d + 1, o));
                }
                work += 1 + add.len();
                if work > 300_000 {
                    return None;
                }
                for x in add {
                    if sets[i].insert(x) {
                        todo.push(x);
                    }
                }
            }
            if i == w.len() {
                let full = |x: &&(T, usize, usize, usize)| x.0 == self.start && x.3 == 0 && x.2 == self.rules[&x.0][x.1].len();
                return Some((i, sets[i].iter().any(|x| full(&x))));
            }
            if next.is_empty() {
                return Some((i, false));
            }
            sets.push(next);
        }
        unreachable!()
    }
    pub fn sentence(&self, w: &[T]) -> Option<bool> {
        self.read(w).map(|x| x.1)
    }
}
