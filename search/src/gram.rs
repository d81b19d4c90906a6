//! Grammars as plain data, a generator, and a printable form. Independent of lrp.
use std::collections::{BTreeMap, BTreeSet};

pub type T = u8;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

/// A grammar: `rules[i] = (name, bodies)`. The first rule is the start rule (one body).
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct G {
    pub start: T,
    pub eof: T,
    pub rules: BTreeMap<T, Vec<Vec<T>>>,
}

impl G {
    pub fn is_term(&self, t: T) -> bool {
        !self.rules.contains_key(&t)
    }
    pub fn terminals(&self) -> BTreeSet<T> {
        let mut s: BTreeSet<T> = self
            .rules
            .values()
            .flatten()
            .flatten()
            .copied()
            .filter(|t| self.is_term(*t))
            .collect();
        s.insert(self.eof);
        s
    }
    pub fn input_alphabet(&self) -> Vec<T> {
        self.terminals().into_iter().filter(|t| *t != self.eof).collect()
    }
    pub fn show(&self) -> String {
        let mut s = format!("start={} eof={};", self.start, self.eof);
        for (n, bs) in &self.rules {
            for b in bs {
                s += &format!(
                    " {} -> {} ;",
                    n,
                    b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
                );
            }
        }
        s
    }
    /// Inverse of `show`.
    pub fn parse(s: &str) -> Option<G> {
        let mut parts = s.split(';');
        let head = parts.next()?;
        let mut start = 0;
        let mut eof = 0;
        for w in head.split_whitespace() {
            if let Some(x) = w.strip_prefix("start=") {
                start = x.parse().ok()?;
            }
            if let Some(x) = w.strip_prefix("eof=") {
                eof = x.parse().ok()?;
            }
        }
        let mut rules: BTreeMap<T, Vec<Vec<T>>> = BTreeMap::new();
        for p in parts {
            let p = p.trim();
            if p.is_empty() {
                continue;
            }
            let (n, b) = p.split_once("->")?;
            let n: T = n.trim().parse().ok()?;
            let b: Option<Vec<T>> = b.split_whitespace().map(|x| x.parse().ok()).collect();
            rules.entry(n).or_default().push(b?);
        }
        Some(G { start, eof, rules })
    }
    pub fn to_lrp(&self) -> lrp::Grammar<T> {
        let mut m = lrp::RuleMap::new();
        for (n, bs) in &self.rules {
            m.insert(*n, lrp::grammar::Rule::new(*n, bs.clone()));
        }
        lrp::Grammar::new(self.start, m, self.eof)
    }
    /// All nonterminals reachable from the start.
    pub fn reachable(&self) -> BTreeSet<T> {
        let mut seen = BTreeSet::from([self.start]);
        loop {
            let mut add = BTreeSet::new();
            for n in &seen {
                for b in &self.rules[n] {
                    for x in b {
                        if !self.is_term(*x) && !seen.contains(x) {
                            add.insert(*x);
                        }
                    }
                }
            }
            if add.is_empty() {
                return seen;
            }
            seen.extend(add);
        }
    }
    pub fn productive(&self) -> BTreeSet<T> {
        let mut ok: BTreeSet<T> = BTreeSet::new();
        loop {
            let mut add = BTreeSet::new();
            for (n, bs) in &self.rules {
                if !ok.contains(n)
                    && bs.iter().any(|b| b.iter().all(|x| self.is_term(*x) || ok.contains(x)))
                {
                    add.insert(*n);
                }
            }
            if add.is_empty() {
                return ok;
            }
            ok.extend(add);
        }
    }
}

/// Random augmented grammar without empty bodies; symbol codes are shuffled so that the
/// relative order of terminals, nonterminals and eof varies.
pub fn random(r: &mut Rng, max_nt: usize, max_t: usize, max_bodies: usize, max_len: usize) -> G {
    let nnt = 1 + r.below(max_nt);
    let nt_ = 1 + r.below(max_t);
    let mut codes: Vec<T> = (1..=(nnt + nt_ + 2) as u8).collect();
    for i in (1..codes.len()).rev() {
        codes.swap(i, r.below(i + 1));
    }
    let eof = codes[0];
    let start = codes[1];
    let nts = &codes[2..2 + nnt];
    let ts = &codes[2 + nnt..];
    let mut rules: BTreeMap<T, Vec<Vec<T>>> = BTreeMap::new();
    let bias = 2 + r.below(5);
    for n in nts {
        let nb = 1 + r.below(max_bodies);
        let mut bs = Vec::new();
        for _ in 0..nb {
            let l = 1 + r.below(max_len);
            let b: Vec<T> = (0..l)
                .map(|_| {
                    if r.below(8) < bias {
                        ts[r.below(ts.len())]
                    } else {
                        nts[r.below(nts.len())]
                    }
                })
                .collect();
            if b.len() == 1 && b[0] == *n {
                continue;
            }
            if !bs.contains(&b) || r.below(20) == 0 {
                bs.push(b);
            }
        }
        if bs.is_empty() {
            bs.push(vec![ts[r.below(ts.len())]]);
        }
        rules.insert(*n, bs);
    }
    let sb = if r.below(6) == 0 {
        let l = 1 + r.below(3);
        (0..l)
            .map(|_| if r.below(3) == 0 { ts[r.below(ts.len())] } else { nts[r.below(nts.len())] })
            .collect()
    } else {
        vec![nts[0]]
    };
    rules.insert(start, vec![sb]);
    G { start, eof, rules }
}

/// The codes of a grammar that are not in use.
fn unused(g: &G) -> Vec<T> {
    let mut used: BTreeSet<T> = g.rules.keys().copied().collect();
    used.extend(g.terminals());
    (1..250).filter(|x| !used.contains(x)).collect()
}

/// Replaces a terminal by many: every body with it comes once per copy.
pub fn widen(g: &G, r: &mut Rng) -> G {
    let mut g = g.clone();
    for _ in 0..1 + r.below(2) {
        let al = g.input_alphabet();
        let free = unused(&g);
        if al.is_empty() || free.len() < 40 {
            break;
        }
        let t = al[r.below(al.len())];
        let n = 3 + r.below(18);
        for bs in g.rules.iter_mut().filter(|x| *x.0 != g.start).map(|x| x.1) {
            if bs.len() > 30 {
                continue;
            }
            for b in bs.clone() {
                if b.contains(&t) {
                    for k in 0..n {
                        let c: Vec<T> = b.iter().map(|x| if *x == t { free[(k * 7 + t as usize) % free.len()] } else { *x }).collect();
                        if !bs.contains(&c) {
                            bs.push(c);
                        }
                    }
                }
            }
        }
    }
    g
}

/// A few random edits of a grammar.
pub fn mutate(g: &G, r: &mut Rng) -> G {
    let mut g = g.clone();
    for _ in 0..1 + r.below(4) {
        let nts: Vec<T> = g.rules.keys().copied().filter(|x| *x != g.start).collect();
        let al = g.input_alphabet();
        if nts.is_empty() || al.is_empty() {
            return g;
        }
        let n = nts[r.below(nts.len())];
        let any = if r.below(2) == 0 { nts[r.below(nts.len())] } else { al[r.below(al.len())] };
        let free = unused(&g);
        let bs = g.rules.get_mut(&n).unwrap();
        let i = r.below(bs.len());
        match r.below(10) {
            8 if bs.len() < 40 => {
                for _ in 0..1 + r.below(4) {
                    let b = bs[i].clone();
                    let k = bs.len();
                    bs.insert(r.below(k + 1), b);
                }
            }
            0 if bs.len() > 1 => {
                bs.remove(i);
            }
            1 if bs.len() < 90 => {
                let mut b = bs[i].clone();
                let j = r.below(b.len());
                b[j] = any;
                bs.push(b);
            }
            2 => {
                let j = r.below(bs[i].len());
                bs[i][j] = any;
            }
            3 if bs[i].len() > 1 => {
                let j = r.below(bs[i].len());
                bs[i].remove(j);
            }
            4 => {
                let j = r.below(bs[i].len() + 1);
                bs[i].insert(j, any);
            }
            5 if free.len() > 10 => {
                // a new nonterminal for the tail of a body
                let j = r.below(bs[i].len());
                let tail = bs[i].split_off(j);
                let m = free[r.below(free.len())];
                bs[i].push(m);
                g.rules.insert(m, vec![tail]);
            }
            6 if bs.len() < 90 => {
                bs.push(vec![any]);
            }
            7 => {
                // two symbols trade codes
                let (a, b) = (n, al[r.below(al.len())]);
                let sw = |x: T| if x == a { b } else if x == b { a } else { x };
                g.rules = g
                    .rules
                    .iter()
                    .map(|(k, bs)| (sw(*k), bs.iter().map(|x| x.iter().map(|y| sw(*y)).collect()).collect()))
                    .collect();
            }
            _ => {
                let k = bs.len();
                bs.swap(i, r.below(k));
            }
        }
        for (n, bs) in g.rules.iter_mut() {
            if bs.len() > 1 {
                bs.retain(|b| b.len() != 1 || b[0] != *n);
            }
        }
        if g.rules.values().any(|x| x.is_empty()) || g.rules.iter().any(|(n, bs)| bs.iter().any(|b| b.len() == 1 && b[0] == *n)) {
            return mutate_base(g);
        }
    }
    g
}

/// Drops what a mutation made degenerate.
fn mutate_base(mut g: G) -> G {
    let al = g.input_alphabet();
    let t = al.first().copied().unwrap_or(249);
    for (n, bs) in g.rules.iter_mut() {
        bs.retain(|b| b.len() != 1 || b[0] != *n);
        if bs.is_empty() {
            bs.push(vec![t]);
        }
    }
    g
}

/// A random sentence of about `size` tokens (the smallest derivations once the size is used up).
pub fn derive(g: &G, r: &mut Rng, size: usize) -> Option<Vec<T>> {
    // least number of tokens of every nonterminal, and the body that attains it first
    let mut least: BTreeMap<T, (usize, usize)> = BTreeMap::new();
    loop {
        let mut ch = false;
        for (n, bs) in &g.rules {
            if least.contains_key(n) {
                continue;
            }
            for (i, b) in bs.iter().enumerate() {
                if b.iter().all(|x| g.is_term(*x) || least.contains_key(x)) {
                    let l = b.iter().map(|x| least.get(x).map_or(1, |y| y.0)).fold(0, usize::saturating_add);
                    least.insert(*n, (l, i));
                    ch = true;
                    break;
                }
            }
        }
        if !ch {
            break;
        }
    }
    least.get(&g.start)?;
    if least[&g.start].0 > 2000 {
        return None;
    }
    let mut out = vec![];
    let mut todo = vec![g.start];
    let mut pending = least[&g.start].0;
    let mut steps = 0;
    while let Some(x) = todo.pop() {
        let Some(bs) = g.rules.get(&x) else {
            out.push(x);
            pending -= 1;
            continue;
        };
        steps += 1;
        pending -= least[&x].0;
        let fit: Vec<usize> = (0..bs.len())
            .filter(|i| bs[*i].iter().all(|y| g.is_term(*y) || least.contains_key(y)))
            .filter(|i| steps < 4 * size && out.len() + pending + bs[*i].iter().map(|y| least.get(y).map_or(1, |z| z.0)).sum::<usize>() <= size)
            .collect();
        // prefer bodies that keep the derivation going
        let rec: Vec<usize> = fit.iter().copied().filter(|i| bs[*i].len() > 1 && bs[*i].iter().any(|y| !g.is_term(*y))).collect();
        let i = if !rec.is_empty() && r.below(4) > 0 {
            rec[r.below(rec.len())]
        } else if fit.is_empty() {
            least[&x].1
        } else {
            fit[r.below(fit.len())]
        };
        for y in bs[i].iter().rev() {
            pending += least.get(y).map_or(1, |z| z.0);
            todo.push(*y);
        }
    }
    Some(out)
}

/// A sentential form: a sentence in which some nonterminals stay as they are.
pub fn form(g: &G, r: &mut Rng, size: usize) -> Option<Vec<T>> {
    let mut w = g.rules[&g.start][0].clone();
    for _ in 0..size {
        let at: Vec<usize> = (0..w.len()).filter(|i| g.rules.contains_key(&w[*i])).collect();
        if at.is_empty() || w.len() > 30 {
            break;
        }
        let i = at[r.below(at.len())];
        let bs = &g.rules[&w[i]];
        let b = bs[r.below(bs.len())].clone();
        w.splice(i..=i, b);
    }
    Some(w)
}
