//! Bounded search over grammars and inputs for one property; also replays one recorded case.
//!   search PROP --seed N --secs S --progress FILE --out REPLAY --stats FILE
//!   search --replay FILE
//! Exit 0: nothing found; 1: a failing case was written to REPLAY (and re-run before that).
mod gram;
mod oracle;
mod props;
use gram::*;
use oracle::*;
use props::*;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const CASE_LIMIT: u64 = 20;

/// Processor time of this process in seconds: a case that waits for a processor is not one that runs on.
fn cpu() -> f64 {
    let t = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = t.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (n(11) + n(12)) / 100.0
}

fn curated() -> Vec<G> {
    let mut v: Vec<G> = include_str!("curated.txt")
        .lines()
        .filter(|l| l.starts_with("start="))
        .map(|l| G::parse(l).expect(l))
        .collect();
    // chains of unit and leading nonterminals of several lengths, both code orders
    for n in [3u8, 5, 8] {
        for rev in [false, true] {
            let nt = |i: u8| if rev { 100 - i } else { 100 + i };
            let mut g = G { start: 1, eof: 255, rules: [(1, vec![vec![nt(0)]])].into() };
            for i in 0..n {
                g.rules.insert(nt(i), vec![vec![nt(i + 1), 10 + i], vec![10, nt(i + 1)]]);
            }
            g.rules.insert(nt(n), vec![vec![50], vec![51]]);
            v.push(g);
            let mut g = G { start: 200, eof: 2, rules: [(200, vec![vec![nt(0)]])].into() };
            for i in 0..n {
                g.rules.insert(nt(i), vec![vec![nt(i + 1)], vec![nt(i), 10 + i, nt(i + 1)]]);
            }
            g.rules.insert(nt(n), vec![vec![50], vec![51, nt(0), 52]]);
            v.push(g);
        }
    }
    v.push(deep(false));
    v.push(deep(true));
    // scale: deep chains, long bodies, many productions, many terminals, deep nesting
    for rev in [false, true] {
        for n in [20u8, 40] {
            let nt = |i: u8| if rev { 150 - i } else { 100 + i };
            let mut g = G { start: 1, eof: 255, rules: [(1, vec![vec![nt(0)]])].into() };
            for i in 0..n {
                g.rules.insert(nt(i), vec![vec![nt(i + 1)]]);
            }
            g.rules.insert(nt(n), vec![vec![50]]);
            v.push(g.clone());
            for i in 0..n {
                g.rules.insert(nt(i), vec![vec![nt(i + 1), 2 + i]]);
            }
            v.push(g.clone());
            for i in 0..n {
                g.rules.insert(nt(i), vec![vec![2 + i, nt(i + 1)]]);
            }
            v.push(g);
        }
        let nt = |i: u8| if rev { 220 - i } else { 60 + i };
        let mut g = G { start: 1, eof: 255, rules: [(1, vec![vec![nt(0)]])].into() };
        (0..140).for_each(|i| drop(g.rules.insert(nt(i), vec![vec![nt(i + 1)]])));
        g.rules.insert(nt(140), vec![vec![50]]);
        v.push(g.clone());
        (0..140).for_each(|i| drop(g.rules.insert(nt(i), vec![vec![nt(i + 1), 2]])));
        v.push(g);
        let (a, z) = if rev { (200, 1) } else { (1, 200) };
        // one rule with many productions; one with a long body; many terminals
        v.push(G { start: a, eof: z, rules: [(a, vec![vec![2]]), (2, (10..90).map(|i| vec![i, i]).collect())].into() });
        v.push(G { start: a, eof: z, rules: [(a, vec![vec![2]]), (2, vec![(0..70).map(|i| 10 + i).collect(), vec![10]])].into() });
        v.push(G { start: a, eof: z, rules: [(a, vec![vec![2]]), (2, vec![vec![3; 40], vec![4]]), (3, vec![vec![5], vec![4, 5]])].into() });
        // more than 256 productions of a rule, states, symbols of a body
        v.push(G { start: a, eof: z, rules: [(a, vec![vec![2]]), (2, (0..289u16).map(|i| vec![10 + (i / 17) as u8, 40 + (i % 17) as u8]).collect())].into() });
        v.push(G { start: a, eof: z, rules: [(a, vec![vec![2]]), (2, vec![vec![3].into_iter().chain([5; 260]).collect(), vec![4]]), (3, vec![vec![5, 6], vec![4]])].into() });
        v.push(G {
            start: a,
            eof: z,
            rules: (0..30u8).map(|i| (10 + i, vec![vec![100, 11 + i, 101], vec![102]])).chain([(a, vec![vec![10]]), (40, vec![vec![103]])]).collect(),
        });
    }
    v
}

/// Nests on the right, with and without a closing token.
fn deep(close: bool) -> G {
    let b = if close { vec![10, 1, 12] } else { vec![10, 1] };
    G { start: 0, eof: 99, rules: [(0, vec![vec![1]]), (1, vec![b, vec![11]])].into() }
}

fn strings(al: &[T], n: usize, cap: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    let mut lo = 0;
    for _ in 0..n {
        let hi = out.len();
        for i in lo..hi {
            for a in al {
                if out.len() >= cap {
                    return out;
                }
                let mut w: Vec<T> = out[i].clone();
                w.push(*a);
                out.push(w);
            }
        }
        lo = hi;
    }
    out
}

fn inputs(g: &G, r: &mut Rng, cap: usize) -> Vec<Vec<T>> {
    let al = g.input_alphabet();
    let mut out = strings(&al, 6, cap);
    let mut n = 1;
    while (al.len() as u64).pow(n as u32 + 1) <= 3000 && n < 8 {
        n += 1;
    }
    let lang: Vec<_> = language(g, n).into_iter().collect();
    let mut sent: Vec<Vec<T>> = vec![];
    for _ in 0..cap.min(lang.len()) {
        sent.push(lang[r.below(lang.len())].clone());
    }
    for s in &sent {
        out.push(s.clone());
        let mut w = s.clone();
        let i = r.below(w.len().max(1));
        match r.below(6) {
            0 if !w.is_empty() => {
                w.remove(i);
            }
            1 => w.insert(i, al[r.below(al.len().max(1)) % al.len().max(1)]),
            2 if !w.is_empty() => w[i] = al[r.below(al.len())],
            3 if w.len() > 1 => w.swap(i, r.below(s.len())),
            4 => w.truncate(i),
            _ => w.push(al[r.below(al.len())]),
        }
        if w.len() <= n {
            out.push(w);
        }
    }
    // longer sentences and their mutations, a few very long ones
    let long = match r.below(120) {
        0 => 1500,
        1..=3 => 400,
        4..=12 => 120,
        _ => 24,
    };
    for _ in 0..6 {
        let Some(s) = derive(g, r, long) else { break };
        let mut w = s.clone();
        out.push(s);
        match r.below(4) {
            0 => {
                w.pop();
            }
            1 => {
                let i = r.below(w.len());
                w[i] = al[r.below(al.len())];
            }
            2 => w.push(al[r.below(al.len())]),
            _ => w.truncate(r.below(w.len() + 1)),
        }
        out.push(w);
    }
    if *g == deep(false) || *g == deep(true) {
        for n in [200, 1100] {
            for m in [0, n - 1, n] {
                out.push([vec![10; n], vec![11], vec![12; m]].concat());
            }
            out.push(vec![10; n]);
        }
    }
    // sentential forms: sentences with a part given by the name of its rule
    for _ in 0..6 {
        let k = 2 + r.below(10);
        out.extend(form(g, r, k));
    }
    // foreign tokens: the end marker, names of rules, symbols of no rule
    let k = out.len();
    let nts: Vec<T> = g.rules.keys().copied().collect();
    for j in 0..12 {
        let mut w = out[r.below(k)].clone();
        let i = if r.below(2) == 0 { w.len() } else { r.below(w.len() + 1) };
        let x = match j % 4 {
            0 | 1 => g.eof,
            2 => nts[r.below(nts.len())],
            _ => 251,
        };
        if r.below(3) == 0 && i < w.len() {
            w[i] = x;
        } else {
            w.insert(i, x);
        }
        out.push(w);
    }
    out.sort();
    out.dedup();
    for i in (1..out.len()).rev() {
        out.swap(i, r.below(i + 1));
    }
    out
}

fn show_case(prop: &str, c: &Case, what: &str) -> String {
    let mut s = format!("property {prop}\ngrammar {}\n", c.g.show());
    for w in &c.inputs {
        s += &format!("input {}\n", w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    }
    s + &format!("what {}\n", what.replace('\n', " "))
}

fn read_case(s: &str) -> Option<(String, Case)> {
    let mut p = None;
    let mut g = None;
    let mut inputs = vec![];
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            p = Some(x.trim().to_string());
        } else if let Some(x) = l.strip_prefix("grammar ") {
            g = G::parse(x);
        } else if let Some(x) = l.strip_prefix("input") {
            inputs.push(x.split_whitespace().map(|y| y.parse().unwrap()).collect());
        }
    }
    Some((p?, Case { g: g?, inputs }))
}

fn run_case(prop: &str, c: &Case, cap: usize) -> Option<Result<(), String>> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(prop, c, cap))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .unwrap_or_else(|| e.downcast_ref::<&str>().unwrap_or(&"?").to_string());
            Some(Err(format!("panic: {m}")))
        }
    }
}

/// Fewer inputs, then fewer productions, while the case still fails.
fn shrink(prop: &str, mut c: Case, cap: usize, end: Instant) -> Case {
    let bad = |c: &Case| matches!(run_case(prop, c, cap), Some(Err(_)));
    if needs_inputs(prop) && c.inputs.len() > 1 {
        if let Some(w) = c.inputs.clone().into_iter().find(|w| bad(&Case { g: c.g.clone(), inputs: vec![w.clone()] })) {
            c.inputs = vec![w];
        }
    }
    'again: while Instant::now() < end {
        for (n, bs) in &c.g.rules {
            for i in 0..bs.len() {
                let mut g = c.g.clone();
                if bs.len() == 1 {
                    if *n == g.start {
                        continue;
                    }
                    g.rules.remove(n);
                    if g.rules.values().flatten().flatten().any(|x| x == n) {
                        continue;
                    }
                } else {
                    g.rules.get_mut(n).unwrap().remove(i);
                }
                if g.input_alphabet().is_empty() {
                    continue;
                }
                let d = Case { g, inputs: c.inputs.clone() };
                if bad(&d) {
                    c = d;
                    continue 'again;
                }
            }
        }
        break;
    }
    c
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let current: Arc<Mutex<(String, Option<f64>)>> = Arc::new(Mutex::new((String::new(), None)));
    if let Some(f) = opt("--replay") {
        let t = std::fs::read_to_string(&f).expect("replay file");
        let (p, c) = read_case(&t).expect("replay file: no case");
        std::thread::spawn(move || {
            while cpu() < 2.0 * CASE_LIMIT as f64 {
                std::thread::sleep(Duration::from_millis(200));
            }
            println!("FAIL no end after {} s", 2 * CASE_LIMIT);
            std::process::exit(1);
        });
        match run_case(&p, &c, 2000) {
            Some(Err(e)) => {
                println!("FAIL {e}");
                std::process::exit(1);
            }
            Some(Ok(())) => println!("HOLDS"),
            None => println!("OUTSIDE the precondition"),
        }
        return;
    }
    let prop = args[0].clone();
    assert!(ALL.contains(&prop.as_str()));
    let seed: u64 = opt("--seed").map_or(1, |s| s.parse().unwrap());
    let secs: u64 = opt("--secs").map_or(10, |s| s.parse().unwrap());
    let progress = opt("--progress").unwrap();
    let out = opt("--out").unwrap();
    let stats = opt("--stats").unwrap();
    let end = Instant::now() + Duration::from_secs(secs);
    let count = Arc::new(AtomicU64::new(0));
    {
        let cur = current.clone();
        let out = out.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let c = cur.lock().unwrap();
            if let Some(t) = c.1 {
                if cpu() - t > CASE_LIMIT as f64 {
                    std::fs::write(&out, format!("{}no end after {CASE_LIMIT} s\n", c.0)).unwrap();
                    println!("FAIL no end after {CASE_LIMIT} s");
                    std::process::exit(1);
                }
            }
        });
    }
    let mut r = Rng(seed.wrapping_mul(0x1234_5678_9abc_def1));
    let mut seen: BTreeSet<G> = BTreeSet::new();
    let mut nontrivial = 0u64;
    let mut runs = 0u64;
    let mut samples: Vec<String> = vec![];
    let part: usize = opt("--part").map_or(0, |s| s.parse().unwrap());
    let parts: usize = opt("--parts").map_or(1, |s| s.parse().unwrap());
    let all = curated();
    let cur: Vec<G> = all.clone().into_iter().enumerate().filter(|x| x.0 % parts == part).map(|x| x.1).collect();
    let mut i = 0usize;
    while Instant::now() < end {
        let (g, cap, icap) = if i < cur.len() {
            (cur[i].clone(), 1500, 300)
        } else {
            let k = i - cur.len();
            let (nt, t, b, l) = match k % 12 {
                0 | 1 => (2, 2, 2, 2),
                2 => (2, 2, 3, 3),
                3 | 4 => (3, 3, 2, 3),
                5 => (4, 3, 3, 3),
                6 => (5, 3, 2, 3),
                7 | 8 => (4, 4, 3, 4),
                9 => (6, 6, 4, 4),
                _ => (3, 3, 2, 3),
            };
            let g = if k % 12 == 10 {
                mutate(&all[r.below(all.len())], &mut r)
            } else {
                random(&mut r, nt, t, b, l)
            };
            let g = if k % 12 == 11 { widen(&g, &mut r) } else { g };
            (g, 60, 60)
        };
        i += 1;
        if !seen.insert(g.clone()) {
            continue;
        }
        let c = Case { inputs: if needs_inputs(&prop) { inputs(&g, &mut r, icap) } else { vec![] }, g };
        let text = show_case(&prop, &c, "");
        std::fs::write(&progress, &text).unwrap();
        *current.lock().unwrap() = (text.trim_end().to_string() + " ", Some(cpu()));
        let res = run_case(&prop, &c, cap);
        current.lock().unwrap().1 = None;
        count.fetch_add(1, Ordering::Relaxed);
        match res {
            None => {}
            Some(Ok(())) => {
                runs += 1 + c.inputs.len() as u64;
                if c.g.rules.len() > 2 && c.g.rules.values().flatten().flatten().any(|x| !c.g.is_term(*x)) {
                    nontrivial += 1;
                    if samples.len() < 4 && nontrivial % 7 == 1 {
                        samples.push(c.g.show());
                    }
                }
            }
            Some(Err(e)) => {
                *current.lock().unwrap() = (text.trim_end().to_string() + " ", None);
                let _ = e;
                // A shrunk case may run for long: the unshrunk one is on disk first.
                std::fs::write(&out, show_case(&prop, &c, &e)).unwrap();
                let d = shrink(&prop, c, cap, Instant::now() + Duration::from_secs(10));
                if let Some(Err(e)) = run_case(&prop, &d, cap) {
                    std::fs::write(&out, show_case(&prop, &d, &e)).unwrap();
                    println!("FAIL {e}");
                } else {
                    println!("FAIL {e}");
                }
                std::process::exit(1);
            }
        }
    }
    let q = |s: &String| format!("\"{}\"", s.replace('"', "'"));
    std::fs::write(
        &stats,
        format!(
            "{{\"evaluations\":{runs},\"grammars\":{},\"distinct_nontrivial\":{nontrivial},\"samples\":[{}]}}\n",
            count.load(Ordering::Relaxed),
            samples.iter().map(q).collect::<Vec<_>>().join(",")
        ),
    )
    .unwrap();
    println!("NONE {} grammars, {runs} runs", count.load(Ordering::Relaxed));
}
