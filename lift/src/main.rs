//! lift: mechanical translation of the functions of /repo/src that carry a contract into one Verus
//! file.  Every construct that is not in the supported subset makes the function `unsupported`
//! (reported, never guessed).  See /verif/DESIGN.md, "What the extraction drops".
mod contract;
mod emit;
mod krate;
mod ret;
mod shapes;

use std::collections::BTreeMap;
use std::fs;

fn main() {
    let mut src = String::new();
    let mut out = String::new();
    let mut contracts: Vec<String> = vec![];
    let mut preludes: Vec<String> = vec![];
    let mut baseline: Option<String> = None;
    let mut write_baseline: Option<String> = None;
    let mut report: Option<String> = None;
    let mut bare = false;
    let mut stubs: Vec<String> = vec![];
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--src" => src = it.next().unwrap(),
            "--out" => out = it.next().unwrap(),
            "--contract" => contracts.push(it.next().unwrap()),
            "--prelude" => preludes.push(it.next().unwrap()),
            "--baseline" => baseline = it.next(),
            "--write-baseline" => write_baseline = it.next(),
            "--report" => report = it.next(),
            "--stub" => stubs.push(it.next().unwrap()),
            "--bare" => bare = true,
            _ => panic!("unknown argument {a}"),
        }
    }
    let mut kr = match krate::load(&src) {
        Ok(k) => k,
        Err(e) => {
            eprintln!("LIFT-ERROR: {e}");
            std::process::exit(3);
        }
    };
    let mut cs = contract::Contracts::default();
    for c in &contracts {
        cs.read(c);
    }
    let base: BTreeMap<String, Vec<(String, String)>> = baseline
        .and_then(|p| fs::read_to_string(p).ok())
        .map(|s| {
            s.lines()
                .filter_map(|l| {
                    let (k, v) = l.split_once('=')?;
                    Some((
                        k.trim().to_string(),
                        v.split_whitespace().filter_map(|x| x.split_once('~')).map(|(a, b)| (a.to_string(), b.to_string())).collect(),
                    ))
                })
                .collect()
        })
        .unwrap_or_default();
    let mut text = String::new();
    for p in &preludes {
        let t = fs::read_to_string(p).unwrap();
        cs.names(&t);
        text.push_str(&t);
        text.push('\n');
    }
    krate::renamed(&mut kr, &base);
    emit::unclash(&mut kr, &cs);
    let res = emit::emit_all(&kr, &cs, &base, bare, &stubs);
    text.push_str(&res.text);
    text.push_str("\n} // verus!\nfn main() {}\n");
    fs::write(&out, text).unwrap();
    if let Some(p) = write_baseline {
        let mut s = String::new();
        for (k, v) in &res.names {
            let v: Vec<String> = v.iter().map(|(a, b)| format!("{a}~{b}")).collect();
            s.push_str(&format!("{k} = {}\n", v.join(" ")));
        }
        for f in &kr.fns {
            if res.names.contains_key(&f.key()) {
                s.push_str(&format!("sig {} = sig~{}\n", f.key(), krate::types(&f.sig)));
            }
        }
        fs::write(p, s).unwrap();
    }
    let mut rep = String::new();
    for f in &res.lifted {
        rep.push_str(&format!("FN {f}\n"));
    }
    for f in &res.stubbed {
        rep.push_str(&format!("STUBBED {f}\n"));
    }
    for f in &res.inlined {
        rep.push_str(&format!("INLINED {f}\n"));
    }
    for f in &res.uncontracted {
        rep.push_str(&format!("UNCONTRACTED {f}\n"));
    }
    for (f, e) in &res.errors {
        rep.push_str(&format!("UNSUPPORTED {f}: {e}\n"));
    }
    for (f, e) in &res.lost {
        rep.push_str(&format!("LOST {f}: {e}\n"));
    }
    if let Some(p) = report {
        fs::write(p, &rep).unwrap();
    } else {
        print!("{rep}");
    }
}
