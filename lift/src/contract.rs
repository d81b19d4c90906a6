use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct Contract {
    pub key: String,
    pub group: String,
    pub attrs: Vec<String>,
    /// section name -> text
    pub secs: BTreeMap<String, String>,
}

impl Contract {
    pub fn sec(&self, s: &str) -> Option<&str> {
        self.secs.get(s).map(String::as_str)
    }
}

#[derive(Default)]
pub struct Contracts {
    pub map: BTreeMap<String, Contract>,
    /// spec functions, lemmas and axioms of the preludes: contracts name them by path, so that a
    /// local of the lifted function may have the same name
    pub fns: std::collections::BTreeSet<String>,
}

fn words(t: &str) -> Vec<(usize, usize)> {
    let b = t.as_bytes();
    let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if w(b[i]) {
            let mut j = i;
            while j < b.len() && w(b[j]) {
                j += 1;
            }
            v.push((i, j));
            i = j;
        } else {
            i += 1;
        }
    }
    v
}

/// Ghost variables get a prefix, so that they can't shadow a local of the lifted function.
fn ghosts(c: &mut Contract) {
    let mut names = std::collections::BTreeSet::new();
    for t in c.secs.values() {
        let ws = words(t);
        for (k, (i, j)) in ws.iter().enumerate() {
            if &t[*i..*j] == "ghost" && k > 0 && &t[ws[k - 1].0..ws[k - 1].1] == "let" {
                let mut n = ws[k + 1];
                if &t[n.0..n.1] == "mut" {
                    n = ws[k + 2];
                }
                names.insert(t[n.0..n.1].to_string());
            }
        }
    }
    for (s, t) in &mut c.secs {
        if s == "spec" {
            continue;
        }
        let mut out = String::new();
        let mut last = 0;
        for (i, j) in words(t) {
            let p = if i > 0 { t.as_bytes()[i - 1] } else { b' ' };
            if names.contains(&t[i..j]) && p != b'.' && p != b'$' {
                out.push_str(&t[last..i]);
                out.push_str("g_");
                last = i;
            }
        }
        out.push_str(&t[last..]);
        *t = out;
    }
}

impl Contracts {
    /// The names a prelude defines.
    pub fn names(&mut self, text: &str) {
        let ws = words(text);
        for k in 1..ws.len() {
            let (i, j) = ws[k];
            let prev = &text[ws[k - 1].0..ws[k - 1].1];
            if prev == "fn" && k > 1 && matches!(&text[ws[k - 2].0..ws[k - 2].1], "spec" | "proof" | "axiom") {
                self.fns.insert(text[i..j].to_string());
            }
        }
    }
    /// File format: `@@ fn KEY [group=G]` opens a contract; `@NAME args` opens a section (spec,
    /// entry, exit, loop N inv|begin|end|before|after, let NAME); `@attr TEXT` is one line.
    pub fn read(&mut self, path: &str) {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        let mut cur: Vec<Contract> = vec![];
        let mut sec = String::new();
        for line in text.lines() {
            let t = line.trim_start();
            if let Some(rest) = t.strip_prefix("@@ fn ") {
                self.flush(&mut cur);
                let mut group = String::new();
                let mut keys = vec![];
                for w in rest.split_whitespace() {
                    if let Some(g) = w.strip_prefix("group=") {
                        group = g.to_string();
                    } else {
                        keys.push(w.to_string());
                    }
                }
                cur = keys
                    .into_iter()
                    .map(|k| Contract { key: k, group: group.clone(), ..Default::default() })
                    .collect();
                sec = String::new();
            } else if let Some(rest) = t.strip_prefix("@attr ") {
                for c in &mut cur {
                    c.attrs.push(rest.to_string());
                }
            } else if t.starts_with('@') && !t.starts_with("@=") {
                sec = t[1..].trim().to_string();
                for c in &mut cur {
                    c.secs.entry(sec.clone()).or_default();
                }
            } else if !sec.is_empty() {
                for c in &mut cur {
                    let e = c.secs.entry(sec.clone()).or_default();
                    e.push_str(line);
                    e.push('\n');
                }
            }
        }
        self.flush(&mut cur);
    }
    fn flush(&mut self, cur: &mut Vec<Contract>) {
        for c in cur.drain(..) {
            if self.map.contains_key(&c.key) {
                panic!("duplicate contract {}", c.key);
            }
            let mut c = c;
            ghosts(&mut c);
            self.map.insert(c.key.clone(), c);
        }
    }
}
