//! Rewrites of statement shapes, with the same meaning, before lifting.
use proc_macro2::Span;
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Ident, Pat, Stmt};

/// Takes the reference patterns below the top out of `p`: the binding `x` in `&x` becomes `x__d`
/// and is listed.
fn strip_refs(p: &mut Pat, under: bool, out: &mut Vec<(Ident, bool)>) -> bool {
    if let Pat::Reference(r) = p {
        let inner = (*r.pat).clone();
        *p = inner;
        return strip_refs(p, true, out);
    }
    match p {
        Pat::Ident(i) => {
            if under && i.subpat.is_none() && i.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
                let old = i.ident.clone();
                let m = i.mutability.is_some();
                i.mutability = None;
                i.ident = Ident::new(&format!("{old}__d"), Span::call_site());
                out.push((old, m));
            }
            i.subpat.is_none()
        }
        Pat::Tuple(t) => t.elems.iter_mut().all(|p| strip_refs(p, under, out)),
        Pat::TupleStruct(t) => t.elems.iter_mut().all(|p| strip_refs(p, under, out)),
        Pat::Struct(s) => {
            if under {
                for f in &mut s.fields {
                    f.colon_token = Some(Default::default());
                }
            }
            s.fields.iter_mut().all(|f| strip_refs(&mut f.pat, under, out))
        }
        Pat::Paren(q) => strip_refs(&mut q.pat, under, out),
        Pat::Wild(_) | Pat::Path(_) | Pat::Lit(_) | Pat::Rest(_) => true,
        Pat::Or(_) => !has_ref(p),
        _ => false,
    }
}
fn has_ref(p: &Pat) -> bool {
    struct H(bool);
    impl<'a> syn::visit::Visit<'a> for H {
        fn visit_pat_reference(&mut self, _: &'a syn::PatReference) {
            self.0 = true;
        }
    }
    let mut h = H(false);
    syn::visit::Visit::visit_pat(&mut h, p);
    h.0
}
/// The pattern without reference patterns, and the derefs it takes.
fn deref(p: &Pat) -> Option<(Pat, Vec<(Ident, bool)>)> {
    if !has_ref(p) {
        return None;
    }
    let mut q = p.clone();
    let mut v = vec![];
    strip_refs(&mut q, false, &mut v).then_some((q, v))
}
fn lets(v: &[(Ident, bool)]) -> Vec<Stmt> {
    v.iter()
        .map(|(x, m)| {
            let d = Ident::new(&format!("{x}__d"), Span::call_site());
            let s: Stmt = if *m { parse_quote!(let mut #x = *#d;) } else { parse_quote!(let #x = *#d;) };
            s
        })
        .collect()
}
struct Sub<'a>(&'a [(Ident, bool)]);
impl<'a> VisitMut for Sub<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if self.0.iter().any(|(x, _)| x == i) {
                    let d = Ident::new(&format!("{i}__d"), Span::call_site());
                    *e = parse_quote!((*#d));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// Reference patterns in the `let`s of a condition.
fn cond(c: &mut Expr, out: &mut Vec<(Ident, bool)>) {
    match c {
        Expr::Let(l) => {
            Sub(out).visit_expr_mut(&mut l.expr);
            if let Some((q, v)) = deref(&l.pat) {
                *l.pat = q;
                out.extend(v);
            }
        }
        Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
            cond(&mut b.left, out);
            cond(&mut b.right, out);
        }
        Expr::Paren(p) => cond(&mut p.expr, out),
        e => Sub(out).visit_expr_mut(e),
    }
}

fn is_panic(b: &Expr) -> bool {
    let e = match b {
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(e, _)) => e,
            _ => return false,
        },
        e => e,
    };
    e.to_token_stream().to_string().replace(' ', "") == "vpanic()"
}
struct Names(Vec<Ident>);
impl<'a> syn::visit::Visit<'a> for Names {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.push(p.ident.clone());
        syn::visit::visit_pat_ident(self, p);
    }
}

/// `P.pop();`
fn pop_of(b: &Block) -> Option<Expr> {
    let [Stmt::Expr(Expr::MethodCall(m), Some(_))] = &b.stmts[..] else { return None };
    (m.method == "pop" && m.args.is_empty() && matches!(&*m.receiver, Expr::Path(_) | Expr::Field(_))).then(|| (*m.receiver).clone())
}
fn pops(e: &Expr) -> Option<Expr> {
    match e {
        Expr::ForLoop(f) if f.label.is_none() && matches!(&*f.pat, Pat::Wild(_)) => {
            let p = pop_of(&f.body)?;
            let Expr::Range(r) = &*f.expr else { return None };
            let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) else { return None };
            (a.to_token_stream().to_string() == "0").then(|| parse_quote!(v_popn(&mut #p, #b)))
        }
        Expr::While(w) if w.label.is_none() => {
            let p = pop_of(&w.body)?;
            let Expr::Binary(b) = &*w.cond else { return None };
            let (l, r) = match b.op {
                syn::BinOp::Gt(_) => (&b.left, &b.right),
                syn::BinOp::Lt(_) => (&b.right, &b.left),
                _ => return None,
            };
            let len: Expr = parse_quote!(#p.len());
            let simple = matches!(&**r, Expr::Path(_) | Expr::Lit(_));
            (**l == len && simple).then(|| parse_quote!(#p.truncate(#r)))
        }
        _ => None,
    }
}

// ---------------------------------------------------------------- map entries
thread_local! { static FRESH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
fn fresh(s: &str) -> Ident {
    let n = FRESH.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    Ident::new(&format!("{s}{n}"), proc_macro2::Span::call_site())
}
/// `M.entry(K)` of a place `M`.
fn entry_of(e: &Expr) -> Option<(Expr, Expr)> {
    let Expr::MethodCall(m) = strip_par(e) else { return None };
    (m.method == "entry" && m.args.len() == 1 && is_place(&m.receiver)).then(|| ((*m.receiver).clone(), m.args[0].clone()))
}
/// The uses of an entry `e` of the map `m` at the key `k`.
struct EntryUse<'a> {
    e: &'a Ident,
    m: &'a Expr,
    k: &'a Ident,
    occupied: bool,
    bad: bool,
}
impl<'a> VisitMut for EntryUse<'a> {
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        if let Expr::MethodCall(c) = x {
            if matches!(&*c.receiver, Expr::Path(p) if p.path.is_ident(self.e)) {
                for a in &mut c.args {
                    self.visit_expr_mut(a);
                }
                let (m, k, a) = (self.m, self.k, &c.args);
                let n: Expr = match (c.method.to_string().as_str(), self.occupied) {
                    ("get", true) => parse_quote!(#m.get(&#k).unwrap()),
                    ("get_mut" | "into_mut", true) => parse_quote!(#m.get_mut(&#k).unwrap()),
                    ("insert", true) => parse_quote!(#m.insert(#k.clone(), #a).unwrap()),
                    ("insert", false) => parse_quote!(#m.insert(#k.clone(), #a)),
                    ("remove", true) => parse_quote!(#m.remove(&#k).unwrap()),
                    ("key", _) => parse_quote!((&#k)),
                    _ => {
                        self.bad = true;
                        return;
                    }
                };
                *x = n;
                return;
            }
        }
        if matches!(x, Expr::Path(p) if p.path.is_ident(self.e)) {
            self.bad = true;
        }
        visit_mut::visit_expr_mut(self, x);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // `e.insert(v);` leaves what it gives.
        if let Stmt::Expr(Expr::MethodCall(c), Some(_)) = s {
            if self.occupied && c.method == "insert" && matches!(&*c.receiver, Expr::Path(p) if p.path.is_ident(self.e)) {
                for a in &mut c.args {
                    self.visit_expr_mut(a);
                }
                let (m, k, a) = (self.m, self.k, &c.args);
                *s = parse_quote!(#m.insert(#k.clone(), #a););
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}
fn entry_arm(p: &Pat) -> Option<(bool, Option<Ident>)> {
    let Pat::TupleStruct(t) = p else { return None };
    let n = &t.path.segments.last()?.ident;
    let occ = n == "Occupied";
    if !occ && n != "Vacant" {
        return None;
    }
    match t.elems.first()? {
        Pat::Ident(i) if i.subpat.is_none() => Some((occ, Some(i.ident.clone()))),
        Pat::Wild(_) => Some((occ, None)),
        _ => None,
    }
}
fn entry_body(b: &Expr, arm: &(bool, Option<Ident>), m: &Expr, k: &Ident) -> Option<Block> {
    let mut b: Block = match b {
        Expr::Block(b) if b.label.is_none() => b.block.clone(),
        b => parse_quote!({ #b }),
    };
    if let Some(e) = &arm.1 {
        // A tail `e.insert(v)` leaves what it gives.
        if let Some(Stmt::Expr(Expr::MethodCall(c), semi @ None)) = b.stmts.last_mut() {
            if c.method == "insert" && matches!(&*c.receiver, Expr::Path(p) if p.path.is_ident(e)) {
                *semi = Some(Default::default());
            }
        }
        let mut u = EntryUse { e, m, k, occupied: arm.0, bad: false };
        u.visit_block_mut(&mut b);
        if u.bad {
            return None;
        }
    }
    Some(b)
}
/// A `match`, an `if let` or an `and_modify` on `M.entry(K)`: the same by `contains_key`.
fn entries(e: &Expr) -> Option<Expr> {
    let k = fresh("__k");
    match e {
        Expr::Match(t) => {
            let (m, key) = entry_of(&t.expr)?;
            let [a, b] = [t.arms.first()?, t.arms.get(1)?];
            let pa = entry_arm(&a.pat)?;
            let pb = match &b.pat {
                Pat::Wild(_) => (!pa.0, None),
                p => entry_arm(p)?,
            };
            if t.arms.len() != 2 || pa.0 == pb.0 || a.guard.is_some() || b.guard.is_some() {
                return None;
            }
            let (ba, bb) = (entry_body(&a.body, &pa, &m, &k)?, entry_body(&b.body, &pb, &m, &k)?);
            let (o, v) = if pa.0 { (ba, bb) } else { (bb, ba) };
            Some(parse_quote!({ let #k = #key; if #m.contains_key(&#k) #o else #v }))
        }
        Expr::If(i) => {
            let Expr::Let(l) = &*i.cond else { return None };
            let (m, key) = entry_of(&l.expr)?;
            let pa = entry_arm(&l.pat)?;
            let ba = entry_body(&parse_quote!({}), &pa, &m, &k).and(entry_body(&Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() }), &pa, &m, &k))?;
            let els: Block = match &i.else_branch {
                Some((_, e)) => parse_quote!({ #e }),
                None => parse_quote!({}),
            };
            let (o, v) = if pa.0 { (ba, els) } else { (els, ba) };
            Some(parse_quote!({ let #k = #key; if #m.contains_key(&#k) #o else #v }))
        }
        Expr::MethodCall(c) if c.args.len() == 1 && (c.method == "or_insert" || c.method == "or_insert_with") => {
            let Expr::MethodCall(am) = &*c.receiver else { return None };
            if am.method != "and_modify" {
                return None;
            }
            let (m, key) = entry_of(&am.receiver)?;
            let Expr::Closure(f) = am.args.first()? else { return None };
            let (p, body) = (f.inputs.first()?, &f.body);
            let v: Expr = match &c.args[0] {
                Expr::Closure(g) if c.method == "or_insert_with" => (*g.body).clone(),
                a if c.method == "or_insert" => a.clone(),
                _ => return None,
            };
            Some(parse_quote!({ let #k = #key; if #m.contains_key(&#k) { let #p = #m.get_mut(&#k).unwrap(); #body; } else { #m.insert(#k.clone(), #v); } }))
        }
        _ => None,
    }
}

/// Breaks out of the loop whose body this is.
struct Exits<'a>(Option<&'a syn::Lifetime>, usize, bool);
impl<'ast, 'a> syn::visit::Visit<'ast> for Exits<'a> {
    fn visit_expr_break(&mut self, b: &'ast syn::ExprBreak) {
        match &b.label {
            None => self.2 |= self.1 == 0,
            l => self.2 |= l.as_ref() == self.0,
        }
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        let l = matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_));
        self.1 += l as usize;
        syn::visit::visit_expr(self, e);
        self.1 -= l as usize;
    }
}

/// `loop { if C { EXIT } REST }`: `while !C { REST } EXIT`.
fn looped(e: &Expr) -> Option<Expr> {
    let Expr::Loop(l) = e else { return None };
    let (Stmt::Expr(Expr::If(i), _), rest) = l.body.stmts.split_first()? else { return None };
    let (Expr::Block(_) | Expr::Paren(_) | Expr::Unary(_) | Expr::Binary(_) | Expr::Field(_) | Expr::Path(_) | Expr::MethodCall(_) | Expr::Call(_), [Stmt::Expr(exit, _)]) = (&*i.cond, &i.then_branch.stmts[..]) else { return None };
    fn has_let(e: &Expr) -> bool {
        match e {
            Expr::Let(_) => true,
            Expr::Binary(b) => has_let(&b.left) || has_let(&b.right),
            Expr::Paren(p) => has_let(&p.expr),
            _ => false,
        }
    }
    if has_let(&i.cond) {
        return None;
    }
    let rest: Vec<Stmt> = match (&i.else_branch, rest) {
        (None, r) => r.to_vec(),
        (Some((_, b)), []) => match &**b {
            Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
            b => vec![Stmt::Expr(b.clone(), None)],
        },
        _ => return None,
    };
    let lab = l.label.as_ref().map(|l| &l.name);
    let mut br = Exits(lab, 0, false);
    rest.iter().for_each(|s| syn::visit::Visit::visit_stmt(&mut br, s));
    let (c, label) = (&i.cond, &l.label);
    let exit: Option<Stmt> = match exit {
        Expr::Break(b) if b.label.is_none() || b.label.as_ref() == lab => match &b.expr {
            None => None,
            _ if br.2 => return None,
            Some(e) => Some(Stmt::Expr((**e).clone(), None)),
        },
        Expr::Return(_) if !br.2 => Some(Stmt::Expr(exit.clone(), None)),
        _ => return None,
    };
    Some(match exit {
        None => parse_quote!(#label while !(#c) { #(#rest)* }),
        Some(x) => parse_quote!({ #label while !(#c) { #(#rest)* } #x }),
    })
}

/// `continue` of the loop whose body this is: the step first.
struct Steps<'a>(Option<&'a syn::Lifetime>, usize, &'a syn::Ident);
impl<'a> VisitMut for Steps<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Continue(c) = e {
            if c.label.as_ref().map_or(self.1 == 0, |l| Some(l) == self.0) {
                let (i, c) = (self.2, c.clone());
                *e = parse_quote!({ #i += 1; #c });
            }
            return;
        }
        let l = matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_));
        self.1 += l as usize;
        visit_mut::visit_expr_mut(self, e);
        self.1 -= l as usize;
    }
}

fn pat_names(b: &Block) -> std::collections::BTreeSet<String> {
    struct Names(std::collections::BTreeSet<String>);
    impl<'ast> syn::visit::Visit<'ast> for Names {
        fn visit_pat(&mut self, p: &'ast Pat) {
            match p {
                Pat::Ident(i) => drop(self.0.insert(i.ident.to_string())),
                Pat::Path(i) => drop(self.0.insert(i.path.segments.last().unwrap().ident.to_string())),
                _ => {}
            }
            syn::visit::visit_pat(self, p);
        }
    }
    let mut v = Names(Default::default());
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

/// `for x in [a, b] { BODY }`: `{ let x = a; BODY } { let x = b; BODY }`.
fn unrolled(e: &Expr) -> Option<Expr> {
    let Expr::ForLoop(f) = e else { return None };
    let (Expr::Array(a), Pat::Ident(_)) = (&*f.expr, &*f.pat) else { return None };
    struct Jumps(bool);
    impl<'ast> syn::visit::Visit<'ast> for Jumps {
        fn visit_expr_break(&mut self, _: &'ast syn::ExprBreak) {
            self.0 = true;
        }
        fn visit_expr_continue(&mut self, _: &'ast syn::ExprContinue) {
            self.0 = true;
        }
        // (an assignment could change an element before its turn)
        fn visit_expr_assign(&mut self, a: &'ast syn::ExprAssign) {
            self.0 |= matches!(&*a.left, Expr::Path(_));
            syn::visit::visit_expr_assign(self, a);
        }
        fn visit_expr_binary(&mut self, a: &'ast syn::ExprBinary) {
            self.0 |= quote::ToTokens::to_token_stream(&a.op).to_string().ends_with('=') && !matches!(a.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Le(_) | syn::BinOp::Ge(_)) && matches!(&*a.left, Expr::Path(_));
            syn::visit::visit_expr_binary(self, a);
        }
    }
    let mut j = Jumps(false);
    syn::visit::Visit::visit_block(&mut j, &f.body);
    let simple = |e: &Expr| matches!(e, Expr::Path(_)) || matches!(e, Expr::Reference(r) if matches!(&*r.expr, Expr::Path(_)));
    if j.0 || !a.elems.iter().all(simple) || a.elems.len() > 4 {
        return None;
    }
    let (p, b) = (&f.pat, &f.body.stmts);
    let parts: Vec<Stmt> = a.elems.iter().map(|v| parse_quote!({ let #p = #v; #(#b)* })).collect();
    Some(parse_quote!({ #(#parts)* }))
}

/// `for i in A.. { BODY }`: `let mut i = A; loop { BODY i += 1; }`.
fn endless(e: &Expr) -> Option<Expr> {
    let Expr::ForLoop(f) = e else { return None };
    let (Expr::Range(syn::ExprRange { start: Some(a), end: None, .. }), Pat::Ident(i)) = (&*f.expr, &*f.pat) else { return None };
    if i.mutability.is_some() || i.by_ref.is_some() {
        return None;
    }
    let mut body = f.body.clone();
    Steps(f.label.as_ref().map(|l| &l.name), 0, &i.ident).visit_block_mut(&mut body);
    let (i, label, b) = (&i.ident, &f.label, &body.stmts);
    let inner: Expr = parse_quote!(#label loop { #(#b)* #i += 1; });
    let inner = looped(&inner).unwrap_or(inner);
    Some(parse_quote!({ let mut #i = #a; #inner }))
}

/// `let mut x = None; for p in S { if C { x = Some(E); break; } }`: a `find`.
fn found(a: &Stmt, b: &Stmt) -> Option<Stmt> {
    let (Stmt::Local(l), Stmt::Expr(Expr::ForLoop(f), _)) = (a, b) else { return None };
    let x = match &l.pat {
        Pat::Ident(x) if x.mutability.is_some() => x,
        Pat::Type(t) => match &*t.pat {
            Pat::Ident(x) if x.mutability.is_some() => x,
            _ => return None,
        },
        _ => return None,
    };
    let init = l.init.as_ref().filter(|i| i.diverge.is_none())?;
    if !matches!(&*init.expr, Expr::Path(p) if p.path.is_ident("None")) {
        return None;
    }
    let Pat::Ident(p) = &*f.pat else { return None };
    let [Stmt::Expr(Expr::If(i), _)] = &f.body.stmts[..] else { return None };
    if p.mutability.is_some() || p.by_ref.is_some() || i.else_branch.is_some() {
        return None;
    }
    fn has_let(e: &Expr) -> bool {
        match e {
            Expr::Let(_) => true,
            Expr::Binary(b) => has_let(&b.left) || has_let(&b.right),
            Expr::Paren(p) => has_let(&p.expr),
            _ => false,
        }
    }
    let [Stmt::Expr(Expr::Assign(s), _), Stmt::Expr(Expr::Break(br), _)] = &i.then_branch.stmts[..] else { return None };
    let Expr::Call(c) = &*s.right else { return None };
    if has_let(&i.cond)
        || br.expr.is_some()
        || (br.label.is_some() && br.label.as_ref() != f.label.as_ref().map(|l| &l.name))
        || !matches!(&*s.left, Expr::Path(y) if y.path.is_ident(&x.ident))
        || !matches!(&*c.func, Expr::Path(y) if y.path.is_ident("Some"))
    {
        return None;
    }
    let src: Expr = match &*f.expr {
        Expr::Reference(r) if r.mutability.is_none() && is_place(&r.expr) => {
            let e = &r.expr;
            parse_quote!(#e.iter())
        }
        Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => f.expr.as_ref().clone(),
        _ => return None,
    };
    let (p, c, e) = (&p.ident, &i.cond, c.args.first()?);
    let q = Ident::new(&format!("{p}__q"), Span::call_site());
    let find: Expr = parse_quote!(#src.find(|#q| { let #p = *#q; #c }));
    let plain = matches!(e, Expr::MethodCall(m) if m.method == "clone" && matches!(&*m.receiver, Expr::Path(y) if y.path.is_ident(p)));
    let x = &x.ident;
    Some(if matches!(e, Expr::Path(y) if y.path.is_ident(p)) {
        parse_quote!(let mut #x = #find;)
    } else if plain {
        parse_quote!(let mut #x = #find.cloned();)
    } else {
        parse_quote!(let mut #x = #find.map(|#p| #e);)
    })
}

pub struct Shapes;
impl VisitMut for Shapes {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = unrolled(e) {
            *e = n;
        }
        if let Some(n) = endless(e) {
            *e = n;
        }
        if let Some(n) = looped(e) {
            *e = n;
        }
        if let Some(n) = entries(e) {
            *e = n;
        }
        if let Some(n) = pops(e) {
            *e = n;
        }
        match e {
            Expr::If(i) => {
                let mut v = vec![];
                cond(&mut i.cond, &mut v);
                i.then_branch.stmts.splice(0..0, lets(&v));
            }
            Expr::While(w) => {
                let mut v = vec![];
                cond(&mut w.cond, &mut v);
                w.body.stmts.splice(0..0, lets(&v));
            }
            Expr::Match(m) => {
                for a in &mut m.arms {
                    if matches!(a.pat, Pat::Reference(_)) {
                        continue;
                    }
                    let Some((q, v)) = deref(&a.pat) else { continue };
                    a.pat = q;
                    if let Some((_, g)) = &mut a.guard {
                        Sub(&v).visit_expr_mut(g);
                    }
                    if !v.is_empty() {
                        let l = lets(&v);
                        let b = &a.body;
                        a.body = match &**b {
                            Expr::Block(b) if b.label.is_none() => {
                                let s = &b.block.stmts;
                                parse_quote!({ #(#l)* #(#s)* })
                            }
                            b => parse_quote!({ #(#l)* #b }),
                        };
                        a.comma = Some(Default::default());
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        for k in 1..b.stmts.len() {
            if let Some(n) = found(&b.stmts[k - 1], &b.stmts[k]) {
                b.stmts[k - 1] = n;
                b.stmts[k] = parse_quote!({});
            }
        }
        let pats = if b.stmts.iter().any(|s| matches!(s, Stmt::Item(syn::Item::Const(_)))) { pat_names(b) } else { Default::default() };
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            // `X.drain(N..);`
            if let Stmt::Expr(Expr::MethodCall(m), Some(_)) = &s {
                if m.method == "drain" && m.args.len() == 1 && is_place(&m.receiver) {
                    if let Expr::Range(r) = &m.args[0] {
                        if let (Some(n), None) = (&r.start, &r.end) {
                            let x = &m.receiver;
                            s = parse_quote!({ let __n = #n; vassert(__n <= #x.len()); #x.truncate(__n); });
                        }
                    }
                }
            }
            if let Stmt::Expr(e, semi @ None) = &mut s {
                if let Some(n) = pops(e) {
                    *e = n;
                    *semi = Some(Default::default());
                }
            }
            if let Stmt::Item(syn::Item::Const(c)) = &s {
                // (a name that occurs in a pattern would become a binding there)
                if !pats.contains(&c.ident.to_string()) {
                    let (x, v) = (&c.ident, &c.expr);
                    s = parse_quote!(let #x = #v;);
                }
            }
            let mut post = vec![];
            if let Stmt::Local(l) = &mut s {
                let plain = matches!(l.pat, Pat::Reference(_) | Pat::Type(_));
                if !plain {
                    if let Some((q, v)) = deref(&l.pat) {
                        l.pat = q;
                        post = lets(&v);
                    }
                }
                if let Some(i) = &mut l.init {
                    if let Some((_, d)) = &i.diverge {
                        if is_panic(d) {
                            let mut n = Names(vec![]);
                            syn::visit::Visit::visit_pat(&mut n, &l.pat);
                            let (p, x, v) = (&l.pat, &i.expr, &n.0);
                            let mut d = d.clone();
                            if let Expr::Block(b) = &mut *d {
                                if let Some(Stmt::Expr(_, s)) = b.block.stmts.last_mut() {
                                    *s = None;
                                }
                            }
                            let one = v.len() == 1;
                            let ty = matches!(p, Pat::Type(_));
                            if !ty {
                                *l = if one {
                                    let v = &v[0];
                                    let Stmt::Local(l) = parse_quote!(let #v = match #x { #p => #v, _ => #d };) else { unreachable!() };
                                    l
                                } else {
                                    let Stmt::Local(l) = parse_quote!(let (#(#v),*) = match #x { #p => (#(#v),*), _ => #d };) else { unreachable!() };
                                    l
                                };
                            }
                        }
                    }
                }
            }
            out.push(s);
            out.extend(post);
        }
        unalias(&mut out);
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

// ---------------------------------------------------------------- mutable aliases
/// What a name stands for: `&mut place`, or an expression that gives the same `&mut` each time.
#[derive(Clone)]
pub enum Alias {
    Place(Expr),
    Again(Expr),
}
pub struct Unalias<'a> {
    pub name: &'a str,
    pub to: &'a Alias,
}
impl<'a> Unalias<'a> {
    fn is(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.is_ident(self.name))
    }
    fn val(&self) -> Expr {
        match self.to {
            Alias::Place(p) => p.clone(),
            Alias::Again(e) => e.clone(),
        }
    }
}
impl<'a> VisitMut for Unalias<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.is(e) {
            *e = match self.to {
                Alias::Place(p) => parse_quote!(&mut #p),
                Alias::Again(x) => x.clone(),
            };
            return;
        }
        match e {
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && self.is(&u.expr) => {
                *e = match self.to {
                    Alias::Place(p) => p.clone(),
                    Alias::Again(x) => parse_quote!(*#x),
                };
                return;
            }
            Expr::MethodCall(m) if self.is(&m.receiver) => *m.receiver = self.val(),
            Expr::Field(f) if self.is(&f.base) => *f.base = self.val(),
            Expr::Index(f) if self.is(&f.expr) => *f.expr = self.val(),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

#[derive(Default)]
pub struct Words {
    pub used: std::collections::BTreeSet<String>,
    pub bound: std::collections::BTreeSet<String>,
    pub assigned: std::collections::BTreeSet<String>,
    pub loops: bool,
    pub passed: std::collections::BTreeSet<String>,
}
fn root(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root(&f.base),
        Expr::Index(f) => root(&f.expr),
        Expr::Unary(u) => root(&u.expr),
        Expr::Paren(p) => root(&p.expr),
        Expr::Reference(r) => root(&r.expr),
        Expr::MethodCall(m) => root(&m.receiver),
        _ => None,
    }
}
impl<'a> syn::visit::Visit<'a> for Words {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.bound.insert(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    self.used.insert(i.to_string());
                }
            }
            Expr::Assign(a) => self.assigned.extend(root(&a.left)),
            Expr::Binary(b) if b.op.to_token_stream().to_string().ends_with('=') => {
                if !matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Le(_) | syn::BinOp::Ge(_)) {
                    self.assigned.extend(root(&b.left))
                }
            }
            Expr::Reference(r) if r.mutability.is_some() => self.assigned.extend(root(&r.expr)),
            Expr::MethodCall(m) => {
                if crate::emit::MUTATING.contains(&m.method.to_string().as_str()) {
                    self.assigned.extend(root(&m.receiver));
                }
                for a in &m.args {
                    self.passed.extend(root(a));
                }
                if matches!(m.method.to_string().as_str(), "for_each" | "extend" | "any" | "all" | "fold") {
                    self.loops = true;
                }
            }
            Expr::Call(c) => {
                for a in &c.args {
                    self.passed.extend(root(a));
                }
            }
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => self.loops = true,
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}
pub fn words(stmts: &[Stmt]) -> Words {
    let mut w = Words::default();
    for s in stmts {
        syn::visit::Visit::visit_stmt(&mut w, s);
    }
    w
}
pub fn words_of(e: &Expr) -> Words {
    let mut w = Words::default();
    syn::visit::Visit::visit_expr(&mut w, e);
    w
}
fn strip_par(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_par(&p.expr),
        e => e,
    }
}
pub fn is_place(e: &Expr) -> bool {
    match strip_par(e) {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => is_place(&f.base),
        _ => false,
    }
}
/// The alias that an expression makes.
pub fn alias_of(e: &Expr) -> Option<Alias> {
    match strip_par(e) {
        Expr::Reference(r) if r.mutability.is_some() && is_place(&r.expr) => Some(Alias::Place((*r.expr).clone())),
        Expr::MethodCall(m) if m.method == "unwrap" || m.method == "expect" => {
            let Expr::MethodCall(g) = strip_par(&m.receiver) else { return None };
            if g.method != "get_mut" || !is_place(&g.receiver) {
                return None;
            }
            let k = match g.args.first()? {
                Expr::Reference(r) => &r.expr,
                k => k,
            };
            let p = &g.receiver;
            let k0 = g.args.first()?;
            is_place(k).then(|| Alias::Again(parse_quote!(#p.get_mut(#k0).unwrap())))
        }
        _ => None,
    }
}
/// `let x = &mut place;` before loops over what it lends: the place itself.
fn unalias(stmts: &mut Vec<Stmt>) {
    for i in 0..stmts.len() {
        let Stmt::Local(l) = &stmts[i] else { continue };
        let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) else { continue };
        if init.diverge.is_some() || pi.mutability.is_some() {
            continue;
        }
        let name = pi.ident.to_string();
        let Some(a) = alias_of(&init.expr) else { continue };
        let w = words(&stmts[i + 1..]);
        if !w.loops && !w.passed.contains(&name) {
            continue;
        }
        let src = words_of(&init.expr);
        if w.bound.contains(&name) || src.used.iter().any(|u| w.bound.contains(u)) {
            continue;
        }
        // The key stays what it is.
        if let Alias::Again(Expr::MethodCall(m)) = &a {
            if let Expr::MethodCall(g) = &*m.receiver {
                let k = root(&g.args[0]);
                if k.map_or(true, |k| w.assigned.contains(&k)) {
                    continue;
                }
            }
        }
        for s in &mut stmts[i + 1..] {
            Unalias { name: &name, to: &a }.visit_stmt_mut(s);
        }
        stmts.remove(i);
        return unalias(stmts);
    }
}

// ---------------------------------------------------------------- breaks of nested loops
/// In the body of a loop labelled `label`: a `break` out of an inner loop becomes what comes after
/// that loop, then `continue 'label`.
pub fn tail_dup(body: &mut Vec<Stmt>, label: &syn::Lifetime, pat: &Pat) -> bool {
    let mut vars: Vec<(Ident, bool)> = vec![];
    struct Muts<'v>(&'v mut Vec<(Ident, bool)>);
    impl<'a, 'v> syn::visit::Visit<'a> for Muts<'v> {
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            self.0.push((p.ident.clone(), p.mutability.is_some()));
        }
    }
    syn::visit::Visit::visit_pat(&mut Muts(&mut vars), pat);
    let mut done = false;
    for i in 0..body.len() {
        if let Stmt::Local(l) = &body[i] {
            syn::visit::Visit::visit_pat(&mut Muts(&mut vars), &l.pat);
        }
        let rest: Vec<Stmt> = body[i + 1..].to_vec();
        let inner = match &mut body[i] {
            Stmt::Expr(Expr::ForLoop(f), _) if f.label.is_none() => &mut f.body,
            Stmt::Expr(Expr::While(f), _) if f.label.is_none() => &mut f.body,
            _ => continue,
        };
        let w = words(&inner.stmts);
        let rw = words(&rest);
        let mut b = Breaks { rest: &rest, label, muts: vars.iter().filter(|v| v.1).map(|v| v.0.clone()).collect(), n: 0, bad: false };
        if rw.loops || w.bound.iter().any(|x| rw.used.contains(x)) {
            continue;
        }
        let saved = inner.clone();
        b.visit_block_mut(inner);
        if b.bad || b.n == 0 {
            *inner = saved;
            continue;
        }
        done = true;
    }
    done
}
struct Breaks<'a> {
    rest: &'a [Stmt],
    label: &'a syn::Lifetime,
    muts: Vec<Ident>,
    n: usize,
    bad: bool,
}
impl<'a> VisitMut for Breaks<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let brk = matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Break(k), _)) if k.label.is_none() && k.expr.is_none());
        if brk {
            b.stmts.pop();
            self.n += 1;
            let l = self.label;
            let mut v: Vec<Stmt> = b.stmts.drain(..).collect();
            v.extend(self.rest.iter().cloned());
            if let Some(Stmt::Expr(_, s @ None)) = v.last_mut() {
                *s = Some(Default::default());
            }
            let w = words(&v);
            // What the rest of this iteration changes is its own from here on.
            for m in &self.muts {
                if w.used.contains(&m.to_string()) && !w.bound.contains(&m.to_string()) {
                    b.stmts.push(parse_quote!(let mut #m = #m;));
                }
            }
            b.stmts.extend(v);
            b.stmts.push(parse_quote!(continue #l;));
            return;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Break(k) if k.label.is_none() => self.bad = true,
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => {}
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
