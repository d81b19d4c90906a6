//! Return elimination for function bodies that are inlined at a call site.
use proc_macro2::Span;
use syn::visit::{self, Visit};
use syn::{parse_quote, Block, Expr, Ident, Stmt};

struct HasRet {
    ret: bool,
    try_: bool,
}
impl<'a> Visit<'a> for HasRet {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, e: &'a syn::ExprTry) {
        self.try_ = true;
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
}

pub fn has_ret_block(b: &Block) -> bool {
    let mut h = HasRet { ret: false, try_: false };
    h.visit_block(b);
    h.ret || h.try_
}
fn has_ret_stmt(s: &Stmt) -> bool {
    let mut h = HasRet { ret: false, try_: false };
    h.visit_stmt(s);
    h.ret || h.try_
}
fn has_ret_expr(s: &Expr) -> bool {
    let mut h = HasRet { ret: false, try_: false };
    h.visit_expr(s);
    h.ret || h.try_
}

fn diverges(stmts: &[Stmt]) -> bool {
    stmts.iter().any(|s| match s {
        Stmt::Expr(e, _) => expr_diverges(e),
        Stmt::Macro(m) => m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable"),
        _ => false,
    })
}
fn expr_diverges(e: &Expr) -> bool {
    match e {
        Expr::Return(_) | Expr::Continue(_) | Expr::Break(_) => true,
        Expr::Macro(m) => m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable"),
        Expr::Block(b) => diverges(&b.block.stmts),
        Expr::If(i) => {
            diverges(&i.then_branch.stmts)
                && i.else_branch.as_ref().map_or(false, |(_, e)| expr_diverges(e))
        }
        _ => false,
    }
}

thread_local! {
    /// Returns from `for` and `while` loops are taken out, too.
    pub static LOOPS: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}

pub fn elim(stmts: &[Stmt], opt: Option<bool>, n: &mut usize) -> Result<Block, String> {
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in stmts.iter().enumerate() {
        let rest = &stmts[i + 1..];
        if !has_ret_stmt(s) {
            out.push(s.clone());
            continue;
        }
        match s {
            Stmt::Expr(e, semi) => {
                let e2 = elim_expr(e, rest, semi.is_some() || !rest.is_empty(), opt, n)?;
                out.push(Stmt::Expr(e2, None));
                return Ok(mk(out));
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref().ok_or("return in let without init")?;
                if let Some((_, div)) = &init.diverge {
                    if has_ret_expr(&init.expr) {
                        return Err("return inside let-else initialiser".into());
                    }
                    let div = elim_expr(div, &[], false, opt, n)?;
                    let rest = elim(rest, opt, n)?;
                    let pat = &l.pat;
                    let ex = &init.expr;
                    out.push(Stmt::Expr(
                        parse_quote!(match #ex { #pat => #rest, _ => #div }),
                        None,
                    ));
                    return Ok(mk(out));
                }
                if let Expr::Try(t) = &*init.expr {
                    if has_ret_expr(&t.expr) {
                        return Err("nested `?`".into());
                    }
                    let rest = elim(rest, opt, n)?;
                    let pat = &l.pat;
                    let ex = &t.expr;
                    let e: Expr = match opt {
                        Some(true) => parse_quote!(match #ex { Some(#pat) => #rest, None => None }),
                        Some(false) => {
                            parse_quote!(match #ex { Ok(#pat) => #rest, Err(__e) => Err(__e) })
                        }
                        None => return Err("`?` in a function of unknown result type".into()),
                    };
                    out.push(Stmt::Expr(e, None));
                    return Ok(mk(out));
                }
                return Err("return inside let initialiser".into());
            }
            _ => return Err("return in unsupported statement".into()),
        }
    }
    Ok(mk(out))
}

fn mk(stmts: Vec<Stmt>) -> Block {
    Block { brace_token: Default::default(), stmts }
}

fn cat(a: &[Stmt], rest: &[Stmt], stmt_pos: bool) -> Vec<Stmt> {
    let mut v: Vec<Stmt> = a.to_vec();
    if diverges(a) {
        return v;
    }
    if stmt_pos {
        if let Some(Stmt::Expr(e, semi @ None)) = v.last_mut() {
            let _ = e;
            *semi = Some(Default::default());
        }
        v.extend(rest.iter().cloned());
    }
    v
}

fn elim_expr(
    e: &Expr,
    rest: &[Stmt],
    stmt_pos: bool,
    opt: Option<bool>,
    n: &mut usize,
) -> Result<Expr, String> {
    match e {
        Expr::Return(r) => {
            if r.expr.as_ref().map_or(false, |e| has_ret_expr(e)) {
                return Err("nested return".into());
            }
            Ok(match &r.expr {
                Some(e) => (**e).clone(),
                None => parse_quote!(()),
            })
        }
        Expr::If(i) => {
            if has_ret_expr(&i.cond) {
                return Err("return in a condition".into());
            }
            let then = elim(&cat(&i.then_branch.stmts, rest, stmt_pos), opt, n)?;
            let els = match &i.else_branch {
                Some((_, e)) => match &**e {
                    Expr::Block(b) => elim(&cat(&b.block.stmts, rest, stmt_pos), opt, n)?,
                    other => {
                        let s = vec![Stmt::Expr(other.clone(), if stmt_pos { Some(Default::default()) } else { None })];
                        elim(&cat(&s, rest, stmt_pos), opt, n)?
                    }
                },
                None => elim(rest, opt, n)?,
            };
            let c = &i.cond;
            Ok(parse_quote!(if #c #then else #els))
        }
        Expr::Match(m) => {
            if has_ret_expr(&m.expr) {
                return Err("return in a scrutinee".into());
            }
            let mut m2 = m.clone();
            for a in &mut m2.arms {
                let body: Vec<Stmt> = match &*a.body {
                    Expr::Block(b) => b.block.stmts.clone(),
                    e => vec![Stmt::Expr(e.clone(), None)],
                };
                let b = elim(&cat(&body, rest, stmt_pos), opt, n)?;
                a.body = parse_quote!(#b);
                a.comma = Some(Default::default());
            }
            Ok(Expr::Match(m2))
        }
        Expr::Block(b) => {
            let b = elim(&cat(&b.block.stmts, rest, stmt_pos), opt, n)?;
            Ok(parse_quote!(#b))
        }
        Expr::Try(t) if !has_ret_expr(&t.expr) => {
            let rest = elim(rest, opt, n)?;
            let ex = &t.expr;
            Ok(match (opt, stmt_pos) {
                (Some(true), true) => parse_quote!(match #ex { Some(_) => #rest, None => None }),
                (Some(false), true) => parse_quote!(match #ex { Ok(_) => #rest, Err(__e) => Err(__e) }),
                _ => return Err("tail `?`".into()),
            })
        }
        Expr::Loop(l) => {
            // `loop { .. return e; .. }` whose value is the value of the inlined function.
            *n += 1;
            let id = Ident::new(&format!("__ret{n}"), Span::call_site());
            let mut l2 = l.clone();
            let mut rr = RetToBreak { id: id.clone(), depth: 0, err: None, some: false };
            syn::visit_mut::VisitMut::visit_block_mut(&mut rr, &mut l2.body);
            if let Some(e) = rr.err {
                return Err(e);
            }
            Ok(parse_quote!({ let #id; #l2 #id }))
        }
        Expr::ForLoop(f) if LOOPS.get() && !has_ret_expr(&f.expr) => {
            let rest = elim(rest, opt, n)?;
            // `for X in IT { if C { return E } }` is a search.
            if let (None, [Stmt::Expr(Expr::If(i), _)]) = (&f.label, &f.body.stmts[..]) {
                if i.else_branch.is_none() && !has_ret_expr(&i.cond) && !matches!(&*i.cond, Expr::Let(_)) {
                    if let [Stmt::Expr(Expr::Return(r), _)] = &i.then_branch.stmts[..] {
                        if r.expr.as_ref().map_or(true, |e| !has_ret_expr(e)) {
                            let (pat, it, c) = (&f.pat, &f.expr, &i.cond);
                            let e: Expr = match &r.expr {
                                Some(e) => (**e).clone(),
                                None => parse_quote!(()),
                            };
                            return Ok(parse_quote!(match (#it).into_iter().find(|&#pat| #c) { Some(#pat) => #e, None => #rest }));
                        }
                    }
                }
            }
            *n += 1;
            let id = Ident::new(&format!("__ret{n}"), Span::call_site());
            let mut l2 = f.clone();
            let mut rr = RetToBreak { id: id.clone(), depth: 0, err: None, some: true };
            syn::visit_mut::VisitMut::visit_block_mut(&mut rr, &mut l2.body);
            if let Some(e) = rr.err {
                return Err(e);
            }
            Ok(parse_quote!({ let mut #id = None; #l2 match #id { Some(__v) => __v, None => #rest } }))
        }
        Expr::While(f) if LOOPS.get() && !has_ret_expr(&f.cond) => {
            let rest = elim(rest, opt, n)?;
            *n += 1;
            let id = Ident::new(&format!("__ret{n}"), Span::call_site());
            let mut l2 = f.clone();
            let mut rr = RetToBreak { id: id.clone(), depth: 0, err: None, some: true };
            syn::visit_mut::VisitMut::visit_block_mut(&mut rr, &mut l2.body);
            if let Some(e) = rr.err {
                return Err(e);
            }
            Ok(parse_quote!({ let mut #id = None; #l2 match #id { Some(__v) => __v, None => #rest } }))
        }
        _ => Err("return in unsupported expression".into()),
    }
}

struct RetToBreak {
    id: Ident,
    depth: usize,
    err: Option<String>,
    some: bool,
}
impl syn::visit_mut::VisitMut for RetToBreak {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(r) => {
                if self.depth > 0 {
                    self.err = Some("return from a nested loop of an inlined function".into());
                }
                let v: Expr = match &r.expr {
                    Some(e) => (**e).clone(),
                    None => parse_quote!(()),
                };
                let id = &self.id;
                *e = if self.some { parse_quote!({ #id = Some(#v); break; }) } else { parse_quote!({ #id = #v; break; }) };
            }
            Expr::Try(_) => self.err = Some("`?` in a loop of an inlined function".into()),
            Expr::Break(_) if self.depth == 0 && !self.some => {
                self.err = Some("break and return in a loop of an inlined function".into())
            }
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                self.depth += 1;
                syn::visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
            }
            Expr::Closure(_) => {}
            _ => syn::visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// Consistent renaming of variables in an inlined body.
pub struct Rename {
    pub map: std::collections::BTreeMap<String, String>,
    pub self_to: Option<String>,
}
impl syn::visit_mut::VisitMut for Rename {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Struct(s) = e {
            for f in &mut s.fields {
                if f.colon_token.is_none() {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                let n = p.path.segments[0].ident.to_string();
                if n == "self" {
                    if let Some(s) = &self.self_to {
                        p.path.segments[0].ident = Ident::new(s, Span::call_site());
                    }
                } else if let Some(s) = self.map.get(&n) {
                    p.path.segments[0].ident = Ident::new(s, Span::call_site());
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        if let Some(s) = self.map.get(&p.ident.to_string()) {
            p.ident = Ident::new(s, Span::call_site());
        }
        syn::visit_mut::visit_pat_ident_mut(self, p);
    }
}
