use crate::contract::{Contract, Contracts};
use crate::krate::{FnDef, Krate};
use crate::ret;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, FnArg, GenericArgument, Pat, PathArguments, ReturnType, Stmt, Type};

type R<T> = Result<T, String>;

pub struct Output {
    pub text: String,
    pub lifted: Vec<String>,
    pub inlined: BTreeSet<String>,
    pub uncontracted: Vec<String>,
    pub errors: Vec<(String, String)>,
    pub lost: Vec<(String, String)>,
    pub names: BTreeMap<String, Vec<(String, String)>>,
    pub stubbed: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Iter,
    Opt,
    Res,
    Other,
}

#[derive(Clone)]
enum Stage {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    FlatMap(Expr),
    Flatten,
    Cloned,
    TakeWhile(Expr),
    Inspect(Expr),
}

#[derive(Clone)]
enum Src {
    Seq(String),
    Range(String, String),
    MutVec(String),
    MutMap(String, bool),
}

struct Pipe {
    src: Src,
    stages: Vec<Stage>,
}

#[derive(Clone)]
enum Item {
    One(String),
    Two(String, String),
}
impl Item {
    fn text(&self) -> String {
        match self {
            Item::One(s) => s.clone(),
            Item::Two(a, b) => format!("({a}, {b})"),
        }
    }
}

const ITER_ROOT: &[&str] = &["iter", "into_iter", "iter_mut", "keys", "values", "values_mut", "into_values", "into_keys", "drain"];
const ITER_ADAPT: &[&str] = &[
    "map", "filter", "filter_map", "flat_map", "flatten", "cloned", "copied", "chain", "enumerate", "rev", "take", "skip",
    "zip", "take_while", "inspect", "by_ref", "into_iter",
];
pub const MUTATING: &[&str] = &[
    "push", "insert", "extend", "pop", "remove", "clear", "truncate", "entry", "get_mut", "append", "retain", "iter_mut",
    "values_mut", "sort", "swap", "drain", "pop_first", "pop_last", "last_mut", "first_mut",
];

pub struct Cx<'a> {
    kr: &'a Krate,
    cs: &'a Contracts,
    owner: Option<String>,
    iters: BTreeMap<String, String>,
    kinds: BTreeMap<String, Kind>,
    tys: BTreeMap<String, Type>,
    places: BTreeMap<String, String>,
    closures: BTreeMap<String, Expr>,
    nloop: usize,
    nacc: usize,
    ntmp: usize,
    nret: usize,
    contract: Option<Contract>,
    used: BTreeSet<String>,
    /// accumulator of the search (`find`, `any`, ...) about to be lifted, and when it found nothing
    search: Option<(String, String)>,
    /// loops that search, and when they found nothing
    finds: BTreeMap<usize, String>,
    loops: Vec<(Option<String>, usize)>,
    inlined: BTreeSet<String>,
    inl_names: Vec<(String, String)>,
    empties: BTreeSet<String>,
    depth: usize,
    rename: BTreeMap<String, String>,
    ret_ty: String,
    no_dec: bool,
    inline_stack: Vec<String>,
    in_exit: bool,
    stub: bool,
    stub_err: Option<String>,
}

// ---------------------------------------------------------------- macros -> expressions
struct PreMac;
fn mac_expr(m: &syn::Macro) -> Option<Expr> {
    let name = m.path.segments.last()?.ident.to_string();
    let args = || -> Option<Vec<Expr>> {
        let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
        syn::parse::Parser::parse2(p, m.tokens.clone()).ok().map(|p| p.into_iter().collect())
    };
    match name.as_str() {
        "vec" => {
            if let Ok(r) = syn::parse2::<syn::ExprRepeat>({
                let t = &m.tokens;
                quote::quote!([#t])
            }) {
                let (x, n) = (&r.expr, &r.len);
                return Some(parse_quote!(__v_repeat(#x, #n)));
            }
            let a = args()?;
            Some(parse_quote!(__v_vec(#(#a),*)))
        }
        "assert" | "debug_assert" => {
            let a = args()?;
            let c = a.first()?;
            Some(parse_quote!(vassert(#c)))
        }
        "assert_eq" | "debug_assert_eq" => {
            let a = args()?;
            let (x, y) = (a.first()?, a.get(1)?);
            Some(parse_quote!(vassert(#x == #y)))
        }
        "assert_ne" | "debug_assert_ne" => {
            let a = args()?;
            let (x, y) = (a.first()?, a.get(1)?);
            Some(parse_quote!(vassert(#x != #y)))
        }
        "panic" | "unreachable" | "todo" | "unimplemented" => Some(parse_quote!(vpanic())),
        "matches" => {
            struct M(Expr, Pat, Option<Expr>);
            impl syn::parse::Parse for M {
                fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                    let e: Expr = i.parse()?;
                    i.parse::<syn::Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(syn::Token![if]) {
                        i.parse::<syn::Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<syn::Token![,]>>()?;
                    Ok(M(e, p, g))
                }
            }
            let M(e, p, g) = syn::parse2::<M>(m.tokens.clone()).ok()?;
            Some(match g {
                Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                None => parse_quote!(match #e { #p => true, _ => false }),
            })
        }
        _ => None,
    }
}
impl VisitMut for PreMac {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(n) = mac_expr(&m.mac) {
                *e = n;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(n) = mac_expr(&m.mac) {
                *s = Stmt::Expr(n, m.semi_token);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}
pub fn premac(b: &mut Block) {
    PreMac.visit_block_mut(b);
    crate::shapes::Shapes.visit_block_mut(b);
}

/// Locals named like a word of the verifier's language or like a function of the theory get a
/// trailing underscore.
struct Unclash<'s>(&'s BTreeSet<String>);
impl<'s> Unclash<'s> {
    fn id(&self, i: &mut syn::Ident) -> bool {
        if self.0.contains(&i.to_string()) {
            *i = syn::Ident::new(&format!("{i}_"), i.span());
            return true;
        }
        false
    }
}
impl<'s> VisitMut for Unclash<'s> {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        self.id(&mut p.ident);
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() {
            self.id(&mut p.path.segments[0].ident);
        }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}
fn clashes(n: &str, cs: &Contracts) -> bool {
    const WORDS: [&str; 12] = ["spec", "proof", "ghost", "tracked", "exec", "open", "closed", "requires", "ensures", "invariant", "decreases", "global"];
    WORDS.contains(&n) || cs.fns.contains(n)
}
pub fn unclash(kr: &mut Krate, cs: &Contracts) {
    let free: BTreeSet<String> = kr.fns.iter().filter(|f| f.owner.is_none()).map(|f| f.name.clone()).collect();
    for f in kr.fns.iter_mut() {
        premac(&mut f.block);
        let mut names = PatNames(vec![]);
        for a in &f.sig.inputs {
            names.visit_fn_arg(a);
        }
        names.visit_block(&f.block);
        let clash: BTreeSet<String> = names
            .0
            .into_iter()
            .filter(|n| clashes(n, cs) && !free.contains(n))
            .collect();
        if clash.is_empty() {
            continue;
        }
        let mut v = Unclash(&clash);
        for a in f.sig.inputs.iter_mut() {
            v.visit_fn_arg_mut(a);
        }
        v.visit_block_mut(&mut f.block);
    }
}

struct PatNames(Vec<String>);
impl<'a> Visit<'a> for PatNames {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.push(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}

/// The locals a block binds, each with a signature: how it is bound and from what.
struct Locals {
    v: Vec<(String, String)>,
    sig: String,
}
fn squash(t: impl ToTokens) -> String {
    let s: String = t.to_token_stream().to_string().split_whitespace().collect();
    s.chars().filter(|c| *c != '=' && *c != '\u{1}').take(60).collect()
}
impl Locals {
    fn under(&mut self, sig: String, f: impl FnOnce(&mut Self)) {
        let old = std::mem::replace(&mut self.sig, sig);
        f(self);
        self.sig = old;
    }
}
impl<'a> Visit<'a> for Locals {
    fn visit_local(&mut self, l: &'a syn::Local) {
        let sig = format!("let:{}", l.init.as_ref().map(|i| squash(&i.expr)).unwrap_or_default());
        self.under(sig, |me| me.visit_pat(&l.pat));
        if let Some(i) = &l.init {
            self.visit_local_init(i);
        }
    }
    fn visit_expr_for_loop(&mut self, f: &'a syn::ExprForLoop) {
        self.under(format!("for:{}", squash(&f.expr)), |me| me.visit_pat(&f.pat));
        self.visit_expr(&f.expr);
        self.visit_block(&f.body);
    }
    fn visit_expr_let(&mut self, l: &'a syn::ExprLet) {
        self.under(format!("if:{}", squash(&l.expr)), |me| me.visit_pat(&l.pat));
        self.visit_expr(&l.expr);
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        self.under("arm:".into(), |me| me.visit_pat(&a.pat));
        if let Some((_, g)) = &a.guard {
            self.visit_expr(g);
        }
        self.visit_expr(&a.body);
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        self.under("clo:".into(), |me| c.inputs.iter().for_each(|p| me.visit_pat(p)));
        self.visit_expr(&c.body);
    }
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let m = if p.mutability.is_some() { "mut" } else { "" };
        self.v.push((p.ident.to_string(), format!("{m}{}", self.sig)));
        visit::visit_pat_ident(self, p);
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}

/// The containers a loop body adds to.
struct Fills(BTreeSet<String>);
impl<'a> Visit<'a> for Fills {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        if matches!(m.method.to_string().as_str(), "push" | "insert" | "extend" | "get_mut" | "entry" | "append") {
            if let Expr::Path(p) = strip(&m.receiver) {
                if let Some(i) = p.path.get_ident() {
                    self.0.insert(i.to_string());
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
}

struct HasBreak(bool);
impl<'a> Visit<'a> for HasBreak {
    fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
    fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
    fn visit_expr_for_loop(&mut self, _: &'a syn::ExprForLoop) {}
}

fn is_self(e: &Expr) -> bool {
    matches!(e, Expr::Path(p) if p.path.is_ident("self"))
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

impl<'a> Cx<'a> {
    fn tmp(&mut self) -> usize {
        self.ntmp += 1;
        self.ntmp
    }

    // ------------------------------------------------------------ contract sections
    fn subst(&self, t: &str) -> String {
        let mut out = String::new();
        let b: Vec<char> = t.chars().collect();
        let mut i = 0;
        while i < b.len() {
            let c = b[i];
            if c == '$' {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') {
                    j += 1;
                }
                let w: String = b[i + 1..j].iter().collect();
                match self.places.get(&w) {
                    Some(p) => out.push_str(p),
                    None => {
                        out.push_str("__");
                        out.push_str(&w);
                    }
                }
                i = j;
            } else if c.is_alphabetic() || c == '_' {
                let mut j = i;
                while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') {
                    j += 1;
                }
                let w: String = b[i..j].iter().collect();
                let field = i > 0 && b[i - 1] == '.';
                if i > 0 && !field && b[i - 1] != ':' && j < b.len() && (b[j] == '(' || (b[j] == ':' && b[j + 1] == ':')) && self.cs.fns.contains(&w) {
                    out.push_str("crate::");
                    out.push_str(&w);
                    i = j;
                    continue;
                }
                match self.rename.get(&w) {
                    Some(n) if !field => out.push_str(n),
                    _ => out.push_str(&w),
                }
                i = j;
            } else {
                out.push(c);
                i += 1;
            }
        }
        out
    }
    fn hook(&mut self, name: &str) -> String {
        let Some(c) = &self.contract else { return String::new() };
        // `loop N PART find`: instead of `loop N PART`, where the loop is a search ($fN: what it found).
        if let Some(id) = name.strip_prefix("loop ").and_then(|r| r.split(' ').next()) {
            if id.parse().map_or(false, |i: usize| self.finds.contains_key(&i)) {
                self.used.insert(name.to_string());
                return c.sec(&format!("{name} find")).map(|t| self.subst(t)).unwrap_or_default();
            }
        }
        let mut out = match c.sec(name) {
            Some(t) => {
                self.used.insert(name.to_string());
                self.subst(t)
            }
            None => String::new(),
        };
        // `loop N PART unless ROOT`: instead of `loop N PART`, where the loop fills one other local ($mN)
        // and not ROOT. Known only once the body is lifted: both go in, see `resolve`.
        if let Some(id) = name.strip_prefix("loop ").and_then(|r| r.split(' ').next()) {
            let root = c.secs.keys().find_map(|k| k.strip_prefix("loop ")?.strip_prefix(id)?.split_once(" unless ").map(|x| x.1.to_string()));
            if let Some(root) = root {
                let alt = match c.sec(&format!("{name} unless {root}")) {
                    Some(t) => self.subst(t),
                    None if !has_word(&out, &root) => out.clone(),
                    None => String::new(),
                };
                let root = self.rename.get(&root).cloned().unwrap_or(root);
                let trim = |t: String| if name.ends_with("inv") { t.trim_end().trim_end_matches(',').to_string() } else { t };
                let (out, alt) = (trim(out), trim(alt));
                if out.trim().is_empty() && alt.trim().is_empty() {
                    return String::new();
                }
                return format!("\u{1}{id} {root}\u{2}{out}\u{3}{alt}\u{4}");
            }
        }
        // `NAME if LOCAL`: only where LOCAL is in scope.
        let pre = format!("{name} if ");
        for (k, t) in &c.secs {
            if let Some(l) = k.strip_prefix(&pre) {
                let l = self.rename.get(l).map_or(l, |s| s.as_str());
                if self.kinds.contains_key(l) {
                    out.push_str(&self.subst(t));
                }
            }
        }
        out
    }

    // ------------------------------------------------------------ types
    fn ty(&self, t: &Type) -> R<String> {
        Ok(match t {
            Type::Path(p) => {
                if p.qself.is_some() {
                    return Err(format!("type {}", t.to_token_stream()));
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if let Some(v) = self.iters.get(&segs[0]) {
                    return Ok(v.clone());
                }
                let last = p.path.segments.last().unwrap();
                let name = last.ident.to_string();
                let name = match name.as_str() {
                    "Map" | "BTreeMap" => "BMap".to_string(),
                    "Set" | "BTreeSet" => "BSet".to_string(),
                    "HashMap" | "HashSet" => return Err("hash collections".into()),
                    "Peekable" => "VPeek".to_string(),
                    "Result" if segs.len() > 1 => "Result".to_string(),
                    n => n.to_string(),
                };
                let mut args = vec![];
                if let PathArguments::AngleBracketed(a) = &last.arguments {
                    for g in &a.args {
                        match g {
                            GenericArgument::Type(t) => {
                                if name != "VPeek" && self.is_iter_ty(t) {
                                    continue;
                                }
                                if name == "VPeek" {
                                    let v = self.ty(t)?;
                                    args.push(vec_item(&v));
                                } else {
                                    args.push(self.ty(t)?);
                                }
                            }
                            GenericArgument::Lifetime(l) => args.push(l.to_string()),
                            _ => return Err(format!("generic argument in {}", t.to_token_stream())),
                        }
                    }
                }
                if args.is_empty() {
                    name
                } else {
                    format!("{name}<{}>", args.join(", "))
                }
            }
            Type::Reference(r) => format!(
                "&{} {}{}",
                r.lifetime.as_ref().map(|l| l.to_string()).unwrap_or_default(),
                if r.mutability.is_some() { "mut " } else { "" },
                self.ty(&r.elem)?
            ),
            Type::Tuple(t) => {
                let v: R<Vec<_>> = t.elems.iter().map(|t| self.ty(t)).collect();
                let v = v?;
                if v.len() == 1 {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            Type::Slice(s) => format!("[{}]", self.ty(&s.elem)?),
            Type::Paren(p) => self.ty(&p.elem)?,
            Type::Infer(_) => "_".into(),
            Type::Never(_) => "!".into(),
            Type::ImplTrait(i) => match iter_bound(i.bounds.iter()) {
                Some(Some(t)) => format!("Vec<{}>", self.ty(&t)?),
                _ => return Err(format!("type {}", t.to_token_stream())),
            },
            Type::BareFn(f) => {
                if f.inputs.len() != 1 {
                    return Err("fn pointer type".into());
                }
                let a = match &f.inputs[0].ty {
                    Type::Reference(r) => match &*r.elem {
                        Type::Slice(s) => self.ty(&s.elem)?,
                        _ => return Err("fn pointer type".into()),
                    },
                    _ => return Err("fn pointer type".into()),
                };
                let o = match &f.output {
                    ReturnType::Type(_, t) => self.ty(t)?,
                    _ => "()".into(),
                };
                format!("VFn<{a}, {o}>")
            }
            _ => return Err(format!("type {}", t.to_token_stream())),
        })
    }
    fn is_iter_ty(&self, t: &Type) -> bool {
        if let Type::Path(p) = t {
            return self.iters.contains_key(&p.path.segments[0].ident.to_string());
        }
        false
    }

    // ------------------------------------------------------------ kinds
    fn alias_root(&self, name: &str) -> String {
        match name {
            "Map" | "BTreeMap" => return "BMap".into(),
            "Set" | "BTreeSet" => return "BSet".into(),
            _ => {}
        }
        if let Some(a) = self.kr.aliases.get(name) {
            if let Type::Path(p) = &*a.ty {
                return self.alias_root(&p.path.segments.last().unwrap().ident.to_string());
            }
        }
        name.to_string()
    }
    fn ty_kind(&self, t: &Type) -> Kind {
        match t {
            Type::ImplTrait(_) => Kind::Iter,
            Type::Path(p) => {
                if self.is_iter_ty(t) {
                    return Kind::Iter;
                }
                match p.path.segments.last().unwrap().ident.to_string().as_str() {
                    "Option" => Kind::Opt,
                    l if l.ends_with("Result") => Kind::Res,
                    _ => Kind::Other,
                }
            }
            Type::Reference(r) => self.ty_kind(&r.elem),
            _ => Kind::Other,
        }
    }
    fn ret_kind(&self, f: &FnDef) -> Kind {
        match &f.sig.output {
            ReturnType::Type(_, t) => self.ty_kind(t),
            _ => Kind::Other,
        }
    }
    fn kind(&self, e: &Expr) -> Kind {
        match strip(e) {
            Expr::Path(p) => p
                .path
                .get_ident()
                .and_then(|i| self.kinds.get(&i.to_string()).copied())
                .unwrap_or(Kind::Other),
            Expr::Reference(r) => self.kind(&r.expr),
            Expr::Range(_) => Kind::Iter,
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ITER_ROOT.contains(&n.as_str()) && self.crate_methods(&n).is_empty() {
                    return Kind::Iter;
                }
                let rk = self.kind(&m.receiver);
                if rk == Kind::Iter {
                    if ITER_ADAPT.contains(&n.as_str()) {
                        return Kind::Iter;
                    }
                    if matches!(n.as_str(), "next" | "last" | "find" | "max" | "min" | "nth" | "position" | "find_map" | "reduce") {
                        return Kind::Opt;
                    }
                    return Kind::Other;
                }
                if rk == Kind::Res {
                    match n.as_str() {
                        "map" | "and_then" | "map_err" | "or_else" | "clone" | "as_ref" | "and" | "or" => return Kind::Res,
                        "ok" | "err" => return Kind::Opt,
                        _ => {}
                    }
                }
                if rk == Kind::Opt && matches!(n.as_str(), "ok_or" | "ok_or_else") {
                    return Kind::Res;
                }
                if rk == Kind::Opt
                    && matches!(n.as_str(), "map" | "and_then" | "filter" | "cloned" | "copied" | "as_ref" | "or_else" | "or" | "as_mut" | "clone")
                {
                    return Kind::Opt;
                }
                if ITER_ROOT.contains(&n.as_str()) {
                    return Kind::Iter;
                }
                let c = self.crate_methods(&n);
                if let Some(f) = c.first() {
                    return self.ret_kind(f);
                }
                if matches!(n.as_str(), "get" | "first" | "last" | "pop" | "get_mut" | "checked_sub" | "checked_add" | "peek" | "next") {
                    return Kind::Opt;
                }
                Kind::Other
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    if matches!(n.as_str(), "once" | "empty") && path_has(&p.path, "iter") {
                        return Kind::Iter;
                    }
                    if n == "Some" {
                        return Kind::Opt;
                    }
                    if n == "Ok" || n == "Err" {
                        return Kind::Res;
                    }
                    if let Some(f) = self.path_fn(&p.path) {
                        return self.ret_kind(f);
                    }
                }
                Kind::Other
            }
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => Kind::Other,
            },
            Expr::If(i) => match i.then_branch.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => Kind::Other,
            },
            _ => Kind::Other,
        }
    }

    // ------------------------------------------------------------ crate functions
    fn crate_methods(&self, name: &str) -> Vec<&'a FnDef> {
        let mut v: Vec<&FnDef> = self.kr.fns.iter().filter(|f| f.name == name && f.has_self()).collect();
        if let Some(o) = &self.owner {
            if let Some(p) = v.iter().position(|f| f.owner.as_deref() == Some(o)) {
                let f = v.remove(p);
                v.insert(0, f);
            }
        }
        v
    }
    fn path_fn(&self, p: &syn::Path) -> Option<&'a FnDef> {
        let n = p.segments.last().unwrap().ident.to_string();
        if p.segments.len() >= 2 {
            let o = p.segments[p.segments.len() - 2].ident.to_string();
            let o = if o == "Self" { self.owner.clone().unwrap_or_default() } else { o };
            let o2 = self.kr.aliases.get(&o).map(|_| self.alias_root(&o)).unwrap_or(o.clone());
            if let Some(f) = self
                .kr
                .fns
                .iter()
                .find(|f| f.name == n && (f.owner.as_deref() == Some(&o) || f.owner.as_deref() == Some(&o2)))
            {
                return Some(f);
            }
            if o.chars().next().map_or(false, char::is_uppercase) {
                return None;
            }
        }
        self.kr.fns.iter().find(|f| f.name == n && f.owner.is_none())
    }
    fn contracted(&self, f: &FnDef) -> bool {
        self.cs.map.contains_key(&f.key()) || f.alt_key().map_or(false, |k| self.cs.map.contains_key(&k))
    }

    // ------------------------------------------------------------ patterns
    fn pat(&mut self, p: &Pat) -> R<String> {
        Ok(match p {
            Pat::Ident(i) => {
                if i.subpat.is_some() {
                    return Err("@ pattern".into());
                }
                format!(
                    "{}{}{}",
                    if i.by_ref.is_some() { "ref " } else { "" },
                    if i.mutability.is_some() { "mut " } else { "" },
                    i.ident
                )
            }
            Pat::Wild(_) => "_".into(),
            Pat::Tuple(t) => {
                let v: R<Vec<_>> = t.elems.iter().map(|p| self.pat(p)).collect();
                let v = v?;
                if v.len() == 1 {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            Pat::TupleStruct(t) => {
                let v: R<Vec<_>> = t.elems.iter().map(|p| self.pat(p)).collect();
                format!("{}({})", self.path(&t.path)?, v?.join(", "))
            }
            Pat::Path(p) => self.path(&p.path)?,
            Pat::Struct(s) => {
                let mut v = vec![];
                for f in &s.fields {
                    v.push(format!("{}: {}", f.member.to_token_stream(), self.pat(&f.pat)?));
                }
                if s.rest.is_some() {
                    v.push("..".into());
                }
                format!("{} {{ {} }}", self.path(&s.path)?, v.join(", "))
            }
            Pat::Or(o) => {
                let v: R<Vec<_>> = o.cases.iter().map(|p| self.pat(p)).collect();
                v?.join(" | ")
            }
            Pat::Rest(_) => "..".into(),
            Pat::Lit(l) => l.to_token_stream().to_string(),
            Pat::Reference(r) => format!("&{}", self.pat(&r.pat)?),
            Pat::Paren(p) => format!("({})", self.pat(&p.pat)?),
            Pat::Type(t) => self.pat(&t.pat)?,
            _ => return Err(format!("pattern {}", p.to_token_stream())),
        })
    }

    fn path(&mut self, p: &syn::Path) -> R<String> {
        let n = p.segments.len();
        let seg = |s: &syn::PathSegment, me: &Self, is_ty: bool| -> R<String> {
            let mut name = s.ident.to_string();
            if is_ty {
                name = match name.as_str() {
                    "Map" | "BTreeMap" => "BMap".into(),
                    "Set" | "BTreeSet" => "BSet".into(),
                    _ => name,
                };
            }
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                let mut v = vec![];
                for g in &a.args {
                    match g {
                        GenericArgument::Type(t) => {
                            if me.is_iter_ty(t) {
                                continue;
                            }
                            v.push(me.ty(t)?)
                        }
                        _ => return Err("generic argument".into()),
                    }
                }
                if !v.is_empty() {
                    name = format!("{name}::<{}>", v.join(", "));
                }
            }
            Ok(name)
        };
        if n == 1 {
            let up = p.segments[0].ident.to_string().chars().next().map_or(false, char::is_uppercase);
            return seg(&p.segments[0], self, up);
        }
        let a = &p.segments[n - 2];
        let up = a.ident.to_string().chars().next().map_or(false, char::is_uppercase);
        if up {
            Ok(format!("{}::{}", seg(a, self, true)?, seg(&p.segments[n - 1], self, false)?))
        } else {
            seg(&p.segments[n - 1], self, true)
        }
    }

    // ------------------------------------------------------------ statements
    fn block(&mut self, b: &Block) -> R<String> {
        Ok(format!("{{\n{}}}", self.stmts(&b.stmts, false)?))
    }

    /// `tail`: the value of the last expression is the value of the lifted function.
    fn stmts(&mut self, stmts: &[Stmt], tail: bool) -> R<String> {
        let saved = self.kinds.clone();
        let saved_c = self.closures.clone();
        let saved_t = self.tys.clone();
        let mut out = String::new();
        for (i, s) in stmts.iter().enumerate() {
            let last = i + 1 == stmts.len();
            match s {
                Stmt::Local(l) => {
                    out.push_str(&self.local(l)?);
                    let mut names = PatNames(vec![]);
                    names.visit_pat(&l.pat);
                    for n in names.0 {
                        let n = self.back(&n);
                        out.push_str(&self.hook(&format!("let {n}")));
                    }
                }
                Stmt::Expr(e, semi) => {
                    if last && semi.is_none() && tail {
                        out.push_str(&self.tail_expr(e)?);
                        out.push('\n');
                    } else {
                        let t = self.stmt_expr(e)?;
                        out.push_str(&t);
                        if semi.is_some() {
                            out.push(';');
                        }
                        out.push('\n');
                        if let Expr::Assign(a) = e {
                            if let Expr::Path(p) = strip(&a.left) {
                                if let Some(i) = p.path.get_ident() {
                                    let n = self.back(&i.to_string());
                                    out.push_str(&self.hook(&format!("let {n}")));
                                }
                            }
                        }
                    }
                }
                Stmt::Item(syn::Item::Fn(_)) => {}
                Stmt::Item(syn::Item::Use(_)) => {}
                Stmt::Item(i) => return Err(format!("nested item {}", i.to_token_stream())),
                Stmt::Macro(m) => return Err(format!("macro {}", m.mac.path.to_token_stream())),
            }
        }
        self.kinds = saved;
        self.closures = saved_c;
        self.tys = saved_t;
        Ok(out)
    }

    /// The contract's name of a local.
    fn back(&self, n: &str) -> String {
        self.rename.iter().find(|(_, v)| *v == n).map_or(n.to_string(), |(k, _)| k.clone())
    }
    fn pat_hooks(&mut self, p: &Pat) -> String {
        let mut names = PatNames(vec![]);
        names.visit_pat(p);
        let mut out = String::new();
        for n in names.0 {
            let n = self.back(&n);
            out.push_str(&self.hook(&format!("let {n}")));
        }
        out
    }

    fn tail_expr(&mut self, e: &Expr) -> R<String> {
        // Inlining in tail position keeps `return`s of the inlined body as they are.
        match strip(e) {
            Expr::MethodCall(m) if is_self(&m.receiver) => {
                let n = m.method.to_string();
                if let Some(f) = self.crate_methods(&n).first().copied() {
                    if f.owner == self.owner && !self.contracted(f) && ret::has_ret_block(&f.block) {
                        let args: Vec<Expr> = m.args.iter().cloned().collect();
                        return self.inline(f, Some(&m.receiver), &args, true);
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if let Some(f) = self.path_fn(&p.path) {
                        if !self.contracted(f) && ret::has_ret_block(&f.block) {
                            let args: Vec<Expr> = c.args.iter().cloned().collect();
                            if f.has_self() {
                                return self.inline(f, Some(&args[0]), &args[1..], true);
                            }
                            return self.inline(f, None, &args, true);
                        }
                    }
                }
            }
            _ => {}
        }
        if self.contract.as_ref().map_or(false, |c| c.sec("exit").is_some()) && !self.in_exit {
            match strip(e) {
                Expr::If(i) if i.else_branch.is_some() && !matches!(&*i.cond, Expr::Let(_)) => {
                    let c = self.ex(&i.cond)?;
                    let t = self.stmts(&i.then_branch.stmts, true)?;
                    let el = match &*i.else_branch.as_ref().unwrap().1 {
                        Expr::Block(b) => self.stmts(&b.block.stmts, true)?,
                        other => self.tail_expr(other)?,
                    };
                    return Ok(format!("if {c} {{\n{t}}} else {{\n{el}}}"));
                }
                Expr::Block(b) if b.label.is_none() => return Ok(format!("{{\n{}}}", self.stmts(&b.block.stmts, true)?)),
                Expr::Loop(_) | Expr::Return(_) => return self.ex(e),
                _ => {}
            }
            let t = self.ex(e)?;
            let h = self.hook("exit");
            return Ok(format!("let __r: {} = {t};\n{h}\n__r", self.ret_ty));
        }
        self.ex(e)
    }

    fn local(&mut self, l: &syn::Local) -> R<String> {
        let (pat, ty) = match &l.pat {
            Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
            p => (p.clone(), None),
        };
        if let (Some(i), Pat::Ident(pi)) = (&l.init, &pat) {
            let name = pi.ident.to_string();
            if let Expr::Closure(_) = strip(&i.expr) {
                self.closures.insert(name, (*i.expr).clone());
                return Ok(String::new());
            }
            let k = match &ty {
                Some(t) => self.ty_kind(t),
                None => self.kind(&i.expr),
            };
            let made = squash(&i.expr);
            if made.ends_with("::new()") || made.ends_with("::default()") || made == "__v_vec()" {
                self.empties.insert(name.clone());
            } else {
                self.empties.remove(&name);
            }
            self.kinds.insert(name, k);
        }
        let mut gone = PatNames(vec![]);
        gone.visit_pat(&pat);
        for n in gone.0 {
            self.tys.remove(&n);
        }
        match (&ty, &l.init) {
            (Some(t), _) => self.note_ty(&pat, t),
            (None, Some(i)) => {
                if let Some(t) = self.type_of(&i.expr) {
                    self.note_ty(&pat, &t);
                }
            }
            _ => {}
        }
        let p = self.pat(&pat)?;
        let t = match &ty {
            Some(t) => format!(": {}", self.ty(t)?),
            None => String::new(),
        };
        match &l.init {
            None => Ok(format!("let {p}{t};\n")),
            Some(i) => {
                let e = match (&pat, strip(&i.expr)) {
                    (Pat::Ident(pi), Expr::MethodCall(m)) if m.method == "collect" && self.kind(&m.receiver) == Kind::Iter => {
                        match self.collect_as(&pi.ident.to_string(), m, ty.as_ref())? {
                            Some(t) => t,
                            None => self.ex(&i.expr)?,
                        }
                    }
                    _ => self.ex(&i.expr)?,
                };
                if matches!(pat, Pat::Wild(_)) {
                    // `let _ = e;`: bind it, so that the verifier sees a plain let.
                    let n = self.tmp();
                    return Ok(format!("let __w{n}{t} = {e};\n"));
                }
                match &i.diverge {
                    None => Ok(format!("let {p}{t} = {e};\n")),
                    Some((_, d)) => {
                        let d = match &**d {
                            Expr::Block(b) => self.block(&b.block)?,
                            o => format!("{{ {} }}", self.ex(o)?),
                        };
                        Ok(format!("let {p}{t} = {e} else {d};\n"))
                    }
                }
            }
        }
    }

    /// `let NAME = it.collect()` where the contract was written for a loop that fills NAME.
    fn collect_as(&mut self, name: &str, m: &syn::ExprMethodCall, ty: Option<&Type>) -> R<Option<String>> {
        let lid = self.nloop + 1;
        let old = self.back(name);
        let wants = self.contract.as_ref().map_or(false, |c| c.sec(&format!("loop {lid} inv")).map_or(false, |t| has_word(t, &old)));
        let ty = match (ty, &m.turbofish) {
            (Some(t), _) => Some(t.clone()),
            (None, Some(t)) => match &t.args[0] {
                GenericArgument::Type(t) => Some(t.clone()),
                _ => None,
            },
            _ => None,
        };
        let root = ty.and_then(|t| self.root_of(&t));
        let (mk, add) = match root.as_deref() {
            Some("Vec") => ("Vec::new()", "push"),
            Some("BTreeSet" | "Set" | "BSet") => ("BSet::new()", "insert"),
            _ => return Ok(None),
        };
        if !wants {
            return Ok(None);
        }
        let p = self.pipe(&m.receiver)?;
        self.nacc += 1;
        let id = self.nacc;
        let saved = self.rename.insert(old.clone(), format!("__c{id}"));
        let l = self.run(p, None, &mut |_, it| Ok(format!("__c{id}.{add}({});\n", it.text())));
        match saved {
            Some(v) => self.rename.insert(old, v),
            None => self.rename.remove(&old),
        };
        Ok(Some(format!("{{ let mut __c{id} = {mk};\n{}\n__c{id} }}", l?)))
    }

    fn stmt_expr(&mut self, e: &Expr) -> R<String> {
        // `x.iter().for_each(..)` and friends in statement position.
        self.ex(e)
    }

    // ------------------------------------------------------------ closures
    fn apply(&mut self, f: &Expr, args: &[Item]) -> R<String> {
        match strip(f) {
            Expr::Closure(c) => {
                let inputs: Vec<Pat> = c.inputs.iter().cloned().collect();
                if inputs.len() != args.len() {
                    return Err("closure arity".into());
                }
                let mut s = String::from("{ ");
                for (p, a) in inputs.iter().zip(args) {
                    s.push_str(&self.bind(p, a)?);
                }
                let body = match &*c.body {
                    Expr::Block(b) => {
                        if ret::has_ret_block(&b.block) {
                            let mut n = self.nret;
                            let bl = ret::elim(&b.block.stmts, None, &mut n)?;
                            self.nret = n;
                            self.stmts(&bl.stmts, false)?
                        } else {
                            self.stmts(&b.block.stmts, false)?
                        }
                    }
                    e => {
                        let bl: Block = parse_quote!({ #e });
                        if ret::has_ret_block(&bl) {
                            return Err("`?` in a closure".into());
                        }
                        self.ex(e)?
                    }
                };
                s.push_str(&body);
                s.push_str(" }");
                Ok(s)
            }
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if let Some(c) = self.closures.get(&i.to_string()).cloned() {
                        return self.apply(&c, args);
                    }
                }
                // A function path: bind the arguments and call it.
                let mut s = String::from("{ ");
                let mut names: Vec<Expr> = vec![];
                for a in args {
                    let n = format!("__a{}", self.tmp());
                    s.push_str(&format!("let {n} = {}; ", a.text()));
                    let id = syn::Ident::new(&n, proc_macro2::Span::call_site());
                    names.push(parse_quote!(#id));
                }
                let call: Expr = parse_quote!(#p(#(#names),*));
                s.push_str(&self.ex(&call)?);
                s.push_str(" }");
                Ok(s)
            }
            e => Err(format!("closure argument {}", e.to_token_stream())),
        }
    }

    /// `let pat = item;`
    fn bind(&mut self, p: &Pat, a: &Item) -> R<String> {
        match p {
            Pat::Type(t) => return self.bind(&t.pat, a),
            Pat::Paren(t) => return self.bind(&t.pat, a),
            Pat::Wild(_) => return Ok(String::new()),
            Pat::Reference(r) => {
                if let Pat::Ident(_) = &*r.pat {
                    let n = self.pat(&r.pat)?;
                    return Ok(format!("let {n} = *({});\n", a.text()));
                }
                return self.bind(&r.pat, &Item::One(format!("(*({}))", a.text())));
            }
            Pat::Tuple(t) if t.elems.len() == 2 => {
                if let Item::Two(x, y) = a {
                    return Ok(format!(
                        "{}{}",
                        self.bind(&t.elems[0], &Item::One(x.clone()))?,
                        self.bind(&t.elems[1], &Item::One(y.clone()))?
                    ));
                }
            }
            _ => {}
        }
        if let Pat::Ident(i) = p {
            if a.text() == i.ident.to_string() {
                return Ok(String::new());
            }
            self.kinds.insert(i.ident.to_string(), Kind::Other);
            self.closures.remove(&i.ident.to_string());
        }
        Ok(format!("let {} = {};\n", self.pat(p)?, a.text()))
    }

    // ------------------------------------------------------------ inlining
    fn inline(&mut self, f: &FnDef, recv: Option<&Expr>, args: &[Expr], tail: bool) -> R<String> {
        let key = f.key();
        if self.inline_stack.contains(&key) || self.depth > 8 {
            return Err(format!("recursive function {key} without contract"));
        }
        self.inlined.insert(key.clone());
        self.inline_stack.push(key.clone());
        self.depth += 1;
        let n = self.tmp();
        let mut s = String::from("{ ");
        let mut map = BTreeMap::new();
        let mut self_to = None;
        let mut body = f.block.clone();
        premac(&mut body);
        let bw = crate::shapes::words(&body.stmts);
        let mut places: Vec<(String, crate::shapes::Alias)> = vec![];
        let mut params: Vec<(Pat, Type)> = vec![];
        for a in &f.sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    let rv = recv.ok_or("inlined method called without receiver")?;
                    if !is_self(rv) {
                        let id = format!("__self{n}");
                        let t = if r.reference.is_some() && r.mutability.is_some() {
                            format!("&mut {}", self.place(rv)?)
                        } else if r.reference.is_some() {
                            format!("&{}", self.ex(rv)?)
                        } else {
                            self.ex(rv)?
                        };
                        s.push_str(&format!("let {id} = {t};\n"));
                        self_to = Some(id);
                    }
                }
                FnArg::Typed(t) => params.push(((*t.pat).clone(), (*t.ty).clone())),
            }
        }
        if params.len() != args.len() {
            return Err(format!("arity of {key}"));
        }
        let saved_kinds = self.kinds.clone();
        let saved_cl = self.closures.clone();
        let saved_iters = self.iters.clone();
        // Fresh names for everything the body binds.
        let mut names = PatNames(vec![]);
        for (p, _) in &params {
            names.visit_pat(p);
        }
        let mut new_kinds = vec![];
        let mut new_cl = vec![];
        for ((p, t), a) in params.iter().zip(args) {
            let Pat::Ident(pi) = p else { return Err("pattern parameter".into()) };
            let old = pi.ident.to_string();
            let new = format!("{old}_h{n}");
            // What is lent to a body with loops stays in sight of their invariants.
            if matches!(t, Type::Reference(r) if r.mutability.is_some()) && bw.loops && !bw.bound.contains(&old) {
                if let Some(al) = crate::shapes::alias_of(a) {
                    let aw = crate::shapes::words_of(a);
                    if !aw.used.iter().any(|u| u != "self" && (bw.bound.contains(u) || params.iter().any(|(p, _)| matches!(p, Pat::Ident(i) if i.ident == u)))) {
                        places.push((new.clone(), al));
                        map.insert(old, new);
                        continue;
                    }
                }
            }
            if let Expr::Closure(_) = strip(a) {
                new_cl.push((new.clone(), a.clone()));
                map.insert(old, new);
                continue;
            }
            if let Expr::Path(pp) = strip(a) {
                if let Some(i) = pp.path.get_ident() {
                    if let Some(c) = self.closures.get(&i.to_string()) {
                        new_cl.push((new.clone(), c.clone()));
                        map.insert(old, new);
                        continue;
                    }
                }
                if is_fn_bound(&f.sig, t) {
                    new_cl.push((new.clone(), a.clone()));
                    map.insert(old, new);
                    continue;
                }
            }
            let k = match self.ty_kind(t) {
                Kind::Other => self.kind(a),
                k => k,
            };
            let txt = self.ex(a)?;
            let mu = if pi.mutability.is_some() { "mut " } else { "" };
            s.push_str(&format!("let {mu}{new} = {txt};\n"));
            new_kinds.push((new.clone(), k));
            self.tys.insert(new.clone(), t.clone());
            map.insert(old, new);
        }
        for (a, b) in new_kinds {
            self.kinds.insert(a, b);
        }
        for (a, b) in new_cl {
            self.closures.insert(a, b);
        }
        self.iters.extend(iter_params(self, &f.sig)?);
        if let Some(o) = &f.owner {
            if self.owner.as_ref() != Some(o) {
                OwnSelf(syn::Ident::new(o, proc_macro2::Span::call_site())).visit_block_mut(&mut body);
            }
        }
        let mut rn = ret::Rename { map, self_to };
        rn.visit_block_mut(&mut body);
        for (name, to) in &places {
            crate::shapes::Unalias { name, to }.visit_block_mut(&mut body);
        }
        let mut inl = Locals { v: vec![], sig: String::new() };
        for (p, t) in &params {
            if let Pat::Ident(pi) = p {
                if !fn_arg_is_closure(&f.sig, t) {
                    inl.v.push((format!("{}_h{n}", pi.ident), format!("arg:{}", squash(t))));
                }
            }
        }
        inl.visit_block(&body);
        self.inl_names.extend(inl.v);
        let saved_owner = self.owner.clone();
        if f.owner.is_some() && f.has_self() {
            self.owner = f.owner.clone();
        } else if let Some(o) = &f.owner {
            self.owner = Some(o.clone());
        }
        let opt = match &f.sig.output {
            ReturnType::Type(_, t) => match &**t {
                Type::Path(p) => {
                    let l = p.path.segments.last().unwrap().ident.to_string();
                    match l.as_str() {
                        "Option" => Some(true),
                        l if l.contains("Result") => Some(false),
                        _ => None,
                    }
                }
                _ => None,
            },
            _ => None,
        };
        let txt = if ret::has_ret_block(&body) {
            let mut nr = self.nret;
            ret::LOOPS.set(!tail);
            let el = ret::elim(&body.stmts, opt, &mut nr);
            ret::LOOPS.set(true);
            match el {
                Ok(b) => {
                    self.nret = nr;
                    self.stmts(&b.stmts, tail)
                }
                Err(_) if tail => self.stmts(&body.stmts, true),
                Err(e) => Err(format!("{key}: {e}")),
            }
        } else {
            self.stmts(&body.stmts, false)
        };
        let txt = txt.map_err(|e| format!("in {key}: {e}"))?;
        s.push_str(&txt);
        s.push_str(" }");
        self.owner = saved_owner;
        self.kinds = saved_kinds;
        self.closures = saved_cl;
        self.iters = saved_iters;
        self.depth -= 1;
        self.inline_stack.pop();
        Ok(s)
    }

    // ------------------------------------------------------------ pipelines
    fn pipe(&mut self, e: &Expr) -> R<Pipe> {
        let e = strip(e);
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let arg = |i: usize| -> R<Expr> { m.args.iter().nth(i).cloned().ok_or("missing argument".into()) };
                let rk = self.kind(&m.receiver);
                if rk == Kind::Iter {
                    match n.as_str() {
                        "map" | "filter" | "filter_map" | "flat_map" | "flatten" | "cloned" | "copied" | "take_while" | "inspect" => {
                            let mut p = self.pipe(&m.receiver)?;
                            p.stages.push(match n.as_str() {
                                "map" => Stage::Map(arg(0)?),
                                "filter" => Stage::Filter(arg(0)?),
                                "filter_map" => Stage::FilterMap(arg(0)?),
                                "flat_map" => Stage::FlatMap(arg(0)?),
                                "take_while" => Stage::TakeWhile(arg(0)?),
                                "inspect" => Stage::Inspect(arg(0)?),
                                "flatten" => Stage::Flatten,
                                _ => Stage::Cloned,
                            });
                            return Ok(p);
                        }
                        "enumerate" | "rev" => {
                            let s = self.seq(&m.receiver)?;
                            return Ok(Pipe { src: Src::Seq(format!("v_{n}({s})")), stages: vec![] });
                        }
                        "take" | "skip" => {
                            let s = self.seq(&m.receiver)?;
                            let a = self.ex(&arg(0)?)?;
                            return Ok(Pipe { src: Src::Seq(format!("v_{n}({s}, {a})")), stages: vec![] });
                        }
                        "chain" | "zip" => {
                            let s = self.seq(&m.receiver)?;
                            let a0 = arg(0)?;
                            if let Expr::Range(syn::ExprRange { start: Some(st), end: None, .. }) = strip(&a0) {
                                if n == "zip" {
                                    let st = self.ex(st)?;
                                    return Ok(Pipe { src: Src::Seq(format!("v_zip_from({s}, {st})")), stages: vec![] });
                                }
                            }
                            let a = self.into_seq(&arg(0)?)?;
                            return Ok(Pipe { src: Src::Seq(format!("v_{n}({s}, {a})")), stages: vec![] });
                        }
                        "by_ref" | "into_iter" | "iter" => return self.pipe(&m.receiver),
                        _ => {}
                    }
                }
                match n.as_str() {
                    "iter_mut" | "values_mut" if self.crate_methods(&n).is_empty() => {
                        let ty = self.place_type(&m.receiver)?;
                        let pl = self.place(&m.receiver)?;
                        return Ok(Pipe {
                            src: match (ty.as_str(), n.as_str()) {
                                ("Vec", "iter_mut") => Src::MutVec(pl),
                                ("BMap", "iter_mut") => Src::MutMap(pl, true),
                                ("BMap", "values_mut") => Src::MutMap(pl, false),
                                _ => return Err(format!("{n} on {ty}")),
                            },
                            stages: vec![],
                        });
                    }
                    _ => {}
                }
                Ok(Pipe { src: Src::Seq(self.ex(e)?), stages: vec![] })
            }
            Expr::Range(r) => {
                let a = match &r.start {
                    Some(a) => self.ex(a)?,
                    None => return Err("range without start".into()),
                };
                let b = match &r.end {
                    Some(b) => self.ex(b)?,
                    None => return Err("unbounded range".into()),
                };
                let b = match r.limits {
                    syn::RangeLimits::HalfOpen(_) => b,
                    syn::RangeLimits::Closed(_) => format!("({b}) + 1"),
                };
                Ok(Pipe { src: Src::Range(a, b), stages: vec![] })
            }
            _ => Ok(Pipe { src: Src::Seq(format!("{}.v_into_iter()", self.par(e)?)), stages: vec![] }),
        }
    }

    // ------------------------------------------------------------ declared types
    /// A type without references, parentheses and aliases.
    fn norm(&self, t: &Type) -> Type {
        match t {
            Type::Reference(r) => self.norm(&r.elem),
            Type::Paren(p) => self.norm(&p.elem),
            Type::Group(p) => self.norm(&p.elem),
            Type::Path(p) => {
                let last = p.path.segments.last().unwrap().ident.to_string();
                match self.kr.aliases.get(&last) {
                    Some(a) if p.path.segments.len() == 1 => self.norm(&a.ty),
                    _ => t.clone(),
                }
            }
            _ => t.clone(),
        }
    }
    fn root_of(&self, t: &Type) -> Option<String> {
        match self.norm(t) {
            Type::Path(p) => Some(self.alias_root(&p.path.segments.last().unwrap().ident.to_string())),
            _ => None,
        }
    }
    fn type_args(&self, t: &Type) -> Vec<Type> {
        if let Type::Path(p) = self.norm(t) {
            if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                return a
                    .args
                    .iter()
                    .filter_map(|g| match g {
                        GenericArgument::Type(t) => Some(t.clone()),
                        _ => None,
                    })
                    .collect();
            }
        }
        vec![]
    }
    /// The declared type of an expression, where it can be read off; used only to choose between the
    /// container models, which the verifier's type checker checks again.
    fn type_of(&self, e: &Expr) -> Option<Type> {
        match strip(e) {
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.tys.get(&i.to_string()).cloned()),
            Expr::Reference(r) => self.type_of(&r.expr),
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => self.type_of(&u.expr),
            Expr::Field(f) => match &f.member {
                syn::Member::Named(n) => {
                    let ts = self.kr.fields.get(&n.to_string())?;
                    let first = ts.first()?.to_token_stream().to_string();
                    if ts.iter().all(|t| t.to_token_stream().to_string() == first) {
                        return ts.first().cloned();
                    }
                    // Several fields of that name: their common container, if any.
                    let roots: BTreeSet<Option<String>> = ts.iter().map(|t| self.root_of(t)).collect();
                    match (roots.len(), ts.first()) {
                        (1, Some(t)) => {
                            let mut t = self.norm(t);
                            if let Type::Path(p) = &mut t {
                                p.path.segments.last_mut()?.arguments = PathArguments::None;
                            }
                            Some(t)
                        }
                        _ => None,
                    }
                }
                syn::Member::Unnamed(i) => match self.norm(&self.type_of(&f.base)?) {
                    Type::Tuple(t) => t.elems.iter().nth(i.index as usize).cloned(),
                    _ => None,
                },
            },
            Expr::Index(i) => self.elem_of(&self.type_of(&i.expr)?),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let c = self.crate_methods(&n);
                if let Some(f) = c.first() {
                    return match &f.sig.output {
                        ReturnType::Type(_, t) => Some((**t).clone()),
                        _ => None,
                    };
                }
                match n.as_str() {
                    "clone" | "as_ref" | "as_mut" => self.type_of(&m.receiver),
                    _ => None,
                }
            }
            Expr::Call(c) => {
                let Expr::Path(p) = strip(&c.func) else { return None };
                if let Some(f) = self.path_fn(&p.path) {
                    return match &f.sig.output {
                        ReturnType::Type(_, t) => Some((**t).clone()),
                        _ => None,
                    };
                }
                let n = p.path.segments.len();
                if n < 2 {
                    return None;
                }
                let mut q = p.path.clone();
                q.segments.pop();
                q.segments.pop_punct();
                Some(Type::Path(syn::TypePath { qself: None, path: q }))
            }
            _ => None,
        }
    }
    /// The item type of a container.
    fn elem_of(&self, t: &Type) -> Option<Type> {
        self.type_args(t).last().cloned()
    }
    fn note_ty(&mut self, p: &Pat, t: &Type) {
        match p {
            Pat::Ident(i) => {
                self.tys.insert(i.ident.to_string(), t.clone());
            }
            Pat::Reference(r) => self.note_ty(&r.pat, t),
            Pat::Paren(r) => self.note_ty(&r.pat, t),
            Pat::Type(r) => self.note_ty(&r.pat, &r.ty),
            Pat::Tuple(pt) => {
                if let Type::Tuple(tt) = self.norm(t) {
                    if pt.elems.len() == tt.elems.len() {
                        for (p, t) in pt.elems.iter().zip(tt.elems.iter()) {
                            self.note_ty(p, t);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    /// What a `for` loop over `e` binds.
    fn note_item(&mut self, p: &Pat, e: &Expr) {
        let (base, how) = match strip(e) {
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "iter" | "iter_mut" | "into_iter" => (&*m.receiver, "item"),
                "values" | "values_mut" | "into_values" => (&*m.receiver, "value"),
                _ => return,
            },
            e => (e, "item"),
        };
        let Some(t) = self.type_of(base) else { return };
        let args = self.type_args(&t);
        match (self.root_of(&t).as_deref(), how) {
            (Some("BMap"), "item") => {
                if let (Pat::Tuple(pt), 2) = (p, args.len()) {
                    for (p, t) in pt.elems.iter().zip(&args) {
                        self.note_ty(p, t);
                    }
                }
            }
            _ => {
                if let Some(t) = args.last() {
                    self.note_ty(p, t);
                }
            }
        }
    }

    /// The container of a place, from the declared type of its last field or of the local.
    fn place_type(&self, e: &Expr) -> R<String> {
        self.type_of(e).and_then(|t| self.root_of(&t)).ok_or_else(|| format!("container type of {}", e.to_token_stream()))
    }

    /// An iterator-kind expression as an owned Vec of its items.
    fn seq(&mut self, e: &Expr) -> R<String> {
        let p = self.pipe(e)?;
        if p.stages.is_empty() {
            if let Src::Seq(s) = p.src {
                return Ok(s);
            }
        }
        if p.stages.len() == 1 && matches!(p.stages[0], Stage::Cloned) {
            if let Src::Seq(s) = p.src {
                return Ok(format!("({s}).v_cloned()"));
            }
        }
        self.collect_vec(p)
    }
    /// An argument that implements IntoIterator, as an owned Vec.
    fn into_seq(&mut self, e: &Expr) -> R<String> {
        if self.kind(e) == Kind::Iter {
            return self.seq(e);
        }
        Ok(format!("{}.v_into_iter()", self.par(e)?))
    }

    fn collect_vec(&mut self, p: Pipe) -> R<String> {
        self.nacc += 1;
        let id = self.nacc;
        let mut p = p;
        // A flattened tail without an invariant of its own: all of its elements at once.
        let (l1, l2) = (self.nloop + 1, self.nloop + 2);
        let flat = match p.stages.last() {
            Some(Stage::FlatMap(f)) => Some(Some(f.clone())),
            Some(Stage::Flatten) => Some(None),
            _ => None,
        };
        let nested = p.stages.iter().filter(|s| matches!(s, Stage::FlatMap(_) | Stage::Flatten)).count();
        let whole = flat.is_some()
            && nested == 1
            && self.contract.as_ref().map_or(false, |c| c.sec(&format!("loop {l1} inv")).is_some() && c.sec(&format!("loop {l2} inv")).is_none());
        let l = if whole {
            p.stages.pop();
            let f = flat.unwrap();
            self.run(p, None, &mut |me, it| {
                let e = match &f {
                    Some(f) => me.apply(f, &[it])?,
                    None => it.text(),
                };
                Ok(format!("__c{id}.v_extend(({e}).v_into_iter());\n"))
            })?
        } else {
            self.run(p, None, &mut |_, it| Ok(format!("__c{id}.push({});\n", it.text())))?
        };
        Ok(format!("{{ let mut __c{id} = Vec::new();\n{l}\n__c{id} }}"))
    }

    fn run(&mut self, p: Pipe, label: Option<String>, body: &mut dyn FnMut(&mut Self, Item) -> R<String>) -> R<String> {
        self.gen(p.src, &p.stages, label, body)
    }

    /// Chooses between the two texts of a hook, now that the body of loop `id` is known.
    fn resolve(&self, id: usize, text: String, body: &str) -> String {
        let open = format!("\u{1}{id} ");
        let Some(k) = text.find(&open) else { return text };
        let root: String = text[k + open.len()..].chars().take_while(|c| *c != '\u{2}').collect();
        let mut fills = std::collections::BTreeSet::new();
        for m in ["insert(", "remove(", "push(", "append(", "v_extend(", "get_mut(", "v_entry(", "v_retain("] {
            for (i, _) in body.match_indices(&format!(".{m}")) {
                // the root of the place: `self` in `self.table.rows.push(`, and in `(*self.table.at(&k).unwrap()).insert(`
                let w: String = body[..i].chars().rev().take_while(|c| !";{}=\n".contains(*c)).collect();
                let w: String = w.chars().rev().collect();
                let w: String = w.trim_start_matches(|c: char| !(c.is_alphanumeric() || c == '_')).chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                if !w.is_empty() && !w.starts_with("g_") && !["let", "if", "match", "while", "return"].contains(&w.as_str()) && !body.contains(&format!("let mut {w} ")) && !body.contains(&format!("let mut {w}:")) {
                    fills.insert(w);
                }
            }
        }
        let alt = (!fills.contains(&root) && fills.len() == 1).then(|| fills.into_iter().next().unwrap());
        let mut out = String::new();
        let mut rest = text.as_str();
        while let Some(k) = rest.find(&open) {
            out.push_str(&rest[..k]);
            let t = &rest[k..];
            let (b, c, d) = (t.find('\u{2}').unwrap(), t.find('\u{3}').unwrap(), t.find('\u{4}').unwrap());
            match &alt {
                Some(v) => out.push_str(&t[c + 1..d].replace(&format!("__m{id}"), v)),
                None => out.push_str(&t[b + 1..c]),
            }
            rest = &t[d + 1..];
        }
        out.push_str(rest);
        out
    }

    fn loop_spec(&mut self, id: usize, builtin: &[String], dec: Option<String>) -> String {
        let mut s = String::new();
        let x = self.hook(&format!("loop {id} xinv"));
        let inv = self.hook(&format!("loop {id} inv"));
        let mut invs: Vec<String> = builtin.to_vec();
        if !inv.trim().is_empty() {
            invs.push(inv.trim_end().trim_end_matches(',').to_string());
        }
        if !x.trim().is_empty() {
            s.push_str(&format!(" invariant_except_break\n {},\n", x.trim_end().trim_end_matches(',')));
        }
        if !invs.is_empty() {
            s.push_str(&format!(" invariant\n {},\n", invs.join(",\n ")));
        }
        let e = self.hook(&format!("loop {id} ens")).trim_end().trim_end_matches(',').to_string();
        if !e.trim().is_empty() {
            s.push_str(&format!(" ensures\n {e},\n"));
        }
        let d = self.hook(&format!("loop {id} dec"));
        if !d.trim().is_empty() {
            s.push_str(&format!(" decreases {}\n", d.trim()));
        } else if let Some(d) = dec {
            s.push_str(&format!(" decreases {d}\n"));
        } else {
            self.no_dec = true;
        }
        s
    }

    fn gen(&mut self, src: Src, stages: &[Stage], label: Option<String>, body: &mut dyn FnMut(&mut Self, Item) -> R<String>) -> R<String> {
        self.nloop += 1;
        let id = self.nloop;
        if let (Some((acc, miss)), Src::Seq(_)) = (self.search.take(), &src) {
            if self.contract.as_ref().map_or(false, |c| c.secs.keys().any(|k| k.starts_with(&format!("loop {id} ")) && k.ends_with(" find"))) {
                self.places.insert(format!("f{id}"), acc);
                self.finds.insert(id, miss);
            }
        }
        if let Src::MutVec(p) | Src::MutMap(p, _) = &src {
            self.places.insert(format!("p{id}"), p.clone());
        }
        let (pre, cond, inv, dec, item, bind) = match src {
            Src::Seq(s) => (
                format!("let __s{id} = {s};\nlet mut __i{id}: usize = 0;\n"),
                format!("__i{id} < __s{id}.len()"),
                vec![format!("__i{id} <= __s{id}.len()")],
                format!("__s{id}.len() - __i{id}"),
                Item::One(format!("__x{id}")),
                format!("let __x{id} = v_item(&__s{id}, __i{id});\n__i{id} = __i{id} + 1;\n"),
            ),
            Src::Range(a, b) if a.parse::<usize>().map_or(false, |a| a > 0) => (
                format!("let __e{id}: usize = {{ let __b{id}: usize = {b}; if __b{id} < {a} {{ 0 }} else {{ __b{id} - {a} }} }};\nlet mut __i{id}: usize = 0;\n"),
                format!("__i{id} < __e{id}"),
                vec![format!("__i{id} <= __e{id}")],
                format!("__e{id} - __i{id}"),
                Item::One(format!("__x{id}")),
                format!("let __x{id} = __i{id} + {a};\n__i{id} = __i{id} + 1;\n"),
            ),
            Src::Range(a, b) => (
                format!("let __b{id} = {a};\nlet __e{id} = {b};\nlet mut __i{id} = __b{id};\n"),
                format!("__i{id} < __e{id}"),
                vec![format!("__b{id} <= __i{id}"), format!("__i{id} <= __e{id} || __i{id} == __b{id}")],
                format!("__e{id} - __i{id}"),
                Item::One(format!("__x{id}")),
                format!("let __x{id} = __i{id};\n__i{id} = __i{id} + 1;\n"),
            ),
            Src::MutVec(p) => (
                format!("let __n{id} = {p}.len();\nlet mut __i{id}: usize = 0;\n"),
                format!("__i{id} < __n{id}"),
                vec![format!("__i{id} <= __n{id}"), format!("{p}.len() == __n{id}")],
                format!("__n{id} - __i{id}"),
                Item::One(format!("__x{id}")),
                format!("let __x{id} = &mut {p}[__i{id}];\n__i{id} = __i{id} + 1;\n"),
            ),
            Src::MutMap(p, keys) => (
                format!("let __s{id} = {p}.v_keys().v_cloned();\nlet mut __i{id}: usize = 0;\n"),
                format!("__i{id} < __s{id}.len()"),
                vec![format!("__i{id} <= __s{id}.len()")],
                format!("__s{id}.len() - __i{id}"),
                if keys { Item::Two(format!("__k{id}"), format!("__x{id}")) } else { Item::One(format!("__x{id}")) },
                format!(
                    "let __k{id} = &__s{id}[__i{id}];\n__i{id} = __i{id} + 1;\nlet __x{id} = {p}.get_mut(__k{id}).unwrap();\n"
                ),
            ),
        };
        let before = self.hook(&format!("loop {id} before"));
        let spec = self.loop_spec(id, &inv, Some(dec));
        let begin = self.hook(&format!("loop {id} begin"));
        self.loops.push((label.clone(), id));
        let mut inner = self.stages(item, stages, body)?;
        // A search goes on while nothing was found (same as leaving the loop where it is found).
        let cond = match self.finds.get(&id) {
            Some(miss) => {
                let k = inner.rfind(" break;").ok_or("search")?;
                inner.replace_range(k..k + 7, "");
                format!("{cond} && {miss}")
            }
            None => cond,
        };
        let end = self.hook(&format!("loop {id} end"));
        inner.push_str(&end);
        self.loops.pop();
        let after = self.hook(&format!("loop {id} after"));
        let lab = label.map(|l| format!("{l}: ")).unwrap_or_default();
        let t = format!("{{\n{pre}{before}{lab}while {cond}\n{spec}{{\n{bind}{begin}{inner}}}\n{after}}}\n");
        Ok(self.resolve(id, t, &inner))
    }

    fn cont(&mut self) -> String {
        let id = self.loops.last().unwrap().1;
        let e = self.hook(&format!("loop {id} end"));
        format!("{{ {e} continue; }}")
    }

    fn stages(&mut self, item: Item, stages: &[Stage], body: &mut dyn FnMut(&mut Self, Item) -> R<String>) -> R<String> {
        let Some(s) = stages.first() else { return body(self, item) };
        let rest = &stages[1..];
        let n = self.tmp();
        Ok(match s {
            Stage::Map(f) => {
                let e = self.apply(f, &[item])?;
                format!("let __y{n} = {e};\n{}", self.stages(Item::One(format!("__y{n}")), rest, body)?)
            }
            Stage::Cloned => format!("let __y{n} = {}.vclone();\n{}", item.text(), self.stages(Item::One(format!("__y{n}")), rest, body)?),
            Stage::Inspect(f) => {
                let e = self.apply(f, &[Item::One(format!("&{}", item.text()))])?;
                format!("{e};\n{}", self.stages(item, rest, body)?)
            }
            Stage::Filter(f) => {
                let e = self.apply(f, &[Item::One(format!("&{}", item.text()))])?;
                let c = self.cont();
                format!("let __y{n} = {e};\nif !__y{n} {c}\n{}", self.stages(item, rest, body)?)
            }
            Stage::TakeWhile(f) => {
                let e = self.apply(f, &[Item::One(format!("&{}", item.text()))])?;
                format!("let __y{n} = {e};\nif !__y{n} {{ break; }}\n{}", self.stages(item, rest, body)?)
            }
            Stage::FilterMap(f) => {
                let e = self.apply(f, &[item])?;
                let c = self.cont();
                format!(
                    "let __z{n} = {e};\nlet __y{n} = match __z{n} {{ Some(__v) => __v, None => {c} }};\n{}",
                    self.stages(Item::One(format!("__y{n}")), rest, body)?
                )
            }
            Stage::FlatMap(f) => {
                if let Expr::Path(p) = strip(f) {
                    let l = p.path.segments.last().unwrap().ident.to_string();
                    if p.path.segments.len() == 2 && l == "iter_mut" {
                        let r = self.alias_root(&p.path.segments[0].ident.to_string());
                        let src = match r.as_str() {
                            "BMap" => Src::MutMap(item.text(), true),
                            "Vec" => Src::MutVec(item.text()),
                            _ => return Err("iter_mut path".into()),
                        };
                        return self.gen(src, rest, None, body);
                    }
                    if p.path.segments.len() == 2 && l == "values_mut" {
                        return self.gen(Src::MutMap(item.text(), false), rest, None, body);
                    }
                }
                if let Expr::Closure(c) = strip(f) {
                    if let (Expr::MethodCall(m), Some(Pat::Ident(pi))) = (strip(&c.body), c.inputs.first()) {
                        let mn = m.method.to_string();
                        if (mn == "iter_mut" || mn == "values_mut")
                            && matches!(strip(&m.receiver), Expr::Path(p) if p.path.is_ident(&pi.ident))
                        {
                            return Err("iter_mut of a closure parameter of unknown container type".into());
                        }
                    }
                }
                let e = self.apply(f, &[item])?;
                self.gen(Src::Seq(format!("({e}).v_into_iter()")), rest, None, body)?
            }
            Stage::Flatten => self.gen(Src::Seq(format!("{}.v_into_iter()", item.text())), rest, None, body)?,
        })
    }

    // ------------------------------------------------------------ expressions
    fn par(&mut self, e: &Expr) -> R<String> {
        let s = self.ex(e)?;
        Ok(match strip(e) {
            Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Lit(_) => s,
            _ => format!("({s})"),
        })
    }
    fn place(&mut self, e: &Expr) -> R<String> {
        Ok(match strip(e) {
            Expr::Index(i) => {
                let ix = self.ex(&i.index)?;
                format!("{}[{ix}]", self.place(&i.expr)?)
            }
            Expr::Field(f) => format!("{}.{}", self.place(&f.base)?, f.member.to_token_stream()),
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => format!("(*{})", self.place(&u.expr)?),
            e => self.ex(e)?,
        })
    }

    fn cond(&mut self, e: &Expr) -> R<String> {
        match strip(e) {
            Expr::Let(l) => Ok(format!("let {} = {}", self.pat(&l.pat)?, self.ex(&l.expr)?)),
            _ => self.ex(e),
        }
    }

    fn ex(&mut self, e: &Expr) -> R<String> {
        Ok(match e {
            Expr::Paren(p) => self.par(&p.expr)?,
            Expr::Group(p) => self.par(&p.expr)?,
            Expr::Lit(l) => l.to_token_stream().to_string(),
            Expr::Path(p) => {
                if p.qself.is_some() {
                    return Err(format!("path {}", p.to_token_stream()));
                }
                // A crate function used as a value.
                if p.path.segments.len() == 1 {
                    let n = p.path.segments[0].ident.to_string();
                    if !self.kinds.contains_key(&n) && matches!(n.as_str(), "clone" | "empty") && !p.path.segments[0].arguments.is_none() {
                        return Ok("v_fn_item()".into());
                    }
                }
                self.path(&p.path)?
            }
            Expr::Field(f) => format!("{}.{}", self.par(&f.base)?, f.member.to_token_stream()),
            Expr::Reference(r) => {
                if r.mutability.is_some() {
                    format!("&mut {}", self.place(&r.expr)?)
                } else if let Expr::Index(i) = strip(&r.expr) {
                    if let Expr::Range(g) = strip(&i.index) {
                        self.slice(&i.expr, g)?
                    } else {
                        format!("&{}", self.par(&r.expr)?)
                    }
                } else {
                    format!("&{}", self.par(&r.expr)?)
                }
            }
            Expr::Unary(u) => match u.op {
                syn::UnOp::Deref(_) => format!("(*{})", self.par(&u.expr)?),
                syn::UnOp::Not(_) => format!("(!{})", self.par(&u.expr)?),
                _ => return Err("unary operator".into()),
            },
            Expr::Binary(b) => {
                use syn::BinOp::*;
                match b.op {
                    Eq(_) | Ne(_) => {
                        let neg = matches!(b.op, Ne(_));
                        let (l, r) = (self.par(&b.left)?, self.par(&b.right)?);
                        format!("{}veq(&{l}, &{r})", if neg { "!" } else { "" })
                    }
                    AddAssign(_) | SubAssign(_) | MulAssign(_) => {
                        let op = match b.op {
                            AddAssign(_) => "+",
                            SubAssign(_) => "-",
                            _ => "*",
                        };
                        let p = self.place(&b.left)?;
                        let r = self.par(&b.right)?;
                        format!("{p} = {p} {op} {r}")
                    }
                    Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) | And(_) | Or(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) => {
                        let (l, r) = (self.par(&b.left)?, self.par(&b.right)?);
                        format!("({l} {} {r})", b.op.to_token_stream())
                    }
                    _ => return Err(format!("operator {}", b.op.to_token_stream())),
                }
            }
            Expr::Assign(a) => {
                let r = self.ex(&a.right)?;
                let l = self.place(&a.left)?;
                format!("{l} = {r}")
            }
            Expr::Tuple(t) => {
                let v: R<Vec<_>> = t.elems.iter().map(|e| self.ex(e)).collect();
                let v = v?;
                if v.len() == 1 {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            Expr::Block(b) if b.label.is_none() => self.block(&b.block)?,
            Expr::If(i) if matches!(&*i.cond, Expr::Let(l) if matches!(&*l.pat, Pat::Slice(_))) => {
                let Expr::Let(l) = &*i.cond else { unreachable!() };
                let (p, x, b) = (&l.pat, &l.expr, &i.then_branch);
                let els: Expr = match &i.else_branch {
                    Some((_, e)) => (**e).clone(),
                    None => parse_quote!({}),
                };
                let m: syn::ExprMatch = parse_quote!(match #x { #p => #b, _ => #els });
                self.slice_match(&m)?
            }
            Expr::If(i) => {
                let c = self.cond(&i.cond)?;
                let mut t = self.block(&i.then_branch)?;
                if let Expr::Let(l) = strip(&i.cond) {
                    let h = self.pat_hooks(&l.pat);
                    t.insert_str(1, &format!("\n{h}"));
                }
                match &i.else_branch {
                    None => format!("if {c} {t}"),
                    Some((_, e)) => {
                        let e = match &**e {
                            Expr::If(_) => self.ex(e)?,
                            Expr::Block(b) => self.block(&b.block)?,
                            _ => return Err("else".into()),
                        };
                        format!("if {c} {t} else {e}")
                    }
                }
            }
            Expr::Match(m) if m.arms.iter().any(|a| matches!(a.pat, Pat::Slice(_))) => self.slice_match(m)?,
            Expr::Match(m) => {
                let s = self.ex(&m.expr)?;
                let mut out = format!("match {s} {{\n");
                for a in &m.arms {
                    let saved = self.kinds.clone();
                    // An or-pattern that binds becomes one arm per case.
                    let cases = if binds(&a.pat) { or_cases(&a.pat) } else { vec![a.pat.clone()] };
                    let ps: R<Vec<String>> = cases.iter().map(|p| self.pat(p)).collect();
                    let g = match &a.guard {
                        Some((_, g)) => format!(" if {}", self.ex(g)?),
                        None => String::new(),
                    };
                    let b = self.ex(&a.body)?;
                    let h = self.pat_hooks(&a.pat);
                    for p in ps? {
                        out.push_str(&format!("{p}{g} => {{ {h}{b} }},\n"));
                    }
                    self.kinds = saved;
                }
                out.push('}');
                out
            }
            Expr::Return(r) => {
                let t = match &r.expr {
                    Some(e) => self.ex(e)?,
                    None => String::new(),
                };
                if self.contract.as_ref().map_or(false, |c| c.sec("exit").is_some()) {
                    let h = self.hook("exit");
                    if t.is_empty() {
                        format!("{{ {h} return; }}")
                    } else {
                        format!("{{ let __r: {} = {t};\n{h} return __r; }}", self.ret_ty)
                    }
                } else {
                    format!("return {t}")
                }
            }
            Expr::Break(b) => {
                if b.expr.is_some() {
                    return Err("break with value".into());
                }
                let target = self.loop_target(&b.label)?;
                let h = self.hook(&format!("loop {} break", target.1));
                let l = match &b.label {
                    Some(l) => format!(" {l}"),
                    None => String::new(),
                };
                format!("{{ {h} break{l}; }}")
            }
            Expr::Continue(c) => {
                let target = self.loop_target(&c.label)?;
                let h = self.hook(&format!("loop {} end", target.1));
                let l = match &c.label {
                    Some(l) => format!(" {l}"),
                    None => String::new(),
                };
                format!("{{ {h} continue{l}; }}")
            }
            Expr::Try(t) => {
                if let Expr::Path(p) = &*t.expr {
                    if p.path.is_ident("None") {
                        let r: Expr = parse_quote!(return None);
                        return self.ex(&r);
                    }
                }
                format!("{}?", self.par(&t.expr)?)
            }
            Expr::Struct(s) => {
                let mut v = vec![];
                for f in &s.fields {
                    v.push(format!("{}: {}", f.member.to_token_stream(), self.ex(&f.expr)?));
                }
                if let Some(r) = &s.rest {
                    v.push(format!("..{}", self.ex(r)?));
                }
                format!("{} {{ {} }}", self.path(&s.path)?, v.join(", "))
            }
            Expr::ForLoop(f) => self.for_loop(f)?,
            Expr::While(w) => {
                if let Expr::Let(l) = strip(&w.cond) {
                    let (p, e, b) = (&l.pat, &l.expr, &w.body);
                    let lab = &w.label;
                    let ex: Expr = parse_quote!(#lab loop { match #e { #p => #b, _ => { break; } } });
                    return self.ex(&ex);
                }
                self.nloop += 1;
                let id = self.nloop;
                let c = self.ex(&w.cond)?;
                let before = self.hook(&format!("loop {id} before"));
                let spec = self.loop_spec(id, &[], None);
                let begin = self.hook(&format!("loop {id} begin"));
                let label = w.label.as_ref().map(|l| l.name.to_string());
                self.loops.push((label.clone(), id));
                let b = self.stmts(&w.body.stmts, false)?;
                let end = self.hook(&format!("loop {id} end"));
                self.loops.pop();
                let after = self.hook(&format!("loop {id} after"));
                let lab = label.map(|l| format!("{l}: ")).unwrap_or_default();
                let t = format!("{{\n{before}{lab}while {c}\n{spec}{{\n{begin}{b}{end}}}\n{after}}}");
                self.resolve(id, t, &b)
            }
            Expr::Loop(w) => {
                self.nloop += 1;
                let id = self.nloop;
                let before = self.hook(&format!("loop {id} before"));
                let spec = self.loop_spec(id, &[], None);
                let begin = self.hook(&format!("loop {id} begin"));
                let label = w.label.as_ref().map(|l| l.name.to_string());
                self.loops.push((label.clone(), id));
                let b = self.stmts(&w.body.stmts, false)?;
                let end = self.hook(&format!("loop {id} end"));
                self.loops.pop();
                let after = self.hook(&format!("loop {id} after"));
                let lab = label.map(|l| format!("{l}: ")).unwrap_or_default();
                let t = format!("{before}{lab}loop\n{spec}{{\n{begin}{b}{end}}}\n{after}");
                self.resolve(id, t, &b)
            }
            Expr::Index(i) => {
                if let Expr::Range(_) = strip(&i.index) {
                    return Err("slice value".into());
                }
                let b = self.par(&i.expr)?;
                let x = self.ex(&i.index)?;
                format!("(*{b}.vindex({x}))")
            }
            Expr::Call(c) => self.call(c)?,
            Expr::MethodCall(m) => self.method(m)?,
            Expr::Closure(_) => return Err("closure as a value".into()),
            Expr::Macro(m) => return Err(format!("macro {}!", m.mac.path.to_token_stream())),
            Expr::Cast(c) => format!("({} as {})", self.par(&c.expr)?, self.ty(&c.ty)?),
            Expr::Array(_) => return Err("array".into()),
            _ => return Err(format!("expression {}", e.to_token_stream())),
        })
    }

    /// `match` over slice patterns of plain names, as a chain of length tests.
    fn slice_match(&mut self, m: &syn::ExprMatch) -> R<String> {
        let n = self.tmp();
        let s = self.ex(&m.expr)?;
        let mut out = format!("{{ let __m{n} = {s};\n");
        let mut first = true;
        for a in &m.arms {
            if a.guard.is_some() {
                return Err("guarded slice pattern".into());
            }
            let kw = if first { "if" } else { " else if" };
            let mut lets = String::new();
            match &a.pat {
                Pat::Slice(sl) => {
                    let k = sl.elems.len();
                    let rest = sl.elems.iter().position(|p| matches!(p, Pat::Rest(_)) || matches!(p, Pat::Ident(i) if i.subpat.is_some()));
                    for (i, p) in sl.elems.iter().enumerate() {
                        match p {
                            Pat::Wild(_) | Pat::Rest(_) => {}
                            Pat::Ident(id) if id.subpat.is_some() => {
                                if i + 1 != k || !matches!(id.subpat.as_ref().map(|x| &*x.1), Some(Pat::Rest(_))) {
                                    return Err("slice pattern".into());
                                }
                                lets.push_str(&format!("let {} = &__m{n}[{i}..];\n", id.ident));
                            }
                            Pat::Ident(id) => match rest {
                                Some(r) if i > r => lets.push_str(&format!("let {} = __m{n}.vindex(__m{n}.len() - {});\n", id.ident, k - i)),
                                _ => lets.push_str(&format!("let {} = __m{n}.vindex({i});\n", id.ident)),
                            },
                            _ => return Err("slice pattern".into()),
                        }
                    }
                    let c = match rest {
                        Some(_) => format!("__m{n}.len() >= {}", k - 1),
                        None => format!("__m{n}.len() == {k}"),
                    };
                    out.push_str(&format!("{kw} {c} {{\n"));
                }
                Pat::Wild(_) => out.push_str(if first { "if true {\n" } else { " else {\n" }),
                Pat::Ident(id) if id.subpat.is_none() => {
                    lets.push_str(&format!("let {} = __m{n};\n", id.ident));
                    out.push_str(if first { "if true {\n" } else { " else {\n" })
                }
                p => return Err(format!("slice pattern {}", p.to_token_stream())),
            }
            let b = self.ex(&a.body)?;
            out.push_str(&format!("{lets}{b}\n}}"));
            first = false;
            if matches!(a.pat, Pat::Wild(_) | Pat::Ident(_)) {
                break;
            }
        }
        if !matches!(m.arms.last().map(|a| &a.pat), Some(Pat::Wild(_) | Pat::Ident(_))) {
            out.push_str(" else { vpanic() }");
        }
        out.push_str("\n}");
        Ok(out)
    }

    fn slice(&mut self, b: &Expr, r: &syn::ExprRange) -> R<String> {
        let base = self.par(b)?;
        let lo = match &r.start {
            Some(e) => self.ex(e)?,
            None => String::new(),
        };
        let hi = match &r.end {
            Some(e) => self.ex(e)?,
            None => String::new(),
        };
        if matches!(r.limits, syn::RangeLimits::Closed(_)) {
            return Err("inclusive slice".into());
        }
        Ok(format!("&{base}[{lo}..{hi}]"))
    }

    fn loop_target(&self, l: &Option<syn::Lifetime>) -> R<(Option<String>, usize)> {
        match l {
            None => self.loops.last().cloned().ok_or("break/continue outside a loop".into()),
            Some(l) => {
                let n = l.to_string();
                self.loops
                    .iter()
                    .rev()
                    .find(|x| x.0.as_deref() == Some(&n))
                    .cloned()
                    .ok_or("unknown label".into())
            }
        }
    }

    fn for_loop(&mut self, f: &syn::ExprForLoop) -> R<String> {
        let p = if self.kind(&f.expr) == Kind::Iter {
            self.pipe(&f.expr)?
        } else if let Expr::Reference(r) = strip(&f.expr) {
            if r.mutability.is_some() {
                let ty = self.place_type(&r.expr)?;
                let pl = self.place(&r.expr)?;
                Pipe { src: if ty == "Vec" { Src::MutVec(pl) } else { Src::MutMap(pl, true) }, stages: vec![] }
            } else {
                Pipe { src: Src::Seq(format!("{}.v_into_iter()", self.par(&f.expr)?)), stages: vec![] }
            }
        } else {
            Pipe { src: Src::Seq(format!("{}.v_into_iter()", self.par(&f.expr)?)), stages: vec![] }
        };
        let mut label = f.label.as_ref().map(|l| l.name.to_string());
        let nested = p.stages.iter().any(|s| matches!(s, Stage::FlatMap(_) | Stage::Flatten));
        let mut hb = HasBreak(false);
        hb.visit_block(&f.body);
        if nested && hb.0 {
            return Err("break out of a flattened iterator".into());
        }
        if nested {
            label = None;
        }
        let mut pat = (*f.pat).clone();
        let mut body = f.body.clone();
        // An item lent mutably keeps the loop's own name for it, so that it stays in sight of the
        // loop's invariants.
        if p.stages.is_empty() && matches!(p.src, Src::MutVec(_) | Src::MutMap(..)) {
            let x = format!("__x{}", self.nloop + 1);
            let slot = match (&mut pat, &p.src) {
                (Pat::Tuple(t), Src::MutMap(_, true)) if t.elems.len() == 2 => t.elems.last_mut(),
                (q, Src::MutVec(_) | Src::MutMap(_, false)) => Some(q),
                _ => None,
            };
            if let Some(q) = slot {
                if let Pat::Ident(i) = &*q {
                    if i.mutability.is_none() && i.by_ref.is_none() && i.subpat.is_none() {
                        let map = BTreeMap::from([(i.ident.to_string(), x.clone())]);
                        ret::Rename { map, self_to: None }.visit_block_mut(&mut body);
                        let id = syn::Ident::new(&x, proc_macro2::Span::call_site());
                        *q = parse_quote!(#id);
                    }
                }
            }
        }
        // The contract was written for a `collect`: its accumulator is the container this loop fills.
        let (lid, acc) = (self.nloop + 1, format!("c{}", self.nacc + 1));
        let wants = self.contract.as_ref().map_or(false, |c| c.sec(&format!("loop {lid} inv")).map_or(false, |t| has_word(t, &acc)));
        if wants {
            let mut fl = Fills(BTreeSet::new());
            fl.visit_block(&body);
            let mut c: Vec<&String> = fl.0.iter().filter(|n| self.empties.contains(*n)).collect();
            if c.is_empty() {
                c = fl.0.iter().filter(|n| *n != "self" && self.kinds.contains_key(*n)).collect();
            }
            if let [one] = c[..] {
                self.places.insert(acc, one.clone());
                self.nacc += 1;
            }
        }
        // The contract says what holds when an inner loop runs to its end: a break out of it is the
        // way to the next round.
        let outer = self.nloop + 1;
        let by_end = self.contract.as_ref().map_or(false, |c| {
            (outer + 1..outer + 3).any(|k| {
                let has = |w: &str| c.sec(&format!("loop {k} {w}")).is_some();
                has("after") && !has("ens") && !has("xinv")
            })
        });
        if by_end && !nested {
            let name = label.clone().unwrap_or(format!("'__o{outer}"));
            let lt = syn::Lifetime::new(&name, proc_macro2::Span::call_site());
            if crate::shapes::tail_dup(&mut body.stmts, &lt, &pat) {
                label = Some(name);
            }
        }
        let stmts = body.stmts;
        let saved_t = self.tys.clone();
        self.note_item(&pat, &f.expr);
        let saved = self.kinds.clone();
        let saved_c = self.closures.clone();
        let r = self.run(p, label, &mut |me, it| {
            let b = me.bind(&pat, &it)?;
            Ok(format!("{b}{}", me.stmts(&stmts, false)?))
        })?;
        self.kinds = saved;
        self.closures = saved_c;
        self.tys = saved_t;
        Ok(r)
    }

    fn args(&mut self, a: &syn::punctuated::Punctuated<Expr, syn::Token![,]>) -> R<Vec<String>> {
        a.iter().map(|e| self.ex(e)).collect()
    }

    fn call(&mut self, c: &syn::ExprCall) -> R<String> {
        let Expr::Path(p) = strip(&c.func) else {
            let f = self.par(&c.func)?;
            let a = self.args(&c.args)?;
            if a.len() != 1 {
                return Err("fn pointer call".into());
            }
            return Ok(format!("{f}.v_call({})", a[0]));
        };
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = segs.last().unwrap().as_str();
        if segs.len() == 1 {
            if let Some(cl) = self.closures.get(last).cloned() {
                let mut items = vec![];
                for a in &c.args {
                    items.push(Item::One(self.ex(a)?));
                }
                return self.apply(&cl, &items);
            }
            match last {
                "__v_vec" => {
                    let a = self.args(&c.args)?;
                    return Ok(if a.is_empty() { "Vec::new()".into() } else { format!("vec![{}]", a.join(", ")) });
                }
                "__v_repeat" => {
                    let a = self.args(&c.args)?;
                    return Ok(format!("v_repeat({}, {})", a[0], a[1]));
                }
                "vassert" => {
                    let a = self.args(&c.args)?;
                    return Ok(format!("vassert({})", a[0]));
                }
                "vpanic" => return Ok("vpanic()".into()),
                // A local that holds a semantic function.
                _ if (self.tys.contains_key(last) || self.kinds.contains_key(last)) && c.args.len() == 1 => {
                    let a = self.args(&c.args)?;
                    return Ok(format!("{last}.v_call({})", a[0]));
                }
                "Some" | "Ok" | "Err" => {
                    let a = self.args(&c.args)?;
                    return Ok(format!("{last}({})", a.join(", ")));
                }
                _ => {}
            }
        }
        if let Some(f) = self.path_fn(&p.path) {
            if !self.contracted(f) {
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                if f.has_self() {
                    return self.inline(f, args.first(), &args[1..], false);
                }
                return self.inline(f, None, &args, false);
            }
            let pt = self.path(&p.path)?;
            let mut a = vec![];
            for e in &c.args {
                a.push(self.arg(e)?);
            }
            return Ok(format!("{pt}({})", a.join(", ")));
        }
        let owner = if segs.len() >= 2 { segs[segs.len() - 2].clone() } else { String::new() };
        let root = self.alias_root(&owner);
        match (root.as_str(), last) {
            ("BMap", "from") | ("BSet", "from") => {
                if let Some(Expr::Array(arr)) = c.args.first() {
                    let n = self.tmp();
                    let pt = self.path(&p.path)?;
                    let pt = pt.strip_suffix("::from").unwrap_or(&pt).to_string();
                    let mut s = format!("{{ let mut __m{n} = {pt}::new();\n");
                    for e in &arr.elems {
                        if root == "BSet" {
                            s.push_str(&format!("__m{n}.insert({});\n", self.ex(e)?));
                        } else if let Expr::Tuple(t) = strip(e) {
                            s.push_str(&format!("__m{n}.insert({}, {});\n", self.ex(&t.elems[0])?, self.ex(&t.elems[1])?));
                        } else {
                            return Err("map literal".into());
                        }
                    }
                    s.push_str(&format!("__m{n} }}"));
                    return Ok(s);
                }
                return Err("from".into());
            }
            ("BMap" | "BSet" | "Vec", "from_iter") => {
                let s = self.into_seq(&c.args[0])?;
                return Ok(format!("v_collect::<_, {root}<{}>>({s})", if root == "BMap" { "_, _" } else { "_" }));
            }
            ("BMap" | "BSet" | "Vec", "new") => return Ok(format!("{}()", self.path(&p.path)?)),
            (_, "default") if segs.len() >= 2 => {
                let pt = self.path(&p.path)?;
                let pt = pt.strip_suffix("::default").unwrap_or(&pt).to_string();
                return Ok(format!("{pt}::vdefault()"));
            }
            ("iter", "once") => return Ok(format!("vec![{}]", self.ex(&c.args[0])?)),
            ("iter", "empty") => return Ok("Vec::new()".into()),
            ("mem", "take") => return Ok(format!("v_mem_take({})", self.ex(&c.args[0])?)),
            ("mem", "replace") => return Ok(format!("v_mem_replace({}, {})", self.ex(&c.args[0])?, self.ex(&c.args[1])?)),
            ("Rc" | "Box", "clone") => return Ok(format!("({}).vclone()", self.ex(&c.args[0])?)),
            ("Box" | "Rc", "new") => return Ok(format!("{root}::new({})", self.ex(&c.args[0])?)),
            ("Vec", "with_capacity") => return Ok("Vec::new()".into()),
            _ => {}
        }
        // Std method by path: `Map::values(x)`.
        if matches!(root.as_str(), "BMap" | "BSet" | "Vec" | "Option" | "Clone") && c.args.len() == 1 {
            let recv = &c.args[0];
            let id = &p.path.segments.last().unwrap().ident;
            let m: Expr = parse_quote!(#recv.#id());
            return self.ex(&m);
        }
        let pt = self.path(&p.path)?;
        let a = self.args(&c.args)?;
        Ok(format!("{pt}({})", a.join(", ")))
    }

    /// An argument of a crate function: iterator-kind values become Vecs; fn items become VFn.
    fn arg(&mut self, e: &Expr) -> R<String> {
        if self.kind(e) == Kind::Iter {
            return self.seq(e);
        }
        self.ex(e)
    }

    fn method(&mut self, m: &syn::ExprMethodCall) -> R<String> {
        let n = m.method.to_string();
        let recv = &*m.receiver;
        let nargs = m.args.len();
        // Crate methods.
        let cand = self.crate_methods(&n);
        let std_like = is_std_method(&n) || (matches!(n.as_str(), "next" | "position" | "min" | "max") && self.kind(recv) == Kind::Iter);
        if !cand.is_empty() && (is_self(recv) || !std_like) {
            let own: Option<&FnDef> = cand.first().copied().filter(|f| is_self(recv) && f.owner == self.owner);
            let pick = match own {
                Some(f) => Some(f),
                None if is_self(recv) && !std_like => cand.first().copied(),
                None => cand.first().copied(),
            };
            if let Some(f) = pick {
                let unc: Vec<&&FnDef> = cand.iter().filter(|f| !self.contracted(f)).collect();
                let use_inline = if own.is_some() {
                    !self.contracted(f)
                } else {
                    // The receiver's type is unknown: all candidates must agree.
                    if !unc.is_empty() && cand.iter().any(|f| self.contracted(f)) && !same_body(&cand) {
                        if unc.len() == cand.len() {
                            true
                        } else {
                            false
                        }
                    } else {
                        !unc.is_empty()
                    }
                };
                if use_inline {
                    if own.is_none() && cand.len() > 1 && !same_body(&cand) {
                        return Err(format!("ambiguous method {n}"));
                    }
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    return self.inline(f, Some(recv), &args, false);
                }
                let r = self.recv(recv, f)?;
                let mut a = vec![];
                for e in &m.args {
                    a.push(self.arg(e)?);
                }
                return Ok(format!("{r}.{n}({})", a.join(", ")));
            }
        }
        let k = self.kind(recv);
        if (n == "min" || n == "max") && nargs == 1 {
            let (a, b) = (self.ex(recv)?, self.ex(&m.args[0])?);
            return Ok(format!("v_{n}({a}, {b})"));
        }
        // entry API
        if let Expr::MethodCall(inner) = strip(recv) {
            if inner.method == "entry" {
                let p = self.place(&inner.receiver)?;
                let key = self.ex(&inner.args[0])?;
                match n.as_str() {
                    "or_default" => return Ok(format!("{p}.v_entry_or_default({key})")),
                    "or_insert" => return Ok(format!("{p}.v_entry_or_insert({key}, {})", self.ex(&m.args[0])?)),
                    "or_insert_with" => {
                        let v = self.apply(&m.args[0], &[])?;
                        return Ok(format!("{p}.v_entry_or_insert({key}, {v})"));
                    }
                    _ => return Err(format!("entry().{n}")),
                }
            }
        }
        if k == Kind::Iter {
            if let Some(s) = self.iter_terminal(m, &n)? {
                return Ok(s);
            }
            if ITER_ADAPT.contains(&n.as_str()) {
                return self.seq(&Expr::MethodCall(m.clone()));
            }
        } else if let Some(s) = self.option_method(m, &n)? {
            return Ok(s);
        }
        let r = if MUTATING.contains(&n.as_str()) { self.place(recv)? } else { self.par(recv)? };
        let r = if matches!(strip(recv), Expr::Unary(_) | Expr::Reference(_)) { format!("({r})") } else { r };
        match (n.as_str(), nargs) {
            ("clone", 0) | ("to_owned", 0) => return Ok(format!("{r}.vclone()")),
            ("iter", 0) | ("into_iter", 0) | ("keys", 0) | ("values", 0) | ("cloned", 0) | ("last", 0) | ("first", 0) | ("into", 0)
            | ("into_keys", 0) | ("into_values", 0) | ("to_vec", 0) | ("split_last", 0) | ("split_first", 0) => return Ok(format!("{r}.v_{n}()")),
            ("copied", 0) => return Ok(format!("{r}.v_cloned()")),
            ("borrow", 0) => return Ok(format!("(&{r})")),
            ("split_at", 1) | ("get", 1) | ("contains", 1) | ("is_subset", 1) | ("is_superset", 1) => {
                return Ok(format!("{r}.v_{n}({})", self.ex(&m.args[0])?))
            }
            ("extend", 1) => {
                if let Some(l) = self.extend_loop(recv, &r, &m.args[0])? {
                    return Ok(l);
                }
                let a = self.into_seq(&m.args[0])?;
                return Ok(format!("{r}.v_extend({a})"));
            }
            ("append", 1) => return Ok(format!("{r}.v_append({})", self.ex(&m.args[0])?)),
            ("expect", 1) => return Ok(format!("{r}.unwrap()")),
            ("peekable", 0) => return Ok(format!("VPeek::new({r})")),
            ("as_slice", 0) => return Ok(format!("{r}.as_slice()")),
            ("iter_mut", 0) | ("values_mut", 0) => return Err(format!("{n} outside a loop")),
            ("retain", 1) => return Err("retain".into()),
            ("union", 1) | ("intersection", 1) | ("difference", 1) => return Err(n),
            _ => {}
        }
        let a = self.args(&m.args)?;
        let turbo = match &m.turbofish {
            Some(t) => {
                let mut v = vec![];
                for g in &t.args {
                    if let GenericArgument::Type(t) = g {
                        if !self.is_iter_ty(t) && !type_is_iter_assoc(self, t) {
                            v.push(self.ty(t)?);
                        }
                    }
                }
                if v.is_empty() { String::new() } else { format!("::<{}>", v.join(", ")) }
            }
            None => String::new(),
        };
        Ok(format!("{r}.{n}{turbo}({})", a.join(", ")))
    }

    /// The closure `|x| x == Y` or `|x| *x == Y`, where the contract has nothing to say of a search.
    fn eq_search(&self, f: Option<&Expr>) -> Option<(bool, Expr)> {
        let Some(Expr::Closure(c)) = f else { return None };
        let [Pat::Ident(x)] = &c.inputs.iter().cloned().collect::<Vec<_>>()[..] else { return None };
        let lid = self.nloop + 1;
        if self.contract.as_ref().map_or(true, |c| c.secs.keys().any(|k| k.starts_with(&format!("loop {lid} ")) && k.ends_with(" find"))) {
            return None;
        }
        let Expr::Binary(b) = strip(&c.body) else { return None };
        if !matches!(b.op, syn::BinOp::Eq(_)) {
            return None;
        }
        let x = x.ident.to_string();
        let is = |e: &Expr| match e {
            Expr::Path(p) if p.path.is_ident(&x) => Some(false),
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && matches!(strip(&u.expr), Expr::Path(p) if p.path.is_ident(&x)) => Some(true),
            _ => None,
        };
        for (l, r) in [(&b.left, &b.right), (&b.right, &b.left)] {
            if let Some(d) = is(strip(l)) {
                if !has_word(&r.to_token_stream().to_string(), &x) && crate::shapes::is_place(strip(r)) {
                    return Some((d, (**r).clone()));
                }
            }
        }
        None
    }

    /// `x.extend(it)` as the loop the contract was written for.
    fn extend_loop(&mut self, recv: &Expr, place: &str, a: &Expr) -> R<Option<String>> {
        let (lid, acc) = (self.nloop + 1, format!("c{}", self.nacc + 1));
        let ok = self.contract.as_ref().map_or(false, |c| c.sec(&format!("loop {lid} inv")).map_or(false, |t| !has_word(t, &acc)));
        if !ok || self.kind(a) != Kind::Iter || !matches!(strip(recv), Expr::Path(_) | Expr::Field(_)) {
            return Ok(None);
        }
        let Ok(t) = self.place_type(recv) else { return Ok(None) };
        let add = match t.as_str() {
            "Vec" => "push",
            "BTreeSet" | "Set" | "BSet" => "insert",
            _ => return Ok(None),
        };
        let p = self.pipe(a)?;
        let place = place.to_string();
        Ok(Some(self.run(p, None, &mut |_, it| Ok(format!("{place}.{add}({});\n", it.text())))?))
    }

    fn recv(&mut self, recv: &Expr, f: &FnDef) -> R<String> {
        let mutable = matches!(f.sig.inputs.first(), Some(FnArg::Receiver(r)) if r.mutability.is_some() && r.reference.is_some());
        let s = if mutable { self.place(recv)? } else { self.par(recv)? };
        Ok(if matches!(strip(recv), Expr::Unary(_) | Expr::Reference(_)) { format!("({s})") } else { s })
    }

    fn iter_terminal(&mut self, m: &syn::ExprMethodCall, n: &str) -> R<Option<String>> {
        let a0 = m.args.first().cloned();
        Ok(Some(match n {
            "collect" => {
                let s = self.seq(&m.receiver)?;
                match &m.turbofish {
                    Some(t) => {
                        let GenericArgument::Type(ty) = &t.args[0] else { return Err("collect".into()) };
                        let ty = self.ty(ty)?;
                        format!("v_collect::<_, {ty}>({s})")
                    }
                    None => format!("v_collect({s})"),
                }
            }
            "for_each" => {
                let p = self.pipe(&m.receiver)?;
                let f = a0.unwrap();
                self.run(p, None, &mut |me, it| {
                    let e = me.apply(&f, &[it])?;
                    Ok(format!("{e};\n"))
                })?
            }
            "any" | "position" if self.eq_search(a0.as_ref()).is_some() => {
                let (d, y) = self.eq_search(a0.as_ref()).unwrap();
                let s = self.seq(&m.receiver)?;
                let y = self.ex(&y)?;
                format!("v_{n}_eq{}(&{s}, &{y})", if d { "_ref" } else { "" })
            }
            "all" | "any" => {
                let p = self.pipe(&m.receiver)?;
                let f = a0.unwrap();
                self.nacc += 1;
                let id = self.nacc;
                let (init, neg) = if n == "all" { ("true", "!") } else { ("false", "") };
                let fin = if n == "all" { "false" } else { "true" };
                // Flattened sources have nested loops: no early exit there (same value).
                let nested = p.stages.iter().any(|s| matches!(s, Stage::FlatMap(_) | Stage::Flatten));
                let brk = if nested { "" } else { " break;" };
                if !nested {
                    self.search = Some((format!("__c{id}"), format!("{}__c{id}", if n == "all" { "" } else { "!" })));
                }
                let l = self.run(p, None, &mut |me, it| {
                    let e = me.apply(&f, &[it])?;
                    let k = me.tmp();
                    Ok(format!("let __q{k}: bool = {e};\nif {neg}__q{k} {{ __c{id} = {fin};{brk} }}\n"))
                })?;
                format!("{{ let mut __c{id}: bool = {init};\n{l}\n__c{id} }}")
            }
            "find" | "find_map" => {
                let p = self.pipe(&m.receiver)?;
                let f = a0.unwrap();
                self.nacc += 1;
                let id = self.nacc;
                if p.stages.iter().any(|s| matches!(s, Stage::FlatMap(_) | Stage::Flatten)) {
                    return Err("find over a flattened iterator".into());
                }
                let map = n == "find_map";
                self.search = Some((format!("__c{id}"), format!("__c{id}.is_none()")));
                let l = self.run(p, None, &mut |me, it| {
                    let k = me.tmp();
                    if map {
                        let e = me.apply(&f, &[it])?;
                        Ok(format!("let __q{k} = {e};\nif __q{k}.is_some() {{ __c{id} = __q{k}; break; }}\n"))
                    } else {
                        let e = me.apply(&f, &[Item::One(format!("&{}", it.text()))])?;
                        Ok(format!("let __q{k}: bool = {e};\nif __q{k} {{ __c{id} = Some({}); break; }}\n", it.text()))
                    }
                })?;
                format!("{{ let mut __c{id} = None;\n{l}\n__c{id} }}")
            }
            "position" => {
                let p = self.pipe(&m.receiver)?;
                let f = a0.unwrap();
                if !p.stages.is_empty() {
                    return Err("position".into());
                }
                self.nacc += 1;
                let id = self.nacc;
                let lid = self.nloop + 1;
                self.search = Some((format!("__c{id}"), format!("__c{id}.is_none()")));
                let l = self.run(p, None, &mut |me, it| {
                    let k = me.tmp();
                    let e = me.apply(&f, &[it])?;
                    Ok(format!("let __q{k}: bool = {e};\nif __q{k} {{ __c{id} = Some(__i{lid} - 1); break; }}\n"))
                })?;
                format!("{{ let mut __c{id}: Option<usize> = None;\n{l}\n__c{id} }}")
            }
            "fold" => {
                let p = self.pipe(&m.receiver)?;
                let init = self.ex(&a0.unwrap())?;
                let f = m.args[1].clone();
                self.nacc += 1;
                let id = self.nacc;
                let l = self.run(p, None, &mut |me, it| {
                    let e = me.apply(&f, &[Item::One(format!("__c{id}")), it])?;
                    Ok(format!("__c{id} = {e};\n"))
                })?;
                format!("{{ let mut __c{id} = {init};\n{l}\n__c{id} }}")
            }
            "count" => format!("({}).len()", self.seq(&m.receiver)?),
            "next" | "last" | "max" | "min" => {
                if matches!(strip(&m.receiver), Expr::Path(_)) {
                    return Err(format!("{n} on an iterator variable"));
                }
                format!("v_it_{n}({})", self.seq(&m.receiver)?)
            }
            "clone" => format!("({}).vclone()", self.seq(&m.receiver)?),
            "peekable" => format!("VPeek::new({})", self.seq(&m.receiver)?),
            "iter" | "into_iter" => return Ok(Some(self.seq(&m.receiver)?)),
            "sum" | "product" | "partition" | "unzip" | "try_for_each" | "try_fold" | "scan" | "step_by" | "windows" | "chunks" => {
                return Err(format!("iterator method {n}"))
            }
            _ => return Ok(None),
        }))
    }

    fn option_method(&mut self, m: &syn::ExprMethodCall, n: &str) -> R<Option<String>> {
        let recv = &*m.receiver;
        let t = self.tmp();
        let v = format!("__v{t}");
        let it = Item::One(v.clone());
        if self.kind(recv) == Kind::Res {
            return self.result_method(m, n, &v, it);
        }
        Ok(Some(match (n, m.args.len()) {
            ("and", 1) | ("or", 1) | ("xor", 1) | ("zip", 1) if self.kind(recv) == Kind::Opt && n != "zip" && n != "xor" => {
                let r = self.ex(recv)?;
                let d = self.ex(&m.args[0])?;
                let (a, b) = if n == "and" { (format!("__d{t}"), "None".to_string()) } else { (format!("Some({v})"), format!("__d{t}")) };
                format!("{{ let __o{t} = {r}; let __d{t} = {d}; match __o{t} {{ Some({v}) => {a}, None => {b} }} }}")
            }
            ("map", 1) => {
                let r = self.ex(recv)?;
                let b = self.apply(&m.args[0], &[it])?;
                format!("(match {r} {{ Some({v}) => Some({b}), None => None }})")
            }
            ("and_then", 1) => {
                let r = self.ex(recv)?;
                let b = self.apply(&m.args[0], &[it])?;
                format!("(match {r} {{ Some({v}) => {b}, None => None }})")
            }
            ("filter", 1) => {
                let r = self.ex(recv)?;
                let b = self.apply(&m.args[0], &[Item::One(format!("&{v}"))])?;
                format!("(match {r} {{ Some({v}) => {{ let __f{t}: bool = {b}; if __f{t} {{ Some({v}) }} else {{ None }} }}, None => None }})")
            }
            ("then_some", 1) => {
                let r = self.ex(recv)?;
                let b = self.ex(&m.args[0])?;
                format!("{{ let __d{t} = {r}; let {v} = {b}; if __d{t} {{ Some({v}) }} else {{ None }} }}")
            }
            ("then", 1) if matches!(strip(&m.args[0]), Expr::Closure(_) | Expr::Path(_)) && self.crate_methods("then").is_empty() => {
                let r = self.ex(recv)?;
                let b = self.apply(&m.args[0], &[])?;
                format!("(if {r} {{ Some({b}) }} else {{ None }})")
            }
            ("map_or_else", 2) => {
                let r = self.ex(recv)?;
                let d = self.apply(&m.args[0], &[])?;
                let b = self.apply(&m.args[1], &[it])?;
                format!("(match {r} {{ Some({v}) => {b}, None => {d} }})")
            }
            ("map_or", 2) => {
                let r = self.ex(recv)?;
                let d = self.ex(&m.args[0])?;
                let b = self.apply(&m.args[1], &[it])?;
                format!("{{ let __d{t} = {d}; match {r} {{ Some({v}) => {b}, None => __d{t} }} }}")
            }
            ("is_some_and", 1) => {
                let r = self.ex(recv)?;
                let b = self.apply(&m.args[0], &[it])?;
                format!("(match {r} {{ Some({v}) => {b}, None => false }})")
            }
            ("is_none_or", 1) => {
                let r = self.ex(recv)?;
                let b = self.apply(&m.args[0], &[it])?;
                format!("(match {r} {{ Some({v}) => {b}, None => true }})")
            }
            ("unwrap_or_else", 1) => {
                let r = self.ex(recv)?;
                let d = self.apply(&m.args[0], &[])?;
                format!("(match {r} {{ Some({v}) => {v}, None => {d} }})")
            }
            ("unwrap_or", 1) => {
                let r = self.ex(recv)?;
                let d = self.ex(&m.args[0])?;
                format!("{{ let __d{t} = {d}; match {r} {{ Some({v}) => {v}, None => __d{t} }} }}")
            }
            ("unwrap_or_default", 0) => {
                let r = self.ex(recv)?;
                format!("(match {r} {{ Some({v}) => {v}, None => VDefault::vdefault() }})")
            }
            ("or_else", 1) => {
                let r = self.ex(recv)?;
                let d = self.apply(&m.args[0], &[])?;
                format!("(match {r} {{ Some({v}) => Some({v}), None => {d} }})")
            }
            ("ok_or_else", 1) => {
                let r = self.ex(recv)?;
                let d = self.apply(&m.args[0], &[])?;
                format!("(match {r} {{ Some({v}) => Ok({v}), None => Err({d}) }})")
            }
            ("ok_or", 1) => {
                let r = self.ex(recv)?;
                let d = self.ex(&m.args[0])?;
                format!("(match {r} {{ Some({v}) => Ok({v}), None => Err({d}) }})")
            }
            ("map_err", 1) => {
                let r = self.ex(recv)?;
                let b = self.apply(&m.args[0], &[it])?;
                format!("(match {r} {{ Ok(__o) => Ok(__o), Err({v}) => Err({b}) }})")
            }
            ("ok", 0) => {
                let r = self.ex(recv)?;
                format!("(match {r} {{ Ok({v}) => Some({v}), Err(_) => None }})")
            }
            _ => return Ok(None),
        }))
    }
}

impl<'a> Cx<'a> {
    fn result_method(&mut self, m: &syn::ExprMethodCall, n: &str, v: &str, it: Item) -> R<Option<String>> {
        let r = self.ex(&m.receiver)?;
        Ok(Some(match (n, m.args.len()) {
            ("map", 1) => {
                let b = self.apply(&m.args[0], &[it])?;
                format!("(match {r} {{ Ok({v}) => Ok({b}), Err(__e) => Err(__e) }})")
            }
            ("and_then", 1) => {
                let b = self.apply(&m.args[0], &[it])?;
                format!("(match {r} {{ Ok({v}) => {b}, Err(__e) => Err(__e) }})")
            }
            ("map_err", 1) => {
                let b = self.apply(&m.args[0], &[it])?;
                format!("(match {r} {{ Ok(__o) => Ok(__o), Err({v}) => Err({b}) }})")
            }
            ("or_else", 1) => {
                let b = self.apply(&m.args[0], &[it])?;
                format!("(match {r} {{ Ok(__o) => Ok(__o), Err({v}) => {b} }})")
            }
            ("unwrap_or_else", 1) => {
                let b = self.apply(&m.args[0], &[it])?;
                format!("(match {r} {{ Ok(__o) => __o, Err({v}) => {b} }})")
            }
            ("ok", 0) => format!("(match {r} {{ Ok({v}) => Some({v}), Err(_) => None }})"),
            ("err", 0) => format!("(match {r} {{ Ok(_) => None, Err({v}) => Some({v}) }})"),
            _ => return Ok(None),
        }))
    }
}

/// `Self` in the body of a function inlined elsewhere.
struct OwnSelf(syn::Ident);
impl VisitMut for OwnSelf {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if let Some(s) = p.segments.first_mut() {
            if s.ident == "Self" {
                s.ident = self.0.clone();
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

fn binds(p: &Pat) -> bool {
    let mut n = PatNames(vec![]);
    n.visit_pat(p);
    n.0.iter().any(|n| n.chars().next().map_or(false, |c| !c.is_uppercase()))
}
/// The cases of a pattern with its or-patterns multiplied out.
fn or_cases(p: &Pat) -> Vec<Pat> {
    fn prod(ps: Vec<Vec<Pat>>) -> Vec<Vec<Pat>> {
        ps.into_iter().fold(vec![vec![]], |acc, cs| {
            acc.iter()
                .flat_map(|a| {
                    cs.iter().map(move |c| {
                        let mut a = a.clone();
                        a.push(c.clone());
                        a
                    })
                })
                .collect()
        })
    }
    match p {
        Pat::Or(o) => o.cases.iter().flat_map(or_cases).collect(),
        Pat::Paren(q) => or_cases(&q.pat),
        Pat::TupleStruct(t) => prod(t.elems.iter().map(or_cases).collect())
            .into_iter()
            .map(|v| {
                let mut t = t.clone();
                t.elems = v.into_iter().collect();
                Pat::TupleStruct(t)
            })
            .collect(),
        Pat::Tuple(t) => prod(t.elems.iter().map(or_cases).collect())
            .into_iter()
            .map(|v| {
                let mut t = t.clone();
                t.elems = v.into_iter().collect();
                Pat::Tuple(t)
            })
            .collect(),
        Pat::Reference(r) => or_cases(&r.pat)
            .into_iter()
            .map(|q| {
                let mut r = r.clone();
                r.pat = Box::new(q);
                Pat::Reference(r)
            })
            .collect(),
        _ => vec![p.clone()],
    }
}

fn same_body(c: &[&FnDef]) -> bool {
    let t = |f: &FnDef| f.block.to_token_stream().to_string();
    c.iter().all(|f| t(f) == t(c[0]))
}

fn type_is_iter_assoc(cx: &Cx, t: &Type) -> bool {
    cx.is_iter_ty(t)
}

fn is_std_method(n: &str) -> bool {
    const S: &[&str] = &[
        "clone", "iter", "into_iter", "keys", "values", "cloned", "copied", "get", "contains", "extend", "last", "first", "into", "collect",
        "push", "pop", "insert", "remove", "contains_key", "get_mut", "truncate", "clear", "unwrap", "expect", "is_none", "is_some", "is_ok",
        "is_err", "as_ref", "as_mut", "len", "is_empty", "map", "filter", "filter_map", "flat_map", "chain", "enumerate", "take", "skip",
        "rev", "zip", "flatten", "all", "any", "find", "fold", "count", "for_each", "entry", "or_default", "iter_mut",
    ];
    S.contains(&n)
}

fn path_has(p: &syn::Path, s: &str) -> bool {
    p.segments.iter().any(|x| x.ident == s)
}

fn vec_item(v: &str) -> String {
    v.strip_prefix("Vec<").and_then(|s| s.strip_suffix('>')).unwrap_or(v).to_string()
}

fn iter_bound<'b>(bs: impl Iterator<Item = &'b syn::TypeParamBound>) -> Option<Option<Type>> {
    for b in bs {
        if let syn::TypeParamBound::Trait(t) = b {
            let s = t.path.segments.last().unwrap();
            let n = s.ident.to_string();
            if matches!(n.as_str(), "Iterator" | "IntoIterator" | "DoubleEndedIterator" | "ExactSizeIterator") {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    for g in &a.args {
                        if let GenericArgument::AssocType(t) = g {
                            if t.ident == "Item" {
                                return Some(Some(t.ty.clone()));
                            }
                        }
                    }
                }
                return Some(None);
            }
        }
    }
    None
}

fn fn_bound<'b>(bs: impl Iterator<Item = &'b syn::TypeParamBound>) -> bool {
    for b in bs {
        if let syn::TypeParamBound::Trait(t) = b {
            let n = t.path.segments.last().unwrap().ident.to_string();
            if matches!(n.as_str(), "Fn" | "FnMut" | "FnOnce") {
                return true;
            }
        }
    }
    false
}

fn fn_arg_is_closure(sig: &syn::Signature, t: &Type) -> bool {
    is_fn_bound(sig, t)
}
fn is_fn_bound(sig: &syn::Signature, t: &Type) -> bool {
    match t {
        Type::ImplTrait(i) => fn_bound(i.bounds.iter()),
        Type::Path(p) => {
            let Some(id) = p.path.get_ident() else { return false };
            for g in sig.generics.type_params() {
                if &g.ident == id && fn_bound(g.bounds.iter()) {
                    return true;
                }
            }
            if let Some(w) = &sig.generics.where_clause {
                for pr in &w.predicates {
                    if let syn::WherePredicate::Type(pt) = pr {
                        if pt.bounded_ty.to_token_stream().to_string() == id.to_string() && fn_bound(pt.bounds.iter()) {
                            return true;
                        }
                    }
                }
            }
            false
        }
        _ => false,
    }
}

/// The attribute Verus wants of types that hold models of collections.
fn rejects(g: &str) -> String {
    let ps = g.trim_matches(['<', '>']).split(", ").filter(|p| !p.is_empty());
    ps.map(|p| format!("#[verifier::reject_recursive_types({p})] ")).collect()
}

fn generic_iters(cx: &Cx, g: &syn::Generics) -> R<BTreeMap<String, String>> {
    let mut out = BTreeMap::new();
    let mut tmp = Cx::bare(cx.kr, cx.cs);
    tmp.iters = cx.iters.clone();
    for p in g.type_params() {
        if let Some(Some(t)) = iter_bound(p.bounds.iter()) {
            out.insert(p.ident.to_string(), format!("Vec<{}>", tmp.ty(&t)?));
        }
    }
    if let Some(w) = &g.where_clause {
        for pr in &w.predicates {
            if let syn::WherePredicate::Type(pt) = pr {
                if let Some(Some(t)) = iter_bound(pt.bounds.iter()) {
                    out.insert(pt.bounded_ty.to_token_stream().to_string(), format!("Vec<{}>", tmp.ty(&t)?));
                }
            }
        }
    }
    Ok(out)
}
fn iter_params(cx: &Cx, sig: &syn::Signature) -> R<BTreeMap<String, String>> {
    generic_iters(cx, &sig.generics)
}

impl<'a> Cx<'a> {
    fn bare(kr: &'a Krate, cs: &'a Contracts) -> Self {
        Cx {
            kr,
            cs,
            owner: None,
            iters: BTreeMap::new(),
            kinds: BTreeMap::new(),
            tys: BTreeMap::new(),
            places: BTreeMap::new(),
            closures: BTreeMap::new(),
            nloop: 0,
            nacc: 0,
            ntmp: 0,
            nret: 0,
            contract: None,
            used: BTreeSet::new(),
            search: None,
            finds: BTreeMap::new(),
            loops: vec![],
            inlined: BTreeSet::new(),
            inl_names: vec![],
            empties: BTreeSet::new(),
            depth: 0,
            rename: BTreeMap::new(),
            ret_ty: String::new(),
            no_dec: false,
            inline_stack: vec![],
            in_exit: false,
            stub: false,
            stub_err: None,
        }
    }
}

#[allow(clippy::type_complexity)]
fn lift_fn(kr: &Krate, cs: &Contracts, f: &FnDef, c: Option<&Contract>, base: Option<&Vec<(String, String)>>, stub: bool) -> (R<String>, Vec<String>, BTreeSet<String>, Vec<(String, String)>, Option<String>) {
    let mut cx = Cx::bare(kr, cs);
    cx.owner = f.owner.clone();
    cx.contract = c.cloned();
    let mut block = f.block.clone();
    premac(&mut block);
    let mut names = Locals { v: vec![], sig: String::new() };
    for a in &f.sig.inputs {
        if let FnArg::Typed(t) = a {
            names.under(format!("arg:{}", squash(&t.ty)), |me| me.visit_pat(&t.pat));
        }
    }
    names.visit_block(&block);
    // Those of the bodies inlined into this one too.
    {
        let mut dry = Cx::bare(kr, cs);
        dry.owner = f.owner.clone();
        dry.contract = c.cloned();
        let _ = lift_inner(&mut dry, f, &block);
        names.v.extend(dry.inl_names);
    }
    // A name that `unclash` changed is known to the contract under its own name.
    let mut own: BTreeMap<String, String> = BTreeMap::new();
    let names: Vec<(String, String)> = names
        .v
        .into_iter()
        .map(|(n, g)| match n.strip_suffix('_') {
            Some(s) if clashes(s, cs) => {
                own.insert(s.to_string(), n.clone());
                (s.to_string(), g)
            }
            _ => (n, g),
        })
        .collect();
    cx.rename = own.clone();
    if let Some(b) = base {
        // A local of the contract that is gone is taken to be the new one in its place.
        let uniq = |v: &[(String, String)], w: &[(String, String)]| -> Vec<(String, String)> {
            let mut o: Vec<(String, String)> = vec![];
            for n in v {
                if !w.iter().any(|x| x.0 == n.0) && !o.iter().any(|x| x.0 == n.0) {
                    o.push(n.clone());
                }
            }
            o
        };
        let (gone, mut new) = (uniq(b, &names), uniq(&names, b));
        let mut pairs = vec![];
        let plain = |v: &[(String, String)]| -> Vec<(String, String)> { v.iter().filter(|x| !is_param(&x.0)).cloned().collect() };
        let gone = plain(&gone);
        if gone.len() == plain(&new).len() {
            new = plain(&new);
        }
        if gone.len() == new.len() {
            pairs = gone.into_iter().zip(new).map(|(o, n)| (o.0, n.0)).collect();
        } else {
            let used: Vec<(String, String)> = gone
                .into_iter()
                .filter(|g| c.map_or(false, |c| c.secs.values().any(|t| has_word(t, &g.0))))
                .collect();
            let kind = |s: &str| s.split(|x: char| x == ':').next().unwrap_or("").to_string();
            for pass in 0..2 {
                for g in &used {
                    if pairs.iter().any(|(o, _)| *o == g.0) {
                        continue;
                    }
                    let hit: Vec<usize> = (0..new.len())
                        .filter(|i| if pass == 0 { new[*i].1 == g.1 } else { kind(&new[*i].1) == kind(&g.1) })
                        .collect();
                    if !hit.is_empty() && (pass == 0 || hit.len() == 1) {
                        let n = new.remove(hit[0]);
                        pairs.push((g.0.clone(), n.0));
                    }
                }
            }
        }
        for (o, n) in pairs {
            let n = own.get(&n).cloned().unwrap_or(n);
            cx.rename.insert(o, n);
        }
    }
    cx.stub = stub;
    let r = lift_inner(&mut cx, f, &block);
    let mut lost = vec![];
    if let (Some(c), Ok(_), None) = (c, &r, &cx.stub_err) {
        for s in c.secs.keys() {
            if s != "spec" && !s.contains(" if ") && !s.contains(" unless ") && !s.ends_with(" find") && !cx.used.contains(s) {
                lost.push(format!("section `{s}` has no anchor"));
            }
        }
    }
    (r, lost, cx.inlined, names, cx.stub_err)
}

fn lift_inner(cx: &mut Cx, f: &FnDef, block: &Block) -> R<String> {
    // struct-level iterator generics
    if let Some(o) = &f.owner {
        if let Some(s) = cx.kr.structs.get(o) {
            let g = generic_iters(cx, &s.generics)?;
            cx.iters.extend(g);
        }
    }
    let g = iter_params(cx, &f.sig)?;
    cx.iters.extend(g);
    let mut gens = vec![];
    for p in &f.sig.generics.params {
        match p {
            syn::GenericParam::Type(t) => {
                if cx.iters.contains_key(&t.ident.to_string()) {
                    continue;
                }
                if fn_bound(t.bounds.iter()) {
                    return Err("higher-order function".into());
                }
                gens.push(t.ident.to_string());
            }
            syn::GenericParam::Lifetime(l) => gens.push(l.lifetime.to_string()),
            _ => return Err("const generic".into()),
        }
    }
    let gens = if gens.is_empty() { String::new() } else { format!("<{}>", gens.join(", ")) };
    let mut params = vec![];
    let mut mut_params = String::new();
    for a in &f.sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                let lt = r.reference.as_ref().and_then(|(_, l)| l.as_ref()).map(|l| format!("{l} ")).unwrap_or_default();
                params.push(match (&r.reference, &r.mutability) {
                    (Some(_), Some(_)) => format!("&{lt}mut self"),
                    (Some(_), None) => format!("&{lt}self"),
                    (None, Some(_)) => return Err("mut self".into()),
                    (None, None) => "self".into(),
                })
            }
            FnArg::Typed(t) => {
                let ty = cx.ty(&t.ty)?;
                let k = cx.ty_kind(&t.ty);
                match &*t.pat {
                    Pat::Ident(i) => {
                        cx.kinds.insert(i.ident.to_string(), k);
                        cx.tys.insert(i.ident.to_string(), (*t.ty).clone());
                        params.push(format!("{}: {ty}", i.ident));
                        if i.mutability.is_some() {
                            mut_params.push_str(&format!("let mut {0} = {0};\n", i.ident));
                        }
                    }
                    Pat::Wild(_) => {
                        let n = cx.tmp();
                        params.push(format!("__p{n}: {ty}"));
                    }
                    _ => return Err("pattern parameter".into()),
                }
            }
        }
    }
    let ret_kind;
    let ret = match &f.sig.output {
        ReturnType::Default => {
            cx.ret_ty = "()".into();
            ret_kind = Kind::Other;
            String::new()
        }
        ReturnType::Type(_, t) => {
            let t2 = cx.ty(t)?;
            cx.ret_ty = t2.clone();
            ret_kind = cx.ty_kind(t);
            format!(" -> (r: {t2})")
        }
    };
    let _ = ret_kind;
    let spec = cx.hook("spec");
    let entry = cx.hook("entry");
    let has_exit = cx.contract.as_ref().map_or(false, |c| c.sec("exit").is_some());
    let body = if cx.stub { Err(String::new()) } else { cx.stmts(&block.stmts, true) };
    let mut body = match body {
        Ok(b) => b,
        Err(e) if cx.contract.as_ref().map_or(false, |c| c.sec("spec").is_some()) => {
            // The body is out of reach: the contract stays, as an assumption, so that the other
            // functions can still be decided. Reported; this function counts as undecided.
            cx.stub_err = Some(e);
            return Ok(format!(
                "#[verifier::external_body]\npub fn {}{gens}({}){ret}\n{spec}{{ unimplemented!() }}\n",
                f.name,
                params.join(", ")
            ));
        }
        Err(e) => return Err(e),
    };
    if has_exit && cx.ret_ty == "()" && !matches!(block.stmts.last(), Some(Stmt::Expr(_, None))) {
        let h = cx.hook("exit");
        body.push_str(&h);
    }
    let mut attrs = String::from("#[verifier::loop_isolation(false)]\n");
    if cx.no_dec {
        attrs.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
    }
    if let Some(c) = &cx.contract {
        for a in &c.attrs {
            attrs.push_str(a);
            attrs.push('\n');
        }
    }
    Ok(format!(
        "{attrs}pub fn {}{gens}({}){ret}\n{spec}{{\n{mut_params}{entry}{body}}}\n",
        f.name,
        params.join(", ")
    ))
}

/// A parameter of an inlined function.
fn is_param(n: &str) -> bool {
    n.rsplit_once("_h").map_or(false, |(_, d)| !d.is_empty() && d.chars().all(|c| c.is_ascii_digit()))
}
fn has_word(t: &str, w: &str) -> bool {
    t.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| x == w)
}

pub fn emit_all(kr: &Krate, cs: &Contracts, base: &BTreeMap<String, Vec<(String, String)>>, bare: bool, stubs: &[String]) -> Output {
    let mut out = Output {
        text: String::new(),
        lifted: vec![],
        inlined: BTreeSet::new(),
        uncontracted: vec![],
        errors: vec![],
        lost: vec![],
        names: BTreeMap::new(),
        stubbed: vec![],
    };
    // Types.
    let mut cx = Cx::bare(kr, cs);
    for (n, a) in &kr.aliases {
        let g: Vec<String> = a.generics.type_params().map(|p| p.ident.to_string()).collect();
        let g = if g.is_empty() { String::new() } else { format!("<{}>", g.join(", ")) };
        if matches!(n.as_str(), "Map" | "Set" | "Result") {
            continue;
        }
        match cx.ty(&a.ty) {
            Ok(t) if n != "BaseResult" => out.text.push_str(&format!("pub type {n}{g} = {t};\n")),
            Ok(_) => out.text.push_str(&format!("pub type {n}{g} = Result<T, E>;\n")),
            Err(e) => out.errors.push((format!("type {n}"), e)),
        }
    }
    let skip = ["Meta", "Span", "Sym"];
    for (n, s) in &kr.structs {
        if skip.contains(&n.as_str()) {
            continue;
        }
        let its = match generic_iters(&cx, &s.generics) {
            Ok(i) => i,
            Err(e) => {
                out.errors.push((format!("struct {n}"), e));
                continue;
            }
        };
        cx.iters = its.clone();
        let g: Vec<String> = s.generics.type_params().map(|p| p.ident.to_string()).filter(|p| !its.contains_key(p)).collect();
        let g = if g.is_empty() { String::new() } else { format!("<{}>", g.join(", ")) };
        let mut fs = vec![];
        let mut err = None;
        for f in &s.fields {
            match cx.ty(&f.ty) {
                Ok(t) => fs.push(format!("pub {}: {t}", f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default())),
                Err(e) => err = Some(e),
            }
        }
        if let Some(e) = err {
            out.errors.push((format!("struct {n}"), e));
        } else {
            out.text.push_str(&format!("{}pub struct {n}{g} {{ {} }}\n", rejects(&g), fs.join(", ")));
        }
        cx.iters.clear();
    }
    for (n, s) in &kr.enums {
        if skip.contains(&n.as_str()) {
            continue;
        }
        let g: Vec<String> = s.generics.type_params().map(|p| p.ident.to_string()).collect();
        let g = if g.is_empty() { String::new() } else { format!("<{}>", g.join(", ")) };
        let mut vs = vec![];
        for v in &s.variants {
            let ts: R<Vec<String>> = v.fields.iter().map(|f| cx.ty(&f.ty)).collect();
            match ts {
                Ok(t) if t.is_empty() => vs.push(v.ident.to_string()),
                Ok(t) => vs.push(format!("{}({})", v.ident, t.join(", "))),
                Err(e) => out.errors.push((format!("enum {n}"), e)),
            }
        }
        out.text.push_str(&format!("{}pub enum {n}{g} {{ {} }}\n", rejects(&g), vs.join(", ")));
    }
    // Functions.
    let mut found: BTreeSet<String> = BTreeSet::new();
    for f in &kr.fns {
        let key = f.key();
        let c = cs.map.get(&key).or_else(|| f.alt_key().and_then(|k| cs.map.get(&k)));
        if let Some(c) = c {
            found.insert(c.key.clone());
        } else if !bare {
            out.uncontracted.push(key.clone());
            continue;
        }
        if bare && matches!(key.as_str(), "main") {
            continue;
        }
        let (r, lost, inl, names, stubbed) = lift_fn(kr, cs, f, c, base.get(&key), stubs.contains(&key));
        if let Some(e) = &stubbed {
            out.stubbed.push(key.clone());
            if !e.is_empty() {
                out.errors.push((key.clone(), e.clone()));
            }
        }
        out.names.insert(key.clone(), names);
        out.inlined.extend(inl);
        for l in lost {
            out.lost.push((key.clone(), l));
        }
        match r {
            Ok(t) => {
                let group = c.map(|c| c.group.clone()).unwrap_or_default();
                out.lifted.push(format!("{key} {}:{} group={group}", f.file, f.line));
                out.text.push_str(&format!("//@fn {key}\n"));
                match &f.owner {
                    Some(_) => {
                        let (gn, st) = f.impl_ty.clone().unwrap();
                        let its = generic_iters(&cx, &gn).unwrap_or_default();
                        let gs: Vec<String> = gn.type_params().map(|p| p.ident.to_string()).filter(|p| !its.contains_key(p)).collect();
                        let g = if gs.is_empty() { String::new() } else { format!("<{}>", gs.join(", ")) };
                        cx.iters = its;
                        let owner = cx.ty(&st).unwrap_or_default();
                        cx.iters.clear();
                        out.text.push_str(&format!("impl{g} {owner} {{\n{t}}}\n"));
                    }
                    None => out.text.push_str(&t),
                }
                out.text.push_str("//@end\n");
            }
            Err(e) => out.errors.push((key, e)),
        }
    }
    for k in cs.map.keys() {
        if !found.contains(k) {
            out.lost.push((k.clone(), "function not found in the crate".into()));
        }
    }
    out
}
