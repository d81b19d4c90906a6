use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use syn::{Block, FnArg, ImplItem, Item, Signature, TraitItem};

#[derive(Clone)]
pub struct FnDef {
    pub owner: Option<String>,
    pub name: String,
    /// `Parser` for a method that comes from a trait default
    pub from_trait: Option<String>,
    pub sig: Signature,
    pub block: Block,
    pub file: String,
    pub line: usize,
    /// generics and self type of the impl block
    pub impl_ty: Option<(syn::Generics, syn::Type)>,
}

impl FnDef {
    pub fn key(&self) -> String {
        match &self.owner {
            Some(o) => format!("{o}::{}", self.name),
            None => self.name.clone(),
        }
    }
    pub fn alt_key(&self) -> Option<String> {
        self.from_trait.as_ref().map(|t| format!("{t}::{}", self.name))
    }
    pub fn has_self(&self) -> bool {
        matches!(self.sig.inputs.first(), Some(FnArg::Receiver(_)))
    }
}

#[derive(Default)]
pub struct Krate {
    pub fns: Vec<FnDef>,
    pub structs: BTreeMap<String, syn::ItemStruct>,
    pub enums: BTreeMap<String, syn::ItemEnum>,
    pub aliases: BTreeMap<String, syn::ItemType>,
    pub consts: Vec<syn::ItemConst>,
    /// (struct field name) -> types it has in the crate's structs
    pub fields: BTreeMap<String, Vec<syn::Type>>,
}

fn cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        (a.path().is_ident("cfg")
            && quote::ToTokens::to_token_stream(a).to_string().contains("test"))
            || a.path().is_ident("test")
    })
}

type Impls = Vec<(String, String, syn::Generics, syn::Type)>;

struct TraitDef {
    defaults: Vec<(String, Signature, Block, String, usize)>,
}

pub fn load(src: &str) -> Result<Krate, String> {
    let mut k = Krate::default();
    let mut traits: BTreeMap<String, TraitDef> = BTreeMap::new();
    let mut trait_impls: Impls = vec![];
    load_file(&PathBuf::from(src).join("lib.rs"), true, &mut k, &mut traits, &mut trait_impls)?;
    // Monomorphise the trait defaults into each implementor.
    for (tr, owner, gens, sty) in trait_impls {
        if let Some(t) = traits.get(&tr) {
            for (name, sig, block, file, line) in &t.defaults {
                if !k.fns.iter().any(|f| f.owner.as_deref() == Some(&owner) && &f.name == name) {
                    k.fns.push(FnDef {
                        owner: Some(owner.clone()),
                        name: name.clone(),
                        from_trait: Some(tr.clone()),
                        sig: sig.clone(),
                        block: block.clone(),
                        file: file.clone(),
                        line: *line,
                        impl_ty: Some((gens.clone(), sty.clone())),
                    });
                }
            }
        }
    }
    for s in k.structs.values() {
        for f in &s.fields {
            if let Some(id) = &f.ident {
                k.fields.entry(id.to_string()).or_default().push(f.ty.clone());
            }
        }
    }
    let names: Vec<String> = k.structs.keys().chain(k.enums.keys()).cloned().collect();
    for n in names {
        k.aliases.remove(&n);
    }
    Ok(k)
}

fn last_seg(p: &syn::Path) -> String {
    p.segments.last().unwrap().ident.to_string()
}

fn load_file(
    path: &Path,
    root: bool,
    k: &mut Krate,
    traits: &mut BTreeMap<String, TraitDef>,
    impls: &mut Impls,
) -> Result<(), String> {
    let text = fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
    let f = syn::parse_file(&text).map_err(|e| format!("{}: {e}", path.display()))?;
    let dir = if root || path.file_name().map_or(false, |n| n == "mod.rs") {
        path.parent().unwrap().to_path_buf()
    } else {
        path.with_extension("")
    };
    items(&f.items, &dir, &path.display().to_string(), k, traits, impls)
}

fn items(
    its: &[Item],
    dir: &Path,
    file: &str,
    k: &mut Krate,
    traits: &mut BTreeMap<String, TraitDef>,
    impls: &mut Impls,
) -> Result<(), String> {
    for it in its {
        match it {
            Item::Mod(m) if !cfg_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    items(its, &dir.join(m.ident.to_string()), file, k, traits, impls)?;
                } else {
                    let a = dir.join(format!("{}.rs", m.ident));
                    let b = dir.join(m.ident.to_string()).join("mod.rs");
                    if a.exists() {
                        load_file(&a, false, k, traits, impls)?;
                    } else {
                        load_file(&b, false, k, traits, impls)?;
                    }
                }
            }
            Item::Struct(s) if !cfg_test(&s.attrs) => {
                k.structs.insert(s.ident.to_string(), s.clone());
            }
            Item::Enum(s) if !cfg_test(&s.attrs) => {
                k.enums.insert(s.ident.to_string(), s.clone());
            }
            Item::Type(t) if !cfg_test(&t.attrs) => {
                k.aliases.insert(t.ident.to_string(), t.clone());
            }
            Item::Const(c) if !cfg_test(&c.attrs) => k.consts.push(c.clone()),
            Item::Fn(f) if !cfg_test(&f.attrs) => k.fns.push(FnDef {
                owner: None,
                name: f.sig.ident.to_string(),
                from_trait: None,
                sig: f.sig.clone(),
                block: (*f.block).clone(),
                file: file.to_string(),
                line: f.sig.ident.span().start().line,
                impl_ty: None,
            }),
            Item::Impl(im) if !cfg_test(&im.attrs) => {
                let owner = match &*im.self_ty {
                    syn::Type::Path(p) => last_seg(&p.path),
                    _ => continue,
                };
                let tr = im.trait_.as_ref().map(|(_, p, _)| last_seg(p));
                if let Some(t) = &tr {
                    // Trait impls of the crate's own traits are lifted as inherent methods; impls of
                    // foreign traits only when nothing else in the crate has that name.
                    impls.push((t.clone(), owner.clone(), im.generics.clone(), (*im.self_ty).clone()));
                    if matches!(
                        t.as_str(),
                        "Display" | "Debug" | "Hash" | "Error"
                    ) {
                        continue;
                    }
                    if matches!(t.as_str(), "PartialEq" | "Eq" | "PartialOrd" | "Ord" | "Clone") {
                        // `==`, ordering and clone are modelled as structural (derived).
                        return Err(format!("hand-written impl of {t} for {owner}: the structural model of ==, < and clone does not apply"));
                    }
                }
                for i in &im.items {
                    if let ImplItem::Fn(f) = i {
                        if cfg_test(&f.attrs) {
                            continue;
                        }
                        if tr.as_deref() == Some("From") || tr.as_deref() == Some("FromStr") {
                            continue;
                        }
                        k.fns.push(FnDef {
                            owner: Some(owner.clone()),
                            name: f.sig.ident.to_string(),
                            from_trait: tr.clone(),
                            sig: f.sig.clone(),
                            block: f.block.clone(),
                            file: file.to_string(),
                            line: f.sig.ident.span().start().line,
                            impl_ty: Some((im.generics.clone(), (*im.self_ty).clone())),
                        });
                    }
                }
            }
            Item::Trait(t) if !cfg_test(&t.attrs) => {
                let mut d = vec![];
                for i in &t.items {
                    if let TraitItem::Fn(f) = i {
                        if let Some(b) = &f.default {
                            d.push((
                                f.sig.ident.to_string(),
                                f.sig.clone(),
                                b.clone(),
                                file.to_string(),
                                f.sig.ident.span().start().line,
                            ));
                        }
                    }
                }
                traits.insert(t.ident.to_string(), TraitDef { defaults: d });
            }
            _ => {}
        }
    }
    Ok(())
}

/// The types of a signature, without the names.
pub fn types(s: &Signature) -> String {
    let t = |t: &dyn Fn() -> String| t().split_whitespace().collect::<String>().replace(['=', '~'], "");
    let args: Vec<String> = s
        .inputs
        .iter()
        .map(|a| match a {
            FnArg::Receiver(r) => t(&|| quote::ToTokens::to_token_stream(r).to_string()),
            FnArg::Typed(p) => t(&|| quote::ToTokens::to_token_stream(&p.ty).to_string()),
        })
        .collect();
    format!("{}{}", args.join(","), t(&|| quote::ToTokens::to_token_stream(&s.output).to_string()))
}

/// A function that is gone, and one new function of the same owner with the same types: the same
/// function under another name. It gets its old name back, everywhere.
pub fn renamed(k: &mut Krate, base: &BTreeMap<String, Vec<(String, String)>>) {
    let mut to: BTreeMap<String, Option<String>> = BTreeMap::new();
    for (key, v) in base {
        let Some(key) = key.strip_prefix("sig ") else { continue };
        if k.fns.iter().any(|f| f.key() == key) {
            continue;
        }
        let Some((owner, old)) = key.split_once("::") else { continue };
        let new: Vec<&FnDef> = k
            .fns
            .iter()
            .filter(|f| f.owner.as_deref() == Some(owner) && !base.contains_key(&f.key()) && v.iter().any(|x| x.1 == types(&f.sig)))
            .collect();
        if let [f] = new[..] {
            let e = to.entry(f.name.clone()).or_insert_with(|| Some(old.to_string()));
            if e.as_deref() != Some(old) {
                *e = None;
            }
        }
    }
    let to: BTreeMap<String, String> = to.into_iter().filter_map(|(n, o)| o.map(|o| (n, o))).collect();
    // A name that another function keeps can't be told apart at its uses.
    let to: BTreeMap<String, String> = to
        .into_iter()
        .filter(|(n, o)| {
            k.fns.iter().filter(|f| &f.name == n).all(|f| {
                let old = f.owner.as_ref().map_or(o.clone(), |w| format!("{w}::{o}"));
                base.contains_key(&old) && !k.fns.iter().any(|g| g.key() == old)
            })
        })
        .collect();
    if to.is_empty() {
        return;
    }
    struct Names<'a>(&'a BTreeMap<String, String>);
    impl<'a> syn::visit_mut::VisitMut for Names<'a> {
        fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
            if let Some(o) = self.0.get(&m.method.to_string()) {
                m.method = syn::Ident::new(o, m.method.span());
            }
            syn::visit_mut::visit_expr_method_call_mut(self, m);
        }
        fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
            let n = p.path.segments.len();
            if let Some(s) = p.path.segments.last_mut() {
                if let (Some(o), true) = (self.0.get(&s.ident.to_string()), n > 1) {
                    s.ident = syn::Ident::new(o, s.ident.span());
                }
            }
        }
    }
    for f in k.fns.iter_mut() {
        if let Some(o) = to.get(&f.name).filter(|_| f.owner.is_some()) {
            f.name = o.clone();
            f.sig.ident = syn::Ident::new(o, f.sig.ident.span());
        }
        syn::visit_mut::VisitMut::visit_block_mut(&mut Names(&to), &mut f.block);
    }
}
