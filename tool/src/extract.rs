//! Mechanical extraction: the functions of /repo, their types, and for every
//! parser-valued expression in them the combinator call with its ghost
//! denotation.  Nothing here knows what the grammar says.
use proc_macro2::{Span, TokenStream};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::Path as FsPath;
use syn::visit_mut::VisitMut;
use syn::*;

pub type R<T> = std::result::Result<T, String>;

#[derive(Clone, Debug, PartialEq)]
pub enum PTy {
    Str,
    Parser(String),
    Pred,
    Fun(Vec<String>, String), // a function on values
    Other,
}
#[derive(Clone, Debug)]
pub struct Param {
    pub name: String,
    pub ty: PTy,
    pub text: String,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Parser,        // fn(&str) -> IResult<&str, T>
    Direct(usize), // fn(.., &str, ..) -> IResult<&str, T>
    Comb,          // fn(..) -> impl Fn(&str) -> IResult<&str, T>
    Pred,          // fn(char) -> bool
    Value,
}
#[derive(Clone)]
pub struct Fun {
    pub name: String,
    pub module: String,
    pub file: String,
    pub line: usize,
    pub item: ItemFn,
    pub kind: Kind,
    pub params: Vec<Param>,
    pub out: String,
    pub generics: Vec<String>,
    pub method: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Name {
    Local(String, String), // module, ident
    Nom(String),           // full path below nom
    Std(String),
}
#[derive(Default)]
pub struct Repo {
    pub funs: BTreeMap<String, Fun>,
    pub by_mod: HashMap<(String, String), String>,
    pub types: Vec<(String, String, Item)>, // name, module, item
    pub impls: Vec<(String, String, usize, ItemImpl)>,
    pub uses: HashMap<String, HashMap<String, Name>>,
    pub globs: HashMap<String, Vec<String>>,
    pub modules: BTreeSet<String>,
    pub aliases: BTreeMap<String, Type>,
    pub consts: BTreeMap<(String, String), (Type, Expr)>,
}

fn is_cfg_off(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string();
        a.path.is_ident("cfg") && (s.contains("test") || s.contains("nom_sparql_verif")) && !s.contains("not")
    })
}

impl Repo {
    pub fn load(root: &FsPath) -> R<Repo> {
        let mut r = Repo::default();
        let src = root.join("src");
        r.load_file(&src.join("lib.rs"), &src, "crate", "src/lib.rs")?;
        r.methods();
        r.desugar();
        r.classify();
        Ok(r)
    }
    fn load_file(&mut self, f: &FsPath, dir: &FsPath, module: &str, rel: &str) -> R<()> {
        let text = std::fs::read_to_string(f).map_err(|e| format!("{}: {}", f.display(), e))?;
        let file = syn::parse_file(&text).map_err(|e| format!("{}: {}", rel, e))?;
        self.load_items(&file.items, dir, module, rel)
    }
    fn load_items(&mut self, items: &[Item], dir: &FsPath, module: &str, rel: &str) -> R<()> {
        self.modules.insert(module.to_string());
        for it in items {
            match it {
                Item::Mod(m) => {
                    if is_cfg_off(&m.attrs) {
                        continue;
                    }
                    let n = m.ident.to_string();
                    let sub = format!("{}::{}", module, n);
                    match &m.content {
                        Some((_, its)) => self.load_items(its, &dir.join(&n), &sub, rel)?,
                        None => {
                            let a = dir.join(format!("{}.rs", n));
                            let b = dir.join(&n).join("mod.rs");
                            let relbase = rel_of(dir);
                            if a.exists() {
                                self.load_file(&a, &dir.join(&n), &sub, &format!("{}/{}.rs", relbase, n))?
                            } else {
                                self.load_file(&b, &dir.join(&n), &sub, &format!("{}/{}/mod.rs", relbase, n))?
                            }
                        }
                    }
                }
                Item::Use(u) => {
                    if !is_cfg_off(&u.attrs) {
                        let mut v = vec![];
                        flatten_use(&u.tree, String::new(), &mut v);
                        for (path, name) in v {
                            self.add_use(module, &path, &name);
                        }
                    }
                }
                Item::Fn(f) => {
                    if is_cfg_off(&f.attrs) {
                        continue;
                    }
                    self.add_fun(f.clone(), module, rel, false);
                }
                Item::Struct(s) => self.types.push((s.ident.to_string(), module.into(), it.clone())),
                Item::Enum(s) => self.types.push((s.ident.to_string(), module.into(), it.clone())),
                Item::Type(t) => {
                    self.aliases.insert(t.ident.to_string(), (*t.ty).clone());
                    self.types.push((t.ident.to_string(), module.into(), it.clone()))
                }
                Item::Const(c) => {
                    self.consts.insert((module.into(), c.ident.to_string()), ((*c.ty).clone(), (*c.expr).clone()));
                }
                Item::Static(c) => {
                    self.consts.insert((module.into(), c.ident.to_string()), ((*c.ty).clone(), (*c.expr).clone()));
                }
                Item::Impl(i) => {
                    if !is_cfg_off(&i.attrs) {
                        let line = i.impl_token.span.start().line;
                        self.impls.push((module.into(), rel.into(), line, i.clone()));
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }
    /// See desugar.rs.
    fn desugar(&mut self) {
        let names: Vec<String> = self.funs.keys().cloned().collect();
        for n in names {
            let f = self.funs[&n].clone();
            let mut consts = HashMap::new();
            for ((m, c), (_, e)) in &self.consts {
                if *m == f.module {
                    consts.insert(c.clone(), e.clone());
                }
            }
            for (c, u) in self.uses.get(&f.module).into_iter().flatten() {
                if let Name::Local(m, i) = u {
                    if let Some((_, e)) = self.consts.get(&(m.clone(), i.clone())) {
                        consts.entry(c.clone()).or_insert(e.clone());
                    }
                }
            }
            let mut d = crate::desugar::Desugar { consts: &consts, local: vec![], hoisted: vec![], owner: n.clone(), n: 0 };
            let mut item = f.item.clone();
            d.visit_block_mut(&mut item.block);
            let hoisted = std::mem::take(&mut d.hoisted);
            self.funs.get_mut(&n).unwrap().item = item;
            for h in hoisted {
                self.add_fun(h, &f.module, &f.file, false);
            }
        }
    }
    /// The constant a path names, with the module it is written in.
    pub fn const_of(&self, module: &str, path: &str) -> Option<(String, Expr)> {
        let at = |m: &str, i: &str| self.consts.get(&(m.to_string(), i.to_string())).map(|(_, e)| (m.to_string(), e.clone()));
        if !path.contains("::") {
            if let Some(r) = at(module, path) {
                return Some(r);
            }
            if let Some(Name::Local(m, i)) = self.uses.get(module).and_then(|u| u.get(path)) {
                return at(m, i);
            }
            return self.globs.get(module).into_iter().flatten().find_map(|g| at(g, path));
        }
        match self.resolve(module, path) {
            Name::Local(m, i) => at(&m, &i),
            _ => None,
        }
    }
    fn add_fun(&mut self, item: ItemFn, module: &str, rel: &str, method: bool) {
        let id = item.sig.ident.to_string();
        let mut name = id.clone();
        if self.funs.contains_key(&name) {
            name = format!("{}__{}", module.rsplit("::").next().unwrap(), id);
        }
        while self.funs.contains_key(&name) {
            name.push('_');
        }
        self.by_mod.insert((module.to_string(), id), name.clone());
        let line = item.sig.fn_token.span.start().line;
        self.funs.insert(
            name.clone(),
            Fun { name, module: module.into(), file: rel.into(), line, item, kind: Kind::Value, params: vec![], out: String::new(), generics: vec![], method },
        );
    }
    /// Every method `m` of a type `T` becomes a function `T__m`.
    fn methods(&mut self) {
        for (module, rel, _, i) in self.impls.clone() {
            let ty = match &*i.self_ty {
                Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                _ => continue,
            };
            if !i.generics.params.is_empty() {
                continue;
            }
            let mut assoc: HashMap<String, Type> = HashMap::new();
            for it in &i.items {
                if let ImplItem::Type(t) = it {
                    assoc.insert(t.ident.to_string(), t.ty.clone());
                }
            }
            for it in &i.items {
                if let ImplItem::Method(m) = it {
                    let mut sig = m.sig.clone();
                    let mut block = m.block.clone();
                    struct S<'b> {
                        ty: Ident,
                        assoc: &'b HashMap<String, Type>,
                    }
                    impl<'b> VisitMut for S<'b> {
                        fn visit_type_mut(&mut self, t: &mut Type) {
                            if let Type::Path(p) = t {
                                if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                                    if let Some(u) = self.assoc.get(&p.path.segments[1].ident.to_string()) {
                                        *t = u.clone();
                                        return;
                                    }
                                }
                            }
                            syn::visit_mut::visit_type_mut(self, t)
                        }
                        fn visit_ident_mut(&mut self, i: &mut Ident) {
                            if i == "self" {
                                *i = Ident::new("self_", i.span());
                            } else if i == "Self" {
                                *i = Ident::new(&self.ty.to_string(), i.span());
                            }
                        }
                    }
                    let mut v = S { ty: Ident::new(&ty, Span::call_site()), assoc: &assoc };
                    let mut inputs: Vec<FnArg> = vec![];
                    for a in sig.inputs.iter() {
                        inputs.push(match a {
                            FnArg::Receiver(r) => {
                                let amp = if r.reference.is_some() { "&" } else { "" };
                                let t: Type = parse_str(&format!("{}{}", amp, ty)).unwrap();
                                let id = Ident::new("self_", Span::call_site());
                                parse_quote!(#id: #t)
                            }
                            a => a.clone(),
                        });
                    }
                    sig.inputs = inputs.into_iter().collect();
                    v.visit_signature_mut(&mut sig);
                    v.visit_block_mut(&mut block);
                    let name = format!("{}__{}", ty, sig.ident);
                    let line = m.sig.fn_token.span.start().line;
                    let item = ItemFn { attrs: vec![], vis: Visibility::Inherited, sig, block: Box::new(block) };
                    self.funs.insert(
                        name.clone(),
                        Fun { name, module: module.clone(), file: rel.clone(), line, item, kind: Kind::Value, params: vec![], out: String::new(), generics: vec![], method: true },
                    );
                }
            }
        }
    }
    fn add_use(&mut self, module: &str, path: &str, name: &str) {
        let abs = self.abs_path(module, path);
        if name == "*" {
            if abs.starts_with("crate") {
                self.globs.entry(module.into()).or_default().push(abs.trim_end_matches("::*").to_string());
            }
            return;
        }
        let n = if abs.starts_with("nom::") {
            Name::Nom(abs[5..].to_string())
        } else if abs.starts_with("crate") {
            let (m, i) = abs.rsplit_once("::").unwrap_or(("crate", &abs));
            Name::Local(m.to_string(), i.to_string())
        } else {
            Name::Std(abs)
        };
        let e = self.uses.entry(module.into()).or_default();
        // a module and a function may share a name: keep the more useful one later
        if let Some(Name::Local(..)) = e.get(name) {
            if !matches!(n, Name::Local(..)) {
                return;
            }
        }
        e.insert(name.to_string(), n);
    }
    fn abs_path(&self, module: &str, path: &str) -> String {
        let mut segs: Vec<&str> = path.split("::").filter(|s| !s.is_empty()).collect();
        let mut base: Vec<&str> = vec![];
        match segs[0] {
            "crate" => return segs.join("::"),
            "self" => {
                base = module.split("::").collect();
                segs.remove(0);
            }
            "super" => {
                base = module.split("::").collect();
                while segs.first() == Some(&"super") {
                    base.pop();
                    segs.remove(0);
                }
            }
            _ => {}
        }
        if base.is_empty() {
            segs.join("::")
        } else {
            base.extend(segs);
            base.join("::")
        }
    }
    /// What a (possibly qualified) path names in `module`.
    pub fn resolve(&self, module: &str, path: &str) -> Name {
        let segs: Vec<&str> = path.split("::").collect();
        if segs.len() == 1 {
            let id = segs[0];
            if self.by_mod.contains_key(&(module.to_string(), id.to_string())) {
                return Name::Local(module.into(), id.into());
            }
            if let Some(n) = self.uses.get(module).and_then(|u| u.get(id)) {
                if let Name::Local(m, i) = n {
                    // re-exports
                    if !self.by_mod.contains_key(&(m.clone(), i.clone())) && m != module {
                        if self.uses.get(m).map_or(false, |u| u.contains_key(i)) {
                            return self.resolve(m, i);
                        }
                    }
                }
                return n.clone();
            }
            for g in self.globs.get(module).into_iter().flatten() {
                if self.by_mod.contains_key(&(g.clone(), id.to_string())) {
                    return Name::Local(g.clone(), id.into());
                }
            }
            return Name::Std(id.into());
        }
        let first = segs[0];
        if first == "nom" {
            return Name::Nom(segs[1..].join("::"));
        }
        if ["crate", "self", "super"].contains(&first) {
            let abs = self.abs_path(module, path);
            let (m, i) = abs.rsplit_once("::").unwrap();
            if self.by_mod.contains_key(&(m.to_string(), i.to_string())) {
                return Name::Local(m.to_string(), i.to_string());
            }
            return self.resolve_in(m, i).unwrap_or(Name::Local(m.to_string(), i.to_string()));
        }
        match self.uses.get(module).and_then(|u| u.get(first)) {
            Some(Name::Local(m, i)) => {
                let q = format!("{}::{}", m, i);
                let mm = format!("{}::{}", q, segs[1..segs.len() - 1].join("::"));
                Name::Local(mm.trim_end_matches("::").to_string(), segs[segs.len() - 1].into())
            }
            Some(Name::Nom(p)) => Name::Nom(format!("{}::{}", p, segs[1..].join("::"))),
            _ => {
                let m = format!("{}::{}", module, segs[..segs.len() - 1].join("::"));
                if self.modules.contains(&m) {
                    return Name::Local(m, segs[segs.len() - 1].into());
                }
                Name::Std(path.to_string())
            }
        }
    }
    fn resolve_in(&self, m: &str, i: &str) -> Option<Name> {
        self.uses.get(m).and_then(|u| u.get(i)).cloned()
    }
    pub fn fun(&self, module: &str, path: &str) -> Option<&Fun> {
        match self.resolve(module, path) {
            Name::Local(m, i) => self.by_mod.get(&(m, i)).map(|n| &self.funs[n]),
            _ => None,
        }
    }
    /// Type text: paths cut to their last segment, every `&str` gets lifetime 'a.
    pub fn ty(&self, t: &Type) -> String {
        let mut t = t.clone();
        struct V;
        impl VisitMut for V {
            fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
                r.lifetime = Some(Lifetime::new("'a", Span::call_site()));
                syn::visit_mut::visit_type_reference_mut(self, r);
            }
            fn visit_path_mut(&mut self, p: &mut Path) {
                let mut last = p.segments.last().unwrap().clone();
                if p.segments.len() == 2 && p.segments[0].ident == "fmt" && last.ident == "Result" {
                    last.ident = Ident::new("FmtResult", Span::call_site());
                }
                p.leading_colon = None;
                p.segments = std::iter::once(last).collect();
                syn::visit_mut::visit_path_mut(self, p);
            }
        }
        V.visit_type_mut(&mut t);
        tokens(&t)
    }
    /// Same, with type aliases expanded (for comparing).
    pub fn canon(&self, text: &str) -> String {
        let t: Type = match syn::parse_str(text) {
            Ok(t) => t,
            Err(_) => return text.to_string(),
        };
        let mut t = t;
        struct A<'b>(&'b BTreeMap<String, Type>, usize);
        impl<'b> VisitMut for A<'b> {
            fn visit_type_mut(&mut self, t: &mut Type) {
                if self.1 < 20 {
                    if let Type::Path(p) = t {
                        let l = p.path.segments.last().unwrap();
                        if l.arguments.is_empty() {
                            if let Some(u) = self.0.get(&l.ident.to_string()) {
                                *t = u.clone();
                                self.1 += 1;
                                self.visit_type_mut(t);
                                self.1 -= 1;
                                return;
                            }
                        }
                    }
                }
                syn::visit_mut::visit_type_mut(self, t);
            }
        }
        A(&self.aliases, 0).visit_type_mut(&mut t);
        self.ty(&t).chars().filter(|c| !c.is_whitespace()).collect()
    }
    fn iresult_out(&self, t: &Type) -> Option<String> {
        if let Type::Path(p) = t {
            let l = p.path.segments.last()?;
            if l.ident == "IResult" {
                if let PathArguments::AngleBracketed(a) = &l.arguments {
                    let ts: Vec<&Type> = a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t) } else { None }).collect();
                    if ts.len() >= 2 && is_str_ref(ts[0]) {
                        return Some(self.ty(ts[1]));
                    }
                }
            }
        }
        None
    }
    /// `Fn(&str) -> IResult<&str, T>`: Some(Parser); `Fn(char) -> bool`: Some(Pred)
    fn fn_bound(&self, b: &TypeParamBound) -> Option<PTy> {
        if let TypeParamBound::Trait(t) = b {
            let l = t.path.segments.last()?;
            if l.ident == "Fn" || l.ident == "FnMut" || l.ident == "FnOnce" {
                if let PathArguments::Parenthesized(a) = &l.arguments {
                    if a.inputs.len() == 1 {
                        if let ReturnType::Type(_, o) = &a.output {
                            if is_str_ref(&a.inputs[0]) {
                                if let Some(o) = self.iresult_out(o) {
                                    return Some(PTy::Parser(o));
                                }
                            }
                            if tokens(&a.inputs[0]) == "char" && tokens(&**o) == "bool" {
                                return Some(PTy::Pred);
                            }
                        }
                    }
                    if let ReturnType::Type(_, o) = &a.output {
                        return Some(PTy::Fun(a.inputs.iter().map(|t| self.ty(t)).collect(), self.ty(o)));
                    }
                    return Some(PTy::Other);
                }
            }
        }
        None
    }
    /// The verified counterpart of a bound on a value's type.
    fn value_bound(&self, b: &TypeParamBound) -> Option<String> {
        if let TypeParamBound::Trait(t) = b {
            let l = t.path.segments.last()?;
            return match l.ident.to_string().as_str() {
                "ToString" | "Display" => Some("VText".into()),
                "Default" => Some("VDefault".into()),
                "Into" => match &l.arguments {
                    PathArguments::AngleBracketed(a) => match a.args.first() {
                        Some(GenericArgument::Type(t)) => Some(format!("VInto<{}>", self.ty(t))),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
        }
        None
    }
    fn classify(&mut self) {
        let names: Vec<String> = self.funs.keys().cloned().collect();
        for n in names {
            let f = self.funs[&n].clone();
            let mut bounds: HashMap<String, PTy> = HashMap::new();
            let mut gen = vec![];
            for g in f.item.sig.generics.params.iter() {
                if let GenericParam::Type(t) = g {
                    let tr: Vec<String> = t.bounds.iter().filter_map(|b| self.value_bound(b)).collect();
                    gen.push(if tr.is_empty() { t.ident.to_string() } else { format!("{}: {}", t.ident, tr.join(" + ")) });
                    for b in &t.bounds {
                        if let Some(p) = self.fn_bound(b) {
                            bounds.insert(t.ident.to_string(), p);
                        }
                    }
                }
            }
            if let Some(w) = &f.item.sig.generics.where_clause {
                for p in &w.predicates {
                    if let WherePredicate::Type(t) = p {
                        for b in &t.bounds {
                            if let Some(v) = self.value_bound(b) {
                                let n = tokens(&t.bounded_ty);
                                for g in gen.iter_mut().filter(|g| **g == n) {
                                    *g = format!("{}: {}", n, v);
                                }
                            }
                            if let Some(p) = self.fn_bound(b) {
                                bounds.insert(tokens(&t.bounded_ty), p);
                            }
                        }
                    }
                }
            }
            let mut params = vec![];
            for a in &f.item.sig.inputs {
                if let FnArg::Typed(t) = a {
                    let name = match &*t.pat {
                        Pat::Ident(i) => i.ident.to_string(),
                        _ => "_".into(),
                    };
                    let ty = if is_str_ref(&t.ty) {
                        PTy::Str
                    } else if let Some(p) = bounds.get(&tokens(&*t.ty)) {
                        p.clone()
                    } else if let Type::ImplTrait(it) = &*t.ty {
                        it.bounds.iter().find_map(|b| self.fn_bound(b)).unwrap_or(PTy::Other)
                    } else if let Type::BareFn(b) = &*t.ty {
                        match &b.output {
                            ReturnType::Type(_, o) if b.inputs.len() == 1 && is_str_ref(&b.inputs[0].ty) && self.iresult_out(o).is_some() => PTy::Parser(self.iresult_out(o).unwrap()),
                            ReturnType::Type(_, o) if b.inputs.len() == 1 && tokens(&b.inputs[0].ty) == "char" && tokens(&**o) == "bool" => PTy::Pred,
                            ReturnType::Type(_, o) => PTy::Fun(b.inputs.iter().map(|a| self.ty(&a.ty)).collect(), self.ty(o)),
                            _ => PTy::Other,
                        }
                    } else {
                        PTy::Other
                    };
                    let mut text = self.ty(&t.ty);
                    if let (Type::ImplTrait(it), PTy::Other) = (&*t.ty, &ty) {
                        let tr: Vec<String> = it.bounds.iter().filter_map(|b| self.value_bound(b)).collect();
                        if !tr.is_empty() {
                            text = format!("T_{}", name);
                            gen.push(format!("{}: {}", text, tr.join(" + ")));
                        }
                    }
                    params.push(Param { name, ty, text });
                }
            }
            let ret = match &f.item.sig.output {
                ReturnType::Type(_, t) => Some((**t).clone()),
                _ => None,
            };
            let mut kind = Kind::Value;
            let mut out = ret.as_ref().map_or("()".to_string(), |t| self.ty(t));
            if let Some(t) = &ret {
                if let Some(o) = self.iresult_out(t) {
                    out = o;
                    let strs: Vec<usize> = (0..params.len()).filter(|k| params[*k].ty == PTy::Str).collect();
                    if params.len() == 1 && strs.len() == 1 {
                        kind = Kind::Parser;
                    } else if strs.len() == 1 {
                        kind = Kind::Direct(strs[0]);
                    } else if let Some(k) = strs.iter().find(|k| ["i", "input", "s"].contains(&params[**k].name.as_str())) {
                        kind = Kind::Direct(*k);
                    }
                } else if let Type::ImplTrait(it) = t {
                    if let Some(PTy::Parser(o)) = it.bounds.iter().find_map(|b| self.fn_bound(b)) {
                        kind = Kind::Comb;
                        out = o;
                    }
                } else if out == "bool" && params.len() == 1 && params[0].text == "char" {
                    kind = Kind::Pred;
                }
            }
            let gen = gen.into_iter().filter(|g: &String| !bounds.contains_key(g.split(':').next().unwrap())).collect();
            let m = self.funs.get_mut(&n).unwrap();
            m.kind = kind;
            m.params = params;
            m.out = out;
            m.generics = gen;
        }
    }
}

fn rel_of(dir: &FsPath) -> String {
    let s = dir.to_string_lossy().replace('\\', "/");
    match s.rfind("/src") {
        Some(k) => s[k + 1..].to_string(),
        None => s,
    }
}

fn flatten_use(t: &UseTree, pre: String, out: &mut Vec<(String, String)>) {
    match t {
        UseTree::Path(p) => flatten_use(&p.tree, format!("{}{}::", pre, p.ident), out),
        UseTree::Name(n) => {
            if n.ident == "self" {
                let p = pre.trim_end_matches("::").to_string();
                let l = p.rsplit("::").next().unwrap().to_string();
                out.push((p, l));
            } else {
                out.push((format!("{}{}", pre, n.ident), n.ident.to_string()))
            }
        }
        UseTree::Rename(r) => out.push((format!("{}{}", pre, r.ident), r.rename.to_string())),
        UseTree::Glob(_) => out.push((format!("{}*", pre), "*".into())),
        UseTree::Group(g) => g.items.iter().for_each(|t| flatten_use(t, pre.clone(), out)),
    }
}

pub fn tokens<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
pub fn is_str_ref(t: &Type) -> bool {
    matches!(t, Type::Reference(r) if tokens(&*r.elem) == "str")
}
pub fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}
#[allow(dead_code)]
pub fn ts(s: &str) -> TokenStream {
    s.parse().unwrap()
}
