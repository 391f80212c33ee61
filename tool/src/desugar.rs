//! Rewrites of the sources, before anything else looks at them, into the part
//! of the language the translation knows.  Each is an equality of programs:
//!   matches!(e, p)            match e { p => true, _ => false }
//!   assert!(c), assert_eq!    if !(c) { panic!() }
//!   let p = e else { d }; k   match e { p => { k } _ => { d } }
//!   (a..=b).contains(&c)      a <= c && c <= b
//!   const, fn inside a fn     moved out of it, under a name of its own
//!   a constant array's iter().any, .all, .contains, and `for` over it: written out
use crate::extract::*;
use std::collections::HashMap;
use syn::parse::Parser as _;
use syn::punctuated::Punctuated;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Desugar<'c> {
    pub consts: &'c HashMap<String, Expr>,
    pub local: Vec<HashMap<String, Expr>>,
    pub hoisted: Vec<ItemFn>,
    pub owner: String,
    pub n: usize,
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}
fn unref(e: &Expr) -> &Expr {
    match strip(e) {
        Expr::Reference(r) => unref(&r.expr),
        e => e,
    }
}
struct Rename<'m>(&'m HashMap<String, String>);
impl<'m> VisitMut for Rename<'m> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if let Some(n) = self.0.get(&i.to_string()) {
            *i = Ident::new(n, i.span());
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let t: proc_macro2::TokenStream = m.tokens.clone().into_iter().map(|t| rename_tok(t, self.0)).collect();
        m.tokens = t;
    }
}
fn rename_tok(t: proc_macro2::TokenTree, m: &HashMap<String, String>) -> proc_macro2::TokenTree {
    use proc_macro2::TokenTree::*;
    match t {
        Ident(i) => match m.get(&i.to_string()) {
            Some(n) => Ident(proc_macro2::Ident::new(n, i.span())),
            None => Ident(i),
        },
        Group(g) => Group(proc_macro2::Group::new(g.delimiter(), g.stream().into_iter().map(|t| rename_tok(t, m)).collect())),
        t => t,
    }
}
pub struct Jumps {
    pub ret: bool,
    pub brk: bool,
    pub assign: bool,
}
impl<'a> Visit<'a> for Jumps {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.ret = true;
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_expr_break(&mut self, _: &'a ExprBreak) {
        self.brk = true;
    }
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
        self.brk = true;
    }
    fn visit_expr_assign(&mut self, _: &'a ExprAssign) {
        self.assign = true;
    }
    fn visit_expr_assign_op(&mut self, _: &'a ExprAssignOp) {
        self.assign = true;
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if m.method == "push" || m.method == "push_str" {
            self.assign = true;
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
pub fn jumps_e(e: &Expr) -> Jumps {
    let mut j = Jumps { ret: false, brk: false, assign: false };
    j.visit_expr(e);
    j
}
fn pat_names(p: &Pat) -> Vec<String> {
    struct N(Vec<String>);
    impl<'a> Visit<'a> for N {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            self.0.push(i.ident.to_string());
            syn::visit::visit_pat_ident(self, i);
        }
    }
    let mut n = N(vec![]);
    n.visit_pat(p);
    n.0.into_iter().filter(|s| !s.chars().next().unwrap().is_uppercase()).collect()
}
/// `*x` where `x` is bound to the value itself
struct Undo(Vec<String>);
impl VisitMut for Undo {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) {
                if let Expr::Path(p) = strip(&u.expr) {
                    if self.0.contains(&path_str(&p.path)) {
                        *e = (*u.expr).clone();
                    }
                }
            }
        }
    }
}
fn unref_pat(p: &Pat) -> (Pat, usize) {
    match p {
        Pat::Reference(r) => {
            let (q, n) = unref_pat(&r.pat);
            (q, n + 1)
        }
        Pat::Type(t) => unref_pat(&t.pat),
        p => (p.clone(), 0),
    }
}

impl<'c> Desugar<'c> {
    fn lookup(&self, n: &str) -> Option<Expr> {
        for m in self.local.iter().rev() {
            if let Some(e) = m.get(n) {
                return Some(e.clone());
            }
        }
        self.consts.get(n).cloned()
    }
    /// The elements of a constant array.
    fn array(&self, e: &Expr) -> Option<Vec<Expr>> {
        match unref(e) {
            Expr::Array(a) => Some(a.elems.iter().cloned().collect()),
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let c = self.lookup(&path_str(&p.path))?;
                match unref(&c) {
                    Expr::Array(_) => self.array(&c),
                    _ => None,
                }
            }
            Expr::MethodCall(m) if (m.method == "iter" || m.method == "into_iter" || m.method == "copied" || m.method == "cloned") && m.args.is_empty() => self.array(&m.receiver),
            _ => None,
        }
    }
    /// `{ let pat = elem; body }` for one element, with names of its own.
    fn bound(&mut self, pat: &Pat, elem: &Expr, body: &Expr) -> Expr {
        let (pat, _) = unref_pat(pat);
        let names = pat_names(&pat);
        self.n += 1;
        let map: HashMap<String, String> = names.iter().map(|n| (n.clone(), format!("{}_u{}", n, self.n))).collect();
        let (mut pat, mut body) = (pat, body.clone());
        Undo(names).visit_expr_mut(&mut body);
        Rename(&map).visit_pat_mut(&mut pat);
        Rename(&map).visit_expr_mut(&mut body);
        let elem = unref(elem).clone();
        parse_quote!({ let #pat = #elem; #body })
    }
    fn any(&mut self, els: &[Expr], f: &Expr, all: bool) -> Option<Expr> {
        let c = match strip(f) {
            Expr::Closure(c) if c.inputs.len() == 1 && !jumps_e(&c.body).ret => c.clone(),
            _ => return None,
        };
        let mut o: Option<Expr> = None;
        for e in els {
            let b = self.bound(&c.inputs[0], e, &c.body);
            o = Some(match o {
                None => b,
                Some(p) if all => parse_quote!((#p) && (#b)),
                Some(p) => parse_quote!((#p) || (#b)),
            });
        }
        o.or_else(|| Some(if all { parse_quote!(true) } else { parse_quote!(false) }))
    }
    fn macro_(&mut self, m: &Macro) -> Option<Expr> {
        let n = path_str(&m.path);
        let args = || Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok();
        match n.rsplit("::").next().unwrap() {
            "matches" => {
                let p = |i: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                    let e: Expr = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let _ = i.parse::<Option<Token![|]>>()?;
                    let first: Pat = i.parse()?;
                    let mut cases = vec![first];
                    while i.peek(Token![|]) {
                        i.parse::<Token![|]>()?;
                        cases.push(i.parse()?);
                    }
                    let pat: Pat = if cases.len() == 1 { cases.pop().unwrap() } else { Pat::Or(PatOr { attrs: vec![], leading_vert: None, cases: cases.into_iter().collect() }) };
                    let g = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<Token![,]>>()?;
                    Ok((e, pat, g))
                };
                let (e, pat, g) = p.parse2(m.tokens.clone()).ok()?;
                if matches!(pat, Pat::Verbatim(_)) {
                    return None;
                }
                let arm: Arm = match g {
                    Some(g) => Arm { attrs: vec![], pat, guard: Some((Default::default(), Box::new(g))), fat_arrow_token: Default::default(), body: Box::new(parse_quote!(true)), comma: Some(Default::default()) },
                    None => Arm { attrs: vec![], pat, guard: None, fat_arrow_token: Default::default(), body: Box::new(parse_quote!(true)), comma: Some(Default::default()) },
                };
                Some(parse_quote!(match #e { #arm _ => false }))
            }
            "assert" | "debug_assert" => {
                let c = args()?.into_iter().next()?;
                Some(parse_quote!(if !(#c) { panic!() }))
            }
            "assert_eq" | "debug_assert_eq" => {
                let v: Vec<Expr> = args()?.into_iter().collect();
                let (a, b) = (v.get(0)?, v.get(1)?);
                Some(parse_quote!(if (#a) != (#b) { panic!() }))
            }
            "assert_ne" | "debug_assert_ne" => {
                let v: Vec<Expr> = args()?.into_iter().collect();
                let (a, b) = (v.get(0)?, v.get(1)?);
                Some(parse_quote!(if (#a) == (#b) { panic!() }))
            }
            _ => None,
        }
    }
    /// `X?` for an X that only changes what a failure carries
    fn try_(&mut self, e: &Expr) -> Option<Expr> {
        let m = match strip(e) {
            Expr::MethodCall(m) => m,
            _ => return None,
        };
        if !["ok_or", "ok_or_else", "map_err"].contains(&m.method.to_string().as_str()) {
            return None;
        }
        let mut e = self.method(m)?;
        if let Expr::Match(x) = &mut e {
            for a in &mut x.arms {
                let b = match &*a.body {
                    Expr::Call(c) => (tokens(&c.func), c.args[0].clone()),
                    _ => return None,
                };
                *a.body = match b.0.as_str() {
                    "Ok" => b.1,
                    _ => {
                        let v = b.1;
                        parse_quote!(return Err(#v))
                    }
                };
            }
            return Some(e);
        }
        None
    }
    fn thunk(e: &Expr) -> Option<Expr> {
        match strip(e) {
            Expr::Closure(c) if c.inputs.is_empty() && !jumps_e(&c.body).ret => Some((*c.body).clone()),
            _ => None,
        }
    }
    /// a one-argument closure: its pattern and its body
    fn lam(e: &Expr) -> Option<(Pat, Expr)> {
        match strip(e) {
            Expr::Closure(c) if c.inputs.len() == 1 && !jumps_e(&c.body).ret => {
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                Some((p, (*c.body).clone()))
            }
            _ => None,
        }
    }
    fn plumbing(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let r = &m.receiver;
        Some(match (n.as_str(), m.args.len()) {
            ("ok_or" | "ok_or_else", 1) => {
                let e = if n == "ok_or" { m.args[0].clone() } else { Self::thunk(&m.args[0])? };
                if let Expr::MethodCall(k) = strip(r) {
                    if k.method == "map" && k.args.len() == 1 {
                        if let Some((p, b)) = Self::lam(&k.args[0]) {
                            let r = &k.receiver;
                            return Some(parse_quote!(match #r { Some(#p) => Ok(#b), None => Err(#e) }));
                        }
                    }
                }
                parse_quote!(match #r { Some(vx_v) => Ok(vx_v), None => Err(#e) })
            }
            ("map_err", 1) => {
                let (p, b) = Self::lam(&m.args[0])?;
                parse_quote!(match #r { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#b) })
            }
            ("unwrap_or_else", 1) => {
                let b = Self::thunk(&m.args[0])?;
                parse_quote!(match #r { Some(vx_v) => vx_v, None => #b })
            }
            ("is_some_and", 1) => {
                let (p, b) = Self::lam(&m.args[0])?;
                parse_quote!(match #r { Some(#p) => #b, None => false })
            }
            ("is_none_or", 1) => {
                let (p, b) = Self::lam(&m.args[0])?;
                parse_quote!(match #r { Some(#p) => #b, None => true })
            }
            ("then", 1) => {
                let b = Self::thunk(&m.args[0])?;
                parse_quote!(if #r { Some(#b) } else { None })
            }
            ("then_some", 1) => {
                let b = &m.args[0];
                parse_quote!(if #r { Some(#b) } else { None })
            }
            ("ok", 0) => parse_quote!(match #r { Ok(vx_v) => Some(vx_v), Err(_) => None }),
            _ => return None,
        })
    }
    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        if let Some(e) = self.plumbing(m) {
            return Some(e);
        }
        if n == "contains" && m.args.len() == 1 {
            if let Expr::Range(r) = strip(&m.receiver) {
                let (a, b) = (r.from.as_ref()?, r.to.as_ref()?);
                let c = unref(&m.args[0]).clone();
                return Some(match r.limits {
                    RangeLimits::Closed(_) => parse_quote!((#a <= #c && #c <= #b)),
                    RangeLimits::HalfOpen(_) => parse_quote!((#a <= #c && #c < #b)),
                });
            }
            let els = self.array(&m.receiver)?;
            let c = unref(&m.args[0]).clone();
            let c = match &c {
                Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => (*u.expr).clone(),
                _ => c,
            };
            let mut o: Option<Expr> = None;
            for e in &els {
                let e = unref(e).clone();
                o = Some(match o {
                    None => parse_quote!((#c == #e)),
                    Some(p) => parse_quote!(#p || (#c == #e)),
                });
            }
            return Some(match o {
                Some(o) => parse_quote!((#o)),
                None => parse_quote!(false),
            });
        }
        if n == "starts_with" && m.args.len() == 1 {
            let s = &m.receiver;
            match unref(&m.args[0]) {
                Expr::Closure(c) if c.inputs.len() == 1 && !jumps_e(&c.body).ret => {
                    let (p, _) = unref_pat(&c.inputs[0]);
                    let b = &c.body;
                    return Some(parse_quote!(match #s.chars().next() { Some(#p) => #b, None => false }));
                }
                Expr::Array(a) => {
                    let e: Vec<&Expr> = a.elems.iter().collect();
                    return Some(parse_quote!(match #s.chars().next() { Some(vx_c) => #((vx_c == #e))||*, None => false }));
                }
                _ => {}
            }
        }
        if (n == "any" || n == "all") && m.args.len() == 1 {
            if let Expr::MethodCall(_) = strip(&m.receiver) {
                let els = self.array(&m.receiver)?;
                let o = self.any(&els, &m.args[0], n == "all")?;
                return Some(parse_quote!((#o)));
            }
        }
        None
    }
    fn for_(&mut self, f: &ExprForLoop) -> Option<Expr> {
        if f.label.is_some() {
            return None;
        }
        let els = self.array(&f.expr)?;
        let body: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: f.body.clone() });
        if jumps_e(&body).brk {
            return None;
        }
        let mut v: Vec<Expr> = vec![];
        for e in &els {
            v.push(self.bound(&f.pat, e, &body));
        }
        Some(parse_quote!({ #(#v)* }))
    }
    fn let_else(&mut self, t: &proc_macro2::TokenStream) -> Option<(Pat, Expr, Block)> {
        let p = |i: parse::ParseStream| -> Result<(Pat, Expr, Block)> {
            i.parse::<Token![let]>()?;
            let pat: Pat = i.parse()?;
            if i.peek(Token![:]) {
                i.parse::<Token![:]>()?;
                i.parse::<Type>()?;
            }
            i.parse::<Token![=]>()?;
            let e: Expr = i.parse()?;
            i.parse::<Token![else]>()?;
            let b: Block = i.parse()?;
            let _ = i.parse::<Option<Token![;]>>()?;
            Ok((pat, e, b))
        };
        p.parse2(t.clone()).ok()
    }
}
impl<'c> VisitMut for Desugar<'c> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // constants and functions of the block
        let mut consts = HashMap::new();
        let mut funs: HashMap<String, String> = HashMap::new();
        let mut keep = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Const(c)) => {
                    consts.insert(c.ident.to_string(), (*c.expr).clone());
                }
                Stmt::Item(Item::Static(c)) => {
                    consts.insert(c.ident.to_string(), (*c.expr).clone());
                }
                Stmt::Item(Item::Fn(f)) => {
                    let n = format!("{}_in_{}", f.sig.ident, self.owner);
                    funs.insert(f.sig.ident.to_string(), n);
                    keep.push(Stmt::Item(Item::Fn(f)));
                }
                s => keep.push(s),
            }
        }
        self.local.push(consts);
        let mut out: Vec<Stmt> = vec![];
        let mut it = keep.into_iter();
        while let Some(s) = it.next() {
            match s {
                Stmt::Expr(Expr::Verbatim(t)) | Stmt::Semi(Expr::Verbatim(t), _) => {
                    if let Some((pat, e, els)) = self.let_else(&t) {
                        let rest: Vec<Stmt> = it.by_ref().collect();
                        let m: Expr = parse_quote!(match #e { #pat => { #(#rest)* } _ => #els });
                        out.push(Stmt::Expr(m));
                    } else {
                        out.push(Stmt::Expr(Expr::Verbatim(t)));
                    }
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        if !funs.is_empty() {
            let mut r = Rename(&funs);
            for s in b.stmts.iter_mut() {
                r.visit_stmt_mut(s);
            }
            let mut rest = vec![];
            for s in std::mem::take(&mut b.stmts) {
                match s {
                    Stmt::Item(Item::Fn(f)) => self.hoisted.push(f),
                    s => rest.push(s),
                }
            }
            b.stmts = rest;
        }
        syn::visit_mut::visit_block_mut(self, b);
        self.local.pop();
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        for _ in 0..4 {
            let n = match e {
                Expr::Macro(m) => {
                    let m = m.mac.clone();
                    self.macro_(&m)
                }
                Expr::MethodCall(m) => {
                    let m = m.clone();
                    self.method(&m)
                }
                Expr::ForLoop(f) => {
                    let f = f.clone();
                    self.for_(&f)
                }
                Expr::Try(t) => {
                    let t = t.clone();
                    self.try_(&t.expr)
                }
                Expr::Path(p) if p.path.segments.len() == 1 => {
                    let n = p.path.segments[0].ident.to_string();
                    let texts = |e: &&Expr| matches!(strip(e), Expr::Lit(l) if matches!(l.lit, Lit::Str(_)));
                    self.local.iter().rev().find_map(|m| m.get(&n).cloned()).or_else(|| self.consts.get(&n).filter(texts).cloned()).map(|e| match e {
                        e @ Expr::Lit(_) => e,
                        e => parse_quote!((#e)),
                    })
                }
                Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && matches!(strip(&u.expr), Expr::Reference(_)) => Some(unref(&u.expr).clone()),
                _ => None,
            };
            match n {
                Some(n) => *e = n,
                None => break,
            }
        }
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("vec") {
                if let Ok(v) = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.mac.tokens.clone()) {
                    let v: Vec<Expr> = v
                        .into_iter()
                        .map(|mut x| {
                            self.visit_expr_mut(&mut x);
                            x
                        })
                        .collect();
                    m.mac.tokens = quote::quote!(#(#v),*);
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}
