//! Does every parser come back?  A recursion that reads nothing on the way is
//! the only way not to (nom's repetitions fail on an iteration that reads
//! nothing, which is proved with their loops): the calls a function can make
//! before a character has been read must not lead back to it.  What has been
//! read is judged by the rules the functions have as contracts.  Where the code
//! is not understood a call is taken to be made at the beginning.
use crate::dsl::Grammar;
use crate::extract::*;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::*;

#[derive(Clone, Default)]
struct Calls {
    left: BTreeSet<String>,
    nullable: bool,
}
#[derive(Clone)]
enum B {
    Par(Calls), // a parser
    Start,      // a text of which nothing may have been read
    Later,
    Lit(bool), // an empty literal?
    Other,
}
type Env = BTreeMap<String, B>;

pub struct Term<'a> {
    r: &'a Repo,
    g: &'a Grammar,
    nul: BTreeSet<String>,
    depth: usize,
}
pub struct Out {
    pub cycles: BTreeSet<String>,
    pub loops: BTreeSet<String>,
    pub rank: BTreeMap<String, usize>,
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        Expr::Reference(p) => strip(&p.expr),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(x) => strip(x),
            _ => e,
        },
        _ => e,
    }
}
fn chain(v: &[Calls]) -> Calls {
    let mut o = Calls { left: BTreeSet::new(), nullable: true };
    for c in v {
        if o.nullable {
            o.left.extend(c.left.iter().cloned());
            o.nullable = c.nullable;
        }
    }
    o
}
fn either(v: &[Calls]) -> Calls {
    Calls { left: v.iter().flat_map(|c| c.left.iter().cloned()).collect(), nullable: v.iter().any(|c| c.nullable) }
}
fn with(c: Calls, nullable: bool) -> Calls {
    Calls { left: c.left, nullable }
}

impl<'a> Term<'a> {
    pub fn run(r: &'a Repo, g: &'a Grammar) -> Out {
        let mut t = Term { r, g, nul: g.nullables(), depth: 0 };
        // what has no rule may succeed without reading if its code can
        for f in r.funs.values() {
            if !t.ruled(f) {
                t.nul.remove(&f.name);
            }
        }
        loop {
            let todo: Vec<&Fun> = r.funs.values().filter(|f| !t.ruled(f) && !t.nul.contains(&f.name)).collect();
            let more: Vec<String> = todo.into_iter().filter(|f| t.calls(f).nullable).map(|f| f.name.clone()).collect();
            if more.is_empty() {
                break;
            }
            t.nul.extend(more);
        }
        let left: BTreeMap<String, BTreeSet<String>> = r.funs.values().map(|f| (f.name.clone(), t.calls(f).left)).collect();
        let mut rank: BTreeMap<String, usize> = BTreeMap::new();
        loop {
            let new: Vec<(String, usize)> = left
                .iter()
                .filter(|(f, _)| !rank.contains_key(*f))
                .filter_map(|(f, l)| l.iter().map(|x| rank.get(x).copied()).collect::<Option<Vec<_>>>().map(|v| (f.clone(), v.into_iter().max().map_or(0, |m| m + 1))))
                .collect();
            if new.is_empty() {
                break;
            }
            rank.extend(new);
        }
        // those on a cycle, not those that lead to one
        let open: BTreeSet<String> = left.keys().filter(|f| !rank.contains_key(*f)).cloned().collect();
        let cycles = open
            .iter()
            .filter(|f| {
                let mut seen: BTreeSet<&String> = BTreeSet::new();
                let mut todo: Vec<&String> = left[*f].iter().collect();
                while let Some(x) = todo.pop() {
                    if seen.insert(x) {
                        todo.extend(left.get(x).into_iter().flatten());
                    }
                }
                seen.contains(*f)
            })
            .cloned()
            .collect();
        let loops = r.funs.values().filter(|f| { let mut l = Loops(false); l.visit_item_fn(&f.item); l.0 }).map(|f| f.name.clone()).collect();
        Out { cycles, loops, rank }
    }
    fn ruled(&self, f: &Fun) -> bool {
        f.kind == Kind::Parser && self.g.rule(&f.name).map_or(false, |x| self.r.canon(&x.ty.replace("&", "&'a ")) == self.r.canon(&f.out))
    }
    fn calls(&mut self, f: &'a Fun) -> Calls {
        let mut env = Env::new();
        for p in &f.params {
            env.insert(p.name.clone(), match p.ty {
                PTy::Str => B::Start,
                PTy::Parser(_) => B::Par(Calls { left: BTreeSet::new(), nullable: true }),
                _ => B::Other,
            });
        }
        self.body(f, &mut env)
    }
    /// The calls of a function's body; for one that gives a parser, of that parser.
    fn body(&mut self, f: &'a Fun, env: &mut Env) -> Calls {
        if let (Kind::Comb, [Stmt::Expr(e)]) = (&f.kind, &f.item.block.stmts[..]) {
            return self.par(e, env, &f.module);
        }
        if let [Stmt::Expr(e)] = &f.item.block.stmts[..] {
            if let Expr::Call(c) = strip(e) {
                if c.args.len() == 1 && matches!(self.at(&c.args[0], env), Some(B::Start)) && !matches!(strip(&c.func), Expr::Path(_)) {
                    return self.par(&c.func, env, &f.module);
                }
            }
        }
        let mut w = Walk { t: self, env: env.clone(), module: &f.module, left: BTreeSet::new(), mutates: false };
        let mut l = Mutates(false);
        l.visit_item_fn(&f.item);
        w.mutates = l.0;
        w.visit_block(&f.item.block);
        let left = w.left;
        Calls { left, nullable: !self.ruled(f) || self.nul.contains(&f.name) }
    }
    fn at(&self, e: &Expr, env: &Env) -> Option<B> {
        match strip(e) {
            Expr::Path(p) => env.get(&path_str(&p.path)).cloned(),
            Expr::MethodCall(m) if m.method == "clone" => self.at(&m.receiver, env),
            _ => None,
        }
    }
    fn fun(&self, f: &Fun) -> Calls {
        Calls { left: [f.name.clone()].into_iter().collect(), nullable: self.nul.contains(&f.name) || !matches!(f.kind, Kind::Parser) }
    }
    fn local(&self, module: &str, p: &str) -> Option<&'a Fun> {
        match self.r.resolve(module, p) {
            Name::Local(m, i) => self.r.by_mod.get(&(m, i)).map(|n| &self.r.funs[n]),
            _ => None,
        }
    }
    fn empty(&self, e: &Expr, env: &Env) -> bool {
        match strip(e) {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value().is_empty(),
            Expr::Lit(_) => false,
            Expr::Path(p) => !matches!(env.get(&path_str(&p.path)), Some(B::Lit(false))),
            _ => true,
        }
    }
    fn zero(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::Lit(ExprLit { lit: Lit::Int(s), .. }) => s.base10_parse::<u64>().map_or(true, |n| n == 0),
            _ => true,
        }
    }
    /// The calls a parser makes before it has read anything.
    fn par(&mut self, e: &Expr, env: &Env, module: &str) -> Calls {
        let unknown = |t: &mut Self| {
            let mut w = Walk { t, env: env.clone(), module, left: BTreeSet::new(), mutates: true };
            w.visit_expr(e);
            Calls { left: w.left, nullable: true }
        };
        let none = |nullable| Calls { left: BTreeSet::new(), nullable };
        match strip(e) {
            Expr::Path(p) => {
                let s = path_str(&p.path);
                if let Some(b) = env.get(&s) {
                    return match b {
                        B::Par(c) => c.clone(),
                        _ => none(true),
                    };
                }
                match self.r.resolve(module, &s) {
                    Name::Nom(n) => none(!(n.ends_with('1') || ["anychar", "newline", "tab", "crlf", "line_ending"].iter().any(|x| n.ends_with(x)) && !n.ends_with("not_line_ending"))),
                    _ => self.local(module, &s).map_or(none(true), |f| self.fun(f)),
                }
            }
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let mut env = env.clone();
                let mut p = &c.inputs[0];
                if let Pat::Type(t) = p {
                    p = &t.pat;
                }
                if let Pat::Ident(i) = p {
                    env.insert(i.ident.to_string(), B::Start);
                }
                if let Expr::Call(k) = strip(&c.body) {
                    if k.args.len() == 1 && matches!(self.at(&k.args[0], &env), Some(B::Start)) {
                        return self.par(&k.func, &env, module);
                    }
                }
                let mut l = Mutates(false);
                l.visit_expr(&c.body);
                let mut w = Walk { t: self, env, module, left: BTreeSet::new(), mutates: l.0 };
                w.visit_expr(&c.body);
                Calls { left: w.left, nullable: true }
            }
            Expr::Call(c) => {
                let s = match strip(&c.func) {
                    Expr::Path(p) => path_str(&p.path),
                    _ => return unknown(self),
                };
                let a: Vec<&Expr> = c.args.iter().collect();
                match self.r.resolve(module, &s) {
                    Name::Nom(n) => {
                        let last = n.rsplit("::").next().unwrap().to_string();
                        let kids = |t: &mut Self, v: &[usize]| -> Vec<Calls> { v.iter().filter(|k| **k < a.len()).map(|k| t.par(a[*k], env, module)).collect() };
                        let tup = |t: &mut Self| -> Vec<Calls> {
                            match strip(a[0]) {
                                Expr::Tuple(x) => x.elems.iter().map(|y| t.par(y, env, module)).collect(),
                                _ => vec![unknown(t)],
                            }
                        };
                        match last.as_str() {
                            "alt" => { let v = tup(self); either(&v) }
                            "tuple" => { let v = tup(self); chain(&v) }
                            "pair" | "preceded" | "terminated" => { let v = kids(self, &[0, 1]); chain(&v) }
                            "separated_pair" | "delimited" => { let v = kids(self, &[0, 1, 2]); chain(&v) }
                            "opt" | "peek" | "not" | "many0" | "many0_count" => with(self.par(a[0], env, module), true),
                            "cut" | "complete" | "recognize" | "all_consuming" | "many1" | "many1_count" | "map" | "map_res" | "map_opt" | "verify" => self.par(a[0], env, module),
                            "cond" => with(self.par(a[1], env, module), true),
                            "value" => self.par(a[1], env, module),
                            "separated_list" | "separated_nonempty_list" => {
                                let v = kids(self, &[1, 0]);
                                with(chain(&v), last == "separated_list" || v[0].nullable)
                            }
                            "tag" | "tag_no_case" => none(self.empty(a[0], env)),
                            "char" | "one_of" | "none_of" | "is_a" | "is_not" | "take_while1" | "take_till1" => none(false),
                            "take_while" | "take_till" => none(true),
                            "take_while_m_n" | "take" => none(self.zero(a[0])),
                            "escaped" => { let v = kids(self, &[0, 2]); with(chain(&v), true) }
                            _ => unknown(self),
                        }
                    }
                    _ => match self.local(module, &s) {
                        Some(f) if f.name == "tag_no_case" && a.len() == 1 => none(self.empty(a[0], env)),
                        Some(f) if f.kind == Kind::Comb && self.depth < 12 && f.params.len() == a.len() => {
                            let mut inner = Env::new();
                            for (p, x) in f.params.iter().zip(&a) {
                                let b = match p.ty {
                                    PTy::Parser(_) => B::Par(self.par(x, env, module)),
                                    PTy::Str => B::Lit(self.empty(x, env)),
                                    _ => {
                                        // a function on values may be handed over too
                                        B::Other
                                    }
                                };
                                inner.insert(p.name.clone(), b);
                            }
                            self.depth += 1;
                            let c = self.body(f, &mut inner);
                            self.depth -= 1;
                            c
                        }
                        _ => unknown(self),
                    },
                }
            }
            _ => unknown(self),
        }
    }
}

/// Written-out code: which functions does it call, or hand on, at a text of
/// which nothing may have been read?
struct Walk<'t, 'a, 'm> {
    t: &'t mut Term<'a>,
    env: Env,
    module: &'m str,
    left: BTreeSet<String>,
    mutates: bool,
}
impl<'t, 'a, 'm> Walk<'t, 'a, 'm> {
    /// where the rest of this expression begins, when it is a call of a parser
    fn rest(&self, t: &mut Term<'a>, e: &Expr) -> Option<B> {
        match strip(e) {
            Expr::Try(x) => self.rest(t, &x.expr),
            Expr::Call(c) if c.args.len() == 1 => {
                let at = t.at(&c.args[0], &self.env);
                let is = match strip(&c.func) {
                    Expr::Path(p) => matches!(self.env.get(&path_str(&p.path)), Some(B::Par(_))) || t.local(self.module, &path_str(&p.path)).map_or(false, |f| f.kind == Kind::Parser),
                    Expr::Call(_) => true,
                    _ => false,
                };
                if !is {
                    return None;
                }
                Some(match at {
                    Some(B::Later) if !self.mutates => B::Later,
                    _ if self.mutates => B::Start,
                    _ => {
                        if t.par(&c.func, &self.env, self.module).nullable {
                            B::Start
                        } else {
                            B::Later
                        }
                    }
                })
            }
            _ => None,
        }
    }
    fn bind(&mut self, p: &Pat, b: &B) {
        match p {
            Pat::Type(t) => self.bind(&t.pat, b),
            Pat::TupleStruct(s) => {
                for x in &s.pat.elems {
                    self.bind(x, b);
                }
            }
            Pat::Tuple(s) => {
                if let Some(x) = s.elems.first() {
                    self.bind(x, b);
                }
            }
            Pat::Ident(i) => {
                self.env.insert(i.ident.to_string(), b.clone());
            }
            Pat::Or(o) => {
                for x in &o.cases {
                    self.bind(x, b);
                }
            }
            _ => {}
        }
    }
    fn forget(&mut self, p: &Pat) {
        struct Names(Vec<String>);
        impl<'x> Visit<'x> for Names {
            fn visit_pat_ident(&mut self, i: &'x PatIdent) {
                self.0.push(i.ident.to_string());
                visit::visit_pat_ident(self, i);
            }
        }
        let mut n = Names(vec![]);
        n.visit_pat(p);
        for x in n.0 {
            self.env.remove(&x);
        }
    }
}
impl<'t, 'a, 'm, 'x> Visit<'x> for Walk<'t, 'a, 'm> {
    fn visit_block(&mut self, b: &'x Block) {
        let keep = self.env.clone();
        visit::visit_block(self, b);
        self.env = keep;
    }
    fn visit_local(&mut self, l: &'x Local) {
        if let Some((_, e)) = &l.init {
            self.visit_expr(e);
            let mut t = Term { r: self.t.r, g: self.t.g, nul: self.t.nul.clone(), depth: self.t.depth };
            let b = self.rest(&mut t, e);
            self.forget(&l.pat);
            if let Some(b) = b {
                self.bind(&l.pat, &b);
            }
        }
    }
    fn visit_expr_match(&mut self, m: &'x ExprMatch) {
        self.visit_expr(&m.expr);
        let mut t = Term { r: self.t.r, g: self.t.g, nul: self.t.nul.clone(), depth: self.t.depth };
        let b = self.rest(&mut t, &m.expr);
        for a in &m.arms {
            let keep = self.env.clone();
            self.forget(&a.pat);
            if let Some(b) = &b {
                self.bind(&a.pat, b);
            }
            if let Some((_, g)) = &a.guard {
                self.visit_expr(g);
            }
            self.visit_expr(&a.body);
            self.env = keep;
        }
    }
    fn visit_expr_call(&mut self, c: &'x ExprCall) {
        // a parser applied to a text
        if c.args.len() == 1 && !self.mutates {
            if let Some(B::Later) = self.t.at(&c.args[0], &self.env) {
                return;
            }
        }
        if let (Expr::Call(_), 1) = (strip(&c.func), c.args.len()) {
            let env = self.env.clone();
            let k = self.t.par(&c.func, &env, self.module);
            self.left.extend(k.left);
            self.visit_expr(&c.args[0]);
            return;
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_path(&mut self, p: &'x Path) {
        let s = path_str(p);
        match self.env.get(&s) {
            Some(B::Par(c)) => self.left.extend(c.left.iter().cloned()),
            Some(_) => {}
            None => {
                if let Some(f) = self.t.local(self.module, &s) {
                    self.left.insert(f.name.clone());
                } else if let Some((_, m)) = s.rsplit_once("::") {
                    // a method by its path
                    let n = format!("{}__{}", s[..s.len() - m.len() - 2].rsplit("::").next().unwrap(), m);
                    if self.t.r.funs.contains_key(&n) {
                        self.left.insert(n);
                    }
                }
            }
        }
    }
    fn visit_expr_method_call(&mut self, m: &'x ExprMethodCall) {
        let suffix = format!("__{}", m.method);
        for f in self.t.r.funs.values().filter(|f| f.method && f.name.ends_with(&suffix)) {
            self.left.insert(f.name.clone());
        }
        visit::visit_expr_method_call(self, m);
    }
}
struct Mutates(bool);
impl<'x> Visit<'x> for Mutates {
    fn visit_expr_assign(&mut self, _: &'x ExprAssign) {
        self.0 = true;
    }
    fn visit_expr_loop(&mut self, _: &'x ExprLoop) {
        self.0 = true;
    }
    fn visit_expr_while(&mut self, _: &'x ExprWhile) {
        self.0 = true;
    }
    fn visit_expr_for_loop(&mut self, _: &'x ExprForLoop) {
        self.0 = true;
    }
}
struct Loops(bool);
impl<'x> Visit<'x> for Loops {
    fn visit_expr_loop(&mut self, _: &'x ExprLoop) {
        self.0 = true;
    }
    fn visit_expr_while(&mut self, _: &'x ExprWhile) {
        self.0 = true;
    }
}
