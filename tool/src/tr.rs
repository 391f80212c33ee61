//! Translation of the extracted code: the executable text handed to the
//! verifier, and the denotation of every parser-valued expression in it.
use crate::extract::*;
use std::collections::{BTreeSet, HashMap};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone, Debug)]
pub enum V {
    Val,
    Str(String),    // a &str whose characters are spelled so
    Parser(String), // its denotation
    Pred(String),
    Fun(String, usize),
    Res(String),  // an IResult, as a PR
    ErrV(String), // the error of an IResult, as a PR
}
#[derive(Clone)]
pub struct Env {
    pub vars: HashMap<String, V>,
    pub module: String,
    pub selfty: Option<String>,
    pub spec: bool,
    pub locals: HashMap<String, Name>,
    /// what the parsers among the parameters return
    pub outs: HashMap<String, String>,
}
impl Env {
    pub fn new(module: &str, spec: bool) -> Env {
        Env { vars: HashMap::new(), module: module.into(), selfty: None, spec, locals: HashMap::new(), outs: HashMap::new() }
    }
    fn bind(&mut self, n: &str, v: V) {
        self.vars.insert(n.to_string(), v);
    }
}

pub struct Tr<'r> {
    pub repo: &'r Repo,
    /// functions with a hand-written rule or class of the same type
    pub has_rule: BTreeSet<String>,
    pub weak: bool,
    pub n: usize,
    pub lets: Vec<(String, String)>,
    pub deps: BTreeSet<String>,
    pub tags: BTreeSet<String>,
    pub lits: BTreeSet<String>,
    pub alts: BTreeSet<usize>,
    pub tuples: BTreeSet<usize>,
    pub nom_used: BTreeSet<String>,
    /// denotation (and proof hint) of the closure a combinator returns, when its contract is given
    pub over: Option<(String, String)>,
    /// the tail expression of the block being printed is a parser
    pub want: bool,
    pub outty: Option<String>,
    pub numty: Option<String>,
    cty: Option<String>,
    pub tail: String,
    /// what is being specified is the value of the whole function
    pub tailpos: bool,
    /// which contract the weak layer states
    pub hint: String,
    pub dup: BTreeSet<String>, // parameters of a type the function knows nothing about
}

enum Arg {
    P,
    V,
    S,
    F, // map-like function
    C, // predicate
}

fn unsup<T>(what: impl Into<String>) -> R<T> {
    Err(what.into())
}

/// nom combinators taking parsers: (arguments, denotation has the usual shape)
fn nom_sig(n: &str) -> Option<&'static [Arg]> {
    use Arg::*;
    Some(match n {
        "sequence::pair" | "sequence::preceded" | "sequence::terminated" => &[P, P],
        "sequence::separated_pair" | "sequence::delimited" => &[P, P, P],
        "combinator::opt" | "combinator::cut" | "combinator::complete" | "combinator::peek" | "combinator::not"
        | "combinator::recognize" | "combinator::all_consuming" | "multi::many0" | "multi::many1" | "multi::many0_count" | "multi::many1_count" => &[P],
        "combinator::cond" | "combinator::value" => &[V, P],
        "combinator::map" | "combinator::map_res" | "combinator::map_opt" | "combinator::verify" => &[P, F],
        "multi::separated_list" | "multi::separated_nonempty_list" => &[P, P],
        "bytes::complete::tag" | "character::complete::one_of" | "character::complete::none_of" => &[S],
        "bytes::complete::tag_no_case" | "bytes::complete::is_not" | "bytes::complete::is_a" => &[S],
        "bytes::streaming::tag" | "character::streaming::one_of" | "character::streaming::none_of"
        | "bytes::streaming::tag_no_case" | "bytes::streaming::is_not" | "bytes::streaming::is_a" => &[S],
        "character::complete::char" | "character::streaming::char" => &[V],
        "bytes::complete::take_while" | "bytes::complete::take_while1" | "bytes::complete::take_till" | "bytes::complete::take_till1"
        | "bytes::streaming::take_while" | "bytes::streaming::take_while1" | "bytes::streaming::take_till" | "bytes::streaming::take_till1" => &[C],
        "bytes::complete::take_while_m_n" => &[V, V, C],
        "bytes::complete::take" => &[V],
        "bytes::complete::escaped" => &[P, V, P],
        _ => return None,
    })
}
/// nom parsers used as functions
fn nom_prim(n: &str) -> bool {
    let names = [
        "anychar", "digit1", "digit0", "alpha0", "alpha1", "alphanumeric0", "alphanumeric1", "hex_digit0", "hex_digit1", "space0", "space1",
        "multispace0", "multispace1",
    ];
    if ["newline", "tab", "crlf", "line_ending", "not_line_ending"].iter().any(|x| n == format!("character::complete::{}", x)) || n == "combinator::rest" {
        return true;
    }
    for p in ["character::complete::", "character::streaming::"] {
        if let Some(r) = n.strip_prefix(p) {
            return names.contains(&r);
        }
    }
    false
}
fn nom_short(n: &str) -> String {
    let l = n.rsplit("::").next().unwrap();
    if n.contains("::streaming::") {
        format!("stream_{}", l)
    } else if n == "bytes::complete::tag_no_case" {
        "nom_tag_no_case".into()
    } else {
        l.into()
    }
}

fn char_method(m: &str) -> Option<&'static str> {
    Some(match m {
        "is_ascii_alphabetic" | "is_alpha" => "ch_ascii_alphabetic",
        "is_ascii_digit" | "is_dec_digit" => "ch_ascii_digit",
        "is_ascii_alphanumeric" | "is_alphanum" => "ch_ascii_alphanumeric",
        "is_ascii_hexdigit" | "is_hex_digit" => "ch_ascii_hexdigit",
        "is_ascii_uppercase" => "ch_upper",
        "is_ascii_lowercase" => "ch_lower",
        "is_ascii" => "ch_ascii",
        "is_ascii_whitespace" => "ch_ascii_whitespace",
        "is_alphabetic" => "ch_alphabetic",
        "is_numeric" => "ch_numeric",
        "is_alphanumeric" => "ch_alphanumeric",
        "is_whitespace" => "ch_whitespace",
        _ => return None,
    })
}
fn str_map(m: &str) -> bool {
    ["to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase"].contains(&m)
}
const TO_STRING: [&str; 4] = ["to_string", "to_owned", "into", "to_owned_string"];

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}
fn lit_str(e: &Expr) -> Option<String> {
    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = strip(e) {
        Some(s.value())
    } else {
        None
    }
}
pub fn rlit(s: &str) -> String {
    crate::dsl::strlit(s)
}

impl<'r> Tr<'r> {
    pub fn new(repo: &'r Repo, has_rule: BTreeSet<String>, weak: bool) -> Self {
        Tr {
            repo,
            has_rule,
            weak,
            n: 0,
            lets: vec![],
            deps: Default::default(),
            tags: Default::default(),
            lits: Default::default(),
            alts: Default::default(),
            tuples: Default::default(),
            nom_used: Default::default(),
            over: None,
            want: false,
            outty: None,
            numty: None,
            cty: None,
            tail: String::new(),
            tailpos: false,
            hint: String::new(),
            dup: Default::default(),
        }
    }
    fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{}{}", p, self.n)
    }
    fn let_d(&mut self, e: String) -> String {
        if self.weak {
            return String::new();
        }
        if let Some((n, _)) = self.lets.iter().find(|(_, x)| *x == e) {
            return n.clone();
        }
        let n = self.fresh("dn_");
        self.lets.push((n.clone(), e));
        n
    }
    fn drain(&mut self, mark: usize, ghost: bool) -> String {
        self.lets.drain(mark..).map(|(n, e)| format!("let {}{} = {};\n", if ghost { "ghost " } else { "" }, n, e)).collect()
    }
    fn resolve(&self, env: &Env, p: &str) -> Name {
        let first = p.split("::").next().unwrap();
        if let Some(n) = env.locals.get(first) {
            if !p.contains("::") {
                return n.clone();
            }
            let rest = &p[first.len() + 2..];
            return match n {
                Name::Nom(x) => Name::Nom(format!("{}::{}", x, rest)),
                Name::Std(x) => Name::Std(format!("{}::{}", x, rest)),
                Name::Local(m, i) => Name::Local(format!("{}::{}", m, i), rest.into()),
            };
        }
        self.repo.resolve(&env.module, p)
    }
    fn local_fun(&self, env: &Env, p: &str) -> Option<&'r Fun> {
        match self.resolve(env, p) {
            Name::Local(m, i) => self.repo.by_mod.get(&(m, i)).map(|n| &self.repo.funs[n]),
            _ => None,
        }
    }

    // ------------------------------------------------------------ parsers
    /// Is `e` an expression whose value is a parser?
    fn is_parser(&self, e: &Expr, env: &Env) -> bool {
        match strip(e) {
            Expr::Reference(r) => self.is_parser(&r.expr, env),
            Expr::Path(p) => {
                let s = path_str(&p.path);
                if let Some(v) = env.vars.get(&s) {
                    return matches!(v, V::Parser(_));
                }
                match self.resolve(env, &s) {
                    Name::Nom(n) => nom_prim(&n),
                    _ => self.local_fun(env, &s).map_or(false, |f| f.kind == Kind::Parser),
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = strip(&c.func) {
                    let s = path_str(&p.path);
                    if env.vars.contains_key(&s) {
                        return false;
                    }
                    match self.resolve(env, &s) {
                        Name::Nom(n) => nom_sig(&n).is_some() || n == "branch::alt" || n == "sequence::tuple" || n.starts_with("multi::") || n.starts_with("combinator::"),
                        _ => self.local_fun(env, &s).map_or(false, |f| f.kind == Kind::Comb),
                    }
                } else {
                    false
                }
            }
            Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                Stmt::Expr(e) => self.is_parser(e, env),
                _ => false,
            },
            _ => false,
        }
    }
    /// (executable text, name of the denotation)
    pub fn par(&mut self, e: &Expr, env: &Env) -> R<(String, String)> {
        match strip(e) {
            Expr::Reference(r) => {
                if let Expr::Path(p) = strip(&r.expr) {
                    if let Some(V::Parser(d)) = env.vars.get(&path_str(&p.path)) {
                        // a reference to a parser is a parser
                        let n = path_str(&p.path);
                        let ens = if self.weak { "good(x_, r_)".to_string() } else { format!("pr(r_) == {}(x_@) && sfr(x_@, r_)", d) };
                        let o = env.outs.get(&n).cloned().unwrap_or("_".into());
                        return Ok((format!("|x_: &'a str| -> (r_: IResult<&'a str, {}>) ensures {} {{ {}(x_) }}", o, ens, n), d.clone()));
                    }
                }
                self.par(&r.expr, env)
            }
            Expr::Path(p) => {
                let s = path_str(&p.path);
                if let Some(v) = env.vars.get(&s) {
                    return match v {
                        V::Parser(d) => Ok((s, d.clone())),
                        _ => unsup(format!("`{}` is not a parser", s)),
                    };
                }
                match self.resolve(env, &s) {
                    Name::Nom(n) if nom_prim(&n) => {
                        let sh = nom_short(&n);
                        self.nom_used.insert(n.clone());
                        let d = self.let_d(format!("|s: Seq<char>| {}_r(s)", sh));
                        Ok((sh, d))
                    }
                    Name::Local(..) => match self.local_fun(env, &s) {
                        Some(f) if f.kind == Kind::Parser => {
                            self.deps.insert(f.name.clone());
                            let d = self.let_d(format!("|s: Seq<char>| {}_s(s)", f.name));
                            Ok((f.name.clone(), d))
                        }
                        _ => unsup(format!("`{}` used as a parser", s)),
                    },
                    _ => unsup(format!("`{}` used as a parser", s)),
                }
            }
            Expr::Call(c) => {
                let s = match strip(&c.func) {
                    Expr::Path(p) => path_str(&p.path),
                    _ => return unsup("call of a computed function used as a parser"),
                };
                let args: Vec<&Expr> = c.args.iter().collect();
                match self.resolve(env, &s) {
                    Name::Nom(n) => self.nom_call(&n, &args, env),
                    _ => match self.local_fun(env, &s) {
                        Some(f) if f.kind == Kind::Comb => self.helper_call(f, &args, env),
                        _ => unsup(format!("`{}` used as a parser combinator", s)),
                    },
                }
            }
            Expr::Closure(c) => self.par_closure(c, env),
            Expr::Block(b) => {
                if let [Stmt::Expr(e)] = &b.block.stmts[..] {
                    return self.par(e, env);
                }
                unsup("block used as a parser")
            }
            _ => unsup(format!("expression used as a parser: {}", tokens(e))),
        }
    }
    fn nom_call(&mut self, n: &str, args: &[&Expr], env: &Env) -> R<(String, String)> {
        self.nom_used.insert(n.to_string());
        if n == "branch::alt" || n == "sequence::tuple" {
            let els: Vec<&Expr> = match strip(args[0]) {
                Expr::Tuple(t) => t.elems.iter().collect(),
                _ => return unsup(format!("{} of something that is not a tuple", n)),
            };
            let mut ex = vec![];
            let mut ds = vec![];
            for a in &els {
                let (x, d) = self.par(a, env)?;
                ex.push(x);
                ds.push(d);
            }
            let k = els.len();
            let nm = if n == "branch::alt" {
                self.alts.insert(k);
                "alt"
            } else {
                self.tuples.insert(k);
                "tuple"
            };
            let d = self.let_d(format!("{}{}_s({})", nm, k, ds.join(", ")));
            return Ok((self.comb_text(&format!("{}{}", nm, k), &ex, &ds), d));
        }
        let sig = match nom_sig(n) {
            Some(s) => s,
            None => return unsup(format!("nom::{} has no contract", n)),
        };
        if sig.len() != args.len() {
            return unsup(format!("nom::{} with {} arguments", n, args.len()));
        }
        let sh = nom_short(n);
        let mut ex = vec![];
        let mut ds = vec![]; // ghost arguments
        let mut da = vec![]; // arguments of the denotation
        let mut fun = None;
        for (k, a) in sig.iter().zip(args) {
            match k {
                Arg::P => {
                    let (x, d) = self.par(a, env)?;
                    ex.push(x);
                    ds.push(d.clone());
                    da.push(d);
                }
                Arg::V => {
                    ex.push(self.x(a, env)?);
                    let v = self.sp(a, env)?;
                    da.push(if n == "bytes::complete::take_while_m_n" || n == "bytes::complete::take" { format!("({}) as nat", v) } else { v });
                }
                Arg::S => {
                    if let Some(l) = lit_str(a) {
                        if n.ends_with("tag") || n.ends_with("tag_no_case") {
                            self.tags.insert(l);
                        } else {
                            self.lits.insert(l);
                        }
                    }
                    ex.push(self.x(a, env)?);
                    let q = self.seq(a, env)?;
                    da.push(q);
                }
                Arg::C => {
                    let (x, d) = self.pred(a, env)?;
                    ex.push(x);
                    ds.push(d.clone());
                    da.push(d);
                }
                Arg::F => fun = Some(*a),
            }
        }
        if let Some(f) = fun {
            let (fx, ap) = self.fun_val(f, env)?;
            ex.push(fx);
            let body = match sh.as_str() {
                "map" => format!("PR::Ok(s1_, {})", ap),
                "map_res" => format!("match ({}) {{ Ok(v_) => PR::Ok(s1_, v_), Err(_) => PR::Error }}", ap),
                "map_opt" => format!("match ({}) {{ Some(v_) => PR::Ok(s1_, v_), None => PR::Error }}", ap),
                _ => format!("if {} {{ PR::Ok(s1_, p_) }} else {{ PR::Error }}", ap),
            };
            let d = self.let_d(format!("|s: Seq<char>| match {}(s) {{ PR::Ok(s1_, p_) => {}, e_ => fail(e_) }}", ds[0], body));
            ds.push(d.clone());
            return Ok((self.comb_text(&sh, &ex, &ds), d));
        }
        let name = match sh.as_str() {
            "char" => "chr_s".to_string(),
            "take_while" => "run0_s".into(),
            "take_while1" => "run1_s".into(),
            "take_till" => "till0_s".into(),
            "take_till1" => "till1_s".into(),
            "take_while_m_n" => "runmn_s".into(),
            s => format!("{}_s", s),
        };
        let d = self.let_d(format!("{}({})", name, da.join(", ")));
        Ok((self.comb_text(&sh, &ex, &ds), d))
    }
    fn comb_text(&self, f: &str, ex: &[String], ds: &[String]) -> String {
        let mut v: Vec<String> = ex.to_vec();
        if !self.weak {
            v.extend(ds.iter().map(|d| format!("Ghost({})", d)));
        }
        format!("{}({})", f, v.join(", "))
    }
    /// Arguments for a local helper: (exec arguments, ghost arguments, arguments of its denotation)
    fn helper_args(&mut self, f: &Fun, args: &[&Expr], skip: Option<usize>, env: &Env) -> R<(Vec<String>, Vec<String>, Vec<String>)> {
        if args.len() != f.params.len() {
            return unsup(format!("{} with {} arguments", f.name, args.len()));
        }
        let (mut ex, mut gs, mut da) = (vec![], vec![], vec![]);
        for (k, (p, a)) in f.params.iter().zip(args).enumerate() {
            if Some(k) == skip {
                ex.push(self.x(a, env)?);
                continue;
            }
            match &p.ty {
                PTy::Parser(_) => {
                    let (x, d) = self.par(a, env)?;
                    ex.push(x);
                    gs.push(d.clone());
                    da.push(d);
                }
                PTy::Pred => {
                    let (x, d) = self.pred(a, env)?;
                    ex.push(x);
                    gs.push(d.clone());
                    da.push(d);
                }
                PTy::Str => {
                    if let Some(l) = lit_str(a) {
                        self.tags.insert(l);
                    }
                    ex.push(self.x(a, env)?);
                    let q = self.seq(a, env)?;
                    da.push(q);
                }
                PTy::Fun(ts, _) => {
                    let (x, d) = self.fun_n(a, ts.len(), env)?;
                    ex.push(x);
                    gs.push(d.clone());
                    da.push(d);
                }
                PTy::Other => {
                    if matches!(strip(a), Expr::Closure(_)) {
                        return unsup(format!("closure passed to {}", f.name));
                    }
                    ex.push(self.x(a, env)?);
                    da.push(self.sp(a, env)?);
                }
            }
        }
        Ok((ex, gs, da))
    }
    fn helper_call(&mut self, f: &Fun, args: &[&Expr], env: &Env) -> R<(String, String)> {
        let (ex, gs, da) = self.helper_args(f, args, None, env)?;
        self.deps.insert(f.name.clone());
        let d = self.let_d(format!("{}_s({})", f.name, da.join(", ")));
        Ok((self.comb_text(&f.name, &ex, &gs), d))
    }
    fn par_closure(&mut self, c: &ExprClosure, env: &Env) -> R<(String, String)> {
        if c.inputs.len() != 1 {
            return unsup("parser closure with several parameters");
        }
        let (pat, _) = split_typed(&c.inputs[0]);
        let i = match pat {
            Pat::Ident(i) => i.ident.to_string(),
            _ => return unsup("parser closure with a pattern parameter"),
        };
        let mut xe = env.clone();
        xe.bind(&i, V::Str(format!("{}@", i)));
        let over = self.over.take();
        let oty = self.cty.take().unwrap_or("_".into());
        let body = self.block_of(&c.body, &xe)?;
        let mv = if c.capture.is_some() { "move " } else { "" };
        if self.weak {
            return Ok((format!("{}|{}: &'a str| -> (r_: IResult<&'a str, {}>) ensures good({}, r_) {{ broadcast use {{group_sfx, group_weak}}; {}{} }}", mv, i, oty, i, if has_loop(&body) { format!("let vx_in = {}; ", i) } else { String::new() }, body), String::new()));
        }
        if let Some((d, hint)) = over {
            let ex = format!(
                "{}|{}: &'a str| -> (r_: IResult<&'a str, {}>) ensures pr(r_) == {}({}@) && sfr({}@, r_) {{ broadcast use {{group_sfx, group_ext}}; proof {{ {} }} {} }}",
                mv, i, oty, d, i, i, hint.replace("$i", &format!("{}@", i)), body
            );
            return Ok((ex, d));
        }
        let mut se = env.clone();
        se.spec = true;
        se.bind(&i, V::Str(i.clone()));
        let mark = self.lets.len();
        let den = self.den(&c.body, &se)?;
        let inner = self.drain(mark, false);
        let d = self.let_d(format!("|{}: Seq<char>| {{ {} {} }}", i, inner, den));
        let ex = format!(
            "{}|{}: &'a str| -> (r_: IResult<&'a str, {}>) ensures pr(r_) == {}({}@) && sfr({}@, r_) {{ broadcast use {{group_sfx, group_ext}}; {} }}",
            mv, i, oty, d, i, i, body
        );
        Ok((ex, d))
    }
    /// A predicate on characters: (executable text, denotation)
    fn pred(&mut self, e: &Expr, env: &Env) -> R<(String, String)> {
        match strip(e) {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let (pat, _) = split_typed(&c.inputs[0]);
                let n = match pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    Pat::Wild(_) => "_c".into(),
                    _ => return unsup("predicate with a pattern parameter"),
                };
                let mv = if c.capture.is_some() { "move " } else { "" };
                let mut ce = env.clone();
                ce.bind(&n, V::Val);
                let b = self.block_of(&c.body, &ce)?;
                if self.weak {
                    return Ok((format!("{}|{}: char| -> bool {{ {} }}", mv, n, b), String::new()));
                }
                let s = self.sp(&c.body, &ce)?;
                let d = self.let_d(format!("|{}: char| {}", n, s));
                Ok((format!("{}|{}: char| -> (b_: bool) ensures b_ == {}({}) {{ {} }}", mv, n, d, n, b), d))
            }
            Expr::Path(p) => {
                let s = path_str(&p.path);
                if let Some(V::Pred(d)) = env.vars.get(&s) {
                    return Ok((s, d.clone()));
                }
                if let Some(f) = self.local_fun(env, &s) {
                    if f.kind == Kind::Pred {
                        self.deps.insert(f.name.clone());
                        let d = self.let_d(format!("|c: char| {}_s(c)", f.name));
                        return Ok((f.name.clone(), d));
                    }
                }
                let last = s.rsplit("::").next().unwrap().to_string();
                if let Some(m) = char_method(&last) {
                    let d = self.let_d(format!("|c: char| {}_s(c)", m));
                    return Ok((m.to_string(), d));
                }
                unsup(format!("`{}` used as a predicate", s))
            }
            Expr::Reference(r) => self.pred(&r.expr, env),
            _ => unsup("expression used as a predicate"),
        }
    }
    /// A function on values: (executable closure, its application to `p_` in specifications)
    fn fun_val(&mut self, e: &Expr, env: &Env) -> R<(String, String)> {
        match strip(e) {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let (pat, ty) = split_typed(&c.inputs[0]);
                let ann = match ty {
                    Some(t) => format!(": {}", self.repo.ty(&t)),
                    None => String::new(),
                };
                let mv = if c.capture.is_some() { "move " } else { "" };
                let mut ce = env.clone();
                bind_pat(&pat, &mut ce);
                let b = self.block_of(&c.body, &ce)?;
                let pt = self.pat(&pat, env);
                let (lx, ls) = if matches!(pat, Pat::Wild(_)) { (String::new(), String::new()) } else { (format!("let {} = p_; ", pt), format!("let {} = p_; ", no_mut(&pat, &pt))) };
                if self.weak {
                    return Ok((format!("{}|p_{}| {{ {}{} }}", mv, ann, lx, b), String::new()));
                }
                let mut se = ce.clone();
                se.spec = true;
                self.tailpos = true;
                let s = self.sp(&c.body, &se)?;
                let mut ap = format!("{{ {}{} }}", ls, s);
                if matches!(pat, Pat::Wild(_)) && ap.contains("None") {
                    // a name of its own lets the type be inferred from all uses
                    let n = self.fresh("dv_");
                    self.lets.push((n.clone(), ap));
                    ap = n;
                }
                Ok((format!("{}|p_{}| -> (r_: _) ensures same(r_, {}) {{ {}{} }}", mv, ann, ap, lx, b), ap))
            }
            Expr::Path(p) if matches!(env.vars.get(&path_str(&p.path)), Some(V::Fun(_, 1))) => {
                let s = path_str(&p.path);
                if self.weak {
                    return Ok((s, String::new()));
                }
                let d = match &env.vars[&s] {
                    V::Fun(d, _) => d.clone(),
                    _ => unreachable!(),
                };
                let ap = format!("{}(p_)", d);
                Ok((format!("move |p_| -> (r_: _) ensures same(r_, {}) {{ {}(p_) }}", ap, s), ap))
            }
            Expr::Path(p) => {
                let s = path_str(&p.path);
                let q = p.path.clone();
                // apply it to a variable and translate that
                let call = self.apply_path(&q, &s, env)?;
                let (x, sp, ann) = call;
                if self.weak {
                    return Ok((format!("|p_{}| {{ {} }}", ann, x), String::new()));
                }
                Ok((format!("|p_{}| -> (r_: _) ensures same(r_, {}) {{ {} }}", ann, sp, x), sp))
            }
            _ => unsup("expression used as a function"),
        }
    }
    /// A function on `n` values: (executable closure, its denotation)
    fn fun_n(&mut self, e: &Expr, n: usize, env: &Env) -> R<(String, String)> {
        let ps: Vec<String> = (0..n).map(|k| format!("p{}_", k)).collect();
        let mv = matches!(strip(e), Expr::Closure(c) if c.capture.is_some());
        let mv = if mv { "move " } else { "" };
        let (lets, lets_s, x, s) = match strip(e) {
            Expr::Closure(c) if c.inputs.len() == n => {
                let mut ce = env.clone();
                let (mut l, mut ls) = (String::new(), String::new());
                for (i, p) in c.inputs.iter().zip(&ps) {
                    let (pat, _) = split_typed(i);
                    bind_pat(&pat, &mut ce);
                    if !matches!(pat, Pat::Wild(_)) {
                        let pt = self.pat(&pat, env);
                        l.push_str(&format!("let {} = {}; ", pt, p));
                        ls.push_str(&format!("let {} = {}; ", no_mut(&pat, &pt), p));
                    }
                }
                let b = self.block_of(&c.body, &ce)?;
                let mut se = ce.clone();
                se.spec = true;
                self.tailpos = true;
                let s = self.sp(&c.body, &se)?;
                (l, ls, b, s)
            }
            Expr::Path(p) => {
                let nm = path_str(&p.path);
                if let Some(V::Fun(d, k)) = env.vars.get(&nm) {
                    if *k == n {
                        return Ok((nm, d.clone()));
                    }
                }
                let mut e2 = env.clone();
                for p in &ps {
                    e2.bind(p, V::Val);
                }
                if n == 1 {
                    let f: Expr = parse_str(&ps[0]).unwrap();
                    let _ = f;
                    let (x, s, _) = self.apply_path(&p.path, &nm, env)?;
                    ("let p_ = p0_; ".into(), "let p_ = p0_; ".into(), x, s)
                } else {
                    let c: Expr = parse_str(&format!("{}({})", tokens(&p.path), ps.join(", "))).map_err(|e| e.to_string())?;
                    (String::new(), String::new(), self.x(&c, &e2)?, self.sp(&c, &e2)?)
                }
            }
            Expr::Reference(r) => return self.fun_n(&r.expr, n, env),
            _ => return unsup("expression used as a function"),
        };
        if self.weak {
            return Ok((format!("{}|{}| {{ {}{} }}", mv, ps.join(", "), lets, x), String::new()));
        }
        let d = self.let_d(format!("|{}| {{ {}{} }}", ps.join(", "), lets_s, s));
        Ok((format!("{}|{}| -> (r_: _) ensures same(r_, {}({})) {{ {}{} }}", mv, ps.join(", "), d, ps.join(", "), lets, x), d))
    }
    fn apply_path(&mut self, q: &Path, s: &str, env: &Env) -> R<(String, String, String)> {
        let arg: Expr = parse_str("p_").unwrap();
        let mut e2 = env.clone();
        e2.bind("p_", V::Val);
        let last = s.rsplit("::").next().unwrap();
        let ty = if s.contains("::") { s.rsplitn(3, "::").nth(1).unwrap() } else { "" };
        if (ty == "String" && last == "from") || (["str", "ToString", "ToOwned"].contains(&ty) && TO_STRING.contains(&last)) {
            return Ok(("to_owned_string(p_)".into(), "string_of(p_@)".into(), ": &'a str".into()));
        }
        if ty == "str" && str_map(last) {
            return Ok((format!("{}(p_)", last), format!("string_of({}_s(p_@))", last), ": &'a str".into()));
        }
        if ty == "str" && last == "parse" {
            let seg = &q.segments[q.segments.len() - 1];
            let m: Expr = match &seg.arguments {
                PathArguments::AngleBracketed(a) => {
                    let a = &a.args;
                    parse_quote!(p_.parse::<#a>())
                }
                _ => parse_quote!(p_.parse()),
            };
            e2.bind("p_", V::Str("p_@".into()));
            return Ok((self.x(&m, &e2)?, if self.weak { String::new() } else { self.sp(&m, &e2)? }, ": &'a str".into()));
        }
        if ty == "Option" || ty == "Result" || ty == "Vec" {
            if last.chars().next().unwrap().is_lowercase() && last != "new" {
                let m: Expr = parse_str(&format!("p_.{}()", last)).unwrap();
                return Ok((self.x(&m, &e2)?, if self.weak { String::new() } else { self.sp(&m, &e2)? }, String::new()));
            }
        }
        let c = Expr::Call(ExprCall {
            attrs: vec![],
            func: Box::new(Expr::Path(ExprPath { attrs: vec![], qself: None, path: q.clone() })),
            paren_token: Default::default(),
            args: std::iter::once(arg).collect(),
        });
        Ok((self.x(&c, &e2)?, if self.weak { String::new() } else { self.sp(&c, &e2)? }, String::new()))
    }

    // ------------------------------------------------------- names, patterns
    fn path(&self, p: &Path, env: &Env) -> String {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() == 1 {
            let s = &segs[0];
            if s == "Self" {
                return env.selfty.clone().unwrap_or("Self".into());
            }
            return match self.resolve(env, s) {
                Name::Local(m, i) => self.repo.by_mod.get(&(m, i.clone())).cloned().unwrap_or(i),
                Name::Nom(n) => nom_short(&n),
                Name::Std(n) => n.rsplit("::").next().unwrap().to_string(),
            };
        }
        let last = &segs[segs.len() - 1];
        let prev = &segs[segs.len() - 2];
        if prev.chars().next().unwrap().is_uppercase() || ["bool", "u8", "u16", "u32", "u64", "i64", "i32", "usize", "f64", "str", "char"].contains(&prev.as_str()) {
            let t = if prev == "Self" {
                env.selfty.clone().unwrap_or("Self".into())
            } else {
                match self.resolve(env, &segs[..segs.len() - 1].join("::")) {
                    Name::Local(_, i) => i,
                    Name::Nom(n) => n.rsplit("::").next().unwrap().to_string(),
                    Name::Std(n) => n.rsplit("::").next().unwrap().to_string(),
                }
            };
            return format!("{}::{}", t, last);
        }
        match self.resolve(env, &segs.join("::")) {
            Name::Local(m, i) => self.repo.by_mod.get(&(m, i.clone())).cloned().unwrap_or(i),
            Name::Nom(n) => nom_short(&n),
            Name::Std(n) => n.rsplit("::").next().unwrap().to_string(),
        }
    }
    pub fn pat(&self, p: &Pat, env: &Env) -> String {
        struct F<'a, 'r>(&'a Tr<'r>, &'a Env);
        impl<'a, 'r> VisitMut for F<'a, 'r> {
            fn visit_path_mut(&mut self, p: &mut Path) {
                if p.segments.len() > 1 || p.segments[0].ident == "Self" {
                    let s = self.0.path(p, self.1);
                    if let Ok(q) = parse_str::<Path>(&s) {
                        *p = q;
                    }
                }
            }
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Box(_) = p {}
                syn::visit_mut::visit_pat_mut(self, p);
            }
        }
        let mut q = p.clone();
        F(self, env).visit_pat_mut(&mut q);
        tokens(&q)
    }

    // ------------------------------------------------------------ executable
    /// Statements and tail of a body, ready to go between braces.
    pub fn block_of(&mut self, e: &Expr, env: &Env) -> R<String> {
        match e {
            Expr::Block(b) if b.label.is_none() => self.block(&b.block, env),
            e => self.x(e, env),
        }
    }
    pub fn block(&mut self, b: &Block, env: &Env) -> R<String> {
        let mut env = env.clone();
        let mut out = String::new();
        let want = std::mem::replace(&mut self.want, false);
        for s in &b.stmts {
            match s {
                Stmt::Expr(e) if want => {
                    let mark = self.lets.len();
                    if matches!(strip(e), Expr::Closure(_)) {
                        self.cty = self.outty.clone();
                    }
                    let (x, d) = self.par(e, &env)?;
                    out.push_str(&self.drain(mark, true));
                    out.push_str(&x);
                    self.tail = d;
                }
                Stmt::Local(l) => {
                    let (pat, ty) = split_typed(&l.pat);
                    let init = match &l.init {
                        Some((_, e)) => e,
                        None => {
                            out.push_str(&format!("let {};\n", self.pat(&pat, &env)));
                            bind_pat(&pat, &mut env);
                            continue;
                        }
                    };
                    if let Pat::Ident(i) = &pat {
                        let n = i.ident.to_string();
                        let is_clos_parser = matches!(strip(init), Expr::Closure(c) if c.inputs.len() == 1 && is_parser_closure(c));
                        if self.is_parser(init, &env) || is_clos_parser {
                            let mark = self.lets.len();
                            let (x, d) = self.par(init, &env)?;
                            out.push_str(&self.drain(mark, true));
                            if self.weak {
                                out.push_str(&format!("let {} = {};\n", n, x));
                                env.bind(&n, V::Parser(String::new()));
                            } else {
                                out.push_str(&format!("let ghost d_{} = {};\nlet {} = {};\n", n, d, n, x));
                                env.bind(&n, V::Parser(format!("d_{}", n)));
                            }
                            continue;
                        }
                        if let Some(l) = lit_str(init) {
                            self.lits.insert(l);
                            let x = self.x(init, &env)?;
                            out.push_str(&format!("let {} = {};\n", self.pat(&pat, &env), x));
                            env.bind(&n, V::Str(format!("{}@", n)));
                            continue;
                        }
                    }
                    let x = self.x(init, &env)?;
                    let text = self.is_text(init, &env);
                    let t = ty.map_or(String::new(), |t| format!(": {}", self.repo.ty(&t)));
                    out.push_str(&format!("let {}{} = {};\n", self.pat(&pat, &env), t, x));
                    match (strip(init), &pat) {
                        (Expr::Try(t), Pat::Tuple(_)) if self.is_iresult(&t.expr, &env) => bind_res(&pat, &mut env),
                        _ => bind_pat(&pat, &mut env),
                    }
                    if let (Pat::Ident(i), true) = (&pat, text) {
                        env.bind(&i.ident.to_string(), V::Str(format!("{}@", i.ident)));
                    }
                }
                Stmt::Expr(e) => out.push_str(&self.x(e, &env)?),
                Stmt::Semi(e, _) => {
                    if let Expr::Macro(m) = e {
                        let n = path_str(&m.mac.path);
                        if n.starts_with("debug_assert") || n == "assert" {
                            return unsup(format!("{}!", n));
                        }
                    }
                    out.push_str(&self.x(e, &env)?);
                    out.push_str(";\n");
                }
                Stmt::Item(Item::Use(u)) => add_local_use(&u.tree, &mut env),
                Stmt::Item(_) => return unsup("item inside a function"),
            }
        }
        Ok(out)
    }
    pub fn x(&mut self, e: &Expr, env: &Env) -> R<String> {
        Ok(match e {
            Expr::Lit(l) => {
                if let Lit::Str(s) = &l.lit {
                    self.lits.insert(s.value());
                    rlit(&s.value())
                } else {
                    tokens(l)
                }
            }
            Expr::Path(p) => {
                let s = path_str(&p.path);
                if env.vars.contains_key(&s) {
                    return Ok(s);
                }
                if let Some((m, c)) = self.repo.const_of(&env.module, &s) {
                    return self.x(&c, &Env::new(&m, env.spec));
                }
                self.path(&p.path, env)
            }
            Expr::Paren(p) => format!("({})", self.x(&p.expr, env)?),
            Expr::Group(p) => self.x(&p.expr, env)?,
            Expr::Tuple(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|a| self.x(a, env)).collect();
                let v = v?;
                if v.len() == 1 {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            Expr::Struct(s) => {
                let mut v = vec![];
                for f in &s.fields {
                    v.push(format!("{}: {}", tokens(&f.member), self.x(&f.expr, env)?));
                }
                if s.rest.is_some() {
                    return unsup("struct update syntax");
                }
                format!("{} {{ {} }}", self.path(&s.path, env), v.join(", "))
            }
            Expr::Field(f) => format!("{}.{}", self.x(&f.base, env)?, tokens(&f.member)),
            Expr::Unary(u) => format!("{} ({})", tokens(&u.op), self.x(&u.expr, env)?),
            Expr::Binary(b) => {
                let (l, r) = (self.x(&b.left, env)?, self.x(&b.right, env)?);
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (self.strish(&b.left, env) || self.strish(&b.right, env)) {
                    let n = if matches!(b.op, BinOp::Ne(_)) { "!" } else { "" };
                    return Ok(format!("{}str_eq({}, {})", n, l, r));
                }
                let lit = |e: &Expr| matches!(strip(e), Expr::Lit(_) | Expr::Cast(_) | Expr::Unary(_) | Expr::Binary(_));
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && !lit(&b.left) && !lit(&b.right) {
                    return Ok(format!("({}veq({}, {}))", if matches!(b.op, BinOp::Ne(_)) { "!" } else { "" }, l, r));
                }
                format!("({}) {} ({})", l, tokens(&b.op), r)
            }
            Expr::Cast(c) => format!("({}) as {}", self.x(&c.expr, env)?, self.repo.ty(&c.ty)),
            Expr::Reference(r) => {
                if let Expr::Index(ix) = strip(&r.expr) {
                    if let Expr::Range(rg) = strip(&ix.index) {
                        let b = self.x(&ix.expr, env)?;
                        let closed = matches!(rg.limits, RangeLimits::Closed(_));
                        return match (&rg.from, &rg.to) {
                            (Some(f), None) => Ok(format!("str_from({}, {})", b, self.x(f, env)?)),
                            (None, Some(t)) if !closed => Ok(format!("str_to({}, {})", b, self.x(t, env)?)),
                            (None, None) => Ok(b),
                            _ => unsup("range slice"),
                        };
                    }
                }
                format!("&{} {}", if r.mutability.is_some() { "mut" } else { "" }, self.x(&r.expr, env)?)
            }
            Expr::Block(b) if b.label.is_none() => format!("{{ {} }}", self.block(&b.block, env)?),
            Expr::If(i) => {
                let mut env2 = env.clone();
                let c = self.cond_x(&i.cond, env, &mut env2)?;
                let t = self.block(&i.then_branch, &env2)?;
                match &i.else_branch {
                    Some((_, e)) => format!("if {} {{ {} }} else {{ {} }}", c, t, self.block_of(e, env)?),
                    None => format!("if {} {{ {} }}", c, t),
                }
            }
            Expr::Match(m) => {
                if m.arms.iter().any(|a| has_str_lit(&a.pat)) {
                    return self.str_match(m, env, false);
                }
                let sc = self.x(&m.expr, env)?;
                let res = self.is_iresult(&m.expr, env);
                let mut v = vec![];
                for a in &m.arms {
                    let mut ae = env.clone();
                    if res {
                        bind_res(&a.pat, &mut ae);
                    } else {
                        bind_pat(&a.pat, &mut ae);
                    }
                    let g = match &a.guard {
                        Some((_, g)) => format!(" if {}", self.x(g, &ae)?),
                        None => String::new(),
                    };
                    v.push(format!("{}{} => {{ {} }}", self.pat(&a.pat, env), g, self.block_of(&a.body, &ae)?));
                }
                format!("match {} {{ {} }}", sc, v.join(", "))
            }
            Expr::Return(r) => match &r.expr {
                Some(e) => format!("return {}", self.x(e, env)?),
                None => "return".into(),
            },
            Expr::Try(t) => format!("{}?", self.x(&t.expr, env)?),
            Expr::Call(c) => self.call_x(c, env)?,
            Expr::MethodCall(m) => self.method_x(m, env)?,
            Expr::Macro(m) => {
                let n = path_str(&m.mac.path);
                if n == "vec" {
                    return self.vec_x(m, env, false);
                }
                if ["unreachable", "panic", "todo", "unimplemented"].contains(&n.as_str()) {
                    return Ok("vx_panic()".into());
                }
                return unsup(format!("{}!", n));
            }
            Expr::Assign(a) => format!("{} = {}", self.x(&a.left, env)?, self.x(&a.right, env)?),
            Expr::AssignOp(a) => format!("{} {} {}", self.x(&a.left, env)?, tokens(&a.op), self.x(&a.right, env)?),
            Expr::Break(b) if b.expr.is_none() && b.label.is_none() => "break".into(),
            Expr::Continue(b) if b.label.is_none() => "continue".into(),
            Expr::Loop(l) if self.weak && l.label.is_none() => {
                let inv = self.loop_inv(e, env);
                format!("loop {} {{ {} }}", inv, self.block(&l.body, env)?)
            }
            Expr::While(l) if self.weak && l.label.is_none() && !matches!(strip(&l.cond), Expr::Let(_)) => {
                let inv = self.loop_inv(e, env);
                let mut e2 = env.clone();
                let c = self.cond_x(&l.cond, env, &mut e2)?;
                format!("while {} {} {{ {} }}", c, inv, self.block(&l.body, &e2)?)
            }
            // while let P = E B  is  loop { match E { P => B, _ => break } }
            Expr::While(l) if self.weak && l.label.is_none() => {
                let inv = self.loop_inv(e, env);
                if let Expr::Let(t) = strip(&l.cond) {
                    let sc = self.x(&t.expr, env)?;
                    let mut e2 = env.clone();
                    if self.is_iresult(&t.expr, env) {
                        bind_res(&t.pat, &mut e2);
                    } else {
                        bind_pat(&t.pat, &mut e2);
                    }
                    let b = self.block(&l.body, &e2)?;
                    format!("loop {} {{ match {} {{ {} => {{ {} }}, _ => {{ break; }} }} }}", inv, sc, self.pat(&t.pat, env), b)
                } else {
                    unreachable!()
                }
            }
            // a part of a text, as the receiver of a method
            Expr::Index(ix) if matches!(strip(&ix.index), Expr::Range(_)) => {
                let r = Expr::Reference(ExprReference { attrs: vec![], and_token: Default::default(), raw: Default::default(), mutability: None, expr: Box::new(e.clone()) });
                self.x(&r, env)?
            }
            Expr::Index(ix) => format!("{}[{}]", self.x(&ix.expr, env)?, self.x(&ix.index, env)?),
            e => return unsup(format!("expression `{}`", clip(&tokens(e)))),
        })
    }
    /// The texts a loop moves along stay rests of the function's text.
    fn loop_inv(&mut self, e: &Expr, env: &Env) -> String {
        use syn::visit::Visit;
        struct L(BTreeSet<String>, BTreeSet<String>);
        impl<'a> Visit<'a> for L {
            fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
                if let Expr::Path(p) = strip(&a.left) {
                    self.0.insert(path_str(&p.path));
                }
                if let Expr::Tuple(t) = strip(&a.left) {
                    for e in &t.elems {
                        if let Expr::Path(p) = strip(e) {
                            self.0.insert(path_str(&p.path));
                        }
                    }
                }
                syn::visit::visit_expr_assign(self, a);
            }
            fn visit_expr_call(&mut self, c: &'a ExprCall) {
                if c.args.len() == 1 {
                    if let Expr::Path(p) = strip(&c.args[0]) {
                        self.1.insert(path_str(&p.path));
                    }
                }
                syn::visit::visit_expr_call(self, c);
            }
        }
        let mut l = L(Default::default(), Default::default());
        l.visit_expr(e);
        let v: Vec<String> = l.0.intersection(&l.1).filter(|n| env.vars.contains_key(*n)).map(|n| format!("c02() ==> sfx(vx_in@, {}@)", n)).collect();
        if v.is_empty() {
            String::new()
        } else {
            format!("invariant {},", v.join(", "))
        }
    }
    fn cond_x(&mut self, c: &Expr, env: &Env, inner: &mut Env) -> R<String> {
        match strip(c) {
            Expr::Let(l) => {
                let s = self.x(&l.expr, env)?;
                if self.is_iresult(&l.expr, env) {
                    bind_res(&l.pat, inner);
                } else {
                    bind_pat(&l.pat, inner);
                }
                Ok(format!("let {} = {}", self.pat(&l.pat, env), s))
            }
            c => self.x(c, env),
        }
    }
    /// a variable that is a text
    fn is_text(&self, e: &Expr, env: &Env) -> bool {
        match strip(e) {
            Expr::Path(p) => matches!(env.vars.get(&path_str(&p.path)), Some(V::Str(_))),
            Expr::Reference(r) => matches!(strip(&r.expr), Expr::Index(ix) if self.strish(&ix.expr, env)),
            _ => false,
        }
    }
    fn strish(&self, e: &Expr, env: &Env) -> bool {
        if lit_str(e).is_some() {
            return true;
        }
        if let Expr::Path(p) = strip(e) {
            return matches!(env.vars.get(&path_str(&p.path)), Some(V::Str(_)));
        }
        false
    }
    fn vec_elems(&self, m: &ExprMacro) -> R<Vec<Expr>> {
        use syn::parse::Parser;
        let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        match p.parse2(m.mac.tokens.clone()) {
            Ok(v) => Ok(v.into_iter().collect()),
            Err(_) => unsup("vec! with a repeat count"),
        }
    }
    fn vec_x(&mut self, m: &ExprMacro, env: &Env, spec: bool) -> R<String> {
        let v = self.vec_elems(m)?;
        let mut o = if spec { "Seq::empty()".to_string() } else { "Vec::new()".to_string() };
        for a in &v {
            o = if spec { format!("{}.push({})", o, self.sp(a, env)?) } else { format!("vec_push({}, {})", o, self.x(a, env)?) };
        }
        Ok(if spec { format!("vec_of({})", o) } else { o })
    }
    fn call_x(&mut self, c: &ExprCall, env: &Env) -> R<String> {
        let args: Vec<&Expr> = c.args.iter().collect();
        if let Expr::Path(p) = strip(&c.func) {
            let s = path_str(&p.path);
            let last = s.rsplit("::").next().unwrap().to_string();
            if let Some(v) = env.vars.get(&s) {
                let v = v.clone();
                let a: R<Vec<String>> = args.iter().map(|a| self.x(a, env)).collect();
                if let V::Parser(_) | V::Pred(_) | V::Fun(..) = v {
                    return Ok(format!("({})({})", s, a?.join(", ")));
                }
                return unsup(format!("call of the variable {}", s));
            }
            if let Some(f) = self.local_fun(env, &s) {
                self.deps.insert(f.name.clone());
                return match f.kind.clone() {
                    Kind::Direct(k) => {
                        let mark = self.lets.len();
                        let (ex, gs, _) = self.helper_args(f, &args, Some(k), env)?;
                        let t = self.comb_text(&f.name, &ex, &gs);
                        let l = self.drain(mark, true);
                        Ok(if l.is_empty() { t } else { format!("({{ {} {} }})", l, t) })
                    }
                    Kind::Comb => unsup("a parser is used as a value"),
                    Kind::Value if f.params.len() == args.len() && f.params.iter().any(|p| matches!(p.ty, PTy::Parser(_) | PTy::Pred | PTy::Fun(..))) => {
                        let mark = self.lets.len();
                        let (ex, gs, _) = self.helper_args(f, &args, None, env)?;
                        let t = self.comb_text(&f.name, &ex, &gs);
                        let l = self.drain(mark, true);
                        Ok(if l.is_empty() { t } else { format!("({{ {} {} }})", l, t) })
                    }
                    _ => {
                        let a: R<Vec<String>> = args.iter().map(|a| self.x(a, env)).collect();
                        Ok(format!("{}({})", f.name, a?.join(", ")))
                    }
                };
            }
            let ty = if s.contains("::") { s.rsplitn(3, "::").nth(1).unwrap().to_string() } else { String::new() };
            let a: R<Vec<String>> = args.iter().map(|a| self.x(a, env)).collect();
            let a = a?;
            if ty == "String" && last == "from" || TO_STRING.contains(&last.as_str()) && ["str", "ToString", "ToOwned"].contains(&ty.as_str()) {
                return Ok(format!("to_owned_string({})", a[0]));
            }
            if ty == "String" && last == "new" {
                return Ok("to_owned_string(\"\")".into());
            }
            if let Some(n) = self.method_fun(&ty, &last, env) {
                self.deps.insert(n.clone());
                return Ok(format!("{}({})", n, a.join(", ")));
            }
            if self.is_ctor(&s, &ty, &last) {
                return Ok(format!("{}({})", self.path(&p.path, env), a.join(", ")));
            }
            if ["Box", "Vec"].contains(&ty.as_str()) && last == "new" {
                return Ok(format!("{}::new({})", ty, a.join(", ")));
            }
            if ty.chars().next().map_or(false, |c| c.is_uppercase()) && last == "new" {
                return Ok(format!("{}({})", self.path(&p.path, env), a.join(", ")));
            }
            if last == "make_error" {
                return Ok(format!("make_error({})", a.join(", ")));
            }
            if last == "drop" || last == "black_box" {
                return Ok(format!("vx_drop({})", a.join(", ")));
            }
            if last == "from_error_kind" {
                return Ok(format!("make_error({})", a.join(", ")));
            }
            return unsup(format!("call of {}", s));
        }
        // a parser applied to a text
        let mark = self.lets.len();
        let (x, _) = self.par(&c.func, env)?;
        let l = self.drain(mark, true);
        let a: R<Vec<String>> = args.iter().map(|a| self.x(a, env)).collect();
        Ok(if l.is_empty() { format!("({})({})", x, a?.join(", ")) } else { format!("({{ {} {} }})({})", l, x, a?.join(", ")) })
    }
    pub fn method_fun(&self, ty: &str, m: &str, env: &Env) -> Option<String> {
        let ty = if ty == "Self" { env.selfty.clone()? } else { ty.to_string() };
        let n = format!("{}__{}", ty, m);
        if self.repo.funs.contains_key(&n) {
            Some(n)
        } else {
            None
        }
    }
    fn is_ctor(&self, s: &str, ty: &str, last: &str) -> bool {
        let up = |x: &str| x.chars().next().map_or(false, |c| c.is_uppercase());
        up(last) && (s == last || up(ty))
    }
    fn method_x(&mut self, m: &ExprMethodCall, env: &Env) -> R<String> {
        let name = m.method.to_string();
        let args: Vec<&Expr> = m.args.iter().collect();
        if name == "next" {
            if let Expr::MethodCall(c) = strip(&m.receiver) {
                if c.method == "chars" {
                    return Ok(format!("str_first({})", self.x(&c.receiver, env)?));
                }
            }
        }
        let r = self.x(&m.receiver, env)?;
        let strish = self.strish(&m.receiver, env);
        if name == "as_ref" && !strish {
            if let Some(n) = self.user_method(m) {
                self.deps.insert(n.clone());
                return Ok(format!("{}({})", n, r));
            }
        }
        Ok(match (name.as_str(), args.len()) {
            ("into", 0) if !strish => format!("vinto({})", r),
            ("to_string" | "to_owned" | "into", 0) => format!("to_owned_string({})", r),
            ("parse", 0) => match &m.turbofish {
                Some(t) => format!("parse_res::<{}>({})", t.args.iter().map(tokens).collect::<String>(), r),
                None => format!("parse_res{}({})", self.parse_ty().map_or(String::new(), |t| format!("::<{}>", t)), r),
            },
            ("parse_to", 0) => format!("parse_opt({})", r),
            ("len", 0) if strish => format!("str_len({})", r),
            ("is_empty", 0) if strish => format!("str_empty({})", r),
            ("eq_ignore_ascii_case", 1) => format!("str_eq_nc({}, {})", r, self.x(args[0], env)?),
            ("get", 1) => match strip(args[0]) {
                Expr::Range(rg) if matches!(rg.limits, RangeLimits::HalfOpen(_)) => match (&rg.from, &rg.to) {
                    (None, Some(t)) => format!("str_get_to({}, {})", r, self.x(t, env)?),
                    (Some(f), None) => format!("str_get_from({}, {})", r, self.x(f, env)?),
                    _ => return unsup("get with this range"),
                },
                _ => return unsup("get"),
            },
            ("find" | "trim_start_matches", 1) => {
                let mark = self.lets.len();
                let f: Expr = match strip_ref(args[0]) {
                    Expr::Lit(l) if matches!(l.lit, Lit::Char(_)) => parse_quote!(|vx_c| vx_c == #l),
                    e => e.clone(),
                };
                let (p, d) = self.pred(&f, env)?;
                let l = self.drain(mark, true);
                let n = if name == "find" { "str_find" } else { "str_trim_start" };
                if self.weak {
                    format!("{}({}, {})", n, r, p)
                } else {
                    format!("{{ {} {}({}, {}, Ghost({})) }}", l, n, r, p, d)
                }
            }
            ("strip_prefix", 1) => {
                let a = self.x(args[0], env)?;
                let ch = matches!(strip(args[0]), Expr::Lit(ExprLit { lit: Lit::Char(_), .. }));
                format!("str_strip_prefix{}({}, {})", if ch { "_char" } else { "" }, r, a)
            }
            ("len_utf8", 0) => format!("ch_bytes({})", r),
            ("clone", 0) if matches!(strip(&m.receiver), Expr::Path(p) if self.dup.contains(&path_str(&p.path))) => format!("dup(&{})", r),
            ("contains", 1) => format!("contains_char({}, {})", r, self.x(strip_ref(args[0]), env)?),
            ("starts_with", 1) => {
                let a = self.x(args[0], env)?;
                let ch = matches!(strip(args[0]), Expr::Lit(ExprLit { lit: Lit::Char(_), .. }));
                let call = format!("str_starts_with{}({}, {})", if ch { "_char" } else { "" }, r, a);
                match strip(args[0]) {
                    // as many bytes as characters
                    Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) if l.value().is_ascii() => {
                        let cases: String = (0..l.value().len()).map(|k| format!("if k == {} {{ }} else ", k)).collect();
                        format!("{{ proof {{ reveal_strlit({a}); assert forall|k: int| 0 <= k < {a}@.len() implies (#[trigger] {a}@[k] as u32) < 0x80 by {{ {cases} {{ }} }} ascii_blen({a}@); }} {call} }}")
                    }
                    _ => call,
                }
            }
            ("is_char_boundary", 1) => format!("str_is_boundary({}, {})", r, self.x(args[0], env)?),
            ("split_at", 1) => format!("str_split_at({}, {})", r, self.x(args[0], env)?),
            ("is_digit", 1) => format!("is_digit_radix({}, {})", r, self.x(args[0], env)?),
            (n, 0) if char_method(n).is_some() => format!("{}({})", char_method(n).unwrap(), r),
            (n, 0) if str_map(n) => format!("{}({})", n, r),
            ("unwrap_or_default", 0) => format!("or_default({})", r),
            ("unwrap_or", 1) => format!("match {} {{ Some(v_) => v_, None => {} }}", r, self.x(args[0], env)?),
            ("map_or", 2) => self.opt_match_x(&r, args[0], args[1], env)?,
            ("map_or_else", 2) => match strip(args[0]) {
                Expr::Closure(c) if c.inputs.is_empty() => self.opt_match_x(&r, &c.body, args[1], env)?,
                _ => return unsup("map_or_else"),
            },
            ("and_then", 1) => {
                let (ok, no) = if self.is_iresult(&m.receiver, env) { ("Ok", "Err(e_) => Err(e_)") } else { ("Some", "None => None") };
                let f = self.inline_closure(args[0], env, false)?;
                format!("match {} {{ {}(p_) => {{ {} }}, {} }}", r, ok, f, no)
            }
            ("or_else", 1) if self.is_iresult(&m.receiver, env) => {
                let f = self.inline_closure(args[0], env, false)?;
                format!("match {} {{ Ok(p_) => Ok(p_), Err(p_) => {{ {} }} }}", r, f)
            }
            ("map", 1) => {
                let (ok, no, okw) = if self.is_iresult(&m.receiver, env) { ("Ok", "Err(e_) => Err(e_)", "Ok") } else { ("Some", "None => None", "Some") };
                let f = self.inline_closure(args[0], env, false)?;
                format!("match {} {{ {}(p_) => {}({{ {} }}), {} }}", r, ok, okw, f, no)
            }
            ("is_some" | "is_none" | "is_ok" | "is_err" | "unwrap" | "as_str" | "clone" | "len" | "is_empty" | "as_ref", 0) => format!("{}.{}()", r, name),
            ("expect", 1) => format!("{}.unwrap()", r),
            ("push", 1) => format!("{}.push({})", r, self.x(args[0], env)?),
            ("write_str", 1) => format!("{}.write_str({})", r, self.x(args[0], env)?),
            (n, k) => {
                // a method of a type of the repository
                let c: Vec<&Fun> = self.repo.funs.values().filter(|f| f.method && f.item.sig.ident == n && f.item.sig.inputs.len() == k + 1).collect();
                if c.len() == 1 {
                    let nm = c[0].name.clone();
                    self.deps.insert(nm.clone());
                    let a: R<Vec<String>> = args.iter().map(|a| self.x(a, env)).collect();
                    let mut v = vec![r];
                    v.extend(a?);
                    return Ok(format!("{}({})", nm, v.join(", ")));
                }
                return unsup(format!("method {}", name));
            }
        })
    }
    fn opt_match_x(&mut self, r: &str, none: &Expr, some: &Expr, env: &Env) -> R<String> {
        let n = self.x(none, env)?;
        let f = self.inline_closure(some, env, false)?;
        Ok(format!("match {} {{ Some(p_) => {{ {} }}, None => {} }}", r, f, n))
    }
    /// the body of a one-argument function applied to `p_`
    fn inline_closure(&mut self, f: &Expr, env: &Env, spec: bool) -> R<String> {
        match strip(f) {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                if crate::desugar::jumps_e(&c.body).ret {
                    return unsup("return in a closure");
                }
                let (pat, _) = split_typed(&c.inputs[0]);
                let mut ce = env.clone();
                bind_pat(&pat, &mut ce);
                let b = if spec { self.sp(&c.body, &ce)? } else { self.block_of(&c.body, &ce)? };
                let pt = self.pat(&pat, env);
                Ok(if matches!(pat, Pat::Wild(_)) { b } else { format!("let {} = p_; {}", pt, b) })
            }
            Expr::Path(p) => {
                let (x, s, _) = self.apply_path(&p.path, &path_str(&p.path), env)?;
                Ok(if spec { s } else { x })
            }
            _ => unsup("function argument"),
        }
    }
    fn is_iresult(&self, e: &Expr, env: &Env) -> bool {
        match strip(e) {
            Expr::Call(c) => match strip(&c.func) {
                Expr::Path(p) => {
                    let s = path_str(&p.path);
                    match env.vars.get(&s) {
                        Some(V::Parser(_)) => true,
                        Some(_) => false,
                        None => match self.resolve(env, &s) {
                            Name::Nom(n) => nom_prim(&n),
                            _ => self.local_fun(env, &s).map_or(false, |f| matches!(f.kind, Kind::Parser | Kind::Direct(_))),
                        },
                    }
                }
                f => self.is_parser(f, env),
            },
            Expr::Path(p) => matches!(env.vars.get(&path_str(&p.path)), Some(V::Res(_))),
            Expr::MethodCall(m) if m.method == "map" || m.method == "and_then" || m.method == "or_else" => self.is_iresult(&m.receiver, env),
            _ => false,
        }
    }
    fn str_match(&mut self, m: &ExprMatch, env: &Env, spec: bool) -> R<String> {
        let tail = std::mem::replace(&mut self.tailpos, false);
        let sc = if spec { self.seq(&m.expr, env)? } else { self.x(&m.expr, env)? };
        let mut out = String::new();
        let mut closed = false;
        for a in &m.arms {
            if a.guard.is_some() {
                return unsup("guard in a match on a text");
            }
            let mut ae = env.clone();
            bind_pat(&a.pat, &mut ae);
            let mut alts = vec![];
            match str_alts(&a.pat) {
                Some(v) => {
                    for l in v {
                        self.lits.insert(l.clone());
                        alts.push(if spec { format!("({}) =~= {}@", sc, rlit(&l)) } else { format!("str_eq({}, {})", sc, rlit(&l)) });
                    }
                    self.tailpos = tail;
                    let b = if spec { self.sp(&a.body, &ae)? } else { self.block_of(&a.body, &ae)? };
                    out.push_str(&format!("if {} {{ {} }} else ", alts.join(" || "), b));
                }
                None => {
                    if let Pat::Ident(_) = a.pat {
                        return unsup("binding in a match on a text");
                    }
                    self.tailpos = tail;
                    let b = if spec { self.sp(&a.body, &ae)? } else { self.block_of(&a.body, &ae)? };
                    out.push_str(&format!("{{ {} }}", b));
                    closed = true;
                    break;
                }
            }
        }
        if !closed {
            return unsup("match on a text without a default");
        }
        Ok(format!("({})", out))
    }

    // --------------------------------------------------------- specifications
    /// the characters of a text-valued expression
    pub fn seq(&mut self, e: &Expr, env: &Env) -> R<String> {
        if self.weak {
            return Ok(String::new());
        }
        if let Some(l) = lit_str(e) {
            self.lits.insert(l.clone());
            return Ok(format!("{}@", rlit(&l)));
        }
        if let Expr::Path(p) = strip(e) {
            let s = path_str(&p.path);
            if let Some(V::Str(q)) = env.vars.get(&s) {
                return Ok(q.clone());
            }
            if let Some((m, c)) = self.repo.const_of(&env.module, &s) {
                return self.seq(&c, &Env::new(&m, env.spec));
            }
        }
        if let Expr::Reference(r) = strip(e) {
            return self.seq(&r.expr, env);
        }
        if let Expr::MethodCall(m) = strip(e) {
            if ["as_ref", "as_str", "clone"].contains(&m.method.to_string().as_str()) && m.args.is_empty() && self.user_method(m).is_none() {
                return self.seq(&m.receiver, env);
            }
        }
        Ok(format!("({})@", self.sp(e, env)?))
    }
    fn user_method(&self, m: &ExprMethodCall) -> Option<String> {
        let c: Vec<&Fun> =
            self.repo.funs.values().filter(|f| f.method && f.item.sig.ident == m.method && f.item.sig.inputs.len() == m.args.len() + 1).collect();
        if c.len() == 1 {
            Some(c[0].name.clone())
        } else {
            None
        }
    }
    pub fn sp(&mut self, e: &Expr, env: &Env) -> R<String> {
        if self.weak {
            return Ok(String::new());
        }
        let tail = std::mem::replace(&mut self.tailpos, false);
        Ok(match e {
            Expr::Return(r) if tail && r.expr.is_some() => {
                self.tailpos = true;
                self.sp(r.expr.as_ref().unwrap(), env)?
            }
            Expr::Lit(l) => {
                if let Lit::Str(s) = &l.lit {
                    self.lits.insert(s.value());
                    rlit(&s.value())
                } else {
                    tokens(l)
                }
            }
            Expr::Path(p) => {
                let s = path_str(&p.path);
                if let Some(V::Str(q)) = env.vars.get(&s) {
                    if env.spec && !q.ends_with('@') {
                        return Ok(format!("str_of({})", q));
                    }
                }
                if env.vars.contains_key(&s) {
                    return Ok(s);
                }
                if let Some((m, c)) = self.repo.const_of(&env.module, &s) {
                    return self.sp(&c, &Env::new(&m, env.spec));
                }
                self.path(&p.path, env)
            }
            Expr::Paren(p) => {
                self.tailpos = tail;
                format!("({})", self.sp(&p.expr, env)?)
            }
            Expr::Group(p) => {
                self.tailpos = tail;
                self.sp(&p.expr, env)?
            }
            Expr::Tuple(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|a| self.sp(a, env)).collect();
                format!("({})", v?.join(", "))
            }
            Expr::Struct(s) => {
                let mut v = vec![];
                for f in &s.fields {
                    v.push(format!("{}: {}", tokens(&f.member), self.sp(&f.expr, env)?));
                }
                if s.rest.is_some() {
                    return unsup("struct update syntax");
                }
                format!("{} {{ {} }}", self.path(&s.path, env), v.join(", "))
            }
            Expr::Field(f) => format!("{}.{}", self.sp(&f.base, env)?, tokens(&f.member)),
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => format!("*({})", self.sp(&u.expr, env)?),
                _ => format!("{} ({})", tokens(&u.op), self.sp(&u.expr, env)?),
            },
            Expr::Binary(b) => {
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (self.strish(&b.left, env) || self.strish(&b.right, env)) {
                    let (l, r) = (self.seq(&b.left, env)?, self.seq(&b.right, env)?);
                    return Ok(format!("(({}) {} ({}))", l, if matches!(b.op, BinOp::Ne(_)) { "!=" } else { "==" }, r));
                }
                let (l, r) = (self.sp(&b.left, env)?, self.sp(&b.right, env)?);
                format!("(({}) {} ({}))", l, tokens(&b.op), r)
            }
            Expr::Cast(c) => format!("(({}) as {})", self.sp(&c.expr, env)?, self.repo.ty(&c.ty)),
            Expr::Reference(r) => format!("&{}", self.sp(&r.expr, env)?),
            Expr::Block(b) if b.label.is_none() => {
                self.tailpos = tail;
                self.sp_block(&b.block, env)?
            }
            Expr::If(i) => {
                let mut inner = env.clone();
                let c = match strip(&i.cond) {
                    Expr::Let(l) => {
                        let s = self.sp(&l.expr, env)?;
                        bind_pat(&l.pat, &mut inner);
                        let p = self.pat(&l.pat, env);
                        self.tailpos = tail;
                        let t = self.sp_block(&i.then_branch, &inner)?;
                        let f = match &i.else_branch {
                            Some((_, e)) => {
                        self.tailpos = tail;
                        self.sp(e, env)?
                    }
                            None => return unsup("if let without else in a value"),
                        };
                        return Ok(format!("(match {} {{ {} => {{ {} }}, _ => {{ {} }} }})", s, p, t, f));
                    }
                    c => self.sp(c, env)?,
                };
                self.tailpos = tail;
                        let t = self.sp_block(&i.then_branch, env)?;
                let f = match &i.else_branch {
                    Some((_, e)) => {
                        self.tailpos = tail;
                        self.sp(e, env)?
                    }
                    None => "()".into(),
                };
                format!("(if {} {{ {} }} else {{ {} }})", c, t, f)
            }
            Expr::Match(m) => {
                if m.arms.iter().any(|a| has_str_lit(&a.pat)) {
                    self.tailpos = tail;
                    return self.str_match(m, env, true);
                }
                let sc = self.sp(&m.expr, env)?;
                let mut v = vec![];
                for a in &m.arms {
                    let mut ae = env.clone();
                    bind_pat(&a.pat, &mut ae);
                    let g = match &a.guard {
                        Some((_, g)) => format!(" if {}", self.sp(g, &ae)?),
                        None => String::new(),
                    };
                    self.tailpos = tail;
                    let b = self.sp(&a.body, &ae)?;
                    v.push(format!("{}{} => {{ {} }}", self.pat(&a.pat, env), g, b));
                }
                format!("(match {} {{ {} }})", sc, v.join(", "))
            }
            Expr::Call(c) => self.call_sp(c, env)?,
            Expr::MethodCall(m) => self.method_sp(m, env)?,
            Expr::Macro(m) => {
                let n = path_str(&m.mac.path);
                if n == "vec" {
                    return self.vec_x(m, env, true);
                }
                if ["unreachable", "panic", "todo", "unimplemented"].contains(&n.as_str()) {
                    return Ok("arbitrary()".into());
                }
                return unsup(format!("{}! in a value", n));
            }
            e => return unsup(format!("value `{}`", clip(&tokens(e)))),
        })
    }
    fn sp_block(&mut self, b: &Block, env: &Env) -> R<String> {
        let tail = std::mem::replace(&mut self.tailpos, false);
        let r = self.sp_stmts(&b.stmts, env, tail);
        self.tailpos = false;
        r
    }
    fn sp_stmts(&mut self, stmts: &[Stmt], env: &Env, tail: bool) -> R<String> {
        let mut env = env.clone();
        let mut out = String::from("{ ");
        for (k, s) in stmts.iter().enumerate() {
            if let Some(v) = straighten(&stmts[k..])? {
                if !tail && v.iter().any(|s| has_ret(s)) {
                    return unsup("return in a value");
                }
                out.push_str(&self.sp_stmts(&v, &env, tail)?);
                out.push_str(" }");
                return Ok(out);
            }
            match s {
                Stmt::Local(l) => {
                    let (pat, ty) = split_typed(&l.pat);
                    let e = match &l.init {
                        Some((_, e)) => e,
                        None => return unsup("let without a value"),
                    };
                    let v = self.sp(e, &env)?;
                    let t = ty.map_or(String::new(), |t| format!(": {}", self.repo.ty(&t)));
                    if !matches!(pat, Pat::Wild(_)) {
                        let pt = self.pat(&pat, &env);
                        out.push_str(&format!("let {}{} = {}; ", no_mut(&pat, &pt), t, v));
                    }
                    bind_pat(&pat, &mut env);
                    if let (Pat::Ident(i), Some(_)) = (&pat, lit_str(e)) {
                        env.bind(&i.ident.to_string(), V::Str(format!("{}@", i.ident)));
                    }
                }
                Stmt::Expr(e) => {
                    self.tailpos = tail;
                    let v = self.sp(e, &env)?;
                    self.tailpos = false;
                    out.push_str(&v);
                }
                Stmt::Semi(e @ Expr::Return(_), _) if tail => {
                    self.tailpos = true;
                    let v = self.sp(e, &env)?;
                    self.tailpos = false;
                    out.push_str(&v);
                    break;
                }
                Stmt::Semi(e, _) => {
                    if !is_noop(e) {
                        return unsup(format!("statement in a value: {}", clip(&tokens(e))));
                    }
                }
                _ => return unsup("item in a value"),
            }
        }
        out.push_str(" }");
        Ok(out)
    }
    fn call_sp(&mut self, c: &ExprCall, env: &Env) -> R<String> {
        let args: Vec<&Expr> = c.args.iter().collect();
        let p = match strip(&c.func) {
            Expr::Path(p) => p,
            _ => return unsup("computed call in a value"),
        };
        let s = path_str(&p.path);
        if let Some(V::Pred(d)) = env.vars.get(&s) {
            let d = d.clone();
            return Ok(format!("{}({})", d, self.sp(args[0], env)?));
        }
        if let Some(V::Fun(d, _)) = env.vars.get(&s) {
            let d = d.clone();
            let v: R<Vec<String>> = args.iter().map(|a| self.sp(a, env)).collect();
            return Ok(format!("{}({})", d, v?.join(", ")));
        }
        if env.vars.contains_key(&s) {
            return unsup(format!("call of {} in a value", s));
        }
        let last = s.rsplit("::").next().unwrap().to_string();
        let ty = if s.contains("::") { s.rsplitn(3, "::").nth(1).unwrap().to_string() } else { String::new() };
        let f = match self.local_fun(env, &s) {
            Some(f) => Some(f.clone()),
            None => self.method_fun(&ty, &last, env).map(|n| self.repo.funs[&n].clone()),
        };
        if let Some(f) = f {
            if !matches!(f.kind, Kind::Pred | Kind::Value) {
                return unsup(format!("parser {} called in a value", f.name));
            }
            self.deps.insert(f.name.clone());
            let mut v = vec![];
            if f.kind == Kind::Value && f.params.len() == args.len() && f.params.iter().any(|p| matches!(p.ty, PTy::Parser(_) | PTy::Pred | PTy::Fun(..))) {
                let mark = self.lets.len();
                let (_, _, da) = self.helper_args(&f, &args, None, env)?;
                let l = self.drain(mark, false);
                return Ok(format!("({{ {} {}_s({}) }})", l, f.name, da.join(", ")));
            }
            for (p, a) in f.params.iter().zip(&args) {
                v.push(if p.ty == PTy::Str { self.seq(a, env)? } else { self.sp(a, env)? });
            }
            return Ok(format!("{}_s({})", f.name, v.join(", ")));
        }
        if ty == "String" && last == "from" || TO_STRING.contains(&last.as_str()) && ["str", "ToString", "ToOwned"].contains(&ty.as_str()) {
            return Ok(format!("string_of({})", self.seq(args[0], env)?));
        }
        if ty == "String" && last == "new" {
            return Ok("string_of(\"\"@)".into());
        }
        if ty == "Vec" && last == "new" {
            return Ok("vec_of(Seq::empty())".into());
        }
        if s == "vx_pushed" {
            return Ok(format!("vec_of(({})@.push({}))", self.sp(args[0], env)?, self.sp(args[1], env)?));
        }
        if last == "make_error" || last == "from_error_kind" {
            return Ok(format!("({}, {})", self.sp(args[0], env)?, self.sp(args[1], env)?));
        }
        if self.is_ctor(&s, &ty, &last) || (ty == "Box" && last == "new") {
            let v: R<Vec<String>> = args.iter().map(|a| self.sp(a, env)).collect();
            return Ok(format!("{}({})", if ty == "Box" { "Box::new".to_string() } else { self.path(&p.path, env) }, v?.join(", ")));
        }
        if last == "new" && ty.chars().next().map_or(false, |c| c.is_uppercase()) {
            let v: R<Vec<String>> = args.iter().map(|a| self.sp(a, env)).collect();
            return Ok(format!("{}__new_s({})", ty, v?.join(", ")));
        }
        unsup(format!("call of {} in a value", s))
    }
    /// The number a function returns: what a bare `parse()` in it reads.
    fn parse_ty(&self) -> Option<String> {
        self.numty.clone().filter(|t| ["u64", "i64", "f64"].contains(&t.as_str()))
    }
    fn method_sp(&mut self, m: &ExprMethodCall, env: &Env) -> R<String> {
        let name = m.method.to_string();
        let args: Vec<&Expr> = m.args.iter().collect();
        if name == "next" {
            if let Expr::MethodCall(c) = strip(&m.receiver) {
                if c.method == "chars" {
                    return Ok(format!("first_s({})", self.seq(&c.receiver, env)?));
                }
            }
        }
        let strish = self.strish(&m.receiver, env);
        Ok(match (name.as_str(), args.len()) {
            ("into", 0) if !self.strish(&m.receiver, env) => format!("({}).into_s()", self.sp(&m.receiver, env)?),
            ("to_string" | "to_owned" | "into", 0) => format!("string_of({})", self.seq(&m.receiver, env)?),
            ("parse", 0) => {
                let t = m.turbofish.as_ref().map_or(self.parse_ty().unwrap_or("_".to_string()), |t| t.args.iter().map(tokens).collect::<String>());
                format!("opt_res(<{} as ParseT>::parse_s({}))", t, self.seq(&m.receiver, env)?)
            }
            ("parse_to", 0) => format!("ParseT::parse_s({})", self.seq(&m.receiver, env)?),
            ("len", 0) if strish => format!("blen({})", self.seq(&m.receiver, env)?),
            ("is_empty", 0) if strish => format!("({}).len() == 0", self.seq(&m.receiver, env)?),
            ("eq_ignore_ascii_case", 1) => format!("eq_nc({}, {})", self.seq(&m.receiver, env)?, self.seq(args[0], env)?),
            ("contains", 1) => format!("contains_char_s({}, {})", self.seq(&m.receiver, env)?, self.sp(strip_ref(args[0]), env)?),
            ("starts_with", 1) => {
                if let Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) = strip(args[0]) {
                    return Ok(format!("(first_s({}) == Some({}))", self.seq(&m.receiver, env)?, tokens(c)));
                }
                format!("tagm({}, {})", self.seq(args[0], env)?, self.seq(&m.receiver, env)?)
            }
            ("strip_prefix", 1) => {
                let s = self.seq(&m.receiver, env)?;
                if let Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) = strip(args[0]) {
                    return Ok(format!("(if first_s({}) == Some({}) {{ Some(str_of(({}).skip(1))) }} else {{ None }})", s, tokens(c), s));
                }
                let k = self.seq(args[0], env)?;
                format!("(if tagm({}, {}) {{ Some(str_of(({}).skip(({}).len() as int))) }} else {{ None }})", k, s, s, k)
            }
            ("trim_start_matches", 1) => {
                let mark = self.lets.len();
                let (_, d) = self.pred(args[0], env)?;
                let l = self.drain(mark, false);
                let s = self.seq(&m.receiver, env)?;
                format!("({{ {} str_of(({}).skip(span({}, {}) as int)) }})", l, s, d, s)
            }
            ("len_utf8", 0) => format!("clen({})", self.sp(&m.receiver, env)?),
            ("is_digit", 1) => format!("is_digit_radix_s({}, {})", self.sp(&m.receiver, env)?, self.sp(args[0], env)?),
            (n, 0) if char_method(n).is_some() => format!("{}_s({})", char_method(n).unwrap(), self.sp(&m.receiver, env)?),
            (n, 0) if str_map(n) => format!("string_of({}_s({}))", n, self.seq(&m.receiver, env)?),
            ("unwrap_or_default", 0) => format!("or_default_s({})", self.sp(&m.receiver, env)?),
            ("unwrap_or", 1) => format!("(match {} {{ Some(v_) => v_, None => {} }})", self.sp(&m.receiver, env)?, self.sp(args[0], env)?),
            ("map_or", 2) => {
                let (r, n, f) = (self.sp(&m.receiver, env)?, self.sp(args[0], env)?, self.inline_closure(args[1], env, true)?);
                format!("(match {} {{ Some(p_) => {{ {} }}, None => {} }})", r, f, n)
            }
            ("map_or_else", 2) => {
                let n = match strip(args[0]) {
                    Expr::Closure(c) if c.inputs.is_empty() => self.sp(&c.body, env)?,
                    _ => return unsup("map_or_else"),
                };
                let (r, f) = (self.sp(&m.receiver, env)?, self.inline_closure(args[1], env, true)?);
                format!("(match {} {{ Some(p_) => {{ {} }}, None => {} }})", r, f, n)
            }
            ("and_then", 1) => {
                let (r, f) = (self.sp(&m.receiver, env)?, self.inline_closure(args[0], env, true)?);
                format!("(match {} {{ Some(p_) => {{ {} }}, None => None }})", r, f)
            }
            ("map", 1) => {
                let (r, f) = (self.sp(&m.receiver, env)?, self.inline_closure(args[0], env, true)?);
                format!("(match {} {{ Some(p_) => Some({{ {} }}), None => None }})", r, f)
            }
            ("is_some", 0) => format!("({} is Some)", self.sp(&m.receiver, env)?),
            ("is_none", 0) => format!("({} is None)", self.sp(&m.receiver, env)?),
            ("clone", 0) => self.sp(&m.receiver, env)?,
            ("as_str", 0) => format!("str_of({})", self.seq(&m.receiver, env)?),
            _ => match self.user_method(m) {
                Some(n) => {
                    self.deps.insert(n.clone());
                    let mut v = vec![self.sp(&m.receiver, env)?];
                    for a in args {
                        v.push(self.sp(a, env)?);
                    }
                    format!("{}_s({})", n, v.join(", "))
                }
                None => return unsup(format!("method {} in a value", name)),
            },
        })
    }

    /// denotation of a block whose tail is a parser
    pub fn comb_den(&mut self, stmts: &[Stmt], env: &Env) -> R<String> {
        match stmts.first() {
            Some(Stmt::Expr(e)) => {
                let mark = self.lets.len();
                let (_, d) = self.par(e, env)?;
                let l = self.drain(mark, false);
                Ok(format!("{{ {} {} }}", l, d))
            }
            Some(Stmt::Semi(e, _)) if is_noop(e) => self.comb_den(&stmts[1..], env),
            Some(Stmt::Item(Item::Use(u))) => {
                let mut e2 = env.clone();
                add_local_use(&u.tree, &mut e2);
                self.comb_den(&stmts[1..], &e2)
            }
            Some(Stmt::Local(l)) => {
                let (pat, _) = split_typed(&l.pat);
                let init = match &l.init {
                    Some((_, e)) => strip(e),
                    None => return unsup("let without a value"),
                };
                let mut e2 = env.clone();
                if let Pat::Ident(i) = &pat {
                    let n = i.ident.to_string();
                    if self.is_parser(init, env) {
                        let mark = self.lets.len();
                        let (_, d) = self.par(init, env)?;
                        let ls = self.drain(mark, false);
                        let dn = format!("d_{}", n);
                        e2.bind(&n, V::Parser(dn.clone()));
                        let rest = self.comb_den(&stmts[1..], &e2)?;
                        return Ok(format!("{{ {} let {} = {}; {} }}", ls, dn, d, rest));
                    }
                    if self.strish(init, env) {
                        let q = self.seq(init, env)?;
                        e2.bind(&n, V::Str(n.clone()));
                        let rest = self.comb_den(&stmts[1..], &e2)?;
                        return Ok(format!("{{ let {} = {}; {} }}", n, q, rest));
                    }
                }
                if matches!(pat, Pat::Wild(_)) && is_noop(init) {
                    return self.comb_den(&stmts[1..], env);
                }
                let v = self.sp(init, env)?;
                bind_pat(&pat, &mut e2);
                let rest = self.comb_den(&stmts[1..], &e2)?;
                let pt = self.pat(&pat, env);
                Ok(format!("{{ let {} = {}; {} }}", no_mut(&pat, &pt), v, rest))
            }
            _ => unsup("statement before a parser"),
        }
    }

    // ------------------------------------------- denotation of direct-style code
    /// PR-valued translation of an expression of type IResult.
    pub fn den(&mut self, e: &Expr, env: &Env) -> R<String> {
        match strip(e) {
            Expr::Block(b) if b.label.is_none() => self.den_block(&b.block.stmts, env),
            Expr::Return(r) if r.expr.is_some() => self.den(r.expr.as_ref().unwrap(), env),
            Expr::Path(p) => match env.vars.get(&path_str(&p.path)) {
                Some(V::Res(d)) => Ok(d.clone()),
                _ => unsup("variable as a result"),
            },
            Expr::If(i) => {
                if let Expr::Let(l) = strip(&i.cond) {
                    let no = match &i.else_branch {
                        Some((_, e)) => self.den(e, env)?,
                        None => return unsup("if let without else"),
                    };
                    if self.is_iresult(&l.expr, env) {
                        let sc = self.den(&l.expr, env)?;
                        let (p, ie) = self.pr_pat(&l.pat, env)?;
                        let t = self.den_block(&i.then_branch.stmts, &ie)?;
                        return Ok(format!("(match {} {{ {} => {{ {} }}, _ => {{ {} }} }})", sc, p, t, no));
                    }
                    let sc = self.sp(&l.expr, env)?;
                    let mut ie = env.clone();
                    bind_pat(&l.pat, &mut ie);
                    let t = self.den_block(&i.then_branch.stmts, &ie)?;
                    return Ok(format!("(match {} {{ {} => {{ {} }}, _ => {{ {} }} }})", sc, self.pat(&l.pat, env), t, no));
                }
                let c = self.sp(&i.cond, env)?;
                let t = self.den_block(&i.then_branch.stmts, env)?;
                let f = match &i.else_branch {
                    Some((_, e)) => self.den(e, env)?,
                    None => return unsup("if without else"),
                };
                Ok(format!("(if {} {{ {} }} else {{ {} }})", c, t, f))
            }
            Expr::Match(m) => {
                if self.is_iresult(&m.expr, env) {
                    let sc = self.den(&m.expr, env)?;
                    let mut oks = vec![];
                    let mut errs = vec![];
                    for a in &m.arms {
                        let (p, ae) = self.pr_pat(&a.pat, env)?;
                        let g = match &a.guard {
                            Some((_, g)) => format!(" if {}", self.sp(g, &ae)?),
                            None => String::new(),
                        };
                        let b = self.den(&a.body, &ae)?;
                        let t = format!("{}{} => {{ {} }}", p, g, b);
                        if p.starts_with("PR::Ok") {
                            oks.push(t)
                        } else {
                            errs.push(t)
                        }
                    }
                    oks.extend(errs);
                    return Ok(format!("(match {} {{ {} }})", sc, oks.join(", ")));
                }
                if m.arms.iter().any(|a| has_str_lit(&a.pat)) {
                    return unsup("match on a text in a parser");
                }
                let sc = self.sp(&m.expr, env)?;
                let mut v = vec![];
                for a in &m.arms {
                    let mut ae = env.clone();
                    bind_pat(&a.pat, &mut ae);
                    let g = match &a.guard {
                        Some((_, g)) => format!(" if {}", self.sp(g, &ae)?),
                        None => String::new(),
                    };
                    v.push(format!("{}{} => {{ {} }}", self.pat(&a.pat, env), g, self.den(&a.body, &ae)?));
                }
                Ok(format!("(match {} {{ {} }})", sc, v.join(", ")))
            }
            Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 && self.is_iresult(&m.receiver, env) => {
                let r = self.den(&m.receiver, env)?;
                if let Expr::Closure(c) = strip(&m.args[0]) {
                    let (pat, _) = split_typed(&c.inputs[0]);
                    if let Pat::Tuple(t) = &pat {
                        if t.elems.len() == 2 {
                            let (p, ae) = self.pos_pats(&t.elems[0], &t.elems[1], env)?;
                            if let Expr::Tuple(o) = strip(&c.body) {
                                if o.elems.len() == 2 {
                                    let a = self.seq(&o.elems[0], &ae)?;
                                    let b = self.sp(&o.elems[1], &ae)?;
                                    return Ok(format!("(match {} {{ {} => PR::Ok({}, {}), e_ => fail(e_) }})", r, p, a, b));
                                }
                            }
                        }
                    }
                }
                unsup("map on a result")
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = strip(&c.func) {
                    let s = path_str(&p.path);
                    let a = c.args.iter().collect::<Vec<_>>();
                    if s == "Ok" {
                        if let Expr::Tuple(t) = strip(a[0]) {
                            if t.elems.len() == 2 {
                                let i = self.seq(&t.elems[0], env)?;
                                let v = self.sp(&t.elems[1], env)?;
                                return Ok(format!("PR::Ok({}, {})", i, v));
                            }
                        }
                        return unsup("Ok of something that is not a pair");
                    }
                    if s == "Err" {
                        match strip(a[0]) {
                            Expr::Path(p) => {
                                if let Some(V::ErrV(d)) = env.vars.get(&path_str(&p.path)) {
                                    return Ok(d.clone());
                                }
                            }
                            Expr::Call(k) => {
                                if let Expr::Path(p) = strip(&k.func) {
                                    let q = self.path(&p.path, env);
                                    return match q.as_str() {
                                        "Err::Error" => Ok("PR::Error".into()),
                                        "Err::Failure" => Ok("PR::Failure".into()),
                                        "Err::Incomplete" => Ok("PR::Incomplete".into()),
                                        _ => unsup(format!("error {}", q)),
                                    };
                                }
                            }
                            _ => {}
                        }
                        return unsup("error value");
                    }
                    if let Some(f) = self.local_fun(env, &s).cloned() {
                        if env.vars.get(&s).is_none() {
                            if let Kind::Direct(k) = f.kind {
                                let mark = self.lets.len();
                                let (_, _, da) = self.helper_args(&f, &a, Some(k), env)?;
                                self.deps.insert(f.name.clone());
                                let l = self.drain(mark, false);
                                let i = self.seq(a[k], env)?;
                                return Ok(format!("({{ {} {}_s({})({}) }})", l, f.name, da.join(", "), i));
                            }
                        }
                    }
                }
                if c.args.len() == 1 {
                    let mark = self.lets.len();
                    let (_, d) = self.par(&c.func, env)?;
                    let l = self.drain(mark, false);
                    let i = self.seq(&c.args[0], env)?;
                    return Ok(format!("({{ {} {}({}) }})", l, d, i));
                }
                unsup("call as a result")
            }
            Expr::Macro(m) if ["panic", "unreachable", "todo", "unimplemented"].contains(&path_str(&m.mac.path).as_str()) => Ok("arbitrary()".into()),
            Expr::Macro(_) => unsup("macro as a result"),
            Expr::MethodCall(m) if m.method == "and_then" && m.args.len() == 1 && self.is_iresult(&m.receiver, env) => {
                let r = self.den(&m.receiver, env)?;
                if let Expr::Closure(c) = strip(&m.args[0]) {
                    let (pat, _) = split_typed(&c.inputs[0]);
                    if let Pat::Tuple(t) = &pat {
                        if t.elems.len() == 2 {
                            let (p, ae) = self.pos_pats(&t.elems[0], &t.elems[1], env)?;
                            let b = self.den(&c.body, &ae)?;
                            return Ok(format!("(match {} {{ {} => {{ {} }}, e_ => fail(e_) }})", r, p, b));
                        }
                    }
                }
                unsup("and_then on a result")
            }
            Expr::MethodCall(m) if m.method == "or_else" && m.args.len() == 1 && self.is_iresult(&m.receiver, env) => {
                let r = self.den(&m.receiver, env)?;
                if let Expr::Closure(c) = strip(&m.args[0]) {
                    if c.inputs.len() == 1 {
                        let (pat, _) = split_typed(&c.inputs[0]);
                        let v = self.fresh("e_");
                        let mut e2 = env.clone();
                        match &pat {
                            Pat::Ident(i) => e2.bind(&i.ident.to_string(), V::ErrV(format!("fail({})", v))),
                            Pat::Wild(_) => {}
                            _ => return unsup("or_else on a result"),
                        }
                        let b = self.den(&c.body, &e2)?;
                        return Ok(format!("(match {} {{ PR::Ok(a_, b_) => PR::Ok(a_, b_), {} => {{ {} }} }})", r, v, b));
                    }
                }
                unsup("or_else on a result")
            }
            e => unsup(format!("result `{}`", clip(&tokens(e)))),
        }
    }
    fn den_block(&mut self, stmts: &[Stmt], env: &Env) -> R<String> {
        if stmts.is_empty() {
            return unsup("empty block as a result");
        }
        if let Some(s) = straighten(stmts)? {
            return self.den_block(&s, env);
        }
        match &stmts[0] {
            Stmt::Expr(e) => self.den(e, env),
            Stmt::Semi(e, _) => match strip(e) {
                Expr::Return(_) => self.den(e, env),
                e if is_noop(e) => self.den_block(&stmts[1..], env),
                e => unsup(format!("statement `{}`", clip(&tokens(e)))),
            },
            Stmt::Local(l) => {
                let (pat, _) = split_typed(&l.pat);
                let init = match &l.init {
                    Some((_, e)) => strip(e),
                    None => return unsup("let without a value"),
                };
                let mut e2 = env.clone();
                if let Expr::Try(t) = init {
                    let r = self.den(&t.expr, env)?;
                    if let Pat::Tuple(tp) = &pat {
                        if tp.elems.len() == 2 {
                            let (p, ie) = self.pos_pats(&tp.elems[0], &tp.elems[1], env)?;
                            let rest = self.den_block(&stmts[1..], &ie)?;
                            return Ok(format!("(match {} {{ {} => {{ {} }}, e_ => fail(e_) }})", r, p, rest));
                        }
                    }
                    if let Pat::Ident(id) = &pat {
                        let n = id.ident.to_string();
                        bind_pat(&pat, &mut e2);
                        let rest = self.den_block(&stmts[1..], &e2)?;
                        return Ok(format!("(match {} {{ PR::Ok(i_, v_) => {{ let {} = (str_of(i_), v_); {} }}, e_ => fail(e_) }})", r, n, rest));
                    }
                    return unsup("? not bound to a pair");
                }
                if let Pat::Ident(i) = &pat {
                    let n = i.ident.to_string();
                    if self.is_iresult(init, env) {
                        let r = self.den(init, env)?;
                        e2.bind(&n, V::Res(n.clone()));
                        let rest = self.den_block(&stmts[1..], &e2)?;
                        return Ok(format!("{{ let {} = {}; {} }}", n, r, rest));
                    }
                    if self.is_parser(init, env) {
                        let mark = self.lets.len();
                        let (_, d) = self.par(init, env)?;
                        let ls = self.drain(mark, false);
                        let dn = format!("d_{}", n);
                        e2.bind(&n, V::Parser(dn.clone()));
                        let rest = self.den_block(&stmts[1..], &e2)?;
                        return Ok(format!("{{ {} let {} = {}; {} }}", ls, dn, d, rest));
                    }
                    if self.strish(init, env) {
                        let q = self.seq(init, env)?;
                        e2.bind(&n, V::Str(n.clone()));
                        let rest = self.den_block(&stmts[1..], &e2)?;
                        return Ok(format!("{{ let {} = {}; {} }}", n, q, rest));
                    }
                }
                if matches!(pat, Pat::Wild(_)) && is_noop(init) {
                    return self.den_block(&stmts[1..], env);
                }
                let v = self.sp(init, env)?;
                bind_pat(&pat, &mut e2);
                let rest = self.den_block(&stmts[1..], &e2)?;
                if matches!(pat, Pat::Wild(_)) {
                    return Ok(rest);
                }
                let pt = self.pat(&pat, env);
                Ok(format!("{{ let {} = {}; {} }}", no_mut(&pat, &pt), v, rest))
            }
            Stmt::Item(Item::Use(u)) => {
                let mut e2 = env.clone();
                add_local_use(&u.tree, &mut e2);
                self.den_block(&stmts[1..], &e2)
            }
            Stmt::Item(_) => unsup("item inside a function"),
        }
    }
    fn pos_pats(&mut self, i: &Pat, v: &Pat, env: &Env) -> R<(String, Env)> {
        let mut e2 = env.clone();
        let ip = match i {
            Pat::Ident(p) => {
                let n = p.ident.to_string();
                bind_pat(v, &mut e2);
                e2.bind(&n, V::Str(n.clone()));
                n
            }
            Pat::Wild(_) => {
                bind_pat(v, &mut e2);
                "_".into()
            }
            _ => return unsup("pattern for the rest of the input"),
        };
        let vt = self.pat(v, env);
        Ok((format!("PR::Ok({}, {})", ip, no_mut(v, &vt)), e2))
    }
    fn pr_pat(&mut self, p: &Pat, env: &Env) -> R<(String, Env)> {
        match p {
            Pat::TupleStruct(t) => {
                let n = path_str(&t.path);
                let inner: Vec<&Pat> = t.pat.elems.iter().collect();
                if n == "Ok" {
                    if let Pat::Tuple(tp) = inner[0] {
                        if tp.elems.len() == 2 {
                            return self.pos_pats(&tp.elems[0], &tp.elems[1], env);
                        }
                    }
                    return unsup("Ok pattern");
                }
                if n == "Err" {
                    return match inner[0] {
                        Pat::Ident(i) => {
                            let v = self.fresh("e_");
                            let mut e2 = env.clone();
                            e2.bind(&i.ident.to_string(), V::ErrV(format!("fail({})", v)));
                            Ok((v, e2))
                        }
                        Pat::Wild(_) => Ok(("_".into(), env.clone())),
                        Pat::TupleStruct(k) => {
                            let q = self.path(&k.path, env);
                            let v = match q.as_str() {
                                "Err::Error" => "PR::Error",
                                "Err::Failure" => "PR::Failure",
                                "Err::Incomplete" => "PR::Incomplete",
                                _ => return unsup("Err pattern"),
                            };
                            Ok((v.into(), env.clone()))
                        }
                        _ => unsup("Err pattern"),
                    };
                }
                unsup("result pattern")
            }
            Pat::Wild(_) => Ok(("_".into(), env.clone())),
            Pat::Ident(i) => {
                let mut e2 = env.clone();
                let n = i.ident.to_string();
                e2.bind(&n, V::Res(format!("fail({})", n)));
                Ok((n, e2))
            }
            _ => unsup("result pattern"),
        }
    }
}

/// The first statement, when it is an `if` or `match` that can return or
/// assigns something, or an assignment, rewritten so that what follows it is in
/// its branches and assignments are new bindings.
fn straighten(stmts: &[Stmt]) -> R<Option<Vec<Stmt>>> {
    let (first, rest) = (&stmts[0], &stmts[1..]);
    let e = match first {
        Stmt::Semi(e, _) => e,
        Stmt::Expr(e) if !rest.is_empty() => e,
        _ => return Ok(None),
    };
    let with = |b: &Block| -> R<Block> {
        let mut b = b.clone();
        if ends_in_return(&b) || ends_in_panic(&b) {
            return Ok(b);
        }
        let bound: Vec<String> = b.stmts.iter().flat_map(|s| if let Stmt::Local(l) = s { let mut e = Env::new("", true); bind_pat(&l.pat, &mut e); e.vars.into_keys().collect() } else { vec![] }).collect();
        let text: String = rest.iter().map(tokens).collect::<Vec<_>>().join(" ");
        if text.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| bound.iter().any(|b| b == w)) {
            return unsup("a name bound in a branch is used after it");
        }
        if let Some(Stmt::Expr(e)) = b.stmts.last().cloned() {
            let n = b.stmts.len() - 1;
            b.stmts[n] = Stmt::Semi(e, Default::default());
        }
        b.stmts.extend(rest.iter().cloned());
        Ok(b)
    };
    let j = crate::desugar::jumps_e(e);
    match strip(e) {
        Expr::Return(_) => Ok(None),
        Expr::If(i) if (j.ret || j.assign) && !rest.is_empty() => {
            let mut i = i.clone();
            i.then_branch = with(&i.then_branch)?;
            let els = match &i.else_branch {
                Some((_, e)) => match strip(e) {
                    Expr::Block(b) => with(&b.block)?,
                    e => with(&parse_quote!({ #e }))?,
                },
                None => with(&parse_quote!({}))?,
            };
            i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: els }))));
            Ok(Some(vec![Stmt::Expr(Expr::If(i))]))
        }
        Expr::Match(m) if (j.ret || j.assign) && !rest.is_empty() => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                let mut names = Env::new("", true);
                bind_pat(&a.pat, &mut names);
                let b = match strip(&a.body) {
                    Expr::Block(b) => b.block.clone(),
                    e => parse_quote!({ #e }),
                };
                if !ends_in_return(&b) {
                    let text: String = rest.iter().map(tokens).collect::<Vec<_>>().join(" ");
                    if text.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| names.vars.contains_key(w)) {
                        return unsup("a name bound in a branch is used after it");
                    }
                }
                let b = with(&b)?;
                a.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
                a.comma = Some(Default::default());
            }
            Ok(Some(vec![Stmt::Expr(Expr::Match(m))]))
        }
        Expr::Block(b) if (j.ret || j.assign) && !rest.is_empty() => Ok(Some(with(&b.block)?.stmts)),
        Expr::Assign(a) if !rest.is_empty() => match strip(&a.left) {
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let (n, v) = (&p.path.segments[0].ident, &a.right);
                let mut o: Vec<Stmt> = vec![parse_quote!(let #n = #v;)];
                o.extend(rest.iter().cloned());
                Ok(Some(o))
            }
            _ => unsup("assignment"),
        },
        Expr::AssignOp(a) if !rest.is_empty() => match strip(&a.left) {
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let n = &p.path.segments[0].ident;
                let l: Expr = parse_quote!(#n);
                let op = match a.op {
                    BinOp::AddEq(_) => BinOp::Add(Default::default()),
                    BinOp::SubEq(_) => BinOp::Sub(Default::default()),
                    BinOp::MulEq(_) => BinOp::Mul(Default::default()),
                    BinOp::BitOrEq(_) => BinOp::BitOr(Default::default()),
                    BinOp::BitAndEq(_) => BinOp::BitAnd(Default::default()),
                    _ => return unsup("assignment operator"),
                };
                let v = Expr::Binary(ExprBinary { attrs: vec![], left: Box::new(l), op, right: a.right.clone() });
                let mut o: Vec<Stmt> = vec![parse_quote!(let #n = #v;)];
                o.extend(rest.iter().cloned());
                Ok(Some(o))
            }
            _ => unsup("assignment"),
        },
        Expr::MethodCall(m) if m.method == "push" && m.args.len() == 1 && !rest.is_empty() => match strip(&m.receiver) {
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let (n, v) = (&p.path.segments[0].ident, &m.args[0]);
                let mut o: Vec<Stmt> = vec![parse_quote!(let #n = vx_pushed(#n, #v);)];
                o.extend(rest.iter().cloned());
                Ok(Some(o))
            }
            _ => unsup("push"),
        },
        _ => Ok(None),
    }
}
pub fn has_loop(b: &str) -> bool {
    b.contains("loop {") || b.contains("loop invariant") || b.contains("while ")
}
fn has_ret(s: &Stmt) -> bool {
    let b = Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: vec![s.clone()] } });
    crate::desugar::jumps_e(&b).ret
}
fn ends_in_panic(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Macro(m))) | Some(Stmt::Semi(Expr::Macro(m), _)) => ["panic", "unreachable", "todo", "unimplemented"].contains(&path_str(&m.mac.path).as_str()),
        _ => false,
    }
}
fn ends_in_return(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e)) | Some(Stmt::Semi(e, _)) => matches!(strip(e), Expr::Return(_)),
        _ => false,
    }
}
pub fn is_noop(e: &Expr) -> bool {
    match strip(e) {
        Expr::Tuple(t) => t.elems.iter().all(is_noop),
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Block(b) => b.block.stmts.is_empty(),
        // an assertion: that it holds is an obligation of the code
        Expr::If(i) if i.else_branch.is_none() && i.then_branch.stmts.len() == 1 && ends_in_panic(&i.then_branch) && !matches!(strip(&i.cond), Expr::Let(_)) => true,
        Expr::If(i) => i.then_branch.stmts.is_empty() && i.else_branch.is_none() && is_noop(&i.cond),
        Expr::Reference(r) => is_noop(&r.expr),
        Expr::Field(f) => is_noop(&f.base),
        Expr::Call(c) => {
            if let Expr::Path(p) = strip(&c.func) {
                let s = path_str(&p.path);
                return (s.ends_with("drop") || s.ends_with("black_box")) && c.args.iter().all(is_noop);
            }
            false
        }
        Expr::MethodCall(m) => ["len", "is_empty"].contains(&m.method.to_string().as_str()) && is_noop(&m.receiver),
        _ => false,
    }
}
fn clip(s: &str) -> String {
    s.chars().take(80).collect()
}
fn strip_ref(e: &Expr) -> &Expr {
    match strip(e) {
        Expr::Reference(r) => strip_ref(&r.expr),
        e => e,
    }
}
fn split_typed(p: &Pat) -> (Pat, Option<Type>) {
    match p {
        Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
        p => (p.clone(), None),
    }
}
fn is_parser_closure(c: &ExprClosure) -> bool {
    match &c.inputs[0] {
        Pat::Type(t) => {
            is_str_ref(&t.ty) && {
                let b = tokens(&c.body);
                let o = tokens(&c.output);
                o.contains("IResult") || b.contains("Ok ((") || b.trim_end_matches('}').trim_end().ends_with("(i)") || b.contains("IResult")
            }
        }
        _ => false,
    }
}
fn no_mut(p: &Pat, s: &str) -> String {
    match p {
        Pat::Ident(i) => i.ident.to_string(),
        _ => s.to_string(),
    }
}
pub fn bind_pat(p: &Pat, env: &mut Env) {
    match p {
        Pat::Ident(i) => {
            let n = i.ident.to_string();
            if n.chars().next().unwrap().is_lowercase() || n.starts_with('_') {
                env.bind(&n, V::Val);
            }
            if let Some((_, s)) = &i.subpat {
                bind_pat(s, env);
            }
        }
        Pat::Type(t) => bind_pat(&t.pat, env),
        Pat::Tuple(t) => t.elems.iter().for_each(|q| bind_pat(q, env)),
        Pat::TupleStruct(t) => t.pat.elems.iter().for_each(|q| bind_pat(q, env)),
        Pat::Struct(s) => s.fields.iter().for_each(|f| bind_pat(&f.pat, env)),
        Pat::Or(o) => o.cases.iter().for_each(|q| bind_pat(q, env)),
        Pat::Reference(r) => bind_pat(&r.pat, env),
        _ => {}
    }
}
/// `bind_pat` in executable text; the first part of a parser's result is a text
fn bind_res(p: &Pat, env: &mut Env) {
    bind_pat(p, env);
    let pair = match p {
        Pat::Tuple(t) => t,
        Pat::TupleStruct(t) if path_str(&t.path) == "Ok" && t.pat.elems.len() == 1 => match &t.pat.elems[0] {
            Pat::Tuple(t) => t,
            _ => return,
        },
        _ => return,
    };
    if let (2, Some(Pat::Ident(i))) = (pair.elems.len(), pair.elems.first()) {
        let n = i.ident.to_string();
        env.bind(&n, V::Str(format!("{}@", n)));
    }
}
fn has_str_lit(p: &Pat) -> bool {
    str_alts(p).is_some()
}
fn str_alts(p: &Pat) -> Option<Vec<String>> {
    match p {
        Pat::Lit(l) => {
            if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*l.expr {
                Some(vec![s.value()])
            } else {
                None
            }
        }
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(str_alts(c)?);
            }
            Some(v)
        }
        _ => None,
    }
}
fn add_local_use(t: &UseTree, env: &mut Env) {
    fn go(t: &UseTree, pre: String, env: &mut Env) {
        let mut add = |path: String, name: String| {
            let n = if let Some(r) = path.strip_prefix("nom::") {
                Name::Nom(r.to_string())
            } else if path.starts_with("crate::") {
                let (m, i) = path.rsplit_once("::").unwrap();
                Name::Local(m.into(), i.into())
            } else {
                Name::Std(path)
            };
            env.locals.insert(name, n);
        };
        match t {
            UseTree::Path(p) => go(&p.tree, format!("{}{}::", pre, p.ident), env),
            UseTree::Name(n) => add(format!("{}{}", pre, n.ident), n.ident.to_string()),
            UseTree::Rename(r) => add(format!("{}{}", pre, r.ident), r.rename.to_string()),
            UseTree::Glob(_) => {}
            UseTree::Group(g) => g.items.iter().for_each(|t| go(t, pre.clone(), env)),
        }
    }
    go(t, String::new(), env)
}
