//! Putting the verified file together: preludes, types, grammar, and for each
//! function in the cone of the requested roots its contract and its body.
use crate::dsl::{Grammar, P};
use crate::extract::*;
use crate::tr::*;
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

#[derive(Clone, Default)]
pub struct Opts {
    pub roots: Vec<String>,
    pub cuts: BTreeSet<String>,
    pub drop: BTreeSet<String>,
    pub norule: BTreeSet<String>, // functions whose specification is read off their body
    pub lean: bool, // the lemmas for `more`, but only what differs revealed
    pub more: BTreeSet<String>, // obligations that get every literal and rule revealed
    pub only: Option<BTreeSet<String>>, // bodies to emit (the others keep their stubs)
    pub layer: String,
}
#[derive(Default)]
pub struct Out {
    pub text: String,
    pub obligations: Vec<String>,
    pub unsupported: BTreeMap<String, String>,
    pub sections: Vec<(String, usize, usize)>, // name, first line, last line
    pub deps: BTreeMap<String, BTreeSet<String>>,
    pub helpers: BTreeSet<String>,
}
impl Out {
    fn sec(&mut self, name: &str, body: &str) {
        let a = self.text.matches('\n').count() + 1;
        self.text.push_str(body);
        if !body.ends_with('\n') {
            self.text.push('\n');
        }
        let b = self.text.matches('\n').count();
        self.sections.push((name.to_string(), a, b));
    }
}

/// Rules with at least this many alternatives are proved one alternative at a time.
const SPLIT: usize = 6;
/// The pairs (numbered from 1, in the rule's order) a permutation turns round.
fn inverted(p: &[usize]) -> Vec<(usize, usize)> {
    let mut o = vec![];
    for k in 0..p.len() {
        for l in k + 1..p.len() {
            if p[k] > p[l] {
                o.push((p[l] + 1, p[k] + 1));
            }
        }
    }
    o
}
pub struct Gen<'g> {
    pub repo: &'g Repo,
    pub g: &'g Grammar,
    pub hand: BTreeSet<String>, // `X` with a hand-written `X_s` among the contracts
    pub hints: BTreeMap<String, String>,
    pub opts: Opts,
    pub perms: std::cell::RefCell<BTreeMap<String, Vec<usize>>>,
    /// Rules whose alternatives the code does not write as an `alt`.
    pub loose: std::cell::RefCell<BTreeSet<String>>,
}

struct Piece {
    deps: BTreeSet<String>,
    spec: String,  // derived specification function
    exec: String,  // contract stub, or the verified function itself
    oblig: String, // body obligation (empty when `exec` is the verified function)
    alts: BTreeSet<usize>,
    tuples: BTreeSet<usize>,
}

pub fn spec_ty(t: &PTy, text: &str) -> String {
    match t {
        PTy::Str => "Seq<char>".into(),
        PTy::Parser(o) => format!("P<{}>", o),
        PTy::Pred => "spec_fn(char) -> bool".into(),
        PTy::Fun(a, o) => format!("spec_fn({}) -> {}", a.join(", "), o),
        PTy::Other => text.into(),
    }
}

impl<'g> Gen<'g> {
    fn weak(&self) -> bool {
        self.opts.layer != "strong"
    }
    /// The rule a function implements: same name, same type.
    pub fn rule_of(&self, f: &Fun) -> bool {
        if self.opts.norule.contains(&f.name) {
            return false;
        }
        match f.kind {
            Kind::Parser => self.g.rule(&f.name).map_or(false, |r| self.repo.canon(&r.ty.replace("&", "&'a ")) == self.repo.canon(&f.out)),
            Kind::Pred => self.g.class(&f.name).is_some(),
            _ => self.hand.contains(&f.name),
        }
    }
    fn generics(&self, f: &Fun) -> (String, String) {
        // (`<'a, O1>`, `<'a, O1, F0: Fn..>`) for specification and code
        let mut s = vec!["'a".to_string()];
        s.extend(f.generics.iter().cloned());
        let mut e = s.clone();
        for p in &f.params {
            // a value the returned parser keeps
            if let Some(k) = f.generics.iter().position(|g| *g == p.text) {
                e[k + 1] = format!("{}: 'a", f.generics[k]);
            }
        }
        for (k, p) in f.params.iter().enumerate() {
            let cp = if tokens(&f.item.sig).contains("Copy") { " + Copy" } else { "" };
            match &p.ty {
                PTy::Parser(o) => e.push(format!("F{}_: Fn(&'a str) -> IResult<&'a str, {}>{}", k, o, cp)),
                PTy::Pred => e.push(format!("F{}_: Fn(char) -> bool{}", k, cp)),
                PTy::Fun(a, o) => e.push(format!("F{}_: Fn({}) -> {}{} + 'a", k, a.join(", "), o, cp)),
                _ => {}
            }
        }
        (format!("<{}>", s.join(", ")), format!("<{}>", e.join(", ")))
    }
    fn exec_params(&self, f: &Fun) -> String {
        let mut v = vec![];
        let mut gh = vec![];
        for (k, p) in f.params.iter().enumerate() {
            let t = match &p.ty {
                PTy::Parser(o) => {
                    gh.push(format!("Ghost(d_{}): Ghost<P<{}>>", p.name, o));
                    format!("F{}_", k)
                }
                PTy::Pred => {
                    gh.push(format!("Ghost(d_{}): Ghost<spec_fn(char) -> bool>", p.name));
                    format!("F{}_", k)
                }
                PTy::Fun(a, o) => {
                    gh.push(format!("Ghost(d_{}): Ghost<spec_fn({}) -> {}>", p.name, a.join(", "), o));
                    format!("F{}_", k)
                }
                PTy::Str => "&'a str".into(),
                PTy::Other => p.text.clone(),
            };
            v.push(format!("{}: {}", p.name, t));
        }
        if !self.weak() {
            v.extend(gh);
        }
        v.join(", ")
    }
    fn requires(&self, f: &Fun) -> String {
        let mut v = vec![];
        for p in &f.params {
            match &p.ty {
                PTy::Fun(a, o) => {
                    let xs: Vec<String> = (0..a.len()).map(|k| format!("x{}_", k)).collect();
                    let ts: Vec<String> = a.iter().zip(&xs).map(|(t, x)| format!("{}: {}", x, t)).collect();
                    let tup = format!("({},)", xs.join(", "));
                    let bind = if ts.is_empty() { String::new() } else { ts.join(", ") };
                    if !ts.is_empty() {
                        v.push(format!("(forall|{}| #[trigger] {}.requires({}))", bind, p.name, tup));
                        if !self.weak() {
                            v.push(format!("(forall|{}, r_: {}| #[trigger] {}.ensures({}, r_) ==> same(r_, d_{}({})))", bind, o, p.name, tup, p.name, xs.join(", ")));
                        }
                    } else {
                        v.push(format!("{}.requires(())", p.name));
                        if !self.weak() {
                            v.push(format!("(forall|r_: {}| #[trigger] {}.ensures((), r_) ==> same(r_, d_{}()))", o, p.name, p.name));
                        }
                    }
                }
                PTy::Parser(_) if self.weak() => v.push(format!("wimp({})", p.name)),
                PTy::Pred if self.weak() => v.push(format!("wpred({})", p.name)),
                PTy::Parser(_) => v.push(format!("imp({}, d_{})", p.name, p.name)),
                PTy::Pred => v.push(format!("condimp({}, d_{})", p.name, p.name)),
                _ => {}
            }
        }
        if v.is_empty() {
            String::new()
        } else {
            format!("requires {}", v.join(", "))
        }
    }
    fn env(&self, f: &Fun, spec: bool) -> Env {
        let mut e = Env::new(&f.module, spec);
        if f.method {
            e.selfty = Some(f.name.split("__").next().unwrap().to_string());
        }
        for p in &f.params {
            let v = match &p.ty {
                PTy::Str if spec => V::Str(p.name.clone()),
                PTy::Str => V::Str(format!("{}@", p.name)),
                PTy::Parser(_) => V::Parser(if self.weak() { String::new() } else { format!("d_{}", p.name) }),
                PTy::Pred => V::Pred(if self.weak() { String::new() } else { format!("d_{}", p.name) }),
                PTy::Fun(a, _) => V::Fun(if self.weak() { String::new() } else { format!("d_{}", p.name) }, a.len()),
                PTy::Other => V::Val,
            };
            if let PTy::Parser(o) = &p.ty {
                e.outs.insert(p.name.clone(), o.clone());
            }
            e.vars.insert(p.name.clone(), v);
        }
        e
    }
    fn tr(&self) -> Tr<'g> {
        let has: BTreeSet<String> = self.repo.funs.values().filter(|f| self.rule_of(f)).map(|f| f.name.clone()).collect();
        Tr::new(self.repo, has, self.weak())
    }

    fn tr_for(&self, f: &Fun) -> Tr<'g> {
        let mut t = self.tr();
        t.dup = f.params.iter().filter(|p| f.generics.contains(&p.text)).map(|p| p.name.clone()).collect();
        t.numty = Some(f.out.clone());
        t
    }
    fn piece(&self, f: &Fun) -> R<Piece> {
        let mut p = self.piece_(f)?;
        for t in [&mut p.exec, &mut p.oblig] {
            if ["str_len(", "str_first(", "str_split_at(", "str_find("].iter().any(|k| t.contains(k)) {
                *t = t.replace("broadcast use {group_sfx,", "broadcast use {group_bytes, group_sfx,");
            }
        }
        Ok(p)
    }
    fn piece_(&self, f: &Fun) -> R<Piece> {
        if f.item.sig.asyncness.is_some() || f.item.sig.unsafety.is_some() {
            return Err("unsafe or async".into());
        }
        if self.weak() {
            return self.weak_piece(f);
        }
        let ruled = self.rule_of(f);
        let mut tr = self.tr_for(f);
        let (gs, ge) = self.generics(f);
        let mut p = Piece { deps: Default::default(), spec: String::new(), exec: String::new(), oblig: String::new(), alts: Default::default(), tuples: Default::default() };
        let names: Vec<String> = f.params.iter().map(|p| p.name.clone()).collect();
        let sparams = |skip: Option<usize>| {
            f.params
                .iter()
                .enumerate()
                .filter(|(k, _)| Some(*k) != skip)
                .map(|(_, p)| format!("{}: {}", if matches!(p.ty, PTy::Parser(_) | PTy::Pred | PTy::Fun(..)) { format!("d_{}", p.name) } else { p.name.clone() }, spec_ty(&p.ty, &p.text)))
                .collect::<Vec<_>>()
                .join(", ")
        };
        let sargs = |skip: Option<usize>| {
            f.params
                .iter()
                .enumerate()
                .filter(|(k, _)| Some(*k) != skip)
                .map(|(_, p)| match p.ty {
                    PTy::Parser(_) | PTy::Pred | PTy::Fun(..) => format!("d_{}", p.name),
                    PTy::Str => format!("{}@", p.name),
                    _ => p.name.clone(),
                })
                .collect::<Vec<_>>()
                .join(", ")
        };
        let xe = self.env(f, false);
        let se = self.env(f, true);
        let head = format!("broadcast use {{group_sfx, group_ext}};\n");
        match &f.kind {
            Kind::Parser => {
                let i = &names[0];
                let body = tr.block(&f.item.block, &xe)?;
                if !ruled {
                    let d = tr.den(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: (*f.item.block).clone() }), &se)?;
                    p.spec = format!("pub open spec fn {}_s<'a>({}: Seq<char>) -> PR<{}> {{ {} }}\n", f.name, i, f.out, d);
                }
                let sig = |n: &str| format!("fn {}<'a>({}: &'a str) -> (r: IResult<&'a str, {}>) ensures pr(r) == {}_s({}@), sfr({}@, r)\n", n, i, f.out, f.name, i, i);
                p.exec = format!("#[verifier::external_body]\npub {}{{ unimplemented!() }}\n", sig(&f.name));
                let rl = if self.opts.more.contains(&f.name) { "#[verifier::rlimit(50)]\n" } else { "#[verifier::rlimit(20)]\n" };
                let mut softly = String::new();
                let mut head = head.clone();
                let mut sfx = "broadcast use group_sfx;".to_string();
                if ["str_from(", "str_to(", "str_split_at("].iter().any(|w| body.contains(w)) {
                    // byte offsets name one place in the text
                    head = format!("{}broadcast use {{group_bytes}};\n", head);
                    sfx.push_str(" broadcast use {group_bytes};");
                }
                if ruled && self.opts.more.contains(&f.name) {
                    let mut names: BTreeSet<String> = tr.deps.iter().cloned().collect();
                    Grammar::refs(&self.g.rule(&f.name).unwrap().p, &mut names);
                    let br = self.g.breakers();
                    let opener = |d: &str| if !br.contains(d) && self.opaque(d) { self.reveal_rule(d) } else { String::new() };
                    let mut l = crate::first::Soft::new(self.g).lemmas(&names, &opener, &mut softly);
                    // white space is skipped at once: more `_` in a row are one
                    if let Some(P::Text(x)) = self.g.rule("sp").map(|r| &r.p) {
                        if matches!(**x, P::Many(_, 0)) {
                            softly.push_str(concat!(
                                "#[verifier::opaque] spec fn settled(t: Seq<char>) -> bool { match sp_s(t) { PR::Ok(u, e) => u == t && e@ == Seq::<char>::empty(), _ => false } }\n",
                                "proof fn sp_twice(s: Seq<char>) ensures sp_s(s) is Ok ==> (match sp_s(sp_s(s)->Ok_0) { PR::Ok(t, e) => t == sp_s(s)->Ok_0 && e@ == Seq::<char>::empty(), _ => false }) { broadcast use {group_sfx, group_ext, rep_twice}; reveal(sp_s); }\n",
                                "broadcast proof fn sp_settles(s: Seq<char>) ensures #[trigger] sp_s(s) is Ok ==> settled(sp_s(s)->Ok_0) { sp_twice(s); reveal(settled); }\n",
                                "broadcast proof fn settled_sp(t: Seq<char>) ensures #[trigger] settled(t) ==> (match #[trigger] sp_s(t) { PR::Ok(u, e) => u == t && e@ == Seq::<char>::empty(), _ => false }) { reveal(settled); }\n",
                                "broadcast proof fn rep_settled<O>(d: P<O>, s: Seq<char>, acc: Seq<O>) requires settled(s), forall|t: Seq<char>| (#[trigger] d(t)) is Ok ==> settled(d(t)->Ok_0) ensures #[trigger] rep(d, s, acc) is Ok ==> settled(rep(d, s, acc)->Ok_0) decreases s.len() { reveal(rep); match d(s) { PR::Ok(s1, o) => { if s1.len() < s.len() { rep_settled(d, s1, acc.push(o)); } }, _ => {} } }\n",
                            ));
                            l.extend(["sp_settles", "settled_sp", "rep_settled"].iter().map(|x| x.to_string()));
                        }
                    }
                    if !l.is_empty() {
                        head = format!("{}broadcast use {{{}}};\n", head, l.join(", "));
                        sfx = format!("{} broadcast use {{{}}};", sfx, l.join(", "));
                    }
                }
                let den = if ruled { tr.den(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: (*f.item.block).clone() }), &se).ok() } else { None };
                p.oblig = match den {
                    Some(d) => {
                        // the code has the denotation `X_d`, which is the rule
                        let mut o = softly.clone();
                        let mut hint = self.hints_for(f, &tr, i);
                        let perm = self.perms.borrow().get(&f.name).cloned();
                        match self.split_code(f).filter(|v| perm.is_some() || !self.opts.more.contains(&f.name) || self.aligned(f, v, &se)) {
                            Some(alts) => {
                                let rule = self.split_rule(&f.name).unwrap();
                                let perm: Vec<usize> = perm.unwrap_or((0..alts.len()).collect());
                                hint = format!("reveal({}_s); ", f.name);
                                let mut hides = String::new();
                                for (k, a) in alts.iter().enumerate() {
                                    let (at, rp) = (perm[k], &rule[perm[k]]);
                                    let mut t = self.tr();
                                    let e: Expr = parse_quote!((#a)(vx_input));
                                    let mut ke = se.clone();
                                    ke.vars.insert("vx_input".into(), V::Str(i.clone()));
                                    let dk = t.den(&e, &ke)?;
                                    let h = self.hints(&f.name, Some(rp), format!("reveal({}_a{}_s); ", f.name, at + 1), &t);
                                    o.push_str(&format!("pub open spec fn {}_d{}<'a>({}: Seq<char>) -> PR<{}> {{ {} }}\n", f.name, k + 1, i, f.out, dk));
                                    o.push_str(&format!("{}proof fn {}__eq{}<'a>({}: Seq<char>) ensures {}_d{}({}) == {}_a{}_s({}) {{ {} {} }}\n", rl, f.name, k + 1, i, f.name, k + 1, i, f.name, at + 1, i, head, h));
                                    hides.push_str(&format!("hide({}_d{}); ", f.name, k + 1));
                                    hint.push_str(&format!("{}__eq{}({}); ", f.name, k + 1, i));
                                }
                                let turned: Vec<(usize, usize)> = inverted(&perm);
                                if !turned.is_empty() {
                                    let br = self.g.breakers();
                                    let opener = |d: &str| {
                                        if br.contains(d) {
                                            format!("{}_unfold(s); ", d)
                                        } else if self.opaque(d) {
                                            self.reveal_rule(d)
                                        } else {
                                            String::new()
                                        }
                                    };
                                    o.push_str(&crate::first::First::new(self.g).apart_lemmas(&f.name, rule, &turned, &opener));
                                    for (a, b) in &turned {
                                        hint.push_str(&format!("{}_apart_{}_{}({}); ", f.name, a, b, i));
                                    }
                                }
                                hint = format!("{}{}", hides, hint);
                                let n = alts.len();
                                let mut b = format!("{}_d{}({})", f.name, n, i);
                                for k in (1..n).rev() {
                                    b = format!("match {}_d{}({}) {{ PR::Error => {}, e => e }}", f.name, k, i, b);
                                }
                                o.push_str(&format!("pub open spec fn {}_d<'a>({}: Seq<char>) -> PR<{}> {{ {} }}\n", f.name, i, f.out, b));
                            }
                            None => {
                                if self.loose.borrow().contains(&f.name) {
                                    // the code tells the alternatives apart in its own way
                                    let br = self.g.breakers();
                                    let opener = |d: &str| {
                                        if br.contains(d) {
                                            format!("{}_unfold(s); ", d)
                                        } else if self.opaque(d) {
                                            self.reveal_rule(d)
                                        } else {
                                            String::new()
                                        }
                                    };
                                    let (l, h) = crate::first::First::new(self.g).starts(&f.name, self.split_rule(&f.name).unwrap(), i, &opener);
                                    o.push_str(&l);
                                    hint.push_str(&h);
                                }
                                o.push_str(&format!("pub open spec fn {}_d<'a>({}: Seq<char>) -> PR<{}> {{ {} }}\n", f.name, i, f.out, d))
                            }
                        }
                        o.push_str(&format!("{}proof fn {}__eq<'a>({}: Seq<char>) ensures {}_d({}) == {}_s({}) {{ {} {} }}\n", rl, f.name, i, f.name, i, f.name, i, if hint.starts_with("hide") { "" } else { &head }, hint));
                        o.push_str(&format!("{}{}{{\n{}\nproof {{ {}__eq({}@); }}\nlet r_ = {}__code({});\nr_\n}}\n", "", sig(&format!("{}__body", f.name)), "broadcast use group_sfx;", f.name, i, f.name, i));
                        o.push_str(&format!("{}{}{{\n{}\n{}\n}}\n", rl, sig(&format!("{}__code", f.name)).replace(&format!("{}_s(", f.name), &format!("{}_d(", f.name)), sfx, body));
                        o
                    }
                    None => {
                        let hint = self.hints_for(f, &tr, &format!("{}@", i));
                        format!("{}{}{}{{\n{}proof {{ {} }}\n{}\n}}\n", softly, rl, sig(&format!("{}__body", f.name)), head, hint, body)
                    }
                };
            }
            Kind::Direct(k) => {
                if ruled {
                    return Err("contract for a function of this shape".into());
                }
                let i = &names[*k];
                let body = tr.block(&f.item.block, &xe)?;
                let d = tr.den(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: (*f.item.block).clone() }), &se)?;
                p.spec = format!("pub open spec fn {}_s{}({}) -> P<{}> {{ |{}: Seq<char>| {} }}\n", f.name, gs, sparams(Some(*k)), f.out, i, d);
                let hint = self.hints_for(f, &tr, &format!("{}@", i));
                p.exec = format!(
                    "fn {}{}({}) -> (r: IResult<&'a str, {}>) {} ensures pr(r) == {}_s({})({}@), sfr({}@, r)\n{{\n{}proof {{ {} }}\n{}\n}}\n",
                    f.name, ge, self.exec_params(f), f.out, self.requires(f), f.name, sargs(Some(*k)), i, i, head, hint, body
                );
            }
            Kind::Comb => {
                let d;
                if ruled {
                    d = format!("{}_s({})", f.name, sargs(None));
                    tr.over = Some((format!("({})", d), self.hints.get(&f.name).cloned().unwrap_or_default()));
                } else {
                    let sd = tr.comb_den(&f.item.block.stmts, &se)?;
                    p.spec = format!("pub open spec fn {}_s{}({}) -> P<{}> {{ {} }}\n", f.name, gs, sparams(None), f.out, sd);
                    d = format!("{}_s({})", f.name, sargs(None));
                }
                tr.want = true;
                tr.outty = Some(f.out.clone());
            tr.outty = Some(f.out.clone());
                let body = tr.block(&f.item.block, &xe)?;
                let hint = self.hints_for(f, &tr, "");
                p.exec = format!(
                    "fn {}{}({}) -> (ret: impl Fn(&'a str) -> IResult<&'a str, {}>) {} ensures imp(ret, {})\n{{\n{}proof {{ {} }}\n{}\n}}\n",
                    f.name, ge, self.exec_params(f), f.out, self.requires(f), d, head, hint, body
                );
            }
            Kind::Pred => {
                let c = &names[0];
                let body = tr.block(&f.item.block, &xe)?;
                if !ruled {
                    tr.tailpos = true;
                    let d = tr.sp(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: (*f.item.block).clone() }), &se)?;
                    p.spec = format!("pub open spec fn {}_s({}: char) -> bool {{ {} }}\n", f.name, c, d);
                }
                let hint = self.hints_for(f, &tr, "");
                p.exec = format!("fn {}({}: char) -> (r: bool) ensures r == {}_s({})\n{{\nproof {{ {} }}\n{}\n}}\n", f.name, c, f.name, c, hint, body);
            }
            Kind::Value => {
                let body = tr.block(&f.item.block, &xe)?;
                if !ruled {
                    tr.tailpos = true;
                    let d = tr.sp(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: (*f.item.block).clone() }), &se)?;
                    p.spec = format!("pub open spec fn {}_s{}({}) -> {} {{ {} }}\n", f.name, gs, sparams(None), f.out, d);
                }
                let hint = self.hints_for(f, &tr, "");
                let args = sargs(None);
                let (mu, ens) = if f.name.ends_with("__fmt") {
                    (true, format!("r is Ok ==> final({})@ == old({})@ + {}_s({})", names[1], names[1], f.name, names[0]))
                } else if f.out.replace(' ', "") == "&'astr" {
                    (false, format!("r@ == {}_s({})", f.name, args))
                } else {
                    (false, format!("r == {}_s({})", f.name, args))
                };
                let _ = mu;
                p.exec = format!("fn {}{}({}) -> (r: {}) {} ensures {}\n{{\nbroadcast use group_ext;\nproof {{ {} }}\n{}\n}}\n", f.name, ge, self.exec_params(f), f.out, self.requires(f), ens, hint, body);
            }
        }
        p.deps = tr.deps;
        p.deps.remove(&f.name);
        p.alts = tr.alts;
        p.tuples = tr.tuples;
        Ok(p)
    }
    fn weak_piece(&self, f: &Fun) -> R<Piece> {
        let mut tr = self.tr_for(f);
        let (_, ge) = self.generics(f);
        let mut p = Piece { deps: Default::default(), spec: String::new(), exec: String::new(), oblig: String::new(), alts: Default::default(), tuples: Default::default() };
        let xe = self.env(f, false);
        if matches!(f.kind, Kind::Comb) {
            tr.want = true;
            tr.outty = Some(f.out.clone());
        }
        let body = tr.block(&f.item.block, &xe)?;
        let lp = has_loop(&body);
        let la = if lp { "#[verifier::loop_isolation(false)]\n#[verifier::exec_allows_no_decreases_clause]\n" } else { "" };
        let body = match &f.kind {
            Kind::Parser if lp => format!("let vx_in = {};\n{}", f.params[0].name, body),
            Kind::Direct(k) if lp => format!("let vx_in = {};\n{}", f.params[*k].name, body),
            _ => body,
        };
        let head = "broadcast use {group_sfx, group_weak};\n";
        match &f.kind {
            Kind::Parser => {
                let i = &f.params[0].name;
                let sig = |n: &str| format!("fn {}<'a>({}: &'a str) -> (r: IResult<&'a str, {}>) ensures good({}, r)\n", n, i, f.out, i);
                p.exec = format!("#[verifier::external_body]\npub {}{{ unimplemented!() }}\n", sig(&f.name));
                p.oblig = format!("{}{}{{\n{}{}\n{}\n}}\n", la, sig(&format!("{}__body", f.name)), head, self.weak_hint(&tr), body);
            }
            Kind::Direct(k) => {
                p.exec = format!(
                    "{}fn {}{}({}) -> (r: IResult<&'a str, {}>) {} ensures good({}, r)\n{{\n{}{}\n{}\n}}\n",
                    la, f.name, ge, self.exec_params(f), f.out, self.requires(f), f.params[*k].name, head, self.weak_hint(&tr), body
                );
            }
            Kind::Comb => {
                p.exec = format!(
                    "{}fn {}{}({}) -> (ret: impl Fn(&'a str) -> IResult<&'a str, {}>) {} ensures wimp(ret)\n{{\n{}{}\n{}\n}}\n",
                    la, f.name, ge, self.exec_params(f), f.out, self.requires(f), head, self.weak_hint(&tr), body
                );
            }
            _ => {
                let fm = if f.name.ends_with("__fmt") { "" } else { "" };
                p.exec = format!("{}fn {}{}({}) -> (r: {}) {} {}\n{{\n{}\n}}\n", la, f.name, ge, self.exec_params(f), f.out, self.requires(f), fm, body);
            }
        }
        p.deps = tr.deps;
        p.deps.remove(&f.name);
        p.alts = tr.alts;
        p.tuples = tr.tuples;
        Ok(p)
    }
    fn weak_hint(&self, _tr: &Tr) -> String {
        String::new()
    }
    /// Literals of a rule: (keywords, exact texts, character sets)
    fn rule_lits(&self, p: &P, kw: &mut BTreeSet<String>, lit: &mut BTreeSet<String>) {
        match p {
            P::Kw(s) => {
                kw.insert(s.clone());
            }
            P::Lit(s) | P::OneOf(s) | P::NoneOf(s) => {
                lit.insert(s.clone());
            }
            P::Many(x, _) | P::Opt(x) | P::Text(x) | P::Commit(x) | P::Not(x) => self.rule_lits(x, kw, lit),
            P::List(x, s, _) => {
                self.rule_lits(x, kw, lit);
                self.rule_lits(s, kw, lit)
            }
            P::Esc(x, _, y) => {
                self.rule_lits(x, kw, lit);
                self.rule_lits(y, kw, lit)
            }
            P::Seq(v, _) => v.iter().for_each(|i| self.rule_lits(&i.p, kw, lit)),
            P::Alt(v) => v.iter().for_each(|i| self.rule_lits(i, kw, lit)),
            _ => {}
        }
    }
    fn code_side(&self, deps: &BTreeSet<String>) -> (BTreeSet<String>, BTreeSet<String>) {
        // rules reached through functions that have no rule of their own
        let mut rules = BTreeSet::new();
        let mut lits = BTreeSet::new();
        let mut todo: Vec<String> = deps.iter().cloned().collect();
        let mut seen = BTreeSet::new();
        while let Some(n) = todo.pop() {
            if !seen.insert(n.clone()) {
                continue;
            }
            let f = match self.repo.funs.get(&n) {
                Some(f) => f,
                None => continue,
            };
            if self.rule_of(f) {
                if f.kind == Kind::Parser {
                    rules.insert(n);
                }
                continue;
            }
            let mut tr = self.tr_for(f);
            let xe = self.env(f, false);
            tr.want = f.kind == Kind::Comb;
            if tr.block(&f.item.block, &xe).is_ok() {
                todo.extend(tr.deps.iter().cloned());
                lits.extend(tr.tags.iter().cloned());
            }
        }
        (rules, lits)
    }
    /// Top-level alternatives of a large rule, each a specification function of its own.
    fn split_rule(&self, n: &str) -> Option<&'g Vec<P>> {
        if self.weak() || self.g.breakers().contains(n) || !self.opaque(n) {
            return None;
        }
        match &self.g.rule(n)?.p {
            P::Alt(v) if v.len() >= SPLIT || self.perms.borrow().contains_key(n) || self.loose.borrow().contains(n) => Some(v),
            _ => None,
        }
    }
    /// The order the code tries the alternatives of its rule in, when it is not the
    /// rule's and every two that change places exclude each other.
    fn find_perms(&self) {
        if self.weak() {
            return;
        }
        let br = self.g.breakers();
        let mut fst = crate::first::First::new(self.g);
        for f in self.repo.funs.values() {
            let v = match self.g.rule(&f.name).map(|r| &r.p) {
                Some(P::Alt(v)) if f.kind == Kind::Parser && self.opaque(&f.name) && !br.contains(&f.name) => v,
                _ => continue,
            };
            let alts = match self.alt_arms(f, v.len()) {
                Some(a) => a,
                None => {
                    if self.opts.more.contains(&f.name) && v.len() <= 16 {
                        self.loose.borrow_mut().insert(f.name.clone());
                    }
                    continue;
                }
            };
            let se = self.env(f, true);
            let words = |s: &str| -> BTreeSet<String> { s.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect() };
            let code: Vec<BTreeSet<String>> = alts
                .iter()
                .map(|a| {
                    let mut t = self.tr();
                    let _ = t.par(a, &se);
                    let mut w: BTreeSet<String> = t.tags.iter().chain(t.lits.iter()).map(|l| format!("'{}", l.to_ascii_lowercase())).collect();
                    w.extend(words(&tokens(a)).into_iter().filter(|w| w.starts_with(|c: char| c.is_uppercase()) || self.g.rule(w).is_some()));
                    w
                })
                .collect();
            let rule: Vec<BTreeSet<String>> = v
                .iter()
                .map(|p| {
                    let (mut kw, mut lit, mut rf) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
                    self.rule_lits(p, &mut kw, &mut lit);
                    crate::dsl::Grammar::refs(p, &mut rf);
                    let mut w: BTreeSet<String> = kw.iter().chain(&lit).map(|l| format!("'{}", l.to_ascii_lowercase())).collect();
                    w.extend(rf);
                    if let P::Seq(_, Some(a)) = p {
                        w.extend(words(a).into_iter().filter(|w| w.starts_with(|c: char| c.is_uppercase())));
                    }
                    w
                })
                .collect();
            let mut score: Vec<(i64, usize, usize)> = vec![];
            for (k, c) in code.iter().enumerate() {
                for (j, r) in rule.iter().enumerate() {
                    let both = c.intersection(r).count() as i64;
                    score.push((-(1000 * both / (1 + c.union(r).count() as i64)) * 2 - (j == k) as i64, k, j));
                }
            }
            score.sort();
            let mut perm = vec![usize::MAX; v.len()];
            let mut used = BTreeSet::new();
            for (_, k, j) in score {
                if perm[k] == usize::MAX && used.insert(j) {
                    perm[k] = j;
                }
            }
            let turned = inverted(&perm);
            if !turned.is_empty() && turned.iter().all(|(a, b)| fst.apart(&v[a - 1], &v[b - 1])) {
                self.perms.borrow_mut().insert(f.name.clone(), perm);
            }
        }
    }
    /// The alternatives of `alt((a, b, ..))(i)`, when they line up with the rule's.
    fn split_code(&self, f: &Fun) -> Option<Vec<Expr>> {
        self.alt_arms(f, self.split_rule(&f.name)?.len())
    }
    fn alt_arms(&self, f: &Fun, n: usize) -> Option<Vec<Expr>> {
        let (last, before) = f.item.block.stmts.split_last()?;
        if let Stmt::Expr(Expr::Call(c)) = last {
            // what stands before it is verified with the code; here it must only not
            // be what the alternatives are made of, nor a way out
            for st in before {
                let name = match st {
                    Stmt::Local(l) => match &l.pat {
                        Pat::Wild(_) => String::new(),
                        Pat::Ident(p) => p.ident.to_string(),
                        Pat::Type(t) => match &*t.pat {
                            Pat::Wild(_) => String::new(),
                            Pat::Ident(p) => p.ident.to_string(),
                            _ => return None,
                        },
                        _ => return None,
                    },
                    Stmt::Semi(..) => String::new(),
                    _ => return None,
                };
                let words = |s: String| -> Vec<String> { s.split(|c: char| !c.is_alphanumeric() && c != '_').map(|w| w.to_string()).collect() };
                if (!name.is_empty() && words(tokens(last)).contains(&name)) || words(tokens(st)).iter().any(|w| w == "return") || tokens(st).contains('?') {
                    return None;
                }
            }
            if tokens(&c.args) != f.params[0].name {
                return None;
            }
            if let Expr::Call(k) = &*c.func {
                if let (Expr::Path(p), 1) = (&*k.func, k.args.len()) {
                    if self.repo.resolve(&f.module, &path_str(&p.path)) == Name::Nom("branch::alt".into()) {
                        if let Expr::Tuple(t) = &k.args[0] {
                            if t.elems.len() == n {
                                return Some(t.elems.iter().cloned().collect());
                            }
                        }
                    }
                }
            }
        }
        None
    }
    fn reveal_rule(&self, n: &str) -> String {
        let mut o = format!("reveal({}_s); ", n);
        if let Some(v) = self.split_rule(n) {
            for k in 1..=v.len() {
                o.push_str(&format!("reveal({}_a{}_s); ", n, k));
            }
        }
        o
    }
    fn hints_for(&self, f: &Fun, tr: &Tr, i: &str) -> String {
        let r = if f.kind == Kind::Parser && self.rule_of(f) { self.g.rule(&f.name).map(|r| &r.p) } else { None };
        let head = match r {
            None => String::new(),
            Some(_) if self.g.breakers().contains(&f.name) => format!("{}_unfold({}); ", f.name, i),
            Some(_) => self.reveal_rule(&f.name),
        };
        self.hints(&f.name, r, head, tr)
    }
    fn hints(&self, name: &str, rule: Option<&P>, head: String, tr: &Tr) -> String {
        let mut o = head;
        let more = self.opts.more.contains(name);
        let all = more && !self.opts.lean;
        let br = self.g.breakers();
        let mut kw = BTreeSet::new();
        let mut lit = BTreeSet::new();
        let (mut code, clits) = self.code_side(&tr.deps);
        if let Some(p) = rule {
            self.rule_lits(p, &mut kw, &mut lit);
            // rules mentioned on one side only
            let mut spec = BTreeSet::new();
            Grammar::refs(p, &mut spec);
            let mut revealed: BTreeSet<String> = BTreeSet::new();
            for _ in 0..if all { 4 } else { 2 } {
                let diff: Vec<String> = spec.symmetric_difference(&code).filter(|n| !revealed.contains(*n) && n.as_str() != name).cloned().collect();
                let diff: Vec<String> = if all { spec.union(&code).filter(|n| !revealed.contains(*n) && n.as_str() != name && !["sp", "sp1"].contains(&n.as_str())).cloned().collect() } else { diff };
                if diff.is_empty() {
                    break;
                }
                for n in diff {
                    if br.contains(&n) || !self.opaque(&n) {
                        revealed.insert(n.clone());
                        if !self.opaque(&n) {
                            if let Some(r) = self.g.rule(&n) {
                                self.rule_lits(&r.p, &mut kw, &mut lit);
                                Grammar::refs(&r.p, &mut spec);
                            }
                        }
                        continue;
                    }
                    if let Some(r) = self.g.rule(&n) {
                        o.push_str(&self.reveal_rule(&n));
                        self.rule_lits(&r.p, &mut kw, &mut lit);
                        let mut s = BTreeSet::new();
                        Grammar::refs(&r.p, &mut s);
                        if code.contains(&n) {
                            code.extend(s.iter().cloned());
                        }
                        if spec.contains(&n) {
                            spec.extend(s);
                        }
                    }
                    revealed.insert(n);
                }
            }
        }
        // literals
        let mut code_lits: BTreeSet<String> = tr.tags.clone();
        code_lits.extend(clits);
        if more && rule.is_some() {
            let mut v: BTreeSet<String> = kw.clone();
            v.extend(code_lits.iter().map(|l| l.to_ascii_lowercase()));
            o.push_str(&self.apart(v.iter().map(|s| s.as_str()).collect()));
        }
        let other: BTreeSet<String> = tr.lits.difference(&code_lits).cloned().collect();
        let letters = |s: &str| s.chars().any(|c| c.is_ascii_alphabetic());
        let mut shown = BTreeSet::new();
        for l in &code_lits {
            let n = l.chars().count();
            if n == 0 {
                o.push_str("reveal_strlit(\"\"); ");
                continue;
            }
            let low = l.to_ascii_lowercase();
            if !letters(l) {
                shown.insert(l.clone());
                o.push_str(&format!("reveal_strlit({}); lemma_kw_sym({}@); ", rlit(l), rlit(l)));
                if n == 1 {
                    o.push_str(&format!("lemma_tag1({}@); ", rlit(l)));
                }
            } else if !kw.contains(l) && (kw.contains(&low) || all) {
                shown.insert(l.clone());
                shown.insert(low.clone());
                o.push_str(&format!("reveal_strlit({}); reveal_strlit({}); lemma_kw_case({}@, {}@); ", rlit(l), rlit(&low), rlit(l), rlit(&low)));
            }
            if letters(l) && n == 1 {
                if shown.insert(l.clone()) {
                    o.push_str(&format!("reveal_strlit({}); ", rlit(l)));
                }
                o.push_str(&format!("lemma_tag1({}@); ", rlit(l)));
            }
        }
        let mut rest: Vec<&String> = other.iter().collect();
        if all {
            rest.extend(lit.iter());
            rest.extend(kw.iter().filter(|k| code_lits.contains(*k) && k.len() < 4));
        }
        for l in rest {
            if (all || !lit.contains(l)) && shown.insert(l.clone()) {
                o.push_str(&format!("reveal_strlit({}); ", rlit(l)));
                if (1..=24).contains(&l.chars().count()) {
                    let cs: Vec<char> = l.chars().collect();
                    let eqs: Vec<String> = cs.iter().map(|c| format!("c == {}", crate::dsl::chr(*c))).collect();
                    let by: Vec<String> = cs.iter().enumerate().map(|(k, c)| format!("if c == {} {{ assert({}@[{}] == c); }}", crate::dsl::chr(*c), rlit(l), k)).collect();
                    o.push_str(&format!("assert forall|c: char| #[trigger] {}@.contains(c) == ({}) by {{ {} }} ", rlit(l), eqs.join(" || "), by.join(" ")));
                }
            }
        }
        o
    }
    /// No text starts with two keywords that differ somewhere.
    fn apart(&self, v: Vec<&str>) -> String {
        let mut o = String::new();
        if v.len() > 28 {
            return o;
        }
        for (k, a) in v.iter().enumerate() {
            for b in &v[k + 1..] {
                if let Some(p) = a.chars().zip(b.chars()).position(|(x, y)| x != y) {
                    let (a, b) = (rlit(a), rlit(b));
                    o.push_str(&format!(
                        "assert forall|s: Seq<char>| !(#[trigger] kwm({a}@, s) && #[trigger] kwm({b}@, s)) by {{ reveal_strlit({a}); reveal_strlit({b}); kw_apart({a}@, {b}@, {p}); }} "
                    ));
                }
            }
        }
        o
    }
    /// Do the alternatives of the code and of the rule start alike?
    fn aligned(&self, f: &Fun, alts: &[Expr], se: &Env) -> bool {
        let rule = self.split_rule(&f.name).unwrap();
        alts.iter().zip(rule).all(|(a, rp)| {
            let mut t = self.tr();
            let _ = t.par(a, se);
            let (mut kw, mut lit) = (BTreeSet::new(), BTreeSet::new());
            self.rule_lits(rp, &mut kw, &mut lit);
            kw.extend(lit);
            let code: BTreeSet<String> = t.tags.iter().chain(t.lits.iter()).map(|l| l.to_ascii_lowercase()).collect();
            kw.is_empty() && code.is_empty() || kw.iter().any(|k| code.contains(k))
        })
    }
    fn opaque(&self, n: &str) -> bool {
        self.repo.funs.get(n).map_or(false, |f| self.rule_of(f))
    }

    fn types(&self) -> String {
        let mut o = String::new();
        for (n, m, it) in &self.repo.types {
            let lt = |t: &Type| self.repo.ty(t);
            let fields = |f: &Fields| -> String {
                match f {
                    Fields::Named(n) => format!("{{ {} }}", n.named.iter().map(|f| format!("pub {}: {}", f.ident.as_ref().unwrap(), lt(&f.ty))).collect::<Vec<_>>().join(", ")),
                    Fields::Unnamed(n) => format!("({})", n.unnamed.iter().map(|f| format!("pub {}", lt(&f.ty))).collect::<Vec<_>>().join(", ")),
                    Fields::Unit => String::new(),
                }
            };
            let _ = m;
            match it {
                Item::Struct(s) => {
                    let semi = if matches!(s.fields, Fields::Named(_)) { "" } else { ";" };
                    o.push_str(&format!("pub struct {} {}{}\n", n, fields(&s.fields), semi));
                    let user_new = self.repo.funs.contains_key(&format!("{}__new", n));
                    let derived = s.attrs.iter().any(|a| a.path.is_ident("derive") && a.tokens.to_string().contains("new"));
                    if derived && !user_new {
                        if let Fields::Named(nf) = &s.fields {
                            let ps: Vec<String> = nf.named.iter().map(|f| format!("{}: {}", f.ident.as_ref().unwrap(), lt(&f.ty))).collect();
                            let ns: Vec<String> = nf.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
                            o.push_str(&format!(
                                "impl {n} {{ pub fn new({p}) -> (r: {n}) ensures r == ({n} {{ {f} }}) {{ {n} {{ {f} }} }} }}\npub open spec fn {n}__new_s({p}) -> {n} {{ {n} {{ {f} }} }}\n",
                                n = n,
                                p = ps.join(", "),
                                f = ns.join(", ")
                            ));
                        }
                    }
                }
                Item::Enum(e) => {
                    let vs: Vec<String> = e
                        .variants
                        .iter()
                        .map(|v| format!("{} {}", v.ident, fields(&v.fields).replace("pub ", "")))
                        .collect();
                    o.push_str(&format!("pub enum {} {{ {} }}\n", n, vs.join(", ")));
                }
                Item::Type(t) => o.push_str(&format!("pub type {} = {};\n", n, lt(&t.ty))),
                _ => {}
            }
        }
        o
    }

    pub fn run(&self, prelude: &[String], contracts: &str) -> Out {
        let mut out = Out::default();
        self.find_perms();
        let mut pieces: BTreeMap<String, Piece> = BTreeMap::new();
        let mut want_body: BTreeSet<String> = BTreeSet::new();
        let mut todo: Vec<(String, bool)> = vec![];
        for r in &self.opts.roots {
            if self.repo.funs.contains_key(r) {
                todo.push((r.clone(), true));
            }
        }
        let mut seen: BTreeMap<String, bool> = BTreeMap::new();
        while let Some((n, body)) = todo.pop() {
            if seen.get(&n).map_or(false, |b| *b || !body) {
                continue;
            }
            seen.insert(n.clone(), body);
            let f = match self.repo.funs.get(&n) {
                Some(f) => f,
                None => continue,
            };
            if !pieces.contains_key(&n) {
                if self.opts.drop.contains(&n) {
                    out.unsupported.entry(n.clone()).or_insert("outside the verifier's reach".into());
                    if !self.stub_only(f, &mut pieces) {
                        continue;
                    }
                } else {
                    match self.piece(f) {
                        Ok(p) => {
                            pieces.insert(n.clone(), p);
                        }
                        Err(e) => {
                            out.unsupported.insert(n.clone(), e);
                            if !self.stub_only(f, &mut pieces) {
                                continue;
                            }
                        }
                    }
                }
            }
            if body && self.opts.only.as_ref().map_or(true, |o| o.contains(&n)) {
                want_body.insert(n.clone());
            }
            let own_contract = f.kind == Kind::Parser && self.rule_of(f) || (self.weak() && f.kind == Kind::Parser);
            for d in pieces[&n].deps.clone() {
                let df = match self.repo.funs.get(&d) {
                    Some(d) => d,
                    None => continue,
                };
                let has = df.kind == Kind::Parser && (self.rule_of(df) || self.weak());
                // stubs of functions outside the cone need nothing below them
                if !body && own_contract {
                    continue;
                }
                todo.push((d.clone(), body && !(has && self.opts.cuts.contains(&d))));
            }
        }
        // functions whose helper is unsupported are unsupported themselves
        loop {
            let bad: Vec<String> = pieces
                .iter()
                .filter(|(n, p)| !out.unsupported.contains_key(*n) && p.deps.iter().any(|d| out.unsupported.contains_key(d) && !pieces.contains_key(d)) && (want_body.contains(*n) || p.oblig.is_empty()))
                .map(|(n, _)| n.clone())
                .collect();
            if bad.is_empty() {
                break;
            }
            for n in bad {
                let why = pieces[&n].deps.iter().find(|d| out.unsupported.contains_key(*d) && !pieces.contains_key(*d)).unwrap().clone();
                out.unsupported.insert(n.clone(), format!("calls {}", why));
                pieces.remove(&n);
                self.stub_only(&self.repo.funs[&n], &mut pieces);
            }
        }
        let mut alts: BTreeSet<usize> = BTreeSet::new();
        let mut tuples: BTreeSet<usize> = BTreeSet::new();
        for p in pieces.values() {
            alts.extend(p.alts.iter());
            tuples.extend(p.tuples.iter());
        }
        out.text.push_str("#![allow(unused, non_snake_case)]\nuse vstd::prelude::*;\nverus! {\n");
        for p in prelude {
            out.text.push_str(p);
            out.text.push('\n');
        }
        for k in &alts {
            out.text.push_str(&alt_text(*k, self.weak()));
        }
        for k in &tuples {
            out.text.push_str(&tuple_text(*k, self.weak()));
        }
        let t = self.types();
        out.sec("types", &t);
        if !self.weak() {
            let s = self.g.spec_text(&|n| self.opaque(n), &|n| self.split_rule(n).is_some());
            // a function that does not implement the rule of its name leaves the name to the code
            let clash: BTreeSet<&str> = self.repo.funs.values().filter(|f| !self.rule_of(f) && (self.g.rule(&f.name).is_some() || self.g.class(&f.name).is_some() || self.hand.contains(&f.name))).map(|f| f.name.as_str()).collect();
            out.sec("grammar", &rename(&s, &clash));
            out.sec("contracts", &rename(contracts, &clash));
        }
        for (n, p) in &pieces {
            if !p.spec.is_empty() {
                out.sec(&format!("spec:{}", n), &p.spec);
            }
        }
        for (n, p) in &pieces {
            if p.oblig.is_empty() && !out.unsupported.contains_key(n) {
                out.obligations.push(n.clone());
                out.helpers.insert(n.clone());
                out.sec(&format!("ob:{}", n), &p.exec);
            } else {
                out.sec(&format!("stub:{}", n), &p.exec);
            }
        }
        for (n, p) in &pieces {
            if want_body.contains(n) && !p.oblig.is_empty() {
                out.obligations.push(n.clone());
                out.sec(&format!("ob:{}", n), &format!("mod m_{} {{ use super::*;\n{}}}\n", n, p.oblig));
            }
        }
        // must fail: what is assumed may not prove everything
        let probe = if self.weak() { "mod m_probe { use super::*;\nproof fn probe(s: Seq<char>, t: Seq<char>) ensures false { broadcast use {group_sfx, group_weak}; assert(sfx(s, s)); }\n}\n" } else { "mod m_probe { use super::*;\nproof fn probe(s: Seq<char>, v: Vec<int>, w: &str, x: String) ensures false { broadcast use {group_sfx, group_ext}; assert(sfx(s, s)); assert(v@ == v@ && w@ == w@ && x@ == x@); assert(str_of(s)@ == s && string_of(s)@ == s); reveal_strlit(\"ab\"); assert(kwm(\"ab\"@, s) == kwm(\"ab\"@, s)); }\n}\n" };
        out.sec("probe", probe);
        out.text.push_str("}\nfn main() {}\n");
        for (n, p) in pieces {
            out.deps.insert(n, p.deps);
        }
        out
    }
    /// The contract alone of a function that cannot be translated.
    fn stub_only(&self, f: &Fun, pieces: &mut BTreeMap<String, Piece>) -> bool {
        let mut p = Piece { deps: Default::default(), spec: String::new(), exec: String::new(), oblig: String::new(), alts: Default::default(), tuples: Default::default() };
        if self.weak() {
            match &f.kind {
                Kind::Parser => {
                    let i = &f.params[0].name;
                    p.exec = format!("#[verifier::external_body]\npub fn {}<'a>({}: &'a str) -> (r: IResult<&'a str, {}>) ensures good({}, r)\n{{ unimplemented!() }}\n", f.name, i, f.out, i);
                }
                Kind::Comb => {
                    let (_, ge) = self.generics(f);
                    p.exec = format!(
                        "#[verifier::external_body]\nfn {}{}({}) -> (ret: impl Fn(&'a str) -> IResult<&'a str, {}>) {} ensures wimp(ret)\n{{ move |i: &'a str| -> IResult<&'a str, {}> {{ unimplemented!() }} }}\n",
                        f.name, ge, self.exec_params(f), f.out, self.requires(f), f.out
                    );
                }
                Kind::Direct(k) => {
                    let (_, ge) = self.generics(f);
                    p.exec = format!(
                        "#[verifier::external_body]\nfn {}{}({}) -> (r: IResult<&'a str, {}>) {} ensures good({}, r)\n{{ unimplemented!() }}\n",
                        f.name, ge, self.exec_params(f), f.out, self.requires(f), f.params[*k].name
                    );
                }
                _ => return false,
            }
        } else {
            if !self.rule_of(f) {
                return false;
            }
            match &f.kind {
                Kind::Parser => {
                    let i = &f.params[0].name;
                    p.exec = format!(
                        "#[verifier::external_body]\npub fn {}<'a>({}: &'a str) -> (r: IResult<&'a str, {}>) ensures pr(r) == {}_s({}@), sfr({}@, r)\n{{ unimplemented!() }}\n",
                        f.name, i, f.out, f.name, i, i
                    );
                }
                Kind::Pred => {
                    let c = &f.params[0].name;
                    p.exec = format!("#[verifier::external_body]\nfn {}({}: char) -> (r: bool) ensures r == {}_s({})\n{{ unimplemented!() }}\n", f.name, c, f.name, c);
                }
                Kind::Comb if f.name == "tag_no_case" => {
                    p.exec = "#[verifier::external_body]\nfn tag_no_case<'a>(tag: &'a str) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>) ensures imp(ret, tag_no_case_s(tag@))\n{ move |i: &'a str| -> IResult<&'a str, &'a str> { unimplemented!() } }\n".into();
                }
                _ => return false,
            }
        }
        pieces.insert(f.name.clone(), p);
        true
    }
}

fn rename(t: &str, clash: &BTreeSet<&str>) -> String {
    if clash.is_empty() {
        return t.to_string();
    }
    let mut o = String::new();
    let mut w = String::new();
    for c in t.chars().chain(Some('\n')) {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
            continue;
        }
        if let Some(k) = w.rfind('_') {
            let stem = match &w[k + 1..] {
                "s" => {
                    let b = &w[..k];
                    match b.rfind("_a") {
                        Some(j) if b[j + 2..].chars().all(|c| c.is_ascii_digit()) && b.len() > j + 2 => &b[..j],
                        _ => b,
                    }
                }
                "def" | "unfold" => &w[..k],
                _ => "",
            };
            if clash.contains(stem) {
                o.push_str("gx_");
            }
        }
        o.push_str(&w);
        w.clear();
        o.push(c);
    }
    o.pop();
    o
}
fn list(n: usize, f: impl Fn(usize) -> String) -> String {
    (1..=n).map(f).collect::<Vec<_>>().join(", ")
}
pub fn alt_text(n: usize, weak: bool) -> String {
    let mut o = String::new();
    if !weak {
        let mut b = format!("d{}(s)", n);
        for k in (1..n).rev() {
            b = format!("match d{}(s) {{ PR::Error => {}, e => e }}", k, b);
        }
        o.push_str(&format!("pub open spec fn alt{}_s<O>({}) -> P<O> {{ |s: Seq<char>| {} }}\n", n, list(n, |k| format!("d{}: P<O>", k)), b));
    }
    let mut b = format!("f{}(input)", n);
    for k in (1..n).rev() {
        b = format!("match f{}(input.clone()) {{ Err(Err::Error(e)) => {}, res => res }}", k, b);
    }
    let gh = if weak { String::new() } else { format!(", {}", list(n, |k| format!("Ghost(d{}): Ghost<P<O>>", k))) };
    let req = if weak { list(n, |k| format!("wimp(f{})", k)) } else { list(n, |k| format!("imp(f{}, d{})", k, k)) };
    let (ens, cens) = if weak {
        ("wimp(ret)".to_string(), "good(input, r)".to_string())
    } else {
        let d = format!("alt{}_s({})", n, list(n, |k| format!("d{}", k)));
        (format!("imp(ret, {})", d), format!("pr(r) == {}(input@) && sfr(input@, r)", d))
    };
    o.push_str(&format!(
        "pub fn alt{n}<'a, O, {gs}>({ps}{gh}) -> (ret: impl Fn(&'a str) -> IResult<&'a str, O>)\nwhere {wh} requires {req} ensures {ens}\n{{ move |input: &'a str| -> (r: IResult<&'a str, O>) ensures {cens} {{ {b} }} }}\n",
        n = n, gs = list(n, |k| format!("F{}", k)), ps = list(n, |k| format!("f{}: F{}", k, k)), gh = gh,
        wh = list(n, |k| format!("F{}: Fn(&'a str) -> IResult<&'a str, O>", k)), req = req, ens = ens, cens = cens, b = b
    ));
    o
}
pub fn tuple_text(n: usize, weak: bool) -> String {
    let mut o = String::new();
    let ty = format!("({})", list(n, |k| format!("O{}", k)) + if n == 1 { "," } else { "" });
    let val = format!("({})", list(n, |k| format!("o{}", k)) + if n == 1 { "," } else { "" });
    if !weak {
        let mut b = format!("PR::Ok(s{}, {})", n, val);
        for k in (1..=n).rev() {
            b = format!("match d{}(s{}) {{ PR::Ok(s{}, o{}) => {}, e => fail(e) }}", k, k - 1, k, k, b);
        }
        o.push_str(&format!(
            "pub open spec fn tuple{}_s<{}>({}) -> P<{}> {{ |s0: Seq<char>| {} }}\n",
            n, list(n, |k| format!("O{}", k)), list(n, |k| format!("d{}: P<O{}>", k, k)), ty, b
        ));
    }
    let mut b = String::new();
    for k in 1..=n {
        b.push_str(&format!("let (input, o{}) = f{}(input)?; ", k, k));
    }
    b.push_str(&format!("Ok((input, {}))", val));
    let gh = if weak { String::new() } else { format!(", {}", list(n, |k| format!("Ghost(d{}): Ghost<P<O{}>>", k, k))) };
    let req = if weak { list(n, |k| format!("wimp(f{})", k)) } else { list(n, |k| format!("imp(f{}, d{})", k, k)) };
    let (ens, cens) = if weak {
        ("wimp(ret)".to_string(), "good(input, r)".to_string())
    } else {
        let d = format!("tuple{}_s({})", n, list(n, |k| format!("d{}", k)));
        (format!("imp(ret, {})", d), format!("pr(r) == {}(input@) && sfr(input@, r)", d))
    };
    let bu = if weak { "broadcast use {group_sfx, group_weak};" } else { "broadcast use group_sfx;" };
    o.push_str(&format!(
        "pub fn tuple{n}<'a, {os}, {gs}>({ps}{gh}) -> (ret: impl Fn(&'a str) -> IResult<&'a str, {ty}>)\nwhere {wh} requires {req} ensures {ens}\n{{ {bu} move |input: &'a str| -> (r: IResult<&'a str, {ty}>) ensures {cens} {{ {b} }} }}\n",
        n = n, os = list(n, |k| format!("O{}", k)), gs = list(n, |k| format!("F{}", k)), ps = list(n, |k| format!("f{}: F{}", k, k)), gh = gh, ty = ty,
        wh = list(n, |k| format!("F{}: Fn(&'a str) -> IResult<&'a str, O{}>", k, k)), req = req, ens = ens, cens = cens, b = b, bu = bu
    ));
    o
}
