//! What a text must start with for a grammar expression to accept it: the
//! lemmas that let alternatives which exclude each other change places.
use crate::dsl::{strlit, Ce, Grammar, P};
use std::collections::{BTreeMap, BTreeSet};

pub type Set = Vec<(u32, u32)>;
const MAX: u32 = 0x10ffff;

#[derive(Clone, Debug)]
pub struct Pre {
    /// not Error: at least this many characters, each in its set
    pub cs: Vec<Set>,
    /// the exact number of characters read, if there is only one
    pub fix: Option<usize>,
    /// may succeed without reading
    pub nullable: bool,
    /// what it starts with when it reads something
    pub first: Set,
}

pub fn norm(mut v: Set) -> Set {
    v.sort();
    let mut o: Set = vec![];
    for (a, b) in v {
        match o.last_mut() {
            Some(l) if a <= l.1.saturating_add(1) => l.1 = l.1.max(b),
            _ => o.push((a, b)),
        }
    }
    o
}
fn union(a: &Set, b: &Set) -> Set {
    norm(a.iter().chain(b).cloned().collect())
}
fn comp(a: &Set) -> Set {
    let mut o = vec![];
    let mut at = 0;
    for (x, y) in norm(a.clone()) {
        if x > at {
            o.push((at, x - 1));
        }
        at = y + 1;
    }
    if at <= MAX {
        o.push((at, MAX));
    }
    o
}
pub fn meet(a: &Set, b: &Set) -> bool {
    a.iter().any(|x| b.iter().any(|y| x.0 <= y.1 && y.0 <= x.1))
}
fn one(c: char) -> Set {
    vec![(c as u32, c as u32)]
}
fn letter(c: char) -> Set {
    norm(vec![(c.to_ascii_lowercase() as u32, c.to_ascii_lowercase() as u32), (c.to_ascii_uppercase() as u32, c.to_ascii_uppercase() as u32)])
}
pub fn cond(s: &Set, e: &str) -> String {
    if s.len() == 1 && s[0] == (0, MAX) {
        return "true".into();
    }
    let v: Vec<String> = s.iter().map(|(a, b)| if a == b { format!("{} as u32 == {}", e, a) } else { format!("({} <= {} as u32 && {} as u32 <= {})", a, e, e, b) }).collect();
    if v.is_empty() {
        return "false".into();
    }
    format!("({})", v.join(" || "))
}

pub struct First<'g> {
    g: &'g Grammar,
    memo: BTreeMap<String, Pre>,
    /// Look past a fixed start into rules that lead back into the grammar.
    /// Only for the alternatives themselves, never inside the rules they use:
    /// what those start with then has an end.
    deep: bool,
}
impl<'g> First<'g> {
    pub fn new(g: &'g Grammar) -> Self {
        First { g, memo: BTreeMap::new(), deep: false }
    }
    /// `pre` of an alternative.
    fn top(&mut self, p: &P) -> Pre {
        self.deep = true;
        self.pre(p)
    }
    fn class(&self, n: &str) -> Set {
        let c = self.g.class(n).unwrap();
        let mut o = vec![];
        for i in &c.items {
            match i {
                Ce::Range(a, b) => o.push((*a, *b)),
                Ce::Class(m) => o.extend(self.class(m)),
            }
        }
        if c.neg {
            comp(&o)
        } else {
            norm(o)
        }
    }
    fn zero(first: Set) -> Pre {
        Pre { cs: vec![], fix: None, nullable: true, first }
    }
    pub fn pre(&mut self, p: &P) -> Pre {
        let deep = std::mem::replace(&mut self.deep, false);
        let lit = |cs: Vec<Set>| {
            if cs.is_empty() {
                return Pre { cs: vec![], fix: Some(0), nullable: true, first: vec![] };
            }
            Pre { fix: Some(cs.len()), nullable: false, first: cs[0].clone(), cs }
        };
        match p {
            P::Kw(k) => lit(k.chars().map(letter).collect()),
            P::Lit(k) => lit(k.chars().map(one).collect()),
            P::OneOf(k) => lit(vec![norm(k.chars().map(|c| (c as u32, c as u32)).collect())]),
            P::NoneOf(k) => lit(vec![comp(&k.chars().map(|c| (c as u32, c as u32)).collect())]),
            P::Cls(c) => lit(vec![self.class(c)]),
            P::Run(c, n) => {
                let s = self.class(c);
                if *n == 0 {
                    Self::zero(s)
                } else {
                    Pre { cs: vec![s.clone()], fix: None, nullable: false, first: s }
                }
            }
            P::Prim(n) => {
                let al = vec![(65, 90), (97, 122)];
                let s = match n.as_str() {
                    "alpha1" => al,
                    "digit1" => vec![(48, 57)],
                    "alphanumeric1" => union(&al, &vec![(48, 57)]),
                    _ => vec![(0, MAX)],
                };
                Pre { cs: vec![s.clone()], fix: None, nullable: false, first: s }
            }
            P::Ref(n) => {
                if let Some(p) = self.memo.get(n) {
                    return p.clone();
                }
                let r = self.g.rule(n).unwrap();
                let q = self.pre(&r.p);
                self.memo.insert(n.clone(), q.clone());
                q
            }
            P::Many(x, n) => {
                let q = self.pre(x);
                if *n == 0 {
                    Self::zero(q.first)
                } else {
                    Pre { fix: None, ..q }
                }
            }
            P::Opt(x) => Self::zero(self.pre(x).first),
            P::List(x, _, n) => {
                let q = self.pre(x);
                if *n == 0 {
                    Self::zero(q.first)
                } else {
                    Pre { fix: None, ..q }
                }
            }
            P::Text(x) => self.pre(x),
            P::Commit(_) | P::Esc(..) | P::Not(_) => Self::zero(vec![(0, MAX)]),
            P::Val(..) => Pre { cs: vec![], fix: Some(0), nullable: true, first: vec![] },
            P::Alt(v) => {
                let ps: Vec<Pre> = v.iter().map(|x| self.pre(x)).collect();
                let n = ps.iter().map(|p| p.cs.len()).min().unwrap_or(0);
                let cs = (0..n).map(|k| norm(ps.iter().flat_map(|p| p.cs[k].clone()).collect())).collect();
                let fix = ps[0].fix.filter(|f| ps.iter().all(|p| p.fix == Some(*f)));
                Pre { cs, fix, nullable: ps.iter().any(|p| p.nullable), first: norm(ps.iter().flat_map(|p| p.first.clone()).collect()) }
            }
            P::Seq(v, _) => {
                let mut cs: Vec<Set> = vec![];
                let mut open: Set = vec![];
                let mut fixed = true;
                for (k, i) in v.iter().enumerate() {
                    if !cs.is_empty() && !deep && !shallow(&i.p) {
                        fixed = false;
                        break;
                    }
                    let q = self.pre(&i.p);
                    if q.nullable {
                        if q.fix == Some(0) {
                            continue;
                        }
                        open = union(&open, &q.first);
                        fixed = false;
                        if k + 1 == v.len() {
                            break;
                        }
                        continue;
                    }
                    if open.is_empty() {
                        cs.extend(q.cs.clone());
                        if q.fix.is_none() || !fixed {
                            fixed = false;
                            break;
                        }
                    } else {
                        let f = union(&open, &q.cs[0]);
                        cs.push(f);
                        open.clear();
                        fixed = false;
                        break;
                    }
                }
                let nullable = cs.is_empty();
                let first = if nullable { open } else { cs[0].clone() };
                let fix = if fixed { Some(cs.len()) } else { None };
                Pre { cs, fix, nullable, first }
            }
            _ => Self::zero(vec![(0, MAX)]),
        }
    }
    fn concl(q: &Pre, call: &str) -> String {
        if q.nullable {
            format!("(s.len() == 0 || !{}) ==> (match {} {{ PR::Ok(r_, _) => r_ == s, PR::Error => true, _ => false }})", cond(&q.first, "s[0]"), call)
        } else {
            let v: Vec<String> = q.cs.iter().enumerate().map(|(k, c)| cond(c, &format!("s[{}]", k))).collect();
            format!("!({} is Error) ==> (s.len() >= {} && {})", call, q.cs.len(), v.join(" && "))
        }
    }
    /// The facts about the first characters an expression looks at.
    fn facts(&mut self, p: &P, at: usize, o: &mut String, deps: &mut BTreeSet<String>) {
        let deep = std::mem::replace(&mut self.deep, false);
        let pos = if at == 0 { "s".to_string() } else { format!("s.skip({})", at) };
        match p {
            P::Kw(k) | P::Lit(k) => {
                let f = if matches!(p, P::Kw(_)) { "kw_at" } else { "tag_at" };
                if k.is_empty() {
                    return;
                }
                o.push_str(&format!("reveal_strlit({}); ", rlit(k)));
                for j in 0..k.chars().count() {
                    o.push_str(&format!("{}({}@, {}, {}); ", f, rlit(k), pos, j));
                }
            }
            P::OneOf(k) | P::NoneOf(k) => {
                o.push_str(&format!("reveal_strlit({}); ", rlit(k)));
                if k.chars().count() <= 24 {
                    let cs: Vec<char> = k.chars().collect();
                    let eqs: Vec<String> = cs.iter().map(|c| format!("c == {}", crate::dsl::chr(*c))).collect();
                    let by: Vec<String> = cs.iter().enumerate().map(|(j, c)| format!("if c == {} {{ assert({}@[{}] == c); }}", crate::dsl::chr(*c), rlit(k), j)).collect();
                    o.push_str(&format!("assert forall|c: char| #[trigger] {}@.contains(c) == ({}) by {{ {} }} ", rlit(k), eqs.join(" || "), by.join(" ")));
                }
            }
            P::Ref(n) => {
                deps.insert(n.clone());
                o.push_str(&format!("{}_pre({}); ", n, pos));
            }
            P::Many(x, _) | P::Opt(x) | P::List(x, _, _) | P::Text(x) => self.facts(x, at, o, deps),
            P::Alt(v) => v.iter().for_each(|x| self.facts(x, at, o, deps)),
            P::Seq(v, _) => {
                let mut a = at;
                for (k, i) in v.iter().enumerate() {
                    if a > at && !deep && !shallow(&i.p) {
                        break;
                    }
                    self.facts(&i.p, a, o, deps);
                    let q = self.pre(&i.p);
                    match q.fix {
                        Some(n) => a += n,
                        None if q.nullable => {}
                        None => break,
                    }
                    if a > at && q.nullable && q.fix != Some(0) {
                        // the next one starts here, if this one reads nothing
                        if let Some(n) = v.get(k + 1) {
                            if deep || shallow(&n.p) {
                                self.facts(&n.p, a, o, deps);
                            }
                        }
                        break;
                    }
                }
            }
            _ => {}
        }
    }
    /// `NAME_pre` and the lemmas it needs.
    fn lemma(&mut self, name: &str, spec: &str, open: &str, p: &P, deep: bool, opener: &dyn Fn(&str) -> String, done: &mut BTreeSet<String>, out: &mut String) {
        if !done.insert(name.to_string()) {
            return;
        }
        let q = if deep { self.top(p) } else { self.pre(p) };
        let mut f = String::new();
        let mut deps = BTreeSet::new();
        self.deep = deep;
        self.facts(p, 0, &mut f, &mut deps);
        for d in &deps {
            let r = self.g.rule(d).unwrap();
            self.lemma(d, &format!("{}_s(s)", d), &opener(d), &r.p, false, opener, done, out);
        }
        let mut look = String::new();
        for k in 0..q.cs.len() {
            look.push_str(&format!("if s.len() > {} {{ assert(s.skip({})[0] == s[{}]); }} ", k, k, k));
        }
        out.push_str(&format!("proof fn {}_pre(s: Seq<char>) ensures {} {{ broadcast use {{group_sfx, group_ext}}; reveal(rep); assert(s.skip(0) =~= s); {}{}{} }}\n", name, Self::concl(&q, spec), open, f, look));
    }
    /// What each alternative starts with: lemmas, and their use at the text `i`.
    pub fn starts(&mut self, rule: &str, v: &[P], i: &str, opener: &dyn Fn(&str) -> String) -> (String, String) {
        let (mut out, mut use_) = (String::new(), String::new());
        let mut done = BTreeSet::new();
        for (k, p) in v.iter().enumerate() {
            if self.top(p).nullable {
                continue;
            }
            let n = format!("{}_a{}", rule, k + 1);
            self.lemma(&n, &format!("{}_s(s)", n), &format!("reveal({}_s); ", n), p, true, opener, &mut done, &mut out);
            use_.push_str(&format!("{}_pre({}); ", n, i));
        }
        (out, use_)
    }
    pub fn apart(&mut self, a: &P, b: &P) -> bool {
        let (x, y) = (self.top(a), self.top(b));
        !x.nullable && !y.nullable && x.cs.iter().zip(&y.cs).any(|(s, t)| !meet(s, t))
    }
    /// Lemmas `RULE_apart_I_J` for the pairs of alternatives (numbered from 1).
    pub fn apart_lemmas(&mut self, rule: &str, v: &[P], pairs: &[(usize, usize)], opener: &dyn Fn(&str) -> String) -> String {
        let mut out = String::new();
        let mut done = BTreeSet::new();
        let need: BTreeSet<usize> = pairs.iter().flat_map(|(a, b)| vec![*a, *b]).collect();
        for k in need {
            let spec = format!("{}_a{}_s(s)", rule, k);
            self.lemma(&format!("{}_a{}", rule, k), &spec, &format!("reveal({}_a{}_s); ", rule, k), &v[k - 1], true, opener, &mut done, &mut out);
        }
        for (a, b) in pairs {
            out.push_str(&format!(
                "proof fn {r}_apart_{a}_{b}(s: Seq<char>) ensures {r}_a{a}_s(s) is Error || {r}_a{b}_s(s) is Error {{ {r}_a{a}_pre(s); {r}_a{b}_pre(s); }}\n",
                r = rule
            ));
        }
        out
    }
}
/// Which rules never fail for good and never ask for more input: with those,
/// `match p(i) { Err(_) => .. }` is `alt`.  Rules that lead back to themselves
/// are left out: the lemmas have no induction.
pub struct Soft<'g> {
    g: &'g Grammar,
    br: BTreeSet<String>,
    memo: BTreeMap<String, bool>,
}
impl<'g> Soft<'g> {
    pub fn new(g: &'g Grammar) -> Self {
        Soft { g, br: g.breakers(), memo: BTreeMap::new() }
    }
    pub fn rule(&mut self, n: &str) -> bool {
        if let Some(b) = self.memo.get(n) {
            return *b;
        }
        let b = !self.br.contains(n) && self.g.rule(n).map_or(false, |r| self.expr(&r.p));
        self.memo.insert(n.to_string(), b);
        b
    }
    fn expr(&mut self, p: &P) -> bool {
        match p {
            P::Commit(_) => false,
            P::Ref(n) => self.rule(n),
            P::Many(x, _) | P::Opt(x) | P::Text(x) | P::Not(x) => self.expr(x),
            P::List(x, y, _) => self.expr(x) && self.expr(y),
            P::Esc(x, _, y) => [x, y].iter().all(|x| matches!(***x, P::OneOf(_) | P::NoneOf(_) | P::Cls(_))),
            P::Seq(v, _) => v.iter().all(|i| self.expr(&i.p)),
            P::Alt(v) => v.iter().all(|x| self.expr(x)),
            P::Macro(..) | P::Arg(_) | P::Name(_) => false,
            _ => true,
        }
    }
    /// `X_soft` for the soft ones among `names` and what they call; the names of the lemmas.
    pub fn lemmas(&mut self, names: &BTreeSet<String>, opener: &dyn Fn(&str) -> String, out: &mut String) -> Vec<String> {
        let mut done = BTreeSet::new();
        let mut top = vec![];
        for n in names {
            if self.rule(n) {
                self.lemma(n, opener, &mut done, out);
                top.push(format!("{}_soft", n));
            }
        }
        top
    }
    fn lemma(&mut self, n: &str, opener: &dyn Fn(&str) -> String, done: &mut BTreeSet<String>, out: &mut String) {
        if !done.insert(n.to_string()) {
            return;
        }
        let mut deps = BTreeSet::new();
        Grammar::refs(&self.g.rule(n).unwrap().p, &mut deps);
        let mut used = vec!["group_soft".to_string()];
        for d in &deps {
            self.lemma(d, opener, done, out);
            used.push(format!("{}_soft", d));
        }
        out.push_str(&format!("broadcast proof fn {n}_soft(s: Seq<char>) ensures soft(#[trigger] {n}_s(s)) {{ broadcast use {{{}}}; {} }}\n", used.join(", "), opener(n)));
    }
}
/// Expressions worth following after a fixed start: they do not lead back into the grammar.
fn shallow(p: &P) -> bool {
    match p {
        P::Kw(_) | P::Lit(_) | P::OneOf(_) | P::NoneOf(_) | P::Cls(_) | P::Run(..) | P::Val(..) => true,
        P::Ref(n) => n == "sp" || n == "sp1",
        _ => false,
    }
}
fn rlit(s: &str) -> String {
    strlit(s)
}
