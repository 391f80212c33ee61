//! The grammar language of /verif/spec: parser, well-formedness checks, and
//! the three things generated from it (specification functions, executable
//! oracle, sentence generator).
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
    Id(String),
    Call(String), // identifier directly followed by `(`
    Kw(String),   // 'kw'
    Lit(String),  // "lit"
    Set(bool, String), // [..] / [^..]
    Sym(char),
    Arrow,
    Action(String),
    Cp(u32),
    Under(usize),
}

#[derive(Debug, Clone)]
pub enum P {
    Kw(String),
    Lit(String),
    OneOf(String),
    NoneOf(String),
    Cls(String),
    Run(String, usize), // class, minimum
    Prim(String),       // alpha1, ...
    Ref(String),
    Macro(String, Vec<P>),
    Arg(String),
    Name(String), // constructor name passed to a macro
    Many(Box<P>, usize),
    Opt(Box<P>),
    List(Box<P>, Box<P>, usize),
    Text(Box<P>),
    Commit(Box<P>),
    Not(Box<P>),
    Esc(Box<P>, char, Box<P>),
    Val(String, String), // i64_of(label)
    Seq(Vec<Item>, Option<String>),
    Alt(Vec<P>),
}
#[derive(Debug, Clone)]
pub struct Item {
    pub label: Option<String>,
    pub result: bool,
    pub p: P,
}
#[derive(Debug, Clone)]
pub enum Ce {
    Range(u32, u32),
    Class(String),
}
#[derive(Debug, Clone)]
pub struct Rule {
    pub name: String,
    pub ty: String,
    pub p: P,
}
#[derive(Debug, Clone)]
pub struct Class {
    pub name: String,
    pub neg: bool,
    pub items: Vec<Ce>,
}
#[derive(Default, Debug)]
pub struct Grammar {
    pub rules: Vec<Rule>,
    pub macros: BTreeMap<String, (Vec<String>, P)>,
    pub classes: Vec<Class>,
}

fn esc_char(cs: &[char], i: &mut usize) -> char {
    let c = cs[*i];
    *i += 1;
    if c != '\\' {
        return c;
    }
    let d = cs[*i];
    *i += 1;
    match d {
        'n' => '\n',
        'r' => '\r',
        't' => '\t',
        x => x,
    }
}

fn lex(src: &str) -> Vec<Tok> {
    let cs: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '/' && cs.get(i + 1) == Some(&'/') {
            while i < cs.len() && cs[i] != '\n' {
                i += 1;
            }
        } else if c == '\'' || c == '"' {
            i += 1;
            let mut s = String::new();
            while cs[i] != c {
                s.push(esc_char(&cs, &mut i));
            }
            i += 1;
            out.push(if c == '\'' { Tok::Kw(s) } else { Tok::Lit(s) });
        } else if c == '=' && cs.get(i + 1) == Some(&'>') {
            i += 2;
            out.push(Tok::Arrow);
            while cs[i].is_whitespace() {
                i += 1;
            }
            assert_eq!(cs[i], '{', "action expected");
            let mut depth = 0;
            let st = i + 1;
            loop {
                match cs[i] {
                    '{' => depth += 1,
                    '}' => {
                        depth -= 1;
                        if depth == 0 {
                            break;
                        }
                    }
                    _ => {}
                }
                i += 1;
            }
            out.push(Tok::Action(cs[st..i].iter().collect::<String>().trim().to_string()));
            i += 1;
        } else if c == 'U' && cs.get(i + 1) == Some(&'+') {
            i += 2;
            let st = i;
            while i < cs.len() && cs[i].is_ascii_hexdigit() {
                i += 1;
            }
            out.push(Tok::Cp(u32::from_str_radix(&cs[st..i].iter().collect::<String>(), 16).unwrap()));
        } else if c == '_' && !cs.get(i + 1).map_or(false, |d| d.is_alphanumeric()) {
            let mut n = 0;
            while i < cs.len() && cs[i] == '_' {
                n += 1;
                i += 1;
            }
            out.push(Tok::Under(n));
        } else if c.is_alphabetic() || c == '_' {
            let st = i;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            let n: String = cs[st..i].iter().collect();
            out.push(if cs.get(i) == Some(&'(') { Tok::Call(n) } else { Tok::Id(n) });
        } else if c == '[' {
            // raw character set, unless we are in a class definition (handled there)
            i += 1;
            let neg = cs[i] == '^';
            if neg {
                i += 1;
            }
            let mut s = String::new();
            while cs[i] != ']' {
                s.push(esc_char(&cs, &mut i));
            }
            i += 1;
            out.push(Tok::Set(neg, s));
        } else {
            out.push(Tok::Sym(c));
            i += 1;
        }
    }
    out
}

struct Ps {
    t: Vec<Tok>,
    i: usize,
}
impl Ps {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok {
        self.i += 1;
        self.t[self.i - 1].clone()
    }
    fn sym(&mut self, c: char) {
        let t = self.next();
        assert_eq!(t, Tok::Sym(c), "near token {}: {:?}", self.i, &self.t[self.i.saturating_sub(12)..self.i]);
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::Sym(c))
    }
    fn id(&mut self) -> String {
        match self.next() {
            Tok::Id(s) | Tok::Call(s) => s,
            t => panic!("identifier expected, found {:?} near {:?}", t, &self.t[self.i.saturating_sub(12)..self.i]),
        }
    }
    fn alt(&mut self, params: &[String]) -> P {
        let mut v = vec![self.seq(params)];
        while self.is('/') {
            self.next();
            v.push(self.seq(params));
        }
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            P::Alt(v)
        }
    }
    fn seq(&mut self, params: &[String]) -> P {
        let mut items = vec![];
        let mut action = None;
        loop {
            match self.peek() {
                None => break,
                Some(Tok::Sym('/')) | Some(Tok::Sym(')')) | Some(Tok::Sym(';')) | Some(Tok::Sym(',')) => break,
                Some(Tok::Arrow) => {
                    self.next();
                    match self.next() {
                        Tok::Action(a) => action = Some(a),
                        _ => unreachable!(),
                    }
                    break;
                }
                _ => items.push(self.item(params)),
            }
        }
        if action.is_none() && items.len() == 1 && items[0].label.is_none() {
            return items.pop().unwrap().p;
        }
        P::Seq(items, action)
    }
    fn item(&mut self, params: &[String]) -> Item {
        let mut label = None;
        let mut result = false;
        if self.is('@') {
            self.next();
            result = true;
        } else if let (Some(Tok::Id(n)), Some(Tok::Sym(':'))) = (self.peek().cloned(), self.t.get(self.i + 1)) {
            self.i += 2;
            label = Some(n);
        }
        let p = self.postfix(params);
        Item { label, result, p }
    }
    fn postfix(&mut self, params: &[String]) -> P {
        if self.is('!') {
            self.next();
            return P::Not(Box::new(self.postfix(params)));
        }
        let mut p = self.atom(params);
        loop {
            if self.is('*') || self.is('+') {
                let n = if self.is('*') { 0 } else { 1 };
                self.next();
                p = match p {
                    P::Cls(c) => P::Run(c, n),
                    p => P::Many(Box::new(p), n),
                };
            } else if self.is('?') {
                self.next();
                p = P::Opt(Box::new(p));
            } else {
                return p;
            }
        }
    }
    fn atom(&mut self, params: &[String]) -> P {
        match self.next() {
            Tok::Kw(s) => P::Kw(s),
            Tok::Lit(s) => P::Lit(s),
            Tok::Set(false, s) => P::OneOf(s),
            Tok::Set(true, s) => P::NoneOf(s),
            Tok::Under(1) => P::Ref("sp".into()),
            Tok::Under(2) => P::Ref("sp1".into()),
            Tok::Sym('<') => {
                let n = self.id();
                self.sym('>');
                P::Cls(n)
            }
            Tok::Sym('(') => {
                let p = self.alt(params);
                self.sym(')');
                // a parenthesised class is a one-character parser, not a run
                match p {
                    P::Cls(c) => P::Seq(vec![Item { label: None, result: true, p: P::Cls(c) }], None),
                    p => p,
                }
            }
            Tok::Call(n) => match n.as_str() {
                "text" | "commit" => {
                    self.sym('(');
                    let p = Box::new(self.alt(params));
                    self.sym(')');
                    if n == "text" { P::Text(p) } else { P::Commit(p) }
                }
                "list1" | "list0" => {
                    self.sym('(');
                    let p = Box::new(self.alt(params));
                    self.sym(';');
                    let s = Box::new(self.alt(params));
                    self.sym(')');
                    P::List(p, s, if n == "list1" { 1 } else { 0 })
                }
                "escaped" => {
                    self.sym('(');
                    let a = Box::new(self.alt(params));
                    self.sym(',');
                    let c = match self.next() {
                        Tok::Kw(s) => s.chars().next().unwrap(),
                        t => panic!("{:?}", t),
                    };
                    self.sym(',');
                    let b = Box::new(self.alt(params));
                    self.sym(')');
                    P::Esc(a, c, b)
                }
                "i64_of" | "u64_of" | "f64_of" => {
                    self.sym('(');
                    let l = self.id();
                    self.sym(')');
                    P::Val(n[..3].to_string(), l)
                }
                _ => {
                    {
                        self.next();
                        let mut args = vec![];
                        while !self.is(')') {
                            // a lone capitalised identifier is a constructor name
                            if let (Some(Tok::Id(x)), Some(Tok::Sym(',')) | Some(Tok::Sym(')'))) =
                                (self.peek().cloned(), self.t.get(self.i + 1))
                            {
                                if x.chars().next().unwrap().is_uppercase() {
                                    self.next();
                                    args.push(P::Name(x));
                                    if self.is(',') {
                                        self.next();
                                    }
                                    continue;
                                }
                            }
                            args.push(self.alt(params));
                            if self.is(',') {
                                self.next();
                            }
                        }
                        self.next();
                        P::Macro(n, args)
                    }
                }
            },
            Tok::Id(n) => match n.as_str() {
                "digit1" | "alpha1" | "alphanumeric1" => P::Prim(n),
                _ if params.contains(&n) => P::Arg(n),
                _ => P::Ref(n),
            },
            t => panic!("unexpected {:?} near {:?}", t, &self.t[self.i.saturating_sub(12)..self.i]),
        }
    }
}

fn subst(p: &P, m: &BTreeMap<String, P>, g: &Grammar) -> P {
    let b = |p: &P| Box::new(subst(p, m, g));
    match p {
        P::Arg(n) => m[n].clone(),
        P::Macro(n, args) => {
            let (ps, body) = g.macros.get(n).unwrap_or_else(|| panic!("macro {}", n));
            assert_eq!(ps.len(), args.len());
            let args: Vec<P> = args.iter().map(|a| subst(a, m, g)).collect();
            let mm: BTreeMap<String, P> = ps.iter().cloned().zip(args).collect();
            subst(body, &mm, g)
        }
        P::Many(x, n) => P::Many(b(x), *n),
        P::Opt(x) => P::Opt(b(x)),
        P::List(x, s, n) => P::List(b(x), b(s), *n),
        P::Text(x) => P::Text(b(x)),
        P::Commit(x) => P::Commit(b(x)),
        P::Not(x) => P::Not(b(x)),
        P::Esc(x, c, y) => P::Esc(b(x), *c, b(y)),
        P::Seq(items, act) => {
            let items = items
                .iter()
                .map(|i| Item { label: i.label.clone(), result: i.result, p: subst(&i.p, m, g) })
                .collect();
            let act = act.as_ref().map(|a| {
                let mut a = a.clone();
                for (k, v) in m {
                    if let P::Name(n) = v {
                        a = replace_word(&a, k, n);
                    }
                }
                a
            });
            P::Seq(items, act)
        }
        P::Alt(v) => P::Alt(v.iter().map(|x| subst(x, m, g)).collect()),
        x => x.clone(),
    }
}
fn replace_word(s: &str, w: &str, by: &str) -> String {
    let mut out = String::new();
    let mut cur = String::new();
    for c in s.chars().chain(std::iter::once(' ')) {
        if c.is_alphanumeric() || c == '_' {
            cur.push(c);
        } else {
            out.push_str(if cur == w { by } else { &cur });
            cur.clear();
            out.push(c);
        }
    }
    out.pop();
    out
}

pub fn parse(src: &str) -> Grammar {
    // classes are lexed apart: their brackets hold elements, not raw characters
    let mut g = Grammar::default();
    let mut rest = String::new();
    for line in split_defs(src) {
        let l = line.trim_start();
        if l.starts_with("class ") {
            g.classes.push(parse_class(l));
        } else {
            rest.push_str(&line);
            rest.push('\n');
        }
    }
    let mut ps = Ps { t: lex(&rest), i: 0 };
    let mut raw = vec![];
    while ps.peek().is_some() {
        let k = ps.id();
        match k.as_str() {
            "macro" => {
                let n = ps.id();
                ps.sym('(');
                let mut params = vec![];
                while !ps.is(')') {
                    params.push(ps.id());
                    if ps.is(',') {
                        ps.next();
                    }
                }
                ps.next();
                ps.sym('=');
                let p = ps.alt(&params);
                ps.sym(';');
                g.macros.insert(n, (params, p));
            }
            "rule" => {
                let n = ps.id();
                ps.sym(':');
                let mut ty = String::new();
                while !ps.is('=') {
                    match ps.next() {
                        Tok::Id(s) => ty.push_str(&s),
                        Tok::Sym(',') => ty.push_str(", "),
                        Tok::Sym(c) => ty.push(c),
                        t => panic!("{:?}", t),
                    }
                }
                ps.sym('=');
                let p = ps.alt(&[]);
                ps.sym(';');
                raw.push((n, ty, p));
            }
            k => panic!("unexpected {}", k),
        }
    }
    for (name, ty, p) in raw {
        let p = subst(&p, &BTreeMap::new(), &g);
        g.rules.push(Rule { name, ty, p });
    }
    g
}

// definitions start at the beginning of a line with `class`, `macro` or `rule`
fn split_defs(src: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for l in src.lines() {
        if l.starts_with("//") {
            continue;
        }
        if ["class ", "macro ", "rule "].iter().any(|k| l.starts_with(k)) || out.is_empty() {
            out.push(String::new());
        }
        let o = out.last_mut().unwrap();
        o.push_str(l);
        o.push('\n');
    }
    out
}

fn parse_class(l: &str) -> Class {
    let l = l.trim_start_matches("class ").trim();
    let (name, body) = l.split_once('=').unwrap();
    let body = body.trim();
    let body = body.strip_prefix('[').unwrap();
    let body = body.trim_end().strip_suffix(';').unwrap().trim_end().strip_suffix(']').unwrap();
    let (neg, body) = match body.strip_prefix('^') {
        Some(b) => (true, b),
        None => (false, body),
    };
    let cs: Vec<char> = body.chars().collect();
    let mut i = 0;
    let mut items: Vec<Ce> = vec![];
    let ch = |i: &mut usize| -> u32 {
        if cs[*i] == '\'' {
            *i += 1;
            let c = esc_char(&cs, i);
            assert_eq!(cs[*i], '\'');
            *i += 1;
            c as u32
        } else {
            assert_eq!(cs[*i], 'U');
            *i += 2;
            let st = *i;
            while *i < cs.len() && cs[*i].is_ascii_hexdigit() {
                *i += 1;
            }
            u32::from_str_radix(&cs[st..*i].iter().collect::<String>(), 16).unwrap()
        }
    };
    while i < cs.len() {
        if cs[i].is_whitespace() {
            i += 1;
        } else if cs[i] == '\'' || (cs[i] == 'U' && cs.get(i + 1) == Some(&'+')) {
            let a = ch(&mut i);
            if cs.get(i) == Some(&'-') {
                i += 1;
                let b = ch(&mut i);
                items.push(Ce::Range(a, b));
            } else {
                items.push(Ce::Range(a, a));
            }
        } else {
            let st = i;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            items.push(Ce::Class(cs[st..i].iter().collect()));
        }
    }
    Class { name: name.trim().to_string(), neg, items }
}

// ------------------------------------------------------------------ checks
impl Grammar {
    pub fn rule(&self, n: &str) -> Option<&Rule> {
        self.rules.iter().find(|r| r.name == n)
    }
    pub fn class(&self, n: &str) -> Option<&Class> {
        self.classes.iter().find(|r| r.name == n)
    }
    pub fn refs(p: &P, out: &mut BTreeSet<String>) {
        match p {
            P::Ref(n) => {
                out.insert(n.clone());
            }
            P::Many(x, _) | P::Opt(x) | P::Text(x) | P::Commit(x) | P::Not(x) => Self::refs(x, out),
            P::List(x, s, _) => {
                Self::refs(x, out);
                Self::refs(s, out)
            }
            P::Esc(x, _, y) => {
                Self::refs(x, out);
                Self::refs(y, out)
            }
            P::Seq(v, _) => v.iter().for_each(|i| Self::refs(&i.p, out)),
            P::Alt(v) => v.iter().for_each(|i| Self::refs(i, out)),
            P::Macro(..) | P::Arg(_) => panic!("unexpanded macro"),
            _ => {}
        }
    }
    pub fn classes_of(p: &P, out: &mut BTreeSet<String>) {
        match p {
            P::Cls(n) | P::Run(n, _) => {
                out.insert(n.clone());
            }
            P::Many(x, _) | P::Opt(x) | P::Text(x) | P::Commit(x) | P::Not(x) => Self::classes_of(x, out),
            P::List(x, s, _) => {
                Self::classes_of(x, out);
                Self::classes_of(s, out)
            }
            P::Esc(x, _, y) => {
                Self::classes_of(x, out);
                Self::classes_of(y, out)
            }
            P::Seq(v, _) => v.iter().for_each(|i| Self::classes_of(&i.p, out)),
            P::Alt(v) => v.iter().for_each(|i| Self::classes_of(i, out)),
            _ => {}
        }
    }
    fn nullable(&self, p: &P, nul: &BTreeSet<String>) -> bool {
        match p {
            P::Kw(s) | P::Lit(s) => s.is_empty(),
            P::OneOf(_) | P::NoneOf(_) | P::Cls(_) | P::Prim(_) => false,
            P::Run(_, n) => *n == 0,
            P::Ref(n) => nul.contains(n),
            P::Many(x, n) => *n == 0 || self.nullable(x, nul),
            P::Opt(_) | P::Not(_) | P::Val(..) | P::Esc(..) => true,
            P::List(x, _, n) => *n == 0 || self.nullable(x, nul),
            P::Text(x) | P::Commit(x) => self.nullable(x, nul),
            P::Seq(v, _) => v.iter().all(|i| self.nullable(&i.p, nul)),
            P::Alt(v) => v.iter().any(|x| self.nullable(x, nul)),
            _ => unreachable!(),
        }
    }
    fn left(&self, p: &P, nul: &BTreeSet<String>, out: &mut BTreeSet<String>) {
        match p {
            P::Ref(n) => {
                out.insert(n.clone());
            }
            P::Many(x, _) | P::Opt(x) | P::Not(x) | P::Text(x) | P::Commit(x) => self.left(x, nul, out),
            P::List(x, s, _) => {
                self.left(x, nul, out);
                if self.nullable(x, nul) {
                    self.left(s, nul, out);
                }
            }
            P::Seq(v, _) => {
                for i in v {
                    self.left(&i.p, nul, out);
                    if !self.nullable(&i.p, nul) {
                        break;
                    }
                }
            }
            P::Alt(v) => v.iter().for_each(|x| self.left(x, nul, out)),
            P::Esc(x, _, y) => {
                self.left(x, nul, out);
                self.left(y, nul, out)
            }
            _ => {}
        }
    }
    pub fn nullables(&self) -> BTreeSet<String> {
        let mut nul = BTreeSet::new();
        loop {
            let n = nul.len();
            for r in &self.rules {
                if self.nullable(&r.p, &nul) {
                    nul.insert(r.name.clone());
                }
            }
            if nul.len() == n {
                return nul;
            }
        }
    }
    /// Every reference resolves and no rule can call itself without consuming:
    /// the equations of the grammar then have exactly one solution.
    pub fn check(&self) -> Result<(), String> {
        for r in &self.rules {
            let mut s = BTreeSet::new();
            Self::refs(&r.p, &mut s);
            for n in s {
                if self.rule(&n).is_none() {
                    return Err(format!("rule {}: no rule {}", r.name, n));
                }
            }
            let mut s = BTreeSet::new();
            Self::classes_of(&r.p, &mut s);
            for n in s {
                if self.class(&n).is_none() {
                    return Err(format!("rule {}: no class {}", r.name, n));
                }
            }
        }
        let nul = self.nullables();
        let mut left: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for r in &self.rules {
            let mut s = BTreeSet::new();
            self.left(&r.p, &nul, &mut s);
            left.insert(r.name.clone(), s);
        }
        loop {
            let mut ch = false;
            for r in &self.rules {
                let cur = left[&r.name].clone();
                let mut n = cur.clone();
                for c in &cur {
                    n.extend(left[c].iter().cloned());
                }
                if n.len() > cur.len() {
                    ch = true;
                    left.insert(r.name.clone(), n);
                }
            }
            if !ch {
                break;
            }
        }
        for r in &self.rules {
            if left[&r.name].contains(&r.name) {
                return Err(format!("rule {} is left recursive", r.name));
            }
        }
        Ok(())
    }
    /// Rules that cut every cycle of the reference graph.
    pub fn breakers(&self) -> BTreeSet<String> {
        let pref = ["expression", "group_graph_pattern", "graph_node", "graph_node_path", "path_alternative", "update"];
        let mut cut: BTreeSet<String> = pref.iter().filter(|n| self.rule(n).is_some()).map(|s| s.to_string()).collect();
        loop {
            // depth first search for a cycle among the others
            let mut state: BTreeMap<String, u8> = BTreeMap::new();
            let mut found = None;
            for r in &self.rules {
                self.dfs(&r.name, &cut, &mut state, &mut found);
            }
            match found {
                Some(n) => {
                    cut.insert(n);
                }
                None => return cut,
            }
        }
    }
    fn dfs(&self, n: &str, cut: &BTreeSet<String>, st: &mut BTreeMap<String, u8>, found: &mut Option<String>) {
        if cut.contains(n) || st.get(n) == Some(&2) || found.is_some() {
            return;
        }
        if st.get(n) == Some(&1) {
            *found = Some(n.to_string());
            return;
        }
        st.insert(n.to_string(), 1);
        let mut s = BTreeSet::new();
        Self::refs(&self.rule(n).unwrap().p, &mut s);
        for m in s {
            self.dfs(&m, cut, st, found);
        }
        st.insert(n.to_string(), 2);
    }
}

// ---------------------------------------------------------------- emission
pub fn chr(c: char) -> String {
    match c {
        '\'' => "'\\''".into(),
        '\\' => "'\\\\'".into(),
        c if (' '..='~').contains(&c) => format!("'{}'", c),
        c => format!("'\\u{{{:x}}}'", c as u32),
    }
}
pub fn strlit(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (' '..='~').contains(&c) => o.push(c),
            c => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
        }
    }
    o.push('"');
    o
}

pub struct Em {
    pub spec: bool,
    n: usize,
}
impl Em {
    pub fn new(spec: bool) -> Self {
        Em { spec, n: 0 }
    }
    fn fresh(&mut self) -> String {
        self.n += 1;
        format!("t{}", self.n)
    }
    fn lam(&mut self, p: &P) -> String {
        if let P::Cls(c) = p {
            return if self.spec { format!("cls_d(|c: char| {}_s(c))", c) } else { format!("&|u: &'a str| cls_r({}_o, u)", c) };
        }
        let v = self.fresh();
        let b = self.emit(p, &v);
        if self.spec {
            format!("|{}: Seq<char>| {}", v, b)
        } else {
            format!("&|{}: &'a str| {}", v, b)
        }
    }
    /// The outcome of `p` on the text `s`.
    pub fn emit(&mut self, p: &P, s: &str) -> String {
        let sp = self.spec;
        let view = |l: &str| if sp { format!("{}@", l) } else { l.to_string() };
        match p {
            P::Kw(k) => format!("kw_r({}, {})", view(&strlit(k)), s),
            P::Lit(k) => {
                let mut it = k.chars();
                let c = it.next().unwrap();
                if it.next().is_none() {
                    format!("chr_r({}, {})", chr(c), s)
                } else {
                    format!("tag_r({}, {})", view(&strlit(k)), s)
                }
            }
            P::OneOf(k) => format!("one_of_r({}, {})", view(&strlit(k)), s),
            P::NoneOf(k) => format!("none_of_r({}, {})", view(&strlit(k)), s),
            P::Cls(c) => if sp { format!("cls_r(|c: char| {}_s(c), {})", c, s) } else { format!("cls_r({}_o, {})", c, s) },
            P::Run(c, n) => if sp { format!("run{}_r(|c: char| {}_s(c), {})", n, c, s) } else { format!("run{}_r({}_o, {})", n, c, s) },
            P::Prim(n) => format!("{}_r({})", n, s),
            P::Ref(n) => format!("{}_{}({})", n, if sp { "s" } else { "o" }, s),
            P::Many(x, n) => {
                let l = self.lam(x);
                format!("many{}_r({}, {})", n, l, s)
            }
            P::Opt(x) => {
                let a = self.emit(x, s);
                format!("match {} {{ PR::Ok(r, v) => PR::Ok(r, Some(v)), PR::Error => PR::Ok({}, None), e => fail(e) }}", a, s)
            }
            P::List(x, sep, n) => {
                let a = self.lam(sep);
                let b = self.lam(x);
                format!("list{}_r({}, {}, {})", n, a, b, s)
            }
            P::Text(x) => match &**x {
                P::Run(c, n) => if sp { format!("run{}_r(|c: char| {}_s(c), {})", n, c, s) } else { format!("run{}_r({}_o, {})", n, c, s) },
                x => {
                    let a = self.emit(x, s);
                    format!("text_r({}, {})", s, a)
                }
            },
            P::Commit(x) => {
                let a = self.emit(x, s);
                format!("commit_r({})", a)
            }
            P::Not(x) => {
                let a = self.emit(x, s);
                format!("match {} {{ PR::Ok(_, _) => PR::Error, PR::Error => PR::Ok({}, ()), e => fail(e) }}", a, s)
            }
            P::Esc(x, c, y) => {
                let a = self.lam(x);
                let b = self.lam(y);
                format!("escaped_r({}, {}, {}, {})", a, chr(*c), b, s)
            }
            P::Val(t, l) => format!("{}_r({}, {})", t, if sp { format!("{}@", l) } else { l.clone() }, s),
            P::Alt(v) => {
                let mut out = self.emit(v.last().unwrap(), s);
                for x in v[..v.len() - 1].iter().rev() {
                    let a = self.emit(x, s);
                    out = format!("match {} {{ PR::Error => {}, e => e }}", a, out);
                }
                out
            }
            P::Seq(items, act) => self.seq(items, act, s),
            P::Macro(..) | P::Arg(_) | P::Name(_) => panic!("unexpanded"),
        }
    }
    fn seq(&mut self, items: &[Item], act: &Option<String>, s: &str) -> String {
        let res = match act {
            Some(a) => a.clone(),
            None => {
                if items.iter().any(|i| i.result) {
                    "res".to_string()
                } else {
                    "()".to_string()
                }
            }
        };
        let mut cur = s.to_string();
        let mut pre = String::new();
        let mut post = String::new();
        for it in items {
            let a = self.emit(&it.p, &cur);
            let nx = self.fresh();
            let lab = match (&it.label, it.result) {
                (Some(l), _) => l.clone(),
                (None, true) => "res".to_string(),
                _ => "_".to_string(),
            };
            pre.push_str(&format!("match {} {{ PR::Ok({}, {}) => ", a, nx, lab));
            post.push_str(", e => fail(e) }");
            cur = nx;
        }
        format!("{}PR::Ok({}, {}){}", pre, cur, res, post)
    }
}

fn cls_expr(c: &Class, suffix: &str) -> String {
    let mut v = vec![];
    for it in &c.items {
        match it {
            Ce::Range(a, b) => {
                let f = |x: &u32| chr(char::from_u32(*x).unwrap());
                if a == b {
                    v.push(format!("c == {}", f(a)));
                } else {
                    v.push(format!("({} <= c && c <= {})", f(a), f(b)));
                }
            }
            Ce::Class(n) => v.push(format!("{}{}(c)", n, suffix)),
        }
    }
    let e = v.join(" || ");
    if c.neg {
        format!("!({})", e)
    } else {
        e
    }
}

impl Grammar {
    pub fn spec_text(&self, opaque: &dyn Fn(&str) -> bool, split: &dyn Fn(&str) -> bool) -> String {
        let mut o = String::new();
        for c in &self.classes {
            o.push_str(&format!("pub open spec fn {}_s(c: char) -> bool {{ {} }}\n", c.name, cls_expr(c, "_s")));
        }
        let br = self.breakers();
        for r in &self.rules {
            let lt = if r.ty.contains('&') { "<'a>" } else { "" };
            let ty = r.ty.replace("&str", "&'a str");
            let body = match &r.p {
                P::Alt(v) if split(&r.name) => {
                    let mut b = format!("{}_a{}_s(s)", r.name, v.len());
                    for k in 1..v.len() {
                        b = format!("match {}_a{}_s(s) {{ PR::Error => {}, e => e }}", r.name, v.len() - k, b);
                    }
                    for (k, x) in v.iter().enumerate() {
                        o.push_str(&format!("#[verifier::opaque] pub open spec fn {}_a{}_s{}(s: Seq<char>) -> PR<{}> {{ {} }}\n", r.name, k + 1, lt, ty, Em::new(true).emit(x, "s")));
                    }
                    b
                }
                p => Em::new(true).emit(p, "s"),
            };
            if br.contains(&r.name) {
                o.push_str(&format!("pub uninterp spec fn {}_s{}(s: Seq<char>) -> PR<{}>;\n", r.name, lt, ty));
                o.push_str(&format!("pub open spec fn {}_def{}(s: Seq<char>) -> PR<{}> {{ {} }}\n", r.name, lt, ty, body));
                o.push_str(&format!("#[verifier::external_body] pub proof fn {}_unfold(s: Seq<char>) ensures {}_s(s) == {}_def(s) {{}}\n", r.name, r.name, r.name));
            } else {
                if opaque(&r.name) {
                    o.push_str("#[verifier::opaque] ");
                }
                o.push_str(&format!("pub open spec fn {}_s{}(s: Seq<char>) -> PR<{}> {{ {} }}\n", r.name, lt, ty, body));
            }
        }
        o
    }
    pub fn oracle_class(&self, c: &Class) -> String {
        format!("pub fn {}_o(c: char) -> bool {{ {} }}", c.name, cls_expr(c, "_o"))
    }
    pub fn oracle_rule(&self, r: &Rule) -> String {
        let body = Em::new(false).emit(&r.p, "s");
        let ty = r.ty.replace("&str", "&'a str");
        format!("pub fn {}_o<'a>(s: &'a str) -> PR<'a, {}> {{ {} }}", r.name, ty, body)
    }
}
