//! Sentences of the grammar, and texts near them.
use crate::dsl::*;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Kw,
    Ws(bool), // white space; at least one character
    Tok,
}
#[derive(Clone, Debug)]
pub struct Piece {
    pub text: String,
    pub kind: Kind,
}
pub fn text_of(p: &[Piece]) -> String {
    p.iter().map(|p| p.text.as_str()).collect()
}
pub struct Gen<'g> {
    g: &'g Grammar,
    r: u64,
    height: HashMap<String, u32>,
    dist: HashMap<String, HashMap<String, u32>>, // target -> rule -> steps
    toks: Vec<String>,
    hot: Vec<String>,
    nums: Vec<u64>,
    evil: Vec<char>,
    odd: Vec<char>, // where what the standard library says about characters changes
    cls: HashMap<String, Vec<(u32, u32)>>,
    budget: i64,
    long: bool,
}
const INF: u32 = 1 << 20;
impl<'g> Gen<'g> {
    pub fn new(g: &'g Grammar, seed: u64, dict: &str, focus: &[String]) -> Self {
        let mut toks = BTreeSet::new();
        let mut hot = BTreeSet::new();
        let mut nums = BTreeSet::new();
        for l in dict.lines() {
            let v: Vec<&str> = l.splitn(3, ' ').collect();
            let f = focus.iter().any(|f| f == v[0]);
            if v[1] == "s" {
                let b: Vec<u8> = (0..v[2].len() / 2).map(|i| u8::from_str_radix(&v[2][2 * i..2 * i + 2], 16).unwrap()).collect();
                let s = String::from_utf8(b).unwrap();
                if f {
                    hot.insert(s.clone());
                }
                toks.insert(s);
            } else if let Ok(n) = v[2].parse::<u64>() {
                if n > 1 && n <= 600 {
                    nums.insert(n);
                }
                for k in [n.saturating_sub(1), n, n.saturating_add(1)] {
                    toks.insert(k.to_string());
                    if f {
                        hot.insert(k.to_string());
                    }
                }
            }
        }
        for r in &g.rules {
            lits(&r.p, &mut toks);
        }
        for t in [
            "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "1e5", "1.5", ".5", "1.", "1e", "1e+7", "-0", "00", "1.5e-3", "?x", "$y", "<a>", "<>", "a:b", ":", ":b", "a:", "'x'", "\"y\"", "'", "\"", "\\", "\\'", "''", "\"\"",
            "@en", "^^", "^^xsd:string", "_:b", "[]", "()", "( )", "[ ]", "{}", "true", "false", "a", "#c\n", "#", "//", "||", "&&", "^", "|", "!", "!=", "<=", ">=", "=", "<", ">", "+", "-", "*", "/", "?", ".", ",", ";", ":", "%41", "\\-", "'''a'''",
        ] {
            toks.insert(t.to_string());
        }
        let mut cls = HashMap::new();
        let mut evil: BTreeSet<char> = "aZ09_-.:%\\/?*+!&|^~'\"`{}[]()<>=;,@#$ \t\n\r\u{b}\u{c}\u{0}\u{7f}\u{85}\u{a0}\u{2028}\u{feff}\u{212a}\u{17f}\u{131}\u{130}\u{df}\u{1f600}\u{fffe}\u{10ffff}\u{ff10}\u{660}éß".chars().collect();
        for c in &g.classes {
            let v = ranges(g, c);
            for (a, b) in &v {
                for x in [a.wrapping_sub(1), *a, *b, b + 1] {
                    if let Some(x) = char::from_u32(x) {
                        evil.insert(x);
                    }
                }
            }
            cls.insert(c.name.clone(), v);
        }
        let kinds = |c: char| (c.is_alphabetic(), c.is_numeric(), c.is_whitespace(), c.is_lowercase(), c.is_uppercase(), c.is_control(), c.len_utf8(), c.is_ascii());
        let mut odd: Vec<char> = vec![];
        let mut last = '\0';
        for u in 1..=0x10ffffu32 {
            if let Some(c) = char::from_u32(u) {
                if kinds(c) != kinds(last) {
                    odd.push(last);
                    odd.push(c);
                }
                last = c;
            }
        }
        let mut me = Gen { odd, g, r: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1, height: HashMap::new(), dist: HashMap::new(), toks: toks.into_iter().collect(), hot: hot.into_iter().collect(), nums: nums.into_iter().collect(), evil: evil.into_iter().collect(), cls, budget: 0, long: false };
        loop {
            let mut ch = false;
            for r in &g.rules {
                let h = me.h(&r.p).saturating_add(1);
                if h < *me.height.get(&r.name).unwrap_or(&INF) {
                    me.height.insert(r.name.clone(), h);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        me
    }
    pub fn rnd(&mut self) -> u64 {
        self.r ^= self.r << 13;
        self.r ^= self.r >> 7;
        self.r ^= self.r << 17;
        self.r.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.rnd() >> 33) as usize) % n.max(1)
    }
    fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    fn h(&self, p: &P) -> u32 {
        match p {
            P::Ref(n) => *self.height.get(n).unwrap_or(&INF),
            P::Many(x, n) => if *n == 0 { 0 } else { self.h(x) },
            P::Opt(_) | P::Not(_) => 0,
            P::List(x, _, n) => if *n == 0 { 0 } else { self.h(x) },
            P::Text(x) | P::Commit(x) => self.h(x),
            P::Seq(v, _) => v.iter().map(|i| self.h(&i.p)).max().unwrap_or(0),
            P::Alt(v) => v.iter().map(|x| self.h(x)).min().unwrap_or(0),
            _ => 0,
        }
    }
    /// steps from `p` to a use of the target
    fn d(&self, p: &P, m: &HashMap<String, u32>) -> u32 {
        match p {
            P::Ref(n) => *m.get(n).unwrap_or(&INF),
            P::Cls(n) | P::Run(n, _) => *m.get(n).unwrap_or(&INF),
            P::Many(x, _) | P::Opt(x) | P::Text(x) | P::Commit(x) => self.d(x, m),
            P::List(x, s, _) => self.d(x, m).min(self.d(s, m)),
            P::Seq(v, _) => v.iter().map(|i| self.d(&i.p, m)).min().unwrap_or(INF),
            P::Alt(v) => v.iter().map(|x| self.d(x, m)).min().unwrap_or(INF),
            _ => INF,
        }
    }
    fn distances(&mut self, t: &str) {
        if self.dist.contains_key(t) {
            return;
        }
        let mut m: HashMap<String, u32> = HashMap::new();
        m.insert(t.to_string(), 0);
        loop {
            let mut ch = false;
            for r in &self.g.rules {
                let d = self.d(&r.p, &m).saturating_add(1);
                if d < *m.get(&r.name).unwrap_or(&INF) {
                    m.insert(r.name.clone(), d);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        self.dist.insert(t.to_string(), m);
    }
    fn push(&self, o: &mut Vec<Piece>, t: impl Into<String>, kind: Kind) {
        o.push(Piece { text: t.into(), kind });
    }
    fn ws(&mut self, one: bool) -> String {
        let c = ["", " ", "  ", "\n", "\t", "\r\n", "\r", " # c\n", "#\n", "#x\r", "\n\n", " #a\n#b\n ", "#\r\n", " \t\n", "# ' \" { ?\n"];
        let k = if one { self.below(c.len() - 1) + 1 } else { self.below(c.len()) };
        let k = if self.below(3) > 0 { if one { 1 } else { k.min(1) } } else { k };
        c[k].to_string()
    }
    fn kw(&mut self, k: &str) -> String {
        match self.below(6) {
            0 => k.to_ascii_uppercase(),
            1 => k.chars().map(|c| if self.rnd() >> 40 & 1 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
            2 | 3 => k.to_string(),
            _ => k.to_ascii_uppercase(),
        }
    }
    fn cls_char(&mut self, n: &str) -> char {
        let v = self.cls[n].clone();
        let total: u32 = v.iter().map(|(a, b)| b - a + 1).sum();
        if total <= 16 {
            let (a, b) = self.pick(&v);
            return char::from_u32(a + self.below((b - a + 1) as usize) as u32).unwrap_or('a');
        }
        if self.below(10) > 0 {
            // ordinary characters
            for _ in 0..8 {
                let c = self.pick(&['a', 'b', 'x', 'e', 'A', 'Z', '0', '1', '9', '_', 's', 'n']);
                if v.iter().any(|(a, b)| (*a..=*b).contains(&(c as u32))) {
                    return c;
                }
            }
        }
        let (a, b) = self.pick(&v);
        let x = match self.below(4) {
            0 => a,
            1 => b,
            _ => a + self.below((b - a + 1) as usize) as u32,
        };
        char::from_u32(x).unwrap_or('a')
    }
    fn count(&mut self, min: usize) -> usize {
        let n = if self.long && self.below(3) == 0 {
            self.long = false;
            if !self.nums.is_empty() && self.below(2) == 0 {
                let n = self.pick(&self.nums.clone()) as usize;
                (n + self.below(3)).saturating_sub(1)
            } else {
                self.pick(&[5, 8, 9, 10, 11, 16, 17, 20, 21, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257])
            }
        } else if self.budget < 0 {
            0
        } else {
            self.pick(&[0, 0, 1, 1, 1, 2, 2, 3, 4])
        };
        n.max(min)
    }
    fn gen(&mut self, p: &'g P, o: &mut Vec<Piece>) {
        self.budget -= 1;
        match p {
            P::Kw(k) => {
                let t = self.kw(k);
                self.push(o, t, Kind::Kw)
            }
            P::Lit(k) => {
                let kind = if k.chars().all(|c| c.is_ascii_alphabetic()) { Kind::Kw } else { Kind::Tok };
                self.push(o, k.clone(), kind)
            }
            P::OneOf(k) => {
                let cs: Vec<char> = k.chars().collect();
                let c = self.pick(&cs);
                self.push(o, c.to_string(), Kind::Tok)
            }
            P::NoneOf(k) => {
                let mut c = 'a';
                for _ in 0..8 {
                    c = if self.below(2) == 0 { self.pick(&self.evil.clone()) } else { self.pick(&['a', 'b', ' ', '1']) };
                    if !k.contains(c) {
                        break;
                    }
                }
                if !k.contains(c) {
                    self.push(o, c.to_string(), Kind::Tok)
                }
            }
            P::Cls(n) => {
                let c = self.cls_char(n);
                self.push(o, c.to_string(), Kind::Tok)
            }
            P::Run(n, min) => {
                let k = self.count(*min);
                let s: String = (0..k).map(|_| self.cls_char(n)).collect();
                self.push(o, s, Kind::Tok)
            }
            P::Prim(n) => {
                let k = self.count(1);
                let cs: Vec<char> = match n.as_str() {
                    "digit1" => "0123456789".chars().collect(),
                    "alpha1" => "abzAZen".chars().collect(),
                    _ => "az09Zb".chars().collect(),
                };
                let s: String = (0..k).map(|_| self.pick(&cs)).collect();
                self.push(o, s, Kind::Tok)
            }
            P::Ref(n) if n == "sp" => {
                let t = self.ws(false);
                self.push(o, t, Kind::Ws(false))
            }
            P::Ref(n) if n == "sp1" => {
                let t = self.ws(true);
                self.push(o, t, Kind::Ws(true))
            }
            P::Ref(n) => self.gen(&self.g.rule(n).unwrap().p, o),
            P::Many(x, n) => {
                let k = self.count(*n);
                for _ in 0..k {
                    self.gen(x, o)
                }
            }
            P::Opt(x) => {
                if self.budget > 0 && self.below(2) == 0 {
                    self.gen(x, o)
                }
            }
            P::List(x, s, n) => {
                let k = self.count(*n);
                for j in 0..k {
                    if j > 0 {
                        self.gen(s, o)
                    }
                    self.gen(x, o)
                }
            }
            P::Text(x) | P::Commit(x) => self.gen(x, o),
            P::Not(_) | P::Val(..) => {}
            P::Esc(x, c, y) => {
                let k = self.count(0);
                for _ in 0..k {
                    if self.below(4) == 0 {
                        self.push(o, c.to_string(), Kind::Tok);
                        self.gen(y, o)
                    } else {
                        self.gen(x, o)
                    }
                }
            }
            P::Alt(v) => {
                let x = if self.budget < 0 {
                    let m = v.iter().map(|x| self.h(x)).min().unwrap();
                    let c: Vec<&'g P> = v.iter().filter(|x| self.h(x) == m).collect();
                    c[self.below(c.len())]
                } else {
                    &v[self.below(v.len())]
                };
                self.gen(x, o)
            }
            P::Seq(v, _) => {
                for i in v {
                    self.gen(&i.p, o)
                }
            }
            _ => {}
        }
    }
    /// As `gen`, with the target somewhere inside (`p` reaches it).
    fn gen_to(&mut self, p: &'g P, t: &(String, Option<String>), o: &mut Vec<Piece>) {
        self.budget -= 1;
        let m = self.dist[&t.0].clone();
        match p {
            P::Ref(n) | P::Cls(n) | P::Run(n, _) if *n == t.0 => match &t.1 {
                Some(x) => self.push(o, x.clone(), Kind::Tok),
                None => self.gen(p, o),
            },
            P::Ref(n) => self.gen_to(&self.g.rule(n).unwrap().p, t, o),
            P::Many(x, n) => {
                let k = self.count((*n).max(1));
                let at = self.below(k);
                for j in 0..k {
                    if j == at { self.gen_to(x, t, o) } else { self.gen(x, o) }
                }
            }
            P::Opt(x) | P::Text(x) | P::Commit(x) => self.gen_to(x, t, o),
            P::List(x, s, n) => {
                let k = self.count((*n).max(1));
                let inx = self.d(x, &m) < INF && (self.d(s, &m) >= INF || self.below(2) == 0);
                let k = if inx { k } else { k.max(2) };
                let at = self.below(if inx { k } else { k - 1 });
                for j in 0..k {
                    if inx && j == at { self.gen_to(x, t, o) } else { self.gen(x, o) }
                    if j + 1 < k {
                        if !inx && j == at { self.gen_to(s, t, o) } else { self.gen(s, o) }
                    }
                }
            }
            P::Alt(v) => {
                let best = v.iter().map(|x| self.d(x, &m)).min().unwrap();
                let near = self.budget < 20 || self.below(10) < 7;
                let c: Vec<&'g P> = v.iter().filter(|x| if near { self.d(x, &m) == best } else { self.d(x, &m) < INF }).collect();
                let x = c[self.below(c.len())];
                self.gen_to(x, t, o)
            }
            P::Seq(v, _) => {
                let best = v.iter().map(|x| self.d(&x.p, &m)).min().unwrap();
                let near = self.budget < 20 || self.below(10) < 7;
                let c: Vec<usize> = (0..v.len()).filter(|k| if near { self.d(&v[*k].p, &m) == best } else { self.d(&v[*k].p, &m) < INF }).collect();
                let at = self.pick(&c);
                for (k, i) in v.iter().enumerate() {
                    if k == at { self.gen_to(&i.p, t, o) } else { self.gen(&i.p, o) }
                }
            }
            p => self.gen(p, o),
        }
    }
    pub fn pieces(&mut self, rule: &str, target: Option<&(String, Option<String>)>) -> Vec<Piece> {
        self.budget = self.pick(&[4, 10, 25, 40, 80]);
        self.long = self.below(12) == 0;
        let mut o = vec![];
        let p = match self.g.rule(rule) {
            Some(r) => &r.p,
            None => {
                // no rule: random tokens
                for _ in 0..self.below(8) {
                    let t = self.pick(&self.toks.clone());
                    self.push(&mut o, t, Kind::Tok);
                }
                return o;
            }
        };
        match target {
            Some(t) => {
                self.distances(&t.0);
                if rule == t.0 && t.1.is_some() {
                    let x = t.1.clone().unwrap();
                    self.push(&mut o, x, Kind::Tok)
                } else if self.d(p, &self.dist[&t.0]) < INF {
                    self.budget += 20;
                    self.gen_to(p, t, &mut o)
                } else {
                    self.gen(p, &mut o)
                }
            }
            None => self.gen(p, &mut o),
        }
        o
    }
    /// Is `target` used, at any depth, by `rule` (or `rule` itself)?
    pub fn reaches(&mut self, rule: &str, target: &str) -> bool {
        self.distances(target);
        rule == target || self.g.rule(rule).map_or(false, |r| self.d(&r.p, &self.dist[target]) < INF)
    }
    pub fn text(&mut self, rule: &str, target: Option<&(String, Option<String>)>) -> Vec<Piece> {
        self.pieces(rule, target)
    }
    fn strange(&mut self) -> char {
        if self.below(3) == 0 {
            { let j = self.below(self.odd.len()); self.odd[j] }
        } else {
            { let j = self.below(self.evil.len()); self.evil[j] }
        }
    }
    fn tok(&mut self) -> String {
        if !self.hot.is_empty() && self.below(3) == 0 {
            let t = self.pick(&self.hot.clone());
            return match self.below(6) { 0 => t.to_uppercase(), 1 => t.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(), _ => t };
        }
        let k = self.below(self.toks.len());
        self.toks[k].clone()
    }
    /// The sentence itself and mutations of it.
    pub fn variants(&mut self, p: Vec<Piece>, n: usize) -> Vec<String> {
        let base = text_of(&p);
        let mut out = vec![];
        for _ in 0..n {
            let mut q = p.clone();
            let m = 1 + self.below(2);
            for _ in 0..m {
                if q.is_empty() || self.below(2) == 0 {
                    let mut cs: Vec<char> = text_of(&q).chars().collect();
                    let k = self.below(cs.len() + 1);
                    match self.below(8) {
                        0 if k < cs.len() => { cs.remove(k); }
                        1 | 2 => { let c = self.strange(); cs.insert(k, c) }
                        3 if k < cs.len() => { cs[k] = self.strange() }
                        4 if k < cs.len() => { let c = cs[k]; cs.insert(k, c) }
                        5 => cs.truncate(k),
                        6 if k < cs.len() => { let c = cs[k]; cs[k] = if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } }
                        _ => { let t: Vec<char> = self.tok().chars().collect(); cs.splice(k..k, t); }
                    }
                    q = vec![Piece { text: cs.into_iter().collect(), kind: Kind::Tok }];
                } else {
                    let k = self.below(q.len());
                    match self.below(7) {
                        0 => { q.remove(k); }
                        1 => { let x = q[k].clone(); q.insert(k, x) }
                        2 => { let t = self.tok(); q[k].text = t }
                        3 => { let t = self.tok(); q.insert(k, Piece { text: t, kind: Kind::Tok }) }
                        4 => { let j = self.below(q.len()); q.swap(k, j) }
                        5 => { let w = self.ws(false); q.insert(k, Piece { text: w, kind: Kind::Ws(false) }) }
                        _ => { let t = self.tok(); q.push(Piece { text: t, kind: Kind::Tok }) }
                    }
                }
            }
            out.push(text_of(&q));
        }
        // something must follow now and then
        if self.below(3) == 0 {
            let t = self.tok();
            out.push(format!("{}{}", base, t));
        }
        if self.below(6) == 0 {
            let t = self.tok();
            out.push(format!("{} {}", base, t));
        }
        out.push(base);
        out
    }
    pub fn respace(&mut self, p: &[Piece]) -> (Vec<Piece>, Vec<Piece>) {
        let mut b = p.to_vec();
        let mut v = p.to_vec();
        let all = self.below(2) == 0;
        let n = v.iter().filter(|p| matches!(p.kind, Kind::Ws(_))).count();
        let pick = self.below(n.max(1));
        let mut k = 0;
        for x in v.iter_mut() {
            if let Kind::Ws(one) = x.kind {
                if all || k == pick {
                    x.text = if self.below(12) == 0 {
                        self.pick(&["\u{b}", "\u{c}", "\u{a0}", "\u{2003}", "//", "#", "\u{85}", "#a", "", "\u{feff}", "# \u{2028}x\n", "# é\n"]).to_string()
                    } else {
                        let k = self.below(4);
                        let mut s = self.ws(one);
                        for _ in 0..k { let w = self.ws(false); s.push_str(&w) }
                        s
                    };
                }
                k += 1;
            }
        }
        if self.below(8) == 0 {
            // white space where the grammar has none
            let k = self.below(v.len() + 1);
            let t = self.ws(true);
            v.insert(k, Piece { text: t, kind: Kind::Ws(true) });
            b.insert(k, Piece { text: String::new(), kind: Kind::Ws(true) });
        }
        (b, v)
    }
    pub fn recase(&mut self, p: &[Piece]) -> (Vec<Piece>, Vec<Piece>) {
        let mut v = p.to_vec();
        let all = self.below(2) == 0;
        let n = v.iter().filter(|p| p.kind == Kind::Kw).count();
        let pick = self.below(n.max(1));
        let mut k = 0;
        for x in v.iter_mut() {
            if x.kind == Kind::Kw {
                if all || k == pick {
                    let odd = self.below(8) == 0;
                    let up = self.below(4);
                    x.text = x
                        .text
                        .chars()
                        .map(|c| match (odd, c.to_ascii_lowercase()) {
                            (true, 'k') => '\u{212a}',
                            (true, 's') => '\u{17f}',
                            (true, 'i') => if self.rnd() >> 40 & 1 == 0 { '\u{131}' } else { '\u{130}' },
                            (true, 'a') => '\u{430}',
                            _ => match up { 0 => c.to_ascii_uppercase(), 1 => c.to_ascii_lowercase(), _ => if self.rnd() >> 40 & 1 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } },
                        })
                        .collect();
                    if self.below(24) == 0 && x.text.len() > 1 {
                        // the last character folded with a byte of another one
                        x.text.pop();
                    }
                }
                k += 1;
            }
        }
        (p.to_vec(), v)
    }
}
fn lits(p: &P, o: &mut BTreeSet<String>) {
    match p {
        P::Kw(s) | P::Lit(s) => {
            o.insert(s.clone());
        }
        P::Many(x, _) | P::Opt(x) | P::Text(x) | P::Commit(x) | P::Not(x) => lits(x, o),
        P::List(x, s, _) => {
            lits(x, o);
            lits(s, o)
        }
        P::Esc(x, _, y) => {
            lits(x, o);
            lits(y, o)
        }
        P::Seq(v, _) => v.iter().for_each(|i| lits(&i.p, o)),
        P::Alt(v) => v.iter().for_each(|i| lits(i, o)),
        _ => {}
    }
}
fn ranges(g: &Grammar, c: &Class) -> Vec<(u32, u32)> {
    let mut v = vec![];
    for i in &c.items {
        match i {
            Ce::Range(a, b) => v.push((*a, *b)),
            Ce::Class(n) => v.extend(ranges(g, g.class(n).unwrap())),
        }
    }
    if c.neg {
        v.sort();
        let mut out = vec![];
        let mut at = 0;
        for (a, b) in v {
            if a > at {
                out.push((at, a - 1));
            }
            at = at.max(b + 1);
        }
        out.push((at, 0x2fff));
        v = out;
    }
    v
}
