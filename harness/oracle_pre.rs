// The meaning of the grammar's primitives, executable: the same equations as
// prelude/prim.rs and prelude/nom.rs, used only to confirm a failed proof with
// an input and for the runs labelled bounded.
#![allow(unused, non_snake_case, dead_code)]
pub enum PR<'a, O> { Ok(&'a str, O), Error, Failure, Incomplete }
pub fn fail<'a, A, B>(p: PR<'a, A>) -> PR<'a, B> { match p { PR::Ok(..) => PR::Error, PR::Error => PR::Error, PR::Failure => PR::Failure, PR::Incomplete => PR::Incomplete } }
fn first(s: &str) -> Option<(char, &str)> { let mut c = s.chars(); c.next().map(|x| (x, c.as_str())) }
pub fn S(s: &str) -> String { s.to_string() }
pub fn B<T>(x: T) -> Box<T> { Box::new(x) }
pub fn vec1<T>(x: T) -> Vec<T> { vec![x] }
pub fn kw_r<'a>(k: &str, s: &'a str) -> PR<'a, &'a str> { match s.get(..k.len()) { Some(h) if h.eq_ignore_ascii_case(k) => PR::Ok(&s[k.len()..], h), _ => PR::Error } }
pub fn tag_r<'a>(k: &str, s: &'a str) -> PR<'a, &'a str> { if s.starts_with(k) { PR::Ok(&s[k.len()..], &s[..k.len()]) } else { PR::Error } }
pub fn cls_r<'a>(p: impl Fn(char) -> bool, s: &'a str) -> PR<'a, char> { match first(s) { Some((c, r)) if p(c) => PR::Ok(r, c), _ => PR::Error } }
pub fn chr_r<'a>(c: char, s: &'a str) -> PR<'a, char> { cls_r(|x| x == c, s) }
pub fn one_of_r<'a>(k: &str, s: &'a str) -> PR<'a, char> { cls_r(|x| k.contains(x), s) }
pub fn none_of_r<'a>(k: &str, s: &'a str) -> PR<'a, char> { cls_r(|x| !k.contains(x), s) }
pub fn run0_r<'a>(p: impl Fn(char) -> bool, s: &'a str) -> PR<'a, &'a str> { let n = s.find(|c| !p(c)).unwrap_or(s.len()); PR::Ok(&s[n..], &s[..n]) }
pub fn run1_r<'a>(p: impl Fn(char) -> bool, s: &'a str) -> PR<'a, &'a str> { let n = s.find(|c| !p(c)).unwrap_or(s.len()); if n == 0 { PR::Error } else { PR::Ok(&s[n..], &s[..n]) } }
pub fn alpha1_r<'a>(s: &'a str) -> PR<'a, &'a str> { run1_r(|c| c.is_ascii_alphabetic(), s) }
pub fn digit1_r<'a>(s: &'a str) -> PR<'a, &'a str> { run1_r(|c| c.is_ascii_digit(), s) }
pub fn alphanumeric1_r<'a>(s: &'a str) -> PR<'a, &'a str> { run1_r(|c| c.is_ascii_alphanumeric(), s) }
pub fn text_r<'a, A>(s: &'a str, p: PR<'a, A>) -> PR<'a, &'a str> { match p { PR::Ok(r, _) => PR::Ok(r, &s[..s.len() - r.len()]), e => fail(e) } }
pub fn commit_r<'a, A>(p: PR<'a, A>) -> PR<'a, A> { match p { PR::Error => PR::Failure, e => e } }
fn rep<'a, O>(d: &dyn Fn(&'a str) -> PR<'a, O>, mut s: &'a str, mut acc: Vec<O>) -> PR<'a, Vec<O>> {
    loop { match d(s) { PR::Error => return PR::Ok(s, acc), PR::Ok(r, o) => { if r.len() >= s.len() { return PR::Error } s = r; acc.push(o) } e => return fail(e) } }
}
pub fn many0_r<'a, O>(d: &dyn Fn(&'a str) -> PR<'a, O>, s: &'a str) -> PR<'a, Vec<O>> { rep(d, s, vec![]) }
pub fn many1_r<'a, O>(d: &dyn Fn(&'a str) -> PR<'a, O>, s: &'a str) -> PR<'a, Vec<O>> { match d(s) { PR::Ok(r, o) => rep(d, r, vec![o]), e => fail(e) } }
fn seprep<'a, T, O>(sep: &dyn Fn(&'a str) -> PR<'a, T>, d: &dyn Fn(&'a str) -> PR<'a, O>, mut s: &'a str, mut acc: Vec<O>) -> PR<'a, Vec<O>> {
    loop {
        match sep(s) {
            PR::Error => return PR::Ok(s, acc),
            PR::Ok(s1, _) => {
                if s1.len() >= s.len() { return PR::Error }
                match d(s1) { PR::Error => return PR::Ok(s, acc), PR::Ok(s2, o) => { if s2.len() >= s.len() { return PR::Error } acc.push(o); s = s2 } e => return fail(e) }
            }
            e => return fail(e),
        }
    }
}
pub fn list1_r<'a, T, O>(sep: &dyn Fn(&'a str) -> PR<'a, T>, d: &dyn Fn(&'a str) -> PR<'a, O>, s: &'a str) -> PR<'a, Vec<O>> {
    match d(s) { PR::Ok(r, o) => if r.len() < s.len() { seprep(sep, d, r, vec![o]) } else { PR::Error }, e => fail(e) }
}
pub fn list0_r<'a, T, O>(sep: &dyn Fn(&'a str) -> PR<'a, T>, d: &dyn Fn(&'a str) -> PR<'a, O>, s: &'a str) -> PR<'a, Vec<O>> {
    match d(s) { PR::Ok(r, o) => if r.len() < s.len() { seprep(sep, d, r, vec![o]) } else { PR::Error }, PR::Error => PR::Ok(s, vec![]), e => fail(e) }
}
pub fn escaped_r<'a, A, C>(d: &dyn Fn(&'a str) -> PR<'a, A>, c: char, e: &dyn Fn(&'a str) -> PR<'a, C>, s0: &'a str) -> PR<'a, &'a str> {
    let mut s = s0;
    loop {
        if s.is_empty() { break }
        match d(s) {
            PR::Ok(s1, _) => { if s1.len() >= s.len() { return PR::Incomplete } s = s1 }
            PR::Error => if s.starts_with(c) {
                let r = &s[c.len_utf8()..];
                if r.is_empty() { return PR::Error }
                match e(r) { PR::Ok(s2, _) => s = s2, x => return fail(x) }
            } else { break },
            x => return fail(x),
        }
    }
    if s.len() == s0.len() && !s0.is_empty() { PR::Error } else { PR::Ok(s, &s0[..s0.len() - s.len()]) }
}
fn parsed<'a, T: std::str::FromStr>(t: &str, s: &'a str) -> PR<'a, T> { match t.parse() { Ok(x) => PR::Ok(s, x), Err(_) => PR::Error } }
pub fn i64_r<'a>(t: &str, s: &'a str) -> PR<'a, i64> { parsed(t, s) }
pub fn u64_r<'a>(t: &str, s: &'a str) -> PR<'a, u64> { parsed(t, s) }
pub fn f64_r<'a>(t: &str, s: &'a str) -> PR<'a, f64> { parsed(t, s) }

/// What a parser did: its outcome and where the remainder lies.
pub struct Seen { pub outcome: String, pub kind: char, pub suffix: bool }
pub fn see<'a, O: std::fmt::Debug>(s: &'a str, r: nom::IResult<&'a str, O>) -> Seen {
    match r {
        Ok((rest, v)) => {
            let end = s.as_ptr() as usize + s.len();
            let suffix = s.ends_with(rest) && (rest.is_empty() || rest.as_ptr() as usize + rest.len() == end);
            Seen { outcome: format!("Ok, {} bytes left, {:?}", rest.len(), v), kind: 'o', suffix }
        }
        Err(nom::Err::Incomplete(_)) => Seen { outcome: "Incomplete".into(), kind: 'i', suffix: true },
        Err(nom::Err::Error(_)) => Seen { outcome: "Error".into(), kind: 'e', suffix: true },
        Err(nom::Err::Failure(_)) => Seen { outcome: "Failure".into(), kind: 'f', suffix: true },
    }
}
pub fn says<'a, O: std::fmt::Debug>(r: PR<'a, O>) -> String {
    match r {
        PR::Ok(rest, v) => format!("Ok, {} bytes left, {:?}", rest.len(), v),
        PR::Error => "Error".into(),
        PR::Failure => "Failure".into(),
        PR::Incomplete => "Incomplete".into(),
    }
}
pub struct Entry { pub name: &'static str, pub code: fn(&str) -> Seen, pub oracle: Option<fn(&str) -> String> }
pub struct Hand { pub name: &'static str, pub run: fn() -> Vec<(String, String, String)>, pub count: usize }
