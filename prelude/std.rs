// ------------------------------------------------------------------ std: str
pub open spec fn clen(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
pub open spec fn bnd(s: Seq<char>, n: nat, m: int) -> bool { 0 <= m <= s.len() && blen(s.take(m)) == n }
#[verifier::external_body]
pub fn str_is_boundary(s: &str, n: usize) -> (r: bool) ensures r <==> (exists|m: int| #[trigger] bnd(s@, n as nat, m)) { s.is_char_boundary(n) }
pub fn str_split_at<'a>(s: &'a str, n: usize) -> (r: (&'a str, &'a str))
  requires exists|m: int| #[trigger] bnd(s@, n as nat, m)
  ensures bnd(s@, n as nat, r.0@.len() as int), r.0@ == s@.take(r.0@.len() as int), r.1@.len() <= s@.len(), bnd(s@, n as nat, s@.len() - r.1@.len()), r.1@ == s@.skip(s@.len() - r.1@.len()), sfx(s@, r.1@)
{ (str_to(s, n), str_from(s, n)) }
#[verifier::external_body]
pub fn str_bytes(s: &str) -> (r: usize) ensures r == blen(s@) { s.len() }
pub fn str_len(s: &str) -> (r: usize) ensures r == blen(s@), bnd(s@, r as nat, s@.len() as int)
{ proof { assert(s@.take(s@.len() as int) =~= s@); } str_bytes(s) }
/// how far into `s` its part `i` starts: nom's `Offset`, on the rest of a text
#[verifier::external_body]
pub fn str_offset(s: &str, i: &str) -> (r: usize) requires sfx(s@, i@) ensures r == blen(s@) - blen(i@) { i.as_ptr() as usize - s.as_ptr() as usize }
#[verifier::external_body]
pub fn ch_bytes(c: char) -> (r: usize) ensures r == clen(c) { c.len_utf8() }
#[verifier::external_body]
pub fn str_strip_prefix<'a>(s: &'a str, t: &str) -> (r: Option<&'a str>) ensures (r is Some) == tagm(t@, s@), r is Some ==> r->0@ == s@.skip(t@.len() as int) && sfx(s@, r->0@) { s.strip_prefix(t) }
#[verifier::external_body]
pub fn str_strip_prefix_char<'a>(s: &'a str, t: char) -> (r: Option<&'a str>) ensures (r is Some) == (s@.len() > 0 && s@[0] == t), r is Some ==> r->0@ == s@.skip(1) && sfx(s@, r->0@) { s.strip_prefix(t) }
#[verifier::external_body]
pub fn str_get_to<'a>(s: &'a str, n: usize) -> (r: Option<&'a str>)
  ensures match r { Some(h) => bnd(s@, n as nat, h@.len() as int) && h@ == s@.take(h@.len() as int), None => forall|m: int| !#[trigger] bnd(s@, n as nat, m) }
{ s.get(..n) }
#[verifier::external_body]
pub fn str_get_from<'a>(s: &'a str, n: usize) -> (r: Option<&'a str>)
  ensures match r { Some(h) => h@.len() <= s@.len() && bnd(s@, n as nat, s@.len() - h@.len()) && h@ == s@.skip(s@.len() - h@.len()) && sfx(s@, h@), None => forall|m: int| !#[trigger] bnd(s@, n as nat, m) }
{ s.get(n..) }
#[verifier::external_body]
pub fn str_to<'a>(s: &'a str, n: usize) -> (h: &'a str)
  requires exists|m: int| #[trigger] bnd(s@, n as nat, m)
  ensures bnd(s@, n as nat, h@.len() as int) && h@ == s@.take(h@.len() as int)
{ &s[..n] }
#[verifier::external_body]
pub fn str_from<'a>(s: &'a str, n: usize) -> (h: &'a str)
  requires exists|m: int| #[trigger] bnd(s@, n as nat, m)
  ensures h@.len() <= s@.len() && bnd(s@, n as nat, s@.len() - h@.len()) && h@ == s@.skip(s@.len() - h@.len()), sfx(s@, h@)
{ &s[n..] }
#[verifier::external_body]
pub fn str_eq_nc(a: &str, b: &str) -> (r: bool) ensures r == eq_nc(a@, b@) { a.eq_ignore_ascii_case(b) }
pub open spec fn contains_char_s(s: Seq<char>, c: char) -> bool { s.contains(c) }
#[verifier::external_body]
pub fn contains_char(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { s.contains(c) }
#[verifier::external_body]
pub fn str_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
pub open spec fn first_s(s: Seq<char>) -> Option<char> { if s.len() > 0 { Some(s[0]) } else { None } }
#[verifier::external_body]
pub fn str_next(s: &str) -> (r: Option<char>) ensures r == first_s(s@) { s.chars().next() }
pub fn str_first(s: &str) -> (r: Option<char>) ensures r == first_s(s@), s@.len() > 0 ==> bnd(s@, clen(s@[0]), 1)
{
  proof { if s@.len() > 0 { let t = s@.take(1); assert(t.drop_last().len() == 0); assert(blen(t.drop_last()) == 0); assert(t.last() == s@[0]); assert(blen(t) == blen(t.drop_last()) + clen(t.last())); } }
  str_next(s)
}
#[verifier::external_body]
pub fn str_starts(s: &str, t: &str) -> (r: bool) ensures r == tagm(t@, s@) { s.starts_with(t) }
#[verifier::external_body]
pub fn str_starts_char(s: &str, t: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == t) { s.starts_with(t) }
/// ... and what it starts with ends at a character boundary
pub fn str_starts_with(s: &str, t: &str) -> (r: bool) ensures r == tagm(t@, s@), r ==> bnd(s@, blen(t@), t@.len() as int)
{
  let r = str_starts(s, t);
  proof { reveal(tagm); if r { assert(s@.take(t@.len() as int) =~= t@); } }
  r
}
pub fn str_starts_with_char(s: &str, t: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == t), r ==> bnd(s@, clen(t), 1)
{
  let f = str_first(s);
  str_starts_char(s, t)
}
/// one byte to a character
pub proof fn ascii_blen(t: Seq<char>) requires forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k] as u32) < 0x80 ensures blen(t) == t.len() decreases t.len()
{
  if t.len() > 0 {
    let d = t.drop_last();
    assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k] as u32) < 0x80 by { assert(d[k] == t[k]); }
    ascii_blen(d);
    assert((t[t.len() - 1] as u32) < 0x80);
  }
}
/// `==` on the types whose equality is the mathematical one
pub trait VEq: Sized { fn veq_(&self, o: &Self) -> (r: bool) ensures r == (*self == *o); }
macro_rules! veqs { ($($t:ty)*) => { verus!{ $( impl VEq for $t { fn veq_(&self, o: &Self) -> (r: bool) { *self == *o } } )* } } }
veqs!{ char bool u8 u32 u64 usize i32 i64 }
impl VEq for String { #[verifier::external_body] fn veq_(&self, o: &Self) -> (r: bool) { self == o } }
impl<'b> VEq for &'b str { #[verifier::external_body] fn veq_(&self, o: &Self) -> (r: bool) { self == o } }
impl<'b, T: VEq> VEq for &'b T { fn veq_(&self, o: &Self) -> (r: bool) { (**self).veq_(*o) } }
pub fn veq<T: VEq>(a: T, b: T) -> (r: bool) ensures r == (a == b) { a.veq_(&b) }
/// values whose text is their characters: `ToString` of strings
pub trait VText: Sized + View<V = Seq<char>> { fn text(self) -> (r: String) ensures r == string_of(self@); }
impl<'b> VText for &'b str { #[verifier::external_body] fn text(self) -> (r: String) { self.to_string() } }
impl<'b> VText for &'b String { #[verifier::external_body] fn text(self) -> (r: String) { self.clone() } }
impl VText for String { fn text(self) -> (r: String) { proof { ax_string(self); } self } }
pub fn to_owned_string<T: VText>(s: T) -> (r: String) ensures r == string_of(s@) { s.text() }
pub trait VInto<X>: Sized { spec fn into_s(self) -> X; fn vinto_(self) -> (r: X) ensures r == self.into_s(); }
impl<X> VInto<X> for X { open spec fn into_s(self) -> X { self } fn vinto_(self) -> (r: X) { self } }
impl<'b> VInto<String> for &'b str { open spec fn into_s(self) -> String { string_of(self@) } #[verifier::external_body] fn vinto_(self) -> (r: String) { self.to_string() } }
pub fn vinto<X, T: VInto<X>>(x: T) -> (r: X) ensures r == x.into_s() { x.vinto_() }
#[verifier::external_body]
pub fn string_eq(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { a == b }
macro_rules! str_maps { ($($n:ident $s:ident;)*) => { verus!{ $(
pub uninterp spec fn $s(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn $n(s: &str) -> (r: String) ensures r == string_of($s(s@)) { unimplemented!() }
)* } } }
str_maps!{ to_lowercase to_lowercase_s; to_uppercase to_uppercase_s; to_ascii_lowercase to_ascii_lowercase_s; to_ascii_uppercase to_ascii_uppercase_s; }

proof fn blen_take(s: Seq<char>, a: int, b: int)
  requires 0 <= a <= b <= s.len()
  ensures blen(s.take(a)) <= blen(s.take(b)), a < b ==> blen(s.take(a)) < blen(s.take(b))
  decreases b
{
  if a < b {
    assert(s.take(b).drop_last() =~= s.take(b - 1));
    blen_take(s, a, b - 1);
  }
}
proof fn blen_split(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures blen(s) == blen(s.take(k)) + blen(s.skip(k)) decreases s.len()
{
  if k == s.len() { assert(s.take(k) =~= s); assert(s.skip(k).len() == 0); assert(blen(s.skip(k)) == 0); }
  else {
    blen_split(s.drop_last(), k);
    assert(s.drop_last().take(k) =~= s.take(k));
    assert(s.skip(k).drop_last() =~= s.drop_last().skip(k));
    assert(s.skip(k).last() == s.last());
  }
}
/// the part of a text before its rest ends at a character boundary
pub broadcast proof fn bytes_sfx(s: Seq<char>, t: Seq<char>) requires #[trigger] sfx(s, t) ensures #[trigger] blen(t) <= #[trigger] blen(s), bnd(s, (blen(s) - blen(t)) as nat, s.len() - t.len())
{ let k = s.len() - t.len(); blen_split(s, k); assert(t == s.skip(k)); }
pub broadcast proof fn bytes_unique(s: Seq<char>, n: nat, m1: int, m2: int) requires #[trigger] bnd(s, n, m1), #[trigger] bnd(s, n, m2) ensures m1 == m2
{ if m1 < m2 { blen_take(s, m1, m2); } else if m2 < m1 { blen_take(s, m2, m1); } }
pub broadcast group group_bytes { bytes_sfx, bytes_unique }
proof fn blen_nc(a: Seq<char>, b: Seq<char>) requires eq_nc(a, b) ensures blen(a) == blen(b) decreases a.len()
{
  if a.len() > 0 {
    assert(eq_nc(a.drop_last(), b.drop_last())) by { assert forall|j: int| 0 <= j < a.drop_last().len() implies lower(#[trigger] a.drop_last()[j]) == lower(b.drop_last()[j]) by { assert(lower(a[j]) == lower(b[j])); } }
    blen_nc(a.drop_last(), b.drop_last());
    assert(lower(a[a.len() - 1]) == lower(b[b.len() - 1]));
  }
}
/// what a text that starts with a keyword, or with an exact text, has at a place
pub proof fn kw_at(k: Seq<char>, s: Seq<char>, j: int)
  requires 0 <= j < k.len()
  ensures kwm(k, s) ==> s.len() >= k.len() && (s[j] == k[j] || ('a' <= k[j] && k[j] <= 'z' && s[j] as u32 + 32 == k[j] as u32) || ('A' <= k[j] && k[j] <= 'Z' && s[j] as u32 == k[j] as u32 + 32))
{ reveal(kwm); if kwm(k, s) { assert(lower(k[j]) == lower(s.take(k.len() as int)[j])); } }
pub proof fn tag_at(k: Seq<char>, s: Seq<char>, j: int)
  requires 0 <= j < k.len()
  ensures tagm(k, s) ==> s.len() >= k.len() && s[j] == k[j]
{ reveal(tagm); if tagm(k, s) { assert(s.take(k.len() as int)[j] == k[j]); } }
pub proof fn kw_apart(k: Seq<char>, l: Seq<char>, j: int)
  requires 0 <= j < k.len(), j < l.len(), lower(k[j]) != lower(l[j])
  ensures forall|s: Seq<char>| !(#[trigger] kwm(k, s) && #[trigger] kwm(l, s))
{
  reveal(kwm);
  assert forall|s: Seq<char>| !(#[trigger] kwm(k, s) && #[trigger] kwm(l, s)) by {
    if kwm(k, s) && kwm(l, s) { assert(lower(k[j]) == lower(s.take(k.len() as int)[j])); assert(lower(l[j]) == lower(s.take(l.len() as int)[j])); }
  }
}
pub broadcast proof fn eq_nc_sym(a: Seq<char>, b: Seq<char>) ensures #[trigger] eq_nc(a, b) == eq_nc(b, a)
{
  if eq_nc(a, b) { assert forall|j: int| 0 <= j < b.len() implies lower(#[trigger] b[j]) == lower(a[j]) by { assert(lower(a[j]) == lower(b[j])); } }
  if eq_nc(b, a) { assert forall|j: int| 0 <= j < a.len() implies lower(#[trigger] a[j]) == lower(b[j]) by { assert(lower(b[j]) == lower(a[j])); } }
}
/// what slicing at the byte length of `k` has to do with matching `k`
pub proof fn kw_bytes(k: Seq<char>, s: Seq<char>)
  ensures kwm(k, s) <==> (exists|m: int| #[trigger] bnd(s, blen(k), m) && eq_nc(k, s.take(m))),
    forall|m1: int, m2: int| #[trigger] bnd(s, blen(k), m1) && #[trigger] bnd(s, blen(k), m2) ==> m1 == m2,
    forall|m: int| #[trigger] bnd(s, blen(k), m) && eq_nc(k, s.take(m)) ==> m == k.len(),
{
  reveal(kwm);
  if kwm(k, s) { blen_nc(k, s.take(k.len() as int)); assert(bnd(s, blen(k), k.len() as int)); }
  assert forall|m1: int, m2: int| #[trigger] bnd(s, blen(k), m1) && #[trigger] bnd(s, blen(k), m2) implies m1 == m2 by {
    if m1 < m2 { blen_take(s, m1, m2); } else if m2 < m1 { blen_take(s, m2, m1); }
  }
}

// ----------------------------------------------------------------- std: char
pub open spec fn digit_value(c: char) -> int { if '0' <= c && c <= '9' { c as u32 - '0' as u32 } else if 'a' <= c && c <= 'z' { c as u32 - 'a' as u32 + 10 } else if 'A' <= c && c <= 'Z' { c as u32 - 'A' as u32 + 10 } else { 1000 } }
pub open spec fn is_digit_radix_s(c: char, radix: u32) -> bool { digit_value(c) < radix }
#[verifier::external_body]
pub fn is_digit_radix(c: char, radix: u32) -> (r: bool) requires 2 <= radix <= 36 ensures r == is_digit_radix_s(c, radix) { c.is_digit(radix) }
macro_rules! chr_fns { ($($n:ident $s:ident $e:ident;)*) => { verus!{ $(
#[verifier::external_body]
pub fn $n(c: char) -> (r: bool) ensures r == $s(c) { c.$e() }
)* } } }
pub open spec fn ch_upper_s(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn ch_lower_s(c: char) -> bool { 'a' <= c && c <= 'z' }
pub open spec fn ch_ascii_s(c: char) -> bool { (c as u32) < 128 }
pub uninterp spec fn ch_alphabetic_s(c: char) -> bool;
pub uninterp spec fn ch_numeric_s(c: char) -> bool;
pub uninterp spec fn ch_alphanumeric_s(c: char) -> bool;
pub uninterp spec fn ch_whitespace_s(c: char) -> bool;
pub open spec fn ch_ascii_alphabetic_s(c: char) -> bool { is_alpha_s(c) }
pub open spec fn ch_ascii_digit_s(c: char) -> bool { is_digit_s(c) }
pub open spec fn ch_ascii_alphanumeric_s(c: char) -> bool { is_alphanum_s(c) }
pub open spec fn ch_ascii_hexdigit_s(c: char) -> bool { is_hexdigit_s(c) }
pub open spec fn ch_ascii_whitespace_s(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\u{c}' }
chr_fns!{
  ch_ascii_alphabetic ch_ascii_alphabetic_s is_ascii_alphabetic; ch_ascii_digit ch_ascii_digit_s is_ascii_digit;
  ch_ascii_alphanumeric ch_ascii_alphanumeric_s is_ascii_alphanumeric; ch_ascii_hexdigit ch_ascii_hexdigit_s is_ascii_hexdigit;
  ch_upper ch_upper_s is_ascii_uppercase; ch_lower ch_lower_s is_ascii_lowercase; ch_ascii ch_ascii_s is_ascii;
  ch_ascii_whitespace ch_ascii_whitespace_s is_ascii_whitespace;
  ch_alphabetic ch_alphabetic_s is_alphabetic; ch_numeric ch_numeric_s is_numeric;
  ch_alphanumeric ch_alphanumeric_s is_alphanumeric; ch_whitespace ch_whitespace_s is_whitespace;
}

pub trait VDefault: Sized { spec fn dflt_s() -> Self; fn dflt() -> (r: Self) ensures r == Self::dflt_s(); }
impl VDefault for bool { open spec fn dflt_s() -> bool { false } fn dflt() -> (r: bool) { false } }
impl VDefault for () { open spec fn dflt_s() -> () { () } fn dflt() -> (r: ()) { () } }
impl VDefault for u64 { open spec fn dflt_s() -> u64 { 0 } fn dflt() -> (r: u64) { 0 } }
impl VDefault for String { open spec fn dflt_s() -> String { string_of(Seq::empty()) } #[verifier::external_body] fn dflt() -> (r: String) { String::new() } }
impl<T> VDefault for Vec<T> { open spec fn dflt_s() -> Vec<T> { vec_of(Seq::empty()) } #[verifier::external_body] fn dflt() -> (r: Vec<T>) { Vec::new() } }
impl<T> VDefault for Option<T> { open spec fn dflt_s() -> Option<T> { None } fn dflt() -> (r: Option<T>) { None } }
pub open spec fn or_default_s<T: VDefault>(o: Option<T>) -> T { match o { Some(x) => x, None => T::dflt_s() } }
pub fn or_default<T: VDefault>(o: Option<T>) -> (r: T) ensures r == or_default_s(o) { match o { Some(x) => x, None => T::dflt() } }
pub fn vec_push<T>(v: Vec<T>, x: T) -> (r: Vec<T>) ensures r@ == v@.push(x), r == vec_of(v@.push(x)) { broadcast use ax_vec; let mut v = v; v.push(x); v }
pub fn vx_panic<T>() -> (r: T) requires false { vstd::pervasive::unreached() }
pub fn vx_drop<T>(x: T) { }
// ------------------------------------------------------------------ std: fmt
pub type FmtResult = Result<(), FmtError>;
pub struct FmtError { x: () }
#[verifier::external_body]
pub struct Formatter { x: () }
impl Formatter {
  pub uninterp spec fn view(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn write_str(&mut self, s: &str) -> (r: FmtResult) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
}
pub fn make_error<I>(i: I, k: ErrorKind) -> (r: (I, ErrorKind)) ensures r == (i, k) { (i, k) }
