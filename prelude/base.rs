// Contracts on the parser combinators of nom 5.1.3 used by the code under
// verification.  The bodies of the sequencing, choice, mapping and repetition
// combinators are nom's own (see DESIGN.md for the listed rewrites) and are
// verified against these contracts; the character level primitives are
// `external_body`, i.e. trusted, and are listed as such in the evidence.

pub enum Needed { Unknown, Size(usize) }
pub enum Err<E> { Incomplete(Needed), Error(E), Failure(E) }
pub enum ErrorKind { Tag, MapRes, MapOpt, Many0, Many1, SeparatedList, Float, Digit, Verify, Not, Eof, Complete, Alt, Char, OneOf, NoneOf, TakeWhile1, TakeWhileMN, Escaped, Alpha, AlphaNumeric, Space, MultiSpace, HexDigit, TakeUntil, TakeTill1, IsNot, IsA, CrLf, Tag2 }
pub type IResult<I, O> = Result<(I, O), Err<(I, ErrorKind)>>;

/// What a parser does to a text: the rest and the value, or the way it fails.
pub enum PR<O> { Ok(Seq<char>, O), Error, Failure, Incomplete }
pub type P<O> = spec_fn(Seq<char>) -> PR<O>;

pub open spec fn pr<'a, O>(r: IResult<&'a str, O>) -> PR<O> {
  match r { Ok(io) => PR::Ok(io.0@, io.1), Err(Err::Incomplete(_)) => PR::Incomplete, Err(Err::Error(_)) => PR::Error, Err(Err::Failure(_)) => PR::Failure }
}
pub open spec fn fail<A, B>(p: PR<A>) -> PR<B> {
  match p { PR::Ok(_, _) => PR::Error, PR::Error => PR::Error, PR::Failure => PR::Failure, PR::Incomplete => PR::Incomplete }
}
pub open spec fn sfx(s: Seq<char>, t: Seq<char>) -> bool { t.len() <= s.len() && t == s.skip(s.len() - t.len()) }
pub open spec fn sfr<'a, O>(s: Seq<char>, r: IResult<&'a str, O>) -> bool { match r { Ok(io) => sfx(s, io.0@), _ => true } }
pub open spec fn same<A>(a: A, b: A) -> bool { a == b }
/// `f` can be called on every text, behaves as `d` says and leaves a suffix.
pub open spec fn imp<'a, O, F: Fn(&'a str) -> IResult<&'a str, O>>(f: F, d: P<O>) -> bool {
   (forall|i: &'a str| #[trigger] f.requires((i,)))
   && (forall|i: &'a str, r: IResult<&'a str, O>| #[trigger] f.ensures((i,), r) ==> pr(r) == d(i@) && sfr(i@, r))
}
pub open spec fn condimp<F: Fn(char) -> bool>(f: F, m: spec_fn(char) -> bool) -> bool {
   (forall|c: char| #[trigger] f.requires((c,))) && (forall|c: char, b: bool| #[trigger] f.ensures((c,), b) ==> b == m(c))
}
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub uninterp spec fn str_of<'a>(s: Seq<char>) -> &'a str;
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
#[verifier::external_body]
pub broadcast proof fn ax_vec<T>(v: Vec<T>) ensures v == vec_of(#[trigger] v@) {}
#[verifier::external_body]
pub broadcast proof fn ax_vec_view<T>(s: Seq<T>) ensures (#[trigger] vec_of(s))@ == s {}
#[verifier::external_body]
pub broadcast proof fn ax_str<'a>(v: &'a str) ensures v == str_of::<'a>(#[trigger] v@) {}
#[verifier::external_body]
pub broadcast proof fn ax_str_view<'a>(s: Seq<char>) ensures (#[trigger] str_of::<'a>(s))@ == s {}
#[verifier::external_body]
pub broadcast proof fn ax_string(v: String) ensures v == string_of(#[trigger] v@) {}
#[verifier::external_body]
pub broadcast proof fn ax_string_view(s: Seq<char>) ensures (#[trigger] string_of(s))@ == s {}

pub broadcast proof fn sfx_refl(a: Seq<char>) ensures #[trigger] sfx(a, a) { assert(a.skip(0) =~= a); }
pub broadcast proof fn sfx_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
  requires #[trigger] sfx(a, b), #[trigger] sfx(b, c)
  ensures sfx(a, c)
{ assert(a.skip(a.len() - b.len()).skip(b.len() - c.len()) =~= a.skip(a.len() - c.len())); }
pub broadcast proof fn sfx_skip(a: Seq<char>, n: int)
  requires 0 <= n <= a.len()
  ensures sfx(a, #[trigger] a.skip(n))
{ }
pub broadcast proof fn sfx_len(a: Seq<char>, b: Seq<char>)
  requires #[trigger] sfx(a, b), a.len() == b.len()
  ensures a == b
{ assert(a.skip(0) =~= a); }
pub broadcast group group_sfx { sfx_refl, sfx_trans, sfx_len }

#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@), r == (a@ =~= b@) { a == b }

pub open spec fn lower(c: char) -> char { if 'A' <= c && c <= 'Z' { (c as u32 + 32) as char } else { c } }
pub open spec fn eq_nc(a: Seq<char>, b: Seq<char>) -> bool { a.len() == b.len() && forall|j: int| 0 <= j < a.len() ==> lower(#[trigger] a[j]) == lower(b[j]) }
pub open spec fn is_alpha_s(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn is_digit_s(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn is_alphanum_s(c: char) -> bool { is_alpha_s(c) || is_digit_s(c) }
pub open spec fn is_hexdigit_s(c: char) -> bool { is_digit_s(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
pub open spec fn is_space_s(c: char) -> bool { c == ' ' || c == '\t' }
pub open spec fn is_multispace_s(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
/// keyword `k`, ASCII case-insensitive
#[verifier::opaque]
pub open spec fn kwm(k: Seq<char>, s: Seq<char>) -> bool { k.len() <= s.len() && eq_nc(k, s.take(k.len() as int)) }
#[verifier::opaque]
pub open spec fn tagm(k: Seq<char>, s: Seq<char>) -> bool { k.len() <= s.len() && s.take(k.len() as int) == k }
// ------------------------------------------------------------ number texts
pub open spec fn digits_val(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { 10 * digits_val(s.drop_last()) + (s.last() as int - '0' as int) } }
pub open spec fn all_digits(s: Seq<char>) -> bool { s.len() > 0 && forall|j: int| 0 <= j < s.len() ==> is_digit_s(#[trigger] s[j]) }
pub open spec fn int_val(s: Seq<char>) -> Option<int> {
  if s.len() > 0 && s[0] == '-' { if all_digits(s.skip(1)) { Some(-digits_val(s.skip(1))) } else { None } }
  else if s.len() > 0 && s[0] == '+' { if all_digits(s.skip(1)) { Some(digits_val(s.skip(1))) } else { None } }
  else if all_digits(s) { Some(digits_val(s)) } else { None }
}
pub uninterp spec fn f64_val(s: Seq<char>) -> Option<f64>;
pub trait ParseT: Sized { spec fn parse_s(s: Seq<char>) -> Option<Self>; fn parse_t(s: &str) -> (r: Result<Self, ()>) ensures r == opt_res(Self::parse_s(s@)); }
macro_rules! parse_int { ($($t:ident)*) => { verus!{ $(
impl ParseT for $t {
  #[verifier::opaque]
  open spec fn parse_s(s: Seq<char>) -> Option<Self> { match int_val(s) { Some(n) => if $t::MIN <= n <= $t::MAX && (s.len() == 0 || s[0] != '-' || $t::MIN < 0) { Some(n as $t) } else { None }, None => None } }
  #[verifier::external_body]
  fn parse_t(s: &str) -> (r: Result<Self, ()>) { s.parse().map_err(|_| ()) }
}
)* } } }
parse_int!{ i64 u64 i32 u32 usize isize u8 i8 u16 i16 }
impl ParseT for f64 {
  open spec fn parse_s(s: Seq<char>) -> Option<Self> { f64_val(s) }
  #[verifier::external_body]
  fn parse_t(s: &str) -> (r: Result<Self, ()>) { s.parse().map_err(|_| ()) }
}
pub open spec fn opt_res<T>(o: Option<T>) -> Result<T, ()> { match o { Some(v) => Ok(v), None => Err(()) } }
pub fn parse_res<T: ParseT>(s: &str) -> (r: Result<T, ()>) ensures r == opt_res(T::parse_s(s@)) { T::parse_t(s) }
pub fn parse_opt<T: ParseT>(s: &str) -> (r: Option<T>) ensures r == T::parse_s(s@) { match T::parse_t(s) { Ok(v) => Some(v), Err(_) => None } }
/// cloning a value of a type the code knows nothing about gives the value
#[verifier::external_body]
pub fn dup<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
