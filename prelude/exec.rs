// ------------------------------------------------------------------------
// Executable side of the primitives (nom 5.1.3 `complete` parsers and the std
// methods the code under verification calls).  external_body = trusted.

// ------------------------------------------------ std: searching, traversing
/// the byte offset of the first character with the property: `str::find`, and
/// nom's `InputIter::position` for `&str`
#[verifier::external_body]
pub fn str_find<F>(s: &str, cond: F, Ghost(p): Ghost<spec_fn(char) -> bool>) -> (r: Option<usize>) where F: Fn(char) -> bool
  requires condimp(cond, p)
  ensures match r { Some(n) => span(not_p(p), s@) < s@.len() && bnd(s@, n as nat, span(not_p(p), s@) as int), None => span(not_p(p), s@) == s@.len() }
{ s.find(|c| cond(c)) }
#[verifier::external_body]
pub fn str_trim_start<'a, F>(s: &'a str, cond: F, Ghost(p): Ghost<spec_fn(char) -> bool>) -> (r: &'a str) where F: Fn(char) -> bool
  requires condimp(cond, p)
  ensures r@ == s@.skip(span(p, s@) as int), span(p, s@) <= s@.len()
{ s.trim_start_matches(|c| cond(c)) }
/// the byte offset of the `n`-th character: a loop over `char_indices`
#[verifier::external_body]
pub fn slice_index(s: &str, n: usize) -> (r: Option<usize>)
  ensures match r { Some(b) => bnd(s@, b as nat, n as int), None => n > s@.len() }
{ let mut k = 0; for (b, _) in s.char_indices() { if k == n { return Some(b); } k += 1; } if k == n { Some(s.len()) } else { None } }

// ------------------------------------- nom 5.1.3: traits.rs, for `&str` inputs
pub fn take_split<'a>(i: &'a str, n: usize) -> (r: (&'a str, &'a str))
  requires exists|m: int| #[trigger] bnd(i@, n as nat, m)
  ensures forall|m: nat| #[trigger] bnd(i@, n as nat, m as int) ==> PR::Ok(r.0@, r.1) == run_at(m, i@), sfx(i@, r.0@)
{
  broadcast use {group_bytes, ax_str};
  (str_from(i, n), str_to(i, n))
}
pub fn split_at_position_complete<'a, F>(i: &'a str, predicate: F, Ghost(p): Ghost<spec_fn(char) -> bool>) -> (r: IResult<&'a str, &'a str>) where F: Fn(char) -> bool
  requires condimp(predicate, p) ensures pr(r) == run0_r::<'a>(not_p(p), i@), sfr(i@, r)
{
  match str_find(i, predicate, Ghost(p)) {
    Some(n) => Ok(take_split(i, n)),
    None => Ok(take_split(i, str_len(i))),
  }
}
pub fn split_at_position1_complete<'a, F>(i: &'a str, predicate: F, Ghost(p): Ghost<spec_fn(char) -> bool>, e: ErrorKind) -> (r: IResult<&'a str, &'a str>) where F: Fn(char) -> bool
  requires condimp(predicate, p) ensures pr(r) == run1_r::<'a>(not_p(p), i@), sfr(i@, r)
{
  broadcast use group_bytes;
  proof { blen_zero(i@, span(not_p(p), i@) as int); }
  match str_find(i, predicate, Ghost(p)) {
    Some(0) => Err(Err::Error((i, e))),
    Some(n) => Ok(take_split(i, n)),
    None => if str_len(i) == 0 { Err(Err::Error((i, e))) } else { Ok(take_split(i, str_len(i))) },
  }
}
proof fn blen_zero(s: Seq<char>, m: int) ensures 0 <= m <= s.len() ==> (m == 0 <==> blen(s.take(m)) == 0)
{ if 0 <= m <= s.len() { assert(blen(s.take(0)) == 0); blen_take(s, 0, m); } }
pub proof fn not_not(p: spec_fn(char) -> bool) ensures not_p(not_p(p)) == p { assert(not_p(not_p(p)) =~= p); }

// ---------------------------- nom 5.1.3: bytes/complete.rs, character/complete.rs
pub fn tag<'a>(t: &'a str) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>) ensures imp(ret, tag_s(t@))
{
  move |i: &'a str| -> (r: IResult<&'a str, &'a str>) ensures pr(r) == tag_s::<'a>(t@)(i@) && sfr(i@, r)
  {
    proof { reveal(tagm); if tagm(t@, i@) { assert(bnd(i@, blen(t@), t@.len() as int)); } }
    let tag_len = str_len(t);
    if str_starts_with(i, t) { Ok(take_split(i, tag_len)) } else { Err(Err::Error((i, ErrorKind::Tag))) }
  }
}
pub fn char<'a>(c: char) -> (ret: impl Fn(&'a str) -> IResult<&'a str, char>) ensures imp(ret, chr_s(c))
{
  move |i: &'a str| -> (r: IResult<&'a str, char>) ensures pr(r) == chr_s(c)(i@) && sfr(i@, r)
  {
    broadcast use group_bytes;
    match str_first(i) { Some(d) if d == c => Ok((str_from(i, ch_bytes(d)), d)), _ => Err(Err::Error((i, ErrorKind::Char))) }
  }
}
pub fn one_of<'a>(list: &'a str) -> (ret: impl Fn(&'a str) -> IResult<&'a str, char>) ensures imp(ret, one_of_s(list@))
{
  move |i: &'a str| -> (r: IResult<&'a str, char>) ensures pr(r) == one_of_s(list@)(i@) && sfr(i@, r)
  {
    broadcast use group_bytes;
    match str_first(i) { Some(d) if contains_char(list, d) => Ok((str_from(i, ch_bytes(d)), d)), _ => Err(Err::Error((i, ErrorKind::OneOf))) }
  }
}
pub fn none_of<'a>(list: &'a str) -> (ret: impl Fn(&'a str) -> IResult<&'a str, char>) ensures imp(ret, none_of_s(list@))
{
  move |i: &'a str| -> (r: IResult<&'a str, char>) ensures pr(r) == none_of_s(list@)(i@) && sfr(i@, r)
  {
    broadcast use group_bytes;
    match str_first(i) { Some(d) if !contains_char(list, d) => Ok((str_from(i, ch_bytes(d)), d)), _ => Err(Err::Error((i, ErrorKind::NoneOf))) }
  }
}
pub fn anychar<'a>(i: &'a str) -> (r: IResult<&'a str, char>) ensures pr(r) == anychar_r(i@), sfr(i@, r)
{
  broadcast use group_bytes;
  match str_first(i) { Some(d) => Ok((str_from(i, ch_bytes(d)), d)), None => Err(Err::Error((i, ErrorKind::Eof))) }
}
macro_rules! whiles { ($($n:ident $f:ident $s:ident ($($e:expr),*) $neg:expr;)*) => { verus!{ $(
pub fn $n<'a, F>(cond: F, Ghost(p): Ghost<spec_fn(char) -> bool>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>) where F: Fn(char) -> bool
  requires condimp(cond, p) ensures imp(ret, $s(if $neg { p } else { not_p(p) }))
{
  move |i: &'a str| -> (r: IResult<&'a str, &'a str>) ensures pr(r) == $s::<'a>(if $neg { p } else { not_p(p) })(i@) && sfr(i@, r)
  {
    let ghost q = if $neg { not_p(p) } else { p };
    proof { not_not(p); }
    $f(i, |c: char| -> (b: bool) ensures b == q(c) { if $neg { !cond(c) } else { cond(c) } }, Ghost(q) $(, $e)*)
  }
}
)* } } }
whiles!{
  take_while split_at_position_complete run0_s () true;
  take_while1 split_at_position1_complete run1_s (ErrorKind::TakeWhile1) true;
  take_till split_at_position_complete run0_s () false;
  take_till1 split_at_position1_complete run1_s (ErrorKind::TakeTill1) false;
}
/// `position` counts bytes where `m` and `n` count characters: the outcome is the
/// expected one only for one-character takes or ASCII classes.
pub fn take_while_m_n<'a, F>(m: usize, n: usize, cond: F, Ghost(p): Ghost<spec_fn(char) -> bool>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>) where F: Fn(char) -> bool
  requires condimp(cond, p), m <= n, m == n, n == 1 || forall|c: char| #[trigger] p(c) ==> (c as u32) < 128
  ensures imp(ret, runmn_s(m as nat, n as nat, p))
{
  move |i: &'a str| -> (r: IResult<&'a str, &'a str>) ensures pr(r) == runmn_s::<'a>(m as nat, n as nat, p)(i@) && sfr(i@, r)
  {
    broadcast use {group_bytes, span_len};
    let ghost q = not_p(p);
    proof { not_not(p); mn_bytes(p, i@, n as int); }
    let input = i;
    match str_find(input, |c: char| -> (b: bool) ensures b == q(c) { !cond(c) }, Ghost(q)) {
      Some(idx) => {
        if idx >= m {
          if idx <= n {
            if let Some(index) = slice_index(input, idx) { Ok(take_split(input, index)) } else { Err(Err::Error((input, ErrorKind::TakeWhileMN))) }
          } else {
            if let Some(index) = slice_index(input, n) { Ok(take_split(input, index)) } else { Err(Err::Error((input, ErrorKind::TakeWhileMN))) }
          }
        } else { Err(Err::Error((input, ErrorKind::TakeWhileMN))) }
      }
      None => {
        let len = str_len(input);
        if len >= n {
          match slice_index(input, n) { Some(index) => Ok(take_split(input, index)), None => Err(Err::Error((input, ErrorKind::TakeWhileMN))) }
        } else {
          if len >= m && len <= n { Ok((str_from(input, len), input)) } else { Err(Err::Error((input, ErrorKind::TakeWhileMN))) }
        }
      }
    }
  }
}
/// characters and bytes of a run: equal for ASCII, and at least one byte each
proof fn mn_bytes(p: spec_fn(char) -> bool, s: Seq<char>, n: int)
  ensures
    blen(s.take(span(p, s) as int)) >= span(p, s),
    (forall|c: char| #[trigger] p(c) ==> (c as u32) < 128) ==> blen(s.take(span(p, s) as int)) == span(p, s),
    s.take(s.len() as int) == s,
{
  assert(s.take(s.len() as int) =~= s);
  span_len(p, s);
  run_bytes(p, s, span(p, s) as int);
}
proof fn run_bytes(p: spec_fn(char) -> bool, s: Seq<char>, k: int)
  requires 0 <= k <= span(p, s), k <= s.len()
  ensures blen(s.take(k)) >= k, (forall|c: char| #[trigger] p(c) ==> (c as u32) < 128) ==> blen(s.take(k)) == k
  decreases k
{
  if k > 0 {
    run_bytes(p, s, k - 1);
    assert(s.take(k).drop_last() =~= s.take(k - 1));
    assert(s.take(k).last() == s[k - 1]);
    in_span(p, s, k - 1);
  } else { assert(s.take(0).len() == 0); }
}
proof fn in_span(p: spec_fn(char) -> bool, s: Seq<char>, k: int) requires 0 <= k < span(p, s) ensures k < s.len() && p(s[k]) decreases s.len()
{
  reveal(span);
  if k > 0 { in_span(p, s.skip(1), k - 1); }
}
macro_rules! run_prims { ($($n:ident $c:ident $q:ident $m:ident $f:ident ($($e:expr),*);)*) => { verus!{ $(
pub fn $n<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>) ensures pr(r) == $m::<'a>(|c: char| $c(c), i@), sfr(i@, r)
{
  proof { not_not(|c: char| $c(c)); }
  $f(i, |c: char| -> (b: bool) ensures b == not_p(|c: char| $c(c))(c) { !$q(c) }, Ghost(not_p(|c: char| $c(c))) $(, $e)*)
}
)* } } }
run_prims!{
  digit1 is_digit_s ch_ascii_digit run1_r split_at_position1_complete (ErrorKind::Digit);
  alpha1 is_alpha_s ch_ascii_alphabetic run1_r split_at_position1_complete (ErrorKind::Alpha);
  alphanumeric1 is_alphanum_s ch_ascii_alphanumeric run1_r split_at_position1_complete (ErrorKind::AlphaNumeric);
  digit0 is_digit_s ch_ascii_digit run0_r split_at_position_complete ();
  alpha0 is_alpha_s ch_ascii_alphabetic run0_r split_at_position_complete ();
  alphanumeric0 is_alphanum_s ch_ascii_alphanumeric run0_r split_at_position_complete ();
  hex_digit0 is_hexdigit_s ch_ascii_hexdigit run0_r split_at_position_complete ();
  hex_digit1 is_hexdigit_s ch_ascii_hexdigit run1_r split_at_position1_complete (ErrorKind::HexDigit);
  space0 is_space_s sp_char run0_r split_at_position_complete ();
  space1 is_space_s sp_char run1_r split_at_position1_complete (ErrorKind::Space);
  multispace0 is_multispace_s msp_char run0_r split_at_position_complete ();
  multispace1 is_multispace_s msp_char run1_r split_at_position1_complete (ErrorKind::MultiSpace);
}
fn sp_char(c: char) -> (b: bool) ensures b == is_space_s(c) { c == ' ' || c == '\t' }
fn msp_char(c: char) -> (b: bool) ensures b == is_multispace_s(c) { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
#[verifier::loop_isolation(false)]
pub fn escaped_<'a, O1, O2, F, G>(normal: &F, control_char: char, escapable: &G, Ghost(d): Ghost<P<O1>>, Ghost(e): Ghost<P<O2>>, input: &'a str) -> (r: IResult<&'a str, &'a str>)
where F: Fn(&'a str) -> IResult<&'a str, O1>, G: Fn(&'a str) -> IResult<&'a str, O2>,
  requires imp(*normal, d), imp(*escapable, e),
    forall|s: Seq<char>| #[trigger] d(s) is Ok ==> d(s)->Ok_0.len() < s.len(),
    forall|s: Seq<char>| #[trigger] e(s) is Ok ==> e(s)->Ok_0.len() < s.len(),
  ensures pr(r) == escaped_s::<'a, O1, O2>(d, control_char, e)(input@), sfr(input@, r)
{
  broadcast use {group_bytes, group_sfx, ax_str};
  let mut i = input;
  proof { blen_zero(input@, input@.len() as int); assert(input@.take(input@.len() as int) =~= input@); }
  while str_len(i) > 0
    invariant sfx(input@, i@), esc(d, control_char, e, i@) == esc(d, control_char, e, input@)
    decreases i@.len()
  {
    let ghost i0 = i@;
    reveal(esc);
    proof { sfx_bytes(input@, i0); }
    match normal(i) {
      Ok((i2, _)) => {
        proof { sfx_bytes(input@, i2@); }
        if str_len(i2) == 0 { proof { esc_end(d, control_char, e, i2@); } return Ok((str_from(input, str_len(input)), input)); } else { i = i2; }
      }
      Err(Err::Error(_)) => {
        proof { assert(i0.len() > 0); }
        if str_first(i).unwrap() == control_char {
          let next = ch_bytes(control_char);
          proof { blen_take(i0, 1, i0.len() as int); assert(i0.take(i0.len() as int) =~= i0); }
          if next >= str_len(i) { return Err(Err::Error((input, ErrorKind::Escaped))); }
          match escapable(str_from(i, next)) {
            Ok((i2, _)) => {
              proof { sfx_bytes(input@, i2@); }
              if str_len(i2) == 0 { proof { esc_end(d, control_char, e, i2@); } return Ok((str_from(input, str_len(input)), input)); } else { i = i2; }
            }
            Err(e) => return Err(e),
          }
        } else {
          let index = str_offset(input, i);
          if index == 0 { return Err(Err::Error((input, ErrorKind::Escaped))); }
          return Ok(take_split(input, index));
        }
      }
      Err(e) => return Err(e),
    }
  }
  proof { sfx_bytes(input@, i@); esc_end(d, control_char, e, i@); }
  Ok((str_from(input, str_len(input)), input))
}
proof fn esc_end<A, B>(d: P<A>, c: char, e: P<B>, s: Seq<char>) requires s.len() == 0 ensures esc(d, c, e, s) == PR::Ok(s, ()) { reveal(esc); }
proof fn sfx_bytes(s: Seq<char>, t: Seq<char>) requires sfx(s, t)
  ensures blen(t) == 0 <==> t.len() == 0, blen(s) == blen(t) <==> t.len() == s.len(), t.len() == 0 ==> consumed(s, t) == s, t.len() == 0 ==> t == s.skip(s.len() as int),
    bnd(s, (blen(s) - blen(t)) as nat, s.len() - t.len()), bnd(s, blen(s), s.len() as int)
{
  broadcast use group_bytes;
  let k = s.len() - t.len();
  assert(t == s.skip(k));
  assert(s.take(s.len() as int) =~= s);
  assert(t.take(t.len() as int) =~= t);
  blen_zero(t, t.len() as int); blen_split(s, k); blen_zero(s, k);
  assert(blen(s) >= blen(t)) by { bytes_sfx(s, t); }
  if t.len() == 0 { assert(consumed(s, t) =~= s); assert(t =~= s.skip(s.len() as int)); }
}
pub fn escaped<'a, O1, O2, F, G>(normal: F, control_char: char, escapable: G, Ghost(d): Ghost<P<O1>>, Ghost(e): Ghost<P<O2>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>)
where F: Fn(&'a str) -> IResult<&'a str, O1>, G: Fn(&'a str) -> IResult<&'a str, O2>,
  requires imp(normal, d), imp(escapable, e),
    forall|s: Seq<char>| #[trigger] d(s) is Ok ==> d(s)->Ok_0.len() < s.len(),
    forall|s: Seq<char>| #[trigger] e(s) is Ok ==> e(s)->Ok_0.len() < s.len(),
  ensures imp(ret, escaped_s(d, control_char, e))
{ move |i: &'a str| -> (r: IResult<&'a str, &'a str>) ensures pr(r) == escaped_s::<'a, O1, O2>(d, control_char, e)(i@) && sfr(i@, r) { escaped_(&normal, control_char, &escapable, Ghost(d), Ghost(e), i) } }

// line ends, whole rests, counted repetitions
pub open spec fn newline_r(s: Seq<char>) -> PR<char> { chr_r('\n', s) }
pub open spec fn tab_r(s: Seq<char>) -> PR<char> { chr_r('\t', s) }
pub fn newline<'a>(i: &'a str) -> (r: IResult<&'a str, char>) ensures pr(r) == newline_r(i@), sfr(i@, r) { char('\n')(i) }
pub fn tab<'a>(i: &'a str) -> (r: IResult<&'a str, char>) ensures pr(r) == tab_r(i@), sfr(i@, r) { char('\t')(i) }
pub open spec fn crlfm(s: Seq<char>) -> bool { s.len() > 1 && s[0] == '\r' && s[1] == '\n' }
proof fn crlf_tag(s: Seq<char>) ensures tagm("\r\n"@, s) == crlfm(s), tagm("\n"@, s) == (s.len() > 0 && s[0] == '\n'), crlfm(s) ==> bnd(s, 2, 2), s.len() > 0 && s[0] == '\n' ==> bnd(s, 1, 1)
{
  reveal(tagm); reveal_strlit("\r\n"); reveal_strlit("\n");
  if crlfm(s) { assert(s.take(2) =~= "\r\n"@); }
  if s.len() > 0 && s[0] == '\n' { assert(s.take(1) =~= "\n"@); }
  if tagm("\r\n"@, s) { assert(s.take(2)[0] == '\r' && s.take(2)[1] == '\n'); }
  if tagm("\n"@, s) { assert(s.take(1)[0] == '\n'); }
  if s.len() > 0 { assert(s.take(1).drop_last().len() == 0); assert(s.take(1).last() == s[0]); assert(blen(s.take(1).drop_last()) == 0); assert(blen(s.take(1)) == clen(s[0])); }
  if s.len() > 1 { assert(s.take(2).drop_last() =~= s.take(1)); assert(s.take(2).last() == s[1]); assert(blen(s.take(2)) == clen(s[0]) + clen(s[1])); }
}
pub open spec fn crlf_r<'a>(s: Seq<char>) -> PR<&'a str> { if crlfm(s) { run_at(2, s) } else { PR::Error } }
pub fn crlf<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>) ensures pr(r) == crlf_r::<'a>(i@), sfr(i@, r)
{
  broadcast use {group_bytes, ax_str};
  proof { crlf_tag(i@); }
  if str_starts_with(i, "\r\n") { Ok((str_from(i, 2), str_to(i, 2))) } else { Err(Err::Error((i, ErrorKind::CrLf))) }
}
pub open spec fn line_ending_r<'a>(s: Seq<char>) -> PR<&'a str> { if s.len() > 0 && s[0] == '\n' { run_at(1, s) } else { crlf_r(s) } }
pub fn line_ending<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>) ensures pr(r) == line_ending_r::<'a>(i@), sfr(i@, r)
{
  broadcast use {group_bytes, ax_str};
  proof { crlf_tag(i@); }
  if str_starts_with(i, "\n") { Ok((str_from(i, 1), str_to(i, 1))) } else { if str_starts_with(i, "\r\n") { Ok((str_from(i, 2), str_to(i, 2))) } else { Err(Err::Error((i, ErrorKind::CrLf))) } }
}
pub open spec fn line_char(c: char) -> bool { !(c == '\r' || c == '\n') }
pub open spec fn not_line_ending_r<'a>(s: Seq<char>) -> PR<&'a str> {
  match run0_r(|c: char| line_char(c), s) { PR::Ok(s1, t) => if s1.len() > 0 && s1[0] == '\r' && !crlfm(s1) { PR::Error } else { PR::Ok(s1, t) }, e => fail(e) }
}
pub fn not_line_ending<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>) ensures pr(r) == not_line_ending_r::<'a>(i@), sfr(i@, r)
{
  broadcast use {group_bytes, ax_str};
  let ghost p = not_p(|c: char| line_char(c));
  let ghost q = |c: char| line_char(c);
  proof { not_not(q); assert(i@.take(i@.len() as int) =~= i@); }
  match str_find(i, |c: char| -> (b: bool) ensures b == p(c) { c == '\r' || c == '\n' }, Ghost(p)) {
    None => Ok((str_from(i, str_len(i)), i)),
    Some(index) => {
      let j = str_from(i, index);
      proof { crlf_tag(j@); assert(j@ == i@.skip(span(q, i@) as int)); }
      let nth = str_first(j).unwrap();
      if nth == '\r' {
        if str_starts_with(j, "\r\n") { Ok((j, str_to(i, index))) } else { Err(Err::Error((i, ErrorKind::Tag))) }
      } else { Ok((j, str_to(i, index))) }
    }
  }
}
pub open spec fn rest_r<'a>(s: Seq<char>) -> PR<&'a str> { run_at(s.len(), s) }
pub fn rest<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>) ensures pr(r) == rest_r::<'a>(i@), sfr(i@, r)
{
  broadcast use {group_bytes, ax_str};
  proof { assert(i@.take(i@.len() as int) =~= i@); }
  Ok((str_from(i, str_len(i)), i))
}
pub open spec fn take_s<'a>(n: nat) -> P<&'a str> { |s: Seq<char>| if n <= s.len() { run_at(n, s) } else { PR::Error } }
pub fn take<'a>(n: usize) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>) ensures imp(ret, take_s(n as nat))
{
  move |i: &'a str| -> (r: IResult<&'a str, &'a str>) ensures pr(r) == take_s::<'a>(n as nat)(i@) && sfr(i@, r)
  { match slice_index(i, n) { None => Err(Err::Error((i, ErrorKind::Eof))), Some(index) => Ok(take_split(i, index)) } }
}
pub open spec fn countr<O>(p: PR<Vec<O>>) -> PR<usize> { match p { PR::Ok(s1, v) => PR::Ok(s1, v@.len() as usize), e => fail(e) } }
pub open spec fn many0_count_s<O>(d: P<O>) -> P<usize> { |s: Seq<char>| countr(many0_s(d)(s)) }
pub open spec fn many1_count_s<O>(d: P<O>) -> P<usize> { |s: Seq<char>| countr(many1_s(d)(s)) }
macro_rules! counts { ($($n:ident $m:ident $s:ident;)*) => { verus!{ $(
pub fn $n<'a, O, F>(f: F, Ghost(d): Ghost<P<O>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, usize>)
where F: Fn(&'a str) -> IResult<&'a str, O>,
  requires imp(f, d)
  ensures imp(ret, $s(d))
{
  let all = $m(f, Ghost(d));
  move |i: &'a str| -> (r: IResult<&'a str, usize>) ensures pr(r) == $s(d)(i@) && sfr(i@, r)
  { match all(i) { Ok((i, v)) => Ok((i, v.len())), Err(e) => Err(e) } }
}
)* } } }
counts!{ many0_count many0 many0_count_s; many1_count many1 many1_count_s; }

// ------------------------------------------------- literals, small std pieces
pub proof fn lemma_tag1(k: Seq<char>)
  requires k.len() == 1
  ensures forall|s: Seq<char>| #[trigger] tag_r(k, s) == text_r(s, chr_r(k[0], s))
{
  reveal(tagm);
  assert forall|s: Seq<char>| #[trigger] tag_r(k, s) == text_r(s, chr_r(k[0], s)) by {
    if s.len() > 0 { assert((s.take(1) == k) == (s[0] == k[0])) by { if s[0] == k[0] { assert(s.take(1) =~= k); } } }
  }
}
pub open spec fn no_letter(k: Seq<char>) -> bool { forall|j: int| 0 <= j < k.len() ==> !is_alpha_s(#[trigger] k[j]) }
pub proof fn lemma_kw_sym(k: Seq<char>)
  requires no_letter(k)
  ensures forall|s: Seq<char>| #[trigger] kw_r(k, s) == tag_r(k, s)
{
  reveal(tagm); reveal(kwm);
  assert forall|s: Seq<char>| #[trigger] kw_r(k, s) == tag_r(k, s) by {
    if k.len() <= s.len() {
      let t = s.take(k.len() as int);
      if eq_nc(k, t) { assert(t =~= k) by { assert forall|j: int| 0 <= j < k.len() implies t[j] == k[j] by { assert(lower(k[j]) == lower(t[j])); } } }
      if t == k { assert(eq_nc(k, t)); }
    }
  }
}
pub proof fn lemma_kw_case(k: Seq<char>, l: Seq<char>)
  requires eq_nc(k, l)
  ensures forall|s: Seq<char>| #[trigger] kw_r(k, s) == kw_r(l, s)
{
  reveal(kwm);
  assert forall|s: Seq<char>| #[trigger] kw_r(k, s) == kw_r(l, s) by {
    if k.len() <= s.len() {
      let t = s.take(k.len() as int);
      assert(eq_nc(k, t) == eq_nc(l, t)) by {
        if eq_nc(k, t) { assert forall|j: int| 0 <= j < l.len() implies lower(#[trigger] l[j]) == lower(t[j]) by { assert(lower(k[j]) == lower(l[j])); assert(lower(k[j]) == lower(t[j])); } }
        if eq_nc(l, t) { assert forall|j: int| 0 <= j < k.len() implies lower(#[trigger] k[j]) == lower(t[j]) by { assert(lower(k[j]) == lower(l[j])); assert(lower(l[j]) == lower(t[j])); } }
      }
    }
  }
}
/// nom's own case-insensitive tag folds beyond ASCII: nothing is assumed of it
/// but that it matches a prefix or fails.
pub uninterp spec fn nom_fold<'a>(k: Seq<char>, s: Seq<char>) -> PR<&'a str>;
pub open spec fn nom_tag_no_case_s<'a>(k: Seq<char>) -> P<&'a str> { |s: Seq<char>| nom_fold(k, s) }
#[verifier::external_body]
pub fn nom_tag_no_case<'a>(t: &'a str) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>) ensures imp(ret, nom_tag_no_case_s(t@))
{ move |i: &'a str| -> IResult<&'a str, &'a str> { unimplemented!() } }
pub open spec fn in_p(k: Seq<char>) -> spec_fn(char) -> bool { |c: char| k.contains(c) }
pub open spec fn is_a_s<'a>(k: Seq<char>) -> P<&'a str> { run1_s(in_p(k)) }
pub open spec fn is_not_s<'a>(k: Seq<char>) -> P<&'a str> { run1_s(not_p(in_p(k))) }
pub fn is_a<'a>(t: &'a str) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>) ensures imp(ret, is_a_s(t@))
{
  move |i: &'a str| -> (r: IResult<&'a str, &'a str>) ensures pr(r) == is_a_s::<'a>(t@)(i@) && sfr(i@, r)
  {
    proof { not_not(in_p(t@)); }
    split_at_position1_complete(i, |c: char| -> (b: bool) ensures b == not_p(in_p(t@))(c) { !contains_char(t, c) }, Ghost(not_p(in_p(t@))), ErrorKind::IsA)
  }
}
pub fn is_not<'a>(t: &'a str) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>) ensures imp(ret, is_not_s(t@))
{
  move |i: &'a str| -> (r: IResult<&'a str, &'a str>) ensures pr(r) == is_not_s::<'a>(t@)(i@) && sfr(i@, r)
  {
    split_at_position1_complete(i, |c: char| -> (b: bool) ensures b == in_p(t@)(c) { contains_char(t, c) }, Ghost(in_p(t@)), ErrorKind::IsNot)
  }
}
pub open spec fn till0_s<'a>(p: spec_fn(char) -> bool) -> P<&'a str> { run0_s(not_p(p)) }
pub open spec fn till1_s<'a>(p: spec_fn(char) -> bool) -> P<&'a str> { run1_s(not_p(p)) }
pub open spec fn digit0_r<'a>(s: Seq<char>) -> PR<&'a str> { run0_r(|c: char| is_digit_s(c), s) }
pub open spec fn alpha0_r<'a>(s: Seq<char>) -> PR<&'a str> { run0_r(|c: char| is_alpha_s(c), s) }
pub open spec fn alphanumeric0_r<'a>(s: Seq<char>) -> PR<&'a str> { run0_r(|c: char| is_alphanum_s(c), s) }
pub open spec fn hex_digit0_r<'a>(s: Seq<char>) -> PR<&'a str> { run0_r(|c: char| is_hexdigit_s(c), s) }
pub open spec fn hex_digit1_r<'a>(s: Seq<char>) -> PR<&'a str> { run1_r(|c: char| is_hexdigit_s(c), s) }
pub open spec fn space0_r<'a>(s: Seq<char>) -> PR<&'a str> { run0_r(|c: char| is_space_s(c), s) }
pub open spec fn space1_r<'a>(s: Seq<char>) -> PR<&'a str> { run1_r(|c: char| is_space_s(c), s) }
pub open spec fn multispace0_r<'a>(s: Seq<char>) -> PR<&'a str> { run0_r(|c: char| is_multispace_s(c), s) }
pub open spec fn multispace1_r<'a>(s: Seq<char>) -> PR<&'a str> { run1_r(|c: char| is_multispace_s(c), s) }
// nom's streaming variants: incomplete at the end of the text
macro_rules! stream_texts { ($($n:ident $s:ident $u:ident;)*) => { verus!{ $(
pub uninterp spec fn $u<'a>(k: Seq<char>, s: Seq<char>) -> PR<&'a str>;
pub open spec fn $s<'a>(k: Seq<char>) -> P<&'a str> { |s: Seq<char>| $u(k, s) }
#[verifier::external_body]
pub fn $n<'a>(t: &'a str) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>) ensures imp(ret, $s(t@))
{ move |i: &'a str| -> IResult<&'a str, &'a str> { unimplemented!() } }
)* } } }
stream_texts!{ stream_tag stream_tag_s stream_tag_u; stream_tag_no_case stream_tag_no_case_s stream_tag_no_case_u; stream_is_a stream_is_a_s stream_is_a_u; stream_is_not stream_is_not_s stream_is_not_u; }
macro_rules! stream_runs { ($($n:ident $s:ident $u:ident;)*) => { verus!{ $(
pub uninterp spec fn $u<'a>(p: spec_fn(char) -> bool, s: Seq<char>) -> PR<&'a str>;
pub open spec fn $s<'a>(p: spec_fn(char) -> bool) -> P<&'a str> { |s: Seq<char>| $u(p, s) }
#[verifier::external_body]
pub fn $n<'a, F: Fn(char) -> bool>(cond: F, Ghost(p): Ghost<spec_fn(char) -> bool>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>) requires condimp(cond, p) ensures imp(ret, $s(p))
{ move |i: &'a str| -> IResult<&'a str, &'a str> { unimplemented!() } }
)* } } }
stream_runs!{ stream_take_while stream_take_while_s stream_take_while_u; stream_take_while1 stream_take_while1_s stream_take_while1_u; stream_take_till stream_take_till_s stream_take_till_u; stream_take_till1 stream_take_till1_s stream_take_till1_u; }
macro_rules! stream_prims { ($($n:ident $u:ident;)*) => { verus!{ $(
pub uninterp spec fn $u<'a>(s: Seq<char>) -> PR<&'a str>;
#[verifier::external_body]
pub fn $n<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>) ensures pr(r) == $u::<'a>(i@), sfr(i@, r)
{ unimplemented!() }
)* } } }
stream_prims!{ stream_digit0 stream_digit0_r; stream_digit1 stream_digit1_r; stream_alpha0 stream_alpha0_r; stream_alpha1 stream_alpha1_r; stream_alphanumeric0 stream_alphanumeric0_r; stream_alphanumeric1 stream_alphanumeric1_r;
  stream_hex_digit0 stream_hex_digit0_r; stream_hex_digit1 stream_hex_digit1_r; stream_space0 stream_space0_r; stream_space1 stream_space1_r; stream_multispace0 stream_multispace0_r; stream_multispace1 stream_multispace1_r; }
pub uninterp spec fn stream_char_u(k: char, s: Seq<char>) -> PR<char>;
pub open spec fn stream_char_s(k: char) -> P<char> { |s: Seq<char>| stream_char_u(k, s) }
#[verifier::external_body]
pub fn stream_char<'a>(k: char) -> (ret: impl Fn(&'a str) -> IResult<&'a str, char>) ensures imp(ret, stream_char_s(k))
{ move |i: &'a str| -> IResult<&'a str, char> { unimplemented!() } }
pub uninterp spec fn stream_set_u(k: Seq<char>, neg: bool, s: Seq<char>) -> PR<char>;
pub open spec fn stream_one_of_s(k: Seq<char>) -> P<char> { |s: Seq<char>| stream_set_u(k, false, s) }
pub open spec fn stream_none_of_s(k: Seq<char>) -> P<char> { |s: Seq<char>| stream_set_u(k, true, s) }
#[verifier::external_body]
pub fn stream_one_of<'a>(k: &'a str) -> (ret: impl Fn(&'a str) -> IResult<&'a str, char>) ensures imp(ret, stream_one_of_s(k@))
{ move |i: &'a str| -> IResult<&'a str, char> { unimplemented!() } }
#[verifier::external_body]
pub fn stream_none_of<'a>(k: &'a str) -> (ret: impl Fn(&'a str) -> IResult<&'a str, char>) ensures imp(ret, stream_none_of_s(k@))
{ move |i: &'a str| -> IResult<&'a str, char> { unimplemented!() } }

pub fn verify<'a, O, F, G>(first: F, second: G, Ghost(d1): Ghost<P<O>>, Ghost(d): Ghost<P<O>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, O>)
where F: Fn(&'a str) -> IResult<&'a str, O>, G: Fn(&O) -> bool,
  requires imp(first, d1),
    forall|a: O| #[trigger] second.requires((&a,)),
    forall|s: Seq<char>, b: bool| d1(s) is Ok && #[trigger] second.ensures((&d1(s)->Ok_1,), b) ==> d(s) == (if b { d1(s) } else { PR::Error }),
    forall|s: Seq<char>| !(d1(s) is Ok) ==> #[trigger] d(s) == d1(s),
  ensures imp(ret, d)
{
  move |input: &'a str| -> (r: IResult<&'a str, O>) ensures pr(r) == d(input@) && sfr(input@, r)
  {
    let ghost s0 = input@;
    let i = input.clone();
    let (input, o) = first(input)?;
    assert(d1(s0)->Ok_1 == o);
    if second(&o) { Ok((input, o)) } else { Err(Err::Error((i, ErrorKind::Verify))) }
  }
}
pub fn all_consuming<'a, O, F>(f: F, Ghost(d): Ghost<P<O>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, O>)
where F: Fn(&'a str) -> IResult<&'a str, O>,
  requires imp(f, d),
  ensures imp(ret, all_consuming_s(d))
{
  move |input: &'a str| -> (r: IResult<&'a str, O>) ensures pr(r) == all_consuming_s(d)(input@) && sfr(input@, r)
  {
    let (input, res) = f(input)?;
    if str_empty(input) { Ok((input, res)) } else { Err(Err::Error((input, ErrorKind::Eof))) }
  }
}


