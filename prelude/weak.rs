// The combinators of nom 5.1.3 under the contracts of the whole-language
// guarantees: which of the two conditions below is asked for is set when the
// file is generated ($SFX: what is left is a suffix of the text; $INC: no
// parser asks for more input).  That the calls' preconditions hold (slices on
// character boundaries, no unreachable code, no overflow) is asked for always.
pub open spec fn c02() -> bool { $SFX }
pub open spec fn c03() -> bool { $INC }
pub open spec fn good<'a, O>(i: &'a str, r: IResult<&'a str, O>) -> bool { (c02() ==> sfr(i@, r)) && (c03() ==> !(r is Err && r->Err_0 is Incomplete)) }
pub open spec fn wimp<'a, O, F: Fn(&'a str) -> IResult<&'a str, O>>(f: F) -> bool {
   (forall|i: &'a str| #[trigger] f.requires((i,)))
   && (forall|i: &'a str, r: IResult<&'a str, O>| #[trigger] f.ensures((i,), r) ==> good(i, r))
}
pub open spec fn wpred<F: Fn(char) -> bool>(f: F) -> bool { forall|c: char| #[trigger] f.requires((c,)) }
pub broadcast proof fn w_none(x: int) ensures #[trigger] (x + 0) == x {}
pub broadcast group group_weak { w_none }

macro_rules! seqs { ($($n:ident [$($F:ident $f:ident $O:ident $o:ident),*] $T:ty = $v:expr;)*) => { verus!{ $(
pub fn $n<'a, $($O,)* $($F),*>($($f: $F),*) -> (ret: impl Fn(&'a str) -> IResult<&'a str, $T>)
where $($F: Fn(&'a str) -> IResult<&'a str, $O>),*
  requires $(wimp($f)),*
  ensures wimp(ret)
{
  broadcast use group_sfx;
  move |input: &'a str| -> (r: IResult<&'a str, $T>) ensures good(input, r)
  {
    $(let (input, $o) = match $f(input) { Ok(x) => x, Err(e) => return Err(werr(e)) };)*
    Ok((input, $v))
  }
}
)* } } }
pub fn werr<I, E>(e: Err<(I, E)>) -> (r: Err<(I, E)>) ensures r == e { e }
seqs!{
  pair [F f O1 o1, G g O2 o2] (O1, O2) = (o1, o2);
  preceded [F f O1 o1, G g O2 o2] O2 = o2;
  terminated [F f O1 o1, G g O2 o2] O1 = o1;
  separated_pair [F f O1 o1, G g O2 o2, H h O3 o3] (O1, O3) = (o1, o3);
  delimited [F f O1 o1, G g O2 o2, H h O3 o3] O2 = o2;
}
macro_rules! wraps { ($($n:ident <$O:ident> $T:ty, $i:ident $f:ident $b:block;)*) => { verus!{ $(
pub fn $n<'a, $O, F>($f: F) -> (ret: impl Fn(&'a str) -> IResult<&'a str, $T>)
where F: Fn(&'a str) -> IResult<&'a str, $O>
  requires wimp($f)
  ensures wimp(ret)
{
  broadcast use group_sfx;
  move |$i: &'a str| -> (r: IResult<&'a str, $T>) ensures good($i, r) $b
}
)* } } }
wraps!{
  opt <O> Option<O>, i f { match f(i) { Ok((i, o)) => Ok((i, Some(o))), Err(Err::Error(_)) => Ok((i, None)), Err(e) => Err(e) } };
  cut <O> O, i f { match f(i) { Err(Err::Error(e)) => Err(Err::Failure(e)), rest => rest } };
  complete <O> O, i f { match f(i) { Err(Err::Incomplete(_)) => Err(Err::Error((i, ErrorKind::Complete))), rest => rest } };
  peek <O> O, i f { match f(i) { Ok((_, o)) => Ok((i, o)), Err(e) => Err(e) } };
  not <O> (), i f { match f(i) { Ok(_) => Err(Err::Error((i, ErrorKind::Not))), Err(Err::Error(_)) => Ok((i, ())), Err(e) => Err(e) } };
  recognize <O> &'a str, i f { match f(i) { Ok((j, _)) => Ok((j, slice_before(i, j))), Err(e) => Err(e) } };
  all_consuming <O> O, i f { match f(i) { Ok((j, o)) => if str_empty(j) { Ok((j, o)) } else { Err(Err::Error((j, ErrorKind::Eof))) }, Err(e) => Err(e) } };
}
/// nom's `input.slice(..input.offset(&i))`.  Where this condition is not asked for
/// (C01, C03) that `i` is a rest of `input` is taken from C02, which proves it.
pub fn slice_before<'a>(input: &'a str, i: &'a str) -> (r: &'a str) requires c02() ==> sfx(input@, i@)
{
  broadcast use group_bytes;
  proof { if !c02() { assume(sfx(input@, i@)); } }
  let index = str_offset(input, i);
  str_to(input, index)
}
pub fn cond<'a, O, F>(b: bool, f: F) -> (ret: impl Fn(&'a str) -> IResult<&'a str, Option<O>>)
where F: Fn(&'a str) -> IResult<&'a str, O>,
  requires wimp(f), ensures wimp(ret)
{
  broadcast use group_sfx;
  move |input: &'a str| -> (r: IResult<&'a str, Option<O>>) ensures good(input, r)
  { if b { match f(input) { Ok((i, o)) => Ok((i, Some(o))), Err(e) => Err(e) } } else { Ok((input, None)) } }
}
pub fn value<'a, O1, O2, F>(val: O1, parser: F) -> (ret: impl Fn(&'a str) -> IResult<&'a str, O1>)
where F: Fn(&'a str) -> IResult<&'a str, O2>,
  requires wimp(parser), ensures wimp(ret)
{ move |input: &'a str| -> (r: IResult<&'a str, O1>) ensures good(input, r) { match parser(input) { Ok((i, _)) => Ok((i, dup(&val))), Err(e) => Err(e) } } }
pub fn map<'a, O1, O2, F, G>(first: F, second: G) -> (ret: impl Fn(&'a str) -> IResult<&'a str, O2>)
where F: Fn(&'a str) -> IResult<&'a str, O1>, G: Fn(O1) -> O2,
  requires wimp(first), forall|a: O1| #[trigger] second.requires((a,)), ensures wimp(ret)
{ move |input: &'a str| -> (r: IResult<&'a str, O2>) ensures good(input, r) { match first(input) { Ok((i, o)) => Ok((i, second(o))), Err(e) => Err(e) } } }
pub fn map_res<'a, O1, O2, E2, F, G>(first: F, second: G) -> (ret: impl Fn(&'a str) -> IResult<&'a str, O2>)
where F: Fn(&'a str) -> IResult<&'a str, O1>, G: Fn(O1) -> Result<O2, E2>,
  requires wimp(first), forall|a: O1| #[trigger] second.requires((a,)), ensures wimp(ret)
{ move |input: &'a str| -> (r: IResult<&'a str, O2>) ensures good(input, r) { match first(input) { Ok((i, o)) => match second(o) { Ok(x) => Ok((i, x)), Err(_) => Err(Err::Error((input, ErrorKind::MapRes))) }, Err(e) => Err(e) } } }
pub fn map_opt<'a, O1, O2, F, G>(first: F, second: G) -> (ret: impl Fn(&'a str) -> IResult<&'a str, O2>)
where F: Fn(&'a str) -> IResult<&'a str, O1>, G: Fn(O1) -> Option<O2>,
  requires wimp(first), forall|a: O1| #[trigger] second.requires((a,)), ensures wimp(ret)
{ move |input: &'a str| -> (r: IResult<&'a str, O2>) ensures good(input, r) { match first(input) { Ok((i, o)) => match second(o) { Some(x) => Ok((i, x)), None => Err(Err::Error((input, ErrorKind::MapOpt))) }, Err(e) => Err(e) } } }
pub fn verify<'a, O, F, G>(first: F, second: G) -> (ret: impl Fn(&'a str) -> IResult<&'a str, O>)
where F: Fn(&'a str) -> IResult<&'a str, O>, G: Fn(&O) -> bool,
  requires wimp(first), forall|a: O| #[trigger] second.requires((&a,)), ensures wimp(ret)
{ move |input: &'a str| -> (r: IResult<&'a str, O>) ensures good(input, r) { match first(input) { Ok((i, o)) => if second(&o) { Ok((i, o)) } else { Err(Err::Error((input, ErrorKind::Verify))) }, Err(e) => Err(e) } } }

// nom stops every repetition that consumes nothing with an error.
#[verifier::exec_allows_no_decreases_clause]
pub fn many_<'a, O, F>(f: &F, i0: &'a str, v: Vec<O>) -> (r: IResult<&'a str, Vec<O>>)
where F: Fn(&'a str) -> IResult<&'a str, O>,
  requires wimp(*f), ensures good(i0, r)
{
  broadcast use group_sfx;
  let mut acc = v;
  let mut i = i0;
  loop
    invariant c02() ==> sfx(i0@, i@), wimp(*f)
  {
    match f(i) {
      Err(Err::Error(_)) => return Ok((i, acc)),
      Err(e) => return Err(e),
      Ok((i1, o)) => {
        if str_eq(i1, i) { return Err(Err::Error((i, ErrorKind::Many0))); }
        proof { if c02() { sfx_trans(i0@, i@, i1@); } }
        i = i1;
        acc.push(o);
      }
    }
  }
}
pub fn many0<'a, O, F>(f: F) -> (ret: impl Fn(&'a str) -> IResult<&'a str, Vec<O>>)
where F: Fn(&'a str) -> IResult<&'a str, O>,
  requires wimp(f), ensures wimp(ret)
{ move |i: &'a str| -> (r: IResult<&'a str, Vec<O>>) ensures good(i, r) { many_(&f, i, Vec::new()) } }
pub fn many1<'a, O, F>(f: F) -> (ret: impl Fn(&'a str) -> IResult<&'a str, Vec<O>>)
where F: Fn(&'a str) -> IResult<&'a str, O>,
  requires wimp(f), ensures wimp(ret)
{
  broadcast use group_sfx;
  move |i: &'a str| -> (r: IResult<&'a str, Vec<O>>) ensures good(i, r) { match f(i) { Err(e) => Err(e), Ok((j, o)) => { let mut v = Vec::new(); v.push(o); many_(&f, j, v) } } }
}
#[verifier::exec_allows_no_decreases_clause]
pub fn list_<'a, O, O2, F, G>(sep: &G, f: &F, i0: &'a str, v: Vec<O>) -> (r: IResult<&'a str, Vec<O>>)
where F: Fn(&'a str) -> IResult<&'a str, O>, G: Fn(&'a str) -> IResult<&'a str, O2>,
  requires wimp(*f), wimp(*sep), ensures good(i0, r)
{
  broadcast use group_sfx;
  let mut res = v;
  let mut i = i0;
  loop
    invariant c02() ==> sfx(i0@, i@), wimp(*f), wimp(*sep)
  {
    match sep(i) {
      Err(Err::Error(_)) => return Ok((i, res)),
      Err(e) => return Err(e),
      Ok((i1, _)) => {
        if str_eq(i1, i) { return Err(Err::Error((i1, ErrorKind::SeparatedList))); }
        match f(i1) {
          Err(Err::Error(_)) => return Ok((i, res)),
          Err(e) => return Err(e),
          Ok((i2, o)) => {
            if str_eq(i2, i) { return Err(Err::Error((i2, ErrorKind::SeparatedList))); }
            res.push(o);
            proof { if c02() { sfx_trans(i@, i1@, i2@); sfx_trans(i0@, i@, i2@); } }
            i = i2;
          }
        }
      }
    }
  }
}
pub fn separated_list<'a, O, O2, F, G>(sep: G, f: F) -> (ret: impl Fn(&'a str) -> IResult<&'a str, Vec<O>>)
where F: Fn(&'a str) -> IResult<&'a str, O>, G: Fn(&'a str) -> IResult<&'a str, O2>,
  requires wimp(f), wimp(sep), ensures wimp(ret)
{
  broadcast use group_sfx;
  move |i: &'a str| -> (r: IResult<&'a str, Vec<O>>) ensures good(i, r) { match f(i) { Err(Err::Error(_)) => Ok((i, Vec::new())), Err(e) => Err(e), Ok((j, o)) => { if str_eq(j, i) { return Err(Err::Error((j, ErrorKind::SeparatedList))); } let mut v = Vec::new(); v.push(o); list_(&sep, &f, j, v) } } }
}
pub fn separated_nonempty_list<'a, O, O2, F, G>(sep: G, f: F) -> (ret: impl Fn(&'a str) -> IResult<&'a str, Vec<O>>)
where F: Fn(&'a str) -> IResult<&'a str, O>, G: Fn(&'a str) -> IResult<&'a str, O2>,
  requires wimp(f), wimp(sep), ensures wimp(ret)
{
  broadcast use group_sfx;
  move |i: &'a str| -> (r: IResult<&'a str, Vec<O>>) ensures good(i, r) { match f(i) { Err(e) => Err(e), Ok((j, o)) => { if str_eq(j, i) { return Err(Err::Error((j, ErrorKind::SeparatedList))); } let mut v = Vec::new(); v.push(o); list_(&sep, &f, j, v) } } }
}

// ------------------------------------------------ std: searching, traversing
#[verifier::external_body]
pub fn str_find<F>(s: &str, cond: F) -> (r: Option<usize>) where F: Fn(char) -> bool
  requires wpred(cond)
  ensures r is Some ==> exists|m: int| #[trigger] bnd(s@, r->0 as nat, m)
{ s.find(|c| cond(c)) }
#[verifier::external_body]
pub fn str_trim_start<'a, F>(s: &'a str, cond: F) -> (r: &'a str) where F: Fn(char) -> bool
  requires wpred(cond)
  ensures sfx(s@, r@)
{ s.trim_start_matches(|c| cond(c)) }
/// the byte offset of the `n`-th character: a loop over `char_indices`
#[verifier::external_body]
pub fn slice_index(s: &str, n: usize) -> (r: Option<usize>)
  ensures match r { Some(b) => bnd(s@, b as nat, n as int), None => n > s@.len() }
{ let mut k = 0; for (b, _) in s.char_indices() { if k == n { return Some(b); } k += 1; } if k == n { Some(s.len()) } else { None } }

// ------------------------------------- nom 5.1.3: traits.rs, for `&str` inputs
pub fn take_split<'a>(i: &'a str, n: usize) -> (r: (&'a str, &'a str))
  requires exists|m: int| #[trigger] bnd(i@, n as nat, m)
  ensures sfx(i@, r.0@)
{ (str_from(i, n), str_to(i, n)) }
pub fn split_at_position_complete<'a, F>(i: &'a str, predicate: F) -> (r: IResult<&'a str, &'a str>) where F: Fn(char) -> bool
  requires wpred(predicate) ensures good(i, r), !(r is Err && r->Err_0 is Incomplete)
{
  match str_find(i, predicate) {
    Some(n) => Ok(take_split(i, n)),
    None => Ok(take_split(i, str_len(i))),
  }
}
pub fn split_at_position1_complete<'a, F>(i: &'a str, predicate: F, e: ErrorKind) -> (r: IResult<&'a str, &'a str>) where F: Fn(char) -> bool
  requires wpred(predicate) ensures good(i, r)
{
  match str_find(i, predicate) {
    Some(0) => Err(Err::Error((i, e))),
    Some(n) => Ok(take_split(i, n)),
    None => if str_len(i) == 0 { Err(Err::Error((i, e))) } else { Ok(take_split(i, str_len(i))) },
  }
}

// ---------------------------- nom 5.1.3: bytes/complete.rs, character/complete.rs
pub fn tag<'a>(t: &'a str) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>) ensures wimp(ret)
{
  move |i: &'a str| -> (r: IResult<&'a str, &'a str>) ensures good(i, r)
  {
    proof { reveal(tagm); if tagm(t@, i@) { assert(bnd(i@, blen(t@), t@.len() as int)); } }
    let tag_len = str_len(t);
    if str_starts_with(i, t) { Ok(take_split(i, tag_len)) } else { Err(Err::Error((i, ErrorKind::Tag))) }
  }
}
macro_rules! firsts { ($($n:ident $k:ident $t:ty, $d:ident $c:expr, $e:expr;)*) => { verus!{ $(
pub fn $n<'a>($k: $t) -> (ret: impl Fn(&'a str) -> IResult<&'a str, char>) ensures wimp(ret)
{
  move |i: &'a str| -> (r: IResult<&'a str, char>) ensures good(i, r)
  { match str_first(i) { Some($d) if $c => Ok((str_from(i, ch_bytes($d)), $d)), _ => Err(Err::Error((i, $e))) } }
}
)* } } }
firsts!{
  char c char, d d == c, ErrorKind::Char;
  one_of list &'a str, d contains_char(list, d), ErrorKind::OneOf;
  none_of list &'a str, d !contains_char(list, d), ErrorKind::NoneOf;
}
pub fn anychar<'a>(i: &'a str) -> (r: IResult<&'a str, char>) ensures good(i, r)
{ match str_first(i) { Some(d) => Ok((str_from(i, ch_bytes(d)), d)), None => Err(Err::Error((i, ErrorKind::Eof))) } }
macro_rules! runs { ($($n:ident $f:ident $neg:expr, ($($e:expr),*);)*) => { verus!{ $(
pub fn $n<'a, F: Fn(char) -> bool>(cond: F) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>) requires wpred(cond) ensures wimp(ret)
{ move |i: &'a str| -> (r: IResult<&'a str, &'a str>) ensures good(i, r) { $f(i, |c: char| -> (b: bool) { if $neg { !cond(c) } else { cond(c) } } $(, $e)*) } }
)* } } }
runs!{
  take_while split_at_position_complete true, ();
  take_while1 split_at_position1_complete true, (ErrorKind::TakeWhile1);
  take_till split_at_position_complete false, ();
  take_till1 split_at_position1_complete false, (ErrorKind::TakeTill1);
}
macro_rules! sets { ($($n:ident $neg:expr, $e:expr;)*) => { verus!{ $(
pub fn $n<'a>(t: &'a str) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>) ensures wimp(ret)
{ move |i: &'a str| -> (r: IResult<&'a str, &'a str>) ensures good(i, r) { split_at_position1_complete(i, |c: char| -> (b: bool) { contains_char(t, c) != $neg }, $e) } }
)* } } }
sets!{ is_a true, ErrorKind::IsA; is_not false, ErrorKind::IsNot; }
/// nom's own case-insensitive tag: its folding goes beyond ASCII.
#[verifier::external_body]
pub fn nom_tag_no_case<'a>(t: &'a str) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>) ensures wimp(ret)
{ move |i: &'a str| -> IResult<&'a str, &'a str> { unimplemented!() } }
pub fn take_while_m_n<'a, F: Fn(char) -> bool>(m: usize, n: usize, cond: F) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>) requires wpred(cond) ensures wimp(ret)
{
  move |i: &'a str| -> (r: IResult<&'a str, &'a str>) ensures good(i, r)
  {
    let input = i;
    match str_find(input, |c: char| -> (b: bool) { !cond(c) }) {
      Some(idx) => {
        if idx >= m {
          if idx <= n {
            if let Some(index) = slice_index(input, idx) { Ok(take_split(input, index)) } else { Err(Err::Error((input, ErrorKind::TakeWhileMN))) }
          } else {
            if let Some(index) = slice_index(input, n) { Ok(take_split(input, index)) } else { Err(Err::Error((input, ErrorKind::TakeWhileMN))) }
          }
        } else { Err(Err::Error((input, ErrorKind::TakeWhileMN))) }
      }
      None => {
        let len = str_len(input);
        if len >= n {
          match slice_index(input, n) { Some(index) => Ok(take_split(input, index)), None => Err(Err::Error((input, ErrorKind::TakeWhileMN))) }
        } else {
          if len >= m && len <= n { Ok((str_from(input, len), input)) } else { Err(Err::Error((input, ErrorKind::TakeWhileMN))) }
        }
      }
    }
  }
}
fn sp_char(c: char) -> bool { c == ' ' || c == '\t' }
fn msp_char(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
macro_rules! run_prims { ($($n:ident $q:ident $f:ident ($($e:expr),*);)*) => { verus!{ $(
pub fn $n<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>) ensures good(i, r)
{ $f(i, |c: char| -> (b: bool) { !$q(c) } $(, $e)*) }
)* } } }
run_prims!{
  digit1 ch_ascii_digit split_at_position1_complete (ErrorKind::Digit);
  alpha1 ch_ascii_alphabetic split_at_position1_complete (ErrorKind::Alpha);
  alphanumeric1 ch_ascii_alphanumeric split_at_position1_complete (ErrorKind::AlphaNumeric);
  digit0 ch_ascii_digit split_at_position_complete ();
  alpha0 ch_ascii_alphabetic split_at_position_complete ();
  alphanumeric0 ch_ascii_alphanumeric split_at_position_complete ();
  hex_digit0 ch_ascii_hexdigit split_at_position_complete ();
  hex_digit1 ch_ascii_hexdigit split_at_position1_complete (ErrorKind::HexDigit);
  space0 sp_char split_at_position_complete ();
  space1 sp_char split_at_position1_complete (ErrorKind::Space);
  multispace0 msp_char split_at_position_complete ();
  multispace1 msp_char split_at_position1_complete (ErrorKind::MultiSpace);
}
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
pub fn escaped_<'a, O1, O2, F, G>(normal: &F, control_char: char, escapable: &G, input: &'a str) -> (r: IResult<&'a str, &'a str>)
where F: Fn(&'a str) -> IResult<&'a str, O1>, G: Fn(&'a str) -> IResult<&'a str, O2>,
  requires wimp(*normal), wimp(*escapable), ensures good(input, r)
{
  broadcast use {group_bytes, group_sfx, ax_str};
  let mut i = input;
  while str_len(i) > 0
    invariant c02() ==> sfx(input@, i@), wimp(*normal), wimp(*escapable)
  {
    match normal(i) {
      Ok((i2, _)) => {
        if str_len(i2) == 0 { return Ok((str_from(input, str_len(input)), input)); } else { proof { if c02() { sfx_trans(input@, i@, i2@); } } i = i2; }
      }
      Err(Err::Error(_)) => {
        let ghost i0 = i@;
        proof { assert(i0.len() > 0); }
        if str_first(i).unwrap() == control_char {
          let next = ch_bytes(control_char);
          if next >= str_len(i) { return Err(Err::Error((input, ErrorKind::Escaped))); }
          let j = str_from(i, next);
          match escapable(j) {
            Ok((i2, _)) => {
              if str_len(i2) == 0 { return Ok((str_from(input, str_len(input)), input)); } else { proof { if c02() { sfx_trans(i@, j@, i2@); sfx_trans(input@, i@, i2@); } } i = i2; }
            }
            Err(e) => return Err(werr(e)),
          }
        } else {
          proof { if !c02() { assume(sfx(input@, i@)); } }
          let index = str_offset(input, i);
          if index == 0 { return Err(Err::Error((input, ErrorKind::Escaped))); }
          return Ok(take_split(input, index));
        }
      }
      Err(e) => return Err(werr(e)),
    }
  }
  Ok((str_from(input, str_len(input)), input))
}
pub fn escaped<'a, O1, O2, F, G>(normal: F, control_char: char, escapable: G) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>)
where F: Fn(&'a str) -> IResult<&'a str, O1>, G: Fn(&'a str) -> IResult<&'a str, O2>,
  requires wimp(normal), wimp(escapable)
  ensures wimp(ret)
{ move |i: &'a str| -> (r: IResult<&'a str, &'a str>) ensures good(i, r) { escaped_(&normal, control_char, &escapable, i) } }
pub fn newline<'a>(i: &'a str) -> (r: IResult<&'a str, char>) ensures good(i, r) { char('\n')(i) }
pub fn tab<'a>(i: &'a str) -> (r: IResult<&'a str, char>) ensures good(i, r) { char('\t')(i) }
pub fn crlf<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>) ensures good(i, r) { tag("\r\n")(i) }
pub fn line_ending<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>) ensures good(i, r) { match tag("\n")(i) { Err(Err::Error(_)) => tag("\r\n")(i), x => x } }
pub fn not_line_ending<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>) ensures good(i, r)
{
  match str_find(i, |c: char| -> (b: bool) { c == '\r' || c == '\n' }) {
    None => Ok((str_from(i, str_len(i)), i)),
    Some(index) => {
      let j = str_from(i, index);
      match str_first(j) {
        Some('\r') => if str_starts_with(j, "\r\n") { Ok((j, str_to(i, index))) } else { Err(Err::Error((i, ErrorKind::Tag))) },
        _ => Ok((j, str_to(i, index))),
      }
    }
  }
}
pub fn rest<'a>(i: &'a str) -> (r: IResult<&'a str, &'a str>) ensures good(i, r) { Ok((str_from(i, str_len(i)), i)) }
pub fn take<'a>(n: usize) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>) ensures wimp(ret)
{ move |i: &'a str| -> (r: IResult<&'a str, &'a str>) ensures good(i, r) { match slice_index(i, n) { None => Err(Err::Error((i, ErrorKind::Eof))), Some(index) => Ok(take_split(i, index)) } } }
macro_rules! counts { ($($n:ident $m:ident;)*) => { verus!{ $(
pub fn $n<'a, O, F>(f: F) -> (ret: impl Fn(&'a str) -> IResult<&'a str, usize>)
where F: Fn(&'a str) -> IResult<&'a str, O>,
  requires wimp(f), ensures wimp(ret)
{
  let all = $m(f);
  move |i: &'a str| -> (r: IResult<&'a str, usize>) ensures good(i, r) { match all(i) { Ok((i, v)) => Ok((i, v.len())), Err(e) => Err(e) } }
}
)* } } }
counts!{ many0_count many0; many1_count many1; }
// nom's streaming variants ask for more input at the end of the text
macro_rules! stexts { ($($n:ident $t:ty => $o:ty;)*) => { verus!{ $(
#[verifier::external_body]
pub fn $n<'a>(t: $t) -> (ret: impl Fn(&'a str) -> IResult<&'a str, $o>) ensures wstream(ret)
{ move |i: &'a str| -> IResult<&'a str, $o> { unimplemented!() } }
)* } } }
pub open spec fn wstream<'a, O, F: Fn(&'a str) -> IResult<&'a str, O>>(f: F) -> bool {
   (forall|i: &'a str| #[trigger] f.requires((i,)))
   && (forall|i: &'a str, r: IResult<&'a str, O>| #[trigger] f.ensures((i,), r) ==> sfr(i@, r))
}
stexts!{ stream_tag &'a str => &'a str; stream_tag_no_case &'a str => &'a str; stream_is_a &'a str => &'a str; stream_is_not &'a str => &'a str; stream_char char => char; stream_one_of &'a str => char; stream_none_of &'a str => char; }
macro_rules! sruns { ($($n:ident)*) => { verus!{ $(
#[verifier::external_body]
pub fn $n<'a, F: Fn(char) -> bool>(cond: F) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>) requires wpred(cond) ensures wstream(ret)
{ move |i: &'a str| -> IResult<&'a str, &'a str> { unimplemented!() } }
)* } } }
sruns!{ stream_take_while stream_take_while1 stream_take_till stream_take_till1 }
macro_rules! sprims { ($($n:ident $o:ty;)*) => { verus!{ $(
#[verifier::external_body]
pub fn $n<'a>(i: &'a str) -> (r: IResult<&'a str, $o>) ensures sfr(i@, r)
{ unimplemented!() }
)* } } }
sprims!{ stream_digit0 &'a str; stream_digit1 &'a str; stream_alpha0 &'a str; stream_alpha1 &'a str; stream_alphanumeric0 &'a str; stream_alphanumeric1 &'a str; stream_hex_digit0 &'a str; stream_hex_digit1 &'a str; stream_space0 &'a str; stream_space1 &'a str; stream_multispace0 &'a str; stream_multispace1 &'a str; }
