// ---------------------------------------------------------------- sequence
pub open spec fn pair_s<A, B>(d1: P<A>, d2: P<B>) -> P<(A, B)> { |s: Seq<char>| match d1(s) { PR::Ok(s1, a) => match d2(s1) { PR::Ok(s2, b) => PR::Ok(s2, (a, b)), e => fail(e) }, e => fail(e) } }
pub fn pair<'a, O1, O2, F, G>(first: F, second: G, Ghost(d1): Ghost<P<O1>>, Ghost(d2): Ghost<P<O2>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, (O1, O2)>)
where F: Fn(&'a str) -> IResult<&'a str, O1>, G: Fn(&'a str) -> IResult<&'a str, O2>,
  requires imp(first, d1), imp(second, d2),
  ensures imp(ret, pair_s(d1, d2))
{
  broadcast use group_sfx;
  move |input: &'a str| -> (r: IResult<&'a str, (O1, O2)>) ensures pr(r) == pair_s(d1, d2)(input@) && sfr(input@, r)
  {
    let (input, o1) = first(input)?;
    match second(input) { Ok((i, o2)) => Ok((i, (o1, o2))), Err(e) => Err(e) }
  }
}

pub open spec fn preceded_s<A, B>(d1: P<A>, d2: P<B>) -> P<B> { |s: Seq<char>| match d1(s) { PR::Ok(s1, a) => d2(s1), e => fail(e) } }
pub fn preceded<'a, O1, O2, F, G>(first: F, second: G, Ghost(d1): Ghost<P<O1>>, Ghost(d2): Ghost<P<O2>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, O2>)
where F: Fn(&'a str) -> IResult<&'a str, O1>, G: Fn(&'a str) -> IResult<&'a str, O2>,
  requires imp(first, d1), imp(second, d2),
  ensures imp(ret, preceded_s(d1, d2))
{
  broadcast use group_sfx;
  move |input: &'a str| -> (r: IResult<&'a str, O2>) ensures pr(r) == preceded_s(d1, d2)(input@) && sfr(input@, r)
  {
    let (input, _o1) = first(input)?;
    second(input)
  }
}

pub open spec fn terminated_s<A, B>(d1: P<A>, d2: P<B>) -> P<A> { |s: Seq<char>| match d1(s) { PR::Ok(s1, a) => match d2(s1) { PR::Ok(s2, b) => PR::Ok(s2, a), e => fail(e) }, e => fail(e) } }
pub fn terminated<'a, O1, O2, F, G>(first: F, second: G, Ghost(d1): Ghost<P<O1>>, Ghost(d2): Ghost<P<O2>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, O1>)
where F: Fn(&'a str) -> IResult<&'a str, O1>, G: Fn(&'a str) -> IResult<&'a str, O2>,
  requires imp(first, d1), imp(second, d2),
  ensures imp(ret, terminated_s(d1, d2))
{
  broadcast use group_sfx;
  move |input: &'a str| -> (r: IResult<&'a str, O1>) ensures pr(r) == terminated_s(d1, d2)(input@) && sfr(input@, r)
  {
    let (input, o1) = first(input)?;
    match second(input) { Ok((i, _)) => Ok((i, o1)), Err(e) => Err(e) }
  }
}

pub open spec fn separated_pair_s<A, B, C>(d1: P<A>, d2: P<B>, d3: P<C>) -> P<(A, C)> { |s: Seq<char>| match d1(s) { PR::Ok(s1, a) => match d2(s1) { PR::Ok(s2, b) => match d3(s2) { PR::Ok(s3, c) => PR::Ok(s3, (a, c)), e => fail(e) }, e => fail(e) }, e => fail(e) } }
pub fn separated_pair<'a, O1, O2, O3, F, G, H>(first: F, sep: G, second: H, Ghost(d1): Ghost<P<O1>>, Ghost(d2): Ghost<P<O2>>, Ghost(d3): Ghost<P<O3>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, (O1, O3)>)
where F: Fn(&'a str) -> IResult<&'a str, O1>, G: Fn(&'a str) -> IResult<&'a str, O2>, H: Fn(&'a str) -> IResult<&'a str, O3>,
  requires imp(first, d1), imp(sep, d2), imp(second, d3),
  ensures imp(ret, separated_pair_s(d1, d2, d3))
{
  broadcast use group_sfx;
  move |input: &'a str| -> (r: IResult<&'a str, (O1, O3)>) ensures pr(r) == separated_pair_s(d1, d2, d3)(input@) && sfr(input@, r)
  {
    let (input, o1) = first(input)?;
    let (input, _s) = sep(input)?;
    match second(input) { Ok((i, o2)) => Ok((i, (o1, o2))), Err(e) => Err(e) }
  }
}

pub open spec fn delimited_s<A, B, C>(d1: P<A>, d2: P<B>, d3: P<C>) -> P<B> { |s: Seq<char>| match d1(s) { PR::Ok(s1, a) => match d2(s1) { PR::Ok(s2, b) => match d3(s2) { PR::Ok(s3, c) => PR::Ok(s3, b), e => fail(e) }, e => fail(e) }, e => fail(e) } }
pub fn delimited<'a, O1, O2, O3, F, G, H>(first: F, sep: G, second: H, Ghost(d1): Ghost<P<O1>>, Ghost(d2): Ghost<P<O2>>, Ghost(d3): Ghost<P<O3>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, O2>)
where F: Fn(&'a str) -> IResult<&'a str, O1>, G: Fn(&'a str) -> IResult<&'a str, O2>, H: Fn(&'a str) -> IResult<&'a str, O3>,
  requires imp(first, d1), imp(sep, d2), imp(second, d3),
  ensures imp(ret, delimited_s(d1, d2, d3))
{
  broadcast use group_sfx;
  move |input: &'a str| -> (r: IResult<&'a str, O2>) ensures pr(r) == delimited_s(d1, d2, d3)(input@) && sfr(input@, r)
  {
    let (input, _o1) = first(input)?;
    let (input, o2) = sep(input)?;
    match second(input) { Ok((i, _)) => Ok((i, o2)), Err(e) => Err(e) }
  }
}

// -------------------------------------------------------------- combinator
pub open spec fn opt_s<A>(d: P<A>) -> P<Option<A>> { |s: Seq<char>| match d(s) { PR::Ok(s1, a) => PR::Ok(s1, Some(a)), PR::Error => PR::Ok(s, None), e => fail(e) } }
pub fn opt<'a, O, F>(f: F, Ghost(d): Ghost<P<O>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, Option<O>>)
where F: Fn(&'a str) -> IResult<&'a str, O>,
  requires imp(f, d),
  ensures imp(ret, opt_s(d))
{
  broadcast use group_sfx;
  move |input: &'a str| -> (r: IResult<&'a str, Option<O>>) ensures pr(r) == opt_s(d)(input@) && sfr(input@, r)
  {
    let i = input.clone();
    match f(input) {
      Ok((i, o)) => Ok((i, Some(o))),
      Err(Err::Error(_)) => Ok((i, None)),
      Err(e) => Err(e),
    }
  }
}

pub open spec fn cut_s<A>(d: P<A>) -> P<A> { |s: Seq<char>| match d(s) { PR::Error => PR::Failure, e => e } }
pub fn cut<'a, O, F>(parser: F, Ghost(d): Ghost<P<O>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, O>)
where F: Fn(&'a str) -> IResult<&'a str, O>,
  requires imp(parser, d),
  ensures imp(ret, cut_s(d))
{
  move |input: &'a str| -> (r: IResult<&'a str, O>) ensures pr(r) == cut_s(d)(input@) && sfr(input@, r)
  {
    let i = input.clone();
    match parser(i) {
      Err(Err::Error(e)) => Err(Err::Failure(e)),
      rest => rest
    }
  }
}

pub open spec fn complete_s<A>(d: P<A>) -> P<A> { |s: Seq<char>| match d(s) { PR::Incomplete => PR::Error, e => e } }
pub fn complete<'a, O, F>(f: F, Ghost(d): Ghost<P<O>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, O>)
where F: Fn(&'a str) -> IResult<&'a str, O>,
  requires imp(f, d),
  ensures imp(ret, complete_s(d))
{
  move |input: &'a str| -> (r: IResult<&'a str, O>) ensures pr(r) == complete_s(d)(input@) && sfr(input@, r)
  {
    let i = input.clone();
    match f(input) {
      Err(Err::Incomplete(_)) => { Err(Err::Error((i, ErrorKind::Complete))) },
      rest => rest
    }
  }
}

pub open spec fn peek_s<A>(d: P<A>) -> P<A> { |s: Seq<char>| match d(s) { PR::Ok(_, a) => PR::Ok(s, a), e => fail(e) } }
pub fn peek<'a, O, F>(f: F, Ghost(d): Ghost<P<O>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, O>)
where F: Fn(&'a str) -> IResult<&'a str, O>,
  requires imp(f, d),
  ensures imp(ret, peek_s(d))
{
  broadcast use group_sfx;
  move |input: &'a str| -> (r: IResult<&'a str, O>) ensures pr(r) == peek_s(d)(input@) && sfr(input@, r)
  {
    let i = input.clone();
    match f(input) {
      Ok((_, o)) => Ok((i, o)),
      Err(e) => Err(e),
    }
  }
}

pub open spec fn not_s<A>(d: P<A>) -> P<()> { |s: Seq<char>| match d(s) { PR::Ok(_, a) => PR::Error, PR::Error => PR::Ok(s, ()), e => fail(e) } }
pub fn not<'a, O, F>(parser: F, Ghost(d): Ghost<P<O>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, ()>)
where F: Fn(&'a str) -> IResult<&'a str, O>,
  requires imp(parser, d),
  ensures imp(ret, not_s(d))
{
  broadcast use group_sfx;
  move |input: &'a str| -> (r: IResult<&'a str, ()>) ensures pr(r) == not_s(d)(input@) && sfr(input@, r)
  {
    let i = input.clone();
    match parser(input) {
      Ok(_) => Err(Err::Error((i, ErrorKind::Not))),
      Err(Err::Error(_)) => Ok((i, ())),
      Err(e) => Err(e),
    }
  }
}

pub open spec fn cond_s<A>(b: bool, d: P<A>) -> P<Option<A>> { |s: Seq<char>| if b { match d(s) { PR::Ok(s1, a) => PR::Ok(s1, Some(a)), e => fail(e) } } else { PR::Ok(s, None) } }
pub fn cond<'a, O, F>(b: bool, f: F, Ghost(d): Ghost<P<O>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, Option<O>>)
where F: Fn(&'a str) -> IResult<&'a str, O>,
  requires imp(f, d),
  ensures imp(ret, cond_s(b, d))
{
  broadcast use group_sfx;
  move |input: &'a str| -> (r: IResult<&'a str, Option<O>>) ensures pr(r) == cond_s(b, d)(input@) && sfr(input@, r)
  {
    if b {
      match f(input) {
        Ok((i, o)) => Ok((i, Some(o))),
        Err(e) => Err(e),
      }
    } else {
      Ok((input, None))
    }
  }
}

// `d` is the denotation of the whole: it has to agree with `d1` and `second`.
pub fn map<'a, O1, O2, F, G>(first: F, second: G, Ghost(d1): Ghost<P<O1>>, Ghost(d): Ghost<P<O2>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, O2>)
where F: Fn(&'a str) -> IResult<&'a str, O1>, G: Fn(O1) -> O2,
  requires imp(first, d1),
    forall|a: O1| #[trigger] second.requires((a,)),
    forall|s: Seq<char>, b: O2| d1(s) is Ok && #[trigger] second.ensures((d1(s)->Ok_1,), b) ==> d(s) == PR::Ok(d1(s)->Ok_0, b),
    forall|s: Seq<char>| !(d1(s) is Ok) ==> #[trigger] d(s) == fail::<O1, O2>(d1(s)),
  ensures imp(ret, d)
{
  move |input: &'a str| -> (r: IResult<&'a str, O2>) ensures pr(r) == d(input@) && sfr(input@, r)
  {
    let ghost s0 = input@;
    let (input, o1) = first(input)?;
    assert(d1(s0)->Ok_1 == o1);
    Ok((input, second(o1)))
  }
}

pub fn map_res<'a, O1, O2, E2, F, G>(first: F, second: G, Ghost(d1): Ghost<P<O1>>, Ghost(d): Ghost<P<O2>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, O2>)
where F: Fn(&'a str) -> IResult<&'a str, O1>, G: Fn(O1) -> Result<O2, E2>,
  requires imp(first, d1),
    forall|a: O1| #[trigger] second.requires((a,)),
    forall|s: Seq<char>, b: Result<O2, E2>| d1(s) is Ok && #[trigger] second.ensures((d1(s)->Ok_1,), b) ==> d(s) == (match b { Ok(o2) => PR::Ok(d1(s)->Ok_0, o2), Err(_) => PR::Error }),
    forall|s: Seq<char>| !(d1(s) is Ok) ==> #[trigger] d(s) == fail::<O1, O2>(d1(s)),
  ensures imp(ret, d)
{
  move |input: &'a str| -> (r: IResult<&'a str, O2>) ensures pr(r) == d(input@) && sfr(input@, r)
  {
    let ghost s0 = input@;
    let i = input.clone();
    let (input, o1) = first(input)?;
    assert(d1(s0)->Ok_1 == o1);
    match second(o1) {
      Ok(o2) => Ok((input, o2)),
      Err(_) => Err(Err::Error((i, ErrorKind::MapRes))),
    }
  }
}

pub fn map_opt<'a, O1, O2, F, G>(first: F, second: G, Ghost(d1): Ghost<P<O1>>, Ghost(d): Ghost<P<O2>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, O2>)
where F: Fn(&'a str) -> IResult<&'a str, O1>, G: Fn(O1) -> Option<O2>,
  requires imp(first, d1),
    forall|a: O1| #[trigger] second.requires((a,)),
    forall|s: Seq<char>, b: Option<O2>| d1(s) is Ok && #[trigger] second.ensures((d1(s)->Ok_1,), b) ==> d(s) == (match b { Some(o2) => PR::Ok(d1(s)->Ok_0, o2), None => PR::Error }),
    forall|s: Seq<char>| !(d1(s) is Ok) ==> #[trigger] d(s) == fail::<O1, O2>(d1(s)),
  ensures imp(ret, d)
{
  move |input: &'a str| -> (r: IResult<&'a str, O2>) ensures pr(r) == d(input@) && sfr(input@, r)
  {
    let ghost s0 = input@;
    let i = input.clone();
    let (input, o1) = first(input)?;
    assert(d1(s0)->Ok_1 == o1);
    match second(o1) {
      Some(o2) => Ok((input, o2)),
      None => Err(Err::Error((i, ErrorKind::MapOpt))),
    }
  }
}

pub open spec fn value_s<A, B>(v: B, d: P<A>) -> P<B> { |s: Seq<char>| match d(s) { PR::Ok(s1, _) => PR::Ok(s1, v), e => fail(e) } }
pub fn value<'a, O1, O2, F>(val: O1, parser: F, Ghost(d): Ghost<P<O2>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, O1>)
where F: Fn(&'a str) -> IResult<&'a str, O2>,
  requires imp(parser, d),
  ensures imp(ret, value_s(val, d))
{
  move |input: &'a str| -> (r: IResult<&'a str, O1>) ensures pr(r) == value_s(val, d)(input@) && sfr(input@, r)
  {
    match parser(input) { Ok((i, _)) => Ok((i, dup(&val))), Err(e) => Err(e) }
  }
}

pub open spec fn all_consuming_s<A>(d: P<A>) -> P<A> { |s: Seq<char>| match d(s) { PR::Ok(s1, a) => if s1.len() == 0 { PR::Ok(s1, a) } else { PR::Error }, e => fail(e) } }

pub open spec fn consumed(s: Seq<char>, s1: Seq<char>) -> Seq<char> { s.take(s.len() - s1.len()) }
pub open spec fn recognize_s<'a, A>(d: P<A>) -> P<&'a str> { |s: Seq<char>| match d(s) { PR::Ok(s1, a) => PR::Ok(s1, str_of(consumed(s, s1))), e => fail(e) } }
/// nom's `input.slice(..input.offset(&i))`
pub fn slice_before<'a>(input: &'a str, i: &'a str) -> (r: &'a str)
  requires sfx(input@, i@)
  ensures r == str_of::<'a>(consumed(input@, i@))
{
  broadcast use {group_bytes, ax_str};
  str_to(input, str_offset(input, i))
}
pub fn recognize<'a, O, F>(parser: F, Ghost(d): Ghost<P<O>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, &'a str>)
where F: Fn(&'a str) -> IResult<&'a str, O>,
  requires imp(parser, d),
  ensures imp(ret, recognize_s(d))
{
  move |input: &'a str| -> (r: IResult<&'a str, &'a str>) ensures pr(r) == recognize_s::<O>(d)(input@) && sfr(input@, r)
  {
    let i = input.clone();
    match parser(i) {
      Ok((i, _)) => { Ok((i, slice_before(input, i))) },
      Err(e) => Err(e),
    }
  }
}

// ------------------------------------------------------------------- multi
pub open spec fn vecr<O>(p: PR<Seq<O>>) -> PR<Vec<O>> { match p { PR::Ok(s, v) => PR::Ok(s, vec_of(v)), e => fail(e) } }
#[verifier::opaque]
pub open spec fn rep<O>(d: P<O>, s: Seq<char>, acc: Seq<O>) -> PR<Seq<O>> decreases s.len() {
  match d(s) { PR::Error => PR::Ok(s, acc), PR::Ok(s1, o) => if s1.len() < s.len() { rep(d, s1, acc.push(o)) } else { PR::Error }, e => fail(e) }
}
pub open spec fn many0_s<O>(d: P<O>) -> P<Vec<O>> { |s: Seq<char>| vecr(rep(d, s, Seq::empty())) }
pub open spec fn many1_s<O>(d: P<O>) -> P<Vec<O>> { |s: Seq<char>| match d(s) { PR::Ok(s1, o) => vecr(rep(d, s1, Seq::empty().push(o))), e => fail(e) } }
#[verifier::opaque]
pub open spec fn seprep<S, O>(sep: P<S>, d: P<O>, s: Seq<char>, acc: Seq<O>) -> PR<Seq<O>> decreases s.len() {
  match sep(s) {
    PR::Error => PR::Ok(s, acc),
    PR::Ok(s1, _) => if s1.len() < s.len() {
      match d(s1) {
        PR::Error => PR::Ok(s, acc),
        PR::Ok(s2, o) => if s2.len() < s.len() { seprep(sep, d, s2, acc.push(o)) } else { PR::Error },
        e => fail(e) }
    } else { PR::Error },
    e => fail(e)
  }
}
pub open spec fn separated_nonempty_list_s<S, O>(sep: P<S>, d: P<O>) -> P<Vec<O>> { |s: Seq<char>| match d(s) { PR::Ok(s1, o) => if s1.len() < s.len() { vecr(seprep(sep, d, s1, Seq::empty().push(o))) } else { PR::Error }, e => fail(e) } }
pub open spec fn separated_list_s<S, O>(sep: P<S>, d: P<O>) -> P<Vec<O>> { |s: Seq<char>| match d(s) { PR::Ok(s1, o) => if s1.len() < s.len() { vecr(seprep(sep, d, s1, Seq::empty().push(o))) } else { PR::Error }, PR::Error => PR::Ok(s, vec_of(Seq::empty())), e => fail(e) } }

pub broadcast proof fn rep_ext<O>(d1: P<O>, d2: P<O>, s: Seq<char>, acc: Seq<O>)
  requires forall|s: Seq<char>| #[trigger] d1(s) == #[trigger] d2(s)
  ensures #[trigger] rep(d1, s, acc) == #[trigger] rep(d2, s, acc)
{ assert(d1 =~= d2); }
pub broadcast proof fn seprep_ext<S1, S2, O>(p1: P<S1>, d1: P<O>, p2: P<S2>, d2: P<O>, s: Seq<char>, acc: Seq<O>)
  requires forall|s: Seq<char>| #[trigger] d1(s) == #[trigger] d2(s),
     forall|s: Seq<char>| dropv(#[trigger] p1(s)) == dropv(#[trigger] p2(s))
  ensures #[trigger] seprep(p1, d1, s, acc) == #[trigger] seprep(p2, d2, s, acc)
  decreases s.len()
{
  reveal(seprep);
  assert(d1 =~= d2);
  assert(dropv(p1(s)) == dropv(p2(s)));
  match p1(s) { PR::Ok(s1, _) => { assert(d1(s1) == d2(s1)); match d1(s1) { PR::Ok(s2, o) => { if s2.len() < s.len() { seprep_ext(p1, d1, p2, d2, s2, acc.push(o)); } }, _ => {} } }, _ => {} }
}
/// The outcome without the value.
pub open spec fn dropv<A>(p: PR<A>) -> PR<()> { match p { PR::Ok(s, _) => PR::Ok(s, ()), e => fail(e) } }

pub fn many0<'a, O, F>(f: F, Ghost(d): Ghost<P<O>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, Vec<O>>)
where F: Fn(&'a str) -> IResult<&'a str, O>,
  requires imp(f, d),
  ensures imp(ret, many0_s(d))
{
  move |i: &'a str| -> (r: IResult<&'a str, Vec<O>>) ensures pr(r) == many0_s(d)(i@) && sfr(i@, r)
  {
    broadcast use {group_sfx, ax_vec};
    reveal(rep);
    let ghost s0 = i@;
    let mut acc = Vec::with_capacity(4);
    let mut i = i.clone();
    #[verifier::loop_isolation(false)]
    loop
      invariant sfx(s0, i@), rep(d, s0, Seq::empty()) == rep(d, i@, acc@),
      decreases i@.len()
    {
      match f(i.clone()) {
        Err(Err::Error(_)) => return Ok((i, acc)),
        Err(e) => return Err(e),
        Ok((i1, o)) => {
          if str_eq(i1, i) { return Err(Err::Error((i, ErrorKind::Many0))); }
          i = i1;
          acc.push(o);
        }
      }
    }
  }
}

pub fn many1<'a, O, F>(f: F, Ghost(d): Ghost<P<O>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, Vec<O>>)
where F: Fn(&'a str) -> IResult<&'a str, O>,
  requires imp(f, d),
  ensures imp(ret, many1_s(d))
{
  move |i: &'a str| -> (r: IResult<&'a str, Vec<O>>) ensures pr(r) == many1_s(d)(i@) && sfr(i@, r)
  {
    broadcast use {group_sfx, ax_vec};
    reveal(rep);
    let ghost s0 = i@;
    let mut i = i.clone();
    match f(i.clone()) {
      Err(Err::Error(err)) => return Err(Err::Error((i, ErrorKind::Many1))),
      Err(e) => return Err(e),
      Ok((i1, o)) => {
        let mut acc = Vec::with_capacity(4);
        acc.push(o);
        i = i1;
        let ghost s1 = i@;
        let ghost acc1 = acc@;
        assert(acc1 =~= Seq::empty().push(d(s0)->Ok_1));
        #[verifier::loop_isolation(false)]
        loop
          invariant sfx(s0, i@), rep(d, s1, acc1) == rep(d, i@, acc@),
          decreases i@.len()
        {
          match f(i.clone()) {
            Err(Err::Error(_)) => return Ok((i, acc)),
            Err(e) => return Err(e),
            Ok((i1, o)) => {
              if str_eq(i1, i) { return Err(Err::Error((i, ErrorKind::Many1))); }
              i = i1;
              acc.push(o);
            }
          }
        }
      }
    }
  }
}

pub fn separated_list<'a, O, O2, F, G>(sep: G, f: F, Ghost(ds): Ghost<P<O2>>, Ghost(d): Ghost<P<O>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, Vec<O>>)
where F: Fn(&'a str) -> IResult<&'a str, O>, G: Fn(&'a str) -> IResult<&'a str, O2>,
  requires imp(sep, ds), imp(f, d),
  ensures imp(ret, separated_list_s(ds, d))
{
  move |i: &'a str| -> (r: IResult<&'a str, Vec<O>>) ensures pr(r) == separated_list_s(ds, d)(i@) && sfr(i@, r)
  {
    broadcast use {group_sfx, ax_vec};
    reveal(seprep);
    let ghost s0 = i@;
    let mut res = Vec::new();
    let mut i = i.clone();

    match f(i.clone()) {
      Err(Err::Error(_)) => return Ok((i, res)),
      Err(e) => return Err(e),
      Ok((i1, o)) => {
        if str_eq(i1, i) { return Err(Err::Error((i1, ErrorKind::SeparatedList))); }

        res.push(o);
        i = i1;
      }
    }
    let ghost s1 = i@;
    let ghost acc1 = res@;
    assert(acc1 =~= Seq::empty().push(d(s0)->Ok_1));
    #[verifier::loop_isolation(false)]
    loop
      invariant sfx(s0, i@), i@.len() < s0.len(), seprep(ds, d, s1, acc1) == seprep(ds, d, i@, res@),
      decreases i@.len()
    {
      match sep(i.clone()) {
        Err(Err::Error(_)) => return Ok((i, res)),
        Err(e) => return Err(e),
        Ok((i1, _)) => {
          if str_eq(i1, i) { return Err(Err::Error((i1, ErrorKind::SeparatedList))); }

          match f(i1.clone()) {
            Err(Err::Error(_)) => return Ok((i, res)),
            Err(e) => return Err(e),
            Ok((i2, o)) => {
              if str_eq(i2, i) { return Err(Err::Error((i2, ErrorKind::SeparatedList))); }

              res.push(o);
              i = i2;
            }
          }
        }
      }
    }
  }
}

pub fn separated_nonempty_list<'a, O, O2, F, G>(sep: G, f: F, Ghost(ds): Ghost<P<O2>>, Ghost(d): Ghost<P<O>>) -> (ret: impl Fn(&'a str) -> IResult<&'a str, Vec<O>>)
where F: Fn(&'a str) -> IResult<&'a str, O>, G: Fn(&'a str) -> IResult<&'a str, O2>,
  requires imp(sep, ds), imp(f, d),
  ensures imp(ret, separated_nonempty_list_s(ds, d))
{
  move |i: &'a str| -> (r: IResult<&'a str, Vec<O>>) ensures pr(r) == separated_nonempty_list_s(ds, d)(i@) && sfr(i@, r)
  {
    broadcast use {group_sfx, ax_vec};
    reveal(seprep);
    let ghost s0 = i@;
    let mut res = Vec::new();
    let mut i = i.clone();

    match f(i.clone()) {
      Err(e) => return Err(e),
      Ok((i1, o)) => {
        if str_eq(i1, i) { return Err(Err::Error((i1, ErrorKind::SeparatedList))); }

        res.push(o);
        i = i1;
      }
    }
    let ghost s1 = i@;
    let ghost acc1 = res@;
    assert(acc1 =~= Seq::empty().push(d(s0)->Ok_1));
    #[verifier::loop_isolation(false)]
    loop
      invariant sfx(s0, i@), i@.len() < s0.len(), seprep(ds, d, s1, acc1) == seprep(ds, d, i@, res@),
      decreases i@.len()
    {
      match sep(i.clone()) {
        Err(Err::Error(_)) => return Ok((i, res)),
        Err(e) => return Err(e),
        Ok((i1, _)) => {
          if str_eq(i1, i) { return Err(Err::Error((i1, ErrorKind::SeparatedList))); }

          match f(i1.clone()) {
            Err(Err::Error(_)) => return Ok((i, res)),
            Err(e) => return Err(e),
            Ok((i2, o)) => {
              if str_eq(i2, i) { return Err(Err::Error((i2, ErrorKind::SeparatedList))); }

              res.push(o);
              i = i2;
            }
          }
        }
      }
    }
  }
}
