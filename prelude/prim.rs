// ------------------------------------------------------------------------
// Characters and literal texts.  The specification functions below are the
// meaning of the grammar's primitives; the executable functions after them are
// nom's character level parsers, whose contracts are trusted (external_body)
// unless they carry a body that is verified.


pub open spec fn kw_r<'a>(k: Seq<char>, s: Seq<char>) -> PR<&'a str> { if kwm(k, s) { PR::Ok(s.skip(k.len() as int), str_of(s.take(k.len() as int))) } else { PR::Error } }
pub open spec fn kw_s<'a>(k: Seq<char>) -> P<&'a str> { |s: Seq<char>| kw_r(k, s) }
pub open spec fn tag_r<'a>(k: Seq<char>, s: Seq<char>) -> PR<&'a str> { if tagm(k, s) { PR::Ok(s.skip(k.len() as int), str_of(s.take(k.len() as int))) } else { PR::Error } }
pub open spec fn tag_s<'a>(k: Seq<char>) -> P<&'a str> { |s: Seq<char>| tag_r(k, s) }
pub open spec fn chr_r(c: char, s: Seq<char>) -> PR<char> { if s.len() > 0 && s[0] == c { PR::Ok(s.skip(1), c) } else { PR::Error } }
pub open spec fn chr_s(c: char) -> P<char> { |s: Seq<char>| chr_r(c, s) }
pub open spec fn cls_r(p: spec_fn(char) -> bool, s: Seq<char>) -> PR<char> { if s.len() > 0 && p(s[0]) { PR::Ok(s.skip(1), s[0]) } else { PR::Error } }
pub open spec fn cls_d(p: spec_fn(char) -> bool) -> P<char> { |s: Seq<char>| cls_r(p, s) }
pub open spec fn one_of_r(k: Seq<char>, s: Seq<char>) -> PR<char> { if s.len() > 0 && k.contains(s[0]) { PR::Ok(s.skip(1), s[0]) } else { PR::Error } }
pub open spec fn one_of_s(k: Seq<char>) -> P<char> { |s: Seq<char>| one_of_r(k, s) }
pub open spec fn none_of_r(k: Seq<char>, s: Seq<char>) -> PR<char> { if s.len() > 0 && !k.contains(s[0]) { PR::Ok(s.skip(1), s[0]) } else { PR::Error } }
pub open spec fn none_of_s(k: Seq<char>) -> P<char> { |s: Seq<char>| none_of_r(k, s) }
pub open spec fn anychar_r(s: Seq<char>) -> PR<char> { if s.len() > 0 { PR::Ok(s.skip(1), s[0]) } else { PR::Error } }

/// the length of the longest prefix made of characters of `p`
#[verifier::opaque]
pub open spec fn span(p: spec_fn(char) -> bool, s: Seq<char>) -> nat decreases s.len() { if s.len() > 0 && p(s[0]) { 1 + span(p, s.skip(1)) } else { 0 } }
pub broadcast proof fn span_len(p: spec_fn(char) -> bool, s: Seq<char>) ensures #[trigger] span(p, s) <= s.len() decreases s.len() { reveal(span); if s.len() > 0 && p(s[0]) { span_len(p, s.skip(1)); } }
pub broadcast proof fn span_ext(p: spec_fn(char) -> bool, q: spec_fn(char) -> bool, s: Seq<char>)
  requires forall|c: char| #[trigger] p(c) == #[trigger] q(c)
  ensures #[trigger] span(p, s) == #[trigger] span(q, s)
{ assert(p =~= q); }
pub open spec fn run_at<'a>(n: nat, s: Seq<char>) -> PR<&'a str> { PR::Ok(s.skip(n as int), str_of(s.take(n as int))) }
pub open spec fn run0_r<'a>(p: spec_fn(char) -> bool, s: Seq<char>) -> PR<&'a str> { run_at(span(p, s), s) }
pub open spec fn run0_s<'a>(p: spec_fn(char) -> bool) -> P<&'a str> { |s: Seq<char>| run0_r(p, s) }
pub open spec fn run1_r<'a>(p: spec_fn(char) -> bool, s: Seq<char>) -> PR<&'a str> { if span(p, s) > 0 { run_at(span(p, s), s) } else { PR::Error } }
pub open spec fn run1_s<'a>(p: spec_fn(char) -> bool) -> P<&'a str> { |s: Seq<char>| run1_r(p, s) }
pub open spec fn not_p(p: spec_fn(char) -> bool) -> spec_fn(char) -> bool { |c: char| !p(c) }
pub open spec fn alpha1_r<'a>(s: Seq<char>) -> PR<&'a str> { run1_r(|c: char| is_alpha_s(c), s) }
pub open spec fn digit1_r<'a>(s: Seq<char>) -> PR<&'a str> { run1_r(|c: char| is_digit_s(c), s) }
pub open spec fn alphanumeric1_r<'a>(s: Seq<char>) -> PR<&'a str> { run1_r(|c: char| is_alphanum_s(c), s) }
/// between `m` and `n` characters of `p`, counted in characters
pub open spec fn runmn_s<'a>(m: nat, n: nat, p: spec_fn(char) -> bool) -> P<&'a str> { |s: Seq<char>| if span(p, s) < m { PR::Error } else { run_at(if span(p, s) <= n { span(p, s) } else { n }, s) } }
/// exactly two characters: the unfolding the prover needs for `<c> <c>`
pub broadcast proof fn span2(p: spec_fn(char) -> bool, s: Seq<char>)
  ensures #![trigger span(p, s)]
   span(p, s) > 0 <==> (s.len() > 0 && p(s[0])),
   span(p, s) > 1 <==> (s.len() > 1 && p(s[0]) && p(s[1])),
{ reveal_with_fuel(span, 3); }
pub broadcast proof fn skip_skip(s: Seq<char>, a: int, b: int)
  requires 0 <= a, 0 <= b, a + b <= s.len()
  ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub broadcast proof fn skip_index(s: Seq<char>)
  requires s.len() > 1
  ensures #[trigger] s.skip(1)[0] == s[1]
{ }

pub open spec fn text_r<'a, A>(s: Seq<char>, p: PR<A>) -> PR<&'a str> { match p { PR::Ok(s1, _) => PR::Ok(s1, str_of(consumed(s, s1))), e => fail(e) } }
pub open spec fn commit_r<A>(p: PR<A>) -> PR<A> { match p { PR::Error => PR::Failure, e => e } }
pub open spec fn many0_r<O>(d: P<O>, s: Seq<char>) -> PR<Vec<O>> { vecr(rep(d, s, Seq::empty())) }
pub open spec fn many1_r<O>(d: P<O>, s: Seq<char>) -> PR<Vec<O>> { match d(s) { PR::Ok(s1, o) => vecr(rep(d, s1, Seq::empty().push(o))), e => fail(e) } }
pub open spec fn list0_r<S, O>(sep: P<S>, d: P<O>, s: Seq<char>) -> PR<Vec<O>> { separated_list_s(sep, d)(s) }
pub open spec fn list1_r<S, O>(sep: P<S>, d: P<O>, s: Seq<char>) -> PR<Vec<O>> { separated_nonempty_list_s(sep, d)(s) }

/// nom's `escaped`: the position it stops at.
#[verifier::opaque]
pub open spec fn esc<A, B>(d: P<A>, c: char, e: P<B>, s: Seq<char>) -> PR<()> decreases s.len() {
  if s.len() == 0 { PR::Ok(s, ()) } else {
    match d(s) {
      PR::Ok(s1, _) => if s1.len() < s.len() { esc(d, c, e, s1) } else { PR::Incomplete },
      PR::Error => if s[0] == c {
          if s.len() == 1 { PR::Error } else {
            match e(s.skip(1)) { PR::Ok(s2, _) => if s2.len() < s.len() { esc(d, c, e, s2) } else { PR::Incomplete }, x => fail(x) }
          }
        } else { PR::Ok(s, ()) },
      x => fail(x)
    }
  }
}
pub open spec fn escaped_r<'a, A, B>(d: P<A>, c: char, e: P<B>, s: Seq<char>) -> PR<&'a str> {
  match esc(d, c, e, s) {
    PR::Ok(s1, _) => if s1.len() == s.len() && s.len() > 0 { PR::Error } else { PR::Ok(s1, str_of(consumed(s, s1))) },
    x => fail(x)
  }
}
pub open spec fn escaped_s<'a, A, B>(d: P<A>, c: char, e: P<B>) -> P<&'a str> { |s: Seq<char>| escaped_r(d, c, e, s) }
pub broadcast proof fn esc_ext<A1, B1, A2, B2>(d1: P<A1>, d2: P<A2>, c: char, e1: P<B1>, e2: P<B2>, s: Seq<char>)
  requires forall|s: Seq<char>| dropv(#[trigger] d1(s)) == dropv(#[trigger] d2(s)), forall|s: Seq<char>| dropv(#[trigger] e1(s)) == dropv(#[trigger] e2(s))
  ensures #[trigger] esc(d1, c, e1, s) == #[trigger] esc(d2, c, e2, s)
  decreases s.len()
{
  reveal(esc);
  if s.len() > 0 {
    assert(dropv(d1(s)) == dropv(d2(s)));
    assert(dropv(e1(s.skip(1))) == dropv(e2(s.skip(1))));
    match d1(s) {
      PR::Ok(s1, _) => { if s1.len() < s.len() { esc_ext(d1, d2, c, e1, e2, s1); } }
      PR::Error => { if s[0] == c && s.len() > 1 { match e1(s.skip(1)) { PR::Ok(s2, _) => { if s2.len() < s.len() { esc_ext(d1, d2, c, e1, e2, s2); } }, _ => {} } } }
      _ => {}
    }
  }
}
pub broadcast proof fn rep_drop<O1, O2>(d1: P<O1>, d2: P<O2>, s: Seq<char>, a1: Seq<O1>, a2: Seq<O2>)
  requires forall|s: Seq<char>| dropv(#[trigger] d1(s)) == dropv(#[trigger] d2(s))
  ensures #![trigger rep(d1, s, a1), rep(d2, s, a2)] dropv(rep(d1, s, a1)) == dropv(rep(d2, s, a2))
  decreases s.len()
{
  reveal(rep);
  assert(dropv(d1(s)) == dropv(d2(s)));
  match d1(s) { PR::Ok(s1, o) => { if s1.len() < s.len() { let o2 = d2(s)->Ok_1; rep_drop(d1, d2, s1, a1.push(o), a2.push(o2)); } }, _ => {} }
}
/// repeating a single-character parser stops where the run of its characters stops
pub broadcast proof fn rep_span<O>(d: P<O>, p: spec_fn(char) -> bool, s: Seq<char>, acc: Seq<O>)
  requires forall|s: Seq<char>| dropv(#[trigger] d(s)) == dropv(cls_r(p, s))
  ensures #![trigger rep(d, s, acc), span(p, s)] dropv(rep(d, s, acc)) == PR::Ok(s.skip(span(p, s) as int), ())
  decreases s.len()
{
  reveal(rep); reveal(span);
  assert(dropv(d(s)) == dropv(cls_r(p, s)));
  if s.len() > 0 && p(s[0]) { rep_span(d, p, s.skip(1), acc.push(d(s)->Ok_1)); span_len(p, s.skip(1)); assert(s.skip(1).skip(span(p, s.skip(1)) as int) =~= s.skip(span(p, s) as int)); }
  else { assert(s.skip(0) =~= s); }
}
pub broadcast proof fn rep_span1<O>(d: P<O>, p: spec_fn(char) -> bool, s: Seq<char>, acc: Seq<O>)
  requires forall|s: Seq<char>| dropv(#[trigger] d(s)) == dropv(cls_r(p, s)), s.len() > 0, p(s[0])
  ensures #![trigger rep(d, s.skip(1), acc), span(p, s)] dropv(rep(d, s.skip(1), acc)) == PR::Ok(s.skip(span(p, s) as int), ())
{ reveal(span); rep_span(d, p, s.skip(1), acc); span_len(p, s.skip(1)); assert(s.skip(1).skip(span(p, s.skip(1)) as int) =~= s.skip(span(p, s) as int)); }
pub broadcast group group_ext { rep_ext, seprep_ext, rep_drop, esc_ext, span_ext, rep_span, rep_span1, span2, span_len, skip_skip, ax_str, ax_str_view, ax_string, ax_string_view, ax_vec, ax_vec_view }

pub open spec fn parsed<T: ParseT>(t: Seq<char>, s: Seq<char>) -> PR<T> { match T::parse_s(t) { Some(n) => PR::Ok(s, n), None => PR::Error } }
pub open spec fn i64_r(t: Seq<char>, s: Seq<char>) -> PR<i64> { parsed::<i64>(t, s) }
pub open spec fn u64_r(t: Seq<char>, s: Seq<char>) -> PR<u64> { parsed::<u64>(t, s) }
pub open spec fn f64_r(t: Seq<char>, s: Seq<char>) -> PR<f64> { parsed::<f64>(t, s) }
// ------------------------------------------------------ values in the trees
pub open spec fn S(s: &str) -> String { string_of(s@) }
pub open spec fn B<T>(x: T) -> Box<T> { Box::new(x) }
pub open spec fn vec1<T>(x: T) -> Vec<T> { vec_of(Seq::empty().push(x)) }

/// Where a repetition ends it has nothing more to read.
pub broadcast proof fn rep_twice<O>(d: P<O>, s: Seq<char>, acc: Seq<O>)
  ensures rep(d, s, acc) is Ok ==> #[trigger] rep(d, rep(d, s, acc)->Ok_0, Seq::<O>::empty()) == PR::Ok(rep(d, s, acc)->Ok_0, Seq::<O>::empty())
  decreases s.len()
{ reveal(rep); match d(s) { PR::Ok(s1, o) => { if s1.len() < s.len() { rep_twice(d, s1, acc.push(o)); } }, _ => {} } }
/// Neither a final failure nor a request for more input.
pub open spec fn soft<O>(p: PR<O>) -> bool { p is Ok || p is Error }
pub broadcast proof fn rep_soft<O>(d: P<O>, s: Seq<char>, acc: Seq<O>)
  requires forall|t: Seq<char>| soft(#[trigger] d(t))
  ensures soft(#[trigger] rep(d, s, acc))
  decreases s.len()
{ reveal(rep); assert(soft(d(s))); match d(s) { PR::Ok(s1, o) => { if s1.len() < s.len() { rep_soft(d, s1, acc.push(o)); } }, _ => {} } }
pub broadcast proof fn seprep_soft<S, O>(p: P<S>, d: P<O>, s: Seq<char>, acc: Seq<O>)
  requires forall|t: Seq<char>| soft(#[trigger] d(t)), forall|t: Seq<char>| soft(#[trigger] p(t))
  ensures soft(#[trigger] seprep(p, d, s, acc))
  decreases s.len()
{
  reveal(seprep); assert(soft(p(s)));
  match p(s) { PR::Ok(s1, _) => { assert(soft(d(s1))); if s1.len() < s.len() { match d(s1) { PR::Ok(s2, o) => { if s2.len() < s.len() { seprep_soft(p, d, s2, acc.push(o)); } }, _ => {} } } }, _ => {} }
}
pub broadcast proof fn esc_soft<A, B>(d: P<A>, c: char, e: P<B>, s: Seq<char>)
  requires
    forall|t: Seq<char>| soft(#[trigger] d(t)) && (d(t) is Ok ==> d(t)->Ok_0.len() < t.len()),
    forall|t: Seq<char>| soft(#[trigger] e(t)) && (e(t) is Ok ==> e(t)->Ok_0.len() <= t.len()),
  ensures soft(#[trigger] esc(d, c, e, s))
  decreases s.len()
{
  reveal(esc);
  if s.len() > 0 {
    assert(soft(d(s))); assert(soft(e(s.skip(1))));
    match d(s) {
      PR::Ok(s1, _) => { esc_soft(d, c, e, s1); }
      _ => { if s[0] == c && s.len() > 1 { match e(s.skip(1)) { PR::Ok(s2, _) => { esc_soft(d, c, e, s2); }, _ => {} } } }
    }
  }
}
pub broadcast group group_soft { rep_soft, seprep_soft, esc_soft }
