// Contracts that are not grammar rules: the case-insensitive matcher every
// keyword goes through, and the public methods on the syntax tree.
//@ hint tag_no_case kw_bytes(tag@, $i); reveal(kwm);
pub open spec fn tag_no_case_s<'a>(tag: Seq<char>) -> P<&'a str> { kw_s(tag) }

// SPARQL 1.1, 17.4.3.1.2: the argument pairs the string functions accept.
pub open spec fn is_plain_or_typed(x: &StringLiteral) -> bool { x is Simple || x is Typed }
pub open spec fn StringLiteral__compatible_arg_s(self_: &StringLiteral, arg2: &StringLiteral) -> bool {
  (is_plain_or_typed(self_) && is_plain_or_typed(arg2))
  || (self_ is Language && arg2 is Language && self_->Language_0.1@ == arg2->Language_0.1@)
  || (self_ is Language && is_plain_or_typed(arg2))
}
pub open spec fn Sign__default_s() -> Sign { Sign::POS }
pub open spec fn Sign__as_ref_s(self_: &Sign) -> Seq<char> { match self_ { Sign::POS => "+"@, Sign::NEG => "-"@ } }
pub open spec fn Sign__fmt_s(self_: &Sign) -> Seq<char> { Sign__as_ref_s(self_) }
pub open spec fn Sign__from_str_s(s: Seq<char>) -> Result<Sign, ()> {
  if s.len() == 0 { Ok(Sign::POS) } else if s.len() == 1 && s[0] == '+' { Ok(Sign::POS) } else if s.len() == 1 && s[0] == '-' { Ok(Sign::NEG) } else { Err(()) }
}
pub open spec fn PathMod__from_str_s(s: Seq<char>) -> Result<PathMod, ()> {
  if s.len() != 1 { Err(()) } else if s[0] == '?' { Ok(PathMod::QuestionMark) } else if s[0] == '*' { Ok(PathMod::Asterisk) } else if s[0] == '+' { Ok(PathMod::Plus) } else { Err(()) }
}
pub open spec fn Aggregate__is_distinct_s(self_: &Aggregate) -> bool {
  match self_ {
    Aggregate::Count(c) => c.distinct,
    Aggregate::Sum(e) => e.distinct,
    Aggregate::Min(e) => e.distinct,
    Aggregate::Max(e) => e.distinct,
    Aggregate::Avg(e) => e.distinct,
    Aggregate::Sample(e) => e.distinct,
    Aggregate::GroupConcat(g) => g.expression.distinct,
  }
}
// printing a sign and reading it back, and the grammar's view of the same texts
proof fn sign_round_trip(x: Sign) ensures Sign__from_str_s(Sign__as_ref_s(&x)) == Ok::<Sign, ()>(x)
{ reveal_strlit("+"); reveal_strlit("-"); }
proof fn sign_reads_as_grammar(s: Seq<char>)
  ensures s.len() == 1 ==> (match Sign__from_str_s(s) { Ok(x) => sign_s(s) == PR::<Sign>::Ok(s.skip(1), x), Err(_) => sign_s(s) is Error })
{ reveal(sign_s); }
proof fn path_mod_reads_as_grammar(s: Seq<char>)
  ensures s.len() == 1 ==> (match PathMod__from_str_s(s) { Ok(x) => path_mod_s(s) == PR::<PathMod>::Ok(s.skip(1), x), Err(_) => path_mod_s(s) is Error })
{ reveal(path_mod_s); }
// Constructors of the syntax tree keep exactly what they are given.
pub open spec fn Iri__iri_ref_s<'a, T: VText>(iri_ref: T) -> Iri { Iri::Iri(string_of(iri_ref@)) }
pub open spec fn Iri__prefixed_name_s<'a, T: VInto<PrefixedName>>(prefixed_name: T) -> Iri { Iri::PrefixedName(prefixed_name.into_s()) }
pub open spec fn RdfLiteral__new_s<'a, T: VText>(literal: T, descriptor: RdfLiteralDescriptor) -> RdfLiteral { RdfLiteral { literal: string_of(literal@), descriptor: Some(descriptor) } }
pub open spec fn RdfLiteral__literal_s<'a, T: VText>(literal: T) -> RdfLiteral { RdfLiteral { literal: string_of(literal@), descriptor: None } }
pub open spec fn LimitOffsetClause__limit_offset_s<'a>(limit: u64, offset: Option<u64>) -> LimitOffsetClause { LimitOffsetClause::LimitOffset { limit: limit, offset: offset } }
pub open spec fn LimitOffsetClause__offset_limit_s<'a>(offset: u64, limit: Option<u64>) -> LimitOffsetClause { LimitOffsetClause::OffsetLimit { offset: offset, limit: limit } }
