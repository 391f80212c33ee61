//@ item StringLiteral__compatible_arg
pub fn hand_StringLiteral__compatible_arg() -> Vec<(String, String, String)> {
    let mut bad = vec![];
    let t = ["", "a", "de", "DE", "en"];
    let mut all = vec![];
    for a in t { all.push(StringLiteral::Simple(a.into())); all.push(StringLiteral::Typed(a.into())); for l in ["", "de", "DE", "en", "de-AT"] { all.push(StringLiteral::Language((a.into(), l.into()))); } }
    for x in &all { for y in &all {
        let plain = |z: &StringLiteral| !matches!(z, StringLiteral::Language(_));
        let want = plain(y) || match (x, y) { (StringLiteral::Language((_, l)), StringLiteral::Language((_, m))) => l == m, _ => false };
        let got = x.compatible_arg(y);
        if got != want { bad.push((format!("{:?} with {:?}", x, y), got.to_string(), want.to_string())); }
    } }
    bad
}
//@ item Sign__from_str
pub fn hand_Sign__from_str() -> Vec<(String, String, String)> {
    let mut bad = vec![];
    for t in ["", "+", "-", "++", "--", "+-", " ", "+ ", " -", "a", "\u{2212}", "0", "+1", "plus", "\n"] {
        let want: Result<Sign, ()> = match t { "" | "+" => Ok(Sign::POS), "-" => Ok(Sign::NEG), _ => Err(()) };
        let got = t.parse::<Sign>().map_err(|_| ());
        if got != want { bad.push((format!("{:?}.parse::<Sign>()", t), format!("{:?}", got), format!("{:?}", want))); }
    }
    bad
}
//@ item Sign__as_ref
pub fn hand_Sign__as_ref() -> Vec<(String, String, String)> {
    let mut bad = vec![];
    for (x, want) in [(Sign::POS, "+"), (Sign::NEG, "-")] {
        let got: &str = x.as_ref();
        if got != want { bad.push((format!("{:?}.as_ref()", x), got.into(), want.into())); }
    }
    bad
}
//@ item Sign__fmt
pub fn hand_Sign__fmt() -> Vec<(String, String, String)> {
    let mut bad = vec![];
    for (x, want) in [(Sign::POS, "+"), (Sign::NEG, "-")] {
        let got = x.to_string();
        if got != want { bad.push((format!("{:?}.to_string()", x), got, want.into())); }
        let back = x.to_string().parse::<Sign>().map_err(|_| ());
        if back != Ok(x.clone()) { bad.push((format!("{:?}.to_string().parse()", x), format!("{:?}", back), format!("{:?}", Ok::<_, ()>(x)))); }
    }
    bad
}
//@ item Sign__default
pub fn hand_Sign__default() -> Vec<(String, String, String)> {
    let got = Sign::default();
    if got != Sign::POS { vec![("Sign::default()".into(), format!("{:?}", got), "POS".into())] } else { vec![] }
}
//@ item PathMod__from_str
pub fn hand_PathMod__from_str() -> Vec<(String, String, String)> {
    let mut bad = vec![];
    for t in ["", "?", "*", "+", "??", "*+", " ?", "? ", "-", "a", "/", "|", "\u{ff0b}", "\n"] {
        let want: Result<PathMod, ()> = match t { "?" => Ok(PathMod::QuestionMark), "*" => Ok(PathMod::Asterisk), "+" => Ok(PathMod::Plus), _ => Err(()) };
        let got = t.parse::<PathMod>().map_err(|_| ());
        if got != want { bad.push((format!("{:?}.parse::<PathMod>()", t), format!("{:?}", got), format!("{:?}", want))); }
    }
    bad
}
//@ item Aggregate__is_distinct
pub fn hand_Aggregate__is_distinct() -> Vec<(String, String, String)> {
    let mut bad = vec![];
    for d in [true, false] {
        let de = || match distinct_expression_o(if d { "sum(?x)" } else { "sum(distinct ?x)" }) { PR::Ok(_, e) => DistinctExpression { distinct: d, ..e }, _ => panic!() };
        let mut v = vec![Aggregate::Sum(de()), Aggregate::Min(de()), Aggregate::Max(de()), Aggregate::Avg(de()), Aggregate::Sample(de())];
        v.push(Aggregate::Count(Count { distinct: d, target: CountTarget::All }));
        v.push(Aggregate::Count(Count { distinct: d, target: CountTarget::Expr(Box::new(de().expression)) }));
        for s in [None, Some(String::new()), Some(",".to_string())] { v.push(Aggregate::GroupConcat(GroupConcat { expression: de(), separator: s })); }
        for a in v { if a.is_distinct() != d { bad.push((format!("{:?}.is_distinct()", a), a.is_distinct().to_string(), d.to_string())); } }
    }
    bad
}
//@ item Iri__iri_ref
pub fn hand_Iri__iri_ref() -> Vec<(String, String, String)> {
    let mut bad = vec![];
    for t in ["", "a", "<a>", "http://Example.org/A b\u{e9}", " x ", "\u{1f600}"] {
        for got in [Iri::iri_ref(t), Iri::iri_ref(t.to_string())] {
            let want = Iri::Iri(t.to_string());
            if got != want { bad.push((format!("Iri::iri_ref({:?})", t), format!("{:?}", got), format!("{:?}", want))); }
        }
    }
    bad
}
//@ item Iri__prefixed_name
pub fn hand_Iri__prefixed_name() -> Vec<(String, String, String)> {
    let mut bad = vec![];
    let mut all = vec![PrefixedName::PnameNS(None)];
    for t in ["", "a", "Foo", "\u{e9}"] {
        all.push(PrefixedName::PnameNS(Some(t.into())));
        for p in [None, Some("x".to_string()), Some("X".to_string())] { all.push(PrefixedName::PnameLN { pn_prefix: p, pn_local: t.into() }); }
    }
    for x in all {
        let got = Iri::prefixed_name(x.clone());
        let want = Iri::PrefixedName(x.clone());
        if got != want { bad.push((format!("Iri::prefixed_name({:?})", x), format!("{:?}", got), format!("{:?}", want))); }
    }
    bad
}
//@ item RdfLiteral__literal
pub fn hand_RdfLiteral__literal() -> Vec<(String, String, String)> {
    let mut bad = vec![];
    for t in ["", "a", "\"q\"", "A b\u{e9}\n", " x "] {
        let got = RdfLiteral::literal(t);
        let want = RdfLiteral { literal: t.to_string(), descriptor: None };
        if got != want { bad.push((format!("RdfLiteral::literal({:?})", t), format!("{:?}", got), format!("{:?}", want))); }
    }
    bad
}
//@ item RdfLiteral__new
pub fn hand_RdfLiteral__new() -> Vec<(String, String, String)> {
    let mut bad = vec![];
    for t in ["", "a", "A b\u{e9}\n", " x "] {
        for d in [RdfLiteralDescriptor::LangTag("".into()), RdfLiteralDescriptor::LangTag("de-AT".into()), RdfLiteralDescriptor::IriRef(Iri::Iri("".into())), RdfLiteralDescriptor::IriRef(Iri::Iri("http://x".into())), RdfLiteralDescriptor::IriRef(Iri::PrefixedName(PrefixedName::PnameNS(None)))] {
            let got = RdfLiteral::new(t, d.clone());
            let want = RdfLiteral { literal: t.to_string(), descriptor: Some(d.clone()) };
            if got != want { bad.push((format!("RdfLiteral::new({:?}, {:?})", t, d), format!("{:?}", got), format!("{:?}", want))); }
        }
    }
    bad
}
//@ item LimitOffsetClause__limit_offset
pub fn hand_LimitOffsetClause__limit_offset() -> Vec<(String, String, String)> {
    let mut bad = vec![];
    for l in [0, 1, 10, u64::MAX] { for o in [None, Some(0), Some(1), Some(10), Some(u64::MAX)] {
        let got = LimitOffsetClause::limit_offset(l, o);
        let want = LimitOffsetClause::LimitOffset { limit: l, offset: o };
        if got != want { bad.push((format!("LimitOffsetClause::limit_offset({}, {:?})", l, o), format!("{:?}", got), format!("{:?}", want))); }
    } }
    bad
}
//@ item LimitOffsetClause__offset_limit
pub fn hand_LimitOffsetClause__offset_limit() -> Vec<(String, String, String)> {
    let mut bad = vec![];
    for o in [0, 1, 10, u64::MAX] { for l in [None, Some(0), Some(1), Some(10), Some(u64::MAX)] {
        let got = LimitOffsetClause::offset_limit(o, l);
        let want = LimitOffsetClause::OffsetLimit { offset: o, limit: l };
        if got != want { bad.push((format!("LimitOffsetClause::offset_limit({}, {:?})", o, l), format!("{:?}", got), format!("{:?}", want))); }
    } }
    bad
}
