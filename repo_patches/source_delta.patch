From 67a960e174db0027df55adb45e00c815b1143428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 01/28] fix: path_mod panicked on a multi-byte character and
 reported Incomplete at end of input

---
 src/path.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index 437a410..cb4be13 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -1,18 +1,16 @@
 use std::str::FromStr;
 
-use nom::character::complete::char;
-use nom::combinator::{map, opt};
-use nom::error::ErrorKind;
+use nom::character::complete::{char, one_of};
+use nom::combinator::{map, opt, recognize};
 use nom::multi::{many0, many1, separated_nonempty_list};
 use nom::sequence::{delimited, pair, separated_pair, tuple};
-use nom::Err;
 use nom::{
     branch::alt,
     bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     sequence::{preceded, terminated},
-    IResult, Needed,
+    IResult,
 };
 
 use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
@@ -274,13 +272,7 @@ pub(crate) fn path_one_in_property_set(i: &str) -> IResult<&str, PathOneInProper
 }
 
 pub(crate) fn path_mod(i: &str) -> IResult<&str, PathMod> {
-    if i.is_empty() {
-        Err(Err::Incomplete(Needed::Size(1)))
-    } else if let Ok(path) = PathMod::from_str(&i[0..1]) {
-        Ok((&i[1..], path))
-    } else {
-        Err(Err::Error((i, ErrorKind::Char)))
-    }
+    map_res(recognize(one_of("?*+")), PathMod::from_str)(i)
 }
 
 #[inline]
-- 
2.43.0


From 6a273ea1a4f2b928f9ad5055cb800ac7b0ddd1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 02/28] fix: NOT IN used the streaming tag and reported
 Incomplete at end of input

---
 src/arithmetic.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index e3d4afc..bc9546a 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -4,8 +4,7 @@ use crate::expression::{expression_list, primary_expression, ExpressionList, Pri
 use crate::literal::{numeric_literal, NumericLiteral};
 use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1};
 use nom::branch::alt;
-use nom::bytes::complete::tag;
-use nom::bytes::streaming::tag_no_case;
+use nom::bytes::complete::{tag, tag_no_case};
 use nom::combinator::{map, opt};
 use nom::multi::{separated_list, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
-- 
2.43.0


From 4f3deaa748a3f40693d8da3cc9e5354c8ad69771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 03/28] fix: keyword matching panicked or matched wrongly on
 characters whose lower case is an ASCII letter

---
 src/aggregate.rs       |  5 +++--
 src/arithmetic.rs      |  4 ++--
 src/call.rs            |  5 +++--
 src/clauses.rs         |  4 ++--
 src/data.rs            |  6 ++++--
 src/expression/iri.rs  |  3 +--
 src/expression/mod.rs  |  6 ++++--
 src/graph.rs           |  4 ++--
 src/group.rs           |  4 ++--
 src/literal.rs         |  4 ++--
 src/operations.rs      |  4 ++--
 src/order.rs           |  3 +--
 src/quads.rs           |  4 ++--
 src/query/ask.rs       |  3 +--
 src/query/construct.rs |  3 +--
 src/query/describe.rs  |  3 +--
 src/query/select.rs    |  4 ++--
 src/terminals.rs       | 11 ++++++++++-
 src/var.rs             |  4 ++--
 19 files changed, 47 insertions(+), 37 deletions(-)

diff --git a/src/aggregate.rs b/src/aggregate.rs
index 840ebd4..30dacf4 100644
--- a/src/aggregate.rs
+++ b/src/aggregate.rs
@@ -1,11 +1,12 @@
 use crate::{
     expression::{distinct_expression, expression, ArgList, DistinctExpression, Expression, Iri},
     literal::distinct,
-    terminals::{bracketted, preceded_bracketted, preceded_tag, sp, sp1, sp_enc, string_literal},
+    terminals::{
+        bracketted, preceded_bracketted, preceded_tag, sp, sp1, sp_enc, string_literal, tag_no_case,
+    },
 };
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     sequence::{pair, preceded, terminated, tuple},
diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index bc9546a..542289c 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -2,9 +2,9 @@ use std::{fmt, str::FromStr};
 
 use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
 use crate::literal::{numeric_literal, NumericLiteral};
-use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1};
+use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1, tag_no_case};
 use nom::branch::alt;
-use nom::bytes::complete::{tag, tag_no_case};
+use nom::bytes::complete::tag;
 use nom::combinator::{map, opt};
 use nom::multi::{separated_list, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
diff --git a/src/call.rs b/src/call.rs
index c9e0c5f..2130436 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -1,6 +1,5 @@
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::separated_nonempty_list,
@@ -20,7 +19,9 @@ use crate::{
     },
     graph::{group_graph_pattern, GroupGraphPattern},
     literal::distinct,
-    terminals::{iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{
+        iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case,
+    },
     var::{var, Var},
 };
 
diff --git a/src/clauses.rs b/src/clauses.rs
index b33faad..1cbe9a5 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
@@ -19,7 +19,7 @@ use crate::{
     group::{group_clause, GroupClause},
     order::{order_condition, OrderCondition},
     quads::{quads_pattern, Quads},
-    terminals::{default_or_named_iri, preceded_tag1, sp, sp1},
+    terminals::{default_or_named_iri, preceded_tag1, sp, sp1, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/data.rs b/src/data.rs
index 24fc86f..19a3a2d 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{tag, tag_no_case},
+    bytes::complete::tag,
     character::complete::char,
     combinator::map,
     multi::{many0, many1, separated_list, separated_nonempty_list},
@@ -12,7 +12,9 @@ use crate::{
     expression::{DefaultOrNamedIri, Iri},
     literal::{boolean, numeric_literal, NumericLiteral},
     node::RdfLiteral,
-    terminals::{bracketted, default_or_named_iri, iri, preceded_tag1, rdf_literal, sp, sp_enc},
+    terminals::{
+        bracketted, default_or_named_iri, iri, preceded_tag1, rdf_literal, sp, sp_enc, tag_no_case,
+    },
     var::{var, Var},
 };
 
diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index 62c949e..6c6d7f3 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,7 +1,6 @@
 use crate::expression::Iri;
-use crate::terminals::iri;
+use crate::terminals::{iri, tag_no_case};
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
 use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::preceded;
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index 867e59d..878c131 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{tag, tag_no_case},
+    bytes::complete::tag,
     character::complete::char,
     combinator::{map, opt},
     multi::separated_nonempty_list,
@@ -13,7 +13,9 @@ use crate::{
     call::{built_in_call, function_call, BuiltInCall, FunctionCall},
     literal::{boolean, distinct, numeric_literal, NumericLiteral},
     node::RdfLiteral,
-    terminals::{bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1},
+    terminals::{
+        bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1, tag_no_case,
+    },
 };
 
 use crate::var::{var, Var};
diff --git a/src/graph.rs b/src/graph.rs
index 1c3bd80..8f5a4d4 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
@@ -20,7 +20,7 @@ use crate::{
     node::{BlankNode, RdfLiteral, TriplesNode},
     quads::{quads_pattern, Quads},
     query::select::{sub_select, SubSelect},
-    terminals::sp_sep1,
+    terminals::{sp_sep1, tag_no_case},
     terminals::{
         anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
         preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep,
diff --git a/src/group.rs b/src/group.rs
index f759ccc..6265b46 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -3,7 +3,7 @@ use nom::multi::separated_nonempty_list;
 use nom::sequence::delimited;
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     sequence::{preceded, terminated},
@@ -16,7 +16,7 @@ use crate::expression::{
     expression_as_var_opt, DefaultOrNamedIri, ExpressionAsVar, ExpressionAsVarOpt, Iri,
 };
 
-use crate::terminals::{sp, sp1};
+use crate::terminals::{sp, sp1, tag_no_case};
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/literal.rs b/src/literal.rs
index 418fb9c..01eedb9 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -3,7 +3,7 @@ use nom::error::{make_error, ErrorKind};
 use nom::sequence::{pair, tuple};
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::{
         complete::{char, digit1},
         is_digit,
@@ -15,7 +15,7 @@ use nom::{
 };
 
 use crate::arithmetic::Sign;
-use crate::terminals::{language_tag, rdf_literal, string_literal};
+use crate::terminals::{language_tag, rdf_literal, string_literal, tag_no_case};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
 pub enum StringLiteral {
diff --git a/src/operations.rs b/src/operations.rs
index 4d2aff3..30dfd37 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
@@ -19,7 +19,7 @@ use crate::{
     },
     literal::silent,
     quads::{quad_data, Quads},
-    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq, new)]
diff --git a/src/order.rs b/src/order.rs
index bed59ae..0781651 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -1,12 +1,11 @@
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
 use nom::combinator::map;
 use nom::sequence::separated_pair;
 use nom::IResult;
 
 use crate::expression::functions::{constraint, Constraint};
 use crate::expression::{bracketted_expression, Expression};
-use crate::terminals::sp1;
+use crate::terminals::{sp1, tag_no_case};
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/quads.rs b/src/quads.rs
index cf30fff..ad96970 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::complete::char,
     character::is_digit,
     combinator::map_res,
@@ -16,7 +16,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1},
+    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1, tag_no_case},
     triple::{triples_template, TriplesTemplate},
     var::{var_or_iri, var_or_term, VarOrIri, VarOrTerm, VerbList},
 };
diff --git a/src/query/ask.rs b/src/query/ask.rs
index 2802af4..d5b99d4 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -1,8 +1,7 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp1};
-use nom::bytes::complete::tag_no_case;
+use crate::terminals::{sp, sp1, tag_no_case};
 use nom::combinator::map;
 use nom::multi::separated_list;
 use nom::sequence::{terminated, tuple};
diff --git a/src/query/construct.rs b/src/query/construct.rs
index 1d60b30..e48da14 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -2,14 +2,13 @@ use crate::{
     clauses::{solution_modifier, where_clause, SolutionModifier},
     data::{data_set_clause, DataSetClause},
     graph::GroupGraphPattern,
-    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
     triple::TriplesSameSubject,
     triple::{triples_same_subject, triples_template, TriplesTemplate},
     var::{var_or_iri, VarOrIri},
 };
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::many1,
diff --git a/src/query/describe.rs b/src/query/describe.rs
index 88bf066..be2ed94 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -1,11 +1,10 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp_enc1};
+use crate::terminals::{sp, sp_enc1, tag_no_case};
 use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::{separated_list, separated_nonempty_list},
diff --git a/src/query/select.rs b/src/query/select.rs
index f9e1014..575f50d 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -1,5 +1,5 @@
 use nom::branch::alt;
-use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
+use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
 use nom::multi::{many1, separated_list};
@@ -13,7 +13,7 @@ use crate::expression::{
 };
 use crate::graph::GroupGraphPattern;
 
-use crate::terminals::{sp, sp1, sp_enc};
+use crate::terminals::{sp, sp1, sp_enc, tag_no_case};
 use crate::var::{var, var_or_expression_as_var, VarOrExpressionAsVar};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/terminals.rs b/src/terminals.rs
index 43bcfc0..036462b 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -1,7 +1,7 @@
 use nom::{
     branch::alt,
     bytes::complete::take_while,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::complete::{anychar, char, digit1, none_of, one_of},
     character::{
         complete::{alpha1, alphanumeric1},
@@ -29,6 +29,15 @@ use crate::{
     var::{Var, VarOrIri, VarOrTerm, VerbList},
 };
 
+/// Matches `tag` at the start of the input, ignoring ASCII case.
+#[inline]
+pub(crate) fn tag_no_case<'a>(tag: &'a str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    move |i: &'a str| match i.get(..tag.len()) {
+        Some(head) if head.eq_ignore_ascii_case(tag) => Ok((&i[tag.len()..], head)),
+        _ => Err(Err::Error((i, ErrorKind::Tag))),
+    }
+}
+
 #[inline]
 pub(crate) fn preceded_bracketted<'a, O1, F>(
     tag: &'a str,
diff --git a/src/var.rs b/src/var.rs
index 432c2c5..e77dd5f 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,10 +1,10 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_pn_chars_u, sp};
+use crate::terminals::{iri, is_pn_chars_u, sp, tag_no_case};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
-use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
+use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::recognize;
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-- 
2.43.0


From 3cabad7f74ad58682f52c9998a194b081d14d579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 04/28] fix: character classes truncated code points to one
 byte and missed name characters

---
 src/clauses.rs   |  2 +-
 src/graph.rs     |  2 +-
 src/terminals.rs | 20 ++++++++++++++++----
 src/var.rs       |  5 ++---
 4 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index 1cbe9a5..ee205f6 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -120,7 +120,7 @@ where
     F: Fn(&'a str) -> IResult<&'a str, &'a str>,
 {
     map_res(
-        preceded(terminated(pat, sp), take_while1(|c| is_digit(c as u8))),
+        preceded(terminated(pat, sp), take_while1(|c: char| c.is_ascii_digit())),
         |s| s.parse::<u64>(),
     )
 }
diff --git a/src/graph.rs b/src/graph.rs
index 8f5a4d4..44a3f6a 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -265,7 +265,7 @@ pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
             sp_sep(
                 tag("_:"),
                 recognize(pair(
-                    alt((pn_chars_u_one, take_while_m_n(1, 1, |c| is_digit(c as u8)))),
+                    alt((pn_chars_u_one, take_while_m_n(1, 1, |c: char| c.is_ascii_digit()))),
                     pn_chars_tail,
                 )),
             ),
diff --git a/src/terminals.rs b/src/terminals.rs
index 036462b..fc5c14b 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -234,7 +234,7 @@ pub(crate) fn iri_ref(i: &str) -> IResult<&str, &str> {
             if chrs.contains(c) {
                 false
             } else {
-                c as u8 > 0x20
+                c > ' '
             }
         }),
         tag(">"),
@@ -304,7 +304,7 @@ pub(crate) fn pn_local(i: &str) -> IResult<&str, &str> {
         alt((
             pn_chars_u_one,
             tag(":"),
-            take_while_m_n(1, 1, |c| is_digit(c as u8)),
+            take_while_m_n(1, 1, |c: char| c.is_ascii_digit()),
             plx,
         )),
         recognize(pair(
@@ -347,6 +347,7 @@ pub(crate) fn is_unicode(c: char) -> bool {
         '\u{3001}'..='\u{D7FF}' => true,
         '\u{F900}'..='\u{FDCF}' => true,
         '\u{FDF0}'..='\u{FFFD}' => true,
+        '\u{10000}'..='\u{EFFFF}' => true,
         _ => false,
     }
 }
@@ -370,7 +371,7 @@ pub(crate) fn is_illegal_char_lit_2(c: char) -> bool {
 
 #[inline]
 pub(crate) fn is_pn_chars_base(i: char) -> bool {
-    is_alphabetic(i as u8) || is_unicode(i)
+    i.is_ascii_alphabetic() || is_unicode(i)
 }
 
 #[inline]
@@ -398,9 +399,20 @@ pub(crate) fn pn_chars_u1(i: &str) -> IResult<&str, &str> {
     take_while1(is_pn_chars_u)(i)
 }
 
+#[inline]
+pub(crate) fn is_var_char(i: char) -> bool {
+    match i {
+        '0'..='9' => true,
+        '\u{00B7}' => true,
+        '\u{0300}'..='\u{036F}' => true,
+        '\u{203F}'..='\u{2040}' => true,
+        _ => is_pn_chars_u(i),
+    }
+}
+
 #[inline]
 pub(crate) fn is_pn_char(i: char) -> bool {
-    is_pn_chars_u(i) || i == '-' || i.is_dec_digit()
+    is_var_char(i) || i == '-'
 }
 
 #[inline]
diff --git a/src/var.rs b/src/var.rs
index e77dd5f..5b89b31 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,7 +1,7 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_pn_chars_u, sp, tag_no_case};
+use crate::terminals::{iri, is_pn_chars_u, is_var_char, sp, tag_no_case};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
@@ -100,11 +100,10 @@ pub(crate) fn var_or_expression_as_var(i: &str) -> IResult<&str, VarOrExpression
     ))(i)
 }
 
-// TODO consider unicode cases in second
 pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
     recognize(pair(
         take_while_m_n(1, 1, |c| is_pn_chars_u(c) || c.is_dec_digit()),
-        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit()),
+        take_while(is_var_char),
     ))(i)
 }
 
-- 
2.43.0


From 0d6a7585a36e66c68b0ed05b9e6129cbf545dbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 05/28] fix: local names of one character failed to parse and
 names swallowed a trailing dot

---
 src/terminals.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index fc5c14b..d081489 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -275,10 +275,7 @@ pub(crate) fn iri_or_fun(i: &str) -> IResult<&str, IriOrFunction> {
 #[inline]
 pub(crate) fn pn_chars_tail(i: &str) -> IResult<&str, &str> {
     // ((PN_CHARS|'.')* PN_CHARS)?
-    recognize(pair(
-        opt(take_while1(|c| c == '.')),
-        separated_list(take_while1(|c| c == '.'), pn_chars1),
-    ))(i)
+    recognize(many0(pair(take_while(|c| c == '.'), pn_chars1)))(i)
 }
 
 fn from_hex(input: &str) -> Result<u8, std::num::ParseIntError> {
@@ -307,12 +304,9 @@ pub(crate) fn pn_local(i: &str) -> IResult<&str, &str> {
             take_while_m_n(1, 1, |c: char| c.is_ascii_digit()),
             plx,
         )),
-        recognize(pair(
-            opt(take_while1(|c| c == '.')),
-            separated_list(
-                take_while1(|c| c == '.'),
-                many0(alt((take_while1(|c| is_pn_char(c) || c == ':'), plx))),
-            ),
+        many0(pair(
+            take_while(|c| c == '.'),
+            alt((take_while1(|c| is_pn_char(c) || c == ':'), plx)),
         )),
     ))(i)
 }
-- 
2.43.0


From 4582a32402a4b3c27216372325ed2f06245e9125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 06/28] fix: whitespace was accepted inside prefixed names,
 variables and blank node labels, so 'a :b' was read as a name

---
 src/graph.rs     | 2 +-
 src/terminals.rs | 4 ++--
 src/var.rs       | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 44a3f6a..dc2bfb8 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -262,7 +262,7 @@ pub(crate) fn graph_term(i: &str) -> IResult<&str, GraphTerm> {
 pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
     alt((
         map(
-            sp_sep(
+            pair(
                 tag("_:"),
                 recognize(pair(
                     alt((pn_chars_u_one, take_while_m_n(1, 1, |c: char| c.is_ascii_digit()))),
diff --git a/src/terminals.rs b/src/terminals.rs
index d081489..617e143 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -316,11 +316,11 @@ pub(crate) fn pn_prefix(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn pname_ns(i: &str) -> IResult<&str, Option<String>> {
-    terminated(opt(map(pn_prefix, String::from)), preceded(sp, char(':')))(i)
+    terminated(opt(map(pn_prefix, String::from)), char(':'))(i)
 }
 
 pub(crate) fn pname_ln(i: &str) -> IResult<&str, (Option<String>, String)> {
-    pair(pname_ns, preceded(sp, map(pn_local, String::from)))(i)
+    pair(pname_ns, map(pn_local, String::from))(i)
 }
 
 #[inline]
diff --git a/src/var.rs b/src/var.rs
index 5b89b31..f3ff1fa 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -73,11 +73,11 @@ pub(crate) fn var_or_term(i: &str) -> IResult<&str, VarOrTerm> {
 pub(crate) fn var(i: &str) -> IResult<&str, Var> {
     alt((
         map(
-            preceded(char('?'), preceded(sp, map(var_name, String::from))),
+            preceded(char('?'), map(var_name, String::from)),
             Var::QMark,
         ),
         map(
-            preceded(char('$'), preceded(sp, map(var_name, String::from))),
+            preceded(char('$'), map(var_name, String::from)),
             Var::Dollar,
         ),
     ))(i)
-- 
2.43.0


From 60b2368fa5a13cb0b86e6441cc96be0da020e09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 07/28] fix: the empty string literal failed to parse

---
 src/terminals.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 617e143..6809942 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -145,12 +145,12 @@ pub(crate) fn string_literal(i: &str) -> IResult<&str, &str> {
     alt((
         delimited(
             tag("'"),
-            escaped(none_of("'\\"), '\\', one_of(r#""tbnrf\'"#)),
+            recognize(opt(escaped(none_of("'\\"), '\\', one_of(r#""tbnrf\'"#)))),
             tag("'"),
         ),
         delimited(
             tag("\""),
-            escaped(none_of("\"\\"), '\\', one_of(r#""tbnrf\'"#)),
+            recognize(opt(escaped(none_of("\"\\"), '\\', one_of(r#""tbnrf\'"#)))),
             tag("\""),
         ),
     ))(i)
-- 
2.43.0


From fd8535763f629aae6e59c51a0a5cb43892b7d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 08/28] fix: an opening bracket committed to NIL or ANON, so
 argument lists, collections and blank node property lists never parsed

---
 src/graph.rs     |  2 +-
 src/path.rs      | 14 +++++++-------
 src/terminals.rs |  2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index dc2bfb8..6561af0 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -277,8 +277,8 @@ pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
 
 pub(crate) fn graph_node(i: &str) -> IResult<&str, GraphNode> {
     alt((
-        map(var_or_term, GraphNode::VarOrTerm),
         map(triples_node, |node| GraphNode::TriplesNode(Box::new(node))),
+        map(var_or_term, GraphNode::VarOrTerm),
     ))(i)
 }
 
diff --git a/src/path.rs b/src/path.rs
index cb4be13..c71bf4d 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -123,16 +123,16 @@ pub struct PathOneInPropertySet(pub IriOrAOrCaret);
 pub(crate) fn triples_same_subject_path(i: &str) -> IResult<&str, TriplesSameSubjectPath> {
     alt((
         map(
-            sp_sep1(var_or_term, property_list_path_not_empty),
-            |(var_or_term, property_list)| TriplesSameSubjectPath::Term {
-                var_or_term,
+            sp_sep(triples_node_path, property_list_path),
+            |(triples_node, property_list)| TriplesSameSubjectPath::Node {
+                triples_node,
                 property_list,
             },
         ),
         map(
-            sp_sep(triples_node_path, property_list_path),
-            |(triples_node, property_list)| TriplesSameSubjectPath::Node {
-                triples_node,
+            sp_sep1(var_or_term, property_list_path_not_empty),
+            |(var_or_term, property_list)| TriplesSameSubjectPath::Term {
+                var_or_term,
                 property_list,
             },
         ),
@@ -205,8 +205,8 @@ pub(crate) fn triples_node_path(i: &str) -> IResult<&str, TriplesNodePath> {
 
 pub(crate) fn graph_node_path(i: &str) -> IResult<&str, GraphNodePath> {
     alt((
-        map(var_or_term, GraphNodePath::VarOrTerm),
         map(triples_node_path, GraphNodePath::TriplesNodePath),
+        map(var_or_term, GraphNodePath::VarOrTerm),
     ))(i)
 }
 
diff --git a/src/terminals.rs b/src/terminals.rs
index 6809942..d9b1ccf 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -424,7 +424,7 @@ pub(crate) fn anon(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn nil(i: &str) -> IResult<&str, &str> {
-    preceded(char('('), cut(terminated(sp, char(')'))))(i)
+    preceded(char('('), terminated(sp, char(')')))(i)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 46462b4659fea01627efaf6b74e51e1a080a92fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 09/28] fix: whitespace after an opening or before a closing
 parenthesis was rejected

---
 src/call.rs           | 15 ++++++---------
 src/expression/mod.rs |  6 +-----
 src/path.rs           |  8 +++++---
 src/terminals.rs      |  2 +-
 4 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index 2130436..0366e4b 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -20,7 +20,8 @@ use crate::{
     graph::{group_graph_pattern, GroupGraphPattern},
     literal::distinct,
     terminals::{
-        iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case,
+        bracketted, iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1,
+        tag_no_case,
     },
     var::{var, Var},
 };
@@ -298,14 +299,10 @@ pub(crate) fn arg_list(i: &str) -> IResult<&str, ArgList> {
     alt((
         map(nil, |_| ArgList::Nil),
         map(
-            delimited(
-                terminated(char('('), sp),
-                tuple((
-                    map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
-                    separated_nonempty_list(sp_enc(char(',')), expression),
-                )),
-                char(')'),
-            ),
+            bracketted(tuple((
+                map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+                separated_nonempty_list(sp_enc(char(',')), expression),
+            ))),
             |(distinct, expressions)| ArgList::Expression {
                 distinct,
                 expressions,
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index 878c131..07c59fc 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -170,11 +170,7 @@ pub(crate) fn expression_list(i: &str) -> IResult<&str, ExpressionList> {
     alt((
         map(nil, |_| ExpressionList::Nil),
         map(
-            delimited(
-                char('('),
-                separated_nonempty_list(sp_enc(char(',')), expression),
-                char(')'),
-            ),
+            bracketted(separated_nonempty_list(sp_enc(char(',')), expression)),
             ExpressionList::List,
         ),
     ))(i)
diff --git a/src/path.rs b/src/path.rs
index c71bf4d..7610fa3 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -16,7 +16,9 @@ use nom::{
 use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
 use crate::expression::Iri;
 use crate::node::ObjectList;
-use crate::terminals::{anon, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1};
+use crate::terminals::{
+    anon, bracketted, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1,
+};
 use crate::triple::object_list;
 use crate::var::{var, var_or_term, Var, VarOrTerm};
 
@@ -197,7 +199,7 @@ pub(crate) fn triples_node_path(i: &str) -> IResult<&str, TriplesNodePath> {
             TriplesNodePath::BlankNodePropertyListPath,
         ),
         map(
-            delimited(tag("("), many1(graph_node_path), tag(")")),
+            bracketted(many1(sp_enc(graph_node_path))),
             TriplesNodePath::CollectionPath,
         ),
     ))(i)
@@ -233,7 +235,7 @@ pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
             PathPrimary::PathNegatedPropertySet,
         ),
         map(
-            delimited(tag("("), path_alternative, tag(")")),
+            bracketted(path_alternative),
             PathPrimary::Path,
         ),
     ))(i)
diff --git a/src/terminals.rs b/src/terminals.rs
index d9b1ccf..5d4654a 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -54,7 +54,7 @@ pub(crate) fn bracketted<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a s
 where
     F: Fn(&'a str) -> IResult<&'a str, O1>,
 {
-    delimited(char('('), pat, char(')'))
+    delimited(char('('), sp_enc(pat), char(')'))
 }
 
 #[inline]
-- 
2.43.0


From 474c36c1e6b892178e3fec4e30f766002e8dcc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 10/28] fix: lists separated by optional whitespace failed as
 soon as the separator was empty

---
 src/arithmetic.rs      |  8 ++++----
 src/clauses.rs         |  6 +++---
 src/graph.rs           |  4 ++--
 src/group.rs           |  4 ++--
 src/operations.rs      |  4 ++--
 src/query/ask.rs       |  4 ++--
 src/query/construct.rs |  6 +++---
 src/query/describe.rs  |  4 ++--
 src/query/select.rs    |  6 +++---
 src/terminals.rs       | 18 ++++++++++++++++++
 src/var.rs             |  7 ++-----
 11 files changed, 43 insertions(+), 28 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index 542289c..dd06a32 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -2,7 +2,7 @@ use std::{fmt, str::FromStr};
 
 use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
 use crate::literal::{numeric_literal, NumericLiteral};
-use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1, tag_no_case};
+use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1, sp_many0, tag_no_case};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::combinator::{map, opt};
@@ -119,7 +119,7 @@ pub(crate) fn additive_expression(i: &str) -> IResult<&str, AdditiveExpression>
     map(
         pair(
             multiplicative_expression,
-            preceded(sp, separated_list(sp, add_expression)),
+            terminated(sp_many0(add_expression), sp),
         ),
         |(lhs, rhs)| AdditiveExpression { lhs, rhs },
     )(i)
@@ -138,7 +138,7 @@ pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
         map(
             pair(
                 numeric_literal,
-                preceded(sp, separated_list(sp, mult_expression)),
+                terminated(sp_many0(mult_expression), sp),
             ),
             |(numeric, expressions)| AddExpression::Numeric {
                 numeric,
@@ -152,7 +152,7 @@ pub(crate) fn multiplicative_expression(i: &str) -> IResult<&str, Multiplicative
     map(
         pair(
             unary_expression,
-            preceded(sp, separated_list(sp, mult_expression)),
+            terminated(sp_many0(mult_expression), sp),
         ),
         |(lhs, rhs)| MultiplicativeExpression { lhs, rhs },
     )(i)
diff --git a/src/clauses.rs b/src/clauses.rs
index ee205f6..0d3b343 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -19,7 +19,7 @@ use crate::{
     group::{group_clause, GroupClause},
     order::{order_condition, OrderCondition},
     quads::{quads_pattern, Quads},
-    terminals::{default_or_named_iri, preceded_tag1, sp, sp1, tag_no_case},
+    terminals::{default_or_named_iri, preceded_tag1, sp, sp1, sp_many1, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -72,7 +72,7 @@ pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
     map(
         preceded(
             terminated(delimited(tag_no_case("order"), sp1, tag_no_case("by")), sp1),
-            separated_nonempty_list(sp, order_condition),
+            sp_many1(order_condition),
         ),
         OrderClause,
     )(i)
@@ -82,7 +82,7 @@ pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
     map(
         preceded(
             terminated(tag_no_case("having"), sp1),
-            separated_nonempty_list(sp, constraint),
+            sp_many1(constraint),
         ),
         HavingClause,
     )(i)
diff --git a/src/graph.rs b/src/graph.rs
index 6561af0..e930852 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -23,7 +23,7 @@ use crate::{
     terminals::{sp_sep1, tag_no_case},
     terminals::{
         anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
-        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep,
+        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_many0, sp_sep,
     },
     triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
     var::{var_or_iri, var_or_term, Var, VarOrIri, VarOrTerm, Verb},
@@ -195,7 +195,7 @@ pub(crate) fn group_graph_pattern_sub(i: &str) -> IResult<&str, GroupGraphPatter
     map(
         pair(
             opt(terminated(triples_block, sp)),
-            separated_list(sp, group_graph_pattern_and_triples),
+            sp_many0(group_graph_pattern_and_triples),
         ),
         |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {
             triples_block,
diff --git a/src/group.rs b/src/group.rs
index 6265b46..5cf6e43 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -16,7 +16,7 @@ use crate::expression::{
     expression_as_var_opt, DefaultOrNamedIri, ExpressionAsVar, ExpressionAsVarOpt, Iri,
 };
 
-use crate::terminals::{sp, sp1, tag_no_case};
+use crate::terminals::{sp, sp1, sp_many1, tag_no_case};
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -34,7 +34,7 @@ pub(crate) fn group_clause(i: &str) -> IResult<&str, GroupClause> {
     map(
         preceded(
             terminated(delimited(tag_no_case("group"), sp1, tag_no_case("by")), sp1),
-            separated_nonempty_list(sp, group_condition),
+            sp_many1(group_condition),
         ),
         GroupClause,
     )(i)
diff --git a/src/operations.rs b/src/operations.rs
index 30dfd37..3ac03d3 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -19,7 +19,7 @@ use crate::{
     },
     literal::silent,
     quads::{quad_data, Quads},
-    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
+    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_many0, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq, new)]
@@ -97,7 +97,7 @@ pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
         tuple((
             opt(delimited(tag_no_case("where"), iri, sp1)),
             terminated(delete_insert, sp),
-            separated_list(sp, using_clause),
+            sp_many0(using_clause),
             sp_enc1(tag_no_case("where")),
             group_graph_pattern,
         )),
diff --git a/src/query/ask.rs b/src/query/ask.rs
index d5b99d4..f63c071 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -1,7 +1,7 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp1, tag_no_case};
+use crate::terminals::{sp, sp1, sp_many0, tag_no_case};
 use nom::combinator::map;
 use nom::multi::separated_list;
 use nom::sequence::{terminated, tuple};
@@ -18,7 +18,7 @@ pub fn ask_query(i: &str) -> IResult<&str, AskQuery> {
     map(
         tuple((
             terminated(tag_no_case("ask"), sp1),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(sp_many0(data_set_clause), sp),
             terminated(where_clause, sp),
             solution_modifier,
         )),
diff --git a/src/query/construct.rs b/src/query/construct.rs
index e48da14..620c488 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -2,7 +2,7 @@ use crate::{
     clauses::{solution_modifier, where_clause, SolutionModifier},
     data::{data_set_clause, DataSetClause},
     graph::GroupGraphPattern,
-    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
+    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_many0, tag_no_case},
     triple::TriplesSameSubject,
     triple::{triples_same_subject, triples_template, TriplesTemplate},
     var::{var_or_iri, VarOrIri},
@@ -45,7 +45,7 @@ pub struct ConstructTemplate(pub Vec<TriplesSameSubject>);
 pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
     map(
         tuple((
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(sp_many0(data_set_clause), sp),
             terminated(tag_no_case("where"), sp1),
             delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
             preceded(sp, solution_modifier),
@@ -62,7 +62,7 @@ pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
     map(
         tuple((
             terminated(construct_template, sp1),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(sp_many0(data_set_clause), sp),
             terminated(where_clause, sp),
             solution_modifier,
         )),
diff --git a/src/query/describe.rs b/src/query/describe.rs
index be2ed94..42f9264 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -1,7 +1,7 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp_enc1, tag_no_case};
+use crate::terminals::{sp, sp_enc1, sp_many0, tag_no_case};
 use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
 use nom::{
     branch::alt,
@@ -25,7 +25,7 @@ pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
         tuple((
             tag_no_case("describe"),
             sp_enc1(var_or_iris_or_all),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(sp_many0(data_set_clause), sp),
             opt(terminated(where_clause, sp)),
             solution_modifier,
         )),
diff --git a/src/query/select.rs b/src/query/select.rs
index 575f50d..570bdcf 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -13,7 +13,7 @@ use crate::expression::{
 };
 use crate::graph::GroupGraphPattern;
 
-use crate::terminals::{sp, sp1, sp_enc, tag_no_case};
+use crate::terminals::{sp, sp1, sp_enc, sp_many0, sp_many1, tag_no_case};
 use crate::var::{var, var_or_expression_as_var, VarOrExpressionAsVar};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -54,7 +54,7 @@ pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
     map(
         tuple((
             terminated(select_clause, sp1),
-            separated_list(sp, data_set_clause),
+            sp_many0(data_set_clause),
             sp_enc(where_clause),
             solution_modifier,
         )),
@@ -99,7 +99,7 @@ pub(crate) fn select_vars(i: &str) -> IResult<&str, SelectVars> {
     alt((
         map(char('*'), |_| SelectVars::All),
         map(
-            many1(var_or_expression_as_var),
+            sp_many1(var_or_expression_as_var),
             SelectVars::VarOrExpressionAsVar,
         ),
     ))(i)
diff --git a/src/terminals.rs b/src/terminals.rs
index 5d4654a..882c2a5 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -112,6 +112,24 @@ where
     delimited(sp1, pat, sp1)
 }
 
+/// Zero or more `pat`, each preceded by optional whitespace.
+#[inline]
+pub(crate) fn sp_many0<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, Vec<O1>>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    many0(preceded(sp, pat))
+}
+
+/// One or more `pat`, each preceded by optional whitespace.
+#[inline]
+pub(crate) fn sp_many1<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, Vec<O1>>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    many1(preceded(sp, pat))
+}
+
 #[inline]
 pub(crate) fn sp_sep1<'a, O1, O2, F, G>(
     first: F,
diff --git a/src/var.rs b/src/var.rs
index f3ff1fa..6423bb3 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,7 +1,7 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_pn_chars_u, is_var_char, sp, tag_no_case};
+use crate::terminals::{iri, is_pn_chars_u, is_var_char, sp, sp_many1, tag_no_case};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
@@ -85,10 +85,7 @@ pub(crate) fn var(i: &str) -> IResult<&str, Var> {
 
 pub(crate) fn var_or_iris_or_all(i: &str) -> IResult<&str, VarOrIrisOrAll> {
     alt((
-        map(
-            separated_nonempty_list(sp, var_or_iri),
-            VarOrIrisOrAll::VarIri,
-        ),
+        map(sp_many1(var_or_iri), VarOrIrisOrAll::VarIri),
         map(char('*'), |_| VarOrIrisOrAll::All),
     ))(i)
 }
-- 
2.43.0


From 165bf7add2b591e9feebe64a351d7011966cc74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 11/28] fix: keywords and function names demanded whitespace
 before a bracket, or twice before AS and WHERE

---
 src/arithmetic.rs           |  6 +++---
 src/call.rs                 | 10 +++++-----
 src/clauses.rs              | 10 +++++-----
 src/data.rs                 |  5 +++--
 src/expression/functions.rs |  8 ++++----
 src/expression/mod.rs       |  7 ++++---
 src/graph.rs                |  8 ++++----
 src/operations.rs           | 10 +++++-----
 src/order.rs                |  4 ++--
 src/parser.rs               |  4 ++--
 src/query/ask.rs            |  2 +-
 src/query/construct.rs      |  8 ++++----
 src/query/describe.rs       |  6 +++---
 src/query/select.rs         |  2 +-
 src/terminals.rs            |  2 +-
 15 files changed, 47 insertions(+), 45 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index dd06a32..ba55c93 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -2,12 +2,12 @@ use std::{fmt, str::FromStr};
 
 use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
 use crate::literal::{numeric_literal, NumericLiteral};
-use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1, sp_many0, tag_no_case};
+use crate::terminals::{preceded_tag, sp, sp1, sp_enc, sp_enc1, sp_many0, tag_no_case};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::combinator::{map, opt};
 use nom::multi::{separated_list, separated_nonempty_list};
-use nom::sequence::{pair, preceded, terminated};
+use nom::sequence::{delimited, pair, preceded, terminated};
 use nom::IResult;
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -176,7 +176,7 @@ pub(crate) fn op_expression(i: &str) -> IResult<&str, OpExpression> {
         map(preceded_tag("in", expression_list), OpExpression::IN),
         map(
             preceded(
-                terminated(tag_no_case("not"), sp_enc1(tag_no_case("in"))),
+                terminated(tag_no_case("not"), delimited(sp1, tag_no_case("in"), sp)),
                 expression_list,
             ),
             OpExpression::NIN,
diff --git a/src/call.rs b/src/call.rs
index 0366e4b..326c012 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -20,8 +20,8 @@ use crate::{
     graph::{group_graph_pattern, GroupGraphPattern},
     literal::distinct,
     terminals::{
-        bracketted, iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1,
-        tag_no_case,
+        bracketted, iri, nil, preceded_bracketted, preceded_tag, preceded_tag1, sp, sp1, sp_enc,
+        sp_enc1, tag_no_case,
     },
     var::{var, Var},
 };
@@ -230,7 +230,7 @@ pub(crate) fn built_in_call(i: &str) -> IResult<&str, BuiltInCall> {
             BuiltInCall::SHA512,
         ),
         map(
-            preceded_tag1("coalesce", expression_list),
+            preceded_tag("coalesce", expression_list),
             BuiltInCall::Coalesce,
         ),
         map(
@@ -281,13 +281,13 @@ pub(crate) fn built_in_call(i: &str) -> IResult<&str, BuiltInCall> {
         ),
         map(regex_expression, BuiltInCall::Regex),
         map(
-            preceded_tag1("exists", group_graph_pattern),
+            preceded_tag("exists", group_graph_pattern),
             BuiltInCall::ExistsFunc,
         ),
         map(
             tuple((
                 tag_no_case("not"),
-                sp_enc1(tag_no_case("exists")),
+                delimited(sp1, tag_no_case("exists"), sp),
                 group_graph_pattern,
             )),
             |(_, _, graph)| BuiltInCall::NotExistsFunc(graph),
diff --git a/src/clauses.rs b/src/clauses.rs
index 0d3b343..b3284a7 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -19,7 +19,7 @@ use crate::{
     group::{group_clause, GroupClause},
     order::{order_condition, OrderCondition},
     quads::{quads_pattern, Quads},
-    terminals::{default_or_named_iri, preceded_tag1, sp, sp1, sp_many1, tag_no_case},
+    terminals::{default_or_named_iri, preceded_tag, preceded_tag1, sp, sp1, sp_many1, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -81,7 +81,7 @@ pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
 pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
     map(
         preceded(
-            terminated(tag_no_case("having"), sp1),
+            terminated(tag_no_case("having"), sp),
             sp_many1(constraint),
         ),
         HavingClause,
@@ -90,18 +90,18 @@ pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
 
 pub(crate) fn where_clause(i: &str) -> IResult<&str, GroupGraphPattern> {
     preceded(
-        opt(terminated(tag_no_case("where"), sp1)),
+        opt(terminated(tag_no_case("where"), sp)),
         group_graph_pattern,
     )(i)
 }
 
 pub(crate) fn values_clause(i: &str) -> IResult<&str, Option<DataBlock>> {
-    opt(preceded_tag1("values", datablock))(i)
+    opt(preceded_tag("values", datablock))(i)
 }
 
 #[inline]
 pub(crate) fn insert_clause(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("insert", quads_pattern)(i)
+    preceded_tag("insert", quads_pattern)(i)
 }
 
 #[inline]
diff --git a/src/data.rs b/src/data.rs
index 19a3a2d..ab0e6b3 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -13,7 +13,8 @@ use crate::{
     literal::{boolean, numeric_literal, NumericLiteral},
     node::RdfLiteral,
     terminals::{
-        bracketted, default_or_named_iri, iri, preceded_tag1, rdf_literal, sp, sp_enc, tag_no_case,
+        bracketted, default_or_named_iri, iri, preceded_tag, preceded_tag1, rdf_literal, sp, sp_enc,
+        tag_no_case,
     },
     var::{var, Var},
 };
@@ -62,7 +63,7 @@ pub(crate) fn datablock(i: &str) -> IResult<&str, DataBlock> {
 }
 
 pub(crate) fn inline_data(i: &str) -> IResult<&str, DataBlock> {
-    preceded_tag1("values", datablock)(i)
+    preceded_tag("values", datablock)(i)
 }
 
 //delimited(tag("("), map(var,|x|vec![x]), tag(")")),
diff --git a/src/expression/functions.rs b/src/expression/functions.rs
index e0c1db7..01a14db 100644
--- a/src/expression/functions.rs
+++ b/src/expression/functions.rs
@@ -1,7 +1,7 @@
 use crate::call::{built_in_call, function_call, BuiltInCall, FunctionCall};
 use crate::expression::{bracketted_expr3, bracketted_expression, expression, Expression};
 use crate::literal::StringLiteral;
-use crate::terminals::{bracketted, preceded_tag1, sp_enc};
+use crate::terminals::{bracketted, preceded_tag, sp_enc};
 use nom::branch::alt;
 use nom::character::complete::char;
 use nom::combinator::{map, opt};
@@ -34,7 +34,7 @@ pub enum Constraint {
 
 pub(crate) fn regex_expression(i: &str) -> IResult<&str, RegexExpression> {
     map(
-        preceded_tag1("regex", bracketted_expr3),
+        preceded_tag("regex", bracketted_expr3),
         |(first, second, third)| RegexExpression {
             first,
             second,
@@ -45,7 +45,7 @@ pub(crate) fn regex_expression(i: &str) -> IResult<&str, RegexExpression> {
 
 pub(crate) fn substring_expression(i: &str) -> IResult<&str, SubstringExpression> {
     map(
-        preceded_tag1("substr", bracketted_expr3),
+        preceded_tag("substr", bracketted_expr3),
         |(first, second, third)| SubstringExpression {
             first,
             second,
@@ -80,7 +80,7 @@ pub(crate) fn constraint(i: &str) -> IResult<&str, Constraint> {
 }
 
 pub(crate) fn filter(i: &str) -> IResult<&str, Constraint> {
-    preceded_tag1("filter", constraint)(i)
+    preceded_tag("filter", constraint)(i)
 }
 
 #[cfg(test)]
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index 07c59fc..099107a 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -14,7 +14,8 @@ use crate::{
     literal::{boolean, distinct, numeric_literal, NumericLiteral},
     node::RdfLiteral,
     terminals::{
-        bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1, tag_no_case,
+        bracketted, iri_or_fun, nil, preceded_tag, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1,
+        tag_no_case,
     },
 };
 
@@ -128,7 +129,7 @@ pub(crate) fn expression_as_var_opt(i: &str) -> IResult<&str, ExpressionAsVarOpt
     delimited(
         char('('),
         sp_enc(map(
-            pair(expression, opt(preceded(sp_enc1(tag_no_case("as")), var))),
+            pair(expression, opt(preceded(sp_enc(tag_no_case("as")), var))),
             |(expression, var)| ExpressionAsVarOpt {
                 expression: Box::new(expression),
                 var,
@@ -194,7 +195,7 @@ pub(crate) fn bracketted_expression(i: &str) -> IResult<&str, Expression> {
 }
 
 pub(crate) fn bind(i: &str) -> IResult<&str, ExpressionAsVar> {
-    preceded_tag1("bind", expression_as_var)(i)
+    preceded_tag("bind", expression_as_var)(i)
 }
 
 pub(crate) fn expression(i: &str) -> IResult<&str, Expression> {
diff --git a/src/graph.rs b/src/graph.rs
index e930852..06a95f1 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -22,7 +22,7 @@ use crate::{
     query::select::{sub_select, SubSelect},
     terminals::{sp_sep1, tag_no_case},
     terminals::{
-        anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
+        anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local, preceded_tag,
         preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_many0, sp_sep,
     },
     triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
@@ -166,15 +166,15 @@ pub(crate) fn graph_pattern_not_triples(i: &str) -> IResult<&str, GraphPatternNo
 
 pub(crate) fn group_or_union_graph_pattern(i: &str) -> IResult<&str, GroupOrUnionGraphPattern> {
     map(
-        separated_nonempty_list(sp_enc1(tag_no_case("union")), group_graph_pattern),
+        separated_nonempty_list(sp_enc(tag_no_case("union")), group_graph_pattern),
         GroupOrUnionGraphPattern,
     )(i)
 }
 pub(crate) fn optional_group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
-    preceded_tag1("optional", group_graph_pattern)(i)
+    preceded_tag("optional", group_graph_pattern)(i)
 }
 pub(crate) fn minus_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
-    preceded_tag1("minus", group_graph_pattern)(i)
+    preceded_tag("minus", group_graph_pattern)(i)
 }
 
 pub(crate) fn graph_graph_pattern(i: &str) -> IResult<&str, GraphGraphPattern> {
diff --git a/src/operations.rs b/src/operations.rs
index 3ac03d3..5c0432c 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -19,7 +19,7 @@ use crate::{
     },
     literal::silent,
     quads::{quad_data, Quads},
-    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_many0, tag_no_case},
+    terminals::{iri, preceded_tag, preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_many0, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq, new)]
@@ -98,7 +98,7 @@ pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
             opt(delimited(tag_no_case("where"), iri, sp1)),
             terminated(delete_insert, sp),
             sp_many0(using_clause),
-            sp_enc1(tag_no_case("where")),
+            sp_enc(tag_no_case("where")),
             group_graph_pattern,
         )),
         |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {
@@ -187,15 +187,15 @@ pub(crate) fn load_stmt(i: &str) -> IResult<&str, LoadStatement> {
 }
 
 pub(crate) fn insert_data(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("insert", preceded_tag1("data", quad_data))(i)
+    preceded_tag1("insert", preceded_tag("data", quad_data))(i)
 }
 
 pub(crate) fn delete_data(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("delete", preceded_tag1("data", quad_data))(i)
+    preceded_tag1("delete", preceded_tag("data", quad_data))(i)
 }
 
 pub(crate) fn delete_where_data(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("delete", preceded_tag1("where", quad_data))(i)
+    preceded_tag1("delete", preceded_tag("where", quad_data))(i)
 }
 
 pub(crate) fn delete_insert(i: &str) -> IResult<&str, DeleteInsert> {
diff --git a/src/order.rs b/src/order.rs
index 0781651..7b586de 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -5,7 +5,7 @@ use nom::IResult;
 
 use crate::expression::functions::{constraint, Constraint};
 use crate::expression::{bracketted_expression, Expression};
-use crate::terminals::{sp1, tag_no_case};
+use crate::terminals::{sp, sp1, tag_no_case};
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -36,7 +36,7 @@ pub(crate) fn order(i: &str) -> IResult<&str, Order> {
 
 pub(crate) fn order_expression(i: &str) -> IResult<&str, OrderExpression> {
     map(
-        separated_pair(order, sp1, bracketted_expression),
+        separated_pair(order, sp, bracketted_expression),
         |(order, expression)| OrderExpression { order, expression },
     )(i)
 }
diff --git a/src/parser.rs b/src/parser.rs
index 4ad7263..96dcd24 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4,7 +4,7 @@ use crate::query::construct::construct_query;
 use crate::query::describe::describe_query;
 use crate::query::select::select_query;
 use crate::query::{SparqlQuery, SparqlQueryStatement};
-use crate::terminals::{preceded_tag1, prologue, sp, sp1};
+use crate::terminals::{preceded_tag, preceded_tag1, prologue, sp, sp1};
 use nom::branch::alt;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, terminated, tuple};
@@ -15,7 +15,7 @@ pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
         tuple((
             terminated(prologue, sp),
             sparql_query,
-            opt(preceded(sp1, preceded_tag1("values", datablock))),
+            opt(preceded(sp, preceded_tag("values", datablock))),
         )),
         |(prologue, query, values)| SparqlQueryStatement {
             prologue,
diff --git a/src/query/ask.rs b/src/query/ask.rs
index f63c071..3952e4c 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -17,7 +17,7 @@ pub struct AskQuery {
 pub fn ask_query(i: &str) -> IResult<&str, AskQuery> {
     map(
         tuple((
-            terminated(tag_no_case("ask"), sp1),
+            terminated(tag_no_case("ask"), sp),
             terminated(sp_many0(data_set_clause), sp),
             terminated(where_clause, sp),
             solution_modifier,
diff --git a/src/query/construct.rs b/src/query/construct.rs
index 620c488..98f8260 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -2,7 +2,7 @@ use crate::{
     clauses::{solution_modifier, where_clause, SolutionModifier},
     data::{data_set_clause, DataSetClause},
     graph::GroupGraphPattern,
-    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_many0, tag_no_case},
+    terminals::{preceded_tag, preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_many0, tag_no_case},
     triple::TriplesSameSubject,
     triple::{triples_same_subject, triples_template, TriplesTemplate},
     var::{var_or_iri, VarOrIri},
@@ -46,7 +46,7 @@ pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
     map(
         tuple((
             terminated(sp_many0(data_set_clause), sp),
-            terminated(tag_no_case("where"), sp1),
+            terminated(tag_no_case("where"), sp),
             delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
             preceded(sp, solution_modifier),
         )),
@@ -61,7 +61,7 @@ pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
 pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
     map(
         tuple((
-            terminated(construct_template, sp1),
+            terminated(construct_template, sp),
             terminated(sp_many0(data_set_clause), sp),
             terminated(where_clause, sp),
             solution_modifier,
@@ -76,7 +76,7 @@ pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
 }
 
 pub fn construct_query(i: &str) -> IResult<&str, ConstructQuery> {
-    preceded_tag1(
+    preceded_tag(
         "construct",
         alt((
             map(sub_construct, ConstructQuery::SubConstruct),
diff --git a/src/query/describe.rs b/src/query/describe.rs
index 42f9264..6e8469c 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -1,14 +1,14 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp_enc1, sp_many0, tag_no_case};
+use crate::terminals::{sp, sp1, sp_enc1, sp_many0, tag_no_case};
 use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
 use nom::{
     branch::alt,
     character::complete::char,
     combinator::{map, opt},
     multi::{separated_list, separated_nonempty_list},
-    sequence::{terminated, tuple},
+    sequence::{delimited, terminated, tuple},
     IResult,
 };
 
@@ -24,7 +24,7 @@ pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
     map(
         tuple((
             tag_no_case("describe"),
-            sp_enc1(var_or_iris_or_all),
+            delimited(sp1, var_or_iris_or_all, sp),
             terminated(sp_many0(data_set_clause), sp),
             opt(terminated(where_clause, sp)),
             solution_modifier,
diff --git a/src/query/select.rs b/src/query/select.rs
index 570bdcf..f2a5cea 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -53,7 +53,7 @@ pub enum SelectModifier {
 pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
     map(
         tuple((
-            terminated(select_clause, sp1),
+            terminated(select_clause, sp),
             sp_many0(data_set_clause),
             sp_enc(where_clause),
             solution_modifier,
diff --git a/src/terminals.rs b/src/terminals.rs
index 882c2a5..61eb8ab 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -285,7 +285,7 @@ pub(crate) fn iri(i: &str) -> IResult<&str, Iri> {
 
 pub(crate) fn iri_or_fun(i: &str) -> IResult<&str, IriOrFunction> {
     map(
-        pair(iri, opt(preceded(sp1, arg_list))),
+        pair(iri, opt(preceded(sp, arg_list))),
         |(iri, arg_list)| IriOrFunction { iri, arg_list },
     )(i)
 }
-- 
2.43.0


From 3b9bf5a2fc08770f393d293c3cd5a50eea4dcf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 12/28] fix: sequence paths were separated by '|' instead of
 '/'

---
 src/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index 7610fa3..603559c 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -221,7 +221,7 @@ pub(crate) fn path_alternative(i: &str) -> IResult<&str, PathAlternative> {
 
 pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
     map(
-        separated_nonempty_list(delimited(sp, tag("|"), sp), path_elt_or_inverse),
+        separated_nonempty_list(delimited(sp, tag("/"), sp), path_elt_or_inverse),
         PathSequence,
     )(i)
 }
-- 
2.43.0


From 2050425ed5eb073b722a734a052a95208eb90568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 13/28] fix: the question mark of a following variable was read
 as a path modifier

---
 src/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index 603559c..da84dbd 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -250,7 +250,7 @@ pub(crate) fn path_elt_or_inverse(i: &str) -> IResult<&str, PathEltOrInverse> {
 
 pub(crate) fn path_elt(i: &str) -> IResult<&str, PathElt> {
     map(
-        pair(path_primary, opt(preceded(sp1, path_mod))),
+        pair(path_primary, opt(path_mod)),
         |(path_primary, path_mod)| PathElt {
             path_primary,
             path_mod,
-- 
2.43.0


From 8fb20cc87a88f14d0a6546b83e4a3559384444d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 14/28] fix: object lists in patterns were separated by ';'
 instead of ',' and a trailing ';' was rejected

---
 src/path.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index da84dbd..fb41aa5 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -154,7 +154,10 @@ pub(crate) fn property_list_path_not_empty(i: &str) -> IResult<&str, PropertyLis
         tuple((
             terminated(verb_path_or_simple, sp1),
             object_list_path,
-            many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
+            terminated(
+                many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
+                many0(preceded(sp, char(';'))),
+            ),
         )),
         |(verb_path_or_simple, object_list_path, entries)| PropertyListPath {
             verb_path_or_simple,
@@ -177,7 +180,7 @@ pub(crate) fn verb_path_or_simple(i: &str) -> IResult<&str, VerbPathOrSimple> {
 
 pub(crate) fn object_list_path(i: &str) -> IResult<&str, ObjectListPath> {
     map(
-        separated_nonempty_list(sp_enc(tag(";")), graph_node_path),
+        separated_nonempty_list(sp_enc(tag(",")), graph_node_path),
         ObjectListPath,
     )(i)
 }
-- 
2.43.0


From 29f37c48df5c8d7b1309178e4e9de36d077420a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 15/28] fix: a dot after the last triple or after a nested
 pattern was rejected

---
 src/graph.rs           |  2 +-
 src/quads.rs           | 10 +++++++---
 src/query/construct.rs |  5 ++++-
 src/triple.rs          |  5 ++++-
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 06a95f1..6a189a7 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -208,7 +208,7 @@ pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPat
     map(
         separated_pair(
             graph_pattern_not_triples,
-            opt(preceded(sp, char('?'))),
+            opt(preceded(sp, char('.'))),
             opt(preceded(sp, triples_block)),
         ),
         |(graph_pattern, triples)| GraphPatternAndTriples {
diff --git a/src/quads.rs b/src/quads.rs
index ad96970..34f66bc 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -16,7 +16,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1, tag_no_case},
+    terminals::{bracketted, sp, sp_enc, sp_many0, sp_sep, sp_sep1, tag_no_case},
     triple::{triples_template, TriplesTemplate},
     var::{var_or_iri, var_or_term, VarOrIri, VarOrTerm, VerbList},
 };
@@ -49,7 +49,7 @@ pub(crate) fn quad_data(i: &str) -> IResult<&str, Quads> {
 
 pub(crate) fn quads(i: &str) -> IResult<&str, Quads> {
     map(
-        pair(opt(terminated(triples_template, sp)), many0(quads_entry)),
+        pair(opt(triples_template), sp_many0(quads_entry)),
         |(first_triples, entries)| Quads {
             first_triple: first_triples,
             entries,
@@ -73,7 +73,11 @@ pub(crate) fn quads_not_triples(i: &str) -> IResult<&str, QuadsNotTriples> {
 
 pub(crate) fn quads_entry(i: &str) -> IResult<&str, QuadsEntry> {
     map(
-        separated_pair(quads_not_triples, opt(char('.')), opt(triples_template)),
+        separated_pair(
+            quads_not_triples,
+            opt(preceded(sp, char('.'))),
+            opt(preceded(sp, triples_template)),
+        ),
         |(quads_not_triples, triples_template)| QuadsEntry {
             quads_not_triples,
             triples_template,
diff --git a/src/query/construct.rs b/src/query/construct.rs
index 98f8260..b75c02b 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -89,7 +89,10 @@ pub(crate) fn construct_template(i: &str) -> IResult<&str, ConstructTemplate> {
     map(
         delimited(
             terminated(char('{'), sp),
-            separated_list(many1(sp_enc(char('.'))), triples_same_subject),
+            terminated(
+                separated_list(many1(sp_enc(char('.'))), triples_same_subject),
+                opt(preceded(sp, char('.'))),
+            ),
             preceded(sp, char('}')),
         ),
         ConstructTemplate,
diff --git a/src/triple.rs b/src/triple.rs
index 7ce8f5e..e2beea7 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -91,7 +91,10 @@ pub(crate) fn triples_node(i: &str) -> IResult<&str, TriplesNode> {
 
 pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
     map(
-        separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject_path),
+        terminated(
+            separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject_path),
+            opt(preceded(sp, char('.'))),
+        ),
         TriplesBlock,
     )(i)
 }
-- 
2.43.0


From 098fc6610839251f782cd01331636e43ffff3b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 16/28] fix: a negated property set of one path without
 parentheses was rejected

---
 src/path.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index fb41aa5..96dbcc9 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -263,11 +263,14 @@ pub(crate) fn path_elt(i: &str) -> IResult<&str, PathElt> {
 
 pub(crate) fn path_negated_property_set(i: &str) -> IResult<&str, PathNegatedPropertySet> {
     map(
-        delimited(
-            terminated(tag("("), sp),
-            separated_nonempty_list(delimited(sp, char('|'), sp), path_one_in_property_set),
-            preceded(sp, tag(")")),
-        ),
+        alt((
+            map(path_one_in_property_set, |p| vec![p]),
+            delimited(
+                terminated(tag("("), sp),
+                separated_nonempty_list(delimited(sp, char('|'), sp), path_one_in_property_set),
+                preceded(sp, tag(")")),
+            ),
+        )),
         PathNegatedPropertySet,
     )(i)
 }
-- 
2.43.0


From af5c711ed1bb01d100b290c6cdadc100d23cde52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 17/28] fix: the verb 'a' was matched case-insensitively

---
 src/expression/iri.rs | 5 +++--
 src/var.rs            | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index 6c6d7f3..f6a2df8 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,6 +1,7 @@
 use crate::expression::Iri;
-use crate::terminals::{iri, tag_no_case};
+use crate::terminals::iri;
 use nom::branch::alt;
+use nom::bytes::complete::tag;
 use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::preceded;
@@ -19,7 +20,7 @@ pub enum IriOrA {
 }
 
 pub(crate) fn iri_or_a(i: &str) -> IResult<&str, IriOrA> {
-    alt((map(iri, IriOrA::Iri), map(tag_no_case("a"), |_| IriOrA::A)))(i)
+    alt((map(iri, IriOrA::Iri), map(tag("a"), |_| IriOrA::A)))(i)
 }
 
 pub(crate) fn iri_or_a_or_caret(i: &str) -> IResult<&str, IriOrAOrCaret> {
diff --git a/src/var.rs b/src/var.rs
index 6423bb3..d307126 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,7 +1,7 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_pn_chars_u, is_var_char, sp, sp_many1, tag_no_case};
+use crate::terminals::{iri, is_pn_chars_u, is_var_char, sp, sp_many1};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
@@ -62,7 +62,7 @@ pub(crate) fn var_or_iri(i: &str) -> IResult<&str, VarOrIri> {
 pub(crate) fn verb(i: &str) -> IResult<&str, Verb> {
     alt((
         map(var_or_iri, Verb::VarOrIri),
-        map(tag_no_case("a"), |_| Verb::A),
+        map(tag("a"), |_| Verb::A),
     ))(i)
 }
 
-- 
2.43.0


From 8b371f3cd64ffd788052b0cc321780a85bfc3cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 18/28] fix: ABS, CEIL, FLOOR and ROUND were reported as URI
 and CONTAINS could not be called

---
 src/call.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index 326c012..863bc4d 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -122,10 +122,10 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
             BuiltInCall::Bnode,
         ),
         map(preceded_bracketted("rand", nil), |_| BuiltInCall::Rand),
-        map(preceded_bracketted("abs", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("ceil", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("floor", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("round", expression), BuiltInCall::Uri),
+        map(preceded_bracketted("abs", expression), BuiltInCall::Abs),
+        map(preceded_bracketted("ceil", expression), BuiltInCall::Ceil),
+        map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
+        map(preceded_bracketted("round", expression), BuiltInCall::Round),
         map(
             preceded_tag1(
                 "concat",
@@ -148,7 +148,7 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         ),
         map(
             preceded_bracketted(
-                "strlen",
+                "contains",
                 separated_pair(expression, sp_enc(char(',')), expression),
             ),
             BuiltInCall::Contains,
-- 
2.43.0


From e05af27fc61f5dd3408bd5f801e3c1e3fcd9201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 19/28] fix: functions without arguments demanded a second pair
 of parentheses

---
 src/call.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index 863bc4d..cff3cbd 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -115,13 +115,16 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         map(preceded_bracketted("iri", expression), BuiltInCall::Iri),
         map(preceded_bracketted("uri", expression), BuiltInCall::Uri),
         map(
-            preceded_bracketted(
+            preceded_tag(
                 "bnode",
-                alt((map(expression, Option::Some), map(nil, |_| None))),
+                alt((
+                    map(bracketted_expression, Option::Some),
+                    map(nil, |_| None),
+                )),
             ),
             BuiltInCall::Bnode,
         ),
-        map(preceded_bracketted("rand", nil), |_| BuiltInCall::Rand),
+        map(preceded_tag("rand", nil), |_| BuiltInCall::Rand),
         map(preceded_bracketted("abs", expression), BuiltInCall::Abs),
         map(preceded_bracketted("ceil", expression), BuiltInCall::Ceil),
         map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
@@ -203,11 +206,9 @@ fn built_in_call_2(i: &str) -> IResult<&str, BuiltInCall> {
             BuiltInCall::Timezone,
         ),
         map(preceded_bracketted("tz", expression), BuiltInCall::Tz),
-        map(preceded_bracketted("now", nil), |_| BuiltInCall::Now),
-        map(preceded_bracketted("uuid", nil), |_| BuiltInCall::UUID),
-        map(preceded_bracketted("struuid", nil), |_| {
-            BuiltInCall::StrUUID
-        }),
+        map(preceded_tag("now", nil), |_| BuiltInCall::Now),
+        map(preceded_tag("uuid", nil), |_| BuiltInCall::UUID),
+        map(preceded_tag("struuid", nil), |_| BuiltInCall::StrUUID),
     ))(i)
 }
 
-- 
2.43.0


From 133d8993b83d210758ddad156c5822b6fa466d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 20/28] fix: CONCAT, SUBSTR, STRLEN and REPLACE could not be
 called

---
 src/call.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index cff3cbd..70da6ec 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -48,8 +48,10 @@ pub enum BuiltInCall {
     Ceil(Expression),
     Floor(Expression),
     Round(Expression),
-    Concat((ExpressionList, SubstringExpression)),
-    StrLen((Expression, StrReplaceExpression)),
+    Concat(ExpressionList),
+    Substr(SubstringExpression),
+    StrLen(Expression),
+    Replace(StrReplaceExpression),
     UCase(Expression),
     LCase(Expression),
     EncodeForUri(Expression),
@@ -130,17 +132,11 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
         map(preceded_bracketted("round", expression), BuiltInCall::Round),
         map(
-            preceded_tag1(
-                "concat",
-                separated_pair(expression_list, sp, substring_expression),
-            ),
+            preceded_tag("concat", expression_list),
             BuiltInCall::Concat,
         ),
         map(
-            preceded_tag1(
-                "strlen",
-                separated_pair(bracketted_expression, sp, str_replace_expression),
-            ),
+            preceded_bracketted("strlen", expression),
             BuiltInCall::StrLen,
         ),
         map(preceded_bracketted("ucase", expression), BuiltInCall::UCase),
@@ -168,6 +164,11 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
 
 fn built_in_call_2(i: &str) -> IResult<&str, BuiltInCall> {
     alt((
+        map(substring_expression, BuiltInCall::Substr),
+        map(
+            preceded_tag("replace", str_replace_expression),
+            BuiltInCall::Replace,
+        ),
         map(
             preceded_bracketted(
                 "strends",
-- 
2.43.0


From 4ff8f07c1810af2441e725a6a9e47b6ba25fb33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 21/28] fix: the DELETE clause was introduced by the keyword
 OFFSET

---
 src/clauses.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index b3284a7..96780bc 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -106,7 +106,7 @@ pub(crate) fn insert_clause(i: &str) -> IResult<&str, Quads> {
 
 #[inline]
 pub(crate) fn delete_clause(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("offset", quads_pattern)(i)
+    preceded_tag("delete", quads_pattern)(i)
 }
 
 #[inline]
-- 
2.43.0


From 0308b0cb9b3b00cffd089614d3c8e9ba5c4c94cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 22/28] fix: the graph of a modify operation was introduced by
 WHERE instead of WITH

---
 src/operations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operations.rs b/src/operations.rs
index 5c0432c..40fea65 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -95,7 +95,7 @@ pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
 pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
     map(
         tuple((
-            opt(delimited(tag_no_case("where"), iri, sp1)),
+            opt(delimited(pair(tag_no_case("with"), sp1), iri, sp)),
             terminated(delete_insert, sp),
             sp_many0(using_clause),
             sp_enc(tag_no_case("where")),
-- 
2.43.0


From 93c917f1ed9562504953a7e588567eef1ddc46e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 23/28] fix: ADD and MOVE operations were never tried

---
 src/update.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/update.rs b/src/update.rs
index 2f79543..7adea96 100644
--- a/src/update.rs
+++ b/src/update.rs
@@ -8,8 +8,8 @@ use nom::{
 };
 
 use crate::operations::{
-    clear_stmt, copy_stmt, create_stmt, delete_data, delete_where_data, drop_stmt, insert_data,
-    load_stmt, modify_stmt, AddStatement, ClearStatement, CopyStatement, CreateStatement,
+    add_stmt, clear_stmt, copy_stmt, create_stmt, delete_data, delete_where_data, drop_stmt,
+    insert_data, load_stmt, modify_stmt, move_stmt, AddStatement, ClearStatement, CopyStatement, CreateStatement,
     DropStatement, LoadStatement, ModifyStatement, MoveStatement,
 };
 use crate::prologue::Prologue;
@@ -71,6 +71,8 @@ pub(crate) fn update_stmt(i: &str) -> IResult<&str, UpdateStatement> {
         map(clear_stmt, UpdateStatement::Clear),
         map(drop_stmt, UpdateStatement::Drop),
         map(create_stmt, UpdateStatement::Create),
+        map(add_stmt, UpdateStatement::Add),
+        map(move_stmt, UpdateStatement::Move),
         map(copy_stmt, UpdateStatement::Copy),
         map(insert_data, UpdateStatement::InsertData),
         map(delete_data, UpdateStatement::DeleteData),
-- 
2.43.0


From 143f8d7f130f6a6de42bdc7a0841d4f3171c04a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 24/28] fix: simple string arguments were compatible exactly
 with what they must not be, and xsd:string was dropped

---
 src/literal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/literal.rs b/src/literal.rs
index 01eedb9..99a9f3b 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -38,9 +38,9 @@ impl StringLiteral {
         match self {
             StringLiteral::Simple(_) => {
                 if let StringLiteral::Language(_) = arg2 {
-                    true
-                } else {
                     false
+                } else {
+                    true
                 }
             }
             StringLiteral::Language((_, lang)) => {
@@ -78,7 +78,7 @@ pub(crate) fn string_literal_arg(i: &str) -> IResult<&str, StringLiteral> {
                 map(string_literal, String::from),
                 tag_no_case("^^xsd:string"),
             ),
-            StringLiteral::Simple,
+            StringLiteral::Typed,
         ),
         map(
             pair(
-- 
2.43.0


From 0d244afbb1a38a2c9432fb6b61a5bd2a535396db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 25/28] fix: a comment at the end of the input was not skipped

---
 src/terminals.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 61eb8ab..37d84ff 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -90,9 +90,13 @@ pub(crate) fn sp1(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn new_line(i: &str) -> IResult<&str, &str> {
-    recognize(pair(
-        opt(preceded(char('#'), many0(none_of("\n\r")))),
-        one_of("\r\n"),
+    alt((
+        recognize(one_of("\r\n")),
+        recognize(tuple((
+            char('#'),
+            many0(none_of("\n\r")),
+            opt(one_of("\r\n")),
+        ))),
     ))(i)
 }
 
-- 
2.43.0


From ef327bf88b2f61196eb23bcc4022e3d26376e471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 26/28] fix: whitespace before the prologue made the prologue
 unparsable

---
 src/parser.rs | 4 ++--
 src/update.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 96dcd24..218c902 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7,13 +7,13 @@ use crate::query::{SparqlQuery, SparqlQueryStatement};
 use crate::terminals::{preceded_tag, preceded_tag1, prologue, sp, sp1};
 use nom::branch::alt;
 use nom::combinator::{map, opt};
-use nom::sequence::{preceded, terminated, tuple};
+use nom::sequence::{delimited, preceded, terminated, tuple};
 use nom::IResult;
 
 pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
     map(
         tuple((
-            terminated(prologue, sp),
+            delimited(sp, prologue, sp),
             sparql_query,
             opt(preceded(sp, preceded_tag("values", datablock))),
         )),
diff --git a/src/update.rs b/src/update.rs
index 7adea96..321009c 100644
--- a/src/update.rs
+++ b/src/update.rs
@@ -41,7 +41,7 @@ pub enum UpdateStatement {
 pub(crate) fn update(i: &str) -> IResult<&str, Update> {
     map(
         tuple((
-            prologue,
+            preceded(sp, prologue),
             opt(pair(
                 preceded(sp, update_stmt),
                 opt(preceded(sp_enc(char(';')), map(update, Box::new))),
-- 
2.43.0


From f094261bb079cb4c9f8bf07d9207e4e05bb042a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 27/28] fix: SELECT demanded whitespace before a parenthesised
 expression

---
 src/query/select.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query/select.rs b/src/query/select.rs
index f2a5cea..2743dca 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -89,7 +89,7 @@ pub(crate) fn select_clause(i: &str) -> IResult<&str, SelectClause> {
         tuple((
             tag_no_case("select"),
             opt(preceded(sp1, select_modifier)),
-            preceded(sp1, select_vars),
+            preceded(sp, select_vars),
         )),
         |(_, modifier, vars)| SelectClause { modifier, vars },
     )(i)
-- 
2.43.0


From 7ecd3246ed8678e0024cdc4bfc27641c9da01543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 28/28] hook: let the verification harness include generated
 code under cfg(nom_sparql_verif)

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 84d5e83..9b894f6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -31,3 +31,10 @@ pub mod var;
 pub mod write;
 
 pub mod mimes {}
+
+/// Verification harness, generated outside this repository and only built with
+/// `--cfg nom_sparql_verif`.
+#[cfg(nom_sparql_verif)]
+pub mod verif_hooks {
+    include!(env!("NOM_SPARQL_VERIF_HOOKS"));
+}
-- 
2.43.0

