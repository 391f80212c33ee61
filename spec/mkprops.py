#!/usr/bin/env python3
"""Writes properties.jsonl (kept here so that the texts can be edited in one place)."""
import json, os
B = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVERY = "every UTF-8 text given to the parser"
P = []
def p(id, title, statement, why, files, mech, over=("inputs",), text=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text or EVERY), why_tests_cant=why,
        anchors=dict(files=["src/" + f for f in files], mechanism=[dict(name=n, where="src/" + w) for n, w in mech],
            observe_at=observe or ["return value of the parsing functions"], hook_needed=hook)))
ALL = ["parser.rs", "update.rs", "operations.rs", "query/select.rs", "query/construct.rs", "query/describe.rs", "query/ask.rs", "graph.rs", "triple.rs", "path.rs", "expression/mod.rs", "arithmetic.rs", "call.rs", "literal.rs", "terminals.rs", "clauses.rs", "quads.rs", "data.rs"]

p("C01", "No text makes a parser panic",
  "Whatever text it is given, no parsing function panics: no slice off a character boundary, no arithmetic overflow, no unwrap of nothing, no code marked unreachable. Invalid and truncated texts, characters outside ASCII and out-of-range numbers are answered with a value or an error.",
  "The tests feed some fifty well-formed ASCII texts; a panic needs a particular character at a particular place (a multi-byte character after a variable, a number one past the range).",
  ALL, [("slicing in the case-insensitive tag", "terminals.rs: tag_no_case"), ("path modifiers", "path.rs: path_mod"), ("numbers", "literal.rs: numeric_literal, exponent; clauses.rs: int_clause")])
p("C02", "What is left over is exactly the unread end of the text",
  "When a parser succeeds, the remainder it returns is a suffix of the text it was given, never anything else. A caller can therefore continue from it, and compute what was consumed from the two lengths.",
  "Tests compare remainders on a few texts, nearly always the empty one; the guarantee is about every text and every parser, including failed alternatives that are taken back.",
  ALL, [("every parser threads its rest", "terminals.rs, all parsers"), ("alternatives and options restore the position", "graph.rs, operations.rs, path.rs")])
p("C03", "No parser ever asks for more input",
  "Every parsing function takes its text to be complete: it answers with a value or with an error, and never reports that the input is incomplete, also when the text stops in the middle of a construct. A caller that holds a whole query never has to handle that case.",
  "It shows only when a text ends at exactly the place where one of the streaming variants of the combinators is used; the tests have no truncated texts.",
  ALL, [("complete character parsers", "terminals.rs, literal.rs, path.rs"), ("operators", "arithmetic.rs: op_expression")])
p("C04", "White space and comments: where allowed, skipped, without effect",
  "White space is any run of spaces, tabs, carriage returns and line feeds and of comments, where a comment is '#' up to the end of the line or of the text; wherever the grammar allows or demands it between two tokens any such run is accepted and skipped entirely, and it never changes the tree. It is never skipped inside a token (a name, variable, IRI, number, literal), and where the grammar demands it, it cannot be left out.",
  "Every gap of every construct times every run of white space; the tests use single spaces, and hardly any comment.",
  ["terminals.rs", "parser.rs", "query/select.rs", "graph.rs", "triple.rs", "clauses.rs", "operations.rs", "expression/mod.rs"],
  [("sp, sp1, new_line", "terminals.rs"), ("sp_enc, sp_sep, bracketted, preceded_tag", "terminals.rs"), ("separators of lists", "triple.rs, graph.rs, path.rs")])
p("C05", "Keywords match in any ASCII case and nothing else does",
  "Every keyword and function name is recognised in any mixture of upper and lower case of the ASCII letters with the same result, and matches exactly its letters: a character whose Unicode lower case happens to be an ASCII letter is not taken for it, and only as much text as the keyword has is consumed. The verb 'a' is the exception and is matched exactly.",
  "2^n spellings of some 130 keywords in all their contexts, and the characters beyond ASCII that fold into ASCII; the tests spell each keyword one way or two.",
  ["terminals.rs", "call.rs", "aggregate.rs", "clauses.rs", "operations.rs", "graph.rs", "query/select.rs", "data.rs", "literal.rs"],
  [("tag_no_case", "terminals.rs"), ("keyword call sites", "call.rs, aggregate.rs, clauses.rs, operations.rs, graph.rs, query/*.rs, order.rs, group.rs")])
p("C06", "Variables are read exactly as the grammar says",
  "'?' or '$' followed by a name - first a letter of the SPARQL character ranges, a digit or '_', then these and the middle dot, combining and tie characters - is a variable that records which sign was used and the longest such name, without the sign. White space after the sign, an empty name or any other first character is refused, and the name ends before the first character outside the ranges.",
  "Names are drawn from over a million code points in sixteen ranges; the tests use a few ASCII names.",
  ["var.rs", "terminals.rs"], [("var, var_name", "var.rs, terminals.rs"), ("is_var_char, is_pn_chars_u, is_unicode", "terminals.rs"), ("var_or_iri, var_or_term", "var.rs")])
p("C07", "IRIs, prefixed names and blank nodes are read exactly",
  "An IRI reference is the text between '<' and '>', without the characters SPARQL excludes; a prefixed name is split at its first ':' into an optional prefix and an optional local part, where dots may stand inside but not at an end, ':' , '%' with two hex digits and '\\' escapes belong to the local part, and the characters are those of the SPARQL ranges. A blank node is '_:' with a label or '[' white space ']'; each is returned with exactly the text it was written with and the longest match is taken.",
  "Names are built from sixteen ranges of code points, escapes and interior dots; the tests have a handful of ASCII names.",
  ["terminals.rs", "graph.rs", "node.rs"], [("iri_ref, iri, prefixed_name, pname_ns, pname_ln", "terminals.rs"), ("pn_local, pn_prefix, plx, hex_primary, pn_chars_*", "terminals.rs"), ("blank_node, anon", "graph.rs, terminals.rs"), ("character classes", "terminals.rs: is_unicode, is_pn_char, ...")])
p("C08", "String and RDF literals are read exactly",
  "A string literal is the text between two equal quotes, single or double, possibly empty, in which '\\' must be followed by one of the escape letters t b n r f, a backslash or a quote; the literal returned is that text as written. An RDF literal adds the language tag ('@', letters, then '-' and letters or digits, repeatedly) or the datatype IRI after '^^', or nothing, and keeps them apart.",
  "Quotes, escapes and what follows them combine without bound; the tests have a dozen ordinary literals.",
  ["literal.rs", "node.rs", "terminals.rs", "graph.rs"], [("string_literal, string_content, echar", "terminals.rs"), ("language_tag", "terminals.rs"), ("rdf_literal", "terminals.rs"), ("graph_term", "graph.rs")])
p("C09", "Numbers, LIMIT and OFFSET carry exactly the value written",
  "Digits with an optional sign, not followed by '.' or an exponent, are an integer of exactly that value when it fits in 64 bits; otherwise, or with a fraction or exponent, they are a double whose exponent is kept apart with its sign and value. LIMIT and OFFSET, in either order, carry exactly the unsigned 64-bit value written and refuse a larger one instead of wrapping or truncating it.",
  "Values up to and beyond 2^63 and 2^64, signs and fractions, in every combination; the tests have about ten numbers.",
  ["literal.rs", "clauses.rs", "terminals.rs"], [("numeric_literal, sparql_int, sparql_decimal, sparql_double, exponent", "literal.rs"), ("limit_clause, offset_clause, limit_offset_clause, int_clause", "clauses.rs")])
p("C10", "Expressions: precedence, grouping and operators",
  "For every text, parsing an expression gives exactly the tree of the grammar: '||' over '&&' over one optional comparison (=, !=, <, >, <=, >=, IN, NOT IN) over sums over products over a unary sign or negation over brackets, calls, IRIs with arguments, literals and variables, every operand in the order written and every operator with its own node. Argument and expression lists, DISTINCT, brackets, '(expr AS ?var)' , BIND, FILTER and constraints are read as written, and what cannot be continued is left as the remainder.",
  "Expressions nest without bound; whether an operand is dropped, swapped or attached to the wrong operator shows only in particular combinations the tests do not have.",
  ["expression/mod.rs", "arithmetic.rs", "expression/functions.rs", "call.rs", "expression/iri.rs"], [("expression ... primary_expression", "expression/mod.rs, arithmetic.rs"), ("op_expression, add_expression, mult_expression", "arithmetic.rs"), ("arg_list, function_call, iri_or_fun", "call.rs, terminals.rs"), ("constraint, filter, bind", "expression/functions.rs, expression/mod.rs")])
p("C11", "Each built-in function and aggregate is recognised as itself",
  "Every built-in function and aggregate of SPARQL 1.1 the library has a node for is reachable by its name and gives exactly that node, with its arguments in the order written and with exactly the numbers of arguments the grammar allows. Aggregates record DISTINCT exactly when it is written, COUNT accepts '*' or an expression, and GROUP_CONCAT keeps its separator.",
  "Some seventy names, several being prefixes of others, tried one after another: which one wins depends on the order and on every spelling; the tests call four of them.",
  ["call.rs", "aggregate.rs", "expression/functions.rs"], [("built_in_call, built_in_call_1, built_in_call_2", "call.rs"), ("aggregate, count, group_concat", "aggregate.rs"), ("regex_expression, substring_expression, str_replace_expression", "expression/functions.rs")])
p("C12", "Triples, property lists, collections and blank node lists",
  "A triples template gives exactly the triples written: subjects with their predicate lists separated by ';' (repeated and trailing ones allowed), each with its objects separated by ',', triples separated by '.' with an optional last one, in the order written and none lost or attached to another subject or verb. Collections in parentheses, property lists in brackets, nested to any depth, the terms (IRIs, literals, numbers, booleans, blank nodes, NIL, variables) and the verb 'a' are told apart as the grammar does.",
  "Lists of lists of unbounded length and nesting, with separators that may repeat or trail; the tests have about a dozen shapes.",
  ["triple.rs", "graph.rs", "var.rs", "node.rs", "query/construct.rs"], [("triples_template, triples_same_subject, property_list_not_empty, object_list", "triple.rs, node.rs"), ("collection, blank_node_property_list, triples_node", "triple.rs"), ("graph_term, graph_node, var_or_term, verb", "graph.rs, var.rs"), ("construct_template", "query/construct.rs")])
p("C13", "Property paths: operators, nesting and triples with paths",
  "A property path is exactly the tree of the grammar: alternatives '|' of sequences '/' of elements, each optionally inverted '^', a primary (IRI, 'a', negated set after '!', or a path in parentheses) with at most one modifier '?', '*' or '+'. Triples in patterns attach each path or variable to its objects, ';' and ',' and '.' separating as in plain triples, everything in the order written.",
  "Paths nest without bound and share characters with variables and separators; the tests reach only a couple of them.",
  ["path.rs", "triple.rs", "expression/iri.rs"], [("path_alternative, path_sequence, path_elt_or_inverse, path_elt, path_primary, path_mod", "path.rs"), ("path_negated_property_set, path_one_in_property_set", "path.rs"), ("property_list_path_not_empty, object_list_path, triples_same_subject_path, triples_node_path", "path.rs"), ("triples_block", "triple.rs")])
p("C14", "Graph patterns: every kind, in order, nested to any depth",
  "A group in braces is exactly what the grammar says: a sub-select, or an optional block of triples followed by the non-triple patterns (groups joined by UNION, OPTIONAL, MINUS, GRAPH, SERVICE with SILENT, FILTER, BIND, VALUES), each with the triples that follow it and optional dots, in the order written. Nothing between the braces is lost, reordered or attached to another pattern, and text that fits no pattern makes the group fail instead of being skipped.",
  "Groups nest without bound and mix nine kinds of pattern with optional dots and triples between; the tests have almost no group pattern.",
  ["graph.rs", "triple.rs", "query/select.rs", "data.rs", "expression/functions.rs"], [("group_graph_pattern, group_graph_pattern_sub, group_graph_pattern_and_triples, graph_pattern_not_triples", "graph.rs"), ("group_or_union, optional, minus, graph, service patterns", "graph.rs"), ("sub_select, where_clause", "query/select.rs, clauses.rs")])
p("C15", "GROUP BY, HAVING, ORDER BY, LIMIT and OFFSET",
  "The solution modifiers are exactly those written: GROUP BY with its conditions, HAVING with its constraints, ORDER BY with ASC or DESC brackets, constraints and variables, and LIMIT and OFFSET in either order, each optional, in this order, with every condition kept in sequence. A clause that is not written is absent from the tree, and one that cannot be read is left in the remainder.",
  "Every subset of the clauses with lists of any length and four kinds of condition; the tests have only LIMIT and OFFSET.",
  ["clauses.rs", "group.rs", "order.rs"], [("solution_modifier, having_clause, order_clause", "clauses.rs"), ("group_clause, group_condition", "group.rs"), ("order_condition, order_expression, order", "order.rs"), ("limit_offset_clause", "clauses.rs")])
p("C16", "Whole queries: prologue, the four forms, datasets, trailing VALUES",
  "A query is read exactly as the grammar says: BASE and PREFIX declarations, then SELECT (DISTINCT or REDUCED, '*' or the listed variables and expressions), CONSTRUCT in both forms, DESCRIBE or ASK, with its FROM and FROM NAMED clauses, pattern and modifiers, and the trailing VALUES block. Every part is in the tree in the order written, parts that are optional are absent exactly when not written, and the four forms are never confused.",
  "Every combination of optional parts with lists of any length; the tests parse no complete query.",
  ["parser.rs", "query/mod.rs", "query/select.rs", "query/construct.rs", "query/describe.rs", "query/ask.rs", "terminals.rs", "data.rs", "clauses.rs"], [("sparql_query_stmt, sparql_query", "parser.rs"), ("select_query, select_clause", "query/select.rs"), ("construct_query, sub_construct, sub_triples", "query/construct.rs"), ("describe_query, ask_query", "query/describe.rs, query/ask.rs"), ("prologue, base_decl, prefix_decl", "terminals.rs"), ("data_set_clause", "data.rs")])
p("C17", "Updates: every operation is read as itself, with its parts",
  "A sequence of updates separated by ';' gives each operation as the node of its own kind - LOAD, CLEAR, DROP, CREATE, ADD, MOVE, COPY, INSERT DATA, DELETE DATA, DELETE WHERE, or the modify form with WITH, DELETE, INSERT, USING and WHERE - with SILENT recorded exactly when written and source and target graphs not exchanged. Quads keep their triples and GRAPH blocks in the order written.",
  "Eleven operations with optional parts, chained without bound, several sharing a first keyword; the tests reach two of them.",
  ["update.rs", "operations.rs", "quads.rs", "graph.rs", "clauses.rs"], [("update, update_stmt", "update.rs"), ("load_stmt ... modify_stmt, delete_insert", "operations.rs"), ("quads, quads_entry, quads_not_triples, quad_data", "quads.rs"), ("graph_ref, graph_or_default, graph_ref_all", "graph.rs"), ("insert_clause, delete_clause, using_clause", "clauses.rs")], hook="the update parsers are crate-private: replayed through the guarded hook")
p("C18", "VALUES blocks keep every row, value and UNDEF",
  "A VALUES block gives the variable or the list of variables and exactly the rows written, each value (IRI, literal, number, boolean or UNDEF) in its place, for any number of rows, empty rows and empty lists included. No row or value is lost, duplicated or moved to another row, and a missing VALUES keyword means an absent block, not an error.",
  "Tables of any size with five kinds of cell; the tests have one small table of each form.",
  ["data.rs", "literal.rs"], [("datablock, inline_data, inline_data_one_var, inline_data_full", "data.rs"), ("datablock_value", "data.rs"), ("values_clause", "clauses.rs")])
p("C19", "String arguments: forms, and which pairs are compatible",
  "A string argument is read as simple, as language-tagged, or as typed when '^^xsd:string' follows, with its text and tag exactly as written. Two arguments are compatible exactly when both are simple or typed xsd:string, or both have the identical language tag, or the first has a language tag and the second is simple or typed.",
  "The compatibility table ranges over all pairs of forms and tags; no test calls it.",
  ["literal.rs"], [("string_literal_arg", "literal.rs"), ("StringLiteral::compatible_arg", "literal.rs")], text="every text, and every pair of string arguments", observe=["return value of the parsing function", "return value of compatible_arg"])
p("C20", "The small values of the tree: conversions and constructors",
  "Printing a sign and reading it back gives the same sign, the empty text reads as the positive (default) sign, and reading a sign or a path modifier from a string accepts exactly what the parsers accept and refuses every other text. Asking an aggregate whether it is DISTINCT gives the flag it was parsed with, and the constructors of IRIs, RDF literals and LIMIT/OFFSET clauses keep exactly what they are given.",
  "They hold for every string, flag and value; the tests touch only a few of them.",
  ["arithmetic.rs", "path.rs", "aggregate.rs", "expression/mod.rs", "node.rs", "clauses.rs"], [("Sign: FromStr, Display, AsRef, Default", "arithmetic.rs"), ("PathMod: FromStr", "path.rs"), ("Aggregate::is_distinct", "aggregate.rs"), ("Iri::iri_ref, Iri::prefixed_name", "expression/mod.rs"), ("RdfLiteral::new, RdfLiteral::literal", "node.rs"), ("LimitOffsetClause constructors", "clauses.rs")], text="every string, aggregate and argument", observe=["return values of the methods"])
with open(B + "/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
TECH = "contract-based deductive verification (Verus/Z3) of the parsers extracted from the source on every run"
NOTE = {
 "c01": "All inputs, no bound: every call in every parser, combinator body and value method satisfies its callee's precondition (slicing, unwrap, unreachable code, overflow), proved function by function with the verifier on text extracted from /repo. Trusted: the contracts of nom's character parsers and of std, the extraction, Verus/Z3. Not covered: stack depth, termination, Display of the query enum (a stub that panics).",
 "c02": "All inputs, no bound: each parser's postcondition 'the remainder is a suffix of the text' proved modularly. Trusted: the contracts of nom's character parsers, the extraction, Verus/Z3. Partial correctness.",
 "c03": "All inputs, no bound: each parser's postcondition 'never Incomplete' proved modularly. Trusted: the contracts of nom's character parsers, the extraction, Verus/Z3. Partial correctness.",
}
man = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="--cfg nom_sparql_verif", enable="RUSTFLAGS='--cfg nom_sparql_verif' NOM_SPARQL_VERIF_HOOKS=<generated file>, set by /verif/check when it builds /verif/harness", source_commits=["7ecd324"]), checks=[], not_applicable=[],
  notes="Every check: extraction from /repo -> Verus; failed obligations are reported with an input when the differential harness finds one. See DESIGN.md.")
for x in P:
    l = json.load(open(B + "/spec/properties.json"))["properties"][x["id"]]["layer"]
    note = NOTE.get(l) or "All inputs, no bound: every function in the property's cone is proved against the grammar rule of the same name (outcome, remainder and tree), callers against callees' contracts. Trusted: contracts of nom's character parsers and std, extensionality of Vec/String, the extraction, Verus/Z3; the grammar (spec/grammar.sg) is the specification. Partial correctness."
    if x["id"] in ("C10", "C11", "C15"):
        note += " The group graph pattern inside EXISTS is used by its contract, proved by C14."
    man["checks"].append(dict(property=x["id"], quick_cmd="./check %s" % x["id"], thorough_cmd="VERIF_TIER=thorough ./check %s" % x["id"], technique=TECH, level="proof", level_note=note))
json.dump(man, open(B + "/MANIFEST.json", "w"), indent=1)
