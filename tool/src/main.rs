mod desugar;
mod dsl;
mod emit;
mod extract;
mod first;
mod term;
mod tr;
use std::collections::BTreeSet;
use std::path::Path;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (' '..='~').contains(&c) => o.push(c),
            c => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
        }
    }
    o.push('"');
    o
}
fn arr<'a>(v: impl IntoIterator<Item = &'a String>) -> String {
    format!("[{}]", v.into_iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| -> Option<String> { a.iter().position(|x| x == k).map(|p| a[p + 1].clone()) };
    let set = |k: &str| -> Vec<String> { opt(k).map_or(vec![], |s| s.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()) };
    let base = opt("--base").unwrap_or("/verif".into());
    let read = |p: &str| std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {}", p, e));
    let g = dsl::parse(&read(&format!("{}/spec/grammar.sg", base)));
    g.check().unwrap();
    match a[1].as_str() {
        "spec" => print!("{}", g.spec_text(&|_| true, &|_| false)),
        "oracle" => oracle(&g, &opt("--repo").unwrap_or("/repo".into()), &base, &set("--skip").into_iter().collect(), &opt("--out").unwrap(), &opt("--meta").unwrap(), &opt("--dict").unwrap()),
        "breakers" => println!("{:?}", g.breakers()),
        "funs" => {
            let r = extract::Repo::load(Path::new(&opt("--repo").unwrap_or("/repo".into()))).unwrap();
            for f in r.funs.values() {
                println!("{} {:?} {} {}:{} rule={}", f.name, f.kind, f.out, f.file, f.line, g.rule(&f.name).is_some() || g.class(&f.name).is_some());
            }
        }
        "term" => {
            let r = extract::Repo::load(Path::new(&opt("--repo").unwrap_or("/repo".into()))).unwrap();
            let t = term::Term::run(&r, &g);
            println!("{{\"functions\": {}, \"ranked\": {}, \"highest_rank\": {}, \"cycles\": {}, \"loops\": {}}}", r.funs.len(), t.rank.len(), t.rank.values().max().unwrap_or(&0), arr(&t.cycles), arr(&t.loops));
        }
        "gen" => {
            let r = extract::Repo::load(Path::new(&opt("--repo").unwrap_or("/repo".into()))).unwrap_or_else(|e| {
                eprintln!("{}", e);
                std::process::exit(3)
            });
            let layer = opt("--layer").unwrap_or("strong".into());
            let contracts = read(&format!("{}/spec/contracts.rs", base));
            let mut hand = BTreeSet::new();
            let mut hints = std::collections::BTreeMap::new();
            for l in contracts.lines() {
                if let Some(x) = l.trim().strip_prefix("pub open spec fn ") {
                    let n = x.split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap();
                    if let Some(n) = n.strip_suffix("_s") {
                        hand.insert(n.to_string());
                    }
                }
                if let Some(x) = l.trim().strip_prefix("//@ hint ") {
                    let (n, h) = x.split_once(' ').unwrap();
                    hints.insert(n.to_string(), h.to_string());
                }
            }
            let mut roots = set("--roots");
            if roots == ["all"] {
                roots = r.funs.keys().cloned().collect();
            }
            let opts = emit::Opts {
                roots,
                cuts: set("--cuts").into_iter().collect(),
                drop: set("--drop").into_iter().collect(),
                norule: set("--norule").into_iter().collect(),
                more: set("--more").into_iter().collect(),
                lean: !set("--lean").is_empty(),
                only: opt("--only").map(|_| set("--only").into_iter().collect()),
                layer: layer.clone(),
            };
            let gen = emit::Gen { repo: &r, g: &g, hand, hints, opts, perms: Default::default(), loose: Default::default() };
            let pre: Vec<String> = if layer == "strong" {
                ["base", "nom", "prim", "std", "exec"].iter().map(|n| read(&format!("{}/prelude/{}.rs", base, n))).collect()
            } else {
                vec![read(&format!("{}/prelude/base.rs", base)), read(&format!("{}/prelude/std.rs", base)), read(&format!("{}/prelude/weak.rs", base)).replace("$SFX", if layer == "c02" { "true" } else { "false" }).replace("$INC", if layer == "c03" { "true" } else { "false" })]
            };
            let out = gen.run(&pre, &contracts);
            std::fs::write(opt("--out").unwrap(), &out.text).unwrap();
            let mut m = String::from("{\n");
            m.push_str(&format!("\"obligations\": {},\n", arr(&out.obligations)));
            m.push_str(&format!("\"helpers\": {},\n", arr(&out.helpers)));
            m.push_str(&format!("\"unsupported\": {{{}}},\n", out.unsupported.iter().map(|(k, v)| format!("{}: {}", js(k), js(v))).collect::<Vec<_>>().join(", ")));
            m.push_str(&format!("\"where\": {{{}}},\n", r.funs.values().map(|f| format!("{}: {}", js(&f.name), js(&format!("{}:{}", f.file, f.line)))).collect::<Vec<_>>().join(", ")));
            m.push_str(&format!("\"kind\": {{{}}},\n", r.funs.values().map(|f| format!("{}: {}", js(&f.name), js(&format!("{:?}", f.kind)))).collect::<Vec<_>>().join(", ")));
            m.push_str(&format!("\"ruled\": {},\n", arr(&r.funs.values().filter(|f| gen.rule_of(f)).map(|f| f.name.clone()).collect::<Vec<_>>())));
            m.push_str(&format!("\"deps\": {{{}}},\n", out.deps.iter().map(|(k, v)| format!("{}: {}", js(k), arr(v))).collect::<Vec<_>>().join(", ")));
            m.push_str(&format!("\"sections\": [{}]\n}}\n", out.sections.iter().map(|(n, a, b)| format!("[{}, {}, {}]", js(n), a, b)).collect::<Vec<_>>().join(",\n")));
            std::fs::write(opt("--meta").unwrap(), m).unwrap();
        }
        _ => panic!(),
    }
}

/// The file included into the crate under test: the grammar as executable
/// functions, and a table of the functions that can be called from there.
fn oracle(g: &dsl::Grammar, repo: &str, base: &str, skip: &BTreeSet<String>, out: &str, meta: &str, dict: &str) {
    let read = |p: &str| std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {}", p, e));
    let r = extract::Repo::load(Path::new(repo)).unwrap_or_else(|e| {
        eprintln!("{}", e);
        std::process::exit(3)
    });
    let mut o = read(&format!("{}/harness/oracle_pre.rs", base)).replace("#![allow", "// #![allow");
    let mut secs: Vec<(String, usize, usize)> = vec![];
    let mut put = |o: &mut String, name: &str, t: &str| {
        if skip.contains(name) {
            return;
        }
        let a = o.matches('\n').count() + 1;
        o.push_str(t);
        o.push('\n');
        secs.push((name.to_string(), a, o.matches('\n').count()));
    };
    for (n, m, _) in &r.types {
        if !g.rules.iter().any(|r| &r.name == n) {
            put(&mut o, &format!("type:{}", n), &format!("use {}::{};", m, n));
        }
    }
    for c in &g.classes {
        put(&mut o, &format!("rule:{}", c.name), &g.oracle_class(c));
    }
    for x in &g.rules {
        put(&mut o, &format!("rule:{}", x.name), &g.oracle_rule(x));
    }
    let mut tab = String::from("pub static TABLE: &[Entry] = &[\n");
    let vis = |f: &extract::Fun| !matches!(f.item.vis, syn::Visibility::Inherited);
    for f in r.funs.values().filter(|f| f.kind == extract::Kind::Parser && !f.method && vis(f)) {
        if skip.contains(&format!("code:{}", f.name)) {
            continue;
        }
        put(&mut o, &format!("code:{}", f.name), &format!("fn code_{}(s: &str) -> Seen {{ see(s, {}::{}(s)) }}", f.name, f.module, f.item.sig.ident));
        let ruled = g.rule(&f.name).map_or(false, |x| r.canon(&x.ty.replace("&", "&'a ")) == r.canon(&f.out)) && !skip.contains(&format!("rule:{}", f.name)) && !skip.contains(&format!("says:{}", f.name));
        if ruled {
            put(&mut o, &format!("says:{}", f.name), &format!("fn says_{}(s: &str) -> String {{ says({}_o(s)) }}", f.name, f.name));
        }
        tab.push_str(&format!("Entry {{ name: {:?}, code: code_{}, oracle: {} }},\n", f.name, f.name, if ruled { format!("Some(says_{})", f.name) } else { "None".into() }));
    }
    tab.push_str("];\n");
    let mut hands = String::from("pub static HANDS: &[Hand] = &[\n");
    for part in read(&format!("{}/harness/oracle_hand.rs", base)).split("//@ item ").skip(1) {
        let (n, t) = part.split_once('\n').unwrap();
        let n = n.trim();
        if r.funs.contains_key(n) && !skip.contains(&format!("hand:{}", n)) {
            put(&mut o, &format!("hand:{}", n), t);
            hands.push_str(&format!("Hand {{ name: {:?}, run: hand_{}, count: 1 }},\n", n, n));
        }
    }
    hands.push_str("];\n");
    o.push_str(&tab);
    o.push_str(&hands);
    std::fs::write(out, o).unwrap();
    std::fs::write(meta, format!("{{\"sections\": [{}]}}\n", secs.iter().map(|(n, a, b)| format!("[{}, {}, {}]", js(n), a, b)).collect::<Vec<_>>().join(",\n"))).unwrap();
    // literals of the code, for the generator
    use syn::visit::Visit;
    struct V(BTreeSet<String>);
    impl<'a> Visit<'a> for V {
        fn visit_lit(&mut self, l: &'a syn::Lit) {
            match l {
                syn::Lit::Str(s) => { self.0.insert(format!("s {}", hex(&s.value()))); }
                syn::Lit::Char(c) => { self.0.insert(format!("s {}", hex(&c.value().to_string()))); }
                syn::Lit::Int(i) => { if let Ok(n) = i.base10_parse::<u64>() { self.0.insert(format!("n {}", n)); } }
                _ => {}
            }
        }
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            if let Ok(es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for e in &es { self.visit_expr(e); }
            }
        }
    }
    fn hex(s: &str) -> String { s.bytes().map(|b| format!("{:02x}", b)).collect() }
    let mut d = String::new();
    for f in r.funs.values() {
        let mut v = V(BTreeSet::new());
        v.visit_item_fn(&f.item);
        for x in v.0 {
            d.push_str(&format!("{} {}\n", f.name, x));
        }
    }
    for ((_, n), (_, e)) in &r.consts {
        let mut v = V(BTreeSet::new());
        v.visit_expr(e);
        for x in v.0 {
            d.push_str(&format!("{} {}\n", n, x));
        }
    }
    std::fs::write(dict, d).unwrap();
}
