//! Looks for an input on which the real code and the grammar disagree.
//! Used to confirm a failed obligation with an input, to replay one, and for
//! the runs that the evidence labels bounded; it never decides that a property
//! holds.
#[path = "../../tool/src/dsl.rs"]
#[allow(dead_code)]
mod dsl;
mod gen;
use gen::*;
use nom_sparql::verif_hooks::{Entry, HANDS, TABLE};
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static NOW: Mutex<Option<(String, String, Instant)>> = Mutex::new(None);
static DONE: Mutex<Option<String>> = Mutex::new(None);

/// Set by the thread that ran out of stack, which then waits for the end.
static OVER: AtomicBool = AtomicBool::new(false);
mod overflow {
    #[repr(C)]
    struct Act {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, act: *const Act, old: *mut Act) -> i32;
        fn pause() -> i32;
    }
    extern "C" fn on(_: i32) {
        super::OVER.store(true, super::Ordering::SeqCst);
        loop {
            unsafe { pause() };
        }
    }
    /// The runtime gives every thread an alternate stack for signals; use it.
    pub fn watch() {
        const SA_ONSTACK: i32 = 0x0800_0000;
        let a = Act { handler: on as *const () as usize, mask: [0; 16], flags: SA_ONSTACK, restorer: 0 };
        unsafe {
            sigaction(11, &a, std::ptr::null_mut());
            sigaction(7, &a, std::ptr::null_mut());
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (' '..='~').contains(&c) => o.push(c),
            c => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
        }
    }
    o.push('"');
    o
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Tree,    // outcome, remainder and tree
    Panic,   // C01
    Suffix,  // C02
    More,    // C03
    Slots,   // C04: only white space differs
    Case,    // C05: only the letters of keywords differ
}
const MODES: [(&str, Mode); 6] = [("tree", Mode::Tree), ("c01", Mode::Panic), ("c02", Mode::Suffix), ("c03", Mode::More), ("c04", Mode::Slots), ("c05", Mode::Case)];
impl Mode {
    fn name(self) -> &'static str {
        MODES.iter().find(|m| m.1 == self).unwrap().0
    }
    fn of(n: &str) -> Mode {
        MODES.iter().find(|m| m.0 == n).unwrap().1
    }
}
struct Obs {
    outcome: String,
    kind: char,
    suffix: bool,
}
fn entry(n: &str) -> Option<&'static Entry> {
    TABLE.iter().find(|e| e.name == n)
}
thread_local! {
    /// The last calls, for code whose answer depends on what it was asked before.
    static CALLS: std::cell::RefCell<VecDeque<(&'static str, String)>> = const { std::cell::RefCell::new(VecDeque::new()) };
}
fn code(e: &Entry, t: &str) -> Obs {
    CALLS.with(|c| {
        let mut c = c.borrow_mut();
        let mut s = if c.len() >= 6000 { c.pop_front().unwrap().1 } else { String::new() };
        s.clear();
        s.push_str(t);
        c.push_back((e.name, s));
    });
    *NOW.lock().unwrap() = Some((e.name.to_string(), t.to_string(), Instant::now()));
    let r = catch_unwind(AssertUnwindSafe(|| (e.code)(t)));
    *NOW.lock().unwrap() = None;
    match r {
        Ok(s) => Obs { outcome: s.outcome, kind: s.kind, suffix: s.suffix },
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Obs { outcome: format!("panic: {}", m), kind: 'p', suffix: true }
        }
    }
}
/// What is wrong on this text, if anything: (observed, expected).
fn wrong(m: Mode, e: &Entry, t: &str) -> Option<(String, String)> {
    match m {
        Mode::Panic => {
            let o = code(e, t);
            (o.kind == 'p').then(|| (o.outcome, "no panic".into()))
        }
        Mode::Suffix => {
            let o = code(e, t);
            (!o.suffix).then(|| (o.outcome, "a remainder that is a suffix of the text".into()))
        }
        Mode::More => {
            let o = code(e, t);
            (o.kind == 'i').then(|| (o.outcome, "a decision on the text as it stands".into()))
        }
        _ => {
            let want = match (e.oracle, catch_unwind(AssertUnwindSafe(|| e.oracle.unwrap()(t)))) {
                (Some(_), Ok(w)) => w,
                _ => return None,
            };
            let o = code(e, t);
            (o.outcome != want).then(|| (o.outcome, want))
        }
    }
}
struct Found {
    rule: String,
    text: String,
    base: Option<String>,
    got: String,
    want: String,
    /// calls that have to come first
    before: Vec<(String, String)>,
}
impl Found {
    /// Shortens the text, and finds out whether earlier calls are part of it.
    fn at(m: Mode, e: &Entry, t: &str, seen: (String, String)) -> Found {
        let s = shrink(m, e, t);
        let (t, (got, want)) = match wrong(m, e, &s) {
            Some(w) => (s, w),
            None => (t.to_string(), seen),
        };
        Found { rule: e.name.into(), text: t, base: None, got, want, before: vec![] }.settle(m)
    }
    fn pair(m: Mode, e: &Entry, short: (String, String), first: (String, String)) -> Found {
        let (b, t) = if wrong(Mode::Tree, e, &short.1).is_some() { short } else { first };
        let (got, want) = wrong(Mode::Tree, e, &t).unwrap_or_default();
        Found { rule: e.name.into(), text: t, base: Some(b), got, want, before: vec![] }.settle(m)
    }
    fn settle(mut self, m: Mode) -> Found {
        let calls: Vec<(String, String)> = CALLS.with(|c| c.borrow().iter().map(|(r, t)| (r.to_string(), t.clone())).collect());
        let end = Instant::now() + Duration::from_secs(20);
        let last = (self.rule.clone(), self.text.clone());
        let bad = |v: &[(String, String)]| anew(m, v, &last);
        if bad(&[]) || !bad(&calls) {
            return self;
        }
        let mut cur = calls;
        let mut n = cur.len() / 2;
        while n >= 1 {
            let mut i = 0;
            while i < cur.len() && Instant::now() < end {
                let mut c = cur.clone();
                c.drain(i..(i + n).min(c.len()));
                if bad(&c) {
                    cur = c;
                } else {
                    i += n;
                }
            }
            n /= 2;
        }
        self.before = cur;
        self
    }
    fn json(&self) -> String {
        format!(
            "{{\"rule\": {}, \"text\": {}, {}{}\"observed\": {}, \"expected\": {}}}",
            js(&self.rule),
            js(&self.text),
            self.base.as_ref().map_or(String::new(), |b| format!("\"compared_with\": {}, ", js(b))),
            if self.before.is_empty() { String::new() } else { format!("\"before\": [{}], ", self.before.iter().map(|(r, t)| format!("[{}, {}]", js(r), js(t))).collect::<Vec<_>>().join(", ")) },
            js(&self.got),
            js(&self.want)
        )
    }
}
fn hex(t: &str) -> String {
    t.bytes().map(|b| format!("{:02x}", b)).collect()
}
fn unhex(h: &str) -> String {
    String::from_utf8((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).unwrap()
}
/// Is the last call wrong in a process that has made these calls before it and no other?
fn anew(m: Mode, before: &[(String, String)], last: &(String, String)) -> bool {
    let f = std::env::temp_dir().join(format!("hx.{}", std::process::id()));
    let mut s = String::new();
    for (r, t) in before.iter().chain(std::iter::once(last)) {
        s.push_str(&format!("{} {}\n", r, hex(t)));
    }
    if std::fs::write(&f, s).is_err() {
        return true;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("seq").arg("--mode").arg(m.name()).arg("--file").arg(&f).output();
    let _ = std::fs::remove_file(&f);
    o.map_or(true, |o| !String::from_utf8_lossy(&o.stdout).contains("good"))
}
fn shrink(m: Mode, e: &Entry, t: &str) -> String {
    let mut cur: Vec<char> = t.chars().collect();
    let end = Instant::now() + Duration::from_secs(4);
    let mut n = cur.len().max(2) / 2;
    while n >= 1 && Instant::now() < end {
        let mut i = 0;
        let mut any = false;
        while i < cur.len() && Instant::now() < end {
            let mut c = cur.clone();
            let hi = (i + n).min(c.len());
            c.drain(i..hi);
            let s: String = c.iter().collect();
            if wrong(m, e, &s).is_some() {
                cur = c;
                any = true;
            } else {
                i += n;
            }
        }
        if !any || n > 1 {
            if n == 1 {
                break;
            }
            n /= 2;
        }
    }
    cur.into_iter().collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).map(|p| a[p + 1].clone());
    let list = |k: &str| -> Vec<String> { opt(k).map_or(vec![], |s| s.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()) };
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        "table" => {
            for e in TABLE {
                println!("{} {}", e.name, e.oracle.is_some());
            }
        }
        "hand" => {
            let want = list("--items");
            for h in HANDS.iter().filter(|h| want.iter().any(|w| w == h.name)) {
                let r = catch_unwind(AssertUnwindSafe(h.run)).unwrap_or_else(|_| vec![(h.name.to_string(), "panic".into(), "a value".into())]);
                println!("{{\"item\": {}, \"bad\": [{}]}}", js(h.name), r.iter().map(|(i, g, w)| format!("{{\"rule\": {}, \"text\": {}, \"observed\": {}, \"expected\": {}}}", js(h.name), js(i), js(g), js(w))).collect::<Vec<_>>().join(", "));
            }
        }
        "replay" => {
            // --rule R --text-file F
            let t = std::fs::read_to_string(opt("--text-file").unwrap()).unwrap();
            let e = entry(&opt("--rule").unwrap()).expect("no such parser");
            let o = std::thread::Builder::new().stack_size(1 << 29).spawn(move || (code(e, &t).outcome, e.oracle.map(|f| f(&t)))).unwrap().join().unwrap();
            println!("code:    {}\ngrammar: {}", o.0, o.1.unwrap_or("-".into()));
        }
        "seq" => {
            let m = Mode::of(&opt("--mode").unwrap());
            let t = std::fs::read_to_string(opt("--file").unwrap()).unwrap();
            let calls: Vec<(String, String)> = t.lines().filter_map(|l| l.split_once(' ')).map(|(r, h)| (r.to_string(), unhex(h))).collect();
            let n = calls.len();
            let ok = std::thread::Builder::new()
                .stack_size(1 << 29)
                .spawn(move || {
                    for (k, (r, t)) in calls.iter().enumerate() {
                        let t = t.clone(); // in memory that is free again afterwards
                        let e = entry(r).expect("no such parser");
                        if k + 1 < n {
                            code(e, &t);
                        } else {
                            return wrong(if m as u8 >= Mode::Slots as u8 { Mode::Tree } else { m }, e, &t).map(|(g, w)| format!("code:    {}\ngrammar: {}", g, w));
                        }
                    }
                    None
                })
                .unwrap()
                .join()
                .unwrap();
            println!("{}", ok.unwrap_or("good".into()));
        }
        "search" => {
            let secs: f64 = opt("--secs").unwrap().parse().unwrap();
            let end = Instant::now() + Duration::from_secs_f64(secs);
            let grammar = std::fs::read_to_string(opt("--grammar").unwrap()).unwrap();
            let dict = std::fs::read_to_string(opt("--dict").unwrap()).unwrap();
            let anchors = list("--anchors");
            let focus = list("--focus");
            let seed: u64 = opt("--seed").map_or(1, |s| s.parse().unwrap());
            let mode = Mode::of(&opt("--mode").unwrap());
            // rule, a text of it that is read wrongly, and the text it was compared with
            let plants: Vec<Plant> = opt("--plants").map_or(vec![], |f| {
                let t = std::fs::read_to_string(f).unwrap();
                t.lines().map(|l| l.split(' ').collect::<Vec<_>>()).map(|w| (w[0].to_string(), unhex(w[1]), w.get(2).map(|b| unhex(b)))).collect()
            });
            overflow::watch();
            let h = std::thread::Builder::new().stack_size(1 << 29).spawn(move || search(mode, &grammar, &dict, &anchors, &focus, plants, seed, end)).unwrap();
            loop {
                std::thread::sleep(Duration::from_millis(100));
                if h.is_finished() {
                    match h.join() {
                        Ok(s) => println!("{}", s),
                        Err(_) => println!("{{\"evaluations\": 0, \"distinct\": 0, \"found\": [], \"note\": \"search failed\"}}"),
                    }
                    return;
                }
                let over = OVER.load(Ordering::SeqCst);
                if over || Instant::now() > end + Duration::from_secs(15) {
                    // the parser did not come back
                    let n = NOW.lock().unwrap().clone();
                    let d = DONE.lock().unwrap().clone();
                    let mut found = String::new();
                    if let Some((r, t, since)) = n {
                        if (over || since.elapsed() > Duration::from_secs(12)) && t.len() < if over { 400 } else { 120 } {
                            let got = if over { "no answer: the stack of 512 MB is used up" } else { "no answer within 12 s" };
                            found = Found { rule: r, text: t, base: None, got: got.into(), want: "an answer".into(), before: vec![] }.json();
                        }
                    }
                    println!("{}", d.unwrap_or("{\"evaluations\": 0, \"distinct\": 0, \"found\": [@], \"note\": \"stopped\"}".into()).replace("[@]", &format!("[{}]", found)));
                    std::process::exit(0);
                }
            }
        }
        _ => panic!(),
    }
}

type Plant = (String, String, Option<String>);
const MARK: &str = "\u{1}mark\u{1}";

fn search(mode: Mode, grammar: &str, dict: &str, anchors: &[String], focus: &[String], plants: Vec<Plant>, seed: u64, end: Instant) -> String {
    let g = dsl::parse(grammar);
    let mut gen = Gen::new(&g, seed, dict, focus);
    let start = Instant::now();
    let total = end - start;
    let mut n = 0u64;
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut per: BTreeMap<String, u64> = BTreeMap::new();
    let mut found: Vec<Found> = vec![];
    let mut local: Vec<(String, String)> = vec![]; // rule below an anchor, text
    let mut local_per: BTreeMap<String, usize> = BTreeMap::new();
    let anchors: Vec<&'static Entry> = anchors.iter().filter_map(|a| entry(a)).filter(|e| mode as u8 >= Mode::Panic as u8 && (mode as u8) <= Mode::More as u8 || e.oracle.is_some()).collect();
    let aset: BTreeSet<&str> = anchors.iter().map(|e| e.name).collect();
    let reach = plants.iter().any(|(r, _, _)| anchors.iter().any(|a| gen.reaches(a.name, r)));
    local.extend(plants.iter().filter(|p| p.2.is_none()).map(|(r, t, _)| (r.clone(), t.clone())));
    let pairs: Vec<Plant> = plants.into_iter().filter(|p| p.2.is_some()).collect();
    let foci: Vec<&'static Entry> = focus.iter().filter_map(|a| entry(a)).collect();
    if anchors.is_empty() {
        return "{\"evaluations\": 0, \"distinct\": 0, \"found\": [], \"note\": \"no anchor\"}".into();
    }
    let mut k = 0usize;
    let mut sweeping = Duration::ZERO;
    let mut texts: Vec<String> = vec![];
    'outer: while Instant::now() < end && found.is_empty() {
        k += 1;
        let frac = start.elapsed().as_secs_f64() / total.as_secs_f64();
        texts.clear();
        // 1. at the functions whose obligation failed
        if !foci.is_empty() && frac < 0.35 && k % 2 == 0 {
            let e = foci[(k / 2) % foci.len()];
            if local_per.get(e.name).copied().unwrap_or(0) < 40 {
                let t = gen.text(e.name, None);
                for t in gen.variants(t, 3) {
                    n += 1;
                    if wrong(if mode as u8 >= Mode::Slots as u8 { Mode::Tree } else { mode }, e, &t).is_some() {
                        *local_per.entry(e.name.to_string()).or_default() += 1;
                        if aset.contains(e.name) && (mode as u8) < (Mode::Slots as u8) {
                            texts.push(t.clone());
                        } else {
                            local.push((e.name.to_string(), t));
                        }
                    }
                }
                for t in texts.drain(..) {
                    if let Some(w) = wrong(mode, e, &t) {
                        found.push(Found::at(mode, e, &t, w));
                        break 'outer;
                    }
                }
                continue;
            }
        }
        // 1b. every character there is, at one place of a short sentence of such a function
        if !foci.is_empty() && sweeping < start.elapsed().mul_f64(0.3) && local.len() < 40 {
            let e = foci[gen.below(foci.len())];
            let at = Instant::now();
            let mut cs: Vec<char> = vec![];
            for _ in 0..12 {
                cs = text_of(&gen.text(e.name, None)).chars().collect();
                if cs.len() <= 6 {
                    break;
                }
            }
            if cs.len() <= 12 {
                let k = gen.below(cs.len() + 1);
                let put = k == cs.len() || gen.below(2) == 0;
                let a: String = cs[..k].iter().collect();
                let b: String = cs[if put { k } else { k + 1 }..].iter().collect();
                for u in 0..=0x10ffffu32 {
                    if u % 8192 == 0 && Instant::now() > end {
                        break;
                    }
                    let c = match char::from_u32(u) {
                        Some(c) => c,
                        None => continue,
                    };
                    let t = format!("{}{}{}", a, c, b);
                    n += 1;
                    if let Some(w) = wrong(if mode as u8 >= Mode::Slots as u8 { Mode::Tree } else { mode }, e, &t) {
                        if aset.contains(e.name) && (mode as u8) < (Mode::Slots as u8) {
                            found.push(Found::at(mode, e, &t, w));
                            break 'outer;
                        }
                        local.push((e.name.to_string(), t));
                        break;
                    }
                }
            }
            sweeping += at.elapsed();
            continue;
        }
        let e = anchors[gen.below(anchors.len())];
        if !pairs.is_empty() && gen.below(2) == 0 {
            let (r, t, b) = pairs[gen.below(pairs.len())].clone();
            let p = gen.pieces(e.name, Some(&(r, Some(MARK.to_string()))));
            let put = |x: &str| -> Vec<Piece> { p.iter().map(|q| Piece { text: q.text.replace(MARK, x), kind: q.kind }).collect() };
            let (b, t) = (put(&b.unwrap()), put(&t));
            n += 2;
            if text_of(&b) != text_of(&t) && wrong(Mode::Tree, e, &text_of(&b)).is_none() && wrong(Mode::Tree, e, &text_of(&t)).is_some() {
                let first = (text_of(&b), text_of(&t));
                let (b, t) = shrink_pair(e, b, t);
                found.push(Found::pair(mode, e, (b, t), first));
                break 'outer;
            }
            continue;
        }
        // 2. in the sentences of an anchor, around what is known to be wrong, or through a function under suspicion
        let target: Option<(String, Option<String>)> = if !local.is_empty() && gen.below(2) == 0 {
            let (r, t) = local[gen.below(local.len())].clone();
            Some((r, Some(t)))
        } else if !foci.is_empty() && gen.below(3) > 0 {
            Some((foci[gen.below(foci.len())].name.to_string(), None))
        } else if !focus.is_empty() && gen.below(2) == 0 {
            Some((focus[gen.below(focus.len())].clone(), None))
        } else {
            None
        };
        let pieces = gen.pieces(e.name, target.as_ref());
        let base = text_of(&pieces);
        *per.entry(e.name.to_string()).or_default() += 1;
        if samples.len() < 6 && (base.len() > 12 || n > 1000) && !samples.contains(&base) {
            samples.push(base.clone());
        }
        match mode {
            Mode::Slots | Mode::Case => {
                n += 1;
                seen.insert(hash(&base));
                if wrong(Mode::Tree, e, &base).is_some() {
                    continue;
                }
                for _ in 0..4 {
                    let (b, v) = if mode == Mode::Slots { gen.respace(&pieces) } else { gen.recase(&pieces) };
                    let t = text_of(&v);
                    n += 1;
                    seen.insert(hash(&t));
                    if let Some(_) = wrong(Mode::Tree, e, &t) {
                        // shrink the pair together
                        let first = (text_of(&b), text_of(&v));
                        let (b, t) = shrink_pair(e, b, v);
                        found.push(Found::pair(mode, e, (b, t), first));
                        break 'outer;
                    }
                }
            }
            _ => {
                for t in gen.variants(pieces, 2) {
                    n += 1;
                    seen.insert(hash(&t));
                    if let Some(w) = wrong(mode, e, &t) {
                        found.push(Found::at(mode, e, &t, w));
                        break 'outer;
                    }
                }
            }
        }
        if n % 1024 < 4 {
            *DONE.lock().unwrap() = Some(format!("{{\"evaluations\": {}, \"distinct\": {}, \"found\": [@]}}", n, seen.len()));
        }
    }
    format!(
        "{{\"evaluations\": {}, \"distinct\": {}, \"reach\": {}, \"found\": [{}], \"local\": [{}], \"per\": {{{}}}, \"samples\": [{}]}}",
        n,
        seen.len(),
        reach,
        found.iter().map(|f| f.json()).collect::<Vec<_>>().join(", "),
        local.iter().take(5).map(|(r, t)| format!("[{}, {}]", js(r), js(t))).collect::<Vec<_>>().join(", "),
        per.iter().map(|(r, c)| format!("{}: {}", js(r), c)).collect::<Vec<_>>().join(", "),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")
    )
}
fn shrink_pair(e: &Entry, mut a: Vec<Piece>, mut b: Vec<Piece>) -> (String, String) {
    let end = Instant::now() + Duration::from_secs(4);
    let bad = |a: &[Piece], b: &[Piece]| wrong(Mode::Tree, e, &text_of(a)).is_none() && wrong(Mode::Tree, e, &text_of(b)).is_some();
    for k in 0..a.len() {
        if Instant::now() > end {
            break;
        }
        let keep = b[k].text.clone();
        if keep != a[k].text {
            b[k].text = a[k].text.clone();
            if !bad(&a, &b) {
                b[k].text = keep;
            }
        }
    }
    let mut k = 0;
    while k < a.len() && Instant::now() < end {
        let (x, y) = (a.remove(k), b.remove(k));
        if !bad(&a, &b) {
            a.insert(k, x);
            b.insert(k, y);
            k += 1;
        }
    }
    (text_of(&a), text_of(&b))
}
fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
