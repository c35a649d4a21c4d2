//! C01..C07: observable behaviour of the tokenizer crate against reference semantics.
use crate::re::*;
use crate::util::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use tokenizer::{CharRange, DFATokenizer, Tokenize};

type Item = (usize, char);
type Call = (usize, String, Vec<Item>);
type Tok = DFATokenizer<usize, Item>;

// ---------------------------------------------------------------- generators

fn gen_class(r: &mut Rng) -> String {
    let l = [
        "[ab]", "[a-c]", "[b-d]", "[a-d]", "[^a]", "[^ab]", "[c-e]", "[a-b]", "[b-e]", "[a-bd-e]", "[ac]", "[^b-d]", "[a&&b]", "[a-e&&[^c]]", ".", "\\d", "[0-9]", "[0-5]", "[3-9]", "(?s:.)", "(?i:a)", "(?i:[a-b])", "[à-ü]", "[\\x{D000}-\\x{F000}]", "[^\\n]", "\\s",
    ];
    if r.chance(1, 40) {
        return "\\w".into();
    }
    if r.chance(1, 12) {
        // a class of many ranges, or extreme characters
        if r.chance(1, 2) {
            let mut t = String::from("[");
            let mut c = 0x61 + r.below(3) as u32;
            for _ in 0..r.range(2, 9) {
                let e = c + r.below(3) as u32;
                t.push_str(&format!("\\x{{{:X}}}-\\x{{{:X}}}", c, e));
                c = e + 2 + r.below(3) as u32;
            }
            return t + "]";
        }
        return ["[\\x{0}-\\x{10FFFF}]", "\\x{10FFFF}", "[\\x{0}-a]", "[z-\\x{10FFFF}]", "\\x{0}", "[^\\x{0}-a]", "[\\x{D7FF}\\x{E000}]", "[\\x{7F}-\\x{80}]", "[\\x{FF}-\\x{100}]", "[\\x{FFFF}-\\x{10000}]"][r.below(10)].into();
    }
    if r.chance(1, 3) {
        let a = r.below(6) as u8;
        let b = a + r.below(5) as u8;
        return format!("[{}-{}]", (b'a' + a) as char, (b'a' + b) as char);
    }
    let n = if r.chance(3, 4) { 14 } else { l.len() };
    l[r.below(n)].into()
}

/// A pattern of the supported fragment without the empty expression.
pub fn gen_re(r: &mut Rng, depth: usize) -> String {
    if depth == 0 || r.chance(1, 6) {
        if r.chance(1, 10) {
            return [" ", "\\n", "\\t", "A", "Z", "0", "_", "\\.", "-", "日", "\\x{1F600}", "ß", "  ", "\\r\\n", "E"][r.below(15)].into();
        }
        return if r.chance(1, 3) { gen_class(r) } else { ["a", "b", "c", "d", "a", "b", "é", "\\+", "x"][r.below(9)].to_string() };
    }
    match r.below(10) {
        0..=2 => {
            let n = if depth == 1 && r.chance(1, 4) { r.range(4, 12) } else { r.range(2, 3) };
            (0..n).map(|_| { let s = gen_re(r, depth - 1); if s.contains('|') { format!("({})", s) } else { s } }).collect()
        }
        3 | 4 => {
            let n = if depth == 1 && r.chance(1, 4) { r.range(4, 12) } else { r.range(2, 3) };
            format!("({})", (0..n).map(|_| gen_re(r, depth - 1)).collect::<Vec<_>>().join("|"))
        }
        5 => format!("(?:{})", gen_re(r, depth - 1)),
        _ => {
            let inner = gen_re(r, depth - 1);
            let (n, m);
            if depth <= 2 && inner.len() < 12 && r.chance(1, 5) {
                // large counts
                n = r.range(3, if inner.len() < 4 { 40 } else { 12 });
                m = n + r.below(12);
            } else {
                n = r.below(3);
                m = n + r.below(3);
            }
            let op = match r.below(8) {
                0 => "?".into(),
                1 => "*".into(),
                2 => "+".into(),
                3 => format!("{{{}}}", if r.chance(1, 4) { 0 } else { n + 1 }),
                4 => format!("{{{},}}", n),
                5 | 6 => format!("{{{},{}}}", n, m),
                _ => "*?".into(),
            };
            format!("({}){}", inner, op)
        }
    }
}

/// Rough size of a pattern's automaton: character ranges, times the repetition counts.
fn cost(h: &regex_syntax::hir::Hir) -> usize {
    use regex_syntax::hir::{Class, HirKind, RepetitionKind, RepetitionRange};
    match h.kind() {
        HirKind::Class(Class::Unicode(c)) => c.ranges().len(),
        HirKind::Group(g) => cost(&g.hir),
        HirKind::Repetition(r) => {
            cost(&r.hir)
                * match &r.kind {
                    RepetitionKind::Range(RepetitionRange::Bounded(_, m)) => (*m as usize).max(1),
                    RepetitionKind::Range(RepetitionRange::AtLeast(m)) | RepetitionKind::Range(RepetitionRange::Exactly(m)) => (*m as usize).max(1),
                    _ => 1,
                }
        }
        HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().map(cost).sum(),
        _ => 1,
    }
}
/// Largest repetition count, and the number of unbounded repetitions without a count.
fn counts(h: &regex_syntax::hir::Hir) -> (usize, usize) {
    use regex_syntax::hir::{HirKind, RepetitionKind, RepetitionRange};
    match h.kind() {
        HirKind::Group(g) => counts(&g.hir),
        HirKind::Repetition(r) => {
            let (a, b) = counts(&r.hir);
            match &r.kind {
                RepetitionKind::Range(RepetitionRange::Bounded(_, m)) => (a.max(*m as usize), b + (a > 5 && *m > 1) as usize),
                RepetitionKind::Range(RepetitionRange::Exactly(m)) => (a.max(*m as usize), b + (a > 5 && *m > 1) as usize),
                RepetitionKind::Range(RepetitionRange::AtLeast(m)) => (a.max(*m as usize), b + 1),
                RepetitionKind::ZeroOrOne => (a, b),
                _ => (a, b + 1),
            }
        }
        HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().map(counts).fold((0, 0), |x, y| (x.0.max(y.0), x.1 + y.1)),
        _ => (0, 0),
    }
}
/// Not larger than `limit`, and no large count next to a loop (the deterministic automaton of such a pattern is exponential).
fn cheap(p: &str, limit: usize) -> bool {
    regex_syntax::Parser::new().parse(p).map_or(true, |h| cost(&h) <= limit && { let (a, b) = counts(&h); a <= 5 || b == 0 || (p.ends_with(",}") && b == 1 && p.matches('{').count() == 1 && p.find(')').map_or(false, |k| p[k..].starts_with("){"))) })
}
pub fn gen_re_cheap(r: &mut Rng, depth: usize) -> String {
    loop {
        let s = gen_re(r, depth);
        if cheap(&s, 60) || (cheap(&s, 1000) && r.chance(1, 40) && s.len() < 12) {
            return s;
        }
    }
}

/// Many patterns at once: keywords, identifiers, numbers, with overlaps.
fn gen_many(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        let len = r.range(1, 4);
        v.push((0..len).map(|_| (b'a' + r.below(5) as u8) as char).collect());
    }
    for p in ["[a-e]+", "[a-c]*d", "0|[1-9][0-9]*", "a{1,3}b?"] {
        if r.chance(1, 2) {
            let k = r.below(v.len() + 1);
            v.insert(k, p.into());
        }
    }
    v
}

fn gen_patterns(r: &mut Rng, max: usize) -> Vec<String> {
    if r.chance(1, 25) {
        let n = r.range(6, 30);
        return gen_many(r, n);
    }
    let n = r.range(1, max);
    let r2 = &mut Rng::new(r.below(1 << 30) as u64, 1);
    let fixed = ["if", "[a-z]+", "[a-zA-Z_][a-zA-Z0-9_]*", "[0-9]+", "0x[0-9a-f]+", "=", "==", "[ab]*abb", "(p[a-c]|q[a-d])*", "a", "ab", "abc", "(a|b)*", "[^a]", "aa*", "0|1", "a{2,3}", ".|\\n", "//[^\\n]*", "[1-9][0-9]*|0"];
    (0..n).map(|_| if r.chance(1, 4) { r.pick(&fixed).to_string() } else { let d = r.range(0, 3); gen_re_cheap(r, d) }).map(|p| if r2.chance(1, 30) { [p.clone() + " ", format!(" {}", p), format!("\n{}", p), p + "\t"][r2.below(4)].clone() } else { p }).collect()
}

fn offending(r: &mut Rng) -> String {
    ["^", "$", "\\b", "\\B", "\\A", "\\z", "(?m:^)", "(?m:$)", "(?-u:\\b)", "(?-u:[a-z])", "(?-u:\\w)", "(?-u:\\d)", "(?-u:[ab])"][r.below(13)].into()
}
fn malformed(r: &mut Rng) -> String {
    ["(", "[a", "a{2,1}", "*", "a**{", "\\q", "(?P<a", "[z-a]", "a)", "(?-u:\\xFF)", "\\p{Nope}", "x{99999999999}", "(?i"][r.below(13)].into()
}
/// Places `bad` somewhere inside an otherwise supported pattern.
fn embed(r: &mut Rng, bad: &str, depth: usize) -> String {
    if depth == 0 {
        return bad.to_string();
    }
    let inner = embed(r, bad, depth - 1);
    match r.below(8) {
        0 => format!("a{}b", inner),
        1 => format!("({}|c)", inner),
        2 => format!("(c|{})", inner),
        3 => format!("({})*", inner),
        4 => format!("({}){{0}}", inner),
        5 => format!("({}){{2,3}}", inner),
        6 => format!("({})?", inner),
        _ => format!("(x({}))+y", inner),
    }
}

fn gen_raw(r: &mut Rng) -> Value {
    let n = r.range(1, 6);
    let mut goto = vec![];
    for _ in 0..n {
        let mut v = vec![];
        let mut at = 97 + r.below(2) as u32;
        while at < 104 && r.chance(5, 6) {
            let len = 1 + r.below(3) as u32;
            v.push(json!([at, at + len, r.below(n)]));
            at += len + r.below(3) as u32;
        }
        if r.chance(1, 8) {
            v.push(json!([0x400, 0x500, r.below(n)]));
        }
        goto.push(v);
    }
    let pats = r.range(1, 4);
    let mut end = vec![];
    for s in 0..n {
        if r.chance(2, 5) {
            end.push(json!([s, r.below(pats)]));
        }
    }
    let begin = r.below(n);
    let len = if r.chance(1, 60) { r.range(250, 1500) } else { r.below(14) };
    let input: String = (0..len).map(|_| if r.chance(1, 20) { 'Ѐ' } else { (97 + r.below(7) as u8) as char }).collect();
    json!({"kind": "raw", "goto": goto, "begin": begin, "end": end, "pats": pats, "input": input})
}

fn gen_input(r: &mut Rng, pats: &[String]) -> String {
    let mut re = Re::new();
    let mut ids = vec![];
    let mut b = vec![];
    for p in pats {
        if let Ok(h) = regex_syntax::Parser::new().parse(p) {
            if let Ok(i) = re.from_hir(&h) {
                ids.push(i);
            }
            bounds(&h, &mut b);
        }
    }
    if b.len() > 120 {
        b.truncate(120);
    }
    let reps = representatives(b);
    let mut s = String::new();
    let len = if r.chance(1, 30) { r.range(20, 300) } else { r.below(13) };
    let mut cur = ids.clone();
    for _ in 0..len {
        let live: Vec<char> = reps.iter().copied().filter(|&c| cur.iter().any(|&i| re.der(i, c as u32) != NEVER)).collect();
        let c = if !live.is_empty() && r.chance(9, 10) { *r.pick(&live) } else { *r.pick(&reps) };
        s.push(c);
        cur = cur.iter().map(|&i| re.der(i, c as u32)).collect();
        if cur.iter().all(|&i| i == NEVER) || r.chance(1, 8) {
            cur = ids.clone();
        }
    }
    s
}

/// A few large cases: beyond 256 patterns, states or characters of read-ahead, tokens beyond 65536 characters.
fn mega(prop: &str, k: u64, r: &mut Rng) -> Option<Value> {
    let rep = |s: &str, n: usize| s.repeat(n);
    let many: Vec<String> = (0..280).map(|i| format!("k{}", i)).collect();
    Some(match (prop, k) {
        ("C01" | "C02" | "C03", 0) => json!({"kind": "pat", "patterns": many, "input": "k279k3k27k256k257k255k0"}),
        ("C01" | "C02" | "C03", 1) => json!({"kind": "pat", "patterns": ["a+", "a+b"], "input": rep("a", 70_000) + "ba"}),
        ("C01" | "C02" | "C03", 2) => json!({"kind": "pat", "patterns": ["a", "a+b"], "input": rep("a", 600)}),
        ("C01" | "C02" | "C03", 3) => json!({"kind": "pat", "patterns": ["a{280}b", "a", "a{270}"], "input": rep("a", 279) + "b" + &rep("a", 280) + "b" + &rep("a", 275)}),
        ("C01" | "C02" | "C03", 4) => json!({"kind": "pat", "patterns": ["x[a-z]*", "y", "[a-z]+z"], "input": rep("xyyx", 200)}),
        ("C01" | "C02" | "C03", 5) => {
            let mut p = many;
            p.push("k[0-9]+".into());
            p.push("k[0-9]*".into());
            json!({"kind": "pat", "patterns": p, "input": "kk5k279k280k999k256"})
        }
        ("C04", 0) => json!({"kind": "pat", "patterns": ["a{300}"], "repeat": 1}),
        ("C04", 1) => json!({"kind": "pat", "patterns": ["a{257,}"], "repeat": 1}),
        ("C04", 2) => json!({"kind": "pat", "patterns": ["a{250,260}b"], "repeat": 1}),
        ("C04", 3) => json!({"kind": "pat", "patterns": ["[ab]{0,260}"], "repeat": 1}),
        ("C04", 4) => json!({"kind": "pat", "patterns": [(0..280).map(|i| format!("k{}", i)).collect::<Vec<_>>().join("|")], "repeat": 1}),
        ("C04", 5) => json!({"kind": "pat", "patterns": [rep("ab", 150)], "repeat": 1}),
        ("C04", 6) => json!({"kind": "pat", "patterns": [(0..300).map(|i| format!("\\x{{{:X}}}", 0x400 + 2 * i)).collect::<Vec<_>>().join("|")], "repeat": 1}),
        ("C04", 7) => json!({"kind": "pat", "patterns": ["(ab?){66}"], "repeat": 1}),
        ("C04", 8) => json!({"kind": "pat", "patterns": ["((a|b)c){20,33}"], "repeat": 1}),
        ("C04", 9) => json!({"kind": "pat", "patterns": ["(a{17}){16}"], "repeat": 1}),
        ("C05", 0 | 1) => json!({"kind": "pat", "patterns": many, "repeat": 2}),
        ("C05", 2) => json!({"kind": "pat", "patterns": ["a{300}b", "a{10,20}"], "repeat": 2}),
        ("C05", 3) => json!({"kind": "pat", "patterns": gen_many(r, 100), "repeat": 2}),
        ("C05", 4) => json!({"kind": "pat", "patterns": (0..40).map(|i| format!("[\\x{{{:X}}}-\\x{{{:X}}}]+", 0x61 + i, 0x61 + 2 * i)).collect::<Vec<_>>(), "repeat": 2}),
        ("C06", 0) => {
            let mut p = many;
            p.push("k27[0-9]".into());
            json!({"kind": "pat", "patterns": p})
        }
        ("C06", 1) => json!({"kind": "pat", "patterns": many}),
        ("C06", 2) => {
            let mut p = many;
            p.insert(0, "k279".into());
            json!({"kind": "pat", "patterns": p})
        }
        ("C06", 3 | 4) => json!({"kind": "pat", "patterns": gen_many(r, 60)}),
        ("C07", 0) => {
            let mut p = many;
            p.push("a$".into());
            json!({"kind": "pat", "patterns": p})
        }
        ("C07", 1) => json!({"kind": "pat", "patterns": [format!("{}^{}", rep("(a", 60), rep(")", 60))]}),
        ("C07", 2) => json!({"kind": "pat", "patterns": [format!("{}a{}", rep("(b", 60), rep(")?", 60))]}),
        ("C07", 3) => json!({"kind": "pat", "patterns": [rep("a", 400) + "\\b"]}),
        ("C07", 4) => json!({"kind": "pat", "patterns": [(0..300).map(|i| format!("k{}", i)).collect::<Vec<_>>().join("|") + "|x$"]}),
        _ => return None,
    })
}

pub fn gen(prop: &str, seed: u64, i: u64, thorough: bool) -> Value {
    let r = &mut Rng::new(seed ^ (prop.as_bytes()[2] as u64) << 40, i);
    let rep = if thorough { 60 } else { 12 };
    if (60..72).contains(&i) {
        if let Some(v) = mega(prop, i - 60, r) {
            return v;
        }
    }
    match prop {
        "C01" | "C02" | "C03" => {
            if r.chance(1, 2) {
                gen_raw(r)
            } else {
                let m = if prop == "C03" { 5 } else { 4 };
                let mut p = gen_patterns(r, m);
                if prop == "C03" && r.chance(1, 3) {
                    let k = r.below(p.len());
                    let x = p[k].clone();
                    p.push(x);
                }
                let input = gen_input(r, &p);
                json!({"kind": "pat", "patterns": p, "input": input})
            }
        }
        "C04" => {
            let d = r.range(1, 4);
            let p = if i < WATCH.len() as u64 { WATCH[i as usize].to_string() } else { gen_re_cheap(r, d) };
            json!({"kind": "pat", "patterns": [p], "repeat": 1})
        }
        "C05" => {
            if i < 8 {
                let l: [&[&str]; 8] = [&["(p[a-c]|q[a-d])*"], &["x[a-c]y|z[a-d]y"], &["[a-c]|b[c-e]", "[b-d]+"], &["(a|b)*abb"], &["[a-z]+", "if"], &["(p[a-c]|q[a-d]|r[a-e])*", "s"], &["a[b-c]*|d[b-f]*"], &["((a[0-3])|(b[0-5])|(c[0-7]))+"]];
                return json!({"kind": "pat", "patterns": l[i as usize], "repeat": if thorough {6000} else {1500}});
            }
            let p = gen_patterns(r, 4);
            json!({"kind": "pat", "patterns": p, "repeat": if r.chance(1, 6) { rep } else { 2 }})
        }
        "C06" => json!({"kind": "pat", "patterns": gen_patterns(r, 5)}),
        _ => {
            // C07
            if r.chance(1, 3) {
                let m = 4;
                json!({"kind": "pat", "patterns": gen_patterns(r, m)})
            } else {
                let mut p = gen_patterns(r, 3);
                let d = r.below(4);
                let bad = if r.chance(2, 3) { offending(r) } else { malformed(r) };
                let k = r.below(p.len() + 1);
                let e = embed(r, &bad, d);
                p.insert(k, e);
                json!({"kind": "pat", "patterns": p})
            }
        }
    }
}

/// Nestings that once were built wrongly (kept as fixed cases next to the generated ones).
const WATCH: &[&str] = &["(a*b)?c", "(a*b)*c", "(ab*)?c", "(ab*){0,2}c", "(a*b){1,}c", "(a*b*)?c", "((ab*)*c)?d", "(a*b){0,1}c", "(a+b?){2,}c", "(ab*){2,3}c", "(a|b*)?c", "((a*b)?c)*d", "(a*){2,3}b", "(ab*){1,2}c", "(a*b){2}c", "(b*a)+c", "(a?b?)*c", "((a*b){0,2}c){0,2}d"];

// ---------------------------------------------------------------- running the real code

fn strs(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}

fn build(p: &[String], log: &Rc<RefCell<Vec<Call>>>) -> Result<Result<(Tok, Vec<(usize, usize)>), String>, String> {
    no_panic(|| {
        let mut b = DFATokenizer::<usize, Item>::builder();
        for (i, x) in p.iter().enumerate() {
            let log = log.clone();
            b = b.pattern(x, move |s: &str, items: Vec<Item>| {
                log.borrow_mut().push((i, s.to_string(), items));
                i
            });
        }
        match b.build() {
            Ok((t, w)) => Ok((t, w.iter().map(|w| parse_warning(&format!("{:?}", w))).collect())),
            Err(e) => Err(format!("{:?}", e)),
        }
    })
}

fn parse_warning(s: &str) -> (usize, usize) {
    let n: Vec<usize> = s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
    if n.len() >= 2 {
        (n[0], n[1])
    } else {
        (usize::MAX, usize::MAX)
    }
}

fn raw_tok(case: &Value, log: &Rc<RefCell<Vec<Call>>>) -> Tok {
    let goto = case["goto"].as_array().unwrap().iter().map(|m| m.as_array().unwrap().iter().map(|e| (CharRange { range: e[0].as_u64().unwrap() as u32..e[1].as_u64().unwrap() as u32 }, e[2].as_u64().unwrap() as usize)).collect::<BTreeMap<_, _>>()).collect();
    let end: HashMap<usize, usize> = case["end"].as_array().unwrap().iter().map(|e| (e[0].as_u64().unwrap() as usize, e[1].as_u64().unwrap() as usize)).collect();
    let enum_maker = (0..case["pats"].as_u64().unwrap() as usize)
        .map(|i| {
            let log = log.clone();
            Box::new(move |s: &str, items: Vec<Item>| {
                log.borrow_mut().push((i, s.to_string(), items));
                i
            }) as Box<dyn Fn(&str, Vec<Item>) -> usize>
        })
        .collect();
    DFATokenizer { goto, begin: case["begin"].as_u64().unwrap() as usize, end, enum_maker }
}

/// Tokenizes with the real iterator; stops at the first None or after `cap` tokens. The flag tells whether None was seen.
fn run(tok: &Tok, input: &[char], cap: usize, log: &Rc<RefCell<Vec<Call>>>, owned_style: usize) -> Result<(Vec<(usize, Call)>, bool), String> {
    log.borrow_mut().clear();
    let items: Vec<Item> = input.iter().copied().enumerate().collect();
    let mut out = vec![];
    let mut ended = false;
    let step = |n: Option<usize>, out: &mut Vec<(usize, Call)>, ended: &mut bool| -> Result<bool, String> {
        match n {
            None => {
                *ended = true;
                Ok(false)
            }
            Some(v) => {
                let mut l = log.borrow_mut();
                if l.len() != out.len() + 1 {
                    return Err(format!("{} constructor calls for {} tokens", l.len(), out.len() + 1));
                }
                let c = l.last_mut().unwrap().clone();
                out.push((v, c));
                Ok(out.len() < cap)
            }
        }
    };
    no_panic(|| -> Result<(), String> {
        if owned_style == 0 {
            let mut it = items.clone().into_iter().tokenize_with(tok, |x: &Item| x.1);
            while step(it.next(), &mut out, &mut ended)? {}
        } else {
            let mut src = items.clone().into_iter();
            let mut it = std::iter::from_fn(move || src.next()).fuse().tokenize_with(tok, |x: &Item| x.1);
            while step(it.next(), &mut out, &mut ended)? {}
        }
        Ok(())
    })??;
    Ok((out, ended))
}

// ---------------------------------------------------------------- reference: longest match

struct Expect<'a>(Box<dyn FnMut(&[char]) -> Option<(usize, usize)> + 'a>);

/// Longest prefix in some language, and the first pattern matching it.
fn expect_pat(re: &mut Re, ids: &[Id], s: &[char]) -> Option<(usize, usize)> {
    let mut cur = ids.to_vec();
    let mut best = cur.iter().position(|&i| re.nullable(i)).map(|p| (0, p));
    for (k, &c) in s.iter().enumerate() {
        cur = cur.iter().map(|&i| re.der(i, c as u32)).collect();
        if cur.iter().all(|&i| i == NEVER) {
            break;
        }
        if let Some(p) = cur.iter().position(|&i| re.nullable(i)) {
            best = Some((k + 1, p));
        }
    }
    best
}

fn expect_raw(goto: &[Vec<(u32, u32, usize)>], begin: usize, end: &HashMap<usize, usize>, s: &[char]) -> Option<(usize, usize)> {
    let mut node = begin;
    let mut best = end.get(&node).map(|p| (0, *p));
    for (k, &c) in s.iter().enumerate() {
        match goto[node].iter().find(|e| e.0 <= c as u32 && (c as u32) < e.1) {
            Some(e) => node = e.2,
            None => break,
        }
        if let Some(p) = end.get(&node) {
            best = Some((k + 1, *p));
        }
    }
    best
}

pub fn parse_all(pats: &[String]) -> Result<Vec<regex_syntax::hir::Hir>, ()> {
    pats.iter().map(|p| regex_syntax::Parser::new().parse(p).map_err(|_| ())).collect()
}

/// Reference languages of a pattern list, or why the list is outside the supported fragment.
pub fn languages(re: &mut Re, pats: &[String]) -> Result<(Vec<Id>, Vec<char>), Unsup> {
    let hs = parse_all(pats).map_err(|_| Unsup::Bad)?;
    let mut b = vec![];
    let mut ids = vec![];
    let mut err = None;
    for h in &hs {
        bounds(h, &mut b);
        match re.from_hir(h) {
            Ok(i) => ids.push(i),
            Err(e) => {
                if err != Some(Unsup::Bad) {
                    err = Some(e)
                }
            }
        }
    }
    match err {
        Some(e) => Err(e),
        None => Ok((ids, b.into_iter().map(|x| char::from_u32(x).unwrap_or('\u{10ffff}')).collect())),
    }
}

// ---------------------------------------------------------------- checks

pub fn check(prop: &str, case: &Value) -> CaseResult {
    match prop {
        "C01" | "C02" | "C03" => check_iter(prop, case),
        "C04" | "C05" => check_equiv(prop, case),
        "C06" => check_overlap(case),
        _ => check_refusal(case),
    }
}

fn check_iter(prop: &str, case: &Value) -> CaseResult {
    let log = Rc::new(RefCell::new(vec![]));
    let input: Vec<char> = case["input"].as_str().unwrap().chars().collect();
    let mut re = Re::new();
    let tok;
    let mut expect = if case["kind"] == "raw" {
        tok = raw_tok(case, &log);
        let goto: Vec<Vec<(u32, u32, usize)>> = tok.goto.iter().map(|m| m.iter().map(|(k, v)| (k.range.start, k.range.end, *v)).collect()).collect();
        let (begin, end) = (tok.begin, tok.end.clone());
        Expect(Box::new(move |s: &[char]| expect_raw(&goto, begin, &end, s)))
    } else {
        let p = strs(&case["patterns"]);
        let ids = match languages(&mut re, &p) {
            Ok((i, _)) => i,
            Err(_) => return Ok(None),
        };
        tok = match build(&p, &log)? {
            Ok(t) => t.0,
            Err(e) => return Err(format!("build failed: {}", e)),
        };
        let re = &mut re;
        Expect(Box::new(move |s: &[char]| expect_pat(re, &ids, s)))
    };
    let mut n = 0;
    for style in 0..2 {
        let cap = input.len() + 4;
        let (calls, ended) = run(&tok, &input, cap, &log, style)?;
        let mut at = 0;
        for (k, (v, (ctor, text, items))) in calls.iter().enumerate() {
            n += 1;
            let t: Vec<char> = text.chars().collect();
            if prop == "C01" {
                let want: Vec<Item> = (at..(at + t.len()).min(input.len())).map(|i| (i, input[i])).collect();
                if at + t.len() > input.len() || t != input[at..at + t.len()] {
                    return Err(format!("token {}: text {:?} is not the input at {}", k, text, at));
                }
                if *items != want {
                    return Err(format!("token {}: items {:?}, expected {:?}", k, items, want));
                }
                if v != ctor {
                    return Err(format!("token {}: value yielded ({}) is not the one the constructor built ({})", k, v, ctor));
                }
            } else {
                let e = (expect.0)(&input[at.min(input.len())..]);
                match e {
                    None => return Err(format!("token {} ({:?}) at {} although no pattern matches any prefix there", k, text, at)),
                    Some((len, pat)) => {
                        if prop == "C02" && (t.len() != len || at + len > input.len() || t != input[at..at + len]) {
                            return Err(format!("token {} at {}: text {:?}, longest match has {} characters", k, at, text, len));
                        }
                        if prop == "C03" {
                            // judged on the token's own text: the first pattern that matches it
                            let own = if case["kind"] == "raw" { if len == t.len() { Some(pat) } else { None } } else { if len == t.len() { Some(pat) } else { None } };
                            if let Some(p) = own {
                                if *ctor != p || *v != p {
                                    return Err(format!("token {} {:?}: built by pattern {}, first matching pattern is {}", k, text, ctor, p));
                                }
                            } else {
                                return Err(format!("token {} {:?} at {}: pattern {} built a token whose text is not what pattern {} matches there ({} characters)", k, text, at, ctor, pat, len));
                            }
                        }
                    }
                }
            }
            at += t.len();
        }
        if ended && prop == "C02" {
            if let Some((len, pat)) = (expect.0)(&input[at.min(input.len())..]) {
                return Err(format!("tokenizing ended at {} although pattern {} matches {} characters", at, pat, len));
            }
            n += 1;
        }
        if !ended && calls.len() < cap {
            return Err("internal: run stopped early".into());
        }
    }
    Ok(Some(n))
}

/// Exact comparison of the built table with the reference languages, over all strings (product of the two automata).
/// label=false: only acceptance; label=true: also the pattern index.
fn equiv(tok: &Tok, re: &mut Re, ids: &[Id], extra: &[char], label: bool) -> Result<Option<u64>, String> {
    let mut b: Vec<u32> = extra.iter().map(|c| *c as u32).collect();
    for m in &tok.goto {
        for k in m.keys() {
            b.push(k.range.start);
            b.push(k.range.end);
        }
    }
    let reps = representatives(b);
    let mut seen: HashSet<(Option<usize>, Vec<Id>)> = HashSet::new();
    let mut q: VecDeque<(Option<usize>, Vec<Id>, String)> = VecDeque::new();
    q.push_back((Some(tok.begin), ids.to_vec(), String::new()));
    seen.insert((Some(tok.begin), ids.to_vec()));
    let mut steps = 0u64;
    while let Some((st, ds, path)) = q.pop_front() {
        steps += 1;
        if seen.len() > 3000 || re.size() > 100_000 || seen.len() * reps.len() > 2_000_000 {
            return Ok(None);
        }
        let got = st.and_then(|s| tok.end.get(&s).copied());
        let want = ds.iter().position(|&i| re.nullable(i));
        if got.is_some() != want.is_some() || (label && got != want) {
            return Err(format!("string {:?}: table says {:?}, the patterns say {:?}", path, got, want));
        }
        if st.is_none() && ds.iter().all(|&i| i == NEVER) {
            continue;
        }
        for &c in &reps {
            let cu = c as u32;
            let nst = st.and_then(|s| tok.goto[s].iter().find(|(k, _)| k.range.start <= cu && cu < k.range.end).map(|(_, v)| *v));
            let nds: Vec<Id> = ds.iter().map(|&i| re.der(i, cu)).collect();
            let key = (nst, nds);
            if !seen.contains(&key) {
                seen.insert(key.clone());
                let mut p = path.clone();
                p.push(c);
                q.push_back((key.0, key.1, p));
            }
        }
    }
    Ok(Some(steps))
}

fn check_equiv(prop: &str, case: &Value) -> CaseResult {
    let p = strs(&case["patterns"]);
    let mut re = Re::new();
    let (ids, extra) = match languages(&mut re, &p) {
        Ok(x) => x,
        Err(_) => return Ok(None),
    };
    let log = Rc::new(RefCell::new(vec![]));
    let repeat = case["repeat"].as_u64().unwrap_or(1);
    let mut total = 0;
    for k in 0..repeat {
        let tok = match build(&p, &log)? {
            Ok(t) => t.0,
            Err(e) => return Err(format!("build failed: {}", e)),
        };
        match equiv(&tok, &mut re, &ids, &extra, prop == "C05") {
            Ok(Some(n)) => total += n,
            Ok(None) => return Ok(None),
            Err(e) => return Err(format!("{} (build {} of {})", e, k + 1, repeat)),
        }
        // the real lookup on the same table, through the iterator
        if k == 0 {
            let mut r = Rng::new(7, p.iter().map(|x| x.len() as u64).sum());
            for _ in 0..4 {
                let s: Vec<char> = gen_input(&mut r, &p).chars().collect();
                let (calls, _) = run(&tok, &s, 1, &log, 0)?;
                let want = expect_pat(&mut re, &ids, &s).map(|(len, pat)| (pat, s[..len].iter().collect::<String>()));
                let got = calls.first().map(|c| (c.1 .0, c.1 .1.clone()));
                if got != want {
                    return Err(format!("input {:?}: first token {:?}, expected {:?}", s.iter().collect::<String>(), got, want));
                }
                total += 1;
            }
        }
    }
    Ok(Some(total))
}

/// All sets of patterns that match some common string (None: outside the bound).
fn overlaps(re: &mut Re, ids: &[Id], reps: &[char]) -> Option<BTreeSet<Vec<usize>>> {
    let mut seen: HashSet<Vec<Id>> = HashSet::new();
    let mut q = VecDeque::new();
    seen.insert(ids.to_vec());
    q.push_back(ids.to_vec());
    let mut out = BTreeSet::new();
    while let Some(ds) = q.pop_front() {
        if seen.len() > 2500 || re.size() > 100_000 || seen.len() * reps.len() > 1_500_000 {
            return None;
        }
        let acc: Vec<usize> = (0..ds.len()).filter(|&i| re.nullable(ds[i])).collect();
        if acc.len() > 1 {
            out.insert(acc);
        }
        if ds.iter().filter(|&&i| i != NEVER).count() < 2 {
            continue;
        }
        for &c in reps {
            let n: Vec<Id> = ds.iter().map(|&i| re.der(i, c as u32)).collect();
            if seen.insert(n.clone()) {
                q.push_back(n);
            }
        }
    }
    Some(out)
}

fn check_overlap(case: &Value) -> CaseResult {
    let p = strs(&case["patterns"]);
    let mut re = Re::new();
    let (ids, extra) = match languages(&mut re, &p) {
        Ok(x) => x,
        Err(_) => return Ok(None),
    };
    let reps = representatives(extra.iter().map(|c| *c as u32).collect());
    let sets = match overlaps(&mut re, &ids, &reps) {
        Some(s) => s,
        None => return Ok(None),
    };
    let log = Rc::new(RefCell::new(vec![]));
    let (_, w) = match build(&p, &log)? {
        Ok(t) => t,
        Err(e) => return Err(format!("build failed: {}", e)),
    };
    if w.is_empty() != sets.is_empty() {
        return Err(format!("warnings {:?}, but the sets of patterns with a common string are {:?}", w, sets));
    }
    for &(a, b) in &w {
        if a == b || a >= p.len() || b >= p.len() || !sets.iter().any(|s| s.contains(&a) && s.contains(&b)) {
            return Err(format!("warning ({}, {}) names patterns without a common string (overlaps: {:?})", a, b, sets));
        }
    }
    for s in &sets {
        for &loser in &s[1..] {
            if !w.iter().any(|&(a, b)| a == loser || b == loser) {
                return Err(format!("pattern {} loses a string to pattern {} but no warning names it ({:?})", loser, s[0], w));
            }
        }
    }
    Ok(Some(1 + w.len() as u64 + sets.len() as u64))
}

fn check_refusal(case: &Value) -> CaseResult {
    let p = strs(&case["patterns"]);
    let log = Rc::new(RefCell::new(vec![]));
    let mut re = Re::new();
    let l = languages(&mut re, &p);
    let got = build(&p, &log)?;
    match (l, got) {
        (Err(Unsup::Bad), Ok(_)) => Err("an unsupported or malformed pattern was accepted".into()),
        (Ok(_), Err(e)) | (Err(Unsup::Empty), Err(e)) => Err(format!("supported patterns were refused: {}", e)),
        (Err(Unsup::Big), _) => Ok(None),
        _ => Ok(Some(1)),
    }
}

/// The recorded finding of C04: the empty expression matches every string.
pub fn known_empty_expression() -> bool {
    let log = Rc::new(RefCell::new(vec![]));
    let s: Vec<char> = "zz".chars().collect();
    match build(&["()".to_string()], &log) {
        Ok(Ok((t, _))) => matches!(run(&t, &s, 1, &log, 0), Ok((c, _)) if c.first().map(|c| c.1 .1.as_str()) == Some("zz")),
        _ => false,
    }
}
