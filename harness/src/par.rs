//! C08..C13: observable behaviour of the parser crate against the reference in gram.rs.
use crate::gram::*;
use crate::util::*;
use parser::enum_index::EnumIndex;
use parser::{Action, LR1Parser, Parse, ParseError, Rule, Symbol, Syntax, TerminalSymbol};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet, VecDeque};
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub struct Tok {
    kind: usize,
    id: usize,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Node {
    kind: usize,
    id: usize,
}
impl EnumIndex for Tok {
    fn enum_index(&self) -> usize {
        self.kind
    }
}
impl EnumIndex for Node {
    fn enum_index(&self) -> usize {
        self.kind
    }
}
type P = LR1Parser<Node, Tok, usize>;
struct Log {
    calls: Vec<(usize, Vec<Arg>)>,
    fail_at: Option<usize>,
    bad: Option<String>,
}
type L = Rc<RefCell<Log>>;

fn reducer(rule: usize, lhs: usize, want: Vec<Sym>, log: L) -> impl Fn(&mut [Symbol<&mut Node, &Tok, &[Tok]>]) -> Result<Node, usize> {
    move |args| {
        let mut l = log.borrow_mut();
        if args.len() != want.len() {
            l.bad = Some(format!("rule {}: {} arguments for {} symbols", rule, args.len(), want.len()));
        }
        let mut v = vec![];
        for (k, a) in args.iter_mut().enumerate() {
            let w = want.get(k);
            v.push(match a {
                Symbol::NonTerminal(n) => {
                    if w != Some(&Sym::N(n.kind)) {
                        l.bad = Some(format!("rule {}: argument {} is non-terminal {} instead of {:?}", rule, k, n.kind, w));
                    }
                    Arg::N(n.id)
                }
                Symbol::Terminal(t) => {
                    if w != Some(&Sym::T(t.kind)) {
                        l.bad = Some(format!("rule {}: argument {} is token kind {} instead of {:?}", rule, k, t.kind, w));
                    }
                    Arg::T(t.id)
                }
                Symbol::Error(s) => {
                    if w != Some(&Sym::E) {
                        l.bad = Some(format!("rule {}: argument {} is an error slice instead of {:?}", rule, k, w));
                    }
                    if s.is_empty() {
                        Arg::E(0, 0)
                    } else {
                        if s.windows(2).any(|w| w[1].id != w[0].id + 1) {
                            l.bad = Some(format!("rule {}: error slice is not contiguous: {:?}", rule, s));
                        }
                        Arg::E(s[0].id, s[s.len() - 1].id + 1)
                    }
                }
            });
        }
        let id = l.calls.len();
        l.calls.push((rule, v));
        if l.fail_at == Some(id) {
            return Err(id);
        }
        Ok(Node { kind: lhs, id })
    }
}

fn mkrule(route: usize, i: usize, g: &Gram, log: &L) -> Rule<Node, Tok, usize> {
    let (lhs, rhs) = &g.rules[i];
    let f = reducer(i, g.rn(*lhs), rhs.iter().map(|s| match s { Sym::N(n) => Sym::N(g.rn(*n)), Sym::T(t) => Sym::T(g.rt(*t)), Sym::E => Sym::E }).collect(), log.clone());
    let lhs = &g.rn(*lhs);
    let rhs: Vec<Sym> = rhs.iter().map(|s| match s { Sym::N(n) => Sym::N(g.rn(*n)), Sym::T(t) => Sym::T(g.rt(*t)), Sym::E => Sym::E }).collect();
    let rhs = &rhs;
    match route {
        0 => Rule::new_raw(*lhs, &rhs.iter().map(|s| match s { Sym::N(n) => Symbol::NonTerminal(*n), Sym::T(t) => Symbol::Terminal(*t), Sym::E => Symbol::Error(()) }).collect::<Vec<_>>(), f),
        1 => Rule::new(Node { kind: *lhs, id: 0 }, &rhs.iter().map(|s| match s { Sym::N(n) => Symbol::NonTerminal(Node { kind: *n, id: 0 }), Sym::T(t) => Symbol::Terminal(Tok { kind: *t, id: 0 }), Sym::E => Symbol::Error(()) }).collect::<Vec<_>>(), f),
        _ => {
            let mut b = Rule::<Node, Tok, usize>::builder(Node { kind: *lhs, id: 0 });
            for s in rhs {
                b = match s {
                    Sym::N(n) => b.non_terminal(Node { kind: *n, id: 0 }),
                    Sym::T(t) => b.terminal(Tok { kind: *t, id: 0 }),
                    Sym::E => b.error(),
                };
            }
            b.build(f)
        }
    }
}

fn mksyntax(g: &Gram, log: &L, route: impl Fn(usize) -> usize, raw_start: bool) -> Syntax<Node, Tok, usize> {
    let mut b = Syntax::<Node, Tok, usize>::builder();
    for i in 0..g.rules.len() {
        b = b.rule(mkrule(route(i), i, g, log));
    }
    if raw_start {
        b.build_raw(g.rn(g.start))
    } else {
        b.build(Node { kind: g.rn(g.start), id: 0 })
    }
}

fn build(g: &Gram, log: &L) -> Result<(P, Vec<String>), String> {
    no_panic(|| {
        let (p, w) = LR1Parser::new(mksyntax(g, log, |_| 0, true));
        (p, w.iter().map(|x| format!("{:?}", x)).collect())
    })
}

fn run(g: &Gram, p: &P, w: &[usize], fail_at: Option<usize>, log: &L) -> Result<(Trace, Option<String>), String> {
    {
        let mut l = log.borrow_mut();
        l.calls.clear();
        l.fail_at = fail_at;
        l.bad = None;
    }
    let toks: Vec<Tok> = w.iter().enumerate().map(|(id, &kind)| Tok { kind: g.rt(kind), id }).collect();
    let r = no_panic(|| toks.parse(p)).map_err(|e| format!("parse of {:?}: {}", w, e))?;
    let l = log.borrow();
    let res = match r {
        Ok(n) => Res::Ok(n.id),
        Err(ParseError::RecoveryRuleNotFound) => Res::NotFound,
        Err(ParseError::ErrorInReducer(k)) => Res::Reducer(k),
    };
    Ok((Trace { calls: l.calls.clone(), res, errors: 0 }, l.bad.clone()))
}

fn newlog() -> L {
    Rc::new(RefCell::new(Log { calls: vec![], fail_at: None, bad: None }))
}

fn la_of(t: &TerminalSymbol<usize, ()>, g: &Gram) -> Option<usize> {
    let ts = g.ts;
    match t {
        TerminalSymbol::Symbol(x) => (0..ts).find(|&k| g.rt(k) == *x),
        TerminalSymbol::EOI => Some(ts),
        TerminalSymbol::Error(_) => Some(ts + 1),
    }
}

pub struct Mismatch {
    path: Vec<Sym>,
    la: Option<usize>,
    text: String,
    conflicted: bool,
}
/// Walks the built tables and the reference tables in lockstep.
fn bisim(p: &P, r: &RefP) -> Vec<Mismatch> {
    let ts = r.g.ts;
    let mut out = vec![];
    let mut seen = HashSet::new();
    let mut q: VecDeque<(usize, usize, Vec<Sym>)> = VecDeque::new();
    q.push_back((p.start, 0, vec![]));
    seen.insert((p.start, 0));
    while let Some((a, b, path)) = q.pop_front() {
        if out.len() > 20 {
            break;
        }
        let empty = HashMap::new();
        let real = p.action_table.get(&a).unwrap_or(&empty);
        let mut all: BTreeSet<usize> = r.act[b].keys().copied().collect();
        let mut got: HashMap<usize, Option<Action<usize, usize>>> = HashMap::new();
        for (k, v) in real {
            match la_of(k, &r.g) {
                Some(la) => {
                    all.insert(la);
                    got.insert(la, Some(v.clone()));
                }
                None => out.push(Mismatch { path: path.clone(), la: None, text: format!("action for unknown token {:?}", k), conflicted: false }),
            }
        }
        for la in all {
            let want = r.act[b].get(&la);
            let g = got.get(&la).cloned().flatten();
            let ok = match (&g, want) {
                (Some(Action::Shift(x)), Some(Act::Shift(y))) => {
                    if seen.insert((*x, *y)) {
                        let mut pt = path.clone();
                        pt.push(if la == ts + 1 { Sym::E } else { Sym::T(la) });
                        q.push_back((*x, *y, pt));
                    }
                    true
                }
                (Some(Action::Reduce(x)), Some(Act::Reduce(y))) => x == y,
                (Some(Action::Accept), Some(Act::Accept)) => true,
                (None, None) => true,
                _ => false,
            };
            if !ok {
                let conflicted = r.conflicts.iter().any(|c| c.state == b && c.la == la);
                out.push(Mismatch { path: path.clone(), la: Some(la), text: format!("after {:?} with lookahead {}: action {:?}, expected {:?}", path, la, g, want), conflicted });
            }
        }
        let eg = HashMap::new();
        let rg = p.goto_table.get(&a).unwrap_or(&eg);
        for (n, y) in &r.goto[b] {
            match rg.get(&r.g.rn(*n)) {
                Some(x) => {
                    if seen.insert((*x, *y)) {
                        let mut pt = path.clone();
                        pt.push(Sym::N(*n));
                        q.push_back((*x, *y, pt));
                    }
                }
                None => out.push(Mismatch { path: path.clone(), la: None, text: format!("no goto for non-terminal {} after {:?}", n, path), conflicted: false }),
            }
        }
    }
    out
}

/// Inputs that drive the parser to the place of a table mismatch.
fn guided(g: &Gram, m: &Mismatch, r: &mut Rng) -> Vec<Vec<usize>> {
    let mut pre = vec![];
    for s in &m.path {
        match g.shortest(*s) {
            Some(v) => pre.extend(v),
            None if *s == Sym::E => pre.push(g.ts),
            None => return vec![],
        }
    }
    let mut out = vec![pre.clone()];
    if let Some(la) = m.la {
        if la < g.ts {
            pre.push(la);
        }
    }
    out.push(pre.clone());
    for s in all_strings(g.ts, 3, 40) {
        let mut x = pre.clone();
        x.extend(s);
        out.push(x);
    }
    for _ in 0..60 {
        let mut x = pre.clone();
        for _ in 0..r.range(3, 8) {
            x.push(r.below(g.ts));
        }
        out.push(x);
    }
    out
}

fn inputs(g: &Gram, r: &mut Rng, unknown: bool, cap: usize) -> Vec<Vec<usize>> {
    let k = g.ts;
    let mut out = all_strings(k, 6, cap);
    for d in 0..24 {
        if let Some(s) = g.sample(r, d % 9, 26) {
            if d % 3 == 2 && !s.is_empty() {
                let mut m = s.clone();
                let i = r.below(m.len());
                match r.below(4) {
                    0 => {
                        m.remove(i);
                    }
                    1 => m.insert(i, r.below(k)),
                    2 => m[i] = r.below(k),
                    _ => m.truncate(i),
                }
                out.push(m);
            }
            out.push(s);
        }
    }
    for _ in 0..10 {
        let n = r.range(4, 12);
        out.push((0..n).map(|_| r.below(k)).collect());
    }
    // long inputs
    if r.chance(1, 12) {
        let long = [300, 700, 1500][r.below(3)];
        for _ in 0..2 {
            if let Some(s) = g.sample_long(r, long) {
                if r.chance(1, 2) && !s.is_empty() {
                    let mut m = s.clone();
                    let i = m.len() - 1 - r.below(m.len().min(20));
                    m[i] = r.below(k);
                    out.push(m);
                }
                out.push(s);
            }
        }
        let pat: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(k)).collect();
        out.push(pat.iter().copied().cycle().take(long).collect());
    }
    if unknown {
        for _ in 0..6 {
            let n = r.range(0, 6);
            let mut v: Vec<usize> = (0..n).map(|_| r.below(k)).collect();
            v.insert(r.below(n + 1), k + r.below(3));
            out.push(v);
        }
    }
    out
}

pub fn gen(prop: &str, seed: u64, i: u64, thorough: bool) -> Value {
    let r = &mut Rng::new(seed ^ (prop.as_bytes()[2] as u64) << 40 ^ (prop.as_bytes()[1] as u64) << 48, i);
    let cap = if thorough { 400 } else { 160 };
    let s = r.next() >> 12;
    let g = match prop {
        "C08" | "C09" => {
            if (i as usize) < PLAIN.len() {
                Gram::text(PLAIN[i as usize])
            } else if (i as usize) < PLAIN.len() + ERROR.len() {
                Gram::text(ERROR[i as usize - PLAIN.len()])
            } else {
                let errs = r.chance(1, 6);
                let shape = r.chance(1, 5);
                let mut g = if shape { gen_shape(r) } else { gen_gram(r, errs) };
                for _ in 0..60 {
                    if build_ref(&g).conflicts.is_empty() && g.sample(&mut Rng::new(1, 1), 0, 50).is_some() {
                        break;
                    }
                    g = if shape { gen_shape(r) } else { gen_gram(r, errs) };
                }
                g
            }
        }
        "C12" => {
            if (i as usize) < ERROR.len() {
                Gram::text(ERROR[i as usize])
            } else {
                let e = r.chance(5, 6);
                if r.chance(1, 8) {
                    let mut g = gen_shape(r);
                    if e {
                        let n = g.nts;
                        let (l, t) = (r.below(n), r.below(g.ts));
                        g.rules.push((l, if r.chance(1, 2) { vec![Sym::E, Sym::T(t)] } else { vec![Sym::E] }));
                    }
                    g
                } else {
                    gen_gram(r, e)
                }
            }
        }
        "C11" => {
            if (i as usize) < CONFLICT.len() {
                Gram::text(CONFLICT[i as usize])
            } else {
                let e = r.chance(1, 6);
                let mut g = gen_gram(r, e);
                for _ in 0..10 {
                    if !build_ref(&g).conflicts.is_empty() {
                        break;
                    }
                    g = gen_gram(r, e);
                }
                g
            }
        }
        _ => {
            let all: Vec<&str> = PLAIN.iter().chain(CONFLICT).chain(ERROR).copied().collect();
            if (i as usize) < all.len() {
                Gram::text(all[i as usize])
            } else {
                let e = r.chance(1, 4);
                if r.chance(1, 8) {
                    gen_shape(r)
                } else {
                    gen_gram(r, e)
                }
            }
        }
    };
    // a few very large cases: many rules and token kinds, inputs beyond 16-bit positions
    if (60..66).contains(&i) {
        let m = MEGA[(i - 60) as usize];
        let g = if m.is_empty() {
            let n = 280;
            let mut rules = vec![(0, vec![]), (0, vec![Sym::N(0), Sym::N(1)])];
            for k in 0..n {
                rules.push((1, if i == 60 { vec![Sym::T(k)] } else { vec![Sym::N(2), Sym::T(k)] }));
            }
            if i == 61 {
                rules.push((2, vec![]));
            }
            Gram { nts: 3 - (i == 60) as usize, ts: n, rules, start: 0, nmap: vec![], tmap: vec![] }
        } else {
            Gram::text(m)
        };
        return json!({"kind": "grammar", "grammar": g.json(), "seed": s, "cap": if m.is_empty() { 300 } else { 40 }, "mega": !m.is_empty()});
    }
    let mut g = g;
    if r.chance(1, 4) {
        g.remap(r);
    }
    json!({"kind": "grammar", "grammar": g.json(), "seed": s, "cap": cap})
}

const MEGA: [&str; 6] = ["", "", "L: L I |; I: a semi | error semi", "S: a S | b", "S: L; L: L comma I | I; I: x | open L close", "S: open B close | error; B: | B x"];

/// Inputs longer than 65536 tokens.
fn mega_inputs(g: &Gram, r: &mut Rng) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for _ in 0..2 {
        let want = 66_000 + r.below(2000);
        if let Some(s) = g.sample_long(r, want) {
            for cut in [300, 66_000] {
                if s.len() > cut {
                    let mut m = s.clone();
                    m.remove(cut);
                    out.push(m);
                    let mut m = s.clone();
                    m[cut] = r.below(g.ts);
                    out.push(m);
                }
            }
            out.push(s);
        }
    }
    for t in 0..g.ts {
        out.push(vec![t; 66_000]);
    }
    out
}

pub fn check(prop: &str, case: &Value) -> CaseResult {
    let g = Gram::parse(&case["grammar"]);
    let mut r = Rng::new(case["seed"].as_u64().unwrap(), 1);
    let cap = case["cap"].as_u64().unwrap() as usize;
    let rp = build_ref(&g);
    if rp.items.len() > 700 {
        return Ok(None);
    }
    if case["mega"] == true {
        return mega(prop, &g, &rp, &mut r);
    }
    match prop {
        "C08" => c08(&g, &rp, &mut r, cap),
        "C09" => c09(&g, &rp, &mut r, cap),
        "C10" => c10(&g, &rp),
        "C11" => c11(&g, &rp, &mut r, cap),
        "C12" => c12(&g, &rp, &mut r, cap),
        _ => c13(&g, &rp, &mut r, cap),
    }
}

/// Very long inputs: the calls and the result are those of the reference parser.
fn mega(prop: &str, g: &Gram, rp: &RefP, r: &mut Rng) -> CaseResult {
    let log = newlog();
    let (p, w) = build(g, &log)?;
    if prop == "C10" || !w.is_empty() {
        return Ok(None);
    }
    let mut n = 0;
    for s in mega_inputs(g, r) {
        let rt = drive(rp, &s, None, 400_000);
        let fine = rt.errors == 0 && matches!(rt.res, Res::Ok(_));
        if rt.res == Res::NoEnd || (!fine && (prop == "C09" || prop == "C11" || prop == "C13" || (prop == "C08" && g.has_error()))) {
            continue;
        }
        let (t, bad) = run(g, &p, &s, None, &log)?;
        let ok = matches!(t.res, Res::Ok(_));
        let err = match prop {
            "C08" => ok != fine,
            _ => bad.is_some() || t.calls != rt.calls || t.res != rt.res,
        };
        if err {
            let at = t.calls.iter().zip(&rt.calls).position(|(a, b)| a != b);
            return Err(format!("input of {} tokens: {:?}, expected {:?}; reducer calls differ from {:?} on {:?}", s.len(), t.res, rt.res, at, bad));
        }
        n += 1;
    }
    Ok(Some(n))
}

fn c08(g: &Gram, rp: &RefP, r: &mut Rng, cap: usize) -> CaseResult {
    let log = newlog();
    let (p, w) = build(g, &log)?;
    if !w.is_empty() {
        // the property speaks about silently built parsers only; whether silence is right is C10
        return Ok(None);
    }
    let mut ins = inputs(g, r, true, cap);
    for m in bisim(&p, rp).iter().take(4) {
        ins.extend(guided(g, m, r));
    }
    let mut n = 0;
    let err = g.has_error();
    for s in ins {
        // the substring table is cubic; for long inputs of a conflict-free grammar the reference parser decides
        let d = if s.len() > 60 {
            if !rp.conflicts.is_empty() {
                continue;
            }
            let t = drive(rp, &s, None, 200_000);
            t.errors == 0 && matches!(t.res, Res::Ok(_))
        } else {
            g.derives(&s)
        };
        if err && !d {
            continue;
        }
        if !err && rp.conflicts.is_empty() && drive(rp, &s, None, 200_000).res == Res::NoEnd {
            if !g.productive() {
                continue;
            }
            return Err(format!("reference does not terminate on {:?}", s));
        }
        let (t, _) = run(g, &p, &s, None, &log)?;
        let ok = matches!(t.res, Res::Ok(_));
        if ok != d {
            return Err(format!("input {:?}: parse gave {:?}, but the grammar {} it", s, t.res, if d { "derives" } else { "does not derive" }));
        }
        n += 1;
    }
    Ok(Some(n))
}

/// The calls of one error-free parse describe one derivation tree of the whole input, in post-order.
fn tree_check(g: &Gram, w: &[usize], t: &Trace) -> Result<(), String> {
    let root = match t.res {
        Res::Ok(r) => r,
        _ => return Ok(()),
    };
    if t.calls.is_empty() || root != t.calls.len() - 1 {
        return Err(format!("result is the value of call {}, the last of {} calls is the whole input", root, t.calls.len()));
    }
    // spans: (from, to), None for empty
    let mut stack: Vec<usize> = vec![]; // calls whose value is not yet used
    let mut span: Vec<(usize, usize)> = vec![];
    for (k, (rule, args)) in t.calls.iter().enumerate() {
        let nargs: Vec<usize> = args.iter().filter_map(|a| if let Arg::N(i) = a { Some(*i) } else { None }).collect();
        if nargs.len() > stack.len() || stack[stack.len() - nargs.len()..] != nargs[..] {
            return Err(format!("call {} (rule {}): values {:?} are not the latest unused ones {:?}", k, rule, nargs, stack));
        }
        stack.truncate(stack.len() - nargs.len());
        stack.push(k);
        // consecutive tokens
        let mut lo: Option<usize> = None;
        let mut at: Option<usize> = None;
        for a in args {
            let (x, y) = match a {
                Arg::T(i) => (*i, *i + 1),
                Arg::N(i) => {
                    if span[*i].0 == usize::MAX {
                        continue;
                    }
                    span[*i]
                }
                Arg::E(..) => return Err("error slice in an error-free parse".into()),
            };
            if let Some(e) = at {
                if e != x {
                    return Err(format!("call {} (rule {}): argument covers {}..{} but the previous one ends at {}", k, rule, x, y, e));
                }
            }
            lo = lo.or(Some(x));
            at = Some(y);
        }
        let sp = match (lo, at) {
            (Some(a), Some(b)) => (a, b),
            _ => (usize::MAX, usize::MAX),
        };
        span.push(sp);
        let want = &g.rules[*rule].1;
        for (a, s) in args.iter().zip(want) {
            let ok = match (a, s) {
                (Arg::T(i), Sym::T(x)) => w.get(*i) == Some(x),
                (Arg::N(i), Sym::N(n)) => g.rules[t.calls[*i].0].0 == *n,
                _ => false,
            };
            if !ok {
                return Err(format!("call {} (rule {}): argument {:?} does not fit {:?}", k, rule, a, s));
            }
        }
        if args.len() != want.len() {
            return Err(format!("call {} (rule {}): {} arguments for {} symbols", k, rule, args.len(), want.len()));
        }
    }
    if stack != [root] {
        return Err(format!("values {:?} were never used", stack));
    }
    let full = if w.is_empty() { (usize::MAX, usize::MAX) } else { (0, w.len()) };
    if span[root] != full {
        return Err(format!("the result covers tokens {:?} of {}", span[root], w.len()));
    }
    if g.rules[t.calls[root].0].0 != g.start {
        return Err("the result is not the start symbol".into());
    }
    Ok(())
}

fn c09(g: &Gram, rp: &RefP, r: &mut Rng, cap: usize) -> CaseResult {
    let log = newlog();
    let (p, w) = build(g, &log)?;
    if !w.is_empty() || !rp.conflicts.is_empty() {
        return Ok(None);
    }
    let mut ins = inputs(g, r, false, cap);
    for m in bisim(&p, rp).iter().take(4) {
        ins.extend(guided(g, m, r));
    }
    let mut n = 0;
    for s in ins {
        let rt = drive(rp, &s, None, 200_000);
        if rt.errors > 0 || !matches!(rt.res, Res::Ok(_)) {
            continue;
        }
        let (t, bad) = run(g, &p, &s, None, &log)?;
        if let Some(b) = bad {
            return Err(format!("input {:?}: {}", s, b));
        }
        if !matches!(t.res, Res::Ok(_)) {
            continue; // acceptance itself is C08
        }
        tree_check(g, &s, &t).map_err(|e| format!("input {:?}: {}", s, e))?;
        n += t.calls.len() as u64;
    }
    // partial parses: what the reducers saw before an error must be a prefix of a correct bottom-up parse
    if !g.has_error() {
        for s in inputs(g, r, true, 40) {
            let rt = drive(rp, &s, None, 200_000);
            if matches!(rt.res, Res::Ok(_)) {
                continue;
            }
            let (t, bad) = run(g, &p, &s, None, &log)?;
            if let Some(b) = bad {
                return Err(format!("input {:?}: {}", s, b));
            }
            if t.calls.len() <= rt.calls.len() && t.calls[..] != rt.calls[..t.calls.len()] {
                return Err(format!("input {:?}: reducer calls {:?}, expected a prefix of {:?}", s, t.calls, rt.calls));
            }
        }
    }
    Ok(Some(n))
}

fn nums(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect()
}
/// Items printed inside a warning's field.
fn items_of(s: &str, g: &Gram) -> Option<BTreeSet<Item>> {
    let ts = g.ts;
    let mut out = BTreeSet::new();
    for part in s.split("LR1Item {").skip(1) {
        let body = part.split('}').next()?;
        let f: Vec<&str> = body.split("lookahead_symbol:").collect();
        let h = nums(f[0]);
        let la = f.get(1)?.trim();
        let la = if la.starts_with("EOI") { ts } else if la.starts_with("Error") { ts + 1 } else { let x = *nums(la).first()?; (0..ts).find(|&k| g.rt(k) == x)? };
        out.insert((*h.first()?, *h.get(1)?, la));
    }
    Some(out)
}

fn c10(g: &Gram, rp: &RefP) -> CaseResult {
    let log = newlog();
    let mut n = 0;
    for _ in 0..2 {
        let (_, w) = build(g, &log)?;
        if w.is_empty() != rp.conflicts.is_empty() {
            return Err(match rp.conflicts.first() {
                Some(c) => format!("no warning, but state {:?} has for lookahead {} shift {:?}, reductions {:?}, accept {}", rp.items[c.state], c.la, c.shift.is_some(), c.reduces, c.accept),
                None => format!("{} warning(s) for an LR(1) grammar: {}", w.len(), w[0]),
            });
        }
        // (state, rules named), or None if a warning does not show its state
        let mut told: Option<Vec<(usize, Vec<usize>)>> = Some(vec![]);
        for x in &w {
            let st = x.split("state:").nth(1).and_then(|s| s.split("shift:").next()).and_then(|s| s.split("actions:").next());
            let st = match st.and_then(|s| items_of(s, g)) {
                Some(s) if !s.is_empty() => s,
                _ => {
                    told = None;
                    continue;
                }
            };
            let idx = match rp.items.iter().position(|i| *i == st) {
                Some(i) => i,
                None => return Err(format!("warning about a state that is not a state of the grammar: {}", x)),
            };
            let cs: Vec<&Conf> = rp.conflicts.iter().filter(|c| c.state == idx).collect();
            let good = if let Some(a) = x.split("actions:").nth(1) {
                let a = nums(a);
                if let Some(t) = told.as_mut() {
                    t.push((idx, a.clone()));
                }
                // a reduction of the start rule is the accept action
                let has = |c: &Conf, r: usize| c.reduces.contains(&r) || (r == rp.start_rule && c.accept);
                a.len() == 2 && a[0] != a[1] && cs.iter().any(|c| has(c, a[0]) && has(c, a[1]))
            } else {
                let red = x.rsplit("reduce:").next().map(nums).unwrap_or_default();
                if let Some(t) = told.as_mut() {
                    t.push((idx, red.iter().take(1).copied().collect()));
                }
                let sh = x.split("shift:").nth(1).and_then(|s| s.split("reduce:").next()).and_then(|s| items_of(s, g));
                !red.is_empty() && cs.iter().any(|c| c.reduces.contains(&red[0]) && c.shift.is_some() && sh.as_ref().map_or(true, |s| s.is_empty() || rp.items[c.shift.unwrap()] == *s))
            };
            if !good {
                return Err(format!("warning without a matching conflict: {} (conflicts in that state: {:?})", x, cs.iter().map(|c| (c.la, c.shift.is_some(), &c.reduces, c.accept)).collect::<Vec<_>>()));
            }
            n += 1;
        }
        // a reduction the table does not follow is named in a warning about its state
        for c in &rp.conflicts {
            let kept = if c.shift.is_some() || c.accept { None } else { c.reduces.iter().min().copied() };
            for &q in c.reduces.iter().filter(|q| Some(**q) != kept) {
                if let Some(t) = &told {
                    if !t.iter().any(|(s, a)| *s == c.state && a.contains(&q)) {
                        return Err(format!("state {} has for lookahead {} shift {:?}, reductions {:?}, accept {}, but no warning about it names the reduction of rule {}", c.state, c.la, c.shift.is_some(), c.reduces, c.accept, q));
                    }
                }
            }
        }
        n += 1;
    }
    Ok(Some(n))
}

fn c11(g: &Gram, rp: &RefP, r: &mut Rng, cap: usize) -> CaseResult {
    let log = newlog();
    let mut n = 0;
    for k in 0..3 {
        let (p, _) = build(g, &log)?;
        let ms = bisim(&p, rp);
        let mut ins = if k == 0 { inputs(g, r, false, cap) } else { vec![] };
        for m in ms.iter().take(4) {
            ins.extend(guided(g, m, r));
        }
        for s in ins {
            let rt = drive(rp, &s, None, 300 * s.len() + 10_000);
            if rt.res == Res::NoEnd {
                continue;
            }
            let (t, _) = run(g, &p, &s, None, &log)?;
            if rt.errors == 0 && (t.calls != rt.calls || t.res != rt.res) {
                return Err(format!("input {:?}: reducer calls {:?} -> {:?}, expected {:?} -> {:?}", s, t.calls, t.res, rt.calls, rt.res));
            }
            n += 1;
        }
        if let Some(m) = ms.iter().find(|m| m.conflicted) {
            return Err(m.text.clone());
        }
        n += 1;
    }
    Ok(Some(n))
}

fn c12(g: &Gram, rp: &RefP, r: &mut Rng, cap: usize) -> CaseResult {
    let log = newlog();
    let (p, _) = build(g, &log)?;
    let mut ins = inputs(g, r, true, cap);
    for m in bisim(&p, rp).iter().take(2) {
        ins.extend(guided(g, m, r));
    }
    let mut n = 0;
    for (k, s) in ins.into_iter().enumerate() {
        let rt = drive(rp, &s, None, 300 * s.len() + 10_000);
        if rt.res == Res::NoEnd {
            if rp.conflicts.is_empty() && g.productive() && s.len() <= 30 {
                return Err(format!("reference does not terminate on {:?}", s));
            }
            continue;
        }
        let (t, bad) = run(g, &p, &s, None, &log)?;
        if let Some(b) = bad {
            return Err(format!("input {:?}: {}", s, b));
        }
        if t.calls != rt.calls || t.res != rt.res {
            return Err(format!("input {:?}: reducer calls {:?} -> {:?}, expected {:?} -> {:?}", s, t.calls, t.res, rt.calls, rt.res));
        }
        n += 1;
        if k % 4 == 0 && !rt.calls.is_empty() {
            let f = r.below(rt.calls.len());
            let rf = drive(rp, &s, Some(f), 300 * s.len() + 10_000);
            let (t, _) = run(g, &p, &s, Some(f), &log)?;
            if t.calls != rf.calls || t.res != rf.res {
                return Err(format!("input {:?}, reducer call {} fails: calls {:?} -> {:?}, expected {:?} -> {:?}", s, f, t.calls, t.res, rf.calls, rf.res));
            }
            n += 1;
        }
    }
    Ok(Some(n))
}

fn c13(g: &Gram, rp: &RefP, r: &mut Rng, cap: usize) -> CaseResult {
    let log = newlog();
    let mut n = 0;
    // rule by rule
    for i in 0..g.rules.len() {
        let rs: Vec<Rule<Node, Tok, usize>> = (0..3).map(|k| mkrule(k, i, g, &log)).collect();
        for k in 1..3 {
            if rs[0] != rs[k] || format!("{:?}", rs[0]) != format!("{:?}", rs[k]) {
                return Err(format!("rule {}: route 0 gives {:?}, route {} gives {:?}", i, rs[0], k, rs[k]));
            }
        }
        for j in 0..i {
            let o = mkrule(1, j, g, &log);
            if (o == rs[2]) != (g.rules[i] == g.rules[j]) {
                return Err(format!("rules {} and {}: equality is wrong: {:?} / {:?}", i, j, o, rs[2]));
            }
        }
        n += 1;
    }
    // whole syntaxes: every route describes the grammar's own parser
    let salt = r.below(1000);
    let routes: [Box<dyn Fn(usize) -> usize>; 4] = [Box::new(|_| 0), Box::new(|_| 1), Box::new(|_| 2), Box::new(move |i| (i * 7 + salt) % 3)];
    for (k, rt) in routes.iter().enumerate() {
        let sy = mksyntax(g, &log, rt, k % 2 == 0);
        let rules = mksyntax(g, &log, rt, k % 2 == 0).into_rules();
        if rules.len() != g.rules.len() {
            return Err(format!("syntax holds {} rules, {} were added", rules.len(), g.rules.len()));
        }
        for (i, x) in rules.iter().enumerate() {
            if *x != mkrule(0, i, g, &log) {
                return Err(format!("rule {} of the syntax is {:?}", i, x));
            }
        }
        if sy != mksyntax(g, &log, |_| 0, true) {
            return Err(format!("syntax built with routes {} differs from the raw one", k));
        }
        let p: P = no_panic(|| LR1Parser::new(sy).0)?;
        let ms = bisim(&p, rp);
        let mut ins = if k == 3 { inputs(g, r, false, cap / 4) } else { all_strings(g.ts, 4, 30) };
        for m in ms.iter().take(3) {
            ins.extend(guided(g, m, r));
        }
        for s in ins {
            let rt = drive(rp, &s, None, 300 * s.len() + 10_000);
            if rt.res == Res::NoEnd || rt.errors > 0 {
                continue;
            }
            let (t, _) = run(g, &p, &s, None, &log)?;
            if t.calls != rt.calls || t.res != rt.res {
                return Err(format!("routes {}: input {:?}: reducer calls {:?} -> {:?}, expected {:?} -> {:?}", k, s, t.calls, t.res, rt.calls, rt.res));
            }
            n += 1;
        }
    }
    Ok(Some(n))
}
