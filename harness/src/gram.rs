//! Grammars, derivability, a textbook canonical LR(1) construction and a reference shift/reduce driver
//! (with the recovery rule stated in C12). Independent of the code in /repo.
use crate::util::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Sym {
    N(usize),
    T(usize),
    E,
}
#[derive(Clone, Debug)]
pub struct Gram {
    pub nts: usize,
    pub ts: usize,
    pub rules: Vec<(usize, Vec<Sym>)>,
    pub start: usize,
    /// Indices the real grammar uses for the non-terminals and terminals (empty: their own numbers).
    pub nmap: Vec<usize>,
    pub tmap: Vec<usize>,
}
impl Gram {
    pub fn rn(&self, n: usize) -> usize {
        self.nmap.get(n).copied().unwrap_or(n)
    }
    pub fn rt(&self, t: usize) -> usize {
        self.tmap.get(t).copied().unwrap_or_else(|| (t..).filter(|x| !self.tmap.contains(x)).nth(t - self.tmap.len()).unwrap())
    }
    /// Spreads the indices the real grammar uses.
    pub fn remap(&mut self, r: &mut Rng) {
        fn m(r: &mut Rng, n: usize) -> Vec<usize> {
            let mut v: Vec<usize> = vec![];
            let style = r.below(4);
            for k in 0..n {
                let mut x = match style {
                    0 => k * 256,
                    1 => n - 1 - k + r.below(2),
                    2 => [0usize, 1, 2, 3, 255, 256, 257, 65535, 65536, 65537, 1 << 20, 1 << 32, (1 << 32) + 1, usize::MAX / 2, usize::MAX - 1][r.below(15)],
                    _ => r.below(300),
                };
                while v.contains(&x) {
                    x = x / 2 + r.below(1000);
                }
                v.push(x);
            }
            v
        }
        self.nmap = m(r, self.nts);
        self.tmap = m(r, self.ts);
    }
    pub fn json(&self) -> Value {
        let rs: Vec<Value> = self.rules.iter().map(|(l, r)| json!([l, r.iter().map(|s| match s { Sym::N(n) => format!("N{}", n), Sym::T(t) => format!("t{}", t), Sym::E => "error".into() }).collect::<Vec<_>>()])).collect();
        json!({"nts": self.nts, "ts": self.ts, "start": self.start, "rules": rs, "nmap": self.nmap, "tmap": self.tmap})
    }
    pub fn parse(v: &Value) -> Gram {
        let rules = v["rules"].as_array().unwrap().iter().map(|r| {
            (r[0].as_u64().unwrap() as usize, r[1].as_array().unwrap().iter().map(|s| { let s = s.as_str().unwrap(); if s == "error" { Sym::E } else { let n: usize = s[1..].parse().unwrap(); if s.starts_with('N') { Sym::N(n) } else { Sym::T(n) } } }).collect())
        }).collect();
        let list = |x: &Value| x.as_array().map_or(vec![], |a| a.iter().map(|y| y.as_u64().unwrap() as usize).collect());
        Gram { nts: v["nts"].as_u64().unwrap() as usize, ts: v["ts"].as_u64().unwrap() as usize, rules, start: v["start"].as_u64().unwrap() as usize, nmap: list(&v["nmap"]), tmap: list(&v["tmap"]) }
    }
    /// From lines like "S: A b error | ; A: a" with upper-case non-terminals.
    pub fn text(s: &str) -> Gram {
        let mut nts: Vec<String> = vec![];
        let mut ts: Vec<String> = vec![];
        let mut rules = vec![];
        fn idx(v: &mut Vec<String>, s: &str) -> usize {
            if let Some(i) = v.iter().position(|x| x == s) {
                return i;
            }
            v.push(s.to_string());
            v.len() - 1
        }
        for l in s.split(';') {
            let (lhs, rhs) = l.split_once(':').unwrap();
            let n = idx(&mut nts, lhs.trim());
            for alt in rhs.split('|') {
                let r = alt.split_whitespace().map(|w| if w == "error" { Sym::E } else if w.chars().next().unwrap().is_uppercase() { Sym::N(idx(&mut nts, w)) } else { Sym::T(idx(&mut ts, w)) }).collect();
                rules.push((n, r));
            }
        }
        Gram { nts: nts.len(), ts: ts.len(), rules, start: 0, nmap: vec![], tmap: vec![] }
    }
    pub fn has_error(&self) -> bool {
        self.rules.iter().any(|r| r.1.contains(&Sym::E))
    }
    /// Derivability without error productions: fixpoint over all substrings.
    pub fn derives(&self, w: &[usize]) -> bool {
        let n = w.len();
        let mut d: HashSet<(usize, usize, usize)> = HashSet::new();
        loop {
            let mut changed = false;
            for (l, r) in &self.rules {
                for i in 0..=n {
                    // set of end positions reachable after each symbol
                    let mut ends: BTreeSet<usize> = [i].into();
                    for s in r {
                        let mut nx = BTreeSet::new();
                        for &e in &ends {
                            match s {
                                Sym::T(t) => {
                                    if e < n && w[e] == *t {
                                        nx.insert(e + 1);
                                    }
                                }
                                Sym::N(m) => {
                                    for j in e..=n {
                                        if d.contains(&(*m, e, j)) {
                                            nx.insert(j);
                                        }
                                    }
                                }
                                Sym::E => {}
                            }
                        }
                        ends = nx;
                        if ends.is_empty() {
                            break;
                        }
                    }
                    for j in ends {
                        changed |= d.insert((*l, i, j));
                    }
                }
            }
            if !changed {
                return d.contains(&(self.start, 0, n));
            }
        }
    }
    /// Every non-terminal derives some string of tokens and error symbols.
    pub fn productive(&self) -> bool {
        let mut p: BTreeSet<usize> = BTreeSet::new();
        loop {
            let n = p.len();
            for (l, r) in &self.rules {
                if r.iter().all(|s| !matches!(s, Sym::N(m) if !p.contains(m))) {
                    p.insert(*l);
                }
            }
            if p.len() == n {
                return self.rules.iter().all(|(l, r)| p.contains(l) && r.iter().all(|s| !matches!(s, Sym::N(m) if !p.contains(m)))) && p.contains(&self.start);
            }
        }
    }
    /// Minimal derivation height per non-terminal (error-free), None if it derives nothing.
    fn heights(&self) -> Vec<Option<usize>> {
        let mut h = vec![None; self.nts];
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                let mut m = Some(0usize);
                for s in r {
                    m = match (m, s) {
                        (Some(x), Sym::T(_)) => Some(x),
                        (Some(x), Sym::N(n)) => h[*n].map(|y: usize| x.max(y)),
                        _ => None,
                    };
                }
                if let Some(x) = m {
                    if h[*l].map_or(true, |o: usize| o > x + 1) {
                        h[*l] = Some(x + 1);
                        ch = true;
                    }
                }
            }
            if !ch {
                return h;
            }
        }
    }
    fn rule_height(&self, h: &[Option<usize>], r: &[Sym]) -> Option<usize> {
        let mut m = Some(0);
        for s in r {
            m = match (m, s) {
                (Some(x), Sym::T(_)) => Some(x),
                (Some(x), Sym::N(n)) => h[*n].map(|y: usize| x.max(y)),
                _ => None,
            };
        }
        m
    }
    pub fn sample(&self, r: &mut Rng, depth: usize, max: usize) -> Option<Vec<usize>> {
        let h = self.heights();
        h[self.start]?;
        let mut out = vec![];
        let mut st = vec![(Sym::N(self.start), depth)];
        while let Some((s, d)) = st.pop() {
            match s {
                Sym::T(t) => {
                    out.push(t);
                    if out.len() > max {
                        return None;
                    }
                }
                Sym::E => return None,
                Sym::N(n) => {
                    let c: Vec<&(usize, Vec<Sym>)> = self.rules.iter().filter(|x| x.0 == n && self.rule_height(&h, &x.1).is_some()).collect();
                    let pick = if d == 0 || st.len() > 60 {
                        let m = c.iter().map(|x| self.rule_height(&h, &x.1).unwrap()).min()?;
                        *c.iter().find(|x| self.rule_height(&h, &x.1) == Some(m))?
                    } else {
                        *r.pick(&c)
                    };
                    for s in pick.1.iter().rev() {
                        st.push((*s, d.saturating_sub(1)));
                    }
                }
            }
        }
        Some(out)
    }
    /// A sentence of about `want` tokens, if the grammar has sentences that long: recursive rules are preferred until it is long enough.
    pub fn sample_long(&self, r: &mut Rng, want: usize) -> Option<Vec<usize>> {
        let h = self.heights();
        h[self.start]?;
        let mut out = vec![];
        let mut st = vec![Sym::N(self.start)];
        for _ in 0..20 * want {
            match st.pop() {
                None => return Some(out),
                Some(Sym::T(t)) => out.push(t),
                Some(Sym::E) => return None,
                Some(Sym::N(n)) => {
                    let c: Vec<&(usize, Vec<Sym>)> = self.rules.iter().filter(|x| x.0 == n && self.rule_height(&h, &x.1).is_some()).collect();
                    let m = c.iter().map(|x| self.rule_height(&h, &x.1).unwrap()).min()?;
                    let pick = if out.len() + st.len() > want || (st.iter().any(|s| matches!(s, Sym::N(_))) && r.chance(1, 3)) {
                        *c.iter().find(|x| self.rule_height(&h, &x.1) == Some(m))?
                    } else {
                        let k = c.iter().map(|x| x.1.len()).max()?;
                        if r.chance(2, 3) { *c.iter().find(|x| x.1.len() == k)? } else { *r.pick(&c) }
                    };
                    for s in pick.1.iter().rev() {
                        st.push(*s);
                    }
                }
            }
        }
        None
    }
    /// A shortest terminal string of a symbol (by height), for building inputs that reach a given parser state.
    pub fn shortest(&self, s: Sym) -> Option<Vec<usize>> {
        match s {
            Sym::T(t) => Some(vec![t]),
            Sym::E => None,
            Sym::N(n) => {
                let mut g = self.clone();
                g.start = n;
                g.sample(&mut Rng::new(0, 0), 0, 200)
            }
        }
    }
}

pub fn gen_gram(r: &mut Rng, errors: bool) -> Gram {
    let nts = r.range(1, 4);
    let ts = r.range(1, 4);
    let mut rules = vec![];
    let extra = r.below(5);
    let mut lhs: Vec<usize> = (0..nts).collect();
    for _ in 0..extra {
        lhs.push(r.below(nts));
    }
    for l in lhs {
        let len = [0, 1, 1, 1, 2, 2, 2, 3, 3, 4][r.below(10)];
        let rhs = (0..len).map(|_| if r.chance(2, 5) { Sym::N(r.below(nts)) } else if errors && r.chance(1, 4) { Sym::E } else { Sym::T(r.below(ts)) }).collect();
        rules.push((l, rhs));
    }
    // rule order matters for conflict resolution
    for i in (1..rules.len()).rev() {
        let j = r.below(i + 1);
        rules.swap(i, j);
    }
    if errors && !rules.iter().any(|x: &(usize, Vec<Sym>)| x.1.contains(&Sym::E)) {
        let mut rhs = vec![Sym::E];
        if r.chance(1, 2) {
            rhs.push(Sym::T(r.below(ts)));
        }
        if r.chance(1, 3) {
            rhs.insert(0, Sym::T(r.below(ts)));
        }
        rules.push((r.below(nts), rhs));
    }
    Gram { nts, ts, rules, start: r.below(nts), nmap: vec![], tmap: vec![] }
}

/// Grammars of special shape: deep chains, long rules, many rules, many levels.
pub fn gen_shape(r: &mut Rng) -> Gram {
    let d = r.range(3, 16);
    let mut rules: Vec<(usize, Vec<Sym>)> = vec![];
    let (nts, ts);
    match r.below(7) {
        0 => {
            // nullable chain
            nts = d + 3;
            ts = 4;
            rules.push((0, if r.chance(1, 4) { vec![Sym::N(d + 2), Sym::N(1), Sym::N(1), Sym::T(0)] } else { vec![Sym::N(d + 2), Sym::N(1), Sym::T(0)] }));
            rules.push((d + 2, vec![Sym::T(3)]));
            if r.chance(1, 2) {
                rules.push((d + 2, vec![]));
            }
            for k in 1..=d {
                let mut v = vec![Sym::N(k + 1)];
                if r.chance(1, 5) {
                    v.push(Sym::T(2));
                    rules.push((k, vec![]));
                }
                rules.push((k, v));
            }
            rules.push((d + 1, vec![]));
            if r.chance(1, 2) {
                rules.push((d + 1, vec![Sym::T(1)]));
            }
        }
        1 => {
            // FIRST chain seen from an empty rule
            nts = d + 3;
            ts = 4;
            let a = d + 2;
            rules.push((0, vec![Sym::N(a), Sym::N(1)]));
            rules.push((a, vec![]));
            if r.chance(1, 2) {
                rules.push((a, vec![Sym::T(1)]));
            }
            for k in 1..=d {
                let mut v = vec![Sym::N(k + 1)];
                if r.chance(1, 3) {
                    v.push(Sym::T(2));
                }
                rules.push((k, v));
            }
            rules.push((d + 1, vec![Sym::T(0)]));
            if r.chance(1, 2) {
                rules.push((d + 1, vec![Sym::T(3), Sym::N(d + 1)]));
            }
        }
        2 => {
            // long rule of optional parts
            let n = r.range(4, 14);
            nts = n + 1;
            ts = n;
            rules.push((0, (1..=n).map(|k| if r.chance(1, 4) { Sym::T(k - 1) } else { Sym::N(k) }).collect()));
            for k in 1..=n {
                rules.push((k, vec![Sym::T(k - 1)]));
                if r.chance(2, 3) {
                    rules.push((k, vec![]));
                }
            }
        }
        3 => {
            // very long rule of terminals
            let n = r.range(5, 40);
            nts = 2;
            ts = 3;
            rules.push((0, (0..n).map(|k| if k % 7 == 3 { Sym::N(1) } else { Sym::T(r.below(3)) }).collect()));
            rules.push((1, vec![Sym::T(0)]));
        }
        4 => {
            // precedence levels
            let n = r.range(2, 6);
            nts = n + 1;
            ts = n + 3;
            for k in 0..n {
                let v = if r.chance(1, 2) { vec![Sym::N(k), Sym::T(k), Sym::N(k + 1)] } else { vec![Sym::N(k + 1), Sym::T(k), Sym::N(k)] };
                rules.push((k, v));
                rules.push((k, vec![Sym::N(k + 1)]));
            }
            rules.push((n, vec![Sym::T(n)]));
            if r.chance(1, 2) {
                rules.push((n, vec![Sym::T(n + 1), Sym::N(0), Sym::T(n + 2)]));
            }
        }
        5 => {
            // list of many kinds of items
            let n = r.range(8, 40);
            nts = 2;
            ts = n;
            rules.push((0, vec![]));
            rules.push((0, if r.chance(1, 2) { vec![Sym::N(0), Sym::N(1)] } else { vec![Sym::N(1), Sym::N(0)] }));
            for k in 0..n {
                let mut v = vec![Sym::T(k)];
                if r.chance(1, 6) {
                    v.push(Sym::T(r.below(n)));
                }
                rules.push((1, v));
            }
        }
        _ => {
            // alternatives that share a prefix and differ late
            nts = 4;
            ts = 4;
            let n = r.range(1, 6);
            let pre: Vec<Sym> = (0..n).map(|_| Sym::T(0)).collect();
            for (x, t) in [(1, 1), (2, 2), (3, 3)] {
                let mut v = pre.clone();
                v.push(Sym::N(x));
                v.push(Sym::T(t));
                rules.push((0, v));
            }
            for x in 1..4 {
                rules.push((x, if r.chance(1, 2) { vec![] } else { vec![Sym::T(0)] }));
            }
            for x in 1..4 {
                if !rules.iter().any(|y| y.0 == x) {
                    rules.push((x, vec![]));
                }
            }
        }
    }
    match r.below(3) {
        0 => {}
        1 => rules.reverse(),
        _ => {
            for i in (1..rules.len()).rev() {
                let j = r.below(i + 1);
                rules.swap(i, j);
            }
        }
    }
    Gram { nts, ts, rules, start: 0, nmap: vec![], tmap: vec![] }
}

pub const PLAIN: &[&str] = &[
    "E: E plus T | T; T: T star F | F; F: open E close | i",
    "S: A a | b A c | B c | b B a; A: d; B: d",
    "S: A S b | c; A: | a",
    "S: open S close S |",
    "L: L I |; I: a semi | semi",
    "L: I L |; I: a semi | b",
    "S: A B C; A: a |; B: b |; C: c |",
    "S: X Y end; X: | X a; Y: | b Y",
    "S: A | B; A: a A c | ; B: a B b | d",
    "S: a S a | b",
    "V: num | str | arr; Dummy: x",
    "J: open M close | n; M: | P; P: J | P comma J",
    "S: C C; C: c C | d",
    "S: Q; Q: x Q y | Z; Z: | z Z",
    "S: A B; A: B |; B: b",
    "S: N1 N2 N3 a; N1: ; N2: N1; N3: N2 N1",
    "S: a A d | b B d | a B e | b A e; A: c; B: c",
    "S: L eq R | R; L: star R | id; R: L",
];
pub const CONFLICT: &[&str] = &[
    "E: E plus E | i",
    "E: E plus E | E star E | i",
    "S: iff S els S | iff S | x",
    "S: iff S | iff S els S | x",
    "S: A | B; A: a; B: a",
    "S: B | A; A: a; B: a",
    "S: A x | B x; A: a; B: a",
    "S: S | a",
    "S: S S | a |",
    "S: A a | B b; A: | c; B: | c",
    "S: A B | a; A: a |; B: a |",
    "S: a S | S a | a",
    "S: X; X: Y | a; Y: X",
];
pub const ERROR: &[&str] = &[
    "S: L; L: L I | I; I: a semi | error semi",
    "S: open E close | error; E: a | E plus a",
    "S: error",
    "S: a error b | a c",
    "L: L I | ; I: a semi | error semi",
    "S: A error; A: | a",
    "S: B error end; B: | B a",
    "S: L; L: L I | ; I: A b | error; A: | a",
    "S: open L close; L: L comma I | I; I: a | error",
    "S: T; T: open L close; L: | L I; I: x semi | T | error semi",
    "S: a X | error; X: b error semi | c",
    "S: error a | b",
    "S: X Y; X: a | error; Y: b | error c",
    "E: E plus T | T; T: open E close | i | open error close",
];

pub type Item = (usize, usize, usize); // rule, position, lookahead (ts = end of input, ts+1 = error)
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    Shift(usize),
    Reduce(usize),
    Accept,
}
pub struct Conf {
    pub state: usize,
    pub la: usize,
    pub shift: Option<usize>,
    pub reduces: Vec<usize>,
    pub accept: bool,
}
pub struct RefP {
    pub g: Gram, // with the start rule appended
    pub items: Vec<BTreeSet<Item>>,
    pub act: Vec<BTreeMap<usize, Act>>,
    pub goto: Vec<BTreeMap<usize, usize>>,
    pub err: Vec<BTreeSet<usize>>,
    pub conflicts: Vec<Conf>,
    pub start_rule: usize,
}
pub fn build_ref(g0: &Gram) -> RefP {
    let mut g = g0.clone();
    let fresh = g.nts;
    g.nts += 1;
    g.rules.push((fresh, vec![Sym::N(g.start)]));
    let (eoi, err) = (g.ts, g.ts + 1);
    let start_rule = g.rules.len() - 1;
    let tsym = |s: &Sym| match s {
        Sym::T(t) => Some(*t),
        Sym::E => Some(err),
        _ => None,
    };
    // nullable, FIRST
    let mut nul = vec![false; g.nts];
    let mut first = vec![BTreeSet::new(); g.nts];
    loop {
        let mut ch = false;
        for (l, r) in &g.rules {
            let mut all = true;
            for s in r {
                match s {
                    Sym::N(n) => {
                        let f: Vec<usize> = first[*n].iter().copied().collect();
                        for x in f {
                            ch |= first[*l].insert(x);
                        }
                        if !nul[*n] {
                            all = false;
                            break;
                        }
                    }
                    _ => {
                        ch |= first[*l].insert(tsym(s).unwrap());
                        all = false;
                        break;
                    }
                }
            }
            if all && !nul[*l] {
                nul[*l] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let firsts = |rest: &[Sym], la: usize| -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        for s in rest {
            match s {
                Sym::N(n) => {
                    out.extend(first[*n].iter().copied());
                    if !nul[*n] {
                        return out;
                    }
                }
                _ => {
                    out.insert(tsym(s).unwrap());
                    return out;
                }
            }
        }
        out.insert(la);
        out
    };
    let closure = |k: BTreeSet<Item>| -> BTreeSet<Item> {
        let mut set = k;
        let mut work: Vec<Item> = set.iter().copied().collect();
        while let Some((r, p, la)) = work.pop() {
            if let Some(Sym::N(n)) = g.rules[r].1.get(p) {
                for f in firsts(&g.rules[r].1[p + 1..], la) {
                    for (i, x) in g.rules.iter().enumerate() {
                        if x.0 == *n && set.insert((i, 0, f)) {
                            work.push((i, 0, f));
                        }
                    }
                }
            }
        }
        set
    };
    let mut items = vec![closure([(start_rule, 0, eoi)].into())];
    let mut index: HashMap<BTreeSet<Item>, usize> = HashMap::new();
    index.insert(items[0].clone(), 0);
    let mut trans: Vec<BTreeMap<Sym, usize>> = vec![];
    let mut i = 0;
    while i < items.len() {
        let mut kern: BTreeMap<Sym, BTreeSet<Item>> = BTreeMap::new();
        for &(r, p, la) in &items[i] {
            if let Some(s) = g.rules[r].1.get(p) {
                kern.entry(*s).or_default().insert((r, p + 1, la));
            }
        }
        let mut m = BTreeMap::new();
        for (s, k) in kern {
            let c = closure(k);
            let j = *index.entry(c.clone()).or_insert_with(|| {
                items.push(c);
                items.len() - 1
            });
            m.insert(s, j);
        }
        trans.push(m);
        i += 1;
        if items.len() > 3000 {
            break;
        }
    }
    let mut act = vec![];
    let mut goto = vec![];
    let mut errs = vec![];
    let mut conflicts = vec![];
    for (st, m) in trans.iter().enumerate() {
        let mut a: BTreeMap<usize, (Option<usize>, Vec<usize>, bool)> = BTreeMap::new();
        let mut gt = BTreeMap::new();
        for (s, j) in m {
            match s {
                Sym::N(n) => {
                    gt.insert(*n, *j);
                }
                _ => a.entry(tsym(s).unwrap()).or_default().0 = Some(*j),
            }
        }
        let mut e = BTreeSet::new();
        for &(r, p, la) in &items[st] {
            if p == g.rules[r].1.len() {
                if r == start_rule {
                    a.entry(eoi).or_default().2 = true;
                } else {
                    a.entry(la).or_default().1.push(r);
                }
            } else if g.rules[r].1[p] == Sym::E {
                e.insert(r);
            }
        }
        let mut res = BTreeMap::new();
        for (la, (sh, mut red, acc)) in a {
            red.sort();
            red.dedup();
            if red.len() + sh.is_some() as usize + acc as usize > 1 {
                conflicts.push(Conf { state: st, la, shift: sh, reduces: red.clone(), accept: acc });
            }
            res.insert(la, if let Some(j) = sh { Act::Shift(j) } else if acc { Act::Accept } else { Act::Reduce(red[0]) });
        }
        act.push(res);
        goto.push(gt);
        errs.push(e);
    }
    RefP { g, items, act, goto, err: errs, conflicts, start_rule }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Arg {
    N(usize),         // number of the reducer call that made the value
    T(usize),         // input position
    E(usize, usize),  // half-open range of input positions; empty ranges are (0, 0)
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Res {
    Ok(usize),
    NotFound,
    Reducer(usize),
    NoEnd,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Trace {
    pub calls: Vec<(usize, Vec<Arg>)>,
    pub res: Res,
    pub errors: usize,
}
/// Reference driver. `fail_at`: number of the reducer call that returns an error.
pub fn drive(p: &RefP, w: &[usize], fail_at: Option<usize>, limit: usize) -> Trace {
    let eoi = p.g.ts;
    let err = eoi + 1;
    let mut st: Vec<(usize, Arg, usize)> = vec![]; // state below, symbol, first input position
    let mut cur = 0;
    let mut pos = 0;
    let mut calls = vec![];
    let mut active: BTreeSet<usize> = BTreeSet::new();
    let mut errors = 0;
    for _ in 0..limit {
        let la = if pos < w.len() { w[pos] } else { eoi };
        // token kinds unknown to the grammar share no index with the special lookaheads
        let a = if pos < w.len() && w[pos] >= p.g.ts { None } else { p.act[cur].get(&la).copied() };
        match a {
            Some(Act::Shift(s)) => {
                st.push((cur, Arg::T(pos), pos));
                cur = s;
                pos += 1;
            }
            Some(Act::Accept) => {
                let r = match st.last() {
                    Some((_, Arg::N(i), _)) => Res::Ok(*i),
                    _ => Res::NoEnd,
                };
                return Trace { calls, res: r, errors };
            }
            Some(Act::Reduce(r)) => {
                let n = p.g.rules[r].1.len();
                let popped: Vec<(usize, Arg, usize)> = st.split_off(st.len() - n);
                let first = popped.iter().find(|x| !matches!(x.1, Arg::E(..))).map_or(pos, |x| x.2);
                if let Some(f) = popped.first() {
                    cur = f.0;
                }
                let args = popped.into_iter().map(|x| match x.1 { Arg::E(a, b) if a == b => Arg::E(0, 0), y => y }).collect();
                calls.push((r, args));
                if fail_at == Some(calls.len() - 1) {
                    let k = calls.len() - 1;
                    return Trace { calls, res: Res::Reducer(k), errors };
                }
                st.push((cur, Arg::N(calls.len() - 1), first));
                cur = p.goto[cur][&p.g.rules[r].0];
                if active.contains(&r) {
                    active.clear();
                }
            }
            None => {
                errors += 1;
                let at_end = pos >= w.len();
                let tail = pos;
                let mut head = pos;
                let mut ehead = pos;
                let mut popped = false;
                loop {
                    let stuck_error = !popped && matches!(st.last(), Some((_, Arg::E(..), _)));
                    if !(at_end && popped) && !stuck_error && !p.err[cur].is_empty() {
                        if active.is_empty() {
                            active = p.err[cur].clone();
                            break;
                        }
                        let x: BTreeSet<usize> = active.intersection(&p.err[cur]).copied().collect();
                        if !x.is_empty() {
                            active = x;
                            break;
                        }
                    }
                    popped = true;
                    match st.pop() {
                        None => return Trace { calls, res: Res::NotFound, errors },
                        Some((s, a, f)) => {
                            cur = s;
                            match a {
                                Arg::E(lo, _) => ehead = lo,
                                _ => head = f,
                            }
                        }
                    }
                }
                pos = if popped { head + 1 } else { pos };
                st.push((cur, Arg::E(head.min(ehead), (tail + 1).min(w.len())), head));
                cur = match p.act[cur].get(&err) {
                    Some(Act::Shift(s)) => *s,
                    _ => return Trace { calls, res: Res::NoEnd, errors },
                };
            }
        }
    }
    Trace { calls, res: Res::NoEnd, errors }
}

/// All strings over 0..k up to length `len`, at most `cap`.
pub fn all_strings(k: usize, len: usize, cap: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut q: VecDeque<Vec<usize>> = [vec![]].into();
    while let Some(s) = q.pop_front() {
        if s.len() == len {
            continue;
        }
        for c in 0..k {
            let mut t = s.clone();
            t.push(c);
            if out.len() >= cap {
                return out;
            }
            out.push(t.clone());
            q.push_back(t);
        }
    }
    out
}
