//! Reference semantics of patterns: Brzozowski derivatives over the regex syntax tree.
//! Independent of the automata in /repo; only regex-syntax (the parser both sides use) is shared.
use regex_syntax::hir::{Class, Hir, HirKind, Literal, RepetitionKind, RepetitionRange};
use std::collections::HashMap;

pub type Id = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Never,
    Eps,
    Class(Vec<(u32, u32)>), // inclusive
    Cat(Id, Id),
    Alt(Vec<Id>),
    Star(Id),
}
pub struct Re {
    nodes: Vec<Node>,
    ids: HashMap<Node, Id>,
    memo: HashMap<(Id, u32), Id>,
    nul: Vec<bool>,
}
pub const NEVER: Id = 0;
pub const EPS: Id = 1;
#[derive(Debug, PartialEq)]
pub enum Unsup {
    Empty,
    Bad,
    Big,
}
impl Re {
    pub fn new() -> Re {
        let mut r = Re { nodes: vec![], ids: HashMap::new(), memo: HashMap::new(), nul: vec![] };
        r.mk(Node::Never);
        r.mk(Node::Eps);
        r
    }
    fn mk(&mut self, n: Node) -> Id {
        if let Some(&i) = self.ids.get(&n) {
            return i;
        }
        let i = self.nodes.len() as Id;
        let nul = match &n {
            Node::Never | Node::Class(_) => false,
            Node::Eps | Node::Star(_) => true,
            Node::Cat(a, b) => self.nul[*a as usize] && self.nul[*b as usize],
            Node::Alt(v) => v.iter().any(|a| self.nul[*a as usize]),
        };
        self.nodes.push(n.clone());
        self.nul.push(nul);
        self.ids.insert(n, i);
        i
    }
    pub fn size(&self) -> usize {
        self.nodes.len()
    }
    pub fn nullable(&self, a: Id) -> bool {
        self.nul[a as usize]
    }
    fn cat(&mut self, a: Id, b: Id) -> Id {
        if a == NEVER || b == NEVER {
            return NEVER;
        }
        if a == EPS {
            return b;
        }
        if b == EPS {
            return a;
        }
        if let Node::Cat(x, y) = self.nodes[a as usize].clone() {
            let r = self.cat(y, b);
            return self.cat(x, r);
        }
        self.mk(Node::Cat(a, b))
    }
    fn alt(&mut self, xs: &[Id]) -> Id {
        let mut v = vec![];
        for &x in xs {
            match &self.nodes[x as usize] {
                Node::Never => {}
                Node::Alt(ys) => v.extend(ys.iter().copied()),
                _ => v.push(x),
            }
        }
        v.sort();
        v.dedup();
        match v.len() {
            0 => NEVER,
            1 => v[0],
            _ => self.mk(Node::Alt(v)),
        }
    }
    fn star(&mut self, a: Id) -> Id {
        match &self.nodes[a as usize] {
            Node::Never | Node::Eps => EPS,
            Node::Star(_) => a,
            _ => self.mk(Node::Star(a)),
        }
    }
    pub fn der(&mut self, a: Id, c: u32) -> Id {
        if let Some(&r) = self.memo.get(&(a, c)) {
            return r;
        }
        let r = match self.nodes[a as usize].clone() {
            Node::Never | Node::Eps => NEVER,
            Node::Class(v) => {
                if v.iter().any(|&(l, h)| l <= c && c <= h) {
                    EPS
                } else {
                    NEVER
                }
            }
            Node::Cat(x, y) => {
                let dx = self.der(x, c);
                let l = self.cat(dx, y);
                if self.nullable(x) {
                    let dy = self.der(y, c);
                    self.alt(&[l, dy])
                } else {
                    l
                }
            }
            Node::Alt(v) => {
                let ds: Vec<Id> = v.iter().map(|&x| self.der(x, c)).collect();
                self.alt(&ds)
            }
            Node::Star(x) => {
                let dx = self.der(x, c);
                self.cat(dx, a)
            }
        };
        self.memo.insert((a, c), r);
        r
    }
    /// Translates the syntax tree. Err(Empty): contains the empty expression (a recorded finding, see known-findings);
    /// Err(Bad): a construct that must be refused.
    pub fn from_hir(&mut self, h: &Hir) -> Result<Id, Unsup> {
        if self.size() > 200_000 {
            return Err(Unsup::Big);
        }
        Ok(match h.kind() {
            HirKind::Empty => return Err(Unsup::Empty),
            HirKind::Literal(Literal::Unicode(c)) => self.mk(Node::Class(vec![(*c as u32, *c as u32)])),
            HirKind::Class(Class::Unicode(c)) => {
                let v: Vec<(u32, u32)> = c.iter().map(|r| (r.start() as u32, r.end() as u32)).collect();
                if v.is_empty() {
                    NEVER
                } else {
                    self.mk(Node::Class(v))
                }
            }
            HirKind::Literal(_) | HirKind::Class(_) | HirKind::Anchor(_) | HirKind::WordBoundary(_) => return Err(Unsup::Bad),
            HirKind::Group(g) => self.from_hir(&g.hir)?,
            HirKind::Concat(v) => {
                let ids = self.list(v)?;
                let mut r = EPS;
                for x in ids.into_iter().rev() {
                    r = self.cat(x, r);
                }
                r
            }
            HirKind::Alternation(v) => {
                let ids = self.list(v)?;
                self.alt(&ids)
            }
            HirKind::Repetition(r) => {
                let x = self.from_hir(&r.hir)?;
                let (lo, hi) = match &r.kind {
                    RepetitionKind::ZeroOrOne => (0, Some(1)),
                    RepetitionKind::ZeroOrMore => (0, None),
                    RepetitionKind::OneOrMore => (1, None),
                    RepetitionKind::Range(RepetitionRange::Exactly(n)) => (*n, Some(*n)),
                    RepetitionKind::Range(RepetitionRange::AtLeast(n)) => (*n, None),
                    RepetitionKind::Range(RepetitionRange::Bounded(n, m)) => (*n, Some(*m)),
                };
                let mut t = match hi {
                    None => self.star(x),
                    Some(m) => {
                        let mut t = EPS;
                        for _ in lo..m {
                            let c = self.cat(x, t);
                            t = self.alt(&[EPS, c]);
                        }
                        t
                    }
                };
                for _ in 0..lo {
                    t = self.cat(x, t);
                }
                t
            }
        })
    }
    /// All parts are visited, so that Bad wins over Empty wherever they are.
    fn list(&mut self, v: &[Hir]) -> Result<Vec<Id>, Unsup> {
        let mut ids = vec![];
        let mut err = None;
        for h in v {
            match self.from_hir(h) {
                Ok(i) => ids.push(i),
                Err(e) => {
                    if err != Some(Unsup::Bad) {
                        err = Some(e)
                    }
                }
            }
        }
        match err {
            None => Ok(ids),
            Some(e) => Err(e),
        }
    }
    pub fn matches(&mut self, mut a: Id, s: &[char]) -> bool {
        for &c in s {
            a = self.der(a, c as u32);
            if a == NEVER {
                return false;
            }
        }
        self.nullable(a)
    }
}
/// All range boundaries of a syntax tree.
pub fn bounds(h: &Hir, out: &mut Vec<u32>) {
    match h.kind() {
        HirKind::Literal(Literal::Unicode(c)) => {
            out.push(*c as u32);
            out.push(*c as u32 + 1);
        }
        HirKind::Class(Class::Unicode(c)) => {
            for r in c.iter() {
                out.push(r.start() as u32);
                out.push(r.end() as u32 + 1);
            }
        }
        HirKind::Group(g) => bounds(&g.hir, out),
        HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().for_each(|x| bounds(x, out)),
        HirKind::Repetition(r) => bounds(&r.hir, out),
        _ => {}
    }
}
/// One character from every elementary interval (surrogates excluded).
pub fn representatives(mut b: Vec<u32>) -> Vec<char> {
    b.push(0);
    b.push(0x110000);
    b.push(0xD800);
    b.push(0xE000);
    b.sort();
    b.dedup();
    let mut v = vec![];
    for w in b.windows(2) {
        for c in [w[0], w[1] - 1] {
            if let Some(c) = char::from_u32(c) {
                if v.last() != Some(&c) {
                    v.push(c);
                }
            }
        }
    }
    v
}
