//! extract <template.vt> <repo root> <out.rs> <out.json>
//!
//! Expands a Verus template: every `@@fn` directive is replaced by the body of the named function, read from the
//! repository's current source, after the mechanical rewrites listed in the templates; contracts, loop invariants and
//! proof text come from the template. Nothing of the executable text comes from the template, apart from what the
//! rewrite rules say. A directive whose function, statement or loop cannot be found is reported as a lost anchor.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;
use syn::visit_mut::VisitMut;
use syn::{Block, Expr, ImplItem, Item, Stmt};

#[derive(Default, Debug)]
struct FnDir {
    id: String,
    src: String,
    path: String,
    props: String,
    sig: Option<String>,
    attrs: String,
    spec: String,
    loops: BTreeMap<usize, String>,
    ats: Vec<(String, String)>,
    rewrites: Vec<(String, String)>,
    stmt_deletes: Vec<String>,
    split: Option<(usize, String)>, // leaf arms per case, arguments
    nloops: Option<usize>,
}
#[derive(Debug)]
enum Seg {
    Raw(String),
    Fn(FnDir),
    Item(HashMap<String, String>),
    Rewrite(String, String),
}

fn kv(s: &str) -> HashMap<String, String> {
    // key=value or key="quoted value"
    let mut m = HashMap::new();
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        while i < c.len() && c[i].is_whitespace() {
            i += 1;
        }
        let st = i;
        while i < c.len() && c[i] != '=' {
            i += 1;
        }
        if i >= c.len() {
            break;
        }
        let k: String = c[st..i].iter().collect();
        i += 1;
        let v: String;
        if i < c.len() && c[i] == '"' {
            let st = i + 1;
            i += 1;
            while i < c.len() && c[i] != '"' {
                i += 1;
            }
            v = c[st..i].iter().collect();
            i += 1;
        } else {
            let st = i;
            while i < c.len() && !c[i].is_whitespace() {
                i += 1;
            }
            v = c[st..i].iter().collect();
        }
        m.insert(k.trim().to_string(), v);
    }
    m
}

fn read_template(path: &str, segs: &mut Vec<Seg>) {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    let mut raw = String::new();
    let mut cur: Option<FnDir> = None;
    #[derive(PartialEq)]
    enum In {
        None,
        Sig,
        Attrs,
        Spec,
        Loop(usize),
        At,
        Rw,
    }
    let mut st = In::None;
    for line in text.lines() {
        let t = line.trim_start();
        if let Some(d) = t.strip_prefix("@@") {
            let (w, rest) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
            match w {
                "include" => {
                    segs.push(Seg::Raw(std::mem::take(&mut raw)));
                    let p = std::path::Path::new(path).parent().unwrap().join(rest.trim());
                    read_template(p.to_str().unwrap(), segs);
                }
                "contract" => {
                    // the signature and contract of a function another template proves
                    let m = kv(rest);
                    let p = std::path::Path::new(path).parent().unwrap().join(&m["from"]);
                    let mut other = Vec::new();
                    read_template(p.to_str().unwrap(), &mut other);
                    let f = other.iter().find_map(|s| if let Seg::Fn(f) = s { (f.id == m["id"]).then_some(f) } else { None }).unwrap_or_else(|| panic!("{} has no function {}", m["from"], m["id"]));
                    raw.push_str(&format!("// contract of {} (proved in {})\n#[verifier::external_body]\n{}{}{{ unimplemented!() }}\n", m["id"], m["from"], f.sig.as_deref().expect("@@contract needs an @@sig"), f.spec));
                }
                "item" => {
                    segs.push(Seg::Raw(std::mem::take(&mut raw)));
                    segs.push(Seg::Item(kv(rest)));
                }
                "rewrite" if cur.is_none() => {
                    segs.push(Seg::Raw(std::mem::take(&mut raw)));
                    let (a, b) = rest.split_once("=>>").expect("rewrite needs =>>");
                    segs.push(Seg::Rewrite(a.to_string(), b.to_string()));
                }
                "fn" => {
                    segs.push(Seg::Raw(std::mem::take(&mut raw)));
                    let m = kv(rest);
                    cur = Some(FnDir { id: m["id"].clone(), src: m["src"].clone(), path: m["path"].clone(), props: m.get("props").cloned().unwrap_or_default(), nloops: m.get("loops").map(|x| x.parse().unwrap()), ..Default::default() });
                    st = In::None;
                }
                "sig" => st = In::Sig,
                "attrs" => st = In::Attrs,
                "spec" => st = In::Spec,
                "loop" => st = In::Loop(rest.trim().parse().unwrap()),
                "at" => {
                    cur.as_mut().unwrap().ats.push((rest.trim().to_string(), String::new()));
                    st = In::At;
                }
                "rewrite" => {
                    let (a, b) = rest.split_once("=>>").expect("rewrite needs =>>");
                    cur.as_mut().unwrap().rewrites.push((a.to_string(), b.to_string()));
                    st = In::Rw;
                }
                "split" => {
                    let (n, args) = rest.trim().split_once(' ').expect("split needs a number and the arguments");
                    cur.as_mut().unwrap().split = Some((n.parse().unwrap(), args.to_string()));
                    st = In::None;
                }
                "delete" => cur.as_mut().unwrap().stmt_deletes.push(rest.to_string()),
                "end" => {
                    segs.push(Seg::Fn(cur.take().unwrap()));
                    st = In::None;
                }
                _ => panic!("unknown directive @@{}", w),
            }
            continue;
        }
        match (&mut cur, &st) {
            (None, _) => {
                raw.push_str(line);
                raw.push('\n');
            }
            (Some(f), In::Sig) => {
                let s = f.sig.get_or_insert_with(String::new);
                s.push_str(line);
                s.push('\n');
            }
            (Some(f), In::Attrs) => {
                f.attrs.push_str(line);
                f.attrs.push('\n');
            }
            (Some(f), In::Spec) => {
                f.spec.push_str(line);
                f.spec.push('\n');
            }
            (Some(f), In::Loop(k)) => {
                let s = f.loops.entry(*k).or_default();
                s.push_str(line);
                s.push('\n');
            }
            (Some(f), In::At) => {
                let s = &mut f.ats.last_mut().unwrap().1;
                s.push_str(line);
                s.push('\n');
            }
            (Some(f), In::Rw) => {
                let s = &mut f.rewrites.last_mut().unwrap().1;
                s.push(' ');
                s.push_str(line);
            }
            (Some(_), In::None) => assert!(line.trim().is_empty(), "stray line in @@fn: {}", line),
        }
    }
    assert!(cur.is_none(), "missing @@end");
    segs.push(Seg::Raw(raw));
}

// ------------------------------------------------------------------ token printing

struct Printer<'a> {
    out: String,
    loops: &'a BTreeMap<usize, String>,
    texts: &'a Vec<String>,
}
impl<'a> Printer<'a> {
    fn stream(&mut self, ts: &[TokenTree]) {
        let mut i = 0;
        while i < ts.len() {
            match &ts[i] {
                TokenTree::Ident(id) if id == "__anchor" => {
                    // __anchor ! ( n ) ;
                    if let Some(TokenTree::Group(g)) = ts.get(i + 2) {
                        let n: usize = g.stream().to_string().trim().trim_end_matches("usize").parse().unwrap();
                        self.out.push('\n');
                        self.out.push_str(&self.texts[n]);
                        self.out.push('\n');
                    }
                    i += 4;
                    continue;
                }
                TokenTree::Ident(id) => {
                    self.out.push_str(&id.to_string());
                    self.out.push(' ');
                }
                TokenTree::Literal(l) => {
                    self.out.push_str(&l.to_string());
                    self.out.push(' ');
                }
                TokenTree::Punct(p) => {
                    self.out.push(p.as_char());
                    if p.as_char() == ';' {
                        self.out.push('\n');
                    } else if p.spacing() == Spacing::Alone {
                        self.out.push(' ');
                    }
                }
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let mut from = 0;
                            if let (Some(TokenTree::Ident(id)), Some(TokenTree::Group(n))) = (inner.first(), inner.get(2)) {
                                if id == "__loopspec" {
                                    let k: usize = n.stream().to_string().trim().trim_end_matches("usize").parse().unwrap();
                                    self.out.push('\n');
                                    if let Some(s) = self.loops.get(&k) {
                                        self.out.push_str(s);
                                    }
                                    from = 4;
                                }
                            }
                            self.out.push_str("{\n");
                            self.stream(&inner[from..]);
                            self.out.push_str("\n} ");
                        }
                        Delimiter::Parenthesis => {
                            self.out.push('(');
                            self.stream(&inner);
                            self.out.push_str(") ");
                        }
                        Delimiter::Bracket => {
                            self.out.push('[');
                            self.stream(&inner);
                            self.out.push_str("] ");
                        }
                        Delimiter::None => self.stream(&inner),
                    }
                }
            }
            i += 1;
        }
    }
}
fn tts(t: TokenStream) -> Vec<TokenTree> {
    t.into_iter().collect()
}
fn norm(t: TokenStream) -> String {
    t.to_string().split_whitespace().collect::<Vec<_>>().join("")
}
fn norm_str(s: &str) -> String {
    TokenStream::from_str(s).map(norm).unwrap_or_else(|_| s.split_whitespace().collect())
}

// ------------------------------------------------------------------ rewriting

fn is_metavar(p: &[TokenTree]) -> Option<String> {
    if let (Some(TokenTree::Punct(d)), Some(TokenTree::Ident(n))) = (p.first(), p.get(1)) {
        if d.as_char() == '$' {
            return Some(n.to_string());
        }
    }
    None
}
type Binds = HashMap<String, Vec<TokenTree>>;
fn same(a: &TokenTree, b: &TokenTree) -> bool {
    a.to_string().split_whitespace().eq(b.to_string().split_whitespace()) || norm(a.to_token_stream()) == norm(b.to_token_stream())
}
fn unify(p: &[TokenTree], c: &[TokenTree], b: &mut Binds) -> bool {
    if p.is_empty() {
        // a trailing comma is no difference
        return c.is_empty() || (c.len() == 1 && matches!(&c[0], TokenTree::Punct(x) if x.as_char() == ','));
    }
    if let Some(n) = is_metavar(p) {
        if let Some(v) = b.get(&n).cloned() {
            if c.len() < v.len() || !v.iter().zip(c).all(|(x, y)| same(x, y)) {
                return false;
            }
            return unify(&p[2..], &c[v.len()..], b);
        }
        let any = n.starts_with("body");
        for k in (if any { 0 } else { 1 })..=c.len() {
            if any || k == 0 {
            } else if let TokenTree::Punct(x) = &c[k - 1] {
                if x.as_char() == ',' || x.as_char() == ';' {
                    return false;
                }
            }
            let mut b2 = b.clone();
            b2.insert(n.clone(), c[..k].to_vec());
            if unify(&p[2..], &c[k..], &mut b2) {
                *b = b2;
                return true;
            }
        }
        return false;
    }
    if c.is_empty() {
        return false;
    }
    match (&p[0], &c[0]) {
        (TokenTree::Group(g), TokenTree::Group(h)) => {
            if g.delimiter() != h.delimiter() {
                return false;
            }
            let mut b2 = b.clone();
            if !unify(&tts(g.stream()), &tts(h.stream()), &mut b2) {
                return false;
            }
            if unify(&p[1..], &c[1..], &mut b2) {
                *b = b2;
                return true;
            }
            false
        }
        (TokenTree::Group(_), _) | (_, TokenTree::Group(_)) => false,
        (x, y) => x.to_string() == y.to_string() && unify(&p[1..], &c[1..], b),
    }
}
fn subst(t: &[TokenTree], b: &Binds) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < t.len() {
        if let Some(n) = is_metavar(&t[i..]) {
            out.extend(b.get(&n).unwrap_or_else(|| panic!("unbound ${}", n)).iter().cloned());
            i += 2;
            continue;
        }
        match &t[i] {
            TokenTree::Group(g) => {
                let mut h = proc_macro2::Group::new(g.delimiter(), subst(&tts(g.stream()), b));
                h.set_span(g.span());
                out.push(h.into());
            }
            x => out.push(x.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}
struct Rule {
    pat: Vec<TokenTree>,
    kind: std::mem::Discriminant<Expr>,
    rep: Vec<TokenTree>,
    text: String,
}
fn mkrule(a: &str, b: &str) -> Rule {
    let pat = tts(TokenStream::from_str(a).unwrap_or_else(|e| panic!("{}: {}", a, e)));
    let plain = a.replace('$', "__mv_");
    let e: Expr = syn::parse_str(&plain).unwrap_or_else(|e| panic!("pattern {}: {}", a, e));
    Rule { pat, kind: std::mem::discriminant(&e), rep: tts(TokenStream::from_str(b).unwrap_or_else(|e| panic!("{}: {}", b, e))), text: format!("{} =>> {}", a.trim(), b.trim()) }
}
struct Rw<'a> {
    rules: &'a [Rule],
    used: BTreeMap<String, usize>,
    err: Option<String>,
}
impl<'a> VisitMut for Rw<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        for _ in 0..6 {
            let mut hit = false;
            let c = tts(e.to_token_stream());
            for r in self.rules {
                if std::mem::discriminant(e) != r.kind {
                    continue;
                }
                let mut b = Binds::new();
                if unify(&r.pat, &c, &mut b) {
                    let t = subst(&r.rep, &b);
                    match syn::parse2::<Expr>(t.clone()) {
                        Ok(x) => {
                            *e = x;
                            *self.used.entry(r.text.clone()).or_default() += 1;
                            hit = true;
                        }
                        Err(er) => self.err = Some(format!("rewrite {} gives unparsable {}: {}", r.text, t, er)),
                    }
                    break;
                }
            }
            if !hit {
                break;
            }
        }
    }
}

/// Numbers loops in source order, desugars `for`, and inserts anchor markers around and inside loops.
struct Loops<'a> {
    n: usize,
    dir: &'a FnDir,
    texts: &'a mut Vec<String>,
    used: &'a mut Vec<bool>,
}
impl<'a> Loops<'a> {
    fn at(&mut self, key: &str) -> Vec<Stmt> {
        let mut v = vec![];
        for (i, (k, t)) in self.dir.ats.iter().enumerate() {
            if k == key {
                self.used[i] = true;
                self.texts.push(t.clone());
                let n = self.texts.len() - 1;
                v.push(syn::parse2::<Stmt>(quote!(__anchor!(#n);)).unwrap());
            }
        }
        v
    }
    fn body(&mut self, k: usize, b: &mut Block, pre: Vec<Stmt>) {
        let mut s: Vec<Stmt> = vec![syn::parse2::<Stmt>(quote!(__loopspec!(#k);)).unwrap()];
        s.extend(pre);
        s.extend(self.at(&format!("loop{}.begin", k)));
        let endk = self.at(&format!("loop{}.end", k));
        // `continue` ends a turn too: the text for the end of a turn goes there as well,
        // unless the template gives a text of its own for that place
        let own = self.dir.ats.iter().any(|(x, _)| *x == format!("loop{}.continue", k));
        let key = format!("loop{}.{}", k, if own { "continue" } else { "end" });
        let mut c = Continues { key, loops: self };
        for s in &mut b.stmts {
            c.visit_stmt_mut(s);
        }
        let mut stmts = std::mem::take(&mut b.stmts);
        // a trailing expression of unit type becomes a statement, so that text can follow it
        if !endk.is_empty() {
            if let Some(Stmt::Expr(_, semi @ None)) = stmts.last_mut() {
                *semi = Some(Default::default());
            }
        }
        s.extend(stmts);
        s.extend(endk);
        b.stmts = s;
    }
}
/// The `continue`s of one loop.
struct Continues<'a, 'b> {
    key: String,
    loops: &'b mut Loops<'a>,
}
impl<'a, 'b> VisitMut for Continues<'a, 'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
            Expr::Continue(c) if c.label.is_none() => {
                let t = self.loops.at(&self.key);
                if !t.is_empty() {
                    *e = syn::parse2(quote!({ #(#t)* continue })).unwrap();
                }
            }
            _ => syn::visit_mut::visit_expr_mut(self, e),
        }
    }
}
impl<'a> VisitMut for Loops<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => {
                let k = self.n;
                self.n += 1;
                self.visit_expr_mut(&mut w.cond);
                for s in &mut w.body.stmts {
                    self.visit_stmt_mut(s);
                }
                self.body(k, &mut w.body, vec![]);
                let (a, b) = (self.at(&format!("loop{}.before", k)), self.at(&format!("loop{}.after", k)));
                if !a.is_empty() || !b.is_empty() {
                    *e = syn::parse2(quote!({ #(#a)* #e #(#b)* })).unwrap();
                }
            }
            Expr::Loop(w) => {
                let k = self.n;
                self.n += 1;
                for s in &mut w.body.stmts {
                    self.visit_stmt_mut(s);
                }
                self.body(k, &mut w.body, vec![]);
                let (a, b) = (self.at(&format!("loop{}.before", k)), self.at(&format!("loop{}.after", k)));
                if !a.is_empty() || !b.is_empty() {
                    *e = syn::parse2(quote!({ #(#a)* #e #(#b)* })).unwrap();
                }
            }
            Expr::ForLoop(f) => {
                let k = self.n;
                self.n += 1;
                self.visit_expr_mut(&mut f.expr);
                for s in &mut f.body.stmts {
                    self.visit_stmt_mut(s);
                }
                let it = quote::format_ident!("it{}", k);
                // `&x` in the pattern becomes `x` followed by `let x = *x;`
                let mut dr = DeRef { names: vec![] };
                let mut pat = (*f.pat).clone();
                dr.visit_pat_mut(&mut pat);
                let mut pre = vec![syn::parse2::<Stmt>(quote!(let #pat = #it.take_next();)).unwrap()];
                for x in dr.names {
                    pre.push(syn::parse2::<Stmt>(quote!(let #x = *#x;)).unwrap());
                }
                let mut b = f.body.clone();
                self.body(k, &mut b, pre);
                let ex = &f.expr;
                let label = &f.label;
                let (x, y) = (self.at(&format!("loop{}.before", k)), self.at(&format!("loop{}.after", k)));
                *e = syn::parse2(quote!({ let mut #it = (#ex).snap_into(); #(#x)* #label while #it.has_next() #b #(#y)* })).unwrap();
            }
            _ => syn::visit_mut::visit_expr_mut(self, e),
        }
    }
}

struct DeRef {
    names: Vec<proc_macro2::Ident>,
}
impl VisitMut for DeRef {
    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        if let syn::Pat::Reference(r) = p {
            if let syn::Pat::Ident(i) = &*r.pat {
                if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() && r.mutability.is_none() {
                    self.names.push(i.ident.clone());
                    let q = (*r.pat).clone();
                    *p = q;
                    return;
                }
            }
        }
        syn::visit_mut::visit_pat_mut(self, p);
    }
}

struct ProbeLoop {
    k: usize,
    probe: Stmt,
}
impl VisitMut for ProbeLoop {
    fn visit_block_mut(&mut self, b: &mut Block) {
        syn::visit_mut::visit_block_mut(self, b);
        if let Some(s) = b.stmts.first() {
            let t = norm(s.to_token_stream());
            if t == format!("__loopspec!({}usize);", self.k) {
                b.stmts.insert(1, self.probe.clone());
            }
        }
    }
}

/// Inserts anchors before/after statements selected by their leading tokens.
struct StmtAnchors<'a> {
    pats: Vec<(bool, String, usize, usize)>, // after?, normalized prefix, occurrence, ats index
    arms: Vec<(u8, String, usize, usize)>, // begin, end or result, normalized pattern prefix, occurrence, ats index
    seen: HashMap<String, usize>,
    dir: &'a FnDir,
    texts: &'a mut Vec<String>,
    used: &'a mut Vec<bool>,
    deletes: Vec<String>,
    deleted: Vec<bool>,
}
impl<'a> VisitMut for StmtAnchors<'a> {
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        let t = norm(a.pat.to_token_stream());
        let (mut begin, mut end, mut result) = (vec![], vec![], vec![]);
        let mut counted: Vec<String> = vec![];
        for (place, p, occ, idx) in self.arms.clone() {
            if t.starts_with(&p) {
                let key = format!("arm {}", p);
                if !counted.contains(&key) {
                    *self.seen.entry(key.clone()).or_insert(0) += 1;
                    counted.push(key.clone());
                }
                if self.seen[&key] - 1 == occ {
                    self.used[idx] = true;
                    self.texts.push(self.dir.ats[idx].1.clone());
                    let n = self.texts.len() - 1;
                    let st = syn::parse2::<Stmt>(quote!(__anchor!(#n);)).unwrap();
                    match place {
                        0 => begin.push(st),
                        1 => end.push(st),
                        _ => result.push(st),
                    }
                }
            }
        }
        syn::visit_mut::visit_arm_mut(self, a);
        if begin.is_empty() && end.is_empty() && result.is_empty() {
            return;
        }
        let mut b: Block = match &*a.body {
            Expr::Block(x) if x.label.is_none() => x.block.clone(),
            e => syn::parse2(quote!({ #e })).unwrap(),
        };
        if !end.is_empty() {
            if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
                *semi = Some(Default::default());
            }
        }
        if !result.is_empty() {
            // the value of the arm gets a name
            if let Some(Stmt::Expr(_, None)) = b.stmts.last() {
                if let Some(Stmt::Expr(e, None)) = b.stmts.pop() {
                    b.stmts.push(syn::parse2(quote! { let arm_result = #e; }).unwrap());
                    b.stmts.extend(result);
                    b.stmts.push(Stmt::Expr(syn::parse2(quote! { arm_result }).unwrap(), None));
                }
            }
        }
        let mut v = begin;
        v.extend(std::mem::take(&mut b.stmts));
        v.extend(end);
        b.stmts = v;
        *a.body = syn::parse2(quote!(#b)).unwrap();
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out = vec![];
        for mut s in stmts {
            let t = norm(s.to_token_stream());
            let mut skip = false;
            for (i, d) in self.deletes.iter().enumerate() {
                if t.starts_with(d.as_str()) {
                    self.deleted[i] = true;
                    skip = true;
                }
            }
            if skip {
                continue;
            }
            let mut before = vec![];
            let mut after = vec![];
            let mut counted: Vec<String> = vec![];
            for (is_after, p, occ, idx) in self.pats.clone() {
                if t.starts_with(&p) {
                    if !counted.contains(&p) {
                        *self.seen.entry(p.clone()).or_insert(0) += 1;
                        counted.push(p.clone());
                    }
                    if self.seen[&p] - 1 == occ {
                        self.used[idx] = true;
                        self.texts.push(self.dir.ats[idx].1.clone());
                        let n = self.texts.len() - 1;
                        let st = syn::parse2::<Stmt>(quote!(__anchor!(#n);)).unwrap();
                        if is_after {
                            after.push(st)
                        } else {
                            before.push(st)
                        }
                    }
                }
            }
            syn::visit_mut::visit_stmt_mut(self, &mut s);
            if !after.is_empty() {
                if let Stmt::Expr(_, semi @ None) = &mut s {
                    *semi = Some(Default::default());
                }
            }
            out.extend(before);
            out.push(s);
            out.extend(after);
        }
        b.stmts = out;
    }
}

// ------------------------------------------------------------------ proof by cases

/// Numbers the leaf arms of the matches in tail position; every arm on the way gets the range of the leaves below it.
/// Two leaves are never on the same path, so a path is live in the case of its leaf.
fn mark_leaves(b: &mut Block) -> usize {
    fn block(b: &mut Block, n: &mut usize) -> bool {
        match b.stmts.last_mut() {
            Some(Stmt::Expr(e, None)) => expr(e, n),
            _ => false,
        }
    }
    fn expr(e: &mut Expr, n: &mut usize) -> bool {
        match e {
            Expr::Match(m) => {
                for a in &mut m.arms {
                    let lo = *n;
                    if !expr(&mut a.body, n) {
                        *n += 1;
                    }
                    let id = syn::Ident::new(&format!("leaves_{}_{}", lo, *n), proc_macro2::Span::call_site());
                    a.attrs.push(syn::parse_quote!(#[#id]));
                }
                true
            }
            Expr::Block(x) if x.label.is_none() => block(&mut x.block, n),
            _ => false,
        }
    }
    let mut n = 0;
    block(b, &mut n);
    n
}
struct Cut {
    lo: usize,
    hi: usize,
    all: usize,
    cut: usize,
}
impl VisitMut for Cut {
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        let mark = a.attrs.iter().position(|x| x.path().get_ident().map_or(false, |i| i.to_string().starts_with("leaves_")));
        if let Some(i) = mark {
            let id = a.attrs.remove(i).path().get_ident().unwrap().to_string();
            let v: Vec<usize> = id["leaves_".len()..].split('_').map(|x| x.parse().unwrap()).collect();
            assert!(v[0] < v[1] && v[1] <= self.all);
            if v[1] <= self.lo || self.hi <= v[0] {
                let n = self.cut;
                *a.body = syn::parse2(quote!({ __anchor!(#n); other_case() })).unwrap();
                return;
            }
        }
        syn::visit_mut::visit_arm_mut(self, a);
    }
}

// ------------------------------------------------------------------ finding functions

fn strip_generics_lifetimes(s: String) -> String {
    s
}
fn find_fn(file: &syn::File, path: &str) -> Option<(syn::Signature, Block, proc_macro2::Span)> {
    let want = norm_str(path);
    for it in &file.items {
        match it {
            Item::Fn(f) => {
                if want == format!("{}", f.sig.ident) {
                    return Some((f.sig.clone(), (*f.block).clone(), f.sig.ident.span()));
                }
            }
            Item::Impl(im) => {
                let ty = norm(im.self_ty.to_token_stream());
                let head = match &im.trait_ {
                    Some((_, p, _)) => format!("{}for{}", norm(p.to_token_stream()), ty),
                    None => ty,
                };
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        let full = strip_generics_lifetimes(format!("{}::{}", head, f.sig.ident));
                        // a path written without generic arguments matches any
                        let mut depth = 0;
                        let bare: String = full.chars().filter(|c| { if *c == '<' { depth += 1; } let keep = depth == 0; if *c == '>' { depth -= 1; } keep }).collect();
                        if full == want || bare == want {
                            return Some((f.sig.clone(), f.block.clone(), f.sig.ident.span()));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}
fn rename_self(t: TokenStream) -> TokenStream {
    t.into_iter()
        .map(|x| match x {
            TokenTree::Ident(i) if i == "self" => TokenTree::Ident(proc_macro2::Ident::new("self__", i.span())),
            TokenTree::Group(g) => {
                let mut h = proc_macro2::Group::new(g.delimiter(), rename_self(g.stream()));
                h.set_span(g.span());
                TokenTree::Group(h)
            }
            x => x,
        })
        .collect()
}
fn find_item(file: &syn::File, name: &str) -> Option<Item> {
    file.items.iter().find(|it| match it {
        Item::Struct(s) => s.ident == name,
        Item::Enum(s) => s.ident == name,
        Item::Type(s) => s.ident == name,
        _ => false,
    }).cloned()
}

fn params(sig: &syn::Signature) -> Vec<String> {
    sig.inputs.iter().map(|a| match a {
        syn::FnArg::Receiver(_) => "self".to_string(),
        syn::FnArg::Typed(t) => {
            let s = norm(t.pat.to_token_stream());
            s.strip_prefix("mut").map(|x| x.to_string()).filter(|_| matches!(&*t.pat, syn::Pat::Ident(i) if i.mutability.is_some())).unwrap_or(s)
        }
    }).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut segs = vec![];
    read_template(&a[1], &mut segs);
    let repo = &a[2];
    let mut files: HashMap<String, syn::File> = HashMap::new();
    let mut lost: Vec<String> = vec![];
    let mut fns = vec![];
    let mut out = String::new();
    let mut global: Vec<Rule> = vec![];
    for s in &segs {
        if let Seg::Rewrite(x, y) = s {
            global.push(mkrule(x, y));
        }
    }
    for s in segs {
        match s {
            Seg::Raw(r) => out.push_str(&r),
            Seg::Rewrite(..) => {}
            Seg::Item(m) => {
                let src = m["src"].clone();
                if !load(&mut files, repo, &src, &mut lost) {
                    continue;
                }
                match find_item(&files[&src], &m["name"]) {
                    None => lost.push(format!("item {} in {}", m["name"], src)),
                    Some(mut it) => {
                        let drop: Vec<String> = m.get("drop").map(|d| d.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
                        let (attrs, vis) = match &mut it {
                            Item::Struct(s) => (&mut s.attrs, &mut s.vis),
                            Item::Enum(s) => (&mut s.attrs, &mut s.vis),
                            Item::Type(s) => (&mut s.attrs, &mut s.vis),
                            _ => unreachable!(),
                        };
                        attrs.clear();
                        *vis = syn::parse_quote!(pub);
                        if let Item::Struct(s) = &mut it {
                            if let syn::Fields::Named(f) = &mut s.fields {
                                f.named = std::mem::take(&mut f.named).into_iter().filter(|x| !drop.contains(&x.ident.as_ref().unwrap().to_string())).map(|mut x| {
                                    x.vis = syn::parse_quote!(pub);
                                    if let Some(t) = m.get(&format!("ty.{}", x.ident.as_ref().unwrap())) {
                                        x.ty = syn::parse_str(t).unwrap();
                                    }
                                    x
                                }).collect();
                                if let Some(add) = m.get("add") {
                                    let extra: syn::FieldsNamed = syn::parse_str(&format!("{{ {} }}", add)).unwrap();
                                    f.named.extend(extra.named);
                                }
                            }
                            if let Some(g) = m.get("generics") {
                                s.generics = syn::parse_str(g).unwrap();
                                s.generics.where_clause = None;
                            }
                        }
                        if let Item::Enum(s) = &mut it {
                            for v in &mut s.variants {
                                v.attrs.clear();
                            }
                        }
                        if let Some(x) = m.get("attrs") {
                            out.push_str(x);
                            out.push('\n');
                        }
                        let empty = BTreeMap::new();
                        let none = vec![];
                        let mut p = Printer { out: String::new(), loops: &empty, texts: &none };
                        p.stream(&tts(it.to_token_stream()));
                        out.push_str(&p.out);
                        out.push('\n');
                    }
                }
            }
            Seg::Fn(d) => {
                if !load(&mut files, repo, &d.src, &mut lost) {
                    continue;
                }
                let (sig, mut block, span) = match find_fn(&files[&d.src], &d.path) {
                    Some(x) => x,
                    None => {
                        lost.push(format!("{}: function {} not found in {}", d.id, d.path, d.src));
                        continue;
                    }
                };
                if matches!(sig.inputs.first(), Some(syn::FnArg::Receiver(r)) if r.mutability.is_some() && r.reference.is_none()) {
                    // `mut self`: the verifier wants an immutable receiver; the body works on a mutable copy of it
                    let t = rename_self(block.to_token_stream());
                    block = syn::parse2(t).unwrap();
                    let st: Stmt = syn::parse2(quote! { let mut self__ = self; }).unwrap();
                    block.stmts.insert(0, st);
                }
                let mut rules: Vec<Rule> = d.rewrites.iter().map(|(x, y)| mkrule(x, y)).collect();
                let nlocal = rules.len();
                for r in &global {
                    rules.push(Rule { pat: r.pat.clone(), kind: r.kind, rep: r.rep.clone(), text: r.text.clone() });
                }
                let _ = nlocal;
                let mut texts: Vec<String> = vec![];
                let mut used = vec![false; d.ats.len()];
                // statement anchors are found in the text as it stands in the repository
                let mut pats = vec![];
                let mut arms = vec![];
                for (i, (k, _)) in d.ats.iter().enumerate() {
                    for (pre, is_after) in [("before ", false), ("after ", true)] {
                        if let Some(r) = k.strip_prefix(pre) {
                            let (t, occ) = match r.rsplit_once(" #") {
                                Some((t, n)) => (t, n.trim().parse().unwrap()),
                                None => (r, 0),
                            };
                            pats.push((is_after, partial_norm(t), occ, i));
                        }
                    }
                    for (pre, is_end) in [("arm.begin ", 0u8), ("arm.end ", 1), ("arm.result ", 2)] {
                        if let Some(r) = k.strip_prefix(pre) {
                            let (t, occ) = match r.rsplit_once(" #") {
                                Some((t, n)) => (t, n.trim().parse().unwrap()),
                                None => (r, 0),
                            };
                            arms.push((is_end, partial_norm(t), occ, i));
                        }
                    }
                }
                let nleaves = if d.split.is_some() { mark_leaves(&mut block) } else { 0 };
                let deletes: Vec<String> = d.stmt_deletes.iter().map(|s| partial_norm(s)).collect();
                let nd = deletes.len();
                let mut sa = StmtAnchors { pats, arms, seen: HashMap::new(), dir: &d, texts: &mut texts, used: &mut used, deletes, deleted: vec![false; nd] };
                sa.visit_block_mut(&mut block);
                for (i, x) in sa.deleted.iter().enumerate() {
                    if !x {
                        lost.push(format!("{}: statement to drop not found: {}", d.id, d.stmt_deletes[i]));
                    }
                }
                let mut rw = Rw { rules: &rules, used: BTreeMap::new(), err: None };
                rw.visit_block_mut(&mut block);
                if let Some(e) = rw.err {
                    lost.push(format!("{}: {}", d.id, e));
                }
                let rules_used = rw.used;
                let mut lp = Loops { n: 0, dir: &d, texts: &mut texts, used: &mut used };
                for st in &mut block.stmts {
                    lp.visit_stmt_mut(st);
                }
                let nloops = lp.n;
                let begin = lp.at("begin");
                let end = lp.at("end");
                let result = lp.at("result");
                let mut stmts = begin;
                let mut body = std::mem::take(&mut block.stmts);
                if !end.is_empty() || !result.is_empty() {
                    let tail = match body.last() {
                        Some(Stmt::Expr(_, None)) => body.pop(),
                        _ => None,
                    };
                    stmts.extend(body);
                    stmts.extend(end);
                    if let Some(t) = tail {
                        if result.is_empty() {
                            stmts.push(t);
                        } else {
                            let Stmt::Expr(t, _) = t else { unreachable!() };
                            stmts.push(syn::parse2(quote!(let result = #t;)).unwrap());
                            stmts.extend(result);
                            stmts.push(Stmt::Expr(syn::parse_quote!(result), None));
                        }
                    } else {
                        stmts.extend(result);
                    }
                } else {
                    stmts.extend(body);
                }
                block.stmts = stmts;
                for (i, u) in used.iter().enumerate() {
                    if !u && !d.ats[i].0.ends_with(".continue") {
                        lost.push(format!("{}: anchor not found: {}", d.id, d.ats[i].0));
                    }
                }
                if let Some((k, _)) = d.loops.iter().next_back() {
                    if *k >= nloops {
                        lost.push(format!("{}: loop {} not found ({} loops)", d.id, k, nloops));
                    }
                }
                if let Some(n) = d.nloops {
                    if n != nloops {
                        lost.push(format!("{}: {} loops instead of {}", d.id, nloops, n));
                    }
                }
                // vacuity probe: a false assertion that must be refuted (never present in the checked text)
                if std::env::var("VACUITY").is_ok() {
                    // every body and every loop body is proved from its own premises: none of these may hold
                    let mut probe = |mode: String| -> Stmt {
                        texts.push(format!("proof {{ assert(false); }} // PROBE {} {}\n", d.id, mode));
                        let n = texts.len() - 1;
                        syn::parse2(quote!(__anchor!(#n);)).unwrap()
                    };
                    for k in 0..64 {
                        let probe = probe(format!("loop{}", k));
                        ProbeLoop { k, probe }.visit_block_mut(&mut block);
                    }
                    let at = block.stmts.iter().take_while(|s| norm(s.to_token_stream()).starts_with("__anchor!")).count();
                    block.stmts.insert(at, probe("begin".to_string()));
                }
                let header = match &d.sig {
                    Some(s) => {
                        // the parameters must still be the ones the contract talks about
                        let names: Vec<String> = params(&sig);
                        for n in &names {
                            if n != "_" && !s.contains(n.as_str()) {
                                lost.push(format!("{}: parameter {} unknown to the contract", d.id, n));
                            }
                        }
                        s.clone()
                    }
                    None => {
                        let mut s = sig.clone();
                        let ret = match &s.output {
                            syn::ReturnType::Default => String::new(),
                            syn::ReturnType::Type(_, t) => format!(" -> (r: {})", t.to_token_stream()),
                        };
                        s.output = syn::ReturnType::Default;
                        let wh = s.generics.where_clause.take();
                        format!("pub {}{} {}", s.to_token_stream(), ret, wh.map(|w| w.to_token_stream().to_string()).unwrap_or_default())
                    }
                };
                let first = out.lines().count() + 1;
                out.push_str(&format!("// extracted: {} {}\n", d.src, d.path));
                match &d.split {
                    None => {
                        let mut p = Printer { out: String::new(), loops: &d.loops, texts: &texts };
                        p.stream(&tts(block.to_token_stream()));
                        out.push_str(&format!("{}{}\n{}{}\n", d.attrs, header, d.spec, p.out));
                    }
                    Some((per, args)) => {
                        // The function is proved by cases: every leaf arm is live in one case and cut (assumed unreachable) in the others;
                        // the function itself is an arbitrary choice between the cases, so that all of them meet its contract.
                        let name = header[header.find("fn ").unwrap() + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>();
                        let ncases = ((nleaves + per - 1) / per).max(1);
                        out.push_str(&format!("{}{}\n{}{{\n", d.attrs, header, d.spec.replace("CASE_LEVEL", "1int")));
                        for c in 1..ncases {
                            out.push_str(&format!("    if any_case() {{ return {}__case{}({}); }}\n", name, c, args));
                        }
                        out.push_str(&format!("    {}__case0({})\n}}\n", name, args));
                        texts.push("assume(false);".to_string());
                        let cut = texts.len() - 1;
                        for c in 0..ncases {
                            let mut b = block.clone();
                            Cut { lo: c * per, hi: (c + 1) * per, all: nleaves, cut }.visit_block_mut(&mut b);
                            let mut p = Printer { out: String::new(), loops: &d.loops, texts: &texts };
                            p.stream(&tts(b.to_token_stream()));
                            let h = header.replacen(&format!("fn {}", name), &format!("fn {}__case{}", name, c), 1);
                            out.push_str(&format!("{}{}\n{}{}\n", d.attrs, h, d.spec.replace("CASE_LEVEL", "0int"), p.out));
                        }
                    }
                }
                let last = out.lines().count();
                fns.push(json!({"id": d.id, "src": d.src, "path": d.path, "line": span.start().line, "props": d.props, "first": first, "last": last, "loops": nloops, "rewrites": rules_used}));
            }
        }
    }
    std::fs::write(&a[3], out).unwrap();
    std::fs::write(&a[4], serde_json::to_string_pretty(&json!({"functions": fns, "lost": lost})).unwrap()).unwrap();
    for l in &lost {
        eprintln!("lost: {}", l);
    }
}
fn load(files: &mut HashMap<String, syn::File>, repo: &str, src: &str, lost: &mut Vec<String>) -> bool {
    if files.contains_key(src) {
        return true;
    }
    match std::fs::read_to_string(format!("{}/{}", repo, src)).map_err(|e| e.to_string()).and_then(|t| syn::parse_file(&t).map_err(|e| e.to_string())) {
        Ok(f) => {
            files.insert(src.to_string(), f);
            true
        }
        Err(e) => {
            lost.push(format!("{}: {}", src, e));
            false
        }
    }
}
/// Statement prefixes may have unbalanced brackets, so they are normalized textually.
fn partial_norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join("")
}
