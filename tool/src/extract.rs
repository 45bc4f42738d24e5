//! Mechanical extraction of /repo/src into a Verus crate: the text of the functions is kept,
//! spliced with contracts, and a fixed list of syntactic rewrites (see DESIGN.md) is applied.
use crate::contracts::{self, Contract};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use quote::ToTokens;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Clone, Debug)]
pub enum Piece {
    T(String),
    S(usize, usize),
}
use Piece::*;

#[derive(Clone, Debug)]
struct Ed {
    s: usize,
    e: usize,
    p: Vec<Piece>,
}

#[derive(Clone, Debug, Default)]
pub struct FnInfo {
    pub key: String,
    pub file: String,
    pub line: usize,
    pub contracted: bool,
    pub owners: Vec<String>,
    pub nloops: usize,
    pub shape_ok: bool,
    pub out_start: usize,
    pub out_end: usize,
    pub calls: BTreeSet<String>,
    pub external: bool,
    /// one of several copies of the function, each for some arms of its largest match
    pub case: Option<usize>,
    pub split: usize,
}

#[derive(Default)]
pub struct Extracted {
    pub files: Vec<(String, String)>,
    /// for lib.rs: output line (0-based) -> (file, source line)
    pub linemap: Vec<(String, usize)>,
    pub fns: Vec<FnInfo>,
    pub notes: Vec<String>,
    /// things in the source that the extraction had to leave out or cannot represent
    pub unsupported: Vec<String>,
    pub missing: Vec<String>,
    pub flags: BTreeMap<String, Vec<(String, u64)>>,
}

struct Out {
    text: String,
    map: Vec<(String, usize)>,
}

impl Out {
    fn new() -> Self {
        Out { text: String::new(), map: vec![(String::new(), 0)] }
    }
    fn push(&mut self, s: &str, file: &str, mut line: usize) {
        for c in s.chars() {
            self.text.push(c);
            let last = self.map.last_mut().unwrap();
            if last.1 == 0 && line != 0 && !c.is_whitespace() {
                *last = (file.to_string(), line);
            }
            if c == '\n' {
                self.map.push((String::new(), 0));
                if line != 0 {
                    line += 1;
                }
            }
        }
    }
    fn line(&self) -> usize {
        self.map.len() - 1
    }
}

struct FileCtx {
    name: String,
    module: String,
    src: String,
    lines: Vec<usize>,
}

impl FileCtx {
    fn line_of(&self, off: usize) -> usize {
        match self.lines.binary_search(&off) {
            Ok(i) => i + 1,
            Err(i) => i,
        }
    }
    fn txt(&self, r: (usize, usize)) -> &str {
        &self.src[r.0..r.1]
    }
}

fn rng<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

fn cfg_value(attrs: &[syn::Attribute], ts: bool) -> Option<bool> {
    for a in attrs {
        if a.path().is_ident("cfg") {
            let s = match &a.meta {
                syn::Meta::List(l) => l.tokens.to_string().replace(' ', ""),
                _ => return Some(false),
            };
            return Some(match s.as_str() {
                "test" => false,
                "feature=\"threadsafe\"" => ts,
                "not(feature=\"threadsafe\")" => !ts,
                _ => false,
            });
        }
    }
    None
}

fn has_derive(attrs: &[syn::Attribute], what: &str) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("derive")
            && match &a.meta {
                syn::Meta::List(l) => l.tokens.to_string().split(',').any(|x| x.trim() == what),
                _ => false,
            }
    })
}

/// A function whose largest match is verified in groups of arms: its contract, and one copy of the
/// function per group in which the other arms are cut off. Every path of the function through the
/// match is a path of exactly one copy; the loop invariants make the copies independent.
fn emit_split(out: &mut Out, tmp: &Out, f: FnInfo, fns: &mut Vec<FnInfo>, seen: &mut BTreeSet<String>) {
    const CUT: &str = " { proof { assume(false); } vstd::pervasive::unreached() }";
    seen.insert(f.key.clone());
    let text = &tmp.text;
    let mut map: Vec<(String, usize)> = tmp.map.clone();
    map.pop();
    let mut put = |out: &mut Out, s: &str, info: FnInfo, fns: &mut Vec<FnInfo>| {
        let a = out.line();
        out.push(s, "", 0);
        for (i, m) in map.iter().enumerate() {
            if a + i < out.map.len() {
                out.map[a + i] = m.clone();
            }
        }
        fns.push(FnInfo { out_start: a, out_end: out.line(), ..info });
    };
    let strip = |s: &str| s.replace("/*@name*/", "").replace("/*@body*/", "").replace("/*@<*/", "").replace("/*@>*/", "");
    let b = text.find("/*@body*/").unwrap_or(text.len());
    let sig = strip(&text[..b]).replace("#[verifier::spinoff_prover]", "#[verifier::external_body]");
    // pieces outside and inside of arms
    let mut outer: Vec<&str> = vec![];
    let mut arms: Vec<&str> = vec![];
    let mut rest: &str = text;
    while let Some(i) = rest.find("/*@<*/") {
        let j = i + rest[i..].find("/*@>*/").unwrap_or(0);
        outer.push(&rest[..i]);
        arms.push(&rest[i..j]);
        rest = &rest[j..];
    }
    outer.push(rest);
    let weight = |s: &str| 1 + 4 * s.matches('?').count() + s.len() / 60;
    let total: usize = arms.iter().map(|s| weight(s)).sum();
    let mut acc = 0;
    let group: Vec<usize> = arms
        .iter()
        .map(|s| {
            let g = (acc * f.split / total.max(1)).min(f.split - 1);
            acc += weight(s);
            g
        })
        .collect();
    for k in 0..f.split {
        let mut s = String::new();
        for (i, a) in arms.iter().enumerate() {
            s.push_str(outer[i]);
            if group[i] == k {
                s.push_str(a);
            } else {
                s.push_str(CUT);
                for _ in 0..a.matches('\n').count() {
                    s.push('\n');
                }
                s.push(',');
            }
        }
        s.push_str(outer[outer.len() - 1]);
        let s = strip(&s.replacen("/*@name*/", &format!("__case{}", k), 1));
        put(out, &s, FnInfo { case: Some(k), ..f.clone() }, fns);
    }
    put(out, &format!("{}{{ unimplemented!() }}\n", sig), FnInfo { case: Some(f.split), ..f.clone() }, fns);
}

/// Is this trait implementation turned into inherent functions?
const INHERENT: &[&str] =
    &["TryFrom", "Deref", "From", "Iterator", "Default", "CafeCellDeref", "Display"];

struct V<'a> {
    f: &'a FileCtx,
    ts: bool,
    contracts: &'a BTreeMap<String, Contract>,
    eds: Vec<Ed>,
    fns: Vec<FnInfo>,
    unsupported: Vec<String>,
    // current function
    cur: Option<Contract>,
    curfn: FnInfo,
    loop_no: usize,
    params: Vec<String>,
    mutref: Option<String>,
    lets: Vec<String>,
    letmuts: Vec<String>,
    flags: Vec<String>,
    counters: Vec<((usize, usize), String, String)>,
    prefix: String,
    assoc: BTreeMap<String, String>,
    in_trait_inherent: bool,
    probes: bool,
    nprobe: usize,
}

fn pat_ident(p: &syn::Pat) -> Option<String> {
    match p {
        syn::Pat::Ident(i) => Some(i.ident.to_string()),
        syn::Pat::Type(t) => pat_ident(&t.pat),
        _ => None,
    }
}

fn last_seg(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

struct LetScan {
    lets: Vec<String>,
    muts: Vec<String>,
    /// `let mut x = false;`
    flags: Vec<String>,
}
impl<'ast> Visit<'ast> for LetScan {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        let p = match &l.pat {
            syn::Pat::Type(t) => &*t.pat,
            p => p,
        };
        if let syn::Pat::Ident(i) = p {
            if i.mutability.is_some() {
                self.muts.push(i.ident.to_string());
                if let Some(init) = &l.init {
                    if matches!(&*init.expr, syn::Expr::Lit(l) if matches!(&l.lit, syn::Lit::Bool(b) if !b.value)) {
                        self.flags.push(i.ident.to_string());
                    }
                }
            } else {
                self.lets.push(i.ident.to_string());
            }
        }
        visit::visit_local(self, l);
    }
}

/// does the body contain a `continue` of this very loop?
struct LoopCount(usize);
impl<'ast> Visit<'ast> for LoopCount {
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        self.0 += 1;
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        self.0 += 1;
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        self.0 += 1;
        visit::visit_expr_loop(self, l);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if m.method == "fold" && m.args.len() == 2 {
            if let (syn::Expr::MethodCall(m2), syn::Expr::Closure(c)) = (&*m.receiver, &m.args[1]) {
                if m2.method == "iter" && c.inputs.len() == 2 {
                    self.0 += 1;
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
}

/// the match with the most arms
struct MatchScan {
    best: Option<Vec<(usize, usize)>>,
}
impl<'ast> Visit<'ast> for MatchScan {
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        let n = m.arms.len();
        if self.best.as_ref().map(|b| b.len() < n).unwrap_or(true) {
            let mut v = vec![];
            for (i, a) in m.arms.iter().enumerate() {
                let from = rng(&a.fat_arrow_token).1;
                let to = if i + 1 < n { rng(&m.arms[i + 1]).0 } else { m.brace_token.span.close().byte_range().start };
                v.push((from, to));
            }
            self.best = Some(v);
        }
        visit::visit_expr_match(self, m);
    }
}
struct Exits(bool);
impl<'ast> Visit<'ast> for Exits {
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        // of the crate's macros, `fail!` returns; and any argument may
        let t = m.mac.tokens.to_string();
        if m.mac.path.is_ident("fail") || t.contains('?') && !t.contains('"') || t.contains("return") {
            self.0 = true;
        }
    }
}
fn exits(e: &syn::Expr) -> bool {
    let mut x = Exits(false);
    x.visit_expr(e);
    x.0
}

struct ContScan {
    found: bool,
}
impl<'ast> Visit<'ast> for ContScan {
    fn visit_expr_continue(&mut self, _c: &'ast syn::ExprContinue) {
        self.found = true;
    }
    fn visit_expr_for_loop(&mut self, _l: &'ast syn::ExprForLoop) {}
    fn visit_expr_while(&mut self, _l: &'ast syn::ExprWhile) {}
    fn visit_expr_loop(&mut self, _l: &'ast syn::ExprLoop) {}
    fn visit_expr_closure(&mut self, _l: &'ast syn::ExprClosure) {}
}
fn as_while(inv: &str, extra: &str, dec: &str) -> String {
    let t = inv.trim();
    match t.strip_prefix("invariant") {
        Some(rest) => format!("invariant {}, {}\ndecreases {},", extra, if rest.trim_end().ends_with(',') { rest.to_string() } else { format!("{},", rest) }, dec),
        None => format!("invariant {},\n{}\ndecreases {},", extra, t, dec),
    }
}

struct PushScan {
    recv: Vec<String>,
    depth: usize,
}
impl<'ast> Visit<'ast> for PushScan {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if m.method == "push" && self.depth == 0 {
            if let syn::Expr::Path(p) = &*m.receiver {
                self.recv.push(last_seg(&p.path));
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        self.depth += 1;
        visit::visit_expr_for_loop(self, l);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        self.depth += 1;
        visit::visit_expr_while(self, l);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        self.depth += 1;
        visit::visit_expr_loop(self, l);
        self.depth -= 1;
    }
}

fn subst(text: &str, map: &[(String, String)]) -> String {
    let mut m: Vec<&(String, String)> = map.iter().collect();
    m.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
    let mut out = String::new();
    let b = text.as_bytes();
    let mut i = 0;
    'o: while i < b.len() {
        if b[i] == b'$' {
            for (k, v) in &m {
                if text[i + 1..].starts_with(k.as_str()) {
                    out.push_str(v);
                    i += 1 + k.len();
                    continue 'o;
                }
            }
        }
        let c = text[i..].chars().next().unwrap();
        out.push(c);
        i += c.len_utf8();
    }
    out
}

impl<'a> V<'a> {
    fn ed(&mut self, r: (usize, usize), p: Vec<Piece>) {
        self.eds.push(Ed { s: r.0, e: r.1, p });
    }
    fn ins(&mut self, at: usize, t: String) {
        self.eds.push(Ed { s: at, e: at, p: vec![T(t)] });
    }
    /// Everything is public in the extracted text (specifications mention private fields).
    fn publish(&mut self, vis: &syn::Visibility, at: usize) {
        match vis {
            syn::Visibility::Inherited => self.ins(at, "pub ".into()),
            v => self.ed(rng(v), vec![T("pub".into())]),
        }
    }
    fn strip_attrs(&mut self, attrs: &[syn::Attribute]) {
        for a in attrs {
            let r = rng(a);
            self.ed(r, vec![]);
        }
    }
    fn base_map(&self) -> Vec<(String, String)> {
        let mut m = vec![];
        for (i, p) in self.params.iter().enumerate() {
            m.push((format!("{}", i), p.clone()));
        }
        for (i, p) in self.letmuts.iter().enumerate() {
            m.push((format!("m{}", i), p.clone()));
        }
        for (i, p) in self.lets.iter().enumerate() {
            m.push((format!("l{}", i), p.clone()));
        }
        // the one flag of a function that has one
        m.push(("flag".into(), if self.flags.len() == 1 { self.flags[0].clone() } else { "false".into() }));
        m
    }
    /// Contract pieces for the loop `no`, given the role map; returns (before, clauses, head, tail, after)
    fn loop_text(&mut self, no: usize, roles: &[(String, String)]) -> (String, String, String, String, String) {
        let c = match &self.cur {
            Some(c) => c.clone(),
            None => return Default::default(),
        };
        let l = match c.loops.get(&no) {
            Some(l) => l.clone(),
            None => return Default::default(),
        };
        let mut m = self.base_map();
        m.extend(roles.iter().cloned());
        let mut before = l.before.clone();
        let mut inv = l.inv.clone();
        let mut head = l.head.clone();
        let mut after = l.after.clone();
        if let Some(rep) = &l.rep {
            // NAME(args)
            let ixe = match &self.mutref {
                Some(p) => format!("(*{} as int)", p),
                None => "($m1 as int)".to_string(),
            };
            before.push_str(&format!("let ghost ixl{no}_ = {ixe};\n"));
            let open = rep.find('(').unwrap_or(rep.len());
            let name = &rep[..open];
            let args = rep[open..].trim();
            let args = args.strip_prefix('(').unwrap_or(args);
            let args = args.strip_suffix(')').unwrap_or(args);
            let sep = if args.trim().is_empty() { "" } else { ", " };
            let i = roles.iter().find(|r| r.0 == "i").map(|_| "$i").unwrap_or("0");
            inv = format!(
                "invariant {ok} {name}({args}{sep}{ixe}, $n - {i}, $v@) == {name}({args}{sep}ixl{no}_, $n as int, Seq::empty()), $v@.len() == {i}, ixl{no}_ <= {ixe} <= {b}.len(),\n{rest}",
                ok = "",
                b = self.params.first().cloned().unwrap_or_default(),
                rest = inv
            );
            head = format!("proof {{ lemma_{name}({args}{sep}{ixe}, ($n - {i}) as int, $v@); }}\n{head}");
            after = format!("proof {{ lemma_{name}({args}{sep}{ixe}, 0int, $v@); }}\n{after}");
        }
        (
            subst(&before, &m),
            subst(&inv, &m),
            subst(&head, &m),
            subst(&l.tail, &m),
            subst(&after, &m),
        )
    }

    fn do_fn(&mut self, vis: &syn::Visibility, sig: &syn::Signature, block: &syn::Block, key: String) {
        let at0 = match vis {
            syn::Visibility::Inherited => rng(sig).0,
            v => rng(v).0,
        };
        let at1 = at0;
        let named = |var: &str| std::env::var(var).map(|v| v.split(',').any(|x| x == key)).unwrap_or(false);
        // functions the verifier could not be given: contract assumed (external), or no contract at all
        let drop = named("CBV_DROP");
        let mut c = self.contracts.get(&key).cloned();
        if drop {
            c = None;
        }
        let mut degrade = drop || named("CBV_EXTERNAL") || c.is_none();
        if let Some(x) = c.as_mut() {
            let mut lc = LoopCount(0);
            lc.visit_block(block);
            let want = x.loops.keys().max().map(|x| x + 1).unwrap_or(0);
            if want != lc.0 && !(x.optional && lc.0 == 0) && std::env::var("CBV_DEV").is_err() {
                degrade = true;
            }
            if degrade {
                x.external = true;
            }
        }
        self.curfn = FnInfo {
            key: key.clone(),
            file: self.f.name.clone(),
            line: self.f.line_of(rng(sig).0),
            contracted: c.is_some(),
            owners: c.as_ref().map(|c| c.owners.clone()).unwrap_or_default(),
            shape_ok: true,
            external: c.as_ref().map(|c| c.external).unwrap_or(false),
            ..Default::default()
        };
        self.cur = c.clone();
        self.nprobe = 0;
        self.loop_no = 0;
        self.params.clear();
        self.mutref = None;
        for a in &sig.inputs {
            match a {
                syn::FnArg::Receiver(_) => self.params.push("self".into()),
                syn::FnArg::Typed(t) => {
                    let n = pat_ident(&t.pat).unwrap_or("_".into());
                    if let syn::Type::Reference(r) = &*t.ty {
                        if r.mutability.is_some() && self.mutref.is_none() {
                            if let syn::Type::Path(p) = &*r.elem {
                                if p.path.is_ident("usize") {
                                    self.mutref = Some(n.clone());
                                }
                            }
                        }
                    }
                    self.params.push(n);
                }
            }
        }
        let mut ls = LetScan { lets: vec![], muts: vec![], flags: vec![] };
        ls.visit_block(block);
        self.lets = ls.lets;
        self.letmuts = ls.muts;
        self.flags = ls.flags;
        let mut cn = Counters::default();
        cn.visit_block(block);
        self.counters = cn.found;
        if let syn::ReturnType::Type(_, t) = &sig.output {
            let r = rng(t);
            self.ins(r.0, "(r: ".into());
            self.ins(r.1, ")".into());
        }
        let br = rng(block);
        let m = self.base_map();
        if let Some(c) = &c {
            let mut at = c.attr.trim().to_string();
            if c.external {
                at.push_str(" #[verifier::external_body]");
            } else {
                at.push_str(" #[verifier::spinoff_prover]");
            }
            if !at.is_empty() {
                self.ins(at0, format!("{} ", at));
            }
            let spec = subst(&c.spec, &m);
            let mut ms = MatchScan { best: None };
            if c.split > 1 && !c.external {
                ms.visit_block(block);
            }
            let arms = ms.best.unwrap_or_default();
            let split = arms.len() >= c.split && c.split > 1;
            self.ins(br.0, format!("\n{}\n{}", spec.trim_end(), if split { "/*@body*/" } else { "" }));
            if split {
                self.curfn.split = c.split;
                self.ins(rng(&sig.ident).1, "/*@name*/".into());
                for a in &arms {
                    self.ins(a.0, "/*@<*/".into());
                    self.ins(a.1, "/*@>*/".into());
                }
            }
            if !c.body.trim().is_empty() {
                let b = subst(&c.body, &m);
                self.ins(br.0 + 1, format!("\n{}\n", b.trim_end()));
            }
        }
        if c.is_none() {
            self.ins(at0, "#[verifier::external_body] ".into());
        }
        if !self.in_trait_inherent {
            self.publish(vis, at1);
        }
        for (i, s) in block.stmts.iter().enumerate() {
            if i == 0 || !matches!(s, syn::Stmt::Item(_)) && !self.f.txt(rng(s)).starts_with('#') {
                self.probe(if i == 0 { br.0 + 1 } else { rng(s).0 });
            }
            self.visit_stmt(s);
        }
        self.curfn.nloops = self.loop_no;
        if let Some(c) = &c {
            let want = c.loops.keys().max().map(|x| x + 1).unwrap_or(0);
            if want != self.loop_no && !(c.optional && self.loop_no == 0) {
                self.curfn.shape_ok = false;
            }
        } else if self.loop_no > 0 {
            self.curfn.shape_ok = false;
        }
        if degrade {
            self.curfn.external = true;
            self.eds.retain(|e| e.e <= br.0 || e.s >= br.1);
            self.eds.push(Ed { s: br.0, e: br.1, p: vec![T("{ unimplemented!() }".into())] });
        }
        let fi = std::mem::take(&mut self.curfn);
        self.fns.push(fi);
        self.cur = None;
    }

    /// CBV_PROBE: ask the verifier, here, for something false (see scripts/probe.py)
    fn probe(&mut self, at: usize) {
        if self.probes && self.cur.as_ref().map(|c| !c.external).unwrap_or(false) {
            self.nprobe += 1;
            let want = std::env::var("CBV_PROBE").unwrap_or_default();
            if want != "1" && !want.split(',').any(|w| w == format!("{}#{}", self.curfn.key, self.nprobe)) {
                return;
            }
            self.ins(at, format!("\nproof {{ if crate::shim::probe_({}int) {{ assert(false); }} }}\n", self.nprobe));
        }
    }

    fn brace_in(&self, block: &syn::Block) -> (usize, usize) {
        let r = rng(block);
        (r.0 + 1, r.1 - 1)
    }

    fn for_loop(&mut self, l: &syn::ExprForLoop) {
        let no = self.loop_no;
        self.loop_no += 1;
        let whole = rng(l);
        let body = self.brace_in(&l.body);
        let mut ps = PushScan { recv: vec![], depth: 0 };
        for s in &l.body.stmts {
            ps.visit_stmt(s);
        }
        let mut cs = ContScan { found: false };
        for s in &l.body.stmts {
            cs.visit_stmt(s);
        }
        let conts = cs.found;
        let mut roles: Vec<(String, String)> = vec![];
        if let Some(v) = ps.recv.last() {
            roles.push(("v".into(), v.clone()));
        } else if let Some(v) = sums(&l.body) {
            roles.push(("v".into(), v));
        }
        let label = l.label.as_ref().map(|x| rng(x));
        let lab: Vec<Piece> = label.map(|x| vec![S(x.0, x.1), T(" ".into())]).unwrap_or_default();
        // strip references/parentheses
        let mut it: &syn::Expr = &l.expr;
        while let syn::Expr::Paren(p) = it {
            it = &p.expr;
        }
        if let syn::Expr::Range(r) = it {
            let (mut iname, patp) = match &*l.pat {
                syn::Pat::Ident(i) => (i.ident.to_string(), vec![S(rng(&l.pat).0, rng(&l.pat).1)]),
                _ => (format!("i{}_", no), vec![T(format!("i{}_", no))]),
            };
            if iname == "_" {
                iname = format!("i{}_", no);
            }
            let half = matches!(r.limits, syn::RangeLimits::HalfOpen(_)) && r.start.is_some() && r.end.is_some();
            let conts = conts && half;
            let src_name = iname.clone();
            let closed = matches!(r.limits, syn::RangeLimits::Closed(_)) && r.start.is_some() && r.end.is_some();
            if closed {
                iname = format!("(if q{no}_ {{ c{no}_ as int }} else {{ e{no}_ + 1 }})");
            }
            if conts {
                iname = format!("c{}_", no);
            }
            // contracts count the iterations from 0
            let from = match r.start.as_deref() {
                Some(syn::Expr::Lit(l)) => match &l.lit {
                    syn::Lit::Int(i) if i.base10_digits() != "0" => Some(i.base10_digits().to_string()),
                    _ => None,
                },
                _ => None,
            };
            roles.push(("i".into(), match &from {
                Some(s) => format!("({iname} - {s})"),
                None => iname.clone(),
            }));
            if let Some(e) = &r.end {
                let e = self.f.txt(rng(e));
                roles.push(("n".into(), match &from {
                    Some(s) => format!("({e} - {s}{})", if half { "" } else { " + 1" }),
                    None if half => format!("({e})"),
                    None => format!("({e} + 1)"),
                }));
            }
            if let Some(e) = &r.start {
                roles.push(("s".into(), format!("({})", self.f.txt(rng(e)))));
            }
            if let (Some(b), Some(e)) = (&r.start, &r.end) {
                if let (Some(x), "0" | "0usize" | "0_usize") = (len_of(e), self.f.txt(rng(&**b))) {
                    roles.retain(|r| r.0 != "s");
                    roles.push(("s".into(), format!("({})", self.f.txt(rng(x)))));
                }
            }
            let (before, inv, head, tail, after) = self.loop_text(no, &roles);
            let inv = self.counted(whole, inv, &iname);
            let er = rng(&l.expr);
            if closed {
                let (sr, nr) = (rng(r.start.as_ref().unwrap()), rng(r.end.as_ref().unwrap()));
                let mut p = vec![T(format!("let e{no}_ = ")), S(nr.0, nr.1), T(format!(";\nlet mut c{no}_ = e{no}_;\nc{no}_ = ")), S(sr.0, sr.1), T(format!(";\nlet ghost b{no}_ = c{no}_; let mut q{no}_ = c{no}_ <= e{no}_;\n{before}"))];
                p.extend(lab);
                p.push(T(format!("while q{no}_\n{} {{ {}let {} = c{no}_; if c{no}_ == e{no}_ {{ q{no}_ = false; }} else {{ c{no}_ += 1; }} ", as_while(&inv, &format!("b{no}_ <= c{no}_, q{no}_ ==> c{no}_ <= e{no}_"), &format!("e{no}_ + 1 - {iname}")), head, src_name)));
                p.push(S(body.0, body.1));
                p.push(T(format!("{} }}\n{}", tail, after)));
                self.ed(whole, p);
                visit::visit_expr(self, &l.expr);
                self.visit_block(&l.body);
                return;
            }
            if conts {
                let (sr, nr) = (rng(r.start.as_ref().unwrap()), rng(r.end.as_ref().unwrap()));
                let mut p = vec![T(format!("let e{no}_ = ")), S(nr.0, nr.1), T(format!(";\nlet mut c{no}_ = e{no}_;\nc{no}_ = ")), S(sr.0, sr.1), T(format!(";\nlet ghost b{no}_ = c{no}_;\n{before}"))];
                p.extend(lab);
                p.push(T(format!("while c{no}_ < e{no}_\n{} {{ {}let {} = c{no}_; c{no}_ += 1; ", as_while(&inv, &format!("b{no}_ <= c{no}_, c{no}_ <= e{no}_ || c{no}_ == b{no}_"), &format!("e{no}_ - c{no}_")), head, src_name)));
                p.push(S(body.0, body.1));
                p.push(T(format!("{} }}\n{}", tail, after)));
                self.ed(whole, p);
                visit::visit_expr(self, &l.expr);
                self.visit_block(&l.body);
                return;
            }
            let mut p = vec![T(before)];
            p.extend(lab);
            p.push(T("for ".into()));
            p.extend(patp);
            p.push(T(" in ".into()));
            p.push(S(er.0, er.1));
            p.push(T(format!("\n{} {{ {}", inv, head)));
            p.push(S(body.0, body.1));
            p.push(T(format!("{} }}\n{}", tail, after)));
            let stmt = whole;
            self.ed(stmt, p);
            visit::visit_expr(self, &l.expr);
            self.visit_block(&l.body);
            return;
        }
        // iterator forms
        enum Kind {
            Iter,
            Index,
            Enum,
        }
        let mut kind = Kind::Index;
        let mut base: (usize, usize) = rng(it);
        let mut base_expr: &syn::Expr = it;
        if let syn::Expr::MethodCall(m) = it {
            let n = m.method.to_string();
            match n.as_str() {
                "chars" | "char_indices" | "split" | "bytes" => kind = Kind::Iter,
                "iter" => {
                    base = rng(&m.receiver);
                    base_expr = &m.receiver;
                }
                "enumerate" => {
                    if let syn::Expr::MethodCall(m2) = &*m.receiver {
                        if m2.method == "iter" {
                            base = rng(&m2.receiver);
                            base_expr = &m2.receiver;
                            kind = Kind::Enum;
                        } else if m2.method == "chars" || m2.method == "char_indices" {
                            self.unsupported.push(format!("enumerate over {}", m2.method));
                            kind = Kind::Iter;
                        }
                    }
                }
                _ => {}
            }
        }
        let pr = rng(&l.pat);
        match kind {
            Kind::Iter => {
                let itn = format!("it{}_", no);
                roles.push(("i".into(), itn.clone()));
                let (before, inv, head, tail, after) = self.loop_text(no, &roles);
                let mut p = vec![T(format!("let mut {} = ", itn)), S(rng(it).0, rng(it).1), T(format!(";\n{}", before))];
                p.extend(lab);
                p.push(T("while let Some(".into()));
                p.push(S(pr.0, pr.1));
                p.push(T(format!(") = {}.next()\n{} {{ {}", itn, inv, head)));
                p.push(S(body.0, body.1));
                p.push(T(format!("{} }}\n{}", tail, after)));
                self.ed(whole, p);
            }
            Kind::Index | Kind::Enum => {
                let sn = format!("s{}_", no);
                let kn = format!("k{}_", no);
                roles.push(("i".into(), kn.clone()));
                roles.push(("n".into(), format!("{}.len()", sn)));
                roles.push(("s".into(), sn.clone()));
                let (before, inv, head, tail, after) = self.loop_text(no, &roles);
                let inv = self.counted(whole, inv, &kn);
                let amp = if matches!(base_expr, syn::Expr::Reference(_)) { "" } else { "&" };
                let mut p = vec![T(format!("let {} = {}", sn, amp)), S(base.0, base.1), T(format!(";\n{}", before))];
                p.extend(lab);
                let mut head = head;
                if conts {
                    p.push(T(format!("let mut {kn}: usize = 0;\nwhile {kn} < {sn}.len()\n{} {{ ", as_while(&inv, &format!("{kn} <= {sn}.len()"), &format!("{sn}.len() - {kn}")))));
                    head = format!("{head} {kn} += 1; ");
                } else {
                    p.push(T(format!("for {} in 0..{}.len()\n{} {{ ", kn, sn, inv)));
                }
                match (&kind, &*l.pat) {
                    (Kind::Enum, syn::Pat::Tuple(t)) if t.elems.len() == 2 => {
                        let a = rng(&t.elems[0]);
                        let b = rng(&t.elems[1]);
                        p.push(T("let ".into()));
                        p.push(S(a.0, a.1));
                        p.push(T(format!(" = {}; let ", kn)));
                        p.push(S(b.0, b.1));
                        p.push(T(format!(" = &{}[{}]; {}", sn, kn, head)));
                    }
                    (Kind::Enum, _) => {
                        p.push(T("let ".into()));
                        p.push(S(pr.0, pr.1));
                        p.push(T(format!(" = ({}, &{}[{}]); {}", kn, sn, kn, head)));
                    }
                    _ => {
                        p.push(T("let ".into()));
                        p.push(S(pr.0, pr.1));
                        p.push(T(format!(" = &{}[{}]; {}", sn, kn, head)));
                    }
                }
                p.push(S(body.0, body.1));
                p.push(T(format!("{} }}\n{}", tail, after)));
                self.ed(whole, p);
            }
        }
        visit::visit_expr(self, &l.expr);
        self.visit_block(&l.body);
    }

    /// the invariant that says what a counter of the iterations is
    fn counted(&self, at: (usize, usize), inv: String, i: &str) -> String {
        let mut inv = inv;
        for (r, x, s) in &self.counters {
            if *r == at {
                let c = format!("{x} == {s} + {i},");
                inv = match inv.trim_start().strip_prefix("invariant") {
                    Some(rest) => format!("invariant {c} {rest}"),
                    None => format!("invariant {c}\n{inv}"),
                };
            }
        }
        inv
    }
    /// `|x| E` with a postcondition that says E, or a note that there is none
    fn predicate(&mut self, c: &syn::ExprClosure) {
        let spec = if c.inputs.len() == 1 && pat_ident(&c.inputs[0]).is_some() && matches!(c.output, syn::ReturnType::Default) { self.spec_of(&c.body) } else { None };
        match spec {
            Some(t) => {
                let b = rng(&*c.body);
                self.ins(b.0, format!("-> (b_: bool) ensures b_ == ({t}) {{ "));
                self.ins(b.1, " }".into());
            }
            None => {
                self.curfn.calls.insert("closure?".into());
            }
        }
    }
    /// what an expression without effects says, as a specification
    fn spec_of(&self, e: &syn::Expr) -> Option<String> {
        match e {
            syn::Expr::Paren(p) => Some(format!("({})", self.spec_of(&p.expr)?)),
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => Some(format!("!({})", self.spec_of(&u.expr)?)),
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => Some(format!("*{}", self.spec_of(&u.expr)?)),
            syn::Expr::Binary(b) => {
                use syn::BinOp::*;
                match b.op {
                    And(_) | Or(_) | Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) => {
                        Some(format!("({} {} {})", self.spec_of(&b.left)?, b.op.to_token_stream(), self.spec_of(&b.right)?))
                    }
                    _ => None,
                }
            }
            syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Char(_) | syn::Lit::Byte(_) | syn::Lit::Int(_) | syn::Lit::Bool(_)) => Some(self.f.txt(rng(e)).to_string()),
            syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            syn::Expr::Macro(m) if m.mac.path.is_ident("matches") => Some(self.f.txt(rng(e)).to_string()),
            syn::Expr::Call(c) => {
                let name = match &*c.func {
                    syn::Expr::Path(p) => last_seg(&p.path),
                    _ => return None,
                };
                let end = format!("::{name}");
                let mut it = self.contracts.iter().filter(|(k, _)| k.ends_with(&end) && k.matches("::").count() == 1);
                let (k, it2) = (it.next()?.1, it.next());
                if it2.is_some() {
                    return None;
                }
                let d = k.spec.trim().strip_prefix("ensures")?.trim().strip_prefix("r ==")?.trim().trim_end_matches(',');
                let mut depth = 0;
                for ch in d.chars() {
                    match ch {
                        '(' | '[' | '{' => depth += 1,
                        ')' | ']' | '}' => depth -= 1,
                        ',' if depth == 0 => return None,
                        _ => {}
                    }
                }
                let mut map = vec![];
                for (i, a) in c.args.iter().enumerate() {
                    map.push((i.to_string(), format!("({})", self.spec_of(a)?)));
                }
                Some(subst(d, &map))
            }
            _ => None,
        }
    }
    fn closure_arm(&mut self, f: &syn::Expr, ctor: &str, var: &str) -> Vec<Piece> {
        // pieces of "PAT) => BODY" applied to a payload
        match f {
            syn::Expr::Closure(c) if c.inputs.len() == 1 => {
                let p = match &c.inputs[0] {
                    syn::Pat::Type(t) => rng(&*t.pat),
                    p => rng(p),
                };
                let b = rng(&*c.body);
                vec![T(format!("{}(", ctor)), S(p.0, p.1), T(") => ".into()), S(b.0, b.1)]
            }
            _ => {
                let b = rng(f);
                vec![T(format!("{}({}) => ", ctor, var)), S(b.0, b.1), T(format!("({})", var))]
            }
        }
    }
}

/// the variable of `while x > 0 { ..; x -= 1; }` that nothing else writes
fn counts_down(l: &syn::ExprWhile) -> Option<String> {
    let zero = |e: &syn::Expr| matches!(e, syn::Expr::Lit(l) if matches!(&l.lit, syn::Lit::Int(i) if i.base10_digits() == "0"));
    let one = |e: &syn::Expr| matches!(e, syn::Expr::Lit(l) if matches!(&l.lit, syn::Lit::Int(i) if i.base10_digits() == "1"));
    let name = |e: &syn::Expr| match e {
        syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    };
    let x = match &*l.cond {
        syn::Expr::Binary(b) => match b.op {
            syn::BinOp::Gt(_) | syn::BinOp::Ne(_) if zero(&b.right) => name(&b.left)?,
            syn::BinOp::Lt(_) if zero(&b.left) => name(&b.right)?,
            _ => return None,
        },
        _ => return None,
    };
    let down = |s: &syn::Stmt| matches!(s, syn::Stmt::Expr(syn::Expr::Binary(b), _) if matches!(b.op, syn::BinOp::SubAssign(_)) && one(&b.right) && name(&b.left).as_ref() == Some(&x));
    if !l.body.stmts.iter().any(down) {
        return None;
    }
    let mut cs = ContScan { found: false };
    let mut w = Writes { x: &x, n: 0 };
    for s in &l.body.stmts {
        cs.visit_stmt(s);
        w.visit_stmt(s);
    }
    if cs.found || w.n != 1 {
        return None;
    }
    Some(x)
}

/// the variable of the one statement `x += E;` (or `x = x + E;`) of a body
fn sums(b: &syn::Block) -> Option<String> {
    let mut found = vec![];
    for s in &b.stmts {
        match s {
            syn::Stmt::Expr(syn::Expr::Binary(e), _) if matches!(e.op, syn::BinOp::AddAssign(_)) => found.push(&*e.left),
            syn::Stmt::Expr(syn::Expr::Assign(e), _) => found.push(&*e.left),
            _ => {}
        }
    }
    match found[..] {
        [syn::Expr::Path(p)] => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}

/// X, when the expression is X.len()
fn len_of(e: &syn::Expr) -> Option<&syn::Expr> {
    match e {
        syn::Expr::Paren(p) => len_of(&p.expr),
        syn::Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() => Some(&m.receiver),
        _ => None,
    }
}

/// variables that count the iterations of a `for` loop: `let mut x = 0;` before it in the same
/// block, `x += 1;` at its end, and no other assignment
#[derive(Default)]
struct Counters {
    found: Vec<((usize, usize), String, String)>,
}
fn one_up(s: &syn::Stmt) -> Option<String> {
    if let syn::Stmt::Expr(syn::Expr::Binary(b), _) = s {
        if matches!(b.op, syn::BinOp::AddAssign(_)) && matches!(&*b.right, syn::Expr::Lit(l) if matches!(&l.lit, syn::Lit::Int(i) if i.base10_digits() == "1")) {
            if let syn::Expr::Path(p) = &*b.left {
                return p.path.get_ident().map(|i| i.to_string());
            }
        }
    }
    None
}
impl<'ast> Visit<'ast> for Counters {
    fn visit_block(&mut self, b: &'ast syn::Block) {
        for (k, st) in b.stmts.iter().enumerate() {
            let (at, body) = match st {
                syn::Stmt::Expr(syn::Expr::ForLoop(l), _) => (rng(l), &l.body),
                // a list that grows until it has as many entries as there are
                syn::Stmt::Expr(syn::Expr::While(l), _) => match &*l.cond {
                    syn::Expr::Binary(c) if matches!(c.op, syn::BinOp::Lt(_) | syn::BinOp::Ne(_)) && matches!(len_of(&c.left), Some(syn::Expr::Path(v)) if v.path.get_ident().map(|v| starts_empty(&b.stmts[..k], v)).unwrap_or(false)) => (rng(l), &l.body),
                    _ => continue,
                },
                _ => continue,
            };
            let x = match body.stmts.last().and_then(one_up) {
                Some(x) => x,
                None => continue,
            };
            let mut cs = ContScan { found: false };
            let mut w = Writes { x: &x, n: 0 };
            for s in &body.stmts {
                cs.visit_stmt(s);
                w.visit_stmt(s);
            }
            if cs.found || w.n != 1 {
                continue;
            }
            let mut start = None;
            for s in &b.stmts[..k] {
                if let syn::Stmt::Local(lo) = s {
                    if let (syn::Pat::Ident(i), Some(init)) = (&lo.pat, &lo.init) {
                        if i.ident == x.as_str() {
                            start = match &*init.expr {
                                syn::Expr::Lit(l) => match &l.lit {
                                    syn::Lit::Int(i) => Some(i.base10_digits().to_string()),
                                    _ => None,
                                },
                                _ => None,
                            };
                            continue;
                        }
                    }
                }
                let mut w = Writes { x: &x, n: 0 };
                w.visit_stmt(s);
                if w.n > 0 {
                    start = None;
                }
            }
            if let Some(s) = start {
                self.found.push((at, x, s));
            }
        }
        visit::visit_block(self, b);
    }
}
/// the list `v` is made by one of the statements, and only there
fn starts_empty(ss: &[syn::Stmt], v: &syn::Ident) -> bool {
    let mut empty = false;
    for s in ss {
        if let syn::Stmt::Local(lo) = s {
            if let (syn::Pat::Ident(i), Some(init)) = (&lo.pat, &lo.init) {
                if i.ident == *v {
                    let t = init.expr.to_token_stream().to_string().replace(' ', "");
                    empty = t.starts_with("Vec::with_capacity(") || t == "Vec::new()" || t == "vec![]";
                    continue;
                }
            }
        }
        if s.to_token_stream().to_string().contains(&format!("{v} .")) {
            empty = false;
        }
    }
    empty
}
struct Writes<'a> {
    x: &'a str,
    n: usize,
}
impl<'ast> Visit<'ast> for Writes<'_> {
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        if b.op.to_token_stream().to_string().ends_with('=') && !matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Le(_) | syn::BinOp::Ge(_)) && matches!(&*b.left, syn::Expr::Path(p) if p.path.is_ident(self.x)) {
            self.n += 1;
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_assign(&mut self, a: &'ast syn::ExprAssign) {
        if a.left.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == self.x) {
            self.n += 1;
        }
        visit::visit_expr_assign(self, a);
    }
    fn visit_expr_reference(&mut self, r: &'ast syn::ExprReference) {
        if r.mutability.is_some() && matches!(&*r.expr, syn::Expr::Path(p) if p.path.is_ident(self.x)) {
            self.n += 2;
        }
        visit::visit_expr_reference(self, r);
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        if p.ident == self.x {
            self.n += 2;
        }
    }
}

/// a chain over an iterator, as far as its text tells
fn iterates(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Paren(p) => iterates(&p.expr),
        syn::Expr::Range(_) => true,
        syn::Expr::MethodCall(m) => {
            ["iter", "into_iter", "iter_mut", "chars", "char_indices", "bytes", "split", "enumerate", "rev", "zip", "skip", "take", "chunks", "chunks_exact", "windows", "map", "filter", "drain"]
                .contains(&m.method.to_string().as_str())
                && (m.method != "map" && m.method != "filter" && m.method != "take" && m.method != "zip" || iterates(&m.receiver))
        }
        _ => false,
    }
}
/// `[a, b].contains(&x)`, or the same on a constant
fn has_literal_list(e: &syn::Expr, _f: &FileCtx) -> bool {
    match e {
        syn::Expr::Paren(p) => has_literal_list(&p.expr, _f),
        syn::Expr::Reference(p) => has_literal_list(&p.expr, _f),
        syn::Expr::Array(_) => true,
        syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string().chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit())).unwrap_or(false),
        _ => false,
    }
}
fn is_str_lit(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Str(_)),
        syn::Expr::Reference(r) => is_str_lit(&r.expr),
        syn::Expr::Paren(r) => is_str_lit(&r.expr),
        _ => false,
    }
}

/// the string literals a pattern consists of
fn str_pats(p: &syn::Pat) -> Option<Vec<String>> {
    match p {
        syn::Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => Some(vec![l.to_token_stream().to_string()]),
        syn::Pat::Or(o) => o.cases.iter().map(str_pats).collect::<Option<Vec<_>>>().map(|v| v.concat()),
        syn::Pat::Paren(p) => str_pats(&p.pat),
        _ => None,
    }
}
/// `x` in `Some(&x)`
fn some_of_ref(e: &syn::Expr) -> Option<&syn::Expr> {
    match strip_paren(e) {
        syn::Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("Some")) => match &c.args[0] {
            syn::Expr::Reference(r) if r.mutability.is_none() => Some(&r.expr),
            _ => None,
        },
        _ => None,
    }
}

fn is_unit_variant(e: &syn::Expr) -> bool {
    if let syn::Expr::Path(p) = e {
        let n = p.path.segments.len();
        if n >= 2 {
            let l = p.path.segments[n - 1].ident.to_string();
            let q = p.path.segments[n - 2].ident.to_string();
            let up = |s: &str| s.chars().next().map(|c| c.is_uppercase()).unwrap_or(false);
            return up(&l) && up(&q) && l.chars().any(|c| c.is_lowercase());
        }
    }
    false
}

impl<'a, 'ast> Visit<'ast> for V<'a> {
    fn visit_block(&mut self, b: &'ast syn::Block) {
        self.probe(rng(b).0 + 1);
        for s in &b.stmts {
            self.visit_stmt(s);
        }
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let attrs: &[syn::Attribute] = match s {
            syn::Stmt::Local(l) => &l.attrs,
            syn::Stmt::Expr(e, _) => match e {
                syn::Expr::Return(r) => &r.attrs,
                syn::Expr::MethodCall(r) => &r.attrs,
                syn::Expr::Call(r) => &r.attrs,
                syn::Expr::Block(r) => &r.attrs,
                syn::Expr::If(r) => &r.attrs,
                syn::Expr::Match(r) => &r.attrs,
                syn::Expr::ForLoop(r) => &r.attrs,
                syn::Expr::While(r) => &r.attrs,
                syn::Expr::Loop(r) => &r.attrs,
                _ => &[],
            },
            syn::Stmt::Macro(m) => &m.attrs,
            syn::Stmt::Item(_) => {
                self.unsupported.push(format!("nested item in {}", self.curfn.key));
                return;
            }
        };
        if cfg_value(attrs, self.ts) == Some(false) {
            self.ed(rng(s), vec![]);
            return;
        }
        self.strip_attrs(attrs);
        visit::visit_stmt(self, s);
    }
    fn visit_attribute(&mut self, _a: &'ast syn::Attribute) {}
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let n = last_seg(&m.path);
        self.curfn.calls.insert(format!("{}!", n));
        if n == "vec" && m.tokens.is_empty() {
            self.ed(rng(m), vec![T("Vec::new()".into())]);
            return;
        }
        // rewrite inside the arguments of known expression macros
        if n == "fail" || n == "err" || n == "peel" || n == "matches" {
            if n == "peel" {
                if let Ok(e) = syn::parse2::<syn::Expr>(m.tokens.clone()) {
                    self.rewrite_sub(&e);
                }
            }
        } else if n == "write" {
            if !self.write_macro(m) {
                self.unsupported.push(format!("write! with an unsupported format in {}", self.curfn.key));
            }
        } else if n == "panic" || n == "unreachable" {
        } else {
            self.unsupported.push(format!("macro {}! in {}", n, self.curfn.key));
        }
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        self.for_loop(l);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        let no = self.loop_no;
        self.loop_no += 1;
        let mut roles: Vec<(String, String)> = vec![];
        // what a loop with a counter needs besides the contract of the `for` loop it stands for
        let mut extra: Option<(String, String)> = None;
        let mut start = String::new();
        let down = counts_down(l);
        if let Some(x) = &down {
            start = format!("let ghost n{no}_ = {x} as int;\n");
            roles.push(("i".into(), format!("(n{no}_ - ({x} as int))")));
            roles.push(("n".into(), format!("n{no}_")));
            extra = Some((format!("0 <= {x} as int <= n{no}_"), format!("{x} as int")));
        }
        if let (syn::Expr::Binary(b), None) = (&*l.cond, &down) {
            if matches!(b.op, syn::BinOp::Lt(_) | syn::BinOp::Ne(_)) {
                let right = match &*b.right {
                    syn::Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, syn::Expr::Path(p) if last_seg(&p.path) == "from" && p.path.segments.len() == 2) => {
                        format!("({} as int)", self.f.txt(rng(&c.args[0])))
                    }
                    e => self.f.txt(rng(e)).to_string(),
                };
                let (x, n) = (self.f.txt(rng(&*b.left)), right);
                roles.push(("i".into(), format!("({})", x)));
                roles.push(("n".into(), format!("({})", n)));
                if let Some(x) = len_of(&b.right) {
                    roles.push(("s".into(), format!("({})", self.f.txt(rng(x)))));
                }
                let whole = |e: &syn::Expr| matches!(e, syn::Expr::Path(_)) || len_of(e).is_some();
                if whole(&b.left) && (whole(&b.right) || n.ends_with(" as int)")) {
                    extra = Some((format!("{x} <= {n}"), format!("{n} - {x}")));
                }
            }
        }
        if let syn::Expr::Let(b) = &*l.cond {
            if let syn::Expr::MethodCall(m) = &*b.expr {
                roles.push(("i".into(), self.f.txt(rng(&*m.receiver)).to_string()));
            }
        }
        let mut ps = PushScan { recv: vec![], depth: 0 };
        for s in &l.body.stmts {
            ps.visit_stmt(s);
        }
        if let Some(v) = ps.recv.last() {
            roles.push(("v".into(), v.clone()));
        }
        let (before, inv, head, tail, after) = self.loop_text(no, &roles);
        let inv = match extra {
            Some((x, d)) if !inv.trim().is_empty() && !inv.contains("decreases") => as_while(&inv, &x, &d),
            _ => inv,
        };
        let inv = match roles.iter().find(|r| r.0 == "i") {
            Some(i) if down.is_none() => self.counted(rng(l), inv, &i.1),
            _ => inv,
        };
        let before = start + &before;
        let w = rng(l);
        let br = rng(&l.body);
        self.ins(w.0, before);
        self.ins(br.0, format!("\n{}\n", inv));
        self.ins(br.0 + 1, head);
        self.ins(br.1 - 1, tail);
        self.ins(w.1, after);
        visit::visit_expr(self, &l.cond);
        self.visit_block(&l.body);
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        let no = self.loop_no;
        self.loop_no += 1;
        let mut roles: Vec<(String, String)> = vec![];
        let mut ps = PushScan { recv: vec![], depth: 0 };
        for s in &l.body.stmts {
            ps.visit_stmt(s);
        }
        if let Some(v) = ps.recv.last() {
            roles.push(("v".into(), v.clone()));
        }
        let (before, inv, head, tail, after) = self.loop_text(no, &roles);
        let w = rng(l);
        let br = rng(&l.body);
        self.ins(w.0, before);
        self.ins(br.0, format!("\n{}\n", inv));
        self.ins(br.0 + 1, head);
        self.ins(br.1 - 1, tail);
        self.ins(w.1, after);
        self.visit_block(&l.body);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let n = m.method.to_string();
        let whole = rng(m);
        let rv = rng(&*m.receiver);
        self.curfn.calls.insert(n.clone());
        if let Some(cell) = mut_guard(&m.receiver) {
            // CELL.borrow_mut().M(args): read the contents, run M on them, write them back
            let c = rng(cell);
            let mut p = vec![
                T("({ let c_ = &".into()),
                S(c.0, c.1),
                T(format!("; let mut t_ = c_.take_(); let ghost o_ = t_; let g_ = t_.{}(", n)),
            ];
            for (k, a) in m.args.iter().enumerate() {
                if k > 0 {
                    p.push(T(", ".into()));
                }
                let r = rng(a);
                p.push(S(r.0, r.1));
            }
            p.push(T("); c_.put_(Ghost(o_), t_); g_ })".into()));
            self.ed(whole, p);
            self.visit_expr(cell);
            for a in &m.args {
                self.visit_expr(a);
            }
            return;
        }
        // an exit of a closure is not an exit of the function: such a closure is not expanded
        if m.args.iter().any(|a| matches!(a, syn::Expr::Closure(c) if exits(&c.body))) {
            visit::visit_expr_method_call(self, m);
            return;
        }
        match n.as_str() {
            "repeat" if m.args.len() == 1 => {
                self.ed(rng(&m.method), vec![T("repeat_".into())]);
            }
            "split_at" if m.args.len() == 1 => {
                self.ed(rng(&m.method), vec![T("split_at_".into())]);
            }
            "chars" | "char_indices" if m.args.is_empty() => {
                self.ed(rng(&m.method), vec![T(format!("{}_", n))]);
            }
            "starts_with" | "ends_with" if m.args.len() == 1 && matches!(&m.args[0], syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Char(_) | syn::Lit::Str(_))) => {
                self.ed(rng(&m.method), vec![T(format!("{}_", n))]);
            }
            "contains" if m.args.len() == 1 && matches!(&m.args[0], syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Char(_))) => {
                self.ed(rng(&m.method), vec![T("has_char_".into())]);
            }
            "contains" if m.args.len() == 1 && matches!(&m.args[0], syn::Expr::Reference(_)) && has_literal_list(&m.receiver, self.f) => {
                self.ed(rng(&m.method), vec![T("has_".into())]);
            }
            "then_some" if m.args.len() == 1 => {
                let a = rng(&m.args[0]);
                self.ed(whole, vec![T("then_some_(".into()), S(rv.0, rv.1), T(", ".into()), S(a.0, a.1), T(")".into())]);
            }
            "then" if m.args.len() == 1 && matches!(&m.args[0], syn::Expr::Closure(c) if c.inputs.is_empty()) => {
                if let syn::Expr::Closure(c) = &m.args[0] {
                    let b = rng(&*c.body);
                    self.ed(whole, vec![T("(if ".into()), S(rv.0, rv.1), T(" { Some(".into()), S(b.0, b.1), T(") } else { None })".into())]);
                }
            }
            "map" | "is_some_and" | "is_ok_and" | "is_none_or" | "unwrap_or_else" | "filter" if m.args.len() == 1 && !iterates(&m.receiver) => {
                let mut p = vec![T("({ let (k_, s_) = ".into()), S(rv.0, rv.1), T(".split_(); match s_ { ".into())];
                match n.as_str() {
                    "unwrap_or_else" => {
                        let b = match &m.args[0] {
                            syn::Expr::Closure(c) => rng(&*c.body),
                            f => rng(f),
                        };
                        p.extend(vec![T("Some(a_) => a_, None => ".into()), S(b.0, b.1)]);
                        if !matches!(&m.args[0], syn::Expr::Closure(_)) {
                            p.push(T("()".into()));
                        }
                        if matches!(&m.args[0], syn::Expr::Closure(c) if !c.inputs.is_empty()) {
                            // it wants the error: leave it
                            p.clear();
                        }
                    }
                    "filter" => {
                        p.clear();
                    }
                    "map" => {
                        match &m.args[0] {
                            syn::Expr::Closure(c) if c.inputs.len() == 1 => {
                                let mut q = self.closure_arm(&m.args[0], "Some", "a_");
                                let b = q.pop().unwrap();
                                p.extend(q);
                                p.extend(vec![T("k_.wrap_(".into()), b, T(")".into())]);
                            }
                            f => {
                                let b = rng(f);
                                p.extend(vec![T("Some(a_) => k_.wrap_(".into()), S(b.0, b.1), T("(a_))".into())]);
                            }
                        }
                        p.push(T(", None => k_.none_()".into()));
                    }
                    _ => {
                        p.extend(self.closure_arm(&m.args[0], "Some", "a_"));
                        p.push(T(format!(", None => {}", n == "is_none_or")));
                    }
                }
                if !p.is_empty() {
                    p.push(T(" } })".into()));
                    self.ed(whole, p);
                }
            }
            "map_or" | "map_or_else" if m.args.len() == 2 && !iterates(&m.receiver) => {
                let mut p = vec![T("({ let (k_, s_) = ".into()), S(rv.0, rv.1), T(".split_(); match s_ { ".into())];
                p.extend(self.closure_arm(&m.args[1], "Some", "a_"));
                let d = match &m.args[0] {
                    syn::Expr::Closure(c) if n == "map_or_else" => rng(&*c.body),
                    e => rng(e),
                };
                p.extend(vec![T(", None => ".into()), S(d.0, d.1), T(" } })".into())]);
                if n == "map_or" || matches!(&m.args[0], syn::Expr::Closure(c) if c.inputs.is_empty()) {
                    self.ed(whole, p);
                }
            }
            "binary_search_by_key" if m.args.len() == 2 && matches!(key_closure(&m.args[1]), Some(None)) => {
                let x = match &m.args[0] {
                    syn::Expr::Reference(r) => vec![S(rng(&*r.expr).0, rng(&*r.expr).1)],
                    e => vec![T("*".into()), S(rng(e).0, rng(e).1)],
                };
                let mut p = vec![S(rv.0, rv.1), T(".bsearch_key_(".into())];
                p.extend(x);
                p.push(T(")".into()));
                self.ed(whole, p);
            }
            "binary_search_by" | "partition_point" | "position" if m.args.len() == 1 && matches!(key_closure(&m.args[0]), Some(Some((o, _, _))) if o == KEYOP[match n.as_str() { "binary_search_by" => 0, "partition_point" => 1, _ => 2 }]) => {
                let (_, star, x) = key_closure(&m.args[0]).unwrap().unwrap();
                let (to, rv) = match (n.as_str(), &*m.receiver) {
                    ("binary_search_by", _) => ("bsearch_key_", rv),
                    ("partition_point", _) => ("below_key_", rv),
                    (_, syn::Expr::MethodCall(i)) if i.method == "iter" && i.args.is_empty() => ("position_key_", rng(&*i.receiver)),
                    _ => ("", rv),
                };
                if to.is_empty() {
                    self.unsupported.push(format!("{}() in {}", n, self.curfn.key));
                } else {
                    self.ed(whole, vec![S(rv.0, rv.1), T(format!(".{}({}", to, if star { "*" } else { "" })), S(x.0, x.1), T(")".into())]);
                }
            }
            "split" | "strip_suffix" | "strip_prefix" | "find" if m.args.len() == 1 => {
                self.ed(rng(&m.method), vec![T(format!("{}_", n))]);
            }
            "borrow_mut" | "try_borrow_mut" | "replace" | "swap" | "get_mut" | "deref_mut" => {
                self.unsupported.push(format!("{}() in {}", n, self.curfn.key));
            }
            "and_then" if m.args.len() == 1 => {
                let mut p = vec![T("(match ".into()), S(rv.0, rv.1), T(" { ".into())];
                p.extend(self.closure_arm(&m.args[0], "Ok", "a_"));
                p.push(T(", Err(e_) => Err(e_) })".into()));
                self.ed(whole, p);
            }
            "map_err" if m.args.len() == 1 => {
                let mut p = vec![T("(match ".into()), S(rv.0, rv.1), T(" { Ok(a_) => Ok(a_), ".into())];
                // the closure body has to be wrapped in Err(..)
                match &m.args[0] {
                    syn::Expr::Closure(c) if c.inputs.len() == 1 => {
                        let pr = rng(&c.inputs[0]);
                        let b = rng(&*c.body);
                        p.extend(vec![T("Err(".into()), S(pr.0, pr.1), T(") => Err(".into()), S(b.0, b.1), T(")".into())]);
                    }
                    f => {
                        let b = rng(f);
                        p.extend(vec![T("Err(e_) => Err(".into()), S(b.0, b.1), T("(e_))".into())]);
                    }
                }
                p.push(T(" })".into()));
                self.ed(whole, p);
            }
            "ok_or_else" if m.args.len() == 1 => {
                if let syn::Expr::Closure(c) = &m.args[0] {
                    let b = rng(&*c.body);
                    let p = vec![
                        T("(match ".into()),
                        S(rv.0, rv.1),
                        T(" { Some(a_) => Ok(a_), None => Err(".into()),
                        S(b.0, b.1),
                        T(") })".into()),
                    ];
                    self.ed(whole, p);
                }
            }
            "transpose" => {
                if let syn::Expr::MethodCall(m2) = &*m.receiver {
                    if m2.method == "map" && m2.args.len() == 1 {
                        let r2 = rng(&*m2.receiver);
                        let mut p = vec![T("(match ".into()), S(r2.0, r2.1), T(" { None => Ok(None), ".into())];
                        match &m2.args[0] {
                            syn::Expr::Closure(c) if c.inputs.len() == 1 => {
                                let pr = rng(&c.inputs[0]);
                                let b = rng(&*c.body);
                                p.extend(vec![T("Some(".into()), S(pr.0, pr.1), T(") => (match ".into()), S(b.0, b.1)]);
                            }
                            f => {
                                let b = rng(f);
                                p.extend(vec![T("Some(a_) => (match ".into()), S(b.0, b.1), T("(a_)".into())]);
                            }
                        }
                        p.push(T(" { Ok(b_) => Ok(Some(b_)), Err(e_) => Err(e_) }) })".into()));
                        self.ed(whole, p);
                        // visit the receiver of map and its argument only
                        self.visit_expr(&m2.receiver);
                        for a in &m2.args {
                            self.visit_expr(a);
                        }
                        return;
                    }
                }
                let mr = rng(&m.method);
                self.ed(mr, vec![T("transpose_".into())]);
            }
            "fold" if m.args.len() == 2 => {
                if let (syn::Expr::MethodCall(m2), syn::Expr::Closure(c)) = (&*m.receiver, &m.args[1]) {
                    if m2.method == "iter" && c.inputs.len() == 2 {
                        let no = self.loop_no;
                        self.loop_no += 1;
                        let r2 = rng(&*m2.receiver);
                        let acc = pat_ident(&c.inputs[0]).unwrap_or("acc_".into());
                        let p1 = rng(&c.inputs[1]);
                        let b = rng(&*c.body);
                        let i0 = rng(&m.args[0]);
                        let sn = format!("s{}_", no);
                        let kn = format!("k{}_", no);
                        let roles = vec![
                            ("i".to_string(), kn.clone()),
                            ("n".to_string(), format!("{}.len()", sn)),
                            ("s".to_string(), sn.clone()),
                            ("v".to_string(), acc.clone()),
                        ];
                        let (before, inv, head, tail, after) = self.loop_text(no, &roles);
                        let p = vec![
                            T(format!("({{ let {} = &", sn)),
                            S(r2.0, r2.1),
                            T(format!("; let mut {}: usize = ", acc)),
                            S(i0.0, i0.1),
                            T(format!(";\n{}for {} in 0..{}.len()\n{} {{ let ", before, kn, sn, inv)),
                            S(p1.0, p1.1),
                            T(format!(" = &{}[{}]; {} {} = ", sn, kn, head, acc)),
                            S(b.0, b.1),
                            T(format!("; {} }}\n{} {} }})", tail, after, acc)),
                        ];
                        self.ed(whole, p);
                        self.visit_expr(&m2.receiver);
                        self.visit_expr(&m.args[0]);
                        self.visit_expr(&c.body);
                        return;
                    }
                }
            }
            "all" | "any" if m.args.len() == 1 && matches!(&m.args[0], syn::Expr::Closure(_)) => {
                if let syn::Expr::Closure(c) = &m.args[0] {
                    self.predicate(c);
                }
            }
            _ => {}
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_reference(&mut self, r: &'ast syn::ExprReference) {
        if let syn::Expr::Index(ix) = &*r.expr {
            if let syn::Expr::Range(rg) = strip_paren(&ix.index) {
                self.slice(rng(r), &ix.expr, rg);
                return;
            }
        }
        visit::visit_expr_reference(self, r);
    }
    fn visit_expr_index(&mut self, ix: &'ast syn::ExprIndex) {
        if let syn::Expr::Range(rg) = strip_paren(&ix.index) {
            self.slice(rng(ix), &ix.expr, rg);
            return;
        }
        visit::visit_expr_index(self, ix);
    }
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        // a short match on string literals: each literal pattern becomes a guard with the equality on strings
        if m.arms.len() <= 6 && m.arms.iter().all(|a| str_pats(&a.pat).is_some() || matches!(a.pat, syn::Pat::Wild(_) | syn::Pat::Ident(_)))
            && m.arms.iter().any(|a| str_pats(&a.pat).is_some())
        {
            for a in &m.arms {
                let Some(ls) = str_pats(&a.pat) else { continue };
                let c: Vec<String> = ls.iter().map(|l| format!("m_.eq_str_({})", l)).collect();
                self.ed(rng(&a.pat), vec![T(format!("m_ if ({})", c.join(" || ")))]);
                if let Some((i, g)) = &a.guard {
                    let (i, g) = (rng(i), rng(&**g));
                    self.ed((i.0, g.1), vec![T("&& (".into()), S(g.0, g.1), T(")".into())]);
                }
            }
        }
        visit::visit_expr_match(self, m);
    }
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        let eq = matches!(b.op, syn::BinOp::Eq(_));
        let ne = matches!(b.op, syn::BinOp::Ne(_));
        if eq || ne {
            let neg = if ne { "!" } else { "" };
            let whole = rng(b);
            let (l, r) = (rng(&*b.left), rng(&*b.right));
            if is_str_lit(&b.right) {
                self.ed(whole, vec![T(format!("{}(", neg)), S(l.0, l.1), T(").eq_str_(".into()), S(r.0, r.1), T(")".into())]);
            } else if is_str_lit(&b.left) {
                self.ed(whole, vec![T(format!("{}(", neg)), S(r.0, r.1), T(").eq_str_(".into()), S(l.0, l.1), T(")".into())]);
            } else if let Some(v) = some_of_ref(&b.right) {
                // comparison of an Option<&T> with Some(&value)
                let v = rng(v);
                self.ed(whole, vec![T(format!("{}matches!(", neg)), S(l.0, l.1), T(", Some(o_) if *o_ == ".into()), S(v.0, v.1), T(")".into())]);
            } else if is_unit_variant(&b.right) {
                self.ed(whole, vec![T(format!("{}matches!(", neg)), S(l.0, l.1), T(", ".into()), S(r.0, r.1), T(")".into())]);
            }
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
            let j = s.join("::");
            self.curfn.calls.insert(s.last().cloned().unwrap_or_default());
            if j == "Vec::with_capacity" && c.args.len() == 1 {
                let lim = self.cur.as_ref().map(|c| c.cap.trim().to_string()).filter(|x| !x.is_empty()).unwrap_or("65535".into());
                let lim = subst(&lim, &self.base_map());
                let a = rng(&c.args[0]);
                self.ed(rng(c), vec![T("vec_with_capacity_(".into()), S(a.0, a.1), T(format!(", Ghost({}))", lim))]);
            }
            // functions of std whose contracts are in shim_std.rs under another name
            let other = match s.last().map(|x| x.as_str()) {
                Some("from_be_bytes") if s.len() == 2 => Some(format!("{}_from_be_", s[0])),
                Some("from_le_bytes") if s.len() == 2 => Some(format!("{}_from_le_", s[0])),
                Some("from") if j == "char::from" => Some("char_from_u8_".to_string()),
                _ => None,
            };
            if j.ends_with("Display::fmt") && c.args.len() == 2 {
                let (a, f) = (rng(&c.args[0]), rng(&c.args[1]));
                self.ed(rng(c), vec![T("{ let w0_ = ".into()), S(a.0, a.1), T("; w0_.fmt(".into()), S(f.0, f.1), T(") }".into())]);
            }
            if let (Some(o), 1) = (other, c.args.len()) {
                self.ed(rng(&*c.func), vec![T(o)]);
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
        visit::visit_expr_try(self, t);
    }
    fn visit_type_path(&mut self, p: &'ast syn::TypePath) {
        if p.path.is_ident("Self") {
            if let Some(t) = self.assoc.get("Self") {
                let t = t.clone();
                self.ed(rng(p), vec![T(t)]);
                return;
            }
        }
        if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
            if let Some(t) = self.assoc.get(&p.path.segments[1].ident.to_string()) {
                let t = t.clone();
                self.ed(rng(p), vec![T(t)]);
                return;
            }
        }
        visit::visit_type_path(self, p);
    }
    fn visit_item(&mut self, _i: &'ast syn::Item) {}
}

/// X.borrow_mut() or X.lock().unwrap().deref_mut(): returns X
fn mut_guard(e: &syn::Expr) -> Option<&syn::Expr> {
    let call = |e: &'_ syn::Expr, n: &str| -> bool {
        matches!(e, syn::Expr::MethodCall(m) if m.method == n && m.args.is_empty())
    };
    let e = strip_paren(e);
    if call(e, "borrow_mut") {
        if let syn::Expr::MethodCall(m) = e {
            return Some(&m.receiver);
        }
    }
    if call(e, "deref_mut") {
        if let syn::Expr::MethodCall(m) = e {
            if call(&m.receiver, "unwrap") {
                if let syn::Expr::MethodCall(m2) = &*m.receiver {
                    if call(&m2.receiver, "lock") {
                        if let syn::Expr::MethodCall(m3) = &*m2.receiver {
                            return Some(&m3.receiver);
                        }
                    }
                }
            }
        }
    }
    None
}

fn strip_paren(e: &syn::Expr) -> &syn::Expr {
    let mut e = e;
    while let syn::Expr::Paren(p) = e {
        e = &p.expr;
    }
    e
}

impl<'a> V<'a> {
    fn rewrite_sub(&mut self, _e: &syn::Expr) {}
    /// write!(f, "a{}b", x): the pieces one after the other, stopping at the first error; the
    /// arguments are evaluated (by reference) before, as format_args! does.
    fn write_macro(&mut self, m: &syn::Macro) -> bool {
        use syn::parse::Parser;
        let args = match syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone()) {
            Ok(a) => a,
            Err(_) => return false,
        };
        if args.len() < 2 {
            return false;
        }
        let fmt = match &args[1] {
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
            _ => return false,
        };
        enum W {
            Lit(String),
            Arg(usize),
            Name(String),
        }
        let mut ws = vec![];
        let mut lit = String::new();
        let mut next = 0;
        let cs: Vec<char> = fmt.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            let c = cs[i];
            if (c == '{' || c == '}') && cs.get(i + 1) == Some(&c) {
                lit.push(c);
                i += 2;
            } else if c == '{' {
                let j = match cs[i..].iter().position(|c| *c == '}') {
                    Some(j) => i + j,
                    None => return false,
                };
                let inner: String = cs[i + 1..j].iter().collect();
                if !lit.is_empty() {
                    ws.push(W::Lit(std::mem::take(&mut lit)));
                }
                if inner.is_empty() {
                    ws.push(W::Arg(next));
                    next += 1;
                } else if let Ok(k) = inner.parse::<usize>() {
                    ws.push(W::Arg(k));
                } else if syn::parse_str::<syn::Ident>(&inner).is_ok() {
                    ws.push(W::Name(inner));
                } else {
                    return false;
                }
                i = j + 1;
            } else if c == '}' {
                return false;
            } else {
                lit.push(c);
                i += 1;
            }
        }
        if !lit.is_empty() {
            ws.push(W::Lit(lit));
        }
        let n = args.len() - 2;
        if ws.iter().any(|w| matches!(w, W::Arg(k) if *k >= n)) {
            return false;
        }
        let f = rng(&args[0]);
        let mut p = vec![];
        let tail = "Err(e_) => Err(e_) }";
        for k in 0..n {
            let a = rng(&args[k + 2]);
            p.push(T(format!("{{ let w{}_ = &(", k)));
            p.push(S(a.0, a.1));
            p.push(T("); ".into()));
        }
        let mut close = String::new();
        for (k, w) in ws.iter().enumerate() {
            let last = k + 1 == ws.len();
            if !last {
                p.push(T("match ".into()));
            }
            match w {
                W::Lit(l) => {
                    p.push(S(f.0, f.1));
                    p.push(T(format!(".write_str({:?})", l)));
                }
                W::Arg(a) => {
                    p.push(T(format!("w{}_.fmt(", a)));
                    p.push(S(f.0, f.1));
                    p.push(T(")".into()));
                }
                W::Name(a) => {
                    p.push(T(format!("{}.fmt(", a)));
                    p.push(S(f.0, f.1));
                    p.push(T(")".into()));
                }
            }
            if !last {
                p.push(T(" { Ok(()) => ".into()));
                close.push_str(", ");
                close.push_str(tail);
            }
        }
        if ws.is_empty() {
            p.push(T("Ok(())".into()));
        }
        p.push(T(close));
        p.push(T(" }".repeat(n)));
        self.ed(rng(m), p);
        let args: &'static _ = Box::leak(Box::new(args));
        for a in args.iter() {
            self.visit_expr(a);
        }
        true
    }
    fn slice(&mut self, whole: (usize, usize), base: &syn::Expr, rg: &syn::ExprRange) {
        let b = rng(base);
        let mut p = vec![];
        let closed = matches!(rg.limits, syn::RangeLimits::Closed(_));
        match (&rg.start, &rg.end) {
            (a, None) => {
                p.push(S(b.0, b.1));
                p.push(T(".slice_from_(".into()));
                match a {
                    Some(a) => {
                        let r = rng(&**a);
                        p.push(S(r.0, r.1));
                    }
                    None => p.push(T("0".into())),
                }
                p.push(T(")".into()));
            }
            (a, Some(e)) => {
                p.push(S(b.0, b.1));
                p.push(T(".slice_(".into()));
                match a {
                    Some(a) => {
                        let r = rng(&**a);
                        p.push(S(r.0, r.1));
                    }
                    None => p.push(T("0".into())),
                }
                p.push(T(", ".into()));
                let r = rng(&**e);
                p.push(S(r.0, r.1));
                if closed {
                    p.push(T(" + 1".into()));
                }
                p.push(T(")".into()));
            }
        }
        self.ed(whole, p);
        self.visit_expr(base);
        if let Some(a) = &rg.start {
            self.visit_expr(a);
        }
        if let Some(a) = &rg.end {
            self.visit_expr(a);
        }
    }
}

/// Edits sorted so that enclosing edits come first; insertions at a point come before edits that start there.
struct Render<'a> {
    f: &'a FileCtx,
    eds: Vec<Ed>,
}

impl<'a> Render<'a> {
    fn new(f: &'a FileCtx, eds: Vec<Ed>) -> Self {
        // later-recorded edits of the same range are inner ones; keep stable order
        let mut idx: Vec<usize> = (0..eds.len()).collect();
        idx.sort_by(|&a, &b| {
            let (x, y) = (&eds[a], &eds[b]);
            x.s.cmp(&y.s)
                .then_with(|| {
                    let xi = x.s == x.e;
                    let yi = y.s == y.e;
                    yi.cmp(&xi)
                })
                .then_with(|| y.e.cmp(&x.e))
                .then(a.cmp(&b))
        });
        let eds = idx.into_iter().map(|i| eds[i].clone()).collect();
        Render { f, eds }
    }
    fn emit(&self, out: &mut Out, s: usize, e: usize, min: usize) {
        let mut pos = s;
        let mut i = min;
        while i < self.eds.len() {
            let d = &self.eds[i];
            if d.s > e || (d.s == e && (d.e != d.s || e != s && false)) {
                break;
            }
            if d.s < pos || d.e > e {
                i += 1;
                continue;
            }
            if d.s == d.e && d.s == e && e != s {
                // insertion at the very end of this range belongs to it only if it started inside
                // (e.g. ") " after a type); emit it here once
            }
            out.push(&self.f.src[pos..d.s], &self.f.name, self.f.line_of(pos));
            for p in &d.p {
                match p {
                    T(t) => out.push(t, &self.f.name, 0),
                    S(a, b) => self.emit(out, *a, *b, i + 1),
                }
            }
            pos = d.e;
            // skip all edits inside d
            let de = d.e;
            let ds = d.s;
            i += 1;
            while i < self.eds.len() && self.eds[i].s < de && de > ds {
                i += 1;
            }
        }
        if pos < e {
            out.push(&self.f.src[pos..e], &self.f.name, self.f.line_of(pos));
        }
    }
}

fn eval_flag(e: &syn::Expr, name: &str, known: &BTreeMap<String, Vec<(String, u64)>>, cur: &[(String, u64)]) -> Option<u64> {
    match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(i) => i.base10_parse::<u64>().ok(),
            _ => None,
        },
        syn::Expr::Paren(p) => eval_flag(&p.expr, name, known, cur),
        syn::Expr::Binary(b) => {
            let x = eval_flag(&b.left, name, known, cur)?;
            let y = eval_flag(&b.right, name, known, cur)?;
            match b.op {
                syn::BinOp::BitOr(_) => Some(x | y),
                syn::BinOp::BitAnd(_) => Some(x & y),
                syn::BinOp::Add(_) => x.checked_add(y),
                syn::BinOp::Shl(_) => x.checked_shl(y as u32),
                _ => None,
            }
        }
        syn::Expr::MethodCall(m) if m.method == "bits" => eval_flag(&m.receiver, name, known, cur),
        syn::Expr::Field(m) => eval_flag(&m.base, name, known, cur),
        syn::Expr::Path(p) => {
            let n = p.path.segments.len();
            if n < 2 {
                return None;
            }
            let c = p.path.segments[n - 1].ident.to_string();
            let t = p.path.segments[n - 2].ident.to_string();
            let list: &[(String, u64)] = if t == "Self" || t == name { cur } else { known.get(&t)? };
            list.iter().find(|x| x.0 == c).map(|x| x.1)
        }
        _ => None,
    }
}

struct FlagDef {
    name: String,
    ty: String,
    consts: Vec<(String, syn::Expr)>,
}

impl syn::parse::Parse for FlagDef {
    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
        input.call(syn::Attribute::parse_outer)?;
        let _: syn::Visibility = input.parse()?;
        input.parse::<syn::Token![struct]>()?;
        let name: syn::Ident = input.parse()?;
        input.parse::<syn::Token![:]>()?;
        let ty: syn::Ident = input.parse()?;
        let content;
        syn::braced!(content in input);
        let mut consts = vec![];
        while !content.is_empty() {
            content.call(syn::Attribute::parse_outer)?;
            content.parse::<syn::Token![const]>()?;
            let n: syn::Ident = content.parse()?;
            content.parse::<syn::Token![=]>()?;
            let e: syn::Expr = content.parse()?;
            content.parse::<syn::Token![;]>()?;
            consts.push((n.to_string(), e));
        }
        Ok(FlagDef { name: name.to_string(), ty: ty.to_string(), consts })
    }
}

fn gen_flags(d: &FlagDef, known: &mut BTreeMap<String, Vec<(String, u64)>>) -> Result<String, String> {
    let mut cur: Vec<(String, u64)> = vec![];
    for (n, e) in &d.consts {
        let v = eval_flag(e, &d.name, known, &cur).ok_or_else(|| format!("cannot evaluate {}::{}", d.name, n))?;
        cur.push((n.clone(), v));
    }
    known.insert(d.name.clone(), cur.clone());
    let all = cur.iter().fold(0, |a, x| a | x.1);
    let t = &d.ty;
    let nm = &d.name;
    let mut s = format!("#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub struct {nm} {{ pub bits: {t} }}\nimpl {nm} {{\n");
    for (n, v) in &cur {
        s.push_str(&format!("  pub const {n}: {nm} = {nm} {{ bits: {v:#x}{t} }};\n"));
    }
    s.push_str(&format!(
        "  pub open spec fn all_() -> {t} {{ {all:#x}{t} }}
  pub fn bits(&self) -> (r: {t}) ensures r == self.bits {{ self.bits }}
  pub fn empty() -> (r: Self) ensures r.bits == 0 {{ {nm} {{ bits: 0 }} }}
  pub fn is_empty(&self) -> (r: bool) ensures r == (self.bits == 0) {{ self.bits == 0 }}
  pub fn all() -> (r: Self) ensures r.bits == {all:#x}{t} {{ {nm} {{ bits: {all:#x}{t} }} }}
  pub fn from_bits_truncate(bits: {t}) -> (r: Self) ensures r == ({nm} {{ bits: bits & {all:#x}{t} }}) {{ {nm} {{ bits: bits & {all:#x}{t} }} }}
  pub fn from_bits(bits: {t}) -> (r: Option<Self>) ensures r == (if bits & !{all:#x}{t} == 0 {{ Some({nm} {{ bits }}) }} else {{ None }}) {{ if bits & !{all:#x}{t} == 0 {{ Some({nm} {{ bits }}) }} else {{ None }} }}
  pub fn contains(&self, other: Self) -> (r: bool) ensures r == (self.bits & other.bits == other.bits) {{ self.bits & other.bits == other.bits }}
  pub fn intersects(&self, other: Self) -> (r: bool) ensures r == (self.bits & other.bits != 0) {{ self.bits & other.bits != 0 }}
}}\n"
    ));
    Ok(s)
}

/// the sources the contracts were written for, to recognise a function by its type under another name
pub fn reference_texts(verif: &Path) -> BTreeMap<String, String> {
    texts_in(&verif.join("reference/src"))
}
pub fn texts_in(dir: &Path) -> BTreeMap<String, String> {
    let mut o = BTreeMap::new();
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if p.extension().map(|x| x == "rs").unwrap_or(false) {
                if let Ok(t) = std::fs::read_to_string(&p) {
                    o.insert(p.file_stem().unwrap().to_string_lossy().to_string(), t);
                }
            }
        }
    }
    o
}

pub fn run(src: &Path, verif: &Path, ts: bool) -> Result<Extracted, String> {
    let mut contracts: BTreeMap<String, Contract> = BTreeMap::new();
    let mut cfiles: Vec<_> = std::fs::read_dir(verif.join("contracts"))
        .map_err(|e| e.to_string())?
        .filter_map(|e| e.ok())
        .map(|e| e.path())
        .filter(|p| p.extension().map(|x| x == "ctr").unwrap_or(false))
        .collect();
    cfiles.sort();
    for p in &cfiles {
        contracts::parse(&std::fs::read_to_string(p).map_err(|e| e.to_string())?, &mut contracts)
            .map_err(|e| format!("{}: {}", p.display(), e))?;
    }
    let mut ex = Extracted::default();
    let mut out = Out::new();
    out.push(&std::fs::read_to_string(verif.join("contracts/prelude.rs")).map_err(|e| e.to_string())?, "prelude", 0);
    let order = ["lib", "names", "descriptors", "constant_pool", "bytecode", "attributes"];
    // any other module files named in lib.rs
    let mut mods: Vec<String> = order.iter().map(|s| s.to_string()).collect();
    let libsrc = std::fs::read_to_string(src.join("lib.rs")).map_err(|e| e.to_string())?;
    let libast = syn::parse_file(&libsrc).map_err(|e| format!("lib.rs: {}", e))?;
    for it in &libast.items {
        if let syn::Item::Mod(m) = it {
            let n = m.ident.to_string();
            if m.content.is_some() {
                if cfg_value(&m.attrs, ts) != Some(false) {
                    ex.unsupported.push(format!("inline module {}", n));
                }
            } else if n != "error" && !mods.contains(&n) && cfg_value(&m.attrs, ts) != Some(false) {
                mods.push(n);
            }
        }
    }
    let mut seen = BTreeSet::new();
    let mut flagdefs: Vec<FlagDef> = vec![];
    let mut parsed = vec![];
    let mut texts = BTreeMap::new();
    let mut paths = BTreeMap::new();
    for m in &mods {
        let path = src.join(format!("{}.rs", m));
        let path = if path.exists() { path } else { src.join(m).join("mod.rs") };
        texts.insert(m.clone(), std::fs::read_to_string(&path).map_err(|e| format!("{}: {}", path.display(), e))?);
        paths.insert(m.clone(), path);
    }
    if std::env::var("CBV_NO_INLINE").is_err() {
        ex.notes.append(&mut crate::inline::hoist(&mut texts));
        let keys: BTreeSet<String> = contracts.keys().cloned().collect();
        for (old, new) in crate::inline::renamed(&texts, &keys, &reference_texts(verif)) {
            ex.notes.push(format!("renamed: {} is {}", old, new));
            let c = contracts.remove(&old).unwrap();
            contracts.insert(new, c);
        }
        // a hand-written Clone must be what the derived one is
        for (m, t) in &texts {
            for it in syn::parse_file(t).map(|f| f.items).unwrap_or_default() {
                if let Some(ty) = clone_impl(&it) {
                    let key = format!("{}::{}::clone", m, ty);
                    if !contracts.contains_key(&key) {
                        let c = format!("@fn {} C02 C05 C09 C11 C14 C15\nensures r == *$0,\n", key);
                        contracts::parse(&c, &mut contracts)?;
                    }
                }
            }
        }
        ex.notes.append(&mut crate::inline::run(&mut texts, &|k| contracts.contains_key(k)));
        ex.notes.append(&mut crate::inline::unloop(&mut texts));
        ex.notes.append(&mut crate::inline::fit(
            &mut texts,
            &|k| contracts.get(k).map(|c| c.loops.keys().max().map(|x| x + 1).unwrap_or(0)),
            &|b| {
                let mut l = LoopCount(0);
                l.visit_block(b);
                l.0
            },
        ));
    }
    for m in &mods {
        let path = &paths[m];
        let text = texts[m].clone();
        let ast = syn::parse_file(&text).map_err(|e| format!("{}: {}", path.display(), e))?;
        let mut lines = vec![0];
        for (i, c) in text.bytes().enumerate() {
            if c == b'\n' {
                lines.push(i + 1);
            }
        }
        let fc = FileCtx { name: path.file_name().unwrap().to_string_lossy().to_string(), module: m.clone(), src: text, lines };
        for it in &ast.items {
            if let syn::Item::Macro(mm) = it {
                if mm.mac.path.is_ident("bitflags") {
                    let d: FlagDef = syn::parse2(mm.mac.tokens.clone()).map_err(|e| format!("bitflags: {}", e))?;
                    flagdefs.push(d);
                }
            }
        }
        parsed.push((fc, ast));
    }
    // flags (AccessFlags first: the others refer to it)
    let mut flagtext = String::from("verus!{\n");
    let mut known = BTreeMap::new();
    for pass in 0..2 {
        for d in &flagdefs {
            if (d.name == "AccessFlags") == (pass == 0) {
                flagtext.push_str(&gen_flags(d, &mut known)?);
            }
        }
    }
    flagtext.push_str("}\n");
    ex.flags = known;
    out.push(&flagtext, "bitflags", 0);

    for (fc, ast) in &parsed {
        let mut tail_impls = String::new();
        // macros first
        for it in &ast.items {
            if let syn::Item::Macro(mm) = it {
                if mm.ident.is_some() && cfg_value(&mm.attrs, ts) != Some(false) {
                    let r = rng(&mm.mac.tokens);
                    let _ = r;
                    let w = rng(it);
                    // drop attributes
                    let start = mm.attrs.last().map(|a| rng(a).1).unwrap_or(w.0);
                    out.push(&fc.src[start..w.1], &fc.name, fc.line_of(start));
                    out.push("\n", &fc.name, 0);
                }
            }
        }
        out.push("verus!{\n", &fc.name, 0);
        for it in &ast.items {
            let mut v = V {
                f: fc,
                ts,
                contracts: &contracts,
                eds: vec![],
                fns: vec![],
                unsupported: vec![],
                cur: None,
                curfn: FnInfo::default(),
                loop_no: 0,
                params: vec![],
                mutref: None,
                lets: vec![],
                letmuts: vec![],
                flags: vec![],
                counters: vec![],
                prefix: fc.module.clone(),
                assoc: BTreeMap::new(),
                in_trait_inherent: false,
                probes: std::env::var("CBV_PROBE").is_ok(),
                nprobe: 0,
            };
            let attrs: &[syn::Attribute] = match it {
                syn::Item::Const(x) => &x.attrs,
                syn::Item::Enum(x) => &x.attrs,
                syn::Item::Fn(x) => &x.attrs,
                syn::Item::Impl(x) => &x.attrs,
                syn::Item::Struct(x) => &x.attrs,
                syn::Item::Trait(x) => &x.attrs,
                syn::Item::Type(x) => &x.attrs,
                syn::Item::Static(x) => &x.attrs,
                _ => &[],
            };
            if cfg_value(attrs, ts) == Some(false) {
                continue;
            }
            v.strip_attrs(attrs);
            let mut emit = true;
            match it {
                syn::Item::Const(c) => v.publish(&c.vis, rng(&c.const_token).0),
                syn::Item::Type(t) => {
                    v.publish(&t.vis, rng(&t.type_token).0);
                    if t.ident == "CafeCell" {
                        emit = false;
                    }
                }
                syn::Item::Enum(e) => {
                    v.publish(&e.vis, rng(&e.enum_token).0);
                    for va in &e.variants {
                        v.strip_attrs(&va.attrs);
                        for f in va.fields.iter() {
                            v.strip_attrs(&f.attrs);
                        }
                    }
                    derive_shims(&e.ident, &e.generics, attrs, clone_body(it), &mut tail_impls);
                }
                syn::Item::Struct(e) => {
                    v.publish(&e.vis, rng(&e.struct_token).0);
                    for f in e.fields.iter() {
                        v.strip_attrs(&f.attrs);
                        let at = match &f.ident {
                            Some(i) => rng(i).0,
                            None => rng(&f.ty).0,
                        };
                        v.publish(&f.vis, at);
                    }
                    derive_shims(&e.ident, &e.generics, attrs, clone_body(it), &mut tail_impls);
                }
                syn::Item::Fn(f) => {
                    let key = format!("{}::{}", fc.module, f.sig.ident);
                    v.do_fn(&f.vis, &f.sig, &f.block, key);
                    v.visit_signature(&f.sig);
                }
                syn::Item::Impl(im) => {
                    let tyname = match &*im.self_ty {
                        syn::Type::Path(p) => last_seg(&p.path),
                        _ => "?".into(),
                    };
                    if let Some((_, tr, fo)) = &im.trait_ {
                        let trn = last_seg(tr);
                        if clone_impl(it).is_some() {
                        } else if !INHERENT.contains(&trn.as_str()) {
                            emit = false;
                            ex.unsupported.push(format!("impl {} for {}", trn, tyname));
                        } else {
                            v.in_trait_inherent = true;
                            let a = rng(tr).0;
                            let b = rng(fo).1;
                            if tyname == "Cow" {
                                // no inherent functions on foreign types: they go to the argument's type
                                if let syn::Type::Path(p) = &*im.self_ty {
                                    v.assoc.insert("Self".into(), fc.txt(rng(p)).to_string());
                                }
                                let arg = match &tr.segments.last().unwrap().arguments {
                                    syn::PathArguments::AngleBracketed(a) => fc.txt(rng(&a.args)).to_string(),
                                    _ => "?".into(),
                                };
                                v.ed((a, rng(&im.self_ty).1), vec![T(arg)]);
                            } else {
                                v.ed((a, b), vec![]);
                            }
                            for ii in &im.items {
                                if let syn::ImplItem::Type(t) = ii {
                                    v.assoc.insert(t.ident.to_string(), fc.txt(rng(&t.ty)).to_string());
                                    v.ed(rng(ii), vec![]);
                                }
                            }
                        }
                    }
                    if emit {
                        for ii in &im.items {
                            match ii {
                                syn::ImplItem::Fn(f) => {
                                    if cfg_value(&f.attrs, ts) == Some(false) {
                                        v.ed(rng(ii), vec![]);
                                        continue;
                                    }
                                    v.strip_attrs(&f.attrs);
                                    let key = format!("{}::{}::{}", fc.module, tyname, f.sig.ident);
                                    let keep = v.in_trait_inherent;
                                    v.in_trait_inherent |= clone_impl(it).is_some();
                                    v.do_fn(&f.vis, &f.sig, &f.block, key);
                                    v.in_trait_inherent = keep;
                                    v.visit_signature(&f.sig);
                                    if v.in_trait_inherent {
                                        let at = rng(&f.sig).0;
                                        v.ins(at, "pub ".into());
                                    }
                                }
                                syn::ImplItem::Type(_) => {}
                                syn::ImplItem::Const(_) => {}
                                _ => ex.unsupported.push(format!("impl item in {}", tyname)),
                            }
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    emit = false;
                    if t.ident != "CafeCellDeref" {
                        ex.unsupported.push(format!("trait {}", t.ident));
                    }
                }
                syn::Item::Use(_) | syn::Item::ExternCrate(_) | syn::Item::Mod(_) | syn::Item::Macro(_) => emit = false,
                _ => {
                    emit = false;
                    ex.unsupported.push("unknown item kind".into());
                }
            }
            ex.unsupported.append(&mut v.unsupported);
            if !emit {
                continue;
            }
            let r = rng(it);
            let mut fns = std::mem::take(&mut v.fns);
            let eds = std::mem::take(&mut v.eds);
            let rd = Render::new(fc, eds);
            let start = out.line();
            if fns.len() == 1 && fns[0].split > 1 {
                let mut tmp = Out::new();
                rd.emit(&mut tmp, r.0, r.1, 0);
                tmp.push("\n", &fc.name, 0);
                emit_split(&mut out, &tmp, fns.remove(0), &mut ex.fns, &mut seen);
                continue;
            }
            rd.emit(&mut out, r.0, r.1, 0);
            out.push("\n", &fc.name, 0);
            let end = out.line();
            // per function line ranges: by source line mapping
            let n = fns.len();
            for k in 0..n {
                let lo = fns[k].line;
                let hi = if k + 1 < n { fns[k + 1].line } else { usize::MAX };
                let mut s = end;
                for l in start..end {
                    if out.map[l].1 >= lo && out.map[l].1 < hi && out.map[l].1 != 0 {
                        s = l;
                        break;
                    }
                }
                fns[k].out_start = s;
            }
            for k in 0..n {
                fns[k].out_end = if k + 1 < n { fns[k + 1].out_start } else { end };
            }
            for f in &fns {
                seen.insert(f.key.clone());
            }
            ex.fns.append(&mut fns);
        }
        out.push(&tail_impls, &fc.name, 0);
        out.push("}\n", &fc.name, 0);
    }
    for k in contracts.keys() {
        if !seen.contains(k) {
            ex.missing.push(k.clone());
        }
    }
    // specifications
    let mut sfiles: Vec<_> = std::fs::read_dir(verif.join("contracts"))
        .map_err(|e| e.to_string())?
        .filter_map(|e| e.ok())
        .map(|e| e.path())
        .filter(|p| p.extension().map(|x| x == "spec").unwrap_or(false))
        .collect();
    sfiles.sort();
    for p in &sfiles {
        let t = std::fs::read_to_string(p).map_err(|e| e.to_string())?;
        let e = crate::specpp::expand(&t).map_err(|e| format!("{}: {}", p.display(), e))?;
        out.push("verus!{\n", "spec", 0);
        out.push(&e, "spec", 0);
        out.push("}\n", "spec", 0);
    }
    out.push("fn main() {}\n", "", 0);
    ex.linemap = out.map;
    ex.files.push(("lib.rs".into(), out.text));
    ex.files.push((
        "shim.rs".into(),
        std::fs::read_to_string(verif.join("contracts/shim.rs")).map_err(|e| e.to_string())?,
    ));
    ex.files.push((
        "shim_std.rs".into(),
        std::fs::read_to_string(verif.join("contracts/shim_std.rs")).map_err(|e| e.to_string())?,
    ));
    for k in &ex.missing {
        ex.notes.push(format!("contract without function: {}", k));
    }
    for k in &ex.unsupported {
        ex.notes.push(format!("unsupported: {}", k));
    }
    for f in &ex.fns {
        if !f.contracted {
            ex.notes.push(format!("no contract: {}", f.key));
        } else if !f.shape_ok {
            ex.notes.push(format!("loops of {} do not match its contract ({} loops)", f.key, f.nloops));
        }
    }
    Ok(ex)
}

const KEYOP: [&str; 3] = ["cmp", "<", "=="];
/// A closure over an element (k, ..) of a table: `|e| e.0` gives Some(None); `|e| e.0.cmp(&x)`, `|e| e.0 < x`, `|e| e.0 == x`
/// give the operator and x (with a star if it is to be dereferenced).
fn key_closure(e: &syn::Expr) -> Option<Option<(&'static str, bool, (usize, usize))>> {
    fn bare(e: &syn::Expr) -> &syn::Expr {
        match e {
            syn::Expr::Paren(p) => bare(&p.expr),
            syn::Expr::Block(b) if b.block.stmts.len() == 1 && b.label.is_none() => match &b.block.stmts[0] {
                syn::Stmt::Expr(e, None) => bare(e),
                _ => e,
            },
            e => e,
        }
    }
    let syn::Expr::Closure(c) = e else { return None };
    if c.inputs.len() != 1 {
        return None;
    }
    let mut pat = &c.inputs[0];
    let mut byval = false;
    if let syn::Pat::Reference(r) = pat {
        pat = &*r.pat;
        byval = true;
    }
    // the name of the element, or of its key
    let (elem, key) = match pat {
        syn::Pat::Ident(i) => (Some(i.ident.to_string()), None),
        syn::Pat::Tuple(t) => match t.elems.first() {
            Some(syn::Pat::Ident(i)) if t.elems.iter().skip(1).all(|p| matches!(p, syn::Pat::Wild(_) | syn::Pat::Rest(_))) => {
                byval |= i.by_ref.is_some();
                (None, Some(i.ident.to_string()))
            }
            _ => return None,
        },
        _ => return None,
    };
    let named = |e: &syn::Expr, n: &Option<String>| matches!((e, n), (syn::Expr::Path(p), Some(n)) if p.path.is_ident(n.as_str()));
    // Some(true): the key by value, Some(false): a reference to it
    let is_key = |e: &syn::Expr| -> Option<bool> {
        match bare(e) {
            syn::Expr::Field(f) if matches!(&f.member, syn::Member::Unnamed(i) if i.index == 0) && named(&f.base, &elem) => Some(true),
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && named(bare(&u.expr), &key) && !byval => Some(true),
            x if named(x, &key) => Some(byval),
            _ => None,
        }
    };
    let mentions = |e: &syn::Expr| {
        struct M<'a>(&'a Option<String>, &'a Option<String>, bool);
        impl<'a, 'b> syn::visit::Visit<'b> for M<'a> {
            fn visit_ident(&mut self, i: &'b syn::Ident) {
                if Some(i.to_string()) == *self.0 || Some(i.to_string()) == *self.1 {
                    self.2 = true;
                }
            }
        }
        let mut m = M(&elem, &key, false);
        syn::visit::Visit::visit_expr(&mut m, e);
        m.2
    };
    let body = bare(&c.body);
    if is_key(body) == Some(true) {
        return Some(None);
    }
    match body {
        syn::Expr::MethodCall(m) if m.method == "cmp" && m.args.len() == 1 && is_key(&m.receiver).is_some() && !mentions(&m.args[0]) => {
            Some(Some(match bare(&m.args[0]) {
                syn::Expr::Reference(r) => ("cmp", false, rng(&*r.expr)),
                e => ("cmp", true, rng(e)),
            }))
        }
        syn::Expr::Binary(b) => {
            let (l, r) = (is_key(&b.left), is_key(&b.right));
            let (k, x, flip) = match (l, r) {
                (Some(k), None) if !mentions(&b.right) => (k, &*b.right, false),
                (None, Some(k)) if !mentions(&b.left) => (k, &*b.left, true),
                _ => return None,
            };
            let op = match (b.op, flip) {
                (syn::BinOp::Eq(_), _) => "==",
                (syn::BinOp::Lt(_), false) | (syn::BinOp::Gt(_), true) => "<",
                _ => return None,
            };
            Some(Some(match (k, bare(x)) {
                (true, x) => (op, false, rng(x)),
                (false, syn::Expr::Reference(r)) => (op, false, rng(&*r.expr)),
                (false, x) => (op, true, rng(x)),
            }))
        }
        _ => None,
    }
}

/// `impl Clone for T` written out
fn clone_impl(it: &syn::Item) -> Option<String> {
    let syn::Item::Impl(im) = it else { return None };
    let (_, tr, _) = im.trait_.as_ref()?;
    let syn::Type::Path(p) = &*im.self_ty else { return None };
    if last_seg(tr) != "Clone" || im.items.len() != 1 || im.generics.params.iter().any(|g| matches!(g, syn::GenericParam::Type(_))) {
        return None;
    }
    let syn::ImplItem::Fn(f) = &im.items[0] else { return None };
    (f.sig.ident == "clone").then(|| last_seg(&p.path))
}

/// What #[derive(Clone)] expands to, where every field is of a type whose own Clone has a contract.
fn clone_body(it: &syn::Item) -> Option<String> {
    fn prim(t: &syn::Type) -> bool {
        match t {
            syn::Type::Reference(r) => r.mutability.is_none(),
            syn::Type::Tuple(t) => t.elems.iter().all(prim),
            syn::Type::Path(p) => {
                let s = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                matches!(
                    s.as_str(),
                    "u8" | "u16" | "u32" | "u64" | "i8" | "i16" | "i32" | "i64" | "usize" | "isize" | "bool" | "char" | "f32" | "f64" | "JumpOffset"
                )
            }
            _ => false,
        }
    }
    fn known(t: &syn::Type) -> bool {
        if prim(t) {
            return true;
        }
        let syn::Type::Path(p) = t else { return false };
        let Some(s) = p.path.segments.last() else { return false };
        let args: Vec<&syn::Type> = match &s.arguments {
            syn::PathArguments::AngleBracketed(a) => {
                a.args.iter().filter_map(|x| if let syn::GenericArgument::Type(t) = x { Some(t) } else { None }).collect()
            }
            _ => vec![],
        };
        match s.ident.to_string().as_str() {
            "Cow" => true,
            "Vec" | "Option" => args.iter().all(|t| known(t)),
            "HashMap" | "HashSet" | "Rc" | "Arc" | "CafeRc" | "CafeCell" | "RefCell" | "Box" | "String" => false,
            _ => args.is_empty(),
        }
    }
    fn copy(t: &syn::Type, place: &str, star: bool) -> String {
        if prim(t) {
            return format!("{}{}", if star { "*" } else { "" }, place);
        }
        let pairs = matches!(t, syn::Type::Path(p) if p.path.segments.last().map(|s| s.ident == "Vec"
            && matches!(&s.arguments, syn::PathArguments::AngleBracketed(a) if matches!(a.args.first(), Some(syn::GenericArgument::Type(syn::Type::Tuple(_)))))).unwrap_or(false));
        if pairs {
            // vstd says nothing about clone() of tuples
            format!("vec_copy_({}{})", if star { "" } else { "&" }, place)
        } else {
            format!("{}.clone()", place)
        }
    }
    let (syn::Item::Enum(_) | syn::Item::Struct(_)) = it else { return None };
    match it {
        syn::Item::Struct(e) => {
            if !e.fields.iter().all(|f| known(&f.ty)) {
                return None;
            }
            Some(match &e.fields {
                syn::Fields::Named(n) => {
                    let v: Vec<String> = n
                        .named
                        .iter()
                        .map(|f| {
                            let i = f.ident.as_ref().unwrap();
                            format!("{}: {}", i, copy(&f.ty, &format!("self.{}", i), false))
                        })
                        .collect();
                    format!("{} {{ {} }}", e.ident, v.join(", "))
                }
                syn::Fields::Unnamed(n) => {
                    let v: Vec<String> =
                        n.unnamed.iter().enumerate().map(|(i, f)| copy(&f.ty, &format!("self.{}", i), false)).collect();
                    format!("{}({})", e.ident, v.join(", "))
                }
                syn::Fields::Unit => e.ident.to_string(),
            })
        }
        syn::Item::Enum(e) => {
            if e.variants.is_empty() || !e.variants.iter().all(|v| v.fields.iter().all(|f| known(&f.ty))) {
                return None;
            }
            let arms: Vec<String> = e
                .variants
                .iter()
                .map(|v| match &v.fields {
                    syn::Fields::Named(n) => {
                        let b: Vec<String> = n.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
                        let c: Vec<String> = n
                            .named
                            .iter()
                            .map(|f| {
                                let i = f.ident.as_ref().unwrap().to_string();
                                format!("{}: {}", i, copy(&f.ty, &i, true))
                            })
                            .collect();
                        format!("{0}::{1} {{ {2} }} => {0}::{1} {{ {3} }}", e.ident, v.ident, b.join(", "), c.join(", "))
                    }
                    syn::Fields::Unnamed(n) => {
                        let b: Vec<String> = (0..n.unnamed.len()).map(|i| format!("x{}", i)).collect();
                        let c: Vec<String> =
                            n.unnamed.iter().enumerate().map(|(i, f)| copy(&f.ty, &format!("x{}", i), true)).collect();
                        format!("{0}::{1}({2}) => {0}::{1}({3})", e.ident, v.ident, b.join(", "), c.join(", "))
                    }
                    syn::Fields::Unit => format!("{0}::{1} => {0}::{1}", e.ident, v.ident),
                })
                .collect();
            Some(format!("match self {{ {} }}", arms.join(", ")))
        }
        _ => None,
    }
}

fn derive_shims(id: &syn::Ident, g: &syn::Generics, attrs: &[syn::Attribute], body: Option<String>, out: &mut String) {
    let lt = if g.params.is_empty() { "" } else { "<'a>" };
    if has_derive(attrs, "Copy") {
        out.push_str(&format!("impl{lt} Copy for {id}{lt} {{}}\n"));
    }
    if has_derive(attrs, "Clone") {
        let body = if has_derive(attrs, "Copy") { Some("*self".to_string()) } else { body };
        if let Some(b) = body {
            out.push_str(&format!("impl{lt} Clone for {id}{lt} {{ fn clone(&self) -> (r: Self) ensures r == *self {{ {b} }} }}\n"));
            return;
        }
        out.push_str(&format!(
            "impl{lt} Clone for {id}{lt} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"
        ));
    }
}
