//! Functions without a contract (helpers that a change has brought in) are inlined into their
//! callers before the extraction, so that the callers' contracts decide them too. The expansion is
//! the usual one: parameters are bound (or renamed, when the argument is a variable), and an early
//! exit of the helper becomes an exit of the caller (under `?`) or a branch. Where the shape of a
//! helper does not allow that, the call is left alone.
use proc_macro2::{Group, Ident, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};

#[derive(Clone)]
struct Helper {
    sig: syn::Signature,
    block: syn::Block,
    /// the type of the impl it is in
    of: Option<String>,
    item: (String, (usize, usize)),
}

fn rng<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

fn last(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") || a.path().is_ident("test"))
}

fn impl_name(im: &syn::ItemImpl) -> Option<String> {
    match &*im.self_ty {
        syn::Type::Path(p) => Some(last(&p.path)),
        _ => None,
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// under `?`
    Q,
    /// anywhere
    V,
    /// in tail position, or returned
    T,
}

fn ret_kind(sig: &syn::Signature) -> Option<(String, String)> {
    // Result/Option and its text without lifetimes
    if let syn::ReturnType::Type(_, t) = &sig.output {
        let mut t = (**t).clone();
        Lt.visit_type_mut(&mut t);
        if let syn::Type::Path(p) = &t {
            return Some((last(&p.path), t.to_token_stream().to_string()));
        }
        return Some(("?".into(), t.to_token_stream().to_string()));
    }
    Some(("()".into(), "()".into()))
}

fn err_of(sig: &syn::Signature) -> String {
    if let syn::ReturnType::Type(_, t) = &sig.output {
        if let syn::Type::Path(p) = &**t {
            if let Some(s) = p.path.segments.last() {
                if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                    return a.args.iter().nth(1).map(|x| x.to_token_stream().to_string()).unwrap_or_default();
                }
            }
        }
    }
    String::new()
}

/// lifetimes of the helper mean nothing in the caller
struct Lt;
impl VisitMut for Lt {
    fn visit_lifetime_mut(&mut self, l: &mut syn::Lifetime) {
        if l.ident != "static" && l.ident != "_" {
            l.ident = Ident::new("_", l.ident.span());
        }
    }
    fn visit_label_mut(&mut self, _l: &mut syn::Label) {}
    fn visit_expr_break_mut(&mut self, b: &mut syn::ExprBreak) {
        if let Some(e) = &mut b.expr {
            self.visit_expr_mut(e)
        }
    }
    fn visit_expr_continue_mut(&mut self, _b: &mut syn::ExprContinue) {}
}

struct Rename<'a> {
    m: &'a BTreeMap<String, Ident>,
}
fn ren_tokens(ts: TokenStream, m: &BTreeMap<String, Ident>) -> TokenStream {
    let mut out = TokenStream::new();
    let mut dot = false;
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                let n = match m.get(&i.to_string()) {
                    Some(x) if !dot => x.clone(),
                    _ => i,
                };
                out.extend([TokenTree::Ident(n)]);
                dot = false;
            }
            TokenTree::Group(g) => {
                out.extend([TokenTree::Group(Group::new(g.delimiter(), ren_tokens(g.stream(), m)))]);
                dot = false;
            }
            TokenTree::Punct(p) => {
                dot = p.as_char() == '.';
                out.extend([TokenTree::Punct(p)]);
            }
            x => {
                dot = false;
                out.extend([x])
            }
        }
    }
    out
}
impl VisitMut for Rename<'_> {
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if let Some(i) = p.path.get_ident() {
            if let Some(n) = self.m.get(&i.to_string()) {
                p.path = n.clone().into();
            }
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = ren_tokens(m.tokens.clone(), self.m);
    }
}

/// names bound by patterns, and every identifier
/// a parameter that stands for `&mut place`
struct Place<'a> {
    p: &'a str,
    x: &'a Ident,
}
impl Place<'_> {
    fn tokens(&self, ts: TokenStream) -> TokenStream {
        let mut o: Vec<TokenTree> = vec![];
        for t in ts {
            match t {
                TokenTree::Ident(i) if i == self.p => {
                    if matches!(o.last(), Some(TokenTree::Punct(q)) if q.as_char() == '*') {
                        o.pop();
                        o.push(TokenTree::Ident(self.x.clone()));
                    } else {
                        let x = self.x;
                        o.push(TokenTree::Group(proc_macro2::Group::new(proc_macro2::Delimiter::Parenthesis, quote! { &mut #x })));
                    }
                }
                TokenTree::Group(g) => o.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream())))),
                t => o.push(t),
            }
        }
        o.into_iter().collect()
    }
}
impl VisitMut for Place<'_> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        let x = self.x;
        let is = |e: &syn::Expr| matches!(e, syn::Expr::Path(q) if q.path.is_ident(self.p));
        if matches!(e, syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && is(&u.expr)) {
            *e = syn::parse_quote! { #x };
        } else if is(e) {
            *e = syn::parse_quote! { &mut #x };
        } else if matches!(e, syn::Expr::MethodCall(m) if is(&m.receiver)) || matches!(e, syn::Expr::Field(m) if is(&m.base)) {
            match e {
                syn::Expr::MethodCall(m) => {
                    *m.receiver = syn::parse_quote! { #x };
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                }
                syn::Expr::Field(m) => *m.base = syn::parse_quote! { #x },
                _ => {}
            }
        } else {
            visit_mut::visit_expr_mut(self, e);
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
}

#[derive(Default)]
struct Names {
    bound: BTreeSet<String>,
    all: BTreeSet<String>,
}
impl<'a> Visit<'a> for Names {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.bound.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_ident(&mut self, i: &'a Ident) {
        self.all.insert(i.to_string());
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        fn go(ts: TokenStream, s: &mut BTreeSet<String>) {
            for t in ts {
                match t {
                    TokenTree::Ident(i) => {
                        s.insert(i.to_string());
                    }
                    TokenTree::Group(g) => go(g.stream(), s),
                    _ => {}
                }
            }
        }
        go(m.tokens.clone(), &mut self.all);
    }
}

fn is_exit(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Call(c) => matches!(&*c.func, syn::Expr::Path(p) if last(&p.path) == "Err"),
        syn::Expr::Path(p) => last(&p.path) == "None",
        syn::Expr::Paren(p) => is_exit(&p.expr),
        _ => false,
    }
}

/// exits that cannot stay as they are
struct Exits {
    mode: Mode,
    bad: bool,
}
impl<'a> Visit<'a> for Exits {
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        let ok = match self.mode {
            Mode::T => true,
            Mode::Q => r.expr.as_ref().map(|e| is_exit(e)).unwrap_or(false),
            Mode::V => false,
        };
        if !ok {
            self.bad = true;
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
        if self.mode == Mode::V {
            self.bad = true;
        }
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _c: &'a syn::ExprClosure) {}
    fn visit_item(&mut self, _i: &'a syn::Item) {}
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let t = m.tokens.to_string();
        if self.mode == Mode::V && (m.path.is_ident("fail") || t.contains("return") || t.contains('?')) {
            self.bad = true;
        }
        if self.mode == Mode::Q && t.contains("return") {
            self.bad = true;
        }
    }
}
fn bad_expr(e: &syn::Expr, mode: Mode) -> bool {
    let mut x = Exits { mode, bad: false };
    x.visit_expr(e);
    x.bad
}
fn bad_block(e: &syn::Block, mode: Mode) -> bool {
    let mut x = Exits { mode, bad: false };
    x.visit_block(e);
    x.bad
}
fn bad_stmt(e: &syn::Stmt, mode: Mode) -> bool {
    let mut x = Exits { mode, bad: false };
    x.visit_stmt(e);
    x.bad
}

fn diverges(b: &syn::Block) -> bool {
    match b.stmts.last() {
        Some(syn::Stmt::Expr(e, _)) => expr_diverges(e),
        Some(syn::Stmt::Macro(m)) => m.mac.path.is_ident("fail"),
        _ => false,
    }
}
fn expr_diverges(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Return(_) => true,
        syn::Expr::Macro(m) => m.mac.path.is_ident("fail"),
        syn::Expr::Block(b) => diverges(&b.block),
        syn::Expr::If(i) => diverges(&i.then_branch) && i.else_branch.as_ref().map(|(_, e)| expr_diverges(e)).unwrap_or(false),
        syn::Expr::Match(m) => m.arms.iter().all(|a| expr_diverges(&a.body)),
        _ => false,
    }
}

/// The statements as the contents of a block whose value is the helper's (Q: without Ok or Some).
fn stmts(ss: &[syn::Stmt], mode: Mode, unit: bool) -> Option<TokenStream> {
    if mode == Mode::T {
        return Some(quote! { #(#ss)* });
    }
    let mut out = TokenStream::new();
    for (i, s) in ss.iter().enumerate() {
        let end = i + 1 == ss.len();
        match s {
            syn::Stmt::Expr(e, None) if end => {
                out.extend(tail(e, mode, unit)?);
                return Some(out);
            }
            syn::Stmt::Expr(syn::Expr::Return(r), _) => {
                match &r.expr {
                    Some(e) => out.extend(tail(e, mode, unit)?),
                    None if mode == Mode::V && unit => {}
                    None => return None,
                }
                return Some(out);
            }
            syn::Stmt::Expr(syn::Expr::If(f), _) if bad_block(&f.then_branch, mode) && !bad_expr(&f.cond, mode) => {
                if f.else_branch.is_some() || !diverges(&f.then_branch) {
                    return None;
                }
                let c = &f.cond;
                let a = stmts(&f.then_branch.stmts, mode, unit)?;
                let b = stmts(&ss[i + 1..], mode, unit)?;
                out.extend(quote! { if #c { #a } else { #b } });
                return Some(out);
            }
            syn::Stmt::Expr(syn::Expr::If(f), _) if f.else_branch.is_some() && !end && bad_expr(&f.else_branch.as_ref()?.1, mode) && !bad_expr(&f.cond, mode) => {
                // if c { .. } else { return .. }  rest
                let e = &f.else_branch.as_ref()?.1;
                if !expr_diverges(e) || bad_block(&f.then_branch, mode) {
                    return None;
                }
                let c = &f.cond;
                let a = &f.then_branch;
                let b = tail(e, mode, unit)?;
                let r = stmts(&ss[i + 1..], mode, unit)?;
                out.extend(quote! { if #c { #a #r } else { #b } });
                return Some(out);
            }
            syn::Stmt::Local(l) if bad_stmt(s, mode) => {
                let init = l.init.as_ref()?;
                let pat = &l.pat;
                if let Some((_, els)) = &init.diverge {
                    if bad_expr(&init.expr, mode) {
                        return None;
                    }
                    let e = &init.expr;
                    let b = tail(els, mode, unit)?;
                    let r = stmts(&ss[i + 1..], mode, unit)?;
                    out.extend(quote! { if let #pat = #e { #r } else { #b } });
                    return Some(out);
                }
                if let syn::Expr::Match(m) = &*init.expr {
                    if bad_expr(&m.expr, mode) || m.arms.iter().filter(|a| !expr_diverges(&a.body)).count() != 1 {
                        return None;
                    }
                    let e = &m.expr;
                    let mut arms = TokenStream::new();
                    for a in &m.arms {
                        let p = &a.pat;
                        let g = a.guard.as_ref().map(|(_, g)| quote! { if #g }).unwrap_or_default();
                        if expr_diverges(&a.body) {
                            let b = tail(&a.body, mode, unit)?;
                            arms.extend(quote! { #p #g => { #b } });
                        } else {
                            let mut pn = Names::default();
                            pn.visit_pat(p);
                            let mut rest = Names::default();
                            for s in &ss[i + 1..] {
                                rest.visit_stmt(s);
                            }
                            let mut own = Names::default();
                            own.visit_pat(pat);
                            if pn.bound.iter().any(|n| rest.all.contains(n) && !own.bound.contains(n)) || bad_expr(&a.body, mode) {
                                return None;
                            }
                            let b = &a.body;
                            let r = stmts(&ss[i + 1..], mode, unit)?;
                            arms.extend(quote! { #p #g => { let #pat = #b; #r } });
                        }
                    }
                    out.extend(quote! { match #e { #arms } });
                    return Some(out);
                }
                return None;
            }
            syn::Stmt::Macro(m) if m.mac.path.is_ident("fail") && mode == Mode::Q => {
                out.extend(quote! { #s });
                return Some(out);
            }
            _ => {
                if bad_stmt(s, mode) {
                    return None;
                }
                out.extend(quote! { #s });
            }
        }
    }
    if unit && mode == Mode::V {
        Some(out)
    } else {
        None
    }
}

fn tail(e: &syn::Expr, mode: Mode, unit: bool) -> Option<TokenStream> {
    Some(match e {
        syn::Expr::Paren(p) => tail(&p.expr, mode, unit)?,
        syn::Expr::Return(r) => match &r.expr {
            Some(e) => tail(e, mode, unit)?,
            None if unit && mode == Mode::V => quote! {},
            None => return None,
        },
        syn::Expr::Block(b) if b.label.is_none() => {
            let t = stmts(&b.block.stmts, mode, unit)?;
            quote! { { #t } }
        }
        syn::Expr::If(f) if f.else_branch.is_some() => {
            if bad_expr(&f.cond, mode) {
                return None;
            }
            let c = &f.cond;
            let a = stmts(&f.then_branch.stmts, mode, unit)?;
            let b = tail(&f.else_branch.as_ref()?.1, mode, unit)?;
            let b = match &*f.else_branch.as_ref()?.1 {
                syn::Expr::Block(_) => b,
                _ => quote! { { #b } },
            };
            quote! { if #c { #a } else #b }
        }
        syn::Expr::Match(m) => {
            if bad_expr(&m.expr, mode) {
                return None;
            }
            let x = &m.expr;
            let mut arms = TokenStream::new();
            for a in &m.arms {
                let p = &a.pat;
                let g = a.guard.as_ref().map(|(_, g)| quote! { if #g }).unwrap_or_default();
                let b = tail(&a.body, mode, unit)?;
                arms.extend(quote! { #p #g => { #b } });
            }
            quote! { match #x { #arms } }
        }
        syn::Expr::Macro(m) if m.mac.path.is_ident("fail") => {
            if mode == Mode::V {
                return None;
            }
            quote! { #e }
        }
        syn::Expr::Call(c) if bad_expr(e, mode) && c.args.len() == 1 && is_ctor(&c.func) && is_branch(&c.args[0]) => {
            let e = push_in(&c.func, &c.args[0])?;
            tail(&e, mode, unit)?
        }
        _ => {
            if bad_expr(e, mode) {
                return None;
            }
            if mode == Mode::Q {
                if let syn::Expr::Call(c) = e {
                    if let syn::Expr::Path(p) = &*c.func {
                        let n = last(&p.path);
                        if (n == "Ok" || n == "Some") && c.args.len() == 1 {
                            let v = &c.args[0];
                            return Some(quote! { #v });
                        }
                    }
                }
                if is_exit(e) {
                    return Some(quote! { return #e });
                }
                quote! { (#e)? }
            } else {
                quote! { #e }
            }
        }
    })
}

fn is_ctor(e: &syn::Expr) -> bool {
    matches!(e, syn::Expr::Path(p) if ["Ok", "Some"].contains(&last(&p.path).as_str()))
}
fn is_branch(e: &syn::Expr) -> bool {
    matches!(e, syn::Expr::Match(_) | syn::Expr::If(_) | syn::Expr::Block(_))
}
/// C(match x { a => b, .. }) as match x { a => C(b), .. }
fn push_in(c: &syn::Expr, e: &syn::Expr) -> Option<syn::Expr> {
    let block = |b: &syn::Block| -> Option<syn::Block> {
        let dv = diverges(b);
        let mut b = b.clone();
        match b.stmts.last_mut() {
            Some(syn::Stmt::Expr(e, None)) => *e = push_in(c, e)?,
            _ if dv => {}
            _ => return None,
        }
        Some(b)
    };
    Some(match e {
        syn::Expr::Match(m) => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                *a.body = push_in(c, &a.body)?;
                a.comma = Some(Default::default());
            }
            syn::Expr::Match(m)
        }
        syn::Expr::If(f) => {
            let mut f = f.clone();
            f.then_branch = block(&f.then_branch)?;
            let (_, e) = f.else_branch.as_mut()?;
            **e = push_in(c, e)?;
            syn::Expr::If(f)
        }
        syn::Expr::Block(b) if b.label.is_none() => {
            let mut b = b.clone();
            b.block = block(&b.block)?;
            syn::Expr::Block(b)
        }
        _ if expr_diverges(e) => e.clone(),
        _ => syn::parse2(quote! { #c(#e) }).ok()?,
    })
}

struct Site {
    r: (usize, usize),
    text: String,
}

/// Calls of helpers in one function.
struct Find<'a> {
    helpers: &'a BTreeMap<String, Vec<Helper>>,
    sig: &'a syn::Signature,
    of: Option<String>,
    closure: usize,
    tail: Option<(usize, usize)>,
    sites: Vec<Site>,
    src: &'a str,
}

impl Find<'_> {
    /// the helper a call is of, its receiver and its arguments
    fn target(&self, e: &syn::Expr) -> Option<(Helper, Option<syn::Expr>, Vec<syn::Expr>)> {
        match e {
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    let n = last(&p.path);
                    let hs = self.helpers.get(&n)?;
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let q = if segs.len() > 1 { Some(segs[segs.len() - 2].clone()) } else { None };
                    let q = match q.as_deref() {
                        Some("Self") => self.of.clone(),
                        _ => q,
                    };
                    let h = hs.iter().find(|h| match &h.of {
                        None => !q.as_deref().map(|x| x.starts_with(char::is_uppercase)).unwrap_or(false),
                        Some(o) => q.as_deref() == Some(o.as_str()),
                    })?;
                    let mut args: Vec<syn::Expr> = c.args.iter().cloned().collect();
                    if matches!(h.sig.inputs.first(), Some(syn::FnArg::Receiver(_))) {
                        if args.is_empty() {
                            return None;
                        }
                        let r = args.remove(0);
                        return Some((h.clone(), Some(r), args));
                    }
                    return Some((h.clone(), None, args));
                }
                None
            }
            syn::Expr::MethodCall(m) => {
                let hs = self.helpers.get(&m.method.to_string())?;
                let hs: Vec<&Helper> = hs.iter().filter(|h| h.of.is_some() && matches!(h.sig.inputs.first(), Some(syn::FnArg::Receiver(_)))).collect();
                if hs.len() != 1 {
                    return None;
                }
                Some((hs[0].clone(), Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }
    fn expand(&self, h: &Helper, recv: Option<&syn::Expr>, args: &[syn::Expr], mode: Mode) -> Option<String> {
        let kind = ret_kind(&h.sig)?;
        let unit = kind.0 == "()";
        match mode {
            Mode::Q => {
                if self.closure > 0 || kind.0 != "Result" && kind.0 != "Option" {
                    return None;
                }
                let mine = ret_kind(self.sig)?;
                if mine.0 != kind.0 || err_of(&h.sig) != err_of(self.sig) {
                    return None;
                }
            }
            Mode::T => {
                if self.closure > 0 || ret_kind(self.sig)?.1 != kind.1 {
                    return None;
                }
            }
            Mode::V => {}
        }
        let generic = h.sig.generics.params.iter().any(|p| !matches!(p, syn::GenericParam::Lifetime(_)));
        let mut block = h.block.clone();
        Lt.visit_block_mut(&mut block);
        let mut nm = Names::default();
        nm.visit_block(&block);
        if nm.all.contains("Self") && h.of != self.of {
            return None;
        }
        let mut ren: BTreeMap<String, Ident> = BTreeMap::new();
        let mut lets: Vec<(TokenStream, Option<TokenStream>, syn::Expr)> = vec![];
        let mut places: Vec<(String, Ident)> = vec![];
        let mut ai = args.iter();
        for p in &h.sig.inputs {
            match p {
                syn::FnArg::Receiver(r) => {
                    let e = recv?;
                    let id = match e {
                        syn::Expr::Path(p) => p.path.get_ident().cloned(),
                        _ => None,
                    };
                    match id {
                        Some(i) if i == "self" => {}
                        Some(i) if !nm.all.contains(&i.to_string()) && r.mutability.is_none() && r.reference.is_some() => {
                            // the variable may be the value itself or a reference to it
                            if bare_self(&block) {
                                return None;
                            }
                            ren.insert("self".into(), i);
                        }
                        _ => return None,
                    }
                }
                syn::FnArg::Typed(t) => {
                    let a = ai.next()?;
                    let pi = match &*t.pat {
                        syn::Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => i,
                        _ => return None,
                    };
                    let p = pi.ident.to_string();
                    let id = match a {
                        syn::Expr::Path(x) => x.path.get_ident().cloned(),
                        _ => None,
                    };
                    let simple = pi.mutability.is_none() && !nm.bound.contains(&p);
                    match id {
                        Some(i) if simple && i == p.as_str() => {}
                        Some(i) if simple && !nm.all.contains(&i.to_string()) => {
                            ren.insert(p, i);
                        }
                        None if simple && place_of(a).map_or(false, |x| x == p.as_str() || !nm.all.contains(&x.to_string())) => {
                            places.push((p, place_of(a)?));
                        }
                        _ => {
                            let mut ty = (*t.ty).clone();
                            if matches!(ty, syn::Type::ImplTrait(_)) {
                                return None;
                            }
                            Lt.visit_type_mut(&mut ty);
                            let m = pi.mutability;
                            let i = &pi.ident;
                            lets.push((quote! { #m #i }, if generic { None } else { Some(quote! { #ty }) }, a.clone()));
                        }
                    }
                }
            }
        }
        if ai.next().is_some() {
            return None;
        }
        // a bound parameter must not capture a variable that another parameter now stands for
        let bound: BTreeSet<String> = lets.iter().map(|l| l.0.to_string().replace("mut ", "").trim().to_string()).collect();
        if ren.values().chain(places.iter().map(|p| &p.1)).any(|v| bound.contains(&v.to_string())) {
            return None;
        }
        // ... nor one passed under its own name
        Rename { m: &ren }.visit_block_mut(&mut block);
        for (p, x) in &places {
            Place { p, x }.visit_block_mut(&mut block);
        }
        let body = stmts(&block.stmts, mode, unit)?;
        let pre = match lets.len() {
            0 => quote! {},
            1 => {
                let (p, t, a) = &lets[0];
                let t = t.as_ref().map(|t| quote! { : #t }).unwrap_or_default();
                quote! { let #p #t = #a; }
            }
            _ => {
                // one after the other, unless an argument mentions an earlier parameter
                let mut seen: BTreeSet<String> = BTreeSet::new();
                let mut o = quote! {};
                for (p, t, a) in &lets {
                    let mut n = Names::default();
                    n.visit_expr(a);
                    if n.all.iter().any(|x| seen.contains(x)) {
                        return None;
                    }
                    seen.insert(p.to_string().replace("mut ", "").trim().to_string());
                    let t = t.as_ref().map(|t| quote! { : #t }).unwrap_or_default();
                    o.extend(quote! { let #p #t = #a; });
                }
                o
            }
        };
        let single = lets.is_empty() && matches!(&block.stmts[..], [syn::Stmt::Expr(_, None)]);
        Some(if single { format!("({})", body) } else { format!("({{ {} {} }})", pre, body) })
    }
    fn replace(&mut self, r: (usize, usize), t: String) {
        // keep the lines that follow where they are
        let had = self.src[r.0..r.1].matches('\n').count();
        let has = t.matches('\n').count();
        let pad = "\n".repeat(had.saturating_sub(has));
        self.sites.push(Site { r, text: t + &pad });
    }
    fn has(&self, e: &syn::Expr) -> bool {
        self.target(e).is_some()
    }
}

fn place_of(e: &syn::Expr) -> Option<Ident> {
    match e {
        syn::Expr::Reference(r) if r.mutability.is_some() => match &*r.expr {
            syn::Expr::Path(x) => x.path.get_ident().cloned().filter(|i| i != "self"),
            _ => None,
        },
        _ => None,
    }
}

fn bare_self(b: &syn::Block) -> bool {
    struct S(bool);
    impl<'a> Visit<'a> for S {
        fn visit_expr_field(&mut self, f: &'a syn::ExprField) {
            if !matches!(&*f.base, syn::Expr::Path(p) if p.path.is_ident("self")) {
                visit::visit_expr_field(self, f);
            }
        }
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            if !matches!(&*m.receiver, syn::Expr::Path(p) if p.path.is_ident("self")) {
                self.visit_expr(&m.receiver);
            }
            for a in &m.args {
                self.visit_expr(a);
            }
        }
        fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
            if p.path.is_ident("self") {
                self.0 = true;
            }
        }
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            if m.tokens.to_string().contains("self") {
                self.0 = true;
            }
        }
    }
    let mut s = S(false);
    s.visit_block(b);
    s.0
}

impl<'a> Visit<'a> for Find<'_> {
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        self.closure += 1;
        visit::visit_expr_closure(self, c);
        self.closure -= 1;
    }
    fn visit_item(&mut self, _i: &'a syn::Item) {}
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        if let syn::Expr::Try(t) = e {
            let mut inner = &*t.expr;
            if let syn::Expr::MethodCall(m) = inner {
                if m.method == "map_err" && !self.has(inner) {
                    inner = &m.receiver;
                }
            }
            if let Some((h, r, a)) = self.target(inner) {
                if let Some(x) = self.expand(&h, r.as_ref(), &a, Mode::Q) {
                    self.replace(rng(e), x);
                    return;
                }
            }
        }
        if let syn::Expr::Return(r) = e {
            if let Some(x) = &r.expr {
                if let Some((h, rc, a)) = self.target(x) {
                    if let Some(t) = self.expand(&h, rc.as_ref(), &a, Mode::V).or_else(|| self.expand(&h, rc.as_ref(), &a, Mode::T)) {
                        self.replace(rng(&**x), t);
                        return;
                    }
                }
            }
        }
        if let Some((h, r, a)) = self.target(e) {
            let t = self.expand(&h, r.as_ref(), &a, Mode::V);
            let t = if t.is_none() && self.tail == Some(rng(e)) { self.expand(&h, r.as_ref(), &a, Mode::T) } else { t };
            if let Some(x) = t {
                self.replace(rng(e), x);
                return;
            }
        }
        visit::visit_expr(self, e);
    }
}

/// Expand the functions without a contract in the sources of the modules.
pub fn run(texts: &mut BTreeMap<String, String>, known: &dyn Fn(&str) -> bool) -> Vec<String> {
    let mut notes = vec![];
    for _ in 0..8 {
        let mut helpers: BTreeMap<String, Vec<Helper>> = BTreeMap::new();
        let mut asts = BTreeMap::new();
        for (m, t) in texts.iter() {
            match syn::parse_file(t) {
                Ok(a) => asts.insert(m.clone(), a),
                Err(_) => return notes,
            };
        }
        let ok = |sig: &syn::Signature, attrs: &[syn::Attribute]| {
            !is_test(attrs) && sig.asyncness.is_none() && sig.unsafety.is_none() && sig.abi.is_none()
        };
        for (m, a) in &asts {
            for it in &a.items {
                match it {
                    syn::Item::Fn(f) if ok(&f.sig, &f.attrs) && !known(&format!("{}::{}", m, f.sig.ident)) => {
                        helpers.entry(f.sig.ident.to_string()).or_default().push(Helper {
                            sig: f.sig.clone(),
                            block: (*f.block).clone(),
                            of: None,
                            item: (m.clone(), rng(f)),
                        });
                    }
                    syn::Item::Impl(im) if im.trait_.is_none() && !is_test(&im.attrs) => {
                        let n = match impl_name(im) {
                            Some(n) => n,
                            None => continue,
                        };
                        for ii in &im.items {
                            if let syn::ImplItem::Fn(f) = ii {
                                if ok(&f.sig, &f.attrs) && !known(&format!("{}::{}::{}", m, n, f.sig.ident)) {
                                    helpers.entry(f.sig.ident.to_string()).or_default().push(Helper {
                                        sig: f.sig.clone(),
                                        block: f.block.clone(),
                                        of: Some(n.clone()),
                                        item: (m.clone(), rng(f)),
                                    });
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        // a helper that calls itself stays
        helpers.retain(|n, hs| {
            hs.retain(|h| {
                let mut x = Names::default();
                x.visit_block(&h.block);
                !x.all.contains(n)
            });
            !hs.is_empty()
        });
        if helpers.is_empty() {
            return notes;
        }
        let mut any = false;
        for (m, a) in &asts {
            let src = texts[m].clone();
            let mut sites = vec![];
            let mut look = |sig: &syn::Signature, block: &syn::Block, of: Option<String>, key: String| {
                if !known(&key) {
                    return;
                }
                let tl = match block.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) => Some(rng(e)),
                    _ => None,
                };
                let mut f = Find { helpers: &helpers, sig, of, closure: 0, tail: tl, sites: vec![], src: &src };
                f.visit_block(block);
                sites.append(&mut f.sites);
            };
            for it in &a.items {
                match it {
                    syn::Item::Fn(f) if !is_test(&f.attrs) => look(&f.sig, &f.block, None, format!("{}::{}", m, f.sig.ident)),
                    syn::Item::Impl(im) => {
                        let n = impl_name(im).unwrap_or("?".into());
                        for ii in &im.items {
                            if let syn::ImplItem::Fn(f) = ii {
                                look(&f.sig, &f.block, Some(n.clone()), format!("{}::{}::{}", m, n, f.sig.ident));
                            }
                        }
                    }
                    _ => {}
                }
            }
            if sites.is_empty() {
                continue;
            }
            sites.sort_by_key(|s| s.r.0);
            let mut t = src.clone();
            for s in sites.iter().rev() {
                t.replace_range(s.r.0..s.r.1, &s.text);
            }
            if syn::parse_file(&t).is_err() {
                notes.push(format!("inlining in {} gave up", m));
                continue;
            }
            any = true;
            texts.insert(m.clone(), t);
        }
        if !any {
            break;
        }
    }
    // what nobody calls any more goes
    for _ in 0..6 {
        let mut used: BTreeMap<String, usize> = BTreeMap::new();
        let mut defs: Vec<(String, String, (usize, usize))> = vec![];
        for (m, t) in texts.iter() {
            let a = match syn::parse_file(t) {
                Ok(a) => a,
                Err(_) => return notes,
            };
            let live: TokenStream = a
                .items
                .iter()
                .filter(|i| !matches!(i, syn::Item::Mod(x) if is_test(&x.attrs)))
                .map(|i| i.to_token_stream())
                .collect();
            fn go(ts: TokenStream, u: &mut BTreeMap<String, usize>) {
                for t in ts {
                    match t {
                        TokenTree::Ident(i) => *u.entry(i.to_string()).or_default() += 1,
                        TokenTree::Group(g) => go(g.stream(), u),
                        _ => {}
                    }
                }
            }
            go(live, &mut used);
            for it in &a.items {
                match it {
                    syn::Item::Fn(f)
                        if !is_test(&f.attrs) && !matches!(f.vis, syn::Visibility::Public(_)) && !known(&format!("{}::{}", m, f.sig.ident)) =>
                    {
                        defs.push((m.clone(), f.sig.ident.to_string(), rng(f)))
                    }
                    syn::Item::Impl(im) if im.trait_.is_none() => {
                        let n = impl_name(im).unwrap_or_default();
                        for ii in &im.items {
                            if let syn::ImplItem::Fn(f) = ii {
                                let private = matches!(f.vis, syn::Visibility::Inherited) || matches!(f.vis, syn::Visibility::Restricted(_));
                                if private && !is_test(&f.attrs) && !known(&format!("{}::{}::{}", m, n, f.sig.ident)) {
                                    defs.push((m.clone(), f.sig.ident.to_string(), rng(f)))
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        let dead: Vec<_> = defs.into_iter().filter(|d| used.get(&d.1).copied().unwrap_or(0) <= 1).collect();
        if dead.is_empty() {
            break;
        }
        for m in dead.iter().map(|d| d.0.clone()).collect::<BTreeSet<_>>() {
            let mut t = texts[&m].clone();
            let mut ds: Vec<_> = dead.iter().filter(|d| d.0 == m).collect();
            ds.sort_by_key(|d| d.2 .0);
            for d in ds.iter().rev() {
                let nl = "\n".repeat(t[d.2 .0..d.2 .1].matches('\n').count());
                t.replace_range(d.2 .0..d.2 .1, &nl);
                notes.push(format!("inlined: {}", d.1));
            }
            texts.insert(m, t);
        }
    }
    notes
}

// ---------------------------------------------------------------- iterator chains and loops
/// A function whose loops are not those its contract speaks of: chains that end in collect, all or
/// any become loops, and loops that only look for an exception become chains.
pub fn fit(texts: &mut BTreeMap<String, String>, want: &dyn Fn(&str) -> Option<usize>, count: &dyn Fn(&syn::Block) -> usize) -> Vec<String> {
    let mut notes = vec![];
    let mods: Vec<String> = texts.keys().cloned().collect();
    for m in mods {
        let src = texts[&m].clone();
        let a = match syn::parse_file(&src) {
            Ok(a) => a,
            Err(_) => continue,
        };
        let mut sites: Vec<((usize, usize), String)> = vec![];
        let mut look = |sig: &syn::Signature, block: &syn::Block, key: String| {
            let w = match want(&key) {
                Some(w) => w,
                None => return,
            };
            let have = count(block);
            if w == have {
                return;
            }
            let mut d = Chains { more: w > have, sig, sites: vec![], tail: None };
            d.block_tail(block);
            let t = d.tail;
            d.visit_block(block);
            let _ = t;
            for s in d.sites {
                sites.push(s);
            }
        };
        for it in &a.items {
            match it {
                syn::Item::Fn(f) if !is_test(&f.attrs) => look(&f.sig, &f.block, format!("{}::{}", m, f.sig.ident)),
                syn::Item::Impl(im) => {
                    let n = impl_name(im).unwrap_or("?".into());
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            look(&f.sig, &f.block, format!("{}::{}::{}", m, n, f.sig.ident));
                        }
                    }
                }
                _ => {}
            }
        }
        if sites.is_empty() {
            continue;
        }
        sites.sort_by_key(|s| s.0 .0);
        let mut t = src.clone();
        for (r, x) in sites.iter().rev() {
            let had = t[r.0..r.1].matches('\n').count();
            let has = x.matches('\n').count();
            t.replace_range(r.0..r.1, &format!("{}{}", x, "\n".repeat(had.saturating_sub(has))));
        }
        if syn::parse_file(&t).is_ok() {
            texts.insert(m.clone(), t);
            notes.push(format!("chains and loops fitted in {}", m));
        }
    }
    notes
}

struct Chains<'a> {
    /// the contract has more loops than the text
    more: bool,
    sig: &'a syn::Signature,
    sites: Vec<((usize, usize), String)>,
    tail: Option<(usize, usize)>,
}

impl Chains<'_> {
    fn block_tail(&mut self, b: &syn::Block) {
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
            self.tail = Some(rng(e));
        }
    }
    /// E.map(|p| B).collect() as a loop
    fn collect(&self, e: &syn::Expr, ty: Option<String>, q: bool) -> Option<TokenStream> {
        let (m, turbo) = match e {
            syn::Expr::MethodCall(m) if m.method == "collect" => (m, m.turbofish.as_ref().map(|t| t.args.to_token_stream().to_string())),
            _ => return None,
        };
        let (src, clo) = match &*m.receiver {
            syn::Expr::MethodCall(x) if x.method == "map" && x.args.len() == 1 => (&x.receiver, &x.args[0]),
            _ => return None,
        };
        let ty = turbo.or(ty).unwrap_or_default();
        let k = if ty.starts_with("Result") || ty.starts_with("ParseResult") {
            "Result"
        } else if ty.starts_with("Option") {
            "Option"
        } else if ty.starts_with("Vec") {
            "Vec"
        } else if q {
            "Result"
        } else {
            return None;
        };
        let (pat, body): (TokenStream, syn::Expr) = match clo {
            syn::Expr::Closure(c) if c.inputs.len() == 1 => {
                let p = match &c.inputs[0] {
                    syn::Pat::Type(t) => t.pat.to_token_stream(),
                    p => p.to_token_stream(),
                };
                (p, (*c.body).clone())
            }
            syn::Expr::Path(p) => (quote! { x_ }, syn::parse2(quote! { #p(x_) }).ok()?),
            _ => return None,
        };
        Some(if k == "Vec" {
            let b = tail(&body, Mode::V, false)?;
            quote! { { let mut out_ = Vec::new(); for #pat in #src { out_.push({ #b }); } out_ } }
        } else {
            let ok = Ident::new(if k == "Result" { "Ok" } else { "Some" }, proc_macro2::Span::call_site());
            let b = tail(&body, Mode::Q, false)?;
            if q {
                quote! { { let mut out_ = Vec::new(); for #pat in #src { out_.push({ #b }); } out_ } }
            } else {
                quote! { { let mut out_ = Vec::new(); for #pat in #src { out_.push({ #b }); } #ok(out_) } }
            }
        })
    }
    /// a chain of conjuncts that ends in E.all(f), or E.any(f), as the value of the function
    fn all(&self, e: &syn::Expr) -> Option<TokenStream> {
        match e {
            syn::Expr::Paren(p) => self.all(&p.expr),
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
                let l = &b.left;
                let r = self.all(&b.right)?;
                Some(quote! { if !(#l) { return false; } #r })
            }
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => {
                let m = match &*u.expr {
                    syn::Expr::MethodCall(m) if m.method == "any" && m.args.len() == 1 => m,
                    _ => return None,
                };
                let (p, b, s) = self.pred(m)?;
                Some(quote! { for #p in #s { if #b { return false; } } true })
            }
            syn::Expr::MethodCall(m) if (m.method == "all" || m.method == "any") && m.args.len() == 1 => {
                let (p, b, s) = self.pred(m)?;
                Some(if m.method == "all" {
                    quote! { for #p in #s { if !(#b) { return false; } } true }
                } else {
                    quote! { for #p in #s { if #b { return true; } } false }
                })
            }
            _ => None,
        }
    }
    fn pred(&self, m: &syn::ExprMethodCall) -> Option<(TokenStream, TokenStream, TokenStream)> {
        let s = m.receiver.to_token_stream();
        match &m.args[0] {
            syn::Expr::Closure(c) if c.inputs.len() == 1 => {
                if bad_expr(&c.body, Mode::V) {
                    return None;
                }
                let b = &c.body;
                Some((c.inputs[0].to_token_stream(), quote! { #b }, s))
            }
            syn::Expr::Path(p) => Some((quote! { x_ }, quote! { #p(x_) }, s)),
            _ => None,
        }
    }
}

impl<'a> Visit<'a> for Chains<'_> {
    fn visit_expr_closure(&mut self, _c: &'a syn::ExprClosure) {}
    fn visit_block(&mut self, b: &'a syn::Block) {
        if !self.more && b.stmts.len() >= 2 {
            // for p in E { if !f(p) { return false; } } true
            if let [.., syn::Stmt::Expr(syn::Expr::ForLoop(l), _), syn::Stmt::Expr(syn::Expr::Lit(v), None)] = &b.stmts[..] {
                if let (syn::Lit::Bool(v), [syn::Stmt::Expr(syn::Expr::If(f), _)], syn::Pat::Ident(p)) = (&v.lit, &l.body.stmts[..], &*l.pat) {
                    if let (None, [syn::Stmt::Expr(syn::Expr::Return(r), _)]) = (&f.else_branch, &f.then_branch.stmts[..]) {
                        let ret = r.expr.as_ref().map(|e| e.to_token_stream().to_string()).unwrap_or_default();
                        let (neg, c) = match &*f.cond {
                            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => (true, &*u.expr),
                            e => (false, e),
                        };
                        if let syn::Expr::Call(c) = c {
                            if c.args.len() == 1 && c.args[0].to_token_stream().to_string() == p.ident.to_string() {
                                let (e, g) = (&l.expr, &c.func);
                                let t = match (neg, ret.as_str(), v.value) {
                                    (true, "false", true) => Some(quote! { #e.all(#g) }),
                                    (false, "true", false) => Some(quote! { #e.any(#g) }),
                                    (false, "false", true) => Some(quote! { !#e.any(#g) }),
                                    (true, "true", false) => Some(quote! { !#e.all(#g) }),
                                    _ => None,
                                };
                                if let Some(t) = t {
                                    self.sites.push(((rng(l).0, rng(b.stmts.last().unwrap()).1), t.to_string()));
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
        visit::visit_block(self, b);
    }
    fn visit_local(&mut self, l: &'a syn::Local) {
        if let (true, Some(i)) = (self.more, &l.init) {
            let ty = match &l.pat {
                syn::Pat::Type(t) => Some(t.ty.to_token_stream().to_string()),
                _ => None,
            };
            if let Some(t) = self.collect(&i.expr, ty.filter(|t| t.starts_with("Vec")), false) {
                // a Result kept as a value would need its errors as values: only vectors
                if !t.to_string().contains("return") && !t.to_string().contains('?') {
                    self.sites.push((rng(&*i.expr), t.to_string()));
                    return;
                }
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        if let (true, syn::Stmt::Expr(e, semi)) = (self.more, s) {
            // E.try_for_each(|p| B)?; and E.for_each(|p| B);
            let (m, q) = match e {
                syn::Expr::Try(t) => (&*t.expr, true),
                e => (e, false),
            };
            if let (syn::Expr::MethodCall(m), true) = (m, semi.is_some()) {
                if let (Some(syn::Expr::Closure(c)), 1) = (m.args.first(), m.args.len()) {
                    let (x, p, b) = (&m.receiver, &c.inputs, &c.body);
                    let t = b.to_token_stream().to_string();
                    if c.inputs.len() == 1 && !t.contains("return") && !t.contains("fail !") {
                        let r = if m.method == "try_for_each" && q {
                            Some(quote! { for #p in #x { #b?; } })
                        } else if m.method == "for_each" && !q && !t.contains('?') {
                            Some(quote! { for #p in #x { #b; } })
                        } else {
                            None
                        };
                        if let Some(r) = r {
                            self.sites.push((rng(s), r.to_string()));
                            return;
                        }
                    }
                }
            }
        }
        visit::visit_stmt(self, s);
    }
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        if self.more {
            if let syn::Expr::Try(t) = e {
                if let Some(x) = self.collect(&t.expr, None, true) {
                    self.sites.push((rng(e), x.to_string()));
                    return;
                }
            }
            // E.map(|p| B).sum() is E.fold(0, |sum_, p| sum_ + (B))
            if let syn::Expr::MethodCall(m) = e {
                if let (true, syn::Expr::MethodCall(x)) = (m.method == "sum" && m.args.is_empty(), &*m.receiver) {
                    if x.method == "map" && x.args.len() == 1 {
                        let r = &x.receiver;
                        let t = match &x.args[0] {
                            syn::Expr::Closure(c) if c.inputs.len() == 1 && !c.body.to_token_stream().to_string().contains("return") => {
                                let (p, b) = (&c.inputs, &c.body);
                                Some(quote! { #r.fold(0, |sum_, #p| sum_ + #b) })
                            }
                            syn::Expr::Path(f) => Some(quote! { #r.fold(0, |sum_, p_| sum_ + #f(p_)) }),
                            _ => None,
                        };
                        if let Some(t) = t {
                            self.sites.push((rng(e), t.to_string()));
                            return;
                        }
                    }
                }
            }
            // E.try_for_each(|p| B) at the end of a function
            if let (true, syn::Expr::MethodCall(m)) = (self.tail == Some(rng(e)), e) {
                if let (true, Some(syn::Expr::Closure(c))) = (m.method == "try_for_each" && m.args.len() == 1, m.args.first()) {
                    let (x, p, b) = (&m.receiver, &c.inputs, &c.body);
                    let t = b.to_token_stream().to_string();
                    if c.inputs.len() == 1 && !t.contains("return") && !t.contains("fail !") {
                        self.sites.push((rng(e), quote! { for #p in #x { #b?; } Ok(()) }.to_string()));
                        return;
                    }
                }
            }
            let tl = match e {
                syn::Expr::Return(r) => r.expr.as_deref(),
                _ if self.tail == Some(rng(e)) => Some(e),
                _ => None,
            };
            if let Some(x) = tl {
                let ty = match &self.sig.output {
                    syn::ReturnType::Type(_, t) => t.to_token_stream().to_string(),
                    _ => String::new(),
                };
                if let Some(t) = self.collect(x, Some(ty.clone()), false) {
                    self.sites.push((rng(x), t.to_string()));
                    return;
                }
                if ty == "bool" {
                    if let Some(t) = self.all(x) {
                        self.sites.push((rng(x), if self.tail == Some(rng(x)) { t.to_string() } else { format!("{{ {} }}", t) }));
                        return;
                    }
                }
            }
        }
        visit::visit_expr(self, e);
    }
}

/// Items inside of functions move out in front of them.
pub fn hoist(texts: &mut BTreeMap<String, String>) -> Vec<String> {
    let mut notes = vec![];
    let mut defs: BTreeMap<String, usize> = BTreeMap::new();
    struct Defs<'d>(&'d mut BTreeMap<String, usize>);
    impl<'a> Visit<'a> for Defs<'_> {
        fn visit_item_const(&mut self, c: &'a syn::ItemConst) {
            *self.0.entry(c.ident.to_string()).or_default() += 1;
        }
        fn visit_item_fn(&mut self, f: &'a syn::ItemFn) {
            *self.0.entry(f.sig.ident.to_string()).or_default() += 1;
            visit::visit_item_fn(self, f);
        }
        fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) {
            visit::visit_impl_item_fn(self, f);
        }
    }
    for t in texts.values() {
        match syn::parse_file(t) {
            Ok(a) => Defs(&mut defs).visit_file(&a),
            Err(_) => return notes,
        }
    }
    let mods: Vec<String> = texts.keys().cloned().collect();
    for m in mods {
        let src = texts[&m].clone();
        let a = syn::parse_file(&src).unwrap();
        let mut cuts: Vec<((usize, usize), String)> = vec![];
        struct Inner {
            found: Vec<((usize, usize), String)>,
        }
        impl<'a> Visit<'a> for Inner {
            fn visit_item_const(&mut self, c: &'a syn::ItemConst) {
                self.found.push((rng(c), c.ident.to_string()));
            }
            fn visit_item_fn(&mut self, f: &'a syn::ItemFn) {
                self.found.push((rng(f), f.sig.ident.to_string()));
            }
            fn visit_item_mod(&mut self, _m: &'a syn::ItemMod) {}
        }
        for it in &a.items {
            let mut inner = Inner { found: vec![] };
            match it {
                syn::Item::Fn(f) if !is_test(&f.attrs) => inner.visit_block(&f.block),
                syn::Item::Impl(im) if !is_test(&im.attrs) => {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            inner.visit_block(&f.block)
                        }
                    }
                }
                _ => continue,
            }
            let at = rng(it).0;
            for (r, n) in inner.found {
                if defs.get(&n).copied().unwrap_or(0) != 1 {
                    continue;
                }
                let body = match syn::parse_str::<TokenStream>(&src[r.0..r.1]) {
                    Ok(t) => t.to_string(),
                    Err(_) => continue,
                };
                cuts.push((r, "\n".repeat(src[r.0..r.1].matches('\n').count())));
                cuts.push(((at, at), format!("{} ", body)));
                notes.push(format!("moved out: {}", n));
            }
        }
        if cuts.is_empty() {
            continue;
        }
        cuts.sort_by_key(|c| c.0);
        let mut t = src.clone();
        for (r, x) in cuts.iter().rev() {
            t.replace_range(r.0..r.1, x);
        }
        if syn::parse_file(&t).is_ok() {
            texts.insert(m.clone(), t);
        }
    }
    notes
}

/// A function that is gone, and a new one of the same type in the same place: its new name.
pub fn renamed(texts: &BTreeMap<String, String>, known: &BTreeSet<String>, reference: &BTreeMap<String, String>) -> Vec<(String, String)> {
    let sigs = |texts: &BTreeMap<String, String>| {
        let mut o: BTreeMap<String, (String, String)> = BTreeMap::new();
        for (m, t) in texts {
            if let Ok(a) = syn::parse_file(t) {
                let mut put = |sig: &syn::Signature, pre: String| {
                    let mut s = sig.clone();
                    s.ident = Ident::new("f", proc_macro2::Span::call_site());
                    for i in s.inputs.iter_mut() {
                        if let syn::FnArg::Typed(t) = i {
                            *t.pat = syn::parse_quote!(p);
                        }
                    }
                    o.insert(format!("{}::{}", pre, sig.ident), (pre, s.to_token_stream().to_string()));
                };
                for it in &a.items {
                    match it {
                        syn::Item::Fn(f) if !is_test(&f.attrs) => put(&f.sig, m.clone()),
                        syn::Item::Impl(im) => {
                            for ii in &im.items {
                                if let syn::ImplItem::Fn(f) = ii {
                                    if !is_test(&f.attrs) {
                                        put(&f.sig, format!("{}::{}", m, impl_name(im).unwrap_or("?".into())));
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        o
    };
    let (now, old) = (sigs(texts), sigs(reference));
    let gone: Vec<&String> = known.iter().filter(|k| !now.contains_key(*k) && old.contains_key(*k)).collect();
    let new: Vec<&String> = now.keys().filter(|k| !known.contains(*k)).collect();
    let mut out = vec![];
    for g in &gone {
        let c: Vec<_> = new.iter().filter(|n| now[**n] == old[*g]).collect();
        let d = gone.iter().filter(|x| old[**x] == old[*g]).count();
        if c.len() == 1 && d == 1 {
            out.push((g.to_string(), c[0].to_string()));
        }
    }
    out
}

/// `loop { if A == B { break; } .. }` as `while A != B { .. }`, and the same with `return E;`,
/// which then follows the loop
pub fn unloop(texts: &mut BTreeMap<String, String>) -> Vec<String> {
    struct Breaks(bool);
    impl<'a> Visit<'a> for Breaks {
        fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) {
            self.0 = true;
        }
        fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
        fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
        fn visit_expr_for_loop(&mut self, _: &'a syn::ExprForLoop) {}
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    struct Find<'s> {
        src: &'s str,
        sites: Vec<((usize, usize), String)>,
    }
    impl<'a> Visit<'a> for Find<'_> {
        fn visit_stmt(&mut self, s: &'a syn::Stmt) {
            if let syn::Stmt::Expr(syn::Expr::Loop(l), _) = s {
                self.site(l);
            }
            visit::visit_stmt(self, s);
        }
    }
    impl Find<'_> {
        fn site(&mut self, l: &syn::ExprLoop) -> Option<()> {
            let (i, semi) = match l.body.stmts.first()? {
                syn::Stmt::Expr(syn::Expr::If(i), s) if i.else_branch.is_none() && l.label.is_none() => (i, s),
                _ => return None,
            };
            let op = match &*i.cond {
                syn::Expr::Binary(b) => match b.op {
                    syn::BinOp::Eq(_) => "!=",
                    syn::BinOp::Ge(_) => "<",
                    syn::BinOp::Le(_) => ">",
                    _ => return None,
                },
                _ => return None,
            };
            let (a, b) = match &*i.cond {
                syn::Expr::Binary(b) => (rng(&*b.left), rng(&*b.right)),
                _ => return None,
            };
            if i.then_branch.stmts.len() != 1 {
                return None;
            }
            let ret = match &i.then_branch.stmts[0] {
                syn::Stmt::Expr(syn::Expr::Break(b), _) if b.expr.is_none() && b.label.is_none() => None,
                syn::Stmt::Expr(syn::Expr::Return(r), _) => Some(rng(r)),
                _ => return None,
            };
            let mut br = Breaks(false);
            for s in &l.body.stmts[1..] {
                br.visit_stmt(s);
            }
            if ret.is_some() && br.0 {
                return None;
            }
            let from = rng(l);
            let to = semi.as_ref().map(|s| rng(s).1).unwrap_or(rng(i).1);
            self.sites.push(((from.0, to), format!("while {} {} {} {{", &self.src[a.0..a.1], op, &self.src[b.0..b.1])));
            if let Some(r) = ret {
                self.sites.push(((from.1, from.1), format!(" {};", &self.src[r.0..r.1])));
            }
            Some(())
        }
    }
    let mut notes = vec![];
    let mods: Vec<String> = texts.keys().cloned().collect();
    for m in mods {
        let src = texts[&m].clone();
        let a = match syn::parse_file(&src) {
            Ok(a) => a,
            Err(_) => continue,
        };
        let mut f = Find { src: &src, sites: vec![] };
        for it in &a.items {
            match it {
                syn::Item::Fn(x) if !is_test(&x.attrs) => f.visit_item_fn(x),
                syn::Item::Impl(x) => f.visit_item_impl(x),
                _ => {}
            }
        }
        let mut sites = f.sites;
        if sites.is_empty() {
            continue;
        }
        sites.sort_by_key(|s| s.0);
        let mut t = src.clone();
        for (r, x) in sites.iter().rev() {
            let had = t[r.0..r.1].matches('\n').count();
            let has = x.matches('\n').count();
            t.replace_range(r.0..r.1, &format!("{}{}", x, "\n".repeat(had.saturating_sub(has))));
        }
        if syn::parse_file(&t).is_ok() {
            texts.insert(m.clone(), t);
            notes.push(format!("loops that begin with their exit written as while in {}", m));
        }
    }
    notes
}
