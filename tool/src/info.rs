//! Facts about a source tree that the driver and the witness search use: functions with their line
//! ranges, normalised text and error messages; the other items; the literals.
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::path::Path;
use syn::spanned::Spanned;

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = a.to_token_stream().to_string();
        t.contains("cfg") && t.contains("test") && !t.contains("not") || t == "# [test]"
    })
}

fn lits(ts: proc_macro2::TokenStream, ints: &mut BTreeSet<String>, strs: &mut BTreeSet<String>) {
    let mut neg = false;
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => {
                lits(g.stream(), ints, strs);
                neg = false;
            }
            proc_macro2::TokenTree::Literal(l) => {
                let s = l.to_string();
                match syn::parse_str::<syn::Lit>(&s) {
                    Ok(syn::Lit::Int(i)) => {
                        if let Ok(v) = i.base10_parse::<u128>() {
                            let v = v as i128;
                            ints.insert(v.to_string());
                            if neg {
                                ints.insert((-v).to_string());
                            }
                        }
                    }
                    Ok(syn::Lit::Str(s)) => {
                        strs.insert(s.value());
                    }
                    Ok(syn::Lit::ByteStr(s)) => {
                        strs.insert(String::from_utf8_lossy(&s.value()).to_string());
                    }
                    Ok(syn::Lit::Char(c)) => {
                        strs.insert(c.value().to_string());
                        ints.insert((c.value() as u32).to_string());
                    }
                    Ok(syn::Lit::Byte(c)) => {
                        ints.insert(c.value().to_string());
                        strs.insert((c.value() as char).to_string());
                    }
                    _ => {}
                }
                neg = false;
            }
            proc_macro2::TokenTree::Punct(p) => neg = p.as_char() == '-',
            _ => neg = false,
        }
    }
}

/// first string literal of every err!/fail! invocation
fn msgs(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
    let v: Vec<_> = ts.into_iter().collect();
    for i in 0..v.len() {
        if let proc_macro2::TokenTree::Group(g) = &v[i] {
            if i >= 2 {
                if let (proc_macro2::TokenTree::Ident(id), proc_macro2::TokenTree::Punct(p)) = (&v[i - 2], &v[i - 1]) {
                    if p.as_char() == '!' && (id == "err" || id == "fail") {
                        let mut s = g.stream().into_iter();
                        let mut f = s.next();
                        let mut inner;
                        if let Some(proc_macro2::TokenTree::Group(gg)) = &f {
                            inner = gg.stream().into_iter();
                            f = inner.next();
                        }
                        if let Some(proc_macro2::TokenTree::Literal(l)) = f {
                            if let Ok(syn::Lit::Str(s)) = syn::parse_str::<syn::Lit>(&l.to_string()) {
                                out.push(s.value());
                            }
                        }
                    }
                }
            }
            msgs(g.stream(), out);
        }
    }
}

fn strip(attrs: &mut Vec<syn::Attribute>) {
    attrs.retain(|a| {
        !(a.path().is_ident("doc")
            || a.path().is_ident("allow")
            || a.path().is_ident("inline")
            || a.path().is_ident("must_use"))
    });
}

pub fn info(src: &Path, owners: &dyn Fn(&str) -> Option<Vec<String>>) -> Result<Value, String> {
    let mut fns = vec![];
    let mut items = vec![];
    let mut ints = BTreeSet::new();
    let mut strs = BTreeSet::new();
    let mut paths = vec![];
    fn walk(d: &Path, out: &mut Vec<std::path::PathBuf>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    walk(&p, out);
                } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                    out.push(p);
                }
            }
        }
    }
    walk(src, &mut paths);
    paths.sort();
    for p in paths {
        let rel = p.strip_prefix(src).unwrap().to_string_lossy().to_string();
        if rel.contains("tests") {
            continue;
        }
        let text = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
        let ast = syn::parse_file(&text).map_err(|e| format!("{}: {}", rel, e))?;
        let module = rel.trim_end_matches(".rs").trim_end_matches("/mod").to_string();
        let mut add_fn = |key: String, sp: proc_macro2::Span, toks: proc_macro2::TokenStream| {
            let mut m = vec![];
            msgs(toks.clone(), &mut m);
            let o = owners(&key);
            fns.push(json!({
                "key": key, "file": rel, "line": sp.start().line, "end": sp.end().line,
                "contracted": o.is_some(), "owners": o.unwrap_or_default(),
                "msgs": m, "text": toks.to_string(),
            }));
        };
        for it in &ast.items {
            match it {
                syn::Item::Fn(f) => {
                    if is_test(&f.attrs) {
                        continue;
                    }
                    let mut g = f.clone();
                    strip(&mut g.attrs);
                    lits(g.to_token_stream(), &mut ints, &mut strs);
                    add_fn(format!("{}::{}", module, f.sig.ident), f.span(), g.to_token_stream());
                }
                syn::Item::Impl(im) => {
                    if is_test(&im.attrs) {
                        continue;
                    }
                    let ty = match &*im.self_ty {
                        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
                        _ => "?".into(),
                    };
                    let tr = im.trait_.as_ref().map(|t| t.1.segments.last().map(|s| s.ident.to_string()).unwrap_or_default());
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            let mut g = f.clone();
                            strip(&mut g.attrs);
                            lits(g.to_token_stream(), &mut ints, &mut strs);
                            let _ = &tr;
                            add_fn(format!("{}::{}::{}", module, ty, f.sig.ident), f.span(), g.to_token_stream());
                        }
                    }
                    let mut g = im.clone();
                    g.items.clear();
                    strip(&mut g.attrs);
                    items.push(json!({"file": rel, "text": g.to_token_stream().to_string()}));
                }
                syn::Item::Mod(m) if is_test(&m.attrs) => {}
                syn::Item::Use(_) | syn::Item::ExternCrate(_) => {}
                other => {
                    lits(other.to_token_stream(), &mut ints, &mut strs);
                    let mut o = other.clone();
                    match &mut o {
                        syn::Item::Struct(x) => {
                            strip(&mut x.attrs);
                            x.fields.iter_mut().for_each(|f| strip(&mut f.attrs));
                        }
                        syn::Item::Enum(x) => {
                            strip(&mut x.attrs);
                            x.variants.iter_mut().for_each(|f| strip(&mut f.attrs));
                        }
                        syn::Item::Const(x) => strip(&mut x.attrs),
                        syn::Item::Type(x) => strip(&mut x.attrs),
                        syn::Item::Trait(x) => strip(&mut x.attrs),
                        syn::Item::Macro(x) => strip(&mut x.attrs),
                        _ => {}
                    }
                    items.push(json!({"file": rel, "text": o.to_token_stream().to_string()}));
                }
            }
        }
    }
    Ok(json!({"fns": fns, "items": items, "ints": ints, "strs": strs}))
}
