//! Translation of Rust items into Verus input text.
//!
//! Types: every string type becomes `Str`, slices and `Rc<[T]>` become `Vec<T>`, `Rc<T>` becomes `T`,
//! `HashSet`/`HashMap` become the prelude's `HSet`/`HMap`.  Iterator chains become explicit loops over
//! prelude iterators in evaluation order.  See DESIGN.md for the full list of what is dropped.
use crate::units::{FnContract, Item};
use quote::ToTokens;
use std::collections::{HashMap, HashSet};
use syn::*;

pub struct FnOut {
    pub text: String,
    pub loops: usize,
    pub src_lines: usize,
}

type R<T> = std::result::Result<T, String>;

fn toks(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string()
}

// ---------------------------------------------------------------------------------------------- types
fn ty_with(t: &Type, subst: &[(String, String)]) -> R<String> {
    Ok(match t {
        Type::Path(p) => {
            let full = toks(p).replace(' ', "");
            for (a, b) in subst {
                if *a == full {
                    return Ok(b.clone());
                }
            }
            let seg = p.path.segments.last().unwrap();
            let id = seg.ident.to_string();
            let mut args: Vec<String> = vec![];
            if let PathArguments::AngleBracketed(a) = &seg.arguments {
                for g in &a.args {
                    match g {
                        GenericArgument::Type(t) => args.push(ty_with(t, subst)?),
                        GenericArgument::Lifetime(l) => args.push(toks(l)),
                        _ => return Err(format!("UNSUPPORTED generic argument {}", toks(g))),
                    }
                }
            }
            match id.as_str() {
                "str" | "String" => "Str".to_string(),
                "Rc" => args.pop().unwrap(),
                "Cow" => args.pop().unwrap(),
                "HashSet" => format!("HSet<{}>", args.join(", ")),
                "HashMap" => format!("HMap<{}>", args.join(", ")),
                "DMatrix" => "Mat".to_string(),
                "RangeFrom" => "RangeFrom_".to_string(),
                "f32" => "Fl_".to_string(),
                // errors of other crates keep their crate's name apart
                "Error" if p.path.segments.len() > 1 => {
                    let base = format!("{}_Error", p.path.segments[0].ident);
                    if args.is_empty() { base } else { format!("{base}<{}>", args.join(", ")) }
                }
                "PhantomData" => format!("PhantomData<{}>", args.join(", ")),
                _ => {
                    let base = if p.path.segments.len() > 1 && p.path.segments[0].ident == "Self" {
                        full.split('<').next().unwrap().to_string()
                    } else {
                        id
                    };
                    if args.is_empty() {
                        base
                    } else {
                        format!("{base}<{}>", args.join(", "))
                    }
                }
            }
        }
        Type::Reference(r) => {
            let lt = r.lifetime.as_ref().map(|l| format!("{l} ")).unwrap_or_default();
            let m = if r.mutability.is_some() { "mut " } else { "" };
            format!("&{lt}{m}{}", ty_with(&r.elem, subst)?)
        }
        Type::Slice(s) => format!("Vec<{}>", ty_with(&s.elem, subst)?),
        Type::Array(s) if toks(&s.elem) == "u8" => format!("[u8; {}]", toks(&s.len)),
        Type::Array(s) => format!("Vec<{}>", ty_with(&s.elem, subst)?),
        Type::Tuple(t) => {
            let v = t.elems.iter().map(|e| ty_with(e, subst)).collect::<R<Vec<_>>>()?;
            if v.len() == 1 {
                format!("({},)", v[0])
            } else {
                format!("({})", v.join(", "))
            }
        }
        Type::Infer(_) => "_".into(),
        Type::Paren(p) => ty_with(&p.elem, subst)?,
        Type::ImplTrait(i) => {
            let s = i
                .bounds
                .iter()
                .map(|b| match b {
                    TypeParamBound::Trait(t) => {
                        let seg = t.path.segments.last().unwrap();
                        let id = seg.ident.to_string();
                        // closures are assumed pure: FnMut is read as Fn
                        let id2 = if id == "FnMut" { "Fn".to_string() } else { id };
                        match &seg.arguments {
                            PathArguments::Parenthesized(p) => {
                                let a = p.inputs.iter().map(|t| ty_with(t, subst)).collect::<R<Vec<_>>>()?;
                                let r = match &p.output {
                                    ReturnType::Default => String::new(),
                                    ReturnType::Type(_, t) => format!(" -> {}", ty_with(t, subst)?),
                                };
                                Ok(format!("{id2}({}){r}", a.join(", ")))
                            }
                            _ => Ok(id2),
                        }
                    }
                    TypeParamBound::Lifetime(l) => Ok(toks(l)),
                    _ => Err(format!("UNSUPPORTED bound {}", toks(b))),
                })
                .collect::<R<Vec<_>>>()?;
            format!("impl {}", s.join(" + "))
        }
        _ => return Err(format!("UNSUPPORTED type {}", toks(t))),
    })
}

fn has_derive(attrs: &[Attribute], what: &str) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("derive") && toks(a).split(|c: char| !c.is_alphanumeric()).any(|w| w == what)
    })
}

fn generics_text(g: &Generics) -> (String, String) {
    // (declaration, use) ; bounds on lifetimes dropped
    let mut d = vec![];
    let mut u = vec![];
    for p in &g.params {
        match p {
            GenericParam::Lifetime(l) => {
                d.push(toks(&l.lifetime));
                u.push(toks(&l.lifetime));
            }
            GenericParam::Type(t) => {
                let b = toks(&t.bounds);
                d.push(if b.is_empty() { t.ident.to_string() } else { format!("{}: {b}", t.ident) });
                u.push(t.ident.to_string());
            }
            GenericParam::Const(c) => {
                d.push(toks(c));
                u.push(c.ident.to_string());
            }
        }
    }
    if d.is_empty() {
        (String::new(), String::new())
    } else {
        (format!("<{}>", d.join(", ")), format!("<{}>", u.join(", ")))
    }
}

fn fraction(x: &LitFloat) -> R<(u64, u64)> {
    let d = x.base10_digits();
    let (a, b) = d.split_once('.').unwrap_or((d, ""));
    if !d.chars().all(|c| c.is_ascii_digit() || c == '.') || a.len() + b.len() > 15 {
        return Err(format!("UNSUPPORTED number {d}"));
    }
    let b = b.trim_end_matches('0');
    Ok((format!("{a}{b}").parse::<u64>().unwrap(), 10u64.pow(b.len() as u32)))
}

// a struct declared by an invocation  mac! { Name { field: Type = default, .. } }  of a macro of the same file whose
// expansion declares the struct, a constructor of its fields and a Default of these values
fn from_macro(f: &File, name: &str) -> R<Option<Vec<(String, Type, Expr)>>> {
    for i in &f.items {
        let syn::Item::Macro(m) = i else { continue };
        let ts: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
        let [proc_macro2::TokenTree::Ident(n), proc_macro2::TokenTree::Group(g)] = &ts[..] else { continue };
        if n != name {
            continue;
        }
        let mac = toks(&m.mac.path);
        let def = f.items.iter().find_map(|d| match d {
            syn::Item::Macro(d) if d.ident.as_ref().is_some_and(|i| *i == mac) => Some(d.mac.tokens.to_string().split_whitespace().collect::<String>()),
            _ => None,
        });
        let (a, b) = ("($name:ident{$($field:ident:$ty:ty=$def:expr,)*})=>{pubstruct$name{$($field:$ty,)*}impl$name{pubfnnew($($field:$ty,)*)->Self{Self{$($field,)*}}",
            "implDefaultfor$name{fndefault()->Self{Self::new($($def,)*)}}}");
        if !def.is_some_and(|d| d.starts_with(a) && d.ends_with(b)) {
            return Err(format!("UNSUPPORTED macro for {name}"));
        }
        let p = |s: syn::parse::ParseStream| {
            let mut v = vec![];
            while !s.is_empty() {
                let n: Ident = s.parse()?;
                s.parse::<Token![:]>()?;
                let t: Type = s.parse()?;
                s.parse::<Token![=]>()?;
                let d: Expr = s.parse()?;
                s.parse::<Token![,]>()?;
                v.push((n.to_string(), t, d));
            }
            Ok(v)
        };
        return Ok(Some(syn::parse::Parser::parse2(p, g.stream()).map_err(|e| format!("UNSUPPORTED fields of {name}: {e}"))?));
    }
    Ok(None)
}

pub fn emit_type(f: &File, name: &str, it: &Item) -> R<String> {
    let Item::Type { as_name, attrs, noclone, .. } = it else { unreachable!() };
    let out_name = as_name.clone().unwrap_or(name.to_string());
    let mut found = None;
    fn search<'a>(items: &'a [syn::Item], name: &str, found: &mut Option<&'a syn::Item>) {
        for i in items {
            match i {
                syn::Item::Struct(s) if s.ident == name => *found = Some(i),
                syn::Item::Enum(s) if s.ident == name => *found = Some(i),
                _ => {}
            }
        }
    }
    search(&f.items, name, &mut found);
    if name == "thread_local" {
        let mut s = String::from("pub struct Globals {\n");
        for t in thread_locals(f)? {
            s.push_str(&format!("    pub {}: {},\n", t.name, ty_with(&t.ty, &[])?));
        }
        return Ok(s + "}\n");
    }
    let fields = from_macro(f, name)?;
    if let (None, Some(fs)) = (found, &fields) {
        let mut s = format!("{attrs}pub struct {out_name} {{\n");
        let (mut what, mut vals) = (String::new(), String::new());
        for (n, t, d) in fs {
            s.push_str(&format!("    pub {n}: {},\n", ty_with(t, &[])?));
            match d {
                Expr::Lit(ExprLit { lit: Lit::Float(x), .. }) => {
                    let (a, b) = fraction(x)?;
                    what.push_str(&format!("        r.{n}@ == ({a} as real) / ({b} as real),\n"));
                    vals.push_str(&format!("{n}: fl_({a}, {b}), "));
                }
                Expr::Lit(ExprLit { lit: Lit::Bool(x), .. }) => {
                    what.push_str(&format!("        r.{n} == {},\n", x.value));
                    vals.push_str(&format!("{n}: {}, ", x.value));
                }
                d => vals.push_str(&format!("{n}: {}, ", toks(d))),
            }
        }
        return Ok(s + &format!("}}\nimpl {out_name} {{\npub fn default() -> (r: Self)\n    ensures\n{what}{{ {out_name} {{ {vals} }} }}\n}}\n"));
    }
    let Some(i) = found else { return Err(format!("LOST type {name}")) };
    let (gd, gu, clone, peq, copy);
    let mut s = String::new();
    let subst: Vec<(String, String)> = vec![];
    match i {
        syn::Item::Struct(st) => {
            (gd, gu) = generics_text(&st.generics);
            clone = has_derive(&st.attrs, "Clone");
            copy = has_derive(&st.attrs, "Copy");
            peq = has_derive(&st.attrs, "PartialEq");
            s.push_str(attrs);
            if copy {
                s.push_str("#[derive(Copy)]\n");
            }
            s.push_str(&format!("pub struct {out_name}{gd} {{\n"));
            match &st.fields {
                Fields::Named(n) => {
                    for fl in &n.named {
                        s.push_str(&format!("    pub {}: {},\n", fl.ident.as_ref().unwrap(), ty_with(&fl.ty, &subst)?));
                    }
                    s.push_str("}\n");
                }
                _ => return Err(format!("UNSUPPORTED struct {name}")),
            }
        }
        syn::Item::Enum(en) => {
            (gd, gu) = generics_text(&en.generics);
            clone = has_derive(&en.attrs, "Clone");
            copy = has_derive(&en.attrs, "Copy");
            peq = has_derive(&en.attrs, "PartialEq");
            s.push_str(attrs);
            if copy {
                s.push_str("#[derive(Copy)]\n");
            }
            s.push_str(&format!("pub enum {out_name}{gd} {{\n"));
            for v in &en.variants {
                match &v.fields {
                    Fields::Unit => s.push_str(&format!("    {},\n", v.ident)),
                    Fields::Unnamed(u) => {
                        let ts = u.unnamed.iter().map(|f| ty_with(&f.ty, &subst)).collect::<R<Vec<_>>>()?;
                        s.push_str(&format!("    {}({}),\n", v.ident, ts.join(", ")));
                    }
                    Fields::Named(n) => {
                        s.push_str(&format!("    {} {{", v.ident));
                        for fl in &n.named {
                            s.push_str(&format!("{}: {}, ", fl.ident.as_ref().unwrap(), ty_with(&fl.ty, &subst)?));
                        }
                        s.push_str("},\n");
                    }
                }
            }
            s.push_str("}\n");
        }
        _ => unreachable!(),
    }
    if clone && !noclone {
        s.push_str(&format!(
            "impl{gd} VClone for {out_name}{gu} {{\n    #[verifier::external_body]\n    fn vclone(&self) -> (r: Self) {{ unimplemented!() }}\n}}\n"
        ));
        if copy {
            s.push_str(&format!("impl{gd} Clone for {out_name}{gu} {{\n    #[verifier::external_body]\n    fn clone(&self) -> (r: Self) {{ unimplemented!() }}\n}}\n"));
        }
    }
    if peq {
        s.push_str(&format!(
            "impl{gd} PartialEq for {out_name}{gu} {{\n    #[verifier::external_body]\n    fn eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }}\n}}\nimpl{gd} PartialEqSpecImpl for {out_name}{gu} {{\n    open spec fn obeys_eq_spec() -> bool {{ true }}\n    open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }}\n}}\n"
        ));
    }
    Ok(s)
}

// ---------------------------------------------------------------------------------------- functions
struct Found<'a> {
    imp: Option<&'a ItemImpl>,
    sig: &'a Signature,
    block: &'a Block,
}

fn norm_tr(s: &str) -> String {
    // drop spaces, lifetimes and references
    let mut o = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '\'' {
            i += 1;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            continue;
        }
        if !b[i].is_whitespace() && b[i] != '&' {
            o.push(b[i]);
        }
        i += 1;
    }
    o.replace("<>", "").replace(",>", ">")
}

fn find_fn<'a>(f: &'a File, path: &str) -> R<Found<'a>> {
    let (owner, name) = match path.rfind("::") {
        Some(i) => (Some(&path[..i]), &path[i + 2..]),
        None => (None, path),
    };
    for i in &f.items {
        match (i, owner) {
            (syn::Item::Fn(x), None) if x.sig.ident == name => {
                return Ok(Found { imp: None, sig: &x.sig, block: &x.block })
            }
            (syn::Item::Impl(im), Some(o)) => {
                let self_name = match &*im.self_ty {
                    Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    _ => continue,
                };
                let ok = match (&im.trait_, o.split_once(" for ")) {
                    (Some((_, tr, _)), Some((wt, ws))) => {
                        let last = tr.segments.last().unwrap();
                        norm_tr(&toks(last)) == norm_tr(wt) && self_name == ws.trim()
                    }
                    (None, None) => self_name == o,
                    _ => false,
                };
                if !ok {
                    continue;
                }
                for it in &im.items {
                    if let ImplItem::Fn(m) = it {
                        if m.sig.ident == name {
                            return Ok(Found { imp: Some(im), sig: &m.sig, block: &m.block });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Err(format!("LOST function {path}"))
}

/// the statics of a `thread_local!` block: name, type inside the cell, initial value
struct Tls {
    name: String,
    ty: Type,
    init: Expr,
}
fn thread_locals(f: &File) -> R<Vec<Tls>> {
    let mut out = vec![];
    for i in &f.items {
        let syn::Item::Macro(m) = i else { continue };
        if !m.mac.path.segments.last().is_some_and(|s| s.ident == "thread_local") {
            continue;
        }
        let b: File = syn::parse2(m.mac.tokens.clone()).map_err(|e| format!("UNSUPPORTED thread_local!: {e}"))?;
        for it in b.items {
            let syn::Item::Static(st) = it else { return Err("UNSUPPORTED item in thread_local!".into()) };
            let ty = match &*st.ty {
                Type::Path(p) if matches!(p.path.segments.last().unwrap().ident.to_string().as_str(), "RefCell" | "Cell") => match &p.path.segments.last().unwrap().arguments {
                    PathArguments::AngleBracketed(a) => match a.args.first() {
                        Some(GenericArgument::Type(t)) => t.clone(),
                        _ => return Err("UNSUPPORTED cell".into()),
                    },
                    _ => return Err("UNSUPPORTED cell".into()),
                },
                _ => return Err(format!("UNSUPPORTED thread_local! {}", st.ident)),
            };
            out.push(Tls { name: st.ident.to_string(), ty, init: (*st.expr).clone() });
        }
    }
    Ok(out)
}
/// what runs with the thread's statics: they are gathered in a struct that each function of the file gets as its
/// first parameter
fn tls_env(f: &File) -> R<(HashSet<String>, HashSet<String>)> {
    let g: HashSet<String> = thread_locals(f)?.into_iter().map(|t| t.name).collect();
    let fns = if g.is_empty() { HashSet::new() } else { f.items.iter().filter_map(|i| if let syn::Item::Fn(x) = i { Some(x.sig.ident.to_string()) } else { None }).collect() };
    Ok((g, fns))
}

/// the closure `let NAME = |..| ..` among the statements of a function
fn find_closure<'a>(b: &'a Block, nm: &str) -> Option<&'a ExprClosure> {
    for s in &b.stmts {
        if let Stmt::Local(l) = s {
            let pat = match &l.pat {
                Pat::Type(t) => &*t.pat,
                p => p,
            };
            if let (Pat::Ident(i), Some(init)) = (pat, &l.init) {
                if i.ident == nm {
                    if let Expr::Closure(c) = &*init.expr {
                        return Some(c);
                    }
                }
            }
        }
    }
    None
}

/// those of the variables that a block binds to an iterator
fn iter_lets(b: &Block, vars: &[String]) -> HashSet<String> {
    let mut out = HashSet::new();
    for s in &b.stmts {
        if let Stmt::Local(l) = s {
            if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                if vars.contains(&i.ident.to_string()) && is_iter_expr(&init.expr, &out) {
                    out.insert(i.ident.to_string());
                }
            }
        }
    }
    out
}

/// a macro_rules! with one rule and only `$x:expr` parameters
fn macro_rule(m: &syn::ItemMacro) -> R<(Vec<String>, proc_macro2::TokenStream)> {
    use proc_macro2::TokenTree as T;
    let bad = || "UNSUPPORTED local macro".to_string();
    if !m.mac.path.is_ident("macro_rules") || m.ident.is_none() {
        return Err(bad());
    }
    let t: Vec<T> = m.mac.tokens.clone().into_iter().collect();
    let n = t.len();
    if n < 4 || n > 5 {
        return Err(bad());
    }
    let (T::Group(pat), T::Group(body)) = (&t[0], &t[3]) else { return Err(bad()) };
    let p: Vec<T> = pat.stream().into_iter().collect();
    let mut params = vec![];
    for c in p.split(|x| matches!(x, T::Punct(p) if p.as_char() == ',')) {
        match c {
            [] => {}
            [T::Punct(d), T::Ident(x), T::Punct(_), T::Ident(k)] if d.as_char() == '$' && k == "expr" => params.push(x.to_string()),
            _ => return Err(bad()),
        }
    }
    Ok((params, body.stream()))
}

fn macro_subst(t: proc_macro2::TokenStream, sub: &HashMap<String, proc_macro2::TokenStream>) -> proc_macro2::TokenStream {
    use proc_macro2::TokenTree as T;
    let mut out = proc_macro2::TokenStream::new();
    let v: Vec<T> = t.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match (&v[i], v.get(i + 1)) {
            (T::Punct(p), Some(T::Ident(x))) if p.as_char() == '$' && sub.contains_key(&x.to_string()) => {
                out.extend(sub[&x.to_string()].clone());
                i += 2;
                continue;
            }
            (T::Group(g), _) => {
                let mut h = proc_macro2::Group::new(g.delimiter(), macro_subst(g.stream(), sub));
                h.set_span(g.span());
                out.extend([T::Group(h)]);
            }
            (x, _) => out.extend([x.clone()]),
        }
        i += 1;
    }
    out
}

pub fn emit_fn(f: &File, c: &FnContract) -> R<FnOut> {
    if let Some((outer, nm)) = c.name.split_once('/') {
        return emit_closure_fn(f, c, outer, nm);
    }
    let init_block: Block;
    let init_sig: Signature;
    let fd = if c.name == "thread_local" {
        // the initial values of the thread's statics
        init_sig = syn::parse_quote!(fn initial_globals() -> Globals);
        let fs: Vec<_> = thread_locals(f)?
            .iter()
            .map(|t| {
                let n = quote::format_ident!("{}", t.name);
                let e = &t.init;
                let x: Expr = match e {
                    Expr::Call(k) if matches!(toks(&k.func).replace(' ', "").as_str(), "RefCell::from" | "RefCell::new" | "Cell::new") && k.args.len() == 1 => k.args[0].clone(),
                    Expr::Call(k) if toks(&k.func).replace(' ', "") == "RefCell::default" => syn::parse_quote!(dflt_()),
                    e => e.clone(),
                };
                quote::quote!(#n: #x)
            })
            .collect();
        init_block = syn::parse_quote!({ Globals { #(#fs),* } });
        Found { imp: None, sig: &init_sig, block: &init_block }
    } else {
        find_fn(f, &c.name)?
    };
    let (tls, tls_fns) = if c.name == "thread_local" || fd.imp.is_some() { Default::default() } else { tls_env(f)? };
    let src_lines = toks(fd.block).matches(';').count() + 1;
    let mut em = Em {
        c,
        loops: 0,
        tmp: 0,
        closures: 0,
        lets: HashMap::new(),
        calls: HashMap::new(),
        iter_vars: HashSet::new(),
        self_mut: false,
        self_ref: false,
        ret_ty: None,
        used: HashSet::new(),
        hoisted: HashMap::new(),
        captured: HashMap::new(),
        macros: HashMap::new(),
        subst: c.subst.clone(),
        part_ranges: toks(fd.block).contains("replace_range"),
        tls,
        tls_fns,
    };
    if let Some(im) = fd.imp {
        for it in &im.items {
            if let ImplItem::Type(t) = it {
                let v = ty_with(&t.ty, &em.subst)?;
                em.subst.push((format!("Self::{}", t.ident), v));
            }
        }
    }
    let mut s = String::new();
    let fname = c.as_name.clone().unwrap_or(fd.sig.ident.to_string());
    let mut indent_close = String::new();
    if let Some(im) = fd.imp {
        let (gd, _) = generics_text(&im.generics);
        s.push_str(&format!("impl{gd} {} {{\n", em.ty(&im.self_ty)?));
        indent_close.push_str("}\n");
    }
    s.push_str("#[verifier::loop_isolation(false)]\n#[verifier::exec_allows_no_decreases_clause]\n");
    s.push_str(&c.attrs);
    let gd = match &c.generics {
        Some(g) => g.clone(),
        None => generics_text(&fd.sig.generics).0,
    };
    let mut params = vec![];
    if !em.tls.is_empty() {
        params.push("g_: &mut Globals".to_string());
    }
    let mut pre = String::new();
    for a in &fd.sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                if r.reference.is_some() {
                    em.self_ref = true;
                    let lt = r.reference.as_ref().unwrap().1.as_ref().map(|l| format!("{l} ")).unwrap_or_default();
                    params.push(format!("&{lt}{}self", if r.mutability.is_some() { "mut " } else { "" }));
                } else {
                    params.push("self".into());
                    if r.mutability.is_some() {
                        em.self_mut = true;
                        pre.push_str("let mut self_ = self;\n");
                    }
                }
            }
            FnArg::Typed(t) => {
                let pname = match &*t.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    p => format!("arg{}_{}", params.len(), { let _ = p; "" }),
                };
                let mut ts = em.ty(&t.ty)?;
                if let Some(n) = c.params.get(&pname) {
                    ts = n.clone();
                }
                if let Some(h) = c.hoist.iter().find(|h| h.split_whitespace().next() == Some(&pname)) {
                    // a closure passed by reference: the struct that stands for it
                    if !toks(&t.ty).contains("FnMut") || !matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()) {
                        return Err(format!("UNSUPPORTED hoisted parameter {pname} is no closure"));
                    }
                    let st = h.split_whitespace().nth(1).unwrap().to_string();
                    ts = format!("&mut {st}");
                    em.hoisted.insert(pname.clone(), st);
                }
                let m = match &*t.pat {
                    Pat::Ident(i) if i.mutability.is_some() && !ts.starts_with("impl Fn") => "mut ",
                    _ => "",
                };
                params.push(format!("{m}{pname}: {ts}"));
                if !matches!(&*t.pat, Pat::Ident(_)) {
                    let (p, b) = em.pat(&t.pat)?;
                    pre.push_str(&format!("let {p} = {pname};\n{b}"));
                }
            }
        }
    }
    let ret = match &fd.sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => {
            let t = em.ty(t)?;
            em.ret_ty = Some(t.clone());
            format!(" -> ({}: {t})", c.ret)
        }
    };
    s.push_str(&format!("pub fn {fname}{gd}({}){ret}\n{}/*@cut*/{{ ", params.join(", "), c.sig));
    for h in &c.hides {
        s.push_str(&format!("hide({h}); "));
    }
    s.push_str("/*@body*/\n");
    s.push_str(&pre);
    s.push_str(&c.start);
    let body = em.block_inner(fd.block, em.ret_ty.clone().as_deref(), true)?;
    s.push_str(&body);
    s.push_str("}\n");
    s.push_str(&indent_close);
    em.lost_anchors()?;
    Ok(FnOut { text: s, loops: em.loops, src_lines })
}

/// a closure with captured mutable state as a method of the struct that holds what it captures
/// (`@fn FILE OUTER/NAME` with `@hoist NAME STRUCT captured,captured`)
fn emit_closure_fn(f: &File, c: &FnContract, outer: &str, nm: &str) -> R<FnOut> {
    let fd = find_fn(f, outer)?;
    let cl = find_closure(fd.block, nm).ok_or(format!("LOST closure {nm} in {outer}"))?;
    let Some(h) = c.hoist.first() else { return Err(format!("UNSUPPORTED closure {nm} without hoist")) };
    let w: Vec<&str> = h.split_whitespace().collect();
    let mut em = Em {
        c,
        loops: 0,
        tmp: 0,
        closures: 0,
        lets: HashMap::new(),
        calls: HashMap::new(),
        iter_vars: iter_lets(fd.block, &w[2].split(',').map(|x| x.to_string()).collect::<Vec<_>>()),
        self_mut: false,
        self_ref: false,
        ret_ty: None,
        used: HashSet::new(),
        hoisted: HashMap::new(),
        captured: w[2].split(',').map(|x| (x.to_string(), "self".to_string())).collect(),
        macros: HashMap::new(),
        subst: c.subst.clone(),
        part_ranges: false,
        tls: HashSet::new(),
        tls_fns: HashSet::new(),
    };
    let mut params = vec!["&mut self".to_string()];
    for p in &cl.inputs {
        // types the compiler infers are given by @param; a wrong one does not compile
        match p {
            Pat::Type(t) => {
                let Pat::Ident(i) = &*t.pat else { return Err(format!("UNSUPPORTED parameter pattern of closure {nm}")) };
                params.push(format!("{}: {}", i.ident, em.ty(&t.ty)?));
            }
            Pat::Ident(i) => {
                let Some(t) = c.params.get(&format!("${}", params.len())) else { return Err(format!("UNSUPPORTED untyped parameter of closure {nm}")) };
                params.push(format!("{}: {t}", i.ident));
            }
            _ => return Err(format!("UNSUPPORTED parameter pattern of closure {nm}")),
        }
    }
    let t = match &cl.output {
        ReturnType::Type(_, t) => em.ty(t)?,
        _ => match c.params.get("return") {
            Some(t) => t.clone(),
            None => return Err(format!("UNSUPPORTED untyped result of closure {nm}")),
        },
    };
    em.ret_ty = Some(t.clone());
    let generics = if w[1].contains("<'a>") { "<'a>" } else { "" };
    let mut s = format!("impl{generics} {} {{\n#[verifier::loop_isolation(false)]\n#[verifier::exec_allows_no_decreases_clause]\n{}pub fn call_({}) -> ({}: {t})\n{}/*@cut*/{{ ", w[1], c.attrs, params.join(", "), c.ret, c.sig);
    for h in &c.hides {
        s.push_str(&format!("hide({h}); "));
    }
    s.push_str("/*@body*/\n");
    s.push_str(&c.start);
    let body = match &*cl.body {
        Expr::Block(b) => em.block_inner(&b.block, em.ret_ty.clone().as_deref(), true)?,
        e => {
            let x = em.expr(e, None)?;
            format!("let r_ = {x};\n{}r_\n", c.end)
        }
    };
    s.push_str(&body);
    s.push_str("}\n}\n");
    em.lost_anchors()?;
    Ok(FnOut { text: s, loops: em.loops, src_lines: 1 })
}

impl<'c> Em<'c> {
  fn lost_anchors(&self) -> R<()> {
    let (c, em) = (self.c, self);
    let mut lost = vec![];
    for k in c.loops.keys() {
        if !em.used.contains(&format!("loop {} {}", k.0, k.1)) {
            lost.push(format!("loop {} {}", k.0, k.1));
        }
    }
    for k in c.lets.keys() {
        if !em.used.contains(&format!("let {}#{}", k.0, k.1)) {
            lost.push(format!("let {}#{}", k.0, k.1));
        }
    }
    for k in c.calls.keys() {
        if !em.used.contains(&format!("call {}#{}", k.0, k.1)) {
            lost.push(format!("call {}#{}", k.0, k.1));
        }
    }
    for k in c.closures.keys() {
        if !em.used.contains(&format!("closure {k}")) {
            lost.push(format!("closure {k}"));
        }
    }
    if !lost.is_empty() {
        lost.sort();
        return Err(format!("LOST anchors in {}: {}", c.name, lost.join("; ")));
    }
    Ok(())
  }
}

struct Em<'c> {
    c: &'c FnContract,
    loops: usize,
    tmp: usize,
    closures: usize,
    lets: HashMap<String, usize>,
    calls: HashMap<String, usize>,
    iter_vars: HashSet<String>,
    self_mut: bool,
    self_ref: bool,
    ret_ty: Option<String>,
    used: HashSet<String>,
    /// closures with captured mutable state turned into prelude-style structs: name -> struct name
    hoisted: HashMap<String, String>,
    /// variable moved into a hoisted closure: var -> closure variable
    captured: HashMap<String, String>,
    macros: HashMap<String, (Vec<String>, proc_macro2::TokenStream)>,
    /// statics of the thread and the functions that use them
    /// ranges outside loops stand for parts of a text
    part_ranges: bool,
    tls: HashSet<String>,
    tls_fns: HashSet<String>,
    /// type substitutions: those of the contract and the associated types of the impl
    subst: Vec<(String, String)>,
}

const ADAPTERS: &[&str] = &[
    "map", "filter", "filter_map", "flat_map", "flatten", "enumerate", "copied", "cloned", "zip", "rev", "chain",
    "map_while", "take", "skip",
];
const TERMINALS: &[&str] = &[
    "collect", "for_each", "any", "all", "find", "find_map", "position", "count", "fold", "partition", "try_for_each",
    "max", "min",
];
const SOURCES: &[&str] = &["iter", "into_iter", "iter_mut", "drain", "windows", "into_keys", "keys", "values", "into_values", "graphemes", "chars"];

enum Source {
    /// text of an expression building a prelude iterator
    Iter(String),
    /// iter_mut over a place
    Mut(String),
    /// infinite repetition of a value (only under zip)
    Repeat(String),
    /// `a..`: never ends by itself
    From(String),
}

enum Ad<'a> {
    Map(&'a Expr),
    Filter(&'a Expr),
    FilterMap(&'a Expr),
    FlatMap(&'a Expr),
    Flatten,
    Enumerate,
    Copied,
    Cloned,
    Zip(&'a Expr),
    MapWhile(&'a Expr),
    Take(&'a Expr),
}

impl<'a> Clone for Ad<'a> {
    fn clone(&self) -> Self {
        match self {
            Ad::Map(e) => Ad::Map(e),
            Ad::Filter(e) => Ad::Filter(e),
            Ad::FilterMap(e) => Ad::FilterMap(e),
            Ad::FlatMap(e) => Ad::FlatMap(e),
            Ad::Flatten => Ad::Flatten,
            Ad::Enumerate => Ad::Enumerate,
            Ad::Copied => Ad::Copied,
            Ad::Cloned => Ad::Cloned,
            Ad::Zip(e) => Ad::Zip(e),
            Ad::MapWhile(e) => Ad::MapWhile(e),
            Ad::Take(e) => Ad::Take(e),
        }
    }
}

enum Chain<'a> {
    Leaf(&'a Expr, bool, Vec<Ad<'a>>), // expression, reversed, adapters
    Cat(Box<Chain<'a>>, Box<Chain<'a>>, Vec<Ad<'a>>),
}

/// what happens with each item
#[derive(Clone)]
enum Term<'a> {
    Add(String),                       // add to collection variable
    Extend(String),                    // extend place
    ForEach(&'a Expr),                 // closure
    ForBody(&'a Pat, &'a Block),       // for loop body
    Any(&'a Expr, String),
    All(&'a Expr, String),
    Find(&'a Expr, String),
    FindMap(&'a Expr, String),
    Position(&'a Expr, String),
    Count(String),
    Fold(&'a Expr, String),
    Partition(&'a Expr, String, String),
    TryForEach(&'a Expr, String),
    Retain(&'a Expr, String),
    Best(String, bool),                // largest (or smallest) number
}

impl<'a> Term<'a> {
    /// extra loop condition
    fn cond(&self) -> Option<String> {
        match self {
            Term::Any(_, r) => Some(format!("!{r}")),
            Term::All(_, r) => Some(r.to_string()),
            Term::Find(_, r) | Term::FindMap(_, r) | Term::Position(_, r) => Some(format!("{r}.is_none()")),
            Term::TryForEach(_, r) => Some(format!("{r}.t_cont()")),
            _ => None,
        }
    }
}

/// `TEXT.as_bytes_mut()[I]`
fn byte_place(e: &Expr) -> Option<(&Expr, &Expr)> {
    let Expr::Index(i) = e else { return None };
    match &*i.expr {
        Expr::MethodCall(m) if m.method == "as_bytes_mut" && m.args.is_empty() => Some((&*m.receiver, &*i.index)),
        _ => None,
    }
}

fn is_set_op(e: &Expr) -> bool {
    matches!(e, Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "intersection" | "difference"))
}

fn is_iter_expr(e: &Expr, vars: &HashSet<String>) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if SOURCES.contains(&n.as_str()) {
                return true;
            }
            // elements of one set (not) in another, by reference
            if matches!(n.as_str(), "copied" | "cloned") && is_set_op(&m.receiver) {
                return true;
            }
            ADAPTERS.contains(&n.as_str()) && is_iter_expr(&m.receiver, vars)
        }
        Expr::Paren(p) => is_iter_expr(&p.expr, vars),
        Expr::Range(_) => true,
        Expr::Call(c) => {
            let t = toks(&c.func).replace(' ', "");
            t == "iter::once" || t == "iter::repeat"
        }
        Expr::Path(p) => p.path.get_ident().map_or(false, |i| vars.contains(&i.to_string())),
        _ => false,
    }
}

fn idents_of(ts: &str) -> HashSet<String> {
    ts.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
}

fn pat_idents(p: &Pat, out: &mut HashSet<String>) {
    match p {
        Pat::Ident(i) => {
            out.insert(i.ident.to_string());
        }
        Pat::Tuple(t) => t.elems.iter().for_each(|e| pat_idents(e, out)),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|e| pat_idents(e, out)),
        Pat::Reference(r) => pat_idents(&r.pat, out),
        Pat::Paren(r) => pat_idents(&r.pat, out),
        Pat::Type(t) => pat_idents(&t.pat, out),
        Pat::Struct(s) => s.fields.iter().for_each(|f| pat_idents(&f.pat, out)),
        _ => {}
    }
}

fn closure_free(e: &Expr) -> HashSet<String> {
    match e {
        Expr::Closure(c) => {
            let mut f = idents_of(&toks(&c.body));
            let mut b = HashSet::new();
            c.inputs.iter().for_each(|p| pat_idents(p, &mut b));
            f.retain(|x| !b.contains(x));
            f
        }
        e => idents_of(&toks(e)),
    }
}

/// renames a variable bound by a closure
fn rename_var(p: &mut Pat, b: &mut Expr, from: &str, to: &str) -> R<()> {
    use visit_mut::VisitMut;
    struct V<'a>(&'a str, &'a str, bool);
    impl<'a> VisitMut for V<'a> {
        fn visit_pat_ident_mut(&mut self, i: &mut PatIdent) {
            if i.ident == self.0 {
                i.ident = Ident::new(self.1, i.ident.span());
            }
        }
        fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
            if e.path.is_ident(self.0) {
                e.path = Ident::new(self.1, e.path.segments[0].ident.span()).into();
            }
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) {
            if idents_of(&m.tokens.to_string()).contains(self.0) {
                self.2 = true;
            }
        }
        fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
            if f.colon_token.is_none() {
                self.2 = true;
            }
            visit_mut::visit_field_value_mut(self, f)
        }
        fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
            if f.colon_token.is_none() {
                self.2 = true;
            }
            visit_mut::visit_field_pat_mut(self, f)
        }
    }
    let mut v = V(from, to, false);
    v.visit_pat_mut(p);
    v.visit_expr_mut(b);
    if v.2 {
        return Err(format!("UNSUPPORTED name capture of {from}"));
    }
    Ok(())
}

fn has_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'ast> visit::Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'ast ExprTry) {
            self.0 = true
        }
    }
    let mut v = V(false);
    visit::Visit::visit_expr(&mut v, e);
    v.0
}

impl<'c> Em<'c> {
    fn ty(&self, t: &Type) -> R<String> {
        ty_with(t, &self.subst)
    }

    fn fresh(&mut self, p: &str) -> String {
        self.tmp += 1;
        format!("{p}_{}", self.tmp)
    }

    fn slot(&mut self, n: usize, which: &str) -> String {
        self.used.insert(format!("loop {n} {which}"));
        self.c.loops.get(&(n, which.to_string())).cloned().unwrap_or_default()
    }

    // ------------------------------------------------------------------------------------ patterns
    /// returns the pattern and the statements that dereference by-reference sub-patterns
    fn pat(&mut self, p: &Pat) -> R<(String, String)> {
        Ok(match p {
            Pat::Ident(i) => {
                if i.subpat.is_some() || i.by_ref.is_some() {
                    return Err(format!("UNSUPPORTED pattern {}", toks(p)));
                }
                if self.captured.contains_key(&i.ident.to_string()) {
                    return Err(format!("UNSUPPORTED shadowing of {}", i.ident));
                }
                let m = if i.mutability.is_some() { "mut " } else { "" };
                (format!("{m}{}", i.ident), String::new())
            }
            Pat::Wild(_) => ("_".into(), String::new()),
            Pat::Rest(_) => ("..".into(), String::new()),
            Pat::Tuple(t) => {
                let mut ps = vec![];
                let mut bs = String::new();
                for e in &t.elems {
                    let (a, b) = self.pat(e)?;
                    ps.push(a);
                    bs.push_str(&b);
                }
                (format!("({})", ps.join(", ")), bs)
            }
            Pat::TupleStruct(t) => {
                let mut ps = vec![];
                let mut bs = String::new();
                for e in &t.elems {
                    let (a, b) = self.pat(e)?;
                    ps.push(a);
                    bs.push_str(&b);
                }
                (format!("{}({})", self.path(&t.path), ps.join(", ")), bs)
            }
            Pat::Path(q) => (self.path(&q.path), String::new()),
            Pat::Reference(r) => match &*r.pat {
                Pat::Ident(i) => {
                    let v = self.fresh(&format!("{}_ref", i.ident));
                    let m = if i.mutability.is_some() { "mut " } else { "" };
                    (v.clone(), format!("let {m}{} = *{v};\n", i.ident))
                }
                Pat::Wild(_) => ("_".into(), String::new()),
                inner => {
                    let v = self.fresh("pat_ref");
                    let (a, b) = self.pat(inner)?;
                    (v.clone(), format!("let {a} = *{v};\n{b}"))
                }
            },
            Pat::Struct(s) => {
                let mut fs = vec![];
                let mut bs = String::new();
                for f in &s.fields {
                    let (a, b) = self.pat(&f.pat)?;
                    let n = toks(&f.member);
                    if a == n {
                        fs.push(n);
                    } else {
                        fs.push(format!("{n}: {a}"));
                    }
                    bs.push_str(&b);
                }
                if s.rest.is_some() {
                    fs.push("..".into());
                }
                (format!("{} {{ {} }}", self.path(&s.path), fs.join(", ")), bs)
            }
            Pat::Type(t) => {
                let (a, b) = self.pat(&t.pat)?;
                if !b.is_empty() {
                    return Err(format!("UNSUPPORTED pattern {}", toks(p)));
                }
                (format!("{a}: {}", self.ty(&t.ty)?), b)
            }
            Pat::Or(o) => {
                let mut ps = vec![];
                for c in &o.cases {
                    let (a, b) = self.pat(c)?;
                    if !b.is_empty() {
                        return Err(format!("UNSUPPORTED pattern {}", toks(p)));
                    }
                    ps.push(a);
                }
                (ps.join(" | "), String::new())
            }
            Pat::Lit(l) => (toks(l), String::new()),
            Pat::Paren(q) => self.pat(&q.pat)?,
            _ => return Err(format!("UNSUPPORTED pattern {}", toks(p))),
        })
    }

    fn path(&self, p: &Path) -> String {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let full = segs.join("::");
        for (a, b) in &self.subst {
            if *a == full {
                return b.clone();
            }
        }
        match segs[0].as_str() {
            "HashSet" => format!("HSet::{}", segs[1..].join("::")),
            "HashMap" => format!("HMap::{}", segs[1..].join("::")),
            "DMatrix" => format!("Mat::{}", segs[1..].join("::")),
            _ => full,
        }
    }

    // ---------------------------------------------------------------------------------- statements
    fn block_inner(&mut self, b: &Block, exp: Option<&str>, is_fn: bool) -> R<String> {
        let mut s = String::new();
        let n = b.stmts.len();
        let saved = self.iter_vars.clone();
        for (i, st) in b.stmts.iter().enumerate() {
            if i + 1 == n {
                if let Stmt::Expr(e, None) = st {
                    let wants_tail = is_fn && (!self.c.end.is_empty());
                    let t = self.expr(e, exp)?;
                    if wants_tail && self.ret_ty.is_some() {
                        s.push_str(&format!("let ret_ = {t};\n{}ret_\n", self.c.end));
                    } else if wants_tail {
                        s.push_str(&format!("{t};\n{}", self.c.end));
                    } else {
                        s.push_str(&t);
                        s.push('\n');
                    }
                    continue;
                }
            }
            s.push_str(&self.stmt(st)?);
            if i + 1 == n && is_fn && self.ret_ty.is_none() {
                s.push_str(&self.c.end.clone());
            }
        }
        self.iter_vars = saved;
        Ok(s)
    }

    fn block(&mut self, b: &Block, exp: Option<&str>) -> R<String> {
        Ok(format!("{{\n{}}}", self.block_inner(b, exp, false)?))
    }

    fn after_call(&mut self, st: &impl ToTokens) -> String {
        let t = toks(st);
        if t.contains('{') {
            return String::new();
        }
        let mut out = String::new();
        let names: Vec<String> = {
            let mut v = vec![];
            let parts: Vec<&str> = t.split_whitespace().collect();
            for w in parts.windows(2) {
                if w[1].starts_with('(') && w[0].chars().all(|c| c.is_alphanumeric() || c == '_') && w[0].chars().next().unwrap().is_alphabetic() {
                    v.push(w[0].to_string());
                }
            }
            let mut seen = HashSet::new();
            v.retain(|x| seen.insert(x.clone()));
            v
        };
        for nme in names {
            let k = self.calls.entry(nme.clone()).or_insert(0);
            *k += 1;
            let k = *k;
            if let Some(g) = self.c.calls.get(&(nme.clone(), k)) {
                self.used.insert(format!("call {nme}#{k}"));
                out.push_str(g);
            }
        }
        out
    }

    fn stmt(&mut self, st: &Stmt) -> R<String> {
        match st {
            Stmt::Local(l) => {
                let mut exp: Option<String> = None;
                let mut pt = &l.pat;
                if let Pat::Type(t) = &l.pat {
                    exp = Some(self.ty(&t.ty)?);
                    pt = &t.pat;
                }
                let Some(init) = &l.init else {
                    let (p, _) = self.pat(&l.pat)?;
                    return Ok(format!("let {p};\n"));
                };
                // hoisted closure with captured mutable state
                if let (Pat::Ident(pi), Expr::Closure(c)) = (pt, &*init.expr) {
                    let nm = pi.ident.to_string();
                    if self.c.hoist.iter().any(|h| h.split_whitespace().next() == Some(&nm)) {
                        return self.hoist_closure(&nm, c);
                    }
                }
                // parts of self given short names: the names stand for the fields
                if let (Pat::Struct(ps), Expr::Path(p)) = (pt, &*init.expr) {
                    if p.path.is_ident("self") && self.self_ref && init.diverge.is_none() {
                        for f in &ps.fields {
                            match &*f.pat {
                                Pat::Ident(i) if f.colon_token.is_none() && i.by_ref.is_none() && i.subpat.is_none() => {
                                    let v = self.ident("self");
                                    self.captured.insert(i.ident.to_string(), v);
                                }
                                _ => return Err(format!("UNSUPPORTED pattern {}", toks(pt))),
                            }
                        }
                        return Ok(String::new());
                    }
                }
                let mut ids = HashSet::new();
                pat_idents(pt, &mut ids);
                for i in &ids {
                    self.captured.remove(i);
                }
                let mut s = String::new();
                if let Some((_, els)) = &init.diverge {
                    let e = self.expr(&init.expr, exp.as_deref())?;
                    let (p, b) = self.pat(pt)?;
                    let els = self.expr(els, None)?;
                    let mut names: Vec<String> = ids.iter().cloned().collect();
                    names.sort();
                    let t = if names.len() == 1 { names[0].clone() } else { format!("({})", names.join(", ")) };
                    s.push_str(&format!("let {t} = match {e} {{\n{p} => {{ {b}{t} }}\n_ => {els}\n}};\n"));
                } else {
                    let is_it = is_iter_expr(&init.expr, &self.iter_vars);
                    let e = if is_it { self.iter_value(&init.expr)? } else { self.expr(&init.expr, exp.as_deref())? };
                    let (p, b) = self.pat(pt)?;
                    let t = exp.map(|t| format!(": {t}")).unwrap_or_default();
                    s.push_str(&format!("let {p}{t} = {e};\n{b}"));
                    if is_it {
                        if let Pat::Ident(i) = pt {
                            self.iter_vars.insert(i.ident.to_string());
                        }
                    } else {
                        ids.iter().for_each(|i| {
                            self.iter_vars.remove(i);
                        });
                    }
                }
                let mut idv: Vec<String> = ids.into_iter().collect();
                idv.sort();
                for i in idv {
                    let k = self.lets.entry(i.clone()).or_insert(0);
                    *k += 1;
                    let k = *k;
                    if let Some(g) = self.c.lets.get(&(i.clone(), k)) {
                        self.used.insert(format!("let {i}#{k}"));
                        s.push_str(g);
                    }
                }
                let ac = self.after_call(l);
                s.push_str(&ac);
                Ok(s)
            }
            Stmt::Expr(e, semi) => {
                if let Expr::ForLoop(f) = e {
                    // the empty statement separates the loop from a block that follows
                    return Ok(format!("{};\n", self.for_loop(f)?.trim_end()));
                }
                let t = self.expr(e, None)?;
                let mut s = t;
                if semi.is_some() || !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Loop(_) | Expr::Block(_)) {
                    s.push(';');
                }
                s.push('\n');
                if semi.is_some() {
                    let ac = self.after_call(e);
                    s.push_str(&ac);
                }
                Ok(s)
            }
            Stmt::Macro(m) => {
                let mut t = self.mac(&m.mac, None)?;
                if t == "vpanic()" {
                    t = "vpanic::<()>()".into();
                }
                Ok(format!("{t};\n"))
            }
            Stmt::Item(syn::Item::Use(u)) => {
                let t = toks(u).replace(" :: ", "::").replace(" ;", ";");
                if t.contains("std::") && !t.contains("Ordering") {
                    Ok(String::new())
                } else {
                    Ok(format!("{t}\n"))
                }
            }
            Stmt::Item(syn::Item::Macro(m)) => {
                let (params, body) = macro_rule(m)?;
                self.macros.insert(m.ident.as_ref().unwrap().to_string(), (params, body));
                Ok(String::new())
            }
            Stmt::Item(i) => Err(format!("UNSUPPORTED local item {}", toks(i))),
        }
    }

    /// closure assigned to a variable that captures mutable state: becomes a struct with the captured
    /// variables as fields; directive `@hoist NAME STRUCT captured,captured`
    fn hoist_closure(&mut self, nm: &str, _c: &ExprClosure) -> R<String> {
        let h = self.c.hoist.iter().find(|h| h.split_whitespace().next() == Some(nm)).unwrap().clone();
        let w: Vec<&str> = h.split_whitespace().collect();
        let st = w[1].to_string();
        let caps: Vec<String> = w[2]
            .split(',')
            .map(|x| {
                let v = self.ident(x);
                if v == x { v } else { format!("{x}: {v}") }
            })
            .collect();
        for c in w[2].split(',') {
            self.captured.insert(c.to_string(), nm.to_string());
        }
        self.hoisted.insert(nm.to_string(), st.clone());
        Ok(format!("let mut {nm} = {st} {{ {} }};\n", caps.join(", ")))
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> R<String> {
        if f.label.is_some() {
            return Err("UNSUPPORTED loop label".into());
        }
        let ch = self.decompose(&f.expr)?;
        self.run_chain(ch, vec![], Term::ForBody(&f.pat, &f.body))
    }

    // -------------------------------------------------------------------------------------- chains
    fn decompose<'a>(&self, e: &'a Expr) -> R<Chain<'a>> {
        match e {
            Expr::Paren(p) => self.decompose(&p.expr),
            Expr::MethodCall(m) if ADAPTERS.contains(&m.method.to_string().as_str()) && (is_iter_expr(&m.receiver, &self.iter_vars) || is_set_op(&m.receiver)) => {
                let name = m.method.to_string();
                let inner = self.decompose(&m.receiver)?;
                if name == "chain" {
                    let second = self.decompose(&m.args[0])?;
                    return Ok(Chain::Cat(Box::new(inner), Box::new(second), vec![]));
                }
                let ad = match name.as_str() {
                    "map" => Ad::Map(&m.args[0]),
                    "filter" => Ad::Filter(&m.args[0]),
                    "filter_map" => Ad::FilterMap(&m.args[0]),
                    "flat_map" => Ad::FlatMap(&m.args[0]),
                    "flatten" => Ad::Flatten,
                    "enumerate" => Ad::Enumerate,
                    "copied" => Ad::Copied,
                    "cloned" => Ad::Cloned,
                    "zip" => Ad::Zip(&m.args[0]),
                    "map_while" => Ad::MapWhile(&m.args[0]),
                    "take" => Ad::Take(&m.args[0]),
                    "rev" => match inner {
                        Chain::Leaf(e, false, ads) if ads.is_empty() => return Ok(Chain::Leaf(e, true, ads)),
                        _ => return Err("UNSUPPORTED rev after adapters".into()),
                    },
                    _ => return Err(format!("UNSUPPORTED adapter {name}")),
                };
                Ok(match inner {
                    Chain::Leaf(e, r, mut ads) => {
                        ads.push(ad);
                        Chain::Leaf(e, r, ads)
                    }
                    Chain::Cat(a, b, mut ads) => {
                        if matches!(ad, Ad::Enumerate | Ad::Zip(_)) {
                            return Err("UNSUPPORTED enumerate/zip after chain".into());
                        }
                        ads.push(ad);
                        Chain::Cat(a, b, ads)
                    }
                })
            }
            e => Ok(Chain::Leaf(e, false, vec![])),
        }
    }

    fn source(&mut self, e: &Expr, rev: bool) -> R<Source> {
        let r = if rev { ".rev_()" } else { "" };
        Ok(match e {
            Expr::Paren(p) => return self.source(&p.expr, rev),
            Expr::MethodCall(m) if SOURCES.contains(&m.method.to_string().as_str()) => {
                let n = m.method.to_string();
                let recv = self.expr(&m.receiver, None)?;
                match n.as_str() {
                    "iter" => Source::Iter(format!("{recv}.iter_(){r}")),
                    "into_iter" => Source::Iter(format!("IntoIt::into_it({recv}){r}")),
                    "iter_mut" if !rev => Source::Mut(recv),
                    "drain" => Source::Iter(format!("{recv}.drain_(){r}")),
                    "windows" => {
                        let a = self.expr(&m.args[0], None)?;
                        Source::Iter(format!("{recv}.windows_({a}){r}"))
                    }
                    "into_keys" => Source::Iter(format!("{recv}.into_keys_(){r}")),
                    "chars" => Source::Iter(format!("{recv}.chars_(){r}")),
                    "graphemes" => {
                        let a = self.expr(&m.args[0], None)?;
                        Source::Iter(format!("{recv}.graphemes_({a}){r}"))
                    }
                    _ => return Err(format!("UNSUPPORTED source {n}")),
                }
            }
            Expr::Range(rg) => {
                let a = match &rg.start {
                    Some(s) => self.expr(s, None)?,
                    None => return Err("UNSUPPORTED range".into()),
                };
                match (&rg.end, &rg.limits) {
                    (Some(b), RangeLimits::HalfOpen(_)) => {
                        let b = self.expr(b, None)?;
                        Source::Iter(format!("range_it({a}, {b}){r}"))
                    }
                    (Some(b), RangeLimits::Closed(_)) => {
                        let b = self.expr(b, None)?;
                        Source::Iter(format!("range_incl_it({a}, {b}){r}"))
                    }
                    (None, _) => Source::From(a),
                }
            }
            Expr::Call(c) if toks(&c.func).replace(' ', "") == "iter::once" => {
                let a = self.expr(&c.args[0], None)?;
                Source::Iter(format!("once_it({a})"))
            }
            Expr::Call(c) if toks(&c.func).replace(' ', "") == "iter::repeat" => {
                let a = self.expr(&c.args[0], None)?;
                Source::Repeat(a)
            }
            e => {
                let t = self.expr(e, None)?;
                Source::Iter(format!("IntoIt::into_it({t}){r}"))
            }
        })
    }

    /// an iterator expression used as a value (kept in a variable)
    fn iter_value(&mut self, e: &Expr) -> R<String> {
        match self.decompose(e)? {
            Chain::Leaf(e, rev, ads) if ads.is_empty() => match self.source(e, rev)? {
                Source::Iter(t) => Ok(t),
                Source::From(a) => Ok(format!("range_from_it({a})")),
                _ => Err("UNSUPPORTED iterator value".into()),
            },
            _ => Err(format!("UNSUPPORTED lazy iterator value {}", toks(e))),
        }
    }

    fn run_chain<'a>(&mut self, ch: Chain<'a>, rest: Vec<Ad<'a>>, term: Term<'a>) -> R<String> {
        match ch {
            Chain::Cat(a, b, ads) => {
                let mut all = ads;
                all.extend(rest);
                let s1 = self.run_chain(*a, all.clone(), term.clone())?;
                let s2 = self.run_chain(*b, all, term)?;
                Ok(format!("{s1}{s2}"))
            }
            Chain::Leaf(e, rev, mut ads) => {
                ads.extend(rest);
                self.loops += 1;
                let k = self.loops;
                let x = format!("x{k}");
                let mut pre = String::new();
                let (mut cond, next, mut auto, dec, idx, after);
                let src = match e {
                    // a temporary receiver lives for the whole loop
                    Expr::MethodCall(m) if m.method == "iter" && matches!(&*m.receiver, Expr::MethodCall(_) | Expr::Call(_)) => {
                        let recv = self.expr(&m.receiver, None)?;
                        pre.push_str(&format!("let src{k} = {recv};\n"));
                        Source::Iter(format!("src{k}.iter_(){}", if rev { ".rev_()" } else { "" }))
                    }
                    _ => self.source(e, rev)?,
                };
                let mut ads2 = &ads[..];
                let mut cur = x.clone();
                let mut nexts = String::new();
                let is_mut = matches!(src, Source::Mut(_));
                match src {
                    Source::Iter(t) => {
                        pre.push_str(&format!("let mut it{k} = {t};\nlet ghost it{k}_seq = it{k}.seq();\n"));
                        cond = format!("it{k}.has_next_()");
                        next = format!("let {x} = it{k}.next_();\n");
                        auto = format!("0 <= it{k}.pos() <= it{k}.seq().len(), it{k}.seq() == it{k}_seq,\n");
                        dec = format!("it{k}.seq().len() - it{k}.pos()");
                        idx = format!("it{k}.index_()");
                        after = String::new();
                    }
                    Source::Mut(p) => {
                        pre.push_str(&format!("let mut j{k}: usize = 0;\nlet n{k} = {p}.len();\n"));
                        cond = format!("j{k} < n{k}");
                        next = format!("let {x} = &mut {p}[j{k}];\n");
                        auto = format!("j{k} <= n{k}, n{k} == {p}.len(),\n");
                        dec = format!("n{k} - j{k}");
                        idx = format!("j{k}");
                        after = format!("j{k} = j{k} + 1;\n");
                    }
                    Source::From(a) => {
                        pre.push_str(&format!("let mut it{k} = range_from_it({a});\n"));
                        cond = "true".to_string();
                        next = format!("let {x} = it{k}.next_opt_().unwrap();\n");
                        auto = String::new();
                        dec = format!("usize::MAX - it{k}.cur");
                        idx = format!("it{k}.cur");
                        after = String::new();
                    }
                    Source::Repeat(v) => {
                        // repeat(v).zip(Y): one clone of v per item of Y
                        let Some(Ad::Zip(y)) = ads2.first() else {
                            return Err("UNSUPPORTED repeat without zip".into());
                        };
                        ads2 = &ads2[1..];
                        let ysrc = match self.decompose(y)? {
                            Chain::Leaf(e, r, a) if a.is_empty() => self.source(e, r)?,
                            _ => return Err("UNSUPPORTED zip operand".into()),
                        };
                        let Source::Iter(t) = ysrc else { return Err("UNSUPPORTED zip operand".into()) };
                        pre.push_str(&format!("let rep{k} = {v};\nlet mut it{k} = {t};\nlet ghost it{k}_seq = it{k}.seq();\n"));
                        cond = format!("it{k}.has_next_()");
                        next = format!("let {x}b = it{k}.next_();\nlet {x} = (rep{k}.vclone(), {x}b);\n");
                        auto = format!("0 <= it{k}.pos() <= it{k}.seq().len(), it{k}.seq() == it{k}_seq,\n");
                        dec = format!("it{k}.seq().len() - it{k}.pos()");
                        idx = format!("it{k}.index_()");
                        after = String::new();
                    }
                }
                // leading one-to-one adapters that need the position
                let mut lead = String::new();
                loop {
                    match ads2.first() {
                        Some(Ad::Enumerate) => {
                            let i = self.fresh("i");
                            nexts.push_str(&format!("let {i} = {idx};\n"));
                            let c2 = self.fresh("e");
                            lead.push_str(&format!("let {c2} = ({i}, {cur});\n"));
                            cur = c2;
                            ads2 = &ads2[1..];
                        }
                        Some(Ad::Copied) => {
                            let c2 = self.fresh("c");
                            lead.push_str(&format!("let {c2} = *{cur};\n"));
                            cur = c2;
                            ads2 = &ads2[1..];
                        }
                        Some(Ad::Cloned) => {
                            let c2 = self.fresh("c");
                            lead.push_str(&format!("let {c2} = {cur}.vclone();\n"));
                            cur = c2;
                            ads2 = &ads2[1..];
                        }
                        Some(Ad::Take(n)) => {
                            let n = self.expr(n, None)?;
                            pre.push_str(&format!("let take{k} = {n};\n"));
                            cond = format!("{idx} < take{k} && {cond}");
                            ads2 = &ads2[1..];
                        }
                        Some(Ad::Zip(y)) => {
                            let t = match self.decompose(y)? {
                                Chain::Leaf(e, r, a) if a.is_empty() => match self.source(e, r)? {
                                    Source::Iter(t) => t,
                                    _ => return Err("UNSUPPORTED zip operand".into()),
                                },
                                // the items of the operand are listed first
                                ch => {
                                    let v = format!("zv{k}");
                                    let s = self.run_chain(ch, vec![], Term::Add(v.clone()))?;
                                    pre.push_str(&format!("let mut {v}: Vec<_> = cnew();\n{s}"));
                                    format!("IntoIt::into_it({v})")
                                }
                            };
                            pre.push_str(&format!("let mut zt{k} = {t};\nlet ghost zt{k}_seq = zt{k}.seq();\n"));
                            cond = format!("{cond} && zt{k}.has_next_()");
                            let at = if is_mut { format!("j{k}") } else { format!("it{k}.pos()") };
                            auto.push_str(&format!("zt{k}.pos() == {at}, 0 <= zt{k}.pos() <= zt{k}.seq().len(), zt{k}.seq() == zt{k}_seq,\n"));
                            let c2 = self.fresh("z");
                            lead.push_str(&format!("let {c2} = ({cur}, zt{k}.next_());\n"));
                            cur = c2;
                            ads2 = &ads2[1..];
                        }
                        _ => break,
                    }
                }
                let stop = self.fresh("stop");
                let mut uses_stop = false;
                if ads2.iter().any(|a| matches!(a, Ad::MapWhile(_))) {
                    uses_stop = true;
                    pre.push_str(&format!("let mut {stop} = false;\n"));
                    cond = format!("!{stop} && {cond}");
                }
                if let Some(c) = term.cond() {
                    cond = format!("{c} && {cond}");
                }
                let _ = uses_stop;
                let g_pre = self.slot(k, "pre");
                let g_inv = self.slot(k, "inv");
                let g_top = self.slot(k, "top");
                let g_beg = self.slot(k, "beg");
                let g_end = self.slot(k, "end");
                let g_post = self.slot(k, "post");
                let body = self.adapt(&cur, ads2, &term, &stop, &idx)?;
                let decr = if g_inv.contains("decreases") { String::new() } else { format!("decreases {dec},\n") };
                Ok(format!(
                    "{pre}{g_pre}while {cond}\ninvariant\n{auto}{g_inv}{decr}{{\n{g_top}{nexts}{next}{lead}{g_beg}{body}{after}{g_end}}}\n{g_post}"
                ))
            }
        }
    }

    fn apply(&mut self, f: &Expr, cur: &str, by_ref: bool) -> R<String> {
        // text of an expression: closure applied to the current item
        let arg = if by_ref { format!("&{cur}") } else { cur.to_string() };
        match f {
            Expr::Closure(c) => {
                if has_return(&c.body) {
                    return Err("UNSUPPORTED return inside closure".into());
                }
                let (bind, mut ids) = self.bind(&c.inputs[0], cur, by_ref)?;
                ids.clear();
                let b = self.expr(&c.body, None)?;
                Ok(format!("{{\n{bind}{b}\n}}"))
            }
            Expr::Path(p) => {
                let t = self.call_path(&p.path, &[arg])?;
                Ok(t)
            }
            e => Err(format!("UNSUPPORTED closure argument {}", toks(e))),
        }
    }

    /// `let PAT = cur;` resolving reference patterns
    fn bind(&mut self, p: &Pat, cur: &str, by_ref: bool) -> R<(String, HashSet<String>)> {
        let mut ids = HashSet::new();
        pat_idents(p, &mut ids);
        let (p, ann) = match p {
            Pat::Type(t) => (&*t.pat, format!(": {}", self.ty(&t.ty)?)),
            p => (p, String::new()),
        };
        let s = match p {
            Pat::Wild(_) => String::new(),
            Pat::Reference(r) if by_ref => {
                let (a, b) = self.pat(&r.pat)?;
                format!("let {a} = {cur};\n{b}")
            }
            Pat::Reference(r) => {
                let (a, b) = self.pat(&r.pat)?;
                format!("let {a} = *{cur};\n{b}")
            }
            p => {
                let (a, b) = self.pat(p)?;
                let r = if by_ref { "&" } else { "" };
                format!("let {a}{ann} = {r}{cur};\n{b}")
            }
        };
        Ok((s, ids))
    }

    fn adapt<'a>(&mut self, cur: &str, ads: &[Ad<'a>], term: &Term<'a>, stop: &str, idx: &str) -> R<String> {
        let Some(a) = ads.first() else { return self.terminal(cur, term, idx) };
        let rest = &ads[1..];
        Ok(match a {
            Ad::Map(f) => {
                let v = self.fresh("m");
                let e = self.apply(f, cur, false)?;
                let r = self.adapt(&v, rest, term, stop, idx)?;
                format!("let {v} = {e};\n{r}")
            }
            Ad::Copied => {
                let v = self.fresh("c");
                let r = self.adapt(&v, rest, term, stop, idx)?;
                format!("let {v} = *{cur};\n{r}")
            }
            Ad::Cloned => {
                let v = self.fresh("c");
                let r = self.adapt(&v, rest, term, stop, idx)?;
                format!("let {v} = {cur}.vclone();\n{r}")
            }
            Ad::Filter(f) => {
                let e = self.apply(f, cur, true)?;
                let b = self.fresh("keep");
                let r = self.adapt(cur, rest, term, stop, idx)?;
                format!("let {b}: bool = {e};\nif {b} {{\n{r}}}\n")
            }
            Ad::FilterMap(f) => {
                let v = self.fresh("m");
                let e = self.apply(f, cur, false)?;
                let r = self.adapt(&v, rest, term, stop, idx)?;
                format!("match {e} {{\nSome({v}) => {{\n{r}}}\nNone => {{}}\n}}\n")
            }
            Ad::MapWhile(f) => {
                let v = self.fresh("m");
                let e = self.apply(f, cur, false)?;
                let r = self.adapt(&v, rest, term, stop, idx)?;
                format!("match {e} {{\nSome({v}) => {{\n{r}}}\nNone => {{ {stop} = true; }}\n}}\n")
            }
            Ad::Flatten => {
                // inner iteration over the item itself
                self.nest_text(format!("IntoIt::into_it({cur})"), rest, term)?
            }
            Ad::FlatMap(f) => match f {
                Expr::Closure(c) => {
                    if has_return(&c.body) {
                        return Err("UNSUPPORTED return inside closure".into());
                    }
                    // names bound by this closure must not capture names of the remaining closures
                    let mut free = HashSet::new();
                    for r in rest {
                        match r {
                            Ad::Map(e) | Ad::Filter(e) | Ad::FilterMap(e) | Ad::FlatMap(e) | Ad::MapWhile(e) => free.extend(closure_free(e)),
                            _ => {}
                        }
                    }
                    match term {
                        Term::ForEach(e) | Term::Any(e, _) | Term::All(e, _) | Term::Find(e, _) | Term::FindMap(e, _)
                        | Term::Position(e, _) | Term::Fold(e, _) | Term::Partition(e, _, _) | Term::TryForEach(e, _)
                        | Term::Retain(e, _) => free.extend(closure_free(e)),
                        Term::ForBody(_, b) => free.extend(idents_of(&toks(*b))),
                        Term::Extend(p) | Term::Add(p) => free.extend(idents_of(p)),
                        Term::Count(_) | Term::Best(..) => {}
                    }
                    let mut cpat = c.inputs[0].clone();
                    let mut cbody = (*c.body).clone();
                    let mut ids = HashSet::new();
                    pat_idents(&cpat, &mut ids);
                    for x in &ids {
                        if free.contains(x) {
                            let to = self.fresh(&format!("{x}_"));
                            rename_var(&mut cpat, &mut cbody, x, &to)?;
                        }
                    }
                    let (bind, ids) = self.bind(&cpat, cur, false)?;
                    let mut body: &Expr = &cbody;
                    let mut lead = String::new();
                    let mut bound = ids;
                    // closure body as block: statements, then the iterator
                    let saved = self.iter_vars.clone();
                    if let Expr::Block(b) = body {
                        let n = b.block.stmts.len();
                        for s in &b.block.stmts[..n - 1] {
                            if let Stmt::Local(l) = s {
                                pat_idents(&l.pat, &mut bound);
                            }
                            lead.push_str(&self.stmt(s)?);
                        }
                        let Some(Stmt::Expr(e, None)) = b.block.stmts.last() else {
                            return Err("UNSUPPORTED flat_map body".into());
                        };
                        body = e;
                    }
                    if let Some(x) = bound.iter().find(|x| free.contains(*x)) {
                        return Err(format!("UNSUPPORTED name capture of {x}"));
                    }
                    let inner = if matches!(body, Expr::If(_) | Expr::Match(_)) {
                        // branches build the inner iterator
                        let t = self.branch_iter(body)?;
                        let v = self.fresh("inner");
                        let n = self.nest_text(v.clone(), rest, term)?;
                        format!("let {v} = {t};\n{n}")
                    } else {
                        let ch = self.decompose(body)?;
                        self.run_chain(ch, rest.to_vec(), term.clone())?
                    };
                    self.iter_vars = saved;
                    format!("{{\n{bind}{lead}{inner}}}\n")
                }
                e => return Err(format!("UNSUPPORTED flat_map argument {}", toks(*e))),
            },
            Ad::Enumerate | Ad::Zip(_) | Ad::Take(_) => return Err("UNSUPPORTED position-dependent adapter after filter".into()),
        })
    }

    /// `if c { ..; X.into_iter() } else { ..; Y.into_iter() }` as an iterator value
    fn branch_iter(&mut self, e: &Expr) -> R<String> {
        match e {
            Expr::If(i) => {
                let c = self.expr(&i.cond, None)?;
                let a = self.branch_block(&i.then_branch)?;
                let Some((_, els)) = &i.else_branch else { return Err("UNSUPPORTED if without else".into()) };
                let b = self.branch_iter(els)?;
                Ok(format!("if {c} {a} else {b}"))
            }
            Expr::Block(b) => self.branch_block(&b.block),
            e => Err(format!("UNSUPPORTED branch {}", toks(e))),
        }
    }
    fn branch_block(&mut self, b: &Block) -> R<String> {
        let n = b.stmts.len();
        let mut s = String::new();
        for st in &b.stmts[..n - 1] {
            s.push_str(&self.stmt(st)?);
        }
        let Some(Stmt::Expr(e, None)) = b.stmts.last() else { return Err("UNSUPPORTED branch".into()) };
        let v = self.iter_value(e)?;
        Ok(format!("{{\n{s}{v}\n}}"))
    }

    fn nest_text<'a>(&mut self, it: String, rest: &[Ad<'a>], term: &Term<'a>) -> R<String> {
        self.loops += 1;
        let k = self.loops;
        let x = format!("x{k}");
        let g_pre = self.slot(k, "pre");
        let g_inv = self.slot(k, "inv");
        let g_top = self.slot(k, "top");
        let g_beg = self.slot(k, "beg");
        let g_end = self.slot(k, "end");
        let g_post = self.slot(k, "post");
        let mut cond = format!("it{k}.has_next_()");
        if let Some(c) = term.cond() {
            cond = format!("{c} && {cond}");
        }
        let stop = self.fresh("stop");
        if rest.iter().any(|a| matches!(a, Ad::MapWhile(_) | Ad::Enumerate | Ad::Zip(_))) {
            return Err("UNSUPPORTED adapter after flatten".into());
        }
        let body = self.adapt(&x, rest, term, &stop, &format!("it{k}.index_()"))?;
        let decr = if g_inv.contains("decreases") { String::new() } else { format!("decreases it{k}.seq().len() - it{k}.pos(),\n") };
        Ok(format!(
            "let mut it{k} = {it};\nlet ghost it{k}_seq = it{k}.seq();\n{g_pre}while {cond}\ninvariant\n0 <= it{k}.pos() <= it{k}.seq().len(), it{k}.seq() == it{k}_seq,\n{g_inv}{decr}{{\n{g_top}let {x} = it{k}.next_();\n{g_beg}{body}{g_end}}}\n{g_post}"
        ))
    }

    fn terminal<'a>(&mut self, cur: &str, term: &Term<'a>, idx: &str) -> R<String> {
        Ok(match term {
            Term::Add(v) => format!("cadd(&mut {v}, {cur});\n"),
            Term::Extend(p) => format!("{p}.cext_({cur});\n"),
            Term::ForEach(f) => {
                let e = self.apply(f, cur, false)?;
                format!("{e};\n")
            }
            Term::ForBody(p, b) => {
                let (bind, _) = self.bind(p, cur, false)?;
                let body = self.block_inner(b, None, false)?;
                format!("{bind}{body}")
            }
            Term::Any(f, r) => {
                let e = self.apply(f, cur, false)?;
                format!("let hit: bool = {e};\nif hit {{ {r} = true; }}\n")
            }
            Term::All(f, r) => {
                let e = self.apply(f, cur, false)?;
                format!("let hit: bool = {e};\nif !hit {{ {r} = false; }}\n")
            }
            Term::Find(f, r) => {
                let e = self.apply(f, cur, true)?;
                format!("let hit: bool = {e};\nif hit {{ {r} = Some({cur}); }}\n")
            }
            Term::FindMap(f, r) => {
                let e = self.apply(f, cur, false)?;
                format!("{r} = {e};\n")
            }
            Term::Position(f, r) => {
                let i = self.fresh("p");
                let e = self.apply(f, cur, false)?;
                // the item has been taken already: its position is one less
                format!("let {i} = {idx} - 1;\nlet hit: bool = {e};\nif hit {{ {r} = Some({i}); }}\n")
            }
            Term::Count(r) => format!("{r} = {r} + 1;\n"),
            Term::Best(r, max) => format!("{r} = opt_{}_({r}, {cur});\n", if *max { "max" } else { "min" }),
            Term::Fold(f, r) => {
                let Expr::Closure(c) = f else { return Err("UNSUPPORTED fold".into()) };
                if has_return(&c.body) {
                    return Err("UNSUPPORTED return inside closure".into());
                }
                let (b1, _) = self.bind(&c.inputs[0], r, false)?;
                let (b2, _) = self.bind(&c.inputs[1], cur, false)?;
                let e = self.expr(&c.body, None)?;
                format!("{r} = {{\n{b1}{b2}{e}\n}};\n")
            }
            Term::Partition(f, a, b) => {
                let e = self.apply(f, cur, true)?;
                format!("let hit: bool = {e};\nif hit {{ cadd(&mut {a}, {cur}); }} else {{ cadd(&mut {b}, {cur}); }}\n")
            }
            Term::TryForEach(f, r) => {
                let e = self.apply(f, cur, false)?;
                format!("{r} = {e};\n")
            }
            Term::Retain(f, p) => {
                let e = self.apply(f, cur, true)?;
                format!("let hit: bool = {e};\nif hit {{ {p}.cadd_({cur}); }}\n")
            }
        })
    }

    fn chain_expr(&mut self, m: &ExprMethodCall, exp: Option<&str>) -> R<String> {
        let name = m.method.to_string();
        let ch = self.decompose(&m.receiver)?;
        let id = self.loops + 1;
        match name.as_str() {
            "collect" => {
                let mut t = self.c.accs.get(&id).cloned();
                if t.is_none() {
                    if let Some(tf) = &m.turbofish {
                        if let Some(GenericArgument::Type(x)) = tf.args.first() {
                            t = Some(self.ty(x)?);
                        }
                    }
                }
                if t.is_none() {
                    t = exp.map(|s| s.to_string());
                }
                let ann = t.map(|t| format!(": {t}")).unwrap_or_default();
                let v = format!("acc{id}");
                let s = self.run_chain(ch, vec![], Term::Add(v.clone()))?;
                Ok(format!("{{\nlet mut {v}{ann} = cnew();\n{s}{v}\n}}"))
            }
            "for_each" => {
                let s = self.run_chain(ch, vec![], Term::ForEach(&m.args[0]))?;
                Ok(format!("{{\n{s}}}"))
            }
            "max" | "min" => {
                let r = format!("r{id}");
                let s = self.run_chain(ch, vec![], Term::Best(r.clone(), name == "max"))?;
                Ok(format!("{{\nlet mut {r}: Option<usize> = None;\n{s}{r}\n}}"))
            }
            "any" | "all" => {
                let r = format!("r{id}");
                let (t, init) = if name == "any" { (Term::Any(&m.args[0], r.clone()), "false") } else { (Term::All(&m.args[0], r.clone()), "true") };
                let s = self.run_chain(ch, vec![], t)?;
                Ok(format!("{{\nlet mut {r}: bool = {init};\n{s}{r}\n}}"))
            }
            "find" | "find_map" | "position" => {
                let r = format!("r{id}");
                let t = match name.as_str() {
                    "find" => Term::Find(&m.args[0], r.clone()),
                    "find_map" => Term::FindMap(&m.args[0], r.clone()),
                    _ => Term::Position(&m.args[0], r.clone()),
                };
                let ann = self.c.accs.get(&id).map(|t| format!(": {t}")).unwrap_or(if name == "position" { ": Option<usize>".into() } else { ": Option<_>".into() });
                let s = self.run_chain(ch, vec![], t)?;
                Ok(format!("{{\nlet mut {r}{ann} = None;\n{s}{r}\n}}"))
            }
            "count" => {
                let r = format!("r{id}");
                let s = self.run_chain(ch, vec![], Term::Count(r.clone()))?;
                Ok(format!("{{\nlet mut {r}: usize = 0;\n{s}{r}\n}}"))
            }
            "fold" => {
                let r = format!("f{id}");
                let ann = self.c.accs.get(&id).map(|t| format!(": {t}")).unwrap_or_default();
                let init = self.expr(&m.args[0], None)?;
                let id2 = self.loops + 1;
                if id2 != id {
                    return Err("UNSUPPORTED loop in fold initialiser".into());
                }
                let s = self.run_chain(ch, vec![], Term::Fold(&m.args[1], r.clone()))?;
                Ok(format!("{{\nlet mut {r}{ann} = {init};\n{s}{r}\n}}"))
            }
            "partition" => {
                let (a, b) = (format!("pa{id}"), format!("pb{id}"));
                let inner = exp
                    .and_then(|t| t.strip_prefix('(').and_then(|t| t.strip_suffix(')')))
                    .and_then(|t| t.split_once(", "))
                    .ok_or("UNSUPPORTED partition without type")?;
                let s = self.run_chain(ch, vec![], Term::Partition(&m.args[0], a.clone(), b.clone()))?;
                Ok(format!("{{\nlet mut {a}: {} = cnew();\nlet mut {b}: {} = cnew();\n{s}({a}, {b})\n}}", inner.0, inner.1))
            }
            "try_for_each" => {
                let r = format!("t{id}");
                let ann = self.c.accs.get(&id).map(|t| format!(": {t}")).unwrap_or_default();
                let s = self.run_chain(ch, vec![], Term::TryForEach(&m.args[0], r.clone()))?;
                Ok(format!("{{\nlet mut {r}{ann} = t_ok();\n{s}{r}\n}}"))
            }
            _ => Err(format!("UNSUPPORTED terminal {name}")),
        }
    }

    // --------------------------------------------------------------------------------- expressions
    fn args(&mut self, a: &punctuated::Punctuated<Expr, Token![,]>) -> R<Vec<String>> {
        a.iter().map(|e| self.expr(e, None)).collect()
    }

    fn call_path(&mut self, p: &Path, args: &[String]) -> R<String> {
        let t = self.path(p);
        let a = args.join(", ");
        Ok(match t.as_str() {
            "Rc::from" | "String::from" | "Box::from" => format!("rc_from({a})"),
            "Rc::new" | "Cow::Owned" => a,
            "Cow::Borrowed" => format!("{a}.vclone()"),
            "HSet::from" => format!("hset_from({a})"),
            "mem::take" => format!("mem_take({a})"),
            "Into::into" => {
                let Some(t) = &self.c.into else { return Err("UNSUPPORTED into without target".into()) };
                if t.contains("::") { format!("{t}({a})") } else { format!("{t}::from({a})") }
            }
            "Vec::with_capacity" | "String::with_capacity" => {
                if t.starts_with("Vec") {
                    "Vec::new()".to_string()
                } else {
                    "Str::empty()".to_string()
                }
            }
            "String::new" => "Str::empty()".to_string(),
            "Option::zip" => {
                format!("opt_zip({a})")
            }
            _ => {
                // a function of another module or crate: named after both
                let n = p.segments.len();
                if n >= 2 && p.segments.iter().all(|s| s.ident.to_string().starts_with(|c: char| c.is_lowercase())) {
                    return Ok(format!("{}_{}({a})", p.segments[n - 2].ident, p.segments[n - 1].ident));
                }
                if let Some(id) = p.get_ident() {
                    if self.tls_fns.contains(&id.to_string()) {
                        return Ok(if a.is_empty() { format!("{t}(g_)") } else { format!("{t}(g_, {a})") });
                    }
                    if self.hoisted.contains_key(&id.to_string()) {
                        return Ok(format!("{id}.call_({a})"));
                    }
                }
                format!("{t}({a})")
            }
        })
    }

    fn ident(&self, i: &str) -> String {
        if i == "self" && self.self_mut {
            return "self_".into();
        }
        if let Some(c) = self.captured.get(i) {
            return format!("{c}.{i}");
        }
        i.to_string()
    }

    fn is_lit_str(e: &Expr) -> bool {
        matches!(e, Expr::Lit(l) if matches!(l.lit, Lit::Str(_)))
    }

    pub fn expr(&mut self, e: &Expr, exp: Option<&str>) -> R<String> {
        Ok(match e {
            Expr::Paren(p) => format!("({})", self.expr(&p.expr, exp)?),
            Expr::Lit(l) => match &l.lit {
                Lit::Str(s) => format!("lit({})", toks(s)),
                Lit::Byte(b) => format!("{}u8", b.value()),
                // a decimal number as a fraction
                Lit::Float(x) => {
                    let (a, b) = fraction(x)?;
                    format!("fl_({a}, {b})")
                }
                l => toks(l),
            },
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    self.ident(&i.to_string())
                } else {
                    self.path(&p.path)
                }
            }
            Expr::Field(f) => format!("{}.{}", self.expr(&f.base, None)?, toks(&f.member)),
            Expr::Index(i) => {
                let b = self.expr(&i.expr, None)?;
                match &*i.index {
                    Expr::Tuple(t) => {
                        let a = self.args(&t.elems)?;
                        format!("{b}.at_({})", a.join(", "))
                    }
                    // part of a text
                    Expr::Range(ExprRange { start: Some(a), end: None, .. }) => {
                        let a = self.expr(a, None)?;
                        format!("*{b}.slice_from_({a})")
                    }
                    Expr::Range(ExprRange { start: None, end: Some(a), limits: RangeLimits::HalfOpen(_), .. }) => {
                        let a = self.expr(a, None)?;
                        format!("*{b}.slice_to_({a})")
                    }
                    x => {
                        let x = self.expr(x, None)?;
                        format!("{b}[{x}]")
                    }
                }
            }
            Expr::Unary(u) => {
                let x = self.expr(&u.expr, None)?;
                let op = toks(&u.op);
                format!("{op}{x}")
            }
            Expr::Reference(r) => {
                if let Expr::Lit(l) = &*r.expr {
                    if let Lit::Str(s) = &l.lit {
                        return Ok(format!("lit_ref({})", toks(s)));
                    }
                }
                let x = self.expr(&r.expr, None)?;
                format!("&{}{x}", if r.mutability.is_some() { "mut " } else { "" })
            }
            Expr::Binary(b) => {
                let l = self.expr(&b.left, None)?;
                let r = self.expr(&b.right, None)?;
                let op = toks(&b.op);
                let l = if l.starts_with('{') { format!("({l})") } else { l };
                match &b.op {
                    BinOp::Mul(_) if matches!(&*b.left, Expr::Reference(_)) => format!("mat_mul({l}, {r})"),
                    BinOp::And(_) if r.contains("while ") => format!("(if {l} {{ {r} }} else {{ false }})"),
                    BinOp::Or(_) if r.contains("while ") => format!("(if {l} {{ true }} else {{ {r} }})"),
                    _ => format!("{l} {op} {r}"),
                }
            }
            Expr::Assign(a) if matches!(&*a.left, Expr::Tuple(_)) => {
                let Expr::Tuple(t) = &*a.left else { unreachable!() };
                let r = self.expr(&a.right, None)?;
                let mut names = vec![];
                let mut sets = String::new();
                for (i, e) in t.elems.iter().enumerate() {
                    if let Expr::Infer(_) = e {
                        names.push("_".to_string());
                    } else {
                        let l = self.expr(e, None)?;
                        names.push(format!("as_{i}"));
                        sets.push_str(&format!("{l} = as_{i};\n"));
                    }
                }
                format!("let ({}) = {r};\n{sets}", names.join(", "))
            }
            // one byte of a text overwritten
            Expr::Assign(a) if byte_place(&a.left).is_some() => {
                let (t, i) = byte_place(&a.left).unwrap();
                let (t, i) = (self.expr(t, None)?, self.expr(i, None)?);
                let r = self.expr(&a.right, None)?;
                format!("{t}.set_byte_({i}, {r})")
            }
            Expr::Assign(a) => {
                let r = self.expr(&a.right, None)?;
                let l = self.expr(&a.left, None)?;
                format!("{l} = {r}")
            }
            Expr::Tuple(t) => {
                let a = self.args(&t.elems)?;
                if a.len() == 1 {
                    format!("({},)", a[0])
                } else {
                    format!("({})", a.join(", "))
                }
            }
            Expr::Array(t) => {
                let a = self.args(&t.elems)?;
                format!("vec![{}]", a.join(", "))
            }
            Expr::Cast(c) => {
                let x = self.expr(&c.expr, None)?;
                let t = self.ty(&c.ty)?;
                if t.starts_with('&') {
                    x
                } else if t == "Fl_" {
                    format!("fl_of_({x})")
                } else {
                    format!("({x} as {t})")
                }
            }
            Expr::Block(b) => self.block(&b.block, exp)?,
            Expr::Unsafe(b) => self.block(&b.block, exp)?,
            Expr::Return(r) => {
                let ghost = self.c.ret_ghost.clone();
                match &r.expr {
                    Some(x) => {
                        let t = self.expr(x, self.ret_ty.clone().as_deref())?;
                        if ghost.is_empty() {
                            format!("return {t}")
                        } else {
                            format!("{{ let ret_ = {t};\n{ghost}return ret_; }}")
                        }
                    }
                    None => format!("{ghost}return"),
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &*i.cond {
                    let x = self.expr(&l.expr, None)?;
                    let (p, b) = self.pat(&l.pat)?;
                    let saved = self.iter_vars.clone();
                    let mut ids = HashSet::new();
                    pat_idents(&l.pat, &mut ids);
                    ids.iter().for_each(|i| {
                        self.iter_vars.remove(i);
                    });
                    let th = self.block_inner(&i.then_branch, exp, false)?;
                    self.iter_vars = saved;
                    let el = match &i.else_branch {
                        Some((_, e)) => format!(" else {}", self.else_branch(e, exp)?),
                        None => String::new(),
                    };
                    format!("if let {p} = {x} {{\n{b}{th}}}{el}")
                } else {
                    let c = self.expr(&i.cond, None)?;
                    let c = if c.contains('{') { format!("({c})") } else { c };
                    let th = self.block(&i.then_branch, exp)?;
                    let el = match &i.else_branch {
                        Some((_, e)) => format!(" else {}", self.else_branch(e, exp)?),
                        None => String::new(),
                    };
                    format!("if {c} {th}{el}")
                }
            }
            Expr::Match(m) => {
                let x = self.expr(&m.expr, None)?;
                let mut s = format!("match {x} {{\n");
                for a in &m.arms {
                    let (p, b) = self.pat(&a.pat)?;
                    if a.guard.is_some() {
                        return Err("UNSUPPORTED match guard".into());
                    }
                    let body = self.expr(&a.body, exp)?;
                    s.push_str(&format!("{p} => {{\n{b}{body}\n}}\n"));
                }
                s.push('}');
                s
            }
            Expr::While(w) => {
                if w.label.is_some() {
                    return Err("UNSUPPORTED loop label".into());
                }
                self.loops += 1;
                let k = self.loops;
                let g_pre = self.slot(k, "pre");
                let g_inv = self.slot(k, "inv");
                let g_beg = self.slot(k, "beg");
                let g_top = self.slot(k, "top");
                let g_end = self.slot(k, "end");
                let g_post = self.slot(k, "post");
                let inv = if g_inv.trim().is_empty() { String::new() } else { format!("\ninvariant\n{g_inv}") };
                let (head, b) = match &*w.cond {
                    Expr::Let(l) => {
                        let x = self.expr(&l.expr, None)?;
                        let (p, b) = self.pat(&l.pat)?;
                        (format!("while let {p} = {x}"), b)
                    }
                    c => {
                        let c = self.expr(c, None)?;
                        (format!("while {c}"), String::new())
                    }
                };
                let mut body = self.block_inner(&w.body, None, false)?;
                // a tail expression of type () becomes a statement
                if !body.trim_end().is_empty() && !body.trim_end().ends_with([';', '}']) {
                    body = format!("{};\n", body.trim_end());
                }
                format!("{g_pre}{head}{inv}{{\n{g_top}{b}{g_beg}{body}{g_end}}}\n{g_post}")
            }
            Expr::ForLoop(f) => format!("{{\n{}}}", self.for_loop(f)?),
            Expr::Struct(st) => {
                let mut fs = vec![];
                for f in &st.fields {
                    let n = toks(&f.member);
                    let v = self.expr(&f.expr, None)?;
                    if v == n {
                        fs.push(n);
                    } else {
                        fs.push(format!("{n}: {v}"));
                    }
                }
                if st.rest.is_some() {
                    return Err("UNSUPPORTED struct update".into());
                }
                format!("{} {{ {} }}", self.path(&st.path), fs.join(", "))
            }
            Expr::Closure(c) => self.kept_closure(c)?,
            Expr::Macro(m) => self.mac(&m.mac, exp)?,
            Expr::Try(t) => self.try_expr(&t.expr)?,
            Expr::Call(c) => {
                let args = self.args(&c.args)?;
                match &*c.func {
                    Expr::Path(p) => self.call_path(&p.path, &args)?,
                    f => {
                        let f = self.expr(f, None)?;
                        format!("({f})({})", args.join(", "))
                    }
                }
            }
            Expr::MethodCall(m) => self.method(m, exp)?,
            // a range that is not iterated over: the part of a text that is replaced
            Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) if self.part_ranges => {
                let (a, b) = (self.expr(a, None)?, self.expr(b, None)?);
                format!("Part_ {{ start: {a}, end: {b} }}")
            }
            Expr::Range(_) => self.iter_value(e)?,
            Expr::Let(_) => return Err("UNSUPPORTED let chain".into()),
            Expr::Break(b) if b.label.is_none() && b.expr.is_none() => return Err("UNSUPPORTED break".into()),
            _ => return Err(format!("UNSUPPORTED expression {}", toks(e))),
        })
    }

    fn else_branch(&mut self, e: &Expr, exp: Option<&str>) -> R<String> {
        self.expr(e, exp)
    }

    fn try_expr(&mut self, e: &Expr) -> R<String> {
        let ghost = self.c.ret_ghost.clone();
        if let Some(rt) = &self.ret_ty {
            if rt.starts_with("Option") {
                let x = self.expr(e, None)?;
                return Ok(format!("(match {x} {{\nSome(v_) => v_,\nNone => {{ let ret_ = None; {ghost} return ret_; }}\n}})"));
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "map_err" {
                // a `?` further in: its value gets a name, so that the early returns are not nested in a scrutinee
                if let Expr::MethodCall(i) = &*m.receiver {
                    if let Expr::Try(t) = &*i.receiver {
                        let v = self.try_expr(&t.expr)?;
                        let mut i2 = i.clone();
                        i2.receiver = Box::new(syn::parse_str("q_").unwrap());
                        let x = self.method(&i2, None)?;
                        let f = self.apply(&m.args[0], "e_", false)?;
                        return Ok(format!("({{ let q_ = {v};\nmatch {x} {{\nOk(v_) => v_,\nErr(e_) => {{ let ret_ = Err({f});\n{ghost}return ret_; }}\n}} }})"));
                    }
                }
                let x = self.expr(&m.receiver, None)?;
                let f = self.apply(&m.args[0], "e_", false)?;
                return Ok(format!("(match {x} {{\nOk(v_) => v_,\nErr(e_) => {{ let ret_ = Err({f});\n{ghost}return ret_; }}\n}})"));
            }
        }
        let x = self.expr(e, None)?;
        Ok(format!("(match {x} {{\nOk(v_) => v_,\nErr(e_) => {{ let ret_ = Err(e_);\n{ghost}return ret_; }}\n}})"))
    }

    fn kept_closure(&mut self, c: &ExprClosure) -> R<String> {
        self.closures += 1;
        let n = self.closures;
        let body = self.expr(&c.body, None)?;
        let Some((sig, spec)) = self.c.closures.get(&n).cloned() else {
            return Err(format!("UNSUPPORTED closure {n} without contract in {}", self.c.name));
        };
        self.used.insert(format!("closure {n}"));
        // rename parameters of the contract to those of the code
        let mut names = vec![];
        let mut binds = String::new();
        for (i, p) in c.inputs.iter().enumerate() {
            match p {
                Pat::Ident(pi) => names.push(pi.ident.to_string()),
                Pat::Type(t) => match &*t.pat {
                    Pat::Ident(pi) => names.push(pi.ident.to_string()),
                    _ => return Err("UNSUPPORTED closure pattern".into()),
                },
                Pat::Wild(_) => names.push(format!("_w{i}")),
                p => {
                    let v = format!("carg{i}");
                    let (b, _) = self.bind(p, &v, false)?;
                    binds.push_str(&b);
                    names.push(v);
                }
            }
        }
        let mut sig2 = sig;
        for (i, nme) in names.iter().enumerate() {
            sig2 = sig2.replace(&format!("$%{}", i + 1), nme);
        }
        let mut sp = spec;
        for (i, nme) in names.iter().enumerate() {
            sp = sp.replace(&format!("$%{}", i + 1), nme);
        }
        if sp.trim() == "auto" {
            sp = format!("ensures r == ({body})\n");
        }
        Ok(format!("|{sig2}\n{sp}{{\n{binds}{body}\n}}"))
    }

    fn mac(&mut self, m: &Macro, exp: Option<&str>) -> R<String> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let list = || m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
        Ok(match name.as_str() {
            "vec" => {
                let t = m.tokens.to_string();
                if t.trim().is_empty() {
                    return Ok("Vec::new()".into());
                }
                if let Ok(r) = m.parse_body_with(|i: parse::ParseStream| {
                    let a: Expr = i.parse()?;
                    let _: Token![;] = i.parse()?;
                    let b: Expr = i.parse()?;
                    Ok((a, b))
                }) {
                    let a = self.expr(&r.0, None)?;
                    let b = self.expr(&r.1, None)?;
                    return Ok(format!("vec_elem({a}, {b})"));
                }
                let l = list().map_err(|e| format!("UNSUPPORTED vec!: {e}"))?;
                let el = exp.and_then(|t| t.strip_prefix("Vec<")).and_then(|t| t.strip_suffix('>')).map(|s| s.to_string());
                let mut a = vec![];
                for x in l.iter() {
                    if is_iter_expr(x, &self.iter_vars) {
                        return Err("UNSUPPORTED iterator in vec!".into());
                    }
                    a.push(self.expr(x, el.as_deref())?);
                }
                format!("vec![{}]", a.join(", "))
            }
            "format" => {
                let l = list().map_err(|e| format!("UNSUPPORTED format!: {e}"))?;
                let fmt = toks(&l[0]);
                let f = fmt.trim_matches('"').to_string();
                // a single inlined number
                if l.len() == 1 && f.starts_with('{') && f.ends_with('}') && f[1..f.len() - 1].chars().all(|c| c.is_alphanumeric() || c == '_') {
                    return Ok(format!("to_str_(&{})", self.ident(&f[1..f.len() - 1])));
                }
                if self.c.fmt {
                    let Expr::Lit(ExprLit { lit: Lit::Str(ls), .. }) = &l[0] else { return Err("UNSUPPORTED format!".into()) };
                    let mut s = String::from("{ ");
                    let mut vals = vec![];
                    for (i, a) in l.iter().enumerate().skip(1) {
                        let t = self.expr(a, None)?;
                        s.push_str(&format!("let fa_{i} = &{t}; "));
                        vals.push(format!("fa_{i}"));
                    }
                    s.push_str("let mut fm_ = Str::empty(); ");
                    let mut next = 0;
                    let mut piece = String::new();
                    let ch: Vec<char> = ls.value().chars().collect();
                    let mut i = 0;
                    let flush = |piece: &mut String, s: &mut String| {
                        if !piece.is_empty() {
                            s.push_str(&format!("fm_.push_str(lit({piece:?})); "));
                            piece.clear();
                        }
                    };
                    while i < ch.len() {
                        if (ch[i] == '{' || ch[i] == '}') && i + 1 < ch.len() && ch[i + 1] == ch[i] {
                            piece.push(ch[i]);
                            i += 2;
                        } else if ch[i] == '{' {
                            let Some(j) = ch[i..].iter().position(|c| *c == '}') else { return Err("UNSUPPORTED format!".into()) };
                            let nm: String = ch[i + 1..i + j].iter().collect();
                            flush(&mut piece, &mut s);
                            let v = if nm.is_empty() {
                                next += 1;
                                vals.get(next - 1).cloned().ok_or("UNSUPPORTED format!")?
                            } else if nm.chars().all(|c| c.is_alphanumeric() || c == '_') && !nm.starts_with(|c: char| c.is_numeric()) {
                                self.ident(&nm)
                            } else {
                                return Err(format!("UNSUPPORTED format! {{{nm}}}"));
                            };
                            s.push_str(&format!("fm_.push_str(&to_str_(&{v})); "));
                            i += j + 1;
                        } else {
                            piece.push(ch[i]);
                            i += 1;
                        }
                    }
                    flush(&mut piece, &mut s);
                    s.push_str("fm_ }");
                    return Ok(s);
                }
                // any other formatted text: arbitrary string, arguments still evaluated
                let mut s = String::from("{ ");
                for (i, a) in l.iter().enumerate().skip(1) {
                    let t = self.expr(a, None)?;
                    s.push_str(&format!("let fa_{i} = &{t}; "));
                }
                s.push_str("fmt_any() }");
                s
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => "vpanic()".into(),
            "assert" | "debug_assert" => {
                let l = list().map_err(|e| format!("UNSUPPORTED assert!: {e}"))?;
                let c = self.expr(&l[0], None)?;
                format!("rt_assert({c})")
            }
            "cfg" => "cfg_any()".into(),
            // text on the terminal is dropped, its arguments still evaluated
            "eprintln" | "println" | "eprint" | "print" => {
                let l = list().map_err(|e| format!("UNSUPPORTED {name}!: {e}"))?;
                let mut s = String::from("{ ");
                for (i, a) in l.iter().enumerate().skip(1) {
                    let t = self.expr(a, None)?;
                    s.push_str(&format!("let fa_{i} = &{t}; "));
                }
                s.push('}');
                s
            }
            n if self.macros.contains_key(n) => {
                let l = list().map_err(|e| format!("UNSUPPORTED {name}!: {e}"))?;
                let (params, body) = self.macros[n].clone();
                if params.len() != l.len() {
                    return Err(format!("UNSUPPORTED arguments of {name}!"));
                }
                let sub: HashMap<String, proc_macro2::TokenStream> = params.into_iter().zip(l.iter().map(|e| quote::quote!((#e)))).collect();
                let b = macro_subst(body, &sub);
                let b: syn::Block = syn::parse2(quote::quote!({ #b })).map_err(|e| format!("UNSUPPORTED body of {name}!: {e}"))?;
                self.block(&b, exp)?
            }
            n => return Err(format!("UNSUPPORTED macro {n}")),
        })
    }

    fn opt_closure(&mut self, f: &Expr, v: &str) -> R<String> {
        self.apply(f, v, false)
    }

    // receiver of an Option combinator: a plain variable may be bound by reference
    fn opt_recv(&mut self, e: &Expr) -> R<String> {
        let r = self.expr(e, None)?;
        Ok(match e { Expr::Path(p) if p.path.get_ident().is_some() => format!("{r}.optv_()"), _ => r })
    }
    fn method(&mut self, m: &ExprMethodCall, exp: Option<&str>) -> R<String> {
        let name = m.method.to_string();
        let n = name.as_str();
        let chain = is_iter_expr(&m.receiver, &self.iter_vars);
        if let ("nth", Expr::MethodCall(i)) = (n, &*m.receiver) {
            if i.method == "char_indices" {
                let t = self.expr(&i.receiver, None)?;
                let a = self.expr(&m.args[0], None)?;
                return Ok(format!("{t}.char_indices_nth_({a})"));
            }
        }
        if n == "replace_range" {
            let t = self.expr(&m.receiver, None)?;
            let a = self.args(&m.args)?.join(", ");
            return Ok(format!("{t}.replace_range_({a})"));
        }
        if chain && TERMINALS.contains(&n) {
            return self.chain_expr(m, exp);
        }
        if chain && n == "next" {
            let r = self.expr(&m.receiver, None)?;
            return Ok(format!("{r}.next_opt_()"));
        }
        if SOURCES.contains(&n) || (chain && ADAPTERS.contains(&n)) {
            return self.iter_value(&Expr::MethodCall(m.clone()));
        }
        if let ("with_borrow" | "with_borrow_mut", Expr::Path(p)) = (n, &*m.receiver) {
            if let Some(id) = p.path.get_ident().map(|i| i.to_string()).filter(|i| self.tls.contains(i)) {
                let Expr::Closure(c) = &m.args[0] else { return Err(format!("UNSUPPORTED {n}")) };
                let (Pat::Ident(v), 1) = (&c.inputs[0], c.inputs.len()) else { return Err(format!("UNSUPPORTED {n}")) };
                if has_return(&c.body) {
                    return Err(format!("UNSUPPORTED return in {n}"));
                }
                let b = self.expr(&c.body, exp)?;
                return Ok(format!("{{ let {} = &{}g_.{id};\n{b} }}", v.ident, if n == "with_borrow" { "" } else { "mut " }));
            }
        }
        match n {
            "extend" => {
                let p = self.expr(&m.receiver, None)?;
                let ch = self.decompose(&m.args[0])?;
                let s = self.run_chain(ch, vec![], Term::Extend(p))?;
                return Ok(format!("{{\n{s}}}"));
            }
            "retain" => {
                let p = self.expr(&m.receiver, None)?;
                self.loops += 1;
                let k = self.loops;
                let g_pre = self.slot(k, "pre");
                let g_inv = self.slot(k, "inv");
                let g_beg = self.slot(k, "beg");
                let g_end = self.slot(k, "end");
                let g_post = self.slot(k, "post");
                let x = format!("x{k}");
                let b = self.terminal(&x, &Term::Retain(&m.args[0], p.clone()), "0")?;
                return Ok(format!("{{\nlet mut it{k} = {p}.drain_();\nlet ghost it{k}_seq = it{k}.seq();\n{g_pre}while it{k}.has_next_()\ninvariant\n0 <= it{k}.pos() <= it{k}.seq().len(), it{k}.seq() == it{k}_seq,\n{g_inv}decreases it{k}.seq().len() - it{k}.pos(),\n{{\nlet {x} = it{k}.next_();\n{g_beg}{b}{g_end}}}\n{g_post}}}"));
            }
            // Option / Result combinators
            "map" => {
                let r = self.opt_recv(&m.receiver)?;
                let v = self.fresh("o");
                let b = self.opt_closure(&m.args[0], &v)?;
                return Ok(format!("(match {r} {{ Some({v}) => Some({b}), None => None }})"));
            }
            "map_or" => {
                let r = self.opt_recv(&m.receiver)?;
                let d = self.expr(&m.args[0], None)?;
                let v = self.fresh("o");
                let b = self.opt_closure(&m.args[1], &v)?;
                return Ok(format!("(match {r} {{ Some({v}) => {b}, None => {d} }})"));
            }
            "and_then" => {
                let r = self.opt_recv(&m.receiver)?;
                let v = self.fresh("o");
                let b = self.opt_closure(&m.args[0], &v)?;
                return Ok(format!("(match {r} {{ Some({v}) => {b}, None => None }})"));
            }
            "filter" => {
                let r = self.expr(&m.receiver, None)?;
                let v = self.fresh("o");
                let b = self.apply(&m.args[0], &v, true)?;
                return Ok(format!("(match {r} {{ Some({v}) => {{ let keep_: bool = {b};\nif keep_ {{ Some({v}) }} else {{ None }} }}, None => None }})"));
            }
            "zip" => {
                let r = self.expr(&m.receiver, None)?;
                let a = self.expr(&m.args[0], None)?;
                return Ok(format!("opt_zip({r}, {a})"));
            }
            "copied" | "cloned" => {
                let r = self.expr(&m.receiver, None)?;
                let v = self.fresh("o");
                let b = if n == "copied" { format!("*{v}") } else { format!("{v}.vclone()") };
                return Ok(format!("(match {r} {{ Some({v}) => Some({b}), None => None }})"));
            }
            "then_some" => {
                let r = self.expr(&m.receiver, None)?;
                let a = self.expr(&m.args[0], None)?;
                let (b, v) = (self.fresh("tb"), self.fresh("tv"));
                return Ok(format!("{{ let {b}: bool = {r};\nlet {v} = {a};\nif {b} {{ Some({v}) }} else {{ None }} }}"));
            }
            "then" => {
                let r = self.expr(&m.receiver, None)?;
                let Expr::Closure(c) = &m.args[0] else { return Err("UNSUPPORTED then".into()) };
                let a = self.expr(&c.body, None)?;
                return Ok(format!("(if {r} {{ Some({a}) }} else {{ None }})"));
            }
            "ok_or" => {
                let r = self.expr(&m.receiver, None)?;
                let a = self.expr(&m.args[0], None)?;
                let (b, v) = (self.fresh("tb"), self.fresh("tv"));
                return Ok(format!("{{ let {b} = {r};\nlet {v} = {a};\nmatch {b} {{ Some(ok_) => Ok(ok_), None => Err({v}) }} }}"));
            }
            "map_err" => {
                let r = self.expr(&m.receiver, None)?;
                let v = self.fresh("o");
                let b = self.opt_closure(&m.args[0], &v)?;
                return Ok(format!("(match {r} {{ Ok(ok_) => Ok(ok_), Err({v}) => Err({b}) }})"));
            }
            "not" if m.args.is_empty() => {
                let r = self.expr(&m.receiver, None)?;
                return Ok(format!("!({r})"));
            }
            "or_insert_with" => {
                if let Expr::MethodCall(inner) = &*m.receiver {
                    if inner.method == "entry" {
                        let mp = self.expr(&inner.receiver, None)?;
                        let key = self.expr(&inner.args[0], None)?;
                        let Expr::Closure(c) = &m.args[0] else { return Err("UNSUPPORTED or_insert_with".into()) };
                        let v = self.expr(&c.body, None)?;
                        let kk = self.fresh("key");
                        return Ok(format!("{{ let {kk} = {key};\nif !{mp}.contains_key(&{kk}) {{ let val_ = {v};\n{mp}.insert({kk}.vclone(), val_); }}\n{mp}.index_(&{kk}) }}"));
                    }
                }
                return Err("UNSUPPORTED or_insert_with".into());
            }
            "or_default" => {
                if let Expr::MethodCall(inner) = &*m.receiver {
                    if inner.method == "entry" {
                        let mp = self.expr(&inner.receiver, None)?;
                        let key = self.expr(&inner.args[0], None)?;
                        return Ok(format!("{mp}.entry_or_default_({key})"));
                    }
                }
                return Err("UNSUPPORTED or_default".into());
            }
            "sort_by_key" => {
                // keys are computed first, then the vector is sorted stably by them
                let p = self.expr(&m.receiver, None)?;
                self.loops += 1;
                let k = self.loops;
                let g_pre = self.slot(k, "pre");
                let g_inv = self.slot(k, "inv");
                let g_end = self.slot(k, "end");
                let g_post = self.slot(k, "post");
                let x = format!("x{k}");
                let b = self.apply(&m.args[0], &x, false)?;
                return Ok(format!("{{\nlet mut keys{k}: Vec<usize> = Vec::new();\nlet mut it{k} = {p}.iter_();\nlet ghost it{k}_seq = it{k}.seq();\n{g_pre}while it{k}.has_next_()\ninvariant\n0 <= it{k}.pos() <= it{k}.seq().len(), it{k}.seq() == it{k}_seq, keys{k}@.len() == it{k}.pos(),\n{g_inv}decreases it{k}.seq().len() - it{k}.pos(),\n{{\nlet {x} = it{k}.next_();\nkeys{k}.push(({b}).to_key_());\n{g_end}}}\n{g_post}{p}.sort_by_keys_(&keys{k});\n}}"));
            }
            _ => {}
        }
        let r = self.expr(&m.receiver, None)?;
        let a = self.args(&m.args)?.join(", ");
        Ok(match n {
            "clone" => format!("{r}.vclone()"),
            "expect" | "unwrap_unchecked" => format!("{r}.unwrap()"),
            "into" => {
                let t = match (&self.c.into, exp) {
                    (Some(t), _) => t.clone(),
                    (None, Some(t)) => t.split('<').next().unwrap().to_string(),
                    _ => return Err("UNSUPPORTED into without target".into()),
                };
                if t.contains("::") { format!("{t}({r})") } else { format!("{t}::from({r})") }
            }
            "to_string" if m.args.is_empty() => format!("to_str_(&{r})"),
            "as_str" | "as_slice" => format!("{r}.as_self_()"),
            "try_into" => format!("{r}.try_into_()"),
            "sort" => format!("{r}.sort_()"),
            "join" => format!("{r}.join_({a})"),
            "repeat" => format!("{r}.repeat_({a})"),
            "reverse" if a.is_empty() => format!("{r}.reverse_()"),
            "contains" => format!("{r}.contains_({a})"),
            "last" => format!("{r}.last_()"),
            "binary_search" => format!("{r}.binary_search_({a})"),
            "unwrap_or_default" => format!("{r}.unwrap_or_default_()"),
            "resize" => format!("{r}.resize_({a})"),
            "intersection" | "difference" => format!("{r}.{n}_({a})"),
            "is_empty" => format!("{r}.is_empty_()"),
            _ => format!("{r}.{n}({a})"),
        })
    }

    #[allow(dead_code)]
    fn unused(&self) -> bool {
        Self::is_lit_str(&Expr::Verbatim(Default::default()))
    }
}
