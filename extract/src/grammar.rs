//! Translation of nom parser functions into parser values.
//!
//! A function `fn f(input: &str) -> IResult<&str, T> { EXPR(input) }` whose EXPR is built from nom's combinators
//! becomes `spec fn g_f() -> P<T'> { EXPR' }`, a text-to-result function: every combinator is replaced by its
//! counterpart in contracts/nom.vc, every other parser function by its own translation, and every closure by the same
//! closure over mathematical values.  T' is T with `&str` read as a sequence of characters and `Vec` as a sequence.
//! Anything else is UNSUPPORTED.
use quote::ToTokens;
use syn::*;

type R<T> = std::result::Result<T, String>;

fn toks(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string()
}

pub fn spec_ty(t: &Type) -> R<String> {
    Ok(match t {
        Type::Reference(r) => spec_ty(&r.elem)?,
        Type::Paren(p) => spec_ty(&p.elem)?,
        Type::Tuple(t) => format!("({})", t.elems.iter().map(spec_ty).collect::<R<Vec<_>>>()?.join(", ")),
        Type::Path(p) => {
            let seg = p.path.segments.last().unwrap();
            match seg.ident.to_string().as_str() {
                "str" | "String" => "Seq<char>".to_string(),
                "bool" | "char" | "usize" => seg.ident.to_string(),
                "Vec" => format!("Seq<{}>", first_arg(seg, 0)?),
                "Option" => format!("Option<{}>", first_arg(seg, 0)?),
                "Box" => format!("Box<{}>", first_arg(seg, 0)?),
                "Rc" | "Arc" => first_arg(seg, 0)?,
                n => format!("S_{n}"),
            }
        }
        _ => return Err(format!("UNSUPPORTED grammar type {}", toks(t))),
    })
}

fn first_arg(seg: &PathSegment, n: usize) -> R<String> {
    if let PathArguments::AngleBracketed(a) = &seg.arguments {
        let ts: Vec<&Type> = a.args.iter().filter_map(|g| if let GenericArgument::Type(t) = g { Some(t) } else { None }).collect();
        if n < ts.len() {
            return spec_ty(ts[n]);
        }
    }
    Err(format!("UNSUPPORTED grammar type {}", toks(seg)))
}

/// the struct or enum with every text and list replaced by its mathematical value
pub fn emit_spec_type(f: &File, name: &str) -> R<String> {
    for i in &f.items {
        match i {
            syn::Item::Struct(s) if s.ident == name => {
                let Fields::Named(n) = &s.fields else { return Err(format!("UNSUPPORTED struct {name}")) };
                let mut o = format!("pub struct S_{name} {{\n");
                for fl in &n.named {
                    o.push_str(&format!("    pub {}: {},\n", fl.ident.as_ref().unwrap(), spec_ty(&fl.ty)?));
                }
                return Ok(o + "}\n");
            }
            syn::Item::Enum(e) if e.ident == name => {
                let mut o = format!("pub enum S_{name} {{\n");
                for v in &e.variants {
                    match &v.fields {
                        Fields::Unit => o.push_str(&format!("    {},\n", v.ident)),
                        Fields::Unnamed(u) => {
                            let ts = u.unnamed.iter().map(|f| spec_ty(&f.ty)).collect::<R<Vec<_>>>()?;
                            o.push_str(&format!("    {}({}),\n", v.ident, ts.join(", ")));
                        }
                        _ => return Err(format!("UNSUPPORTED enum {name}")),
                    }
                }
                return Ok(o + "}\n");
            }
            _ => {}
        }
    }
    Err(format!("LOST type {name}"))
}

fn result_ty(sig: &Signature) -> R<String> {
    let ReturnType::Type(_, t) = &sig.output else { return Err(format!("UNSUPPORTED parser {}", sig.ident)) };
    let Type::Path(p) = &**t else { return Err(format!("UNSUPPORTED parser {}", sig.ident)) };
    let seg = p.path.segments.last().unwrap();
    match seg.ident.to_string().as_str() {
        "IResult" => first_arg(seg, 1),
        "Result" => first_arg(seg, 0),
        _ => Err(format!("UNSUPPORTED result of parser {}", sig.ident)),
    }
}

struct G<'a> {
    f: &'a File,
    other: Option<&'a File>,
    /// parser functions that are not translated: a unit says what they do
    opaque: &'a [String],
    /// the functions that call each other in a circle, and the one through which the circle is entered
    ring: Ring,
    /// the function itself is one of them
    inside: bool,
    /// the functions of the other file are recursive
    kfuel: bool,
    /// parsers named by a `let` of the body
    lets: Vec<(String, Expr)>,
    /// parser functions of the same file that were used
    used: std::cell::RefCell<Vec<String>>,
}

/// a statement without effect
fn idle(s: &Stmt) -> bool {
    fn plain(e: &Expr) -> bool {
        match e {
            Expr::Lit(_) | Expr::Path(_) => true,
            Expr::Tuple(t) => t.elems.iter().all(plain),
            Expr::Paren(p) => plain(&p.expr),
            Expr::Reference(r) => plain(&r.expr),
            Expr::Unary(u) => !matches!(u.op, UnOp::Deref(_)) && plain(&u.expr),
            Expr::Block(b) => b.block.stmts.iter().all(idle),
            Expr::Verbatim(v) => v.is_empty(),
            _ => false,
        }
    }
    match s {
        Stmt::Item(syn::Item::Use(_)) => true,
        Stmt::Expr(e, _) => plain(e),
        Stmt::Local(l) => matches!(&l.pat, Pat::Wild(_)) && l.init.as_ref().is_some_and(|i| i.diverge.is_none() && plain(&i.expr)),
        _ => false,
    }
}

/// a function of the grammar's file
fn local<'a>(f: &'a File, name: &str) -> Option<&'a ItemFn> {
    f.items.iter().find_map(|i| match i {
        syn::Item::Fn(x) if x.sig.ident == name => Some(x),
        _ => None,
    })
}

/// functions of a file that call each other in a circle
#[derive(Clone, Default)]
struct Ring {
    names: Vec<String>,
    head: String,
    /// other functions that get there
    reach: Vec<String>,
}

/// the functions of the file that a function names, unless the name is one of its variables
fn mentions(f: &File, x: &ItemFn) -> Vec<String> {
    use visit::Visit;
    #[derive(Default)]
    struct V {
        vars: Vec<String>,
        paths: Vec<String>,
    }
    impl<'ast> Visit<'ast> for V {
        fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
            self.vars.push(i.ident.to_string());
            visit::visit_pat_ident(self, i);
        }
        fn visit_expr_path(&mut self, p: &'ast ExprPath) {
            if let Some(i) = p.path.get_ident() {
                self.paths.push(i.to_string());
            }
        }
    }
    let mut v = V::default();
    v.visit_item_fn(x);
    let mut r: Vec<String> = vec![];
    for p in v.paths {
        if local(f, &p).is_some() && !v.vars.contains(&p) && !r.contains(&p) {
            r.push(p);
        }
    }
    r
}

fn ring(f: &File) -> R<Ring> {
    let fns: Vec<&ItemFn> = f.items.iter().filter_map(|i| if let syn::Item::Fn(x) = i { Some(x) } else { None }).collect();
    let calls: Vec<(String, Vec<String>)> = fns.iter().map(|x| (x.sig.ident.to_string(), mentions(f, x))).collect();
    let from = |n: &str| {
        let mut seen: Vec<String> = vec![];
        let mut todo = vec![n.to_string()];
        while let Some(n) = todo.pop() {
            for m in calls.iter().filter(|c| c.0 == n).flat_map(|c| c.1.iter()) {
                if !seen.contains(m) {
                    seen.push(m.clone());
                    todo.push(m.clone());
                }
            }
        }
        seen
    };
    let names: Vec<String> = calls.iter().map(|c| c.0.clone()).filter(|n| from(n).contains(n)).collect();
    if names.is_empty() {
        return Ok(Ring::default());
    }
    let heads: Vec<String> = names.iter().filter(|n| calls.iter().any(|c| !names.contains(&c.0) && c.1.contains(n))).cloned().collect();
    let [head] = &heads[..] else { return Err(format!("UNSUPPORTED grammar: recursive functions {names:?} with several entries {heads:?}")) };
    // without its head the circle is broken
    for n in names.iter().filter(|n| *n != head) {
        let mut seen: Vec<String> = vec![];
        let mut todo = vec![n.clone()];
        while let Some(m) = todo.pop() {
            for k in calls.iter().filter(|c| c.0 == m).flat_map(|c| c.1.iter()).filter(|k| *k != head && names.contains(k)) {
                if k == n {
                    return Err("UNSUPPORTED grammar: several circles of recursive functions".into());
                }
                if !seen.contains(k) {
                    seen.push(k.clone());
                    todo.push(k.clone());
                }
            }
        }
    }
    let reach = calls.iter().map(|c| c.0.clone()).filter(|n| !names.contains(n) && from(n).iter().any(|m| names.contains(m))).collect();
    Ok(Ring { head: head.clone(), names, reach })
}

/// the translation of a parser function, and the parser functions of the same file it uses
pub fn emit_grammar(f: &File, other: Option<&File>, opaque: &[String], name: &str) -> R<(String, Vec<String>)> {
    let x = local(f, name).ok_or(format!("LOST function {name}"))?;
    let ins: Vec<_> = x.sig.inputs.iter().collect();
    let [FnArg::Typed(p)] = &ins[..] else { return Err(format!("UNSUPPORTED parser {name}")) };
    let Pat::Ident(inp) = &*p.pat else { return Err(format!("UNSUPPORTED parser {name}")) };
    if spec_ty(&p.ty)? != "Seq<char>" {
        return Err(format!("UNSUPPORTED parser {name}"));
    }
    let t = result_ty(&x.sig)?;
    let Some((Stmt::Expr(e, None), before)) = x.block.stmts.split_last() else { return Err(format!("UNSUPPORTED body of parser {name}")) };
    let mut e = e;
    let mut lets = vec![];
    for st in before {
        if idle(st) {
            continue;
        }
        if let Stmt::Local(Local { pat: Pat::Ident(i), init: Some(LocalInit { expr, diverge: None, .. }), .. }) = st {
            if i.by_ref.is_none() && i.ident != inp.ident && !lets.iter().any(|(n, _): &(String, Expr)| i.ident == n) && local(f, &i.ident.to_string()).is_none() {
                lets.push((i.ident.to_string(), (**expr).clone()));
                continue;
            }
        }
        return Err(format!("UNSUPPORTED body of parser {name}"));
    }
    // .finish().map(|(_, x)| x): the result without the rest of the text
    if let Expr::MethodCall(m) = e {
        if let Expr::MethodCall(fi) = &*m.receiver {
            if m.method == "map" && fi.method == "finish" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let ps: Vec<_> = c.inputs.iter().collect();
                    if let [Pat::Tuple(pt)] = &ps[..] {
                        let el: Vec<_> = pt.elems.iter().collect();
                        if let [Pat::Wild(_), Pat::Ident(i)] = &el[..] {
                            if toks(&c.body) == i.ident.to_string() {
                                e = &fi.receiver;
                            }
                        }
                    }
                }
            }
        }
    }
    let Expr::Call(c) = e else { return Err(format!("UNSUPPORTED body of parser {name}")) };
    if c.args.len() != 1 {
        return Err(format!("UNSUPPORTED body of parser {name}"));
    }
    // what is read is the text, perhaps without the whitespace around it
    let mut trim = "";
    let mut arg = &c.args[0];
    if let Expr::MethodCall(m) = arg {
        trim = match (m.method.to_string().as_str(), m.args.len()) {
            ("trim", 0) => "p_trim",
            ("trim_start", 0) => "p_trim_start",
            ("trim_end", 0) => "p_trim_end",
            _ => return Err(format!("UNSUPPORTED body of parser {name}")),
        };
        arg = &m.receiver;
    }
    if toks(arg) != inp.ident.to_string() {
        return Err(format!("UNSUPPORTED body of parser {name}"));
    }
    let ring_ = ring(f)?;
    let inside = ring_.names.iter().any(|n| n == name);
    let reach = ring_.reach.iter().any(|n| n == name);
    let mut g = G { f, other, opaque, ring: ring_, inside, lets, used: Default::default(), kfuel: false };
    if let Some(o) = other {
        g.kfuel = !ring(o)?.names.is_empty();
    }
    let (b, bt) = g.parser(&c.func)?;
    let b = if trim.is_empty() { b } else { format!("{trim}({b})") };
    if bt != t && bt != "?" {
        return Err(format!("UNSUPPORTED parser {name}: {bt} for {t}"));
    }
    let par = if inside { format!("rec_: P<{}>", result_ty(&local(f, &g.ring.head).unwrap().sig)?) } else if reach || b.contains("(k_)") { "k_: nat".to_string() } else { String::new() };
    let mut o = format!("pub open spec fn g_{name}({par}) -> P<{t}> {{ {b} }}\n");
    if g.ring.head == name {
        // k_ levels of recursion
        o.push_str(&format!("pub open spec fn g_rec(k_: nat) -> P<{t}> decreases k_ {{ if k_ == 0 {{ p_fail() }} else {{ g_{name}(g_rec((k_ - 1) as nat)) }} }}\n"));
    }
    Ok((o, g.used.into_inner()))
}

fn split_pair(t: &str) -> R<Vec<String>> {
    let s = t.strip_prefix('(').and_then(|s| s.strip_suffix(')')).ok_or(format!("UNSUPPORTED tuple {t}"))?;
    let (mut v, mut d, mut cur) = (vec![], 0, String::new());
    for ch in s.chars() {
        match ch {
            '(' | '<' => d += 1,
            ')' | '>' => d -= 1,
            _ => {}
        }
        if ch == ',' && d == 0 {
            v.push(cur.trim().to_string());
            cur.clear();
        } else {
            cur.push(ch);
        }
    }
    if !cur.trim().is_empty() {
        v.push(cur.trim().to_string());
    }
    Ok(v)
}

/// what a name stands for inside a value: a value of a type, or a function
#[derive(Clone)]
enum B {
    Ty(String),
    Fun(Expr),
}
type Env = Vec<(String, B)>;

fn first_known(a: String, b: &str) -> String {
    if a.contains('?') { b.to_string() } else { a }
}

/// the type of the elements of a sequence
fn elem(t: &str) -> String {
    t.strip_prefix("Seq<").and_then(|s| s.strip_suffix('>')).unwrap_or("?").to_string()
}

impl G<'_> {
    /// a parser: its translation and the type of its result
    fn parser(&self, e: &Expr) -> R<(String, String)> {
        let txt = || "Seq<char>".to_string();
        match e {
            Expr::Paren(p) => self.parser(&p.expr),
            Expr::Path(p) => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if let Some(k) = p.path.get_ident().and_then(|i| self.lets.iter().position(|(n, _)| i == n)) {
                    // what was bound before
                    let g = G { f: self.f, other: self.other, opaque: self.opaque, ring: self.ring.clone(), inside: self.inside, kfuel: self.kfuel, lets: self.lets[..k].to_vec(), used: Default::default() };
                    let r = g.parser(&self.lets[k].1)?;
                    self.used.borrow_mut().extend(g.used.into_inner());
                    return Ok(r);
                }
                let here = p.path.segments.len() == 1;
                let file = if here { Some(self.f) } else { self.other };
                if let Some(x) = file.and_then(|f| local(f, &n)) {
                    let t = result_ty(&x.sig)?;
                    if self.opaque.contains(&n) {
                        return Ok((format!("g_{n}()"), t));
                    }
                    if !here {
                        return Ok((format!("g_{n}({})", if self.kfuel { "k_" } else { "" }), t));
                    }
                    self.used.borrow_mut().push(n.clone());
                    let rec = if self.inside { "rec_" } else { "g_rec(k_)" };
                    return Ok((
                        if n == self.ring.head {
                            rec.to_string()
                        } else if self.ring.names.contains(&n) {
                            format!("g_{n}({rec})")
                        } else if self.ring.reach.contains(&n) {
                            format!("g_{n}(k_)")
                        } else {
                            format!("g_{n}()")
                        },
                        t,
                    ));
                }
                match n.as_str() {
                    "line_ending" | "not_line_ending" | "space0" | "space1" | "eof" if here => Ok((format!("p_{n}()"), txt())),
                    _ => Err(format!("UNSUPPORTED parser {}", toks(p))),
                }
            }
            Expr::MethodCall(m) => {
                // nom::Parser
                match (m.method.to_string().as_str(), m.args.len()) {
                    ("and", 1) => {
                        let (a, b) = (self.parser(&m.receiver)?, self.parser(&m.args[0])?);
                        Ok((format!("p_pair({}, {})", a.0, b.0), format!("({}, {})", a.1, b.1)))
                    }
                    ("or", 1) => {
                        let (a, b) = (self.parser(&m.receiver)?, self.parser(&m.args[0])?);
                        Ok((format!("p_alt2({}, {})", a.0, b.0), first_known(a.1, &b.1)))
                    }
                    ("map", 1) => {
                        let (p, t) = self.parser(&m.receiver)?;
                        let (f, ft) = self.func(&m.args[0], &t)?;
                        Ok((format!("p_map({p}, {f})"), ft))
                    }
                    _ => Err(format!("UNSUPPORTED parser {}", toks(e))),
                }
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return Err(format!("UNSUPPORTED parser {}", toks(e))) };
                let n = p.path.segments.last().unwrap().ident.to_string();
                let plain = match p.path.segments.len() {
                    1 => local(self.f, &n).is_none(),
                    2 => p.path.segments[0].ident == "complete",
                    _ => false,
                };
                if !plain {
                    return Err(format!("UNSUPPORTED parser {}", toks(e)));
                }
                let a: Vec<&Expr> = c.args.iter().collect();
                let ps = |es: &[&Expr]| es.iter().map(|x| self.parser(x)).collect::<R<Vec<_>>>();
                let out = |n: &str, v: &[(String, String)], t: String| Ok((format!("p_{n}({})", v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")), t));
                match (n.as_str(), a.len()) {
                    ("delimited", 3) => { let v = ps(&a)?; let t = v[1].1.clone(); out(&n, &v, t) }
                    ("pair", 2) => { let v = ps(&a)?; let t = format!("({}, {})", v[0].1, v[1].1); out(&n, &v, t) }
                    ("preceded", 2) => { let v = ps(&a)?; let t = v[1].1.clone(); out(&n, &v, t) }
                    ("terminated", 2) => { let v = ps(&a)?; let t = v[0].1.clone(); out(&n, &v, t) }
                    ("opt", 1) => { let v = ps(&a)?; let t = format!("Option<{}>", v[0].1); out(&n, &v, t) }
                    ("recognize", 1) => { let v = ps(&a)?; out(&n, &v, txt()) }
                    ("all_consuming", 1) => { let v = ps(&a)?; let t = v[0].1.clone(); out(&n, &v, t) }
                    ("many0" | "many1", 1) => { let v = ps(&a)?; let t = format!("Seq<{}>", v[0].1); out(&n, &v, t) }
                    ("separated_list0" | "separated_list1", 2) => { let v = ps(&a)?; let t = format!("Seq<{}>", v[1].1); out(&n, &v, t) }
                    ("alt" | "tuple", 1) => {
                        let Expr::Tuple(tu) = a[0] else { return Err(format!("UNSUPPORTED parser {}", toks(e))) };
                        let v = ps(&tu.elems.iter().collect::<Vec<_>>())?;
                        let t = if n == "alt" {
                            v.iter().map(|x| x.1.clone()).find(|x| x != "?").unwrap_or("?".into())
                        } else {
                            format!("({})", v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(", "))
                        };
                        out(&format!("{n}{}", v.len()), &v, t)
                    }
                    ("tag", 1) => Ok((format!("p_tag({})", self.val(a[0], &vec![])?.0), txt())),
                    ("value", 2) => {
                        let (p, _) = self.parser(a[1])?;
                        let (v, t) = self.val(a[0], &vec![])?;
                        Ok((format!("p_value({v}, {p})"), t))
                    }
                    ("take_till1" | "take_while1" | "take_till" | "take_while", 1) => Ok((format!("p_{n}({})", self.func(a[0], "char")?.0), txt())),
                    ("char", 1) => Ok((format!("p_char({})", self.val(a[0], &vec![])?.0), "char".to_string())),
                    ("one_of" | "none_of", 1) => {
                        let s = match a[0] {
                            // the characters one by one
                            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => format!("seq![{}]", s.value().chars().map(|c| format!("{c:?}")).collect::<Vec<_>>().join(", ")),
                            _ => return Err(format!("UNSUPPORTED parser {}", toks(e))),
                        };
                        Ok((format!("p_{n}({s})"), "char".to_string()))
                    }
                    ("not", 1) => Ok((format!("p_not({})", ps(&a)?[0].0), "()".to_string())),
                    ("peek", 1) => { let v = ps(&a)?; let t = v[0].1.clone(); out(&n, &v, t) }
                    ("verify", 2) => {
                        let (p, t) = self.parser(a[0])?;
                        Ok((format!("p_verify({p}, {})", self.func(a[1], &t)?.0), t))
                    }
                    ("map", 2) => {
                        let (p, t) = self.parser(a[0])?;
                        let (f, ft) = self.func(a[1], &t)?;
                        Ok((format!("p_map({p}, {f})"), ft))
                    }
                    _ => Err(format!("UNSUPPORTED parser {}", toks(e))),
                }
            }
            _ => Err(format!("UNSUPPORTED parser {}", toks(e))),
        }
    }

    /// a function from values of type t: its translation and the type of its result
    fn func(&self, e: &Expr, t: &str) -> R<(String, String)> {
        if t.contains('?') {
            return Err(format!("UNSUPPORTED function {} of an unknown type", toks(e)));
        }
        let (b, bt) = self.apply(e, "x_", t, &vec![])?;
        Ok((format!("|x_: {t}| {b}"), bt))
    }

    /// the value of a function at a value of type t
    fn apply(&self, e: &Expr, x: &str, t: &str, env: &Env) -> R<(String, String)> {
        let uns = || Err(format!("UNSUPPORTED function {} of {t}", toks(e)));
        match e {
            Expr::Paren(p) => self.apply(&p.expr, x, t, env),
            Expr::Reference(r) => self.apply(&r.expr, x, t, env),
            Expr::Path(p) => match p.path.segments.len() {
                2 => {
                    let (a, b) = (p.path.segments[0].ident.to_string(), p.path.segments[1].ident.to_string());
                    Ok(match (a.as_str(), b.as_str()) {
                        ("Box", "new") => (format!("Box::new({x})"), format!("Box<{t}>")),
                        ("Rc", "from") | ("Rc", "new") | ("String", "from") => (x.to_string(), t.to_string()),
                        // a constructor
                        _ if a.starts_with(char::is_uppercase) && b.starts_with(char::is_uppercase) => (format!("S_{a}::{b}({x})"), format!("S_{a}")),
                        _ => return uns(),
                    })
                }
                1 => {
                    let n = p.path.segments[0].ident.to_string();
                    match env.iter().rev().find(|v| v.0 == n) {
                        Some((_, B::Fun(f))) => return self.apply(f, x, t, &vec![]),
                        Some(_) => return uns(),
                        None => {}
                    }
                    if n == "Some" {
                        return Ok((format!("Some({x})"), format!("Option<{t}>")));
                    }
                    let Some(l) = local(self.f, &n) else { return uns() };
                    let ins: Vec<_> = l.sig.inputs.iter().collect();
                    let [FnArg::Typed(pt)] = &ins[..] else { return uns() };
                    if !l.sig.generics.params.is_empty() || spec_ty(&pt.ty)? != t && !t.contains('?') {
                        return uns();
                    }
                    let (s, env) = self.bind(&pt.pat, x, &spec_ty(&pt.ty)?)?;
                    let (b, bt) = self.block(&l.block, &env)?;
                    let bt = match &l.sig.output {
                        ReturnType::Type(_, t) => first_known(bt, &spec_ty(t)?),
                        _ => bt,
                    };
                    Ok((format!("{{ {s}{b} }}"), bt))
                }
                _ => uns(),
            },
            // a function that makes functions
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return uns() };
                let Some(l) = p.path.get_ident().and_then(|n| local(self.f, &n.to_string())) else { return uns() };
                let mut env: Env = vec![];
                if l.sig.inputs.len() != c.args.len() {
                    return uns();
                }
                for (i, a) in l.sig.inputs.iter().zip(&c.args) {
                    let FnArg::Typed(PatType { pat, .. }) = i else { return uns() };
                    let Pat::Ident(i) = &**pat else { return uns() };
                    match a {
                        Expr::Path(p) if p.path.segments.len() == 2 || local(self.f, &toks(p)).is_some() => env.push((i.ident.to_string(), B::Fun(a.clone()))),
                        _ => return uns(),
                    }
                }
                let Some((Stmt::Expr(b @ Expr::Closure(_), None), before)) = l.block.stmts.split_last() else { return uns() };
                if !before.iter().all(idle) {
                    return uns();
                }
                self.apply(b, x, t, &env)
            }
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let mut pat = &c.inputs[0];
                if let Pat::Type(pt) = pat {
                    if spec_ty(&pt.ty)? != t {
                        return uns();
                    }
                    pat = &pt.pat;
                }
                let (s, more) = self.bind(pat, x, t)?;
                let mut env = env.clone();
                env.extend(more);
                let (b, bt) = self.tail(&c.body, &env)?;
                Ok((if s.is_empty() { b } else { format!("{{ {s}{b} }}") }, bt))
            }
            _ => uns(),
        }
    }

    /// the names a pattern gives to the parts of a value
    fn bind(&self, pat: &Pat, x: &str, t: &str) -> R<(String, Env)> {
        let (mut s, mut env) = (String::new(), vec![]);
        match pat {
            Pat::Wild(_) => {}
            Pat::Paren(p) => return self.bind(&p.pat, x, t),
            Pat::Reference(p) => return self.bind(&p.pat, x, t),
            Pat::Ident(i) if i.subpat.is_none() => {
                if x != i.ident.to_string() {
                    s = format!("let {} = {x}; ", i.ident);
                }
                env.push((i.ident.to_string(), B::Ty(t.to_string())));
            }
            Pat::Tuple(tu) => {
                let ts = split_pair(t)?;
                if ts.len() != tu.elems.len() {
                    return Err(format!("UNSUPPORTED pattern {}", toks(pat)));
                }
                for (k, el) in tu.elems.iter().enumerate() {
                    let (s1, e1) = self.bind(el, &format!("{x}.{k}"), &ts[k])?;
                    s.push_str(&s1);
                    env.extend(e1);
                }
            }
            _ => return Err(format!("UNSUPPORTED pattern {}", toks(pat))),
        }
        Ok((s, env))
    }

    /// when a value of type t matches, and the names this gives to its parts
    fn cond(&self, pat: &Pat, x: &str, t: &str) -> R<(String, String, Env)> {
        let uns = || Err(format!("UNSUPPORTED pattern {}", toks(pat)));
        Ok(match pat {
            Pat::Paren(p) => return self.cond(&p.pat, x, t),
            Pat::Reference(p) => return self.cond(&p.pat, x, t),
            Pat::Lit(l) => match &l.lit {
                Lit::Char(_) | Lit::Bool(_) | Lit::Int(_) => (format!("{x} == {}", toks(l)), String::new(), vec![]),
                _ => return uns(),
            },
            Pat::Or(o) => {
                let mut v = vec![];
                for p in &o.cases {
                    let (c, s, _) = self.cond(p, x, t)?;
                    if !s.is_empty() {
                        return uns();
                    }
                    v.push(format!("({c})"));
                }
                (format!("({})", v.join(" || ")), String::new(), vec![])
            }
            Pat::Ident(i) if i.ident == "None" => (format!("{x} is None"), String::new(), vec![]),
            Pat::Ident(_) | Pat::Wild(_) => {
                let (s, e) = self.bind(pat, x, t)?;
                ("true".to_string(), s, e)
            }
            Pat::Path(p) => (format!("{x} is {}", p.path.segments.last().unwrap().ident), String::new(), vec![]),
            Pat::TupleStruct(p) if p.elems.len() == 1 => {
                let v = p.path.segments.last().unwrap().ident.to_string();
                let inner = t.strip_prefix("Option<").and_then(|s| s.strip_suffix('>')).unwrap_or("?");
                let (c, s, e) = self.cond(&p.elems[0], &format!("{x}->{v}_0"), inner)?;
                (if c == "true" { format!("{x} is {v}") } else { format!("{x} is {v} && {c}") }, s, e)
            }
            _ => return uns(),
        })
    }

    fn choose(&self, e: &Expr, env: &Env, arms: &[(&Pat, Option<&Expr>, &Expr)]) -> R<(String, String)> {
        let (v, t) = self.val(e, env)?;
        let (mut o, mut ty, mut close) = (format!("{{ let m_ = {v}; "), "?".to_string(), 1);
        for (k, (p, guard, body)) in arms.iter().enumerate() {
            let (c, s, more) = self.cond(p, "m_", &t)?;
            let mut env = env.clone();
            env.extend(more);
            let (b, bt) = self.tail(body, &env)?;
            ty = first_known(ty, &bt);
            let c = match guard {
                Some(g) => format!("{c} && {{ {s}{} }}", self.val(g, &env)?.0),
                None => c,
            };
            if k + 1 == arms.len() && guard.is_none() {
                // the patterns cover every value
                o.push_str(&format!("{{ {s}{b} }}"));
            } else {
                o.push_str(&format!("if {c} {{ {s}{b} }} else {{ "));
                close += 1;
                if k + 1 == arms.len() {
                    o.push_str("arbitrary()");
                }
            }
        }
        Ok((o + &" }".repeat(close), ty))
    }

    /// the value of a block
    fn block(&self, b: &Block, env: &Env) -> R<(String, String)> {
        let uns = || Err(format!("UNSUPPORTED value {}", toks(b)));
        let Some((Stmt::Expr(e, None), before)) = b.stmts.split_last() else { return uns() };
        let (mut s, mut env) = (String::new(), env.clone());
        for st in before {
            if idle(st) {
                continue;
            }
            let Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: None, .. }), .. }) = st else { return uns() };
            let (v, t) = self.val(expr, &env)?;
            let (s1, e1) = self.bind(pat, &v, &t)?;
            s.push_str(&s1);
            env.extend(e1);
        }
        let (v, t) = self.tail(e, &env)?;
        Ok((if s.is_empty() { v } else { format!("{{ {s}{v} }}") }, t))
    }

    /// the value of an expression after which its variables are not used again
    fn tail(&self, e: &Expr, env: &Env) -> R<(String, String)> {
        match e {
            Expr::Paren(p) => self.tail(&p.expr, env),
            Expr::Unsafe(u) => self.block(&u.block, env),
            Expr::Block(b) => self.block(&b.block, env),
            Expr::If(i) => {
                let Some((_, el)) = &i.else_branch else { return Err(format!("UNSUPPORTED value {}", toks(e))) };
                if let Expr::Let(l) = &*i.cond {
                    let th = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
                    let wild: Pat = parse_quote!(_);
                    return self.choose(&l.expr, env, &[(&l.pat, None, &th), (&wild, None, el)]);
                }
                let (c, _) = self.val(&i.cond, env)?;
                let (a, at) = self.block(&i.then_branch, env)?;
                let (b, bt) = self.tail(el, env)?;
                Ok((format!("(if {c} {{ {a} }} else {{ {b} }})"), first_known(at, &bt)))
            }
            Expr::Match(m) => {
                let arms: Vec<(&Pat, Option<&Expr>, &Expr)> = m.arms.iter().map(|a| (&a.pat, a.guard.as_ref().map(|g| &*g.1), &*a.body)).collect();
                self.choose(&m.expr, env, &arms)
            }
            Expr::MethodCall(m) => {
                let at = |r: &Expr, i: &str| {
                    let (v, t) = self.val(r, env)?;
                    Ok((if i == "0" { format!("{v}[0]") } else { format!("{v}.last()") }, elem(&t)))
                };
                let var = |r: &Expr| matches!(r, Expr::Path(_));
                match (m.method.to_string().as_str(), m.args.len()) {
                    // an element taken out of a vector that is dropped then
                    ("remove" | "swap_remove", 1) if toks(&m.args[0]) == "0" && var(&m.receiver) => return at(&m.receiver, "0"),
                    ("unwrap", 0) => {
                        if let Expr::MethodCall(i) = &*m.receiver {
                            if i.method == "pop" && var(&i.receiver) {
                                return at(&i.receiver, "last");
                            }
                            if let Expr::MethodCall(j) = &*i.receiver {
                                if i.method == "next" && j.method == "into_iter" && var(&j.receiver) {
                                    return at(&j.receiver, "0");
                                }
                            }
                        }
                    }
                    _ => {}
                }
                self.val(e, env)
            }
            _ => self.val(e, env),
        }
    }

    fn text_of(e: &Expr) -> Option<String> {
        match e {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(format!("{}@", toks(s))),
            Expr::Reference(r) => Self::text_of(&r.expr),
            _ => None,
        }
    }

    /// the characters of an array
    fn array_of(&self, mut r: &Expr, env: &Env) -> R<Option<String>> {
        loop {
            r = match r {
                Expr::Paren(p) => &p.expr,
                Expr::Reference(q) => &q.expr,
                _ => break,
            };
        }
        let Expr::Array(ar) = r else { return Ok(None) };
        Ok(Some(format!("seq![{}]", ar.elems.iter().map(|y| Ok(self.val(y, env)?.0)).collect::<R<Vec<_>>>()?.join(", "))))
    }

    /// a value and its type
    fn val(&self, e: &Expr, env: &Env) -> R<(String, String)> {
        let uns = || Err(format!("UNSUPPORTED value {}", toks(e)));
        let boo = |s: String| Ok((s, "bool".to_string()));
        let unk = "?".to_string();
        match e {
            Expr::Paren(p) => {
                let (v, t) = self.val(&p.expr, env)?;
                Ok((format!("({v})"), t))
            }
            Expr::Reference(r) if r.mutability.is_none() => self.val(&r.expr, env),
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Ok((format!("{}@", toks(s)), "Seq<char>".into())),
            Expr::Lit(ExprLit { lit: Lit::Char(_), .. }) => Ok((toks(e), "char".into())),
            Expr::Lit(ExprLit { lit: Lit::Bool(_), .. }) => boo(toks(e)),
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => Ok((i.base10_digits().to_string(), unk)),
            Expr::Block(b) => self.block(&b.block, env),
            Expr::If(_) | Expr::Match(_) => self.tail(e, env),
            Expr::Path(p) => match p.path.segments.len() {
                1 => {
                    let n = toks(p);
                    let t = match env.iter().rev().find(|v| v.0 == n) {
                        Some((_, B::Ty(t))) => t.clone(),
                        Some(_) => return uns(),
                        None => unk,
                    };
                    Ok((n, t))
                }
                2 => Ok((format!("S_{}::{}", p.path.segments[0].ident, p.path.segments[1].ident), format!("S_{}", p.path.segments[0].ident))),
                _ => uns(),
            },
            Expr::Tuple(t) => {
                let v = t.elems.iter().map(|x| self.val(x, env)).collect::<R<Vec<_>>>()?;
                let j = |f: fn(&(String, String)) -> &String| format!("({})", v.iter().map(f).cloned().collect::<Vec<_>>().join(", "));
                Ok((j(|x| &x.0), j(|x| &x.1)))
            }
            Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => boo(format!("!({})", self.val(expr, env)?.0)),
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.val(expr, env),
            Expr::Binary(b) => {
                let op = match b.op {
                    BinOp::And(_) => "&&",
                    BinOp::Or(_) => "||",
                    BinOp::Eq(_) => "==",
                    BinOp::Ne(_) => "!=",
                    BinOp::Lt(_) => "<",
                    BinOp::Le(_) => "<=",
                    BinOp::Gt(_) => ">",
                    BinOp::Ge(_) => ">=",
                    _ => return uns(),
                };
                boo(format!("(({}) {op} ({}))", self.val(&b.left, env)?.0, self.val(&b.right, env)?.0))
            }
            Expr::Macro(m) if m.mac.path.is_ident("matches") => {
                let parse = |i: parse::ParseStream| {
                    let x: Expr = i.parse()?;
                    let _: Token![,] = i.parse()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let _: Option<Token![,]> = i.parse()?;
                    Ok((x, p))
                };
                let Ok((x, p)) = parse::Parser::parse2(parse, m.mac.tokens.clone()) else { return uns() };
                let (v, t) = self.val(&x, env)?;
                let (c, _, _) = self.cond(&p, "m_", &t)?;
                boo(format!("({{ let m_ = {v}; {c} }})"))
            }
            Expr::Macro(m) if m.mac.path.is_ident("vec") => {
                let Ok(es) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) else { return uns() };
                let v = es.iter().map(|x| self.val(x, env)).collect::<R<Vec<_>>>()?;
                let t = v.iter().fold(unk, |t, x| first_known(t, &x.1));
                Ok((format!("seq![{}]", v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")), format!("Seq<{t}>")))
            }
            // never reached
            Expr::Macro(m) if m.mac.path.is_ident("unreachable") || m.mac.path.is_ident("panic") => Ok(("arbitrary()".into(), unk)),
            Expr::Unsafe(u) => self.block(&u.block, env),
            Expr::Struct(s) if s.rest.is_none() => {
                let mut fs = vec![];
                for fv in &s.fields {
                    let Member::Named(n) = &fv.member else { return uns() };
                    fs.push(format!("{n}: {}", self.val(&fv.expr, env)?.0));
                }
                let t = format!("S_{}", s.path.segments.last().unwrap().ident);
                Ok((format!("{t} {{ {} }}", fs.join(", ")), t))
            }
            Expr::Call(c) => {
                if toks(&c.func).ends_with("unreachable_unchecked") && c.args.is_empty() {
                    return Ok(("arbitrary()".into(), unk));
                }
                if c.args.len() != 1 {
                    return uns();
                }
                let (v, t) = self.tail(&c.args[0], env)?;
                self.apply(&c.func, &v, &t, env)
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let recv = || self.val(&m.receiver, env);
                match (n.as_str(), m.args.len()) {
                    ("is_some", 0) => boo(format!("({} is Some)", recv()?.0)),
                    ("is_none", 0) => boo(format!("({} is None)", recv()?.0)),
                    ("is_empty", 0) => boo(format!("({}.len() == 0)", recv()?.0)),
                    ("len", 0) => {
                        let (v, t) = recv()?;
                        if t.starts_with("Seq<") && t != "Seq<char>" { Ok((format!("{v}.len()"), unk)) } else { uns() }
                    }
                    ("clone" | "to_owned" | "to_string", 0) => recv(),
                    ("is_whitespace", 0) => boo(format!("char_ws({})", recv()?.0)),
                    // the first character, if there is one
                    ("unwrap_or_default", 0) | ("is_some_and", 1) => {
                        let Expr::MethodCall(i) = &*m.receiver else { return uns() };
                        let Expr::MethodCall(j) = &*i.receiver else { return uns() };
                        if i.method != "next" || j.method != "chars" || !j.args.is_empty() {
                            return uns();
                        }
                        let v = self.val(&j.receiver, env)?.0;
                        if m.args.is_empty() {
                            Ok((format!("first_or_nul({v})"), "char".into()))
                        } else {
                            boo(format!("({v}.len() > 0 && {})", self.apply(&m.args[0], &format!("{v}[0]"), "char", env)?.0))
                        }
                    }
                    ("starts_with", 1) => {
                        let v = recv()?.0;
                        let c = match &m.args[0] {
                            Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) => format!("{v}[0] == {}", toks(c)),
                            a => match self.array_of(a, env)? {
                                Some(s) => format!("{s}.contains({v}[0])"),
                                None => self.apply(a, &format!("{v}[0]"), "char", env)?.0,
                            },
                        };
                        boo(format!("({v}.len() > 0 && {c})"))
                    }
                    ("contains", 1) => {
                        let x = self.val(&m.args[0], env)?.0;
                        let mut r = &*m.receiver;
                        while let Expr::Paren(p) = r {
                            r = &p.expr;
                        }
                        if let Expr::Reference(q) = r {
                            r = &q.expr;
                        }
                        if let Some(t) = Self::text_of(r) {
                            // a text contains a character
                            boo(format!("{t}.contains({x})"))
                        } else if let Some(s) = self.array_of(r, env)? {
                            boo(format!("{s}.contains({x})"))
                        } else {
                            uns()
                        }
                    }
                    _ => uns(),
                }
            }
            _ => uns(),
        }
    }
}
