//! vx: mechanical extraction of functions of the code under verification into Verus input.
//!
//! usage: vx SRC_ROOT OUT.rs OUT.map UNIT.vc...
//!
//! Every unit file lists types and functions of SRC_ROOT with their contracts.  The bodies are taken
//! from the sources as they are on disk on this run and translated statement by statement (see emit.rs);
//! nothing of a body is ever written in a unit file.
mod emit;
mod grammar;
mod units;

use std::collections::HashMap;
use std::fmt::Write as _;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: vx SRC_ROOT OUT.rs OUT.map UNIT.vc...");
        std::process::exit(3);
    }
    let root = &args[1];
    match run(root, &args[4..]) {
        Ok((text, map)) => {
            std::fs::write(&args[2], text).unwrap();
            std::fs::write(&args[3], map).unwrap();
        }
        Err(e) => {
            eprintln!("vx: {e}");
            std::process::exit(4);
        }
    }
}

pub struct Sources {
    root: String,
    files: HashMap<String, syn::File>,
}

impl Sources {
    pub fn file(&mut self, name: &str) -> Result<&syn::File, String> {
        if !self.files.contains_key(name) {
            let p = format!("{}/{}", self.root, name);
            let s = std::fs::read_to_string(&p).map_err(|e| format!("SOURCE {p}: {e}"))?;
            let f = syn::parse_file(&s).map_err(|e| format!("SOURCE {p}: {e}"))?;
            self.files.insert(name.to_string(), f);
        }
        Ok(&self.files[name])
    }
}

fn run(root: &str, unit_files: &[String]) -> Result<(String, String), String> {
    let mut src = Sources { root: root.to_string(), files: HashMap::new() };
    let mut items = vec![];
    for u in unit_files {
        // use:UNIT: only the contracts, the proofs are made in another run
        let (u, imported) = match u.strip_prefix("use:") {
            Some(u) => (u, true),
            None => (u.as_str(), false),
        };
        let t = std::fs::read_to_string(u).map_err(|e| format!("UNIT {u}: {e}"))?;
        items.extend(units::parse(u, &t)?.into_iter().map(|i| (i, imported)));
    }
    let mut out = String::new();
    let mut map = String::new();
    let mut grammars: std::collections::HashSet<(String, String)> = items
        .iter()
        .filter_map(|(i, _)| if let units::Item::Grammar { file, name, .. } = i { Some((file.clone(), name.clone())) } else { None })
        .collect();
    for (it, imported) in &items {
        let start = out.lines().count() + 1;
        match it {
            units::Item::Raw { unit, line, text } => {
                if *imported {
                    for l in text.lines() {
                        let w = l.trim_start();
                        let w = w.strip_prefix("pub ").unwrap_or(w);
                        if w.starts_with("proof fn ") || w.starts_with("broadcast proof fn ") {
                            out.push_str("/*@imported*/ #[verifier::external_body] ");
                        }
                        out.push_str(l);
                        out.push('\n');
                    }
                } else {
                    out.push_str(text);
                }
                out.push('\n');
                let end = out.lines().count();
                let _ = writeln!(map, "RAW\t{start}\t{end}\t{unit}:{line}");
            }
            units::Item::Type { file, name, .. } => {
                let f = src.file(file)?;
                let t = emit::emit_type(f, name, it)?;
                out.push_str(&t);
                out.push('\n');
                let end = out.lines().count();
                let _ = writeln!(map, "TYPE\t{start}\t{end}\t{file}::{name}");
            }
            units::Item::SpecType { file, name } => {
                out.push_str(&grammar::emit_spec_type(src.file(file)?, name)?);
                out.push('\n');
                let end = out.lines().count();
                let _ = writeln!(map, "TYPE\t{start}\t{end}\t{file}::{name}");
            }
            units::Item::Grammar { file, name, other, opaque } => {
                let o = match other {
                    Some(o) => Some(src.file(o)?.clone()),
                    None => None,
                };
                let mut todo = vec![name.clone()];
                while let Some(n) = todo.pop() {
                    let start = out.lines().count() + 1;
                    let (t, used) = grammar::emit_grammar(src.file(file)?, o.as_ref(), opaque, &n)?;
                    out.push_str(&t);
                    out.push('\n');
                    let end = out.lines().count();
                    let _ = writeln!(map, "GRAMMAR\t{start}\t{end}\t{file}::{n}");
                    // parser functions that no unit names
                    for u in used {
                        if grammars.insert((file.clone(), u.clone())) {
                            todo.push(u);
                        }
                    }
                }
            }
            units::Item::Fn(c) => {
                let f = src.file(&c.file)?;
                let t = emit::emit_fn(f, c)?;
                if *imported {
                    // the contract without the body
                    let (head, _) = t.text.split_once("/*@cut*/").ok_or("UNSUPPORTED imported function")?;
                    let i = head.find("#[verifier::loop_isolation").ok_or("UNSUPPORTED imported function")?;
                    let close = if head.starts_with("impl") { "}\n" } else { "" };
                    out.push_str(&format!("{}/*@imported*/ #[verifier::external_body]\n{}{{ unimplemented!() }}\n{close}", &head[..i], &head[i..]));
                } else {
                    out.push_str(&t.text);
                }
                out.push('\n');
                let end = out.lines().count();
                let kind = if *imported { "USE" } else { "FN" };
                let _ = writeln!(map, "{kind}\t{start}\t{end}\t{}::{}\tloops={}\tlines={}", c.file, c.name, t.loops, t.src_lines);
            }
        }
    }
    // raw identifiers confuse Verus: x named r#type is called type_
    Ok((out.replace("r#type", "type_"), map))
}
