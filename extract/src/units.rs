//! Parser for unit (.vc) files.
//!
//! ```text
//! @raw                          Verus text copied verbatim (specs, lemmas) until the next @-line at column 0
//! @type FILE NAME [as NEW]      extract a struct / enum definition
//! @spectype FILE NAME           the same type over mathematical values
//! @grammar FILE NAME [FILE2]    translate a nom parser function (FILE2: where `module::name` is looked up)
//! @fn FILE PATH                 extract a function; PATH is `func`, `Type::method`, `Trait for Type::method`
//!   @as NEWNAME                 name of the extracted function
//!   @attr TEXT                  verus attributes
//!   @sig                        requires / ensures / decreases
//!   @ret NAME                   name of the result (default: r)
//!   @start | @end | @return     ghost text at function start / before tail expression / before each return
//!   @loop N pre|inv|top|beg|end|post
//!   @let NAME[#n]               ghost text after the let statement binding NAME
//!   @call NAME[#n]              ghost text after the n-th simple statement containing a call of NAME
//!   @acc N TYPE                 element type hint for the collection built by loop N
//!   @closure N PARAMS -> RET    signature of the N-th kept closure ; following text: its spec (or `auto`)
//!   @into TYPE                  target type of `.into()` in this function
//!   @param NAME TYPE            replacement of a parameter type
//!   @subst A => B               identifier substitution in types (monomorphisation of generics)
//!   @fmt                        format! is the concatenation of its pieces (otherwise: any text)
//!   @generics TEXT              replacement generics
//! ```
use std::collections::HashMap;

pub enum Item {
    Raw { unit: String, line: usize, text: String },
    Type { file: String, name: String, as_name: Option<String>, attrs: String, noclone: bool },
    SpecType { file: String, name: String },
    Grammar { file: String, other: Option<String>, opaque: Vec<String>, name: String },
    Fn(Box<FnContract>),
}

#[derive(Default, Clone)]
pub struct FnContract {
    pub unit: String,
    pub file: String,
    pub name: String,
    pub as_name: Option<String>,
    pub attrs: String,
    pub sig: String,
    pub ret: String,
    pub start: String,
    pub hides: Vec<String>,
    pub end: String,
    pub ret_ghost: String,
    pub loops: HashMap<(usize, String), String>,
    pub lets: HashMap<(String, usize), String>,
    pub calls: HashMap<(String, usize), String>,
    pub accs: HashMap<usize, String>,
    pub closures: HashMap<usize, (String, String)>,
    pub into: Option<String>,
    pub params: HashMap<String, String>,
    pub subst: Vec<(String, String)>,
    pub generics: Option<String>,
    pub hoist: Vec<String>,
    pub fmt: bool,
}

fn name_ord(s: &str) -> (String, usize) {
    match s.split_once('#') {
        Some((a, b)) => (a.to_string(), b.parse().unwrap()),
        None => (s.to_string(), 1),
    }
}

pub fn parse(unit: &str, text: &str) -> Result<Vec<Item>, String> {
    enum Cur {
        None,
        Raw,
        Fn(Box<FnContract>),
    }
    let mut items = vec![];
    let mut cur = Cur::None;
    let mut raw = String::new();
    let mut raw_line = 0;
    // slot currently receiving text inside a function
    let mut slot: String = String::new();
    let unit_name = unit.rsplit('/').next().unwrap().to_string();

    fn flush(items: &mut Vec<Item>, cur: &mut Cur, raw: &mut String, unit: &str, raw_line: usize) {
        match std::mem::replace(cur, Cur::None) {
            Cur::None => {}
            Cur::Raw => items.push(Item::Raw { unit: unit.to_string(), line: raw_line, text: std::mem::take(raw) }),
            Cur::Fn(f) => items.push(Item::Fn(f)),
        }
    }

    for (ln, line) in text.lines().enumerate() {
        let l = line.trim();
        if l.starts_with("//@") || (l.starts_with("@") && l.starts_with("@#")) {
            continue;
        }
        if let Some(rest) = l.strip_prefix('@') {
            let (kw, arg) = match rest.split_once(char::is_whitespace) {
                Some((a, b)) => (a, b.trim()),
                None => (rest, ""),
            };
            match kw {
                "raw" => {
                    flush(&mut items, &mut cur, &mut raw, &unit_name, raw_line);
                    cur = Cur::Raw;
                    raw_line = ln + 1;
                    continue;
                }
                "type" => {
                    flush(&mut items, &mut cur, &mut raw, &unit_name, raw_line);
                    let p: Vec<&str> = arg.split_whitespace().collect();
                    let as_name = p.iter().position(|x| *x == "as").map(|i| p[i + 1].to_string());
                    let noclone = p.contains(&"noclone");
                    items.push(Item::Type { file: p[0].to_string(), name: p[1].to_string(), as_name, attrs: String::new(), noclone });
                    continue;
                }
                "spectype" => {
                    flush(&mut items, &mut cur, &mut raw, &unit_name, raw_line);
                    let p: Vec<&str> = arg.split_whitespace().collect();
                    items.push(Item::SpecType { file: p[0].to_string(), name: p[1].to_string() });
                    continue;
                }
                "grammar" => {
                    flush(&mut items, &mut cur, &mut raw, &unit_name, raw_line);
                    let p: Vec<&str> = arg.split_whitespace().collect();
                    // opaque:NAME: a parser function a unit describes
                    let opaque = p[2..].iter().filter_map(|x| x.strip_prefix("opaque:")).map(|x| x.to_string()).collect();
                    let other = p[2..].iter().find(|x| !x.starts_with("opaque:")).map(|x| x.to_string());
                    items.push(Item::Grammar { file: p[0].to_string(), name: p[1].to_string(), other, opaque });
                    continue;
                }
                "fn" => {
                    flush(&mut items, &mut cur, &mut raw, &unit_name, raw_line);
                    let (file, name) = arg.split_once(char::is_whitespace).ok_or(format!("{unit}:{}: bad @fn", ln + 1))?;
                    cur = Cur::Fn(Box::new(FnContract {
                        unit: unit_name.clone(),
                        file: file.to_string(),
                        name: name.trim().to_string(),
                        ret: "r".to_string(),
                        ..Default::default()
                    }));
                    slot = "sig".to_string();
                    continue;
                }
                _ => {}
            }
            let Cur::Fn(f) = &mut cur else {
                return Err(format!("{unit}:{}: @{kw} outside @fn", ln + 1));
            };
            match kw {
                "fmt" => f.fmt = true,
                "as" => f.as_name = Some(arg.to_string()),
                "attr" => {
                    f.attrs.push_str(arg);
                    f.attrs.push('\n')
                }
                "hide" => f.hides.extend(arg.split_whitespace().map(|x| x.to_string())),
                "ret" => f.ret = arg.to_string(),
                "sig" | "start" | "end" | "return" => slot = kw.to_string(),
                "loop" => slot = format!("loop {arg}"),
                "let" => slot = format!("let {arg}"),
                "call" => slot = format!("call {arg}"),
                "acc" => {
                    let (n, t) = arg.split_once(char::is_whitespace).unwrap();
                    f.accs.insert(n.parse().unwrap(), t.trim().to_string());
                }
                "closure" => {
                    let (n, t) = arg.split_once(char::is_whitespace).unwrap();
                    f.closures.insert(n.parse().unwrap(), (t.trim().to_string(), String::new()));
                    slot = format!("closure {n}");
                }
                "into" => f.into = Some(arg.to_string()),
                "param" => {
                    let (n, t) = arg.split_once(char::is_whitespace).unwrap();
                    f.params.insert(n.to_string(), t.trim().to_string());
                }
                "subst" => {
                    let (a, b) = arg.split_once("=>").unwrap();
                    f.subst.push((a.trim().to_string(), b.trim().to_string()));
                }
                "generics" => f.generics = Some(arg.to_string()),
                "hoist" => f.hoist.push(arg.to_string()),
                _ => return Err(format!("{unit}:{}: unknown @{kw}", ln + 1)),
            }
            continue;
        }
        match &mut cur {
            Cur::None => {
                if !l.is_empty() && !l.starts_with("//") {
                    return Err(format!("{unit}:{}: text outside an item", ln + 1));
                }
            }
            Cur::Raw => {
                raw.push_str(line);
                raw.push('\n');
            }
            Cur::Fn(f) => {
                let add = |s: &mut String| {
                    s.push_str(line);
                    s.push('\n');
                };
                let parts: Vec<&str> = slot.split_whitespace().collect();
                match parts[0] {
                    "sig" => add(&mut f.sig),
                    "start" => add(&mut f.start),
                    "end" => add(&mut f.end),
                    "return" => add(&mut f.ret_ghost),
                    "loop" => add(f.loops.entry((parts[1].parse().unwrap(), parts[2].to_string())).or_default()),
                    "let" => add(f.lets.entry(name_ord(parts[1])).or_default()),
                    "call" => add(f.calls.entry(name_ord(parts[1])).or_default()),
                    "closure" => add(&mut f.closures.get_mut(&parts[1].parse().unwrap()).unwrap().1),
                    _ => unreachable!(),
                }
            }
        }
    }
    flush(&mut items, &mut cur, &mut raw, &unit_name, raw_line);
    Ok(items)
}
