//! Regular expression trees, their meaning (an independent construction) and texts in the documented syntax.
use crate::ctx::Rng;
use crate::model::A;
use dandy::regex::{Regex, RegexChar, RegexTree};
use std::rc::Rc;
use unicode_segmentation::UnicodeSegmentation;

pub const RESERVED: &[char] = &['(', ')', '∅', 'ε', '|', '*', '+', '\\'];
const MISC: &[&str] = &["a", "b", "c", "0", "é", "漢", "e\u{301}", " ", "#", "{", "x", "👨‍👩‍👧"];
const RES: &[&str] = &["(", ")", "∅", "ε", "|", "*", "+", "\\"];

fn ch(r: &mut Rng, al: &[&str]) -> RegexTree {
    RegexTree::Char(match r.below(12) {
        0 => RegexChar::Epsilon,
        1 => RegexChar::Empty,
        _ => RegexChar::Grapheme(Rc::from(if al.is_empty() { if r.chance(1, 4) { *r.pick(RES) } else { *r.pick(MISC) } } else { *r.pick(al) })),
    })
}

pub fn gen_tree(r: &mut Rng, size: usize, al: &[&str], odd: bool) -> RegexTree {
    if size <= 1 {
        return ch(r, al);
    }
    match r.below(7) {
        0 | 1 | 2 | 3 => {
            let k = if odd && r.chance(1, 6) { r.below(2) } else { r.range(2, 3) };
            let v: Vec<RegexTree> = (0..k).map(|_| gen_tree(r, (size - 1) / k.max(1), al, odd)).collect();
            if r.chance(1, 2) {
                RegexTree::Sequence(v)
            } else {
                RegexTree::Alt(v)
            }
        }
        4 | 5 => RegexTree::Repeat(Box::new(gen_tree(r, size - 1, al, odd))),
        _ => ch(r, al),
    }
}
pub fn gen_regex(r: &mut Rng, size: usize, al: &[&str]) -> Regex {
    let s = r.range(1, size);
    Regex { tree: gen_tree(r, s, al, true) }
}

pub fn graphemes(t: &RegexTree, out: &mut Vec<String>) {
    match t {
        RegexTree::Sequence(v) | RegexTree::Alt(v) => v.iter().for_each(|t| graphemes(t, out)),
        RegexTree::Repeat(t) => graphemes(t, out),
        RegexTree::Char(RegexChar::Grapheme(g)) => {
            if !out.iter().any(|x| **x == **g) {
                out.push(g.to_string())
            }
        }
        _ => (),
    }
}

/// the language of a tree as an automaton over `alpha` (which must cover it): textbook construction
pub fn meaning(t: &RegexTree, alpha: &[String]) -> A {
    let mut m = A {
        dfa: false,
        alpha: alpha.to_vec(),
        names: vec!["i".into(), "f".into()],
        iflag: vec![true, false],
        acc: vec![false, true],
        init: 0,
        tr: vec![vec![vec![]; alpha.len()]; 2],
        eps: vec![vec![]; 2],
    };
    fn fresh(m: &mut A) -> usize {
        let n = m.n();
        m.names.push(n.to_string());
        m.iflag.push(false);
        m.acc.push(false);
        m.tr.push(vec![vec![]; m.alpha.len()]);
        m.eps.push(vec![]);
        n
    }
    fn go(m: &mut A, t: &RegexTree, s: usize, e: usize) {
        match t {
            RegexTree::Sequence(v) => {
                let mut cur = s;
                for x in v {
                    let nx = fresh(m);
                    go(m, x, cur, nx);
                    cur = nx;
                }
                m.eps[cur].push(e);
            }
            RegexTree::Alt(v) => {
                for x in v {
                    let (i, j) = (fresh(m), fresh(m));
                    m.eps[s].push(i);
                    m.eps[j].push(e);
                    go(m, x, i, j);
                }
            }
            RegexTree::Repeat(x) => {
                let (i, j) = (fresh(m), fresh(m));
                m.eps[s].push(i);
                m.eps[i].push(j);
                m.eps[i].push(e);
                // body from j back to i
                let k = fresh(m);
                go(m, x, j, k);
                m.eps[k].push(i);
            }
            RegexTree::Char(RegexChar::Epsilon) => m.eps[s].push(e),
            RegexTree::Char(RegexChar::Empty) => (),
            RegexTree::Char(RegexChar::Grapheme(g)) => {
                let a = m.sym(g).unwrap();
                m.tr[s][a].push(e);
            }
        }
    }
    go(&mut m, t, 0, 1);
    m
}

/// a text of the tree in the documented syntax, with random redundant parentheses and `+`; the tree must have no
/// empty groups. prec: 0 alternatives allowed, 1 sequence allowed, 2 atom needed
pub fn text(r: &mut Rng, t: &RegexTree, prec: usize, out: &mut String) -> RegexTree {
    let extra = r.chance(1, 8);
    let need = match t {
        RegexTree::Alt(v) => prec > 0 && v.len() > 1,
        RegexTree::Sequence(v) => prec > 1 && v.len() > 1,
        RegexTree::Repeat(_) => prec > 1,
        _ => false,
    } || extra;
    let p = if need { 0 } else { prec };
    if need {
        out.push('(');
    }
    let res = match t {
        RegexTree::Alt(v) => RegexTree::Alt(
            v.iter()
                .enumerate()
                .map(|(i, x)| {
                    if i > 0 {
                        out.push('|');
                    }
                    text(r, x, if v.len() > 1 { 0.max(p.min(2)).max(0) } else { p }, out)
                })
                .collect(),
        ),
        RegexTree::Sequence(v) => RegexTree::Sequence(v.iter().map(|x| text(r, x, if v.len() > 1 { p.max(1) } else { p }, out)).collect()),
        RegexTree::Repeat(x) => {
            let y = text(r, x, 2, out);
            if r.chance(1, 3) {
                out.push('+');
                RegexTree::Sequence(vec![y.clone(), RegexTree::Repeat(Box::new(y))])
            } else {
                out.push('*');
                RegexTree::Repeat(Box::new(y))
            }
        }
        RegexTree::Char(c) => {
            match c {
                RegexChar::Epsilon => out.push('ε'),
                RegexChar::Empty => out.push('∅'),
                RegexChar::Grapheme(g) => {
                    if RESERVED.contains(&g.chars().next().unwrap()) || r.chance(1, 12) {
                        out.push('\\');
                    }
                    out.push_str(g);
                }
            }
            t.clone()
        }
    };
    if need {
        out.push(')');
    }
    res
}

/// Independent reading of a text by the documented grammar (one grapheme cluster is one character).
pub fn read(input: &str) -> Option<RegexTree> {
    let s = input.trim();
    let (t, rest) = alt(s)?;
    rest.is_empty().then_some(t)
}
fn alt(mut s: &str) -> Option<(RegexTree, &str)> {
    let mut v = vec![];
    loop {
        let (t, r) = seq(s)?;
        v.push(t);
        s = r;
        match s.strip_prefix('|') {
            // a trailing bar is left for the caller to reject
            Some(r) if seq(r).is_some() => s = r,
            _ => break,
        }
    }
    Some((RegexTree::Alt(v), s))
}
fn seq(mut s: &str) -> Option<(RegexTree, &str)> {
    let mut v = vec![];
    while let Some((t, r)) = item(s) {
        v.push(t);
        s = r;
    }
    (!v.is_empty()).then_some((RegexTree::Sequence(v), s))
}
fn item(s: &str) -> Option<(RegexTree, &str)> {
    let (t, s) = atom(s)?;
    if let Some(r) = s.strip_prefix('*') {
        return Some((RegexTree::Repeat(Box::new(t)), r));
    }
    if let Some(r) = s.strip_prefix('+') {
        return Some((RegexTree::Sequence(vec![t.clone(), RegexTree::Repeat(Box::new(t))]), r));
    }
    Some((t, s))
}
fn cluster(s: &str) -> Option<(&str, &str)> {
    let g = s.graphemes(true).next()?;
    Some((g, &s[g.len()..]))
}
fn atom(s: &str) -> Option<(RegexTree, &str)> {
    if let Some(r) = s.strip_prefix('(') {
        let (t, r) = alt(r)?;
        return Some((t, r.strip_prefix(')')?));
    }
    if let Some(r) = s.strip_prefix('∅') {
        return Some((RegexTree::Char(RegexChar::Empty), r));
    }
    if let Some(r) = s.strip_prefix('ε') {
        return Some((RegexTree::Char(RegexChar::Epsilon), r));
    }
    if let Some(r) = s.strip_prefix('\\') {
        let (g, r) = cluster(r)?;
        return Some((RegexTree::Char(RegexChar::Grapheme(Rc::from(g))), r));
    }
    let (g, r) = cluster(s)?;
    if RESERVED.contains(&g.chars().next().unwrap()) {
        return None;
    }
    Some((RegexTree::Char(RegexChar::Grapheme(Rc::from(g))), r))
}
