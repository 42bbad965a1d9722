//! Executable contracts for enumeration, text formats, drawing, browser handles and the command line (C12-C19).
use crate::ctx::{Ctx, Rng};
use crate::gen::*;
use crate::model::*;
use crate::props_a::{ck, rich_dfa, rich_nfa, R};
use crate::regexgen::*;
use dandy::dfa::{Dfa, DfaParseError};
use dandy::nfa::{Nfa, NfaParseError};
use dandy::regex::{Regex, RegexTree};
use std::collections::{BTreeMap, BTreeSet, HashMap};

// ---------------------------------------------------------------- C12
/// first `n` words in order, and whether that is the whole language
pub fn shortlex(m: &A, n: usize, maxlen: usize) -> (Vec<Vec<usize>>, bool) {
    let d = m.det();
    let s = d.n();
    let k = d.alpha.len();
    // states that can still reach acceptance
    let mut can: Vec<Vec<bool>> = vec![d.acc.clone()]; // can[l][q]: some word of length exactly l is accepted from q
    let mut out = vec![];
    let mut gap = 0;
    for len in 0.. {
        while can.len() <= len {
            let last = can.last().unwrap().clone();
            can.push((0..s).map(|q| (0..k).any(|a| last[d.tr[q][a][0]])).collect());
        }
        if can[len][0] {
            gap = 0;
            // depth first in alphabet order
            let mut st: Vec<(usize, Vec<usize>)> = vec![(0, vec![])];
            while let Some((q, w)) = st.pop() {
                if w.len() == len {
                    out.push(w);
                    if out.len() >= n {
                        return (out, false);
                    }
                    continue;
                }
                for a in (0..k).rev() {
                    let t = d.tr[q][a][0];
                    if can[len - w.len() - 1][t] {
                        let mut w2 = w.clone();
                        w2.push(a);
                        st.push((t, w2));
                    }
                }
            }
        } else {
            gap += 1;
            if gap > s {
                return (out, true); // no word of s+1 consecutive lengths: none longer exists
            }
        }
        if len > maxlen {
            return (out, false);
        }
    }
    unreachable!()
}
fn words_ok(n: &Nfa, count: usize) -> R {
    let m = snap_n(n);
    let (want, whole) = shortlex(&m, count, 60);
    let ask = if whole { want.len() + 3 } else { want.len() };
    let mut it = n.word_component_indices();
    let mut it2 = n.word_components();
    let mut it3 = n.words();
    for i in 0..ask {
        let got = it.next();
        ck!(got.as_ref() == want.get(i), "word number {i} is {:?} instead of {:?} (indices; language {})", got, want.get(i), if whole { "finite" } else { "longer" });
        let w2: Option<Vec<String>> = it2.next().map(|w| w.iter().map(|s| s.to_string()).collect());
        let e2: Option<Vec<String>> = want.get(i).map(|w| w.iter().map(|&a| m.alpha[a].clone()).collect());
        ck!(w2 == e2, "word_components: word number {i} is {:?} instead of {:?}", w2, e2);
        let w3 = it3.next();
        ck!(w3 == e2.map(|w| w.concat()), "words: word number {i} is {:?}", w3);
    }
    Ok(())
}
/// sparse languages: rings with coprime lengths, words far apart
fn sparse(r: &mut Rng) -> A {
    let al = { let k = r.range(1, 2); alphabet(r, k) };
    let n = r.range(3, 8);
    let mut m = nfa_over(r, n, al, false);
    for q in 0..n {
        m.acc[q] = false;
        for a in 0..m.alpha.len() {
            m.tr[q][a] = vec![];
        }
    }
    let split = r.range(1, n - 1);
    for q in 0..n {
        let a = r.below(m.alpha.len());
        let t = if q + 1 == split { if r.chance(1, 2) { 0 } else { split } } else if q + 1 == n { if r.chance(1, 2) { split } else { 0 } } else { q + 1 };
        m.tr[q][a] = vec![t];
        if r.chance(1, 6) {
            let t = r.below(n);
            m.tr[q][a].push(t);
        }
    }
    let f = r.below(n);
    m.acc[f] = true;
    if r.chance(1, 4) {
        let f = r.below(n);
        m.acc[f] = true;
    }
    m.init = if r.chance(2, 3) { 0 } else { r.below(n) };
    for q in 0..n {
        m.iflag[q] = q == m.init;
    }
    m
}
pub fn c12(c: &mut Ctx) {
    for m in all_nfas(2, 1, false).into_iter().chain(all_nfas(2, 2, false)) {
        c.case(true, m.show(), || words_ok(&m.build_n(), 20));
    }
    c.phase("all NFAs with 2 states and 1 or 2 symbols");
    let mut r = c.rng("random");
    for i in 0..c.n(2500) {
        if !c.time_left() {
            break;
        }
        let m = match i % 4 {
            0 => sparse(&mut r),
            1 => {
                // acyclic: finite languages
                let mut m = nfa(&mut r, 6, 3, false);
                for q in 0..m.n() {
                    for a in 0..m.alpha.len() {
                        m.tr[q][a].retain(|&t| t > q);
                    }
                }
                m.init = 0;
                for q in 0..m.n() {
                    m.iflag[q] = q == 0;
                }
                m
            }
            _ => nfa(&mut r, 6, 3, false),
        };
        let n = r.range(5, 60);
        c.case(true, m.show(), || words_ok(&m.build_n(), n));
    }
    c.phase("random NFAs: sparse, finite and dense languages");
    for _ in 0..c.n(200) {
        let mut n = rich_nfa(&mut r);
        n.remove_epsilon_moves();
        let m = snap_n(&n);
        if m.wf().is_err() || m.n() > 14 || m.eps.iter().any(|e| !e.is_empty()) {
            continue;
        }
        c.case(true, m.show(), || words_ok(&n, 25));
    }
    c.phase("NFAs built by library operations");
}

// ---------------------------------------------------------------- C13
fn writable(s: &str) -> bool {
    !s.is_empty() && !s.chars().any(|c| c.is_whitespace() || "#{}".contains(c)) && !["ε", "eps", "→", "->", "*"].contains(&s)
}
fn norm(m: &A) -> A {
    let mut o = m.clone();
    for q in 0..o.n() {
        for v in o.tr[q].iter_mut() {
            v.sort();
            v.dedup();
        }
        o.eps[q].sort();
        o.eps[q].dedup();
    }
    o
}
fn table_d(d: &Dfa) -> R {
    let m = snap_d(d);
    for t in [d.to_table(), d.ascii_table()] {
        let p = dandy::parser::dfa(&t).map_err(|e| format!("the printed table does not parse: {e:?}\n{t}"))?;
        let d2: Dfa = p.try_into().map_err(|e: DfaParseError| format!("the printed table is not valid: {e}\n{t}"))?;
        let s = snap_d(&d2);
        ck!(s == m, "printing and parsing gives another automaton\n{t}\n{}", s.show());
    }
    Ok(())
}
fn table_n(d: &Nfa) -> R {
    let m = snap_n(d);
    for t in [d.to_table(), d.ascii_table()] {
        let p = dandy::parser::nfa(&t).map_err(|e| format!("the printed table does not parse: {e:?}\n{t}"))?;
        let d2: Nfa = p.try_into().map_err(|e: NfaParseError| format!("the printed table is not valid: {e}\n{t}"))?;
        let s = snap_n(&d2);
        ck!(norm(&s) == norm(&m), "printing and parsing gives another automaton\n{t}\n{}", s.show());
    }
    Ok(())
}
pub fn c13(c: &mut Ctx) {
    for m in all_dfas(2, 2) {
        c.case(true, m.show(), || table_d(&m.build_d()));
    }
    for m in all_nfas(2, 1, true).into_iter().chain(all_nfas(2, 0, true)).chain(all_nfas(3, 0, true)) {
        c.case(true, m.show(), || table_n(&m.build_n()));
    }
    c.phase("all DFAs with 2 states and 2 symbols, all NFAs with 2 states, 1 symbol and epsilon");
    let mut r = c.rng("random");
    for i in 0..c.n(3000) {
        if !c.time_left() {
            break;
        }
        let big = i % 60 == 0;
        let m = if i % 2 == 0 { dfa(&mut r, if big { 120 } else { 7 }, if big { 20 } else { 5 }) } else { nfa(&mut r, if big { 60 } else { 6 }, if big { 20 } else { 4 }, i % 3 != 0) };
        if m.dfa && m.alpha.is_empty() {
            continue;
        }
        c.case(true, m.show(), || if m.dfa { table_d(&m.build_d()) } else { table_n(&m.build_n()) });
    }
    c.phase("random automata: wide and multi-byte names and symbols, long rows");
    for i in 0..c.n(800) {
        let (m, d, n) = if i % 2 == 0 {
            let d = rich_dfa(&mut r);
            (snap_d(&d), Some(d), None)
        } else {
            let n = rich_nfa(&mut r);
            (snap_n(&n), None, Some(n))
        };
        if m.wf().is_err() || (m.dfa && m.alpha.is_empty()) || !m.alpha.iter().chain(&m.names).all(|s| writable(s)) {
            continue;
        }
        c.case(true, m.show(), || match (&d, &n) {
            (Some(d), _) => table_d(d),
            (_, Some(n)) => table_n(n),
            _ => Ok(()),
        });
    }
    c.phase("automata built by library operations");
}

// ---------------------------------------------------------------- C14
struct Row {
    name: String,
    init: bool,
    acc: bool,
    tr: Vec<Vec<String>>,
}
struct Tab {
    dfa: bool,
    head: Vec<Option<String>>, // None is epsilon
    rows: Vec<Row>,
}
fn gen_tab(r: &mut Rng, dfa_kind: bool) -> Tab {
    let n = r.range(1, 5);
    let k = r.range(1, 4);
    let al = alphabet(r, k);
    let m = if dfa_kind { dfa_over(r, n, al) } else { nfa_over(r, n, al, true) };
    let mut head: Vec<Option<String>> = m.alpha.iter().cloned().map(Some).collect();
    let mut at = usize::MAX;
    if !dfa_kind && r.chance(2, 3) {
        at = r.below(head.len() + 1);
        head.insert(at, None);
    }
    let mut rows: Vec<Row> = (0..n)
        .map(|q| {
            let mut tr: Vec<Vec<String>> = m.tr[q].iter().map(|v| v.iter().map(|&t| m.names[t].clone()).collect()).collect();
            if at != usize::MAX {
                tr.insert(at, m.eps[q].iter().map(|&t| m.names[t].clone()).collect());
            }
            Row { name: m.names[q].clone(), init: m.iflag[q], acc: m.acc[q], tr }
        })
        .collect();
    let defects = [0, 0, 1, 1, 2, 3][r.below(6)];
    for _ in 0..defects {
        let q = r.below(rows.len());
        match r.below(8) {
            0 => {
                let x = r.pick(&head).clone();
                let i = r.below(head.len() + 1);
                head.insert(i, x);
                for row in rows.iter_mut() {
                    if r.chance(9, 10) {
                        let i = i.min(row.tr.len());
                        let e = r.pick(&row.tr).clone();
                        row.tr.insert(i, e);
                    }
                }
            }
            1 => {
                let nm = r.pick(&rows).name.clone();
                rows[q].name = nm;
            }
            2 => rows[q].init = !rows[q].init,
            3 => rows.iter_mut().for_each(|x| x.init = false),
            4 => {
                if rows[q].tr.len() > 1 {
                    rows[q].tr.pop();
                }
            }
            5 => {
                let e = r.pick(&rows[q].tr).clone();
                rows[q].tr.push(e);
            }
            6 => {
                let a = r.below(rows[q].tr.len());
                if dfa_kind {
                    rows[q].tr[a] = vec!["nowhere".into()];
                } else {
                    rows[q].tr[a].push("nowhere".into());
                }
            }
            _ => {
                let e = rows[q].tr.clone();
                let (nm, ini) = (rows[q].name.clone(), rows[q].init);
                let row = Row { name: if r.chance(1, 2) { nm } else { "extra".into() }, init: ini, acc: r.chance(1, 2), tr: e };
                rows.push(row);
            }
        }
    }
    Tab { dfa: dfa_kind, head, rows }
}
fn tab_text(r: &mut Rng, t: &Tab) -> String {
    let nl = if r.chance(1, 8) { "\r\n" } else { "\n" };
    let fancy = r.chance(1, 2);
    let mut s = String::new();
    let sp = |r: &mut Rng| if fancy { (*r.pick(&[" ", "  ", "\t", "   "])).to_string() } else { " ".to_string() };
    let blank = |r: &mut Rng, s: &mut String| {
        if fancy && r.chance(1, 5) {
            s.push_str(*r.pick(&["", "   ", "# comment -> * {", "  # x"]));
            s.push_str(nl);
        }
    };
    blank(r, &mut s);
    let h: Vec<String> = t.head.iter().map(|x| x.clone().unwrap_or_else(|| if r.chance(1, 2) { "ε".into() } else { "eps".into() })).collect();
    if fancy && r.chance(1, 2) {
        s.push_str("   ");
    }
    for (i, x) in h.iter().enumerate() {
        if i > 0 {
            s.push_str(&sp(r));
        }
        s.push_str(x);
    }
    if fancy && r.chance(1, 4) {
        s.push_str("  # head");
    }
    s.push_str(nl);
    blank(r, &mut s);
    for row in &t.rows {
        if fancy && r.chance(1, 2) {
            s.push_str("  ");
        }
        if row.init {
            s.push_str(if r.chance(1, 2) { "->" } else { "→" });
            s.push_str(&sp(r));
        }
        if row.acc {
            s.push('*');
            s.push_str(&sp(r));
        }
        s.push_str(&row.name);
        for x in &row.tr {
            s.push_str(&sp(r));
            if t.dfa {
                s.push_str(&x[0]);
            } else {
                s.push('{');
                if fancy && r.chance(1, 4) {
                    s.push(' ');
                }
                s.push_str(&x.join(&sp(r)));
                if fancy && r.chance(1, 4) {
                    s.push(' ');
                }
                s.push('}');
            }
        }
        if fancy && r.chance(1, 5) {
            s.push_str(" # c");
        }
        s.push_str(nl);
        blank(r, &mut s);
    }
    s
}
fn dup<T: PartialEq>(v: &[T], x: &T) -> bool {
    v.iter().filter(|y| *y == x).count() > 1
}
fn expected(t: &Tab) -> Option<A> {
    let names: Vec<&String> = t.rows.iter().map(|r| &r.name).collect();
    if t.head.iter().any(|h| dup(&t.head, h)) || names.iter().any(|n| dup(&names, n)) || t.rows.iter().filter(|r| r.init).count() != 1 {
        return None;
    }
    let idx: HashMap<&String, usize> = names.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    let mut m = A {
        dfa: t.dfa,
        alpha: t.head.iter().flatten().cloned().collect(),
        names: t.rows.iter().map(|r| r.name.clone()).collect(),
        iflag: t.rows.iter().map(|r| r.init).collect(),
        acc: t.rows.iter().map(|r| r.acc).collect(),
        init: t.rows.iter().position(|r| r.init).unwrap(),
        tr: vec![],
        eps: vec![],
    };
    for row in &t.rows {
        if row.tr.len() != t.head.len() {
            return None;
        }
        let mut tr = vec![];
        let mut ep = vec![];
        for (h, x) in t.head.iter().zip(&row.tr) {
            let mut v = vec![];
            for n in x {
                v.push(*idx.get(n)?);
            }
            if h.is_some() {
                tr.push(v)
            } else {
                ep = v
            }
        }
        m.tr.push(tr);
        m.eps.push(ep);
    }
    Some(m)
}
#[derive(Debug)]
enum Defect {
    Count(String, usize, usize),
    Target(String, String),
    NoInit,
    ManyInit,
    Symbol(String),
    State(String),
}
fn really(t: &Tab, e: &Defect) -> bool {
    let names: Vec<&String> = t.rows.iter().map(|r| &r.name).collect();
    let inits = t.rows.iter().filter(|r| r.init).count();
    match e {
        Defect::Count(n, has, exp) => t.rows.iter().any(|r| &r.name == n && r.tr.len() == *has) && *exp == t.head.len() && has != exp,
        Defect::Target(n, x) => t.rows.iter().any(|r| &r.name == n && r.tr.iter().flatten().any(|y| y == x)) && !names.contains(&x),
        Defect::NoInit => inits == 0,
        Defect::ManyInit => inits > 1,
        Defect::Symbol(s) => t.head.iter().filter(|h| h.as_deref() == Some(s.as_str()) || (h.is_none() && (s == "ε" || s == "eps"))).count() > 1,
        Defect::State(n) => names.iter().filter(|x| **x == n).count() > 1,
    }
}
fn tab_ok(t: &Tab, txt: &str) -> R {
    let (got, err): (Option<A>, Option<Defect>) = if t.dfa {
        let p = dandy::parser::dfa(txt).map_err(|e| format!("the table does not parse: {e:?}"))?;
        match Dfa::try_from(p) {
            Ok(d) => (Some(snap_d(&d)), None),
            Err(e) => (
                None,
                Some(match e {
                    DfaParseError::WrongNumberOfTransitions(a, b, c) => Defect::Count(a.into(), b, c),
                    DfaParseError::TransitionDoesNotExist(a, b) => Defect::Target(a.into(), b.into()),
                    DfaParseError::MissingInitialState => Defect::NoInit,
                    DfaParseError::MultipleInitialStates => Defect::ManyInit,
                    DfaParseError::DuplicateAlphabetSymbol(a) => Defect::Symbol(a.into()),
                    DfaParseError::DuplicateStateDefinition(a) => Defect::State(a.into()),
                }),
            ),
        }
    } else {
        let p = dandy::parser::nfa(txt).map_err(|e| format!("the table does not parse: {e:?}"))?;
        match Nfa::try_from(p) {
            Ok(d) => (Some(snap_n(&d)), None),
            Err(e) => (
                None,
                Some(match e {
                    NfaParseError::WrongNumberOfTransitions(a, b, c) => Defect::Count(a.into(), b, c),
                    NfaParseError::TransitionDoesNotExist(a, b) => Defect::Target(a.into(), b.into()),
                    NfaParseError::MissingInitialState => Defect::NoInit,
                    NfaParseError::MultipleInitialStates => Defect::ManyInit,
                    NfaParseError::DuplicateAlphabetSymbol(a) => Defect::Symbol(a.into()),
                    NfaParseError::DuplicateStateDefinition(a) => Defect::State(a.into()),
                }),
            ),
        }
    };
    match (expected(t), got) {
        (Some(w), Some(g)) => {
            ck!(norm(&w) == norm(&g), "the automaton is not the one written\n{}", g.show());
            g.wf().map_err(|e| format!("accepted but not well formed: {e}"))
        }
        (Some(_), None) => Err(format!("a well-formed table was rejected: {:?}", err)),
        (None, Some(g)) => Err(format!("a defective table was accepted\n{}", g.show())),
        (None, None) => {
            let e = err.unwrap();
            ck!(really(t, &e), "the error {e:?} names a defect that is not there");
            Ok(())
        }
    }
}
pub fn c14(c: &mut Ctx) {
    let mut r = c.rng("tables");
    for i in 0..c.n(12000) {
        if !c.time_left() {
            break;
        }
        let t = gen_tab(&mut r, i % 2 == 0);
        let txt = tab_text(&mut r, &t);
        c.case(true, format!("{} table\n{txt}", if t.dfa { "DFA" } else { "NFA" }), || tab_ok(&t, &txt));
    }
    c.phase("random tables with 0 to 3 defects");
}

// ---------------------------------------------------------------- C15
fn thompson_ok(x: &Regex) -> R {
    let mut al = vec![];
    graphemes(&x.tree, &mut al);
    let n = x.clone().to_nfa();
    let s = snap_n(&n);
    s.wf().map_err(|e| format!("the NFA is not well formed: {e}\n{}", s.show()))?;
    ck!(s.alpha == al, "the alphabet is {:?} instead of {:?}", s.alpha, al);
    let m = meaning(&x.tree, &al);
    lang_eq(&m, &s).map_err(|e| format!("first the expression, second the NFA: {e}\n{}", s.show()))
}
pub fn c15(c: &mut Ctx) {
    let mut r = c.rng("trees");
    for i in 0..c.n(8000) {
        if !c.time_left() {
            break;
        }
        let size = if i % 100 == 0 { 60 } else { r.range(1, 14) };
        let al: &[&str] = [&["a"][..], &["a", "b"], &["a", "b", "c"], &[]][r.below(4)];
        let x = Regex { tree: gen_tree(&mut r, size, al, true) };
        c.case(size > 1, format!("{:?}", x.tree), || thompson_ok(&x));
    }
    c.phase("random expression trees (empty and one-element groups included)");
    // long groups and deep nesting
    for k in [0usize, 1, 2, 5, 40, 130] {
        for kind in 0..4 {
            let a = |i: usize| RegexTree::Char(dandy::regex::RegexChar::Grapheme(std::rc::Rc::from(["a", "b", "c"][i % 3])));
            let t = match kind {
                0 => RegexTree::Sequence((0..k).map(a).collect()),
                1 => RegexTree::Alt((0..k).map(a).collect()),
                2 => (0..k).fold(a(0), |t, _| RegexTree::Repeat(Box::new(t))),
                _ => (0..k).fold(a(0), |t, i| RegexTree::Sequence(vec![t, RegexTree::Alt(vec![a(i), a(i + 1)])])),
            };
            let x = Regex { tree: t };
            c.case(true, format!("{:?}", x.tree), || thompson_ok(&x));
        }
    }
    c.phase("long groups and deep nesting");
}

// ---------------------------------------------------------------- C16
fn same_meaning(a: &RegexTree, b: &RegexTree) -> R {
    let mut al = vec![];
    graphemes(a, &mut al);
    graphemes(b, &mut al);
    lang_eq(&meaning(a, &al), &meaning(b, &al))
}
fn roundtrip(p: &Regex) -> R {
    let s = p.to_string();
    let q = dandy::parser::regex(&s).map_err(|e| format!("the printed form {s:?} does not parse: {e:?}"))?;
    same_meaning(&p.tree, &q.tree).map_err(|e| format!("the printed form {s:?} means something else: {e}"))
}
// there is a cluster boundary between a and b
fn boundary(a: &str, b: &str) -> bool {
    let t = format!("{a}{b}");
    unicode_segmentation::GraphemeCursor::new(a.len(), t.len(), true).is_boundary(&t, 0).unwrap()
}
fn is_op(c: &char) -> bool {
    "()∅ε|*+\\".contains(*c)
}
pub fn c16(c: &mut Ctx) {
    let mut r = c.rng("texts");
    for i in 0..c.n(6000) {
        if !c.time_left() {
            break;
        }
        let size = r.range(1, if i % 50 == 0 { 40 } else { 12 });
        let al: &[&str] = [&["a", "b"][..], &["a", "*", "("], &["ε", "∅", "a"], &["\\", "|", ")"], &["+", " ", "b"], &[]][r.below(6)];
        let t = gen_tree(&mut r, size, al, false);
        let mut txt = String::new();
        let want = text(&mut r, &t, 0, &mut txt);
        let pad = r.below(6);
        if txt.trim() != txt {
            continue; // the text itself would be trimmed
        }
        if pad == 0 {
            txt = format!("  {txt}\n");
        }
        c.case(size > 1, format!("text {txt:?}"), || {
            let p = dandy::parser::regex(&txt).map_err(|e| format!("a text in the documented syntax does not parse: {e:?}"))?;
            same_meaning(&want, &p.tree).map_err(|e| format!("first what was written, second what was read: {e}"))?;
            roundtrip(&p)
        });
    }
    c.phase("random expressions written in the documented syntax, read and printed back");
    let mut r = c.rng("raw");
    let cs = ["a", "b", "(", ")", "|", "*", "+", "\\", "ε", "∅", " ", "é", "漢", "\t"];
    for _ in 0..c.n(12000) {
        let n = r.range(0, 8);
        let txt: String = (0..n).map(|_| *r.pick(&cs)).collect();
        let want = read(&txt);
        c.case(want.is_some(), format!("text {txt:?}"), || match (dandy::parser::regex(&txt), want) {
            (Ok(p), Some(w)) => {
                same_meaning(&w, &p.tree).map_err(|e| format!("first the documented reading, second what was read: {e}"))?;
                roundtrip(&p)
            }
            (Err(_), None) => Ok(()),
            (Ok(p), None) => Err(format!("a text outside the documented syntax was read as {:?}", p.tree)),
            (Err(e), Some(_)) => Err(format!("a text in the documented syntax does not parse: {e:?}")),
        });
    }
    c.phase("random character strings, accepted and rejected");
    let mut r = c.rng("clusters");
    let cs = ["a", "b", "(", ")", "|", "*", "+", "\\", "\\", "ε", "∅", " ", "\r", "\n", "\u{301}", "\u{302}", "\u{1F1F8}", "\u{1F1EA}", "\u{600}", "\u{200D}", "\u{1F469}", "\u{915}", "\u{94D}", "\u{1100}", "\u{1161}", "\u{11A8}", "\u{FE0F}", "\u{3000}", "\u{85}"];
    for _ in 0..c.n(6000) {
        if !c.time_left() {
            break;
        }
        let n = r.range(0, 10);
        let txt: String = (0..n).map(|_| *r.pick(&cs)).collect();
        let want = read(&txt);
        c.case(want.is_some(), format!("text {txt:?}"), || match (dandy::parser::regex(&txt), want) {
            (Ok(p), Some(w)) => {
                same_meaning(&w, &p.tree).map_err(|e| format!("first the documented reading, second what was read: {e}"))?;
                let mut al = vec![];
                graphemes(&p.tree, &mut al);
                if al.iter().all(|g| boundary(g, ")")) {
                    roundtrip(&p)
                } else {
                    Ok(()) // known finding: nothing can be written behind such a symbol
                }
            }
            (Err(_), None) => Ok(()),
            (Ok(p), None) => Err(format!("a text outside the documented syntax was read as {:?}", p.tree)),
            (Err(e), Some(_)) => Err(format!("a text in the documented syntax does not parse: {e:?}")),
        });
    }
    c.phase("random texts of characters that join their neighbours into one cluster");
    // what the proof takes from UAX #29, asked of the crate
    let mut r = c.rng("uax29");
    for _ in 0..c.n(6000) {
        if !c.time_left() {
            break;
        }
        let mut any = |lo: usize, hi: usize| -> String { (0..r.range(lo, hi)).map(|_| *r.pick(&cs)).collect() };
        let (a, g, d, rest) = (any(0, 5), any(1, 4), any(1, 1), any(0, 3));
        c.case(true, format!("assumed of clusters: {a:?} {g:?} {d:?} {rest:?}"), || {
            let first = |t: &str| t.chars().next().unwrap().to_string();
            ck!(boundary(&g, &d) == boundary(&g, &format!("{d}{rest}")), "the text behind the next character matters");
            if a.is_empty() || a.ends_with('\\') || boundary(&a, &first(&g)) {
                ck!(boundary(&format!("{a}{g}"), &d) == boundary(&g, &d), "the text before a boundary matters");
            }
            if is_op(&g.chars().last().unwrap()) && is_op(&d.chars().next().unwrap()) {
                ck!(boundary(&g, &d), "two operators join");
            }
            let whole = format!("{a}{g}");
            let cut = whole.char_indices().map(|x| x.0).skip(1).find(|i| boundary(&whole[..*i], &whole[*i..])).unwrap_or(whole.len());
            let x = unicode_segmentation::UnicodeSegmentation::graphemes(&whole[..], true).next().unwrap().len();
            ck!(cut == x, "the first cluster is not the text up to the first boundary");
            Ok(())
        });
    }
    c.phase("assumptions of the proof about grapheme clusters, asked of the crate");
    // characters that merge into one grapheme cluster with a neighbour when printed without an escape
    let exotic: Vec<(&str, String)> = vec![
        ("cluster-combining", "a\\\u{301}".into()),
        ("cluster-regional", "\\\u{1F1F8}\\\u{1F1EA}".into()),
        ("cluster-prepend", "a|\u{600}".into()),
        ("cluster-reserved", "\\*\u{302}".into()),
        ("cluster-crlf", "a\\\r\\\nb".into()),
    ];
    for (id, txt) in exotic {
        c.case(true, format!("text {txt:?} [{id}]"), || match dandy::parser::regex(&txt) {
            Ok(p) => roundtrip(&p),
            Err(_) => Ok(()),
        });
    }
    c.phase("neighbouring characters that form one grapheme cluster");
}

// ---------------------------------------------------------------- C17
use dandy_draw::pos2::Pos2;
use dandy_draw::{DrawOptions, Drawer};
#[derive(Clone, Debug)]
enum Ev {
    Circle(Pos2, f32),
    Text(Pos2, String),
    Line(Pos2, Pos2, f32),
}
#[derive(Default)]
struct Rec(Vec<Ev>);
impl Drawer for Rec {
    fn start_drawing(&mut self) {}
    fn finish_drawing(&mut self) {}
    fn draw_circle(&mut self, pos: Pos2, radius: f32, _t: f32) {
        self.0.push(Ev::Circle(pos, radius));
    }
    fn draw_centered_text(&mut self, pos: Pos2, text: &str) {
        self.0.push(Ev::Text(pos, text.into()));
    }
    fn draw_rect(&mut self, _u: Pos2, _s: Pos2) {}
    fn draw_line(&mut self, from: Pos2, to: Pos2, t: f32) {
        self.0.push(Ev::Line(from, to, t));
    }
}
fn near(a: f32, b: f32) -> bool {
    (a - b).abs() < 0.01
}
fn drawn_ok(m: &A, ev: &[Ev]) -> R {
    let (r, off, tw, floor) = (30.0f32, 15.0f32, 7.0f32, 25.0f32);
    // states: circles of the state radius, their centers in order
    let centers: Vec<f32> = ev.iter().filter_map(|e| if let Ev::Circle(p, rad) = e { near(*rad, r).then_some(p.x) } else { None }).collect();
    ck!(centers.len() == m.n(), "{} states drawn for {}", centers.len(), m.n());
    let circle_y = ev.iter().find_map(|e| if let Ev::Circle(p, _) = e { Some(p.y) } else { None }).unwrap();
    let at = |x: f32| centers.iter().position(|c| near(*c, x));
    // arrows: the transition lines up to each label
    let mut arrows: Vec<(usize, usize, usize, String)> = vec![]; // from, to, level key, label
    let mut lines: Vec<(Pos2, Pos2)> = vec![];
    let mut spans: Vec<(i64, usize, usize)> = vec![];
    let texts = ev.iter().filter(|e| matches!(e, Ev::Text(..))).count();
    for e in ev {
        match e {
            Ev::Line(a, b, t) if near(*t, tw) => lines.push((*a, *b)),
            Ev::Text(p, s) if !near(p.y, circle_y) => {
                let hor: Vec<_> = lines.iter().filter(|(a, b)| near(a.y, b.y)).collect();
                let ver: Vec<_> = lines.iter().filter(|(a, b)| near(a.x, b.x) && !near(a.y, b.y)).collect();
                let diag: Vec<_> = lines.iter().filter(|(a, b)| !near(a.x, b.x) && !near(a.y, b.y)).collect();
                ck!(hor.len() == 1 && ver.len() == 2 && diag.len() == 2, "an arrow labelled {s:?} is drawn with {} horizontal, {} vertical and {} head lines", hor.len(), ver.len(), diag.len());
                let h = hor[0].0.y;
                ck!(ver.iter().all(|(a, b)| near(a.y, h) || near(b.y, h)), "the sides of the arrow {s:?} do not meet its top");
                let base = ver[0].0.y.max(ver[0].1.y);
                let xs = [ver[0].0.x, ver[1].0.x];
                let (l, rr) = match (at(xs[0] - off), at(xs[1] + off), at(xs[1] - off), at(xs[0] + off)) {
                    (Some(l), Some(r), None, None) => (l, r),
                    (None, None, Some(l), Some(r)) => (l, r),
                    _ => return Err(format!("the sides of the arrow {s:?} are not at states: {xs:?}")),
                };
                ck!(near(diag[0].0.x, diag[1].0.x) && near(diag[0].0.y, base), "the head of the arrow {s:?} is not at its foot");
                let head_right = near(diag[0].0.x, centers[rr] - off);
                let head_left = near(diag[0].0.x, centers[l] + off);
                ck!(head_right != head_left, "the head of the arrow {s:?} is at neither end");
                let (from, to) = if l == rr { (l, l) } else if head_right { (l, rr) } else { (rr, l) };
                let level = ((base - h) / floor).round() as i64;
                arrows.push((from, to, level as usize, s.clone()));
                spans.push((level, l.min(rr), l.max(rr)));
                lines.clear();
            }
            _ => (),
        }
    }
    ck!(lines.is_empty(), "transition lines without a label");
    ck!(texts == m.n() + arrows.len(), "texts drawn: {texts}");
    // every transition on exactly one arrow of its ends, labels exact
    let mut want: HashMap<(usize, usize), Vec<String>> = HashMap::new();
    for q in 0..m.n() {
        for a in 0..m.alpha.len() {
            for &t in &m.tr[q][a] {
                want.entry((q, t)).or_default().push(m.alpha[a].clone());
            }
        }
        for &t in &m.eps[q] {
            want.entry((q, t)).or_default().push("ε".into());
        }
    }
    let mut got: HashMap<(usize, usize), Vec<String>> = HashMap::new();
    for (f, t, _, s) in &arrows {
        ck!(!got.contains_key(&(*f, *t)), "two arrows from state {f} to state {t}");
        let mut l: Vec<String> = s.split(',').map(|x| x.trim().to_string()).collect();
        l.sort();
        got.insert((*f, *t), l);
    }
    for (k, v) in want.iter_mut() {
        v.sort();
        match got.get(k) {
            None => return Err(format!("the transitions {v:?} from state {} to state {} have no arrow", k.0, k.1)),
            Some(g) => ck!(g == v, "the arrow from state {} to state {} carries {g:?} instead of {v:?}", k.0, k.1),
        }
    }
    ck!(got.len() == want.len(), "an arrow without a transition");
    for i in 0..spans.len() {
        for j in 0..i {
            let ((la, a1, a2), (lb, b1, b2)) = (spans[i], spans[j]);
            if la != lb {
                continue;
            }
            let bad = if a1 == a2 { (b1 <= a1 && a1 < b2) || (b1 == b2 && b1 == a1) } else if b1 == b2 { a1 <= b1 && b1 < a2 } else { a1 < b2 && b1 < a2 };
            ck!(!bad, "two arrows overlap on one level: {} to {} and {} to {}", a1, a2, b1, b2);
        }
    }
    Ok(())
}
/// the picture made of characters: states in the last line, above it two lines for each level
fn art_ok(m: &A, text: &str) -> R {
    let lines: Vec<Vec<char>> = text.split('\n').map(|l| l.chars().collect()).collect();
    ck!(lines.len() % 2 == 1, "{} lines\n{text}", lines.len());
    let n = m.n();
    let w = m.names.iter().map(|s| s.chars().count()).max().unwrap();
    let mut last = String::from("-> ");
    for i in 0..n {
        let name = format!("{}{}", m.names[i], " ".repeat(w - m.names[i].chars().count()));
        last.push_str(&if m.acc[i] { format!("(( {name} )) ") } else { format!("(  {name}  ) ") });
    }
    ck!(lines[lines.len() - 1] == last.chars().collect::<Vec<_>>(), "the last line does not show the states\n{text}");
    let lx = |i: usize| 5 + (7 + w) * i;
    let rx = |i: usize| 6 + w + (7 + w) * i;
    // the labels between every two states; direction: 0 loop, 1 right, 2 left
    let mut want: BTreeMap<(usize, usize, u8), Vec<String>> = BTreeMap::new();
    for p in 0..n {
        let mut all: Vec<(usize, String)> = vec![];
        for (i, t) in m.tr[p].iter().enumerate() {
            all.extend(t.iter().map(|q| (*q, m.alpha[i].clone())));
        }
        if !m.dfa {
            all.extend(m.eps[p].iter().map(|q| (*q, "ε".to_string())));
        }
        for (q, l) in all {
            want.entry((p.min(q), p.max(q), if p == q { 0 } else if p < q { 1 } else { 2 })).or_default().push(l);
        }
    }
    let mut seen = BTreeSet::new();
    let mut downs: Vec<usize> = vec![];
    for t in (0..lines.len() - 1).step_by(2) {
        let (top, bot) = (&lines[t], &lines[t + 1]);
        let is_run = |x: usize| x < top.len() && matches!(top[x], '-' | '<' | '>');
        let (mut x, mut on): (usize, Vec<(usize, usize, u8)>) = (0, vec![]);
        let mut cells = BTreeSet::new();
        while x < top.len() {
            if !is_run(x) {
                x += 1;
                continue;
            }
            let (a, hi);
            if let Some(i) = (0..n).find(|i| lx(*i) == x) {
                (a, hi) = ((i, i, 0u8), rx(i));
            } else if let Some(i) = (0..n).find(|i| rx(*i) == x) {
                let j = (i + 1..n).find(|j| is_run(lx(*j)) && (!is_run(lx(*j) + 1) || top[lx(*j) + 1] == '>'));
                let Some(j) = j else { return Err(format!("an arrow in line {t} ends at no state\n{text}")) };
                (a, hi) = ((i, j, if top[x + 2] == '>' { 1 } else { 2 }), lx(j));
            } else {
                return Err(format!("an arrow in line {t} starts at no state\n{text}"));
            }
            let head = match a.2 {
                0 => (x + 1, '>'),
                1 => (x + 2, '>'),
                _ => (hi - 1, '<'),
            };
            for y in x..=hi {
                ck!(is_run(y) && top[y] == if y == head.0 { head.1 } else { '-' }, "a broken arrow between {} and {} in line {t}\n{text}", a.0, a.1);
                cells.insert(y);
            }
            ck!(want.contains_key(&a), "an arrow between {} and {} (kind {}) without a transition\n{text}", a.0, a.1, a.2);
            ck!(seen.insert(a), "two arrows between {} and {} (kind {})\n{text}", a.0, a.1, a.2);
            on.push(a);
            // an arrow may end where a loop starts
            x = if a.2 != 0 && is_run(hi + 1) { hi } else { hi + 1 };
        }
        // the labels below the arrows (loops have none), which others may cover
        let span = |a: &(usize, usize, u8)| (rx(a.0) + 1, rx(a.0) + 1 + want[a].join(", ").chars().count());
        let mut under = BTreeSet::new();
        for a in on.iter().filter(|a| a.2 != 0) {
            let (from, to) = span(a);
            under.extend(from..to);
            let cell = |y: usize| -> Option<char> { if on.iter().any(|b| b != a && b.2 != 0 && span(b).0 <= y && y < span(b).1) { None } else { Some(bot.get(y).copied().unwrap_or('\0')) } };
            let got: Vec<Option<char>> = (from..to).map(cell).collect();
            ck!(orders(&want[a]).iter().any(|o| o.join(", ").chars().zip(&got).all(|(c, g)| g.is_none_or(|g| g == c))), "the label {:?} between {} and {} is not shown\n{text}", want[a], a.0, a.1);
        }
        // lines lead down from the ends of the arrows
        for d in &downs {
            ck!(cells.contains(d) || top[*d] == '|', "a line is interrupted in line {t}, column {d}\n{text}");
        }
        for a in &on {
            downs.extend(if a.2 == 0 { [rx(a.0), lx(a.0)] } else { [rx(a.0), lx(a.1)] });
        }
        for d in &downs {
            ck!(under.contains(d) || bot[*d] == '|', "a line is interrupted in line {}, column {d}\n{text}", t + 1);
        }
    }
    ck!(seen.len() == want.len(), "{} arrows for {} pairs of states\n{text}", seen.len(), want.len());
    Ok(())
}
/// the orders in which labels may be joined
fn orders(l: &[String]) -> Vec<Vec<String>> {
    if l.len() > 5 {
        return vec![l.to_vec(), l.iter().rev().cloned().collect(), { let mut k = l.to_vec(); k.sort(); k }];
    }
    if l.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..l.len() {
        let mut rest = l.to_vec();
        let x = rest.remove(i);
        for mut o in orders(&rest) {
            o.insert(0, x.clone());
            out.push(o);
        }
    }
    out
}
fn opts() -> DrawOptions {
    DrawOptions::default().with_trans_line_width(7.0).with_init_arrow_width(9.0).with_middle_arrow(false).with_from_line_offset(15.0).with_to_line_offset(15.0).with_floor_height(25.0).with_circle_radius(30.0).with_accepting_circle_radius(25.0)
}
pub fn c17(c: &mut Ctx) {
    let mut r = c.rng("draw");
    let run = |m: &A| -> R {
        for _ in 0..2 {
            let mut rec = Rec::default();
            if m.dfa {
                let d = m.build_d();
                dandy_draw::draw_dfa_with_opts(&d, &mut rec, opts());
                drawn_ok(&snap_d(&d), &rec.0)?;
                art_ok(&snap_d(&d), &dandy_draw::dfa_ascii_art(&d))?;
            } else {
                let d = m.build_n();
                dandy_draw::draw_nfa_with_opts(&d, &mut rec, opts());
                drawn_ok(&snap_n(&d), &rec.0)?;
                art_ok(&snap_n(&d), &dandy_draw::nfa_ascii_art(&d))?;
            }
        }
        Ok(())
    };
    for m in all_nfas(2, 1, true) {
        c.case(true, m.show(), || run(&m));
    }
    for m in all_dfas(3, 1) {
        c.case(true, m.show(), || run(&m));
    }
    c.phase("all NFAs with 2 states, 1 symbol and epsilon; all DFAs with 3 states and 1 symbol");
    for i in 0..c.n(2500) {
        if !c.time_left() {
            break;
        }
        let k = r.range(1, 4);
        let al: Vec<String> = (0..k).map(|i| ["a", "bb", "é", "d"][i].to_string()).collect();
        let n = r.range(1, if i % 20 == 0 { 25 } else { 8 });
        let mut m = if i % 2 == 0 { dfa_over(&mut r, n, al) } else { nfa_over(&mut r, n, al, true) };
        for v in m.tr.iter_mut().flatten().chain(m.eps.iter_mut()) {
            let mut s = BTreeSet::new();
            v.retain(|t| s.insert(*t));
        }
        m.names = (0..n).map(|i| format!("q{i}")).collect();
        c.case(true, m.show(), || run(&m));
    }
    c.phase("random automata, two drawings each");
    // labels longer than the arrow, and longer than the picture
    for i in 0..c.n(300) {
        if !c.time_left() {
            break;
        }
        let k = r.range(5, 18);
        let al: Vec<String> = (0..k).map(|i| format!("{}{}", (b'a' + i as u8) as char, ["", "é", "zz"][i % 3])).collect();
        let n = r.range(1, 4);
        let mut m = if i % 2 == 0 { dfa_over(&mut r, n, al) } else { nfa_over(&mut r, n, al, true) };
        for v in m.tr.iter_mut().flatten().chain(m.eps.iter_mut()) {
            let mut s = BTreeSet::new();
            v.retain(|t| s.insert(*t));
        }
        m.names = (0..n).map(|i| ["q", "ünï", "0", "longer name"][(i + k) % 4].to_string() + &i.to_string()).map(|s| s.replace(' ', "_")).collect();
        c.case(true, m.show(), || run(&m));
    }
    c.phase("few states and many symbols: long labels");
}

// ---------------------------------------------------------------- C18
#[derive(Clone, Debug)]
enum H {
    D(A),
    N(A),
    X(RegexTree),
}
pub fn c18(c: &mut Ctx) {
    use dandy_wasm as w;
    let mut r0 = c.rng("handles");
    for _ in 0..c.n(1500) {
        if !c.time_left() {
            break;
        }
        let seed = r0.next();
        let desc = format!("history with seed {seed}");
        c.case(true, desc, || {
            let mut r = Rng::new(seed);
            let mut live: HashMap<usize, H> = HashMap::new();
            let mut all: Vec<usize> = vec![]; // every handle ever returned
            let mut log = String::new();
            let steps = r.range(4, 40);
            let parse_back_d = |h: usize| -> Option<A> { w::dfa_to_table(h).map(|t| snap_d(&Dfa::try_from(dandy::parser::dfa(&t).unwrap()).unwrap())) };
            let parse_back_n = |h: usize| -> Option<A> { w::nfa_to_table(h).map(|t| snap_n(&Nfa::try_from(dandy::parser::nfa(&t).unwrap()).unwrap())) };
            for _ in 0..steps {
                let h = if all.is_empty() || r.chance(1, 12) { r.below(5) + 1_000_000 * r.below(2) } else if r.chance(3, 5) && !live.is_empty() { let mut k: Vec<usize> = live.keys().copied().collect(); k.sort(); *r.pick(&k) } else { *r.pick(&all) };
                let h2 = if all.is_empty() { 7 } else { *r.pick(&all) };
                let mut fresh: Option<(usize, H)> = None;
                match r.below(12) {
                    0 => {
                        let m = dfa(&mut r, 4, 2);
                        log.push_str("load_dfa\n");
                        fresh = Some((w::load_dfa(&m.text()).map_err(|e| format!("load_dfa failed: {e}"))?, H::D(m)));
                    }
                    1 => {
                        let mut m = nfa(&mut r, 4, 2, true);
                        if m.alpha.is_empty() {
                            continue;
                        }
                        m = norm(&m);
                        log.push_str("load_nfa\n");
                        fresh = Some((w::load_nfa(&m.text()).map_err(|e| format!("load_nfa failed: {e}"))?, H::N(m)));
                    }
                    2 => {
                        let t = *r.pick(&["a", "ab*", "(a|b)+", "a(b|ε)", "(ab)*c"]);
                        log.push_str("load_regex\n");
                        fresh = Some((w::load_regex(t).map_err(|e| format!("load_regex failed: {e}"))?, H::X(dandy::parser::regex(t).unwrap().tree)));
                    }
                    3 => {
                        log.push_str("load of invalid text\n");
                        ck!(w::load_dfa("a\n-> x y\n").is_err() && w::load_nfa("a\nx {x}\n").is_err() && w::load_regex("(").is_err(), "invalid text was loaded\n{log}");
                    }
                    4 => {
                        log.push_str(&format!("minimize_dfa({h})\n"));
                        let ok = w::minimize_dfa(h);
                        ck!(ok == matches!(live.get(&h), Some(H::D(_))), "minimize_dfa({h}) reported {ok}\n{log}");
                        if let Some(H::D(m)) = live.get_mut(&h) {
                            let s = parse_back_d(h).ok_or("handle lost by minimize_dfa")?;
                            lang_eq(m, &s)?;
                            ck!(s.n() == m.min_size(), "minimize_dfa({h}) left {} states\n{log}", s.n());
                            *m = s;
                        }
                    }
                    5 => {
                        log.push_str(&format!("dfa_to_nfa({h})\n"));
                        let res = w::dfa_to_nfa(h);
                        match (res, live.get(&h)) {
                            (Some(k), Some(H::D(m))) => {
                                let mut m = m.clone();
                                m.dfa = false;
                                fresh = Some((k, H::N(m)));
                            }
                            (None, Some(H::D(_))) => return Err(format!("dfa_to_nfa({h}) failed on a live handle\n{log}")),
                            (None, _) => (),
                            (Some(_), _) => return Err(format!("dfa_to_nfa({h}) succeeded on a dead or foreign handle\n{log}")),
                        }
                    }
                    6 => {
                        log.push_str(&format!("nfa_to_dfa({h})\n"));
                        let res = w::nfa_to_dfa(h);
                        match (res, live.get(&h)) {
                            (Some(k), Some(H::N(m))) => {
                                let s = parse_back_d(k).ok_or("fresh handle refers to nothing")?;
                                lang_eq(m, &s)?;
                                fresh = Some((k, H::D(s)));
                            }
                            (None, Some(H::N(_))) => return Err(format!("nfa_to_dfa({h}) failed on a live handle\n{log}")),
                            (None, _) => (),
                            (Some(_), _) => return Err(format!("nfa_to_dfa({h}) succeeded on a dead or foreign handle\n{log}")),
                        }
                    }
                    7 => {
                        log.push_str(&format!("regex_to_nfa({h})\n"));
                        let res = w::regex_to_nfa(h);
                        match (res, live.get(&h).cloned()) {
                            (Some(k), Some(H::X(t))) => {
                                let s = parse_back_n(k).ok_or("fresh handle refers to nothing")?;
                                let mut al = vec![];
                                graphemes(&t, &mut al);
                                lang_eq(&meaning(&t, &al), &s)?;
                                live.remove(&h); // consumed
                                fresh = Some((k, H::N(s)));
                            }
                            (None, Some(H::X(_))) => return Err(format!("regex_to_nfa({h}) failed on a live handle\n{log}")),
                            (None, _) => (),
                            (Some(_), _) => return Err(format!("regex_to_nfa({h}) succeeded on a dead or foreign handle\n{log}")),
                        }
                    }
                    8 => {
                        let kind = r.below(3);
                        log.push_str(&format!("delete kind {kind} of {h}\n"));
                        let (ok, want) = match kind {
                            0 => (w::delete_dfa(h), matches!(live.get(&h), Some(H::D(_)))),
                            1 => (w::delete_nfa(h), matches!(live.get(&h), Some(H::N(_)))),
                            _ => (w::delete_regex(h), matches!(live.get(&h), Some(H::X(_)))),
                        };
                        ck!(ok == want, "delete of {h} reported {ok}\n{log}");
                        if want {
                            live.remove(&h);
                        }
                    }
                    9 => {
                        log.push_str(&format!("check_dfa_eq({h},{h2})\n"));
                        let want = match (live.get(&h), live.get(&h2)) {
                            (Some(H::D(a)), Some(H::D(b))) => Some(a.same_alphabet(b) && lang_eq(a, b).is_ok()),
                            _ => None,
                        };
                        let got = w::check_dfa_eq(h, h2);
                        ck!(got == want, "check_dfa_eq({h},{h2}) = {got:?} instead of {want:?}\n{log}");
                    }
                    10 => {
                        log.push_str(&format!("check_nfa_eq({h},{h2})\n"));
                        let want = match (live.get(&h), live.get(&h2)) {
                            (Some(H::N(a)), Some(H::N(b))) => Some(a.same_alphabet(b) && lang_eq(a, b).is_ok()),
                            _ => None,
                        };
                        let got = w::check_nfa_eq(h, h2);
                        ck!(got == want, "check_nfa_eq({h},{h2}) = {got:?} instead of {want:?}\n{log}");
                    }
                    _ => (),
                }
                if let Some((k, o)) = fresh {
                    ck!(!all.contains(&k), "the handle {k} was returned twice\n{log}");
                    all.push(k);
                    live.insert(k, o);
                }
                // every live handle still refers to its object, every dead one to nothing
                for &k in &all {
                    let (d, n) = (parse_back_d(k), parse_back_n(k));
                    match live.get(&k) {
                        Some(H::D(m)) => ck!(d.as_ref() == Some(m) && n.is_none(), "handle {k} no longer refers to its DFA\n{log}"),
                        Some(H::N(m)) => ck!(n.as_ref().map(norm).as_ref() == Some(&norm(m)) && d.is_none(), "handle {k} no longer refers to its NFA\n{log}"),
                        _ => ck!(d.is_none() && n.is_none(), "the dead or regex handle {k} refers to an automaton\n{log}"),
                    }
                }
            }
            // regex handles left must still convert to their own expression
            let left: Vec<(usize, RegexTree)> = live.iter().filter_map(|(k, v)| if let H::X(t) = v { Some((*k, t.clone())) } else { None }).collect();
            for (k, t) in left {
                let n = w::regex_to_nfa(k).ok_or(format!("regex handle {k} was lost\n{log}"))?;
                let mut al = vec![];
                graphemes(&t, &mut al);
                lang_eq(&meaning(&t, &al), &parse_back_n(n).ok_or("fresh handle refers to nothing")?)?;
                w::delete_nfa(n);
                ck!(w::regex_to_nfa(k).is_none(), "a consumed regex handle still works\n{log}");
            }
            for &k in &all {
                w::delete_dfa(k);
                w::delete_nfa(k);
            }
            Ok(())
        });
    }
    c.phase("random call histories");
}

// ---------------------------------------------------------------- C19
pub fn c19(c: &mut Ctx) {
    let cli = std::env::var("VH_CLI").expect("VH_CLI");
    let dir = std::env::var("VH_SCRATCH").expect("VH_SCRATCH");
    std::fs::create_dir_all(&dir).unwrap();
    let mut r = c.rng("cli");
    let kinds = ["dfa", "nfa", "regex"];
    for i in 0..c.n(220) {
        if !c.time_left() {
            break;
        }
        let (base_kind, test_kind) = (i % 3, (i / 3) % 3);
        let minimal = test_kind == 0 && r.chance(1, 2);
        let al: Vec<String> = { let mut v: Vec<String> = ["a", "b", "c"][..r.range(1, 3)].iter().map(|s| s.to_string()).collect(); if r.chance(1, 2) { r.shuffle(&mut v) }; v };
        let als: Vec<&str> = al.iter().map(|s| s.as_str()).collect();
        // an object of a kind: its text and its meaning
        let mk = |r: &mut Rng, kind: usize| -> (String, A) {
            match kind {
                0 => { let n = r.range(1, 4); let m = dfa_over(r, n, al.clone()); (m.text(), m) }
                1 => { let n = r.range(1, 4); let m = nfa_over(r, n, al.clone(), true); (m.text(), m) }
                _ => loop {
                    let s = r.range(2, 9);
                    let t = gen_tree(r, s, &als, false);
                    let mut txt = String::new();
                    let t = text(r, &t, 0, &mut txt);
                    let mut g = vec![];
                    graphemes(&t, &mut g);
                    if txt.trim() == txt {
                        let m = meaning(&t, &g);
                        break (txt, m);
                    }
                },
            }
        };
        let (btxt, bm) = mk(&mut r, base_kind);
        let mut files: Vec<(String, String)> = vec![]; // content, expected verdict
        for j in 0..8 {
            let (txt, m): (String, A) = match j {
                // the reference's own language in the tested kind
                0 | 1 if test_kind < 2 => {
                    let mut d = bm.det();
                    if j == 1 {
                        // the smallest
                        let cl = d.moore();
                        let k = cl.iter().collect::<BTreeSet<_>>().len();
                        let mut e = A { dfa: true, alpha: d.alpha.clone(), names: (0..k).map(|i| format!("m{i}")).collect(), iflag: vec![false; k], acc: vec![false; k], init: cl[d.init], tr: vec![vec![vec![]; d.alpha.len()]; k], eps: vec![vec![]; k] };
                        for q in 0..d.n() {
                            e.acc[cl[q]] = d.acc[q];
                            for a in 0..d.alpha.len() {
                                e.tr[cl[q]][a] = vec![cl[d.tr[q][a][0]]];
                            }
                        }
                        e.iflag[e.init] = true;
                        d = e;
                    }
                    if d.alpha.is_empty() {
                        continue;
                    }
                    let d = if r.chance(1, 3) { with_unreachable(&mut r, &d, 1) } else { d };
                    let mut d = permuted(&mut r, &d);
                    d.dfa = test_kind == 0;
                    if r.chance(1, 4) {
                        d = mutated(&mut r, &d);
                    }
                    (d.text(), d)
                }
                0 if base_kind == 2 => (format!("({btxt})|∅"), bm.clone()),
                1 if base_kind == 2 => (format!("({btxt})({btxt})"), {
                    let t = read(&format!("({btxt})({btxt})")).unwrap();
                    let mut g = vec![];
                    graphemes(&t, &mut g);
                    meaning(&t, &g)
                }),
                2 => {
                    // bad files
                    let (t, v) = match r.below(3) {
                        0 => ("(((".to_string(), "Failed to parse"),
                        1 => ("\u{0}no such file".to_string(), "Failed to read"),
                        _ => (if test_kind == 0 { "a\n-> x y\n".to_string() } else if test_kind == 1 { "a\nx {x}\n".to_string() } else { "a|".to_string() }, if test_kind == 2 { "Failed to parse" } else { "Failed to validate" }),
                    };
                    files.push((t, v.into()));
                    continue;
                }
                _ => mk(&mut r, test_kind),
            };
            let same = bm.same_alphabet(&m) && lang_eq(&bm, &m).is_ok();
            let v = if !same { "Not Equivalent" } else if minimal && m.n() != bm.min_size() { "Equivalent but not minimized" } else { "Equivalent" };
            files.push((txt, v.into()));
        }
        if (base_kind < 2 && bm.alpha.is_empty()) || files.is_empty() {
            continue;
        }
        let desc = format!(
            "reference ({}):\n{btxt}\ntested as {}{}:\n{}",
            kinds[base_kind], kinds[test_kind], if minimal { " --minimized" } else { "" },
            files.iter().map(|(t, v)| format!("--- expected {v}\n{t}\n")).collect::<String>()
        );
        let (cli, dir) = (cli.clone(), dir.clone());
        c.case(true, desc, || {
            let base = format!("{dir}/base");
            std::fs::write(&base, &btxt).unwrap();
            let mut cmd = std::process::Command::new(&cli);
            cmd.args(["--less-logs", "equivalence", "--type", kinds[test_kind], "--in-type", kinds[base_kind]]);
            if minimal {
                cmd.arg("--minimized");
            }
            cmd.arg(&base);
            for (k, (t, _)) in files.iter().enumerate() {
                let p = format!("{dir}/t{k}");
                let _ = std::fs::remove_file(&p);
                if !t.starts_with('\u{0}') {
                    std::fs::write(&p, t).unwrap();
                }
                cmd.arg(&p);
            }
            let out = cmd.output().map_err(|e| e.to_string())?;
            let so = String::from_utf8_lossy(&out.stdout).to_string();
            let all = format!("{so}{}", String::from_utf8_lossy(&out.stderr));
            ck!(!all.contains("panicked"), "the command panicked\n{all}");
            for (k, (_, v)) in files.iter().enumerate() {
                let tag = format!("t{k}: ");
                let line = so.lines().find(|l| l.contains(&tag)).ok_or(format!("no verdict for file t{k}\n{all}"))?;
                let got = &line[line.find(&tag).unwrap() + tag.len()..];
                let ok = if v.starts_with("Failed") { got.starts_with(v.as_str()) } else { got == v };
                ck!(ok, "file t{k}: the command says {got:?} instead of {v:?}\n{all}");
            }
            Ok(())
        });
    }
    let _ = std::fs::remove_dir_all(&dir);
    c.phase("random references and files, every pair of kinds");
}
