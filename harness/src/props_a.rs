//! Executable contracts for the automata operations (C01-C11, C20-C22).
use crate::ctx::{Ctx, Rng};
use crate::gen::*;
use crate::model::*;
use crate::regexgen::*;
use dandy::dfa::{Dfa, DfaState};
use dandy::nfa::Nfa;
use std::collections::{BTreeSet, HashMap, HashSet};
use unicode_segmentation::UnicodeSegmentation;

pub type R = Result<(), String>;

pub fn refs(w: &[String]) -> Vec<&str> {
    w.iter().map(|s| s.as_str()).collect()
}

macro_rules! ck {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
pub(crate) use ck;

fn first_occurrence_same(a: &A, b: &A) -> R {
    ck!(a.alpha == b.alpha, "alphabet changed from {:?} to {:?}", a.alpha, b.alpha);
    Ok(())
}

/// a DFA built by the library itself (parsed, or the result of operations), for shapes the parser cannot give
pub fn rich_dfa(r: &mut Rng) -> Dfa {
    match r.below(8) {
        0 => gen_regex(r, 6, &["a", "b"]).to_nfa().to_dfa(),
        1 => gen_regex(r, 4, &[]).to_nfa().to_dfa(),
        2 => {
            let mut d = dfa(r, 5, 2).build_d();
            d.minimize();
            d
        }
        3 => {
            let a = dfa(r, 4, 2);
            let b = permuted(r, &a);
            a.build_d().union(&b.build_d()).unwrap()
        }
        4 => nfa(r, 4, 2, true).build_n().to_dfa(),
        _ => dfa(r, 6, 3).build_d(),
    }
}
pub fn rich_nfa(r: &mut Rng) -> Nfa {
    match r.below(9) {
        0 => gen_regex(r, 6, &["a", "b"]).to_nfa(),
        1 => gen_regex(r, 4, &[]).to_nfa(),
        2 => {
            let mut n = nfa(r, 5, 2, true).build_n();
            n.remove_epsilon_moves();
            n
        }
        3 => {
            let a = nfa(r, 3, 2, true);
            let b = permuted(r, &a);
            a.build_n().union(b.build_n()).unwrap()
        }
        4 => dfa(r, 5, 2).build_d().to_nfa(),
        5 => {
            let a = nfa(r, 3, 2, true);
            let b = permuted(r, &a);
            a.build_n().intersection(&b.build_n()).unwrap()
        }
        _ => nfa(r, 5, 2, true).build_n(),
    }
}

fn all_words(k: usize, l: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut lv: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..l {
        let mut nx = vec![];
        for w in &lv {
            for a in 0..k {
                let mut w2 = w.clone();
                w2.push(a);
                nx.push(w2);
            }
        }
        out.extend(nx.iter().cloned());
        lv = nx;
    }
    out
}

// ---------------------------------------------------------------- C01
fn state_is(d: &Dfa, s: Option<&DfaState>, want: Option<usize>) -> bool {
    match (s, want) {
        (None, None) => true,
        (Some(s), Some(q)) => s == &d.states()[q],
        _ => false,
    }
}

fn eval_dfa(d: &Dfa, m: &A, words: &[Vec<String>]) -> R {
    for w in words {
        let ws = refs(w);
        let want = m.accepts(&ws);
        ck!(d.accepts(&ws) == want, "accepts({:?}) = {} but the table says {}", ws, !want, want);
        // step by step
        let mut ev = d.evaluator();
        let mut q = Some(m.init);
        ck!(state_is(d, ev.current_state(), q), "a fresh evaluator is not in the initial state");
        for (i, x) in ws.iter().enumerate() {
            q = q.and_then(|q| m.sym(x).map(|a| m.tr[q][a][0]));
            let ret = ev.step(x).cloned();
            ck!(state_is(d, ret.as_ref(), q), "step {:?} at position {i} of {:?} returned the wrong state", x, ws);
            ck!(state_is(d, ev.current_state(), q), "after {:?} the current state is not the one the table gives", &ws[..=i]);
            ck!(ev.is_accepting() == q.map_or(false, |q| m.acc[q]), "is_accepting after {:?} is wrong", &ws[..=i]);
            if let Some(q) = q {
                ck!(ev.current_state_idx() == q, "current_state_idx after {:?}", &ws[..=i]);
                let all = ev.step_all();
                ck!(all.len() == m.alpha.len(), "step_all gives {} evaluators", all.len());
                for (a, e) in all.iter().enumerate() {
                    ck!(state_is(d, e.current_state(), Some(m.tr[q][a][0])), "step_all entry {a} after {:?}", &ws[..=i]);
                }
            } else {
                let all = ev.step_all();
                ck!(all.len() == m.alpha.len(), "step_all gives {} evaluators", all.len());
                for (a, e) in all.iter().enumerate() {
                    ck!(e.current_state().is_none() && !e.is_accepting(), "step_all entry {a} after {:?}, which has a symbol outside the alphabet, is in a state", &ws[..=i]);
                }
            }
        }
        for cut in [0, ws.len() / 2, ws.len()] {
            let mut ev = d.evaluator();
            ev.step_multiple(&ws[..cut]);
            let ret = ev.step_multiple(&ws[cut..]).cloned();
            ck!(state_is(d, ret.as_ref(), q), "step_multiple of {:?} in two parts at {cut} returned the wrong state", ws);
            ck!(ev.is_accepting() == want, "step_multiple of {:?} in two parts at {cut}: wrong acceptance", ws);
        }
        let joined = w.concat();
        let g: Vec<&str> = joined.graphemes(true).collect();
        ck!(d.accepts_graphemes(&joined) == m.accepts(&g), "accepts_graphemes({joined:?}) differs from the run over {g:?}");
    }
    let go = m.alpha.iter().all(|s| s.graphemes(true).count() == 1);
    ck!(d.graphemes_only() == go, "graphemes_only = {} for {:?}", !go, m.alpha);
    Ok(())
}

fn word_set(r: &mut Rng, m: &A, n: usize, l: usize) -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = all_words(m.alpha.len().min(3), if m.alpha.len() <= 1 { 4 } else { 2 }).into_iter().map(|w| w.iter().map(|&i| m.alpha[i].clone()).collect()).collect();
    for i in 0..n {
        v.push(word(r, m, l, i % 2 == 0));
    }
    v
}

fn show_words(w: &[Vec<String>]) -> String {
    w.iter().rev().take(6).map(|w| format!("  {w:?}\n")).collect()
}

pub fn c01(c: &mut Ctx) {
    let mut r = c.rng("small");
    for m in all_dfas(2, 2) {
        let ws = word_set(&mut r, &m, 6, 5);
        c.case(true, format!("{}words include\n{}", m.show(), show_words(&ws)), || {
            let d = m.build_d();
            let s = snap_d(&d);
            eval_dfa(&d, &s, &ws)
        });
    }
    c.phase("all DFAs with 2 states and 2 symbols");
    let mut r = c.rng("random");
    for i in 0..c.n(2500) {
        if !c.time_left() {
            break;
        }
        let m = if i % 50 == 0 { dfa(&mut r, 300, 3) } else if i % 50 == 1 { dfa(&mut r, 4, 40) } else { dfa(&mut r, 8, 5) };
        let ws = word_set(&mut r, &m, 12, if i % 20 == 0 { 300 } else { 12 });
        c.case(true, format!("{}words include\n{}", m.show(), show_words(&ws)), || {
            let d = m.build_d();
            let s = snap_d(&d);
            eval_dfa(&d, &s, &ws)
        });
    }
    c.phase("random DFAs, foreign and multi-character symbols, long words");
    let mut r = c.rng("derived");
    for _ in 0..c.n(400) {
        let d = rich_dfa(&mut r);
        let m = snap_d(&d);
        if m.wf().is_err() {
            continue;
        }
        let ws = word_set(&mut r, &m, 12, 12);
        c.case(true, format!("{}words include\n{}", m.show(), show_words(&ws)), || eval_dfa(&d, &m, &ws));
    }
    c.phase("DFAs built by library operations");
}

// ---------------------------------------------------------------- C02
fn eval_nfa(d: &Nfa, m: &A, words: &[Vec<String>]) -> R {
    for w in words {
        let ws = refs(w);
        let want = m.accepts(&ws);
        ck!(d.accepts(&ws) == want, "accepts({:?}) = {} but there is {} accepting path", ws, !want, if want { "an" } else { "no" });
        let mut ev = d.evaluator();
        let mut q = Some(m.start());
        for i in 0..=ws.len() {
            if let Some(q) = &q {
                let cur: Set = ev.current_states_idx().iter().copied().collect();
                ck!(&cur == q, "after {:?} the current states are {:?} instead of {:?}", &ws[..i], cur, q);
                let n1: BTreeSet<&str> = ev.current_states().iter().map(|s| s.name()).collect();
                let n2: BTreeSet<&str> = q.iter().map(|&s| m.names[s].as_str()).collect();
                ck!(n1 == n2 && ev.current_states().len() == n2.len(), "current_states() after {:?}", &ws[..i]);
                let all = ev.step_all();
                ck!(all.len() == m.alpha.len(), "step_all gives {} evaluators", all.len());
                for (a, e) in all.iter().enumerate() {
                    let cur: Set = e.current_states_idx().iter().copied().collect();
                    ck!(cur == m.step(q, a), "step_all entry {a} after {:?}", &ws[..i]);
                }
            } else {
                let all = ev.step_all();
                ck!(all.len() == m.alpha.len(), "step_all gives {} evaluators", all.len());
                for (a, e) in all.iter().enumerate() {
                    ck!(!e.is_accepting(), "step_all entry {a} after {:?}, which has a symbol outside the alphabet, accepts", &ws[..i]);
                }
            }
            ck!(ev.is_accepting() == q.as_ref().map_or(false, |q| m.accepting(q)), "is_accepting after {:?} is wrong", &ws[..i]);
            if i < ws.len() {
                let a = m.sym(ws[i]);
                let ret = ev.step(ws[i]);
                ck!(a.is_some() || ret.is_none(), "stepping by the foreign {:?} reported success", ws[i]);
                ck!(a.is_none() || q.is_none() || ret.is_some(), "stepping by {:?} reported failure", ws[i]);
                q = q.and_then(|q| a.map(|a| m.step(&q, a)));
            }
        }
        for cut in [0, ws.len() / 2, ws.len()] {
            let mut ev = d.evaluator();
            ev.step_multiple(&ws[..cut]);
            ev.step_multiple(&ws[cut..]);
            ck!(ev.is_accepting() == want, "step_multiple of {:?} in two parts at {cut}: wrong acceptance", ws);
        }
        let joined = w.concat();
        let g: Vec<&str> = joined.graphemes(true).collect();
        ck!(d.accepts_graphemes(&joined) == m.accepts(&g), "accepts_graphemes({joined:?}) differs from the run over {g:?}");
    }
    for q in 0..m.n() + 2 {
        let got = d.closure(q).map(|s| s.into_iter().collect::<Set>());
        let want = (q < m.n()).then(|| m.closure(&Set::from([q])));
        ck!(got == want, "closure({q}) = {:?} instead of {:?}", got, want);
    }
    ck!(d.has_epsilon_moves() == m.eps.iter().any(|e| !e.is_empty()), "has_epsilon_moves is wrong");
    let go = m.alpha.iter().all(|s| s.graphemes(true).count() == 1);
    ck!(d.graphemes_only() == go, "graphemes_only = {} for {:?}", !go, m.alpha);
    Ok(())
}

pub fn c02(c: &mut Ctx) {
    let mut r = c.rng("small");
    for m in all_nfas(2, 1, true) {
        let ws = word_set(&mut r, &m, 2, 4);
        c.case(true, m.show(), || {
            let d = m.build_n();
            eval_nfa(&d, &snap_n(&d), &ws)
        });
    }
    c.phase("all NFAs with 2 states, 1 symbol and epsilon moves");
    let mut r = c.rng("random");
    for i in 0..c.n(2500) {
        if !c.time_left() {
            break;
        }
        let m = if i % 50 == 0 { nfa(&mut r, 120, 3, true) } else if i % 50 == 1 { nfa(&mut r, 4, 40, true) } else { nfa(&mut r, 7, 4, i % 5 != 0) };
        let ws = word_set(&mut r, &m, 10, if i % 20 == 0 && m.n() < 20 { 100 } else { 10 });
        c.case(true, format!("{}words include\n{}", m.show(), show_words(&ws)), || {
            let d = m.build_n();
            eval_nfa(&d, &snap_n(&d), &ws)
        });
    }
    c.phase("random NFAs, foreign and multi-character symbols");
    for _ in 0..c.n(300) {
        let d = rich_nfa(&mut r);
        let m = snap_n(&d);
        if m.wf().is_err() {
            continue;
        }
        let ws = word_set(&mut r, &m, 8, 8);
        c.case(true, format!("{}words include\n{}", m.show(), show_words(&ws)), || eval_nfa(&d, &m, &ws));
    }
    c.phase("NFAs built by library operations");
}

// ---------------------------------------------------------------- C03
type BinOp = (&'static str, fn(&Dfa, &Dfa) -> Option<Dfa>, fn(bool, bool) -> bool);
fn binops() -> Vec<BinOp> {
    vec![
        ("union", |a, b| a.union(b), |x, y| x || y),
        ("intersection", |a, b| a.intersection(b), |x, y| x && y),
        ("difference", |a, b| a.difference(b), |x, y| x && !y),
        ("symmetric_difference", |a, b| a.symmetric_difference(b), |x, y| x != y),
        ("product_construction(nor)", |a, b| a.product_construction(b, |s, t| !s.is_accepting() && !t.is_accepting()), |x, y| !x && !y),
        ("product_construction(implies)", |a, b| a.product_construction(b, |s, t| !s.is_accepting() || t.is_accepting()), |x, y| !x || y),
    ]
}

fn dfa_ops(d1: &Dfa, d2: &Dfa) -> R {
    let (m1, m2) = (snap_d(d1), snap_d(d2));
    for (name, op, f) in binops() {
        let res = op(d1, d2);
        ck!(snap_d(d1) == m1 && snap_d(d2) == m2, "{name} changed an operand");
        ck!(res.is_some() == m1.same_alphabet(&m2), "{name} returned {} for alphabets {:?} and {:?}", if res.is_some() { "a result" } else { "nothing" }, m1.alpha, m2.alpha);
        if let Some(d) = res {
            let m = snap_d(&d);
            m.wf().map_err(|e| format!("the result of {name} is not a DFA: {e}"))?;
            ck!(m.same_alphabet(&m1), "{name} gives the alphabet {:?}", m.alpha);
            if let Some(w) = find_word(&[&m, &m1, &m2], |v| v[0] == f(v[1], v[2])) {
                let ws = refs(&w);
                return Err(format!("{name}: the word {:?} is accepted by the operands as ({}, {}) and by the result as {}\nresult:\n{}", w, m1.accepts(&ws), m2.accepts(&ws), m.accepts(&ws), m.show()));
            }
        }
    }
    // the caller's function is asked about the states themselves (not only their acceptance)
    let res = d1.product_construction(d2, |s, t| s.name().len() > t.name().len() || s.is_initial());
    if let Some(d) = res {
        let mut p1 = m1.clone();
        let m = snap_d(&d);
        m.wf().map_err(|e| format!("product is not a DFA: {e}"))?;
        // run the pair
        let perm: Vec<(usize, usize)> = m.alpha.iter().map(|s| (m1.sym(s).unwrap(), m2.sym(s).unwrap())).collect();
        let mut seen = HashSet::from([(m.init, m1.init, m2.init)]);
        let mut st = vec![(m.init, m1.init, m2.init)];
        while let Some((q, a, b)) = st.pop() {
            let want = m1.names[a].len() > m2.names[b].len() || m1.iflag[a];
            ck!(m.acc[q] == want, "product_construction ignores the caller's function on the states {:?} and {:?}", m1.names[a], m2.names[b]);
            for k in 0..m.alpha.len() {
                let n = (m.tr[q][k][0], m1.tr[a][perm[k].0][0], m2.tr[b][perm[k].1][0]);
                if seen.insert(n) {
                    st.push(n);
                }
            }
        }
        p1.acc.clear();
    }
    Ok(())
}

pub fn pair_like(r: &mut Rng, i: usize, dfa_kind: bool, n: usize, k: usize) -> (A, A) {
    let mk = |r: &mut Rng, n: usize, al: Vec<String>| if dfa_kind { dfa_over(r, n, al) } else { nfa_over(r, n, al, i % 4 != 1) };
    let k1 = r.range(1, k);
    let al = alphabet(r, k1);
    let n1 = r.range(1, n);
    let a = mk(r, n1, al.clone());
    let b = match i % 10 {
        0 => permuted(r, &a),
        1 => {
            let b = permuted(r, &a);
            mutated(r, &b)
        }
        2 => {
            let b = with_unreachable(r, &a, 2);
            permuted(r, &b)
        }
        3 => {
            // different alphabets: superset, subset, same size
            let mut al2 = al.clone();
            match r.below(3) {
                0 => al2.push("@".into()),
                1 => {
                    al2.pop();
                    if al2.is_empty() {
                        al2.push("@".into());
                    }
                }
                _ => {
                    let j = r.below(al2.len());
                    al2[j] = "@".into();
                }
            }
            r.shuffle(&mut al2);
            let n2 = r.range(1, n);
            mk(r, n2, al2)
        }
        _ => {
            let mut al2 = al.clone();
            if r.chance(2, 3) {
                r.shuffle(&mut al2);
            }
            let n2 = r.range(1, n);
            mk(r, n2, al2)
        }
    };
    let (mut a, mut b) = (a, b);
    if i % 5 == 4 {
        comma_names(r, &mut a, true);
        comma_names(r, &mut b, false);
    }
    if r.chance(1, 2) {
        (a, b)
    } else {
        (b, a)
    }
}

fn show2(a: &A, b: &A) -> String {
    format!("first: {}second: {}", a.show(), b.show())
}

pub fn c03(c: &mut Ctx) {
    let small = all_dfas(2, 1);
    for a in &small {
        for b in &small {
            c.case(true, show2(a, b), || dfa_ops(&a.build_d(), &b.build_d()));
        }
    }
    c.phase("all pairs of DFAs with 2 states and 1 symbol");
    let mut r = c.rng("random");
    for i in 0..c.n(2500) {
        if !c.time_left() {
            break;
        }
        let (a, b) = if i % 100 == 99 { pair_like(&mut r, i, true, 24, 3) } else { pair_like(&mut r, i, true, 5, 4) };
        c.case(true, show2(&a, &b), || dfa_ops(&a.build_d(), &b.build_d()));
    }
    c.phase("random pairs (permuted, near copies, other alphabets, clashing names)");
    for _ in 0..c.n(300) {
        let (a, b) = (rich_dfa(&mut r), rich_dfa(&mut r));
        let (m, n) = (snap_d(&a), snap_d(&b));
        if m.wf().is_err() || n.wf().is_err() {
            continue;
        }
        c.case(true, show2(&m, &n), || dfa_ops(&a, &b));
    }
    c.phase("DFAs built by library operations");
}

// ---------------------------------------------------------------- C04 / C05
fn verdict(m1: &A, m2: &A) -> (bool, String) {
    if !m1.same_alphabet(m2) {
        return (false, "the alphabets differ".into());
    }
    match find_word(&[m1, m2], |v| v[0] == v[1]) {
        None => (true, "no word tells them apart".into()),
        Some(w) => (false, format!("the word {w:?} tells them apart")),
    }
}
fn dfa_eq(a: &Dfa, b: &Dfa) -> R {
    let (m1, m2) = (snap_d(a), snap_d(b));
    let (want, why) = verdict(&m1, &m2);
    ck!(a.equivalent_to(b) == want, "equivalent_to says {} but {why}", !want);
    ck!(b.equivalent_to(a) == want, "equivalent_to (swapped) says {} but {why}", !want);
    ck!(a.equivalent_to(a) && b.equivalent_to(b), "an automaton is not equivalent to itself");
    Ok(())
}
fn nfa_eq(a: &Nfa, b: &Nfa) -> R {
    let (m1, m2) = (snap_n(a), snap_n(b));
    let (want, why) = verdict(&m1, &m2);
    for _ in 0..2 {
        ck!(a.equivalent_to(b) == want, "equivalent_to says {} but {why}", !want);
        ck!(b.equivalent_to(a) == want, "equivalent_to (swapped) says {} but {why}", !want);
    }
    ck!(a.equivalent_to(a) && b.equivalent_to(b), "an automaton is not equivalent to itself");
    Ok(())
}

/// pairs whose shortest distinguishing word is long
fn long_pair(r: &mut Rng, dfa_kind: bool) -> (A, A) {
    let n = r.range(5, 30);
    let k = r.range(1, 3);
    let al = alphabet(r, k);
    let mut a = if dfa_kind { dfa_over(r, n, al) } else { nfa_over(r, n, al, false) };
    for q in 0..n {
        for s in 0..k {
            a.tr[q][s] = vec![if s == k - 1 { (q + 1) % n } else { 0 }];
        }
        a.acc[q] = r.chance(1, 2);
    }
    a.init = 0;
    for q in 0..n {
        a.iflag[q] = q == 0;
    }
    let mut b = permuted(r, &a);
    // flip the state the last position of the chain maps to
    let mut q = b.init;
    for _ in 0..n - 1 - r.below(2) {
        let s = b.sym(&a.alpha[k - 1]).unwrap();
        q = b.tr[q][s][0];
    }
    if r.chance(2, 3) {
        b.acc[q] = !b.acc[q];
    }
    if r.chance(1, 3) {
        b = with_unreachable(r, &b, 3);
    }
    (a, b)
}

pub fn c04(c: &mut Ctx) {
    let small: Vec<A> = all_dfas(2, 1).into_iter().chain(all_dfas(1, 1)).collect();
    for a in &small {
        for b in &small {
            c.case(true, show2(a, b), || dfa_eq(&a.build_d(), &b.build_d()));
        }
    }
    c.phase("all pairs of DFAs with up to 2 states and 1 symbol");
    let mut r = c.rng("two");
    let two = all_dfas(2, 2);
    let built: Vec<Dfa> = two.iter().map(|m| m.build_d()).collect();
    for _ in 0..c.n(4000) {
        let (i, j) = (r.below(two.len()), r.below(two.len()));
        c.case(true, show2(&two[i], &two[j]), || dfa_eq(&built[i], &built[j]));
    }
    c.phase("sampled pairs of DFAs with 2 states and 2 symbols");
    let mut r = c.rng("random");
    for i in 0..c.n(4000) {
        if !c.time_left() {
            break;
        }
        let (a, b) = if i % 4 == 3 { long_pair(&mut r, true) } else { pair_like(&mut r, i, true, 6, 4) };
        c.case(true, show2(&a, &b), || dfa_eq(&a.build_d(), &b.build_d()));
    }
    c.phase("random pairs, long distinguishing words, permuted copies");
    for _ in 0..c.n(300) {
        let (a, b) = (rich_dfa(&mut r), rich_dfa(&mut r));
        let (m, n) = (snap_d(&a), snap_d(&b));
        if m.wf().is_err() || n.wf().is_err() {
            continue;
        }
        c.case(true, show2(&m, &n), || dfa_eq(&a, &b));
    }
    c.phase("DFAs built by library operations");
}

pub fn c05(c: &mut Ctx) {
    let mut r = c.rng("small");
    let small: Vec<A> = all_nfas(2, 1, true);
    let built: Vec<Nfa> = small.iter().map(|m| m.build_n()).collect();
    for _ in 0..c.n(6000) {
        let (i, j) = (r.below(small.len()), r.below(small.len()));
        c.case(true, show2(&small[i], &small[j]), || nfa_eq(&built[i], &built[j]));
    }
    c.phase("sampled pairs of NFAs with 2 states, 1 symbol, epsilon");
    let mut r = c.rng("random");
    for i in 0..c.n(3000) {
        if !c.time_left() {
            break;
        }
        let (a, b) = match i % 6 {
            3 => long_pair(&mut r, false),
            4 => {
                // an NFA against its own determinization seen as an NFA
                let a = nfa(&mut r, 5, 3, true);
                let mut d = permuted(&mut r, &a.det());
                d.dfa = false;
                if r.chance(1, 2) {
                    d = mutated(&mut r, &d);
                }
                (a, d)
            }
            _ => pair_like(&mut r, i, false, 5, 3),
        };
        c.case(true, show2(&a, &b), || nfa_eq(&a.build_n(), &b.build_n()));
    }
    c.phase("random pairs, long distinguishing words, permuted and determinized copies");
    for _ in 0..c.n(300) {
        let (a, b) = (rich_nfa(&mut r), rich_nfa(&mut r));
        let (m, n) = (snap_n(&a), snap_n(&b));
        if m.wf().is_err() || n.wf().is_err() {
            continue;
        }
        c.case(true, show2(&m, &n), || nfa_eq(&a, &b));
    }
    c.phase("NFAs built by library operations");
}

// ---------------------------------------------------------------- C06
fn minimize_ok(d: &Dfa) -> R {
    let m = snap_d(d);
    // classes
    let want = m.moore();
    let cls = d.state_equivalence_classes_idx();
    let mut seen = BTreeSet::new();
    for cl in &cls {
        ck!(!cl.is_empty(), "an empty equivalence class is reported");
        let f = *cl.iter().next().unwrap();
        for &q in cl {
            ck!(q < m.n(), "class with a missing state");
            ck!(seen.insert(q), "state {q} is in two classes");
            ck!(want[q] == want[f], "states {f} and {q} are reported equivalent but some word tells them apart");
        }
    }
    ck!(seen.len() == m.n(), "some state is in no class");
    ck!(cls.len() == want.iter().collect::<BTreeSet<_>>().len(), "two classes hold equivalent states");
    let named: BTreeSet<BTreeSet<&str>> = d.state_equivalence_classes().iter().map(|v| v.iter().map(|s| s.name()).collect()).collect();
    let by: BTreeSet<BTreeSet<&str>> = {
        let mut h: HashMap<usize, BTreeSet<&str>> = HashMap::new();
        for q in 0..m.n() {
            h.entry(want[q]).or_default().insert(&m.names[q]);
        }
        h.into_values().collect()
    };
    ck!(named == by, "state_equivalence_classes differs from the index version");
    // merging alone
    let mut d2 = d.clone();
    d2.merge_nondistinguishable_states();
    let s2 = snap_d(&d2);
    s2.wf().map_err(|e| format!("after merge_nondistinguishable_states: {e}"))?;
    lang_eq(&m, &s2).map_err(|e| format!("merge_nondistinguishable_states: {e}"))?;
    let mut d3 = d.clone();
    d3.minimize();
    let s = snap_d(&d3);
    s.wf().map_err(|e| format!("after minimize: {e}"))?;
    first_occurrence_same(&m, &s)?;
    lang_eq(&m, &s).map_err(|e| format!("minimize changed the language: {e}"))?;
    ck!(s.reach().len() == s.n(), "after minimize a state is unreachable\n{}", s.show());
    let k = s.moore().into_iter().collect::<BTreeSet<_>>().len();
    ck!(k == s.n(), "after minimize {} states remain but {} suffice\n{}", s.n(), k, s.show());
    Ok(())
}

pub fn c06(c: &mut Ctx) {
    for m in all_dfas(3, 1).into_iter().chain(all_dfas(2, 2)) {
        c.case(true, m.show(), || minimize_ok(&m.build_d()));
    }
    c.phase("all DFAs with 3 states and 1 symbol, and with 2 states and 2 symbols");
    let mut r = c.rng("random");
    for i in 0..c.n(2500) {
        if !c.time_left() {
            break;
        }
        let m = if i % 60 == 0 { dfa(&mut r, 60, 3) } else { dfa(&mut r, 9, 3) };
        let m = if i % 5 == 0 { with_unreachable(&mut r, &m, 3) } else { m };
        let m = if i % 7 == 0 { permuted(&mut r, &m) } else { m };
        c.case(true, m.show(), || {
            let d = m.build_d();
            for _ in 0..3 {
                minimize_ok(&d)?; // the order of the work list is not controlled: repeat
            }
            Ok(())
        });
    }
    c.phase("random DFAs, three runs each");
    for _ in 0..c.n(300) {
        let d = rich_dfa(&mut r);
        let m = snap_d(&d);
        if m.wf().is_err() {
            continue;
        }
        c.case(true, m.show(), || minimize_ok(&d));
    }
    c.phase("DFAs built by library operations");
}

// ---------------------------------------------------------------- C07
fn det_ok(n: &Nfa) -> R {
    let m = snap_n(n);
    let d = n.to_dfa();
    ck!(snap_n(n) == m, "to_dfa changed its source");
    let s = snap_d(&d);
    s.wf().map_err(|e| format!("the result is not a complete well-formed DFA: {e}\n{}", s.show()))?;
    first_occurrence_same(&m, &s)?;
    lang_eq(&m, &s).map_err(|e| format!("to_dfa: {e}\n{}", s.show()))
}
fn nfa_sweep(c: &mut Ctx, quick: usize, f: fn(&Nfa) -> R) {
    for m in all_nfas(2, 1, true) {
        c.case(true, m.show(), || f(&m.build_n()));
    }
    c.phase("all NFAs with 2 states, 1 symbol and epsilon moves");
    let mut r = c.rng("random");
    for i in 0..c.n(quick) {
        if !c.time_left() {
            break;
        }
        let m = if i % 200 == 7 { let n = r.range(60, 300); wide_nfa(&mut r, n, 2, i % 400 == 7) } else if i % 60 == 0 { nfa(&mut r, 14, 2, true) } else if i % 60 == 1 { nfa(&mut r, 3, 20, true) } else { nfa(&mut r, 6, 3, i % 5 != 0) };
        let m = if i % 6 == 0 { with_unreachable(&mut r, &m, 2) } else { m };
        c.case(true, m.show(), || f(&m.build_n()));
    }
    c.phase("random NFAs");
    for _ in 0..c.n(quick / 6) {
        let d = rich_nfa(&mut r);
        let m = snap_n(&d);
        if m.wf().is_err() {
            continue;
        }
        c.case(true, m.show(), || f(&d));
    }
    c.phase("NFAs built by library operations");
}
pub fn c07(c: &mut Ctx) {
    nfa_sweep(c, 2500, det_ok)
}

// ---------------------------------------------------------------- C08
fn eps_ok(n: &Nfa) -> R {
    let m = snap_n(n);
    for which in 0..4 {
        let mut x = n.clone();
        let what = if which % 2 == 0 { "remove_epsilon_moves" } else { "optimize" };
        if which % 2 == 0 {
            x.remove_epsilon_moves();
        } else {
            x.optimize();
        }
        let s = snap_n(&x);
        s.wf().map_err(|e| format!("after {what}: {e}\n{}", s.show()))?;
        ck!(s.eps.iter().all(|e| e.is_empty()), "{what} left an epsilon move\n{}", s.show());
        first_occurrence_same(&m, &s)?;
        lang_eq(&m, &s).map_err(|e| format!("{what}: {e}\n{}", s.show()))?;
        if which % 2 == 0 && m.eps.iter().all(|e| e.is_empty()) {
            ck!(s == m, "an NFA without epsilon moves was changed by {what}\n{}", s.show());
        }
        if which % 2 == 1 {
            // unreachable states go first, then epsilon moves, which may need one more state
            ck!(s.n() <= m.reach().len() + 1, "optimize kept an unreachable state\n{}", s.show());
        }
    }
    Ok(())
}
pub fn c08(c: &mut Ctx) {
    nfa_sweep(c, 3500, eps_ok)
}

// ---------------------------------------------------------------- C09
fn removed_ok(m: &A, s: &A) -> R {
    let reach = m.reach();
    s.wf().map_err(|e| format!("after remove_unreachable_states: {e}\n{}", s.show()))?;
    ck!(s.alpha == m.alpha, "alphabet changed");
    let mut keep: Vec<&String> = reach.iter().map(|&q| &m.names[q]).collect();
    let mut got: Vec<&String> = s.names.iter().collect();
    keep.sort();
    got.sort();
    ck!(keep == got, "the states left are {:?} but the reachable ones are {:?}", got, keep);
    let to: HashMap<usize, usize> = reach.iter().map(|&q| (q, s.names.iter().position(|n| n == &m.names[q]).unwrap())).collect();
    for &q in &reach {
        let p = to[&q];
        ck!(s.acc[p] == m.acc[q] && s.iflag[p] == m.iflag[q], "flags of {:?} changed", m.names[q]);
        for a in 0..m.alpha.len() {
            let want: Set = m.tr[q][a].iter().map(|t| to[t]).collect();
            ck!(set(&s.tr[p][a]) == want, "transitions of {:?} on {:?} changed\n{}", m.names[q], m.alpha[a], s.show());
        }
        let want: Set = m.eps[q].iter().map(|t| to[t]).collect();
        ck!(set(&s.eps[p]) == want, "epsilon moves of {:?} changed", m.names[q]);
    }
    lang_eq(m, s)
}
fn reach_d(d: &Dfa) -> R {
    let m = snap_d(d);
    let reach = m.reach();
    let un: Set = (0..m.n()).filter(|q| !reach.contains(q)).collect();
    let got: Set = d.reachable_state_idx().into_iter().collect();
    ck!(got == reach, "reachable_state_idx = {:?} instead of {:?}", got, reach);
    let got: Set = d.unreachable_state_idx().into_iter().collect();
    ck!(got == un, "unreachable_state_idx = {:?} instead of {:?}", got, un);
    let nm = |v: Vec<&DfaState>| { let mut v: Vec<String> = v.iter().map(|s| s.name().to_string()).collect(); v.sort(); v };
    let want = |s: &Set| { let mut v: Vec<String> = s.iter().map(|&q| m.names[q].clone()).collect(); v.sort(); v };
    ck!(nm(d.reachable_states()) == want(&reach), "reachable_states");
    ck!(nm(d.unreachable_states()) == want(&un), "unreachable_states");
    ck!(d.has_reachable_accepting_state() == m.nonempty(), "has_reachable_accepting_state = {}", !m.nonempty());
    let mut x = d.clone();
    x.remove_unreachable_states();
    removed_ok(&m, &snap_d(&x))
}
fn reach_n(d: &Nfa) -> R {
    let m = snap_n(d);
    let reach = m.reach();
    let un: Set = (0..m.n()).filter(|q| !reach.contains(q)).collect();
    let got: Set = d.reachable_state_idx().into_iter().collect();
    ck!(got == reach, "reachable_state_idx = {:?} instead of {:?}", got, reach);
    let got: Set = d.unreachable_state_idx().into_iter().collect();
    ck!(got == un, "unreachable_state_idx = {:?} instead of {:?}", got, un);
    let nm = |v: Vec<&dandy::nfa::NfaState>| { let mut v: Vec<String> = v.iter().map(|s| s.name().to_string()).collect(); v.sort(); v };
    let want = |s: &Set| { let mut v: Vec<String> = s.iter().map(|&q| m.names[q].clone()).collect(); v.sort(); v };
    ck!(nm(d.reachable_states()) == want(&reach), "reachable_states");
    ck!(nm(d.unreachable_states()) == want(&un), "unreachable_states");
    ck!(d.has_reachable_accepting_state() == m.nonempty(), "has_reachable_accepting_state = {}", !m.nonempty());
    let mut x = d.clone();
    x.remove_unreachable_states();
    removed_ok(&m, &snap_n(&x))
}
pub fn c09(c: &mut Ctx) {
    for m in all_dfas(3, 1).into_iter().chain(all_dfas(2, 2)) {
        c.case(true, m.show(), || reach_d(&m.build_d()));
    }
    c.phase("all DFAs with 3 states and 1 symbol, and with 2 states and 2 symbols");
    let mut r = c.rng("dfa");
    for i in 0..c.n(2500) {
        let m = dfa(&mut r, if i % 50 == 0 { 80 } else { 8 }, 3);
        let m = if i % 3 == 0 { let e = r.range(1, 4); with_unreachable(&mut r, &m, e) } else { m };
        let m = if i % 2 == 0 { permuted(&mut r, &m) } else { m };
        c.case(true, m.show(), || reach_d(&m.build_d()));
    }
    c.phase("random DFAs");
    let mut r = c.rng("nfa2");
    for i in 0..c.n(1500) {
        let m = nfa(&mut r, 9, 3, true);
        let m = if i % 3 == 0 { let e = r.range(1, 4); with_unreachable(&mut r, &m, e) } else { m };
        let m = permuted(&mut r, &m);
        c.case(true, m.show(), || reach_n(&m.build_n()));
    }
    c.phase("random NFAs, initial state anywhere");
    nfa_sweep(c, 1500, reach_n);
}

// ---------------------------------------------------------------- C10 / C11
fn union_ok(a: &Nfa, b: &Nfa) -> R {
    let (m1, m2) = (snap_n(a), snap_n(b));
    match a.clone().union(b.clone()) {
        Err((x, y)) => {
            ck!(!m1.same_alphabet(&m2), "union refused equal alphabets {:?} and {:?}", m1.alpha, m2.alpha);
            ck!(snap_n(&x) == m1 && snap_n(&y) == m2, "union did not hand the operands back unchanged");
        }
        Ok(u) => {
            ck!(m1.same_alphabet(&m2), "union accepted different alphabets {:?} and {:?}", m1.alpha, m2.alpha);
            let s = snap_n(&u);
            s.wf().map_err(|e| format!("the union is not well formed: {e}\n{}", s.show()))?;
            ck!(s.alpha == m1.alpha, "the union's alphabet is {:?}", s.alpha);
            if let Some(w) = find_word(&[&s, &m1, &m2], |v| v[0] == (v[1] || v[2])) {
                return Err(format!("union: wrong on the word {w:?}\n{}", s.show()));
            }
        }
    }
    Ok(())
}
fn inter_ok(a: &Nfa, b: &Nfa) -> R {
    let (m1, m2) = (snap_n(a), snap_n(b));
    let res = a.intersection(b);
    ck!(snap_n(a) == m1 && snap_n(b) == m2, "intersection changed an operand");
    ck!(res.is_some() == m1.same_alphabet(&m2), "intersection returned {} for alphabets {:?} and {:?}", if res.is_some() { "a result" } else { "nothing" }, m1.alpha, m2.alpha);
    if let Some(u) = res {
        let s = snap_n(&u);
        s.wf().map_err(|e| format!("the intersection is not well formed: {e}\n{}", s.show()))?;
        ck!(s.alpha == m1.alpha, "the intersection's alphabet is {:?}", s.alpha);
        if let Some(w) = find_word(&[&s, &m1, &m2], |v| v[0] == (v[1] && v[2])) {
            return Err(format!("intersection: wrong on the word {w:?}\n{}", s.show()));
        }
    }
    Ok(())
}
fn nfa_pairs(c: &mut Ctx, f: fn(&Nfa, &Nfa) -> R) {
    let mut r = c.rng("small");
    let small: Vec<A> = all_nfas(2, 1, true);
    let built: Vec<Nfa> = small.iter().map(|m| m.build_n()).collect();
    for _ in 0..c.n(3000) {
        let (i, j) = (r.below(small.len()), r.below(small.len()));
        c.case(true, show2(&small[i], &small[j]), || f(&built[i], &built[j]));
    }
    c.phase("sampled pairs of NFAs with 2 states, 1 symbol, epsilon");
    let mut r = c.rng("random");
    for i in 0..c.n(2500) {
        if !c.time_left() {
            break;
        }
        let (a, b) = if i % 100 == 99 { pair_like(&mut r, i, false, 10, 2) } else { pair_like(&mut r, i, false, 4, 4) };
        c.case(true, show2(&a, &b), || f(&a.build_n(), &b.build_n()));
    }
    c.phase("random pairs (permuted, near copies, other alphabets, clashing names)");
    for _ in 0..c.n(300) {
        let (a, b) = (rich_nfa(&mut r), rich_nfa(&mut r));
        let (m, n) = (snap_n(&a), snap_n(&b));
        if m.wf().is_err() || n.wf().is_err() || m.n() * n.n() > 400 {
            continue;
        }
        c.case(true, show2(&m, &n), || f(&a, &b));
    }
    c.phase("NFAs built by library operations");
}
pub fn c10(c: &mut Ctx) {
    nfa_pairs(c, union_ok)
}
pub fn c11(c: &mut Ctx) {
    nfa_pairs(c, inter_ok)
}

// ---------------------------------------------------------------- C20 / C21
fn to_nfa_ok(d: &Dfa) -> R {
    let m = snap_d(d);
    for n in [d.clone().to_nfa(), Nfa::from(d.clone())] {
        let s = snap_n(&n);
        s.wf()?;
        ck!(s.alpha == m.alpha && s.names == m.names && s.iflag == m.iflag && s.acc == m.acc && s.init == m.init, "to_nfa changed alphabet, names, flags or initial state\n{}", s.show());
        ck!(s.eps.iter().all(|e| e.is_empty()), "to_nfa added an epsilon move");
        ck!(s.tr == m.tr, "to_nfa changed a transition\n{}", s.show());
    }
    Ok(())
}
fn invert_ok(d: &Dfa) -> R {
    let m = snap_d(d);
    let mut x = d.clone();
    x.invert();
    let s = snap_d(&x);
    let mut want = m.clone();
    want.acc.iter_mut().for_each(|b| *b = !*b);
    ck!(s == want, "invert: expected\n{}got\n{}", want.show(), s.show());
    x.invert();
    ck!(snap_d(&x) == m, "inverting twice does not give the original");
    ck!(&x == d, "inverting twice does not give an equal automaton");
    Ok(())
}
fn dfa_sweep(c: &mut Ctx, f: fn(&Dfa) -> R) {
    for m in all_dfas(3, 1).into_iter().chain(all_dfas(2, 2)) {
        c.case(true, m.show(), || f(&m.build_d()));
    }
    c.phase("all DFAs with 3 states and 1 symbol, and with 2 states and 2 symbols");
    let mut r = c.rng("random");
    for i in 0..c.n(4000) {
        if !c.time_left() {
            break;
        }
        let m = if i % 60 == 0 { dfa(&mut r, 300, 3) } else if i % 60 == 1 { dfa(&mut r, 3, 40) } else { dfa(&mut r, 9, 4) };
        c.case(true, m.show(), || f(&m.build_d()));
    }
    c.phase("random DFAs");
    for _ in 0..c.n(400) {
        let d = rich_dfa(&mut r);
        let m = snap_d(&d);
        if m.wf().is_err() {
            continue;
        }
        c.case(true, m.show(), || f(&d));
    }
    c.phase("DFAs built by library operations");
}
pub fn c20(c: &mut Ctx) {
    dfa_sweep(c, to_nfa_ok)
}
pub fn c21(c: &mut Ctx) {
    dfa_sweep(c, invert_ok)
}

// ---------------------------------------------------------------- C22
#[derive(Clone)]
enum Obj {
    D(Dfa),
    N(Nfa),
}
impl Obj {
    fn snap(&self) -> A {
        match self {
            Obj::D(d) => snap_d(d),
            Obj::N(n) => snap_n(n),
        }
    }
}
/// one random operation; the log names it
fn op(r: &mut Rng, pool: &mut Vec<Obj>, log: &mut String) {
    let i = r.below(pool.len());
    let j = r.below(pool.len());
    let x = pool[i].clone();
    let y = pool[j].clone();
    let same = x.snap().same_alphabet(&y.snap());
    let mut put = |o: Obj| {
        if pool.len() < 6 {
            pool.push(o)
        } else {
            pool[i] = o
        }
    };
    match x {
        Obj::D(mut d) => {
            let k = r.below(11);
            log.push_str(&format!("dfa op {k} on object {i} (other {j})\n"));
            match (k, y) {
                (0, _) => { d.invert(); put(Obj::D(d)) }
                (1, _) => { d.minimize(); put(Obj::D(d)) }
                (2, _) => { d.remove_unreachable_states(); put(Obj::D(d)) }
                (3, _) => { d.merge_nondistinguishable_states(); put(Obj::D(d)) }
                (4, _) => put(Obj::N(d.to_nfa())),
                (5, Obj::D(e)) if same => put(Obj::D(d.union(&e).unwrap())),
                (6, Obj::D(e)) if same => put(Obj::D(d.intersection(&e).unwrap())),
                (7, Obj::D(e)) if same => put(Obj::D(d.difference(&e).unwrap())),
                (8, Obj::D(e)) => {
                    if let Some(x) = d.symmetric_difference(&e) {
                        put(Obj::D(x))
                    }
                }
                (9, Obj::D(e)) => {
                    d.equivalent_to(&e);
                    d.has_reachable_accepting_state();
                }
                _ => {
                    d.to_table();
                    d.accepts(&["a", "b", "zz"]);
                }
            }
        }
        Obj::N(mut n) => {
            let k = r.below(11);
            log.push_str(&format!("nfa op {k} on object {i} (other {j})\n"));
            match (k, y) {
                (0, _) => { n.remove_epsilon_moves(); put(Obj::N(n)) }
                (1, _) => { n.optimize(); put(Obj::N(n)) }
                (2, _) => { n.remove_unreachable_states(); put(Obj::N(n)) }
                (3 | 4, _) => put(Obj::D(n.to_dfa())),
                (5 | 6, Obj::N(e)) if n.states().len() + e.states().len() < 40 => match n.union(e) {
                    Ok(u) => put(Obj::N(u)),
                    Err(_) => (),
                },
                (7 | 8, Obj::N(e)) if n.states().len() * e.states().len() < 120 => {
                    if let Some(u) = n.intersection(&e) {
                        put(Obj::N(u))
                    }
                }
                (9, Obj::N(e)) => {
                    n.equivalent_to(&e);
                }
                _ => {
                    n.to_table();
                    n.accepts(&["a", "b", "zz"]);
                    if !n.has_epsilon_moves() && n.states().len() < 12 {
                        n.words().take(5).count();
                    }
                }
            }
        }
    }
}

pub fn c22(c: &mut Ctx) {
    let mut r0 = c.rng("chains");
    for _ in 0..c.n(1500) {
        if !c.time_left() {
            break;
        }
        let seed = r0.next();
        let mut r = Rng::new(seed);
        let k = r.range(1, 3);
        let al = alphabet(&mut r, k);
        let mut start: Vec<A> = vec![];
        for _ in 0..r.range(1, 3) {
            let mut a2 = al.clone();
            if r.chance(1, 2) {
                r.shuffle(&mut a2);
            }
            let n = r.range(1, 4);
            start.push(if r.chance(1, 2) { dfa_over(&mut r, n, a2) } else { nfa_over(&mut r, n, a2, true) });
        }
        let rx = r.chance(1, 3).then(|| gen_regex(&mut r, 5, &["a", "b"]));
        let steps = r.range(2, 9);
        let desc = format!("seed {seed}, {steps} random operations starting from\n{}{}", start.iter().map(|m| m.show()).collect::<String>(), rx.as_ref().map_or(String::new(), |r| format!("regex {:?}\n", r.tree)));
        c.case(true, desc, || {
            let mut pool: Vec<Obj> = start.iter().map(|m| if m.dfa { Obj::D(m.build_d()) } else { Obj::N(m.build_n()) }).collect();
            if let Some(x) = rx {
                pool.push(Obj::N(x.to_nfa()));
            }
            let mut log = String::new();
            for _ in 0..steps {
                let before = log.len();
                // sizes can explode: stop chaining big objects
                pool.retain(|o| o.snap().n() <= 60);
                if pool.is_empty() {
                    break;
                }
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| op(&mut r, &mut pool, &mut log)));
                ck!(res.is_ok(), "panic in the chain\n{log}");
                for o in &pool {
                    if let Err(e) = o.snap().wf() {
                        return Err(format!("after {}the result is not well formed: {e}\n{}history:\n{log}", &log[before..], o.snap().show()));
                    }
                }
            }
            Ok(())
        });
    }
    c.phase("random histories of operations");
    let mut r = c.rng("pairs");
    for i in 0..c.n(1500) {
        let (a, b) = pair_like(&mut r, i, i % 2 == 0, 4, 2);
        c.case(true, show2(&a, &b), || {
            let chk = |what: &str, s: A| s.wf().map_err(|e| format!("{what}: {e}\n{}", s.show()));
            if a.dfa {
                let (x, y) = (a.build_d(), b.build_d());
                for (nm, f, _) in binops() {
                    if let Some(d) = f(&x, &y) {
                        chk(nm, snap_d(&d))?;
                        let mut d2 = d.clone();
                        d2.minimize();
                        chk("minimize", snap_d(&d2))?;
                        if let Some(d3) = f(&d, &d2) {
                            chk(nm, snap_d(&d3))?;
                        }
                    }
                }
                chk("to_nfa", snap_n(&x.clone().to_nfa()))?;
            } else {
                let (x, y) = (a.build_n(), b.build_n());
                chk("to_dfa", snap_d(&x.to_dfa()))?;
                if let Some(p) = x.intersection(&y) {
                    chk("intersection", snap_n(&p))?;
                }
                if let Ok(mut u) = x.union(y) {
                    chk("union", snap_n(&u))?;
                    let v = u.clone();
                    if let Ok(w) = v.clone().union(v) {
                        chk("union twice", snap_n(&w))?;
                    }
                    u.remove_epsilon_moves();
                    chk("remove_epsilon_moves", snap_n(&u))?;
                    u.remove_unreachable_states();
                    chk("remove_unreachable_states", snap_n(&u))?;
                    chk("to_dfa", snap_d(&u.to_dfa()))?;
                }
            }
            Ok(())
        });
    }
    c.phase("fixed compositions on random pairs");
}
