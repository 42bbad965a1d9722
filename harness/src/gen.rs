//! Generators: exhaustive small automata and seeded random ones of many shapes.
use crate::ctx::Rng;
use crate::model::A;
use std::collections::BTreeSet;

pub const POOL: &[&str] = &[
    "a", "b", "c", "d", "0", "1", "2", "aa", "ab", "é", "e\u{301}", "å", "漢", "👨‍👩‍👧", "x1", "(", ",", "|", "\\", "s0", "B", "A", "long_symbol", "z", "y", "σ", "epsx", "-", ">", "none",
];

pub fn alphabet(r: &mut Rng, k: usize) -> Vec<String> {
    let mode = r.below(4);
    if mode == 0 && k <= 26 {
        return (0..k).map(|i| ((b'a' + i as u8) as char).to_string()).collect();
    }
    let mut v: Vec<String> = vec![];
    while v.len() < k {
        let s = if k > 12 { format!("y{}", v.len()) } else { r.pick(POOL).to_string() };
        if !v.contains(&s) {
            v.push(s);
        }
    }
    v
}

pub fn names(r: &mut Rng, n: usize) -> Vec<String> {
    let pool: Vec<&str> = match r.below(6) {
        0 => vec![],
        1 => vec!["1", "2", "3", "4", "5", "6", "7", "8", "9", "0"],
        2 => vec!["s_new", "s", "s_new0", "s_new1", "s_", "1", "2", "3", "s_init", "s_new'"],
        3 => vec!["(a", "(a,b", "a", "a,b", "b", "b,c", "c", "(a,b)", ",", "(", ")"],
        4 => vec!["none", "q", "a", "s1", "s0", "0", "1", "2", "(none,none)", "4"],
        _ => vec!["é", "e\u{301}", "漢字", "x", "s₀", "s₁", "*a", "->q", "a_really_rather_long_state_name", "→p", "a\u{200b}"],
    };
    let mut pool: Vec<String> = pool.iter().map(|s| s.to_string()).collect();
    r.shuffle(&mut pool);
    let mut out: Vec<String> = pool.into_iter().take(n).collect();
    let mut i = 0;
    while out.len() < n {
        let s = format!("s{i}");
        i += 1;
        if !out.contains(&s) {
            out.push(s);
        }
    }
    if r.chance(1, 2) {
        r.shuffle(&mut out);
    }
    out
}

fn base(dfa: bool, r: &mut Rng, n: usize, alpha: Vec<String>) -> A {
    let init = if r.chance(1, 2) { 0 } else { r.below(n) };
    A {
        dfa,
        names: names(r, n),
        iflag: (0..n).map(|i| i == init).collect(),
        acc: vec![false; n],
        init,
        tr: vec![vec![vec![]; alpha.len()]; n],
        eps: vec![vec![]; n],
        alpha,
    }
}

fn acc(r: &mut Rng, m: &mut A) {
    let mode = r.below(8);
    for q in 0..m.n() {
        m.acc[q] = match mode {
            0 => false,
            1 => true,
            2 => r.chance(1, 5),
            3 => r.chance(4, 5),
            _ => r.chance(1, 2),
        };
    }
    if mode == 7 {
        for b in m.acc.iter_mut() {
            *b = false;
        }
        let q = r.below(m.n());
        m.acc[q] = true;
    }
}

pub fn dfa_over(r: &mut Rng, n: usize, alpha: Vec<String>) -> A {
    let mut m = base(true, r, n, alpha);
    acc(r, &mut m);
    let mode = r.below(6);
    for q in 0..n {
        for a in 0..m.alpha.len() {
            m.tr[q][a] = vec![match mode {
                // ring / chain: long distinguishing words
                0 if a == 0 => (q + 1) % n,
                1 if a == 0 => (q + 1).min(n - 1),
                // two halves that never meet
                2 => {
                    let h = (n + 1) / 2;
                    if q < h { r.below(h) } else { r.range(h.min(n - 1), n - 1) }
                }
                // duplicates of few behaviours
                3 => r.below(n.min(3)),
                _ => r.below(n),
            }];
        }
    }
    if mode == 3 || r.chance(1, 6) {
        // copies of one state's row: many equivalent states
        let src = r.below(n);
        for q in 0..n {
            if r.chance(1, 2) {
                m.tr[q] = m.tr[src].clone();
                m.acc[q] = m.acc[src];
            }
        }
    }
    m
}

pub fn dfa(r: &mut Rng, maxn: usize, maxk: usize) -> A {
    let n = r.range(1, maxn);
    let k = r.range(1, maxk);
    let al = alphabet(r, k);
    dfa_over(r, n, al)
}

pub fn nfa_over(r: &mut Rng, n: usize, alpha: Vec<String>, eps: bool) -> A {
    let mut m = base(false, r, n, alpha);
    acc(r, &mut m);
    let dens = r.range(1, 6);
    let mode = r.below(6);
    let mut pickset = |r: &mut Rng, q: usize| -> Vec<usize> {
        let mut v = vec![];
        for t in 0..n {
            if r.chance(dens, 3 * n) {
                v.push(t);
            }
        }
        match mode {
            0 => v.retain(|&t| t >= q),
            1 => v.push((q + 1) % n),
            2 => v.retain(|&t| (t < (n + 1) / 2) == (q < (n + 1) / 2)),
            _ => (),
        }
        if r.chance(1, 2) {
            r.shuffle(&mut v);
        }
        if !v.is_empty() && r.chance(1, 8) {
            let x = *r.pick(&v);
            v.push(x); // duplicate entry
        }
        v
    };
    let ed = r.range(1, 3);
    for q in 0..n {
        for a in 0..m.alpha.len() {
            m.tr[q][a] = pickset(r, q);
        }
        if eps && r.chance(ed, 4) {
            m.eps[q] = pickset(r, q);
        }
        if eps && r.chance(1, 10) {
            m.eps[q].push(q);
        }
    }
    m
}

pub fn nfa(r: &mut Rng, maxn: usize, maxk: usize, eps: bool) -> A {
    let n = r.range(1, maxn);
    let k = if eps && r.chance(1, 40) { 0 } else { r.range(1, maxk) };
    let al = alphabet(r, k);
    nfa_over(r, n, al, eps)
}

/// same language, other presentation: symbols permuted, states permuted, renamed
pub fn permuted(r: &mut Rng, m: &A) -> A {
    let n = m.n();
    let mut ps: Vec<usize> = (0..n).collect(); // new index of old state
    r.shuffle(&mut ps);
    let mut pa: Vec<usize> = (0..m.alpha.len()).collect(); // pa[newcol] = oldcol
    r.shuffle(&mut pa);
    let nm = if r.chance(1, 3) {
        let mut v = vec![String::new(); n];
        for i in 0..n {
            v[ps[i]] = m.names[i].clone();
        }
        v
    } else {
        names(r, n)
    };
    let mut o = A {
        dfa: m.dfa,
        alpha: pa.iter().map(|&i| m.alpha[i].clone()).collect(),
        names: nm,
        iflag: vec![false; n],
        acc: vec![false; n],
        init: ps[m.init],
        tr: vec![vec![]; n],
        eps: vec![vec![]; n],
    };
    o.iflag[o.init] = true;
    for q in 0..n {
        o.acc[ps[q]] = m.acc[q];
        o.tr[ps[q]] = pa.iter().map(|&c| m.tr[q][c].iter().map(|&t| ps[t]).collect()).collect();
        o.eps[ps[q]] = m.eps[q].iter().map(|&t| ps[t]).collect();
    }
    o
}

/// a near copy: one local change
pub fn mutated(r: &mut Rng, m: &A) -> A {
    let mut o = m.clone();
    let n = o.n();
    match r.below(if o.alpha.is_empty() { 1 } else { 4 }) {
        3 => {
            // the same tables under other column headings
            let mut al = o.alpha.clone();
            r.shuffle(&mut al);
            o.alpha = al;
        }
        0 => {
            let q = r.below(n);
            o.acc[q] = !o.acc[q];
        }
        1 => {
            let q = r.below(n);
            let a = r.below(o.alpha.len());
            if o.dfa {
                o.tr[q][a] = vec![r.below(n)];
            } else if o.tr[q][a].is_empty() || r.chance(1, 2) {
                o.tr[q][a].push(r.below(n));
            } else {
                o.tr[q][a].pop();
            }
        }
        _ => {
            o.init = r.below(n);
            for q in 0..n {
                o.iflag[q] = q == o.init;
            }
        }
    }
    o
}

/// add states nobody reaches
pub fn with_unreachable(r: &mut Rng, m: &A, extra: usize) -> A {
    let mut o = m.clone();
    let n = o.n();
    for i in 0..extra {
        let mut nm = format!("u{i}");
        while o.names.contains(&nm) {
            nm.push('_');
        }
        o.names.push(nm);
        o.iflag.push(false);
        o.acc.push(r.chance(1, 2));
        let row = (0..o.alpha.len()).map(|_| vec![r.below(n + extra)]).collect();
        o.tr.push(row);
        o.eps.push(if o.dfa || r.chance(1, 2) { vec![] } else { vec![r.below(n + extra)] });
    }
    o
}

/// all DFAs with n states over k symbols with the initial state anywhere, fixed names
pub fn all_dfas(n: usize, k: usize) -> Vec<A> {
    let mut out = vec![];
    let cells = n * k;
    let tot = n.pow(cells as u32);
    for t in 0..tot {
        for ac in 0..(1 << n) {
            for init in 0..n {
                let mut x = t;
                let mut tr = vec![vec![vec![]; k]; n];
                for q in 0..n {
                    for a in 0..k {
                        tr[q][a] = vec![x % n];
                        x /= n;
                    }
                }
                out.push(A {
                    dfa: true,
                    alpha: (0..k).map(|i| ["a", "b", "c"][i].to_string()).collect(),
                    names: (0..n).map(|i| format!("s{i}")).collect(),
                    iflag: (0..n).map(|i| i == init).collect(),
                    acc: (0..n).map(|i| ac >> i & 1 == 1).collect(),
                    init,
                    tr,
                    eps: vec![vec![]; n],
                });
            }
        }
    }
    out
}

pub fn all_nfas(n: usize, k: usize, eps: bool) -> Vec<A> {
    let mut out = vec![];
    let cols = k + eps as usize;
    let bits = n * n * cols;
    for t in 0u64..(1 << bits) {
        for ac in 0..(1 << n) {
            for init in 0..n {
                let mut x = t;
                let mut get = || {
                    let v: Vec<usize> = (0..n).filter(|i| x >> i & 1 == 1).collect();
                    x >>= n;
                    v
                };
                let mut tr = vec![vec![vec![]; k]; n];
                let mut ep = vec![vec![]; n];
                for q in 0..n {
                    for a in 0..k {
                        tr[q][a] = get();
                    }
                    if eps {
                        ep[q] = get();
                    }
                }
                out.push(A {
                    dfa: false,
                    alpha: (0..k).map(|i| ["a", "b", "c"][i].to_string()).collect(),
                    names: (0..n).map(|i| format!("s{i}")).collect(),
                    iflag: (0..n).map(|i| i == init).collect(),
                    acc: (0..n).map(|i| ac >> i & 1 == 1).collect(),
                    init,
                    tr,
                    eps: ep,
                });
            }
        }
    }
    out
}

/// words over the alphabet (sometimes with symbols outside it)
pub fn word(r: &mut Rng, m: &A, maxlen: usize, foreign: bool) -> Vec<String> {
    let l = r.below(maxlen + 1);
    (0..l)
        .map(|_| {
            if m.alpha.is_empty() || (foreign && r.chance(1, 5)) {
                let s = if r.chance(1, 3) && !m.alpha.is_empty() {
                    let x = r.pick(&m.alpha).clone();
                    if r.chance(1, 2) { format!("{x}{x}") } else { x.to_uppercase() }
                } else {
                    r.pick(&["zz", "", "ε", "?", "a", "b", "aa", "é", "\u{301}", " "]).to_string()
                };
                s
            } else {
                r.pick(&m.alpha).clone()
            }
        })
        .collect()
}

pub fn set(v: &[usize]) -> BTreeSet<usize> {
    v.iter().copied().collect()
}

/// many states, hardly any choice: subsets stay small while indices get large
pub fn wide_nfa(r: &mut Rng, n: usize, k: usize, eps: bool) -> A {
    let al = alphabet(r, k);
    let mut m = base(false, r, n, al);
    // nothing leads back to the initial state, which is the only one with a choice
    let i = m.init;
    let other = |r: &mut Rng| { let t = r.below(n - 1); if t >= i { t + 1 } else { t } };
    for q in 0..n {
        m.acc[q] = r.chance(1, 6);
        for a in 0..k {
            if a == 0 && r.chance(9, 10) {
                m.tr[q][a] = vec![if (q + 1) % n == i { (q + 2) % n } else { (q + 1) % n }];
            } else if r.chance(1, 12) {
                m.tr[q][a] = vec![other(r)];
            }
        }
    }
    let t = other(r);
    if eps {
        m.eps[i].push(t);
    } else {
        m.tr[i][0].push(t);
    }
    m
}

/// names whose joint names "(left,right)" collide for different pairs
pub fn comma_names(r: &mut Rng, m: &mut A, left: bool) {
    let n = m.n();
    let rep = |s: &str, i: usize| s.repeat(i);
    let mut v: Vec<String> = (0..n).map(|i| if left { format!("x{}", rep(",y", i)) } else { format!("{}z", rep("y,", i)) }).collect();
    if r.chance(1, 2) {
        r.shuffle(&mut v);
    }
    if r.chance(1, 4) {
        // one name that a numbered fallback would also use
        let i = r.below(n);
        v[i] = r.below(4).to_string();
    }
    m.names = v;
}
