//! Plain mathematical automata (the oracle side). Nothing here calls library algorithms: a snapshot is taken through
//! the public accessors and everything else is computed from the snapshot.
use dandy::dfa::Dfa;
use dandy::nfa::Nfa;
use std::collections::{BTreeSet, HashMap, VecDeque};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct A {
    pub dfa: bool,
    pub alpha: Vec<String>,
    pub names: Vec<String>,
    pub iflag: Vec<bool>,
    pub acc: Vec<bool>,
    pub init: usize,
    pub tr: Vec<Vec<Vec<usize>>>,
    pub eps: Vec<Vec<usize>>,
}

pub type Set = BTreeSet<usize>;

pub fn snap_d(d: &Dfa) -> A {
    A {
        dfa: true,
        alpha: d.alphabet().iter().map(|s| s.to_string()).collect(),
        names: d.states().iter().map(|s| s.name().to_string()).collect(),
        iflag: d.states().iter().map(|s| s.is_initial()).collect(),
        acc: d.states().iter().map(|s| s.is_accepting()).collect(),
        init: d.initial_state_index(),
        tr: d.states().iter().map(|s| s.transitions().iter().map(|&t| vec![t]).collect()).collect(),
        eps: d.states().iter().map(|_| vec![]).collect(),
    }
}
pub fn snap_n(d: &Nfa) -> A {
    A {
        dfa: false,
        alpha: d.alphabet().iter().map(|s| s.to_string()).collect(),
        names: d.states().iter().map(|s| s.name().to_string()).collect(),
        iflag: d.states().iter().map(|s| s.is_initial()).collect(),
        acc: d.states().iter().map(|s| s.is_accepting()).collect(),
        init: d.initial_state_index(),
        tr: d.states().iter().map(|s| s.transitions().to_vec()).collect(),
        eps: d.states().iter().map(|s| s.epsilon_transitions().to_vec()).collect(),
    }
}

impl A {
    pub fn n(&self) -> usize {
        self.names.len()
    }
    pub fn wf(&self) -> Result<(), String> {
        let n = self.n();
        if n == 0 {
            return Err("no states".into());
        }
        if self.alpha.iter().collect::<BTreeSet<_>>().len() != self.alpha.len() {
            return Err(format!("repeated symbol in the alphabet {:?}", self.alpha));
        }
        if self.names.iter().collect::<BTreeSet<_>>().len() != n {
            return Err(format!("repeated state name: {:?}", self.names));
        }
        if self.init >= n {
            return Err("initial state index out of range".into());
        }
        for i in 0..n {
            if self.iflag[i] != (i == self.init) {
                return Err(format!("initial flag of state {i} ({}) is {} but the initial state is {}", self.names[i], self.iflag[i], self.init));
            }
            if self.tr[i].len() != self.alpha.len() {
                return Err(format!("state {i} has {} entries for {} symbols", self.tr[i].len(), self.alpha.len()));
            }
            for t in self.tr[i].iter().chain(std::iter::once(&self.eps[i])).flatten() {
                if *t >= n {
                    return Err(format!("state {i} has a transition to the missing state {t}"));
                }
            }
            if self.dfa && self.tr[i].iter().any(|t| t.len() != 1) {
                return Err("not deterministic".into());
            }
        }
        Ok(())
    }
    pub fn closure(&self, s: &Set) -> Set {
        let mut out = s.clone();
        let mut st: Vec<usize> = s.iter().copied().collect();
        while let Some(q) = st.pop() {
            for &t in &self.eps[q] {
                if out.insert(t) {
                    st.push(t);
                }
            }
        }
        out
    }
    pub fn start(&self) -> Set {
        self.closure(&Set::from([self.init]))
    }
    pub fn step(&self, s: &Set, a: usize) -> Set {
        let mut o = Set::new();
        for &q in s {
            o.extend(self.tr[q][a].iter().copied());
        }
        self.closure(&o)
    }
    pub fn accepting(&self, s: &Set) -> bool {
        s.iter().any(|&q| self.acc[q])
    }
    pub fn sym(&self, s: &str) -> Option<usize> {
        self.alpha.iter().position(|x| x == s)
    }
    pub fn run(&self, w: &[&str]) -> Option<Set> {
        let mut s = self.start();
        for x in w {
            s = self.step(&s, self.sym(x)?);
        }
        Some(s)
    }
    pub fn accepts(&self, w: &[&str]) -> bool {
        self.run(w).map_or(false, |s| self.accepting(&s))
    }
    pub fn reach(&self) -> Set {
        let mut out = Set::from([self.init]);
        let mut st = vec![self.init];
        while let Some(q) = st.pop() {
            for &t in self.tr[q].iter().flatten().chain(&self.eps[q]) {
                if out.insert(t) {
                    st.push(t);
                }
            }
        }
        out
    }
    pub fn nonempty(&self) -> bool {
        self.reach().iter().any(|&q| self.acc[q])
    }
    pub fn same_alphabet(&self, o: &A) -> bool {
        self.alpha.iter().collect::<BTreeSet<_>>() == o.alpha.iter().collect::<BTreeSet<_>>()
    }
    /// exact determinization of the reachable part; symbols in this automaton's order; optional bound
    pub fn det(&self) -> A {
        let mut idx: HashMap<Set, usize> = HashMap::new();
        let mut list = vec![self.start()];
        idx.insert(list[0].clone(), 0);
        let mut tr = vec![];
        let mut k = 0;
        while k < list.len() {
            let cur = list[k].clone();
            let mut row = vec![];
            for a in 0..self.alpha.len() {
                let t = self.step(&cur, a);
                let l = list.len();
                let j = *idx.entry(t.clone()).or_insert(l);
                if j == l {
                    list.push(t);
                }
                row.push(vec![j]);
            }
            tr.push(row);
            k += 1;
        }
        let n = list.len();
        A {
            dfa: true,
            alpha: self.alpha.clone(),
            names: (0..n).map(|i| i.to_string()).collect(),
            iflag: (0..n).map(|i| i == 0).collect(),
            acc: list.iter().map(|s| self.accepting(s)).collect(),
            init: 0,
            tr,
            eps: vec![vec![]; n],
        }
    }
    /// class index of every state of a DFA (all states, not only reachable ones), by Moore refinement
    pub fn moore(&self) -> Vec<usize> {
        let n = self.n();
        let mut cl: Vec<usize> = self.acc.iter().map(|&b| b as usize).collect();
        loop {
            let mut m: HashMap<Vec<usize>, usize> = HashMap::new();
            let mut nx = vec![];
            for q in 0..n {
                let mut sig = vec![cl[q]];
                sig.extend(self.tr[q].iter().map(|t| cl[t[0]]));
                let l = m.len();
                nx.push(*m.entry(sig).or_insert(l));
            }
            let old: BTreeSet<usize> = cl.iter().copied().collect();
            if m.len() == old.len() {
                return nx;
            }
            cl = nx;
        }
    }
    pub fn min_size(&self) -> usize {
        let d = self.det();
        d.moore().into_iter().collect::<BTreeSet<_>>().len()
    }
    /// number of words per length up to l, by the subset automaton
    pub fn words_upto(&self, l: usize, cap: usize) -> Vec<Vec<usize>> {
        let mut out = vec![];
        let mut level: Vec<(Vec<usize>, Set)> = vec![(vec![], self.start())];
        for len in 0..=l {
            for (w, s) in &level {
                if self.accepting(s) {
                    out.push(w.clone());
                }
            }
            if len == l || level.len() > cap {
                break;
            }
            let mut nx = vec![];
            for (w, s) in &level {
                for a in 0..self.alpha.len() {
                    let t = self.step(s, a);
                    if t.is_empty() {
                        continue;
                    }
                    let mut w2 = w.clone();
                    w2.push(a);
                    nx.push((w2, t));
                }
            }
            level = nx;
        }
        out
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        s.push_str(&format!("{} alphabet {:?} initial {}\n", if self.dfa { "DFA" } else { "NFA" }, self.alpha, self.init));
        for q in 0..self.n() {
            s.push_str(&format!("  {q} {:?}{}{} ", self.names[q], if self.iflag[q] { " ->" } else { "" }, if self.acc[q] { " *" } else { "" }));
            if self.dfa {
                s.push_str(&format!("{:?}", self.tr[q].iter().map(|t| t.first().copied()).collect::<Vec<_>>()));
            } else {
                s.push_str(&format!("eps {:?} {:?}", self.eps[q], self.tr[q]));
            }
            s.push('\n');
        }
        s
    }
    /// text in the library's own table format, written directly from the documented grammar
    pub fn text(&self) -> String {
        self.text_eps(0)
    }
    /// eps_pos: 0 = epsilon column first if needed; k>0: epsilon column after k-1 symbols (always present)
    pub fn text_eps(&self, eps_pos: usize) -> String {
        let mut s = String::new();
        let use_eps = !self.dfa && (eps_pos > 0 || self.eps.iter().any(|e| !e.is_empty()) || self.alpha.is_empty());
        let at = eps_pos.saturating_sub(1).min(self.alpha.len());
        let mut cols: Vec<Option<usize>> = (0..self.alpha.len()).map(Some).collect();
        if use_eps {
            cols.insert(at, None);
        }
        for c in &cols {
            s.push(' ');
            s.push_str(c.map_or("eps", |i| &self.alpha[i]));
        }
        s.push('\n');
        for q in 0..self.n() {
            if self.iflag[q] {
                s.push_str("-> ");
            }
            if self.acc[q] {
                s.push_str("* ");
            }
            s.push_str(&self.names[q]);
            for c in &cols {
                let t = c.map_or(&self.eps[q], |i| &self.tr[q][i]);
                let l = t.iter().map(|&t| self.names[t].as_str()).collect::<Vec<_>>().join(" ");
                s.push(' ');
                if self.dfa {
                    s.push_str(&l);
                } else {
                    s.push_str(&format!("{{{l}}}"));
                }
            }
            s.push('\n');
        }
        s
    }
    pub fn build_d(&self) -> Dfa {
        let t = self.text();
        dandy::parser::dfa(&t).unwrap().try_into().unwrap()
    }
    pub fn build_n(&self) -> Nfa {
        let t = self.text();
        dandy::parser::nfa(&t).unwrap().try_into().unwrap()
    }
}

/// A word (as symbols) on which `pred` of the verdicts fails, or None if it holds for every word. All automata must
/// have the same symbols as the first (any order).
pub fn find_word(ms: &[&A], pred: impl Fn(&[bool]) -> bool) -> Option<Vec<String>> {
    let perm: Vec<Vec<usize>> = ms.iter().map(|m| ms[0].alpha.iter().map(|s| m.sym(s).unwrap()).collect()).collect();
    let start: Vec<Set> = ms.iter().map(|m| m.start()).collect();
    let mut seen: HashMap<Vec<Set>, Option<(Vec<Set>, usize)>> = HashMap::new();
    seen.insert(start.clone(), None);
    let mut q = VecDeque::from([start]);
    while let Some(cur) = q.pop_front() {
        let v: Vec<bool> = cur.iter().zip(ms).map(|(s, m)| m.accepting(s)).collect();
        if !pred(&v) {
            let mut w = vec![];
            let mut c = cur;
            while let Some(Some((p, a))) = seen.get(&c).cloned() {
                w.push(ms[0].alpha[a].clone());
                c = p;
            }
            w.reverse();
            return Some(w);
        }
        for a in 0..ms[0].alpha.len() {
            let nx: Vec<Set> = cur.iter().zip(ms).zip(&perm).map(|((s, m), p)| m.step(s, p[a])).collect();
            if !seen.contains_key(&nx) {
                seen.insert(nx.clone(), Some((cur.clone(), a)));
                q.push_back(nx);
            }
        }
    }
    None
}

pub fn lang_eq(a: &A, b: &A) -> Result<(), String> {
    if !a.same_alphabet(b) {
        return Err(format!("alphabets differ: {:?} and {:?}", a.alpha, b.alpha));
    }
    match find_word(&[a, b], |v| v[0] == v[1]) {
        None => Ok(()),
        Some(w) => Err(format!("the word {:?} is {} by the first and {} by the second", w, if a.accepts(&w.iter().map(|s| s.as_str()).collect::<Vec<_>>()) { "accepted" } else { "rejected" }, if b.accepts(&w.iter().map(|s| s.as_str()).collect::<Vec<_>>()) { "accepted" } else { "rejected" })),
    }
}
