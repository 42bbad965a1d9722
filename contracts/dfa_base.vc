@type dandy/src/dfa/mod.rs DfaState
@type dandy/src/dfa/mod.rs Dfa
@raw
// ------------------------------------------------------------------ what a DFA means
impl Dfa {
    // the part of well-formedness the language depends on
    pub open spec fn core(&self) -> bool {
        &&& alpha_distinct(self.alphabet@)
        &&& self.initial_state < self.states@.len()
        &&& forall|q: int| 0 <= q < self.states@.len() ==> (#[trigger] self.states@[q]).transitions@.len() == self.alphabet@.len()
        &&& forall|q: int, i: int| 0 <= q < self.states@.len() && 0 <= i < self.alphabet@.len() ==> #[trigger] self.states@[q].transitions@[i] < self.states@.len()
    }
    // full well-formedness
    pub open spec fn wf(&self) -> bool {
        &&& self.core()
        &&& forall|q: int| 0 <= q < self.states@.len() ==> (#[trigger] self.states@[q]).initial == (q == self.initial_state)
        &&& dnames_distinct(self.states@)
    }
    pub open spec fn next(&self, q: usize, i: int) -> usize { self.states@[q as int].transitions@[i] }
    pub open spec fn acc(&self, q: usize) -> bool { self.states@[q as int].accepting }
}
pub open spec fn dnames_distinct(s: Seq<DfaState>) -> bool { forall|p: int, q: int| 0 <= p < s.len() && 0 <= q < s.len() && p != q ==> (#[trigger] s[p]).name@ != (#[trigger] s[q]).name@ }
// one step of the transition table; None on a symbol outside the alphabet
pub open spec fn dstep(d: &Dfa, q: usize, c: Seq<char>) -> Option<usize> {
    if has_sym(d.alphabet@, c) { Some(d.next(q, sym_idx(d.alphabet@, c))) } else { None }
}
// the state reached from q by reading w; None when w contains an unknown symbol
pub open spec fn drun(d: &Dfa, q: usize, w: Word) -> Option<usize> decreases w.len() {
    if w.len() == 0 { Some(q) } else {
        match drun(d, q, w.drop_last()) { None => None, Some(p) => dstep(d, p, w.last()) }
    }
}
pub open spec fn dacc_from(d: &Dfa, q: usize, w: Word) -> bool { match drun(d, q, w) { Some(p) => d.acc(p), None => false } }
pub open spec fn daccepts(d: &Dfa, w: Word) -> bool { dacc_from(d, d.initial_state, w) }

pub proof fn lemma_drun_in(d: &Dfa, q: usize, w: Word)
    requires d.core(), q < d.states@.len(),
    ensures match drun(d, q, w) { Some(p) => p < d.states@.len(), None => true },
        drun(d, q, w) is Some <==> over(d.alphabet@, w),
    decreases w.len(),
{
    if w.len() > 0 {
        let v = w.drop_last();
        lemma_drun_in(d, q, v);
        if over(d.alphabet@, w) {
            assert forall|i: int| 0 <= i < v.len() implies has_sym(d.alphabet@, #[trigger] v[i]) by { assert(v[i] == w[i]); }
            assert(w.last() == w[w.len() - 1]);
        }
        if drun(d, q, w) is Some {
            assert forall|i: int| 0 <= i < w.len() implies has_sym(d.alphabet@, #[trigger] w[i]) by {
                if i < v.len() { assert(v[i] == w[i]); }
            }
        }
        if has_sym(d.alphabet@, w.last()) {
            let i = sym_idx(d.alphabet@, w.last());
            assert(0 <= i < d.alphabet@.len());
        }
    }
}
