@raw
// t is s with every transition made a one-element list and no epsilon moves
pub open spec fn nconv(s: DfaState, t: NfaState) -> bool {
    &&& t.name == s.name && t.initial == s.initial && t.accepting == s.accepting
    &&& t.epsilon_transitions@ == Seq::<usize>::empty()
    &&& t.transitions@.len() == s.transitions@.len()
    &&& forall|i: int| 0 <= i < s.transitions@.len() ==> (#[trigger] t.transitions@[i])@ == seq![s.transitions@[i]]
}
pub open spec fn dconv(d: &Dfa, n: &Nfa) -> bool {
    &&& n.alphabet == d.alphabet && n.initial_state == d.initial_state && n.states@.len() == d.states@.len()
    &&& forall|q: int| 0 <= q < d.states@.len() ==> nconv(#[trigger] d.states@[q], n.states@[q])
}
pub proof fn lemma_dconv_core(d: &Dfa, n: &Nfa)
    requires d.core(), dconv(d, n),
    ensures n.core(), d.wf() ==> n.wf(),
{
    assert forall|q: int| 0 <= q < n.states@.len() implies nstate_ok(#[trigger] n.states@[q], n.alphabet@.len(), n.n()) by {
        assert(nconv(d.states@[q], n.states@[q]));
        assert forall|i: int| 0 <= i < n.alphabet@.len() implies all_lt((#[trigger] n.states@[q].transitions@[i])@, n.n()) by {
            assert(d.states@[q].transitions@[i] < d.states@.len());
        }
    }
    if d.wf() {
        assert forall|q: int| 0 <= q < n.states@.len() implies (#[trigger] n.states@[q]).initial == (q == n.initial_state) by { assert(nconv(d.states@[q], n.states@[q])); assert(d.states@[q].initial == (q == d.initial_state)); }
        assert forall|p: int, q: int| 0 <= p < n.states@.len() && 0 <= q < n.states@.len() && p != q implies (#[trigger] n.states@[p]).name@ != (#[trigger] n.states@[q]).name@ by {
            assert(nconv(d.states@[p], n.states@[p])); assert(nconv(d.states@[q], n.states@[q]));
            assert(d.states@[p].name@ != d.states@[q].name@);
        }
    }
}
// the moves of the NFA are the steps of the DFA
pub proof fn lemma_dconv_edge(d: &Dfa, n: &Nfa, p: usize, c: Seq<char>, q: usize)
    requires d.core(), dconv(d, n), p < d.states@.len(),
    ensures !eedge(n, p, q), sedge(n, p, c, q) <==> dstep(d, p, c) == Some(q),
{
    assert(nconv(d.states@[p as int], n.states@[p as int]));
    if has_sym(d.alphabet@, c) {
        let i = sym_idx(d.alphabet@, c);
        assert(0 <= i < d.alphabet@.len());
        let s = n.tr(p, i);
        assert(s == seq![d.next(p, i)]);
        assert(s[0] == d.next(p, i));
        if s.contains(q) { let j = choose|j: int| 0 <= j < s.len() && s[j] == q; assert(j == 0); }
    }
}
pub proof fn lemma_dconv_path(d: &Dfa, n: &Nfa, p: usize, w: Word, q: usize, k: nat)
    requires d.core(), dconv(d, n), p < d.states@.len(), npath(n, p, w, q, k),
    ensures drun(d, p, w) == Some(q),
    decreases k,
{
    reveal_with_fuel(npath, 2);
    lemma_dconv_core(d, n);
    if k > 0 {
        if exists|r: usize| npath(n, p, w, r, (k - 1) as nat) && #[trigger] eedge(n, r, q) {
            let r = choose|r: usize| npath(n, p, w, r, (k - 1) as nat) && #[trigger] eedge(n, r, q);
            lemma_npath_in(n, p, w, r, (k - 1) as nat);
            lemma_dconv_edge(d, n, r, Seq::<char>::empty(), q);
        } else {
            let r = choose|r: usize| npath(n, p, w.drop_last(), r, (k - 1) as nat) && #[trigger] sedge(n, r, w.last(), q);
            lemma_npath_in(n, p, w.drop_last(), r, (k - 1) as nat);
            lemma_dconv_edge(d, n, r, w.last(), q);
            lemma_dconv_path(d, n, p, w.drop_last(), r, (k - 1) as nat);
        }
    }
}
pub proof fn lemma_dconv_run(d: &Dfa, n: &Nfa, p: usize, w: Word)
    requires d.core(), dconv(d, n), p < d.states@.len(),
    ensures match drun(d, p, w) { Some(q) => nreach(n, p, w, q), None => true },
    decreases w.len(),
{
    if w.len() == 0 {
        lemma_nreach_refl(n, p);
        assert(w =~= eword());
    } else {
        let v = w.drop_last();
        lemma_dconv_run(d, n, p, v);
        lemma_drun_in(d, p, v);
        match drun(d, p, v) {
            Some(r) => match dstep(d, r, w.last()) {
                Some(q) => { lemma_dconv_edge(d, n, r, w.last(), q); lemma_nreach_sedge(n, p, v, r, w.last(), q); assert(v.push(w.last()) =~= w); }
                None => {}
            },
            None => {}
        }
    }
}
pub proof fn lemma_dconv_lang(d: &Dfa, n: &Nfa, w: Word)
    requires d.core(), dconv(d, n),
    ensures naccepts(n, w) == daccepts(d, w),
{
    reveal(nreach);
    lemma_dconv_core(d, n);
    let p = d.initial_state;
    lemma_drun_in(d, p, w);
    if naccepts(n, w) {
        let q = choose|q: usize| #[trigger] nreach(n, p, w, q) && n.acc(q);
        let k = choose|k: nat| npath(n, p, w, q, k);
        lemma_dconv_path(d, n, p, w, q, k);
        assert(nconv(d.states@[q as int], n.states@[q as int]));
    }
    if daccepts(d, w) {
        let q = drun(d, p, w).unwrap();
        lemma_dconv_run(d, n, p, w);
        assert(nconv(d.states@[q as int], n.states@[q as int]));
    }
}

@fn dandy/src/dfa/mod.rs From<DfaState> for NfaState::from
@sig
    ensures nconv(value, r),
@acc 1 Vec<Vec<usize>>
@loop 1 inv
    it1_seq == value.transitions@, acc1@.len() == it1.pos(),
    forall|i: int| 0 <= i < acc1@.len() ==> (#[trigger] acc1@[i])@ == seq![it1_seq[i]],

@fn dandy/src/dfa/mod.rs Dfa::to_nfa
@into NfaState
@sig
    requires self.core(),
    ensures dconv(&self, &r), r.core(), self.wf() ==> r.wf(), forall|w: Word| #[trigger] naccepts(&r, w) == daccepts(&self, w),
@acc 1 Vec<NfaState>
@loop 1 inv
    it1_seq == states@, acc1@.len() == it1.pos(),
    forall|q: int| 0 <= q < acc1@.len() ==> nconv(it1_seq[q], #[trigger] acc1@[q]),
@end
    proof {
        assert(dconv(&self, &ret_));
        lemma_dconv_core(&self, &ret_);
        assert forall|w: Word| #[trigger] naccepts(&ret_, w) == daccepts(&self, w) by { lemma_dconv_lang(&self, &ret_, w); }
    }

@fn dandy/src/dfa/mod.rs From<Dfa> for Nfa::from
@sig
    requires value.core(),
    ensures dconv(&value, &r), r.core(), value.wf() ==> r.wf(), forall|w: Word| #[trigger] naccepts(&r, w) == daccepts(&value, w),
