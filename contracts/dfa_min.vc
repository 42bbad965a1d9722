@raw
pub open spec fn lists_block(d: &Dfa, b: Set<usize>, l: Seq<&DfaState>) -> bool { exists|s: Seq<usize>| #[trigger] enumerates(s, b) && lists(d, s, l) }
pub open spec fn lists(d: &Dfa, s: Seq<usize>, l: Seq<&DfaState>) -> bool { l.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> s[j] < d.states@.len() && #[trigger] l[j] == &d.states@[s[j] as int] }
pub open spec fn lists_blocks(d: &Dfa, p: Blocks, l: Seq<Vec<&DfaState>>) -> bool { l.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> lists_block(d, p[i], (#[trigger] l[i])@) }
pub proof fn lemma_block_in(n: nat, p: Blocks, i: int, s: Seq<usize>)
    requires parts(n, p), 0 <= i < p.len(), enumerates(s, p[i]),
    ensures all_lt(s, n),
{
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] < n by { assert(p[i].contains(s[j].kv())); assert(bcover(p, s[j])); }
}

@fn dandy/src/dfa/mod.rs Dfa::state_equivalence_classes
@hide classes parts enumerates
@sig
    requires self.core(),
    ensures exists|p: Blocks| #[trigger] classes(self, p) && lists_blocks(self, p, r@),
@start
    let ghost mut p: Blocks = seq![];
@acc 1 Vec<Vec<&DfaState>>
@loop 1 pre
    proof { p = vs(it1_seq); assert(parts(self.states@.len(), p)) by { reveal(classes); } }
@loop 1 inv
    acc1@.len() == it1.pos(), forall|i: int| 0 <= i < acc1@.len() ==> lists_block(self, p[i], (#[trigger] acc1@[i])@),
@loop 1 beg
    let ghost b = p[it1.pos() - 1];
    proof { assert(b == x1@); }
@acc 2 Vec<&DfaState>
@loop 2 pre
    proof { lemma_block_in(self.states@.len(), p, it1.pos() - 1, it2_seq); }
@loop 2 inv
    acc2@.len() == it2.pos(), forall|j: int| 0 <= j < acc2@.len() ==> #[trigger] acc2@[j] == &self.states@[it2_seq[j] as int],
@loop 2 post
    proof { assert(lists(self, it2_seq, acc2@)); assert(lists_block(self, b, acc2@)); }

@fn dandy/src/dfa/mod.rs Dfa::minimize
@hide dmerged dtrimmed
@sig
    requires old(self).core(),
    ensures dminimized(old(self), final(self)),
@start
    let ghost d = *self;
@call remove_unreachable_states
    let ghost e = *self;
    proof { assert(e.core()) by { reveal(dtrimmed); } }
@end
    proof { lemma_minimized(&d, &e, self); }
@raw
pub open spec fn dminimized(a: &Dfa, b: &Dfa) -> bool {
    &&& b.core() && (a.wf() ==> b.wf()) && b.alphabet == a.alphabet
    &&& forall|w: Word| #[trigger] daccepts(b, w) == daccepts(a, w)
    &&& distinguished(b) && all_reachable(b)
}
pub proof fn lemma_minimized(a: &Dfa, e: &Dfa, b: &Dfa)
    requires a.core(), dtrimmed(a, e), dmerged(e, b),
    ensures dminimized(a, b),
{
    assert forall|w: Word| #[trigger] daccepts(b, w) == daccepts(a, w) by { assert(daccepts(b, w) == daccepts(e, w)); assert(daccepts(e, w) == daccepts(a, w)); }
}
pub proof fn lemma_drun_cat(d: &Dfa, q: usize, u: Word, w: Word)
    ensures drun(d, q, u + w) == drun_opt(d, drun(d, q, u), w),
    decreases w.len(),
{
    if w.len() == 0 { assert(u + w =~= u); } else {
        assert((u + w).drop_last() =~= u + w.drop_last());
        assert((u + w).last() == w.last());
        lemma_drun_cat(d, q, u, w.drop_last());
    }
}
// the word that leads to q, and the state it leads to in e
pub open spec fn path_to(d: &Dfa, q: usize) -> Word { choose|w: Word| #[trigger] drun(d, d.initial_state, w) == Some(q) }
// no DFA over the same symbols with the same language has fewer states than one all of whose states are reachable and
// told apart from each other
pub proof fn lemma_minimal(b: &Dfa, e: &Dfa)
    requires b.core(), e.core(), distinguished(b), all_reachable(b), same_syms(b.alphabet@, e.alphabet@), forall|w: Word| #[trigger] daccepts(b, w) == daccepts(e, w), e.states@.len() <= usize::MAX,
    ensures b.states@.len() <= e.states@.len(),
{
    let n = b.states@.len();
    let s = Seq::new(n, |q: int| drun(e, e.initial_state, path_to(b, q as usize)).unwrap());
    if n > usize::MAX {
        let n2 = (usize::MAX + 1) as nat;
        lemma_images(b, e, n2);
        lemma_nodup_len(e.states@.len(), Seq::new(n2, |q: int| drun(e, e.initial_state, path_to(b, q as usize)).unwrap()));
    } else {
        lemma_images(b, e, n);
        lemma_nodup_len(e.states@.len(), s);
    }
}
pub proof fn lemma_images(b: &Dfa, e: &Dfa, n: nat)
    requires b.core(), e.core(), distinguished(b), all_reachable(b), same_syms(b.alphabet@, e.alphabet@), forall|w: Word| #[trigger] daccepts(b, w) == daccepts(e, w), n <= b.states@.len(), n <= usize::MAX + 1,
    ensures
        Seq::new(n, |q: int| drun(e, e.initial_state, path_to(b, q as usize)).unwrap()).no_duplicates(),
        all_lt(Seq::new(n, |q: int| drun(e, e.initial_state, path_to(b, q as usize)).unwrap()), e.states@.len()),
{
    let s = Seq::new(n, |q: int| drun(e, e.initial_state, path_to(b, q as usize)).unwrap());
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] < e.states@.len() && drun(e, e.initial_state, path_to(b, j as usize)) == Some(s[j]) && drun(b, b.initial_state, path_to(b, j as usize)) == Some(j as usize) by {
        let q = j as usize;
        assert(dreachable(b, q));
        let w = path_to(b, q);
        lemma_drun_in(b, b.initial_state, w);
        lemma_over_same(b.alphabet@, e.alphabet@, w);
        lemma_drun_in(e, e.initial_state, w);
    }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
        let p = i as usize; let q = j as usize;
        if s[i] == s[j] {
            let u = path_to(b, p); let v = path_to(b, q);
            assert(s[i] < e.states@.len());
            assert(s[j] < e.states@.len());
            assert forall|w: Word| #[trigger] dacc_from(b, p, w) == dacc_from(b, q, w) by {
                lemma_drun_cat(b, b.initial_state, u, w);
                lemma_drun_cat(b, b.initial_state, v, w);
                lemma_drun_cat(e, e.initial_state, u, w);
                lemma_drun_cat(e, e.initial_state, v, w);
                assert(daccepts(b, u + w) == daccepts(e, u + w));
                assert(daccepts(b, v + w) == daccepts(e, v + w));
            }
            assert(dsim(b, p, q));
        }
    }
}
// what minimization means: same language, well formed, and no equivalent DFA is smaller
pub proof fn theorem_minimize(a: &Dfa, b: &Dfa, e: &Dfa)
    requires a.core(), dminimized(a, b), e.core(), same_syms(a.alphabet@, e.alphabet@), forall|w: Word| #[trigger] daccepts(e, w) == daccepts(a, w), e.states@.len() <= usize::MAX,
    ensures b.states@.len() <= e.states@.len(),
{
    assert forall|w: Word| #[trigger] daccepts(b, w) == daccepts(e, w) by { assert(daccepts(b, w) == daccepts(a, w)); }
    lemma_minimal(b, e);
}
