@raw
pub open spec fn remap_state<F: Fn(usize) -> Option<usize>>(f: F, a: DfaState, b: DfaState) -> bool {
    b.name == a.name && b.initial == a.initial && b.accepting == a.accepting && remap_row(f, a.transitions@, b.transitions@)
}
pub open spec fn callable<F: Fn(usize) -> Option<usize>>(f: F, s: Seq<DfaState>) -> bool {
    forall|q: int, i: int| 0 <= q < s.len() && 0 <= i < s[q].transitions@.len() ==> f.requires((#[trigger] s[q].transitions@[i],))
}

@fn dandy/src/dfa/mod.rs Dfa::remap_transitions
@sig
    requires callable(mapper, old(self).states@),
    ensures final(self).alphabet == old(self).alphabet, final(self).initial_state == old(self).initial_state,
        final(self).states@.len() == old(self).states@.len(),
        forall|q: int| 0 <= q < old(self).states@.len() ==> remap_state(mapper, old(self).states@[q], #[trigger] final(self).states@[q]),
@loop 1 inv
    self.alphabet == old(self).alphabet, self.initial_state == old(self).initial_state, self.states@.len() == old(self).states@.len(),
    forall|q: int| 0 <= q < j1 ==> remap_state(mapper, old(self).states@[q], #[trigger] self.states@[q]),
    forall|q: int| j1 <= q < self.states@.len() ==> #[trigger] self.states@[q] == old(self).states@[q],
@loop 1 beg
    let ghost s0 = old(self).states@[j1 as int];
@loop 2 inv
    state.name == s0.name && state.initial == s0.initial && state.accepting == s0.accepting && state.transitions@.len() == s0.transitions@.len(),
    forall|i: int| 0 <= i < j2 ==> remap1(mapper, s0.transitions@[i], #[trigger] state.transitions@[i]),
    forall|i: int| j2 <= i < s0.transitions@.len() ==> #[trigger] state.transitions@[i] == s0.transitions@[i],
@raw
// the states of a are cut down to those with the indices in k (increasing), transitions renumbered
pub open spec fn dstate_cut(a: DfaState, b: DfaState, k: Seq<usize>) -> bool {
    b.name == a.name && b.initial == a.initial && b.accepting == a.accepting && row_cut(a.transitions@, b.transitions@, k)
}
pub open spec fn dcut(a: &Dfa, b: &Dfa, k: Seq<usize>) -> bool {
    &&& b.alphabet == a.alphabet && b.states@.len() == k.len() && increasing(k)
    &&& b.initial_state < k.len() && k[b.initial_state as int] == a.initial_state
    &&& forall|i: int| 0 <= i < k.len() ==> k[i] < a.states@.len() && dstate_cut(a.states@[k[i] as int], #[trigger] b.states@[i], k)
}
// no kept state has a transition to a removed one
pub open spec fn cut_off(s: Seq<DfaState>, gone: Seq<usize>) -> bool {
    forall|q: usize, i: int| q < s.len() && !gone.contains(q) && 0 <= i < s[q as int].transitions@.len() ==> !gone.contains(#[trigger] s[q as int].transitions@[i])
}
pub open spec fn callable_k(s: Seq<DfaState>, k: Seq<usize>) -> bool { forall|q: int, i: int| 0 <= q < s.len() && 0 <= i < s[q].transitions@.len() ==> k.contains(#[trigger] s[q].transitions@[i]) }
pub proof fn lemma_kept_row(s0: Seq<DfaState>, n: nat, gone: Seq<usize>, k: Seq<usize>, q: usize, i: int)
    requires cut_off(s0, gone), keeps(s0.len(), gone, k), k.contains(q), forall|q: int| 0 <= q < s0.len() ==> (#[trigger] s0[q]).transitions@.len() == n,
        forall|q: int, i: int| 0 <= q < s0.len() && 0 <= i < n ==> #[trigger] s0[q].transitions@[i] < s0.len(),
        0 <= i < s0[q as int].transitions@.len(),
    ensures k.contains(s0[q as int].transitions@[i]),
{
    assert(!gone.contains(q));
    assert(s0[q as int].transitions@.len() == n);
    assert(!gone.contains(s0[q as int].transitions@[i]));
    assert(s0[q as int].transitions@[i] < s0.len());
}
pub open spec fn dmaps_into<F: Fn(usize) -> Option<usize>>(f: F, k: Seq<usize>) -> bool {
    &&& forall|x: usize| k.contains(x) ==> #[trigger] f.requires((x,))
    &&& forall|x: usize, m: Option<usize>| #[trigger] f.ensures((x,), m) ==> match m { Some(y) => y < k.len() && k[y as int] == x, None => false }
}
pub proof fn lemma_kept_callable<F: Fn(usize) -> Option<usize>>(f: F, k: Seq<usize>, s: Seq<DfaState>)
    requires dmaps_into(f, k), callable_k(s, k),
    ensures callable(f, s),
{
}
pub proof fn lemma_cut_dstate<F: Fn(usize) -> Option<usize>>(f: F, k: Seq<usize>, a: DfaState, b: DfaState)
    requires dmaps_into(f, k), remap_state(f, a, b),
    ensures dstate_cut(a, b, k),
{
    assert forall|x: int| 0 <= x < a.transitions@.len() implies #[trigger] b.transitions@[x] < k.len() && k[b.transitions@[x] as int] == a.transitions@[x] by {
        assert(remap1(f, a.transitions@[x], b.transitions@[x]));
    }
}
@fn dandy/src/dfa/mod.rs Dfa::remove_states
@attr #[verifier::rlimit(60)]
@hide callable remap_state dstate_cut callable_k cut_off dnames_distinct
@closure 1 idx: usize| -> (m: Option<usize>)
    requires increasing(old_state_idx@), old_state_idx@.contains(idx)
    ensures match m { Some(x) => x < old_state_idx@.len() && old_state_idx@[x as int] == idx, None => false }
@sig
    requires old(self).core(), to_remove@.no_duplicates(), !to_remove@.contains(old(self).initial_state), all_lt(to_remove@, old(self).states@.len()), cut_off(old(self).states@, to_remove@),
    ensures exists|k: Seq<usize>| keeps(old(self).states@.len(), to_remove@, k) && #[trigger] dcut(old(self), final(self), k),
@start
    let ghost gone0 = to_remove@;
    let ghost ini = self.initial_state;
    let ghost s0 = self.states@;
    let ghost mut lt: int = 0;
    let ghost mut gone: Seq<usize> = seq![];
    let ghost mut k: Seq<usize> = seq![];
    let ghost mut s1: Seq<DfaState> = seq![];
@loop 1 inv
    acc1@ == ids(it1.pos() as nat), it1_seq.len() == self.states@.len(),
@loop 1 end
    proof { assert(acc1@ =~= ids(it1.pos() as nat)); }
@call sort
    proof {
        gone = to_remove@;
        lemma_sorted_same(gone0, gone);
        assert forall|i: int| 0 <= i < gone.len() implies #[trigger] gone[i] >= i by { lemma_increasing_ge(gone, i); }
        assert forall|i: int| 0 <= i < gone.len() implies gone0.contains(#[trigger] gone[i]) by { assert(gone.contains(gone[i])); }
        assert(all_lt(gone, s0.len()));
    }
@loop 2 pre
    proof {
        lt = ini - self.initial_state;
        assert forall|q: usize| #[trigger] old_state_idx@.contains(q) <==> q < s0.len() && !gone.subrange(gone.len() as int, gone.len() as int).contains(q) by {
            if q < s0.len() { assert(old_state_idx@[q as int] == q); }
        }
        assert(removing(s0, gone, ini, lt, gone.len() as int, self.states@, old_state_idx@));
    }
@loop 2 inv
    it2_seq == gone.reverse(), increasing(gone), all_lt(gone, s0.len()), 0 <= lt <= gone.len(), ini < s0.len(), self.alphabet == old(self).alphabet, self.initial_state == ini - lt,
    forall|i: int| 0 <= i < lt ==> gone[i] < ini, forall|i: int| lt <= i < gone.len() ==> gone[i] > ini,
    removing(s0, gone, ini, lt, gone.len() - it2.pos(), self.states@, old_state_idx@),
@loop 2 beg
    proof { lemma_removing(s0, gone, ini, lt, gone.len() - it2.pos() + 1, self.states@, old_state_idx@); }
@loop 2 post
    proof {
        k = old_state_idx@;
        s1 = self.states@;
        assert(gone.subrange(0, gone.len() as int) =~= gone);
        assert(keeps(s0.len(), gone0, k));
        assert(k[self.initial_state as int] == ini);
        assert(callable_k(s1, k)) by {
            reveal(callable_k);
            assert forall|q: int, i: int| 0 <= q < s1.len() && 0 <= i < s1[q].transitions@.len() implies k.contains(#[trigger] s1[q].transitions@[i]) by {
                assert(k[q] < s0.len());
                assert(k.contains(k[q]));
                lemma_kept_row(s0, old(self).alphabet@.len(), gone0, k, k[q], i);
            }
        }
    }
@let map
    assert(dmaps_into(map, k));
    proof { lemma_kept_callable(map, k, s1); }
@end
    proof {
        assert forall|i: int| 0 <= i < k.len() implies k[i] < s0.len() && dstate_cut(s0[k[i] as int], #[trigger] self.states@[i], k) by {
            assert(k[i] < s0.len());
            lemma_cut_dstate(map, k, s1[i], self.states@[i]);
        }
        assert(dcut(old(self), self, k));
    }
@raw
// cutting down to a closed set of states keeps the runs
pub proof fn lemma_dcut_core(a: &Dfa, b: &Dfa, k: Seq<usize>)
    requires a.core(), dcut(a, b, k),
    ensures b.core(), a.wf() ==> b.wf(),
{
    assert forall|q: int| 0 <= q < b.states@.len() implies (#[trigger] b.states@[q]).transitions@.len() == b.alphabet@.len() by {
        assert(dstate_cut(a.states@[k[q] as int], b.states@[q], k));
        assert(a.states@[k[q] as int].transitions@.len() == a.alphabet@.len());
    }
    assert forall|q: int, i: int| 0 <= q < b.states@.len() && 0 <= i < b.alphabet@.len() implies #[trigger] b.states@[q].transitions@[i] < b.states@.len() by {
        assert(dstate_cut(a.states@[k[q] as int], b.states@[q], k));
        assert(row_cut(a.states@[k[q] as int].transitions@, b.states@[q].transitions@, k));
        assert(b.states@[q].transitions@.len() == b.alphabet@.len());
    }
    if a.wf() {
        assert forall|q: int| 0 <= q < b.states@.len() implies (#[trigger] b.states@[q]).initial == (q == b.initial_state) by {
            assert(dstate_cut(a.states@[k[q] as int], b.states@[q], k));
            assert(a.states@[k[q] as int].initial == (k[q] == a.initial_state));
            if q < b.initial_state { assert(k[q] < k[b.initial_state as int]); }
            if q > b.initial_state { assert(k[b.initial_state as int] < k[q]); }
        }
        assert forall|p: int, q: int| 0 <= p < b.states@.len() && 0 <= q < b.states@.len() && p != q implies (#[trigger] b.states@[p]).name@ != (#[trigger] b.states@[q]).name@ by {
            assert(dstate_cut(a.states@[k[p] as int], b.states@[p], k));
            assert(dstate_cut(a.states@[k[q] as int], b.states@[q], k));
            if p < q { assert(k[p] < k[q]); } else { assert(k[q] < k[p]); }
            assert(a.states@[k[p] as int].name@ != a.states@[k[q] as int].name@);
        }
    }
}
pub open spec fn lifts(k: Seq<usize>, x: Option<usize>, y: Option<usize>) -> bool {
    match x { Some(q) => q < k.len() && y == Some(k[q as int]), None => y is None }
}
pub proof fn lemma_dcut_run_from(a: &Dfa, b: &Dfa, k: Seq<usize>, s: usize, w: Word)
    requires a.core(), dcut(a, b, k), s < k.len(),
    ensures lifts(k, drun(b, s, w), drun(a, k[s as int], w)),
    decreases w.len(),
{
    if w.len() > 0 {
        lemma_dcut_run_from(a, b, k, s, w.drop_last());
        match drun(b, s, w.drop_last()) {
            Some(q) => {
                assert(dstate_cut(a.states@[k[q as int] as int], b.states@[q as int], k));
                if has_sym(b.alphabet@, w.last()) {
                    let i = sym_idx(b.alphabet@, w.last());
                    assert(0 <= i < b.alphabet@.len());
                    assert(a.states@[k[q as int] as int].transitions@.len() == a.alphabet@.len());
                    assert(b.states@[q as int].transitions@[i] < k.len());
                }
            },
            None => {}
        }
    }
}
pub proof fn lemma_dcut_run(a: &Dfa, b: &Dfa, k: Seq<usize>, w: Word)
    requires a.core(), dcut(a, b, k),
    ensures lifts(k, drun(b, b.initial_state, w), drun(a, a.initial_state, w)),
{
    lemma_dcut_run_from(a, b, k, b.initial_state, w);
}
// what removing the unreachable states means
pub open spec fn dtrimmed(a: &Dfa, b: &Dfa) -> bool {
    &&& b.core() && (a.wf() ==> b.wf())
    &&& b.alphabet == a.alphabet
    &&& forall|q: usize| q < b.states@.len() ==> #[trigger] dreachable(b, q)
    &&& forall|w: Word| #[trigger] daccepts(b, w) == daccepts(a, w)
    &&& exists|k: Seq<usize>| #[trigger] dcut(a, b, k) && forall|q: usize| #[trigger] k.contains(q) <==> dreachable(a, q)
}
pub proof fn lemma_dtrimmed(a: &Dfa, b: &Dfa, k: Seq<usize>)
    requires a.core(), dcut(a, b, k), forall|q: usize| #[trigger] k.contains(q) <==> dreachable(a, q),
    ensures dtrimmed(a, b),
{
    lemma_dcut_core(a, b, k);
    assert forall|q: usize| q < b.states@.len() implies #[trigger] dreachable(b, q) by {
        assert(k.contains(k[q as int]));
        let w = choose|w: Word| #[trigger] drun(a, a.initial_state, w) == Some(k[q as int]);
        lemma_dcut_run(a, b, k, w);
        let p = drun(b, b.initial_state, w).unwrap();
        if p < q { assert(k[p as int] < k[q as int]); }
        if p > q { assert(k[q as int] < k[p as int]); }
        assert(drun(b, b.initial_state, w) == Some(q));
    }
    assert forall|w: Word| #[trigger] daccepts(b, w) == daccepts(a, w) by {
        lemma_dcut_run(a, b, k, w);
        match drun(b, b.initial_state, w) {
            Some(q) => { assert(dstate_cut(a.states@[k[q as int] as int], b.states@[q as int], k)); },
            None => {}
        }
    }
}

@fn dandy/src/dfa/mod.rs Dfa::remove_unreachable_states
@sig
    requires old(self).core(),
    ensures dtrimmed(old(self), final(self)),
@start
    let ghost mut us = Set::<usize>::empty();
@loop 1 pre
    proof { us = choose|s: Set<usize>| dunreach_set(self, s) && enumerates(it1_seq, s); }
@loop 1 inv
    self == old(self), dunreach_set(self, us), enumerates(it1_seq, us), acc1@ == it1_seq.take(it1.pos()),
@loop 1 end
    proof { assert(acc1@ =~= it1_seq.take(it1.pos())); }
@loop 1 post
    proof {
        assert(acc1@ =~= it1_seq);
        lemma_dreach_in(self);
        lemma_dreach_start(self);
        assert forall|q: usize| #[trigger] acc1@.contains(q) <==> q < self.states@.len() && !dreachable(self, q) by {
            if acc1@.contains(q) { let j = choose|j: int| 0 <= j < it1_seq.len() && it1_seq[j] == q; assert(us.contains(it1_seq[j])); }
            if us.contains(q) { let j = choose|j: int| 0 <= j < it1_seq.len() && (#[trigger] it1_seq[j]).kv() == q; assert(acc1@[j] == q); }
            assert(us.contains(q) <==> q < self.states@.len() && !dreachable(self, q));
        }
        assert forall|j: int| 0 <= j < acc1@.len() implies #[trigger] acc1@[j] < self.states@.len() by { assert(acc1@.contains(acc1@[j])); }
        assert(acc1@.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < acc1@.len() && 0 <= j < acc1@.len() && i != j implies acc1@[i] != acc1@[j] by { assert(it1_seq[i].kv() != it1_seq[j].kv()); } }
        assert forall|q: usize, i: int| q < self.states@.len() && !acc1@.contains(q) && 0 <= i < self.states@[q as int].transitions@.len() implies !acc1@.contains(#[trigger] self.states@[q as int].transitions@[i]) by {
            assert(dedge(self, q, self.states@[q as int].transitions@[i]));
            lemma_dreach_step(self, q, self.states@[q as int].transitions@[i]);
        }
    }
@end
    proof {
        lemma_dreach_in(old(self));
        let k = choose|k: Seq<usize>| keeps(old(self).states@.len(), gone, k) && #[trigger] dcut(old(self), self, k);
        lemma_dtrimmed(old(self), self, k);
    }
@acc 1 Vec<usize>
@let states
    let ghost gone = states@;
