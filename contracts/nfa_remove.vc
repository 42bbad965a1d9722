@raw
// what removing the unreachable states means
pub open spec fn ntrimmed(a: &Nfa, b: &Nfa) -> bool {
    &&& b.core() && (a.wf() ==> b.wf())
    &&& b.alphabet == a.alphabet
    &&& forall|q: usize| q < b.n() ==> #[trigger] nreachable(b, q)
    &&& forall|w: Word| #[trigger] naccepts(b, w) == naccepts(a, w)
    &&& exists|k: Seq<usize>| #[trigger] ncut(a, b, k) && forall|q: usize| #[trigger] k.contains(q) <==> nreachable(a, q)
}
pub proof fn lemma_ntrimmed(a: &Nfa, b: &Nfa, k: Seq<usize>)
    requires a.core(), ncut(a, b, k), forall|q: usize| #[trigger] k.contains(q) <==> nreachable(a, q),
    ensures ntrimmed(a, b),
{
    lemma_ncut_core(a, b, k);
    assert forall|q: usize| q < b.n() implies #[trigger] nreachable(b, q) by {
        assert(k.contains(k[q as int]));
        let w = choose|w: Word| #[trigger] nreach(a, a.initial_state, w, k[q as int]);
        lemma_ncut_reach(a, b, k, w);
        let p = choose|p: usize| p < k.len() && k[p as int] == k[q as int] && #[trigger] nreach(b, b.initial_state, w, p);
        if p < q { assert(k[p as int] < k[q as int]); }
        if p > q { assert(k[q as int] < k[p as int]); }
        assert(nreach(b, b.initial_state, w, q));
    }
    assert forall|w: Word| #[trigger] naccepts(b, w) == naccepts(a, w) by {
        lemma_ncut_reach(a, b, k, w);
        if naccepts(b, w) {
            let q = choose|q: usize| #[trigger] nreach(b, b.initial_state, w, q) && b.acc(q);
            assert(nstate_cut(a.states@[k[q as int] as int], b.states@[q as int], k));
            assert(nreach(a, a.initial_state, w, k[q as int]) && a.acc(k[q as int]));
        }
        if naccepts(a, w) {
            let x = choose|x: usize| #[trigger] nreach(a, a.initial_state, w, x) && a.acc(x);
            let q = choose|q: usize| q < k.len() && k[q as int] == x && #[trigger] nreach(b, b.initial_state, w, q);
            assert(nstate_cut(a.states@[k[q as int] as int], b.states@[q as int], k));
            assert(b.acc(q));
        }
    }
}

@fn dandy/src/nfa/mod.rs Nfa::remove_unreachable_states
@sig
    requires old(self).core(),
    ensures ntrimmed(old(self), final(self)),
@start
    let ghost mut us = Set::<usize>::empty();
@acc 1 Vec<usize>
@loop 1 pre
    proof { us = choose|s: Set<usize>| nunreach_set(self, s) && enumerates(it1_seq, s); }
@loop 1 inv
    self == old(self), nunreach_set(self, us), enumerates(it1_seq, us), acc1@ == it1_seq.take(it1.pos()),
@loop 1 end
    proof { assert(acc1@ =~= it1_seq.take(it1.pos())); }
@loop 1 post
    proof {
        assert(acc1@ =~= it1_seq);
        lemma_nreachable_in(self);
        lemma_nreach_start(self);
        let g = acc1@;
        assert forall|q: usize| #[trigger] g.contains(q) <==> q < self.states@.len() && !nreachable(self, q) by {
            if g.contains(q) { let j = choose|j: int| 0 <= j < it1_seq.len() && it1_seq[j] == q; assert(us.contains(it1_seq[j])); }
            if us.contains(q) { let j = choose|j: int| 0 <= j < it1_seq.len() && (#[trigger] it1_seq[j]).kv() == q; assert(g[j] == q); }
            assert(us.contains(q) <==> q < self.states@.len() && !nreachable(self, q));
        }
        assert forall|j: int| 0 <= j < g.len() implies #[trigger] g[j] < self.states@.len() by { assert(g.contains(g[j])); }
        assert(g.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && i != j implies g[i] != g[j] by { assert(it1_seq[i].kv() != it1_seq[j].kv()); } }
        lemma_nreach_cut_off(self, g);
    }
@end
    proof {
        lemma_nreachable_in(old(self));
        let k = choose|k: Seq<usize>| keeps(old(self).states@.len(), gone, k) && #[trigger] ncut(old(self), self, k);
        lemma_ntrimmed(old(self), self, k);
    }
@let states
    let ghost gone = states@;
@raw
pub proof fn lemma_nreach_cut_off(n: &Nfa, g: Seq<usize>)
    requires n.core(), forall|q: usize| #[trigger] g.contains(q) <==> q < n.n() && !nreachable(n, q),
    ensures ncut_off(n.states@, g),
{
    assert forall|q: usize| q < n.n() && !g.contains(q) implies avoids((#[trigger] n.states@[q as int]).epsilon_transitions@, g)
        && forall|i: int| 0 <= i < n.states@[q as int].transitions@.len() ==> avoids((#[trigger] n.states@[q as int].transitions@[i])@, g) by {
        assert(nstate_ok(n.states@[q as int], n.alphabet@.len(), n.n()));
        let e = n.states@[q as int].epsilon_transitions@;
        assert forall|j: int| 0 <= j < e.len() implies !g.contains(#[trigger] e[j]) by {
            assert(eedge(n, q, e[j]));
            lemma_nreach_refl(n, q);
            lemma_nreach_eedge(n, q, eword(), q, e[j]);
            assert(nsucc(n, q, e[j]));
            lemma_nsucc_step(n, q, e[j]);
        }
        assert forall|i: int| 0 <= i < n.states@[q as int].transitions@.len() implies avoids((#[trigger] n.states@[q as int].transitions@[i])@, g) by {
            let t = n.states@[q as int].transitions@[i]@;
            assert forall|j: int| 0 <= j < t.len() implies !g.contains(#[trigger] t[j]) by {
                assert(n.tr(q, i).contains(t[j]));
                assert(nsucc(n, q, t[j]));
                lemma_nsucc_step(n, q, t[j]);
            }
        }
    }
}
