@raw
pub open spec fn dequiv(a: &Dfa, b: &Dfa) -> bool {
    same_syms(a.alphabet@, b.alphabet@) && forall|w: Word| #[trigger] daccepts(a, w) == daccepts(b, w)
}
pub open spec fn reach_pair(a: &Dfa, b: &Dfa, k: Pair) -> bool {
    exists|w: Word| over(a.alphabet@, w) && #[trigger] drun(a, a.initial_state, w) == Some(k.0) && drun(b, b.initial_state, w) == Some(k.1)
}
pub proof fn lemma_reach_step(a: &Dfa, b: &Dfa, k: Pair, c: Seq<char>)
    requires a.core(), b.core(), same_syms(a.alphabet@, b.alphabet@), reach_pair(a, b, k), has_sym(a.alphabet@, c),
    ensures reach_pair(a, b, pnext(a, b, k, c)),
{
    let w = choose|w: Word| over(a.alphabet@, w) && #[trigger] drun(a, a.initial_state, w) == Some(k.0) && drun(b, b.initial_state, w) == Some(k.1);
    let v = w.push(c);
    assert(v.drop_last() =~= w);
    assert(has_sym(b.alphabet@, c) <==> has_sym(a.alphabet@, c));
    assert forall|i: int| 0 <= i < v.len() implies has_sym(a.alphabet@, #[trigger] v[i]) by { if i < w.len() { assert(v[i] == w[i]); } }
    assert(drun(a, a.initial_state, v) == Some(pnext(a, b, k, c).0));
    assert(drun(b, b.initial_state, v) == Some(pnext(a, b, k, c).1));
}
// a pair whose states agree and whose successors are all explored
pub open spec fn pair_done(a: &Dfa, b: &Dfa, x: Set<Pair>, k: Pair) -> bool {
    &&& a.acc(k.0) == b.acc(k.1)
    &&& forall|i: int| 0 <= i < a.alphabet@.len() ==> x.contains(pnext(a, b, k, (#[trigger] a.alphabet@[i])@))
}
pub proof fn lemma_bisim(a: &Dfa, b: &Dfa, x: Set<Pair>, w: Word)
    requires a.core(), b.core(), same_syms(a.alphabet@, b.alphabet@), over(a.alphabet@, w),
        x.contains((a.initial_state, b.initial_state)), forall|k: Pair| x.contains(k) ==> #[trigger] pair_done(a, b, x, k),
    ensures drun(a, a.initial_state, w) is Some, drun(b, b.initial_state, w) is Some,
        x.contains((drun(a, a.initial_state, w).unwrap(), drun(b, b.initial_state, w).unwrap())),
        daccepts(a, w) == daccepts(b, w),
    decreases w.len(),
{
    lemma_over_same(a.alphabet@, b.alphabet@, w);
    lemma_drun_in(a, a.initial_state, w);
    lemma_drun_in(b, b.initial_state, w);
    if w.len() > 0 {
        lemma_over_parts(a.alphabet@, w);
        lemma_bisim(a, b, x, w.drop_last());
        let k = (drun(a, a.initial_state, w.drop_last()).unwrap(), drun(b, b.initial_state, w.drop_last()).unwrap());
        assert(pair_done(a, b, x, k));
        let i = sym_idx(a.alphabet@, w.last());
        assert(0 <= i < a.alphabet@.len() && a.alphabet@[i]@ == w.last());
        assert(x.contains(pnext(a, b, k, a.alphabet@[i]@)));
    }
    let k = (drun(a, a.initial_state, w).unwrap(), drun(b, b.initial_state, w).unwrap());
    assert(pair_done(a, b, x, k));
}

@fn dandy/src/dfa/mod.rs Dfa::equivalent_to
@sig
    requires self.core(), other.core(),
    ensures r == dequiv(self, other),
@loop 1 pre
    let ghost init: Pair = (self.initial_state, other.initial_state);
    let ghost mut stk = evaluators_to_explore@;
    let ghost mut done = Set::<Pair>::empty();
    let ghost n1 = self.states@.len();
    let ghost n2 = other.states@.len();
    proof {
        let e = Seq::<Seq<char>>::empty();
        assert(drun(self, self.initial_state, e) == Some(self.initial_state));
        assert(reach_pair(self, other, init));
        assert(evs_pair(evaluators_to_explore@[0]) == init);
        lemma_pairs_bound(explored_states@, n1, n2);
    }
@loop 1 inv
    stk == evaluators_to_explore@, self.core(), other.core(), same_syms(self.alphabet@, other.alphabet@),
    init == (self.initial_state, other.initial_state), n1 == self.states@.len(), n2 == other.states@.len(),
    forall|i: int| 0 <= i < evaluators_to_explore@.len() ==> #[trigger] ev_ok(evaluators_to_explore@[i], self, other),
    forall|i: int| 0 <= i < evaluators_to_explore@.len() ==> explored_states@.contains(evs_pair(#[trigger] evaluators_to_explore@[i])),
    explored_states@.contains(init),
    forall|k: Pair| #[trigger] explored_states@.contains(k) ==> pin(self, other, k) && reach_pair(self, other, k),
    forall|k: Pair| #[trigger] explored_states@.contains(k) ==> done.contains(k) || exists|i: int| 0 <= i < evaluators_to_explore@.len() && evs_pair(#[trigger] evaluators_to_explore@[i]) == k,
    forall|k: Pair| #[trigger] done.contains(k) ==> explored_states@.contains(k),
    forall|k: Pair| done.contains(k) ==> #[trigger] pair_done(self, other, explored_states@, k),
    explored_states@.len() <= n1 * n2,
    decreases n1 * n2 - explored_states@.len(), evaluators_to_explore@.len(),
@loop 1 beg
    let ghost cur: Pair = (s1.current_state, s2.current_state);
    let ghost ex1 = explored_states@;
    let ghost l1 = evaluators_to_explore@.len();
    proof {
        assert(ev_ok(stk.last(), self, other));
        assert(evs_pair(stk.last()) == cur);
        assert(explored_states@.contains(cur));
        assert(reach_pair(self, other, cur));
        if self.acc(cur.0) != other.acc(cur.1) {
            let w = choose|w: Word| over(self.alphabet@, w) && #[trigger] drun(self, self.initial_state, w) == Some(cur.0) && drun(other, other.initial_state, w) == Some(cur.1);
            assert(daccepts(self, w) != daccepts(other, w));
        }
        assert forall|k: Pair| #[trigger] explored_states@.contains(k) implies done.contains(k) || k == cur || exists|i: int| 0 <= i < evaluators_to_explore@.len() && evs_pair(#[trigger] evaluators_to_explore@[i]) == k by {
            if !done.contains(k) {
                let i = choose|i: int| 0 <= i < stk.len() && evs_pair(#[trigger] stk[i]) == k;
                if i < evaluators_to_explore@.len() { assert(evaluators_to_explore@[i] == stk[i]); }
            }
        }
    }
@loop 2 inv
    it2_seq == self.alphabet@, ev_ok((s1, s2), self, other), cur == (s1.current_state, s2.current_state), explored_states@.contains(cur), explored_states@.contains(init),
    forall|i: int| 0 <= i < evaluators_to_explore@.len() ==> #[trigger] ev_ok(evaluators_to_explore@[i], self, other),
    forall|i: int| 0 <= i < evaluators_to_explore@.len() ==> explored_states@.contains(evs_pair(#[trigger] evaluators_to_explore@[i])),
    forall|k: Pair| #[trigger] explored_states@.contains(k) ==> pin(self, other, k) && reach_pair(self, other, k),
    forall|k: Pair| #[trigger] explored_states@.contains(k) ==> done.contains(k) || k == cur || exists|i: int| 0 <= i < evaluators_to_explore@.len() && evs_pair(#[trigger] evaluators_to_explore@[i]) == k,
    forall|k: Pair| #[trigger] done.contains(k) ==> explored_states@.contains(k),
    forall|k: Pair| done.contains(k) ==> #[trigger] pair_done(self, other, explored_states@, k),
    forall|i: int| 0 <= i < it2.pos() ==> explored_states@.contains(pnext(self, other, cur, (#[trigger] self.alphabet@[i])@)),
    explored_states@.len() <= n1 * n2, explored_states@.len() >= ex1.len(),
    explored_states@.len() == ex1.len() ==> evaluators_to_explore@.len() == l1,
@loop 2 beg
    let ghost ex0 = explored_states@;
    let ghost stk0 = evaluators_to_explore@;
    proof {
        lemma_sym_idx(self.alphabet@, it2.pos() - 1);
        assert(has_sym(self.alphabet@, x2@) <==> has_sym(other.alphabet@, x2@));
        lemma_reach_step(self, other, cur, x2@);
    }
@loop 2 end
    proof {
        let k = pnext(self, other, cur, x2@);
        assert forall|m: Pair| done.contains(m) implies #[trigger] pair_done(self, other, explored_states@, m) by { assert(pair_done(self, other, ex0, m)); }
        assert(explored_states@ == ex0.insert(k));
        assert forall|m: Pair| #[trigger] explored_states@.contains(m) implies done.contains(m) || m == cur || exists|i: int| 0 <= i < evaluators_to_explore@.len() && evs_pair(#[trigger] evaluators_to_explore@[i]) == m by {
            if ex0.contains(m) {
                if !done.contains(m) && m != cur {
                    let i = choose|i: int| 0 <= i < stk0.len() && evs_pair(#[trigger] stk0[i]) == m;
                    assert(evaluators_to_explore@[i] == stk0[i]);
                }
            } else {
                assert(evs_pair(evaluators_to_explore@.last()) == m);
            }
        }
        lemma_pairs_bound(explored_states@, n1, n2);
    }
@loop 1 end
    proof {
        assert(pair_done(self, other, explored_states@, cur));
        done = done.insert(cur);
        stk = evaluators_to_explore@;
    }
@loop 1 post
    proof {
        assert forall|w: Word| #[trigger] daccepts(self, w) == daccepts(other, w) by {
            if over(self.alphabet@, w) {
                assert forall|k: Pair| explored_states@.contains(k) implies #[trigger] pair_done(self, other, explored_states@, k) by { assert(done.contains(k)); }
                lemma_bisim(self, other, explored_states@, w);
            } else {
                lemma_over_same(self.alphabet@, other.alphabet@, w);
                lemma_drun_in(self, self.initial_state, w);
                lemma_drun_in(other, other.initial_state, w);
            }
        }
    }
