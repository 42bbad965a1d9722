@raw
pub type Pair = (usize, usize);
// the pair of states after reading c in both automata
pub open spec fn pnext(a: &Dfa, b: &Dfa, p: Pair, c: Seq<char>) -> Pair {
    (dstep(a, p.0, c).unwrap(), dstep(b, p.1, c).unwrap())
}
pub open spec fn pin(a: &Dfa, b: &Dfa, p: Pair) -> bool { p.0 < a.states@.len() && p.1 < b.states@.len() }
pub open spec fn evs_pair<'a, 'b>(e: (DfaEvaluator<'a>, DfaEvaluator<'b>)) -> Pair { (e.0.current_state, e.1.current_state) }
pub open spec fn ev_pairs<'a, 'b>(s: Seq<(DfaEvaluator<'a>, DfaEvaluator<'b>)>) -> Seq<Pair> { s.map_values(|e: (DfaEvaluator<'a>, DfaEvaluator<'b>)| evs_pair(e)) }
pub open spec fn ev_ok<'a, 'b>(e: (DfaEvaluator<'a>, DfaEvaluator<'b>), a: &Dfa, b: &Dfa) -> bool {
    e.0.ok() && e.1.ok() && e.0.dfa == a && e.1.dfa == b && !e.0.unknown_elem_seen && !e.1.unknown_elem_seen
}
pub open spec fn prun(a: &Dfa, b: &Dfa, p: Pair, w: Word) -> Pair { (drun(a, p.0, w).unwrap(), drun(b, p.1, w).unwrap()) }

// the entries of the exploration so far
pub type PEntry = (Pair, bool, Vec<Pair>);
pub open spec fn dpairs(s: Seq<PEntry>) -> Seq<Pair> { s.map_values(|e: PEntry| e.0) }
pub open spec fn entry_ok<F: Fn(&DfaState, &DfaState) -> bool>(a: &Dfa, b: &Dfa, f: F, x: Set<Pair>, e: PEntry) -> bool {
    &&& pin(a, b, e.0)
    &&& call_ensures(f, (&a.states@[e.0.0 as int], &b.states@[e.0.1 as int]), e.1)
    &&& e.2@.len() == a.alphabet@.len()
    &&& forall|i: int| 0 <= i < e.2@.len() ==> #[trigger] e.2@[i] == pnext(a, b, e.0, a.alphabet@[i]@) && x.contains(e.2@[i])
}
// language of a finished exploration
pub open spec fn prod_of<F: Fn(&DfaState, &DfaState) -> bool>(a: &Dfa, b: &Dfa, f: F, d: &Dfa, ps: Seq<Pair>) -> bool {
    &&& d.core() && d.alphabet@ == a.alphabet@ && d.states@.len() == ps.len()
    &&& ps[d.initial_state as int] == (a.initial_state, b.initial_state)
    &&& forall|i: int| 0 <= i < ps.len() ==> #[trigger] pin(a, b, ps[i])
    &&& forall|i: int| 0 <= i < ps.len() ==> call_ensures(f, (&a.states@[(#[trigger] ps[i]).0 as int], &b.states@[ps[i].1 as int]), d.states@[i].accepting)
    &&& forall|i: int, k: int| 0 <= i < ps.len() && 0 <= k < a.alphabet@.len() ==>
        ps[(#[trigger] d.states@[i].transitions@[k]) as int] == pnext(a, b, ps[i], a.alphabet@[k]@)
}
pub proof fn lemma_prod_run<F: Fn(&DfaState, &DfaState) -> bool>(a: &Dfa, b: &Dfa, f: F, d: &Dfa, ps: Seq<Pair>, w: Word)
    requires a.core(), b.core(), same_syms(a.alphabet@, b.alphabet@), prod_of(a, b, f, d, ps), over(a.alphabet@, w),
    ensures drun(d, d.initial_state, w) is Some, drun(a, a.initial_state, w) is Some, drun(b, b.initial_state, w) is Some,
        drun(d, d.initial_state, w).unwrap() < ps.len(),
        ps[drun(d, d.initial_state, w).unwrap() as int] == (drun(a, a.initial_state, w).unwrap(), drun(b, b.initial_state, w).unwrap()),
    decreases w.len(),
{
    lemma_over_same(a.alphabet@, b.alphabet@, w);
    lemma_drun_in(a, a.initial_state, w);
    lemma_drun_in(b, b.initial_state, w);
    lemma_drun_in(d, d.initial_state, w);
    if w.len() > 0 {
        lemma_over_parts(a.alphabet@, w);
        lemma_prod_run(a, b, f, d, ps, w.drop_last());
        let i = drun(d, d.initial_state, w.drop_last()).unwrap() as int;
        let k = sym_idx(a.alphabet@, w.last());
        assert(0 <= k < a.alphabet@.len() && a.alphabet@[k]@ == w.last());
        assert(ps[d.states@[i].transitions@[k] as int] == pnext(a, b, ps[i], a.alphabet@[k]@));
    }
}
// what the product accepts: f decides on the two states reached
pub open spec fn prod_lang<F: Fn(&DfaState, &DfaState) -> bool>(a: &Dfa, b: &Dfa, f: F, d: &Dfa) -> bool {
    forall|w: Word| #[trigger] over(a.alphabet@, w) ==>
        call_ensures(f, (&a.states@[drun(a, a.initial_state, w).unwrap() as int], &b.states@[drun(b, b.initial_state, w).unwrap() as int]), daccepts(d, w))
}

@fn dandy/src/dfa/mod.rs Dfa::product_construction
@sig
    requires self.core(), other.core(),
        forall|p: &DfaState, q: &DfaState| call_requires(combinator, (p, q)),
    ensures r is None <==> !same_syms(self.alphabet@, other.alphabet@),
        match r { None => true, Some(d) => d.wf() },
        match r { None => true, Some(d) => d.alphabet == self.alphabet && prod_lang(self, other, combinator, &d) },
@loop 1 pre
    proof {
        assert(dpairs(state_data@) + ev_pairs(evaluators_to_explore@) =~= seq![(q1, q2)]);
        assert(explored_states@ =~= Set::<Pair>::empty().insert((q1, q2)));
        assert(seq![(q1, q2)][0] == (q1, q2));
    }
    let ghost mut stk = evaluators_to_explore@;
@loop 1 inv
    stk == evaluators_to_explore@, self.core(), other.core(), same_syms(self.alphabet@, other.alphabet@),
    forall|p: &DfaState, q: &DfaState| call_requires(combinator, (p, q)),
    q1 == self.initial_state, q2 == other.initial_state, explored_states@.contains((q1, q2)),
    forall|i: int| 0 <= i < evaluators_to_explore@.len() ==> #[trigger] ev_ok(evaluators_to_explore@[i], self, other),
    forall|i: int| 0 <= i < state_data@.len() ==> #[trigger] entry_ok(self, other, combinator, explored_states@, state_data@[i]),
    frontier(explored_states@, dpairs(state_data@) + ev_pairs(evaluators_to_explore@)),
@loop 1 beg
    let ghost sd0 = state_data@;
    let ghost cur: Pair = (s1.current_state, s2.current_state);
    proof {
        let sp = ev_pairs(evaluators_to_explore@);
        assert(ev_ok(stk.last(), self, other));
        assert(ev_pairs(stk) =~= sp.push(cur));
        lemma_frontier_pop(explored_states@, dpairs(state_data@), sp, cur);
    }
@loop 2 inv
    it2_seq == self.alphabet@, ev_ok((s1, s2), self, other), cur == (s1.current_state, s2.current_state),
    transition_list@.len() == it2.pos(),
    forall|i: int| 0 <= i < transition_list@.len() ==> #[trigger] transition_list@[i] == pnext(self, other, cur, self.alphabet@[i]@) && explored_states@.contains(transition_list@[i]),
    explored_states@.contains((q1, q2)),
    forall|i: int| 0 <= i < evaluators_to_explore@.len() ==> #[trigger] ev_ok(evaluators_to_explore@[i], self, other),
    forall|i: int| 0 <= i < state_data@.len() ==> #[trigger] entry_ok(self, other, combinator, explored_states@, state_data@[i]),
    frontier(explored_states@, dpairs(state_data@).push(cur) + ev_pairs(evaluators_to_explore@)),
@loop 2 beg
    let ghost ex0 = explored_states@;
    let ghost stk0 = evaluators_to_explore@;
    proof {
        lemma_sym_idx(self.alphabet@, it2.pos() - 1);
        assert(has_sym(self.alphabet@, x2@) <==> has_sym(other.alphabet@, x2@));
    }
@loop 2 end
    proof {
        let k = transition_list@.last();
        let ps = dpairs(state_data@).push(cur) + ev_pairs(stk0);
        assert(k == pnext(self, other, cur, x2@));
        if !ex0.contains(k) {
            lemma_frontier_push(ex0, ps, k);
            assert(dpairs(state_data@).push(cur) + ev_pairs(evaluators_to_explore@) =~= ps.push(k));
        }
        assert forall|i: int| 0 <= i < state_data@.len() implies #[trigger] entry_ok(self, other, combinator, explored_states@, state_data@[i]) by {
            assert(entry_ok(self, other, combinator, ex0, state_data@[i]));
        }
    }
@loop 1 end
    proof {
        stk = evaluators_to_explore@;
        let e = state_data@.last();
        assert(e.0 == cur);
        assert(entry_ok(self, other, combinator, explored_states@, e));
        let d0 = state_data@.drop_last();
        assert(d0 =~= sd0);
        assert forall|i: int| 0 <= i < state_data@.len() implies #[trigger] entry_ok(self, other, combinator, explored_states@, state_data@[i]) by {
            if i < d0.len() { assert(d0[i] == state_data@[i]); }
        }
        assert(dpairs(state_data@) =~= dpairs(d0).push(cur));
    }
@loop 1 post
    let ghost ps = dpairs(state_data@);
    let ghost it6_seq0 = state_data@;
    proof {
        assert(ps + ev_pairs(evaluators_to_explore@) =~= ps);
        assert(frontier(explored_states@, ps));
        ps.unique_seq_to_set();
        assert(ps.to_set() =~= explored_states@);
        assert(ps.len() == state_data@.len());
        assert forall|i: int| 0 <= i < ps.len() implies #[trigger] pin(self, other, ps[i]) by {
            assert(entry_ok(self, other, combinator, explored_states@, state_data@[i]));
        }
    }
@acc 3 HMap<(usize, usize), Str>
@loop 3 inv
    explored_states@ == ps.to_set(), frontier(explored_states@, ps), enumerates(it3_seq, explored_states@),
    forall|i: int| 0 <= i < ps.len() ==> #[trigger] pin(self, other, ps[i]),
    forall|k: Pair| #[trigger] acc3@.contains_key(k) ==> explored_states@.contains(k) && hm@.contains(acc3@[k]@),
    forall|k: Pair, l: Pair| acc3@.contains_key(k) && acc3@.contains_key(l) && k != l ==> (#[trigger] acc3@[k])@ != (#[trigger] acc3@[l])@,
    forall|k: Pair| #[trigger] acc3@.contains_key(k) ==> exists|j: int| 0 <= j < it3.pos() && it3_seq[j] == k,
@loop 3 beg
    proof {
        assert(it3_seq[it3.pos() - 1].kv() == *x3);
        assert(explored_states@.contains(*x3));
        assert(ps.contains(*x3));
        let i = choose|i: int| 0 <= i < ps.len() && ps[i] == *x3;
        assert(pin(self, other, ps[i]));
        assert forall|k: Pair| #[trigger] acc3@.contains_key(k) implies k != *x3 by {
            let j = choose|j: int| 0 <= j < it3.pos() - 1 && it3_seq[j] == k;
            assert(it3_seq[j].kv() != it3_seq[it3.pos() - 1].kv());
        }
    }
@loop 3 post
    proof {
        assert(acc3@.dom().subset_of(explored_states@));
        if acc3@.dom().len() >= state_data@.len() {
            vstd::set_lib::lemma_len_subset(acc3@.dom(), explored_states@);
            vstd::set_lib::lemma_subset_equality(acc3@.dom(), explored_states@);
            assert(names_ok(acc3@, explored_states@));
        }
    }
@acc 4 HMap<(usize, usize), Str>
@loop 4 inv
    enumerates(it4_seq, explored_states@),
    forall|k: Pair| #[trigger] acc4@.contains_key(k) <==> exists|j: int| 0 <= j < it4.pos() && (#[trigger] it4_seq[j]) == k,
    forall|j: int| 0 <= j < it4.pos() ==> acc4@[#[trigger] it4_seq[j]]@ == dec(j),
@loop 4 beg
    proof {
        assert forall|j: int| 0 <= j < it4.pos() - 1 implies (#[trigger] it4_seq[j]) != *x4 by {
            assert(it4_seq[j].kv() != it4_seq[it4.pos() - 1].kv());
        }
    }
@loop 4 post
    proof {
        assert(names_ok(acc4@, explored_states@)) by {
            assert forall|k: Pair| #[trigger] acc4@.contains_key(k) <==> explored_states@.contains(k) by {
                if acc4@.contains_key(k) { let j = choose|j: int| 0 <= j < it4_seq.len() && (#[trigger] it4_seq[j]) == k; assert(explored_states@.contains(it4_seq[j].kv())); }
                if explored_states@.contains(k) { let j = choose|j: int| 0 <= j < it4_seq.len() && (#[trigger] it4_seq[j]).kv() == k; assert(it4_seq[j] == k); }
            }
            assert forall|k: Pair, l: Pair| acc4@.contains_key(k) && acc4@.contains_key(l) && k != l implies (#[trigger] acc4@[k])@ != (#[trigger] acc4@[l])@ by {
                let i = choose|j: int| 0 <= j < it4_seq.len() && (#[trigger] it4_seq[j]) == k;
                let j = choose|j: int| 0 <= j < it4_seq.len() && (#[trigger] it4_seq[j]) == l;
                axiom_dec_inj(i, j);
            }
        }
    }
@let names
    proof { assert(names_ok(names@, explored_states@)); }
@acc 5 HMap<(usize, usize), usize>
@loop 5 inv
    it5_seq == state_data@,
    forall|k: Pair| #[trigger] acc5@.contains_key(k) <==> exists|j: int| 0 <= j < it5.pos() && (#[trigger] ps[j]) == k,
    forall|k: Pair| #[trigger] acc5@.contains_key(k) ==> acc5@[k] < it5.pos() && ps[acc5@[k] as int] == k,
@loop 5 beg
    proof { assert(ps[it5.pos() - 1] == x5.0); }
@loop 5 post
    proof {
        assert(trans_idx(ps, acc5@)) by {
            assert forall|k: Pair| #[trigger] acc5@.contains_key(k) <==> ps.contains(k) by {
                if acc5@.contains_key(k) { let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]) == k; assert(ps.contains(k)); }
                if ps.contains(k) { let j = choose|j: int| 0 <= j < ps.len() && ps[j] == k; assert(ps[j] == k); }
            }
        }
        assert(explored_states@.contains((q1, q2)) && ps.contains((q1, q2)));
    }
@acc 6 Vec<DfaState>
@loop 6 inv
    ps == dpairs(it6_seq), it6_seq == it6_seq0, trans_idx(ps, rev_state_idx_map@), names_ok(names@, explored_states@), frontier(explored_states@, ps),
    forall|i: int| 0 <= i < it6_seq.len() ==> #[trigger] entry_ok(self, other, combinator, explored_states@, it6_seq[i]),
    acc6@.len() == it6.pos(),
    forall|i: int| 0 <= i < acc6@.len() ==> (#[trigger] acc6@[i]).transitions@.len() == self.alphabet@.len() && acc6@[i].name == names@[ps[i]]
        && acc6@[i].accepting == it6_seq[i].1 && acc6@[i].initial == (ps[i] == (q1, q2)),
    forall|i: int, k: int| 0 <= i < acc6@.len() && 0 <= k < self.alphabet@.len() ==> (#[trigger] acc6@[i].transitions@[k]) < ps.len()
        && ps[acc6@[i].transitions@[k] as int] == pnext(self, other, ps[i], self.alphabet@[k]@),
@loop 6 beg
    proof {
        assert(ps[it6.pos() - 1] == x6.0);
        assert(entry_ok(self, other, combinator, explored_states@, it6_seq[it6.pos() - 1]));
        assert(ps.contains(x6.0));
        assert(explored_states@.contains(x6.0));
    }
@acc 7 Vec<usize>
@loop 7 inv
    it7_seq == x6.2@, acc7@.len() == it7.pos(),
    forall|k: int| 0 <= k < acc7@.len() ==> (#[trigger] acc7@[k]) < ps.len() && ps[acc7@[k] as int] == pnext(self, other, x6.0, self.alphabet@[k]@),
@loop 7 beg
    proof {
        assert(x7 == x6.2@[it7.pos() - 1]);
        assert(explored_states@.contains(x7));
        assert(ps.contains(x7));
    }
@end
    proof {
        let d = ret_.unwrap();
        assert forall|p: int, q: int| 0 <= p < d.states@.len() && 0 <= q < d.states@.len() && p != q implies (#[trigger] d.states@[p]).name@ != (#[trigger] d.states@[q]).name@ by {
            assert(ps[p] != ps[q]);
            assert(ps.contains(ps[p]) && ps.contains(ps[q]));
            assert(explored_states@.contains(ps[p]) && explored_states@.contains(ps[q]));
            assert(names@.contains_key(ps[p]) && names@.contains_key(ps[q]));
        }
        assert(d.core());
        assert forall|q: int| 0 <= q < d.states@.len() implies (#[trigger] d.states@[q]).initial == (q == d.initial_state) by {
            assert(ps[q] == (q1, q2) <==> q == d.initial_state);
        }
        assert forall|i: int| 0 <= i < ps.len() implies call_ensures(combinator, (&self.states@[(#[trigger] ps[i]).0 as int], &other.states@[ps[i].1 as int]), d.states@[i].accepting) by {
            assert(entry_ok(self, other, combinator, explored_states@, it6_seq0[i]));
        }
        assert(prod_of(self, other, combinator, &d, ps));
        assert forall|w: Word| #[trigger] over(self.alphabet@, w) implies
            call_ensures(combinator, (&self.states@[drun(self, self.initial_state, w).unwrap() as int], &other.states@[drun(other, other.initial_state, w).unwrap() as int]), daccepts(&d, w)) by {
            lemma_prod_run(self, other, combinator, &d, ps, w);
            let i = drun(&d, d.initial_state, w).unwrap() as int;
            assert(pin(self, other, ps[i]));
        }
    }
@raw
// a set of pairs below (n, m) has at most n * m elements
pub proof fn lemma_pairs_bound(x: Set<Pair>, n: nat, m: nat)
    requires forall|k: Pair| #[trigger] x.contains(k) ==> k.0 < n && k.1 < m,
    ensures x.len() <= n * m,
{
    let f = |k: Pair| (k.0 * m + k.1) as int;
    let y = x.map(f);
    assert forall|a: Pair, b: Pair| x.contains(a) && x.contains(b) && f(a) == f(b) implies a == b by {
        assert(a.0 * m + a.1 == b.0 * m + b.1);
        assert(a.0 == b.0) by(nonlinear_arith) requires a.0 * m + a.1 == b.0 * m + b.1, a.1 < m, b.1 < m, m > 0;
    }
    vstd::set_lib::lemma_map_size(x, y, f);
    let z = vstd::set_lib::set_int_range(0, (n * m) as int);
    vstd::set_lib::lemma_int_range(0, (n * m) as int);
    assert(y.subset_of(z)) by {
        assert forall|v: int| y.contains(v) implies z.contains(v) by {
            let k = choose|k: Pair| x.contains(k) && f(k) == v;
            assert(0 <= k.0 * m + k.1 < n * m) by(nonlinear_arith) requires k.0 < n, k.1 < m;
        }
    }
    vstd::set_lib::lemma_len_subset(y, z);
}
