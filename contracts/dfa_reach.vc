@raw
// some word leads from the initial state to q
pub open spec fn dreachable(d: &Dfa, q: usize) -> bool { exists|w: Word| #[trigger] drun(d, d.initial_state, w) == Some(q) }
pub open spec fn dreach_set(d: &Dfa, s: Set<usize>) -> bool { forall|q: usize| #[trigger] s.contains(q) <==> dreachable(d, q) }
pub open spec fn dunreach_set(d: &Dfa, s: Set<usize>) -> bool { forall|q: usize| #[trigger] s.contains(q) <==> q < d.states@.len() && !dreachable(d, q) }
pub open spec fn dedge(d: &Dfa, p: usize, q: usize) -> bool { d.states@[p as int].transitions@.contains(q) }
// closed under the transitions
pub open spec fn dclosed(d: &Dfa, s: Set<usize>) -> bool { forall|p: usize, q: usize| s.contains(p) && #[trigger] dedge(d, p, q) ==> s.contains(q) }
pub proof fn lemma_dedge_in(d: &Dfa, p: usize, q: usize)
    requires d.core(), p < d.states@.len(), dedge(d, p, q),
    ensures q < d.states@.len(),
{
    let t = d.states@[p as int].transitions@;
    let i = choose|i: int| 0 <= i < t.len() && t[i] == q;
    assert(d.states@[p as int].transitions@[i] < d.states@.len());
}
pub proof fn lemma_dreach_start(d: &Dfa)
    ensures dreachable(d, d.initial_state),
{
    assert(drun(d, d.initial_state, Seq::<Seq<char>>::empty()) == Some(d.initial_state));
}
pub proof fn lemma_dreach_step(d: &Dfa, p: usize, q: usize)
    requires d.core(), dreachable(d, p), dedge(d, p, q),
    ensures dreachable(d, q), q < d.states@.len(),
{
    let w = choose|w: Word| #[trigger] drun(d, d.initial_state, w) == Some(p);
    lemma_drun_in(d, d.initial_state, w);
    let t = d.states@[p as int].transitions@;
    let i = choose|i: int| 0 <= i < t.len() && t[i] == q;
    let c = d.alphabet@[i]@;
    lemma_sym_idx(d.alphabet@, i);
    let v = w.push(c);
    assert(v.drop_last() =~= w);
    assert(drun(d, d.initial_state, v) == Some(q));
    assert(d.states@[p as int].transitions@[i] < d.states@.len());
}
pub proof fn lemma_dclosed(d: &Dfa, s: Set<usize>, w: Word)
    requires d.core(), dclosed(d, s), s.contains(d.initial_state),
    ensures match drun(d, d.initial_state, w) { Some(q) => s.contains(q), None => true },
    decreases w.len(),
{
    if w.len() > 0 {
        let v = w.drop_last();
        lemma_dclosed(d, s, v);
        lemma_drun_in(d, d.initial_state, v);
        match drun(d, d.initial_state, v) {
            Some(p) => if has_sym(d.alphabet@, w.last()) {
                let i = sym_idx(d.alphabet@, w.last());
                assert(0 <= i < d.alphabet@.len());
                assert(dedge(d, p, d.next(p, i)));
            },
            None => {}
        }
    }
}
pub proof fn lemma_dreach_all(d: &Dfa, s: Set<usize>)
    requires d.core(), dclosed(d, s), s.contains(d.initial_state), forall|q: usize| #[trigger] s.contains(q) ==> dreachable(d, q),
    ensures dreach_set(d, s),
{
    assert forall|q: usize| dreachable(d, q) implies #[trigger] s.contains(q) by {
        let w = choose|w: Word| #[trigger] drun(d, d.initial_state, w) == Some(q);
        lemma_dclosed(d, s, w);
    }
}
pub proof fn lemma_dreach_in(d: &Dfa)
    requires d.core(),
    ensures forall|q: usize| #[trigger] dreachable(d, q) ==> q < d.states@.len(),
{
    assert forall|q: usize| #[trigger] dreachable(d, q) implies q < d.states@.len() by {
        let w = choose|w: Word| #[trigger] drun(d, d.initial_state, w) == Some(q);
        lemma_drun_in(d, d.initial_state, w);
    }
}
// a bounded set of indices is no larger than the bound
pub proof fn lemma_didx_bound(s: Set<usize>, n: nat)
    requires forall|q: usize| #[trigger] s.contains(q) ==> q < n,
    ensures s.len() <= n,
{
    let t = s.map(|q: usize| q as int);
    vstd::set_lib::lemma_int_range(0, n as int);
    assert(t.subset_of(vstd::set_lib::set_int_range(0, n as int)));
    vstd::set_lib::lemma_len_subset(t, vstd::set_lib::set_int_range(0, n as int));
    vstd::set_lib::lemma_map_size(s, t, |q: usize| q as int);
}
// what the search has established: r is reachable, everything in r outside the frontier f has all its successors in r
pub open spec fn dsearch(d: &Dfa, r: Set<usize>, f: Set<usize>) -> bool {
    &&& r.contains(d.initial_state)
    &&& forall|q: usize| #[trigger] r.contains(q) ==> dreachable(d, q) && q < d.states@.len()
    &&& forall|q: usize| #[trigger] f.contains(q) ==> r.contains(q)
    &&& forall|p: usize, q: usize| r.contains(p) && !f.contains(p) && #[trigger] dedge(d, p, q) ==> r.contains(q)
}

@fn dandy/src/dfa/mod.rs Dfa::reachable_state_idx
@sig
    requires self.core(),
    ensures dreach_set(self, r@),
@acc 2 HSet<usize>
@loop 1 pre
    proof {
        lemma_dreach_start(self);
        assert(reachables@ =~= Set::empty().insert(self.initial_state));
        lemma_didx_bound(reachables@, self.states@.len());
    }
@loop 1 inv
    dsearch(self, reachables@, new_states@), reachables@.len() <= self.states@.len(),
    decreases self.states@.len() - reachables@.len(), new_states@.len(),
@loop 1 beg
    let ghost fr = new_states@;
    let ghost rb = reachables@;
    proof { lemma_set_pos(fr); }
@loop 2 inv
    enumerates(it2_seq, fr), rb.subset_of(reachables@), reachables@.len() <= self.states@.len(), rb.len() <= reachables@.len(), acc2@ != Set::<usize>::empty() ==> rb.len() < reachables@.len(),
    dsearch(self, reachables@, fr.union(acc2@)),
    forall|j: int, q: usize| 0 <= j < it2.pos() && #[trigger] dedge(self, it2_seq[j], q) ==> reachables@.contains(q),
@loop 2 beg
    let ghost cur = x2;
    proof { assert(fr.contains(it2_seq[it2.pos() - 1])); }
@loop 3 inv
    enumerates(it2_seq, fr), rb.subset_of(reachables@), reachables@.len() <= self.states@.len(), rb.len() <= reachables@.len(), acc2@ != Set::<usize>::empty() ==> rb.len() < reachables@.len(),
    dsearch(self, reachables@, fr.union(acc2@)), reachables@.contains(cur), cur < self.states@.len(), it3_seq == self.states@[cur as int].transitions@,
    forall|j: int, q: usize| 0 <= j < it2.pos() - 1 && #[trigger] dedge(self, it2_seq[j], q) ==> reachables@.contains(q),
    forall|j: int| 0 <= j < it3.pos() ==> reachables@.contains(#[trigger] it3_seq[j]),
@loop 3 beg
    proof { assert(dedge(self, cur, *x3)); lemma_dreach_step(self, cur, *x3); }
    let ghost r3 = reachables@;
    let ghost a3 = acc2@;
@loop 3 end
    proof {
        lemma_didx_bound(reachables@, self.states@.len());
        if !r3.contains(*x3) {
            assert(acc2@ == a3.insert(*x3)); assert(reachables@.len() == r3.len() + 1);
            assert forall|p: usize, q: usize| reachables@.contains(p) && !fr.union(acc2@).contains(p) && #[trigger] dedge(self, p, q) implies reachables@.contains(q) by { assert(r3.contains(p) && !fr.union(a3).contains(p)); }
            assert forall|q: usize| #[trigger] fr.union(acc2@).contains(q) implies reachables@.contains(q) by { if q != *x3 { assert(fr.union(a3).contains(q)); } }
        } else { assert(reachables@ =~= r3); assert(acc2@ == a3); }
    }
@loop 2 post
    proof {
        assert(dsearch(self, reachables@, acc2@)) by {
            assert forall|p: usize, q: usize| reachables@.contains(p) && !acc2@.contains(p) && #[trigger] dedge(self, p, q) implies reachables@.contains(q) by {
                if fr.contains(p) {
                    let j = choose|j: int| 0 <= j < it2_seq.len() && it2_seq[j] == p;
                    assert(dedge(self, it2_seq[j], q));
                }
            }
            assert forall|q: usize| #[trigger] acc2@.contains(q) implies reachables@.contains(q) by { assert(fr.union(acc2@).contains(q)); }
        }
    }
@loop 1 post
    proof { lemma_dreach_all(self, reachables@); }
@raw
pub proof fn lemma_set_pos(s: Set<usize>)
    requires s != Set::<usize>::empty(),
    ensures s.len() > 0,
{
    if s.len() == 0 { s.lemma_len0_is_empty(); }
}

@fn dandy/src/dfa/mod.rs Dfa::unreachable_state_idx
@sig
    requires self.core(),
    ensures dunreach_set(self, r@),
@loop 1 inv
    forall|q: usize| #[trigger] acc1@.contains(q) <==> q < it1.pos() && !reachables@.contains(q),
@loop 1 beg
    proof { assert(x1 == it1_seq[it1.pos() - 1]); }

@fn dandy/src/dfa/mod.rs Dfa::has_reachable_accepting_state
@sig
    requires self.core(),
    ensures r == exists|w: Word| #[trigger] daccepts(self, w),
@start
    proof { lemma_dreach_in(self); }
@loop 1 inv
    enumerates(it1_seq, src1@), dreach_set(self, src1@),
    r1 ==> exists|q: usize| src1@.contains(q) && #[trigger] self.acc(q),
    !r1 ==> forall|j: int| 0 <= j < it1.pos() ==> !self.acc(#[trigger] it1_seq[j]),
@loop 1 beg
    proof { let cur = it1_seq[it1.pos() - 1]; assert(src1@.contains(cur)); assert(self.acc(cur) ==> src1@.contains(cur) && self.acc(cur)); }
@loop 1 post
    proof {
        if r1 {
            let q = choose|q: usize| src1@.contains(q) && #[trigger] self.acc(q);
            let w = choose|w: Word| #[trigger] drun(self, self.initial_state, w) == Some(q);
            assert(daccepts(self, w));
        } else {
            assert forall|w: Word| !#[trigger] daccepts(self, w) by {
                if daccepts(self, w) {
                    let q = drun(self, self.initial_state, w).unwrap();
                    assert(dreachable(self, q));
                    assert(src1@.contains(q));
                    let j = choose|j: int| 0 <= j < it1_seq.len() && it1_seq[j].kv() == q;
                }
            }
        }
    }
@raw
// v lists the states with the indices in s, each once
pub open spec fn lists_states(d: &Dfa, s: Set<usize>, v: Seq<&DfaState>) -> bool {
    exists|k: Seq<usize>| #[trigger] enumerates(k, s) && k.len() == v.len() && forall|i: int| 0 <= i < k.len() ==> k[i] < d.states@.len() && v[i] == &d.states@[k[i] as int]
}

@fn dandy/src/dfa/mod.rs Dfa::reachable_states
@sig
    requires self.core(),
    ensures exists|s: Set<usize>| #[trigger] dreach_set(self, s) && lists_states(self, s, r@),
@start
    proof { lemma_dreach_in(self); }
    let ghost mut gs = Set::<usize>::empty();
@loop 1 inv
    exists|s: Set<usize>| #[trigger] dreach_set(self, s) && enumerates(it1_seq, s),
    acc1@.len() == it1.pos(), forall|i: int| 0 <= i < it1.pos() ==> #[trigger] acc1@[i] == &self.states@[it1_seq[i] as int],
@loop 1 beg
    proof {
        gs = choose|s: Set<usize>| #[trigger] dreach_set(self, s) && enumerates(it1_seq, s);
        assert(gs.contains(it1_seq[it1.pos() - 1]));
    }
@loop 1 post
    proof {
        gs = choose|s: Set<usize>| #[trigger] dreach_set(self, s) && enumerates(it1_seq, s);
        assert forall|i: int| 0 <= i < it1_seq.len() implies it1_seq[i] < self.states@.len() && acc1@[i] == &self.states@[it1_seq[i] as int] by { assert(gs.contains(it1_seq[i])); }
        assert(lists_states(self, gs, acc1@));
    }

@fn dandy/src/dfa/mod.rs Dfa::unreachable_states
@sig
    requires self.core(),
    ensures exists|s: Set<usize>| #[trigger] dunreach_set(self, s) && lists_states(self, s, r@),
@start
    let ghost mut gs = Set::<usize>::empty();
@loop 1 inv
    exists|s: Set<usize>| #[trigger] dunreach_set(self, s) && enumerates(it1_seq, s),
    acc1@.len() == it1.pos(), forall|i: int| 0 <= i < it1.pos() ==> #[trigger] acc1@[i] == &self.states@[it1_seq[i] as int],
@loop 1 beg
    proof {
        gs = choose|s: Set<usize>| #[trigger] dunreach_set(self, s) && enumerates(it1_seq, s);
        assert(gs.contains(it1_seq[it1.pos() - 1]));
    }
@loop 1 post
    proof {
        gs = choose|s: Set<usize>| #[trigger] dunreach_set(self, s) && enumerates(it1_seq, s);
        assert forall|i: int| 0 <= i < it1_seq.len() implies it1_seq[i] < self.states@.len() && acc1@[i] == &self.states@[it1_seq[i] as int] by { assert(gs.contains(it1_seq[i])); }
        assert(lists_states(self, gs, acc1@));
    }
