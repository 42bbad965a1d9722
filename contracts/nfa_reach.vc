@raw
// some word leads from the initial state to q
pub open spec fn nreachable(n: &Nfa, q: usize) -> bool { exists|w: Word| #[trigger] nreach(n, n.initial_state, w, q) }
pub open spec fn nreach_set(n: &Nfa, s: Set<usize>) -> bool { forall|q: usize| #[trigger] s.contains(q) <==> nreachable(n, q) }
pub open spec fn nunreach_set(n: &Nfa, s: Set<usize>) -> bool { forall|q: usize| #[trigger] s.contains(q) <==> q < n.n() && !nreachable(n, q) }
// q follows p: after one symbol, or after epsilon moves
pub open spec fn tedge(n: &Nfa, p: usize, q: usize) -> bool { exists|i: int| 0 <= i < n.alphabet@.len() && #[trigger] n.tr(p, i).contains(q) }
pub open spec fn nsucc(n: &Nfa, p: usize, q: usize) -> bool { tedge(n, p, q) || ereach(n, p, q) }
pub open spec fn nclosed(n: &Nfa, s: Set<usize>) -> bool { forall|p: usize, q: usize| s.contains(p) && #[trigger] nsucc(n, p, q) ==> s.contains(q) }
pub proof fn lemma_nsucc_step(n: &Nfa, p: usize, q: usize)
    requires n.core(), p < n.n(), nreachable(n, p), nsucc(n, p, q),
    ensures nreachable(n, q), q < n.n(),
{
    let w = choose|w: Word| #[trigger] nreach(n, n.initial_state, w, p);
    if tedge(n, p, q) {
        let i = choose|i: int| 0 <= i < n.alphabet@.len() && #[trigger] n.tr(p, i).contains(q);
        let c = n.alphabet@[i]@;
        lemma_sym_idx(n.alphabet@, i);
        assert(sedge(n, p, c, q));
        lemma_nreach_sedge(n, n.initial_state, w, p, c, q);
        lemma_edge_in(n, p, q);
        assert(nreach(n, n.initial_state, w.push(c), q));
    } else {
        lemma_nreach_ereach(n, n.initial_state, w, p, q);
        lemma_nreach_in(n, n.initial_state, w, q);
    }
}
pub proof fn lemma_nclosed_path(n: &Nfa, s: Set<usize>, w: Word, q: usize, k: nat)
    requires n.core(), nclosed(n, s), s.contains(n.initial_state), npath(n, n.initial_state, w, q, k),
    ensures s.contains(q),
    decreases k,
{
    reveal_with_fuel(npath, 2);
    if k > 0 {
        if exists|r: usize| npath(n, n.initial_state, w, r, (k - 1) as nat) && #[trigger] eedge(n, r, q) {
            let r = choose|r: usize| npath(n, n.initial_state, w, r, (k - 1) as nat) && #[trigger] eedge(n, r, q);
            lemma_nclosed_path(n, s, w, r, (k - 1) as nat);
            lemma_nreach_refl(n, r);
            lemma_nreach_eedge(n, r, eword(), r, q);
            assert(nsucc(n, r, q));
        } else {
            let r = choose|r: usize| npath(n, n.initial_state, w.drop_last(), r, (k - 1) as nat) && #[trigger] sedge(n, r, w.last(), q);
            lemma_nclosed_path(n, s, w.drop_last(), r, (k - 1) as nat);
            assert(n.tr(r, sym_idx(n.alphabet@, w.last())).contains(q));
            assert(nsucc(n, r, q));
        }
    }
}
pub proof fn lemma_nreach_start(n: &Nfa)
    ensures nreachable(n, n.initial_state),
{
    lemma_nreach_refl(n, n.initial_state);
    assert(nreach(n, n.initial_state, eword(), n.initial_state));
}
pub proof fn lemma_nreach_all(n: &Nfa, s: Set<usize>)
    requires n.core(), nclosed(n, s), s.contains(n.initial_state), forall|q: usize| #[trigger] s.contains(q) ==> nreachable(n, q),
    ensures nreach_set(n, s),
{
    assert forall|q: usize| nreachable(n, q) implies #[trigger] s.contains(q) by {
        let w = choose|w: Word| #[trigger] nreach(n, n.initial_state, w, q);
        reveal(nreach);
        let k = choose|k: nat| npath(n, n.initial_state, w, q, k);
        lemma_nclosed_path(n, s, w, q, k);
    }
}
pub proof fn lemma_nreachable_in(n: &Nfa)
    requires n.core(),
    ensures forall|q: usize| #[trigger] nreachable(n, q) ==> q < n.n(),
{
    assert forall|q: usize| #[trigger] nreachable(n, q) implies q < n.n() by {
        let w = choose|w: Word| #[trigger] nreach(n, n.initial_state, w, q);
        lemma_nreach_in(n, n.initial_state, w, q);
    }
}
// what the search has established: r is reachable, everything in r outside the frontier f has all its successors in r
pub open spec fn nsearch(n: &Nfa, r: Set<usize>, f: Set<usize>) -> bool {
    &&& r.contains(n.initial_state)
    &&& forall|q: usize| #[trigger] r.contains(q) ==> nreachable(n, q) && q < n.n()
    &&& forall|q: usize| #[trigger] f.contains(q) ==> r.contains(q)
    &&& forall|p: usize, q: usize| r.contains(p) && !f.contains(p) && #[trigger] nsucc(n, p, q) ==> r.contains(q)
}
// progress of one round that started with the reached set rb and the frontier fr and has found a so far
#[verifier::opaque]
pub open spec fn nround(n: &Nfa, rb: Set<usize>, fr: Set<usize>, r: Set<usize>, a: Set<usize>) -> bool {
    &&& rb.subset_of(r) && r.len() <= n.n() && rb.len() <= r.len() && (a != Set::<usize>::empty() ==> rb.len() < r.len())
    &&& nsearch(n, r, fr.union(a))
}
pub proof fn lemma_nround_start(n: &Nfa, rb: Set<usize>, fr: Set<usize>)
    requires nsearch(n, rb, fr), rb.len() <= n.n(),
    ensures nround(n, rb, fr, rb, Set::<usize>::empty()),
{
    reveal(nround);
    assert(fr.union(Set::<usize>::empty()) =~= fr);
}
pub proof fn lemma_nround_in(n: &Nfa, rb: Set<usize>, fr: Set<usize>, r: Set<usize>, a: Set<usize>)
    requires nround(n, rb, fr, r, a),
    ensures forall|q: usize| #[trigger] r.contains(q) ==> q < n.n() && nreachable(n, q), rb.subset_of(r), forall|q: usize| #[trigger] fr.contains(q) ==> r.contains(q),
{
    reveal(nround);
    assert forall|q: usize| #[trigger] fr.contains(q) implies r.contains(q) by { assert(fr.union(a).contains(q)); }
}
pub proof fn lemma_nround_add(n: &Nfa, rb: Set<usize>, fr: Set<usize>, r: Set<usize>, a: Set<usize>, p: usize, q: usize)
    requires n.core(), nround(n, rb, fr, r, a), r.contains(p), nsucc(n, p, q),
    ensures nround(n, rb, fr, r.insert(q), if r.contains(q) { a } else { a.insert(q) }), q < n.n(),
{
    reveal(nround);
    lemma_nsucc_step(n, p, q);
    if r.contains(q) { assert(r.insert(q) =~= r); } else {
        let r2 = r.insert(q); let a2 = a.insert(q);
        assert forall|x: usize| #[trigger] r2.contains(x) implies x < n.n() by { if x != q { assert(r.contains(x)); } }
        lemma_idx_bound(r2, n.n());
        assert forall|x: usize, y: usize| r2.contains(x) && !fr.union(a2).contains(x) && #[trigger] nsucc(n, x, y) implies r2.contains(y) by { assert(r.contains(x) && !fr.union(a).contains(x)); }
        assert forall|x: usize| #[trigger] fr.union(a2).contains(x) implies r2.contains(x) by { if x != q { assert(fr.union(a).contains(x)); } }
    }
}
pub proof fn lemma_nround_end(n: &Nfa, rb: Set<usize>, fr: Set<usize>, r: Set<usize>, a: Set<usize>)
    requires nround(n, rb, fr, r, a), forall|p: usize, q: usize| fr.contains(p) && #[trigger] nsucc(n, p, q) ==> r.contains(q),
    ensures nsearch(n, r, a), r.len() <= n.n(), rb.len() <= r.len(), a != Set::<usize>::empty() ==> rb.len() < r.len(),
{
    reveal(nround);
    assert forall|p: usize, q: usize| r.contains(p) && !a.contains(p) && #[trigger] nsucc(n, p, q) implies r.contains(q) by { if !fr.contains(p) { assert(!fr.union(a).contains(p)); } }
    assert forall|q: usize| #[trigger] a.contains(q) implies r.contains(q) by { assert(fr.union(a).contains(q)); }
}
pub proof fn lemma_nset_pos(s: Set<usize>)
    requires s != Set::<usize>::empty(),
    ensures s.len() > 0,
{
    if s.len() == 0 { s.lemma_len0_is_empty(); }
}

@fn dandy/src/nfa/mod.rs Nfa::reachable_state_idx
@sig
    requires self.core(),
    ensures nreach_set(self, r@),
@acc 2 HSet<usize>
@loop 1 pre
    proof {
        lemma_nreach_start(self);
        assert(reachables@ =~= Set::empty().insert(self.initial_state));
        lemma_idx_bound(reachables@, self.n());
    }
@loop 1 inv
    nsearch(self, reachables@, new_states@), reachables@.len() <= self.n(),
    decreases self.n() - reachables@.len(), new_states@.len(),
@loop 1 beg
    let ghost fr = new_states@;
    let ghost rb = reachables@;
    proof { lemma_nset_pos(fr); lemma_nround_start(self, rb, fr); }
@loop 2 inv
    enumerates(it2_seq, fr), nround(self, rb, fr, reachables@, acc2@),
    forall|j: int, q: usize| 0 <= j < it2.pos() && #[trigger] nsucc(self, it2_seq[j], q) ==> reachables@.contains(q),
@loop 2 beg
    let ghost cur = x2;
    proof {
        assert(fr.contains(it2_seq[it2.pos() - 1]));
        lemma_nround_in(self, rb, fr, reachables@, acc2@);
        assert(nstate_ok(self.states@[cur as int], self.alphabet@.len(), self.n()));
    }
@loop 3 inv
    enumerates(it2_seq, fr), nround(self, rb, fr, reachables@, acc2@), reachables@.contains(cur), cur < self.n(), it3_seq == self.states@[cur as int].transitions@, it3_seq.len() == self.alphabet@.len(),
    forall|j: int, q: usize| 0 <= j < it2.pos() - 1 && #[trigger] nsucc(self, it2_seq[j], q) ==> reachables@.contains(q),
    forall|i: int, q: usize| 0 <= i < it3.pos() && #[trigger] self.tr(cur, i).contains(q) ==> reachables@.contains(q),
@loop 3 beg
    let ghost i3 = it3.pos() - 1;
@loop 4 inv
    enumerates(it2_seq, fr), nround(self, rb, fr, reachables@, acc2@), reachables@.contains(cur), it4_seq == self.tr(cur, i3), 0 <= i3 < self.alphabet@.len(),
    forall|j: int, q: usize| 0 <= j < it2.pos() - 1 && #[trigger] nsucc(self, it2_seq[j], q) ==> reachables@.contains(q),
    forall|i: int, q: usize| 0 <= i < i3 && #[trigger] self.tr(cur, i).contains(q) ==> reachables@.contains(q),
    forall|j: int| 0 <= j < it4.pos() ==> reachables@.contains(#[trigger] it4_seq[j]),
@loop 4 beg
    proof {
        assert(it4_seq[it4.pos() - 1] == *x4);
        assert(self.tr(cur, i3).contains(*x4));
        assert(nsucc(self, cur, *x4));
        lemma_nround_add(self, rb, fr, reachables@, acc2@, cur, *x4);
    }
    let ghost r4 = reachables@;
@loop 4 end
    proof { assert(reachables@ == r4.insert(*x4)); }
@loop 5 pre
    let ghost cl = it5_seq;
    proof {
        assert forall|q: usize| tedge(self, cur, q) implies reachables@.contains(q) by { let i = choose|i: int| 0 <= i < self.alphabet@.len() && #[trigger] self.tr(cur, i).contains(q); }
        assert(forall|j: int| 0 <= j < cl.len() ==> ereach(self, cur, #[trigger] cl[j].kv()));
        let gs = choose|s: Set<usize>| #[trigger] enumerates(cl, s) && forall|q: usize| #[trigger] s.contains(q) <==> ereach(self, cur, q);
        assert forall|q: usize| ereach(self, cur, q) implies exists|j: int| 0 <= j < cl.len() && (#[trigger] cl[j]).kv() == q by { assert(gs.contains(q)); }
    }
@loop 5 inv
    enumerates(it2_seq, fr), nround(self, rb, fr, reachables@, acc2@), reachables@.contains(cur),
    forall|j: int| 0 <= j < it5_seq.len() ==> ereach(self, cur, #[trigger] it5_seq[j].kv()),
    forall|q: usize| ereach(self, cur, q) ==> exists|j: int| 0 <= j < it5_seq.len() && (#[trigger] it5_seq[j]).kv() == q,
    forall|j: int, q: usize| 0 <= j < it2.pos() - 1 && #[trigger] nsucc(self, it2_seq[j], q) ==> reachables@.contains(q),
    forall|q: usize| #[trigger] tedge(self, cur, q) ==> reachables@.contains(q),
    forall|j: int| 0 <= j < it5.pos() ==> reachables@.contains((#[trigger] it5_seq[j]).kv()),
@loop 5 beg
    proof {
        assert(ereach(self, cur, it5_seq[it5.pos() - 1].kv()));
        assert(nsucc(self, cur, x5));
        lemma_nround_add(self, rb, fr, reachables@, acc2@, cur, x5);
    }
    let ghost r5 = reachables@;
@loop 5 end
    proof { assert(reachables@ == r5.insert(x5)); }
@loop 2 end
    proof {
        assert forall|q: usize| #[trigger] nsucc(self, cur, q) implies reachables@.contains(q) by {}
    }
@loop 2 post
    proof {
        assert forall|p: usize, q: usize| fr.contains(p) && #[trigger] nsucc(self, p, q) implies reachables@.contains(q) by {
            let j = choose|j: int| 0 <= j < it2_seq.len() && (#[trigger] it2_seq[j]).kv() == p;
            assert(nsucc(self, it2_seq[j], q));
        }
        lemma_nround_end(self, rb, fr, reachables@, acc2@);
    }
@loop 1 post
    proof { lemma_nreach_all(self, reachables@); }

@fn dandy/src/nfa/mod.rs Nfa::unreachable_state_idx
@sig
    requires self.core(),
    ensures nunreach_set(self, r@),
@loop 1 inv
    forall|q: usize| #[trigger] acc1@.contains(q) <==> q < it1.pos() && !reachables@.contains(q),
@loop 1 beg
    proof { assert(x1 == it1_seq[it1.pos() - 1]); }

@fn dandy/src/nfa/mod.rs Nfa::has_reachable_accepting_state
@sig
    requires self.core(),
    ensures r == exists|w: Word| #[trigger] naccepts(self, w),
@start
    proof { lemma_nreachable_in(self); }
@loop 1 inv
    enumerates(it1_seq, src1@), nreach_set(self, src1@),
    r1 ==> exists|q: usize| src1@.contains(q) && #[trigger] self.acc(q),
    !r1 ==> forall|j: int| 0 <= j < it1.pos() ==> !self.acc(#[trigger] it1_seq[j]),
@loop 1 beg
    proof { let cur = it1_seq[it1.pos() - 1]; assert(src1@.contains(cur)); assert(self.acc(cur) ==> src1@.contains(cur) && self.acc(cur)); }
@loop 1 post
    proof {
        if r1 {
            let q = choose|q: usize| src1@.contains(q) && #[trigger] self.acc(q);
            let w = choose|w: Word| #[trigger] nreach(self, self.initial_state, w, q);
            assert(naccepts(self, w));
        } else {
            assert forall|w: Word| !#[trigger] naccepts(self, w) by {
                if naccepts(self, w) {
                    let q = choose|q: usize| #[trigger] nreach(self, self.initial_state, w, q) && self.acc(q);
                    assert(nreachable(self, q));
                    assert(src1@.contains(q));
                    let j = choose|j: int| 0 <= j < it1_seq.len() && it1_seq[j].kv() == q;
                }
            }
        }
    }
@raw
// v lists the states with the indices in s, each once
pub open spec fn nlists_states(n: &Nfa, s: Set<usize>, v: Seq<&NfaState>) -> bool {
    exists|k: Seq<usize>| #[trigger] enumerates(k, s) && k.len() == v.len() && forall|i: int| 0 <= i < k.len() ==> k[i] < n.n() && v[i] == &n.states@[k[i] as int]
}

@fn dandy/src/nfa/mod.rs Nfa::reachable_states
@sig
    requires self.core(),
    ensures exists|s: Set<usize>| #[trigger] nreach_set(self, s) && nlists_states(self, s, r@),
@start
    proof { lemma_nreachable_in(self); }
    let ghost mut gs = Set::<usize>::empty();
@loop 1 inv
    exists|s: Set<usize>| #[trigger] nreach_set(self, s) && enumerates(it1_seq, s),
    acc1@.len() == it1.pos(), forall|i: int| 0 <= i < it1.pos() ==> #[trigger] acc1@[i] == &self.states@[it1_seq[i] as int],
@loop 1 beg
    proof {
        gs = choose|s: Set<usize>| #[trigger] nreach_set(self, s) && enumerates(it1_seq, s);
        assert(gs.contains(it1_seq[it1.pos() - 1]));
    }
@loop 1 post
    proof {
        gs = choose|s: Set<usize>| #[trigger] nreach_set(self, s) && enumerates(it1_seq, s);
        assert forall|i: int| 0 <= i < it1_seq.len() implies it1_seq[i] < self.n() && acc1@[i] == &self.states@[it1_seq[i] as int] by { assert(gs.contains(it1_seq[i])); }
        assert(nlists_states(self, gs, acc1@));
    }

@fn dandy/src/nfa/mod.rs Nfa::unreachable_states
@sig
    requires self.core(),
    ensures exists|s: Set<usize>| #[trigger] nunreach_set(self, s) && nlists_states(self, s, r@),
@start
    let ghost mut gs = Set::<usize>::empty();
@loop 1 inv
    exists|s: Set<usize>| #[trigger] nunreach_set(self, s) && enumerates(it1_seq, s),
    acc1@.len() == it1.pos(), forall|i: int| 0 <= i < it1.pos() ==> #[trigger] acc1@[i] == &self.states@[it1_seq[i] as int],
@loop 1 beg
    proof {
        gs = choose|s: Set<usize>| #[trigger] nunreach_set(self, s) && enumerates(it1_seq, s);
        assert(gs.contains(it1_seq[it1.pos() - 1]));
    }
@loop 1 post
    proof {
        gs = choose|s: Set<usize>| #[trigger] nunreach_set(self, s) && enumerates(it1_seq, s);
        assert forall|i: int| 0 <= i < it1_seq.len() implies it1_seq[i] < self.n() && acc1@[i] == &self.states@[it1_seq[i] as int] by { assert(gs.contains(it1_seq[i])); }
        assert(nlists_states(self, gs, acc1@));
    }
