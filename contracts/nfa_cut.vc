@raw
// the states of a are cut down to those with the indices in k (increasing), transitions renumbered
pub open spec fn tab_cut(a: Seq<Vec<usize>>, b: Seq<Vec<usize>>, k: Seq<usize>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> row_cut(a[i]@, (#[trigger] b[i])@, k)
}
pub open spec fn nstate_cut(a: NfaState, b: NfaState, k: Seq<usize>) -> bool {
    b.name == a.name && b.initial == a.initial && b.accepting == a.accepting && tab_cut(a.transitions@, b.transitions@, k) && row_cut(a.epsilon_transitions@, b.epsilon_transitions@, k)
}
pub open spec fn ncut(a: &Nfa, b: &Nfa, k: Seq<usize>) -> bool {
    &&& b.alphabet == a.alphabet && b.n() == k.len() && increasing(k)
    &&& b.initial_state < k.len() && k[b.initial_state as int] == a.initial_state
    &&& forall|i: int| 0 <= i < k.len() ==> k[i] < a.n() && nstate_cut(a.states@[k[i] as int], #[trigger] b.states@[i], k)
}
pub open spec fn avoids(s: Seq<usize>, gone: Seq<usize>) -> bool { forall|i: int| 0 <= i < s.len() ==> !gone.contains(#[trigger] s[i]) }
// no kept state has a transition to a removed one
pub open spec fn ncut_off(s: Seq<NfaState>, gone: Seq<usize>) -> bool {
    forall|q: usize| q < s.len() && !gone.contains(q) ==> avoids((#[trigger] s[q as int]).epsilon_transitions@, gone)
        && forall|i: int| 0 <= i < s[q as int].transitions@.len() ==> avoids((#[trigger] s[q as int].transitions@[i])@, gone)
}

// the renumbering f is defined on k and gives positions in it
pub open spec fn maps_into<F: Fn(usize) -> Option<usize>>(f: F, k: Seq<usize>) -> bool {
    (forall|x: usize| k.contains(x) ==> #[trigger] f.requires((x,))) && forall|x: usize, m: Option<usize>| #[trigger] f.ensures((x,), m) ==> (match m { Some(y) => y < k.len() && k[y as int] == x, None => false })
}
pub proof fn lemma_nkept_callable<F: Fn(usize) -> Option<usize>>(f: F, k: Seq<usize>, s: NfaState)
    requires maps_into(f, k), nkept(s, k),
    ensures callable_n(f, s),
{
    assert forall|i: int| 0 <= i < s.transitions@.len() implies callable_row(f, (#[trigger] s.transitions@[i])@) by { assert(all_in_seq(s.transitions@[i]@, k)); }
}
pub proof fn lemma_cut_row<F: Fn(usize) -> Option<usize>>(f: F, k: Seq<usize>, a: Seq<usize>, b: Seq<usize>)
    requires maps_into(f, k), remap_row(f, a, b),
    ensures row_cut(a, b, k),
{
    assert forall|y: int| 0 <= y < a.len() implies #[trigger] b[y] < k.len() && k[b[y] as int] == a[y] by { assert(remap1(f, a[y], b[y])); }
}
pub proof fn lemma_cut_state<F: Fn(usize) -> Option<usize>>(f: F, k: Seq<usize>, a: NfaState, b: NfaState)
    requires maps_into(f, k), remap_nstate(f, a, b),
    ensures nstate_cut(a, b, k),
{
    assert forall|x: int| 0 <= x < a.transitions@.len() implies row_cut(a.transitions@[x]@, (#[trigger] b.transitions@[x])@, k) by { lemma_cut_row(f, k, a.transitions@[x]@, b.transitions@[x]@); }
    lemma_cut_row(f, k, a.epsilon_transitions@, b.epsilon_transitions@);
}

@fn dandy/src/nfa/mod.rs Nfa::remove_states
@attr #[verifier::rlimit(60)]
@hide remap_nstate callable_n nstate_cut nkept nstates_ok ncut_off nnames_distinct
@closure 1 idx: usize| -> (m: Option<usize>)
    requires increasing(old_state_idx@), old_state_idx@.contains(idx)
    ensures match m { Some(x) => x < old_state_idx@.len() && old_state_idx@[x as int] == idx, None => false }
@sig
    requires old(self).core(), to_remove@.no_duplicates(), !to_remove@.contains(old(self).initial_state), all_lt(to_remove@, old(self).states@.len()), ncut_off(old(self).states@, to_remove@),
    ensures exists|k: Seq<usize>| keeps(old(self).states@.len(), to_remove@, k) && #[trigger] ncut(old(self), final(self), k),
@start
    let ghost gone0 = to_remove@;
    let ghost ini = self.initial_state;
    let ghost s0 = self.states@;
    let ghost mut lt: int = 0;
    let ghost mut gone: Seq<usize> = seq![];
    let ghost mut k: Seq<usize> = seq![];
    let ghost mut s1: Seq<NfaState> = seq![];
@loop 1 inv
    acc1@ == ids(it1.pos() as nat), it1_seq.len() == self.states@.len(),
@loop 1 end
    proof { assert(acc1@ =~= ids(it1.pos() as nat)); }
@call sort
    proof {
        gone = to_remove@;
        lemma_sorted_same(gone0, gone);
        assert forall|i: int| 0 <= i < gone.len() implies #[trigger] gone[i] >= i by { lemma_increasing_ge(gone, i); }
        assert forall|i: int| 0 <= i < gone.len() implies gone0.contains(#[trigger] gone[i]) by { assert(gone.contains(gone[i])); }
        assert(all_lt(gone, s0.len()));
    }
@loop 2 pre
    proof {
        lt = ini - self.initial_state;
        assert forall|q: usize| #[trigger] old_state_idx@.contains(q) <==> q < s0.len() && !gone.subrange(gone.len() as int, gone.len() as int).contains(q) by {
            if q < s0.len() { assert(old_state_idx@[q as int] == q); }
        }
        assert(removing(s0, gone, ini, lt, gone.len() as int, self.states@, old_state_idx@));
    }
@loop 2 inv
    it2_seq == gone.reverse(), increasing(gone), all_lt(gone, s0.len()), 0 <= lt <= gone.len(), ini < s0.len(), self.alphabet == old(self).alphabet, self.initial_state == ini - lt,
    forall|i: int| 0 <= i < lt ==> gone[i] < ini, forall|i: int| lt <= i < gone.len() ==> gone[i] > ini,
    removing(s0, gone, ini, lt, gone.len() - it2.pos(), self.states@, old_state_idx@),
@loop 2 beg
    proof { lemma_removing(s0, gone, ini, lt, gone.len() - it2.pos() + 1, self.states@, old_state_idx@); }
@loop 2 post
    proof {
        k = old_state_idx@;
        s1 = self.states@;
        assert(gone.subrange(0, gone.len() as int) =~= gone);
        assert(keeps(s0.len(), gone0, k));
        assert(k[self.initial_state as int] == ini);
        assert forall|q: int| 0 <= q < s1.len() implies nkept(#[trigger] s1[q], k) by {
            assert(k[q] < s0.len());
            assert(k.contains(k[q]));
            lemma_nkept(s0, old(self).alphabet@.len(), gone0, k, k[q]);
        }
    }
@let map
    assert(maps_into(map, k));
    assert forall|q: int| 0 <= q < s1.len() implies callable_n(map, #[trigger] s1[q]) by { lemma_nkept_callable(map, k, s1[q]); }
@end
    proof {
        assert forall|i: int| 0 <= i < k.len() implies k[i] < s0.len() && nstate_cut(s0[k[i] as int], #[trigger] self.states@[i], k) by {
            assert(k[i] < s0.len());
            lemma_cut_state(map, k, s1[i], self.states@[i]);
        }
        assert(ncut(old(self), self, k));
    }
@raw
pub open spec fn all_in_seq(s: Seq<usize>, k: Seq<usize>) -> bool { forall|i: int| 0 <= i < s.len() ==> k.contains(#[trigger] s[i]) }
pub open spec fn nkept(s: NfaState, k: Seq<usize>) -> bool {
    all_in_seq(s.epsilon_transitions@, k) && forall|i: int| 0 <= i < s.transitions@.len() ==> all_in_seq((#[trigger] s.transitions@[i])@, k)
}
pub proof fn lemma_nkept(s: Seq<NfaState>, m: nat, gone: Seq<usize>, k: Seq<usize>, q: usize)
    requires nstates_ok(s, m, s.len()), keeps(s.len(), gone, k), ncut_off(s, gone), k.contains(q),
    ensures nkept(s[q as int], k),
{
    assert(nstate_ok(s[q as int], m, s.len()));
    let e = s[q as int].epsilon_transitions@;
    assert forall|i: int| 0 <= i < e.len() implies k.contains(#[trigger] e[i]) by { assert(e[i] < s.len()); assert(avoids(e, gone)); }
    assert forall|i: int| 0 <= i < s[q as int].transitions@.len() implies all_in_seq((#[trigger] s[q as int].transitions@[i])@, k) by {
        let t = s[q as int].transitions@[i]@;
        assert(all_lt(t, s.len())); assert(avoids(t, gone));
    }
}
// cutting down to a closed set of states keeps the paths
pub proof fn lemma_row_cut(a: Seq<usize>, b: Seq<usize>, k: Seq<usize>)
    requires row_cut(a, b, k), increasing(k),
    ensures all_lt(b, k.len()), forall|q: usize| #[trigger] b.contains(q) ==> q < k.len() && a.contains(k[q as int]),
        forall|x: usize| #[trigger] a.contains(x) ==> k.contains(x),
        forall|q: usize| q < k.len() && a.contains(k[q as int]) ==> #[trigger] b.contains(q),
{
    assert forall|q: usize| #[trigger] b.contains(q) implies q < k.len() && a.contains(k[q as int]) by { let i = choose|i: int| 0 <= i < b.len() && b[i] == q; assert(b[i] < k.len()); assert(a[i] == k[q as int]); }
    assert forall|x: usize| #[trigger] a.contains(x) implies k.contains(x) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] < k.len()); assert(k[b[i] as int] == x); }
    assert forall|q: usize| q < k.len() && a.contains(k[q as int]) implies #[trigger] b.contains(q) by {
        let i = choose|i: int| 0 <= i < a.len() && a[i] == k[q as int];
        assert(b[i] < k.len());
        if b[i] < q { assert(k[b[i] as int] < k[q as int]); }
        if b[i] > q { assert(k[q as int] < k[b[i] as int]); }
        assert(b[i] == q);
    }
}
pub proof fn lemma_ncut_core(a: &Nfa, b: &Nfa, k: Seq<usize>)
    requires a.core(), ncut(a, b, k),
    ensures b.core(), a.wf() ==> b.wf(),
{
    assert forall|q: int| 0 <= q < b.states@.len() implies nstate_ok(#[trigger] b.states@[q], b.alphabet@.len(), b.n()) by {
        assert(nstate_cut(a.states@[k[q] as int], b.states@[q], k));
        assert(nstate_ok(a.states@[k[q] as int], a.alphabet@.len(), a.n()));
        assert forall|i: int| 0 <= i < b.alphabet@.len() implies all_lt((#[trigger] b.states@[q].transitions@[i])@, b.n()) by { lemma_row_cut(a.states@[k[q] as int].transitions@[i]@, b.states@[q].transitions@[i]@, k); }
        lemma_row_cut(a.states@[k[q] as int].epsilon_transitions@, b.states@[q].epsilon_transitions@, k);
    }
    if a.wf() {
        assert forall|q: int| 0 <= q < b.states@.len() implies (#[trigger] b.states@[q]).initial == (q == b.initial_state) by {
            assert(nstate_cut(a.states@[k[q] as int], b.states@[q], k));
            assert(a.states@[k[q] as int].initial == (k[q] == a.initial_state));
            if q < b.initial_state { assert(k[q] < k[b.initial_state as int]); }
            if q > b.initial_state { assert(k[b.initial_state as int] < k[q]); }
        }
        assert forall|p: int, q: int| 0 <= p < b.states@.len() && 0 <= q < b.states@.len() && p != q implies (#[trigger] b.states@[p]).name@ != (#[trigger] b.states@[q]).name@ by {
            assert(nstate_cut(a.states@[k[p] as int], b.states@[p], k));
            assert(nstate_cut(a.states@[k[q] as int], b.states@[q], k));
            if p < q { assert(k[p] < k[q]); } else { assert(k[q] < k[p]); }
            assert(a.states@[k[p] as int].name@ != a.states@[k[q] as int].name@);
        }
    }
}
pub proof fn lemma_ncut_edge(a: &Nfa, b: &Nfa, k: Seq<usize>, p: usize)
    requires a.core(), ncut(a, b, k), p < k.len(),
    ensures forall|q: usize| #[trigger] eedge(b, p, q) ==> q < k.len() && eedge(a, k[p as int], k[q as int]),
        forall|q: usize| q < k.len() && eedge(a, k[p as int], k[q as int]) ==> #[trigger] eedge(b, p, q),
        forall|x: usize| #[trigger] eedge(a, k[p as int], x) ==> k.contains(x),
        forall|c: Seq<char>, q: usize| #[trigger] sedge(b, p, c, q) ==> q < k.len() && sedge(a, k[p as int], c, k[q as int]),
        forall|c: Seq<char>, q: usize| q < k.len() && sedge(a, k[p as int], c, k[q as int]) ==> #[trigger] sedge(b, p, c, q),
        forall|c: Seq<char>, x: usize| #[trigger] sedge(a, k[p as int], c, x) ==> k.contains(x),
{
    let s = a.states@[k[p as int] as int]; let t = b.states@[p as int];
    assert(nstate_cut(s, t, k));
    assert(nstate_ok(s, a.alphabet@.len(), a.n()));
    lemma_row_cut(s.epsilon_transitions@, t.epsilon_transitions@, k);
    assert forall|i: int| 0 <= i < a.alphabet@.len() implies row_cut(#[trigger] a.tr(k[p as int], i), b.tr(p, i), k) by { assert(row_cut(s.transitions@[i]@, t.transitions@[i]@, k)); }
    assert forall|c: Seq<char>, q: usize| #[trigger] sedge(b, p, c, q) implies q < k.len() && sedge(a, k[p as int], c, k[q as int]) by {
        let i = sym_idx(a.alphabet@, c); assert(0 <= i < a.alphabet@.len()); assert(row_cut(a.tr(k[p as int], i), b.tr(p, i), k));
        lemma_row_cut(a.tr(k[p as int], i), b.tr(p, i), k);
    }
    assert forall|c: Seq<char>, q: usize| q < k.len() && sedge(a, k[p as int], c, k[q as int]) implies #[trigger] sedge(b, p, c, q) by {
        let i = sym_idx(a.alphabet@, c); assert(0 <= i < a.alphabet@.len()); assert(row_cut(a.tr(k[p as int], i), b.tr(p, i), k));
        lemma_row_cut(a.tr(k[p as int], i), b.tr(p, i), k);
    }
    assert forall|c: Seq<char>, x: usize| #[trigger] sedge(a, k[p as int], c, x) implies k.contains(x) by {
        let i = sym_idx(a.alphabet@, c); assert(0 <= i < a.alphabet@.len()); assert(row_cut(a.tr(k[p as int], i), b.tr(p, i), k));
        lemma_row_cut(a.tr(k[p as int], i), b.tr(p, i), k);
    }
}
pub proof fn lemma_ncut_path1(a: &Nfa, b: &Nfa, k: Seq<usize>, p: usize, w: Word, q: usize, m: nat)
    requires a.core(), ncut(a, b, k), p < k.len(), npath(b, p, w, q, m),
    ensures q < k.len(), npath(a, k[p as int], w, k[q as int], m),
    decreases m,
{
    reveal_with_fuel(npath, 2);
    if m > 0 {
        if exists|r: usize| npath(b, p, w, r, (m - 1) as nat) && #[trigger] eedge(b, r, q) {
            let r = choose|r: usize| npath(b, p, w, r, (m - 1) as nat) && #[trigger] eedge(b, r, q);
            lemma_ncut_path1(a, b, k, p, w, r, (m - 1) as nat);
            lemma_ncut_edge(a, b, k, r);
            assert(npath(a, k[p as int], w, k[r as int], (m - 1) as nat) && eedge(a, k[r as int], k[q as int]));
        } else {
            let r = choose|r: usize| npath(b, p, w.drop_last(), r, (m - 1) as nat) && #[trigger] sedge(b, r, w.last(), q);
            lemma_ncut_path1(a, b, k, p, w.drop_last(), r, (m - 1) as nat);
            lemma_ncut_edge(a, b, k, r);
            assert(npath(a, k[p as int], w.drop_last(), k[r as int], (m - 1) as nat) && sedge(a, k[r as int], w.last(), k[q as int]));
        }
    }
}
pub proof fn lemma_ncut_path2(a: &Nfa, b: &Nfa, k: Seq<usize>, p: usize, w: Word, x: usize, m: nat) -> (q: usize)
    requires a.core(), ncut(a, b, k), p < k.len(), npath(a, k[p as int], w, x, m),
    ensures q < k.len(), k[q as int] == x, npath(b, p, w, q, m),
    decreases m,
{
    reveal_with_fuel(npath, 2);
    if m > 0 {
        if exists|r: usize| npath(a, k[p as int], w, r, (m - 1) as nat) && #[trigger] eedge(a, r, x) {
            let r = choose|r: usize| npath(a, k[p as int], w, r, (m - 1) as nat) && #[trigger] eedge(a, r, x);
            let y = lemma_ncut_path2(a, b, k, p, w, r, (m - 1) as nat);
            lemma_ncut_edge(a, b, k, y);
            assert(k.contains(x));
            let q = choose|q: int| 0 <= q < k.len() && k[q] == x;
            assert(q < b.states.len());
            let q = q as usize;
            assert(eedge(b, y, q));
            q
        } else {
            let r = choose|r: usize| npath(a, k[p as int], w.drop_last(), r, (m - 1) as nat) && #[trigger] sedge(a, r, w.last(), x);
            let y = lemma_ncut_path2(a, b, k, p, w.drop_last(), r, (m - 1) as nat);
            lemma_ncut_edge(a, b, k, y);
            assert(k.contains(x));
            let q = choose|q: int| 0 <= q < k.len() && k[q] == x;
            assert(q < b.states.len());
            let q = q as usize;
            assert(sedge(b, y, w.last(), q));
            q
        }
    } else { p }
}
pub proof fn lemma_ncut_reach(a: &Nfa, b: &Nfa, k: Seq<usize>, w: Word)
    requires a.core(), ncut(a, b, k),
    ensures forall|q: usize| #[trigger] nreach(b, b.initial_state, w, q) ==> q < k.len() && nreach(a, a.initial_state, w, k[q as int]),
        forall|x: usize| #[trigger] nreach(a, a.initial_state, w, x) ==> exists|q: usize| q < k.len() && k[q as int] == x && #[trigger] nreach(b, b.initial_state, w, q),
{
    reveal(nreach);
    assert forall|q: usize| #[trigger] nreach(b, b.initial_state, w, q) implies q < k.len() && nreach(a, a.initial_state, w, k[q as int]) by {
        let m = choose|m: nat| npath(b, b.initial_state, w, q, m);
        lemma_ncut_path1(a, b, k, b.initial_state, w, q, m);
    }
    assert forall|x: usize| #[trigger] nreach(a, a.initial_state, w, x) implies exists|q: usize| q < k.len() && k[q as int] == x && #[trigger] nreach(b, b.initial_state, w, q) by {
        let m = choose|m: nat| npath(a, a.initial_state, w, x, m);
        let q = lemma_ncut_path2(a, b, k, b.initial_state, w, x, m);
        assert(nreach(b, b.initial_state, w, q));
    }
}
pub proof fn lemma_ncut_accepts(a: &Nfa, b: &Nfa, k: Seq<usize>, w: Word)
    requires a.core(), ncut(a, b, k),
    ensures naccepts(b, w) == naccepts(a, w),
{
    lemma_ncut_reach(a, b, k, w);
    assert forall|q: usize| q < k.len() implies #[trigger] b.acc(q) == a.acc(k[q as int]) by { assert(nstate_cut(a.states@[k[q as int] as int], b.states@[q as int], k)); }
    if naccepts(b, w) { let q = choose|q: usize| #[trigger] nreach(b, b.initial_state, w, q) && b.acc(q); assert(nreach(a, a.initial_state, w, k[q as int]) && a.acc(k[q as int])); }
    if naccepts(a, w) {
        let x = choose|x: usize| #[trigger] nreach(a, a.initial_state, w, x) && a.acc(x);
        let q = choose|q: usize| q < k.len() && k[q as int] == x && #[trigger] nreach(b, b.initial_state, w, q);
        assert(b.acc(q));
    }
}
