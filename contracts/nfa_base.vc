@type dandy/src/nfa/mod.rs NfaState
@type dandy/src/nfa/mod.rs Nfa
@raw
// ------------------------------------------------------------------ what an NFA means
impl Nfa {
    pub open spec fn tr(&self, q: usize, i: int) -> Seq<usize> { self.states@[q as int].transitions@[i]@ }
    pub open spec fn eps(&self, q: usize) -> Seq<usize> { self.states@[q as int].epsilon_transitions@ }
    pub open spec fn acc(&self, q: usize) -> bool { self.states@[q as int].accepting }
    pub open spec fn n(&self) -> nat { self.states@.len() }
    pub open spec fn core(&self) -> bool {
        &&& alpha_distinct(self.alphabet@)
        &&& self.initial_state < self.states@.len()
        &&& nstates_ok(self.states@, self.alphabet@.len(), self.states@.len())
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.core()
        &&& forall|q: int| 0 <= q < self.states@.len() ==> (#[trigger] self.states@[q]).initial == (q == self.initial_state)
        &&& nnames_distinct(self.states@)
    }
}
pub open spec fn nstate_ok(s: NfaState, k: nat, n: nat) -> bool {
    &&& s.transitions@.len() == k
    &&& forall|i: int| 0 <= i < k ==> all_lt((#[trigger] s.transitions@[i])@, n)
    &&& all_lt(s.epsilon_transitions@, n)
}
pub open spec fn nstates_ok(s: Seq<NfaState>, k: nat, n: nat) -> bool { forall|q: int| 0 <= q < s.len() ==> nstate_ok(#[trigger] s[q], k, n) }
pub open spec fn nnames_distinct(s: Seq<NfaState>) -> bool { forall|p: int, q: int| 0 <= p < s.len() && 0 <= q < s.len() && p != q ==> (#[trigger] s[p]).name@ != (#[trigger] s[q]).name@ }

// one move
pub open spec fn eedge(n: &Nfa, p: usize, q: usize) -> bool { n.eps(p).contains(q) }
pub open spec fn sedge(n: &Nfa, p: usize, c: Seq<char>, q: usize) -> bool { has_sym(n.alphabet@, c) && n.tr(p, sym_idx(n.alphabet@, c)).contains(q) }
// a path of k moves from p to q that reads w
#[verifier::opaque]
pub open spec fn npath(n: &Nfa, p: usize, w: Word, q: usize, k: nat) -> bool decreases k {
    if k == 0 { p == q && w.len() == 0 } else {
        ||| exists|r: usize| npath(n, p, w, r, (k - 1) as nat) && #[trigger] eedge(n, r, q)
        ||| w.len() > 0 && exists|r: usize| npath(n, p, w.drop_last(), r, (k - 1) as nat) && #[trigger] sedge(n, r, w.last(), q)
    }
}
#[verifier::opaque]
pub open spec fn nreach(n: &Nfa, p: usize, w: Word, q: usize) -> bool { exists|k: nat| npath(n, p, w, q, k) }
pub open spec fn nacc_from(n: &Nfa, p: usize, w: Word) -> bool { exists|q: usize| #[trigger] nreach(n, p, w, q) && n.acc(q) }
pub open spec fn naccepts(n: &Nfa, w: Word) -> bool { nacc_from(n, n.initial_state, w) }
pub open spec fn eword() -> Word { Seq::<Seq<char>>::empty() }
// q is in the epsilon closure of p
pub open spec fn ereach(n: &Nfa, p: usize, q: usize) -> bool { nreach(n, p, eword(), q) }

pub proof fn lemma_edge_in(n: &Nfa, p: usize, q: usize)
    requires n.core(), p < n.n(),
    ensures eedge(n, p, q) ==> q < n.n(), forall|c: Seq<char>| #[trigger] sedge(n, p, c, q) ==> q < n.n(),
{
    assert(nstate_ok(n.states@[p as int], n.alphabet@.len(), n.n()));
    assert forall|c: Seq<char>| #[trigger] sedge(n, p, c, q) implies q < n.n() by {
        let i = sym_idx(n.alphabet@, c);
        assert(0 <= i < n.alphabet@.len());
        assert(all_lt(n.states@[p as int].transitions@[i]@, n.n()));
    }
}
pub proof fn lemma_npath_in(n: &Nfa, p: usize, w: Word, q: usize, k: nat)
    requires n.core(), p < n.n(), npath(n, p, w, q, k),
    ensures q < n.n(), over(n.alphabet@, w),
    decreases k,
{
    reveal_with_fuel(npath, 2);
    if k > 0 {
        if exists|r: usize| npath(n, p, w, r, (k - 1) as nat) && #[trigger] eedge(n, r, q) {
            let r = choose|r: usize| npath(n, p, w, r, (k - 1) as nat) && #[trigger] eedge(n, r, q);
            lemma_npath_in(n, p, w, r, (k - 1) as nat);
            lemma_edge_in(n, r, q);
        } else {
            let r = choose|r: usize| npath(n, p, w.drop_last(), r, (k - 1) as nat) && #[trigger] sedge(n, r, w.last(), q);
            lemma_npath_in(n, p, w.drop_last(), r, (k - 1) as nat);
            lemma_edge_in(n, r, q);
            assert forall|i: int| 0 <= i < w.len() implies has_sym(n.alphabet@, #[trigger] w[i]) by { if i < w.len() - 1 { assert(w.drop_last()[i] == w[i]); } }
        }
    }
}
pub proof fn lemma_nreach_in(n: &Nfa, p: usize, w: Word, q: usize)
    requires n.core(), p < n.n(), nreach(n, p, w, q),
    ensures q < n.n(), over(n.alphabet@, w),
{
    reveal(nreach);
    let k = choose|k: nat| npath(n, p, w, q, k);
    lemma_npath_in(n, p, w, q, k);
}
pub proof fn lemma_npath_concat(n: &Nfa, p: usize, u: Word, r: usize, j: nat, v: Word, q: usize, k: nat)
    requires npath(n, p, u, r, j), npath(n, r, v, q, k),
    ensures npath(n, p, u + v, q, j + k),
    decreases k,
{
    reveal_with_fuel(npath, 2);
    if k == 0 {
        assert(u + v =~= u);
    } else {
        if exists|s: usize| npath(n, r, v, s, (k - 1) as nat) && #[trigger] eedge(n, s, q) {
            let s = choose|s: usize| npath(n, r, v, s, (k - 1) as nat) && #[trigger] eedge(n, s, q);
            lemma_npath_concat(n, p, u, r, j, v, s, (k - 1) as nat);
            assert(npath(n, p, u + v, s, (j + k - 1) as nat) && eedge(n, s, q));
        } else {
            let s = choose|s: usize| npath(n, r, v.drop_last(), s, (k - 1) as nat) && #[trigger] sedge(n, s, v.last(), q);
            lemma_npath_concat(n, p, u, r, j, v.drop_last(), s, (k - 1) as nat);
            assert((u + v).drop_last() =~= u + v.drop_last());
            assert(npath(n, p, (u + v).drop_last(), s, (j + k - 1) as nat) && sedge(n, s, (u + v).last(), q));
        }
    }
}
pub proof fn lemma_nreach_concat(n: &Nfa, p: usize, u: Word, r: usize, v: Word, q: usize)
    requires nreach(n, p, u, r), nreach(n, r, v, q),
    ensures nreach(n, p, u + v, q),
{
    reveal(nreach);
    let j = choose|j: nat| npath(n, p, u, r, j);
    let k = choose|k: nat| npath(n, r, v, q, k);
    lemma_npath_concat(n, p, u, r, j, v, q, k);
}
pub proof fn lemma_nreach_refl(n: &Nfa, p: usize)
    ensures ereach(n, p, p),
{
    reveal_with_fuel(npath, 2);
    reveal(nreach);
    assert(npath(n, p, eword(), p, 0));
}
pub proof fn lemma_nreach_eedge(n: &Nfa, p: usize, w: Word, r: usize, q: usize)
    requires nreach(n, p, w, r), eedge(n, r, q),
    ensures nreach(n, p, w, q),
{
    reveal_with_fuel(npath, 2);
    reveal(nreach);
    let k = choose|k: nat| npath(n, p, w, r, k);
    assert(npath(n, p, w, q, k + 1)) by { assert(npath(n, p, w, r, (k + 1 - 1) as nat) && eedge(n, r, q)); }
}
pub proof fn lemma_nreach_sedge(n: &Nfa, p: usize, w: Word, r: usize, c: Seq<char>, q: usize)
    requires nreach(n, p, w, r), sedge(n, r, c, q),
    ensures nreach(n, p, w.push(c), q),
{
    reveal_with_fuel(npath, 2);
    reveal(nreach);
    let k = choose|k: nat| npath(n, p, w, r, k);
    let v = w.push(c);
    assert(v.drop_last() =~= w);
    assert(npath(n, p, v, q, k + 1)) by { assert(npath(n, p, v.drop_last(), r, (k + 1 - 1) as nat) && sedge(n, r, v.last(), q)); }
}
pub proof fn lemma_nreach_ereach(n: &Nfa, p: usize, w: Word, r: usize, q: usize)
    requires nreach(n, p, w, r), ereach(n, r, q),
    ensures nreach(n, p, w, q),
{
    lemma_nreach_concat(n, p, w, r, eword(), q);
    assert(w + eword() =~= w);
}
// the last symbol of a non-empty word is read by some move, followed by epsilon moves
pub open spec fn last_move(n: &Nfa, p: usize, w: Word, r: usize, s: usize, q: usize) -> bool {
    nreach(n, p, w.drop_last(), r) && sedge(n, r, w.last(), s) && ereach(n, s, q)
}
pub proof fn lemma_npath_last(n: &Nfa, p: usize, w: Word, q: usize, k: nat) -> (rs: (usize, usize))
    requires npath(n, p, w, q, k), w.len() > 0,
    ensures last_move(n, p, w, rs.0, rs.1, q),
    decreases k,
{
    reveal_with_fuel(npath, 2);
    reveal(nreach);
    if exists|r: usize| npath(n, p, w, r, (k - 1) as nat) && #[trigger] eedge(n, r, q) {
        let r = choose|r: usize| npath(n, p, w, r, (k - 1) as nat) && #[trigger] eedge(n, r, q);
        let rs = lemma_npath_last(n, p, w, r, (k - 1) as nat);
        lemma_nreach_eedge(n, rs.1, eword(), r, q);
        rs
    } else {
        let r = choose|r: usize| npath(n, p, w.drop_last(), r, (k - 1) as nat) && #[trigger] sedge(n, r, w.last(), q);
        lemma_nreach_refl(n, q);
        (r, q)
    }
}
pub proof fn lemma_nreach_last(n: &Nfa, p: usize, w: Word, q: usize) -> (rs: (usize, usize))
    requires nreach(n, p, w, q), w.len() > 0,
    ensures last_move(n, p, w, rs.0, rs.1, q),
{
    reveal(nreach);
    let k = choose|k: nat| npath(n, p, w, q, k);
    lemma_npath_last(n, p, w, q, k)
}
// sets closed under epsilon moves
pub open spec fn eclosed(n: &Nfa, s: Set<usize>) -> bool { forall|p: usize, q: usize| s.contains(p) && #[trigger] eedge(n, p, q) ==> s.contains(q) }
pub open spec fn set_in(n: &Nfa, s: Set<usize>) -> bool { forall|q: usize| #[trigger] s.contains(q) ==> q < n.n() }
pub proof fn lemma_eclosed_path(n: &Nfa, s: Set<usize>, p: usize, q: usize, k: nat)
    requires eclosed(n, s), s.contains(p), npath(n, p, eword(), q, k),
    ensures s.contains(q),
    decreases k,
{
    reveal_with_fuel(npath, 2);
    if k > 0 {
        let r = choose|r: usize| npath(n, p, eword(), r, (k - 1) as nat) && #[trigger] eedge(n, r, q);
        lemma_eclosed_path(n, s, p, r, (k - 1) as nat);
    }
}
pub proof fn lemma_eclosed(n: &Nfa, s: Set<usize>, p: usize, q: usize)
    requires eclosed(n, s), s.contains(p), ereach(n, p, q),
    ensures s.contains(q),
{
    reveal(nreach);
    let k = choose|k: nat| npath(n, p, eword(), q, k);
    lemma_eclosed_path(n, s, p, q, k);
}
// a bounded set of indices is no larger than the bound
pub proof fn lemma_idx_bound(s: Set<usize>, n: nat)
    requires forall|q: usize| #[trigger] s.contains(q) ==> q < n,
    ensures s.len() <= n,
{
    let t = s.map(|q: usize| q as int);
    vstd::set_lib::lemma_int_range(0, n as int);
    assert(t.subset_of(vstd::set_lib::set_int_range(0, n as int)));
    vstd::set_lib::lemma_len_subset(t, vstd::set_lib::set_int_range(0, n as int));
    vstd::set_lib::lemma_map_size(s, t, |q: usize| q as int);
}
