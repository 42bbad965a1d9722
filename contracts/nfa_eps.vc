@raw
// ------------------------------------------------------------------ removing epsilon moves
// set is the epsilon closure of q
pub open spec fn clos(a: &Nfa, q: usize, s: Set<usize>) -> bool { forall|x: usize| #[trigger] s.contains(x) <==> ereach(a, q, x) }
pub open spec fn closures_of(a: &Nfa, cl: Seq<HSet<usize>>) -> bool { cl.len() == a.n() && forall|q: usize| q < a.n() ==> clos(a, q, (#[trigger] cl[q as int])@) }
// x is in the epsilon closure of an element of t
pub open spec fn ecover(a: &Nfa, t: Seq<usize>, x: usize) -> bool { exists|p: usize| t.contains(p) && #[trigger] ereach(a, p, x) }
pub open spec fn inl_row(a: &Nfa, t: Seq<usize>, u: Seq<usize>) -> bool { forall|x: usize| #[trigger] u.contains(x) <==> ecover(a, t, x) }
pub open spec fn inl_state(a: &Nfa, s: NfaState, t: NfaState) -> bool {
    &&& t.name == s.name && t.initial == s.initial && t.accepting == s.accepting && t.epsilon_transitions@.len() == 0
    &&& t.transitions@.len() == s.transitions@.len() && forall|i: int| 0 <= i < s.transitions@.len() ==> inl_row(a, s.transitions@[i]@, (#[trigger] t.transitions@[i])@)
}
pub open spec fn inlined(a: &Nfa, b: &Nfa) -> bool {
    &&& b.alphabet == a.alphabet && b.initial_state == a.initial_state && b.n() == a.n()
    &&& forall|q: int| 0 <= q < a.n() ==> inl_state(a, a.states@[q], #[trigger] b.states@[q])
}
pub proof fn lemma_ecover_push(a: &Nfa, t: Seq<usize>, p: usize)
    ensures forall|x: usize| #[trigger] ecover(a, t.push(p), x) <==> ecover(a, t, x) || ereach(a, p, x), forall|x: usize| !ecover(a, Seq::<usize>::empty(), x),
{
    let u = t.push(p);
    assert forall|x: usize| #[trigger] ecover(a, u, x) <==> ecover(a, t, x) || ereach(a, p, x) by {
        if ecover(a, u, x) {
            let y = choose|y: usize| u.contains(y) && #[trigger] ereach(a, y, x);
            let i = choose|i: int| 0 <= i < u.len() && u[i] == y;
            if i < t.len() { assert(t[i] == y); assert(t.contains(y)); }
        }
        if ecover(a, t, x) {
            let y = choose|y: usize| t.contains(y) && #[trigger] ereach(a, y, x);
            let i = choose|i: int| 0 <= i < t.len() && t[i] == y;
            assert(u[i] == y); assert(u.contains(y));
        }
        if ereach(a, p, x) { assert(u[t.len() as int] == p); assert(u.contains(p)); }
    }
}
pub proof fn lemma_eps_free(n: &Nfa, p: usize, q: usize)
    requires n.core(), no_eps(n), p < n.n(),
    ensures !eedge(n, p, q),
{
    assert(n.states@[p as int].epsilon_transitions@.len() == 0);
}
pub proof fn lemma_eps_free_path(n: &Nfa, p: usize, w: Word, q: usize, k: nat)
    requires n.core(), no_eps(n), p < n.n(), npath(n, p, w, q, k),
    ensures w.len() == 0 ==> q == p, k == w.len(),
    decreases k,
{
    reveal_with_fuel(npath, 2);
    if k > 0 {
        if exists|r: usize| npath(n, p, w, r, (k - 1) as nat) && #[trigger] eedge(n, r, q) {
            let r = choose|r: usize| npath(n, p, w, r, (k - 1) as nat) && #[trigger] eedge(n, r, q);
            lemma_npath_in(n, p, w, r, (k - 1) as nat);
            lemma_eps_free(n, r, q);
        } else {
            let r = choose|r: usize| npath(n, p, w.drop_last(), r, (k - 1) as nat) && #[trigger] sedge(n, r, w.last(), q);
            lemma_eps_free_path(n, p, w.drop_last(), r, (k - 1) as nat);
        }
    }
}
// the last move of a word without epsilon moves
pub open spec fn step_last(n: &Nfa, p: usize, w: Word, r: usize, q: usize) -> bool { nreach(n, p, w.drop_last(), r) && sedge(n, r, w.last(), q) }
pub proof fn lemma_step_last(n: &Nfa, p: usize, w: Word, q: usize) -> (r: usize)
    requires n.core(), no_eps(n), p < n.n(), nreach(n, p, w, q), w.len() > 0,
    ensures r < n.n(), q < n.n(), step_last(n, p, w, r, q),
{
    let rs = lemma_nreach_last(n, p, w, q);
    lemma_nreach_in(n, p, w, q);
    lemma_nreach_in(n, p, w.drop_last(), rs.0);
    lemma_edge_in(n, rs.0, rs.1);
    reveal(nreach);
    let k = choose|k: nat| npath(n, rs.1, eword(), q, k);
    lemma_eps_free_path(n, rs.1, eword(), q, k);
    rs.0
}
pub proof fn lemma_empty_word(n: &Nfa, p: usize, w: Word, q: usize)
    requires n.core(), no_eps(n), p < n.n(), w.len() == 0, nreach(n, p, w, q),
    ensures q == p,
{
    reveal(nreach);
    let k = choose|k: nat| npath(n, p, w, q, k);
    lemma_eps_free_path(n, p, w, q, k);
}
pub proof fn lemma_inlined_core(a: &Nfa, b: &Nfa)
    requires a.core(), inlined(a, b),
    ensures b.core(), no_eps(b),
{
    assert forall|q: int| 0 <= q < b.states@.len() implies nstate_ok(#[trigger] b.states@[q], b.alphabet@.len(), b.n()) by {
        let s = a.states@[q]; let t = b.states@[q];
        assert(inl_state(a, s, t));
        assert(nstate_ok(s, a.alphabet@.len(), a.n()));
        assert forall|i: int| 0 <= i < b.alphabet@.len() implies all_lt((#[trigger] t.transitions@[i])@, b.n()) by {
            let u = t.transitions@[i]@;
            assert(inl_row(a, s.transitions@[i]@, u));
            assert forall|j: int| 0 <= j < u.len() implies #[trigger] u[j] < b.n() by {
                assert(u.contains(u[j]));
                let p = choose|p: usize| s.transitions@[i]@.contains(p) && #[trigger] ereach(a, p, u[j]);
                assert(all_lt(s.transitions@[i]@, a.n()));
                lemma_nreach_in(a, p, eword(), u[j]);
            }
        }
    }
    assert forall|q: int| 0 <= q < b.n() implies (#[trigger] b.states@[q]).epsilon_transitions@.len() == 0 by { assert(inl_state(a, a.states@[q], b.states@[q])); }
}
pub proof fn lemma_inlined_wf(a: &Nfa, b: &Nfa)
    requires a.wf(), inlined(a, b),
    ensures b.wf(), no_eps(b),
{
    lemma_inlined_core(a, b);
    assert forall|q: int| 0 <= q < b.n() implies (#[trigger] b.states@[q]).initial == (q == b.initial_state) by { assert(inl_state(a, a.states@[q], b.states@[q])); }
    assert forall|p: int, q: int| 0 <= p < b.n() && 0 <= q < b.n() && p != q implies (#[trigger] b.states@[p]).name@ != (#[trigger] b.states@[q]).name@ by {
        assert(inl_state(a, a.states@[p], b.states@[p])); assert(inl_state(a, a.states@[q], b.states@[q]));
        assert(a.states@[p].name@ != a.states@[q].name@);
    }
}
pub proof fn lemma_inlined_edge(a: &Nfa, b: &Nfa, p: usize, c: Seq<char>, q: usize)
    requires a.core(), inlined(a, b), p < a.n(),
    ensures sedge(b, p, c, q) <==> exists|s: usize| #[trigger] sedge(a, p, c, s) && ereach(a, s, q),
{
    if has_sym(a.alphabet@, c) {
        let i = sym_idx(a.alphabet@, c);
        assert(0 <= i < a.alphabet@.len());
        assert(inl_state(a, a.states@[p as int], b.states@[p as int]));
        assert(nstate_ok(a.states@[p as int], a.alphabet@.len(), a.n()));
        assert(inl_row(a, a.tr(p, i), b.tr(p, i)));
        if sedge(b, p, c, q) {
            assert(ecover(a, a.tr(p, i), q));
            let s = choose|s: usize| a.tr(p, i).contains(s) && #[trigger] ereach(a, s, q);
            assert(sedge(a, p, c, s) && ereach(a, s, q));
        }
        if exists|s: usize| #[trigger] sedge(a, p, c, s) && ereach(a, s, q) {
            let s = choose|s: usize| #[trigger] sedge(a, p, c, s) && ereach(a, s, q);
            assert(ecover(a, a.tr(p, i), q));
        }
    }
}
pub open spec fn evia(a: &Nfa, b: &Nfa, p: usize, w: Word, q: usize, r: usize) -> bool { ereach(a, p, r) && nreach(b, r, w, q) }
pub proof fn lemma_inlined_to(a: &Nfa, b: &Nfa, p: usize, w: Word, q: usize) -> (r: usize)
    requires a.core(), inlined(a, b), p < a.n(), nreach(a, p, w, q),
    ensures r < a.n(), evia(a, b, p, w, q, r),
    decreases w.len(),
{
    if w.len() == 0 {
        assert(w =~= eword());
        lemma_nreach_refl(b, q);
        lemma_nreach_in(a, p, w, q);
        q
    } else {
        let rs = lemma_nreach_last(a, p, w, q);
        let r = lemma_inlined_to(a, b, p, w.drop_last(), rs.0);
        lemma_nreach_in(a, p, w.drop_last(), rs.0);
        lemma_inlined_edge(a, b, rs.0, w.last(), q);
        lemma_nreach_sedge(b, r, w.drop_last(), rs.0, w.last(), q);
        assert(w.drop_last().push(w.last()) =~= w);
        r
    }
}
pub proof fn lemma_inlined_from(a: &Nfa, b: &Nfa, p: usize, w: Word, q: usize, r: usize)
    requires a.core(), inlined(a, b), p < a.n(), evia(a, b, p, w, q, r),
    ensures nreach(a, p, w, q),
    decreases w.len(),
{
    lemma_inlined_core(a, b);
    lemma_nreach_in(a, p, eword(), r);
    if w.len() == 0 {
        lemma_empty_word(b, r, w, q);
        assert(w =~= eword());
    } else {
        let s = lemma_step_last(b, r, w, q);
        assert(evia(a, b, p, w.drop_last(), s, r));
        lemma_inlined_from(a, b, p, w.drop_last(), s, r);
        lemma_inlined_edge(a, b, s, w.last(), q);
        let t = choose|t: usize| #[trigger] sedge(a, s, w.last(), t) && ereach(a, t, q);
        lemma_nreach_sedge(a, p, w.drop_last(), s, w.last(), t);
        assert(w.drop_last().push(w.last()) =~= w);
        lemma_nreach_ereach(a, p, w, t, q);
    }
}
// ------------------------------------------------------------------ states nothing is accepted from
pub open spec fn row_in(t: Seq<usize>, d: Set<usize>) -> bool { forall|j: int| 0 <= j < t.len() ==> d.contains(#[trigger] t[j]) }
pub open spec fn rows_in(t: Seq<Vec<usize>>, d: Set<usize>) -> bool { forall|i: int| 0 <= i < t.len() ==> row_in((#[trigger] t[i])@, d) }
pub open spec fn dead_state(s: NfaState, d: Set<usize>) -> bool { !s.accepting && rows_in(s.transitions@, d) }
pub open spec fn dead_ok(s: Seq<NfaState>, d: Set<usize>) -> bool { forall|q: usize| #[trigger] d.contains(q) ==> q < s.len() && dead_state(s[q as int], d) }
pub proof fn lemma_dead_insert(s: Seq<NfaState>, d: Set<usize>, q: usize)
    requires dead_ok(s, d), q < s.len(), dead_state(s[q as int], d),
    ensures dead_ok(s, d.insert(q)),
{
    let e = d.insert(q);
    assert forall|p: usize| #[trigger] e.contains(p) implies p < s.len() && dead_state(s[p as int], e) by {
        let t = s[p as int].transitions@;
        assert(p == q || d.contains(p));
        assert(dead_state(s[p as int], d));
        assert forall|i: int| 0 <= i < t.len() implies row_in((#[trigger] t[i])@, e) by { assert(row_in(t[i]@, d)); }
    }
}
pub proof fn lemma_dead_insert_r(s: Seq<NfaState>, d: Set<usize>, q: usize)
    requires dead_ok(s, d), q < s.len(), !s[q as int].accepting, rows_in(s[q as int].transitions@, d),
    ensures dead_ok(s, d.insert(q)),
{ lemma_dead_insert(s, d, q); }
// the initial marks are of no importance for dead states
pub open spec fn same_moves(s: Seq<NfaState>, t: Seq<NfaState>) -> bool {
    s.len() == t.len() && forall|q: int| 0 <= q < s.len() ==> (#[trigger] s[q]).transitions == t[q].transitions && s[q].accepting == t[q].accepting && s[q].name == t[q].name && s[q].epsilon_transitions == t[q].epsilon_transitions
}
pub proof fn lemma_dead_same(s: Seq<NfaState>, t: Seq<NfaState>, d: Set<usize>)
    requires same_moves(s, t), dead_ok(s, d),
    ensures dead_ok(t, d),
{
    assert forall|q: usize| #[trigger] d.contains(q) implies q < t.len() && dead_state(t[q as int], d) by { assert(dead_state(s[q as int], d)); assert(s[q as int].accepting == t[q as int].accepting); }
}
pub proof fn lemma_dead_reach(n: &Nfa, d: Set<usize>, p: usize, w: Word, q: usize)
    requires n.core(), no_eps(n), dead_ok(n.states@, d), d.contains(p), nreach(n, p, w, q),
    ensures d.contains(q), !n.acc(q),
    decreases w.len(),
{
    assert(p < n.n());
    if w.len() == 0 {
        lemma_empty_word(n, p, w, q);
    } else {
        let r = lemma_step_last(n, p, w, q);
        lemma_dead_reach(n, d, p, w.drop_last(), r);
        let i = sym_idx(n.alphabet@, w.last());
        assert(0 <= i < n.alphabet@.len());
        assert(nstate_ok(n.states@[r as int], n.alphabet@.len(), n.n()));
        assert(row_in(n.states@[r as int].transitions@[i]@, d));
    }
    assert(dead_state(n.states@[q as int], d));
}
// ------------------------------------------------------------------ cutting the moves to dead states, and the new initial state
pub open spec fn cut_row(a: Seq<usize>, b: Seq<usize>, d: Set<usize>) -> bool { forall|x: usize| #[trigger] b.contains(x) <==> a.contains(x) && !d.contains(x) }
pub open spec fn cut_state(s: NfaState, t: NfaState, d: Set<usize>) -> bool {
    &&& t.name == s.name && t.initial == s.initial && t.accepting == s.accepting && t.epsilon_transitions == s.epsilon_transitions
    &&& t.transitions@.len() == s.transitions@.len() && forall|i: int| 0 <= i < s.transitions@.len() ==> cut_row(s.transitions@[i]@, (#[trigger] t.transitions@[i])@, d)
}
pub open spec fn cut_states(s: Seq<NfaState>, t: Seq<NfaState>, d: Set<usize>) -> bool { s.len() == t.len() && forall|q: int| 0 <= q < s.len() ==> cut_state(s[q], #[trigger] t[q], d) }
pub proof fn lemma_cut_push(a: Seq<usize>, b: Seq<usize>, d: Set<usize>, x: usize)
    requires cut_row(a, b, d),
    ensures !d.contains(x) ==> cut_row(a.push(x), b.push(x), d), d.contains(x) ==> cut_row(a.push(x), b, d),
{
    assert forall|y: usize| #[trigger] a.push(x).contains(y) <==> a.contains(y) || x == y by { lemma_push_contains(a, x, y); }
    assert forall|y: usize| #[trigger] b.push(x).contains(y) <==> b.contains(y) || x == y by { lemma_push_contains(b, x, y); }
    if !d.contains(x) { assert forall|y: usize| #[trigger] b.push(x).contains(y) <==> a.push(x).contains(y) && !d.contains(y) by { assert(b.contains(y) <==> a.contains(y) && !d.contains(y)); } }
    else { assert forall|y: usize| #[trigger] b.contains(y) <==> a.push(x).contains(y) && !d.contains(y) by { assert(b.contains(y) <==> a.contains(y) && !d.contains(y)); } }
}
// some state of s moves to x on the column i
pub open spec fn fan(n: Seq<NfaState>, s: Set<usize>, i: int, x: usize) -> bool { exists|r: usize| s.contains(r) && r < n.len() && #[trigger] n[r as int].transitions@[i]@.contains(x) }
pub open spec fn fan_row(n: Seq<NfaState>, s: Set<usize>, d: Set<usize>, i: int, u: Seq<usize>) -> bool { forall|x: usize| #[trigger] u.contains(x) <==> fan(n, s, i, x) && !d.contains(x) }
pub open spec fn fan_state(n: Seq<NfaState>, s: Set<usize>, d: Set<usize>, k: nat, t: NfaState) -> bool {
    &&& t.initial && t.accepting == (exists|r: usize| s.contains(r) && (#[trigger] n[r as int]).accepting) && t.epsilon_transitions@.len() == 0 && t.transitions@.len() == k
    &&& forall|i: int| 0 <= i < k ==> fan_row(n, s, d, i, (#[trigger] t.transitions@[i])@)
}
// b does the moves of a except those to d, and starts at a's initial state or at a new state fanning out over s
pub open spec fn eps_cut(a: &Nfa, b: &Nfa, s: Set<usize>, d: Set<usize>) -> bool {
    &&& b.alphabet == a.alphabet && a.n() <= b.n()
    &&& forall|q: int| 0 <= q < a.n() ==> ({ let x = a.states@[q]; let y = #[trigger] b.states@[q];
            &&& y.name == x.name && y.accepting == x.accepting && y.epsilon_transitions@.len() == 0 && y.transitions@.len() == x.transitions@.len()
            &&& forall|i: int| 0 <= i < x.transitions@.len() ==> cut_row(x.transitions@[i]@, (#[trigger] y.transitions@[i])@, d) })
    &&& (b.n() == a.n() && b.initial_state == a.initial_state && s == set![a.initial_state])
        || (b.n() == a.n() + 1 && b.initial_state == a.n() && fan_state(a.states@, s, d, a.alphabet@.len(), b.states@[a.n() as int]))
}
pub open spec fn apart(u: Seq<usize>, d: Set<usize>) -> bool { forall|x: usize| #[trigger] u.contains(x) ==> !d.contains(x) }
pub proof fn lemma_eps_cut_core(a: &Nfa, b: &Nfa, s: Set<usize>, d: Set<usize>)
    requires a.core(), no_eps(a), eps_cut(a, b, s, d), b.n() <= usize::MAX,
    ensures b.core(), no_eps(b), forall|q: int, i: int| 0 <= q < b.n() && 0 <= i < b.alphabet@.len() ==> all_lt((#[trigger] b.states@[q].transitions@[i])@, a.n()) && apart(b.states@[q].transitions@[i]@, d),
{
    assert forall|q: int, i: int| 0 <= q < b.n() && 0 <= i < b.alphabet@.len() implies all_lt((#[trigger] b.states@[q].transitions@[i])@, a.n()) && apart(b.states@[q].transitions@[i]@, d) by {
        let u = b.states@[q].transitions@[i]@;
        if q < a.n() {
            assert(nstate_ok(a.states@[q], a.alphabet@.len(), a.n()));
            assert(cut_row(a.states@[q].transitions@[i]@, u, d));
            assert forall|j: int| 0 <= j < u.len() implies #[trigger] u[j] < a.n() by {
                assert(u.contains(u[j])); assert(a.states@[q].transitions@[i]@.contains(u[j])); assert(all_lt(a.states@[q].transitions@[i]@, a.n()));
            }
        } else {
            assert(fan_row(a.states@, s, d, i, u));
            assert forall|j: int| 0 <= j < u.len() implies #[trigger] u[j] < a.n() by {
                assert(u.contains(u[j]));
                let r = choose|r: usize| s.contains(r) && r < a.n() && #[trigger] a.states@[r as int].transitions@[i]@.contains(u[j]);
                assert(nstate_ok(a.states@[r as int], a.alphabet@.len(), a.n()));
                assert(all_lt(a.states@[r as int].transitions@[i]@, a.n()));
            }
        }
    }
    assert forall|q: int| 0 <= q < b.n() implies (#[trigger] b.states@[q]).epsilon_transitions@.len() == 0 && nstate_ok(b.states@[q], b.alphabet@.len(), b.n()) by {
        if q < a.n() { assert(nstate_ok(a.states@[q], a.alphabet@.len(), a.n())); }
        assert forall|i: int| 0 <= i < b.alphabet@.len() implies all_lt((#[trigger] b.states@[q].transitions@[i])@, b.n()) by { assert(all_lt(b.states@[q].transitions@[i]@, a.n())); }
    }
}
pub proof fn lemma_eps_cut_edge(a: &Nfa, b: &Nfa, s: Set<usize>, d: Set<usize>, p: usize, c: Seq<char>, q: usize)
    requires a.core(), eps_cut(a, b, s, d),
    ensures p < a.n() ==> (sedge(b, p, c, q) <==> sedge(a, p, c, q) && !d.contains(q)),
        b.n() == a.n() + 1 && p == a.n() ==> (sedge(b, p, c, q) <==> !d.contains(q) && exists|r: usize| s.contains(r) && r < a.n() && #[trigger] sedge(a, r, c, q)),
{
    if has_sym(a.alphabet@, c) {
        let i = sym_idx(a.alphabet@, c);
        assert(0 <= i < a.alphabet@.len());
        if p < a.n() {
            assert(nstate_ok(a.states@[p as int], a.alphabet@.len(), a.n()));
            assert(b.states@[p as int].transitions@.len() == a.states@[p as int].transitions@.len());
            assert(cut_row(a.states@[p as int].transitions@[i]@, b.states@[p as int].transitions@[i]@, d));
        }
        if b.n() == a.n() + 1 && p == a.n() {
            assert(fan_row(a.states@, s, d, i, b.states@[p as int].transitions@[i]@));
            if sedge(b, p, c, q) {
                let r = choose|r: usize| s.contains(r) && r < a.n() && #[trigger] a.states@[r as int].transitions@[i]@.contains(q);
                assert(sedge(a, r, c, q));
            }
            if !d.contains(q) && exists|r: usize| s.contains(r) && r < a.n() && #[trigger] sedge(a, r, c, q) {
                let r = choose|r: usize| s.contains(r) && r < a.n() && #[trigger] sedge(a, r, c, q);
                assert(a.states@[r as int].transitions@[i]@.contains(q));
                assert(fan(a.states@, s, i, q));
            }
        }
    }
}
pub proof fn lemma_eps_cut_old(a: &Nfa, b: &Nfa, s: Set<usize>, d: Set<usize>, p: usize, w: Word, q: usize)
    requires a.core(), no_eps(a), b.core(), no_eps(b), eps_cut(a, b, s, d), dead_ok(a.states@, d), p < a.n(),
    ensures nreach(b, p, w, q) ==> q < a.n() && nreach(a, p, w, q), nreach(a, p, w, q) && !d.contains(q) ==> q < a.n() && nreach(b, p, w, q),
    decreases w.len(),
{
    if w.len() == 0 {
        assert(w =~= eword());
        if nreach(b, p, w, q) { lemma_empty_word(b, p, w, q); lemma_nreach_refl(a, p); }
        if nreach(a, p, w, q) { lemma_empty_word(a, p, w, q); lemma_nreach_refl(b, p); }
    } else {
        let v = w.drop_last();
        assert(v.push(w.last()) =~= w);
        if nreach(b, p, w, q) {
            let r = lemma_step_last(b, p, w, q);
            lemma_eps_cut_old(a, b, s, d, p, v, r);
            lemma_eps_cut_edge(a, b, s, d, r, w.last(), q);
            lemma_edge_in(a, r, q);
            lemma_nreach_sedge(a, p, v, r, w.last(), q);
        }
        if nreach(a, p, w, q) && !d.contains(q) {
            let r = lemma_step_last(a, p, w, q);
            if d.contains(r) {
                lemma_dead_step(a, d, r, w.last(), q);
            }
            lemma_eps_cut_old(a, b, s, d, p, v, r);
            lemma_eps_cut_edge(a, b, s, d, r, w.last(), q);
            lemma_nreach_sedge(b, p, v, r, w.last(), q);
        }
    }
}
pub proof fn lemma_dead_step(n: &Nfa, d: Set<usize>, r: usize, c: Seq<char>, q: usize)
    requires n.core(), dead_ok(n.states@, d), d.contains(r), sedge(n, r, c, q),
    ensures d.contains(q),
{
    let i = sym_idx(n.alphabet@, c);
    assert(0 <= i < n.alphabet@.len());
    assert(nstate_ok(n.states@[r as int], n.alphabet@.len(), n.n()));
    assert(row_in(n.states@[r as int].transitions@[i]@, d));
}
pub proof fn lemma_fan_same(a: Seq<NfaState>, b: Seq<NfaState>, s: Set<usize>, d: Set<usize>, k: nat, t: NfaState)
    requires same_moves(a, b), fan_state(a, s, d, k, t), forall|r: usize| #[trigger] s.contains(r) ==> r < a.len(),
    ensures fan_state(b, s, d, k, t),
{
    assert forall|r: usize| r < a.len() implies (#[trigger] b[r as int]).accepting == a[r as int].accepting && b[r as int].transitions == a[r as int].transitions by { assert(a[r as int].transitions == b[r as int].transitions); }
    if exists|r: usize| s.contains(r) && (#[trigger] a[r as int]).accepting { let r = choose|r: usize| s.contains(r) && (#[trigger] a[r as int]).accepting; assert(b[r as int].accepting); }
    if exists|r: usize| s.contains(r) && (#[trigger] b[r as int]).accepting { let r = choose|r: usize| s.contains(r) && (#[trigger] b[r as int]).accepting; assert(a[r as int].accepting); }
    assert forall|i: int| 0 <= i < k implies fan_row(b, s, d, i, (#[trigger] t.transitions@[i])@) by {
        let u = t.transitions@[i]@;
        assert(fan_row(a, s, d, i, u));
        assert forall|x: usize| #[trigger] u.contains(x) <==> fan(b, s, i, x) && !d.contains(x) by {
            if fan(a, s, i, x) { let r = choose|r: usize| s.contains(r) && r < a.len() && #[trigger] a[r as int].transitions@[i]@.contains(x); assert(b[r as int].transitions@[i]@.contains(x)); }
            if fan(b, s, i, x) { let r = choose|r: usize| s.contains(r) && r < b.len() && #[trigger] b[r as int].transitions@[i]@.contains(x); assert(a[r as int].transitions@[i]@.contains(x)); }
        }
    }
}
pub proof fn lemma_fan_state(n: Seq<NfaState>, s: Set<usize>, e: Seq<usize>, d: Set<usize>, k: nat, t: NfaState)
    requires enumerates(e, s), t.initial, t.accepting == some_acc(n, e), t.epsilon_transitions@.len() == 0, t.transitions@.len() == k, forall|i: int| 0 <= i < k ==> fan_row(n, s, d, i, (#[trigger] t.transitions@[i])@),
    ensures fan_state(n, s, d, k, t),
{
    if t.accepting { let j = choose|j: int| 0 <= j < e.len() && n[(#[trigger] e[j]) as int].accepting; assert(s.contains(e[j].kv())); assert(n[e[j] as int].accepting); }
    if exists|r: usize| s.contains(r) && (#[trigger] n[r as int]).accepting {
        let r = choose|r: usize| s.contains(r) && (#[trigger] n[r as int]).accepting;
        lemma_enum(e, s, r);
        let j = choose|j: int| 0 <= j < e.len() && e[j] == r;
        assert(n[e[j] as int].accepting);
    }
}
pub open spec fn some_acc(n: Seq<NfaState>, e: Seq<usize>) -> bool { exists|j: int| 0 <= j < e.len() && n[(#[trigger] e[j]) as int].accepting }
pub proof fn lemma_same_moves_sym(s: Seq<NfaState>, t: Seq<NfaState>)
    requires same_moves(s, t),
    ensures same_moves(t, s),
{
    assert forall|q: int| 0 <= q < s.len() implies (#[trigger] t[q]).transitions == s[q].transitions && t[q].accepting == s[q].accepting && t[q].name == s[q].name && t[q].epsilon_transitions == s[q].epsilon_transitions by { assert(s[q].transitions == t[q].transitions); }
}
pub proof fn lemma_named_same(s: Seq<NfaState>, t: Seq<NfaState>, m: Seq<char>)
    requires same_moves(s, t), nnamed(s, m),
    ensures nnamed(t, m),
{
    let q = choose|q: int| 0 <= q < s.len() && (#[trigger] s[q]).name@ == m;
    assert(s[q].transitions == t[q].transitions);
    assert(t[q].name@ == m);
}
pub open spec fn from_some(a: &Nfa, s: Set<usize>, w: Word, q: usize) -> bool { exists|r: usize| s.contains(r) && r < a.n() && #[trigger] nreach(a, r, w, q) }
pub proof fn lemma_eps_cut_new(a: &Nfa, b: &Nfa, s: Set<usize>, d: Set<usize>, w: Word, q: usize)
    requires a.core(), no_eps(a), b.core(), no_eps(b), eps_cut(a, b, s, d), dead_ok(a.states@, d), b.n() == a.n() + 1, w.len() > 0,
    ensures nreach(b, b.initial_state, w, q) ==> q < a.n() && from_some(a, s, w, q), from_some(a, s, w, q) && !d.contains(q) ==> q < a.n() && nreach(b, b.initial_state, w, q),
    decreases w.len(),
{
    let p = b.initial_state;
    let v = w.drop_last();
    assert(v.push(w.last()) =~= w);
    if nreach(b, p, w, q) {
        let r = lemma_step_last(b, p, w, q);
        if v.len() == 0 {
            assert(v =~= eword());
            lemma_empty_word(b, p, v, r);
            lemma_eps_cut_edge(a, b, s, d, p, w.last(), q);
            let x = choose|x: usize| s.contains(x) && x < a.n() && #[trigger] sedge(a, x, w.last(), q);
            lemma_nreach_refl(a, x);
            lemma_nreach_sedge(a, x, v, x, w.last(), q);
            lemma_edge_in(a, x, q);
        } else {
            lemma_eps_cut_new(a, b, s, d, v, r);
            lemma_eps_cut_edge(a, b, s, d, r, w.last(), q);
            let x = choose|x: usize| s.contains(x) && x < a.n() && #[trigger] nreach(a, x, v, r);
            lemma_nreach_sedge(a, x, v, r, w.last(), q);
            lemma_edge_in(a, r, q);
        }
    }
    if from_some(a, s, w, q) && !d.contains(q) {
        let x = choose|x: usize| s.contains(x) && x < a.n() && #[trigger] nreach(a, x, w, q);
        let r = lemma_step_last(a, x, w, q);
        if d.contains(r) { lemma_dead_step(a, d, r, w.last(), q); }
        if v.len() == 0 {
            assert(v =~= eword());
            lemma_empty_word(a, x, v, r);
            lemma_eps_cut_edge(a, b, s, d, p, w.last(), q);
            assert(s.contains(x) && sedge(a, x, w.last(), q));
            lemma_nreach_refl(b, p);
            lemma_nreach_sedge(b, p, v, p, w.last(), q);
        } else {
            assert(from_some(a, s, v, r));
            lemma_eps_cut_new(a, b, s, d, v, r);
            lemma_eps_cut_edge(a, b, s, d, r, w.last(), q);
            lemma_nreach_sedge(b, p, v, r, w.last(), q);
        }
    }
}
// a0: the automaton, a: with the closures inlined, b: with the initial state and the moves put right
pub proof fn lemma_eps_language(a0: &Nfa, a: &Nfa, b: &Nfa, s: Set<usize>, d1: Set<usize>, d: Set<usize>)
    requires a0.core(), inlined(a0, a), b.n() <= usize::MAX, eps_cut(a, b, s, d), dead_ok(a.states@, d), dead_ok(a.states@, d1),
        forall|r: usize| #[trigger] s.contains(r) <==> ereach(a0, a0.initial_state, r) && !d1.contains(r),
    ensures b.core(), no_eps(b), forall|w: Word| #[trigger] naccepts(b, w) == naccepts(a0, w),
{
    let i = a0.initial_state;
    lemma_inlined_core(a0, a);
    lemma_eps_cut_core(a, b, s, d);
    assert forall|r: usize| #[trigger] s.contains(r) implies r < a.n() by { lemma_nreach_in(a0, i, eword(), r); }
    assert forall|q: usize| q < a.n() implies #[trigger] b.acc(q) == a.acc(q) by { assert(b.states@[q as int].accepting == a.states@[q as int].accepting); }
    assert forall|q: usize| q < a.n() implies #[trigger] a.acc(q) == a0.acc(q) by { assert(inl_state(a0, a0.states@[q as int], a.states@[q as int])); }
    assert forall|w: Word| #[trigger] naccepts(b, w) == naccepts(a0, w) by {
        if naccepts(a0, w) {
            let q = choose|q: usize| #[trigger] nreach(a0, i, w, q) && a0.acc(q);
            lemma_nreach_in(a0, i, w, q);
            let r = lemma_inlined_to(a0, a, i, w, q);
            if d1.contains(r) { lemma_dead_reach(a, d1, r, w, q); }
            if d.contains(q) { assert(dead_state(a.states@[q as int], d)); }
            assert(s.contains(r));
            assert(from_some(a, s, w, q));
            if b.n() == a.n() {
                lemma_eps_cut_old(a, b, s, d, r, w, q);
            } else if w.len() > 0 {
                lemma_eps_cut_new(a, b, s, d, w, q);
            } else {
                lemma_empty_word(a, r, w, q);
                assert(w =~= eword());
                lemma_nreach_refl(b, b.initial_state);
                assert(a.states@[r as int].accepting);
                assert(b.acc(b.initial_state));
            }
        }
        if naccepts(b, w) {
            let q = choose|q: usize| #[trigger] nreach(b, b.initial_state, w, q) && b.acc(q);
            if b.n() == a.n() {
                lemma_eps_cut_old(a, b, s, d, a.initial_state, w, q);
                assert(s.contains(i));
                assert(evia(a0, a, i, w, q, i));
                lemma_inlined_from(a0, a, i, w, q, i);
            } else if w.len() > 0 {
                lemma_eps_cut_new(a, b, s, d, w, q);
                let r = choose|r: usize| s.contains(r) && r < a.n() && #[trigger] nreach(a, r, w, q);
                assert(evia(a0, a, i, w, q, r));
                lemma_inlined_from(a0, a, i, w, q, r);
            } else {
                lemma_empty_word(b, b.initial_state, w, q);
                assert(w =~= eword());
                let r = choose|r: usize| s.contains(r) && (#[trigger] a.states@[r as int]).accepting;
                lemma_nreach_refl(a, r);
                assert(evia(a0, a, i, w, r, r));
                lemma_inlined_from(a0, a, i, w, r, r);
                assert(a.acc(r));
            }
        }
    }
}
// ------------------------------------------------------------------ facts the loops below keep
pub open spec fn covers(a: &Nfa, t: Seq<usize>, s: Set<usize>) -> bool { forall|x: usize| #[trigger] s.contains(x) <==> ecover(a, t, x) }
pub open spec fn covers_more(a: &Nfa, t: Seq<usize>, s: Set<usize>, more: Seq<usize>) -> bool { forall|x: usize| #[trigger] s.contains(x) <==> ecover(a, t, x) || more.contains(x) }
pub proof fn lemma_covers_more(a: &Nfa, t: Seq<usize>, s: Set<usize>, m: Seq<usize>, x: usize)
    requires covers_more(a, t, s, m),
    ensures covers_more(a, t, s.insert(x), m.push(x)),
{
    assert forall|y: usize| #[trigger] s.insert(x).contains(y) <==> ecover(a, t, y) || m.push(x).contains(y) by { lemma_push_contains(m, x, y); assert(s.contains(y) <==> ecover(a, t, y) || m.contains(y)); }
}
pub proof fn lemma_covers_step(a: &Nfa, t: Seq<usize>, s: Set<usize>, m: Seq<usize>, p: usize, c: Set<usize>)
    requires covers_more(a, t, s, m), enumerates(m, c), clos(a, p, c),
    ensures covers(a, t.push(p), s),
{
    lemma_ecover_push(a, t, p);
    assert forall|x: usize| #[trigger] s.contains(x) <==> ecover(a, t.push(p), x) by { lemma_enum(m, c, x); assert(c.contains(x) <==> ereach(a, p, x)); }
}
pub proof fn lemma_inl_row(a: &Nfa, t: Seq<usize>, s: Set<usize>, u: Seq<usize>)
    requires covers(a, t, s), enumerates(u, s),
    ensures inl_row(a, t, u),
{
    assert forall|x: usize| #[trigger] u.contains(x) <==> ecover(a, t, x) by { lemma_enum(u, s, x); assert(s.contains(x) <==> ecover(a, t, x)); }
}
// the elements of t that are not in d
pub open spec fn set_cut(t: Seq<usize>, s: Set<usize>, d: Set<usize>) -> bool { forall|x: usize| #[trigger] s.contains(x) <==> t.contains(x) && !d.contains(x) }
pub proof fn lemma_set_cut_push(t: Seq<usize>, s: Set<usize>, d: Set<usize>, x: usize)
    requires set_cut(t, s, d),
    ensures d.contains(x) ==> set_cut(t.push(x), s, d), !d.contains(x) ==> set_cut(t.push(x), s.insert(x), d),
{
    assert forall|y: usize| #[trigger] t.push(x).contains(y) <==> t.contains(y) || x == y by { lemma_push_contains(t, x, y); }
    let s2 = s.insert(x);
    if d.contains(x) { assert forall|y: usize| #[trigger] s.contains(y) <==> t.push(x).contains(y) && !d.contains(y) by { assert(s.contains(y) <==> t.contains(y) && !d.contains(y)); } }
    else { assert forall|y: usize| #[trigger] s2.contains(y) <==> t.push(x).contains(y) && !d.contains(y) by { assert(s.contains(y) <==> t.contains(y) && !d.contains(y)); } }
}
pub open spec fn init_set(a: &Nfa, s: Set<usize>, d: Set<usize>) -> bool { forall|r: usize| #[trigger] s.contains(r) <==> ereach(a, a.initial_state, r) && !d.contains(r) }
pub proof fn lemma_init_set(a: &Nfa, t: Seq<usize>, c: Set<usize>, s: Set<usize>, d: Set<usize>)
    requires enumerates(t, c), clos(a, a.initial_state, c), set_cut(t, s, d), !d.contains(a.initial_state), a.core(),
    ensures init_set(a, s, d), s.contains(a.initial_state), s.len() <= 1 ==> s == set![a.initial_state], forall|r: usize| #[trigger] s.contains(r) ==> r < a.n(),
{
    let i = a.initial_state;
    assert forall|r: usize| #[trigger] s.contains(r) <==> ereach(a, i, r) && !d.contains(r) by { lemma_enum(t, c, r); assert(c.contains(r) <==> ereach(a, i, r)); }
    lemma_nreach_refl(a, i);
    assert(s.contains(i));
    if s.len() <= 1 {
        assert(s.remove(i).len() == 0);
        assert(s.remove(i) =~= Set::<usize>::empty());
        assert(s =~= set![i]) by { assert forall|r: usize| #[trigger] s.contains(r) <==> r == i by { assert(s.remove(i).contains(r) <==> s.contains(r) && r != i); } }
    }
    assert forall|r: usize| #[trigger] s.contains(r) implies r < a.n() by { lemma_nreach_in(a, i, eword(), r); }
}
pub open spec fn sfan(n: Seq<NfaState>, t: Seq<usize>, i: int, x: usize) -> bool { exists|r: usize| t.contains(r) && r < n.len() && #[trigger] n[r as int].transitions@[i]@.contains(x) }
pub open spec fn fans(n: Seq<NfaState>, t: Seq<usize>, i: int, s: Set<usize>) -> bool { forall|x: usize| #[trigger] s.contains(x) <==> sfan(n, t, i, x) }
pub open spec fn fans_more(n: Seq<NfaState>, t: Seq<usize>, i: int, s: Set<usize>, m: Seq<usize>) -> bool { forall|x: usize| #[trigger] s.contains(x) <==> sfan(n, t, i, x) || m.contains(x) }
pub proof fn lemma_fans_more(n: Seq<NfaState>, t: Seq<usize>, i: int, s: Set<usize>, m: Seq<usize>, x: usize)
    requires fans_more(n, t, i, s, m),
    ensures fans_more(n, t, i, s.insert(x), m.push(x)),
{
    assert forall|y: usize| #[trigger] s.insert(x).contains(y) <==> sfan(n, t, i, y) || m.push(x).contains(y) by { lemma_push_contains(m, x, y); assert(s.contains(y) <==> sfan(n, t, i, y) || m.contains(y)); }
}
pub proof fn lemma_fans_step(n: Seq<NfaState>, t: Seq<usize>, i: int, s: Set<usize>, p: usize)
    requires p < n.len(), fans_more(n, t, i, s, n[p as int].transitions@[i]@),
    ensures fans(n, t.push(p), i, s),
{
    let u = t.push(p);
    assert forall|x: usize| #[trigger] s.contains(x) <==> sfan(n, u, i, x) by {
        assert(s.contains(x) <==> sfan(n, t, i, x) || n[p as int].transitions@[i]@.contains(x));
        if sfan(n, u, i, x) {
            let r = choose|r: usize| u.contains(r) && r < n.len() && #[trigger] n[r as int].transitions@[i]@.contains(x);
            lemma_push_contains(t, p, r);
        }
        if sfan(n, t, i, x) {
            let r = choose|r: usize| t.contains(r) && r < n.len() && #[trigger] n[r as int].transitions@[i]@.contains(x);
            lemma_push_contains(t, p, r);
        }
        if n[p as int].transitions@[i]@.contains(x) { lemma_push_contains(t, p, p); }
    }
}
pub proof fn lemma_fan_row2(n: Seq<NfaState>, ic: Set<usize>, i: int, s: Set<usize>, e: Seq<usize>, d: Set<usize>, u: Seq<usize>)
    requires is_fan(n, ic, i, s), enumerates(e, s), cut_row(e, u, d),
    ensures fan_row(n, ic, d, i, u),
{
    assert forall|x: usize| #[trigger] u.contains(x) <==> fan(n, ic, i, x) && !d.contains(x) by { lemma_enum(e, s, x); assert(s.contains(x) <==> fan(n, ic, i, x)); }
}
pub open spec fn is_fan(n: Seq<NfaState>, ic: Set<usize>, i: int, s: Set<usize>) -> bool { forall|x: usize| #[trigger] s.contains(x) <==> fan(n, ic, i, x) }
pub proof fn lemma_is_fan(n: Seq<NfaState>, t: Seq<usize>, ic: Set<usize>, i: int, s: Set<usize>)
    requires enumerates(t, ic), fans(n, t, i, s),
    ensures is_fan(n, ic, i, s),
{
    assert forall|x: usize| #[trigger] s.contains(x) <==> fan(n, ic, i, x) by {
        assert(s.contains(x) <==> sfan(n, t, i, x));
        if sfan(n, t, i, x) {
            let r = choose|r: usize| t.contains(r) && r < n.len() && #[trigger] n[r as int].transitions@[i]@.contains(x);
            lemma_enum(t, ic, r);
        }
        if fan(n, ic, i, x) {
            let r = choose|r: usize| ic.contains(r) && r < n.len() && #[trigger] n[r as int].transitions@[i]@.contains(x);
            lemma_enum(t, ic, r);
        }
    }
}
// the states before the moves to d are cut: those of a, and possibly the new initial state
pub open spec fn ready(a: &Nfa, b: &Nfa, s: Set<usize>, d: Set<usize>) -> bool {
    &&& b.alphabet == a.alphabet && a.n() <= b.n()
    &&& same_moves(a.states@, b.states@.take(a.n() as int))
    &&& (b.n() == a.n() && b.initial_state == a.initial_state && s == set![a.initial_state])
        || (b.n() == a.n() + 1 && b.initial_state == a.n() && fan_state(a.states@, s, d, a.alphabet@.len(), b.states@[a.n() as int]))
}
pub open spec fn wf_but(s: Seq<NfaState>, ini: usize, d: Set<usize>) -> bool {
    &&& forall|q: usize| q < s.len() ==> (#[trigger] s[q as int]).initial == (q == ini)
    &&& forall|p: usize, q: usize| p < s.len() && q < s.len() && p != q && !d.contains(p) && !d.contains(q) ==> (#[trigger] s[p as int]).name@ != (#[trigger] s[q as int]).name@
}
pub proof fn lemma_ready_old(a: &Nfa, s: Set<usize>, d: Set<usize>)
    requires a.wf(), s == set![a.initial_state],
    ensures ready(a, a, s, d), wf_but(a.states@, a.initial_state, d),
{
    assert(a.states@.take(a.n() as int) =~= a.states@);
}
pub proof fn lemma_ready_new(a: &Nfa, b: &Nfa, s: Set<usize>, d: Set<usize>, ns: NfaState)
    requires a.wf(), a.n() < usize::MAX, b.alphabet == a.alphabet, b.states@ == a.states@.update(a.initial_state as int, b.states@[a.initial_state as int]).push(ns), b.initial_state == a.n(),
        b.states@[a.initial_state as int] == (NfaState { initial: false, ..a.states@[a.initial_state as int] }),
        fan_state(a.states@, s, d, a.alphabet@.len(), ns),
        !nnamed(a.states@, ns.name@) || (d.contains(a.initial_state) && ns.name@ == a.states@[a.initial_state as int].name@),
    ensures ready(a, b, s, d), wf_but(b.states@, b.initial_state, d),
{
    assert(b.states@[a.n() as int] == ns);
    assert forall|p: usize, q: usize| p < b.n() && q < b.n() && p != q && !d.contains(p) && !d.contains(q) implies (#[trigger] b.states@[p as int]).name@ != (#[trigger] b.states@[q as int]).name@ by {
        if p < a.n() && q < a.n() { assert(a.states@[p as int].name@ != a.states@[q as int].name@); }
        else {
            let o = if p < a.n() { p } else { q };
            if ns.name@ == a.states@[o as int].name@ {
                assert(nnamed(a.states@, ns.name@));
                assert(a.states@[o as int].name@ != a.states@[a.initial_state as int].name@);
            }
        }
    }
}
pub proof fn lemma_ready_cut(a: &Nfa, b: &Nfa, c: &Nfa, s: Set<usize>, d: Set<usize>)
    requires no_eps(a), a.core(), ready(a, b, s, d), wf_but(b.states@, b.initial_state, d), c.alphabet == b.alphabet, c.initial_state == b.initial_state, cut_states(b.states@, c.states@, d),
    ensures eps_cut(a, c, s, d), wf_but(c.states@, c.initial_state, d),
{
    let t = b.states@.take(a.n() as int);
    assert forall|q: int| 0 <= q < a.n() implies ({ let x = a.states@[q]; let y = #[trigger] c.states@[q];
            &&& y.name == x.name && y.accepting == x.accepting && y.epsilon_transitions@.len() == 0 && y.transitions@.len() == x.transitions@.len()
            &&& forall|i: int| 0 <= i < x.transitions@.len() ==> cut_row(x.transitions@[i]@, (#[trigger] y.transitions@[i])@, d) }) by {
        assert(cut_state(b.states@[q], c.states@[q], d));
        assert(a.states@[q].transitions == t[q].transitions);
        assert(b.states@[q] == t[q]);
    }
    if b.n() == a.n() + 1 {
        let x = b.states@[a.n() as int]; let y = c.states@[a.n() as int];
        assert(cut_state(x, y, d));
        assert forall|i: int| 0 <= i < a.alphabet@.len() implies fan_row(a.states@, s, d, i, (#[trigger] y.transitions@[i])@) by {
            assert(fan_row(a.states@, s, d, i, x.transitions@[i]@));
            assert(cut_row(x.transitions@[i]@, y.transitions@[i]@, d));
            assert forall|z: usize| #[trigger] y.transitions@[i]@.contains(z) <==> fan(a.states@, s, i, z) && !d.contains(z) by { assert(x.transitions@[i]@.contains(z) <==> fan(a.states@, s, i, z) && !d.contains(z)); }
        }
    }
    assert forall|q: usize| q < c.n() implies (#[trigger] c.states@[q as int]).initial == (q == c.initial_state) by { assert(cut_state(b.states@[q as int], c.states@[q as int], d)); }
    assert forall|p: usize, q: usize| p < c.n() && q < c.n() && p != q && !d.contains(p) && !d.contains(q) implies (#[trigger] c.states@[p as int]).name@ != (#[trigger] c.states@[q as int]).name@ by {
        assert(cut_state(b.states@[p as int], c.states@[p as int], d)); assert(cut_state(b.states@[q as int], c.states@[q as int], d));
        assert(b.states@[p as int].name@ != b.states@[q as int].name@);
    }
}
// what may be removed
pub open spec fn removable(b: &Nfa, g: Seq<usize>) -> bool {
    b.core() && g.no_duplicates() && !g.contains(b.initial_state) && all_lt(g, b.states@.len()) && ncut_off(b.states@, g)
}
pub proof fn lemma_removable(a: &Nfa, b: &Nfa, s: Set<usize>, d: Set<usize>, g: Seq<usize>)
    requires a.core(), no_eps(a), eps_cut(a, b, s, d), enumerates(g, d), dead_ok(a.states@, d), b.n() == a.n() ==> !d.contains(a.initial_state), b.n() <= usize::MAX,
    ensures removable(b, g), forall|q: usize| #[trigger] d.contains(q) <==> g.contains(q),
{
    lemma_eps_cut_core(a, b, s, d);
    assert forall|q: usize| #[trigger] d.contains(q) <==> g.contains(q) by { lemma_enum(g, d, q); }
    assert forall|i: int| 0 <= i < g.len() implies #[trigger] g[i] < b.n() by { assert(d.contains(g[i].kv())); }
    assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && i != j implies g[i] != g[j] by { assert(g[i].kv() != g[j].kv()); }
    assert forall|q: usize| q < b.n() && !g.contains(q) implies avoids((#[trigger] b.states@[q as int]).epsilon_transitions@, g)
        && forall|i: int| 0 <= i < b.states@[q as int].transitions@.len() ==> avoids((#[trigger] b.states@[q as int].transitions@[i])@, g) by {
        assert(nstate_ok(b.states@[q as int], b.alphabet@.len(), b.n()));
        assert forall|i: int| 0 <= i < b.states@[q as int].transitions@.len() implies avoids((#[trigger] b.states@[q as int].transitions@[i])@, g) by {
            let u = b.states@[q as int].transitions@[i]@;
            assert(apart(u, d));
            assert forall|j: int| 0 <= j < u.len() implies !g.contains(#[trigger] u[j]) by { assert(u.contains(u[j])); }
        }
    }
}
// what removing epsilon moves promises
pub open spec fn eps_removed(a: &Nfa, c: &Nfa) -> bool {
    c.wf() && no_eps(c) && c.alphabet == a.alphabet && forall|w: Word| #[trigger] naccepts(c, w) == naccepts(a, w)
}
pub proof fn lemma_eps_removed(a0: &Nfa, a: &Nfa, b: &Nfa, c: &Nfa, s: Set<usize>, d1: Set<usize>, d: Set<usize>, g: Seq<usize>, k: Seq<usize>)
    requires a0.core(), inlined(a0, a), b.n() <= usize::MAX, eps_cut(a, b, s, d), dead_ok(a.states@, d), dead_ok(a.states@, d1), init_set(a0, s, d1),
        wf_but(b.states@, b.initial_state, d), forall|q: usize| #[trigger] d.contains(q) <==> g.contains(q), keeps(b.n(), g, k), ncut(b, c, k),
    ensures eps_removed(a0, c),
{
    lemma_eps_language(a0, a, b, s, d1, d);
    lemma_ncut_core(b, c, k);
    assert forall|i: int| 0 <= i < k.len() implies k[i] < b.n() && !d.contains(#[trigger] k[i]) by { assert(k.contains(k[i])); }
    assert forall|q: int| 0 <= q < c.n() implies (#[trigger] c.states@[q]).initial == (q == c.initial_state) && c.states@[q].epsilon_transitions@.len() == 0 by {
        assert(nstate_cut(b.states@[k[q] as int], c.states@[q], k));
        assert(b.states@[k[q] as int].initial == (k[q] == b.initial_state));
        if q < c.initial_state { assert(k[q] < k[c.initial_state as int]); }
        if q > c.initial_state { assert(k[c.initial_state as int] < k[q]); }
    }
    assert forall|p: int, q: int| 0 <= p < c.n() && 0 <= q < c.n() && p != q implies (#[trigger] c.states@[p]).name@ != (#[trigger] c.states@[q]).name@ by {
        assert(nstate_cut(b.states@[k[p] as int], c.states@[p], k));
        assert(nstate_cut(b.states@[k[q] as int], c.states@[q], k));
        if p < q { assert(k[p] < k[q]); } else { assert(k[q] < k[p]); }
        assert(!d.contains(k[p]) && !d.contains(k[q]));
        assert(b.states@[k[p] as int].name@ != b.states@[k[q] as int].name@);
    }
    assert forall|w: Word| #[trigger] naccepts(c, w) == naccepts(a0, w) by { lemma_ncut_accepts(b, c, k, w); }
}

@fn dandy/src/nfa/mod.rs Nfa::remove_epsilon_moves
@attr #[verifier::rlimit(100)]
@hide inlined inl_state clos dead_ok ready wf_but eps_cut cut_states fan_state init_set covers covers_more set_cut fans fans_more fan_row cut_row inl_row nnames_distinct nstates_ok same_moves enumerates removable eps_removed is_fan ncut keeps
@sig
    requires old(self).wf(),
    ensures eps_removed(old(self), final(self)), no_eps(old(self)) ==> *final(self) == *old(self),
@start
    let ghost a0: Nfa = *self;
    let ghost mut a1: Nfa = *self;
    let ghost mut a2: Nfa = *self;
    let ghost mut a3: Nfa = *self;
    let ghost mut d1 = Set::<usize>::empty();
    let ghost mut dd = Set::<usize>::empty();
    let ghost mut ic = Set::<usize>::empty();
    let ghost mut gg = Seq::<usize>::empty();
    proof { if no_eps(self) { reveal(eps_removed); } }
@acc 1 Vec<HSet<usize>>
@acc 4 Vec<usize>
@acc 5 HSet<usize>
@acc 11 HSet<usize>
@acc 18 Vec<Vec<usize>>
@acc 19 Vec<usize>
@acc 20 HSet<usize>
@acc 26 Vec<usize>
@loop 1 inv
    it1_seq.len() == self.n(), acc1@.len() == it1.pos(), forall|q: usize| q < it1.pos() ==> clos(self, q, (#[trigger] acc1@[q as int])@),
@loop 1 end
    proof { assert(clos(self, x1, acc1@[x1 as int]@)) by { reveal(clos); } }
@let closures
    proof { assert(closures_of(&a0, closures@)); }
@loop 2 inv
    self.alphabet == a0.alphabet, self.initial_state == a0.initial_state, self.states@.len() == a0.states@.len(),
    forall|q: int| 0 <= q < j2 ==> inl_state(&a0, a0.states@[q], #[trigger] self.states@[q]),
    forall|q: int| j2 <= q < self.states@.len() ==> #[trigger] self.states@[q] == a0.states@[q],
@loop 2 beg
    let ghost s0 = a0.states@[j2 as int];
    proof { assert(nstate_ok(s0, a0.alphabet@.len(), a0.n())) by { reveal(nstates_ok); } }
@loop 3 inv
    state.name == s0.name && state.initial == s0.initial && state.accepting == s0.accepting && state.transitions@.len() == s0.transitions@.len(),
    forall|i: int| 0 <= i < j3 ==> inl_row(&a0, s0.transitions@[i]@, (#[trigger] state.transitions@[i])@),
    forall|i: int| j3 <= i < s0.transitions@.len() ==> #[trigger] state.transitions@[i] == s0.transitions@[i],
@loop 3 beg
    let ghost t0 = s0.transitions@[j3 as int]@;
@loop 5 pre
    proof { assert(all_lt(t0, a0.n())); assert(covers(&a0, it5_seq.take(0), f5@)) by { reveal(covers); lemma_ecover_push(&a0, t0, 0); assert(it5_seq.take(0) =~= Seq::<usize>::empty()); } }
@loop 5 inv
    it5_seq == t0, covers(&a0, it5_seq.take(it5.pos()), f5@),
@loop 5 beg
    let ghost p5 = it5_seq.take(it5.pos() - 1);
    proof { lemma_take_push(it5_seq, it5.pos() as int); }
@loop 6 pre
    proof { assert(covers_more(&a0, p5, set@, it6_seq.take(0))) by { reveal(covers); reveal(covers_more); } }
@loop 6 inv
    covers_more(&a0, p5, set@, it6_seq.take(it6.pos())), enumerates(it6_seq, closures@[*x5 as int]@),
@loop 6 beg
    let ghost s6 = set@;
    proof { lemma_take_push(it6_seq, it6.pos() as int); }
@loop 6 end
    proof { lemma_covers_more(&a0, p5, s6, it6_seq.take(it6.pos() - 1), *x6); }
@loop 6 post
    proof { assert(it6_seq.take(it6_seq.len() as int) =~= it6_seq); lemma_covers_step(&a0, p5, set@, it6_seq, *x5, closures@[*x5 as int]@); }
@loop 5 post
    proof { assert(it5_seq.take(it5_seq.len() as int) =~= t0); }
@loop 4 pre
    let ghost s4 = choose|s: Set<usize>| enumerates(it4_seq, s) && covers(&a0, t0, s);
@loop 4 inv
    enumerates(it4_seq, s4), covers(&a0, t0, s4), acc4@ == it4_seq.take(it4.pos()),
@loop 4 end
    proof { assert(acc4@ =~= it4_seq.take(it4.pos())); }
@loop 4 post
    proof { assert(acc4@ =~= it4_seq); lemma_inl_row(&a0, t0, s4, acc4@); }
@loop 2 end
    proof { assert(inl_state(&a0, a0.states@[j2 - 1], self.states@[j2 - 1])) by { reveal(inl_state); } }
@loop 2 post
    proof {
        a1 = *self;
        assert(inlined(&a0, &a1)) by { reveal(inlined); }
        lemma_inlined_wf(&a0, &a1);
    }
@loop 7 pre
    proof { assert(dead_ok(self.states@, dead_states@)) by { reveal(dead_ok); } }
@loop 7 inv
    *self == a1, dead_ok(self.states@, dead_states@), !dead_states@.contains(self.initial_state),
    decreases self.n() - dead_states@.len(), (if added_states { 1int } else { 0int }),
@loop 7 beg
    let ghost d7 = dead_states@;
    proof { assert forall|q: usize| #[trigger] d7.contains(q) implies q < self.n() by { reveal(dead_ok); } lemma_idx_bound(d7, self.n()); }
@loop 8 inv
    *self == a1, dead_ok(self.states@, dead_states@), !dead_states@.contains(self.initial_state),
    d7.len() <= dead_states@.len() <= self.n(), added_states ==> d7.len() < dead_states@.len(),
@loop 8 beg
    let ghost d8 = dead_states@;
    let ghost i8 = it8.pos() - 1;
@loop 9 inv
    r9 ==> forall|i: int| 0 <= i < it9.pos() ==> row_in((#[trigger] it9_seq[i])@, dead_states@),
@loop 10 inv
    r10 ==> forall|j: int| 0 <= j < it10.pos() ==> dead_states@.contains(#[trigger] it10_seq[j]),
@loop 8 end
    proof {
        if dead_states@ != d8 {
            lemma_dead_insert_r(self.states@, d8, i8 as usize);
            assert forall|q: usize| #[trigger] dead_states@.contains(q) implies q < self.n() by { reveal(dead_ok); }
            lemma_idx_bound(dead_states@, self.n());
        }
    }
@loop 7 post
    proof { d1 = dead_states@; }
@loop 11 inv
    set_cut(it11_seq.take(it11.pos()), acc11@, d1),
@loop 11 pre
    proof { assert(set_cut(it11_seq.take(0), acc11@, d1)) by { reveal(set_cut); } }
@loop 11 beg
    let ghost s11 = acc11@;
    proof { lemma_take_push(it11_seq, it11.pos() as int); lemma_set_cut_push(it11_seq.take(it11.pos() - 1), s11, d1, *x11); }
@loop 11 post
    proof {
        assert(it11_seq.take(it11_seq.len() as int) =~= it11_seq);
        ic = acc11@;
        lemma_init_set(&a0, it11_seq, closures@[a0.initial_state as int]@, ic, d1);
    }
@loop 12 inv
    r12 ==> forall|i: int| 0 <= i < it12.pos() ==> row_in((#[trigger] it12_seq[i])@, dead_states@),
@loop 13 inv
    r13 ==> forall|j: int| 0 <= j < it13.pos() ==> dead_states@.contains(#[trigger] it13_seq[j]),
@let old_state_dead
    proof {
        a2 = *self;
        assert(same_moves(a1.states@, a2.states@)) by { reveal(same_moves); }
        lemma_dead_same(a1.states@, a2.states@, d1);
        if old_state_dead { lemma_dead_insert_r(self.states@, d1, old_initial); }
    }
@loop 14 inv
    *self == a2, dead_ok(self.states@, dead_states@), dead_states@.contains(old_initial),
    decreases self.n() - dead_states@.len(), (if added_states { 1int } else { 0int }),
@loop 14 beg
    let ghost d14 = dead_states@;
    proof { assert forall|q: usize| #[trigger] d14.contains(q) implies q < self.n() by { reveal(dead_ok); } lemma_idx_bound(d14, self.n()); }
@loop 15 inv
    *self == a2, dead_ok(self.states@, dead_states@), dead_states@.contains(old_initial),
    d14.len() <= dead_states@.len() <= self.n(), added_states ==> d14.len() < dead_states@.len(),
@loop 15 beg
    let ghost d15 = dead_states@;
    let ghost i15 = it15.pos() - 1;
@loop 16 inv
    r16 ==> forall|i: int| 0 <= i < it16.pos() ==> row_in((#[trigger] it16_seq[i])@, dead_states@),
@loop 17 inv
    r17 ==> forall|j: int| 0 <= j < it17.pos() ==> dead_states@.contains(#[trigger] it17_seq[j]),
@loop 15 end
    proof {
        if dead_states@ != d15 {
            lemma_dead_insert_r(self.states@, d15, i15 as usize);
            assert forall|q: usize| #[trigger] dead_states@.contains(q) implies q < self.n() by { reveal(dead_ok); }
            lemma_idx_bound(dead_states@, self.n());
        }
    }
@loop 18 pre
    let ghost dd2 = dead_states@;
    proof {
        lemma_same_moves_sym(a1.states@, a2.states@);
        lemma_dead_same(a2.states@, a1.states@, dd2);
        assert forall|q: int| 0 <= q < self.n() implies nstate_ok(#[trigger] self.states@[q], self.alphabet@.len(), self.n()) by { reveal(same_moves); reveal(nstates_ok); assert(a1.states@[q].transitions == a2.states@[q].transitions); }
    }
@loop 18 inv
    *self == a2, it18_seq.len() == self.alphabet@.len(), acc18@.len() == it18.pos(), forall|i: int| 0 <= i < it18.pos() ==> fan_row(a2.states@, ic, dd2, i, (#[trigger] acc18@[i])@),
@loop 18 beg
    let ghost i18 = it18.pos() - 1;
@loop 20 pre
    proof { assert(fans(a2.states@, it20_seq.take(0), i18, f20@)) by { reveal(fans); } }
@loop 20 inv
    enumerates(it20_seq, ic), fans(a2.states@, it20_seq.take(it20.pos()), i18, f20@),
@loop 20 beg
    let ghost p20 = it20_seq.take(it20.pos() - 1);
    proof { lemma_take_push(it20_seq, it20.pos() as int); assert(ic.contains(*x20)) by { reveal(enumerates); assert(ic.contains(it20_seq[it20.pos() - 1].kv())); } assert(nstate_ok(self.states@[*x20 as int], self.alphabet@.len(), self.n())); }
@loop 21 pre
    proof { assert(fans_more(a2.states@, p20, i18, set@, it21_seq.take(0))) by { reveal(fans); reveal(fans_more); } }
@loop 21 inv
    fans_more(a2.states@, p20, i18, set@, it21_seq.take(it21.pos())), it21_seq == a2.states@[*x20 as int].transitions@[i18]@,
@loop 21 beg
    let ghost s21 = set@;
    proof { lemma_take_push(it21_seq, it21.pos() as int); }
@loop 21 end
    proof { lemma_fans_more(a2.states@, p20, i18, s21, it21_seq.take(it21.pos() - 1), *x21); }
@loop 21 post
    proof { assert(it21_seq.take(it21_seq.len() as int) =~= it21_seq); lemma_fans_step(a2.states@, p20, i18, set@, *x20); }
@loop 20 post
    let ghost e20 = it20_seq;
    proof { assert(it20_seq.take(it20_seq.len() as int) =~= it20_seq); lemma_is_fan(a2.states@, it20_seq, ic, i18, f20@); }
@loop 19 pre
    let ghost s19 = choose|s: Set<usize>| enumerates(it19_seq, s) && is_fan(a2.states@, ic, i18, s);
    proof { assert(cut_row(it19_seq.take(0), acc19@, dd2)) by { reveal(cut_row); } }
@loop 19 inv
    enumerates(it19_seq, s19), is_fan(a2.states@, ic, i18, s19), cut_row(it19_seq.take(it19.pos()), acc19@, dd2),
@loop 19 beg
    let ghost c19 = acc19@;
    proof { lemma_take_push(it19_seq, it19.pos() as int); lemma_cut_push(it19_seq.take(it19.pos() - 1), c19, dd2, x19); }
@loop 19 post
    proof { assert(it19_seq.take(it19_seq.len() as int) =~= it19_seq); lemma_fan_row2(a2.states@, ic, i18, s19, it19_seq, dd2, acc19@); }
@loop 22 pre
    proof { assert forall|j: int| 0 <= j < it22_seq.len() implies #[trigger] it22_seq[j] < a2.n() by { reveal(enumerates); assert(ic.contains(it22_seq[j].kv())); } }
@loop 22 inv
    enumerates(it22_seq, ic), *self == a2, !r22 ==> forall|j: int| 0 <= j < it22.pos() ==> !a2.states@[(#[trigger] it22_seq[j]) as int].accepting, r22 ==> some_acc(a2.states@, it22_seq),
@loop 22 post
    let ghost e22 = it22_seq;
@let new_state
    proof {
        let e = choose|e: Seq<usize>| enumerates(e, ic) && new_state.accepting == some_acc(a2.states@, e);
        lemma_fan_state(a2.states@, ic, e, dead_states@, a1.alphabet@.len(), new_state);
        lemma_same_moves_sym(a1.states@, a2.states@);
        lemma_fan_same(a2.states@, a1.states@, ic, dead_states@, a1.alphabet@.len(), new_state);
        if nnamed(a1.states@, new_state.name@) { lemma_named_same(a1.states@, a2.states@, new_state.name@); }
    }
@call push
    proof {
        assert(self.states@.len() == self.states.len());
        assert(self.states@ =~= a1.states@.update(old_initial as int, self.states@[old_initial as int]).push(self.states@.last()));
        lemma_ready_new(&a1, self, ic, dead_states@, self.states@.last());
        lemma_dead_same(a2.states@, a1.states@, dead_states@);
    }
@loop 23 pre
    proof {
        dd = dead_states@;
        if self.n() == a1.n() { lemma_ready_old(&a1, ic, dd); }
        a2 = *self;
        assert(ready(&a1, &a2, ic, dd) && wf_but(a2.states@, a2.initial_state, dd) && dead_ok(a1.states@, dd));
    }
@loop 23 inv
    self.alphabet == a2.alphabet, self.initial_state == a2.initial_state, self.states@.len() == a2.states@.len(), dead_states@ == dd,
    forall|q: int| 0 <= q < j23 ==> cut_state(a2.states@[q], #[trigger] self.states@[q], dd),
    forall|q: int| j23 <= q < self.states@.len() ==> #[trigger] self.states@[q] == a2.states@[q],
@loop 23 beg
    let ghost s0 = a2.states@[j23 as int];
@loop 24 inv
    state.name == s0.name && state.initial == s0.initial && state.accepting == s0.accepting && state.transitions@.len() == s0.transitions@.len() && state.epsilon_transitions == s0.epsilon_transitions,
    forall|i: int| 0 <= i < j24 ==> cut_row(s0.transitions@[i]@, (#[trigger] state.transitions@[i])@, dd),
    forall|i: int| j24 <= i < s0.transitions@.len() ==> #[trigger] state.transitions@[i] == s0.transitions@[i],
@loop 24 beg
    let ghost t0 = s0.transitions@[j24 as int]@;
@loop 25 pre
    proof { assert(cut_row(it25_seq.take(0), transition@, dd)) by { reveal(cut_row); } }
@loop 25 inv
    it25_seq == t0, cut_row(it25_seq.take(it25.pos()), transition@, dd),
@loop 25 beg
    let ghost c25 = transition@;
    proof { lemma_take_push(it25_seq, it25.pos() as int); lemma_cut_push(it25_seq.take(it25.pos() - 1), c25, dd, x25); }
@loop 25 post
    proof { assert(it25_seq.take(it25_seq.len() as int) =~= it25_seq); }
@loop 23 post
    proof {
        a3 = *self;
        assert(cut_states(a2.states@, a3.states@, dd)) by { reveal(cut_states); }
        lemma_ready_cut(&a1, &a2, &a3, ic, dd);
    }
@loop 26 inv
    enumerates(it26_seq, dd), acc26@ == it26_seq.take(it26.pos()),
@loop 26 end
    proof { assert(acc26@ =~= it26_seq.take(it26.pos())); }
@loop 26 post
    proof {
        assert(acc26@ =~= it26_seq);
        gg = acc26@;
        assert(a3.states@.len() == a3.states.len());
        lemma_removable(&a1, &a3, ic, dd, gg);
        assert(removable(&a3, gg)); reveal(removable);
    }
@end
    proof {
        let k = choose|k: Seq<usize>| keeps(a3.n(), gg, k) && #[trigger] ncut(&a3, self, k);
        lemma_eps_removed(&a0, &a1, &a3, self, ic, d1, dd, gg, k);
    }
