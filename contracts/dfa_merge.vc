@raw
// ------------------------------------------------------------------ one state for each class
// m sends every state that goes to the one of its class that stays
pub open spec fn quot(d: &Dfa, m: Map<usize, usize>) -> bool {
    &&& forall|q: usize| #[trigger] m.contains_key(q) ==> q < d.states@.len() && m[q] < d.states@.len() && !m.contains_key(m[q]) && dsim(d, q, m[q])
    &&& forall|p: usize, q: usize| p < d.states@.len() && q < d.states@.len() && !m.contains_key(p) && !m.contains_key(q) && #[trigger] dsim(d, p, q) ==> p == q
}
pub open spec fn rep(m: Map<usize, usize>, q: usize) -> usize { if m.contains_key(q) { m[q] } else { q } }
pub open spec fn mrow(m: Map<usize, usize>, a: DfaState, b: DfaState) -> bool {
    b.name == a.name && b.accepting == a.accepting && b.transitions@.len() == a.transitions@.len()
        && forall|i: int| 0 <= i < a.transitions@.len() ==> #[trigger] b.transitions@[i] == rep(m, a.transitions@[i])
}
// all arrows redirected along m
pub open spec fn redirected(d: &Dfa, e: &Dfa, m: Map<usize, usize>) -> bool {
    &&& e.alphabet == d.alphabet && e.states@.len() == d.states@.len() && e.initial_state == rep(m, d.initial_state)
    &&& forall|q: int| 0 <= q < d.states@.len() ==> mrow(m, d.states@[q], #[trigger] e.states@[q])
    &&& d.wf() ==> forall|q: int| 0 <= q < d.states@.len() ==> (#[trigger] e.states@[q]).initial == (d.states@[q].initial || q == e.initial_state)
}
pub proof fn lemma_rep(d: &Dfa, m: Map<usize, usize>, q: usize)
    requires quot(d, m), q < d.states@.len(),
    ensures rep(m, q) < d.states@.len(), !m.contains_key(rep(m, q)), dsim(d, q, rep(m, q)),
{
}
pub proof fn lemma_redirected_core(d: &Dfa, e: &Dfa, m: Map<usize, usize>)
    requires d.core(), quot(d, m), redirected(d, e, m),
    ensures e.core(), !m.contains_key(e.initial_state),
        forall|q: usize, i: int| q < e.states@.len() && 0 <= i < e.states@[q as int].transitions@.len() ==> !m.contains_key(#[trigger] e.states@[q as int].transitions@[i]),
{
    lemma_rep(d, m, d.initial_state);
    assert forall|q: int| 0 <= q < e.states@.len() implies (#[trigger] e.states@[q]).transitions@.len() == e.alphabet@.len() by {
        assert(mrow(m, d.states@[q], e.states@[q]));
        assert(d.states@[q].transitions@.len() == d.alphabet@.len());
    }
    assert forall|q: int, i: int| 0 <= q < e.states@.len() && 0 <= i < e.alphabet@.len() implies #[trigger] e.states@[q].transitions@[i] < e.states@.len() by {
        assert(mrow(m, d.states@[q], e.states@[q]));
        assert(d.states@[q].transitions@.len() == d.alphabet@.len());
        assert(d.states@[q].transitions@[i] < d.states@.len());
        lemma_rep(d, m, d.states@[q].transitions@[i]);
    }
    assert forall|q: usize, i: int| q < e.states@.len() && 0 <= i < e.states@[q as int].transitions@.len() implies !m.contains_key(#[trigger] e.states@[q as int].transitions@[i]) by {
        assert(mrow(m, d.states@[q as int], e.states@[q as int]));
        assert(d.states@[q as int].transitions@.len() == d.alphabet@.len());
        assert(d.states@[q as int].transitions@[i] < d.states@.len());
        lemma_rep(d, m, d.states@[q as int].transitions@[i]);
    }
}
pub open spec fn paired(d: &Dfa, m: Map<usize, usize>, x: Option<usize>, y: Option<usize>) -> bool {
    match (x, y) { (Some(s), Some(t)) => s < d.states@.len() && t < d.states@.len() && dsim(d, s, t) && !m.contains_key(s), (None, None) => true, _ => false }
}
pub proof fn lemma_redirected_run(d: &Dfa, e: &Dfa, m: Map<usize, usize>, p: usize, q: usize, w: Word)
    requires d.core(), quot(d, m), redirected(d, e, m), p < d.states@.len(), q < d.states@.len(), dsim(d, p, q), !m.contains_key(p),
    ensures paired(d, m, drun(e, p, w), drun(d, q, w)), dacc_from(e, p, w) == dacc_from(d, q, w),
    decreases w.len(),
{
    if w.len() > 0 {
        let v = w.drop_last();
        lemma_redirected_run(d, e, m, p, q, v);
        if drun(d, q, v) is Some && has_sym(d.alphabet@, w.last()) {
            let s = drun(e, p, v).unwrap(); let t = drun(d, q, v).unwrap();
            let c = sym_idx(d.alphabet@, w.last());
            assert(0 <= c < d.alphabet@.len());
            assert(mrow(m, d.states@[s as int], e.states@[s as int]));
            assert(d.states@[s as int].transitions@.len() == d.alphabet@.len());
            assert(d.states@[s as int].transitions@[c] < d.states@.len());
            assert(d.states@[t as int].transitions@[c] < d.states@.len());
            lemma_rep(d, m, d.next(s, c));
            lemma_dsim_step(d, s, t, c);
            let s2 = e.next(s, c); let t2 = d.next(t, c);
            assert(s2 == rep(m, d.next(s, c)));
            lemma_dsim_trans(d, d.next(s, c), s2, t2);
        }
    }
    match (drun(e, p, w), drun(d, q, w)) {
        (Some(s), Some(t)) => {
            let z = Seq::<Seq<char>>::empty();
            assert(dacc_from(d, s, z) == dacc_from(d, t, z));
            assert(dacc_from(d, s, z) == d.acc(s) && dacc_from(d, t, z) == d.acc(t));
            assert(mrow(m, d.states@[s as int], e.states@[s as int]));
        },
        _ => {}
    }
}
pub proof fn lemma_dsim_trans(d: &Dfa, p: usize, q: usize, r: usize)
    requires dsim(d, p, q), dsim(d, p, r),
    ensures dsim(d, q, r),
{
    assert forall|w: Word| #[trigger] dacc_from(d, q, w) == dacc_from(d, r, w) by { assert(dacc_from(d, p, w) == dacc_from(d, q, w)); assert(dacc_from(d, p, w) == dacc_from(d, r, w)); }
}
// what merging states means
pub open spec fn dmerged(a: &Dfa, b: &Dfa) -> bool {
    &&& b.core() && (a.wf() ==> b.wf()) && b.alphabet == a.alphabet && b.states@.len() <= a.states@.len()
    &&& forall|w: Word| #[trigger] daccepts(b, w) == daccepts(a, w)
    &&& distinguished(b)
    &&& all_reachable(a) ==> all_reachable(b)
}
// any two states are told apart by some word
pub open spec fn distinguished(d: &Dfa) -> bool { forall|p: usize, q: usize| p < d.states@.len() && q < d.states@.len() && #[trigger] dsim(d, p, q) ==> p == q }
pub open spec fn all_reachable(d: &Dfa) -> bool { forall|q: usize| q < d.states@.len() ==> #[trigger] dreachable(d, q) }

pub proof fn lemma_merged(a: &Dfa, e: &Dfa, b: &Dfa, m: Map<usize, usize>, gone: Seq<usize>, k: Seq<usize>)
    requires a.core(), quot(a, m), redirected(a, e, m), dcut(e, b, k), keeps(e.states@.len(), gone, k), forall|q: usize| #[trigger] gone.contains(q) <==> m.contains_key(q),
    ensures dmerged(a, b),
{
    lemma_redirected_core(a, e, m);
    lemma_dcut_core(e, b, k);
    lemma_rep(a, m, a.initial_state);
    assert forall|i: int| 0 <= i < k.len() implies #[trigger] k[i] < a.states@.len() && !m.contains_key(k[i]) by { assert(k.contains(k[i])); assert(!gone.contains(k[i])); }
    assert(b.states@.len() <= a.states@.len()) by { if k.len() > 0 { lemma_increasing_ge(k, k.len() - 1); } }
    // the language
    assert forall|w: Word| #[trigger] daccepts(b, w) == daccepts(a, w) by {
        lemma_cut_acc(e, b, k, b.initial_state, w);
        lemma_dsim_sym(a, a.initial_state, e.initial_state);
        lemma_redirected_run(a, e, m, e.initial_state, a.initial_state, w);
    }
    // no two states alike
    assert forall|p: usize, q: usize| p < b.states@.len() && q < b.states@.len() && #[trigger] dsim(b, p, q) implies p == q by {
        let x = k[p as int]; let y = k[q as int];
        assert forall|w: Word| #[trigger] dacc_from(a, x, w) == dacc_from(a, y, w) by {
            assert(dacc_from(b, p, w) == dacc_from(b, q, w));
            lemma_cut_acc(e, b, k, p, w);
            lemma_cut_acc(e, b, k, q, w);
            lemma_redirected_run(a, e, m, x, x, w);
            lemma_redirected_run(a, e, m, y, y, w);
        }
        assert(dsim(a, x, y));
        if p < q { assert(k[p as int] < k[q as int]); }
        if q < p { assert(k[q as int] < k[p as int]); }
    }
    if all_reachable(a) {
        assert forall|q: usize| q < b.states@.len() implies #[trigger] dreachable(b, q) by {
            let x = k[q as int];
            assert(dreachable(a, x));
            let w = choose|w: Word| #[trigger] drun(a, a.initial_state, w) == Some(x);
            lemma_dsim_sym(a, a.initial_state, e.initial_state);
            lemma_redirected_run(a, e, m, e.initial_state, a.initial_state, w);
            let y = drun(e, e.initial_state, w).unwrap();
            assert(dsim(a, y, x));
            assert(y == x);
            lemma_dcut_run(e, b, k, w);
            let p = drun(b, b.initial_state, w).unwrap();
            if p < q { assert(k[p as int] < k[q as int]); }
            if q < p { assert(k[q as int] < k[p as int]); }
            assert(drun(b, b.initial_state, w) == Some(q));
        }
    }
    if a.wf() { lemma_merged_wf(a, e, b, m, k); }
}
pub proof fn lemma_dsim_sym(d: &Dfa, p: usize, q: usize)
    requires dsim(d, p, q),
    ensures dsim(d, q, p),
{
    assert forall|w: Word| #[trigger] dacc_from(d, q, w) == dacc_from(d, p, w) by { assert(dacc_from(d, p, w) == dacc_from(d, q, w)); }
}
pub proof fn lemma_cut_acc(e: &Dfa, b: &Dfa, k: Seq<usize>, p: usize, w: Word)
    requires e.core(), dcut(e, b, k), p < k.len(),
    ensures dacc_from(b, p, w) == dacc_from(e, k[p as int], w),
{
    lemma_dcut_run_from(e, b, k, p, w);
    match drun(b, p, w) { Some(q) => { assert(dstate_cut(e.states@[k[q as int] as int], b.states@[q as int], k)); }, None => {} }
}
pub proof fn lemma_merged_wf(a: &Dfa, e: &Dfa, b: &Dfa, m: Map<usize, usize>, k: Seq<usize>)
    requires a.wf(), quot(a, m), redirected(a, e, m), dcut(e, b, k), b.core(), forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] < a.states@.len() && !m.contains_key(k[i]),
    ensures b.wf(),
{
    assert forall|q: int| 0 <= q < b.states@.len() implies (#[trigger] b.states@[q]).initial == (q == b.initial_state) by {
        assert(dstate_cut(e.states@[k[q] as int], b.states@[q], k));
        assert(a.states@[k[q] as int].initial == (k[q] == a.initial_state));
        assert(!m.contains_key(k[q]));
        assert(e.states@[k[q] as int].initial == (k[q] == e.initial_state));
        if q < b.initial_state { assert(k[q] < k[b.initial_state as int]); }
        if q > b.initial_state { assert(k[b.initial_state as int] < k[q]); }
    }
    assert forall|p: int, q: int| 0 <= p < b.states@.len() && 0 <= q < b.states@.len() && p != q implies (#[trigger] b.states@[p]).name@ != (#[trigger] b.states@[q]).name@ by {
        assert(dstate_cut(e.states@[k[p] as int], b.states@[p], k));
        assert(dstate_cut(e.states@[k[q] as int], b.states@[q], k));
        assert(mrow(m, a.states@[k[p] as int], e.states@[k[p] as int]));
        assert(mrow(m, a.states@[k[q] as int], e.states@[k[q] as int]));
        if p < q { assert(k[p] < k[q]); } else { assert(k[q] < k[p]); }
        assert(a.states@[k[p] as int].name@ != a.states@[k[q] as int].name@);
    }
}
// the map made from the first reps.len() blocks
pub open spec fn mkeys(p: Blocks, reps: Seq<usize>, m: Map<usize, usize>) -> bool {
    &&& reps.len() <= p.len()
    &&& forall|i: int| 0 <= i < reps.len() ==> #[trigger] p[i].contains(reps[i])
    &&& forall|q: usize| #[trigger] m.contains_key(q) ==> exists|i: int| 0 <= i < reps.len() && (#[trigger] p[i]).contains(q) && q != reps[i] && m[q] == reps[i]
    &&& forall|i: int, q: usize| 0 <= i < reps.len() && #[trigger] p[i].contains(q) && q != reps[i] ==> m.contains_key(q)
}
// the elements of s from the second on go to the first
pub open spec fn mfill(m0: Map<usize, usize>, s: Seq<usize>, k: int, m: Map<usize, usize>) -> bool {
    &&& forall|q: usize| #[trigger] m.contains_key(q) <==> m0.contains_key(q) || in_rest(s, k, q)
    &&& forall|q: usize| #[trigger] m.contains_key(q) ==> m[q] == (if in_rest(s, k, q) { s[0] } else { m0[q] })
}
pub open spec fn in_rest(s: Seq<usize>, k: int, q: usize) -> bool { exists|j: int| 1 <= j < k && #[trigger] s[j] == q }
pub proof fn lemma_mfill_start(m: Map<usize, usize>, s: Seq<usize>)
    ensures mfill(m, s, 1, m),
{
}
pub proof fn lemma_mfill_step(m0: Map<usize, usize>, s: Seq<usize>, k: int, m: Map<usize, usize>)
    requires mfill(m0, s, k - 1, m), 1 < k <= s.len(),
    ensures mfill(m0, s, k, m.insert(s[k - 1], s[0])),
{
    assert forall|q: usize| #[trigger] in_rest(s, k, q) <==> in_rest(s, k - 1, q) || q == s[k - 1] by {
        if in_rest(s, k - 1, q) { let j = choose|j: int| 1 <= j < k - 1 && #[trigger] s[j] == q; assert(s[j] == q); }
        if in_rest(s, k, q) { let j = choose|j: int| 1 <= j < k && #[trigger] s[j] == q; if j < k - 1 { assert(s[j] == q); } }
    }
    let m2 = m.insert(s[k - 1], s[0]);
    assert forall|q: usize| #[trigger] m2.contains_key(q) <==> m0.contains_key(q) || in_rest(s, k, q) by { assert(m.contains_key(q) <==> m0.contains_key(q) || in_rest(s, k - 1, q)); assert(in_rest(s, k, q) <==> in_rest(s, k - 1, q) || q == s[k - 1]); }
    assert forall|q: usize| #[trigger] m2.contains_key(q) implies m2[q] == (if in_rest(s, k, q) { s[0] } else { m0[q] }) by { assert(in_rest(s, k, q) <==> in_rest(s, k - 1, q) || q == s[k - 1]); if q != s[k - 1] { assert(m.contains_key(q)); } }
}
pub proof fn lemma_mkeys_step(n: nat, p: Blocks, reps: Seq<usize>, m0: Map<usize, usize>, s: Seq<usize>, m: Map<usize, usize>)
    requires parts(n, p), mkeys(p, reps, m0), reps.len() < p.len(), enumerates(s, p[reps.len() as int]), s.len() > 0, mfill(m0, s, s.len() as int, m),
    ensures mkeys(p, reps.push(s[0]), m),
{
    let r = reps.len() as int;
    let reps2 = reps.push(s[0]);
    assert(p[r].contains(s[0].kv()));
    assert forall|q: usize| #[trigger] m.contains_key(q) implies exists|i: int| 0 <= i < reps2.len() && (#[trigger] p[i]).contains(q) && q != reps2[i] && m[q] == reps2[i] by {
        if in_rest(s, s.len() as int, q) {
            let j = choose|j: int| 1 <= j < s.len() && #[trigger] s[j] == q;
            assert(p[r].contains(s[j].kv()));
            assert(s[j].kv() != s[0].kv());
            assert(reps2[r] == s[0]);
        } else {
            assert(m0.contains_key(q));
            let i = choose|i: int| 0 <= i < reps.len() && (#[trigger] p[i]).contains(q) && q != reps[i] && m0[q] == reps[i];
            assert(reps2[i] == reps[i]);
        }
    }
    assert forall|i: int, q: usize| 0 <= i < reps2.len() && #[trigger] p[i].contains(q) && q != reps2[i] implies m.contains_key(q) by {
        if i < r { assert(m0.contains_key(q)); } else {
            let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).kv() == q;
            assert(j != 0);
            assert(s[j] == q);
            assert(in_rest(s, s.len() as int, q));
        }
    }
    assert forall|i: int| 0 <= i < reps2.len() implies #[trigger] p[i].contains(reps2[i]) by { if i < r { assert(p[i].contains(reps[i])); } }
}
pub proof fn lemma_quot(d: &Dfa, p: Blocks, reps: Seq<usize>, m: Map<usize, usize>)
    requires classes(d, p), mkeys(p, reps, m), reps.len() == p.len(),
    ensures quot(d, m),
{
    let n = d.states@.len();
    assert forall|q: usize| #[trigger] m.contains_key(q) implies q < n && m[q] < n && !m.contains_key(m[q]) && dsim(d, q, m[q]) by {
        let i = choose|i: int| 0 <= i < reps.len() && (#[trigger] p[i]).contains(q) && q != reps[i] && m[q] == reps[i];
        assert(p[i].contains(reps[i]));
        assert(bcover(p, q) && bcover(p, m[q]));
        assert(sameb(p, q, m[q]));
        if m.contains_key(m[q]) {
            let j = choose|j: int| 0 <= j < reps.len() && (#[trigger] p[j]).contains(m[q]) && m[q] != reps[j] && m[m[q]] == reps[j];
            assert(p[j].contains(m[q]) && p[i].contains(m[q]));
        }
    }
    assert forall|x: usize, y: usize| x < n && y < n && !m.contains_key(x) && !m.contains_key(y) && #[trigger] dsim(d, x, y) implies x == y by {
        assert(sameb(p, x, y));
        let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).contains(x) && p[i].contains(y);
        assert(p[i].contains(x) && p[i].contains(y));
    }
}
pub proof fn lemma_block_nonempty(n: nat, p: Blocks, i: int)
    requires parts(n, p), 0 <= i < p.len(),
    ensures p[i] != Set::<usize>::empty(), forall|s: Seq<usize>| #[trigger] enumerates(s, p[i]) ==> s.len() > 0,
{
    assert(bnonempty(p[i]));
    let q = choose|q: usize| #[trigger] p[i].contains(q);
    assert forall|s: Seq<usize>| #[trigger] enumerates(s, p[i]) implies s.len() > 0 by { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).kv() == q; }
}

pub proof fn lemma_gone(d: &Dfa, e: &Dfa, m: Map<usize, usize>, g: Seq<usize>)
    requires d.core(), quot(d, m), redirected(d, e, m), enumerates(g, m.dom()),
    ensures g.no_duplicates(), !g.contains(e.initial_state), all_lt(g, e.states@.len()), cut_off(e.states@, g), forall|q: usize| #[trigger] g.contains(q) <==> m.contains_key(q),
{
    lemma_redirected_core(d, e, m);
    assert forall|q: usize| #[trigger] g.contains(q) <==> m.contains_key(q) by { lemma_enum(g, m.dom(), q); assert(m.dom().contains(q) <==> m.contains_key(q)); }
    assert forall|j: int| 0 <= j < g.len() implies #[trigger] g[j] < e.states@.len() by { assert(g.contains(g[j])); assert(m.contains_key(g[j])); }
    assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && i != j implies g[i] != g[j] by { assert(g[i].kv() != g[j].kv()); }
}
@fn dandy/src/dfa/mod.rs Dfa::merge_nondistinguishable_states
@hide classes parts mkeys mfill quot redirected enumerates dmerged dcut keeps
@closure 1 idx: usize| -> (m: Option<usize>)
    ensures m == (if mapper@.contains_key(idx) { Some(mapper@[idx]) } else { None })
@sig
    requires old(self).core(),
    ensures dmerged(old(self), final(self)),
@start
    let ghost mut m: Map<usize, usize> = Map::empty();
    let ghost mut e = *self;
    let ghost d = *self;
    let ghost n = self.states@.len();
    let ghost mut reps: Seq<usize> = seq![];
    let ghost mut m0: Map<usize, usize> = Map::empty();
@acc 1 HMap<usize, usize>
@loop 1 pre
    let ghost p = vs(it1_seq);
    proof {
        assert(parts(n, p)) by { reveal(classes); }
        assert(mkeys(p, reps, Map::<usize, usize>::empty())) by { reveal(mkeys); }
    }
@loop 1 inv
    self == old(self), mkeys(p, reps, acc1@), reps.len() == it1.pos(),
@loop 1 beg
    proof { m0 = acc1@; lemma_block_nonempty(n, p, it1.pos() - 1); assert(p[it1.pos() - 1] == x1@); }
@loop 2 pre
    proof { lemma_mfill_start(m0, it2_seq); }
@loop 2 inv
    1 <= it2.pos(), mfill(m0, it2_seq, it2.pos(), acc1@),
@loop 2 beg
    let ghost ma = acc1@;
@loop 2 end
    proof { lemma_mfill_step(m0, it2_seq, it2.pos(), ma); }
@loop 2 post
    proof {
        lemma_mkeys_step(n, p, reps, m0, it2_seq, acc1@);
        reps = reps.push(it2_seq[0]);
    }
@loop 1 post
    proof { lemma_quot(self, p, reps, acc1@); }
@let map
    proof { assert(callable(map, self.states@)); }
@call remap_transitions
    let ghost s1 = self.states@;
    proof {
        assert forall|q: int| 0 <= q < n implies mrow(mapper@, d.states@[q], #[trigger] s1[q]) && s1[q].initial == d.states@[q].initial by {
            assert(remap_state(map, d.states@[q], s1[q]));
            assert forall|i: int| 0 <= i < d.states@[q].transitions@.len() implies #[trigger] s1[q].transitions@[i] == rep(mapper@, d.states@[q].transitions@[i]) by { assert(remap1(map, d.states@[q].transitions@[i], s1[q].transitions@[i])); }
        }
        lemma_rep(&d, mapper@, d.initial_state);
    }
@loop 3 pre
    proof {
        m = mapper@;
        e = *self;
        assert(redirected(&d, &e, m)) by { reveal(redirected); }
        lemma_redirected_core(&d, &e, m);
    }
@acc 3 Vec<usize>
@loop 3 inv
    acc3@ == it3_seq.take(it3.pos()),
@loop 3 end
    proof { lemma_take_push(it3_seq, it3.pos()); }
@loop 3 post
    proof {
        assert(it3_seq.take(it3_seq.len() as int) =~= it3_seq);
        lemma_gone(&d, &e, m, acc3@);
    }
@let to_remove
    let ghost gone = to_remove@;
@end
    proof {
        let k = choose|k: Seq<usize>| keeps(n, gone, k) && #[trigger] dcut(&e, self, k);
        lemma_merged(&d, &e, self, m, gone, k);
    }
