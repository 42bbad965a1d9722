@raw
// ------------------------------------------------------------------ states that no word tells apart
pub open spec fn dsim(d: &Dfa, p: usize, q: usize) -> bool { forall|w: Word| #[trigger] dacc_from(d, p, w) == dacc_from(d, q, w) }
pub proof fn lemma_drun_cons(d: &Dfa, q: usize, c: Seq<char>, w: Word)
    ensures drun(d, q, seq![c] + w) == drun_opt(d, dstep(d, q, c), w),
    decreases w.len(),
{
    let v = seq![c] + w;
    if w.len() == 0 {
        assert(v.drop_last() =~= Seq::<Seq<char>>::empty());
        assert(v.last() == c);
        assert(drun(d, q, v.drop_last()) == Some(q));
    } else {
        assert(v.drop_last() =~= seq![c] + w.drop_last());
        assert(v.last() == w.last());
        lemma_drun_cons(d, q, c, w.drop_last());
    }
}
pub proof fn lemma_dsim_step(d: &Dfa, p: usize, q: usize, c: int)
    requires d.core(), dsim(d, p, q), 0 <= c < d.alphabet@.len(),
    ensures dsim(d, d.next(p, c), d.next(q, c)),
{
    let s = d.alphabet@[c]@;
    lemma_sym_idx(d.alphabet@, c);
    assert forall|w: Word| #[trigger] dacc_from(d, d.next(p, c), w) == dacc_from(d, d.next(q, c), w) by {
        lemma_drun_cons(d, p, s, w);
        lemma_drun_cons(d, q, s, w);
        assert(dacc_from(d, p, seq![s] + w) == dacc_from(d, q, seq![s] + w));
    }
}
// ------------------------------------------------------------------ blocks of states
pub type Blocks = Seq<Set<usize>>;
pub open spec fn vs(p: Seq<HSet<usize>>) -> Blocks { p.map_values(|b: HSet<usize>| b@) }
pub open spec fn bcover(p: Blocks, q: usize) -> bool { exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).contains(q) }
// nonempty disjoint blocks that make up 0..n
pub open spec fn parts(n: nat, p: Blocks) -> bool {
    &&& forall|i: int| 0 <= i < p.len() ==> bnonempty(#[trigger] p[i])
    &&& forall|i: int, j: int, q: usize| 0 <= i < p.len() && 0 <= j < p.len() && #[trigger] p[i].contains(q) && #[trigger] p[j].contains(q) ==> i == j
    &&& forall|q: usize| #[trigger] bcover(p, q) <==> q < n
}
pub open spec fn bnonempty(b: Set<usize>) -> bool { exists|q: usize| #[trigger] b.contains(q) }
pub open spec fn sameb(p: Blocks, x: usize, y: usize) -> bool { exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).contains(x) && p[i].contains(y) }
pub open spec fn sepby(w: Blocks, x: usize, y: usize) -> bool { exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).contains(x) != w[i].contains(y) }
// b does not separate states that no word tells apart
pub open spec fn satur(d: &Dfa, b: Set<usize>) -> bool { forall|p: usize, q: usize| p < d.states@.len() && q < d.states@.len() && #[trigger] dsim(d, p, q) ==> b.contains(p) == b.contains(q) }
pub open spec fn saturs(d: &Dfa, p: Blocks) -> bool { forall|i: int| 0 <= i < p.len() ==> satur(d, #[trigger] p[i]) }
pub open spec fn acc_uni(d: &Dfa, p: Blocks) -> bool { forall|x: usize, y: usize| x < d.states@.len() && y < d.states@.len() && #[trigger] sameb(p, x, y) ==> d.acc(x) == d.acc(y) }
// states of one block whose successors are in different blocks are still to be separated:
// by an element of w, or (for the letters from k on) by a
pub open spec fn hop1(d: &Dfa, p: Blocks, w: Blocks, a: Set<usize>, k: int, x: usize, y: usize, c: int) -> bool {
    sameb(p, x, y) ==> sameb(p, d.next(x, c), d.next(y, c)) || sepby(w, d.next(x, c), d.next(y, c)) || (c >= k && a.contains(d.next(x, c)) != a.contains(d.next(y, c)))
}
pub open spec fn hop(d: &Dfa, p: Blocks, w: Blocks, a: Set<usize>, k: int) -> bool {
    forall|x: usize, y: usize, c: int| x < d.states@.len() && y < d.states@.len() && 0 <= c < d.alphabet@.len() ==> #[trigger] hop1(d, p, w, a, k, x, y, c)
}
// the states that go into a by letter c
pub open spec fn preimg(d: &Dfa, a: Set<usize>, c: int, x: Set<usize>) -> bool { forall|q: usize| #[trigger] x.contains(q) <==> q < d.states@.len() && a.contains(d.next(q, c)) }
// b is inside x or outside of it
pub open spec fn uni(b: Set<usize>, x: Set<usize>) -> bool { forall|p: usize, q: usize| #[trigger] b.contains(p) && #[trigger] b.contains(q) ==> x.contains(p) == x.contains(q) }
pub open spec fn unis(p: Blocks, x: Set<usize>) -> bool { forall|i: int| 0 <= i < p.len() ==> uni(#[trigger] p[i], x) }
// block y replaced by m, which splits it along x
pub open spec fn split_of(m: Blocks, y: Set<usize>, x: Set<usize>) -> bool {
    &&& forall|i: int| 0 <= i < m.len() ==> bnonempty(#[trigger] m[i])
    &&& forall|q: usize| #[trigger] bcover(m, q) <==> y.contains(q)
    &&& forall|i: int, j: int, p: usize, q: usize| 0 <= i < m.len() && 0 <= j < m.len() && #[trigger] m[i].contains(p) && #[trigger] m[j].contains(q) ==> ((i == j) <==> (x.contains(p) == x.contains(q)))
}
pub proof fn lemma_cat_at(a: Blocks, b: Blocks, c: Blocks, i: int)
    requires 0 <= i < a.len() + b.len() + c.len(),
    ensures (a + b + c).len() == a.len() + b.len() + c.len(),
        (a + b + c)[i] == (if i < a.len() { a[i] } else if i < a.len() + b.len() { b[i - a.len()] } else { c[i - a.len() - b.len()] }),
{
}
pub open spec fn blk(a: Blocks, b: Blocks, c: Blocks, i: int) -> Set<usize> { if i < a.len() { a[i] } else if i < a.len() + b.len() { b[i - a.len()] } else { c[i - a.len() - b.len()] } }
// the block of the unsplit partition that block i of the split one comes from
pub open spec fn blk_from(a: Blocks, m: Blocks, i: int) -> int { if i < a.len() { i } else if i < a.len() + m.len() { a.len() as int } else { i - m.len() + 1 } }
pub proof fn lemma_split(n: nat, a: Blocks, y: Set<usize>, m: Blocks, c: Blocks, x: Set<usize>)
    requires parts(n, a + seq![y] + c), split_of(m, y, x),
    ensures parts(n, a + m + c),
        forall|p: usize, q: usize| #[trigger] sameb(a + m + c, p, q) <==> sameb(a + seq![y] + c, p, q) && (y.contains(p) ==> x.contains(p) == x.contains(q)),
{
    let s = a + seq![y] + c;
    let t = a + m + c;
    assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == blk(a, m, c, i));
    assert forall|i: int, q: usize| 0 <= i < t.len() && #[trigger] t[i].contains(q) implies 0 <= blk_from(a, m, i) < s.len() && s[blk_from(a, m, i)].contains(q) by {
        if a.len() <= i < a.len() + m.len() { assert(m[i - a.len()].contains(q)); assert(bcover(m, q)); }
    }
    assert forall|j: int, q: usize| 0 <= j < s.len() && #[trigger] s[j].contains(q) implies exists|i: int| 0 <= i < t.len() && blk_from(a, m, i) == j && (#[trigger] t[i]).contains(q) by {
        if j < a.len() { assert(t[j] == s[j]); assert(blk_from(a, m, j) == j); }
        else if j == a.len() {
            assert(bcover(m, q));
            let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).contains(q);
            assert(t[a.len() + i] == m[i]);
            assert(blk_from(a, m, a.len() + i) == j);
        } else {
            assert(t[j + m.len() - 1] == s[j]);
            assert(blk_from(a, m, j + m.len() - 1) == j);
        }
    }
    assert forall|i: int| 0 <= i < t.len() implies bnonempty(#[trigger] t[i]) by {
        if i < a.len() { assert(s[i] == t[i]); } else if i < a.len() + m.len() { assert(m[i - a.len()] == t[i]); } else { assert(s[i - m.len() + 1] == t[i]); }
    }
    assert forall|i: int, j: int, q: usize| 0 <= i < t.len() && 0 <= j < t.len() && #[trigger] t[i].contains(q) && #[trigger] t[j].contains(q) implies i == j by {
        let i0 = blk_from(a, m, i); let j0 = blk_from(a, m, j);
        assert(s[i0].contains(q) && s[j0].contains(q));
        assert(i0 == j0);
        if i0 == a.len() { assert(m[i - a.len()].contains(q) && m[j - a.len()].contains(q)); }
    }
    assert forall|q: usize| #[trigger] bcover(t, q) <==> q < n by {
        assert(bcover(s, q) <==> q < n);
        if bcover(t, q) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).contains(q); assert(s[blk_from(a, m, i)].contains(q)); }
        if bcover(s, q) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).contains(q); }
    }
    assert forall|p: usize, q: usize| #[trigger] sameb(t, p, q) <==> sameb(s, p, q) && (y.contains(p) ==> x.contains(p) == x.contains(q)) by {
        assert(s[a.len() as int] == y);
        if sameb(t, p, q) {
            let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).contains(p) && t[i].contains(q);
            let i0 = blk_from(a, m, i);
            assert(s[i0].contains(p) && s[i0].contains(q));
            if y.contains(p) {
                assert(s[a.len() as int].contains(p));
                assert(i0 == a.len());
                assert(m[i - a.len()].contains(p) && m[i - a.len()].contains(q));
            }
        }
        if sameb(s, p, q) && (y.contains(p) ==> x.contains(p) == x.contains(q)) {
            let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).contains(p) && s[j].contains(q);
            if j < a.len() { assert(t[j] == s[j]); }
            else if j > a.len() { assert(t[j + m.len() - 1] == s[j]); }
            else {
                assert(bcover(m, p) && bcover(m, q));
                let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).contains(p);
                let k = choose|k: int| 0 <= k < m.len() && (#[trigger] m[k]).contains(q);
                assert(m[i].contains(p) && m[k].contains(q));
                assert(t[a.len() + i] == m[i]);
            }
        }
    }
}
// what the worklist has to gain when block y is split along x
pub open spec fn wgain(w: Blocks, v: Blocks, y: Set<usize>, x: Set<usize>) -> bool {
    &&& forall|p: usize, q: usize| #[trigger] sepby(w, p, q) ==> sepby(v, p, q)
    &&& forall|p: usize, q: usize| y.contains(p) && y.contains(q) && x.contains(p) != x.contains(q) ==> #[trigger] sepby(v, p, q)
}
pub proof fn lemma_hop_split(d: &Dfa, p: Blocks, p2: Blocks, w: Blocks, w2: Blocks, a: Set<usize>, k: int, y: Set<usize>, x: Set<usize>)
    requires d.core(), hop(d, p, w, a, k), wgain(w, w2, y, x), parts(d.states@.len(), p), p.contains(y),
        forall|s: usize, t: usize| #[trigger] sameb(p2, s, t) <==> sameb(p, s, t) && (y.contains(s) ==> x.contains(s) == x.contains(t)),
    ensures hop(d, p2, w2, a, k),
{
    assert forall|s: usize, t: usize, c: int| s < d.states@.len() && t < d.states@.len() && 0 <= c < d.alphabet@.len() implies #[trigger] hop1(d, p2, w2, a, k, s, t, c) by {
        assert(hop1(d, p, w, a, k, s, t, c));
        let s2 = d.next(s, c); let t2 = d.next(t, c);
        if sameb(p2, s, t) {
            if sameb(p, s2, t2) && !sameb(p2, s2, t2) {
                let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).contains(s2) && p[i].contains(t2);
                let j = choose|j: int| 0 <= j < p.len() && p[j] == y;
                assert(p[j].contains(s2));
                assert(i == j);
                assert(sepby(w2, s2, t2));
            }
        }
    }
}
pub proof fn lemma_hop_letter(d: &Dfa, p: Blocks, w: Blocks, a: Set<usize>, k: int, x: Set<usize>)
    requires d.core(), hop(d, p, w, a, k), unis(p, x), preimg(d, a, k, x),
    ensures hop(d, p, w, a, k + 1),
{
    assert forall|s: usize, t: usize, c: int| s < d.states@.len() && t < d.states@.len() && 0 <= c < d.alphabet@.len() implies #[trigger] hop1(d, p, w, a, k + 1, s, t, c) by {
        assert(hop1(d, p, w, a, k, s, t, c));
        if sameb(p, s, t) && c == k {
            let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).contains(s) && p[i].contains(t);
            assert(uni(p[i], x));
            assert(x.contains(s) == x.contains(t));
        }
    }
}
// taking a out of the worklist
pub proof fn lemma_hop_pop(d: &Dfa, p: Blocks, w: Blocks, a0: Set<usize>)
    requires hop(d, p, w, a0, d.alphabet@.len() as int), w.len() > 0,
    ensures hop(d, p, w.drop_last(), w.last(), 0),
{
    let v = w.drop_last();
    assert forall|s: usize, t: usize, c: int| s < d.states@.len() && t < d.states@.len() && 0 <= c < d.alphabet@.len() implies #[trigger] hop1(d, p, v, w.last(), 0, s, t, c) by {
        assert(hop1(d, p, w, a0, d.alphabet@.len() as int, s, t, c));
        let s2 = d.next(s, c); let t2 = d.next(t, c);
        if sepby(w, s2, t2) {
            let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).contains(s2) != w[i].contains(t2);
            if i < v.len() { assert(v[i] == w[i]); assert(sepby(v, s2, t2)); }
        }
    }
}
// with the initial two blocks in the worklist everything is still to be separated
pub proof fn lemma_hop_init(d: &Dfa, p: Blocks, a: Set<usize>)
    requires d.core(), parts(d.states@.len(), p),
    ensures hop(d, p, p, a, d.alphabet@.len() as int),
{
    assert forall|s: usize, t: usize, c: int| s < d.states@.len() && t < d.states@.len() && 0 <= c < d.alphabet@.len() implies #[trigger] hop1(d, p, p, a, d.alphabet@.len() as int, s, t, c) by {
        let s2 = d.next(s, c); let t2 = d.next(t, c);
        assert(d.states@[s as int].transitions@[c] < d.states@.len());
        assert(bcover(p, s2));
        let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).contains(s2);
        if !p[i].contains(t2) { assert(sepby(p, s2, t2)); } else { assert(sameb(p, s2, t2)); }
    }
}
// the result: the blocks are the classes of states that no word tells apart
pub open spec fn classes(d: &Dfa, p: Blocks) -> bool {
    &&& parts(d.states@.len(), p)
    &&& forall|x: usize, y: usize| x < d.states@.len() && y < d.states@.len() ==> (#[trigger] sameb(p, x, y) <==> dsim(d, x, y))
}
pub proof fn lemma_sameb_run(d: &Dfa, p: Blocks, a: Set<usize>, x: usize, y: usize, w: Word)
    requires d.core(), parts(d.states@.len(), p), hop(d, p, Seq::<Set<usize>>::empty(), a, d.alphabet@.len() as int), x < d.states@.len(), y < d.states@.len(), sameb(p, x, y),
    ensures match (drun(d, x, w), drun(d, y, w)) { (Some(s), Some(t)) => s < d.states@.len() && t < d.states@.len() && sameb(p, s, t), (None, None) => true, _ => false },
    decreases w.len(),
{
    lemma_drun_in(d, x, w);
    lemma_drun_in(d, y, w);
    if w.len() > 0 {
        let v = w.drop_last();
        lemma_sameb_run(d, p, a, x, y, v);
        if drun(d, x, v) is Some && has_sym(d.alphabet@, w.last()) {
            let s = drun(d, x, v).unwrap(); let t = drun(d, y, v).unwrap();
            let c = sym_idx(d.alphabet@, w.last());
            assert(0 <= c < d.alphabet@.len());
            assert(hop1(d, p, Seq::<Set<usize>>::empty(), a, d.alphabet@.len() as int, s, t, c));
        }
    }
}
pub proof fn lemma_hop_done(d: &Dfa, p: Blocks, a: Set<usize>)
    requires d.core(), parts(d.states@.len(), p), saturs(d, p), acc_uni(d, p), hop(d, p, Seq::<Set<usize>>::empty(), a, d.alphabet@.len() as int),
    ensures classes(d, p),
{
    let n = d.states@.len();
    assert forall|x: usize, y: usize| x < n && y < n implies (#[trigger] sameb(p, x, y) <==> dsim(d, x, y)) by {
        if sameb(p, x, y) {
            assert forall|w: Word| #[trigger] dacc_from(d, x, w) == dacc_from(d, y, w) by { lemma_sameb_run(d, p, a, x, y, w); }
        }
        if dsim(d, x, y) {
            assert(bcover(p, x));
            let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).contains(x);
            assert(satur(d, p[i]));
        }
    }
}
// one block with everything in it, all of it accepting or all of it not
pub proof fn lemma_one_class(d: &Dfa, p: Blocks)
    requires d.core(), p.len() == 1, forall|q: usize| #[trigger] p[0].contains(q) <==> q < d.states@.len(),
        forall|x: usize, y: usize| x < d.states@.len() && y < d.states@.len() ==> #[trigger] d.acc(x) == #[trigger] d.acc(y),
    ensures classes(d, p),
{
    let a = Set::<usize>::empty();
    assert(p[0].contains(d.initial_state));
    assert forall|q: usize| #[trigger] bcover(p, q) <==> q < d.states@.len() by { if q < d.states@.len() { assert(p[0].contains(q)); } }
    assert(satur(d, p[0]));
    assert forall|s: usize, t: usize, c: int| s < d.states@.len() && t < d.states@.len() && 0 <= c < d.alphabet@.len() implies #[trigger] hop1(d, p, Seq::<Set<usize>>::empty(), a, d.alphabet@.len() as int, s, t, c) by {
        assert(d.states@[s as int].transitions@[c] < d.states@.len());
        assert(d.states@[t as int].transitions@[c] < d.states@.len());
        assert(p[0].contains(d.next(s, c)) && p[0].contains(d.next(t, c)));
    }
    lemma_hop_done(d, p, a);
}
// the accepting and the other states
pub proof fn lemma_two_blocks(d: &Dfa, p: Blocks)
    requires d.core(), p.len() == 2, bnonempty(p[0]), bnonempty(p[1]),
        forall|q: usize| #[trigger] p[0].contains(q) <==> q < d.states@.len() && d.acc(q),
        forall|q: usize| #[trigger] p[1].contains(q) <==> q < d.states@.len() && !d.acc(q),
    ensures parts(d.states@.len(), p), saturs(d, p), acc_uni(d, p),
{
    assert forall|q: usize| #[trigger] bcover(p, q) <==> q < d.states@.len() by { if q < d.states@.len() { if d.acc(q) { assert(p[0].contains(q)); } else { assert(p[1].contains(q)); } } }
    assert forall|i: int| 0 <= i < p.len() implies satur(d, #[trigger] p[i]) by {
        assert forall|x: usize, y: usize| x < d.states@.len() && y < d.states@.len() && #[trigger] dsim(d, x, y) implies p[i].contains(x) == p[i].contains(y) by {
            let e = Seq::<Seq<char>>::empty();
            assert(dacc_from(d, x, e) == dacc_from(d, y, e));
            assert(dacc_from(d, x, e) == d.acc(x));
            assert(dacc_from(d, y, e) == d.acc(y));
        }
    }
}
pub proof fn lemma_preimg_satur(d: &Dfa, a: Set<usize>, c: int, x: Set<usize>)
    requires d.core(), satur(d, a), preimg(d, a, c, x), 0 <= c < d.alphabet@.len(),
    ensures satur(d, x),
{
    assert forall|p: usize, q: usize| p < d.states@.len() && q < d.states@.len() && #[trigger] dsim(d, p, q) implies x.contains(p) == x.contains(q) by {
        lemma_dsim_step(d, p, q, c);
        assert(d.states@[p as int].transitions@[c] < d.states@.len());
        assert(d.states@[q as int].transitions@[c] < d.states@.len());
    }
}
// there are at most n blocks
pub proof fn lemma_parts_len(n: nat, p: Blocks)
    requires parts(n, p), n <= usize::MAX,
    ensures p.len() <= n,
{
    let reps = Seq::new(p.len(), |i: int| choose|q: usize| #[trigger] p[i].contains(q));
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] reps[i] < n && p[i].contains(reps[i]) by { assert(bnonempty(p[i])); assert(p[i].contains(reps[i])); assert(bcover(p, reps[i])); }
    assert(reps.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < reps.len() && 0 <= j < reps.len() && i != j implies reps[i] != reps[j] by { assert(p[i].contains(reps[i])); assert(p[j].contains(reps[j])); }
    }
    assert(all_lt(reps, n));
    lemma_nodup_len(n, reps);
}
pub proof fn lemma_nodup_len(n: nat, s: Seq<usize>)
    requires s.no_duplicates(), all_lt(s, n), n <= usize::MAX,
    ensures s.len() <= n,
{
    let all = ids(n);
    assert(all.no_duplicates());
    s.unique_seq_to_set();
    all.unique_seq_to_set();
    assert(s.to_set().subset_of(all.to_set())) by {
        assert forall|q: usize| s.to_set().contains(q) implies all.to_set().contains(q) by {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == q;
            assert(s[i] < n);
            assert(all[q as int] == q);
        }
    }
    vstd::set_lib::lemma_len_subset(s.to_set(), all.to_set());
}
// the state of the refinement: a is the set being processed, from letter k on
pub open spec fn hstate(d: &Dfa, p: Blocks, w: Blocks, a: Set<usize>, k: int) -> bool {
    parts(d.states@.len(), p) && saturs(d, p) && saturs(d, w) && satur(d, a) && acc_uni(d, p) && hop(d, p, w, a, k)
}
pub proof fn lemma_hstate_init(d: &Dfa, p: Blocks)
    requires d.core(), p.len() == 2, bnonempty(p[0]), bnonempty(p[1]),
        forall|q: usize| #[trigger] p[0].contains(q) <==> q < d.states@.len() && d.acc(q),
        forall|q: usize| #[trigger] p[1].contains(q) <==> q < d.states@.len() && !d.acc(q),
    ensures hstate(d, p, p, Set::<usize>::empty(), d.alphabet@.len() as int),
{
    lemma_two_blocks(d, p);
    lemma_hop_init(d, p, Set::<usize>::empty());
}
pub proof fn lemma_hstate_pop(d: &Dfa, p: Blocks, w: Blocks, a0: Set<usize>)
    requires hstate(d, p, w, a0, d.alphabet@.len() as int), w.len() > 0,
    ensures hstate(d, p, w.drop_last(), w.last(), 0),
{
    lemma_hop_pop(d, p, w, a0);
    assert(satur(d, w[w.len() - 1]));
    assert forall|i: int| 0 <= i < w.drop_last().len() implies satur(d, #[trigger] w.drop_last()[i]) by { assert(satur(d, w[i])); }
}
pub proof fn lemma_hstate_done(d: &Dfa, p: Blocks, w: Blocks, a: Set<usize>)
    requires d.core(), hstate(d, p, w, a, d.alphabet@.len() as int), w.len() == 0,
    ensures classes(d, p),
{
    assert(w =~= Seq::<Set<usize>>::empty());
    lemma_hop_done(d, p, a);
}
pub proof fn lemma_hstate_letter(d: &Dfa, p: Blocks, w: Blocks, a: Set<usize>, k: int, x: Set<usize>)
    requires d.core(), hstate(d, p, w, a, k), unis(p, x), preimg(d, a, k, x),
    ensures hstate(d, p, w, a, k + 1),
{
    lemma_hop_letter(d, p, w, a, k, x);
}
pub proof fn lemma_hstate_x(d: &Dfa, p: Blocks, w: Blocks, a: Set<usize>, k: int, x: Set<usize>)
    requires d.core(), hstate(d, p, w, a, k), preimg(d, a, k, x), 0 <= k < d.alphabet@.len(),
    ensures satur(d, x),
{
    lemma_preimg_satur(d, a, k, x);
}
// p2 is p with one block y replaced by m
pub proof fn lemma_hstate_split(d: &Dfa, b: Blocks, y: Set<usize>, m: Blocks, c: Blocks, w: Blocks, w2: Blocks, a: Set<usize>, k: int, x: Set<usize>)
    requires d.core(), hstate(d, b + seq![y] + c, w, a, k), split_of(m, y, x), wgain(w, w2, y, x), saturs(d, w2), saturs(d, m),
    ensures hstate(d, b + m + c, w2, a, k),
{
    let p = b + seq![y] + c;
    let p2 = b + m + c;
    lemma_split(d.states@.len(), b, y, m, c, x);
    assert(p[b.len() as int] == y);
    lemma_hop_split(d, p, p2, w, w2, a, k, y, x);
    assert forall|i: int| 0 <= i < p2.len() implies satur(d, #[trigger] p2[i]) by {
        if i < b.len() { assert(p[i] == p2[i]); assert(satur(d, p[i])); } else if i < b.len() + m.len() { assert(m[i - b.len()] == p2[i]); assert(satur(d, m[i - b.len()])); } else { assert(p[i - m.len() + 1] == p2[i]); assert(satur(d, p[i - m.len() + 1])); }
    }
}
pub proof fn lemma_split_two(y: Set<usize>, x: Set<usize>, m: Blocks)
    requires m.len() == 2, m[0] == x.intersect(y), m[1] == y.difference(x), m[0] != Set::<usize>::empty(), m[1] != Set::<usize>::empty(),
    ensures split_of(m, y, x), unis(m, x),
{
    lemma_nonempty(m[0]);
    lemma_nonempty(m[1]);
    assert forall|q: usize| #[trigger] bcover(m, q) <==> y.contains(q) by {
        if y.contains(q) { if x.contains(q) { assert(m[0].contains(q)); } else { assert(m[1].contains(q)); } }
    }
}
pub proof fn lemma_nonempty(b: Set<usize>)
    requires b != Set::<usize>::empty(),
    ensures bnonempty(b),
{
    if !bnonempty(b) { assert forall|q: usize| !b.contains(q) by { } assert(b =~= Set::<usize>::empty()); }
}
pub proof fn lemma_split_one(y: Set<usize>, x: Set<usize>, m: Blocks)
    requires m.len() == 1, m[0] == y, bnonempty(y), x.intersect(y) == Set::<usize>::empty() || y.difference(x) == Set::<usize>::empty(),
    ensures split_of(m, y, x), unis(m, x),
{
    assert forall|p: usize, q: usize| #[trigger] y.contains(p) && #[trigger] y.contains(q) implies x.contains(p) == x.contains(q) by {
        if x.contains(p) { assert(x.intersect(y).contains(p)); } else { assert(y.difference(x).contains(p)); }
        if x.contains(q) { assert(x.intersect(y).contains(q)); } else { assert(y.difference(x).contains(q)); }
    }
    assert forall|q: usize| #[trigger] bcover(m, q) <==> y.contains(q) by { if y.contains(q) { assert(m[0].contains(q)); } }
}
pub proof fn lemma_wgain_none(w: Blocks, y: Set<usize>, x: Set<usize>, m: Blocks)
    requires split_of(m, y, x), m.len() == 1,
    ensures wgain(w, w, y, x),
{
    assert forall|p: usize, q: usize| y.contains(p) && y.contains(q) && x.contains(p) != x.contains(q) implies #[trigger] sepby(w, p, q) by {
        assert(bcover(m, p) && bcover(m, q));
        assert(m[0].contains(p) && m[0].contains(q));
    }
}
// one of the halves is added
pub proof fn lemma_wgain_push(w: Blocks, w2: Blocks, y: Set<usize>, x: Set<usize>, h: Set<usize>)
    requires w2 == w.push(h), h == x.intersect(y) || h == y.difference(x),
    ensures wgain(w, w2, y, x),
{
    assert(w2[w.len() as int] == h);
    assert forall|p: usize, q: usize| #[trigger] sepby(w, p, q) implies sepby(w2, p, q) by {
        let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).contains(p) != w[i].contains(q);
        assert(w2[i] == w[i]);
    }
    assert forall|p: usize, q: usize| y.contains(p) && y.contains(q) && x.contains(p) != x.contains(q) implies #[trigger] sepby(w2, p, q) by {
        assert(w2[w.len() as int].contains(p) != w2[w.len() as int].contains(q));
    }
}
// y, in the worklist at position k, is replaced by both halves
pub open spec fn swapped<T>(w: Seq<T>, v: Seq<T>, k: int) -> bool {
    v.len() == w.len() - 1 && forall|j: int| 0 <= j < v.len() ==> #[trigger] v[j] == (if j == k { w[w.len() - 1] } else { w[j] })
}
pub proof fn lemma_wgain_swap(w: Blocks, v: Blocks, k: int, w2: Blocks, y: Set<usize>, x: Set<usize>)
    requires 0 <= k < w.len(), w[k] == y, swapped(w, v, k), w2 == v.push(x.intersect(y)).push(y.difference(x)),
    ensures wgain(w, w2, y, x),
{
    let a = w2[v.len() as int]; let b = w2[v.len() as int + 1];
    assert(a == x.intersect(y) && b == y.difference(x));
    assert forall|p: usize, q: usize| #[trigger] sepby(w, p, q) implies sepby(w2, p, q) by {
        let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).contains(p) != w[i].contains(q);
        if i == k {
            assert(a.contains(p) != a.contains(q) || b.contains(p) != b.contains(q));
        } else if i == w.len() - 1 {
            assert(v[k] == w[i]); assert(w2[k] == w[i]);
        } else {
            assert(v[i] == w[i]); assert(w2[i] == w[i]);
        }
    }
    assert forall|p: usize, q: usize| y.contains(p) && y.contains(q) && x.contains(p) != x.contains(q) implies #[trigger] sepby(w2, p, q) by {
        assert(a.contains(p) != a.contains(q));
    }
}
pub proof fn lemma_saturs_push(d: &Dfa, w: Blocks, h: Set<usize>)
    requires saturs(d, w), satur(d, h),
    ensures saturs(d, w.push(h)),
{
    assert forall|i: int| 0 <= i < w.push(h).len() implies satur(d, #[trigger] w.push(h)[i]) by { if i < w.len() { assert(w.push(h)[i] == w[i]); } }
}
pub proof fn lemma_saturs_swap(d: &Dfa, w: Blocks, v: Blocks, k: int)
    requires saturs(d, w), swapped(w, v, k), 0 <= k < w.len(),
    ensures saturs(d, v),
{
    assert forall|i: int| 0 <= i < v.len() implies satur(d, #[trigger] v[i]) by { if i == k { assert(satur(d, w[w.len() - 1])); } else { assert(satur(d, w[i])); } }
}
pub proof fn lemma_satur_halves(d: &Dfa, x: Set<usize>, y: Set<usize>)
    requires satur(d, x), satur(d, y),
    ensures satur(d, x.intersect(y)), satur(d, y.difference(x)),
{
}
// facts about the block being split
pub proof fn lemma_hstate_block(d: &Dfa, b: Blocks, y: Set<usize>, c: Blocks, w: Blocks, a: Set<usize>, k: int)
    requires hstate(d, b + seq![y] + c, w, a, k),
    ensures satur(d, y), bnonempty(y), saturs(d, w),
{
    let p = b + seq![y] + c;
    assert(p[b.len() as int] == y);
    assert(satur(d, p[b.len() as int]));
    assert(bnonempty(p[b.len() as int]));
}
pub proof fn lemma_unis_cat(b: Blocks, m: Blocks, x: Set<usize>)
    requires unis(b, x), unis(m, x),
    ensures unis(b + m, x),
{
    assert forall|i: int| 0 <= i < (b + m).len() implies uni(#[trigger] (b + m)[i], x) by { if i < b.len() { assert(uni(b[i], x)); } else { assert(uni(m[i - b.len()], x)); } }
}
pub proof fn lemma_vs_cat(a: Seq<HSet<usize>>, b: Seq<HSet<usize>>)
    ensures vs(a + b) == vs(a) + vs(b),
{
    assert(vs(a + b) =~= vs(a) + vs(b));
}
pub proof fn lemma_vs_skip(s: Seq<HSet<usize>>, k: int)
    requires 0 < k <= s.len(),
    ensures vs(s).skip(k - 1) == seq![s[k - 1]@] + vs(s).skip(k),
{
    assert(vs(s).skip(k - 1) =~= seq![s[k - 1]@] + vs(s).skip(k));
}
pub proof fn lemma_vs_pushed(w: Seq<HSet<usize>>, h: HSet<usize>)
    ensures vs(w.push(h)) == vs(w).push(h@),
{
    assert(vs(w.push(h)) =~= vs(w).push(h@));
}
pub proof fn lemma_vs_swapped(w: Seq<HSet<usize>>, v: Seq<HSet<usize>>, k: int)
    requires swapped(w, v, k), 0 <= k < w.len(),
    ensures swapped(vs(w), vs(v), k),
{
    assert forall|j: int| 0 <= j < v.len() implies #[trigger] vs(v)[j] == (if j == k { vs(w)[w.len() - 1] } else { vs(w)[j] }) by { assert(v[j]@ == vs(v)[j]); }
}

// the set being processed does not matter once all letters are done
pub proof fn lemma_hstate_none(d: &Dfa, p: Blocks, w: Blocks, a: Set<usize>)
    requires hstate(d, p, w, a, d.alphabet@.len() as int),
    ensures hstate(d, p, w, Set::<usize>::empty(), d.alphabet@.len() as int),
{
    let e = Set::<usize>::empty();
    assert forall|s: usize, t: usize, c: int| s < d.states@.len() && t < d.states@.len() && 0 <= c < d.alphabet@.len() implies #[trigger] hop1(d, p, w, e, d.alphabet@.len() as int, s, t, c) by {
        assert(hop1(d, p, w, a, d.alphabet@.len() as int, s, t, c));
    }
    assert(satur(d, e));
}
pub proof fn lemma_hstate_len(d: &Dfa, p: Blocks, w: Blocks, a: Set<usize>, k: int)
    requires hstate(d, p, w, a, k), d.states@.len() <= usize::MAX,
    ensures p.len() <= d.states@.len(),
{
    lemma_parts_len(d.states@.len(), p);
}
@fn dandy/src/dfa/mod.rs Dfa::state_equivalence_classes_idx
@attr #[verifier::rlimit(100)]
@hide hstate wgain split_of classes unis satur saturs preimg parts hop acc_uni bnonempty enumerates gathered swapped vs
@sig
    requires self.core(),
    ensures classes(self, vs(r@)),
@start
    let ghost mut wl: Seq<HSet<usize>> = seq![];
    let ghost mut p0: int = 0;
    let ghost mut w0: int = 0;
    let ghost none = Set::<usize>::empty();
    let ghost n = self.states@.len();
    proof { axiom_vec_len(&self.states); }
@loop 1 inv
    it1_seq.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] it1_seq[i] == i,
    forall|q: usize| #[trigger] pa1@.contains(q) <==> q < it1.pos() && self.acc(q),
    forall|q: usize| #[trigger] pb1@.contains(q) <==> q < it1.pos() && !self.acc(q),
@return
    proof {
        reveal(vs);
        assert(vs(ret_@).len() == 1 && vs(ret_@)[0] == ret_@[0]@);
        if finals@ == none {
            assert forall|q: usize| q < n implies !self.acc(q) by { if self.acc(q) { assert(finals@.contains(q)); } }
        } else {
            assert forall|q: usize| q < n implies self.acc(q) by { if !self.acc(q) { assert(nonfinals@.contains(q)); } }
        }
        lemma_one_class(self, vs(ret_@));
    }
@let p
    proof {
        reveal(vs);
        lemma_nonempty(finals@); lemma_nonempty(nonfinals@);
        lemma_hstate_init(self, vs(p@));
        lemma_hstate_len(self, vs(p@), vs(p@), none, self.alphabet@.len() as int);
    }
@let w
    proof { wl = w@; }
@loop 2 inv
    wl == w@,
    hstate(self, vs(p@), vs(w@), none, self.alphabet@.len() as int),
    p@.len() <= n,
    decreases n - p@.len(), w@.len()
@loop 2 beg
    proof {
        lemma_vs_pushed(w@, a);
        assert(wl =~= w@.push(a));
        assert(vs(wl).drop_last() =~= vs(w@));
        lemma_hstate_pop(self, vs(p@), vs(wl), none);
        p0 = p@.len() as int; w0 = w@.len() as int;
    }
@loop 2 end
    proof { wl = w@; lemma_hstate_none(self, vs(p@), vs(w@), a@); lemma_hstate_len(self, vs(p@), vs(w@), none, self.alphabet@.len() as int); }
@loop 3 inv
    it3_seq.len() == self.alphabet@.len(), forall|i: int| 0 <= i < it3_seq.len() ==> #[trigger] it3_seq[i] == i,
    hstate(self, vs(p@), vs(w@), a@, it3.pos()),
    p0 <= p@.len(), p@.len() == p0 ==> w@.len() == w0,
@loop 4 inv
    it4_seq == self.states@,
    forall|q: usize| #[trigger] acc4@.contains(q) <==> q < it4.pos() && a@.contains(self.next(q, c as int)),
@loop 4 post
    proof { reveal(preimg); assert(preimg(self, a@, c as int, acc4@)); lemma_hstate_x(self, vs(p@), vs(w@), a@, c as int, acc4@); }
@loop 5 pre
    proof {
        reveal(vs);
        assert(vs(Seq::<HSet<usize>>::empty()) =~= Seq::<Set<usize>>::empty());
        assert(unis(Seq::<Set<usize>>::empty(), x@)) by { reveal(unis); }
        assert(vs(Seq::<HSet<usize>>::empty()) + vs(it5_seq).skip(0) =~= vs(it5_seq));
    }
@loop 5 inv
    hstate(self, vs(acc5@) + vs(it5_seq).skip(it5.pos()), vs(w@), a@, c as int),
    unis(vs(acc5@), x@),
    p0 <= acc5@.len() + it5_seq.len() - it5.pos(), acc5@.len() + it5_seq.len() - it5.pos() == p0 ==> w@.len() == w0,
@loop 5 beg
    let ghost b = acc5@;
    let ghost wo = w@;
    let ghost rest = vs(it5_seq).skip(it5.pos());
    proof {
        lemma_vs_skip(it5_seq, it5.pos());
        assert(vs(b) + (seq![x5@] + rest) =~= vs(b) + seq![x5@] + rest);
        lemma_hstate_block(self, vs(b), x5@, rest, vs(wo), a@, c as int);
        lemma_satur_halves(self, x@, x5@);
    }
@loop 6 pre
    proof { lemma_gather_start(it6_seq); }
@loop 6 inv
    gathered(it6_seq, it6.pos(), acc6@),
@loop 6 end
    proof { lemma_gather_step(it6_seq, it6.pos(), gs6); }
@loop 6 beg
    let ghost gs6 = acc6@;
@loop 6 post
    proof { lemma_gather_done(it6_seq, acc6@, x@.intersect(y@)); }
@loop 7 pre
    proof { lemma_gather_start(it7_seq); }
@loop 7 inv
    gathered(it7_seq, it7.pos(), acc7@),
@loop 7 beg
    let ghost gs7 = acc7@;
@loop 7 end
    proof { lemma_gather_step(it7_seq, it7.pos(), gs7); }
@loop 7 post
    proof { lemma_gather_done(it7_seq, acc7@, y@.difference(x@)); }
@loop 8 inv
    it8_seq == w@, match r8 { Some(k) => k < it8_seq.len() && it8_seq[k as int]@ == y@, None => true },
@call push#2
    proof {
        let v = w@.take(wo.len() - 1);
        assert(swapped(wo, v, idx as int)) by { reveal(swapped); }
        lemma_vs_swapped(wo, v, idx as int);
        lemma_vs_pushed(v, inters);
        lemma_vs_pushed(v.push(inters), diff);
        assert(w@ =~= v.push(inters).push(diff));
        lemma_wgain_swap(vs(wo), vs(v), idx as int, vs(w@), y@, x@);
        lemma_saturs_swap(self, vs(wo), vs(v), idx as int);
        lemma_saturs_push(self, vs(v), inters@);
        lemma_saturs_push(self, vs(v).push(inters@), diff@);
    }
@call push#3
    proof {
        lemma_vs_pushed(wo, inters);
        lemma_wgain_push(vs(wo), vs(w@), y@, x@, inters@);
        lemma_saturs_push(self, vs(wo), inters@);
    }
@call push#4
    proof {
        lemma_vs_pushed(wo, diff);
        lemma_wgain_push(vs(wo), vs(w@), y@, x@, diff@);
        lemma_saturs_push(self, vs(wo), diff@);
    }
@loop 9 pre
    let ghost m = vs(it9_seq);
    proof {
        reveal(vs);
        assert(saturs(self, Seq::<Set<usize>>::empty())) by { reveal(saturs); }
        if m.len() == 2 {
            lemma_split_two(y@, x@, m);
            lemma_saturs_push(self, Seq::empty(), m[0]);
            lemma_saturs_push(self, Seq::empty().push(m[0]), m[1]);
            assert(m =~= Seq::empty().push(m[0]).push(m[1]));
        } else {
            lemma_split_one(y@, x@, m);
            lemma_wgain_none(vs(wo), y@, x@, m);
            lemma_saturs_push(self, Seq::empty(), m[0]);
            assert(m =~= Seq::empty().push(m[0]));
        }
        lemma_hstate_split(self, vs(b), y@, m, rest, vs(wo), vs(w@), a@, c as int, x@);
    }
@loop 9 inv
    acc5@ == b + it9_seq.take(it9.pos()),
@loop 9 end
    proof { assert(acc5@ =~= b + it9_seq.take(it9.pos())); }
@loop 9 post
    proof {
        assert(acc5@ =~= b + it9_seq);
        lemma_vs_cat(b, it9_seq);
        lemma_unis_cat(vs(b), m, x@);
    }
@loop 5 post
    proof {
        assert(vs(acc5@) + vs(it5_seq).skip(it5_seq.len() as int) =~= vs(acc5@));
        lemma_hstate_letter(self, vs(acc5@), vs(w@), a@, c as int, x@);
    }
@loop 2 post
    proof { lemma_hstate_done(self, vs(p@), vs(w@), none); }
@acc 5 Vec<HSet<usize>>
