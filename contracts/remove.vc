@raw
// removing elements of a list by index; generic in the element type
// b is a with every transition t replaced by the value of f on t (t itself when f gives none)
pub open spec fn remap1<F: Fn(usize) -> Option<usize>>(f: F, t: usize, u: usize) -> bool {
    exists|m: Option<usize>| #[trigger] f.ensures((t,), m) && u == (match m { Some(x) => x, None => t })
}
pub open spec fn remap_row<F: Fn(usize) -> Option<usize>>(f: F, a: Seq<usize>, b: Seq<usize>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> remap1(f, a[i], #[trigger] b[i])
}
pub open spec fn keeps(n: nat, gone: Seq<usize>, k: Seq<usize>) -> bool {
    increasing(k) && forall|q: usize| #[trigger] k.contains(q) <==> q < n && !gone.contains(q)
}
pub open spec fn row_cut(a: Seq<usize>, b: Seq<usize>, k: Seq<usize>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] < k.len() && k[b[i] as int] == a[i]
}
// the state of progress while the indices gone[j..] (increasing) have been removed; lt of them are below ini
pub open spec fn removing<S>(s0: Seq<S>, gone: Seq<usize>, ini: usize, lt: int, j: int, s: Seq<S>, k: Seq<usize>) -> bool {
    &&& s.len() == k.len() && increasing(k)
    &&& forall|q: usize| #[trigger] k.contains(q) <==> q < s0.len() && !gone.subrange(j, gone.len() as int).contains(q)
    &&& forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] < s0.len() && s[i] == s0[k[i] as int]
    &&& forall|i: int| 0 <= i < s0.len() && (j < gone.len() ==> i < gone[j]) ==> i < k.len() && #[trigger] k[i] == i
    &&& j <= lt ==> 0 <= ini - (lt - j) < k.len() && k[ini - (lt - j)] == ini
}
pub proof fn lemma_remove_contains(k: Seq<usize>, g: int)
    requires increasing(k), 0 <= g < k.len(),
    ensures forall|q: usize| #[trigger] k.remove(g).contains(q) <==> k.contains(q) && q != k[g],
{
    let k2 = k.remove(g);
    assert forall|q: usize| #[trigger] k2.contains(q) <==> k.contains(q) && q != k[g] by {
        if k2.contains(q) {
            let i = choose|i: int| 0 <= i < k2.len() && k2[i] == q;
            if i < g { assert(k[i] == q && k[i] < k[g]); } else { assert(k[i + 1] == q && k[g] < k[i + 1]); }
        }
        if k.contains(q) && q != k[g] {
            let i = choose|i: int| 0 <= i < k.len() && k[i] == q;
            if i < g { assert(k2[i] == q); } else { assert(i != g); assert(k2[i - 1] == q); }
        }
    }
}
pub proof fn lemma_tail_contains(gone: Seq<usize>, j: int)
    requires 0 < j <= gone.len(),
    ensures forall|q: usize| #[trigger] gone.subrange(j - 1, gone.len() as int).contains(q) <==> gone.subrange(j, gone.len() as int).contains(q) || q == gone[j - 1],
{
    let a = gone.subrange(j, gone.len() as int);
    let b = gone.subrange(j - 1, gone.len() as int);
    assert forall|q: usize| #[trigger] b.contains(q) <==> a.contains(q) || q == gone[j - 1] by {
        if b.contains(q) { let m = choose|m: int| 0 <= m < b.len() && b[m] == q; if m > 0 { assert(a[m - 1] == q); } }
        if a.contains(q) { let m = choose|m: int| 0 <= m < a.len() && a[m] == q; assert(b[m + 1] == q); }
        assert(b[0] == gone[j - 1]);
    }
}
pub proof fn lemma_removing<S>(s0: Seq<S>, gone: Seq<usize>, ini: usize, lt: int, j: int, s: Seq<S>, k: Seq<usize>)
    requires removing(s0, gone, ini, lt, j, s, k), 0 < j <= gone.len(), increasing(gone), all_lt(gone, s0.len()), 0 <= lt <= gone.len(), ini < s0.len(),
        forall|i: int| 0 <= i < lt ==> gone[i] < ini, forall|i: int| lt <= i < gone.len() ==> gone[i] > ini,
    ensures gone[j - 1] < k.len(), gone[j - 1] < s.len(), removing(s0, gone, ini, lt, j - 1, s.remove(gone[j - 1] as int), k.remove(gone[j - 1] as int)),
{
    let g = gone[j - 1] as int;
    assert(gone[j - 1] < s0.len());
    assert(j < gone.len() ==> gone[j - 1] < gone[j]);
    assert(k[g] == g);
    let k2 = k.remove(g);
    let s2 = s.remove(g);
    lemma_remove_contains(k, g);
    lemma_tail_contains(gone, j);
    assert(increasing(k2)) by { assert forall|x: int, y: int| 0 <= x < y < k2.len() implies k2[x] < k2[y] by { let x0 = if x < g { x } else { x + 1 }; let y0 = if y < g { y } else { y + 1 }; assert(k[x0] < k[y0]); } }
    assert forall|i: int| 0 <= i < k2.len() implies #[trigger] k2[i] < s0.len() && s2[i] == s0[k2[i] as int] by {
        if i < g { assert(k[i] < s0.len()); } else { assert(k[i + 1] < s0.len()); }
    }
    assert forall|i: int| 0 <= i < s0.len() && (j - 1 < gone.len() ==> i < gone[j - 1]) implies i < k2.len() && #[trigger] k2[i] == i by { assert(k[i] == i); }
    if j - 1 <= lt {
        if j <= lt {
            let p = ini - (lt - j);
            assert(gone[j - 1] < ini);
            assert(g < p) by { if p < g { assert(k[p] < k[g]); } }
            assert(k2[p - 1] == k[p]);
        } else {
            assert(j - 1 == lt);
            assert(gone[lt] > ini);
            assert(k[ini as int] == ini);
            assert(k2[ini as int] == ini);
        }
    }
}
pub proof fn lemma_increasing_ge(g: Seq<usize>, i: int)
    requires increasing(g), 0 <= i < g.len(),
    ensures g[i] >= i,
    decreases i,
{
    if i > 0 { lemma_increasing_ge(g, i - 1); }
}
pub open spec fn ids(n: nat) -> Seq<usize> { Seq::new(n, |i: int| i as usize) }

