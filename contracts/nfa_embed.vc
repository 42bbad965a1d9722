@raw
// ------------------------------------------------------------------ one automaton inside another
pub open spec fn sh(off: int, p: usize) -> usize { (off + p) as usize }
// b is a with off added to every element
pub open spec fn shifted(a: Seq<usize>, b: Seq<usize>, off: int) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == off + a[i] }
pub proof fn lemma_shifted(a: Seq<usize>, b: Seq<usize>, off: int, n: nat)
    requires shifted(a, b, off), all_lt(a, n), off >= 0, off + n <= usize::MAX,
    ensures forall|x: usize| #[trigger] b.contains(x) ==> x >= off && a.contains((x - off) as usize), forall|p: usize| #[trigger] a.contains(p) ==> b.contains(sh(off, p)),
{
    assert forall|x: usize| #[trigger] b.contains(x) implies x >= off && a.contains((x - off) as usize) by { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(a[i] == (x - off) as usize); }
    assert forall|p: usize| #[trigger] a.contains(p) implies b.contains(sh(off, p)) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == p; assert(b[i] == sh(off, p)); }
}
// the states off.. of u are those of a, with the same moves and no others
pub open spec fn nembed(a: &Nfa, u: &Nfa, off: int) -> bool {
    &&& 0 <= off && off + a.n() <= u.n() <= usize::MAX
    &&& forall|p: usize, q: usize| p < a.n() && #[trigger] eedge(a, p, q) ==> eedge(u, sh(off, p), sh(off, q))
    &&& forall|p: usize, c: Seq<char>, q: usize| p < a.n() && #[trigger] sedge(a, p, c, q) ==> sedge(u, sh(off, p), c, sh(off, q))
    &&& forall|y: usize, x: usize| off <= y < off + a.n() && #[trigger] eedge(u, y, x) ==> off <= x < off + a.n() && eedge(a, (y - off) as usize, (x - off) as usize)
    &&& forall|y: usize, c: Seq<char>, x: usize| off <= y < off + a.n() && #[trigger] sedge(u, y, c, x) ==> off <= x < off + a.n() && sedge(a, (y - off) as usize, c, (x - off) as usize)
    &&& forall|p: usize| p < a.n() ==> #[trigger] a.acc(p) == u.acc(sh(off, p))
}
pub proof fn lemma_embed_to(a: &Nfa, u: &Nfa, off: int, p: usize, w: Word, q: usize, k: nat)
    requires a.core(), nembed(a, u, off), p < a.n(), npath(a, p, w, q, k),
    ensures q < a.n(), npath(u, sh(off, p), w, sh(off, q), k),
    decreases k,
{
    reveal_with_fuel(npath, 2);
    lemma_npath_in(a, p, w, q, k);
    if k > 0 {
        if exists|r: usize| npath(a, p, w, r, (k - 1) as nat) && #[trigger] eedge(a, r, q) {
            let r = choose|r: usize| npath(a, p, w, r, (k - 1) as nat) && #[trigger] eedge(a, r, q);
            lemma_embed_to(a, u, off, p, w, r, (k - 1) as nat);
            assert(eedge(u, sh(off, r), sh(off, q)));
        } else {
            let r = choose|r: usize| npath(a, p, w.drop_last(), r, (k - 1) as nat) && #[trigger] sedge(a, r, w.last(), q);
            lemma_embed_to(a, u, off, p, w.drop_last(), r, (k - 1) as nat);
            assert(sedge(u, sh(off, r), w.last(), sh(off, q)));
        }
    }
}
pub proof fn lemma_embed_from(a: &Nfa, u: &Nfa, off: int, p: usize, w: Word, x: usize, k: nat)
    requires a.core(), nembed(a, u, off), p < a.n(), npath(u, sh(off, p), w, x, k),
    ensures off <= x < off + a.n(), npath(a, p, w, (x - off) as usize, k),
    decreases k,
{
    reveal_with_fuel(npath, 2);
    if k > 0 {
        if exists|r: usize| npath(u, sh(off, p), w, r, (k - 1) as nat) && #[trigger] eedge(u, r, x) {
            let r = choose|r: usize| npath(u, sh(off, p), w, r, (k - 1) as nat) && #[trigger] eedge(u, r, x);
            lemma_embed_from(a, u, off, p, w, r, (k - 1) as nat);
            assert(eedge(a, (r - off) as usize, (x - off) as usize));
        } else {
            let r = choose|r: usize| npath(u, sh(off, p), w.drop_last(), r, (k - 1) as nat) && #[trigger] sedge(u, r, w.last(), x);
            lemma_embed_from(a, u, off, p, w.drop_last(), r, (k - 1) as nat);
            assert(sedge(a, (r - off) as usize, w.last(), (x - off) as usize));
        }
    }
}
// u accepts from the copy of p what a accepts from p
pub proof fn lemma_embed_acc(a: &Nfa, u: &Nfa, off: int, p: usize, w: Word)
    requires a.core(), nembed(a, u, off), p < a.n(),
    ensures nacc_from(u, sh(off, p), w) == nacc_from(a, p, w),
{
    reveal(nreach);
    if nacc_from(a, p, w) {
        let q = choose|q: usize| #[trigger] nreach(a, p, w, q) && a.acc(q);
        let k = choose|k: nat| npath(a, p, w, q, k);
        lemma_embed_to(a, u, off, p, w, q, k);
        assert(nreach(u, sh(off, p), w, sh(off, q)));
    }
    if nacc_from(u, sh(off, p), w) {
        let x = choose|x: usize| #[trigger] nreach(u, sh(off, p), w, x) && u.acc(x);
        let k = choose|k: nat| npath(u, sh(off, p), w, x, k);
        lemma_embed_from(a, u, off, p, w, x, k);
        let q = (x - off) as usize;
        assert(nreach(a, p, w, q));
        assert(sh(off, q) == x);
        assert(a.acc(q));
    }
}
// the first move of a path
pub open spec fn first_e(n: &Nfa, p: usize, w: Word, q: usize, k: nat, r: usize) -> bool { k > 0 && eedge(n, p, r) && npath(n, r, w, q, (k - 1) as nat) }
pub open spec fn first_s(n: &Nfa, p: usize, w: Word, q: usize, k: nat, r: usize) -> bool { k > 0 && w.len() > 0 && sedge(n, p, w[0], r) && npath(n, r, w.drop_first(), q, (k - 1) as nat) }
pub proof fn lemma_npath_first(n: &Nfa, p: usize, w: Word, q: usize, k: nat)
    requires npath(n, p, w, q, k), k > 0,
    ensures (exists|r: usize| #[trigger] first_e(n, p, w, q, k, r)) || (exists|r: usize| #[trigger] first_s(n, p, w, q, k, r)),
    decreases k,
{
    reveal_with_fuel(npath, 2);
    let j = (k - 1) as nat;
    if exists|s: usize| npath(n, p, w, s, j) && #[trigger] eedge(n, s, q) {
        let s = choose|s: usize| npath(n, p, w, s, j) && #[trigger] eedge(n, s, q);
        if j == 0 {
            assert(npath(n, q, w, q, 0));
            assert(first_e(n, p, w, q, k, q));
        } else {
            lemma_npath_first(n, p, w, s, j);
            if exists|r: usize| #[trigger] first_e(n, p, w, s, j, r) {
                let r = choose|r: usize| #[trigger] first_e(n, p, w, s, j, r);
                assert(npath(n, r, w, q, j)) by { assert(npath(n, r, w, s, (j - 1) as nat) && eedge(n, s, q)); }
                assert(first_e(n, p, w, q, k, r));
            } else {
                let r = choose|r: usize| #[trigger] first_s(n, p, w, s, j, r);
                assert(npath(n, r, w.drop_first(), q, j)) by { assert(npath(n, r, w.drop_first(), s, (j - 1) as nat) && eedge(n, s, q)); }
                assert(first_s(n, p, w, q, k, r));
            }
        }
    } else {
        let v = w.drop_last();
        let s = choose|s: usize| npath(n, p, v, s, j) && #[trigger] sedge(n, s, w.last(), q);
        if j == 0 {
            assert(w[0] == w.last());
            assert(w.drop_first() =~= eword());
            assert(npath(n, q, w.drop_first(), q, 0));
            assert(first_s(n, p, w, q, k, q));
        } else {
            lemma_npath_first(n, p, v, s, j);
            if exists|r: usize| #[trigger] first_e(n, p, v, s, j, r) {
                let r = choose|r: usize| #[trigger] first_e(n, p, v, s, j, r);
                assert(npath(n, r, w, q, j)) by { assert(npath(n, r, v, s, (j - 1) as nat) && sedge(n, s, w.last(), q)); }
                assert(first_e(n, p, w, q, k, r));
            } else {
                let r = choose|r: usize| #[trigger] first_s(n, p, v, s, j, r);
                let x = w.drop_first();
                assert(x.drop_last() =~= v.drop_first());
                assert(x.last() == w.last() && v[0] == w[0]);
                assert(npath(n, r, x, q, j)) by { assert(npath(n, r, x.drop_last(), s, (j - 1) as nat) && sedge(n, s, x.last(), q)); }
                assert(first_s(n, p, w, q, k, r));
            }
        }
    }
}
pub proof fn lemma_nreach_from_eedge(n: &Nfa, p: usize, r: usize, w: Word, q: usize)
    requires eedge(n, p, r), nreach(n, r, w, q),
    ensures nreach(n, p, w, q),
{
    lemma_nreach_refl(n, p);
    lemma_nreach_eedge(n, p, eword(), p, r);
    lemma_nreach_concat(n, p, eword(), r, w, q);
    assert(eword() + w =~= w);
}
