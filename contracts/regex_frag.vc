@raw
// ------------------------------------------------------------------ the states that stand for a tree
pub open spec fn ridx_(i: int) -> bool { true }
pub open spec fn us(i: int) -> usize { i as usize }
pub open spec fn quiet(t: Seq<Vec<usize>>) -> bool { forall|j: int| 0 <= j < t.len() ==> (#[trigger] t[j])@.len() == 0 }
pub open spec fn node_eps(x: NfaState, e: Seq<usize>) -> bool { x.epsilon_transitions@ == e && quiet(x.transitions@) }
pub open spec fn row_chr(t: Seq<Vec<usize>>, i: int, out: usize) -> bool { 0 <= i < t.len() && forall|j: int| 0 <= j < t.len() ==> (#[trigger] t[j])@ == (if j == i { seq![out] } else { Seq::<usize>::empty() }) }
pub open spec fn node_chr(x: NfaState, c: Seq<char>, s: Syms, out: usize) -> bool { x.epsilon_transitions@.len() == 0 && exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == c && row_chr(x.transitions@, i, out) }
pub open spec fn sub(b: Seq<NfaState>, o: int, n: int) -> Seq<NfaState> { b.subrange(o, o + n) }
// the states st, rnumbered from c0, stand for the tree t: they lead from c0 to out
pub open spec fn frag(t: RegexTree, st: Seq<NfaState>, c0: int, out: usize, s: Syms) -> bool decreases t, 0nat {
    st.len() == nodes(t) && match t {
        RegexTree::Sequence(x) => {
            &&& node_eps(st[0], if x@.len() == 0 { seq![out] } else { seq![us(c0 + 2)] })
            &&& forall|i: int| #[trigger] ridx_(i) && 0 <= i < x@.len() ==> sitem(x@, i, st.skip(1), c0 + 1, out, s)
        },
        RegexTree::Alt(x) => {
            &&& node_eps(st[0], Seq::new(x@.len(), |i: int| us(c0 + 1 + anodes(x@, i))))
            &&& forall|i: int| #[trigger] ridx_(i) && 0 <= i < x@.len() ==> aitem(x@, i, st.skip(1), c0 + 1, out, s)
        },
        RegexTree::Repeat(r) => node_eps(st[0], seq![us(c0 + 1), out]) && frag(*r, st.skip(1), c0 + 1, us(c0), s),
        RegexTree::Char(RegexChar::Grapheme(g)) => node_chr(st[0], g@, s, out),
        RegexTree::Char(RegexChar::Epsilon) => node_eps(st[0], seq![out]),
        RegexTree::Char(RegexChar::Empty) => node_eps(st[0], Seq::<usize>::empty()),
    }
}
// one item of a sequence: the state after it, then its own states
pub open spec fn sitem(x: Seq<RegexTree>, i: int, b: Seq<NfaState>, base: int, out: usize, s: Syms) -> bool decreases x, 1nat {
    if 0 <= i < x.len() {
        let o = snodes(x, i);
        &&& node_eps(b[o], seq![if i + 1 == x.len() { out } else { us(base + snodes(x, i + 1) + 1) }])
        &&& frag(x[i], sub(b, o + 1, nodes(x[i])), base + o + 1, us(base + o), s)
    } else { true }
}
pub open spec fn aitem(x: Seq<RegexTree>, i: int, b: Seq<NfaState>, base: int, out: usize, s: Syms) -> bool decreases x, 1nat {
    if 0 <= i < x.len() { frag(x[i], sub(b, anodes(x, i), nodes(x[i])), base + anodes(x, i), out, s) } else { true }
}
// ------------------------------------------------------------------ sizes
pub proof fn lemma_nodes_pos(t: RegexTree)
    ensures nodes(t) >= 1,
    decreases t, 0nat,
{
    match t {
        RegexTree::Sequence(x) => { lemma_snodes_mono(x@, 0, x@.len() as int); },
        RegexTree::Alt(x) => { lemma_anodes_mono(x@, 0, x@.len() as int); },
        RegexTree::Repeat(r) => { lemma_nodes_pos(*r); },
        RegexTree::Char(_) => {},
    }
}
pub proof fn lemma_snodes_mono(x: Seq<RegexTree>, i: int, k: int)
    requires 0 <= i <= k <= x.len(),
    ensures 0 <= snodes(x, i), snodes(x, i) + 2 * (k - i) <= snodes(x, k),
    decreases x, k,
{
    if 0 < k { lemma_nodes_pos(x[k - 1]); if i < k { lemma_snodes_mono(x, i, k - 1); } else { lemma_snodes_mono(x, i - 1, k - 1); } }
}
pub proof fn lemma_anodes_mono(x: Seq<RegexTree>, i: int, k: int)
    requires 0 <= i <= k <= x.len(),
    ensures 0 <= anodes(x, i), anodes(x, i) + (k - i) <= anodes(x, k),
    decreases x, k,
{
    if 0 < k { lemma_nodes_pos(x[k - 1]); if i < k { lemma_anodes_mono(x, i, k - 1); } else { lemma_anodes_mono(x, i - 1, k - 1); } }
}
// ------------------------------------------------------------------ symbols only grow
pub open spec fn sprefix(a: Syms, b: Syms) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub proof fn lemma_chars_grow(t: RegexTree, s: Syms)
    requires s.no_duplicates(),
    ensures sprefix(s, add_chars(t, s)), add_chars(t, s).no_duplicates(),
    decreases t, 0nat,
{
    match t {
        RegexTree::Sequence(x) => { lemma_items_grow(x@, x@.len() as int, s); },
        RegexTree::Alt(x) => { lemma_items_grow(x@, x@.len() as int, s); },
        RegexTree::Repeat(r) => { lemma_chars_grow(*r, s); },
        RegexTree::Char(_) => {},
    }
}
pub proof fn lemma_items_grow(x: Seq<RegexTree>, k: int, s: Syms)
    requires s.no_duplicates(), 0 <= k <= x.len(),
    ensures sprefix(s, add_items(x, k, s)), add_items(x, k, s).no_duplicates(), k > 0 ==> sprefix(add_items(x, k - 1, s), add_items(x, k, s)),
    decreases x, k,
{
    if k > 0 { lemma_items_grow(x, k - 1, s); lemma_chars_grow(x[k - 1], add_items(x, k - 1, s)); }
}
// ------------------------------------------------------------------ longer rows, more symbols
pub open spec fn row_pad(a: Seq<Vec<usize>>, b: Seq<Vec<usize>>) -> bool {
    &&& a.len() <= b.len()
    &&& forall|j: int| 0 <= j < b.len() ==> (#[trigger] b[j])@ == (if j < a.len() { a[j]@ } else { Seq::<usize>::empty() })
}
pub open spec fn st_pad(x: NfaState, y: NfaState) -> bool { y.name@ == x.name@ && y.initial == x.initial && y.accepting == x.accepting && y.epsilon_transitions@ == x.epsilon_transitions@ && row_pad(x.transitions@, y.transitions@) }
pub open spec fn sts_pad(a: Seq<NfaState>, b: Seq<NfaState>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> st_pad(a[i], #[trigger] b[i]) }
pub proof fn lemma_pad_eps(x: NfaState, y: NfaState, e: Seq<usize>)
    requires st_pad(x, y), node_eps(x, e),
    ensures node_eps(y, e),
{
    assert forall|j: int| 0 <= j < y.transitions@.len() implies (#[trigger] y.transitions@[j])@.len() == 0 by { if j < x.transitions@.len() { assert(x.transitions@[j]@.len() == 0); } }
}
pub proof fn lemma_pad_chr(x: NfaState, y: NfaState, c: Seq<char>, s: Syms, s2: Syms, out: usize)
    requires st_pad(x, y), node_chr(x, c, s, out), sprefix(s, s2),
    ensures node_chr(y, c, s2, out),
{
    let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == c && row_chr(x.transitions@, i, out);
    assert(s2[i] == c);
    assert(row_chr(y.transitions@, i, out)) by {
        let t = y.transitions@;
        assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j])@ == (if j == i { seq![out] } else { Seq::<usize>::empty() }) by { if j < x.transitions@.len() { assert(x.transitions@[j]@ == t[j]@); } }
    }
}
pub proof fn lemma_pad_sub(a: Seq<NfaState>, b: Seq<NfaState>, o: int, n: int)
    requires sts_pad(a, b), 0 <= o, 0 <= n, o + n <= a.len(),
    ensures sts_pad(sub(a, o, n), sub(b, o, n)),
{
    assert forall|i: int| 0 <= i < n implies st_pad(sub(a, o, n)[i], #[trigger] sub(b, o, n)[i]) by { assert(st_pad(a[o + i], b[o + i])); }
}
pub proof fn lemma_frag_pad(t: RegexTree, st: Seq<NfaState>, c0: int, out: usize, s: Syms, st2: Seq<NfaState>, s2: Syms)
    requires frag(t, st, c0, out, s), sts_pad(st, st2), sprefix(s, s2),
    ensures frag(t, st2, c0, out, s2),
    decreases t,
{
    lemma_nodes_pos(t);
    assert(st_pad(st[0], st2[0]));
    assert(st2.skip(1).take(st.len() - 1) =~= st2.skip(1));
    let b = st.skip(1);
    let b2 = st2.skip(1);
    assert(b =~= sub(st, 1, st.len() - 1) && b2 =~= sub(st2, 1, st.len() - 1));
    lemma_pad_sub(st, st2, 1, st.len() - 1);
    match t {
        RegexTree::Sequence(x) => {
            lemma_pad_eps(st[0], st2[0], if x@.len() == 0 { seq![out] } else { seq![us(c0 + 2)] });
            assert forall|i: int| #[trigger] ridx_(i) && 0 <= i < x@.len() implies sitem(x@, i, b2, c0 + 1, out, s2) by {
                assert(sitem(x@, i, b, c0 + 1, out, s));
                lemma_snodes_mono(x@, i + 1, x@.len() as int); lemma_sitem_pad(x@, i, b, c0 + 1, out, s, b2, s2);
            }
        },
        RegexTree::Alt(x) => {
            lemma_pad_eps(st[0], st2[0], Seq::new(x@.len(), |i: int| us(c0 + 1 + anodes(x@, i))));
            assert forall|i: int| #[trigger] ridx_(i) && 0 <= i < x@.len() implies aitem(x@, i, b2, c0 + 1, out, s2) by {
                assert(aitem(x@, i, b, c0 + 1, out, s));
                lemma_anodes_mono(x@, i + 1, x@.len() as int); lemma_aitem_pad(x@, i, b, c0 + 1, out, s, b2, s2);
            }
        },
        RegexTree::Repeat(r) => { lemma_pad_eps(st[0], st2[0], seq![us(c0 + 1), out]); lemma_frag_pad(*r, b, c0 + 1, us(c0), s, b2, s2); },
        RegexTree::Char(RegexChar::Grapheme(g)) => { lemma_pad_chr(st[0], st2[0], g@, s, s2, out); },
        RegexTree::Char(RegexChar::Epsilon) => { lemma_pad_eps(st[0], st2[0], seq![out]); },
        RegexTree::Char(RegexChar::Empty) => { lemma_pad_eps(st[0], st2[0], Seq::<usize>::empty()); },
    }
}
// b2 may be longer than b
pub proof fn lemma_sitem_pad(x: Seq<RegexTree>, i: int, b: Seq<NfaState>, base: int, out: usize, s: Syms, b2: Seq<NfaState>, s2: Syms)
    requires 0 <= i < x.len(), sitem(x, i, b, base, out, s), snodes(x, i + 1) <= b.len() <= b2.len(), sts_pad(b, b2.take(b.len() as int)), sprefix(s, s2),
    ensures sitem(x, i, b2, base, out, s2),
    decreases x,
{
    let o = snodes(x, i);
    let n = nodes(x[i]);
    lemma_snodes_mono(x, i, i + 1);
    lemma_nodes_pos(x[i]);
    let e = b2.take(b.len() as int);
    assert(e[o] == b2[o]);
    assert(st_pad(b[o], e[o]));
    lemma_pad_eps(b[o], b2[o], seq![if i + 1 == x.len() { out } else { us(base + snodes(x, i + 1) + 1) }]);
    lemma_pad_sub(b, e, o + 1, n);
    assert(sub(e, o + 1, n) =~= sub(b2, o + 1, n));
    lemma_frag_pad(x[i], sub(b, o + 1, n), base + o + 1, us(base + o), s, sub(b2, o + 1, n), s2);
}
pub proof fn lemma_aitem_pad(x: Seq<RegexTree>, i: int, b: Seq<NfaState>, base: int, out: usize, s: Syms, b2: Seq<NfaState>, s2: Syms)
    requires 0 <= i < x.len(), aitem(x, i, b, base, out, s), anodes(x, i + 1) <= b.len() <= b2.len(), sts_pad(b, b2.take(b.len() as int)), sprefix(s, s2),
    ensures aitem(x, i, b2, base, out, s2),
    decreases x,
{
    let o = anodes(x, i);
    let n = nodes(x[i]);
    lemma_anodes_mono(x, i, i + 1);
    lemma_nodes_pos(x[i]);
    let e = b2.take(b.len() as int);
    lemma_pad_sub(b, e, o, n);
    assert(sub(e, o, n) =~= sub(b2, o, n));
    lemma_frag_pad(x[i], sub(b, o, n), base + o, out, s, sub(b2, o, n), s2);
}
