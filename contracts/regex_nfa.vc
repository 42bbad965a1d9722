@raw
// ------------------------------------------------------------------ the symbols met so far and their numbers
pub struct GraphemeIdx { pub char_map: HMap<Str, usize>, pub idx_acc: RangeFrom_ }
impl GraphemeIdx {
    pub open spec fn ok(&self, s: Syms) -> bool {
        &&& s.no_duplicates() && self.idx_acc.cur == s.len()
        &&& forall|c: Seq<char>| #[trigger] self.char_map@.contains_key(c) <==> s.contains(c)
        &&& forall|i: int| 0 <= i < s.len() ==> self.char_map@[#[trigger] s[i]] == i
    }
    pub open spec fn syms(&self) -> Syms { choose|s: Syms| #[trigger] self.ok(s) }
    pub open spec fn wf(&self) -> bool { self.ok(self.syms()) }
}
pub proof fn lemma_gsyms(g: &GraphemeIdx, s: Syms)
    requires g.ok(s),
    ensures g.wf(), g.syms() == s,
{
    let t = g.syms();
    assert(g.ok(t));
    assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by {
        assert(s.contains(s[i])); assert(g.char_map@.contains_key(s[i]));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == s[i];
        assert(g.char_map@[t[j]] == j && g.char_map@[s[i]] == i);
    }
    assert(s =~= t);
}
pub proof fn lemma_spush(a: Syms, x: Seq<char>, y: Seq<char>)
    ensures a.push(x).contains(y) <==> a.contains(y) || x == y,
{
    if a.push(x).contains(y) { let i = choose|i: int| 0 <= i < a.len() + 1 && a.push(x)[i] == y; if i < a.len() { assert(a[i] == y); } }
    if a.contains(y) { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; assert(a.push(x)[i] == y); }
    assert(a.push(x)[a.len() as int] == x);
}
// names, flags and targets of the states rnumbered from c0
pub open spec fn tgts(a: Seq<usize>, lo: int, hi: int, out: usize) -> bool { forall|i: int| 0 <= i < a.len() ==> lo <= (#[trigger] a[i]) < hi || a[i] == out }
pub open spec fn flat1(x: NfaState, i: int, lo: int, hi: int, out: usize, m: int) -> bool {
    &&& x.name@ == dec(i) && !x.initial && !x.accepting && x.transitions@.len() <= m
    &&& tgts(x.epsilon_transitions@, lo, hi, out)
    &&& forall|j: int| 0 <= j < x.transitions@.len() ==> tgts((#[trigger] x.transitions@[j])@, lo, hi, out)
}
pub open spec fn rflat(st: Seq<NfaState>, c0: int, lo: int, hi: int, out: usize, m: int) -> bool { forall|i: int| 0 <= i < st.len() ==> flat1(#[trigger] st[i], c0 + i, lo, hi, out, m) }
pub proof fn lemma_flat1_wide(x: NfaState, i: int, lo: int, hi: int, out: usize, m: int, lo2: int, hi2: int, out2: usize, m2: int)
    requires flat1(x, i, lo, hi, out, m), lo2 <= lo, hi <= hi2, m <= m2, lo2 <= out < hi2 || out == out2,
    ensures flat1(x, i, lo2, hi2, out2, m2),
{
    assert forall|j: int| 0 <= j < x.transitions@.len() implies tgts((#[trigger] x.transitions@[j])@, lo2, hi2, out2) by { assert(tgts(x.transitions@[j]@, lo, hi, out)); }
}
pub proof fn lemma_flat_wide(st: Seq<NfaState>, c0: int, lo: int, hi: int, out: usize, m: int, lo2: int, hi2: int, out2: usize, m2: int)
    requires rflat(st, c0, lo, hi, out, m), lo2 <= lo, hi <= hi2, m <= m2, lo2 <= out < hi2 || out == out2,
    ensures rflat(st, c0, lo2, hi2, out2, m2),
{
    assert forall|i: int| 0 <= i < st.len() implies flat1(#[trigger] st[i], c0 + i, lo2, hi2, out2, m2) by { lemma_flat1_wide(st[i], c0 + i, lo, hi, out, m, lo2, hi2, out2, m2); }
}
pub proof fn lemma_flat_cat(a: Seq<NfaState>, b: Seq<NfaState>, c0: int, lo: int, hi: int, out: usize, m: int)
    requires rflat(a, c0, lo, hi, out, m), rflat(b, c0 + a.len(), lo, hi, out, m),
    ensures rflat(a + b, c0, lo, hi, out, m),
{
    assert forall|i: int| 0 <= i < (a + b).len() implies flat1(#[trigger] (a + b)[i], c0 + i, lo, hi, out, m) by {
        if i < a.len() { assert(flat1(a[i], c0 + i, lo, hi, out, m)); } else { assert(flat1(b[i - a.len()], c0 + a.len() + (i - a.len()), lo, hi, out, m)); }
    }
}
pub proof fn lemma_flat_one(x: NfaState, c0: int, lo: int, hi: int, out: usize, m: int)
    requires flat1(x, c0, lo, hi, out, m),
    ensures rflat(seq![x], c0, lo, hi, out, m),
{
    assert(seq![x][0] == x);
}
// the first k items of a sequence
pub open spec fn sitems(x: Seq<RegexTree>, k: int, b: Seq<NfaState>, base: int, out: usize, s: Syms) -> bool { b.len() == snodes(x, k) && forall|i: int| #[trigger] ridx_(i) && 0 <= i < k ==> sitem(x, i, b, base, out, s) }
pub open spec fn aitems(x: Seq<RegexTree>, k: int, b: Seq<NfaState>, base: int, out: usize, s: Syms) -> bool { b.len() == anodes(x, k) && forall|i: int| #[trigger] ridx_(i) && 0 <= i < k ==> aitem(x, i, b, base, out, s) }
pub proof fn lemma_pad_refl(b: Seq<NfaState>)
    ensures sts_pad(b, b),
{
}
pub proof fn lemma_sitems_push(x: Seq<RegexTree>, k: int, b: Seq<NfaState>, base: int, out: usize, s: Syms, a: NfaState, f: Seq<NfaState>, s2: Syms)
    requires 0 < k <= x.len(), sitems(x, k - 1, b, base, out, s), sprefix(s, s2),
        node_eps(a, seq![if k == x.len() { out } else { us(base + snodes(x, k) + 1) }]), frag(x[k - 1], f, base + snodes(x, k - 1) + 1, us(base + snodes(x, k - 1)), s2),
    ensures sitems(x, k, b + seq![a] + f, base, out, s2),
{
    let b2 = b + seq![a] + f;
    assert(f.len() == nodes(x[k - 1]));
    lemma_snodes_mono(x, 0, k - 1);
    assert forall|i: int| #[trigger] ridx_(i) && 0 <= i < k implies sitem(x, i, b2, base, out, s2) by {
        if i < k - 1 {
            lemma_snodes_mono(x, i + 1, k - 1);
            assert(b2.take(b.len() as int) =~= b);
            lemma_pad_refl(b);
            assert(sitem(x, i, b, base, out, s));
            lemma_sitem_pad(x, i, b, base, out, s, b2, s2);
        } else {
            assert(b2[b.len() as int] == a);
            assert(sub(b2, b.len() as int + 1, f.len() as int) =~= f);
        }
    }
}
pub proof fn lemma_aitems_push(x: Seq<RegexTree>, k: int, b: Seq<NfaState>, base: int, out: usize, s: Syms, f: Seq<NfaState>, s2: Syms)
    requires 0 < k <= x.len(), aitems(x, k - 1, b, base, out, s), sprefix(s, s2), frag(x[k - 1], f, base + anodes(x, k - 1), out, s2),
    ensures aitems(x, k, b + f, base, out, s2),
{
    let b2 = b + f;
    assert(f.len() == nodes(x[k - 1]));
    lemma_anodes_mono(x, 0, k - 1);
    assert forall|i: int| #[trigger] ridx_(i) && 0 <= i < k implies aitem(x, i, b2, base, out, s2) by {
        if i < k - 1 {
            lemma_anodes_mono(x, i + 1, k - 1);
            assert(b2.take(b.len() as int) =~= b);
            lemma_pad_refl(b);
            assert(aitem(x, i, b, base, out, s));
            lemma_aitem_pad(x, i, b, base, out, s, b2, s2);
        } else {
            assert(sub(b2, b.len() as int, f.len() as int) =~= f);
        }
    }
}
pub proof fn lemma_frag_seq(x: Vec<RegexTree>, a: NfaState, b: Seq<NfaState>, c0: int, out: usize, s: Syms)
    requires x@.len() > 0, node_eps(a, seq![us(c0 + 2)]), sitems(x@, x@.len() as int, b, c0 + 1, out, s),
    ensures frag(RegexTree::Sequence(x), seq![a] + b, c0, out, s),
{
    let st = seq![a] + b;
    assert(st.skip(1) =~= b);
    assert forall|i: int| #[trigger] ridx_(i) && 0 <= i < x@.len() implies sitem(x@, i, st.skip(1), c0 + 1, out, s) by { assert(sitem(x@, i, b, c0 + 1, out, s)); }
}
pub proof fn lemma_frag_alt(x: Vec<RegexTree>, a: NfaState, b: Seq<NfaState>, c0: int, out: usize, s: Syms)
    requires node_eps(a, Seq::new(x@.len(), |i: int| us(c0 + 1 + anodes(x@, i)))), aitems(x@, x@.len() as int, b, c0 + 1, out, s),
    ensures frag(RegexTree::Alt(x), seq![a] + b, c0, out, s),
{
    let st = seq![a] + b;
    assert(st.skip(1) =~= b);
    assert forall|i: int| #[trigger] ridx_(i) && 0 <= i < x@.len() implies aitem(x@, i, st.skip(1), c0 + 1, out, s) by { assert(aitem(x@, i, b, c0 + 1, out, s)); }
}
pub proof fn lemma_frag_rep(r: Box<RegexTree>, a: NfaState, b: Seq<NfaState>, c0: int, out: usize, s: Syms)
    requires node_eps(a, seq![us(c0 + 1), out]), frag(*r, b, c0 + 1, us(c0), s),
    ensures frag(RegexTree::Repeat(r), seq![a] + b, c0, out, s),
{
    assert((seq![a] + b).skip(1) =~= b);
}
pub proof fn lemma_ntake(s: Seq<NfaState>, k: int)
    requires 0 < k <= s.len(),
    ensures s.take(k) == s.take(k - 1).push(s[k - 1]),
{
    assert(s.take(k) =~= s.take(k - 1).push(s[k - 1]));
}
// a tree that is one state
pub open spec fn eps_is(x: NfaState, e: Seq<usize>) -> bool { x.epsilon_transitions@ =~= e && quiet(x.transitions@) }
pub open spec fn leafc(t: RegexTree, x: NfaState, out: usize, s: Syms) -> bool {
    match t {
        RegexTree::Sequence(v) => v@.len() == 0 && eps_is(x, seq![out]),
        RegexTree::Char(RegexChar::Grapheme(g)) => node_chr(x, g@, s, out),
        RegexTree::Char(RegexChar::Epsilon) => eps_is(x, seq![out]),
        RegexTree::Char(RegexChar::Empty) => eps_is(x, Seq::<usize>::empty()),
        _ => false,
    }
}
pub proof fn lemma_leaf(t: RegexTree, c0: int, out: usize, s: Syms)
    ensures forall|st: Seq<NfaState>, s: Syms| st.len() == 1 && leafc(t, st[0], out, s) ==> #[trigger] frag(t, st, c0, out, s),
        forall|st: Seq<NfaState>, hi: int, m: int| st.len() == 1 && flat1(st[0], c0, c0, hi, out, m) ==> #[trigger] rflat(st, c0, c0, hi, out, m),
        nodes(t) >= 1,
        match t {
            RegexTree::Sequence(x) => nodes(t) == 1 + snodes(x@, x@.len() as int) && snodes(x@, x@.len() as int) >= 2 * x@.len() && add_chars(t, s) == add_items(x@, x@.len() as int, s) && (x@.len() == 0 ==> nodes(t) == 1 && add_chars(t, s) == s),
            RegexTree::Alt(x) => nodes(t) == 1 + anodes(x@, x@.len() as int) && add_chars(t, s) == add_items(x@, x@.len() as int, s),
            RegexTree::Repeat(r) => nodes(t) == 1 + nodes(*r) && nodes(*r) >= 1 && add_chars(t, s) == add_chars(*r, s),
            RegexTree::Char(RegexChar::Grapheme(g)) => nodes(t) == 1 && add_chars(t, s) == (if s.contains(g@) { s } else { s.push(g@) }),
            RegexTree::Char(_) => nodes(t) == 1 && add_chars(t, s) == s,
        },
{
    lemma_nodes_pos(t);
    match t { RegexTree::Sequence(x) => { lemma_snodes_mono(x@, 0, x@.len() as int); }, RegexTree::Repeat(r) => { lemma_nodes_pos(*r); }, _ => {} }
}
pub proof fn lemma_loop_start(x: Seq<RegexTree>, base: int, lo: int, hi: int, out: usize, s: Syms, m: int)
    ensures sitems(x, 0, Seq::<NfaState>::empty(), base, out, s), aitems(x, 0, Seq::<NfaState>::empty(), base, out, s), rflat(Seq::<NfaState>::empty(), base, lo, hi, out, m),
        snodes(x, 0) == 0, anodes(x, 0) == 0, add_items(x, 0, s) == s,
{
}
pub proof fn lemma_loop_step(x: Seq<RegexTree>, k: int, s: Syms)
    requires 0 < k <= x.len(), s.no_duplicates(),
    ensures snodes(x, k) == snodes(x, k - 1) + 1 + nodes(x[k - 1]), anodes(x, k) == anodes(x, k - 1) + nodes(x[k - 1]), add_items(x, k, s) == add_chars(x[k - 1], add_items(x, k - 1, s)),
        0 <= snodes(x, k - 1), 0 <= anodes(x, k - 1), snodes(x, k) + 2 * (x.len() - k) <= snodes(x, x.len() as int), anodes(x, k) + (x.len() - k) <= anodes(x, x.len() as int), nodes(x[k - 1]) >= 1,
        sprefix(add_items(x, k - 1, s), add_items(x, k, s)),
{
    lemma_snodes_mono(x, k, x.len() as int); lemma_snodes_mono(x, 0, k - 1); lemma_anodes_mono(x, k, x.len() as int); lemma_anodes_mono(x, 0, k - 1); lemma_nodes_pos(x[k - 1]); lemma_items_grow(x, k, s);
}
pub proof fn lemma_items_len(x: Seq<RegexTree>, k: int, b: Seq<NfaState>, base: int, out: usize, s: Syms)
    ensures sitems(x, k, b, base, out, s) ==> b.len() == snodes(x, k), aitems(x, k, b, base, out, s) ==> b.len() == anodes(x, k),
{
}
pub proof fn lemma_frag_len(t: RegexTree, b: Seq<NfaState>, c0: int, out: usize, s: Syms)
    requires frag(t, b, c0, out, s),
    ensures b.len() == nodes(t),
{
}
@fn dandy/src/regex/mod.rs StateCounter::new
@sig
    ensures r.state == 0,
@fn dandy/src/regex/mod.rs StateCounter::next
@sig
    requires old(self).state < usize::MAX,
    ensures r == old(self).state, final(self).state == r + 1,
@fn dandy/src/regex/mod.rs StateCounter::peek
@sig
    ensures r == self.state,
@fn dandy/src/regex/mod.rs Regex::to_nfa/grapheme_idx
@hoist grapheme_idx GraphemeIdx char_map,idx_acc
@sig
    requires old(self).wf(), old(self).syms().len() < usize::MAX,
    ensures final(self).wf(), final(self).syms() == (if old(self).syms().contains(g@) { old(self).syms() } else { old(self).syms().push(g@) }), r < final(self).syms().len(), final(self).syms()[r as int] == g@,
@start
    let ghost s0 = self.syms();
@end
    proof {
        let c = g@;
        if s0.contains(c) {
            lemma_gsyms(self, s0);
            let i = choose|i: int| 0 <= i < s0.len() && s0[i] == c;
            assert(self.char_map@[s0[i]] == i);
        } else {
            let s1 = s0.push(c);
            assert(s1.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s1.len() && 0 <= j < s1.len() && i != j implies s1[i] != s1[j] by { if i < s0.len() { assert(s0.contains(s0[i])); } if j < s0.len() { assert(s0.contains(s0[j])); } } }
            assert forall|d: Seq<char>| #[trigger] self.char_map@.contains_key(d) <==> s1.contains(d) by { lemma_spush(s0, c, d); }
            assert forall|i: int| 0 <= i < s1.len() implies self.char_map@[#[trigger] s1[i]] == i by { if i < s0.len() { assert(s0[i] == s1[i]); assert(s0.contains(s0[i])); } }
            lemma_gsyms(self, s1);
            assert(s1[s0.len() as int] == c);
        }
    }
@fn dandy/src/regex/mod.rs Regex::tree_to_nfa
@hoist grapheme_idx GraphemeIdx char_map,idx_acc
@hide frag sitem aitem sitems aitems rflat snodes anodes nodes add_items add_chars rlang
@sig
    requires old(counter).state + nodes(tree) <= usize::MAX, old(grapheme_idx).wf(), old(grapheme_idx).syms().len() <= old(counter).state,
    ensures final(counter).state == old(counter).state + nodes(tree), final(grapheme_idx).wf(), final(grapheme_idx).syms() == add_chars(tree, old(grapheme_idx).syms()),
        final(grapheme_idx).syms().len() <= final(counter).state,
        frag(tree, r@, old(counter).state as int, send_to, final(grapheme_idx).syms()),
        rflat(r@, old(counter).state as int, old(counter).state as int, final(counter).state as int, send_to, final(grapheme_idx).syms().len() as int),
@start
    let ghost t0 = tree;
    let ghost c0 = counter.state as int;
    let ghost s0 = grapheme_idx.syms();
    let ghost hi = c0 + nodes(tree);
    proof { lemma_leaf(t0, c0, send_to, s0); lemma_chars_grow(tree, s0); }
@let seq_len
    let ghost sx = (t0->Sequence_0)@;
    proof { lemma_loop_start(sx, c0 + 1, c0, hi, send_to, s0, s0.len() as int); }
@acc 1 Vec<NfaState>
@loop 1 inv
    it1_seq == sx, counter.state == c0 + 1 + snodes(sx, it1.pos()), grapheme_idx.wf(), grapheme_idx.syms() == add_items(sx, it1.pos(), s0), grapheme_idx.syms().len() <= counter.state,
    sitems(sx, it1.pos(), acc1@, c0 + 1, send_to, grapheme_idx.syms()),
    rflat(acc1@, c0 + 1, c0, hi, send_to, grapheme_idx.syms().len() as int),
@loop 1 beg
    let ghost sp = grapheme_idx.syms();
    let ghost a1 = acc1@;
    let ghost k = it1.pos();
    proof { lemma_loop_step(sx, k, s0); lemma_items_len(sx, k - 1, a1, c0 + 1, send_to, sp); }
@loop 2 inv
    acc1@ == a1 + it2_seq.take(it2.pos()),
@loop 2 beg
    proof { lemma_ntake(it2_seq, it2.pos()); }
@loop 2 end
    proof { assert(acc1@ =~= a1 + it2_seq.take(it2.pos())); }
@loop 2 post
    proof { assert(it2_seq.take(it2.pos()) =~= it2_seq); }
@loop 3 pre
    proof { assert(acc1@ + it3_seq.take(0) =~= acc1@); }
@loop 3 inv
    acc1@ == a1 + it2_seq + it3_seq.take(it3.pos()),
@loop 3 beg
    proof { lemma_ntake(it3_seq, it3.pos()); }
@loop 3 end
    proof { assert(acc1@ =~= a1 + it2_seq + it3_seq.take(it3.pos())); }
@loop 3 post
    proof {
        assert(it3_seq.take(it3.pos()) =~= it3_seq);
        let a = it2_seq[0];
        let s2 = grapheme_idx.syms();
        let m = s2.len() as int;
        assert(it2_seq =~= seq![a]);
        lemma_sitems_push(sx, k, a1, c0 + 1, send_to, sp, a, it3_seq, s2);
        lemma_flat_wide(a1, c0 + 1, c0, hi, send_to, sp.len() as int, c0, hi, send_to, m);
        lemma_flat_one(a, c0 + 1 + a1.len(), c0, hi, send_to, m);
        lemma_flat_cat(a1, seq![a], c0 + 1, c0, hi, send_to, m);
        let ao = (c0 + 1 + a1.len()) as usize;
        lemma_flat_wide(it3_seq, ao + 1, ao + 1, c0 + 1 + snodes(sx, k), ao, m, c0, hi, send_to, m);
        lemma_flat_cat(a1 + seq![a], it3_seq, c0 + 1, c0, hi, send_to, m);
    }
@let states
    let ghost b1 = states@;
@call append#1
    proof {
        let a = ret@[0];
        assert(ret@ =~= seq![a] + b1);
        let s2 = grapheme_idx.syms();
        lemma_frag_seq(t0->Sequence_0, a, b1, c0, send_to, s2);
        lemma_flat_one(a, c0, c0, hi, send_to, s2.len() as int);
        lemma_flat_cat(seq![a], b1, c0, c0, hi, send_to, s2.len() as int);
    }
@acc 4 Vec<NfaState>
@loop 4 pre
    let ghost ax = (t0->Alt_0)@;
    proof { lemma_loop_start(ax, c0 + 1, c0, hi, send_to, s0, s0.len() as int); assert(Seq::new(0, |i: int| us(c0 + 1 + anodes(ax, i))) =~= Seq::<usize>::empty()); }
@loop 4 inv
    it4_seq == ax, counter.state == c0 + 1 + anodes(ax, it4.pos()), grapheme_idx.wf(), grapheme_idx.syms() == add_items(ax, it4.pos(), s0), grapheme_idx.syms().len() <= counter.state,
    aitems(ax, it4.pos(), acc4@, c0 + 1, send_to, grapheme_idx.syms()),
    rflat(acc4@, c0 + 1, c0, hi, send_to, grapheme_idx.syms().len() as int),
    incoming_state.epsilon_transitions@ == Seq::new(it4.pos() as nat, |i: int| us(c0 + 1 + anodes(ax, i))),
    incoming_state.transitions@.len() == 0, incoming_state.name@ == dec(c0), !incoming_state.initial, !incoming_state.accepting,
    tgts(incoming_state.epsilon_transitions@, c0, hi, send_to),
@loop 4 beg
    let ghost sp = grapheme_idx.syms();
    let ghost a4 = acc4@;
    let ghost e4 = incoming_state.epsilon_transitions@;
    let ghost k = it4.pos();
    proof { lemma_loop_step(ax, k, s0); lemma_items_len(ax, k - 1, a4, c0 + 1, send_to, sp); }
@loop 5 inv
    acc4@ == a4 + it5_seq.take(it5.pos()),
@loop 5 beg
    proof { lemma_ntake(it5_seq, it5.pos()); }
@loop 5 end
    proof { assert(acc4@ =~= a4 + it5_seq.take(it5.pos())); }
@loop 5 post
    proof {
        assert(it5_seq.take(it5.pos()) =~= it5_seq);
        let s2 = grapheme_idx.syms();
        let m = s2.len() as int;
        lemma_aitems_push(ax, k, a4, c0 + 1, send_to, sp, it5_seq, s2);
        lemma_flat_wide(a4, c0 + 1, c0, hi, send_to, sp.len() as int, c0, hi, send_to, m);
        let ao = c0 + 1 + anodes(ax, k - 1);
        lemma_flat_wide(it5_seq, ao, ao, c0 + 1 + anodes(ax, k), send_to, m, c0, hi, send_to, m);
        lemma_flat_cat(a4, it5_seq, c0 + 1, c0, hi, send_to, m);
        assert(incoming_state.epsilon_transitions@ =~= Seq::new(k as nat, |i: int| us(c0 + 1 + anodes(ax, i))));
        assert(incoming_state.epsilon_transitions@ == e4.push(us(ao)));
    }
@let additional#1
    let ghost b2 = additional@;
@call append#2
    proof {
        let a = ret@[0];
        assert(ret@ =~= seq![a] + b2);
        let s2 = grapheme_idx.syms();
        lemma_frag_alt(t0->Alt_0, a, b2, c0, send_to, s2);
        lemma_flat_one(a, c0, c0, hi, send_to, s2.len() as int);
        lemma_flat_cat(seq![a], b2, c0, c0, hi, send_to, s2.len() as int);
    }
@let additional#2
    let ghost b3 = additional@;
@call append#3
    proof {
        let a = ret@[0];
        assert(ret@ =~= seq![a] + b3);
        let s2 = grapheme_idx.syms();
        lemma_frag_rep(t0->Repeat_0, a, b3, c0, send_to, s2);
        lemma_flat_one(a, c0, c0, hi, send_to, s2.len() as int);
        lemma_flat_wide(b3, c0 + 1, c0 + 1, hi, us(c0), s2.len() as int, c0, hi, send_to, s2.len() as int);
        lemma_flat_cat(seq![a], b3, c0, c0, hi, send_to, s2.len() as int);
    }
@call push#8
    proof {
        let tv = transition_vec@;
        assert(tv[cidx as int]@ =~= seq![send_to]);
        assert forall|j: int| 0 <= j < tv.len() implies (#[trigger] tv[j])@ == (if j == cidx { seq![send_to] } else { Seq::<usize>::empty() }) by { if j != cidx { assert(tv[j]@ =~= Seq::<usize>::empty()); } }
        assert(row_chr(tv, cidx as int, send_to));
        assert(grapheme_idx.syms()[cidx as int] == g@);
    }
@raw
// the symbols sorted by their numbers
pub proof fn lemma_sorted_syms(g: Map<Seq<char>, usize>, s: Syms, a: Seq<(Str, usize)>, keys: Seq<usize>, p: Seq<int>, b: Seq<(Str, usize)>)
    requires s.no_duplicates(), forall|c: Seq<char>| #[trigger] g.contains_key(c) <==> s.contains(c), forall|i: int| 0 <= i < s.len() ==> g[#[trigger] s[i]] == i,
        entries(a, g), keys.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] keys[i] == a[i].1,
        sort_perm(keys, p), b.len() == a.len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] b[i] == a[p[i]],
    ensures b.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] b[i]).0@ == s[i],
{
    assert(g.dom() =~= s.to_set());
    s.unique_seq_to_set();
    let f = Seq::new(b.len(), |i: int| keys[p[i]] as int);
    assert forall|i: int| 0 <= i < a.len() implies s[(#[trigger] a[i]).1 as int] == a[i].0@ && 0 <= a[i].1 < s.len() by {
        assert(g.contains_key(a[i].0.kv())); assert(g[a[i].0@] == a[i].1);
        let j = choose|j: int| 0 <= j < s.len() && s[j] == a[i].0@;
        assert(g[s[j]] == j);
    }
    assert forall|x: int, y: int| 0 <= x < y < f.len() implies f[x] < f[y] by {
        let i = p[x]; let j = p[y];
        assert(a[i].0.kv() != a[j].0.kv());
        assert(keys[i] == a[i].1 && keys[j] == a[j].1);
        assert(s[a[i].1 as int] == a[i].0@ && s[a[j].1 as int] == a[j].0@);
    }
    assert forall|x: int| 0 <= x < f.len() implies 0 <= #[trigger] f[x] < f.len() by { let i = p[x]; assert(keys[i] == a[i].1); }
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] b[i]).0@ == s[i] by {
        lemma_filled(f, i);
        let j = p[i]; assert(keys[j] == a[j].1);
        assert(b[i] == a[p[i]]);
    }
}
// an increasing list of n numbers below n is 0, 1, .., n - 1
pub proof fn lemma_filled(f: Seq<int>, i: int)
    requires forall|a: int, b: int| 0 <= a < b < f.len() ==> f[a] < f[b], forall|a: int| 0 <= a < f.len() ==> 0 <= #[trigger] f[a] < f.len(), 0 <= i < f.len(),
    ensures f[i] == i,
{
    lemma_filled_low(f, i);
    lemma_filled_high(f, i);
}
pub proof fn lemma_filled_low(f: Seq<int>, i: int)
    requires forall|a: int, b: int| 0 <= a < b < f.len() ==> f[a] < f[b], forall|a: int| 0 <= a < f.len() ==> 0 <= #[trigger] f[a] < f.len(), 0 <= i < f.len(),
    ensures f[i] >= i,
    decreases i,
{
    if i > 0 { lemma_filled_low(f, i - 1); assert(f[i - 1] < f[i]); }
}
pub proof fn lemma_filled_high(f: Seq<int>, i: int)
    requires forall|a: int, b: int| 0 <= a < b < f.len() ==> f[a] < f[b], forall|a: int| 0 <= a < f.len() ==> 0 <= #[trigger] f[a] < f.len(), 0 <= i < f.len(),
    ensures f[i] <= i,
    decreases f.len() - i,
{
    if i + 1 < f.len() { lemma_filled_high(f, i + 1); assert(f[i] < f[i + 1]); }
}
pub proof fn lemma_syms_len(g: Map<Seq<char>, usize>, s: Syms)
    requires s.no_duplicates(), forall|c: Seq<char>| #[trigger] g.contains_key(c) <==> s.contains(c),
    ensures g.dom().len() == s.len(),
{
    assert(g.dom() =~= s.to_set());
    s.unique_seq_to_set();
}
// a state whose table is filled up with empty cells
pub open spec fn padded(a: NfaState, b: NfaState, m: int) -> bool {
    st_pad(a, b) && b.transitions@.len() == m
}
pub proof fn lemma_to_nfa(n: &Nfa, t: RegexTree, s: Syms, st: Seq<NfaState>)
    requires s.no_duplicates(), n.alphabet@.map_values(|x: Str| x@) == s, n.initial_state == 1, sts_pad(st, n.states@), st.len() == nodes(t) + 2 <= usize::MAX,
        forall|i: int| 0 <= i < n.n() ==> (#[trigger] n.states@[i]).transitions@.len() == s.len(),
        frag(t, st.skip(2), 2, 0, s), rflat(st.skip(2), 2, 2, st.len() as int, 0, s.len() as int),
        st[0].name@ == dec(0), st[0].accepting, !st[0].initial, st[0].epsilon_transitions@.len() == 0, st[0].transitions@.len() == 0,
        st[1].name@ == dec(1), !st[1].accepting, st[1].initial, st[1].epsilon_transitions@ == seq![2usize], st[1].transitions@.len() == 0,
    ensures n.wf(), regex_nfa(n, t, s),
{
    lemma_nodes_pos(t);
    let u = n.states@;
    assert forall|i: int| 0 <= i < n.alphabet@.len() implies #[trigger] n.alphabet@[i]@ == s[i] by { assert(n.alphabet@.map_values(|x: Str| x@)[i] == s[i]); }
    assert(n.alphabet@.len() == n.alphabet@.map_values(|x: Str| x@).len());
    assert(st_pad(st[0], u[0]) && st_pad(st[1], u[1]));
    assert forall|i: int| 2 <= i < u.len() implies flat1(#[trigger] st[i], i, 2, st.len() as int, 0, s.len() as int) by { assert(st.skip(2)[i - 2] == st[i]); assert(flat1(st.skip(2)[i - 2], 2 + (i - 2), 2, st.len() as int, 0, s.len() as int)); }
    assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).name@ == dec(i) && u[i].initial == (i == 1) && u[i].accepting == (i == 0) by { assert(st_pad(st[i], u[i])); if i >= 2 { assert(flat1(st[i], i, 2, st.len() as int, 0, s.len() as int)); } }
    assert forall|q: int| 0 <= q < u.len() implies nstate_ok(#[trigger] u[q], n.alphabet@.len(), u.len()) by {
        let x = st[q]; let y = u[q];
        assert(st_pad(x, y));
        if q >= 2 { assert(flat1(x, q, 2, st.len() as int, 0, s.len() as int)); }
        assert forall|j: int| 0 <= j < y.transitions@.len() implies all_lt((#[trigger] y.transitions@[j])@, u.len()) by { if j < x.transitions@.len() { assert(tgts(x.transitions@[j]@, 2, st.len() as int, 0)); assert(y.transitions@[j]@ == x.transitions@[j]@); } }
    }
    assert forall|p: int, q: int| 0 <= p < u.len() && 0 <= q < u.len() && p != q implies (#[trigger] u[p]).name@ != (#[trigger] u[q]).name@ by { axiom_dec_inj(p, q); }
    let a = st.skip(2);
    let b = sub(u, 2, nodes(t));
    assert(sts_pad(a, b)) by { assert forall|i: int| 0 <= i < a.len() implies st_pad(a[i], #[trigger] b[i]) by { assert(st_pad(st[2 + i], u[2 + i])); } }
    lemma_frag_pad(t, a, 2, 0, s, b, s);
    assert(st[0].epsilon_transitions@ =~= Seq::<usize>::empty());
    lemma_pad_eps(st[0], u[0], Seq::<usize>::empty());
    lemma_pad_eps(st[1], u[1], seq![2usize]);
}

@raw
pub proof fn lemma_padded(a: NfaState, b: NfaState, m: int)
    requires a.transitions@.len() <= m, b.name == a.name, b.initial == a.initial, b.accepting == a.accepting, b.epsilon_transitions == a.epsilon_transitions, b.transitions@.len() == m,
        forall|i: int| 0 <= i < m ==> (#[trigger] b.transitions@[i])@ == (if i < a.transitions@.len() { a.transitions@[i]@ } else { Seq::<usize>::empty() }),
    ensures padded(a, b, m),
{
}

@fn dandy/src/regex/mod.rs Regex::to_nfa
@hoist grapheme_idx GraphemeIdx char_map,idx_acc
@sig
    requires nodes(self.tree) + 2 <= usize::MAX,
    ensures r.wf(), regex_nfa(&r, self.tree, add_chars(self.tree, Seq::empty())), forall|w: Word| #[trigger] naccepts(&r, w) <==> rlang(self.tree, w),
@start
    let ghost tree = self.tree;
    let ghost s = add_chars(tree, Seq::empty());
    let ghost mut g: Map<Seq<char>, usize> = Map::empty();
    let ghost mut st: Seq<NfaState> = seq![];
    let ghost mut a1: Seq<NfaState> = seq![];
@let tree_states
    let ghost ts = tree_states@;
@let accepting_state
    let ghost st0 = accepting_state;
@let initial_state
    let ghost st1 = initial_state;
    proof { assert(st1.epsilon_transitions@ =~= seq![2usize]); }
    proof {
        assert(grapheme_idx.ok(Seq::empty()));
        lemma_gsyms(&grapheme_idx, Seq::empty());
        lemma_nodes_pos(tree);
    }
@loop 1 pre
    proof {
        assert(grapheme_idx.ok(grapheme_idx.syms()));
        g = grapheme_idx.char_map@;
        st = all_states@;
        a1 = st;
        assert(st =~= seq![st0, st1] + ts);
        assert(st.skip(2) =~= ts);
        lemma_syms_len(g, s);
        assert forall|i: int| 2 <= i < st.len() implies (#[trigger] st[i]).transitions@.len() <= s.len() by { assert(ts[i - 2] == st[i]); assert(flat1(ts[i - 2], 2 + (i - 2), 2, st.len() as int, 0, s.len() as int)); }
    }
@loop 1 inv
    n1 == st.len(), a1 == all_states@, all_states@.len() == st.len(), grapheme_idx.ok(s), g == grapheme_idx.char_map@, g.dom().len() == s.len(),
    forall|i: int| 2 <= i < st.len() ==> (#[trigger] st[i]).transitions@.len() <= s.len(), st.len() >= 2, st[0].transitions@.len() == 0, st[1].transitions@.len() == 0,
    forall|i: int| 0 <= i < j1 ==> padded(st[i], #[trigger] all_states@[i], s.len() as int),
    forall|i: int| j1 <= i < st.len() ==> #[trigger] all_states@[i] == st[i],
@loop 1 end
    proof {
        assert forall|i: int| 0 <= i < j1 implies padded(st[i], #[trigger] all_states@[i], s.len() as int) by {
            if i < j1 - 1 { assert(all_states@[i] == a1[i]); } else { assert(a1[i] == st[i]); lemma_padded(st[i], all_states@[i], s.len() as int); }
        }
        assert forall|i: int| j1 <= i < st.len() implies #[trigger] all_states@[i] == st[i] by { assert(all_states@[i] == a1[i]); }
        a1 = all_states@;
    }
@loop 2 inv
    acc2@ == it2_seq.take(it2.pos()),
@loop 2 end
    proof { assert(acc2@ =~= it2_seq.take(it2.pos())); }
@loop 2 post
    proof { assert(acc2@ =~= it2_seq); }
@let sorted_map
    let ghost v0 = sorted_map@;
    let ghost mut ks: Seq<usize> = seq![];
@loop 3 inv
    it3_seq == v0, forall|i: int| 0 <= i < it3.pos() ==> keys3@[i] == (#[trigger] it3_seq[i]).1,
@loop 3 post
    proof { ks = keys3@; }
@call sort_by_key
    proof {
        let p = choose|p: Seq<int>| sort_perm(ks, p) && forall|i: int| 0 <= i < p.len() ==> #[trigger] sorted_map@[i] == v0[p[i]];
        lemma_sorted_syms(g, s, v0, ks, p, sorted_map@);
    }
@acc 4 Vec<Str>
@loop 4 inv
    it4_seq.len() == s.len(), forall|i: int| 0 <= i < it4_seq.len() ==> (#[trigger] it4_seq[i]).0@ == s[i],
    acc4@.len() == it4.pos(), forall|i: int| 0 <= i < it4.pos() ==> (#[trigger] acc4@[i])@ == s[i],
@end
    let ghost n = Nfa { alphabet, states, initial_state: 1 };
    proof {
        assert(n.alphabet@.map_values(|x: Str| x@) =~= s);
        lemma_to_nfa(&n, tree, s, st);
        assert forall|w: Word| #[trigger] naccepts(&n, w) <==> rlang(tree, w) by { theorem_regex_nfa(&n, tree, s, w); }
    }
