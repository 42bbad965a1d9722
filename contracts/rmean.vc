@raw
// ------------------------------------------------------------------ what is written means what was printed
pub open spec fn same_lang(a: S_RegexTree, b: S_RegexTree) -> bool { forall|w: Word| #[trigger] srl(a, w) == srl(b, w) }
pub open spec fn item_lang(s: Seq<S_RegexTree>, w: Word) -> bool { ssl(s, 0, w) }
pub proof fn lemma_ssl_shift(a: Seq<S_RegexTree>, b: Seq<S_RegexTree>, j: int, w: Word)
    requires 0 <= j <= b.len(),
    ensures ssl(a + b, a.len() + j, w) == ssl(b, j, w),
    decreases b.len() - j,
{
    let s = a + b;
    let i = a.len() + j;
    if j < b.len() {
        assert(s[i] == b[j]);
        assert forall|m: int| 0 <= m <= w.len() implies (srl(s[i], #[trigger] w.take(m)) == srl(b[j], w.take(m)) && ssl(s, i + 1, w.skip(m)) == ssl(b, j + 1, w.skip(m))) by { lemma_ssl_shift(a, b, j + 1, w.skip(m)); }
        if ssl(s, i, w) { let m = choose|m: int| 0 <= m <= w.len() && srl(s[i], #[trigger] w.take(m)) && ssl(s, i + 1, w.skip(m)); assert(srl(b[j], w.take(m))); }
        if ssl(b, j, w) { let m = choose|m: int| 0 <= m <= w.len() && srl(b[j], #[trigger] w.take(m)) && ssl(b, j + 1, w.skip(m)); assert(srl(s[i], w.take(m))); }
    }
}
pub proof fn lemma_cut(w: Word, m: int, n: int)
    requires 0 <= m <= w.len(), 0 <= n,
    ensures m + n <= w.len() ==> w.take(m + n).take(m) == w.take(m) && w.take(m + n).skip(m) == w.skip(m).take(n) && w.skip(m).skip(n) == w.skip(m + n),
{
    if m + n <= w.len() {
        assert(w.take(m + n).take(m) =~= w.take(m)); assert(w.take(m + n).skip(m) =~= w.skip(m).take(n)); assert(w.skip(m).skip(n) =~= w.skip(m + n));
    }
}
// a word of two lists one after the other falls into a word of each
pub proof fn lemma_ssl_split(a: Seq<S_RegexTree>, b: Seq<S_RegexTree>, i: int, w: Word) -> (n: int)
    requires 0 <= i <= a.len(), ssl(a + b, i, w),
    ensures 0 <= n <= w.len(), ssl(a, i, w.take(n)), ssl(b, 0, w.skip(n)),
    decreases a.len() - i,
{
    let s = a + b;
    if i < a.len() {
        let m = choose|m: int| 0 <= m <= w.len() && srl(s[i], #[trigger] w.take(m)) && ssl(s, i + 1, w.skip(m));
        assert(s[i] == a[i]);
        let k = lemma_ssl_split(a, b, i + 1, w.skip(m));
        lemma_cut(w, m, k);
        let v = w.take(m + k);
        assert(srl(a[i], v.take(m)) && ssl(a, i + 1, v.skip(m)));
        m + k
    } else {
        lemma_ssl_shift(a, b, 0, w);
        assert(w.skip(0) =~= w);
        0
    }
}
pub proof fn lemma_ssl_join(a: Seq<S_RegexTree>, b: Seq<S_RegexTree>, i: int, w: Word, n: int)
    requires 0 <= i <= a.len(), 0 <= n <= w.len(), ssl(a, i, w.take(n)), ssl(b, 0, w.skip(n)),
    ensures ssl(a + b, i, w),
    decreases a.len() - i,
{
    let s = a + b;
    if i < a.len() {
        let v = w.take(n);
        let m = choose|m: int| 0 <= m <= v.len() && srl(a[i], #[trigger] v.take(m)) && ssl(a, i + 1, v.skip(m));
        assert(s[i] == a[i]);
        lemma_cut(w, m, n - m);
        lemma_ssl_join(a, b, i + 1, w.skip(m), n - m);
        assert(srl(s[i], w.take(m)));
    } else {
        assert(w.skip(0) =~= w);
        lemma_ssl_shift(a, b, 0, w);
    }
}
pub open spec fn same_items(a: Seq<S_RegexTree>, b: Seq<S_RegexTree>) -> bool { forall|w: Word| #[trigger] item_lang(a, w) == item_lang(b, w) }
pub proof fn lemma_same_cat(a: Seq<S_RegexTree>, b: Seq<S_RegexTree>, c: Seq<S_RegexTree>, d: Seq<S_RegexTree>)
    requires same_items(a, c), same_items(b, d),
    ensures same_items(a + b, c + d),
{
    assert forall|w: Word| #[trigger] item_lang(a + b, w) == item_lang(c + d, w) by {
        if item_lang(a + b, w) { let n = lemma_ssl_split(a, b, 0, w); assert(item_lang(a, w.take(n)) && item_lang(b, w.skip(n))); assert(item_lang(c, w.take(n)) && item_lang(d, w.skip(n))); lemma_ssl_join(c, d, 0, w, n); }
        if item_lang(c + d, w) { let n = lemma_ssl_split(c, d, 0, w); assert(item_lang(c, w.take(n)) && item_lang(d, w.skip(n))); assert(item_lang(a, w.take(n)) && item_lang(b, w.skip(n))); lemma_ssl_join(a, b, 0, w, n); }
    }
}
pub proof fn lemma_ssl_one(x: S_RegexTree, w: Word)
    ensures item_lang(seq![x], w) == srl(x, w),
{
    let s = seq![x];
    if item_lang(s, w) { let m = choose|m: int| 0 <= m <= w.len() && srl(s[0], #[trigger] w.take(m)) && ssl(s, 1, w.skip(m)); assert(m == w.len()); assert(w.take(m) =~= w); }
    if srl(x, w) { let m = w.len() as int; assert(w.take(m) =~= w); assert(srl(s[0], w.take(m)) && ssl(s, 1, w.skip(m))); }
}
pub proof fn lemma_wrap_seq(v: Seq<S_RegexTree>, w: Word)
    requires v.len() > 0,
    ensures srl(wrap_seq(v), w) == item_lang(v, w),
{
    if v.len() == 1 { assert(v =~= seq![v[0]]); lemma_ssl_one(v[0], w); }
}
pub open spec fn some_lang(v: Seq<S_RegexTree>, w: Word) -> bool { exists|i: int| 0 <= i < v.len() && srl(#[trigger] v[i], w) }
pub proof fn lemma_wrap_alt(v: Seq<S_RegexTree>, w: Word)
    requires v.len() > 0,
    ensures srl(wrap_alt(v), w) == some_lang(v, w),
{
    if v.len() == 1 { if srl(v[0], w) { assert(some_lang(v, w)); } }
}
pub proof fn lemma_srep_same(a: S_RegexTree, b: S_RegexTree, n: nat, w: Word)
    requires same_lang(a, b),
    ensures srep(a, n, w) == srep(b, n, w),
    decreases n,
{
    if n > 0 {
        assert forall|m: int| 0 <= m <= w.len() implies (srl(a, #[trigger] w.take(m)) == srl(b, w.take(m)) && srep(a, (n - 1) as nat, w.skip(m)) == srep(b, (n - 1) as nat, w.skip(m))) by { lemma_srep_same(a, b, (n - 1) as nat, w.skip(m)); }
        if srep(a, n, w) { let m = choose|m: int| 0 <= m <= w.len() && srl(a, #[trigger] w.take(m)) && srep(a, (n - 1) as nat, w.skip(m)); assert(srl(b, w.take(m))); }
        if srep(b, n, w) { let m = choose|m: int| 0 <= m <= w.len() && srl(b, #[trigger] w.take(m)) && srep(b, (n - 1) as nat, w.skip(m)); assert(srl(a, w.take(m))); }
    }
}
pub proof fn lemma_repeat_same(a: S_RegexTree, b: S_RegexTree)
    requires same_lang(a, b),
    ensures same_lang(S_RegexTree::Repeat(Box::new(a)), S_RegexTree::Repeat(Box::new(b))),
{
    let (x, y) = (S_RegexTree::Repeat(Box::new(a)), S_RegexTree::Repeat(Box::new(b)));
    assert forall|w: Word| #[trigger] srl(x, w) == srl(y, w) by {
        if srl(x, w) { let n = choose|n: nat| #[trigger] nat_(n) && srep(a, n, w); lemma_srep_same(a, b, n, w); assert(nat_(n) && srep(b, n, w)); }
        if srl(y, w) { let n = choose|n: nat| #[trigger] nat_(n) && srep(b, n, w); lemma_srep_same(a, b, n, w); assert(nat_(n) && srep(a, n, w)); }
    }
}
pub proof fn lemma_strees_cat(a: Seq<Item>, b: Seq<Item>, i: int)
    requires 0 <= i <= a.len(),
    ensures strees(a + b, i) == strees(a, i) + strees(b, 0),
    decreases a.len() - i,
{
    let s = a + b;
    if i < a.len() {
        lemma_strees_cat(a, b, i + 1);
        assert(s[i] == a[i]);
        assert(strees(s, i) =~= strees(a, i) + strees(b, 0));
    } else {
        lemma_strees_shift(a, b, 0);
        assert(strees(a, i) + strees(b, 0) =~= strees(b, 0));
    }
}
pub proof fn lemma_strees_shift(a: Seq<Item>, b: Seq<Item>, j: int)
    requires 0 <= j <= b.len(),
    ensures strees(a + b, a.len() + j) == strees(b, j),
    decreases b.len() - j,
{
    if j < b.len() { lemma_strees_shift(a, b, j + 1); assert((a + b)[a.len() + j] == b[j]); }
}
pub proof fn lemma_strees_len(s: Seq<Item>, i: int)
    requires 0 <= i <= s.len(),
    ensures strees(s, i).len() == s.len() - i,
    decreases s.len() - i,
{
    if i < s.len() { lemma_strees_len(s, i + 1); }
}
pub proof fn lemma_strees_one(i: Item)
    ensures strees(seq![i], 0) == seq![itree(i)],
{
    assert(strees(seq![i], 1) =~= Seq::<S_RegexTree>::empty());
    assert(strees(seq![i], 0) =~= seq![itree(i)]);
}
pub proof fn lemma_vtrees(v: Seq<Seq<Item>>, i: int)
    requires 0 <= i <= v.len(),
    ensures vtrees(v, i).len() == v.len() - i, forall|j: int| i <= j < v.len() ==> #[trigger] vtrees(v, i)[j - i] == wrap_seq(strees(v[j], 0)),
    decreases v.len() - i,
{
    if i < v.len() {
        lemma_vtrees(v, i + 1);
        assert forall|j: int| i <= j < v.len() implies #[trigger] vtrees(v, i)[j - i] == wrap_seq(strees(v[j], 0)) by { if j > i { assert(vtrees(v, i)[j - i] == vtrees(v, i + 1)[j - (i + 1)]); } }
    }
}
pub proof fn lemma_swfs(v: Seq<S_RegexTree>, k: int, i: int, c: bool)
    requires swfs(v, k, c), 0 <= i < k <= v.len(),
    ensures swf(v[i], c), swfs(v, i, c),
    decreases k,
{
    if i < k - 1 { lemma_swfs(v, k - 1, i, c); }
}
pub proof fn lemma_cst_alts(v: Seq<S_RegexTree>, k: int, i: int, acc: Text)
    requires 0 <= i < k <= v.len(),
    ensures cst_alts(v, k, acc).len() == k, cst_alts(v, k, acc)[i] == cst(v[i], bar(pr_alts(v, i, acc), i + 1)),
    decreases k,
{
    assert(cst_alts(v, 0, acc) == Seq::<Seq<Item>>::empty());
    if i < k - 1 { lemma_cst_alts(v, k - 1, i, acc); } else if k > 1 { lemma_cst_alts(v, k - 1, 0, acc); }
}
pub proof fn lemma_cst_len(t: S_RegexTree, acc: Text)
    requires swf(t, false),
    ensures cst(t, acc).len() > 0,
    decreases t,
{
    match t {
        S_RegexTree::Sequence(v) => {
            let k = v.len() as int;
            lemma_swfs(v, k, k - 1, false); lemma_cst_len(v[k - 1], pr_items(v, k - 1, acc));
            assert(cst_items(v, k, acc) == cst_items(v, k - 1, acc) + cst(v[k - 1], pr_items(v, k - 1, acc)));
        }
        _ => {}
    }
}
// the items written for a tree have its language
pub proof fn lemma_cst_lang(t: S_RegexTree, acc: Text)
    requires swf(t, false),
    ensures same_items(strees(cst(t, acc), 0), seq![t]),
    decreases t, 0nat,
{
    let c = cst(t, acc);
    match t {
        S_RegexTree::Sequence(v) => {
            lemma_items_lang(v, v.len() as int, acc);
            assert(v.take(v.len() as int) =~= v);
            assert forall|w: Word| #[trigger] item_lang(strees(c, 0), w) == item_lang(seq![t], w) by { lemma_ssl_one(t, w); assert(item_lang(v, w) == srl(t, w)); }
        }
        S_RegexTree::Alt(v) => {
            let a1 = acc.push('(');
            let k = v.len() as int;
            let al = cst_alts(v, k, a1);
            let ts = vtrees(al, 0);
            lemma_cst_alts(v, k, 0, a1);
            lemma_vtrees(al, 0);
            lemma_strees_one(c[0]);
            assert forall|i: int| 0 <= i < k implies same_lang(#[trigger] ts[i], v[i]) by {
                let m = bar(pr_alts(v, i, a1), i + 1);
                lemma_swfs(v, k, i, false);
                lemma_cst_alts(v, k, i, a1);
                lemma_cst_lang(v[i], m);
                lemma_cst_len(v[i], m);
                let s = strees(cst(v[i], m), 0);
                lemma_strees_len(cst(v[i], m), 0);
                assert(ts[i - 0] == wrap_seq(strees(al[i], 0)));
                assert forall|w: Word| #[trigger] srl(ts[i], w) == srl(v[i], w) by { lemma_wrap_seq(s, w); lemma_ssl_one(v[i], w); assert(item_lang(s, w) == item_lang(seq![v[i]], w)); }
            }
            assert(strees(c, 0) == seq![wrap_alt(ts)]);
            assert forall|w: Word| #[trigger] item_lang(strees(c, 0), w) == item_lang(seq![t], w) by {
                lemma_ssl_one(t, w); lemma_ssl_one(wrap_alt(ts), w);
                lemma_wrap_alt(ts, w);
                if some_lang(ts, w) { let i = choose|i: int| 0 <= i < ts.len() && srl(#[trigger] ts[i], w); assert(srl(v[i], w)); }
                if srl(t, w) { let i = choose|i: int| 0 <= i < v.len() && srl(#[trigger] v[i], w); assert(srl(ts[i], w)); }
            }
        }
        S_RegexTree::Repeat(r) => {
            let a1 = acc.push('(');
            let b = cst(*r, a1);
            lemma_cst_lang(*r, a1);
            lemma_cst_len(*r, a1);
            let s = strees(b, 0);
            lemma_strees_len(b, 0);
            lemma_strees_one(c[0]);
            let x = wrap_seq(s);
            lemma_vtrees(seq![b], 0);
            assert(vtrees(seq![b], 0)[0 - 0] == x);
            assert forall|w: Word| #[trigger] srl(x, w) == srl(*r, w) by { lemma_wrap_seq(s, w); lemma_ssl_one(*r, w); assert(item_lang(s, w) == item_lang(seq![*r], w)); }
            lemma_repeat_same(x, *r);
            let y = S_RegexTree::Repeat(Box::new(x));
            assert(itree(c[0]) == y);
            assert(t == S_RegexTree::Repeat(Box::new(*r)));
            assert forall|w: Word| #[trigger] item_lang(strees(c, 0), w) == item_lang(seq![t], w) by { lemma_ssl_one(t, w); lemma_ssl_one(y, w); assert(srl(y, w) == srl(t, w)); }
        }
        S_RegexTree::Char(x) => { lemma_strees_one(c[0]); }
    }
}
pub proof fn lemma_items_lang(v: Seq<S_RegexTree>, k: int, acc: Text)
    requires 0 <= k <= v.len(), swfs(v, k, false),
    ensures same_items(strees(cst_items(v, k, acc), 0), v.take(k)),
    decreases v, k,
{
    if k > 0 {
        let a = cst_items(v, k - 1, acc);
        let m = pr_items(v, k - 1, acc);
        let b = cst(v[k - 1], m);
        lemma_items_lang(v, k - 1, acc);
        lemma_cst_lang(v[k - 1], m);
        lemma_strees_cat(a, b, 0);
        lemma_same_cat(strees(a, 0), strees(b, 0), v.take(k - 1), seq![v[k - 1]]);
        assert(v.take(k) =~= v.take(k - 1) + seq![v[k - 1]]);
    } else {
        assert(v.take(0) =~= Seq::<S_RegexTree>::empty());
        assert(strees(cst_items(v, k, acc), 0) =~= Seq::<S_RegexTree>::empty());
    }
}
// ------------------------------------------------------------------ what the parser returns
pub open spec fn fine(t: S_RegexTree) -> bool { swf(t, false) }
pub open spec fn all_fine(v: Seq<S_RegexTree>) -> bool { forall|i: int| 0 <= i < v.len() ==> fine(#[trigger] v[i]) }
pub open spec fn yields(p: P<S_RegexTree>) -> bool { forall|s: Text| match #[trigger] p(s) { PR::Got(r, t) => fine(t), PR::No => true } }
pub proof fn lemma_all_fine(v: Seq<S_RegexTree>, k: int)
    requires all_fine(v), 0 <= k <= v.len(),
    ensures swfs(v, k, false),
    decreases k,
{
    if k > 0 { lemma_all_fine(v, k - 1); assert(fine(v[k - 1])); }
}
pub proof fn lemma_fine_cons(t: S_RegexTree, v: Seq<S_RegexTree>)
    requires fine(t), all_fine(v),
    ensures all_fine(seq![t] + v),
{
    let u = seq![t] + v;
    assert forall|i: int| 0 <= i < u.len() implies fine(#[trigger] u[i]) by { if i > 0 { assert(u[i] == v[i - 1]); } }
}
pub proof fn lemma_many_fine(p: P<S_RegexTree>, s: Text)
    requires yields(p),
    ensures match many_from(p, s) { PR::Got(r, v) => all_fine(v), PR::No => true },
    decreases s.len(),
{
    match p(s) { PR::Got(r, t) => { if r.len() < s.len() { lemma_many_fine(p, r); match many_from(p, r) { PR::Got(r2, v) => { lemma_fine_cons(t, v); } PR::No => {} } } } PR::No => {} }
}
pub proof fn lemma_list_fine<B>(sep: P<B>, p: P<S_RegexTree>, s: Text)
    requires yields(p),
    ensures match list_from(sep, p, s) { PR::Got(r, v) => all_fine(v), PR::No => true },
    decreases s.len(),
{
    match sep(s) { PR::Got(r, b) => { if r.len() < s.len() { match p(r) { PR::Got(r2, t) => { if r2.len() <= r.len() { lemma_list_fine(sep, p, r2); match list_from(sep, p, r2) { PR::Got(r3, v) => { lemma_fine_cons(t, v); } PR::No => {} } } } PR::No => {} } } } PR::No => {} }
}
pub proof fn lemma_fine_wrap(v: Seq<S_RegexTree>)
    requires all_fine(v), v.len() > 0,
    ensures fine(wrap_seq(v)), fine(wrap_alt(v)),
{
    lemma_all_fine(v, v.len() as int);
    assert(fine(v[0]));
}
pub proof fn lemma_fine_post(t: S_RegexTree, post: int)
    requires fine(t),
    ensures fine(post_tree(t, post)),
{
    let r = S_RegexTree::Repeat(Box::new(t));
    assert(fine(r));
    let v = seq![t, r];
    assert(all_fine(v));
    lemma_all_fine(v, 2);
}
pub proof fn lemma_char_fine()
    ensures yields(g_combinated_char()),
{
    assert forall|s: Text| match #[trigger] g_combinated_char()(s) { PR::Got(r, t) => fine(t), PR::No => true } by {
        if s.len() > 0 { lemma_read_cluster(s); if s.skip(1).len() > 0 { lemma_read_cluster(s.skip(1)); } }
        match g_regex_char()(s) {
            PR::Got(r, c) => {
                let t = S_RegexTree::Char(c);
                assert(fine(t));
                if r.len() > 0 { lemma_kleene(r[0]); }
                lemma_fine_post(t, 0); lemma_fine_post(t, 1); lemma_fine_post(t, 2);
            }
            PR::No => {}
        }
    }
}
pub proof fn lemma_item_fine(rec: P<S_RegexTree>)
    requires yields(rec),
    ensures yields(item_p(rec)),
{
    lemma_char_fine();
    assert forall|s: Text| match #[trigger] item_p(rec)(s) { PR::Got(r, t) => fine(t), PR::No => true } by {
        let d = p_delimited(p_char('('), rec, p_char(')'));
        match d(s) {
            PR::Got(r, t) => {
                assert(fine(t)) by { let s1 = s.skip(1); assert(match rec(s1) { PR::Got(r, t) => fine(t), PR::No => true }); }
                if r.len() > 0 { lemma_kleene(r[0]); }
                lemma_fine_post(t, 0); lemma_fine_post(t, 1); lemma_fine_post(t, 2);
            }
            PR::No => {}
        }
        assert(match g_combinated_char()(s) { PR::Got(r, t) => fine(t), PR::No => true });
    }
}
pub proof fn lemma_sequence_fine(rec: P<S_RegexTree>)
    requires yields(rec),
    ensures yields(g_sequence(rec)),
{
    let p = item_p(rec);
    lemma_item_fine(rec);
    assert forall|s: Text| match #[trigger] g_sequence(rec)(s) { PR::Got(r, t) => fine(t), PR::No => true } by {
        match p(s) {
            PR::Got(r, t) => { lemma_many_fine(p, r); match many_from(p, r) { PR::Got(r2, v) => { lemma_fine_cons(t, v); lemma_fine_wrap(seq![t] + v); assert(p_many1(p)(s) == PR::Got(r2, seq![t] + v)); } PR::No => {} } }
            PR::No => {}
        }
    }
}
// whatever is parsed has no empty lists, and its symbols are grapheme clusters
pub proof fn lemma_parsed(k: nat)
    ensures yields(g_rec(k)),
    decreases k,
{
    if k > 0 {
        let rec = g_rec((k - 1) as nat);
        lemma_parsed((k - 1) as nat);
        let q = g_sequence(rec);
        lemma_sequence_fine(rec);
        let sep = p_char('|');
        assert forall|s: Text| match #[trigger] g_rec(k)(s) { PR::Got(r, t) => fine(t), PR::No => true } by {
            match q(s) {
                PR::Got(r, t) => { lemma_list_fine(sep, q, r); match list_from(sep, q, r) { PR::Got(r2, v) => { lemma_fine_cons(t, v); lemma_fine_wrap(seq![t] + v); assert(p_separated_list1(sep, q)(s) == PR::Got(r2, seq![t] + v)); } PR::No => {} } }
                PR::No => {}
            }
        }
    }
}
