@raw
// ------------------------------------------------------------------ trees as values, and what they mean
pub open spec fn schar(c: RegexChar) -> S_RegexChar { match c { RegexChar::Grapheme(g) => S_RegexChar::Grapheme(g@), RegexChar::Epsilon => S_RegexChar::Epsilon, RegexChar::Empty => S_RegexChar::Empty } }
pub open spec fn stree(t: RegexTree) -> S_RegexTree decreases t {
    match t {
        RegexTree::Sequence(v) => S_RegexTree::Sequence(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { stree(v@[i]) } else { arbitrary() })),
        RegexTree::Alt(v) => S_RegexTree::Alt(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { stree(v@[i]) } else { arbitrary() })),
        RegexTree::Repeat(r) => S_RegexTree::Repeat(Box::new(stree(*r))),
        RegexTree::Char(c) => S_RegexTree::Char(schar(c)),
    }
}
pub open spec fn srl(t: S_RegexTree, w: Word) -> bool decreases t, 0nat {
    match t {
        S_RegexTree::Sequence(s) => ssl(s, 0, w),
        S_RegexTree::Alt(s) => exists|i: int| 0 <= i < s.len() && srl(#[trigger] s[i], w),
        S_RegexTree::Repeat(r) => exists|n: nat| #[trigger] nat_(n) && srep(*r, n, w),
        S_RegexTree::Char(S_RegexChar::Grapheme(g)) => w == seq![g],
        S_RegexTree::Char(S_RegexChar::Epsilon) => w.len() == 0,
        S_RegexTree::Char(S_RegexChar::Empty) => false,
    }
}
pub open spec fn ssl(s: Seq<S_RegexTree>, i: int, w: Word) -> bool decreases s, s.len() - i {
    if 0 <= i < s.len() { exists|m: int| 0 <= m <= w.len() && srl(s[i], #[trigger] w.take(m)) && ssl(s, i + 1, w.skip(m)) } else { w.len() == 0 }
}
pub open spec fn srep(t: S_RegexTree, n: nat, w: Word) -> bool decreases t, n + 1 {
    if n == 0 { w.len() == 0 } else { exists|m: int| 0 <= m <= w.len() && srl(t, #[trigger] w.take(m)) && srep(t, (n - 1) as nat, w.skip(m)) }
}
// both readings agree
pub proof fn lemma_stree(t: RegexTree, w: Word)
    ensures rlang(t, w) == srl(stree(t), w),
    decreases t, 0nat, 0nat,
{
    match t {
        RegexTree::Sequence(v) => { lemma_strees(v@, stree(t)->Sequence_0, 0, w); }
        RegexTree::Alt(v) => {
            let s = stree(t)->Alt_0;
            assert forall|i: int| 0 <= i < v@.len() implies rlang(#[trigger] v@[i], w) == srl(s[i], w) by { lemma_stree(v@[i], w); }
            if rlang(t, w) { let i = choose|i: int| 0 <= i < v@.len() && rlang(#[trigger] v@[i], w); assert(srl(s[i], w)); }
            if srl(stree(t), w) { let i = choose|i: int| 0 <= i < s.len() && srl(#[trigger] s[i], w); assert(rlang(v@[i], w)); }
        }
        RegexTree::Repeat(r) => {
            assert forall|n: nat| #[trigger] nat_(n) implies replang(*r, n, w) == srep(stree(*r), n, w) by { lemma_streps(*r, n, w); }
            assert(stree(t) == S_RegexTree::Repeat(Box::new(stree(*r))));
        }
        RegexTree::Char(c) => {}
    }
}
pub proof fn lemma_strees(v: Seq<RegexTree>, s: Seq<S_RegexTree>, i: int, w: Word)
    requires s.len() == v.len(), forall|j: int| 0 <= j < v.len() ==> s[j] == stree(#[trigger] v[j]), 0 <= i <= v.len(),
    ensures slang(v, i, w) == ssl(s, i, w),
    decreases v, v.len() - i, 0nat,
{
    if i < v.len() {
        assert forall|m: int| 0 <= m <= w.len() implies (rlang(v[i], #[trigger] w.take(m)) == srl(s[i], w.take(m)) && slang(v, i + 1, w.skip(m)) == ssl(s, i + 1, w.skip(m))) by {
            lemma_stree(v[i], w.take(m)); lemma_strees(v, s, i + 1, w.skip(m));
        }
        if slang(v, i, w) { let m = choose|m: int| 0 <= m <= w.len() && rlang(v[i], #[trigger] w.take(m)) && slang(v, i + 1, w.skip(m)); assert(srl(s[i], w.take(m))); }
        if ssl(s, i, w) { let m = choose|m: int| 0 <= m <= w.len() && srl(s[i], #[trigger] w.take(m)) && ssl(s, i + 1, w.skip(m)); assert(rlang(v[i], w.take(m))); }
    }
}
pub proof fn lemma_streps(t: RegexTree, n: nat, w: Word)
    ensures replang(t, n, w) == srep(stree(t), n, w),
    decreases t, n + 1, 0nat,
{
    if n > 0 {
        let s = stree(t);
        assert forall|m: int| 0 <= m <= w.len() implies (rlang(t, #[trigger] w.take(m)) == srl(s, w.take(m)) && replang(t, (n - 1) as nat, w.skip(m)) == srep(s, (n - 1) as nat, w.skip(m))) by {
            lemma_stree(t, w.take(m)); lemma_streps(t, (n - 1) as nat, w.skip(m));
        }
        if replang(t, n, w) { let m = choose|m: int| 0 <= m <= w.len() && rlang(t, #[trigger] w.take(m)) && replang(t, (n - 1) as nat, w.skip(m)); assert(srl(s, w.take(m))); }
        if srep(s, n, w) { let m = choose|m: int| 0 <= m <= w.len() && srl(s, #[trigger] w.take(m)) && srep(s, (n - 1) as nat, w.skip(m)); assert(rlang(t, w.take(m))); }
    }
}
// ------------------------------------------------------------------ what is printed
pub open spec fn joins(acc: Text, g: Text) -> bool { acc.len() > 0 && g.len() > 0 && !brk(acc, g[0]) }
pub open spec fn quoted(acc: Text, g: Text) -> bool { joins(acc, g) || (g.len() > 0 && special(g[0])) }
pub open spec fn pr(t: S_RegexTree, acc: Text) -> Text decreases t, 0nat {
    match t {
        S_RegexTree::Sequence(v) => pr_items(v, v.len() as int, acc),
        S_RegexTree::Alt(v) => pr_alts(v, v.len() as int, acc.push('(')).push(')'),
        S_RegexTree::Repeat(r) => pr(*r, acc.push('(')).push(')').push('*'),
        S_RegexTree::Char(S_RegexChar::Grapheme(g)) => if quoted(acc, g) { acc.push('\\') + g } else { acc + g },
        S_RegexTree::Char(S_RegexChar::Epsilon) => acc.push('ε'),
        S_RegexTree::Char(S_RegexChar::Empty) => acc.push('∅'),
    }
}
// the first k
pub open spec fn pr_items(v: Seq<S_RegexTree>, k: int, acc: Text) -> Text decreases v, k { if 0 < k <= v.len() { pr(v[k - 1], pr_items(v, k - 1, acc)) } else { acc } }
pub open spec fn bar(acc: Text, k: int) -> Text { if k > 1 { acc.push('|') } else { acc } }
pub open spec fn pr_alts(v: Seq<S_RegexTree>, k: int, acc: Text) -> Text decreases v, k { if 0 < k <= v.len() { pr(v[k - 1], bar(pr_alts(v, k - 1, acc), k)) } else { acc } }
// the same as written syntax
pub open spec fn cst(t: S_RegexTree, acc: Text) -> Seq<Item> decreases t, 0nat {
    match t {
        S_RegexTree::Sequence(v) => cst_items(v, v.len() as int, acc),
        S_RegexTree::Alt(v) => seq![Item { a: Atom::Par(cst_alts(v, v.len() as int, acc.push('('))), post: 0 }],
        S_RegexTree::Repeat(r) => seq![Item { a: Atom::Par(seq![cst(*r, acc.push('('))]), post: 1 }],
        S_RegexTree::Char(S_RegexChar::Grapheme(g)) => seq![Item { a: Atom::Sym(quoted(acc, g), g), post: 0 }],
        S_RegexTree::Char(S_RegexChar::Epsilon) => seq![Item { a: Atom::Eps, post: 0 }],
        S_RegexTree::Char(S_RegexChar::Empty) => seq![Item { a: Atom::Nothing, post: 0 }],
    }
}
pub open spec fn cst_items(v: Seq<S_RegexTree>, k: int, acc: Text) -> Seq<Item> decreases v, k { if 0 < k <= v.len() { cst_items(v, k - 1, acc) + cst(v[k - 1], pr_items(v, k - 1, acc)) } else { Seq::<Item>::empty() } }
pub open spec fn cst_alts(v: Seq<S_RegexTree>, k: int, acc: Text) -> Seq<Seq<Item>> decreases v, k { if 0 < k <= v.len() { cst_alts(v, k - 1, acc).push(cst(v[k - 1], bar(pr_alts(v, k - 1, acc), k))) } else { Seq::<Seq<Item>>::empty() } }
// no symbol joins an operator written behind it
pub open spec fn closed(g: Text) -> bool { forall|c: char| special(c) ==> #[trigger] brk(g, c) }
// Every list has elements and every symbol is one cluster (and with c does not join an operator written behind it).
pub open spec fn swf(t: S_RegexTree, c: bool) -> bool decreases t, 0nat {
    match t {
        S_RegexTree::Sequence(v) => v.len() > 0 && swfs(v, v.len() as int, c),
        S_RegexTree::Alt(v) => v.len() > 0 && swfs(v, v.len() as int, c),
        S_RegexTree::Repeat(r) => swf(*r, c),
        S_RegexTree::Char(S_RegexChar::Grapheme(g)) => cluster(g) && (c ==> closed(g)),
        S_RegexTree::Char(_) => true,
    }
}
pub open spec fn swfs(v: Seq<S_RegexTree>, k: int, c: bool) -> bool decreases v, k { 0 < k <= v.len() ==> swf(v[k - 1], c) && swfs(v, k - 1, c) }
pub open spec fn good_end(acc: Text) -> bool { acc.len() == 0 || closed(acc) }
// UAX #29: the search for a boundary starts anew at a boundary, and behind a backslash
pub axiom fn axiom_anew(a: Text, g: Text, c: char) requires g.len() > 0, a.len() == 0 || a.last() == '\\' || brk(a, g[0]) ensures brk(a + g, c) == brk(g, c);
// UAX #29: the operators are ordinary characters
pub axiom fn axiom_special(a: Text, c: char) requires a.len() > 0, special(a.last()), special(c) ensures brk(a, c);
pub proof fn lemma_good_push(acc: Text, c: char)
    requires special(c),
    ensures good_end(acc.push(c)),
{
    let a = acc.push(c);
    assert(a.last() == c);
    assert forall|d: char| special(d) implies #[trigger] brk(a, d) by { axiom_special(a, d); }
}
// ------------------------------------------------------------------ lists of items
pub proof fn lemma_stext_cat(a: Seq<Item>, b: Seq<Item>, i: int)
    requires 0 <= i <= a.len(),
    ensures stext(a + b, i) == stext(a, i) + stext(b, 0),
    decreases a.len() - i,
{
    let s = a + b;
    if i < a.len() {
        lemma_stext_cat(a, b, i + 1);
        assert(s[i] == a[i]);
        lemma_assoc(itext(a[i]), stext(a, i + 1), stext(b, 0));
    } else {
        lemma_stext_shift(a, b, 0);
        assert(stext(a, i) + stext(b, 0) =~= stext(b, 0));
    }
}
pub proof fn lemma_stext_shift(a: Seq<Item>, b: Seq<Item>, j: int)
    requires 0 <= j <= b.len(),
    ensures stext(a + b, a.len() + j) == stext(b, j),
    decreases b.len() - j,
{
    if j < b.len() { lemma_stext_shift(a, b, j + 1); assert((a + b)[a.len() + j] == b[j]); }
}
pub proof fn lemma_sok_cat(a: Seq<Item>, b: Seq<Item>, i: int, r: Text)
    requires 0 <= i <= a.len(), sok(a, i, stext(b, 0) + r), sok(b, 0, r),
    ensures sok(a + b, i, r),
    decreases a.len() - i,
{
    let s = a + b;
    if i < a.len() {
        lemma_sok_cat(a, b, i + 1, r);
        lemma_stext_cat(a, b, i + 1);
        assert(s[i] == a[i]);
        lemma_assoc(stext(a, i + 1), stext(b, 0), r);
    } else { lemma_sok_shift(a, b, 0, r); }
}
pub proof fn lemma_sok_shift(a: Seq<Item>, b: Seq<Item>, j: int, r: Text)
    requires 0 <= j <= b.len(), sok(b, j, r),
    ensures sok(a + b, a.len() + j, r),
    decreases b.len() - j,
{
    if j < b.len() { lemma_sok_shift(a, b, j + 1, r); lemma_stext_shift(a, b, j + 1); assert((a + b)[a.len() + j] == b[j]); }
}
// one more alternative
pub open spec fn glue(n: int, t: Text) -> Text { if n > 0 { seq!['|'] + t } else { t } }
pub proof fn lemma_vtext_push(v: Seq<Seq<Item>>, s: Seq<Item>, i: int)
    requires 0 <= i <= v.len(),
    ensures vtext(v.push(s), i) == vtext(v, i) + glue(v.len() - i, stext(s, 0)), i > 0 ==> vmore(v.push(s), i) == vmore(v, i) + (seq!['|'] + stext(s, 0)),
    decreases v.len() - i,
{
    let u = v.push(s);
    let x = stext(s, 0);
    if i < v.len() {
        lemma_vtext_push(v, s, i + 1);
        assert(u[i] == v[i]);
        assert(vtext(u, i) =~= vtext(v, i) + (seq!['|'] + x));
        if i > 0 { assert(vmore(u, i) =~= vmore(v, i) + (seq!['|'] + x)); }
    } else {
        assert(u[i] == s);
        assert(vmore(u, i + 1) =~= Seq::<char>::empty());
        assert(vtext(u, i) =~= x);
        assert(vtext(v, i) + glue(0, x) =~= x);
        if i > 0 { assert(vmore(u, i) =~= vmore(v, i) + (seq!['|'] + x)); }
    }
}
pub proof fn lemma_vok_push(v: Seq<Seq<Item>>, s: Seq<Item>, i: int, r: Text)
    requires 0 <= i <= v.len(), s.len() > 0, sok(s, 0, r), vok(v, i, seq!['|'] + stext(s, 0) + r),
    ensures vok(v.push(s), i, r),
    decreases v.len() - i,
{
    let u = v.push(s);
    if i < v.len() {
        lemma_vok_push(v, s, i + 1, r);
        lemma_vtext_push(v, s, i + 1);
        assert(u[i] == v[i]);
        let x = seq!['|'] + stext(s, 0);
        lemma_assoc(vmore(v, i + 1), x, r);
        assert(sok(v[i], 0, vmore(v, i + 1) + (x + r)));
        assert(sok(u[i], 0, vmore(u, i + 1) + r));
    } else {
        assert(u[i] == s);
        assert(vmore(u, i + 1) + r =~= r);
        assert(vok(u, i + 1, r));
    }
}
pub proof fn lemma_one(i: Item, r: Text)
    requires iok(i, r),
    ensures sok(seq![i], 0, r),
{
    assert(stext(seq![i], 1) + r =~= r);
    assert(sok(seq![i], 1, r));
}
pub proof fn lemma_one_text(i: Item)
    ensures stext(seq![i], 0) == itext(i),
{
    assert(itext(i) + stext(seq![i], 1) =~= itext(i));
}
pub proof fn lemma_one_alt(s: Seq<Item>, r: Text)
    ensures vtext(seq![s], 0) == stext(s, 0), s.len() > 0 && sok(s, 0, r) ==> vok(seq![s], 0, r),
{
    assert(vmore(seq![s], 1) + r =~= r);
    assert(vok(seq![s], 1, r));
    assert(stext(s, 0) + vmore(seq![s], 1) =~= stext(s, 0));
}
// ------------------------------------------------------------------ what is printed is well written
// what may come next: nothing, or a character that does not join the text
pub open spec fn next_ok(acc: Text, r: Text) -> bool { r.len() == 0 || (no_post(r) && brk(acc, r[0])) }
pub open spec fn printed(c: Seq<Item>, acc: Text, out: Text) -> bool {
    &&& out == acc + stext(c, 0) && good_end(out)
    &&& c.len() > 0 ==> stext(c, 0).len() > 0 && no_post(stext(c, 0)) && (acc.len() == 0 || brk(acc, stext(c, 0)[0]))
    &&& forall|r: Text| next_ok(out, r) ==> #[trigger] sok(c, 0, r)
}
pub proof fn lemma_pr(t: S_RegexTree, acc: Text)
    requires swf(t, true), good_end(acc),
    ensures printed(cst(t, acc), acc, pr(t, acc)), cst(t, acc).len() > 0,
    decreases t, 0nat,
{
    let c = cst(t, acc);
    let out = pr(t, acc);
    match t {
        S_RegexTree::Sequence(v) => { lemma_pr_items(v, v.len() as int, acc); }
        S_RegexTree::Alt(v) => {
            let a1 = acc.push('(');
            lemma_good_push(acc, '(');
            let k = v.len() as int;
            lemma_pr_alts(v, k, a1);
            let al = cst_alts(v, k, a1);
            lemma_one_text(c[0]);
            lemma_good_push(pr_alts(v, k, a1), ')');
            assert(out =~= acc + stext(c, 0));
            assert(stext(c, 0)[0] == '(');
            assert forall|r: Text| next_ok(out, r) implies #[trigger] sok(c, 0, r) by {
                let r1 = seq![')'] + r;
                assert(ptext(0) + r =~= r);
                lemma_cons(')', r);
                assert(vok(al, 0, r1));
                lemma_one(c[0], r);
            }
        }
        S_RegexTree::Repeat(b) => {
            let a1 = acc.push('(');
            lemma_good_push(acc, '(');
            lemma_pr(*b, a1);
            let s = cst(*b, a1);
            lemma_one_text(c[0]);
            lemma_one_alt(s, seq![]);
            lemma_good_push(pr(*b, a1).push(')'), '*');
            assert(out =~= acc + stext(c, 0));
            assert(stext(c, 0)[0] == '(');
            assert forall|r: Text| next_ok(out, r) implies #[trigger] sok(c, 0, r) by {
                let r1 = seq![')'] + (seq!['*'] + r);
                lemma_cons(')', seq!['*'] + r);
                assert(brk(pr(*b, a1), ')'));
                assert(sok(s, 0, r1));
                lemma_one_alt(s, r1);
                lemma_one(c[0], r);
            }
        }
        S_RegexTree::Char(S_RegexChar::Grapheme(g)) => {
            let q = quoted(acc, g);
            let a1 = if q { acc.push('\\') } else { acc };
            lemma_one_text(c[0]);
            assert(out =~= acc + stext(c, 0));
            assert(out == a1 + g);
            assert forall|d: char| brk(a1 + g, d) == #[trigger] brk(g, d) by { axiom_anew(a1, g, d); }
            assert forall|d: char| special(d) implies #[trigger] brk(out, d) by { assert(brk(g, d)); }
            assert forall|r: Text| next_ok(out, r) implies #[trigger] sok(c, 0, r) by {
                assert(ptext(0) + r =~= r);
                if r.len() > 0 { assert(brk(a1 + g, r[0]) == brk(g, r[0])); }
                lemma_one(c[0], r);
            }
            if q { assert(stext(c, 0)[0] == '\\'); } else { assert(stext(c, 0)[0] == g[0]); }
        }
        S_RegexTree::Char(S_RegexChar::Epsilon) => {
            lemma_one_text(c[0]); lemma_good_push(acc, 'ε');
            assert(out =~= acc + stext(c, 0));
            assert(stext(c, 0)[0] == 'ε');
            assert forall|r: Text| next_ok(out, r) implies #[trigger] sok(c, 0, r) by { lemma_one(c[0], r); }
        }
        S_RegexTree::Char(S_RegexChar::Empty) => {
            lemma_one_text(c[0]); lemma_good_push(acc, '∅');
            assert(out =~= acc + stext(c, 0));
            assert(stext(c, 0)[0] == '∅');
            assert forall|r: Text| next_ok(out, r) implies #[trigger] sok(c, 0, r) by { lemma_one(c[0], r); }
        }
    }
}
pub proof fn lemma_pr_items(v: Seq<S_RegexTree>, k: int, acc: Text)
    requires 0 <= k <= v.len(), swfs(v, k, true), good_end(acc),
    ensures printed(cst_items(v, k, acc), acc, pr_items(v, k, acc)), k > 0 ==> cst_items(v, k, acc).len() > 0,
    decreases v, k,
{
    let c = cst_items(v, k, acc);
    let out = pr_items(v, k, acc);
    if k > 0 {
        let a = cst_items(v, k - 1, acc);
        let mid = pr_items(v, k - 1, acc);
        lemma_pr_items(v, k - 1, acc);
        lemma_pr(v[k - 1], mid);
        let b = cst(v[k - 1], mid);
        lemma_stext_cat(a, b, 0);
        lemma_assoc(acc, stext(a, 0), stext(b, 0));
        assert forall|r: Text| next_ok(out, r) implies #[trigger] sok(c, 0, r) by {
            assert(sok(b, 0, r));
            let r1 = stext(b, 0) + r;
            assert(r1[0] == stext(b, 0)[0]);
            if a.len() > 0 { assert(mid.len() > 0); assert(next_ok(mid, r1)); assert(sok(a, 0, r1)); }
            lemma_sok_cat(a, b, 0, r);
        }
        if a.len() > 0 { assert(stext(c, 0)[0] == stext(a, 0)[0]); } else { assert(stext(c, 0) =~= stext(b, 0)); assert(mid =~= acc); }
    } else {
        assert(acc + stext(c, 0) =~= acc);
    }
}
pub proof fn lemma_pr_alts(v: Seq<S_RegexTree>, k: int, acc: Text)
    requires 0 <= k <= v.len(), swfs(v, k, true), good_end(acc),
    ensures ({
        let c = cst_alts(v, k, acc);
        let out = pr_alts(v, k, acc);
        c.len() == k && out == acc + vtext(c, 0) && good_end(out) && forall|r: Text| r.len() > 0 && (r[0] == ')' || r[0] == '|') ==> #[trigger] vok(c, 0, r) }),
    decreases v, k,
{
    let c = cst_alts(v, k, acc);
    let out = pr_alts(v, k, acc);
    if k > 0 {
        let a = cst_alts(v, k - 1, acc);
        let mid = pr_alts(v, k - 1, acc);
        lemma_pr_alts(v, k - 1, acc);
        let m2 = bar(mid, k);
        if k > 1 { lemma_good_push(mid, '|'); }
        lemma_pr(v[k - 1], m2);
        let b = cst(v[k - 1], m2);
        lemma_vtext_push(a, b, 0);
        assert(out =~= acc + vtext(c, 0));
        assert forall|r: Text| r.len() > 0 && (r[0] == ')' || r[0] == '|') implies #[trigger] vok(c, 0, r) by {
            assert(out.len() > 0);
            assert(brk(out, r[0]));
            assert(sok(b, 0, r));
            let r1 = seq!['|'] + stext(b, 0) + r;
            assert(r1[0] == '|');
            assert(vok(a, 0, r1));
            lemma_vok_push(a, b, 0, r);
        }
    } else {
        assert(acc + vtext(c, 0) =~= acc);
    }
}
// the text of an expression: in parentheses when whitespace at an end would be lost
pub open spec fn plain(t: S_RegexTree) -> Text { pr(t, Seq::<char>::empty()) }
pub open spec fn printed_form(t: S_RegexTree, x: Text) -> bool { (x == plain(t) && trimmed(x) == x) || x == seq!['('] + (plain(t) + seq![')']) }
