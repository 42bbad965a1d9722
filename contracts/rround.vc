@raw
// ------------------------------------------------------------------ whole texts
pub open spec fn nothing() -> Text { Seq::<char>::empty() }
// an expression as a text: well written, whitespace around it is ignored
pub open spec fn written(v: Seq<Seq<Item>>, x: Text) -> bool { v.len() > 0 && vok(v, 0, nothing()) && trimmed(x) == vtext(v, 0) }
// with enough recursion the grammar gives v on x
pub open spec fn reads_from(k0: nat, x: Text, v: PR<S_Regex>) -> bool { forall|k: nat| k >= k0 ==> #[trigger] g_regex(k)(x) == v }
// every well-written expression is read, as what it stands for
pub proof fn theorem_syntax(v: Seq<Seq<Item>>, x: Text)
    requires written(v, x),
    ensures reads_from(vdepth(v, 0) + 1, x, PR::Got(nothing(), S_Regex { tree: vtree(v) })),
{
    assert forall|k: nat| k >= vdepth(v, 0) + 1 implies #[trigger] g_regex(k)(x) == PR::Got(nothing(), S_Regex { tree: vtree(v) }) by {
        lemma_expr((k - 1) as nat, v, nothing());
        assert(vtext(v, 0) + nothing() =~= vtext(v, 0));
    }
}
// what the written operators mean
pub proof fn theorem_meaning(t: S_RegexTree, v: Seq<S_RegexTree>, w: Word)
    requires v.len() > 0,
    ensures srl(post_tree(t, 0), w) == srl(t, w),
        srl(post_tree(t, 1), w) == (exists|n: nat| #[trigger] nat_(n) && srep(t, n, w)),
        srl(post_tree(t, 2), w) == (exists|n: nat| #[trigger] nat_(n) && n >= 1 && srep(t, n, w)),
        srl(wrap_seq(v), w) == ssl(v, 0, w),
        srl(wrap_alt(v), w) == (exists|i: int| 0 <= i < v.len() && srl(#[trigger] v[i], w)),
{
    lemma_wrap_seq(v, w);
    lemma_wrap_alt(v, w);
    let r = S_RegexTree::Repeat(Box::new(t));
    let p = seq![t, r];
    assert(srl(post_tree(t, 2), w) == ssl(p, 0, w));
    assert forall|m: int| 0 <= m <= w.len() implies ssl(p, 1, #[trigger] w.skip(m)) == srl(r, w.skip(m)) by {
        let u = w.skip(m);
        assert(u.take(u.len() as int) =~= u);
        assert(u.skip(u.len() as int).len() == 0);
        if srl(r, u) { assert(srl(p[1], u.take(u.len() as int)) && ssl(p, 2, u.skip(u.len() as int))); }
        if ssl(p, 1, u) {
            let n = choose|n: int| 0 <= n <= u.len() && srl(p[1], #[trigger] u.take(n)) && ssl(p, 2, u.skip(n));
            assert(u.skip(n).len() == 0);
        }
    }
    if ssl(p, 0, w) {
        let m = choose|m: int| 0 <= m <= w.len() && srl(p[0], #[trigger] w.take(m)) && ssl(p, 1, w.skip(m));
        assert(srl(r, w.skip(m)));
        let n = choose|n: nat| #[trigger] nat_(n) && srep(t, n, w.skip(m));
        assert(nat_(n + 1));
        assert(srep(t, n + 1, w)) by { assert(srl(t, w.take(m)) && srep(t, ((n + 1) - 1) as nat, w.skip(m))); }
    }
    if exists|n: nat| #[trigger] nat_(n) && n >= 1 && srep(t, n, w) {
        let n = choose|n: nat| #[trigger] nat_(n) && n >= 1 && srep(t, n, w);
        let m = choose|m: int| 0 <= m <= w.len() && srl(t, #[trigger] w.take(m)) && srep(t, (n - 1) as nat, w.skip(m));
        assert(nat_((n - 1) as nat));
        assert(srl(r, w.skip(m)));
        assert(srl(p[0], w.take(m)) && ssl(p, 1, w.skip(m)));
    }
}
// ------------------------------------------------------------------ printed and read back
pub proof fn lemma_swf_weak(t: S_RegexTree)
    requires swf(t, true),
    ensures swf(t, false),
    decreases t, 0nat,
{
    match t {
        S_RegexTree::Sequence(v) => { lemma_swfs_weak(v, v.len() as int); }
        S_RegexTree::Alt(v) => { lemma_swfs_weak(v, v.len() as int); }
        S_RegexTree::Repeat(r) => { lemma_swf_weak(*r); }
        S_RegexTree::Char(c) => {}
    }
}
pub proof fn lemma_swfs_weak(v: Seq<S_RegexTree>, k: int)
    requires swfs(v, k, true), k <= v.len(),
    ensures swfs(v, k, false),
    decreases v, k,
{
    if k > 0 { lemma_swf_weak(v[k - 1]); lemma_swfs_weak(v, k - 1); }
}
// no symbol of the expression joins an operator written behind it
pub open spec fn all_closed(t: S_RegexTree) -> bool decreases t, 0nat {
    match t {
        S_RegexTree::Sequence(v) => all_closed_to(v, v.len() as int),
        S_RegexTree::Alt(v) => all_closed_to(v, v.len() as int),
        S_RegexTree::Repeat(r) => all_closed(*r),
        S_RegexTree::Char(S_RegexChar::Grapheme(g)) => closed(g),
        S_RegexTree::Char(_) => true,
    }
}
pub open spec fn all_closed_to(v: Seq<S_RegexTree>, k: int) -> bool decreases v, k { 0 < k <= v.len() ==> all_closed(v[k - 1]) && all_closed_to(v, k - 1) }
pub proof fn lemma_swf_closed(t: S_RegexTree)
    requires fine(t), all_closed(t),
    ensures swf(t, true),
    decreases t, 0nat,
{
    match t {
        S_RegexTree::Sequence(v) => { lemma_swfs_closed(v, v.len() as int); }
        S_RegexTree::Alt(v) => { lemma_swfs_closed(v, v.len() as int); }
        S_RegexTree::Repeat(r) => { lemma_swf_closed(*r); }
        S_RegexTree::Char(c) => {}
    }
}
pub proof fn lemma_swfs_closed(v: Seq<S_RegexTree>, k: int)
    requires swfs(v, k, false), all_closed_to(v, k), k <= v.len(),
    ensures swfs(v, k, true),
    decreases v, k,
{
    if k > 0 { lemma_swf_closed(v[k - 1]); lemma_swfs_closed(v, k - 1); }
}
pub proof fn lemma_trim_parens(x: Text)
    requires x.len() > 0, x[0] == '(', x.last() == ')',
    ensures trimmed(x) == x,
{
    broadcast use axiom_no_ws;
    assert(!char_ws('(') && !char_ws(')'));
}
// The printed text is well-written, and what it stands for has the language of the expression.
pub proof fn theorem_printed(t: S_RegexTree, x: Text) -> (v: Seq<Seq<Item>>)
    requires swf(t, true), printed_form(t, x),
    ensures written(v, x), same_lang(vtree(v), t),
{
    let c = cst(t, nothing());
    let p = plain(t);
    lemma_pr(t, nothing());
    assert(p =~= stext(c, 0));
    let u = seq![c];
    lemma_one_alt(c, nothing());
    lemma_swf_weak(t);
    lemma_cst_lang(t, nothing());
    let ts = strees(c, 0);
    lemma_strees_len(c, 0);
    lemma_vtrees(u, 0);
    assert(vtrees(u, 0)[0 - 0] == wrap_seq(ts));
    assert(vtree(u) == wrap_seq(ts));
    assert forall|w: Word| #[trigger] srl(vtree(u), w) == srl(t, w) by { lemma_wrap_seq(ts, w); lemma_ssl_one(t, w); assert(item_lang(ts, w) == item_lang(seq![t], w)); }
    if x == p && trimmed(x) == x {
        assert(sok(c, 0, nothing()));
        u
    } else {
        let r = seq![')'] + nothing();
        assert(r[0] == ')');
        assert(p.len() > 0);
        assert(brk(p, ')'));
        assert(sok(c, 0, r));
        lemma_one_alt(c, r);
        let i = Item { a: Atom::Par(u), post: 0 };
        let s = seq![i];
        let v = seq![s];
        assert(ptext(0) + nothing() =~= nothing());
        lemma_one(i, nothing());
        lemma_one_text(i);
        lemma_one_alt(s, nothing());
        assert(x =~= itext(i));
        lemma_trim_parens(x);
        lemma_strees_one(i);
        lemma_vtrees(v, 0);
        assert(vtrees(v, 0)[0 - 0] == wrap_seq(strees(s, 0)));
        assert(vtree(v) == itree(i));
        v
    }
}
// ------------------------------------------------------------------ the same about the running code
pub open spec fn regex_result(r: Result<Regex, NomError>) -> PR<S_Regex> { match r { Ok(e) => PR::Got(nothing(), S_Regex { tree: stree(e.tree) }), Err(_) => PR::No } }
// parser::regex: what its grammar gives, the recursion taken as deep as it goes
#[verifier::external_body]
pub fn parser_regex(x: &Str) -> (r: Result<Regex, NomError>)
    ensures exists|k0: nat| #[trigger] reads_from(k0, x@, regex_result(r)),
{ unimplemented!() }
pub proof fn lemma_reads_same(k0: nat, a: PR<S_Regex>, k1: nat, b: PR<S_Regex>, x: Text)
    requires reads_from(k0, x, a), reads_from(k1, x, b),
    ensures a == b,
{
    let k = nmax(k0, k1);
    assert(g_regex(k)(x) == a && g_regex(k)(x) == b);
}
// a well-written text is read, as what it stands for
pub fn theorem_reads(x: &Str, v: Ghost<Seq<Seq<Item>>>) -> (e: Regex)
    requires written(v@, x@),
    ensures stree(e.tree) == vtree(v@),
{
    let r = parser_regex(x);
    proof {
        theorem_syntax(v@, x@);
        let k0 = choose|k0: nat| #[trigger] reads_from(k0, x@, regex_result(r));
        lemma_reads_same(k0, regex_result(r), vdepth(v@, 0) + 1, PR::Got(nothing(), S_Regex { tree: vtree(v@) }), x@);
    }
    match r { Ok(e) => e, Err(_) => vstd::pervasive::unreached() }
}
pub open spec fn same_rlang(a: RegexTree, b: RegexTree) -> bool { forall|w: Word| #[trigger] rlang(a, w) == rlang(b, w) }
// printing an expression and reading the text gives an expression of the same language
pub fn theorem_read_back(r: &Regex) -> (e: Regex)
    requires swf(stree(r.tree), true),
    ensures same_rlang(e.tree, r.tree),
{
    let x = r.to_string();
    let ghost v = theorem_printed(stree(r.tree), x@);
    let e = theorem_reads(&x, Ghost(v));
    proof {
        assert forall|w: Word| #[trigger] rlang(e.tree, w) == rlang(r.tree, w) by {
            lemma_stree(e.tree, w); lemma_stree(r.tree, w);
            assert(srl(vtree(v), w) == srl(stree(r.tree), w));
        }
    }
    e
}
// the round trip of a text
pub fn theorem_round_trip(x: &Str) -> (r: Option<(Regex, Option<Regex>)>)
    ensures r matches Some(p) ==> fine(stree(p.0.tree)) && (all_closed(stree(p.0.tree)) ==> p.1 is Some && same_rlang(p.1->Some_0.tree, p.0.tree)),
{
    let a = parser_regex(x);
    let ghost res = regex_result(a);
    match a {
        Ok(e) => {
            proof {
                let k0 = choose|k0: nat| #[trigger] reads_from(k0, x@, res);
                assert(g_regex(k0)(x@) == res);
                lemma_parsed(k0);
                assert(match g_rec(k0)(trimmed(x@)) { PR::Got(r, t) => fine(t), PR::No => true });
                if all_closed(stree(e.tree)) { lemma_swf_closed(stree(e.tree)); }
            }
            let y = e.to_string();
            let b = parser_regex(&y);
            let ghost rb = regex_result(b);
            proof {
                if all_closed(stree(e.tree)) {
                    let v = theorem_printed(stree(e.tree), y@);
                    theorem_syntax(v, y@);
                    let k1 = choose|k1: nat| #[trigger] reads_from(k1, y@, rb);
                    lemma_reads_same(k1, rb, vdepth(v, 0) + 1, PR::Got(nothing(), S_Regex { tree: vtree(v) }), y@);
                    let f = b->Ok_0;
                    assert(same_lang(vtree(v), stree(e.tree)));
                    assert forall|w: Word| #[trigger] rlang(f.tree, w) == rlang(e.tree, w) by {
                        lemma_stree(f.tree, w); lemma_stree(e.tree, w);
                        assert(srl(vtree(v), w) == srl(stree(e.tree), w));
                    }
                }
            }
            match b { Ok(f) => Some((e, Some(f))), Err(_) => Some((e, None)) }
        }
        Err(_) => None,
    }
}
