@raw
// ------------------------------------------------------------------ whatever is accepted is well written
pub proof fn lemma_back(c: char, s: Text)
    requires s.len() > 0, s[0] == c,
    ensures s == seq![c] + s.skip(1),
{
    assert(s =~= seq![c] + s.skip(1));
}
// one cluster off the front
pub proof fn lemma_off(s: Text)
    requires s.len() > 0,
    ensures ({ let g = s.take(fc(s)); let r = s.skip(fc(s)); s == g + r && cluster(g) && g[0] == s[0] && (r.len() == 0 || brk(g, r[0])) }),
{
    lemma_read_cluster(s);
    lemma_fc_from(s, 1);
    assert(s =~= s.take(fc(s)) + s.skip(fc(s)));
}
pub proof fn lemma_read_char(s: Text) -> (a: Atom)
    ensures g_regex_char()(s) matches PR::Got(r, c) ==> !(a is Par) && aok(a, r) && s == atext(a) + r && atree(a) == S_RegexTree::Char(c),
{
    match g_regex_char()(s) {
        PR::Got(r, c) => {
            if s[0] == '∅' { lemma_back('∅', s); Atom::Nothing }
            else if s[0] == 'ε' { lemma_back('ε', s); Atom::Eps }
            else {
                lemma_special(s[0]);
                lemma_off(s);
                if s[0] == '\\' {
                    lemma_back('\\', s);
                    let u = s.skip(1);
                    if u.len() > 0 {
                        lemma_off(u);
                        let g = u.take(fc(u));
                        lemma_assoc(seq!['\\'], g, u.skip(fc(u)));
                        assert(first_or_nul(s.take(fc(s))) == s[0]);
                        Atom::Sym(true, g)
                    } else { assert(first_or_nul(s.take(fc(s))) == s[0]); Atom::Eps }
                } else {
                    let g = s.take(fc(s));
                    assert(first_or_nul(g) == g[0]);
                    Atom::Sym(false, g)
                }
            }
        }
        PR::No => Atom::Eps,
    }
}
pub proof fn lemma_read_post(s: Text) -> (p: int)
    ensures 0 <= p <= 2, p_opt(p_one_of(seq!['+', '*']))(s) matches PR::Got(r, o) && s == ptext(p) + r && (p == 0 ==> no_post(r)) && o == (if p == 1 { Some('*') } else if p == 2 { Some('+') } else { None }),
{
    if s.len() > 0 { lemma_kleene(s[0]); }
    if s.len() > 0 && s[0] == '*' { lemma_back('*', s); 1 }
    else if s.len() > 0 && s[0] == '+' { lemma_back('+', s); 2 }
    else { assert(ptext(0) + s =~= s); 0 }
}
pub open spec fn item_read(i: Item, s: Text, r: Text, t: S_RegexTree) -> bool { iok(i, r) && s == itext(i) + r && itree(i) == t }
pub open spec fn kleene(p: int) -> Option<char> { if p == 1 { Some('*') } else if p == 2 { Some('+') } else { None } }
pub proof fn lemma_read_par(rec: P<S_RegexTree>, s: Text, v: Seq<Seq<Item>>) -> (i: Item)
    requires s.len() > 0, s[0] == '(', rec(s.skip(1)) matches PR::Got(r, t) && v.len() > 0 && vok(v, 0, r) && s.skip(1) == vtext(v, 0) + r && vtree(v) == t,
    ensures g_par_expr(rec)(s) matches PR::Got(r, t) ==> item_read(i, s, r, t),
{
    lemma_back('(', s);
    let s1 = s.skip(1);
    let m = rec(s1);
    let r1 = m->Got_0;
    if r1.len() > 0 && r1[0] == ')' {
        lemma_back(')', r1);
        let q = r1.skip(1);
        let p = lemma_read_post(q);
        let i = Item { a: Atom::Par(v), post: p };
        let d = p_delimited(p_char('('), rec, p_char(')'));
        let t1 = m->Got_1;
        assert(d(s) == PR::Got(q, t1));
        let o = p_opt(p_one_of(seq!['+', '*']))(q);
        let r = o->Got_0;
        assert(o == PR::Got(r, kleene(p)));
        assert(g_par_expr(rec)(s) == PR::Got(r, post_tree(t1, p)));
        assert(aok(i.a, q));
        assert(s =~= itext(i) + r);
        i
    } else { Item { a: Atom::Eps, post: 0 } }
}
pub proof fn lemma_read_comb(s: Text) -> (i: Item)
    ensures g_combinated_char()(s) matches PR::Got(r, t) ==> item_read(i, s, r, t),
{
    let a = lemma_read_char(s);
    match g_regex_char()(s) {
        PR::Got(r1, c) => {
            let p = lemma_read_post(r1);
            let i = Item { a, post: p };
            let o = p_opt(p_one_of(seq!['+', '*']))(r1);
            let r = o->Got_0;
            assert(o == PR::Got(r, kleene(p)));
            assert(g_combinated_char()(s) == PR::Got(r, post_tree(S_RegexTree::Char(c), p)));
            lemma_assoc(atext(a), ptext(p), r);
            i
        }
        PR::No => Item { a, post: 0 },
    }
}
pub proof fn lemma_read_item(k: nat, s: Text) -> (i: Item)
    ensures item_p(g_rec(k))(s) matches PR::Got(r, t) ==> item_read(i, s, r, t),
    decreases k, 1nat, 0nat,
{
    let rec = g_rec(k);
    if g_par_expr(rec)(s) is Got {
        let v = lemma_read_expr(k, s.skip(1));
        lemma_read_par(rec, s, v)
    } else { lemma_read_comb(s) }
}
pub proof fn lemma_cons_item(i: Item, c: Seq<Item>, r: Text)
    requires iok(i, stext(c, 0) + r), sok(c, 0, r),
    ensures sok(seq![i] + c, 0, r), stext(seq![i] + c, 0) == itext(i) + stext(c, 0), strees(seq![i] + c, 0) == seq![itree(i)] + strees(c, 0),
{
    let u = seq![i];
    lemma_sok_shift(u, c, 0, r);
    lemma_stext_shift(u, c, 0);
    lemma_strees_shift(u, c, 0);
    assert((u + c)[0] == i);
    assert((u + c).len() > 0);
}
pub proof fn lemma_read_items(k: nat, s: Text) -> (c: Seq<Item>)
    ensures many_from(item_p(g_rec(k)), s) matches PR::Got(r, v) ==> sok(c, 0, r) && s == stext(c, 0) + r && strees(c, 0) == v,
    decreases k, 2nat, s.len(),
{
    let p = item_p(g_rec(k));
    match p(s) {
        PR::Got(r, t) => {
            if r.len() < s.len() {
                let i = lemma_read_item(k, s);
                let c = lemma_read_items(k, r);
                match many_from(p, r) {
                    PR::Got(r2, v) => { lemma_cons_item(i, c, r2); lemma_assoc(itext(i), stext(c, 0), r2); }
                    PR::No => {}
                }
                seq![i] + c
            } else { seq![] }
        }
        PR::No => { let c = Seq::<Item>::empty(); assert(stext(c, 0) + s =~= s); c }
    }
}
pub proof fn lemma_read_seq(k: nat, s: Text) -> (c: Seq<Item>)
    ensures g_sequence(g_rec(k))(s) matches PR::Got(r, t) ==> c.len() > 0 && sok(c, 0, r) && s == stext(c, 0) + r && wrap_seq(strees(c, 0)) == t,
    decreases k, 3nat, 0nat,
{
    let p = item_p(g_rec(k));
    match p(s) {
        PR::Got(r, t) => {
            let i = lemma_read_item(k, s);
            let c = lemma_read_items(k, r);
            match many_from(p, r) {
                PR::Got(r2, v) => { lemma_cons_item(i, c, r2); lemma_assoc(itext(i), stext(c, 0), r2); assert(p_many1(p)(s) == PR::Got(r2, seq![t] + v)); }
                PR::No => {}
            }
            seq![i] + c
        }
        PR::No => seq![],
    }
}
// further alternatives
pub open spec fn bars(v: Seq<Seq<Item>>) -> Text { if v.len() > 0 { seq!['|'] + vtext(v, 0) } else { nothing() } }
pub proof fn lemma_cons_alt(c: Seq<Item>, v: Seq<Seq<Item>>, r: Text)
    requires c.len() > 0, sok(c, 0, bars(v) + r), vok(v, 0, r),
    ensures vok(seq![c] + v, 0, r), vtext(seq![c] + v, 0) == stext(c, 0) + bars(v), vtrees(seq![c] + v, 0) == seq![wrap_seq(strees(c, 0))] + vtrees(v, 0),
{
    let u = seq![c] + v;
    lemma_shift_alt(c, v, 0, r);
    assert(u[0] == c && u.len() > 0);
    assert(vmore(u, 1) == bars(v));
}
pub proof fn lemma_shift_alt(c: Seq<Item>, v: Seq<Seq<Item>>, j: int, r: Text)
    requires 0 <= j <= v.len(), vok(v, j, r),
    ensures vok(seq![c] + v, j + 1, r), vtext(seq![c] + v, j + 1) == vtext(v, j), vtrees(seq![c] + v, j + 1) == vtrees(v, j), j > 0 ==> vmore(seq![c] + v, j + 1) == vmore(v, j),
    decreases v.len() - j,
{
    let u = seq![c] + v;
    if j < v.len() {
        assert(u[j + 1] == v[j]);
        lemma_shift_alt(c, v, j + 1, r);
    }
}
pub proof fn lemma_bars(s: Text, r: Text, r2: Text, r3: Text, c: Seq<Item>, v: Seq<Seq<Item>>)
    requires s == seq!['|'] + r, r == stext(c, 0) + r2, r2 == bars(v) + r3, vtext(seq![c] + v, 0) == stext(c, 0) + bars(v),
    ensures s == bars(seq![c] + v) + r3,
{
    assert(s =~= bars(seq![c] + v) + r3);
}
pub proof fn lemma_read_alts(k: nat, s: Text) -> (v: Seq<Seq<Item>>)
    ensures list_from(p_char('|'), g_sequence(g_rec(k)), s) matches PR::Got(r, ts) ==> vok(v, 0, r) && s == bars(v) + r && vtrees(v, 0) == ts,
    decreases k, 4nat, s.len(),
{
    let p = g_sequence(g_rec(k));
    let sep = p_char('|');
    match sep(s) {
        PR::Got(r, b) => {
            lemma_back('|', s);
            match p(r) {
                PR::Got(r2, t) => {
                    if r2.len() <= r.len() {
                        let c = lemma_read_seq(k, r);
                        let v = lemma_read_alts(k, r2);
                        match list_from(sep, p, r2) {
                            PR::Got(r3, ts) => {
                                lemma_cons_alt(c, v, r3);
                                lemma_bars(s, r, r2, r3, c, v);
                            }
                            PR::No => {}
                        }
                        seq![c] + v
                    } else { seq![] }
                }
                PR::No => { let v = Seq::<Seq<Item>>::empty(); assert(bars(v) + s =~= s); v }
            }
        }
        PR::No => { let v = Seq::<Seq<Item>>::empty(); assert(bars(v) + s =~= s); v }
    }
}
pub proof fn lemma_read_expr(k: nat, s: Text) -> (v: Seq<Seq<Item>>)
    ensures g_rec(k)(s) matches PR::Got(r, t) ==> v.len() > 0 && vok(v, 0, r) && s == vtext(v, 0) + r && vtree(v) == t,
    decreases k, 0nat, 0nat,
{
    if k == 0 { seq![] } else {
        let j = (k - 1) as nat;
        let p = g_sequence(g_rec(j));
        let sep = p_char('|');
        match p(s) {
            PR::Got(r, t) => {
                let c = lemma_read_seq(j, s);
                let v = lemma_read_alts(j, r);
                match list_from(sep, p, r) {
                    PR::Got(r2, ts) => {
                        lemma_cons_alt(c, v, r2);
                        lemma_assoc(stext(c, 0), bars(v), r2);
                        assert(p_separated_list1(sep, p)(s) == PR::Got(r2, seq![t] + ts));
                    }
                    PR::No => {}
                }
                seq![c] + v
            }
            PR::No => seq![],
        }
    }
}
// An accepted text is well written, and it was read as what it stands for.
pub proof fn theorem_accepted(k: nat, x: Text, e: S_Regex, rest: Text) -> (v: Seq<Seq<Item>>)
    requires g_regex(k)(x) == PR::Got(rest, e),
    ensures written(v, x), e.tree == vtree(v), rest.len() == 0,
{
    let v = lemma_read_expr(k, trimmed(x));
    assert(rest =~= nothing());
    assert(vtext(v, 0) + nothing() =~= vtext(v, 0));
    v
}
// a text is accepted exactly when it is a well-written expression
pub fn theorem_exact(x: &Str) -> (r: Result<Regex, NomError>)
    ensures match r { Ok(e) => exists|v: Seq<Seq<Item>>| #[trigger] written(v, x@) && stree(e.tree) == vtree(v), Err(_) => forall|v: Seq<Seq<Item>>| !#[trigger] written(v, x@) },
{
    let r = parser_regex(x);
    proof {
        let res = regex_result(r);
        let k0 = choose|k0: nat| #[trigger] reads_from(k0, x@, res);
        assert(g_regex(k0)(x@) == res);
        if r is Ok {
            let e = r->Ok_0;
            let v = theorem_accepted(k0, x@, S_Regex { tree: stree(e.tree) }, nothing());
            assert(written(v, x@) && stree(e.tree) == vtree(v));
        } else {
            assert forall|v: Seq<Seq<Item>>| !#[trigger] written(v, x@) by {
                if written(v, x@) {
                    theorem_syntax(v, x@);
                    lemma_reads_same(k0, res, vdepth(v, 0) + 1, PR::Got(nothing(), S_Regex { tree: vtree(v) }), x@);
                }
            }
        }
    }
    r
}
