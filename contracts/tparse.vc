@raw
// ------------------------------------------------------------------ tables as texts
pub type Text = Seq<char>;
pub open spec fn sp(k: nat) -> Text { Seq::new(k, |i: int| ' ') }
// the cells from the i-th on, each followed by its blanks
pub open spec fn rtext(c: Seq<Text>, p: Seq<nat>, i: int) -> Text decreases c.len() - i { if 0 <= i < c.len() { c[i] + (sp(p[i]) + rtext(c, p, i + 1)) } else { Seq::<char>::empty() } }
// the rows from the i-th on, separated by line ends
pub open spec fn doc(rows: Seq<Text>, i: int) -> Text decreases rows.len() - i {
    if 0 <= i < rows.len() - 1 { rows[i] + (seq!['\n'] + doc(rows, i + 1)) } else if i == rows.len() - 1 { rows[i] } else { Seq::<char>::empty() }
}
pub open spec fn stop(c: char) -> bool { char_ws(c) || c == '#' || c == '{' || c == '}' }
pub open spec fn reserved(n: Text) -> bool { n == seq!['ε'] || n == seq!['e', 'p', 's'] || n == seq!['→'] || n == seq!['-', '>'] || n == seq!['*'] }
// a name or symbol that can be written in a table
pub open spec fn wname(n: Text) -> bool { n.len() > 0 && !reserved(n) && forall|i: int| 0 <= i < n.len() ==> !stop(#[trigger] n[i]) }
pub open spec fn wnames(s: Seq<Text>) -> bool { forall|i: int| 0 <= i < s.len() ==> wname(#[trigger] s[i]) }
pub open spec fn stops(r: Text) -> bool { r.len() == 0 || stop(r[0]) }
pub open spec fn nonblank(r: Text) -> bool { r.len() == 0 || !is_space(r[0]) }
pub open spec fn line_end(r: Text) -> bool { r.len() == 0 || r[0] == '\n' }

pub proof fn lemma_lits()
    ensures "ε"@ == seq!['ε'], "eps"@ == seq!['e', 'p', 's'], "→"@ == seq!['→'], "->"@ == seq!['-', '>'], "*"@ == seq!['*'], "#"@ == seq!['#'], "{"@ == seq!['{'], "}"@ == seq!['}'], "#{}"@ == seq!['#', '{', '}'],
{
    reveal_strlit("ε"); reveal_strlit("eps"); reveal_strlit("→"); reveal_strlit("->"); reveal_strlit("*"); reveal_strlit("#"); reveal_strlit("{"); reveal_strlit("}"); reveal_strlit("#{}");
    assert("ε"@ =~= seq!['ε']); assert("eps"@ =~= seq!['e', 'p', 's']); assert("→"@ =~= seq!['→']); assert("->"@ =~= seq!['-', '>']); assert("*"@ =~= seq!['*']);
    assert("#"@ =~= seq!['#']); assert("{"@ =~= seq!['{']); assert("}"@ =~= seq!['}']); assert("#{}"@ =~= seq!['#', '{', '}']);
}
pub proof fn lemma_span(f: spec_fn(char) -> bool, s: Text)
    ensures span(f, s) <= s.len(), forall|i: int| 0 <= i < span(f, s) ==> #[trigger] f(s[i]), span(f, s) < s.len() ==> !f(s[span(f, s) as int]),
    decreases s.len(),
{
    if s.len() > 0 && f(s[0]) {
        lemma_span(f, s.skip(1));
        let k = span(f, s.skip(1));
        assert(span(f, s) == 1 + k);
        assert forall|i: int| 0 <= i < span(f, s) implies #[trigger] f(s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
        if k < s.skip(1).len() { assert(s.skip(1)[k as int] == s[k as int + 1]); }
    }
}
// the longest start of a + b is a
pub proof fn lemma_span_is(f: spec_fn(char) -> bool, a: Text, b: Text)
    requires forall|i: int| 0 <= i < a.len() ==> f(#[trigger] a[i]), b.len() == 0 || !f(b[0]),
    ensures span(f, a + b) == a.len(), (a + b).skip(a.len() as int) == b, (a + b).take(a.len() as int) == a,
{
    let s = a + b;
    lemma_span(f, s);
    let k = span(f, s) as int;
    if k < a.len() { assert(s[k] == a[k]); }
    if k > a.len() { assert(s[a.len() as int] == b[0]); assert(f(s[a.len() as int])); }
    assert(s.skip(a.len() as int) =~= b);
    assert(s.take(a.len() as int) =~= a);
}
pub proof fn lemma_spans()
    ensures forall|f: spec_fn(char) -> bool, a: Text, b: Text| (forall|i: int| 0 <= i < a.len() ==> f(#[trigger] a[i])) && (b.len() == 0 || !f(b[0])) ==> #[trigger] span(f, a + b) == a.len() && (a + b).skip(a.len() as int) == b && (a + b).take(a.len() as int) == a,
{
    assert forall|f: spec_fn(char) -> bool, a: Text, b: Text| (forall|i: int| 0 <= i < a.len() ==> f(#[trigger] a[i])) && (b.len() == 0 || !f(b[0])) implies #[trigger] span(f, a + b) == a.len() && (a + b).skip(a.len() as int) == b && (a + b).take(a.len() as int) == a by { lemma_span_is(f, a, b); }
}
pub proof fn lemma_blanks(k: nat, r: Text)
    requires nonblank(r),
    ensures p_space0()(sp(k) + r) == PR::Got(r, sp(k)), k > 0 ==> p_space1()(sp(k) + r) == PR::Got(r, sp(k)), k == 0 ==> p_space1()(sp(k) + r) is No,
{
    lemma_spans();
}
pub proof fn lemma_no_blank(r: Text)
    requires nonblank(r),
    ensures p_space0()(r) == PR::Got(r, Seq::<char>::empty()), p_space1()(r) is No,
{
    assert(sp(0) =~= Seq::<char>::empty());
    assert(sp(0) + r =~= r);
    lemma_blanks(0, r);
}
pub proof fn lemma_tag(t: Text, r: Text)
    ensures p_tag(t)(t + r) == PR::Got(r, t),
{
    assert((t + r).take(t.len() as int) =~= t);
    assert((t + r).skip(t.len() as int) =~= r);
}
pub proof fn lemma_assoc(a: Text, b: Text, c: Text)
    ensures (a + b) + c == a + (b + c),
{
    assert((a + b) + c =~= a + (b + c));
}
pub proof fn lemma_name(n: Text, r: Text)
    requires wname(n), stops(r),
    ensures g_state_name()(n + r) == PR::Got(r, n), g_alphabet_elem()(n + r) == PR::Got(r, n),
{
    broadcast use axiom_ws;
    lemma_lits(); lemma_spans();
    assert forall|c: char| "#{}"@.contains(c) <==> c == '#' || c == '{' || c == '}' by { let s = "#{}"@; assert(s[0] == '#' && s[1] == '{' && s[2] == '}'); }
}
pub proof fn lemma_no_name(r: Text)
    requires stops(r),
    ensures g_state_name()(r) is No, g_alphabet_elem()(r) is No,
{
    lemma_lits(); lemma_spans();
    assert forall|c: char| "#{}"@.contains(c) <==> c == '#' || c == '{' || c == '}' by { let s = "#{}"@; assert(s[0] == '#' && s[1] == '{' && s[2] == '}'); }
    assert(Seq::<char>::empty() + r =~= r);
}
// p reads exactly t and gives v, whatever comes after a blank, a line end or the end of the text
pub open spec fn elem_ok<A>(p: P<A>, t: Text, v: A) -> bool {
    &&& t.len() > 0 && !is_space(t[0])
    &&& forall|r: Text| stops(r) ==> #[trigger] p(t + r) == PR::Got(r, v)
}
pub proof fn lemma_name_ok(n: Text)
    requires wname(n),
    ensures elem_ok(g_state_name(), n, n), elem_ok(g_alphabet_elem(), n, n),
{
    broadcast use axiom_ws;
    assert(!stop(n[0]));
    assert forall|r: Text| stops(r) implies #[trigger] g_state_name()(n + r) == PR::Got(r, n) by { lemma_name(n, r); }
    assert forall|r: Text| stops(r) implies #[trigger] g_alphabet_elem()(n + r) == PR::Got(r, n) by { lemma_name(n, r); }
}
pub open spec fn elems_ok<A>(p: P<A>, c: Seq<Text>, v: Seq<A>) -> bool { c.len() == v.len() && forall|j: int| 0 <= j < c.len() ==> elem_ok(p, #[trigger] c[j], v[j]) }
// blanks before a cell; at the end there may be none
pub open spec fn pads_ok(c: Seq<Text>, p: Seq<nat>) -> bool { c.len() == p.len() && forall|j: int| 0 <= j < c.len() - 1 ==> (#[trigger] p[j]) > 0 }

// the first i cells were read: the list goes on to the end
pub proof fn lemma_list_from<A>(e: P<A>, c: Seq<Text>, p: Seq<nat>, v: Seq<A>, i: int, r: Text)
    requires elems_ok(e, c, v), pads_ok(c, p), 0 < i <= c.len(), nonblank(r), stops(r), e(r) is No,
    ensures list_from(p_space1(), e, sp(p[i - 1]) + (rtext(c, p, i) + r)) == PR::Got(sp(p[c.len() - 1]) + r, v.skip(i)),
    decreases c.len() - i,
{
    broadcast use axiom_ws;
    let s = sp(p[i - 1]) + (rtext(c, p, i) + r);
    let l = p_space1();
    if i == c.len() {
        assert(rtext(c, p, i) + r =~= r);
        lemma_blanks(p[i - 1], r);
        assert(v.skip(i) =~= Seq::<A>::empty());
    } else {
        let rest = sp(p[i]) + (rtext(c, p, i + 1) + r);
        let u = rtext(c, p, i) + r;
        assert(u =~= c[i] + rest);
        assert(elem_ok(e, c[i], v[i]));
        assert(u[0] == c[i][0]);
        lemma_blanks(p[i - 1], u);
        assert(p[i - 1] > 0);
        assert(l(s) == PR::Got(u, sp(p[i - 1])));
        assert(stops(rest)) by { if i < c.len() - 1 { assert(p[i] > 0); assert(rest[0] == ' '); } else { assert(rtext(c, p, i + 1) + r =~= r); if p[i] > 0 { assert(rest[0] == ' '); } else { assert(rest =~= r); } } }
        assert(e(c[i] + rest) == PR::Got(rest, v[i]));
        lemma_list_from(e, c, p, v, i + 1, r);
        assert(seq![v[i]] + v.skip(i + 1) =~= v.skip(i));
    }
}
pub proof fn lemma_list<A>(e: P<A>, c: Seq<Text>, p: Seq<nat>, v: Seq<A>, r: Text)
    requires elems_ok(e, c, v), pads_ok(c, p), c.len() > 0, nonblank(r), stops(r), e(r) is No,
    ensures p_separated_list1(p_space1(), e)(rtext(c, p, 0) + r) == PR::Got(sp(p[c.len() - 1]) + r, v), p_separated_list0(p_space1(), e)(rtext(c, p, 0) + r) == PR::Got(sp(p[c.len() - 1]) + r, v),
{
    broadcast use axiom_ws;
    let rest = sp(p[0]) + (rtext(c, p, 1) + r);
    assert(rtext(c, p, 0) + r =~= c[0] + rest);
    assert(elem_ok(e, c[0], v[0]));
    assert(stops(rest)) by { if 0 < c.len() - 1 { assert(p[0] > 0); assert(rest[0] == ' '); } else { assert(rtext(c, p, 1) + r =~= r); if p[0] > 0 { assert(rest[0] == ' '); } else { assert(rest =~= r); } } }
    assert(e(c[0] + rest) == PR::Got(rest, v[0]));
    lemma_list_from(e, c, p, v, 1, r);
    assert(seq![v[0]] + v.skip(1) =~= v);
}
// a set of states in braces
pub open spec fn set_pads(n: nat) -> Seq<nat> { Seq::new(n, |i: int| if i < n - 1 { 1nat } else { 0nat }) }
pub open spec fn set_text(c: Seq<Text>) -> Text { seq!['{'] + (rtext(c, set_pads(c.len()), 0) + seq!['}']) }
pub proof fn lemma_set(c: Seq<Text>, r: Text)
    requires wnames(c),
    ensures g_state_set()(set_text(c) + r) == PR::Got(r, c),
{
    broadcast use axiom_ws;
    lemma_lits();
    let p = set_pads(c.len());
    let z = seq!['}'] + r;
    let x = rtext(c, p, 0) + z;
    let l = p_separated_list0(p_space1(), g_state_name());
    assert(set_text(c) + r =~= seq!['{'] + x);
    lemma_tag(seq!['{'], x);
    lemma_tag(seq!['}'], r);
    assert(z[0] == '}');
    lemma_no_name(z);
    lemma_no_blank(z);
    if c.len() == 0 {
        assert(x =~= z);
        assert(c =~= Seq::<Text>::empty());
        assert(l(x) == PR::Got(z, c));
    } else {
        assert forall|j: int| 0 <= j < c.len() implies elem_ok(g_state_name(), #[trigger] c[j], c[j]) by { assert(wname(c[j])); lemma_name_ok(c[j]); }
        lemma_list(g_state_name(), c, p, c, z);
        assert(sp(p[c.len() - 1]) + z =~= z);
        assert(l(x) == PR::Got(z, c));
        assert(wname(c[0]));
        assert(!stop(c[0][0]));
        assert(x[0] == c[0][0]);
        lemma_no_blank(x);
    }
    assert(nonblank(x));
    lemma_no_blank(x);
}
pub proof fn lemma_set_ok(c: Seq<Text>)
    requires wnames(c),
    ensures elem_ok(g_state_set(), set_text(c), c),
{
    assert forall|r: Text| stops(r) implies #[trigger] g_state_set()(set_text(c) + r) == PR::Got(r, c) by { lemma_set(c, r); }
    assert(set_text(c)[0] == '{');
}
// blanks and the end of the line
pub proof fn lemma_space_comment(k: nat, r: Text)
    requires nonblank(r), r.len() == 0 || r[0] != '#',
    ensures g_space_comment()(sp(k) + r) == PR::Got(r, ()),
{
    lemma_lits();
    lemma_blanks(k, r);
    assert(g_comment()(r) is No) by { if r.len() > 0 { assert(r.take(1)[0] == r[0]); } }
}
// the first character that is no blank starts no line end and no comment
pub open spec fn line_start(s: Text, k: nat) -> bool { k < s.len() && (forall|i: int| 0 <= i < k ==> #[trigger] s[i] == ' ') && !is_space(s[k as int]) && !is_nl(s[k as int]) && s[k as int] != '#' }
pub proof fn lemma_no_blank_line(s: Text, k: nat)
    requires line_start(s, k),
    ensures g_space_comment_line()(s) is No, p_many0(g_space_comment_line())(s) == PR::Got(s, Seq::<()>::empty()),
{
    let y = s.skip(k as int);
    assert(s =~= sp(k) + y);
    assert(y[0] == s[k as int]);
    lemma_space_comment(k, y);
    assert(p_line_ending()(y) is No) by { assert(y.take(1)[0] == y[0]); if y.len() >= 2 { assert(y.take(2)[0] == y[0]); } }
}
pub proof fn lemma_no_line_at_end()
    ensures g_space_comment_line()(Seq::<char>::empty()) is No, p_many0(g_space_comment_line())(Seq::<char>::empty()) == PR::Got(Seq::<char>::empty(), Seq::<()>::empty()), p_many1(g_space_comment_line())(Seq::<char>::empty()) is No,
{
    let e = Seq::<char>::empty();
    assert(sp(0) + e =~= e);
    lemma_space_comment(0, e);
    assert(e.take(0) =~= e);
    let q = p_terminated(g_space_comment(), p_alt2(p_line_ending(), p_eof()));
    assert(q(e) == PR::Got(e, ()));
    assert(p_recognize(q)(e) == PR::Got(e, e));
}
pub proof fn lemma_next_line(s: Text, k: nat)
    requires line_start(s, k),
    ensures p_many1(g_space_comment_line())(seq!['\n'] + s) == PR::Got(s, seq![()]), p_line_ending()(seq!['\n'] + s) == PR::Got(s, seq!['\n']),
{
    let t = seq!['\n'] + s;
    assert(t[0] == '\n');
    assert(sp(0) + t =~= t);
    lemma_space_comment(0, t);
    lemma_tag(seq!['\n'], s);
    let q = p_terminated(g_space_comment(), p_alt2(p_line_ending(), p_eof()));
    assert(q(t) == PR::Got(s, ()));
    assert(t.take(1)[0] == '\n');
    assert(p_recognize(q)(t) == PR::Got(s, t.take(t.len() - s.len())));
    assert(g_space_comment_line()(t) == PR::Got(s, ()));
    lemma_no_blank_line(s, k);
    assert(seq![()] + Seq::<()>::empty() =~= seq![()]);
}
// ------------------------------------------------------------------ a row of states
pub open spec fn mark(b: bool, t: Text) -> Text { if b { t } else { Seq::<char>::empty() } }
pub open spec fn state_cells(arrow: Text, ini: bool, acc: bool, name: Text, c: Seq<Text>) -> Seq<Text> { seq![mark(ini, arrow), mark(acc, seq!['*']), name] + c }
pub open spec fn line_p<A>(e: P<A>) -> P<(Option<()>, Option<()>, Text, Seq<A>)> {
    p_delimited(p_space0(), p_tuple4(p_opt(p_terminated(g_arrow(), p_space1())), p_opt(p_terminated(g_accepting(), p_space1())), p_terminated(g_state_name(), p_space1()), p_separated_list1(p_space1(), e)), g_space_comment())
}
pub open spec fn some_if(b: bool) -> Option<()> { if b { Some(()) } else { None } }
pub open spec fn is_arrow(a: Text) -> bool { a == seq!['→'] || a == seq!['-', '>'] }
// what follows the marks
pub proof fn lemma_no_mark(n: Text, r: Text)
    requires wname(n), r.len() > 0, r[0] == ' ',
    ensures p_terminated(g_arrow(), p_space1())(n + r) is No, p_terminated(g_accepting(), p_space1())(n + r) is No,
{
    broadcast use axiom_ws;
    lemma_lits();
    let s = n + r;
    assert(!stop(n[0]) && s[0] == n[0]);
    if n.len() > 1 { assert(!stop(n[1]) && s[1] == n[1]); } else { assert(s[1] == ' '); }
    if n.len() > 2 { assert(!stop(n[2]) && s[2] == n[2]); }
    // the arrow -> read from the name itself
    if p_tag("->"@)(s) is Got {
        assert(s.take(2)[0] == '-' && s.take(2)[1] == '>');
        assert(n.len() >= 2);
        if n.len() == 2 { assert(n =~= seq!['-', '>']); }
        assert(s.skip(2)[0] == n[2]);
        lemma_no_blank(s.skip(2));
    }
    if p_tag("→"@)(s) is Got {
        assert(s.take(1)[0] == '→');
        if n.len() == 1 { assert(n =~= seq!['→']); }
        assert(s.skip(1)[0] == n[1]);
        lemma_no_blank(s.skip(1));
    }
    if p_tag("*"@)(s) is Got {
        assert(s.take(1)[0] == '*');
        if n.len() == 1 { assert(n =~= seq!['*']); }
        assert(s.skip(1)[0] == n[1]);
        lemma_no_blank(s.skip(1));
    }
}
pub proof fn lemma_mark(a: Text, k: nat, r: Text)
    requires k > 0, nonblank(r),
    ensures is_arrow(a) ==> p_terminated(g_arrow(), p_space1())(a + (sp(k) + r)) == PR::Got(r, ()), a == seq!['*'] ==> p_terminated(g_accepting(), p_space1())(a + (sp(k) + r)) == PR::Got(r, ()),
{
    lemma_lits();
    let s = a + (sp(k) + r);
    lemma_tag(a, sp(k) + r);
    lemma_blanks(k, r);
    if a == seq!['→'] { assert(p_tag("->"@)(s) is No) by { if s.len() >= 2 { assert(s.take(2)[0] == s[0]); } } }
}
pub proof fn lemma_star_no_arrow(r: Text)
    ensures p_terminated(g_arrow(), p_space1())(seq!['*'] + r) is No,
{
    lemma_lits();
    let s = seq!['*'] + r;
    assert(s[0] == '*');
    assert(p_tag("->"@)(s) is No) by { if s.len() >= 2 { assert(s.take(2)[0] == s[0]); } }
    assert(p_tag("→"@)(s) is No) by { assert(s.take(1)[0] == s[0]); }
}
// the text of a row, part by part
pub open spec fn row_z(name: Text, p2: nat, x: Text) -> Text { name + (sp(p2) + x) }
pub open spec fn row_w(acc: bool, p1: nat, z: Text) -> Text { if acc { seq!['*'] + (sp(p1) + z) } else { z } }
pub open spec fn row_u(ini: bool, arrow: Text, k: nat, w: Text) -> Text { if ini { arrow + (sp(k) + w) } else { w } }
pub open spec fn row_k(acc: bool, p: Seq<nat>) -> nat { if acc { p[0] } else { p[0] + p[1] } }
pub proof fn lemma_line_text(arrow: Text, ini: bool, acc: bool, name: Text, c: Seq<Text>, p: Seq<nat>, r: Text)
    requires p.len() == c.len() + 3,
    ensures ({ let x = rtext(c, p.skip(3), 0) + r; let k = row_k(acc, p);
        rtext(state_cells(arrow, ini, acc, name, c), p, 0) + r == sp(if ini { 0 } else { k }) + row_u(ini, arrow, k, row_w(acc, p[1], row_z(name, p[2], x))) }),
{
    let cs = state_cells(arrow, ini, acc, name, c);
    let s = rtext(cs, p, 0) + r;
    let q = p.skip(3);
    lemma_rtext_skip(cs, p, 3);
    assert(cs.skip(3) =~= c);
    let x = rtext(c, q, 0) + r;
    let z = row_z(name, p[2], x);
    let k = row_k(acc, p);
    let e = Seq::<char>::empty();
    reveal_with_fuel(rtext, 4);
    assert(cs[0] == mark(ini, arrow) && cs[1] == mark(acc, seq!['*']) && cs[2] == name);
    assert(rtext(cs, p, 2) + r =~= z);
    assert(rtext(cs, p, 1) + r =~= cs[1] + (sp(p[1]) + z));
    assert(s =~= cs[0] + (sp(p[0]) + (cs[1] + (sp(p[1]) + z))));
    if acc { assert(cs[1] + (sp(p[1]) + z) == row_w(acc, p[1], z)); } else { assert(sp(p[0]) + (e + (sp(p[1]) + z)) =~= sp(k) + z); }
    assert(s =~= cs[0] + (sp(k) + row_w(acc, p[1], z)));
    assert(s =~= sp(if ini { 0 } else { k }) + row_u(ini, arrow, k, row_w(acc, p[1], z)));
}
pub proof fn lemma_marks(arrow: Text, ini: bool, acc: bool, name: Text, p1: nat, p2: nat, k: nat, x: Text)
    requires is_arrow(arrow), wname(name), k > 0, p1 > 0, p2 > 0,
    ensures ({ let z = row_z(name, p2, x); let w = row_w(acc, p1, z); let u = row_u(ini, arrow, k, w);
        p_opt(p_terminated(g_arrow(), p_space1()))(u) == PR::Got(w, some_if(ini)) && p_opt(p_terminated(g_accepting(), p_space1()))(w) == PR::Got(z, some_if(acc))
        && u.len() > 0 && !is_space(u[0]) && !is_nl(u[0]) && u[0] != '#' }),
{
    broadcast use axiom_ws;
    let z = row_z(name, p2, x); let w = row_w(acc, p1, z); let u = row_u(ini, arrow, k, w);
    assert(!stop(name[0]) && z[0] == name[0]);
    assert((sp(p2) + x)[0] == ' ');
    assert(nonblank(z) && nonblank(w));
    assert(u[0] == (if ini { arrow[0] } else if acc { '*' } else { name[0] }));
    let pa = p_terminated(g_arrow(), p_space1());
    let pc = p_terminated(g_accepting(), p_space1());
    if ini { lemma_mark(arrow, k, w); assert(pa(u) == PR::Got(w, ())); } else {
        if acc { lemma_star_no_arrow(sp(p1) + z); } else { lemma_no_mark(name, sp(p2) + x); }
        assert(pa(u) is No);
    }
    if acc { lemma_mark(seq!['*'], p1, z); assert(pc(w) == PR::Got(z, ())); } else { lemma_no_mark(name, sp(p2) + x); assert(pc(w) is No); }
}
pub proof fn lemma_name_cells<A>(e: P<A>, name: Text, p2: nat, c: Seq<Text>, q: Seq<nat>, v: Seq<A>, r: Text)
    requires wname(name), p2 > 0, elems_ok(e, c, v), c.len() > 0, pads_ok(c, q), line_end(r), e(r) is No,
    ensures ({ let x = rtext(c, q, 0) + r;
        p_terminated(g_state_name(), p_space1())(row_z(name, p2, x)) == PR::Got(x, name) && p_separated_list1(p_space1(), e)(x) == PR::Got(sp(q[c.len() - 1]) + r, v)
        && g_space_comment()(sp(q[c.len() - 1]) + r) == PR::Got(r, ()) }),
{
    broadcast use axiom_ws;
    let x = rtext(c, q, 0) + r;
    assert(elem_ok(e, c[0], v[0]));
    assert(rtext(c, q, 0)[0] == c[0][0]);
    assert(x[0] == c[0][0]);
    assert((sp(p2) + x)[0] == ' ');
    lemma_name(name, sp(p2) + x);
    lemma_blanks(p2, x);
    lemma_list(e, c, q, v, r);
    lemma_space_comment(q[c.len() - 1], r);
}
pub proof fn lemma_seq4<A, B, C, D, E>(a: P<A>, b: P<B>, c: P<C>, d: P<D>, f: P<E>, s: Text, u: Text, w: Text, z: Text, x: Text, y: Text, r: Text, va: A, vb: B, vc: C, vd: D)
    requires p_space0()(s) is Got, p_space0()(s)->0 == u, a(u) == PR::Got(w, va), b(w) == PR::Got(z, vb), c(z) == PR::Got(x, vc), d(x) == PR::Got(y, vd), f(y) is Got, f(y)->0 == r,
    ensures p_delimited(p_space0(), p_tuple4(a, b, c, d), f)(s) == PR::Got(r, (va, vb, vc, vd)),
{
}
pub proof fn lemma_line<A>(e: P<A>, arrow: Text, ini: bool, acc: bool, name: Text, c: Seq<Text>, p: Seq<nat>, v: Seq<A>, r: Text)
    requires is_arrow(arrow), wname(name), elems_ok(e, c, v), c.len() > 0, p.len() == c.len() + 3, forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]) > 0, line_end(r), e(r) is No,
    ensures line_p(e)(rtext(state_cells(arrow, ini, acc, name, c), p, 0) + r) == PR::Got(r, (some_if(ini), some_if(acc), name, v)),
        exists|k: nat| line_start(rtext(state_cells(arrow, ini, acc, name, c), p, 0) + r, k),
{
    let s = rtext(state_cells(arrow, ini, acc, name, c), p, 0) + r;
    let q = p.skip(3);
    let x = rtext(c, q, 0) + r;
    let z = row_z(name, p[2], x);
    let w = row_w(acc, p[1], z);
    let k = row_k(acc, p);
    let u = row_u(ini, arrow, k, w);
    let j: nat = if ini { 0 } else { k };
    assert(p[0] > 0 && p[1] > 0 && p[2] > 0);
    lemma_line_text(arrow, ini, acc, name, c, p, r);
    lemma_marks(arrow, ini, acc, name, p[1], p[2], k, x);
    assert forall|i: int| 0 <= i < c.len() - 1 implies (#[trigger] q[i]) > 0 by { assert(p[i + 3] > 0); }
    lemma_name_cells(e, name, p[2], c, q, v, r);
    lemma_blanks(j, u);
    lemma_seq4(p_opt(p_terminated(g_arrow(), p_space1())), p_opt(p_terminated(g_accepting(), p_space1())), p_terminated(g_state_name(), p_space1()), p_separated_list1(p_space1(), e), g_space_comment(),
        s, u, w, z, x, sp(q[c.len() - 1]) + r, r, some_if(ini), some_if(acc), name, v);
    assert(line_start(s, j)) by { assert forall|i: int| 0 <= i < j implies #[trigger] s[i] == ' ' by { assert((sp(j) + u)[i] == ' '); } assert(s[j as int] == u[0]); }
}
pub proof fn lemma_rtext_skip(c: Seq<Text>, p: Seq<nat>, i: int)
    requires 0 <= i <= c.len(), p.len() == c.len(),
    ensures rtext(c, p, i) == rtext(c.skip(i), p.skip(i), 0),
{
    lemma_rtext_shift(c, p, i, i);
}
pub proof fn lemma_rtext_shift(c: Seq<Text>, p: Seq<nat>, i: int, j: int)
    requires 0 <= i <= j <= c.len(), p.len() == c.len(),
    ensures rtext(c, p, j) == rtext(c.skip(i), p.skip(i), j - i),
    decreases c.len() - j,
{
    if j < c.len() { lemma_rtext_shift(c, p, i, j + 1); assert(c.skip(i)[j - i] == c[j] && p.skip(i)[j - i] == p[j]); }
}
// the head: three empty cells, then the symbols
pub proof fn lemma_head<A>(e: P<A>, c: Seq<Text>, p: Seq<nat>, v: Seq<A>, r: Text)
    requires elems_ok(e, c, v), c.len() > 0, p.len() == c.len() + 3, forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]) > 0, line_end(r), e(r) is No, !is_nl(c[0][0]), c[0][0] != '#',
    ensures p_delimited(p_space0(), p_separated_list1(p_space1(), e), g_space_comment())(rtext(seq![Seq::<char>::empty(), Seq::<char>::empty(), Seq::<char>::empty()] + c, p, 0) + r) == PR::Got(r, v),
        exists|k: nat| line_start(rtext(seq![Seq::<char>::empty(), Seq::<char>::empty(), Seq::<char>::empty()] + c, p, 0) + r, k),
{
    broadcast use axiom_ws;
    let cs = seq![Seq::<char>::empty(), Seq::<char>::empty(), Seq::<char>::empty()] + c;
    let s = rtext(cs, p, 0) + r;
    let q = p.skip(3);
    lemma_rtext_skip(cs, p, 3);
    assert(cs.skip(3) =~= c);
    let x = rtext(c, q, 0) + r;
    let k = p[0] + p[1] + p[2];
    reveal_with_fuel(rtext, 4);
    assert(s =~= sp(k) + x);
    assert(elem_ok(e, c[0], v[0]));
    assert(rtext(c, q, 0)[0] == c[0][0]);
    assert(x[0] == c[0][0]);
    lemma_blanks(k, x);
    assert forall|i: int| 0 <= i < c.len() - 1 implies (#[trigger] q[i]) > 0 by { assert(p[i + 3] > 0); }
    lemma_list(e, c, q, v, r);
    lemma_space_comment(q[c.len() - 1], r);
    assert(line_start(s, k)) by { assert forall|i: int| 0 <= i < k implies #[trigger] s[i] == ' ' by { assert((sp(k) + x)[i] == ' '); } assert(s[k as int] == x[0]); }
}
// ------------------------------------------------------------------ the rows
pub open spec fn row_ok<A>(l: P<A>, t: Text, v: A) -> bool {
    forall|r: Text| line_end(r) ==> #[trigger] l(t + r) == PR::Got(r, v) && exists|k: nat| line_start(t + r, k)
}
pub proof fn lemma_rows_from<A>(l: P<A>, rows: Seq<Text>, v: Seq<A>, i: int)
    requires rows.len() == v.len(), forall|j: int| 0 <= j < rows.len() ==> row_ok(l, #[trigger] rows[j], v[j]), 0 < i <= rows.len(),
    ensures list_from(p_many1(g_space_comment_line()), l, if i < rows.len() { seq!['\n'] + doc(rows, i) } else { Seq::<char>::empty() }) == PR::Got(Seq::<char>::empty(), v.skip(i)),
    decreases rows.len() - i,
{
    let sep = p_many1(g_space_comment_line());
    let e = Seq::<char>::empty();
    if i == rows.len() {
        lemma_no_line_at_end();
        assert(v.skip(i) =~= Seq::<A>::empty());
    } else {
        let s = seq!['\n'] + doc(rows, i);
        let rest = if i + 1 < rows.len() { seq!['\n'] + doc(rows, i + 1) } else { e };
        assert(doc(rows, i) =~= rows[i] + rest);
        assert(row_ok(l, rows[i], v[i]));
        assert(line_end(rest)) by { if i + 1 < rows.len() { assert(rest[0] == '\n'); } }
        assert(l(rows[i] + rest) == PR::Got(rest, v[i]));
        let k = choose|k: nat| line_start(rows[i] + rest, k);
        lemma_next_line(doc(rows, i), k);
        lemma_rows_from(l, rows, v, i + 1);
        assert(seq![v[i]] + v.skip(i + 1) =~= v.skip(i));
    }
}
pub open spec fn rows_p<A>(l: P<A>) -> P<Seq<A>> { p_preceded(p_many0(g_space_comment_line()), p_separated_list1(p_many1(g_space_comment_line()), l)) }
pub open spec fn full_p<H, A>(h: P<H>, l: P<A>) -> P<(H, Seq<A>)> { p_delimited(p_many0(g_space_comment_line()), p_pair(p_terminated(h, p_line_ending()), rows_p(l)), p_many0(g_space_comment_line())) }
pub proof fn lemma_full<H, A>(h: P<H>, hv: H, l: P<A>, head: Text, rows: Seq<Text>, v: Seq<A>)
    requires row_ok(h, head, hv), rows.len() == v.len(), rows.len() > 0, forall|j: int| 0 <= j < rows.len() ==> row_ok(l, #[trigger] rows[j], v[j]),
    ensures full_p(h, l)(doc(seq![head] + rows, 0)) == PR::Got(Seq::<char>::empty(), (hv, v)),
{
    let e = Seq::<char>::empty();
    let all = seq![head] + rows;
    let s = doc(all, 0);
    lemma_doc_shift(head, rows, 0);
    let d = doc(rows, 0);
    let nd = seq!['\n'] + d;
    assert(s =~= head + nd);
    assert(nd[0] == '\n');
    assert(h(head + nd) == PR::Got(nd, hv));
    let k = choose|k: nat| line_start(head + nd, k);
    lemma_no_blank_line(s, k);
    let rest = if 1 < rows.len() { seq!['\n'] + doc(rows, 1) } else { e };
    assert(d =~= rows[0] + rest);
    assert(row_ok(l, rows[0], v[0]));
    assert(line_end(rest)) by { if 1 < rows.len() { assert(rest[0] == '\n'); } }
    assert(l(rows[0] + rest) == PR::Got(rest, v[0]));
    let k2 = choose|k: nat| line_start(rows[0] + rest, k);
    lemma_next_line(d, k2);
    assert(p_terminated(h, p_line_ending())(s) == PR::Got(d, hv));
    lemma_no_blank_line(d, k2);
    lemma_rows_from(l, rows, v, 1);
    assert(seq![v[0]] + v.skip(1) =~= v);
    assert(rows_p(l)(d) == PR::Got(e, v));
    lemma_no_line_at_end();
}
pub proof fn lemma_doc_shift(head: Text, rows: Seq<Text>, i: int)
    requires 0 <= i < rows.len(),
    ensures doc(seq![head] + rows, i + 1) == doc(rows, i),
    decreases rows.len() - i,
{
    let all = seq![head] + rows;
    assert(all[i + 1] == rows[i]);
    if i + 1 < rows.len() { lemma_doc_shift(head, rows, i + 1); }
}
