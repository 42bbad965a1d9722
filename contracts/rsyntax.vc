@raw
// ------------------------------------------------------------------ the documented syntax of regular expressions
pub type Text = Seq<char>;
pub open spec fn special(c: char) -> bool { c == '(' || c == ')' || c == '∅' || c == 'ε' || c == '|' || c == '*' || c == '+' || c == '\\' }
// An expression as it is written: alternatives, each a nonempty list of items; an item is a symbol (with a backslash in
// front or not), ε, ∅ or an expression in parentheses, followed by nothing, * or +.
pub enum Atom { Sym(bool, Text), Eps, Nothing, Par(Seq<Seq<Item>>) }
pub struct Item { pub a: Atom, pub post: int }
pub open spec fn atext(a: Atom) -> Text decreases a, 2nat {
    match a { Atom::Sym(q, g) => if q { seq!['\\'] + g } else { g }, Atom::Eps => seq!['ε'], Atom::Nothing => seq!['∅'], Atom::Par(v) => seq!['('] + (vtext(v, 0) + seq![')']) }
}
pub open spec fn ptext(post: int) -> Text { if post == 1 { seq!['*'] } else if post == 2 { seq!['+'] } else { Seq::<char>::empty() } }
pub open spec fn itext(i: Item) -> Text decreases i, 3nat { atext(i.a) + ptext(i.post) }
// the items from the i-th on
pub open spec fn stext(s: Seq<Item>, i: int) -> Text decreases s, s.len() - i { if 0 <= i < s.len() { itext(s[i]) + stext(s, i + 1) } else { Seq::<char>::empty() } }
// the alternatives from the i-th on
pub open spec fn vtext(v: Seq<Seq<Item>>, i: int) -> Text decreases v, v.len() - i, 0nat { if 0 <= i < v.len() { stext(v[i], 0) + vmore(v, i + 1) } else { Seq::<char>::empty() } }
pub open spec fn vmore(v: Seq<Seq<Item>>, i: int) -> Text decreases v, v.len() - i, 1nat { if 0 < i < v.len() { seq!['|'] + vtext(v, i) } else { Seq::<char>::empty() } }
// what it stands for
pub open spec fn wrap_seq(v: Seq<S_RegexTree>) -> S_RegexTree { if v.len() > 1 { S_RegexTree::Sequence(v) } else { v[0] } }
pub open spec fn wrap_alt(v: Seq<S_RegexTree>) -> S_RegexTree { if v.len() > 1 { S_RegexTree::Alt(v) } else { v[0] } }
pub open spec fn post_tree(t: S_RegexTree, post: int) -> S_RegexTree {
    if post == 1 { S_RegexTree::Repeat(Box::new(t)) } else if post == 2 { S_RegexTree::Sequence(seq![t, S_RegexTree::Repeat(Box::new(t))]) } else { t }
}
pub open spec fn atree(a: Atom) -> S_RegexTree decreases a, 2nat {
    match a { Atom::Sym(q, g) => S_RegexTree::Char(S_RegexChar::Grapheme(g)), Atom::Eps => S_RegexTree::Char(S_RegexChar::Epsilon), Atom::Nothing => S_RegexTree::Char(S_RegexChar::Empty),
        Atom::Par(v) => wrap_alt(vtrees(v, 0)) }
}
pub open spec fn itree(i: Item) -> S_RegexTree decreases i, 3nat { post_tree(atree(i.a), i.post) }
pub open spec fn strees(s: Seq<Item>, i: int) -> Seq<S_RegexTree> decreases s, s.len() - i { if 0 <= i < s.len() { seq![itree(s[i])] + strees(s, i + 1) } else { Seq::<S_RegexTree>::empty() } }
pub open spec fn vtrees(v: Seq<Seq<Item>>, i: int) -> Seq<S_RegexTree> decreases v, v.len() - i { if 0 <= i < v.len() { seq![wrap_seq(strees(v[i], 0))] + vtrees(v, i + 1) } else { Seq::<S_RegexTree>::empty() } }
pub open spec fn vtree(v: Seq<Seq<Item>>) -> S_RegexTree { wrap_alt(vtrees(v, 0)) }
// parentheses inside parentheses
pub open spec fn adepth(a: Atom) -> nat decreases a, 2nat { match a { Atom::Par(v) => 1 + vdepth(v, 0), _ => 0 } }
pub open spec fn sdepth(s: Seq<Item>, i: int) -> nat decreases s, s.len() - i { if 0 <= i < s.len() { nmax(adepth(s[i].a), sdepth(s, i + 1)) } else { 0 } }
pub open spec fn vdepth(v: Seq<Seq<Item>>, i: int) -> nat decreases v, v.len() - i { if 0 <= i < v.len() { nmax(sdepth(v[i], 0), vdepth(v, i + 1)) } else { 0 } }
pub open spec fn nmax(a: nat, b: nat) -> nat { if a < b { b } else { a } }
// a symbol is one grapheme cluster
pub open spec fn cluster(g: Text) -> bool { g.len() > 0 && fc(g) == g.len() }
// The expression is well written when r comes after it: every symbol is one cluster that does not join what is written
// behind it, reserved characters have their backslash, and what follows an item without * and + is neither.
pub open spec fn aok(a: Atom, r: Text) -> bool decreases a, 2nat {
    match a { Atom::Sym(q, g) => cluster(g) && (q || !special(g[0])) && (r.len() == 0 || brk(g, r[0])), Atom::Par(v) => v.len() > 0 && vok(v, 0, seq![')'] + r), _ => true }
}
pub open spec fn no_post(r: Text) -> bool { r.len() == 0 || (r[0] != '*' && r[0] != '+') }
pub open spec fn iok(i: Item, r: Text) -> bool decreases i, 3nat { 0 <= i.post <= 2 && aok(i.a, ptext(i.post) + r) && (i.post == 0 ==> no_post(r)) }
pub open spec fn sok(s: Seq<Item>, i: int, r: Text) -> bool decreases s, s.len() - i { 0 <= i < s.len() ==> iok(s[i], stext(s, i + 1) + r) && sok(s, i + 1, r) }
pub open spec fn vok(v: Seq<Seq<Item>>, i: int, r: Text) -> bool decreases v, v.len() - i { 0 <= i < v.len() ==> v[i].len() > 0 && sok(v[i], 0, vmore(v, i + 1) + r) && vok(v, i + 1, r) }

// ------------------------------------------------------------------ clusters
pub proof fn lemma_fc_from(s: Text, i: int)
    requires 0 < i <= s.len(),
    ensures i <= fc_from(s, i) <= s.len(), forall|j: int| i <= j < fc_from(s, i) ==> !brk(#[trigger] s.take(j), s[j]), fc_from(s, i) < s.len() ==> brk(s.take(fc_from(s, i)), s[fc_from(s, i)]),
    decreases s.len() - i,
{
    if i < s.len() && !brk(s.take(i), s[i]) { lemma_fc_from(s, i + 1); }
}
pub proof fn lemma_fc_is(s: Text, i: int, n: int)
    requires 0 < i <= n <= s.len(), forall|j: int| i <= j < n ==> !brk(#[trigger] s.take(j), s[j]), n == s.len() || brk(s.take(n), s[n]),
    ensures fc_from(s, i) == n,
    decreases n - i,
{
    if i < n { assert(!brk(s.take(i), s[i])); lemma_fc_is(s, i + 1, n); }
}
// a cluster that does not join what follows is read as one
pub proof fn lemma_first(g: Text, r: Text)
    requires cluster(g), r.len() == 0 || brk(g, r[0]),
    ensures fc(g + r) == g.len(), (g + r).take(g.len() as int) == g, (g + r).skip(g.len() as int) == r,
{
    let s = g + r;
    let n = g.len() as int;
    lemma_fc_from(g, 1);
    assert forall|j: int| 1 <= j < n implies !brk(#[trigger] s.take(j), s[j]) by { assert(s.take(j) =~= g.take(j)); assert(!brk(g.take(j), g[j])); }
    assert(s.take(n) =~= g);
    assert(s.skip(n) =~= r);
    if r.len() > 0 { assert(s[n] == r[0]); } else { assert(s =~= g); }
    lemma_fc_is(s, 1, n);
}
// what is read is one cluster
pub proof fn lemma_read_cluster(s: Text)
    requires s.len() > 0,
    ensures 0 < fc(s) <= s.len(), cluster(s.take(fc(s))),
{
    lemma_fc_from(s, 1);
    let n = fc(s);
    let g = s.take(n);
    assert forall|j: int| 1 <= j < n implies !brk(#[trigger] g.take(j), g[j]) by { assert(g.take(j) =~= s.take(j)); }
    lemma_fc_is(g, 1, n);
}

// ------------------------------------------------------------------ the grammar reads what the syntax says
pub open spec fn item_p(rec: P<S_RegexTree>) -> P<S_RegexTree> { p_alt2(g_par_expr(rec), g_combinated_char()) }
pub proof fn lemma_cons(c: char, t: Text)
    ensures (seq![c] + t).len() > 0, (seq![c] + t)[0] == c, (seq![c] + t).skip(1) == t,
{
    assert((seq![c] + t).skip(1) =~= t);
}
pub proof fn lemma_assoc(a: Text, b: Text, c: Text)
    ensures (a + b) + c == a + (b + c),
{
    assert((a + b) + c =~= a + (b + c));
}
pub proof fn lemma_kleene(c: char)
    ensures seq!['+', '*'].contains(c) <==> c == '+' || c == '*',
{
    let s = seq!['+', '*'];
    assert(s[0] == '+' && s[1] == '*');
    if s.contains(c) { let i = choose|i: int| 0 <= i < 2 && s[i] == c; }
}
pub proof fn lemma_special(c: char)
    ensures seq!['(', ')', '∅', 'ε', '|', '*', '+', '\\'].contains(c) <==> special(c),
{
    let s = seq!['(', ')', '∅', 'ε', '|', '*', '+', '\\'];
    assert(s[0] == '(' && s[1] == ')' && s[2] == '∅' && s[3] == 'ε' && s[4] == '|' && s[5] == '*' && s[6] == '+' && s[7] == '\\');
    if s.contains(c) { let i = choose|i: int| 0 <= i < 8 && s[i] == c; }
}
// a symbol, ε or ∅
pub proof fn lemma_char(a: Atom, r: Text)
    requires !(a is Par), aok(a, r),
    ensures g_regex_char()(atext(a) + r) matches PR::Got(r2, c) && r2 == r && S_RegexTree::Char(c) == atree(a), (atext(a) + r).len() > 0, (atext(a) + r)[0] != '(',
{
    let s = atext(a) + r;
    match a {
        Atom::Sym(q, g) => {
            lemma_first(g, r); lemma_special(g[0]);
            if q { lemma_assoc(seq!['\\'], g, r); lemma_cons('\\', g + r); } else { assert(s[0] == g[0]); assert(first_or_nul(g) == g[0]); }
        }
        Atom::Eps => { lemma_cons('ε', r); }
        Atom::Nothing => { lemma_cons('∅', r); }
        Atom::Par(v) => {}
    }
}
// * and + behind an item
pub proof fn lemma_post(post: int, r: Text)
    requires 0 <= post <= 2, post == 0 ==> no_post(r),
    ensures p_opt(p_one_of(seq!['+', '*']))(ptext(post) + r) == PR::Got(r, if post == 1 { Some('*') } else if post == 2 { Some('+') } else { None }),
{
    if r.len() > 0 { lemma_kleene(r[0]); }
    lemma_kleene('*'); lemma_kleene('+');
    if post == 0 { assert(ptext(post) + r =~= r); } else if post == 1 { lemma_cons('*', r); } else { lemma_cons('+', r); }
}
pub open spec fn ends_list(r: Text) -> bool { r.len() == 0 || r[0] == ')' || r[0] == '|' }
pub proof fn lemma_stop(rec: P<S_RegexTree>, r: Text)
    requires ends_list(r),
    ensures item_p(rec)(r) is No,
{
    if r.len() > 0 {
        lemma_special(r[0]);
        lemma_read_cluster(r);
        let g = r.take(fc(r));
        assert(first_or_nul(g) == r[0]);
    }
}
// an expression in parentheses
pub proof fn lemma_par(rec: P<S_RegexTree>, x: Text, t: S_RegexTree, post: int, r: Text)
    requires 0 <= post <= 2, post == 0 ==> no_post(r), rec(x + (seq![')'] + (ptext(post) + r))) == PR::Got(seq![')'] + (ptext(post) + r), t),
    ensures g_par_expr(rec)((seq!['('] + (x + seq![')']) + ptext(post)) + r) == PR::Got(r, post_tree(t, post)),
{
    let pr = ptext(post) + r;
    let s = (seq!['('] + (x + seq![')']) + ptext(post)) + r;
    let s1 = x + (seq![')'] + pr);
    lemma_post(post, r);
    lemma_cons(')', pr);
    lemma_cons('(', s1);
    assert(s =~= seq!['('] + s1);
    assert(p_delimited(p_char('('), rec, p_char(')'))(s) == PR::Got(pr, t));
}
pub proof fn lemma_sym(a: Atom, post: int, r: Text)
    requires !(a is Par), aok(a, ptext(post) + r), 0 <= post <= 2, post == 0 ==> no_post(r),
    ensures g_combinated_char()((atext(a) + ptext(post)) + r) == PR::Got(r, post_tree(atree(a), post)), ((atext(a) + ptext(post)) + r).len() > 0, ((atext(a) + ptext(post)) + r)[0] != '(',
{
    lemma_assoc(atext(a), ptext(post), r);
    lemma_post(post, r);
    lemma_char(a, ptext(post) + r);
}
pub proof fn lemma_item(k: nat, i: Item, r: Text)
    requires iok(i, r), k >= adepth(i.a),
    ensures item_p(g_rec(k))(itext(i) + r) == PR::Got(r, itree(i)), itext(i).len() > 0,
    decreases i, 3nat,
{
    let rec = g_rec(k);
    match i.a {
        Atom::Par(v) => {
            lemma_expr((k - 1) as nat, v, seq![')'] + (ptext(i.post) + r));
            lemma_par(rec, vtext(v, 0), vtree(v), i.post, r);
        }
        _ => { lemma_sym(i.a, i.post, r); lemma_no_par(rec, itext(i) + r); assert(itext(i).len() > 0) by { lemma_first_len(i.a, ptext(i.post) + r); } }
    }
}
pub proof fn lemma_no_par(rec: P<S_RegexTree>, s: Text)
    requires s.len() > 0, s[0] != '(',
    ensures g_par_expr(rec)(s) is No,
{
    assert(p_delimited(p_char('('), rec, p_char(')'))(s) is No);
}
pub proof fn lemma_first_len(a: Atom, r: Text)
    requires !(a is Par), aok(a, r),
    ensures atext(a).len() > 0,
{
}
pub proof fn lemma_items(k: nat, s: Seq<Item>, i: int, r: Text)
    requires 0 <= i <= s.len(), sok(s, i, r), k >= sdepth(s, i), ends_list(r),
    ensures many_from(item_p(g_rec(k)), stext(s, i) + r) == PR::Got(r, strees(s, i)),
    decreases s, s.len() - i,
{
    let p = item_p(g_rec(k));
    if i < s.len() {
        let rest = stext(s, i + 1) + r;
        lemma_item(k, s[i], rest);
        lemma_items(k, s, i + 1, r);
        lemma_assoc(itext(s[i]), stext(s, i + 1), r);
    } else {
        lemma_stop(g_rec(k), r);
        assert(stext(s, i) + r =~= r);
    }
}
pub proof fn lemma_sequence(k: nat, s: Seq<Item>, r: Text)
    requires s.len() > 0, sok(s, 0, r), k >= sdepth(s, 0), ends_list(r),
    ensures g_sequence(g_rec(k))(stext(s, 0) + r) == PR::Got(r, wrap_seq(strees(s, 0))), stext(s, 0).len() > 0,
    decreases s, s.len() + 1,
{
    let rest = stext(s, 1) + r;
    lemma_item(k, s[0], rest);
    lemma_items(k, s, 1, r);
    lemma_assoc(itext(s[0]), stext(s, 1), r);
    assert(p_many1(item_p(g_rec(k)))(stext(s, 0) + r) == PR::Got(r, strees(s, 0)));
}
pub proof fn lemma_alternatives(k: nat, v: Seq<Seq<Item>>, i: int, r: Text)
    requires 0 < i <= v.len(), vok(v, i, r), k >= vdepth(v, i), r.len() == 0 || r[0] == ')',
    ensures list_from(p_char('|'), g_sequence(g_rec(k)), vmore(v, i) + r) == PR::Got(r, vtrees(v, i)),
    decreases v, v.len() - i,
{
    if i < v.len() {
        let rest = vmore(v, i + 1) + r;
        if i + 1 < v.len() { lemma_cons('|', vtext(v, i + 1)); assert(rest[0] == '|'); } else { assert(rest =~= r); }
        lemma_sequence(k, v[i], rest);
        lemma_alternatives(k, v, i + 1, r);
        lemma_assoc(stext(v[i], 0), vmore(v, i + 1), r);
        lemma_assoc(seq!['|'], vtext(v, i), r);
        lemma_cons('|', vtext(v, i) + r);
    } else {
        assert(vmore(v, i) + r =~= r);
    }
}
pub proof fn lemma_list1(k: nat, x: Text, rest: Text, t: S_RegexTree, r: Text, ts: Seq<S_RegexTree>)
    requires g_sequence(g_rec(k))(x) == PR::Got(rest, t), list_from(p_char('|'), g_sequence(g_rec(k)), rest) == PR::Got(r, ts),
    ensures g_rec(k + 1)(x) == PR::Got(r, wrap_alt(seq![t] + ts)),
{
    assert(p_separated_list1(p_char('|'), g_sequence(g_rec(k)))(x) == PR::Got(r, seq![t] + ts));
}
pub proof fn lemma_expr(k: nat, v: Seq<Seq<Item>>, r: Text)
    requires v.len() > 0, vok(v, 0, r), k >= vdepth(v, 0), r.len() == 0 || r[0] == ')',
    ensures g_rec(k + 1)(vtext(v, 0) + r) == PR::Got(r, vtree(v)),
    decreases v, v.len() + 1,
{
    let rest = vmore(v, 1) + r;
    if 1 < v.len() { lemma_cons('|', vtext(v, 1)); assert(rest[0] == '|'); } else { assert(rest =~= r); }
    lemma_sequence(k, v[0], rest);
    lemma_alternatives(k, v, 1, r);
    lemma_assoc(stext(v[0], 0), vmore(v, 1), r);
    lemma_list1(k, vtext(v, 0) + r, rest, wrap_seq(strees(v[0], 0)), r, vtrees(v, 1));
}
