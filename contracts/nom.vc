@raw
// ------------------------------------------------------------------ nom 7.1.3 (trusted)
// What the combinators of the nom crate do on texts, written from their sources.  A parser is a function from a text to
// a result: the rest of the text and a value, or an error.  (nom's other kinds of error, Failure and Incomplete, are
// never made by the complete parsers used here.)
pub enum PR<T> { Got(Seq<char>, T), No }
pub type P<T> = spec_fn(Seq<char>) -> PR<T>;
pub open spec fn p_map<A, B>(p: P<A>, f: spec_fn(A) -> B) -> P<B> { |s: Seq<char>| match p(s) { PR::Got(r, a) => PR::Got(r, f(a)), PR::No => PR::No } }
pub open spec fn p_value<A, B>(v: B, p: P<A>) -> P<B> { |s: Seq<char>| match p(s) { PR::Got(r, a) => PR::Got(r, v), PR::No => PR::No } }
pub open spec fn p_verify<A>(p: P<A>, f: spec_fn(A) -> bool) -> P<A> { |s: Seq<char>| match p(s) { PR::Got(r, a) => if f(a) { PR::Got(r, a) } else { PR::No }, PR::No => PR::No } }
pub open spec fn p_opt<A>(p: P<A>) -> P<Option<A>> { |s: Seq<char>| match p(s) { PR::Got(r, a) => PR::Got(r, Some(a)), PR::No => PR::Got(s, None::<A>) } }
pub open spec fn p_pair<A, B>(p: P<A>, q: P<B>) -> P<(A, B)> { |s: Seq<char>| match p(s) { PR::Got(r, a) => match q(r) { PR::Got(r2, b) => PR::Got(r2, (a, b)), PR::No => PR::No }, PR::No => PR::No } }
pub open spec fn p_preceded<A, B>(p: P<A>, q: P<B>) -> P<B> { |s: Seq<char>| match p(s) { PR::Got(r, a) => q(r), PR::No => PR::No } }
pub open spec fn p_terminated<A, B>(p: P<A>, q: P<B>) -> P<A> { |s: Seq<char>| match p(s) { PR::Got(r, a) => match q(r) { PR::Got(r2, b) => PR::Got(r2, a), PR::No => PR::No }, PR::No => PR::No } }
pub open spec fn p_delimited<A, B, C>(p: P<A>, q: P<B>, t: P<C>) -> P<B> { p_preceded(p, p_terminated(q, t)) }
pub open spec fn p_tuple2<A, B>(p: P<A>, q: P<B>) -> P<(A, B)> { p_pair(p, q) }
pub open spec fn p_tuple3<A, B, C>(p: P<A>, q: P<B>, t: P<C>) -> P<(A, B, C)> { |s: Seq<char>| match p_pair(p, p_pair(q, t))(s) { PR::Got(r, x) => PR::Got(r, (x.0, x.1.0, x.1.1)), PR::No => PR::No } }
pub open spec fn p_tuple4<A, B, C, D>(p: P<A>, q: P<B>, t: P<C>, u: P<D>) -> P<(A, B, C, D)> { |s: Seq<char>| match p_pair(p, p_pair(q, p_pair(t, u)))(s) { PR::Got(r, x) => PR::Got(r, (x.0, x.1.0, x.1.1.0, x.1.1.1)), PR::No => PR::No } }
pub open spec fn p_alt2<A>(p: P<A>, q: P<A>) -> P<A> { |s: Seq<char>| match p(s) { PR::Got(r, a) => PR::Got(r, a), PR::No => q(s) } }
pub open spec fn p_alt3<A>(p: P<A>, q: P<A>, t: P<A>) -> P<A> { p_alt2(p, p_alt2(q, t)) }
pub open spec fn p_recognize<A>(p: P<A>) -> P<Seq<char>> { |s: Seq<char>| match p(s) { PR::Got(r, a) => PR::Got(r, s.take(s.len() - r.len())), PR::No => PR::No } }
pub open spec fn p_all_consuming<A>(p: P<A>) -> P<A> { |s: Seq<char>| match p(s) { PR::Got(r, a) => if r.len() == 0 { PR::Got(r, a) } else { PR::No }, PR::No => PR::No } }
pub open spec fn p_tag(t: Seq<char>) -> P<Seq<char>> { |s: Seq<char>| if t.len() <= s.len() && s.take(t.len() as int) == t { PR::Got(s.skip(t.len() as int), t) } else { PR::No } }
// the length of the longest start of s whose characters all satisfy f
pub open spec fn span(f: spec_fn(char) -> bool, s: Seq<char>) -> nat decreases s.len() { if s.len() > 0 && f(s[0]) { 1 + span(f, s.skip(1)) } else { 0 } }
pub open spec fn p_while0(f: spec_fn(char) -> bool) -> P<Seq<char>> { |s: Seq<char>| PR::Got(s.skip(span(f, s) as int), s.take(span(f, s) as int)) }
pub open spec fn p_while1(f: spec_fn(char) -> bool) -> P<Seq<char>> { |s: Seq<char>| if span(f, s) == 0 { PR::No } else { PR::Got(s.skip(span(f, s) as int), s.take(span(f, s) as int)) } }
pub open spec fn p_take_till1(f: spec_fn(char) -> bool) -> P<Seq<char>> { p_while1(|c: char| !f(c)) }
pub open spec fn p_take_while1(f: spec_fn(char) -> bool) -> P<Seq<char>> { p_while1(f) }
pub open spec fn p_take_while(f: spec_fn(char) -> bool) -> P<Seq<char>> { p_while0(f) }
pub open spec fn p_take_till(f: spec_fn(char) -> bool) -> P<Seq<char>> { p_while0(|c: char| !f(c)) }
pub open spec fn p_char(c: char) -> P<char> { |s: Seq<char>| if s.len() > 0 && s[0] == c { PR::Got(s.skip(1), c) } else { PR::No } }
pub open spec fn p_not<A>(p: P<A>) -> P<()> { |s: Seq<char>| match p(s) { PR::Got(r, a) => PR::No, PR::No => PR::Got(s, ()) } }
pub open spec fn p_peek<A>(p: P<A>) -> P<A> { |s: Seq<char>| match p(s) { PR::Got(r, a) => PR::Got(s, a), PR::No => PR::No } }
pub open spec fn is_space(c: char) -> bool { c == ' ' || c == '\t' }
pub open spec fn p_space0() -> P<Seq<char>> { p_while0(|c: char| is_space(c)) }
pub open spec fn p_space1() -> P<Seq<char>> { p_while1(|c: char| is_space(c)) }
pub open spec fn is_nl(c: char) -> bool { c == '\n' || c == '\r' }
pub open spec fn p_line_ending() -> P<Seq<char>> { p_alt2(p_tag(seq!['\n']), p_tag(seq!['\r', '\n'])) }
pub open spec fn p_not_line_ending() -> P<Seq<char>> {
    |s: Seq<char>| { let k = span(|c: char| !is_nl(c), s) as int;
        if k < s.len() && s[k] == '\r' && !(k + 1 < s.len() && s[k + 1] == '\n') { PR::No } else { PR::Got(s.skip(k), s.take(k)) } }
}
pub open spec fn p_eof() -> P<Seq<char>> { |s: Seq<char>| if s.len() == 0 { PR::Got(s, s) } else { PR::No } }
// a repetition stops with an error when its parser read nothing
pub open spec fn many_from<A>(p: P<A>, s: Seq<char>) -> PR<Seq<A>> decreases s.len() {
    match p(s) { PR::No => PR::Got(s, Seq::<A>::empty()),
        PR::Got(r, a) => if r.len() >= s.len() { PR::No } else { match many_from(p, r) { PR::Got(r2, v) => PR::Got(r2, seq![a] + v), PR::No => PR::No } } }
}
pub open spec fn p_many0<A>(p: P<A>) -> P<Seq<A>> { |s: Seq<char>| many_from(p, s) }
pub open spec fn p_many1<A>(p: P<A>) -> P<Seq<A>> { |s: Seq<char>| match p(s) { PR::No => PR::No, PR::Got(r, a) => match many_from(p, r) { PR::Got(r2, v) => PR::Got(r2, seq![a] + v), PR::No => PR::No } } }
// after an element: (separator element)*; a separator without an element is left in the text
pub open spec fn list_from<A, B>(sep: P<B>, p: P<A>, s: Seq<char>) -> PR<Seq<A>> decreases s.len() {
    match sep(s) { PR::No => PR::Got(s, Seq::<A>::empty()),
        PR::Got(r, b) => if r.len() >= s.len() { PR::No } else { match p(r) {
            PR::No => PR::Got(s, Seq::<A>::empty()),
            PR::Got(r2, a) => if r2.len() > r.len() { PR::No } else { match list_from(sep, p, r2) { PR::Got(r3, v) => PR::Got(r3, seq![a] + v), PR::No => PR::No } } } } }
}
pub open spec fn p_separated_list1<A, B>(sep: P<B>, p: P<A>) -> P<Seq<A>> { |s: Seq<char>| match p(s) { PR::No => PR::No, PR::Got(r, a) => match list_from(sep, p, r) { PR::Got(r2, v) => PR::Got(r2, seq![a] + v), PR::No => PR::No } } }
pub open spec fn p_separated_list0<A, B>(sep: P<B>, p: P<A>) -> P<Seq<A>> { |s: Seq<char>| match p(s) { PR::No => PR::Got(s, Seq::<A>::empty()), PR::Got(r, a) => match list_from(sep, p, r) { PR::Got(r2, v) => PR::Got(r2, seq![a] + v), PR::No => PR::No } } }
// char::is_whitespace: blanks and line ends are whitespace, printable ASCII and ε are not, the rest is left open
pub uninterp spec fn char_ws(c: char) -> bool;
pub broadcast axiom fn axiom_ws(c: char) ensures c == ' ' || c == '\t' || c == '\n' || c == '\r' ==> #[trigger] char_ws(c);
pub broadcast axiom fn axiom_no_ws(c: char) ensures ('!' <= c && c <= '~') || c == 'ε' ==> !#[trigger] char_ws(c);
pub open spec fn p_fail<A>() -> P<A> { |s: Seq<char>| PR::No }
pub open spec fn p_alt4<A>(p: P<A>, q: P<A>, t: P<A>, u: P<A>) -> P<A> { p_alt2(p, p_alt3(q, t, u)) }
pub open spec fn p_one_of(t: Seq<char>) -> P<char> { |s: Seq<char>| if s.len() > 0 && t.contains(s[0]) { PR::Got(s.skip(1), s[0]) } else { PR::No } }
pub open spec fn p_none_of(t: Seq<char>) -> P<char> { |s: Seq<char>| if s.len() > 0 && !t.contains(s[0]) { PR::Got(s.skip(1), s[0]) } else { PR::No } }
// str::trim and its halves
pub open spec fn trim_l(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && char_ws(s[0]) { trim_l(s.skip(1)) } else { s } }
pub open spec fn trim_r(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && char_ws(s.last()) { trim_r(s.drop_last()) } else { s } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { trim_r(trim_l(s)) }
pub open spec fn p_trim<A>(p: P<A>) -> P<A> { |s: Seq<char>| p(trimmed(s)) }
pub open spec fn p_trim_start<A>(p: P<A>) -> P<A> { |s: Seq<char>| p(trim_l(s)) }
pub open spec fn p_trim_end<A>(p: P<A>) -> P<A> { |s: Seq<char>| p(trim_r(s)) }
// the first character, or the character 0
pub open spec fn first_or_nul(s: Seq<char>) -> char { if s.len() > 0 { s[0] } else { '\0' } }
