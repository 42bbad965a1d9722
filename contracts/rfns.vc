@raw
// ------------------------------------------------------------------ texts by bytes
// the length of a character in UTF-8
pub uninterp spec fn clen(c: char) -> nat;
pub broadcast axiom fn axiom_clen(c: char) ensures #[trigger] clen(c) >= 1;
pub open spec fn ulen(s: Text) -> nat decreases s.len() { if s.len() == 0 { 0 } else { ulen(s.drop_last()) + clen(s.last()) } }
pub proof fn lemma_ulen(s: Text, i: int, j: int)
    requires 0 <= i < j <= s.len(),
    ensures ulen(s.take(i)) < ulen(s.take(j)),
    decreases j,
{
    broadcast use axiom_clen;
    assert(s.take(j).drop_last() =~= s.take(j - 1));
    if i < j - 1 { lemma_ulen(s, i, j - 1); }
}
// n bytes are k characters
pub open spec fn at_byte(s: Text, n: int, k: int) -> bool { 0 <= k <= s.len() && ulen(s.take(k)) == n }
pub open spec fn on_char(s: Text, n: int) -> bool { exists|k: int| at_byte(s, n, k) }
pub open spec fn char_at(s: Text, n: int) -> int { choose|k: int| at_byte(s, n, k) }
pub proof fn lemma_at_byte(s: Text, n: int, k: int, l: int)
    requires at_byte(s, n, k), at_byte(s, n, l),
    ensures k == l,
{
    if k < l { lemma_ulen(s, k, l); }
    if l < k { lemma_ulen(s, l, k); }
}
pub trait CharPat: Sized { spec fn hit(&self, c: char) -> bool; }
impl CharPat for Vec<char> { open spec fn hit(&self, c: char) -> bool { self@.contains(c) } }
impl CharPat for char { open spec fn hit(&self, c: char) -> bool { c == *self } }
impl Str {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == ulen(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn slice_from_(&self, n: usize) -> (r: &Str) requires on_char(self@, n as int) ensures r@ == self@.skip(char_at(self@, n as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn slice_to_(&self, n: usize) -> (r: &Str) requires on_char(self@, n as int) ensures r@ == self@.take(char_at(self@, n as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, n: usize, c: char) requires on_char(old(self)@, n as int) ensures ({ let k = char_at(old(self)@, n as int); final(self)@ == old(self)@.take(k).push(c) + old(self)@.skip(k) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn trim(&self) -> (r: &Str) ensures r@ == trimmed(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with<T: CharPat>(&self, p: T) -> (r: bool) ensures r == (self@.len() > 0 && p.hit(self@[0])) { unimplemented!() }
}
impl<'a> PartialEq<Str> for &'a Str {
    #[verifier::external_body]
    fn eq(&self, o: &Str) -> (r: bool) { unimplemented!() }
}
impl<'a> PartialEqSpecImpl<Str> for &'a Str {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Str) -> bool { self@ == o@ }
}
// ------------------------------------------------------------------ unicode-segmentation and nom (trusted)
pub axiom fn axiom_graphemes(s: Text) ensures graphemes(s) == (if s.len() == 0 { Seq::<Text>::empty() } else { seq![s.take(fc(s))] + graphemes(s.skip(fc(s))) });
// the answer about a whole text, never an error
pub struct Boundary { pub b: bool }
impl Boundary {
    pub fn unwrap_or(self, d: bool) -> (r: bool) ensures r == self.b { self.b }
    pub fn unwrap(self) -> (r: bool) ensures r == self.b { self.b }
}
pub struct GraphemeCursor { pub offset: usize, pub len: usize, pub ext: bool }
impl GraphemeCursor {
    pub fn new(offset: usize, len: usize, ext: bool) -> (r: GraphemeCursor) ensures r == (GraphemeCursor { offset, len, ext }) { GraphemeCursor { offset, len, ext } }
    // asked about the whole text
    #[verifier::external_body]
    pub fn is_boundary(&self, chunk: &Str, start: usize) -> (r: Boundary)
        requires self.ext, start == 0, self.len == ulen(chunk@), on_char(chunk@, self.offset as int),
        ensures ({ let k = char_at(chunk@, self.offset as int); r.b == (k == 0 || k == chunk@.len() || brk(chunk@.take(k), chunk@[k])) }) { unimplemented!() }
}

pub struct NomError {}
pub type IResult<A, B> = Result<(A, B), NomError>;
#[verifier::external_body]
pub fn fail<'a, B>(s: &'a Str) -> (r: IResult<&'a Str, B>) ensures r is Err { unimplemented!() }
@raw
pub proof fn lemma_at_end(a: Text, g: Text)
    ensures on_char(a + g, ulen(a) as int), char_at(a + g, ulen(a) as int) == a.len(), (a + g).take(a.len() as int) == a, (a + g).skip(a.len() as int) == g,
{
    let s = a + g;
    assert(s.take(a.len() as int) =~= a);
    assert(at_byte(s, ulen(a) as int, a.len() as int));
    lemma_at_byte(s, ulen(a) as int, char_at(s, ulen(a) as int), a.len() as int);
    assert(s.skip(a.len() as int) =~= g);
}
pub open spec fn views(m: Seq<&Str>) -> Seq<Text> { m.map_values(|x: &Str| x@) }
// the first of the clusters of a text
pub proof fn lemma_first_cluster(s: Text)
    ensures forall|m: Seq<&Str>| #![trigger m.len()] m.map_values(|x: &Str| x@) == graphemes(s) ==> m.len() == graphemes(s).len() && (s.len() > 0 ==> m.len() > 0 && m[0]@ == s.take(fc(s))),
        s.len() == 0 ==> graphemes(s).len() == 0, s.len() > 0 ==> on_char(s, ulen(s.take(fc(s))) as int) && char_at(s, ulen(s.take(fc(s))) as int) == fc(s),
{
    axiom_graphemes(s);
    assert forall|m: Seq<&Str>| #![trigger m.len()] m.map_values(|x: &Str| x@) == graphemes(s) implies m.len() == graphemes(s).len() && (s.len() > 0 ==> m.len() > 0 && m[0]@ == s.take(fc(s))) by {
        let u = m.map_values(|x: &Str| x@);
        assert(u.len() == m.len());
        if s.len() > 0 { assert(u[0] == m[0]@); assert(graphemes(s)[0] == s.take(fc(s))); }
    }
    if s.len() > 0 {
        lemma_read_cluster(s);
        lemma_at_end(s.take(fc(s)), s.skip(fc(s)));
        assert(s.take(fc(s)) + s.skip(fc(s)) =~= s);
    }
}
pub proof fn lemma_at_ends(a: Text)
    ensures forall|g: Text| #![trigger a + g] on_char(a + g, ulen(a) as int) && char_at(a + g, ulen(a) as int) == a.len() && (a + g).take(a.len() as int) == a && (a + g).skip(a.len() as int) == g,
{
    assert forall|g: Text| #![trigger a + g] on_char(a + g, ulen(a) as int) && char_at(a + g, ulen(a) as int) == a.len() && (a + g).take(a.len() as int) == a && (a + g).skip(a.len() as int) == g by { lemma_at_end(a, g); }
}
pub proof fn lemma_specials()
    ensures forall|c: char| seq!['(', ')', '∅', 'ε', '|', '*', '+', '\\'].contains(c) <==> #[trigger] special(c),
{
    assert forall|c: char| seq!['(', ')', '∅', 'ε', '|', '*', '+', '\\'].contains(c) <==> #[trigger] special(c) by { lemma_special(c); }
}
// the first alternative
pub proof fn lemma_first_alt(t: RegexTree, a: Text)
    requires t is Alt,
    ensures pr_alts(stree(t)->Alt_0, 0, a) == a, t->Alt_0@.len() > 0 ==> pr_alts(stree(t)->Alt_0, 1, a) == pr(stree(t->Alt_0@[0]), a),
{
    let v = stree(t)->Alt_0;
    assert(pr_alts(v, 0, a) == a);
    if v.len() > 0 { assert(v[0] == stree(t->Alt_0@[0])); assert(pr_alts(v, 1, a) == pr(v[0], bar(pr_alts(v, 0, a), 1))); }
}
@fn dandy/src/parser/regex.rs one_cluster
    ensures match r { Ok(x) => g_one_cluster()(input@) == PR::Got(x.0@, schar(x.1)), Err(_) => g_one_cluster()(input@) is No },
@start
    proof { lemma_first_cluster(input@); }
@fn dandy/src/regex/mod.rs Regex::build_string
    ensures final(acc)@ == pr(stree(*tree), old(acc)@),
@start
    proof { lemma_at_ends(acc@); lemma_specials(); if *tree is Alt { lemma_first_alt(*tree, acc@.push('(')); } }
@loop 1 inv
    *tree is Sequence, it1_seq == tree->Sequence_0@, acc@ == pr_items(stree(*tree)->Sequence_0, it1.pos(), old(acc)@),
@loop 1 top
    let ghost p1 = it1.pos(); proof { assert(stree(*tree)->Sequence_0[p1] == stree(it1_seq[p1])); }
@loop 2 inv
    *tree is Alt, it2_seq == tree->Alt_0@, it2.pos() >= 1, acc@ == pr_alts(stree(*tree)->Alt_0, it2.pos(), old(acc)@.push('(')),
@loop 2 top
    let ghost p2 = it2.pos(); proof { assert(stree(*tree)->Alt_0[p2] == stree(it2_seq[p2])); }
@fn dandy/src/regex/mod.rs Regex::to_string
@fmt
    ensures printed_form(stree(self.tree), r@),
@start
    proof { reveal_strlit("("); reveal_strlit(")"); }
@end
    proof { let p = plain(stree(self.tree)); if trimmed(p) != p { assert(ret_@ =~= seq!['('] + (p + seq![')'])); } }
