@type dandy/src/parser/mod.rs ParsedDfaState
@type dandy/src/parser/mod.rs ParsedDfa
@type dandy/src/parser/mod.rs NfaAlphabetEntry
@type dandy/src/parser/mod.rs ParsedNfaState
@type dandy/src/parser/mod.rs ParsedNfa
@raw
// ------------------------------------------------------------------ names and symbols in a list
pub type Texts = Seq<Seq<char>>;
pub open spec fn twice(s: Texts, c: Seq<char>) -> bool { exists|i: int, j: int| 0 <= i < j < s.len() && #[trigger] s[i] == c && #[trigger] s[j] == c }
// the names seen so far, all different
pub open spec fn seen_texts(s: Texts, k: int, x: Set<Seq<char>>) -> bool { s.take(k).no_duplicates() && forall|c: Seq<char>| #[trigger] x.contains(c) <==> s.take(k).contains(c) }
pub proof fn lemma_tpush(s: Texts, k: int, c: Seq<char>)
    requires 0 < k <= s.len(),
    ensures s.take(k) == s.take(k - 1).push(s[k - 1]), s.take(k).contains(c) <==> s.take(k - 1).contains(c) || c == s[k - 1],
{
    let a = s.take(k - 1); let b = s.take(k);
    assert(b =~= a.push(s[k - 1]));
    if a.contains(c) { let i = choose|i: int| 0 <= i < a.len() && a[i] == c; assert(b[i] == c); }
    if b.contains(c) { let i = choose|i: int| 0 <= i < b.len() && b[i] == c; if i < k - 1 { assert(a[i] == c); } }
    assert(b[k - 1] == s[k - 1]);
}
pub proof fn lemma_seen_start(s: Texts)
    ensures seen_texts(s, 0, Set::empty()),
{
    assert(s.take(0) =~= Seq::<Seq<char>>::empty());
}
// the next one is new, or was seen before
pub proof fn lemma_seen_step(s: Texts, k: int, x: Set<Seq<char>>)
    requires seen_texts(s, k - 1, x), 0 < k <= s.len(),
    ensures !x.contains(s[k - 1]) ==> seen_texts(s, k, x.insert(s[k - 1])), x.contains(s[k - 1]) ==> twice(s, s[k - 1]),
{
    let c = s[k - 1];
    lemma_tpush(s, k, c);
    if x.contains(c) {
        let a0 = s.take(k - 1);
        let i = choose|i: int| 0 <= i < a0.len() && a0[i] == c;
        assert(s[i] == c && s[k - 1] == c);
    } else {
        assert(s.take(k).no_duplicates()) by {
            assert forall|i: int, j: int| 0 <= i < k && 0 <= j < k && i != j implies s.take(k)[i] != s.take(k)[j] by {
                let a = s.take(k - 1);
                if i < k - 1 { assert(a[i] == s.take(k)[i]); assert(a.contains(a[i])); }
                if j < k - 1 { assert(a[j] == s.take(k)[j]); assert(a.contains(a[j])); }
            }
        }
        assert forall|b: Seq<char>| #[trigger] x.insert(c).contains(b) <==> s.take(k).contains(b) by { lemma_tpush(s, k, b); assert(x.contains(b) <==> s.take(k - 1).contains(b)); }
    }
}
pub proof fn lemma_seen_all(s: Texts, x: Set<Seq<char>>)
    requires seen_texts(s, s.len() as int, x),
    ensures s.no_duplicates(), forall|c: Seq<char>| !twice(s, c),
{
    assert(s.take(s.len() as int) =~= s);
    assert forall|c: Seq<char>| !twice(s, c) by { if twice(s, c) { let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() && #[trigger] s[i] == c && #[trigger] s[j] == c; assert(s[i] == s[j]); } }
}
// the index of every name of the first k
pub open spec fn name_map(s: Texts, k: int, m: Map<Seq<char>, usize>) -> bool {
    &&& forall|c: Seq<char>| #[trigger] m.contains_key(c) <==> s.take(k).contains(c)
    &&& forall|c: Seq<char>| #[trigger] m.contains_key(c) ==> m[c] < k && s[m[c] as int] == c
}
pub proof fn lemma_name_map_start(s: Texts)
    ensures name_map(s, 0, Map::empty()),
{
    assert(s.take(0) =~= Seq::<Seq<char>>::empty());
}
pub proof fn lemma_name_map_step(s: Texts, k: int, m: Map<Seq<char>, usize>, i: usize)
    requires name_map(s, k - 1, m), 0 < k <= s.len(), i == k - 1,
    ensures name_map(s, k, m.insert(s[k - 1], i)),
{
    let m2 = m.insert(s[k - 1], i);
    assert forall|c: Seq<char>| #[trigger] m2.contains_key(c) <==> s.take(k).contains(c) by { lemma_tpush(s, k, c); assert(m.contains_key(c) <==> s.take(k - 1).contains(c)); }
    assert forall|c: Seq<char>| #[trigger] m2.contains_key(c) implies m2[c] < k && s[m2[c] as int] == c by { if c != s[k - 1] { assert(m.contains_key(c)); } }
}
// as many keys as names: no name is repeated
pub proof fn lemma_name_map_len(s: Texts, m: Map<Seq<char>, usize>)
    requires name_map(s, s.len() as int, m),
    ensures (m.dom().len() == s.len()) <==> s.no_duplicates(), forall|c: Seq<char>| #[trigger] m.contains_key(c) <==> s.contains(c),
{
    assert(s.take(s.len() as int) =~= s);
    assert forall|c: Seq<char>| #[trigger] m.contains_key(c) <==> s.contains(c) by { }
    assert(m.dom() =~= s.to_set()) by {
        assert forall|c: Seq<char>| m.dom().contains(c) <==> s.to_set().contains(c) by { assert(m.contains_key(c) <==> s.contains(c)); }
    }
    if s.no_duplicates() { s.unique_seq_to_set(); }
    if m.dom().len() == s.len() { s.lemma_no_dup_set_cardinality(); }
}
// at most one place has the flag set: the first k
pub open spec fn flag_at(f: Seq<bool>, k: int, i: Option<usize>) -> bool {
    match i { None => forall|q: int| 0 <= q < k ==> !#[trigger] f[q], Some(p) => p < k && forall|q: int| 0 <= q < k ==> #[trigger] f[q] == (q == p) }
}
pub open spec fn two_flags(f: Seq<bool>) -> bool { exists|i: int, j: int| 0 <= i < j < f.len() && #[trigger] f[i] && #[trigger] f[j] }
