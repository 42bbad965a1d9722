@raw
// alphabets as sets of symbols
pub open spec fn has_sym(a: Seq<Str>, c: Seq<char>) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == c }
pub open spec fn alpha_distinct(a: Seq<Str>) -> bool { forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j ==> (#[trigger] a[i])@ != (#[trigger] a[j])@ }
pub open spec fn same_syms(a: Seq<Str>, b: Seq<Str>) -> bool { forall|c: Seq<char>| #[trigger] has_sym(a, c) <==> has_sym(b, c) }
pub open spec fn sym_idx(a: Seq<Str>, c: Seq<char>) -> int { choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == c }
pub open spec fn sym_pos(a: Seq<Str>, c: Seq<char>) -> Option<int> { if has_sym(a, c) { Some(sym_idx(a, c)) } else { None } }

pub proof fn lemma_sym_idx(a: Seq<Str>, i: int)
    requires 0 <= i < a.len(), alpha_distinct(a),
    ensures has_sym(a, a[i]@), sym_idx(a, a[i]@) == i,
{
    assert(a[i]@ == a[i]@);
    let j = sym_idx(a, a[i]@);
    assert(has_sym(a, a[i]@));
    assert(0 <= j < a.len() && a[j]@ == a[i]@);
}
// two lists without repetition and with the same symbols have the same length
pub open spec fn syms(a: Seq<Str>) -> Set<Seq<char>> { a.map_values(|s: Str| s@).to_set() }
pub proof fn lemma_syms(a: Seq<Str>)
    ensures forall|c: Seq<char>| #[trigger] syms(a).contains(c) <==> has_sym(a, c),
        alpha_distinct(a) ==> syms(a).len() == a.len(),
{
    let k = a.map_values(|s: Str| s@);
    assert forall|c: Seq<char>| #[trigger] syms(a).contains(c) <==> has_sym(a, c) by {
        if syms(a).contains(c) {
            let i = choose|i: int| 0 <= i < k.len() && k[i] == c;
            assert(a[i]@ == c);
        }
        if has_sym(a, c) {
            let i = sym_idx(a, c);
            assert(k[i] == c);
        }
    }
    if alpha_distinct(a) {
        assert(k.no_duplicates()) by {
            assert forall|i: int, j: int| 0 <= i < k.len() && 0 <= j < k.len() && i != j implies k[i] != k[j] by {
                assert(a[i]@ != a[j]@);
            }
        }
        k.unique_seq_to_set();
    }
}
pub proof fn lemma_same_syms_len(a: Seq<Str>, b: Seq<Str>)
    requires alpha_distinct(a), alpha_distinct(b), same_syms(a, b),
    ensures a.len() == b.len(),
{
    lemma_syms(a);
    lemma_syms(b);
    assert(syms(a) =~= syms(b));
}
// a word is a sequence of symbols; a symbol is its sequence of characters
pub type Word = Seq<Seq<char>>;
// a word over the alphabet
pub open spec fn over(a: Seq<Str>, w: Word) -> bool { forall|i: int| 0 <= i < w.len() ==> has_sym(a, #[trigger] w[i]) }
// the symbol-to-column map of an alphabet
pub open spec fn rev_ok(m: Map<Seq<char>, usize>, a: Seq<Str>) -> bool {
    &&& forall|c: Seq<char>| #[trigger] m.contains_key(c) <==> has_sym(a, c)
    &&& forall|c: Seq<char>| #[trigger] m.contains_key(c) ==> m[c] < a.len() && a[m[c] as int]@ == c
}
pub proof fn lemma_rev_idx(m: Map<Seq<char>, usize>, a: Seq<Str>, c: Seq<char>)
    requires rev_ok(m, a), alpha_distinct(a), m.contains_key(c),
    ensures has_sym(a, c), m[c] == sym_idx(a, c),
{
    let i = m[c] as int;
    lemma_sym_idx(a, i);
}
// all elements are below n
pub open spec fn all_lt(s: Seq<usize>, n: nat) -> bool { forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] < n }
pub open spec fn increasing(k: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> k[i] < k[j] }
// sorting a list without repetition gives an increasing list of the same elements
pub proof fn lemma_sorted_same(a: Seq<usize>, b: Seq<usize>)
    requires a.no_duplicates(), a.to_multiset() == b.to_multiset(), sorted(b),
    ensures increasing(b), b.no_duplicates(), forall|q: usize| #[trigger] b.contains(q) <==> a.contains(q),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    a.lemma_multiset_has_no_duplicates();
    b.lemma_multiset_has_no_duplicates_conv();
    assert forall|q: usize| #[trigger] b.contains(q) <==> a.contains(q) by {
        a.to_multiset_ensures(); b.to_multiset_ensures();
        assert(a.contains(q) <==> a.to_multiset().count(q) > 0);
        assert(b.contains(q) <==> b.to_multiset().count(q) > 0);
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies b[i] < b[j] by { assert(b[i] <= b[j]); assert(b[i] != b[j]); }
}
pub open spec fn skeys(s: Seq<&Str>) -> Word { s.map_values(|x: &Str| x@) }
pub proof fn lemma_over_same(a: Seq<Str>, b: Seq<Str>, w: Word)
    requires same_syms(a, b),
    ensures over(a, w) == over(b, w),
{
    if over(a, w) { assert forall|i: int| 0 <= i < w.len() implies has_sym(b, #[trigger] w[i]) by { assert(has_sym(a, w[i])); } }
    if over(b, w) { assert forall|i: int| 0 <= i < w.len() implies has_sym(a, #[trigger] w[i]) by { assert(has_sym(a, w[i]) <==> has_sym(b, w[i])); } }
}
pub proof fn lemma_over_parts(a: Seq<Str>, w: Word)
    requires over(a, w), w.len() > 0,
    ensures over(a, w.drop_last()), has_sym(a, w.last()), has_sym(a, w[0]), over(a, w.drop_first()),
{
    assert forall|i: int| 0 <= i < w.len() - 1 implies has_sym(a, #[trigger] w.drop_last()[i]) by { assert(w.drop_last()[i] == w[i]); }
    assert forall|i: int| 0 <= i < w.len() - 1 implies has_sym(a, #[trigger] w.drop_first()[i]) by { assert(w.drop_first()[i] == w[i + 1]); }
    assert(w.last() == w[w.len() - 1]);
}
// what every column of b is called in a
pub open spec fn col_map(a: Seq<Str>, b: Seq<Str>, t: Seq<usize>) -> bool {
    t.len() == b.len() && forall|j: int| 0 <= j < b.len() ==> (#[trigger] t[j]) < a.len() && a[t[j] as int]@ == b[j]@
}
pub proof fn lemma_col_map(a: Seq<Str>, b: Seq<Str>, t: Seq<usize>, c: Seq<char>)
    requires alpha_distinct(a), alpha_distinct(b), col_map(a, b, t), same_syms(a, b), has_sym(a, c),
    ensures 0 <= sym_idx(b, c) < b.len(), t[sym_idx(b, c)] == sym_idx(a, c),
{
    assert(has_sym(b, c));
    let j = sym_idx(b, c);
    assert(0 <= j < b.len() && b[j]@ == c);
    lemma_sym_idx(a, t[j] as int);
}
pub proof fn lemma_col_map_inj(a: Seq<Str>, b: Seq<Str>, t: Seq<usize>)
    requires alpha_distinct(b), col_map(a, b, t),
    ensures t.no_duplicates(),
{
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(b[i]@ != b[j]@); }
}
pub proof fn lemma_push_contains(a: Seq<usize>, x: usize, y: usize)
    ensures a.push(x).contains(y) <==> a.contains(y) || x == y,
{
    if a.push(x).contains(y) { let i = choose|i: int| 0 <= i < a.len() + 1 && a.push(x)[i] == y; if i < a.len() { assert(a[i] == y); } }
    if a.contains(y) { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; assert(a.push(x)[i] == y); }
    if x == y { assert(a.push(x)[a.len() as int] == y); }
}
pub proof fn lemma_take_push(t: Seq<usize>, j: int)
    requires 0 < j <= t.len(),
    ensures t.take(j) == t.take(j - 1).push(t[j - 1]),
{
    assert(t.take(j) =~= t.take(j - 1).push(t[j - 1]));
}
pub proof fn lemma_enum(m: Seq<usize>, c: Set<usize>, x: usize)
    requires enumerates(m, c),
    ensures m.contains(x) <==> c.contains(x),
{
    if m.contains(x) { let i = choose|i: int| 0 <= i < m.len() && m[i] == x; assert(c.contains(m[i].kv())); }
    if c.contains(x) { let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).kv() == x; assert(m[i] == x); }
}
// collecting a listing into a set
pub open spec fn gathered(s: Seq<usize>, k: int, v: Set<usize>) -> bool { forall|q: usize| #[trigger] v.contains(q) <==> s.take(k).contains(q) }
pub proof fn lemma_gather_step(s: Seq<usize>, k: int, v: Set<usize>)
    requires gathered(s, k - 1, v), 0 < k <= s.len(),
    ensures gathered(s, k, v.insert(s[k - 1])),
{
    lemma_take_push(s, k);
    assert forall|q: usize| #[trigger] v.insert(s[k - 1]).contains(q) <==> s.take(k).contains(q) by { lemma_push_contains(s.take(k - 1), s[k - 1], q); assert(v.contains(q) <==> s.take(k - 1).contains(q)); }
}
pub proof fn lemma_gather_start(s: Seq<usize>)
    ensures gathered(s, 0, Set::<usize>::empty()),
{
    assert(s.take(0) =~= Seq::<usize>::empty());
}
pub proof fn lemma_gather_done(s: Seq<usize>, v: Set<usize>, t: Set<usize>)
    requires gathered(s, s.len() as int, v), enumerates(s, t),
    ensures v == t,
{
    assert(s.take(s.len() as int) =~= s);
    assert forall|q: usize| v.contains(q) <==> t.contains(q) by { lemma_enum(s, t, q); assert(v.contains(q) <==> s.contains(q)); }
    assert(v =~= t);
}

@fn dandy/src/util.rs alphabet_equal
@sig
    requires alpha_distinct(a@), alpha_distinct(b@),
    ensures r == same_syms(a@, b@),
@start
    proof { if same_syms(a@, b@) { lemma_same_syms_len(a@, b@); } }
@acc 1 HSet<&Str>
@acc 2 HSet<&Str>
@loop 1 inv
    it1_seq == a@, forall|c: Seq<char>| #[trigger] acc1@.contains(c) <==> exists|i: int| 0 <= i < it1.pos() && (#[trigger] a@[i])@ == c,
@loop 2 inv
    it2_seq == b@, forall|c: Seq<char>| #[trigger] acc2@.contains(c) <==> exists|i: int| 0 <= i < it2.pos() && (#[trigger] b@[i])@ == c,
@end
    proof {
        assert(forall|c: Seq<char>| #[trigger] set1@.contains(c) <==> has_sym(a@, c));
        assert(forall|c: Seq<char>| #[trigger] set2@.contains(c) <==> has_sym(b@, c));
        if same_syms(a@, b@) { assert(set1@ =~= set2@); }
        if set1@ == set2@ {
            assert forall|c: Seq<char>| #[trigger] has_sym(a@, c) <==> has_sym(b@, c) by {
                assert(set1@.contains(c) <==> has_sym(a@, c));
                assert(set2@.contains(c) <==> has_sym(b@, c));
            }
        }
    }
