@raw
// exploration of a graph whose nodes are found by a key
// the same pair never appears twice among finished and waiting pairs, and these are all explored ones
pub open spec fn frontier<K>(x: Set<K>, ps: Seq<K>) -> bool {
    ps.no_duplicates() && forall|k: K| #[trigger] x.contains(k) <==> ps.contains(k)
}
pub proof fn lemma_frontier_push<K>(x: Set<K>, ps: Seq<K>, k: K)
    requires frontier(x, ps), !x.contains(k),
    ensures frontier(x.insert(k), ps.push(k)),
{
    let y = x.insert(k);
    let qs = ps.push(k);
    assert forall|m: K| #[trigger] y.contains(m) <==> qs.contains(m) by {
        if y.contains(m) {
            if m == k { assert(qs[ps.len() as int] == k); } else { let i = choose|i: int| 0 <= i < ps.len() && ps[i] == m; assert(x.contains(m)); assert(ps.contains(m)); assert(qs[i] == m); }
        }
        if qs.contains(m) {
            let i = choose|i: int| 0 <= i < qs.len() && qs[i] == m;
            if i < ps.len() { assert(ps[i] == m); assert(ps.contains(m)); assert(x.contains(m)); }
        }
    }
    assert forall|i: int, j: int| 0 <= i < qs.len() && 0 <= j < qs.len() && i != j implies qs[i] != qs[j] by {
        if i < ps.len() { assert(ps.contains(ps[i])); assert(x.contains(ps[i])); }
        if j < ps.len() { assert(ps.contains(ps[j])); assert(x.contains(ps[j])); }
    }
}
// frontier does not depend on the order
pub proof fn lemma_frontier_perm<K>(x: Set<K>, ps: Seq<K>, qs: Seq<K>)
    requires frontier(x, ps), qs.len() == ps.len(), forall|k: K| #[trigger] ps.contains(k) ==> qs.contains(k),
    ensures frontier(x, qs),
{
    ps.unique_seq_to_set();
    assert(ps.to_set().subset_of(qs.to_set()));
    qs.lemma_cardinality_of_set();
    vstd::set_lib::lemma_len_subset(ps.to_set(), qs.to_set());
    vstd::set_lib::lemma_subset_equality(ps.to_set(), qs.to_set());
    qs.lemma_no_dup_set_cardinality();
    assert forall|k: K| #[trigger] x.contains(k) <==> qs.contains(k) by {
        assert(ps.to_set().contains(k) <==> ps.contains(k));
        assert(qs.to_set().contains(k) <==> qs.contains(k));
    }
}
pub proof fn lemma_frontier_pop<K>(x: Set<K>, d: Seq<K>, s: Seq<K>, cur: K)
    requires frontier(x, d + s.push(cur)),
    ensures frontier(x, d.push(cur) + s),
{
    let ps = d + s.push(cur);
    let qs = d.push(cur) + s;
    assert forall|k: K| #[trigger] ps.contains(k) implies qs.contains(k) by {
        let i = choose|i: int| 0 <= i < ps.len() && ps[i] == k;
        if i < d.len() { assert(qs[i] == k); } else if i < d.len() + s.len() { assert(qs[i + 1] == k); } else { assert(qs[d.len() as int] == k); }
    }
    lemma_frontier_perm(x, ps, qs);
}
pub open spec fn trans_idx<K>(ps: Seq<K>, m: Map<K, usize>) -> bool {
    &&& forall|k: K| #[trigger] m.contains_key(k) <==> ps.contains(k)
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> m[k] < ps.len() && ps[m[k] as int] == k
}
pub open spec fn names_ok<K>(m: Map<K, Str>, x: Set<K>) -> bool {
    &&& forall|k: K| #[trigger] m.contains_key(k) <==> x.contains(k)
    &&& forall|k: K, l: K| m.contains_key(k) && m.contains_key(l) && k != l ==> (#[trigger] m[k])@ != (#[trigger] m[l])@
}
