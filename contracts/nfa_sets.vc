@raw
// v lists the elements of s in increasing order
pub open spec fn vec_of(s: Set<usize>, v: Seq<usize>) -> bool { sorted(v) && v.no_duplicates() && (forall|q: usize| #[trigger] s.contains(q) <==> v.contains(q)) }
// the elements of s below n in increasing order
pub open spec fn canon(s: Set<usize>, n: nat) -> Seq<usize> decreases n {
    if n == 0 { Seq::<usize>::empty() } else if s.contains((n - 1) as usize) { canon(s, (n - 1) as nat).push((n - 1) as usize) } else { canon(s, (n - 1) as nat) }
}
pub open spec fn lt_set(s: Set<usize>, n: nat) -> bool { forall|q: usize| #[trigger] s.contains(q) ==> q < n }
pub proof fn lemma_canon_same(s: Set<usize>, t: Set<usize>, n: nat)
    requires n <= usize::MAX, forall|q: usize| q < n ==> (#[trigger] s.contains(q) <==> t.contains(q)),
    ensures canon(s, n) == canon(t, n),
    decreases n,
{
    if n > 0 { lemma_canon_same(s, t, (n - 1) as nat); assert(s.contains((n - 1) as usize) <==> t.contains((n - 1) as usize)); }
}
pub proof fn lemma_canon_in(s: Set<usize>, n: nat, q: usize)
    requires n <= usize::MAX,
    ensures canon(s, n).contains(q) <==> q < n && s.contains(q),
    decreases n,
{
    if n > 0 {
        lemma_canon_in(s, (n - 1) as nat, q);
        let c = canon(s, (n - 1) as nat);
        let l = (n - 1) as usize;
        if s.contains(l) {
            if c.push(l).contains(q) { let i = choose|i: int| 0 <= i < c.push(l).len() && c.push(l)[i] == q; if i < c.len() { assert(c[i] == q); } }
            if c.contains(q) { let i = choose|i: int| 0 <= i < c.len() && c[i] == q; assert(c.push(l)[i] == q); }
            if q == l { assert(c.push(l)[c.len() as int] == q); }
        }
    }
}
pub proof fn lemma_canon(s: Set<usize>, v: Seq<usize>, n: nat)
    requires vec_of(s, v), lt_set(s, n), n <= usize::MAX,
    ensures v == canon(s, n),
    decreases n,
{
    if n == 0 {
        if v.len() > 0 { assert(v.contains(v[0])); assert(s.contains(v[0])); }
        assert(v =~= canon(s, n));
    } else {
        let l = (n - 1) as usize;
        if s.contains(l) {
            let i = choose|i: int| 0 <= i < v.len() && v[i] == l;
            assert(v.contains(v.last())); assert(s.contains(v.last()));
            assert(v[i] <= v[v.len() - 1]);
            assert(v.last() == l);
            let u = v.drop_last();
            let t = s.remove(l);
            assert forall|q: usize| #[trigger] t.contains(q) <==> u.contains(q) by {
                if t.contains(q) { let j = choose|j: int| 0 <= j < v.len() && v[j] == q; assert(j < v.len() - 1); assert(u[j] == q); }
                if u.contains(q) { let j = choose|j: int| 0 <= j < u.len() && u[j] == q; assert(v[j] == q); assert(v.contains(q)); assert(v[j] != v[v.len() - 1]); }
            }
            assert forall|a: int, b: int| 0 <= a <= b < u.len() implies u[a] <= u[b] by { assert(v[a] <= v[b]); }
            assert(vec_of(t, u));
            lemma_canon(t, u, (n - 1) as nat);
            lemma_canon_same(s, t, (n - 1) as nat);
            assert(v =~= u.push(l));
        } else {
            lemma_canon(s, v, (n - 1) as nat);
        }
    }
}
// equal keys, equal sets
pub proof fn lemma_canon_inj(s: Set<usize>, t: Set<usize>, n: nat)
    requires lt_set(s, n), lt_set(t, n), n <= usize::MAX, canon(s, n) == canon(t, n),
    ensures s == t,
{
    assert forall|q: usize| #[trigger] s.contains(q) <==> t.contains(q) by { lemma_canon_in(s, n, q); lemma_canon_in(t, n, q); }
    assert(s =~= t);
}
// all keys over n states: finitely many
pub open spec fn subs(n: nat) -> Set<Seq<usize>> decreases n {
    if n == 0 { Set::<Seq<usize>>::empty().insert(Seq::<usize>::empty()) } else {
        subs((n - 1) as nat).union(subs((n - 1) as nat).map(|s: Seq<usize>| s.push((n - 1) as usize)))
    }
}
pub proof fn lemma_subs(s: Set<usize>, n: nat)
    ensures subs(n).contains(canon(s, n)),
    decreases n,
{
    if n > 0 {
        lemma_subs(s, (n - 1) as nat);
        let m = subs((n - 1) as nat).map(|s: Seq<usize>| s.push((n - 1) as usize));
        if s.contains((n - 1) as usize) { assert(m.contains(canon(s, (n - 1) as nat).push((n - 1) as usize))); }
    }
}
pub proof fn lemma_states_len(n: &Nfa)
    ensures n.n() <= usize::MAX,
{ vstd::std_specs::vec::axiom_spec_len(&n.states); }

@fn dandy/src/nfa/mod.rs Nfa::set_to_vec
@generics
@subst T => usize
@sig
    ensures vec_of(set@, r@), r.kv() == r@, forall|n: nat| n <= usize::MAX && #[trigger] lt_set(set@, n) ==> r@ == canon(set@, n),
@acc 1 Vec<usize>
@loop 1 inv
    enumerates(it1_seq, set@), acc1@ == it1_seq.take(it1.pos()),
@loop 1 end
    proof { assert(acc1@ =~= it1_seq.take(it1.pos())); }
@loop 1 post
    let ghost a = acc1@;
    proof { assert(a =~= it1_seq); }
@let vec
    proof { assert(vec@.no_duplicates()); assert(forall|q: usize| #[trigger] set@.contains(q) <==> vec@.contains(q)); }
    let ghost a = vec@;
@call sort
    proof {
        lemma_perm(a, vec@);
        assert(vec.kv() =~= vec@);
        assert(vec_of(set@, vec@));
        assert forall|n: nat| n <= usize::MAX && #[trigger] lt_set(set@, n) implies vec@ == canon(set@, n) by { lemma_canon(set@, vec@, n); }
    }
@raw
pub proof fn lemma_perm(a: Seq<usize>, b: Seq<usize>)
    requires a.to_multiset() == b.to_multiset(), a.no_duplicates(),
    ensures b.no_duplicates(), forall|q: usize| #[trigger] a.contains(q) <==> b.contains(q),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    a.lemma_multiset_has_no_duplicates();
    assert forall|q: usize| #[trigger] a.contains(q) <==> b.contains(q) by {
        assert(a.to_multiset().count(q) > 0 <==> a.contains(q));
        assert(b.to_multiset().count(q) > 0 <==> b.contains(q));
    }
    assert forall|x: usize| b.to_multiset().contains(x) implies b.to_multiset().count(x) == 1 by {}
    b.lemma_multiset_has_no_duplicates_conv();
}
// some state of the key accepts
pub open spec fn kacc(n: &Nfa, k: Seq<usize>) -> bool { exists|q: usize| #[trigger] k.to_set().contains(q) && n.acc(q) }
pub proof fn lemma_canon_set(s: Set<usize>, n: nat)
    requires lt_set(s, n), n <= usize::MAX,
    ensures canon(s, n).to_set() == s,
{
    assert forall|q: usize| #[trigger] canon(s, n).to_set().contains(q) <==> s.contains(q) by { lemma_canon_in(s, n, q); assert(canon(s, n).to_set().contains(q) <==> canon(s, n).contains(q)); }
    assert(canon(s, n).to_set() =~= s);
}
pub proof fn lemma_kacc(n: &Nfa, w: Word, k: Seq<usize>)
    requires states_of(n, w, k.to_set()),
    ensures kacc(n, k) == naccepts(n, w),
{
    if kacc(n, k) { let q = choose|q: usize| #[trigger] k.to_set().contains(q) && n.acc(q); assert(nreach(n, n.initial_state, w, q)); }
    if naccepts(n, w) { let q = choose|q: usize| #[trigger] nreach(n, n.initial_state, w, q) && n.acc(q); assert(k.to_set().contains(q)); }
}
pub proof fn lemma_naccepts_over(n: &Nfa, w: Word)
    requires n.core(), naccepts(n, w),
    ensures over(n.alphabet@, w),
{
    let q = choose|q: usize| #[trigger] nreach(n, n.initial_state, w, q) && n.acc(q);
    lemma_nreach_in(n, n.initial_state, w, q);
}
