@raw
// ------------------------------------------------------------------ arrows
pub trait ArrowLike<'a>: Sized {
    spec fn left_(&self) -> usize;
    spec fn right_(&self) -> usize;
    fn left(&self) -> (r: usize) ensures r == self.left_();
    fn right(&self) -> (r: usize) ensures r == self.right_();
}
@type dandy-draw/src/lib.rs Direction
@type dandy-draw/src/lib.rs Arrow
@type dandy-draw/src/lib.rs GroupedArrow
@type dandy-draw/src/lib.rs PlacedArrow
@fn dandy-draw/src/lib.rs ArrowLike for Arrow::left
@sig
    ensures r == self.left,
@fn dandy-draw/src/lib.rs ArrowLike for Arrow::right
@sig
    ensures r == self.right,
@fn dandy-draw/src/lib.rs ArrowLike for Arrow::label
@sig
    ensures r@ == self.label@,
@fn dandy-draw/src/lib.rs ArrowLike for GroupedArrow::left
@sig
    ensures r == self.left,
@fn dandy-draw/src/lib.rs ArrowLike for GroupedArrow::right
@sig
    ensures r == self.right,
@fn dandy-draw/src/lib.rs ArrowLike for GroupedArrow::direction
@sig
    ensures r == self.direction,
@fn dandy-draw/src/lib.rs ArrowLike for GroupedArrow::label
@sig
    ensures r@ == joined(gtexts(*self), ", "@),
@raw
impl Hk for Direction { type Kv = Direction; open spec fn kv(&self) -> Direction { *self } }
// the methods above are what the trait's methods are
impl<'a> ArrowLike<'a> for Arrow<'a> {
    open spec fn left_(&self) -> usize { self.left }
    open spec fn right_(&self) -> usize { self.right }
    fn left(&self) -> (r: usize) { Arrow::left(self) }
    fn right(&self) -> (r: usize) { Arrow::right(self) }
}
impl<'a> ArrowLike<'a> for GroupedArrow<'a> {
    open spec fn left_(&self) -> usize { self.left }
    open spec fn right_(&self) -> usize { self.right }
    fn left(&self) -> (r: usize) { GroupedArrow::left(self) }
    fn right(&self) -> (r: usize) { GroupedArrow::right(self) }
}
pub open spec fn gtexts(g: GroupedArrow) -> Seq<Seq<char>> { g.labels@.map_values(|s: &Str| s@) }
// a transition: from, to, label
pub type Tr = (usize, usize, Seq<char>);
pub type AKey = (usize, usize, Direction);
// the key under which a transition is drawn
pub open spec fn key_of(p: usize, q: usize) -> AKey { if p < q { (p, q, Direction::Right) } else if p == q { (p, q, Direction::Spot) } else { (q, p, Direction::Left) } }
pub open spec fn akey(a: Arrow) -> AKey { (a.left, a.right, a.direction) }
pub open spec fn gkey(g: GroupedArrow) -> AKey { (g.left, g.right, g.direction) }
// the arrow stands for the transition
pub open spec fn arrow_is(a: Arrow, t: Tr) -> bool { akey(a) == key_of(t.0, t.1) && a.label@ == t.2 }
pub open spec fn arrows_are(a: Seq<Arrow>, t: Seq<Tr>) -> bool { a.len() == t.len() && forall|i: int| 0 <= i < a.len() ==> arrow_is(#[trigger] a[i], t[i]) }
// the transitions of an automaton, each once
pub open spec fn dtrow(d: &Dfa, q: usize, k: int) -> Seq<Tr> { Seq::new(k as nat, |i: int| (q, d.next(q, i), d.alphabet@[i]@)) }
pub open spec fn dtrs(d: &Dfa, n: int) -> Seq<Tr> decreases n { if n <= 0 { Seq::<Tr>::empty() } else { dtrs(d, n - 1) + dtrow(d, (n - 1) as usize, d.alphabet@.len() as int) } }
pub open spec fn ncell_trs(n: &Nfa, q: usize, i: int, k: int) -> Seq<Tr> { Seq::new(k as nat, |j: int| (q, n.tr(q, i)[j], n.alphabet@[i]@)) }
pub open spec fn neps_trs(n: &Nfa, q: usize, k: int) -> Seq<Tr> { Seq::new(k as nat, |j: int| (q, n.eps(q)[j], "ε"@)) }
pub open spec fn nrow_trs(n: &Nfa, q: usize, k: int) -> Seq<Tr> decreases k { if k <= 0 { Seq::<Tr>::empty() } else { nrow_trs(n, q, k - 1) + ncell_trs(n, q, k - 1, n.tr(q, k - 1).len() as int) } }
pub open spec fn ntrs(n: &Nfa, q: int) -> Seq<Tr> decreases q {
    if q <= 0 { Seq::<Tr>::empty() } else { ntrs(n, q - 1) + nrow_trs(n, (q - 1) as usize, n.alphabet@.len() as int) + neps_trs(n, (q - 1) as usize, n.eps((q - 1) as usize).len() as int) }
}
pub open spec fn dall(d: &Dfa) -> Seq<Tr> { dtrs(d, d.states@.len() as int) }
pub open spec fn nall(n: &Nfa) -> Seq<Tr> { ntrs(n, n.states@.len() as int) }
pub open spec fn ends_ok(t: Seq<Tr>, n: nat) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0 < n && t[i].1 < n }
// the arrows, in any order, stand for these transitions
pub open spec fn arrows_for(a: Seq<Arrow>, t: Seq<Tr>) -> bool { exists|u: Seq<Tr>| arrows_are(a, u) && #[trigger] u.to_multiset() == t.to_multiset() }
pub proof fn lemma_arrows_for(a: Seq<Arrow>, t: Seq<Tr>) requires arrows_are(a, t) ensures arrows_for(a, t) { assert(t.to_multiset() == t.to_multiset()); }
pub proof fn lemma_arrows_push(a: Seq<Arrow>, t: Seq<Tr>, x: Arrow, u: Tr)
    requires arrows_are(a, t), arrow_is(x, u),
    ensures arrows_are(a.push(x), t.push(u)),
{ }
pub proof fn lemma_drow_step(d: &Dfa, q: usize, k: int)
    requires 0 <= k, ensures dtrow(d, q, k + 1) == dtrow(d, q, k).push((q, d.next(q, k), d.alphabet@[k]@)), dtrow(d, q, 0) == Seq::<Tr>::empty(),
{
    assert(dtrow(d, q, k + 1) =~= dtrow(d, q, k).push((q, d.next(q, k), d.alphabet@[k]@)));
    assert(dtrow(d, q, 0) =~= Seq::<Tr>::empty());
}
pub proof fn lemma_ncell_step(n: &Nfa, q: usize, i: int, k: int)
    requires 0 <= k, ensures ncell_trs(n, q, i, k + 1) == ncell_trs(n, q, i, k).push((q, n.tr(q, i)[k], n.alphabet@[i]@)), ncell_trs(n, q, i, 0) == Seq::<Tr>::empty(),
{
    assert(ncell_trs(n, q, i, k + 1) =~= ncell_trs(n, q, i, k).push((q, n.tr(q, i)[k], n.alphabet@[i]@)));
    assert(ncell_trs(n, q, i, 0) =~= Seq::<Tr>::empty());
}
pub proof fn lemma_neps_step(n: &Nfa, q: usize, k: int)
    requires 0 <= k, ensures neps_trs(n, q, k + 1) == neps_trs(n, q, k).push((q, n.eps(q)[k], "ε"@)), neps_trs(n, q, 0) == Seq::<Tr>::empty(),
{
    assert(neps_trs(n, q, k + 1) =~= neps_trs(n, q, k).push((q, n.eps(q)[k], "ε"@)));
    assert(neps_trs(n, q, 0) =~= Seq::<Tr>::empty());
}
@fn dandy-draw/src/lib.rs Arrow::new
@sig
    ensures arrow_is(r, (from, to, label@)),
@fn dandy-draw/src/lib.rs dfa_to_arrows
@sig
    requires dfa.core(),
    ensures arrows_for(r@, dall(dfa)),
@loop 1 inv
    it1_seq == dfa.states@, arrows_are(acc1@, dtrs(dfa, it1.pos())),
@loop 1 beg
    let ghost q = (it1.pos() - 1) as usize;
    let ghost base = dtrs(dfa, q as int);
    proof { lemma_drow_step(dfa, q, 0); assert(base + dtrow(dfa, q, 0) =~= base); }
@loop 2 inv
    it2_seq == dfa.states@[q as int].transitions@, arrows_are(acc1@, base + dtrow(dfa, q, it2.pos())),
@loop 2 beg
    let ghost a2 = acc1@;
@loop 2 end
    proof {
        let k = it2.pos() - 1;
        lemma_drow_step(dfa, q, k);
        let u = (q, dfa.next(q, k), dfa.alphabet@[k]@);
        lemma_arrows_push(a2, base + dtrow(dfa, q, k), acc1@.last(), u);
        assert((base + dtrow(dfa, q, k)).push(u) =~= base + dtrow(dfa, q, k + 1));
        assert(acc1@ =~= a2.push(acc1@.last()));
    }
@loop 1 post
    proof { lemma_arrows_for(acc1@, dall(dfa)); }
@fn dandy-draw/src/lib.rs nfa_to_arrows
@sig
    requires nfa.core(),
    ensures arrows_for(r@, nall(nfa)),
@loop 1 inv
    it1_seq == nfa.states@, arrows_are(acc1@, ntrs(nfa, it1.pos())),
@loop 1 beg
    let ghost q = (it1.pos() - 1) as usize;
    let ghost base = ntrs(nfa, q as int);
    let ghost full = base + nrow_trs(nfa, q, nfa.alphabet@.len() as int);
    proof { assert(base + nrow_trs(nfa, q, 0) =~= base); assert(nstate_ok(nfa.states@[q as int], nfa.alphabet@.len(), nfa.n())); }
@loop 2 inv
    it2_seq == nfa.states@[q as int].transitions@, it2_seq.len() == nfa.alphabet@.len(), arrows_are(acc1@, base + nrow_trs(nfa, q, it2.pos())),
@loop 2 beg
    let ghost i = it2.pos() - 1;
    let ghost b2 = base + nrow_trs(nfa, q, i);
    proof { lemma_ncell_step(nfa, q, i, 0); assert(b2 + ncell_trs(nfa, q, i, 0) =~= b2); }
@loop 2 end
    proof { assert(b2 + ncell_trs(nfa, q, i, nfa.tr(q, i).len() as int) =~= base + nrow_trs(nfa, q, i + 1)); }
@loop 3 inv
    it3_seq == nfa.tr(q, i), arrows_are(acc1@, b2 + ncell_trs(nfa, q, i, it3.pos())),
@loop 3 beg
    let ghost a3 = acc1@;
@loop 3 end
    proof {
        let k = it3.pos() - 1;
        lemma_ncell_step(nfa, q, i, k);
        let u = (q, nfa.tr(q, i)[k], nfa.alphabet@[i]@);
        lemma_arrows_push(a3, b2 + ncell_trs(nfa, q, i, k), acc1@.last(), u);
        assert((b2 + ncell_trs(nfa, q, i, k)).push(u) =~= b2 + ncell_trs(nfa, q, i, k + 1));
        assert(acc1@ =~= a3.push(acc1@.last()));
    }
@loop 4 pre
    proof { lemma_neps_step(nfa, q, 0); assert(full + neps_trs(nfa, q, 0) =~= full); }
@loop 4 inv
    it4_seq == nfa.eps(q), arrows_are(acc1@, full + neps_trs(nfa, q, it4.pos())),
@loop 4 beg
    let ghost a4 = acc1@;
@loop 4 end
    proof {
        let k = it4.pos() - 1;
        lemma_neps_step(nfa, q, k);
        let u = (q, nfa.eps(q)[k], "ε"@);
        lemma_arrows_push(a4, full + neps_trs(nfa, q, k), acc1@.last(), u);
        assert((full + neps_trs(nfa, q, k)).push(u) =~= full + neps_trs(nfa, q, k + 1));
        assert(acc1@ =~= a4.push(acc1@.last()));
    }
@loop 1 post
    proof { lemma_arrows_for(acc1@, nall(nfa)); }
@raw
// ------------------------------------------------------------------ grouping
// the labels of the first k arrows with this key, in order
pub open spec fn key_labels(a: Seq<Arrow>, k: int, x: AKey) -> Seq<Seq<char>> decreases k {
    if k <= 0 { Seq::<Seq<char>>::empty() } else if akey(a[k - 1]) == x { key_labels(a, k - 1, x).push(a[k - 1].label@) } else { key_labels(a, k - 1, x) }
}
pub open spec fn has_key(a: Seq<Arrow>, k: int, x: AKey) -> bool { exists|i: int| 0 <= i < k && akey(#[trigger] a[i]) == x }
pub open spec fn atexts(a: Seq<Arrow>) -> Seq<Seq<char>> { a.map_values(|x: Arrow| x.label@) }
pub open spec fn gmap_ok(m: Map<AKey, Vec<Arrow>>, a: Seq<Arrow>, k: int) -> bool {
    &&& forall|x: AKey| #[trigger] m.contains_key(x) <==> has_key(a, k, x)
    &&& forall|x: AKey| #[trigger] m.contains_key(x) ==> atexts(m[x]@) == key_labels(a, k, x)
}
pub open spec fn has_group(g: Seq<GroupedArrow>, x: AKey) -> bool { exists|j: int| 0 <= j < g.len() && gkey(#[trigger] g[j]) == x }
// one group per pair of states and direction, which carries exactly the labels of the arrows between them
pub open spec fn grouped(a: Seq<Arrow>, g: Seq<GroupedArrow>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && i != j ==> gkey(#[trigger] g[i]) != gkey(#[trigger] g[j])
    &&& forall|i: int| 0 <= i < g.len() ==> has_key(a, a.len() as int, gkey(#[trigger] g[i]))
    &&& forall|i: int| 0 <= i < g.len() ==> gtexts(#[trigger] g[i]).to_multiset() == key_labels(a, a.len() as int, gkey(g[i])).to_multiset()
    &&& forall|i: int| 0 <= i < a.len() ==> has_group(g, akey(#[trigger] a[i]))
}
pub proof fn lemma_gmap_start(m: Map<AKey, Vec<Arrow>>, a: Seq<Arrow>) requires m == Map::<AKey, Vec<Arrow>>::empty() ensures gmap_ok(m, a, 0) { }
pub proof fn lemma_no_labels(a: Seq<Arrow>, k: int, x: AKey) requires !has_key(a, k, x), 0 <= k <= a.len() ensures key_labels(a, k, x) == Seq::<Seq<char>>::empty() decreases k
{
    if k > 0 {
        assert(akey(a[k - 1]) != x);
        assert(!has_key(a, k - 1, x));
        lemma_no_labels(a, k - 1, x);
    }
}
pub proof fn lemma_gmap_step(m: Map<AKey, Vec<Arrow>>, a: Seq<Arrow>, k: int, n: Map<AKey, Vec<Arrow>>)
    requires gmap_ok(m, a, k), 0 <= k < a.len(), n.dom() == m.dom().insert(akey(a[k])), forall|x: AKey| x != akey(a[k]) && #[trigger] m.contains_key(x) ==> n[x] == m[x],
        n[akey(a[k])]@ == (if m.contains_key(akey(a[k])) { m[akey(a[k])]@ } else { Seq::<Arrow>::empty() }).push(a[k]),
    ensures gmap_ok(n, a, k + 1),
{
    let y = akey(a[k]);
    assert forall|x: AKey| #[trigger] n.contains_key(x) <==> has_key(a, k + 1, x) by {
        if x == y { assert(akey(a[k]) == x); }
        if has_key(a, k + 1, x) && x != y { let i = choose|i: int| 0 <= i < k + 1 && akey(#[trigger] a[i]) == x; assert(i < k); assert(has_key(a, k, x)); assert(m.contains_key(x)); }
        if n.contains_key(x) && x != y { assert(m.contains_key(x)); let i = choose|i: int| 0 <= i < k && akey(#[trigger] a[i]) == x; assert(akey(a[i]) == x); }
    }
    assert forall|x: AKey| #[trigger] n.contains_key(x) implies atexts(n[x]@) == key_labels(a, k + 1, x) by {
        if x != y { assert(m.contains_key(x)); } else {
            if !m.contains_key(x) { lemma_no_labels(a, k, x); assert(atexts(n[x]@) =~= key_labels(a, k + 1, x)); }
            else { assert(atexts(n[x]@) =~= atexts(m[x]@).push(a[k].label@)); }
        }
    }
}
@fn dandy-draw/src/lib.rs group_arrows
@sig
    ensures grouped(arrows@, r@),
@start
    let ghost a = arrows@;
    let ghost mut m = Map::<AKey, Vec<Arrow>>::empty();
@acc 2 HMap<(usize, usize, Direction), Vec<Arrow>>
@loop 2 pre
    proof { lemma_gmap_start(f2@, a); }
@loop 2 inv
    it2_seq == a, gmap_ok(f2@, a, it2.pos()),
@loop 2 beg
    let ghost m2 = f2@;
@loop 2 end
    proof { assert(f2@.dom() =~= m2.dom().insert(akey(x2))); lemma_gmap_step(m2, a, it2.pos() - 1, f2@); }
@loop 2 post
    proof { m = f2@; }
@loop 1 inv
    acc1@.len() == it1.pos(), gmap_ok(m, a, a.len() as int), entries(it1_seq, m),
    forall|j: int| 0 <= j < it1.pos() ==> gkey(#[trigger] acc1@[j]) == it1_seq[j].0 && gtexts(acc1@[j]) == atexts(it1_seq[j].1@),
@acc 3 Vec<&Str>
@loop 3 inv
    acc3@.map_values(|s: &Str| s@) == atexts(it3_seq.take(it3.pos())),
@loop 3 beg
    let ghost a3 = acc3@;
@loop 3 end
    proof { assert(acc3@.map_values(|s: &Str| s@) =~= a3.map_values(|s: &Str| s@).push(x3.label@)); assert(atexts(it3_seq.take(it3.pos())) =~= atexts(it3_seq.take(it3.pos() - 1)).push(x3.label@)); }
@loop 3 post
    proof { assert(it3_seq.take(it3_seq.len() as int) =~= it3_seq); }
@loop 1 post
    proof {
        assert forall|i: int| 0 <= i < acc1@.len() implies gtexts(#[trigger] acc1@[i]).to_multiset() == key_labels(a, a.len() as int, gkey(acc1@[i])).to_multiset() by { assert(m.contains_key(it1_seq[i].0.kv())); assert(gtexts(acc1@[i]) == atexts(m[it1_seq[i].0.kv()]@)); }
        assert forall|i: int, j: int| 0 <= i < acc1@.len() && 0 <= j < acc1@.len() && i != j implies gkey(#[trigger] acc1@[i]) != gkey(#[trigger] acc1@[j]) by { assert(it1_seq[i].0.kv() != it1_seq[j].0.kv()); }
        assert forall|i: int| 0 <= i < acc1@.len() implies has_key(a, a.len() as int, gkey(#[trigger] acc1@[i])) by { assert(m.contains_key(it1_seq[i].0.kv())); }
        assert forall|i: int| 0 <= i < a.len() implies has_group(acc1@, akey(#[trigger] a[i])) by {
            assert(has_key(a, a.len() as int, akey(a[i])));
            assert(m.contains_key(akey(a[i])));
            let j = choose|j: int| 0 <= j < it1_seq.len() && (#[trigger] it1_seq[j]).0.kv() == akey(a[i]);
            assert(gkey(acc1@[j]) == akey(a[i]));
        }
    }
@raw
// ------------------------------------------------------------------ placing
// the first state to the right of the arrow that may start another arrow on its level
pub open spec fn end_<'a, T: ArrowLike<'a>>(t: T) -> int { if t.left_() == t.right_() { t.right_() + 1 } else { t.right_() as int } }
pub open spec fn span_ok<'a, T: ArrowLike<'a>>(t: T) -> bool { t.left_() <= t.right_() < usize::MAX }
pub open spec fn spans_ok<'a, T: ArrowLike<'a>>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> span_ok(#[trigger] s[i]) }
pub open spec fn carried<'a, T: ArrowLike<'a>>(s: Seq<PlacedArrow<'a, T>>) -> Seq<T> { s.map_values(|p: PlacedArrow<'a, T>| p.arrow) }
// arrows on a level follow each other
pub open spec fn no_overlap<'a, T: ArrowLike<'a>>(s: Seq<PlacedArrow<'a, T>>) -> bool {
    forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j && (#[trigger] s[i]).level == (#[trigger] s[j]).level ==> end_(s[i].arrow) <= s[j].arrow.left_() || end_(s[j].arrow) <= s[i].arrow.left_()
}
pub open spec fn levels_below<'a, T: ArrowLike<'a>>(s: Seq<PlacedArrow<'a, T>>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).level < n }
pub open spec fn level_ends<'a, T: ArrowLike<'a>>(s: Seq<PlacedArrow<'a, T>>, n: int, e: int) -> bool { forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).level == n ==> end_(s[i].arrow) <= e }
pub open spec fn placed_ok<'a, T: ArrowLike<'a>>(a: Seq<T>, s: Seq<PlacedArrow<'a, T>>, n: int) -> bool {
    &&& carried(s).to_multiset() == a.to_multiset()
    &&& levels_below(s, n)
    &&& no_overlap(s)
}
// a has the members of b, c and d together
pub open spec fn mparts<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, d: Seq<T>) -> bool { a.to_multiset() == b.to_multiset().add(c.to_multiset()).add(d.to_multiset()) }
pub proof fn lemma_parts_ok<'a, T: ArrowLike<'a>>(a: Seq<T>, b: Seq<T>, c: Seq<T>, d: Seq<T>)
    requires mparts(a, b, c, d), spans_ok(a),
    ensures spans_ok(c), spans_ok(d),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < c.len() implies span_ok(#[trigger] c[i]) by { assert(c.contains(c[i])); assert(c.to_multiset().count(c[i]) > 0); assert(a.to_multiset().count(c[i]) > 0); assert(a.contains(c[i])); }
    assert forall|i: int| 0 <= i < d.len() implies span_ok(#[trigger] d[i]) by { assert(d.contains(d[i])); assert(d.to_multiset().count(d[i]) > 0); assert(a.to_multiset().count(d[i]) > 0); assert(a.contains(d[i])); }
}
pub proof fn lemma_parts_nil<T>(a: Seq<T>, b: Seq<T>)
    ensures a.to_multiset() == b.to_multiset() ==> mparts(a, Seq::<T>::empty(), b, Seq::<T>::empty()), mparts(a, b, Seq::<T>::empty(), Seq::<T>::empty()) ==> a.to_multiset() == b.to_multiset(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let e = Seq::<T>::empty().to_multiset();
    assert(e =~= vstd::multiset::Multiset::<T>::empty());
    assert(e.add(b.to_multiset()).add(e) =~= b.to_multiset());
    assert(b.to_multiset().add(e).add(e) =~= b.to_multiset());
}
// the last of d moves to b or to c
pub proof fn lemma_parts_move<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, d: Seq<T>)
    requires mparts(a, b, c, d), d.len() > 0,
    ensures mparts(a, b.push(d.last()), c, d.drop_last()), mparts(a, b, c.push(d.last()), d.drop_last()),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let x = d.last();
    let e = d.drop_last();
    assert(d =~= e.push(x));
    assert(d.to_multiset() == e.to_multiset().insert(x));
    assert(a.to_multiset() =~= b.push(x).to_multiset().add(c.to_multiset()).add(e.to_multiset()));
    assert(a.to_multiset() =~= b.to_multiset().add(c.push(x).to_multiset()).add(e.to_multiset()));
}
pub proof fn lemma_parts_swap<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
    requires mparts(a, b, c, Seq::<T>::empty()), ensures mparts(a, b, Seq::<T>::empty(), c),
{
    assert(b.to_multiset().add(c.to_multiset()).add(Seq::<T>::empty().to_multiset()) =~= b.to_multiset().add(Seq::<T>::empty().to_multiset()).add(c.to_multiset()));
}
pub proof fn lemma_parts_reverse<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
    requires mparts(a, b, c, Seq::<T>::empty()), ensures mparts(a, b, c.reverse(), Seq::<T>::empty()),
{
    lemma_rev_multiset(c);
}
pub proof fn lemma_rev_multiset<T>(c: Seq<T>) ensures c.reverse().to_multiset() == c.to_multiset() decreases c.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if c.len() == 0 { assert(c.reverse() =~= c); } else {
        let d = c.drop_last();
        lemma_rev_multiset(d);
        assert(c =~= d.push(c.last()));
        assert(c.reverse() =~= seq![c.last()] + d.reverse());
        vstd::seq_lib::lemma_multiset_commutative(seq![c.last()], d.reverse());
        assert(seq![c.last()] =~= Seq::<T>::empty().push(c.last()));
        assert(c.reverse().to_multiset() =~= c.to_multiset());
    }
}
@fn dandy-draw/src/lib.rs place_arrows
@sig
    requires spans_ok(arrows@),
    ensures placed_ok(arrows@, r.0@, r.1 as int), r.1 <= arrows@.len(),
@start
    let ghost a = arrows@;
    let ghost nil = Seq::<T>::empty();
@loop 1 inv
    it1_seq == a,
@loop 2 pre
    proof { axiom_vec_len(&unplaced); }
    proof { assert(carried(placed@) =~= nil); lemma_parts_nil(a, unplaced@); }
@loop 2 inv
    mparts(a, carried(placed@), unplaced@, nil), levels_below(placed@, current_depth as int), no_overlap(placed@), end_of_last == 0,
    current_depth as int + unplaced@.len() <= a.len(),
@loop 2 beg
    let ghost u2 = unplaced@;
    let ghost mut u2e = unplaced@;
    proof { lemma_parts_swap(a, carried(placed@), u2); }
@loop 3 pre
    let ghost mut o3 = old_unplaced@;
@loop 3 inv
    o3 == old_unplaced@,
    mparts(a, carried(placed@), unplaced@, old_unplaced@), levels_below(placed@, current_depth as int + 1), no_overlap(placed@), level_ends(placed@, current_depth as int, end_of_last as int),
    unplaced@.len() + old_unplaced@.len() <= u2.len(),
    unplaced@.len() + old_unplaced@.len() < u2.len() || (end_of_last == 0 && old_unplaced@.len() > 0),
@loop 3 beg
    let ghost (p3, u3) = (placed@, unplaced@);
    proof {
        assert(o3 =~= old_unplaced@.push(arrow));
        assert(o3.drop_last() =~= old_unplaced@);
        lemma_parts_ok(a, carried(placed@), unplaced@, o3);
        assert(o3[o3.len() - 1] == arrow);
        lemma_parts_move(a, carried(placed@), unplaced@, o3);
    }
@loop 3 end
    proof { o3 = old_unplaced@; if placed@.len() > p3.len() { assert(carried(placed@) =~= carried(p3).push(arrow)); } }
@loop 3 post
    proof { u2e = unplaced@; assert(old_unplaced@ =~= nil); }
@loop 2 end
    proof { lemma_parts_reverse(a, carried(placed@), u2e); }
@loop 2 post
    proof { assert(unplaced@ =~= nil); lemma_parts_nil(a, carried(placed@)); }
@raw
// ------------------------------------------------------------------ the whole drawing
pub proof fn lemma_key_of(p: usize, q: usize, x: usize, y: usize) requires key_of(p, q) == key_of(x, y) ensures p == x, q == y { }
// the labels under a key are the labels of the transitions between its states
pub proof fn lemma_key_labels(a: Seq<Arrow>, u: Seq<Tr>, k: int, p: usize, q: usize, l: Seq<char>)
    requires arrows_are(a, u), 0 <= k <= a.len(),
    ensures key_labels(a, k, key_of(p, q)).to_multiset().count(l) == u.take(k).to_multiset().count((p, q, l)),
    decreases k,
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if k > 0 {
        lemma_key_labels(a, u, k - 1, p, q, l);
        assert(u.take(k) =~= u.take(k - 1).push(u[k - 1]));
        assert(arrow_is(a[k - 1], u[k - 1]));
        if akey(a[k - 1]) == key_of(p, q) { lemma_key_of(u[k - 1].0, u[k - 1].1, p, q); }
    } else { assert(u.take(k) =~= Seq::<Tr>::empty()); }
}
// what is drawn for the transitions t
pub open spec fn drawn<'a>(t: Seq<Tr>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, n: int) -> bool {
    // arrows have different endpoints or directions
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> gkey((#[trigger] s[i]).arrow) != gkey((#[trigger] s[j]).arrow)
    // every transition is carried by an arrow between its states in its direction
    &&& forall|i: int| 0 <= i < t.len() ==> has_group(carried(s), key_of((#[trigger] t[i]).0, t[i].1))
    // an arrow goes along some transition and carries exactly the labels of the transitions between its states
    &&& forall|i: int| 0 <= i < s.len() ==> along((#[trigger] s[i]).arrow, t)
    &&& forall|i: int, p: usize, q: usize, l: Seq<char>| 0 <= i < s.len() && gkey((#[trigger] s[i]).arrow) == #[trigger] key_of(p, q) ==> gtexts(s[i].arrow).to_multiset().count(l) == #[trigger] t.to_multiset().count((p, q, l))
    // arrows on one level follow each other
    &&& levels_below(s, n)
    &&& no_overlap(s)
}
pub open spec fn along<'a>(g: GroupedArrow<'a>, t: Seq<Tr>) -> bool { exists|i: int| 0 <= i < t.len() && gkey(g) == key_of((#[trigger] t[i]).0, t[i].1) }
pub proof fn theorem_drawing<'a>(t: Seq<Tr>, a: Seq<Arrow>, g: Seq<GroupedArrow<'a>>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, n: int)
    requires arrows_for(a, t), grouped(a, g), placed_ok(g, s, n),
    ensures drawn(t, s, n),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let u = choose|u: Seq<Tr>| arrows_are(a, u) && #[trigger] u.to_multiset() == t.to_multiset();
    let c = carried(s);
    assert(u.take(u.len() as int) =~= u);
    assert(g.no_duplicates());
    g.lemma_multiset_has_no_duplicates();
    c.lemma_multiset_has_no_duplicates_conv();
    assert(c.no_duplicates());
    assert forall|i: int| 0 <= i < c.len() implies g.contains(#[trigger] c[i]) by { assert(c.contains(c[i])); assert(c.to_multiset().count(c[i]) > 0); assert(g.to_multiset().count(c[i]) > 0); }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies gkey((#[trigger] s[i]).arrow) != gkey((#[trigger] s[j]).arrow) by {
        assert(c[i] == s[i].arrow && c[j] == s[j].arrow);
        assert(c[i] != c[j]);
        let x = choose|x: int| 0 <= x < g.len() && g[x] == c[i];
        let y = choose|y: int| 0 <= y < g.len() && g[y] == c[j];
        assert(x != y);
    }
    assert forall|i: int| 0 <= i < t.len() implies has_group(c, key_of((#[trigger] t[i]).0, t[i].1)) by {
        assert(t.contains(t[i]));
        assert(t.to_multiset().count(t[i]) > 0);
        assert(u.to_multiset().count(t[i]) > 0);
        let j = choose|j: int| 0 <= j < u.len() && u[j] == t[i];
        assert(arrow_is(a[j], u[j]));
        assert(has_group(g, akey(a[j])));
        let x = choose|x: int| 0 <= x < g.len() && gkey(#[trigger] g[x]) == akey(a[j]);
        assert(g.contains(g[x]));
        assert(g.to_multiset().count(g[x]) > 0);
        assert(c.to_multiset().count(g[x]) > 0);
        let y = choose|y: int| 0 <= y < c.len() && c[y] == g[x];
        assert(gkey(c[y]) == akey(a[j]));
    }
    assert forall|i: int| 0 <= i < s.len() implies along((#[trigger] s[i]).arrow, t) by {
        assert(c[i] == s[i].arrow);
        let x = choose|x: int| 0 <= x < g.len() && g[x] == c[i];
        assert(has_key(a, a.len() as int, gkey(g[x])));
        let j = choose|j: int| 0 <= j < a.len() && akey(#[trigger] a[j]) == gkey(g[x]);
        assert(arrow_is(a[j], u[j]));
        assert(u.contains(u[j]));
        assert(u.to_multiset().count(u[j]) > 0);
        assert(t.to_multiset().count(u[j]) > 0);
        let k = choose|k: int| 0 <= k < t.len() && t[k] == u[j];
        assert(gkey(s[i].arrow) == key_of(t[k].0, t[k].1));
    }
    assert forall|i: int, p: usize, q: usize, l: Seq<char>| 0 <= i < s.len() && gkey((#[trigger] s[i]).arrow) == #[trigger] key_of(p, q) implies gtexts(s[i].arrow).to_multiset().count(l) == #[trigger] t.to_multiset().count((p, q, l)) by {
        assert(c[i] == s[i].arrow);
        let x = choose|x: int| 0 <= x < g.len() && g[x] == c[i];
        lemma_key_labels(a, u, a.len() as int, p, q, l);
        assert(gtexts(g[x]).to_multiset() == key_labels(a, a.len() as int, gkey(g[x])).to_multiset());
    }
}
// groups of arrows between states can be placed
pub proof fn theorem_group_spans(t: Seq<Tr>, a: Seq<Arrow>, g: Seq<GroupedArrow>, n: nat)
    requires arrows_for(a, t), grouped(a, g), ends_ok(t, n), n <= isize::MAX,
    ensures spans_ok(g),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let u = choose|u: Seq<Tr>| arrows_are(a, u) && #[trigger] u.to_multiset() == t.to_multiset();
    assert forall|i: int| 0 <= i < g.len() implies span_ok(#[trigger] g[i]) by {
        assert(has_key(a, a.len() as int, gkey(g[i])));
        let j = choose|j: int| 0 <= j < a.len() && akey(#[trigger] a[j]) == gkey(g[i]);
        assert(arrow_is(a[j], u[j]));
        assert(u.contains(u[j]));
        assert(u.to_multiset().count(u[j]) > 0);
        assert(t.to_multiset().count(u[j]) > 0);
        let k = choose|k: int| 0 <= k < t.len() && t[k] == u[j];
        assert(t[k].0 < n && t[k].1 < n);
    }
}
pub proof fn theorem_dfa_ends(d: &Dfa, n: int)
    requires d.core(), 0 <= n <= d.states@.len(), d.states@.len() <= usize::MAX,
    ensures ends_ok(dtrs(d, n), d.states@.len()),
    decreases n,
{
    if n > 0 {
        theorem_dfa_ends(d, n - 1);
        let q = (n - 1) as usize;
        let k = d.alphabet@.len() as int;
        assert forall|i: int| 0 <= i < dtrs(d, n).len() implies (#[trigger] dtrs(d, n)[i]).0 < d.states@.len() && dtrs(d, n)[i].1 < d.states@.len() by {
            let m = dtrs(d, n - 1).len();
            if i < m { assert(dtrs(d, n)[i] == dtrs(d, n - 1)[i]); } else { assert(dtrs(d, n)[i] == dtrow(d, q, k)[i - m]); assert(d.states@[q as int].transitions@.len() == k); }
        }
    }
}
pub proof fn lemma_ends_add(a: Seq<Tr>, b: Seq<Tr>, n: nat) requires ends_ok(a, n), ends_ok(b, n) ensures ends_ok(a + b, n) {
    assert forall|i: int| 0 <= i < (a + b).len() implies (#[trigger] (a + b)[i]).0 < n && (a + b)[i].1 < n by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } }
}
pub proof fn lemma_nrow_ends(n: &Nfa, q: usize, k: int)
    requires n.core(), q < n.n(), 0 <= k <= n.alphabet@.len(),
    ensures ends_ok(nrow_trs(n, q, k), n.n()),
    decreases k,
{
    assert(nstate_ok(n.states@[q as int], n.alphabet@.len(), n.n()));
    if k > 0 {
        lemma_nrow_ends(n, q, k - 1);
        assert(all_lt(n.states@[q as int].transitions@[k - 1]@, n.n()));
        assert(ends_ok(ncell_trs(n, q, k - 1, n.tr(q, k - 1).len() as int), n.n()));
        lemma_ends_add(nrow_trs(n, q, k - 1), ncell_trs(n, q, k - 1, n.tr(q, k - 1).len() as int), n.n());
    }
}
pub proof fn theorem_nfa_ends(n: &Nfa, q: int)
    requires n.core(), 0 <= q <= n.n(), n.n() <= usize::MAX,
    ensures ends_ok(ntrs(n, q), n.n()),
    decreases q,
{
    if q > 0 {
        let p = (q - 1) as usize;
        theorem_nfa_ends(n, q - 1);
        lemma_nrow_ends(n, p, n.alphabet@.len() as int);
        assert(nstate_ok(n.states@[p as int], n.alphabet@.len(), n.n()));
        assert(ends_ok(neps_trs(n, p, n.eps(p).len() as int), n.n()));
        lemma_ends_add(ntrs(n, q - 1), nrow_trs(n, p, n.alphabet@.len() as int), n.n());
        lemma_ends_add(ntrs(n, q - 1) + nrow_trs(n, p, n.alphabet@.len() as int), neps_trs(n, p, n.eps(p).len() as int), n.n());
    }
}
