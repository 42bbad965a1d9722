@raw
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_braces, unused_assignments, unreachable_code, non_camel_case_types, path_statements, unused_must_use, while_true)]
use vstd::prelude::*;
use core::marker::PhantomData;
use vstd::std_specs::cmp::PartialEqSpecImpl;
verus! {
// =============================================================== trusted model of the standard library
// Everything marked external_body below is an assumption about the Rust standard library; nothing below
// mentions a function of the code under verification.

// ---- keys: what equality and hashing look at
pub trait Hk { type Kv; spec fn kv(&self) -> Self::Kv; }
impl Hk for usize { type Kv = usize; open spec fn kv(&self) -> usize { *self } }
impl<A: Hk, B: Hk> Hk for (A, B) { type Kv = (A::Kv, B::Kv); open spec fn kv(&self) -> (A::Kv, B::Kv) { (self.0.kv(), self.1.kv()) } }
impl<A: Hk, B: Hk, C: Hk> Hk for (A, B, C) { type Kv = (A::Kv, B::Kv, C::Kv); open spec fn kv(&self) -> (A::Kv, B::Kv, C::Kv) { (self.0.kv(), self.1.kv(), self.2.kv()) } }
impl<A: Hk> Hk for Option<A> { type Kv = Option<A::Kv>; open spec fn kv(&self) -> Option<A::Kv> { match self { Some(a) => Some(a.kv()), None => None } } }
impl<'a, T: Hk> Hk for &'a T { type Kv = T::Kv; open spec fn kv(&self) -> T::Kv { (**self).kv() } }
impl<T: Hk> Hk for Vec<T> { type Kv = Seq<T::Kv>; open spec fn kv(&self) -> Seq<T::Kv> { Seq::new(self@.len(), |i: int| self@[i].kv()) } }
impl Hk for Str { type Kv = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }

// ---- strings
#[verifier::external_body]
pub struct Str { s: String }
impl View for Str { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl PartialEq for Str {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl PartialEqSpecImpl for Str {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl Str {
    #[verifier::external_body]
    pub fn empty() -> (r: Str) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str(&mut self, o: &Str) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn graphemes_<'a>(&'a self, ext: bool) -> (r: It<&'a Str>) requires ext ensures r.pos() == 0, r.seq().map_values(|x: &Str| x@) == graphemes(self@), r.seq().len() <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn chars_(&self) -> (r: It<char>) ensures r.pos() == 0, r.seq() == self@, r.seq().len() <= isize::MAX { unimplemented!() }
    pub fn as_ref(&self) -> (r: &Str) ensures *r == *self { self }
    pub fn as_self_(&self) -> (r: &Str) ensures *r == *self { self }
}
// extended grapheme clusters of a text (unicode-segmentation); nothing is assumed about the splitting
pub uninterp spec fn graphemes(s: Seq<char>) -> Seq<Seq<char>>;
// a string is its sequence of characters
pub broadcast axiom fn axiom_str_ext(a: Str, b: Str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
#[verifier::external_body]
pub fn lit(s: &'static str) -> (r: &'static Str) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn lit_ref(s: &'static str) -> (r: &'static &'static Str) ensures (*r)@ == s@ { unimplemented!() }
// the text of a formatted value: any text (nothing is assumed about it)
#[verifier::external_body]
pub fn fmt_any() -> (r: Str) { unimplemented!() }
// decimal text of a number; assumed injective
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub broadcast axiom fn axiom_dec_inj(a: int, b: int) requires a >= 0, b >= 0 ensures #[trigger] dec(a) == #[trigger] dec(b) ==> a == b;
pub trait ToStr { spec fn tostr(&self) -> Seq<char>; }
impl ToStr for usize { open spec fn tostr(&self) -> Seq<char> { dec(*self as int) } }
impl ToStr for Str { open spec fn tostr(&self) -> Seq<char> { self@ } }
impl<'a, T: ToStr> ToStr for &'a T { open spec fn tostr(&self) -> Seq<char> { (**self).tostr() } }
#[verifier::external_body]
pub fn to_str_<T: ToStr>(t: &T) -> (r: Str) ensures r@ == t.tostr() { unimplemented!() }
pub trait RcFrom { type O; spec fn rcspec(self, o: Self::O) -> bool; fn rcf(self) -> (r: Self::O) ensures self.rcspec(r); }
impl RcFrom for Str { type O = Str; open spec fn rcspec(self, o: Str) -> bool { o == self } fn rcf(self) -> (r: Str) { self } }
impl<'a> RcFrom for &'a Str { type O = Str; open spec fn rcspec(self, o: Str) -> bool { o == *self }
    #[verifier::external_body]
    fn rcf(self) -> (r: Str) { unimplemented!() } }
pub fn rc_from<T: RcFrom>(t: T) -> (r: T::O) ensures t.rcspec(r) { t.rcf() }

// ---- cloning yields an equal value
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl VClone for usize { fn vclone(&self) -> (r: Self) { *self } }
impl VClone for bool { fn vclone(&self) -> (r: Self) { *self } }
impl VClone for char { fn vclone(&self) -> (r: Self) { *self } }
impl<'a, T> VClone for &'a T { fn vclone(&self) -> (r: Self) { *self } }
impl VClone for Str { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl<T: VClone> VClone for Vec<T> { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl<T: VClone> VClone for Option<T> { fn vclone(&self) -> (r: Self) { match self { Some(x) => Some(x.vclone()), None => None } } }
impl<A: VClone, B: VClone> VClone for (A, B) { fn vclone(&self) -> (r: Self) { (self.0.vclone(), self.1.vclone()) } }
impl<T: Hk> VClone for HSet<T> { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl<K: Hk, V> VClone for HMap<K, V> { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }

// ---- hash sets and maps
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HSet<T: Hk> { v: Vec<T> }
impl<T: Hk> View for HSet<T> { type V = Set<T::Kv>; uninterp spec fn view(&self) -> Set<T::Kv>; }
impl<T: Hk> HSet<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T::Kv>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(t.kv()), r == !old(self)@.contains(t.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_<Q: Hk<Kv = T::Kv>>(&self, t: &Q) -> (r: bool) ensures r == self@.contains(t.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: Hk<Kv = T::Kv>>(&mut self, t: &Q) -> (r: bool) ensures final(self)@ == old(self)@.remove(t.kv()), r == old(self)@.contains(t.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty_(&self) -> (r: bool) ensures r == (self@ == Set::<T::Kv>::empty()), r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<T::Kv>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_(&self) -> (r: ItRef<'_, T>) ensures r.pos() == 0, enumerates(r.seq(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn drain_(&mut self) -> (r: It<T>) ensures r.pos() == 0, enumerates(r.seq(), old(self)@), final(self)@ == Set::<T::Kv>::empty() { unimplemented!() }
    // the elements of self that are (not) in o, by reference
    #[verifier::external_body]
    pub fn intersection_<'a>(&'a self, o: &HSet<T>) -> (r: ItRef<'a, T>) ensures r.pos() == 0, enumerates(r.seq(), self@.intersect(o@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn difference_<'a>(&'a self, o: &HSet<T>) -> (r: ItRef<'a, T>) ensures r.pos() == 0, enumerates(r.seq(), self@.difference(o@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn cadd_(&mut self, t: T) ensures final(self)@ == old(self)@.insert(t.kv()) { unimplemented!() }
}
impl<T: Hk> PartialEq for HSet<T> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl<T: Hk> PartialEqSpecImpl for HSet<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
// s lists every element of the set once, in any order
pub open spec fn enumerates<T: Hk>(s: Seq<T>, v: Set<T::Kv>) -> bool {
    &&& forall|j: int| 0 <= j < s.len() ==> v.contains((#[trigger] s[j]).kv())
    &&& forall|k: T::Kv| #[trigger] v.contains(k) ==> exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).kv() == k
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).kv() != (#[trigger] s[j]).kv()
    &&& s.len() == v.len()
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HMap<K: Hk, V> { v: Vec<(K, V)> }
impl<K: Hk, V> View for HMap<K, V> { type V = Map<K::Kv, V>; uninterp spec fn view(&self) -> Map<K::Kv, V>; }
impl<K: Hk, V> HMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::Kv, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.kv(), v),
        r == (if old(self)@.contains_key(k.kv()) { Some(old(self)@[k.kv()]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: Hk<Kv = K::Kv>>(&self, k: &Q) -> (r: Option<&V>) ensures
        match r { Some(v) => self@.contains_key(k.kv()) && *v == self@[k.kv()], None => !self@.contains_key(k.kv()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn index_<Q: Hk<Kv = K::Kv>>(&self, k: &Q) -> (r: &V) requires self@.contains_key(k.kv()) ensures *r == self@[k.kv()] { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: Hk<Kv = K::Kv>>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: Hk<Kv = K::Kv>>(&mut self, k: &Q) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k.kv()),
        r == (if old(self)@.contains_key(k.kv()) { Some(old(self)@[k.kv()]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_<'a>(&'a self) -> (r: It<(&'a K, &'a V)>) ensures r.pos() == 0, ref_entries(r.seq(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn drain_(&mut self) -> (r: It<(K, V)>) ensures r.pos() == 0, entries(r.seq(), old(self)@), final(self)@ == Map::<K::Kv, V>::empty() { unimplemented!() }
    // the value of a key, through a mutable reference
    #[verifier::external_body]
    pub fn get_mut<'a, Q: Hk<Kv = K::Kv>>(&'a mut self, k: &Q) -> (r: Option<&'a mut V>) ensures
        match r { Some(v) => old(self)@.contains_key(k.kv()) && *v == old(self)@[k.kv()] && final(self)@ == old(self)@.insert(k.kv(), *final(v)),
            None => !old(self)@.contains_key(k.kv()) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn entry_or_default_<'a>(&'a mut self, k: K) -> (r: &'a mut V) where V: Dflt ensures
        if old(self)@.contains_key(k.kv()) { *r == old(self)@[k.kv()] } else { r.dflt() },
        final(self)@ == old(self)@.insert(k.kv(), *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_keys_(self) -> (r: It<K>) ensures r.pos() == 0, enumerates(r.seq(), self@.dom()) { unimplemented!() }
}
// the value of Default
pub trait Dflt: Sized { spec fn dflt(&self) -> bool; }
impl<T> Dflt for Vec<T> { open spec fn dflt(&self) -> bool { self@ == Seq::<T>::empty() } }
// the entries of a map by reference
pub open spec fn ref_entries<'a, K: Hk, V>(s: Seq<(&'a K, &'a V)>, m: Map<K::Kv, V>) -> bool {
    &&& forall|j: int| 0 <= j < s.len() ==> m.contains_key((#[trigger] s[j]).0.kv()) && m[s[j].0.kv()] == *s[j].1
    &&& forall|k: K::Kv| #[trigger] m.contains_key(k) ==> exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0.kv() == k
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).0.kv() != (#[trigger] s[j]).0.kv()
    &&& s.len() == m.dom().len()
}
// a map held in memory has at most isize::MAX entries
#[verifier::external_body]
pub proof fn axiom_hmap_len<K: Hk, V>(m: &HMap<K, V>) ensures m@.dom().len() <= isize::MAX { }
// every vector holds at most isize::MAX items
#[verifier::external_body]
pub proof fn axiom_vec_len<T>(v: &Vec<T>) ensures v@.len() <= isize::MAX { }
// a..
pub struct RangeFrom_ { pub cur: usize }
pub fn range_from_it(a: usize) -> (r: RangeFrom_) ensures r.cur == a { RangeFrom_ { cur: a } }
impl RangeFrom_ {
    pub fn next_opt_(&mut self) -> (r: Option<usize>) requires old(self).cur < usize::MAX ensures r == Some(old(self).cur), final(self).cur == old(self).cur + 1 { let c = self.cur; self.cur = c + 1; Some(c) }
    pub fn next(&mut self) -> (r: Option<usize>) requires old(self).cur < usize::MAX ensures r == Some(old(self).cur), final(self).cur == old(self).cur + 1 { let c = self.cur; self.cur = c + 1; Some(c) }
}
// the key of a sort
pub trait ToKey: Sized { spec fn key_(self) -> usize; fn to_key_(self) -> (r: usize) ensures r == self.key_(); }
impl ToKey for usize { open spec fn key_(self) -> usize { self } fn to_key_(self) -> (r: usize) { self } }
impl<'a, T: ToKey + Copy> ToKey for &'a T { open spec fn key_(self) -> usize { (*self).key_() } fn to_key_(self) -> (r: usize) { (*self).to_key_() } }
#[verifier::external_body]
pub fn hset_from<T: Hk>(v: Vec<T>) -> (r: HSet<T>) ensures forall|k: T::Kv| #[trigger] r@.contains(k) <==> exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).kv() == k { unimplemented!() }

// ---- iterators: a fixed sequence and a position in it
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ItRef<'a, T> { v: &'a [T], i: usize }
impl<'a, T> ItRef<'a, T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn has_next_(&self) -> (r: bool) requires 0 <= self.pos() <= self.seq().len() ensures r == (self.pos() < self.seq().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_(&mut self) -> (r: &'a T) requires 0 <= old(self).pos() < old(self).seq().len()
        ensures *r == old(self).seq()[old(self).pos()], final(self).pos() == old(self).pos() + 1, final(self).seq() == old(self).seq() { unimplemented!() }
    #[verifier::external_body]
    pub fn next_opt_(&mut self) -> (r: Option<&'a T>) requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(),
            match r { Some(t) => old(self).pos() < old(self).seq().len() && *t == old(self).seq()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
                None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos() } { unimplemented!() }
    // a sequence held in memory has at most isize::MAX items
    #[verifier::external_body]
    pub fn index_(&self) -> (r: usize) ensures r == self.pos(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) requires 0 <= self.pos() <= self.seq().len() ensures r == self.seq().len() - self.pos() { unimplemented!() }
    #[verifier::external_body]
    pub fn rev_(self) -> (r: ItRef<'a, T>) requires self.pos() == 0 ensures r.pos() == 0, r.seq() == self.seq().reverse() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { v: Vec<T> }
impl<T> It<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn has_next_(&self) -> (r: bool) requires 0 <= self.pos() <= self.seq().len() ensures r == (self.pos() < self.seq().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_(&mut self) -> (r: T) requires 0 <= old(self).pos() < old(self).seq().len()
        ensures r == old(self).seq()[old(self).pos()], final(self).pos() == old(self).pos() + 1, final(self).seq() == old(self).seq() { unimplemented!() }
    #[verifier::external_body]
    pub fn next_opt_(&mut self) -> (r: Option<T>) requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(),
            match r { Some(t) => old(self).pos() < old(self).seq().len() && t == old(self).seq()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
                None => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos() } { unimplemented!() }
    #[verifier::external_body]
    pub fn index_(&self) -> (r: usize) ensures r == self.pos(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn rev_(self) -> (r: It<T>) requires self.pos() == 0 ensures r.pos() == 0, r.seq() == self.seq().reverse() { unimplemented!() }
}
pub trait IntoIt: Sized { type I; spec fn itspec(self, i: Self::I) -> bool;
    fn into_it(self) -> (r: Self::I) ensures self.itspec(r); }
impl<'a, T> IntoIt for &'a Vec<T> { type I = ItRef<'a, T>;
    open spec fn itspec(self, i: ItRef<'a, T>) -> bool { i.seq() == self@ && i.pos() == 0 }
    #[verifier::external_body]
    fn into_it(self) -> (r: ItRef<'a, T>) { unimplemented!() } }
impl<T> IntoIt for Vec<T> { type I = It<T>;
    open spec fn itspec(self, i: It<T>) -> bool { i.seq() == self@ && i.pos() == 0 }
    #[verifier::external_body]
    fn into_it(self) -> (r: It<T>) { unimplemented!() } }
impl<'a, T: Hk> IntoIt for &'a HSet<T> { type I = ItRef<'a, T>;
    open spec fn itspec(self, i: ItRef<'a, T>) -> bool { i.pos() == 0 && enumerates(i.seq(), self@) }
    #[verifier::external_body]
    fn into_it(self) -> (r: ItRef<'a, T>) { unimplemented!() } }
impl<T: Hk> IntoIt for HSet<T> { type I = It<T>;
    open spec fn itspec(self, i: It<T>) -> bool { i.pos() == 0 && enumerates(i.seq(), self@) }
    #[verifier::external_body]
    fn into_it(self) -> (r: It<T>) { unimplemented!() } }
// the entries of a map, each key once, in any order
pub open spec fn entries<K: Hk, V>(s: Seq<(K, V)>, m: Map<K::Kv, V>) -> bool {
    &&& forall|j: int| 0 <= j < s.len() ==> m.contains_key((#[trigger] s[j]).0.kv()) && m[s[j].0.kv()] == s[j].1
    &&& forall|k: K::Kv| #[trigger] m.contains_key(k) ==> exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0.kv() == k
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).0.kv() != (#[trigger] s[j]).0.kv()
    &&& s.len() == m.dom().len()
}
impl<K: Hk, V> IntoIt for HMap<K, V> { type I = It<(K, V)>;
    open spec fn itspec(self, i: It<(K, V)>) -> bool { i.pos() == 0 && entries(i.seq(), self@) }
    #[verifier::external_body]
    fn into_it(self) -> (r: It<(K, V)>) { unimplemented!() } }
impl<T> IntoIt for It<T> { type I = It<T>; open spec fn itspec(self, i: It<T>) -> bool { i == self } fn into_it(self) -> (r: It<T>) { self } }
impl<'a, T> IntoIt for ItRef<'a, T> { type I = ItRef<'a, T>; open spec fn itspec(self, i: ItRef<'a, T>) -> bool { i == self } fn into_it(self) -> (r: ItRef<'a, T>) { self } }
impl<T> IntoIt for Option<T> { type I = It<T>;
    open spec fn itspec(self, i: It<T>) -> bool { i.pos() == 0 && i.seq() == (match self { Some(x) => seq![x], None => Seq::<T>::empty() }) }
    #[verifier::external_body]
    fn into_it(self) -> (r: It<T>) { unimplemented!() } }
#[verifier::external_body]
pub fn range_it(a: usize, b: usize) -> (r: It<usize>) ensures r.pos() == 0, r.seq().len() == (if a <= b { b - a } else { 0 }),
    forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == a + i { unimplemented!() }
#[verifier::external_body]
pub fn range_incl_it(a: usize, b: usize) -> (r: It<usize>) ensures r.pos() == 0, r.seq().len() == (if a <= b { b - a + 1 } else { 0 }),
    forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == a + i { unimplemented!() }
#[verifier::external_body]
pub fn once_it<T>(a: T) -> (r: It<T>) ensures r.pos() == 0, r.seq() == seq![a] { unimplemented!() }

// ---- collect
pub trait Coll<T>: Sized { spec fn cempty(self) -> bool; spec fn cadded(pre: Self, t: T, post: Self) -> bool;
    fn cnew() -> (r: Self) ensures r.cempty();
    fn cadd(&mut self, t: T) ensures Self::cadded(*old(self), t, *final(self)); }
impl<T: Hk> Coll<T> for HSet<T> { open spec fn cempty(self) -> bool { self@ == Set::<T::Kv>::empty() }
    open spec fn cadded(pre: Self, t: T, post: Self) -> bool { post@ == pre@.insert(t.kv()) }
    fn cnew() -> (r: Self) { HSet::new() }
    fn cadd(&mut self, t: T) { self.cadd_(t) } }
impl<T> Coll<T> for Vec<T> { open spec fn cempty(self) -> bool { self@ == Seq::<T>::empty() }
    open spec fn cadded(pre: Self, t: T, post: Self) -> bool { post@ == pre@.push(t) }
    fn cnew() -> (r: Self) { Vec::new() }
    fn cadd(&mut self, t: T) { self.push(t) } }
impl<K: Hk, V> Coll<(K, V)> for HMap<K, V> { open spec fn cempty(self) -> bool { self@ == Map::<K::Kv, V>::empty() }
    open spec fn cadded(pre: Self, t: (K, V), post: Self) -> bool { post@ == pre@.insert(t.0.kv(), t.1) }
    fn cnew() -> (r: Self) { HMap::new() }
    fn cadd(&mut self, t: (K, V)) { self.insert(t.0, t.1); } }
pub fn cnew<T, C: Coll<T>>() -> (r: C) ensures r.cempty() { C::cnew() }
pub fn cadd<T, C: Coll<T>>(c: &mut C, t: T) ensures C::cadded(*old(c), t, *final(c)) { c.cadd(t) }
// extend
pub trait CExt<T>: Sized { spec fn cexted(pre: Self, t: T, post: Self) -> bool;
    fn cext_(&mut self, t: T) ensures Self::cexted(*old(self), t, *final(self)); }
impl<T> CExt<T> for Vec<T> { open spec fn cexted(pre: Self, t: T, post: Self) -> bool { post@ == pre@.push(t) } fn cext_(&mut self, t: T) { self.push(t) } }
impl<'a, T: Copy> CExt<&'a T> for Vec<T> { open spec fn cexted(pre: Self, t: &'a T, post: Self) -> bool { post@ == pre@.push(*t) } fn cext_(&mut self, t: &'a T) { self.push(*t) } }
impl<'a, T: Hk + Copy> CExt<&'a T> for HSet<T> { open spec fn cexted(pre: Self, t: &'a T, post: Self) -> bool { post@ == pre@.insert(t.kv()) } fn cext_(&mut self, t: &'a T) { self.cadd_(*t) } }
impl<T: Hk> CExt<T> for HSet<T> { open spec fn cexted(pre: Self, t: T, post: Self) -> bool { post@ == pre@.insert(t.kv()) } fn cext_(&mut self, t: T) { self.cadd_(t) } }

// ---- vectors
#[verifier::external_body]
pub fn vec_elem<T: VClone>(t: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == t { unimplemented!() }
pub trait VecX<T>: Sized {
    spec fn vx(&self) -> Seq<T>;
    fn iter_<'a>(&'a self) -> (r: ItRef<'a, T>) ensures r.pos() == 0, r.seq() == self.vx();
    fn drain_(&mut self) -> (r: It<T>) ensures r.pos() == 0, r.seq() == old(self).vx(), final(self).vx() == Seq::<T>::empty();
    fn windows_(&self, n: usize) -> (r: It<Vec<T>>) ensures r.pos() == 0, r.seq().len() == (if n <= self.vx().len() { self.vx().len() - n + 1 } else { 0 }),
        forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i])@ == self.vx().subrange(i, i + n);
    fn is_empty_(&self) -> (r: bool) ensures r == (self.vx().len() == 0);
    fn last_(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.vx().len() > 0 && *x == self.vx().last(), None => self.vx().len() == 0 };
    fn as_self_(&self) -> (r: &Self) ensures *r == *self;
    fn cadd_(&mut self, t: T) ensures final(self).vx() == old(self).vx().push(t);
    // every vector holds at most isize::MAX items
    fn len_(&self) -> (r: usize) ensures r == self.vx().len(), r <= isize::MAX;
}
impl<T> VecX<T> for Vec<T> {
    open spec fn vx(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter_<'a>(&'a self) -> (r: ItRef<'a, T>) { unimplemented!() }
    #[verifier::external_body]
    fn drain_(&mut self) -> (r: It<T>) { unimplemented!() }
    #[verifier::external_body]
    fn windows_(&self, n: usize) -> (r: It<Vec<T>>) { unimplemented!() }
    fn is_empty_(&self) -> (r: bool) { self.len() == 0 }
    #[verifier::external_body]
    fn last_(&self) -> (r: Option<&T>) { unimplemented!() }
    fn as_self_(&self) -> (r: &Self) { self }
    fn cadd_(&mut self, t: T) { self.push(t) }
    #[verifier::external_body]
    fn len_(&self) -> (r: usize) { unimplemented!() }
}
pub trait VecK<T: Hk>: Sized {
    spec fn vk(&self) -> Seq<T>;
    fn contains_(&self, t: &T) -> (r: bool) ensures r == (exists|i: int| 0 <= i < self.vk().len() && (#[trigger] self.vk()[i]).kv() == t.kv());
}
impl<T: Hk> VecK<T> for Vec<T> {
    open spec fn vk(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn contains_(&self, t: &T) -> (r: bool) { unimplemented!() }
}
pub open spec fn sorted(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j] }
pub trait VecU: Sized {
    spec fn vu(&self) -> Seq<usize>;
    fn sort_(&mut self) ensures sorted(final(self).vu()), final(self).vu().len() == old(self).vu().len(), final(self).vu().to_multiset() == old(self).vu().to_multiset();
    fn binary_search_(&self, x: &usize) -> (r: Result<usize, usize>) requires sorted(self.vu())
        ensures match r {
            Ok(i) => i < self.vu().len() && self.vu()[i as int] == *x,
            Err(i) => i <= self.vu().len() && (i > 0 ==> self.vu()[i - 1] < *x) && (forall|k: int| 0 <= k < i ==> self.vu()[k] < *x) && (forall|k: int| i <= k < self.vu().len() ==> self.vu()[k] > *x) };
}
impl VecU for Vec<usize> {
    open spec fn vu(&self) -> Seq<usize> { self@ }
    #[verifier::external_body]
    fn sort_(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn binary_search_(&self, x: &usize) -> (r: Result<usize, usize>) { unimplemented!() }
}
// stable sort by the given keys: a permutation that orders the keys and keeps the order of equal keys
pub open spec fn sort_perm(keys: Seq<usize>, p: Seq<int>) -> bool {
    &&& p.len() == keys.len()
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < keys.len()
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> p[i] != p[j] && (keys[#[trigger] p[i]] < keys[#[trigger] p[j]] || (keys[p[i]] == keys[p[j]] && p[i] < p[j]))
    &&& forall|k: int| 0 <= k < keys.len() ==> p.contains(k)
}
pub trait VecS<T>: Sized { spec fn vs(&self) -> Seq<T>;
    fn sort_by_keys_(&mut self, keys: &Vec<usize>) requires keys@.len() == old(self).vs().len()
        ensures final(self).vs().len() == old(self).vs().len(), final(self).vs().to_multiset() == old(self).vs().to_multiset(),
            exists|p: Seq<int>| sort_perm(keys@, p) && forall|i: int| 0 <= i < p.len() ==> #[trigger] final(self).vs()[i] == old(self).vs()[p[i]]; }
impl<T> VecS<T> for Vec<T> { open spec fn vs(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn sort_by_keys_(&mut self, keys: &Vec<usize>) { unimplemented!() } }
pub trait VecRev: Sized { type E; spec fn vrv(&self) -> Seq<Self::E>; fn reverse_(&mut self) ensures final(self).vrv() == old(self).vrv().reverse(); }
impl<T> VecRev for Vec<T> { type E = T; open spec fn vrv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn reverse_(&mut self) { unimplemented!() } }
// texts joined by a separator
pub open spec fn joined(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::<char>::empty() } else if s.len() == 1 { s[0] } else { joined(s.drop_last(), sep) + sep + s.last() }
}
pub trait VecJoin: Sized { spec fn vjt(&self) -> Seq<Seq<char>>; fn join_(&self, sep: &Str) -> (r: Str) ensures r@ == joined(self.vjt(), sep@); }
impl<'a> VecJoin for Vec<&'a Str> { open spec fn vjt(&self) -> Seq<Seq<char>> { self@.map_values(|s: &'a Str| s@) }
    #[verifier::external_body]
    fn join_(&self, sep: &Str) -> (r: Str) { unimplemented!() } }
impl VecJoin for Vec<Str> { open spec fn vjt(&self) -> Seq<Seq<char>> { self@.map_values(|s: Str| s@) }
    #[verifier::external_body]
    fn join_(&self, sep: &Str) -> (r: Str) { unimplemented!() } }
pub trait VResize<T>: Sized { spec fn vr_(&self) -> Seq<T>;
    fn resize_(&mut self, n: usize, t: T) ensures final(self).vr_().len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(self).vr_()[i] == (if i < old(self).vr_().len() { old(self).vr_()[i] } else { t }); }
impl<T: VClone> VResize<T> for Vec<T> { open spec fn vr_(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn resize_(&mut self, n: usize, t: T) { unimplemented!() } }
#[verifier::external_body]
pub fn mem_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }
pub open spec fn opt_zip_s<A, B>(a: Option<A>, b: Option<B>) -> Option<(A, B)> { match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None } }
#[verifier::when_used_as_spec(opt_zip_s)]
pub fn opt_zip<A, B>(a: Option<A>, b: Option<B>) -> (r: Option<(A, B)>) ensures r == opt_zip_s(a, b) {
    match a { Some(x) => match b { Some(y) => Some((x, y)), None => None }, None => None }
}

pub trait OrDefault: Sized { type O; spec fn ordef_s(self, r: Self::O) -> bool; fn unwrap_or_default_(self) -> (r: Self::O) ensures self.ordef_s(r); }
impl<T> OrDefault for Option<Vec<T>> { type O = Vec<T>; open spec fn ordef_s(self, r: Vec<T>) -> bool { match self { Some(v) => r == v, None => r@ == Seq::<T>::empty() } }
    fn unwrap_or_default_(self) -> Vec<T> { match self { Some(v) => v, None => Vec::new() } } }

// ---- early exit
pub trait TryLike: Sized { spec fn t_go(self) -> bool; fn t_okv() -> (r: Self) ensures r.t_go(); fn t_cont(&self) -> (r: bool) ensures r == (*self).t_go(); }
impl TryLike for Option<()> { open spec fn t_go(self) -> bool { self is Some } fn t_okv() -> (r: Self) { Some(()) } fn t_cont(&self) -> (r: bool) { match self { Some(_) => true, None => false } } }
impl<E> TryLike for Result<(), E> { open spec fn t_go(self) -> bool { self is Ok } fn t_okv() -> (r: Self) { Ok(()) } fn t_cont(&self) -> (r: bool) { match self { Ok(_) => true, Err(_) => false } } }
pub fn t_ok<T: TryLike>() -> (r: T) ensures r.t_go() { T::t_okv() }

// ---- panics must be unreachable
#[verifier::external_body]
pub fn vpanic<T>() -> (r: T) requires false { unimplemented!() }
pub fn rt_assert(b: bool) requires b {}
// a build-time flag: either value
#[verifier::external_body]
pub fn cfg_any() -> (r: bool) { unimplemented!() }
// an Option variable, bound by value or by reference (of copyable content)
pub trait OptV: Sized { type O; spec fn optv_s(self) -> Option<Self::O>; fn optv_(self) -> (r: Option<Self::O>) ensures r == self.optv_s(); }
impl<T> OptV for Option<T> { type O = T; open spec fn optv_s(self) -> Option<T> { self } fn optv_(self) -> Option<T> { self } }
impl<'a, T: Copy> OptV for &'a Option<T> { type O = T; open spec fn optv_s(self) -> Option<T> { *self } fn optv_(self) -> Option<T> { *self } }
