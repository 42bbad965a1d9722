@raw
pub open spec fn nnamed(s: Seq<NfaState>, m: Seq<char>) -> bool { exists|q: int| 0 <= q < s.len() && (#[trigger] s[q]).name@ == m }
// among more numbers than states one is not the name of a state
pub proof fn lemma_free_number(s: Seq<NfaState>, k: int)
    requires k >= 0, forall|i: int| 0 <= i < k ==> nnamed(s, #[trigger] dec(i)),
    ensures k <= s.len(),
{
    broadcast use axiom_dec_inj;
    let f = |i: int| choose|q: int| 0 <= q < s.len() && (#[trigger] s[q]).name@ == dec(i);
    let a = vstd::set_lib::set_int_range(0, k);
    let b = vstd::set_lib::set_int_range(0, s.len() as int);
    vstd::set_lib::lemma_int_range(0, k);
    vstd::set_lib::lemma_int_range(0, s.len() as int);
    assert forall|i: int| 0 <= i < k implies 0 <= #[trigger] f(i) < s.len() && s[f(i)].name@ == dec(i) by { assert(nnamed(s, dec(i))); }
    let c = a.map(f);
    assert(c.subset_of(b)) by { assert forall|x: int| c.contains(x) implies b.contains(x) by { let i = choose|i: int| a.contains(i) && f(i) == x; } }
    {
        assert forall|x1: int, x2: int| a.contains(x1) && a.contains(x2) && #[trigger] f(x1) == #[trigger] f(x2) implies x1 == x2 by { assert(dec(x1) == dec(x2)); }
    }
    vstd::set_lib::lemma_map_size(a, c, f);
    vstd::set_lib::lemma_len_subset(c, b);
}

@fn dandy/src/nfa/mod.rs Nfa::fresh_name
@sig
    ensures *final(self) == *old(self), !nnamed(old(self).states@, r@),
@acc 2 Option<Str>
@loop 1 inv
    *self == *old(self), r1 ==> forall|q: int| 0 <= q < it1.pos() ==> (#[trigger] self.states@[q]).name@ != wanted@,
@loop 2 inv
    *self == *old(self), 0 <= it2.cur, it2.cur <= self.states@.len() || r2 is Some,
    match r2 { Some(m) => !nnamed(self.states@, m@), None => forall|i: int| 0 <= i < it2.cur ==> nnamed(self.states@, #[trigger] dec(i)) },
    decreases usize::MAX - it2.cur,
@loop 2 top
    proof { axiom_vec_len(&self.states); }
@loop 3 inv
    *self == *old(self), n@ == dec(x2 as int),
    r3 ==> forall|q: int| 0 <= q < it3.pos() ==> (#[trigger] self.states@[q]).name@ != n@,
    !r3 ==> nnamed(self.states@, n@),
@loop 2 end
    proof {
        if r2 is None { lemma_free_number(self.states@, it2.cur as int); }
    }
