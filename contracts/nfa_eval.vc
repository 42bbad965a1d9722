@type dandy/src/nfa/eval.rs NfaEvaluator
@raw
impl<'a> NfaEvaluator<'a> {
    pub open spec fn ok(&self) -> bool {
        &&& self.nfa.core() && rev_ok(self.rev_map@, self.nfa.alphabet@)
        &&& set_in(self.nfa, self.current_states@) && eclosed(self.nfa, self.current_states@)
    }
    // w has been read: the current states are exactly those some path reading w leads to
    pub open spec fn at(&self, w: Word) -> bool {
        &&& self.ok()
        &&& self.unknown_elem_seen == !over(self.nfa.alphabet@, w)
        &&& over(self.nfa.alphabet@, w) ==> states_of(self.nfa, w, self.current_states@)
    }
}
pub open spec fn states_of(n: &Nfa, w: Word, s: Set<usize>) -> bool { forall|q: usize| #[trigger] s.contains(q) <==> nreach(n, n.initial_state, w, q) }
pub open spec fn is_state_of(n: &Nfa, s: Set<usize>, x: NfaState) -> bool { exists|q: usize| #[trigger] s.contains(q) && x == n.states@[q as int] }
// everything in s comes from b by epsilon moves
#[verifier::opaque]
pub open spec fn from_base(n: &Nfa, b: Set<usize>, s: Set<usize>) -> bool {
    forall|q: usize| #[trigger] s.contains(q) ==> exists|p: usize| b.contains(p) && #[trigger] ereach(n, p, q)
}
// s is the epsilon closure of b
pub open spec fn is_closure(n: &Nfa, b: Set<usize>, s: Set<usize>) -> bool {
    b.subset_of(s) && eclosed(n, s) && from_base(n, b, s)
}
// t: where one move on symbol c leads from s
pub open spec fn moves_to(n: &Nfa, s: Set<usize>, c: Seq<char>, t: Set<usize>) -> bool {
    forall|q: usize| #[trigger] t.contains(q) <==> exists|p: usize| s.contains(p) && #[trigger] sedge(n, p, c, q)
}
// t: what is reached from s by one move on c and then epsilon moves
pub open spec fn steps_to(n: &Nfa, s: Set<usize>, c: Seq<char>, t: Set<usize>) -> bool {
    exists|m: Set<usize>| #[trigger] moves_to(n, s, c, m) && is_closure(n, m, t)
}
pub proof fn lemma_over_push(a: Seq<Str>, w: Word, c: Seq<char>)
    ensures over(a, w.push(c)) == (over(a, w) && has_sym(a, c)),
{
    let v = w.push(c);
    if over(a, v) {
        assert(has_sym(a, v[w.len() as int]));
        assert forall|i: int| 0 <= i < w.len() implies has_sym(a, #[trigger] w[i]) by { assert(v[i] == w[i]); }
    }
    if over(a, w) && has_sym(a, c) {
        assert forall|i: int| 0 <= i < v.len() implies has_sym(a, #[trigger] v[i]) by { if i < w.len() { assert(v[i] == w[i]); } }
    }
}
pub proof fn lemma_closure_start(n: &Nfa, s: Set<usize>)
    requires is_closure(n, Set::<usize>::empty().insert(n.initial_state), s),
    ensures states_of(n, eword(), s),
{
    reveal(from_base);
    let b = Set::<usize>::empty().insert(n.initial_state);
    assert(b.contains(n.initial_state));
    assert forall|q: usize| #[trigger] s.contains(q) <==> nreach(n, n.initial_state, eword(), q) by {
        if nreach(n, n.initial_state, eword(), q) { lemma_eclosed(n, s, n.initial_state, q); }
    }
}
pub proof fn lemma_from_base(n: &Nfa, b: Set<usize>, s: Set<usize>, q: usize) -> (p: usize)
    requires from_base(n, b, s), s.contains(q),
    ensures b.contains(p), ereach(n, p, q),
{
    reveal(from_base);
    choose|p: usize| b.contains(p) && #[trigger] ereach(n, p, q)
}
pub proof fn lemma_steps(n: &Nfa, w: Word, s: Set<usize>, c: Seq<char>, t: Set<usize>)
    requires n.core(), states_of(n, w, s), steps_to(n, s, c, t),
    ensures states_of(n, w.push(c), t),
{
    let m = choose|m: Set<usize>| #[trigger] moves_to(n, s, c, m) && is_closure(n, m, t);
    let v = w.push(c);
    assert(v.drop_last() =~= w);
    let i = n.initial_state;
    assert forall|q: usize| #[trigger] t.contains(q) <==> nreach(n, i, v, q) by {
        if t.contains(q) {
            let p = lemma_from_base(n, m, t, q);
            let r = choose|r: usize| s.contains(r) && #[trigger] sedge(n, r, c, p);
            lemma_nreach_sedge(n, i, w, r, c, p);
            lemma_nreach_ereach(n, i, v, p, q);
        }
        if nreach(n, i, v, q) {
            let rs = lemma_nreach_last(n, i, v, q);
            assert(s.contains(rs.0));
            assert(m.contains(rs.1));
            lemma_eclosed(n, t, rs.1, q);
        }
    }
}

@fn dandy/src/nfa/eval.rs NfaEvaluator::include_closure
@sig
    requires old(self).nfa.core(), set_in(old(self).nfa, old(self).current_states@),
    ensures final(self).nfa == old(self).nfa, final(self).rev_map == old(self).rev_map, final(self).unknown_elem_seen == old(self).unknown_elem_seen,
        set_in(final(self).nfa, final(self).current_states@), is_closure(final(self).nfa, old(self).current_states@, final(self).current_states@),
@loop 1 pre
    let ghost base = self.current_states@;
    let ghost n = *self.nfa;
    proof { lemma_base_refl(&n, base); lemma_idx_bound(base, n.n()); }
@loop 1 inv
    n == *self.nfa, self.nfa == old(self).nfa, n.core(), self.rev_map == old(self).rev_map, self.unknown_elem_seen == old(self).unknown_elem_seen,
    set_in(&n, self.current_states@), base.subset_of(self.current_states@), from_base(&n, base, self.current_states@),
    !updated ==> eclosed(&n, self.current_states@), to_push@ == Set::<usize>::empty(), self.current_states@.len() <= n.n(),
    decreases n.n() - self.current_states@.len(), updated as int,
@loop 1 beg
    let ghost cs = self.current_states@;
@loop 2 inv
    enumerates(it2_seq, cs), cs == self.current_states@, set_in(&n, cs), from_base(&n, base, cs), self.nfa == old(self).nfa, n == *self.nfa,
    forall|q: usize| #[trigger] to_push@.contains(q) ==> q < n.n() && !cs.contains(q) && exists|p: usize| cs.contains(p) && #[trigger] eedge(&n, p, q),
    updated <==> to_push@ != Set::<usize>::empty(),
    forall|j: int, q: usize| 0 <= j < it2.pos() && #[trigger] eedge(&n, it2_seq[j], q) ==> cs.contains(q) || to_push@.contains(q),
@loop 2 beg
    let ghost cur = *x2;
    proof { assert(cs.contains(cur)); assert(nstate_ok(n.states@[cur as int], n.alphabet@.len(), n.n())); }
@loop 3 inv
    it3_seq == n.eps(cur), cs == self.current_states@, cs.contains(cur), all_lt(n.eps(cur), n.n()), self.nfa == old(self).nfa, n == *self.nfa,
    forall|q: usize| #[trigger] to_push@.contains(q) ==> q < n.n() && !cs.contains(q) && exists|p: usize| cs.contains(p) && #[trigger] eedge(&n, p, q),
    updated <==> to_push@ != Set::<usize>::empty(),
    forall|j: int, q: usize| 0 <= j < it2.pos() - 1 && #[trigger] eedge(&n, it2_seq[j], q) ==> cs.contains(q) || to_push@.contains(q),
    forall|j: int| 0 <= j < it3.pos() ==> cs.contains(#[trigger] n.eps(cur)[j]) || to_push@.contains(n.eps(cur)[j]),
@loop 3 beg
    proof { assert(eedge(&n, cur, *x3)); }
    let ghost tp0 = to_push@;
@loop 3 end
    proof {
        assert forall|q: usize| #[trigger] to_push@.contains(q) implies q < n.n() && !cs.contains(q) && exists|p: usize| cs.contains(p) && #[trigger] eedge(&n, p, q) by {
            if !tp0.contains(q) { assert(cs.contains(cur) && eedge(&n, cur, q)); }
        }
        if to_push@ != tp0 { assert(to_push@.contains(*x3)); assert(updated); }
    }
@loop 2 post
    let ghost tp = to_push@;
@loop 4 inv
    enumerates(it4_seq, tp), self.nfa == old(self).nfa, self.rev_map == old(self).rev_map, self.unknown_elem_seen == old(self).unknown_elem_seen,
    to_push@ == Set::<usize>::empty(),
    forall|q: usize| #[trigger] self.current_states@.contains(q) <==> cs.contains(q) || exists|j: int| 0 <= j < it4.pos() && (#[trigger] it4_seq[j]).kv() == q,
@loop 1 end
    proof {
        assert(self.current_states@ =~= cs.union(tp));
        if !updated {
            assert(tp =~= Set::<usize>::empty());
            assert(self.current_states@ =~= cs);
            assert forall|p: usize, q: usize| cs.contains(p) && #[trigger] eedge(&n, p, q) implies cs.contains(q) by {
                let j = choose|j: int| 0 <= j < it2_seq.len() && (#[trigger] it2_seq[j]).kv() == p;
                assert(eedge(&n, it2_seq[j], q));
            }
        } else {
            assert(exists|q: usize| tp.contains(q)) by { if !(exists|q: usize| tp.contains(q)) { assert(tp =~= Set::<usize>::empty()); } }
            let q = choose|q: usize| tp.contains(q);
            assert(cs.insert(q).subset_of(self.current_states@));
            vstd::set_lib::lemma_len_subset(cs.insert(q), self.current_states@);
        }
        lemma_from_base_grow(&n, base, cs, self.current_states@);
        lemma_idx_bound(self.current_states@, n.n());
    }
@raw
pub proof fn lemma_base_refl(n: &Nfa, b: Set<usize>)
    ensures from_base(n, b, b),
{
    reveal(from_base);
    assert forall|q: usize| #[trigger] b.contains(q) implies exists|p: usize| b.contains(p) && #[trigger] ereach(n, p, q) by { lemma_nreach_refl(n, q); }
}
pub proof fn lemma_from_base_grow(n: &Nfa, b: Set<usize>, s: Set<usize>, t: Set<usize>)
    requires from_base(n, b, s), forall|q: usize| #[trigger] t.contains(q) ==> s.contains(q) || exists|p: usize| s.contains(p) && #[trigger] eedge(n, p, q),
    ensures from_base(n, b, t),
{
    reveal(from_base);
    assert forall|q: usize| #[trigger] t.contains(q) implies exists|p: usize| b.contains(p) && #[trigger] ereach(n, p, q) by {
        if !s.contains(q) {
            let r = choose|r: usize| s.contains(r) && #[trigger] eedge(n, r, q);
            let p = choose|p: usize| b.contains(p) && #[trigger] ereach(n, p, r);
            lemma_nreach_eedge(n, p, eword(), r, q);
            assert(b.contains(p) && ereach(n, p, q));
        }
    }
}

@fn dandy/src/nfa/eval.rs From<&Nfa> for NfaEvaluator::from
@sig
    requires value.core(),
    ensures r.nfa == value, r.at(eword()),
@acc 1 HMap<&Str, usize>
@loop 1 inv
    it1_seq == value.alphabet@,
    forall|c: Seq<char>| #[trigger] acc1@.contains_key(c) <==> exists|i: int| 0 <= i < it1.pos() && (#[trigger] value.alphabet@[i])@ == c,
    forall|c: Seq<char>| #[trigger] acc1@.contains_key(c) ==> acc1@[c] < it1.pos() && value.alphabet@[acc1@[c] as int]@ == c,
@end
    proof { lemma_closure_start(value, ret_.current_states@); }

@fn dandy/src/nfa/eval.rs NfaEvaluator::current_states
@sig
    requires self.ok(),
    ensures forall|i: int| 0 <= i < r@.len() ==> is_state_of(self.nfa, self.current_states@, *(#[trigger] r@[i])),
        forall|q: usize| #[trigger] self.current_states@.contains(q) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == self.nfa.states@[q as int],
@loop 1 inv
    enumerates(it1_seq, self.current_states@), set_in(self.nfa, self.current_states@), acc1@.len() == it1.pos(),
    forall|i: int| 0 <= i < acc1@.len() ==> *(#[trigger] acc1@[i]) == self.nfa.states@[it1_seq[i] as int],
@loop 1 beg
    proof { assert(self.current_states@.contains(*x1)); }
@loop 1 post
    proof {
        assert forall|i: int| 0 <= i < acc1@.len() implies is_state_of(self.nfa, self.current_states@, *(#[trigger] acc1@[i])) by {
            assert(self.current_states@.contains(it1_seq[i].kv()));
        }
        assert forall|q: usize| #[trigger] self.current_states@.contains(q) implies exists|i: int| 0 <= i < acc1@.len() && *(#[trigger] acc1@[i]) == self.nfa.states@[q as int] by {
            let j = choose|j: int| 0 <= j < it1_seq.len() && (#[trigger] it1_seq[j]).kv() == q;
            assert(*acc1@[j] == self.nfa.states@[q as int]);
        }
    }

@fn dandy/src/nfa/eval.rs NfaEvaluator::current_states_idx
@sig
    ensures r == &self.current_states,

@fn dandy/src/nfa/eval.rs NfaEvaluator::is_accepting
@sig
    requires self.ok(),
    ensures r == (!self.unknown_elem_seen && exists|q: usize| #[trigger] self.current_states@.contains(q) && self.nfa.acc(q)),
        forall|w: Word| #[trigger] self.at(w) ==> r == naccepts(self.nfa, w),
@loop 1 inv
    !self.unknown_elem_seen, self.ok(),
    r1 ==> exists|q: usize| #[trigger] self.current_states@.contains(q) && self.nfa.acc(q),
    !r1 ==> forall|i: int| 0 <= i < it1.pos() ==> !(#[trigger] it1_seq[i]).accepting,
@loop 1 post
    proof {
        if !r1 {
            assert forall|q: usize| #[trigger] self.current_states@.contains(q) implies !self.nfa.acc(q) by {
                let i = choose|i: int| 0 <= i < src1@.len() && *(#[trigger] src1@[i]) == self.nfa.states@[q as int];
                assert(!it1_seq[i].accepting);
            }
        }
    }
@end
    proof {
        assert forall|w: Word| #[trigger] self.at(w) implies ret_ == naccepts(self.nfa, w) by {
            let n = self.nfa;
            if over(n.alphabet@, w) {
                if ret_ && exists|q: usize| #[trigger] self.current_states@.contains(q) && n.acc(q) {
                    let q = choose|q: usize| #[trigger] self.current_states@.contains(q) && n.acc(q);
                    assert(nreach(n, n.initial_state, w, q));
                }
                if naccepts(n, w) {
                    let q = choose|q: usize| #[trigger] nreach(n, n.initial_state, w, q) && n.acc(q);
                    assert(self.current_states@.contains(q));
                }
            } else if naccepts(n, w) {
                let q = choose|q: usize| #[trigger] nreach(n, n.initial_state, w, q) && n.acc(q);
                lemma_nreach_in(n, n.initial_state, w, q);
            }
        }
    }

@fn dandy/src/nfa/eval.rs NfaEvaluator::step
@sig
    requires old(self).ok(),
    ensures final(self).ok(), final(self).nfa == old(self).nfa, final(self).rev_map == old(self).rev_map,
        has_sym(old(self).nfa.alphabet@, elem@) ==> r is Some && final(self).unknown_elem_seen == old(self).unknown_elem_seen
            && steps_to(old(self).nfa, old(self).current_states@, elem@, final(self).current_states@),
        !has_sym(old(self).nfa.alphabet@, elem@) ==> r is None && final(self).unknown_elem_seen,
        forall|w: Word| old(self).at(w) ==> #[trigger] final(self).at(w.push(elem@)),
@start
    let ghost cs = self.current_states@;
    let ghost n = *self.nfa;
    proof {
        if self.rev_map@.contains_key(elem@) { lemma_rev_idx(self.rev_map@, self.nfa.alphabet@, elem@); }
    }
@acc 1 HSet<usize>
@loop 1 inv
    n == *self.nfa, cs == self.current_states@, enumerates(it1_seq, cs), set_in(&n, cs), n.core(), idx == sym_idx(n.alphabet@, elem@), idx < n.alphabet@.len(), has_sym(n.alphabet@, elem@),
    forall|q: usize| #[trigger] acc1@.contains(q) ==> q < n.n() && exists|p: usize| cs.contains(p) && #[trigger] sedge(&n, p, elem@, q),
    forall|j: int, q: usize| 0 <= j < it1.pos() && #[trigger] sedge(&n, it1_seq[j], elem@, q) ==> acc1@.contains(q),
@loop 1 beg
    let ghost cur = *x1;
    proof { assert(cs.contains(cur)); assert(nstate_ok(n.states@[cur as int], n.alphabet@.len(), n.n())); }
@loop 2 inv
    n == *self.nfa, it2_seq == n.tr(cur, idx as int), all_lt(it2_seq, n.n()),
    forall|q: usize| #[trigger] acc1@.contains(q) ==> q < n.n() && exists|p: usize| cs.contains(p) && #[trigger] sedge(&n, p, elem@, q),
    forall|j: int, q: usize| 0 <= j < it1.pos() - 1 && #[trigger] sedge(&n, it1_seq[j], elem@, q) ==> acc1@.contains(q),
    forall|j: int| 0 <= j < it2.pos() ==> acc1@.contains(#[trigger] it2_seq[j]),
@loop 2 beg
    let ghost a0 = acc1@;
@loop 2 end
    proof {
        assert forall|q: usize| #[trigger] acc1@.contains(q) implies q < n.n() && exists|p: usize| cs.contains(p) && #[trigger] sedge(&n, p, elem@, q) by {
            if !a0.contains(q) { assert(it2_seq.contains(it2_seq[it2.pos() - 1])); assert(cs.contains(cur) && sedge(&n, cur, elem@, q)); }
        }
    }
@loop 1 post
    proof {
        assert(moves_to(&n, cs, elem@, acc1@)) by {
            assert forall|q: usize| #[trigger] acc1@.contains(q) <==> exists|p: usize| cs.contains(p) && #[trigger] sedge(&n, p, elem@, q) by {
                if exists|p: usize| cs.contains(p) && #[trigger] sedge(&n, p, elem@, q) {
                    let p = choose|p: usize| cs.contains(p) && #[trigger] sedge(&n, p, elem@, q);
                    let j = choose|j: int| 0 <= j < it1_seq.len() && (#[trigger] it1_seq[j]).kv() == p;
                    assert(sedge(&n, it1_seq[j], elem@, q));
                }
            }
        }
    }
@end
    proof {
        assert forall|w: Word| old(self).at(w) implies #[trigger] final(self).at(w.push(elem@)) by {
            lemma_over_push(n.alphabet@, w, elem@);
            if over(n.alphabet@, w) && has_sym(n.alphabet@, elem@) { lemma_steps(&n, w, cs, elem@, self.current_states@); }
        }
    }

@fn dandy/src/nfa/eval.rs NfaEvaluator::step_multiple
@sig
    requires old(self).ok(),
    ensures final(self).ok(), final(self).nfa == old(self).nfa, r is Some == over(old(self).nfa.alphabet@, skeys(elems@)),
        forall|w: Word| old(self).at(w) ==> #[trigger] final(self).at(w + skeys(elems@)),
@acc 1 Option<()>
@loop 1 pre
    proof { assert(skeys(elems@.take(0)) =~= Seq::empty()); assert forall|w: Word| old(self).at(w) implies #[trigger] self.at(w + skeys(elems@.take(0))) by { assert(w + skeys(elems@.take(0)) =~= w); } }
@loop 1 inv
    it1_seq == elems@, self.ok(), self.nfa == old(self).nfa,
    t1 is Some == over(self.nfa.alphabet@, skeys(elems@.take(it1.pos()))), t1 is None ==> self.unknown_elem_seen,
    forall|w: Word| old(self).at(w) ==> #[trigger] self.at(w + skeys(elems@.take(it1.pos()))),
@loop 1 beg
    let ghost s0 = *self;
@loop 1 end
    proof {
        let w0 = skeys(elems@.take(it1.pos() - 1));
        let w1 = skeys(elems@.take(it1.pos()));
        assert(w1 =~= w0.push(x1@));
        lemma_over_push(self.nfa.alphabet@, w0, x1@);
        assert forall|w: Word| old(self).at(w) implies #[trigger] self.at(w + w1) by {
            assert(s0.at(w + w0));
            assert((w + w0).push(x1@) =~= w + w1);
        }
    }
@loop 1 post
    proof {
        let w0 = skeys(elems@.take(it1.pos()));
        let ww = skeys(elems@);
        assert(ww.take(it1.pos()) =~= w0);
        if t1 is None {
            lemma_over_take(self.nfa.alphabet@, ww, it1.pos());
            assert forall|w: Word| old(self).at(w) implies #[trigger] self.at(w + ww) by {
                assert(self.at(w + w0));
                lemma_over_take(self.nfa.alphabet@, w + ww, w.len() + it1.pos());
                assert((w + ww).take(w.len() + it1.pos()) =~= w + w0);
            }
        } else { assert(elems@.take(it1.pos()) =~= elems@); }
    }
@raw
pub proof fn lemma_over_take(a: Seq<Str>, w: Word, n: int)
    requires 0 <= n <= w.len(),
    ensures !over(a, w.take(n)) ==> !over(a, w),
{
    if over(a, w) { assert forall|i: int| 0 <= i < n implies has_sym(a, #[trigger] w.take(n)[i]) by { assert(has_sym(a, w[i])); } }
}

@fn dandy/src/nfa/eval.rs NfaEvaluator::step_all
@sig
    requires self.ok(),
    ensures r@.len() == self.nfa.alphabet@.len(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).ok() && r@[i].nfa == self.nfa && r@[i].unknown_elem_seen == self.unknown_elem_seen
            && steps_to(self.nfa, self.current_states@, self.nfa.alphabet@[i]@, r@[i].current_states@),
        forall|i: int, w: Word| 0 <= i < r@.len() && self.at(w) ==> #[trigger] r@[i].at(w.push(self.nfa.alphabet@[i]@)),
@acc 1 Vec<NfaEvaluator<'a>>
@loop 1 inv
    it1_seq == self.nfa.alphabet@, acc1@.len() == it1.pos(),
    forall|i: int| 0 <= i < acc1@.len() ==> (#[trigger] acc1@[i]).ok() && acc1@[i].nfa == self.nfa && acc1@[i].unknown_elem_seen == self.unknown_elem_seen
            && steps_to(self.nfa, self.current_states@, self.nfa.alphabet@[i]@, acc1@[i].current_states@),
    forall|i: int, w: Word| 0 <= i < acc1@.len() && self.at(w) ==> #[trigger] acc1@[i].at(w.push(self.nfa.alphabet@[i]@)),
@loop 1 beg
    proof { lemma_sym_idx(self.nfa.alphabet@, it1.pos() - 1); }

@fn dandy/src/nfa/mod.rs Nfa::evaluator
@sig
    requires self.core(),
    ensures r.nfa == self, r.at(eword()),

@fn dandy/src/nfa/mod.rs Nfa::accepts
@sig
    requires self.core(),
    ensures r == naccepts(self, skeys(string@)),
@end
    proof { assert(eword() + skeys(string@) =~= skeys(string@)); assert(eval.at(eword() + skeys(string@))); }

@fn dandy/src/nfa/mod.rs Nfa::accepts_graphemes
@sig
    requires self.core(),
    ensures r == naccepts(self, graphemes(string@)),
@start
    let ghost gs = graphemes(string@);
@acc 1 Vec<&Str>
@loop 1 inv
    acc1@ == it1_seq.take(it1.pos()), skeys(it1_seq) == graphemes(string@),
@loop 1 end
    proof { assert(acc1@ =~= it1_seq.take(it1.pos())); }
@loop 1 post
    proof { assert(it1_seq.take(it1.pos()) =~= it1_seq); }
@end
    proof { assert(eword() + gs =~= gs); assert(eval.at(eword() + gs)); }

@fn dandy/src/nfa/mod.rs Nfa::graphemes_only
@sig
    ensures r == forall|i: int| 0 <= i < self.alphabet@.len() ==> graphemes((#[trigger] self.alphabet@[i])@).len() == 1,
@loop 1 inv
    it1_seq == self.alphabet@,
    r1 ==> forall|i: int| 0 <= i < it1.pos() ==> graphemes((#[trigger] self.alphabet@[i])@).len() == 1,
    !r1 ==> exists|i: int| 0 <= i < it1.pos() && graphemes((#[trigger] self.alphabet@[i])@).len() != 1,
@loop 2 inv
    skeys(it2_seq) == graphemes(self.alphabet@[it1.pos() - 1]@), r2 == it2.pos(), it2_seq.len() <= isize::MAX,
