@raw
pub open spec fn nequiv(a: &Nfa, b: &Nfa) -> bool {
    same_syms(a.alphabet@, b.alphabet@) && forall|w: Word| #[trigger] naccepts(a, w) == naccepts(b, w)
}
pub type NKey = (Seq<usize>, Seq<usize>);
pub type NEvs<'a, 'b> = (NfaEvaluator<'a>, NfaEvaluator<'b>);
pub open spec fn nev_ok<'a, 'b>(e: NEvs<'a, 'b>, a: &Nfa, b: &Nfa) -> bool {
    e.0.ok() && e.1.ok() && e.0.nfa == a && e.1.nfa == b && !e.0.unknown_elem_seen && !e.1.unknown_elem_seen
}
pub open spec fn nkey<'a, 'b>(e: NEvs<'a, 'b>) -> NKey { (canon(e.0.current_states@, e.0.nfa.n()), canon(e.1.current_states@, e.1.nfa.n())) }
// w leads to exactly these states
pub open spec fn at_key(a: &Nfa, b: &Nfa, w: Word, k: NKey) -> bool { states_of(a, w, k.0.to_set()) && states_of(b, w, k.1.to_set()) }
pub open spec fn kreach(a: &Nfa, b: &Nfa, k: NKey) -> bool { exists|w: Word| over(a.alphabet@, w) && #[trigger] at_key(a, b, w, k) }
pub open spec fn ksucc(a: &Nfa, b: &Nfa, k: NKey, c: Seq<char>, m: NKey) -> bool { steps_to(a, k.0.to_set(), c, m.0.to_set()) && steps_to(b, k.1.to_set(), c, m.1.to_set()) }
pub open spec fn knext(a: &Nfa, b: &Nfa, x: Set<NKey>, k: NKey, c: Seq<char>) -> bool { exists|m: NKey| x.contains(m) && #[trigger] ksucc(a, b, k, c, m) }
pub open spec fn kdone(a: &Nfa, b: &Nfa, x: Set<NKey>, k: NKey) -> bool {
    &&& kacc(a, k.0) == kacc(b, k.1)
    &&& forall|i: int| 0 <= i < a.alphabet@.len() ==> #[trigger] knext(a, b, x, k, a.alphabet@[i]@)
}
pub proof fn lemma_kdone_grow(a: &Nfa, b: &Nfa, x: Set<NKey>, y: Set<NKey>, k: NKey)
    requires kdone(a, b, x, k), x.subset_of(y),
    ensures kdone(a, b, y, k),
{
    assert forall|i: int| 0 <= i < a.alphabet@.len() implies #[trigger] knext(a, b, y, k, a.alphabet@[i]@) by {
        assert(knext(a, b, x, k, a.alphabet@[i]@));
        let m = choose|m: NKey| x.contains(m) && #[trigger] ksucc(a, b, k, a.alphabet@[i]@, m);
        assert(y.contains(m) && ksucc(a, b, k, a.alphabet@[i]@, m));
    }
}
pub proof fn lemma_nkey_sets<'a, 'b>(e: NEvs<'a, 'b>, a: &Nfa, b: &Nfa)
    requires nev_ok(e, a, b),
    ensures nkey(e).0.to_set() == e.0.current_states@, nkey(e).1.to_set() == e.1.current_states@,
        subs2(a.n(), b.n()).contains(nkey(e)),
{
    lemma_states_len(a);
    lemma_states_len(b);
    lemma_canon_set(e.0.current_states@, a.n());
    lemma_canon_set(e.1.current_states@, b.n());
    lemma_subs2(e.0.current_states@, e.1.current_states@, a.n(), b.n());
}
// all pairs of keys: finitely many
pub open spec fn subs2(n: nat, m: nat) -> Set<NKey> decreases m {
    if m == 0 { subs(n).map(|s: Seq<usize>| (s, Seq::<usize>::empty())) } else {
        subs2(n, (m - 1) as nat).union(subs2(n, (m - 1) as nat).map(|k: NKey| (k.0, k.1.push((m - 1) as usize))))
    }
}
pub proof fn lemma_subs2(s: Set<usize>, t: Set<usize>, n: nat, m: nat)
    ensures subs2(n, m).contains((canon(s, n), canon(t, m))),
    decreases m,
{
    if m == 0 {
        lemma_subs(s, n);
        assert(subs(n).map(|s: Seq<usize>| (s, Seq::<usize>::empty())).contains((canon(s, n), Seq::<usize>::empty())));
    } else {
        lemma_subs2(s, t, n, (m - 1) as nat);
        let y = subs2(n, (m - 1) as nat).map(|k: NKey| (k.0, k.1.push((m - 1) as usize)));
        let k0: NKey = (canon(s, n), canon(t, (m - 1) as nat));
        if t.contains((m - 1) as usize) { assert(y.contains((k0.0, k0.1.push((m - 1) as usize)))); }
    }
}
pub proof fn lemma_nbisim(a: &Nfa, b: &Nfa, x: Set<NKey>, k0: NKey, w: Word) -> (k: NKey)
    requires a.core(), b.core(), same_syms(a.alphabet@, b.alphabet@), over(a.alphabet@, w),
        x.contains(k0), at_key(a, b, eword(), k0), forall|k: NKey| x.contains(k) ==> #[trigger] kdone(a, b, x, k),
    ensures x.contains(k), at_key(a, b, w, k), naccepts(a, w) == naccepts(b, w),
    decreases w.len(),
{
    let k = if w.len() == 0 { assert(w =~= eword()); k0 } else {
        lemma_over_parts(a.alphabet@, w);
        let v = w.drop_last();
        let h = lemma_nbisim(a, b, x, k0, v);
        assert(kdone(a, b, x, h));
        let i = sym_idx(a.alphabet@, w.last());
        assert(0 <= i < a.alphabet@.len() && a.alphabet@[i]@ == w.last());
        assert(knext(a, b, x, h, a.alphabet@[i]@));
        let m = choose|m: NKey| x.contains(m) && #[trigger] ksucc(a, b, h, w.last(), m);
        lemma_steps(a, v, h.0.to_set(), w.last(), m.0.to_set());
        lemma_steps(b, v, h.1.to_set(), w.last(), m.1.to_set());
        assert(v.push(w.last()) =~= w);
        m
    };
    lemma_kacc(a, w, k.0);
    lemma_kacc(b, w, k.1);
    assert(kdone(a, b, x, k));
    k
}
pub proof fn lemma_kreach_step(a: &Nfa, b: &Nfa, k: NKey, c: Seq<char>, m: NKey)
    requires a.core(), b.core(), kreach(a, b, k), ksucc(a, b, k, c, m), has_sym(a.alphabet@, c), has_sym(b.alphabet@, c),
    ensures kreach(a, b, m),
{
    let w = choose|w: Word| over(a.alphabet@, w) && #[trigger] at_key(a, b, w, k);
    lemma_steps(a, w, k.0.to_set(), c, m.0.to_set());
    lemma_steps(b, w, k.1.to_set(), c, m.1.to_set());
    lemma_over_push(a.alphabet@, w, c);
    assert(at_key(a, b, w.push(c), m));
}
pub open spec fn waiting<'a, 'b>(s: Seq<NEvs<'a, 'b>>, k: NKey) -> bool { exists|i: int| 0 <= i < s.len() && nkey(#[trigger] s[i]) == k }

@fn dandy/src/nfa/mod.rs Nfa::equivalent_to
@sig
    requires self.core(), other.core(),
    ensures r == nequiv(self, other),
@loop 1 pre
    let ghost init: NKey = nkey(evaluators_to_explore@[0]);
    let ghost mut stk = evaluators_to_explore@;
    let ghost mut done = Set::<NKey>::empty();
    let ghost u = subs2(self.n(), other.n());
    proof {
        let e = evaluators_to_explore@[0];
        lemma_states_len(self);
        lemma_states_len(other);
        assert(over(self.alphabet@, eword()));
        assert(e.0.at(eword()) && e.1.at(eword()));
        lemma_nkey_sets(e, self, other);
        assert(at_key(self, other, eword(), init));
        assert(explored_states@ =~= Set::<NKey>::empty().insert(init)) by {
            assert(lt_set(e.0.current_states@, self.n()) && lt_set(e.1.current_states@, other.n()));
        }
        vstd::set_lib::lemma_len_subset(explored_states@, u);
    }
@loop 1 inv
    stk == evaluators_to_explore@, self.core(), other.core(), same_syms(self.alphabet@, other.alphabet@), self.n() <= usize::MAX, other.n() <= usize::MAX,
    at_key(self, other, eword(), init), u == subs2(self.n(), other.n()),
    forall|i: int| 0 <= i < evaluators_to_explore@.len() ==> #[trigger] nev_ok(evaluators_to_explore@[i], self, other),
    forall|i: int| 0 <= i < evaluators_to_explore@.len() ==> explored_states@.contains(nkey(#[trigger] evaluators_to_explore@[i])),
    explored_states@.contains(init), explored_states@.subset_of(u), explored_states@.len() <= u.len(),
    forall|k: NKey| #[trigger] explored_states@.contains(k) ==> kreach(self, other, k),
    forall|k: NKey| #[trigger] explored_states@.contains(k) ==> done.contains(k) || waiting(evaluators_to_explore@, k),
    forall|k: NKey| #[trigger] done.contains(k) ==> explored_states@.contains(k),
    forall|k: NKey| done.contains(k) ==> #[trigger] kdone(self, other, explored_states@, k),
    decreases u.len() - explored_states@.len(), evaluators_to_explore@.len(),
@loop 1 beg
    let ghost es: NEvs = (s1, s2);
    let ghost cur: NKey = nkey(es);
    let ghost ex1 = explored_states@;
    let ghost l1 = evaluators_to_explore@.len();
    proof {
        assert(nev_ok(stk.last(), self, other));
        assert(stk.last() == es);
        assert(explored_states@.contains(cur));
        assert(kreach(self, other, cur));
        lemma_nkey_sets(es, self, other);
        let w = choose|w: Word| over(self.alphabet@, w) && #[trigger] at_key(self, other, w, cur);
        lemma_kacc(self, w, cur.0);
        lemma_kacc(other, w, cur.1);
        if kacc(self, cur.0) != kacc(other, cur.1) {
            assert(naccepts(self, w) != naccepts(other, w));
            assert(!nequiv(self, other));
        }
        assert(kacc(self, cur.0) == exists|q: usize| #[trigger] s1.current_states@.contains(q) && self.acc(q));
        assert(kacc(other, cur.1) == exists|q: usize| #[trigger] s2.current_states@.contains(q) && other.acc(q));
        assert forall|k: NKey| #[trigger] explored_states@.contains(k) implies done.contains(k) || k == cur || waiting(evaluators_to_explore@, k) by {
            if !done.contains(k) {
                let i = choose|i: int| 0 <= i < stk.len() && nkey(#[trigger] stk[i]) == k;
                if i < evaluators_to_explore@.len() { assert(evaluators_to_explore@[i] == stk[i]); }
            }
        }
        assert forall|i: int| 0 <= i < evaluators_to_explore@.len() implies #[trigger] nev_ok(evaluators_to_explore@[i], self, other) && explored_states@.contains(nkey(evaluators_to_explore@[i])) by {
            assert(evaluators_to_explore@[i] == stk[i]);
            assert(nev_ok(stk[i], self, other));
        }
    }
@loop 2 inv
    it2_seq == self.alphabet@, es == (s1, s2), nev_ok(es, self, other), cur == nkey(es), explored_states@.contains(cur), explored_states@.contains(init),
    self.core(), other.core(), same_syms(self.alphabet@, other.alphabet@), self.n() <= usize::MAX, other.n() <= usize::MAX, u == subs2(self.n(), other.n()),
    kacc(self, cur.0) == kacc(other, cur.1), kreach(self, other, cur), cur.0.to_set() == s1.current_states@, cur.1.to_set() == s2.current_states@,
    forall|i: int| 0 <= i < evaluators_to_explore@.len() ==> #[trigger] nev_ok(evaluators_to_explore@[i], self, other),
    forall|i: int| 0 <= i < evaluators_to_explore@.len() ==> explored_states@.contains(nkey(#[trigger] evaluators_to_explore@[i])),
    explored_states@.subset_of(u), explored_states@.len() <= u.len(),
    forall|k: NKey| #[trigger] explored_states@.contains(k) ==> kreach(self, other, k),
    forall|k: NKey| #[trigger] explored_states@.contains(k) ==> done.contains(k) || k == cur || waiting(evaluators_to_explore@, k),
    forall|k: NKey| #[trigger] done.contains(k) ==> explored_states@.contains(k),
    forall|k: NKey| done.contains(k) ==> #[trigger] kdone(self, other, explored_states@, k),
    forall|i: int| 0 <= i < it2.pos() ==> #[trigger] knext(self, other, explored_states@, cur, self.alphabet@[i]@),
    explored_states@.len() >= ex1.len(),
    explored_states@.len() == ex1.len() ==> evaluators_to_explore@.len() == l1,
@loop 2 beg
    let ghost ex0 = explored_states@;
    let ghost stk0 = evaluators_to_explore@;
    proof {
        lemma_sym_idx(self.alphabet@, it2.pos() - 1);
        assert(has_sym(self.alphabet@, x2@) <==> has_sym(other.alphabet@, x2@));
    }
@call step#2
    let ghost ds: NEvs = (d1, d2);
    let ghost k2: NKey = nkey(ds);
    proof {
        assert(nev_ok(ds, self, other));
        lemma_nkey_sets(ds, self, other);
        assert(lt_set(d1.current_states@, self.n()) && lt_set(d2.current_states@, other.n()));
        assert(ksucc(self, other, cur, x2@, k2));
        lemma_kreach_step(self, other, cur, x2@, k2);
    }
@loop 2 end
    proof {
        assert(explored_states@ =~= ex0.insert(k2));
        assert forall|m: NKey| done.contains(m) implies #[trigger] kdone(self, other, explored_states@, m) by { assert(kdone(self, other, ex0, m)); lemma_kdone_grow(self, other, ex0, explored_states@, m); }
        assert forall|m: NKey| #[trigger] explored_states@.contains(m) implies done.contains(m) || m == cur || waiting(evaluators_to_explore@, m) by {
            if ex0.contains(m) {
                if !done.contains(m) && m != cur {
                    assert(waiting(stk0, m));
                    let i = choose|i: int| 0 <= i < stk0.len() && nkey(#[trigger] stk0[i]) == m;
                    assert(evaluators_to_explore@[i] == stk0[i]);
                }
            } else {
                assert(nkey(evaluators_to_explore@.last()) == m);
            }
        }
        assert forall|i: int| 0 <= i < it2.pos() implies #[trigger] knext(self, other, explored_states@, cur, self.alphabet@[i]@) by {
            if i < it2.pos() - 1 {
                assert(knext(self, other, ex0, cur, self.alphabet@[i]@));
                let m = choose|m: NKey| ex0.contains(m) && #[trigger] ksucc(self, other, cur, self.alphabet@[i]@, m);
                assert(explored_states@.contains(m));
            } else { assert(explored_states@.contains(k2)); }
        }
        vstd::set_lib::lemma_len_subset(explored_states@, u);
    }
@loop 1 end
    proof {
        assert(kdone(self, other, explored_states@, cur));
        done = done.insert(cur);
        stk = evaluators_to_explore@;
    }
@loop 1 post
    proof {
        assert forall|w: Word| #[trigger] naccepts(self, w) == naccepts(other, w) by {
            if over(self.alphabet@, w) {
                assert forall|k: NKey| explored_states@.contains(k) implies #[trigger] kdone(self, other, explored_states@, k) by { assert(done.contains(k) || waiting(evaluators_to_explore@, k)); }
                let k = lemma_nbisim(self, other, explored_states@, init, w);
            } else {
                lemma_over_same(self.alphabet@, other.alphabet@, w);
                if naccepts(self, w) { lemma_naccepts_over(self, w); }
                if naccepts(other, w) { lemma_naccepts_over(other, w); }
            }
        }
    }
