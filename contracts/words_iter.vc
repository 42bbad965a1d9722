@raw
pub proof fn lemma_next_stepped(n: &Nfa, u: Iw, x: Iw)
    requires next_after(n, u, x),
    ensures stepped(n, Some(u), false, Some(x), false),
{
}
pub proof fn lemma_first_stepped(n: &Nfa, p: Option<Iw>, len0: nat, m: nat, y: Iw, sets: Seq<Set<usize>>)
    requires greedy(n, init1(n), m, y, sets), some_live(n, init1(n), m), len0 <= m,
        forall|v: Iw| #[trigger] iacc(n, v) && above(p, v) ==> v.len() >= len0,
        forall|v: Iw| v.len() >= len0 ==> #[trigger] above(p, v),
        forall|j: nat| len0 <= j < m ==> !#[trigger] live(n, n.initial_state, j),
    ensures stepped(n, p, false, Some(y), false),
{
    lemma_greedy_acc(n, init1(n), m, y, sets);
    lemma_from_init(n, y);
    assert forall|v: Iw| #[trigger] iacc(n, v) && above(p, v) implies !wl(v, y) by {
        if wl(v, y) {
            lemma_racc_live(n, n.initial_state, v);
            lemma_from_init(n, v);
            if v.len() == y.len() { lemma_greedy_min(n, init1(n), m, y, sets, v); }
        }
    }
}
pub proof fn lemma_first_stack(n: &Nfa, m: int, y: Iw, sets: Seq<Set<usize>>, s0: Seq<HSet<usize>>, s1: Seq<HSet<usize>>)
    requires m >= 0, greedy(n, init1(n), m as nat, y, sets), s0.len() == 1, pushed(s0, s1, sets, m),
    ensures stack_ok(n, s1, y),
{
    assert forall|j: int| #[trigger] idx_(j) && 0 <= j < y.len() implies sx(n, init1(n), y.take(j), y.len() as int, s1[j]@) by { assert(s1[s0.len() - 1 + j]@ == sets[j]); }
}
pub proof fn lemma_end_stepped(n: &Nfa, p: Option<Iw>, len0: nat)
    requires n.core(),
        forall|v: Iw| #[trigger] iacc(n, v) && above(p, v) ==> v.len() >= len0,
        forall|j: nat| len0 <= j < len0 + n.n() ==> !#[trigger] live(n, n.initial_state, j),
    ensures stepped(n, p, false, None, true),
{
    assert forall|v: Iw| #[trigger] iacc(n, v) implies !above(p, v) by {
        if above(p, v) { lemma_racc_live(n, n.initial_state, v); lemma_gap(n, n.initial_state, len0, v.len()); }
    }
}

@fn dandy/src/nfa/words.rs WordComponentIndices::put_next
@hide mats_ok mat_of finals_of no_eps greedy pushed iacc racc live stack_to sx inx next_after some_live above stepped set_in
@sig
    requires winv(&*old(self)),
    ensures winv(&*final(self)), final(self).nfa == old(self).nfa,
        stepped(old(self).nfa, lw(old(self).last_word), old(self).has_failed, lw(final(self).last_word), final(self).has_failed),
@start
    let ghost nf = self.nfa;
    let ghost p0 = lw(self.last_word);
    let ghost h0 = self.has_failed;
    let ghost mut len0: nat = 0;
    let ghost mut lenm: nat = 0;
    let ghost mut st1 = Seq::<HSet<usize>>::empty();
    proof { axiom_vec_len(&nf.states); if self.last_word is Some { axiom_vec_len(&self.last_word->0); } }
@loop 1 pre
    proof {
        len0 = len as nat;
        assert forall|v: Iw| #[trigger] iacc(nf, v) && above(p0, v) implies v.len() >= len0 by { reveal(above); }
        assert forall|v: Iw| v.len() >= len0 implies #[trigger] above(p0, v) by { reveal(above); }
    }
@loop 1 inv
    self.nfa == nf, lw(self.last_word) == p0, !self.has_failed, !h0, wbase(&*self), num_cec <= nf.n(), len == len0 + num_cec, len0 <= isize::MAX + 1,
    forall|v: Iw| #[trigger] iacc(nf, v) && above(p0, v) ==> v.len() >= len0,
    forall|v: Iw| v.len() >= len0 ==> #[trigger] above(p0, v),
    forall|j: nat| len0 <= j < len0 + num_cec ==> !#[trigger] live(nf, nf.initial_state, j),
    decreases nf.n() - num_cec,
@call push
    proof {
        st1 = self.state_stack@;
        lenm = len as nat;
        assert(st1[0]@ =~= init1(nf));
        lemma_init_in(nf);
    }
@loop 1 end
    proof { assert(!live(nf, nf.initial_state, lenm)) by { reveal(some_live); assert(init1(nf).contains(nf.initial_state)); } }
@loop 1 post
    proof { lemma_end_stepped(nf, p0, len0); }
@return
    proof {
        if !h0 {
            if p0 is Some && next_after(nf, p0->0, lw(self.last_word)->0) && self.last_word is Some && stack_ok(nf, self.state_stack@, lw(self.last_word)->0) {
                lemma_next_stepped(nf, p0->0, lw(self.last_word)->0);
                reveal(next_after);
            } else {
                let y = lw(self.last_word)->0;
                let sets = choose|sets: Seq<Set<usize>>| #[trigger] greedy(nf, init1(nf), lenm, y, sets) && pushed(st1, self.state_stack@, sets, lenm as int);
                lemma_first_stepped(nf, p0, len0, lenm, y, sets);
                lemma_first_stack(nf, lenm as int, y, sets, st1, self.state_stack@);
                reveal(stepped);
            }
        } else { reveal(stepped); }
    }

// the initial state of the iterator; what each call returns
@raw
pub open spec fn started(w: &WordComponentIndices, n: &Nfa) -> bool { winv(w) && w.nfa == n && w.last_word is None && !w.has_failed }
pub open spec fn advanced(a: &WordComponentIndices, b: &WordComponentIndices) -> bool { winv(b) && b.nfa == a.nfa && stepped(a.nfa, lw(a.last_word), a.has_failed, lw(b.last_word), b.has_failed) }
// the text of a word
pub open spec fn flat(w: Word) -> Seq<char> decreases w.len() { if w.len() == 0 { Seq::<char>::empty() } else { flat(w.drop_last()) + w.last() } }

@fn dandy/src/nfa/words.rs Iterator for WordComponentIndices::next
@as next_idx_
@sig
    requires winv(&*old(self)),
    ensures advanced(&*old(self), &*final(self)), lw(r) == lw(final(self).last_word),

@type dandy/src/nfa/words.rs WordComponents
@fn dandy/src/nfa/words.rs Iterator for WordComponents::next
@sig
    requires winv(&old(self).inner),
    ensures advanced(&old(self).inner, &final(self).inner),
        match lw(final(self).inner.last_word) { None => r is None, Some(w) => r is Some && (r->0)@.map_values(|s: Str| s@) == syms_of(old(self).inner.nfa, w) },
@acc 1 Vec<Str>
@loop 1 pre
    let ghost nf = self.inner.nfa;
    let ghost w1 = it1_seq;
    proof { lemma_racc_live(nf, nf.initial_state, w1); }
@loop 1 inv
    iw_ok(nf, w1), it1_seq == w1, acc1@.map_values(|s: Str| s@) == syms_of(nf, w1.take(it1.pos())),
@loop 1 beg
    let ghost a1 = acc1@;
    proof { assert(*x1 == w1[it1.pos() - 1]); }
@loop 1 end
    proof {
        let k = it1.pos();
        assert forall|i: int| 0 <= i < k implies (#[trigger] acc1@[i])@ == nf.alphabet@[w1[i] as int]@ by {
            if i < k - 1 { assert(acc1@[i] == a1[i]); assert(a1.map_values(|s: Str| s@)[i] == syms_of(nf, w1.take(k - 1))[i]); }
        }
        assert(a1.map_values(|s: Str| s@).len() == a1.len());
        assert(acc1@.map_values(|s: Str| s@) =~= syms_of(nf, w1.take(it1.pos()))); }
@loop 1 post
    proof { assert(w1.take(it1.pos()) =~= w1); }

@type dandy/src/nfa/words.rs Words
@fn dandy/src/nfa/words.rs Iterator for Words::next
@sig
    requires winv(&old(self).inner),
    ensures advanced(&old(self).inner, &final(self).inner),
        match lw(final(self).inner.last_word) { None => r is None, Some(w) => r is Some && (r->0)@ == flat(syms_of(old(self).inner.nfa, w)) },
@loop 1 pre
    let ghost nf = self.inner.nfa;
    let ghost w1 = it1_seq;
    proof { lemma_racc_live(nf, nf.initial_state, w1); }
@loop 1 inv
    iw_ok(nf, w1), it1_seq == w1, f1@ == flat(syms_of(nf, w1.take(it1.pos()))),
@loop 1 beg
    let ghost a1 = f1@;
    proof { assert(*x1 == w1[it1.pos() - 1]); }
@loop 1 end
    proof {
        let k = it1.pos();
        assert(syms_of(nf, w1.take(k)).drop_last() =~= syms_of(nf, w1.take(k - 1)));
        assert(syms_of(nf, w1.take(k)).last() == nf.alphabet@[w1[k - 1] as int]@);
    }
@loop 1 post
    proof { assert(w1.take(it1.pos()) =~= w1); }

@fn dandy/src/nfa/words.rs Words::new
@sig
    requires nfa.core(), no_eps(nfa),
    ensures started(&r.inner, nfa),
@fn dandy/src/nfa/words.rs WordComponents::new
@sig
    requires nfa.core(), no_eps(nfa),
    ensures started(&r.inner, nfa),
@fn dandy/src/nfa/mod.rs Nfa::words
@sig
    requires self.core(), no_eps(self),
    ensures started(&r.inner, self),
@fn dandy/src/nfa/mod.rs Nfa::word_components
@sig
    requires self.core(), no_eps(self),
    ensures started(&r.inner, self),
@fn dandy/src/nfa/mod.rs Nfa::word_component_indices
@sig
    requires self.core(), no_eps(self),
    ensures started(&r, self),
