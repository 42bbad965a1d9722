@fn dandy/src/nfa/mod.rs Nfa::closure
@sig
    requires self.core(),
    ensures match r { None => start >= self.n(), Some(s) => start < self.n() && set_in(self, s@) && (forall|q: usize| #[trigger] s@.contains(q) <==> ereach(self, start, q)) },
@loop 1 pre
    let ghost mut done = Set::<usize>::empty();
    proof { lemma_nreach_refl(self, start); lemma_idx_bound(all@, self.n()); }
@loop 1 inv
    self.core(), start < self.n(), all@.contains(start), set_in(self, all@),
    forall|q: usize| #[trigger] all@.contains(q) ==> ereach(self, start, q),
    forall|q: usize| #[trigger] all@.contains(q) ==> done.contains(q) || new@.contains(q),
    forall|j: int| 0 <= j < new@.len() ==> all@.contains(#[trigger] new@[j]),
    forall|p: usize, q: usize| done.contains(p) && #[trigger] eedge(self, p, q) ==> all@.contains(q),
    all@.len() <= self.n(),
    decreases self.n() - all@.len(), new@.len(),
@loop 1 beg
    let ghost new0 = new@;
    let ghost all0 = all@;
@loop 2 inv
    it2_seq == new0, all0.len() <= all@.len(), all0.len() == all@.len() ==> new@.len() == 0,
    all@.contains(start), set_in(self, all@),
    forall|q: usize| #[trigger] all@.contains(q) ==> ereach(self, start, q),
    forall|q: usize| #[trigger] all@.contains(q) ==> done.contains(q) || new@.contains(q) || new0.contains(q),
    forall|j: int| 0 <= j < new@.len() ==> all@.contains(#[trigger] new@[j]),
    forall|j: int| 0 <= j < new0.len() ==> all@.contains(#[trigger] new0[j]),
    forall|p: usize, q: usize| done.contains(p) && #[trigger] eedge(self, p, q) ==> all@.contains(q),
    forall|j: int, q: usize| 0 <= j < it2.pos() && #[trigger] eedge(self, new0[j], q) ==> all@.contains(q),
    all@.len() <= self.n(),
@loop 2 beg
    proof { assert(nstate_ok(self.states@[x2 as int], self.alphabet@.len(), self.n())); assert(all@.contains(x2)); }
    let ghost cur = x2;
@loop 3 inv
    it3_seq == self.eps(cur), cur < self.n(), all_lt(self.eps(cur), self.n()), ereach(self, start, cur), all0.len() <= all@.len(), all0.len() == all@.len() ==> new@.len() == 0,
    all@.contains(start), set_in(self, all@),
    forall|q: usize| #[trigger] all@.contains(q) ==> ereach(self, start, q),
    forall|q: usize| #[trigger] all@.contains(q) ==> done.contains(q) || new@.contains(q) || new0.contains(q),
    forall|j: int| 0 <= j < new@.len() ==> all@.contains(#[trigger] new@[j]),
    forall|j: int| 0 <= j < new0.len() ==> all@.contains(#[trigger] new0[j]),
    forall|p: usize, q: usize| done.contains(p) && #[trigger] eedge(self, p, q) ==> all@.contains(q),
    forall|j: int, q: usize| 0 <= j < it2.pos() - 1 && #[trigger] eedge(self, new0[j], q) ==> all@.contains(q),
    forall|j: int| 0 <= j < it3.pos() ==> all@.contains(#[trigger] self.eps(cur)[j]),
    all@.len() <= self.n(),
@loop 3 beg
    let ghost newb = new@;
    proof {
        assert(eedge(self, cur, *x3));
        lemma_nreach_eedge(self, start, eword(), cur, *x3);
    }
@loop 3 end
    proof {
        lemma_idx_bound(all@, self.n());
        assert forall|q: usize| #[trigger] all@.contains(q) implies done.contains(q) || new@.contains(q) || new0.contains(q) by {
            if newb.contains(q) { let j = choose|j: int| 0 <= j < newb.len() && newb[j] == q; assert(new@[j] == q); }
            if q == *x3 && new@.len() > newb.len() { assert(new@.last() == q); }
        }
    }
@loop 1 end
    proof {
        let d0 = done;
        done = done.union(new0.to_set());
        assert forall|p: usize, q: usize| done.contains(p) && #[trigger] eedge(self, p, q) implies all@.contains(q) by {
            if !d0.contains(p) {
                let j = choose|j: int| 0 <= j < new0.len() && new0[j] == p;
                assert(eedge(self, new0[j], q));
            }
        }
    }
@loop 1 post
    proof {
        assert forall|q: usize| #[trigger] all@.contains(q) <==> ereach(self, start, q) by {
            if ereach(self, start, q) {
                assert(eclosed(self, all@));
                lemma_eclosed(self, all@, start, q);
            }
        }
    }

