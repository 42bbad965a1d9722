@fn dandy/src/dfa/mod.rs Dfa::union
@sig
    requires self.core(), other.core(),
    ensures r is None <==> !same_syms(self.alphabet@, other.alphabet@),
        match r { None => true, Some(d) => d.wf() },
        match r { None => true, Some(d) => d.alphabet == self.alphabet
            && forall|w: Word| #[trigger] over(self.alphabet@, w) ==> daccepts(&d, w) == (daccepts(self, w) || daccepts(other, w)) },
@closure 1 $%1: &DfaState, $%2: &DfaState| -> (r: bool)
    auto
@end
    proof {
        if same_syms(self.alphabet@, other.alphabet@) {
            assert forall|w: Word| #[trigger] over(self.alphabet@, w) implies daccepts(&ret_.unwrap(), w) == (daccepts(self, w) || daccepts(other, w)) by {
                lemma_over_same(self.alphabet@, other.alphabet@, w);
                lemma_drun_in(self, self.initial_state, w);
                lemma_drun_in(other, other.initial_state, w);
            }
        }
    }

@fn dandy/src/dfa/mod.rs Dfa::intersection
@sig
    requires self.core(), other.core(),
    ensures r is None <==> !same_syms(self.alphabet@, other.alphabet@),
        match r { None => true, Some(d) => d.wf() },
        match r { None => true, Some(d) => d.alphabet == self.alphabet
            && forall|w: Word| #[trigger] over(self.alphabet@, w) ==> daccepts(&d, w) == (daccepts(self, w) && daccepts(other, w)) },
@closure 1 $%1: &DfaState, $%2: &DfaState| -> (r: bool)
    auto
@end
    proof {
        if same_syms(self.alphabet@, other.alphabet@) {
            assert forall|w: Word| #[trigger] over(self.alphabet@, w) implies daccepts(&ret_.unwrap(), w) == (daccepts(self, w) && daccepts(other, w)) by {
                lemma_over_same(self.alphabet@, other.alphabet@, w);
                lemma_drun_in(self, self.initial_state, w);
                lemma_drun_in(other, other.initial_state, w);
            }
        }
    }

@fn dandy/src/dfa/mod.rs Dfa::difference
@sig
    requires self.core(), other.core(),
    ensures r is None <==> !same_syms(self.alphabet@, other.alphabet@),
        match r { None => true, Some(d) => d.wf() },
        match r { None => true, Some(d) => d.alphabet == self.alphabet
            && forall|w: Word| #[trigger] over(self.alphabet@, w) ==> daccepts(&d, w) == (daccepts(self, w) && !daccepts(other, w)) },
@closure 1 $%1: &DfaState, $%2: &DfaState| -> (r: bool)
    auto
@end
    proof {
        if same_syms(self.alphabet@, other.alphabet@) {
            assert forall|w: Word| #[trigger] over(self.alphabet@, w) implies daccepts(&ret_.unwrap(), w) == (daccepts(self, w) && !daccepts(other, w)) by {
                lemma_over_same(self.alphabet@, other.alphabet@, w);
                lemma_drun_in(self, self.initial_state, w);
                lemma_drun_in(other, other.initial_state, w);
            }
        }
    }

@fn dandy/src/dfa/mod.rs Dfa::symmetric_difference
@sig
    requires self.core(), other.core(),
    ensures r is None <==> !same_syms(self.alphabet@, other.alphabet@),
        match r { None => true, Some(d) => d.wf() },
        match r { None => true, Some(d) => d.alphabet == self.alphabet
            && forall|w: Word| #[trigger] over(self.alphabet@, w) ==> daccepts(&d, w) == (daccepts(self, w) != daccepts(other, w)) },
@closure 1 $%1: &DfaState, $%2: &DfaState| -> (r: bool)
    auto
@end
    proof {
        if same_syms(self.alphabet@, other.alphabet@) {
            assert forall|w: Word| #[trigger] over(self.alphabet@, w) implies daccepts(&ret_.unwrap(), w) == (daccepts(self, w) != daccepts(other, w)) by {
                lemma_over_same(self.alphabet@, other.alphabet@, w);
                lemma_drun_in(self, self.initial_state, w);
                lemma_drun_in(other, other.initial_state, w);
            }
        }
    }

