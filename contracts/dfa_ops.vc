@fn dandy/src/dfa/mod.rs Dfa::invert
@sig
    requires old(self).core(),
    ensures inverted(old(self), final(self)),
        final(self).core(), old(self).wf() ==> final(self).wf(),
        forall|w: Word| #[trigger] over(old(self).alphabet@, w) ==> daccepts(final(self), w) == !daccepts(old(self), w),
@loop 1 inv
    self.alphabet == old(self).alphabet, self.initial_state == old(self).initial_state, self.states@.len() == old(self).states@.len(),
    forall|q: int| 0 <= q < old(self).states@.len() ==> (#[trigger] self.states@[q]).name == old(self).states@[q].name
            && self.states@[q].initial == old(self).states@[q].initial
            && self.states@[q].transitions == old(self).states@[q].transitions
            && self.states@[q].accepting == (if q < j1 { !old(self).states@[q].accepting } else { old(self).states@[q].accepting }),
@end
    proof {
        assert forall|w: Word| #[trigger] over(old(self).alphabet@, w) implies daccepts(final(self), w) == !daccepts(old(self), w) by {
            lemma_same_table_run(old(self), final(self), old(self).initial_state, w);
            lemma_drun_in(old(self), old(self).initial_state, w);
        }
    }
@raw
// automata with the same alphabet and transitions run alike
pub proof fn lemma_same_table_run(a: &Dfa, b: &Dfa, q: usize, w: Word)
    requires a.core(), b.core(), a.alphabet == b.alphabet, a.states@.len() == b.states@.len(), q < a.states@.len(),
        forall|p: int| 0 <= p < a.states@.len() ==> (#[trigger] a.states@[p]).transitions == b.states@[p].transitions,
    ensures drun(a, q, w) == drun(b, q, w),
    decreases w.len(),
{
    if w.len() > 0 {
        lemma_same_table_run(a, b, q, w.drop_last());
        lemma_drun_in(a, q, w.drop_last());
        lemma_drun_in(b, q, w.drop_last());
    }
}
// b is a with the accepting flags flipped and nothing else changed
pub open spec fn inverted(a: &Dfa, b: &Dfa) -> bool {
    &&& b.alphabet == a.alphabet && b.initial_state == a.initial_state && b.states@.len() == a.states@.len()
    &&& forall|q: int| 0 <= q < a.states@.len() ==> (#[trigger] b.states@[q]).name == a.states@[q].name
            && b.states@[q].initial == a.states@[q].initial
            && b.states@[q].transitions == a.states@[q].transitions
            && b.states@[q].accepting == !a.states@[q].accepting
}
// inverting twice gives the automaton back, state for state
pub proof fn lemma_invert_twice(a: &Dfa, b: &Dfa, c: &Dfa)
    requires inverted(a, b), inverted(b, c),
    ensures c.alphabet == a.alphabet, c.initial_state == a.initial_state, c.states@ == a.states@,
{
    assert forall|q: int| 0 <= q < a.states@.len() implies c.states@[q] == a.states@[q] by {
        assert(b.states@[q].accepting == !a.states@[q].accepting);
        assert(c.states@[q].accepting == !b.states@[q].accepting);
    }
    assert(c.states@ =~= a.states@);
}
