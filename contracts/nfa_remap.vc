@raw
pub open spec fn remap_tab<F: Fn(usize) -> Option<usize>>(f: F, a: Seq<Vec<usize>>, b: Seq<Vec<usize>>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> remap_row(f, a[i]@, (#[trigger] b[i])@)
}
pub open spec fn remap_nstate<F: Fn(usize) -> Option<usize>>(f: F, a: NfaState, b: NfaState) -> bool {
    b.name == a.name && b.initial == a.initial && b.accepting == a.accepting && remap_tab(f, a.transitions@, b.transitions@) && remap_row(f, a.epsilon_transitions@, b.epsilon_transitions@)
}
pub open spec fn callable_row<F: Fn(usize) -> Option<usize>>(f: F, s: Seq<usize>) -> bool { forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)) }
pub open spec fn callable_n<F: Fn(usize) -> Option<usize>>(f: F, s: NfaState) -> bool {
    callable_row(f, s.epsilon_transitions@) && forall|i: int| 0 <= i < s.transitions@.len() ==> callable_row(f, (#[trigger] s.transitions@[i])@)
}

@fn dandy/src/nfa/mod.rs Nfa::remap_transitions
@sig
    requires forall|q: int| 0 <= q < old(self).states@.len() ==> callable_n(mapper, #[trigger] old(self).states@[q]),
    ensures final(self).alphabet == old(self).alphabet, final(self).initial_state == old(self).initial_state,
        final(self).states@.len() == old(self).states@.len(),
        forall|q: int| 0 <= q < old(self).states@.len() ==> remap_nstate(mapper, old(self).states@[q], #[trigger] final(self).states@[q]),
@loop 1 inv
    self.alphabet == old(self).alphabet, self.initial_state == old(self).initial_state, self.states@.len() == old(self).states@.len(),
    forall|q: int| 0 <= q < old(self).states@.len() ==> callable_n(mapper, #[trigger] old(self).states@[q]),
    forall|q: int| 0 <= q < j1 ==> remap_nstate(mapper, old(self).states@[q], #[trigger] self.states@[q]),
    forall|q: int| j1 <= q < self.states@.len() ==> #[trigger] self.states@[q] == old(self).states@[q],
@loop 1 beg
    let ghost s0 = old(self).states@[j1 as int];
@loop 2 inv
    callable_n(mapper, s0), state.name == s0.name && state.initial == s0.initial && state.accepting == s0.accepting && state.transitions@.len() == s0.transitions@.len() && state.epsilon_transitions == s0.epsilon_transitions,
    forall|i: int| 0 <= i < j2 ==> remap_row(mapper, s0.transitions@[i]@, (#[trigger] state.transitions@[i])@),
    forall|i: int| j2 <= i < s0.transitions@.len() ==> #[trigger] state.transitions@[i] == s0.transitions@[i],
@loop 2 beg
    let ghost t0 = s0.transitions@[j2 as int]@;
@loop 3 inv
    callable_row(mapper, t0), table@.len() == t0.len(),
    forall|i: int| 0 <= i < j3 ==> remap1(mapper, t0[i], #[trigger] table@[i]),
    forall|i: int| j3 <= i < t0.len() ==> #[trigger] table@[i] == t0[i],
@loop 4 pre
    let ghost tr = state.transitions;
    let ghost e0 = s0.epsilon_transitions@;
    assert(callable_n(mapper, s0));
@loop 4 inv
    callable_row(mapper, e0), state.name == s0.name && state.initial == s0.initial && state.accepting == s0.accepting && state.transitions == tr && state.epsilon_transitions@.len() == e0.len(),
    forall|i: int| 0 <= i < j4 ==> remap1(mapper, e0[i], #[trigger] state.epsilon_transitions@[i]),
    forall|i: int| j4 <= i < e0.len() ==> #[trigger] state.epsilon_transitions@[i] == e0[i],
