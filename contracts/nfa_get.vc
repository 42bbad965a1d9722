@fn dandy/src/nfa/mod.rs Nfa::alphabet
@sig
    ensures r == &self.alphabet,
@fn dandy/src/nfa/mod.rs Nfa::states
@sig
    ensures r == &self.states,
@fn dandy/src/nfa/mod.rs NfaState::transitions
@sig
    ensures r == &self.transitions,
@fn dandy/src/nfa/mod.rs NfaState::epsilon_transitions
@sig
    ensures r == &self.epsilon_transitions,
@fn dandy/src/nfa/mod.rs NfaState::name
@sig
    ensures r == &self.name,
@fn dandy/src/nfa/mod.rs NfaState::is_initial
@sig
    ensures r == self.initial,
@fn dandy/src/nfa/mod.rs NfaState::is_accepting
@sig
    ensures r == self.accepting,
@raw
pub open spec fn no_eps(n: &Nfa) -> bool { forall|q: int| 0 <= q < n.states@.len() ==> (#[trigger] n.states@[q]).epsilon_transitions@.len() == 0 }
@fn dandy/src/nfa/mod.rs Nfa::has_epsilon_moves
@sig
    ensures r == !no_eps(self),
@loop 1 inv
    it1_seq == self.states@, !r1 ==> forall|q: int| 0 <= q < it1.pos() ==> (#[trigger] self.states@[q]).epsilon_transitions@.len() == 0, r1 ==> !no_eps(self),

@fn dandy/src/nfa/mod.rs Nfa::initial_state
@sig
    requires self.initial_state < self.states@.len(),
    ensures *r == self.states@[self.initial_state as int],
@fn dandy/src/nfa/mod.rs Nfa::initial_state_index
@sig
    ensures r == self.initial_state,
