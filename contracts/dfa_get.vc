@fn dandy/src/dfa/mod.rs Dfa::alphabet
@sig
    ensures r == &self.alphabet,
@fn dandy/src/dfa/mod.rs Dfa::states
@sig
    ensures r == &self.states,
@fn dandy/src/dfa/mod.rs DfaState::transitions
@sig
    ensures r == &self.transitions,
@fn dandy/src/dfa/mod.rs DfaState::name
@sig
    ensures r == &self.name,
@fn dandy/src/dfa/mod.rs DfaState::is_initial
@sig
    ensures r == self.initial,
@fn dandy/src/dfa/mod.rs DfaState::is_accepting
@sig
    ensures r == self.accepting,
@fn dandy/src/dfa/mod.rs Dfa::initial_state
@sig
    requires self.initial_state < self.states@.len(),
    ensures *r == self.states@[self.initial_state as int],
@fn dandy/src/dfa/mod.rs Dfa::initial_state_index
@sig
    ensures r == self.initial_state,
