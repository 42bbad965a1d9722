@fn dandy/src/nfa/mod.rs Nfa::optimize
@sig
    requires old(self).wf(),
    ensures eps_removed(old(self), final(self)),
@start
    let ghost a0: Nfa = *self;
@call remove_unreachable_states
    let ghost a1: Nfa = *self;
