@raw
// ------------------------------------------------------------------ every automaton of a history is well formed
// what the operations are known to do with an automaton, from their contracts: `made(s, i)` says that the automaton
// at i of a history was given by one of them from earlier ones
pub enum Aut { D(Dfa), N(Nfa) }
pub open spec fn aut_wf(a: Aut) -> bool { match a { Aut::D(d) => d.wf(), Aut::N(n) => n.wf() } }
pub open spec fn made_one(a: Aut, b: Aut) -> bool {
    match (a, b) {
        (Aut::D(a), Aut::D(b)) => inverted(&a, &b) || dtrimmed(&a, &b) || dmerged(&a, &b) || dminimized(&a, &b),
        (Aut::N(a), Aut::N(b)) => ntrimmed(&a, &b) || eps_removed(&a, &b),
        (Aut::D(a), Aut::N(b)) => dconv(&a, &b),
        _ => false,
    }
}
// the parsers, the conversion of an expression, determinization, union, intersection, difference and the product
// constructions: their contracts give a well-formed automaton outright (`r.wf()` in every one of them)
pub open spec fn made_new(b: Aut) -> bool { aut_wf(b) }
pub open spec fn made(s: Seq<Aut>, i: int) -> bool { made_new(s[i]) || exists|j: int| 0 <= j < i && made_one(#[trigger] s[j], s[i]) }
pub proof fn lemma_inverted_wf(a: &Dfa, b: &Dfa)
    requires inverted(a, b), a.wf(),
    ensures b.wf(),
{
    assert forall|q: int| 0 <= q < b.states@.len() implies (#[trigger] b.states@[q]).transitions@.len() == b.alphabet@.len() && b.states@[q].initial == (q == b.initial_state) by { assert(b.states@[q].name == a.states@[q].name); }
    assert forall|q: int, i: int| 0 <= q < b.states@.len() && 0 <= i < b.alphabet@.len() implies #[trigger] b.states@[q].transitions@[i] < b.states@.len() by { assert(b.states@[q].name == a.states@[q].name); assert(a.states@[q].transitions@[i] < a.states@.len()); }
    assert forall|p: int, q: int| 0 <= p < b.states@.len() && 0 <= q < b.states@.len() && p != q implies (#[trigger] b.states@[p]).name@ != (#[trigger] b.states@[q]).name@ by { assert(b.states@[q].name == a.states@[q].name && b.states@[p].name == a.states@[p].name); }
}
pub proof fn theorem_wf_history(s: Seq<Aut>, i: int)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] made(s, i), 0 <= i < s.len(),
    ensures aut_wf(s[i]),
    decreases i,
{
    assert(made(s, i));
    if !made_new(s[i]) {
        let j = choose|j: int| 0 <= j < i && made_one(#[trigger] s[j], s[i]);
        theorem_wf_history(s, j);
        match (s[j], s[i]) {
            (Aut::D(a), Aut::D(b)) => { if inverted(&a, &b) { lemma_inverted_wf(&a, &b); } },
            (Aut::D(a), Aut::N(b)) => { lemma_dconv_core(&a, &b); },
            _ => {},
        }
    }
}
