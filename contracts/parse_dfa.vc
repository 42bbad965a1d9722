@type dandy/src/dfa/parse.rs DfaParseError
@raw
pub open spec fn pnames(s: Seq<ParsedDfaState>) -> Texts { s.map_values(|x: ParsedDfaState| x.name@) }
pub open spec fn pflags(s: Seq<ParsedDfaState>) -> Seq<bool> { s.map_values(|x: ParsedDfaState| x.initial) }
// what is written, as an automaton
pub open spec fn prow(names: Texts, a: Seq<&Str>, b: Seq<usize>) -> bool { b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]) < names.len() && names[b[i] as int] == a[i]@ }
pub open spec fn prow_part(names: Texts, a: Seq<&Str>, b: Seq<usize>, k: int) -> bool { b.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] b[i]) < names.len() && names[b[i] as int] == a[i]@ }
pub open spec fn pstate(names: Texts, a: ParsedDfaState, b: DfaState) -> bool { b.name@ == a.name@ && b.initial == a.initial && b.accepting == a.accepting && prow(names, a.transitions@, b.transitions@) }
pub open spec fn pdfa_is(v: &ParsedDfa, d: &Dfa) -> bool {
    &&& d.alphabet@.map_values(|s: Str| s@) == skeys(v.head@)
    &&& d.states@.len() == v.states@.len()
    &&& forall|q: int| 0 <= q < v.states@.len() ==> pstate(pnames(v.states@), v.states@[q], #[trigger] d.states@[q])
    &&& flag_at(pflags(v.states@), v.states@.len() as int, Some(d.initial_state))
}
// a table that can be an automaton
pub open spec fn pdfa_valid(v: &ParsedDfa) -> bool {
    &&& skeys(v.head@).no_duplicates() && pnames(v.states@).no_duplicates()
    &&& exists|q: int| 0 <= q < v.states@.len() && (#[trigger] v.states@[q]).initial
    &&& !two_flags(pflags(v.states@))
    &&& forall|q: int| 0 <= q < v.states@.len() ==> (#[trigger] v.states@[q]).transitions@.len() == v.head@.len()
    &&& forall|q: int, i: int| 0 <= q < v.states@.len() && 0 <= i < v.states@[q].transitions@.len() ==> pnames(v.states@).contains((#[trigger] v.states@[q].transitions@[i])@)
}
// the defect that the error names
pub open spec fn pdfa_defect(v: &ParsedDfa, e: DfaParseError) -> bool {
    match e {
        DfaParseError::WrongNumberOfTransitions(n, a, b) => a != b && b == v.head@.len() && exists|q: int| 0 <= q < v.states@.len() && (#[trigger] v.states@[q]).name@ == n@ && v.states@[q].transitions@.len() == a,
        DfaParseError::TransitionDoesNotExist(n, t) => !pnames(v.states@).contains(t@) && exists|q: int, i: int| 0 <= q < v.states@.len() && 0 <= i < v.states@[q].transitions@.len() && (#[trigger] v.states@[q].transitions@[i])@ == t@ && v.states@[q].name@ == n@,
        DfaParseError::MissingInitialState => forall|q: int| 0 <= q < v.states@.len() ==> !(#[trigger] v.states@[q]).initial,
        DfaParseError::MultipleInitialStates => two_flags(pflags(v.states@)),
        DfaParseError::DuplicateAlphabetSymbol(c) => twice(skeys(v.head@), c@),
        DfaParseError::DuplicateStateDefinition(n) => twice(pnames(v.states@), n@),
    }
}
pub proof fn theorem_pdfa_defect(v: &ParsedDfa, e: DfaParseError)
    requires pdfa_defect(v, e),
    ensures !pdfa_valid(v),
{
    match e {
        DfaParseError::TransitionDoesNotExist(n, t) => {
            let (q, i) = choose|q: int, i: int| 0 <= q < v.states@.len() && 0 <= i < v.states@[q].transitions@.len() && (#[trigger] v.states@[q].transitions@[i])@ == t@ && v.states@[q].name@ == n@;
            assert(v.states@[q].transitions@[i]@ == t@);
        },
        _ => {}
    }
}
pub proof fn lemma_pdfa_ok(v: &ParsedDfa, d: &Dfa)
    requires pdfa_is(v, d), skeys(v.head@).no_duplicates(), pnames(v.states@).no_duplicates(), forall|q: int| 0 <= q < v.states@.len() ==> (#[trigger] v.states@[q]).transitions@.len() == v.head@.len(),
    ensures pdfa_valid(v), d.wf(),
{
    let names = pnames(v.states@);
    let syms = skeys(v.head@);
    let f = pflags(v.states@);
    assert forall|i: int| 0 <= i < d.alphabet@.len() implies #[trigger] d.alphabet@[i]@ == syms[i] by { assert(d.alphabet@.map_values(|s: Str| s@)[i] == syms[i]); }
    assert(d.alphabet@.len() == d.alphabet@.map_values(|s: Str| s@).len());
    assert forall|q: int| 0 <= q < d.states@.len() implies (#[trigger] d.states@[q]).transitions@.len() == d.alphabet@.len() by { assert(pstate(names, v.states@[q], d.states@[q])); }
    assert forall|q: int, i: int| 0 <= q < d.states@.len() && 0 <= i < d.alphabet@.len() implies #[trigger] d.states@[q].transitions@[i] < d.states@.len() by {
        assert(pstate(names, v.states@[q], d.states@[q]));
        assert(d.states@[q].transitions@.len() == d.alphabet@.len());
    }
    assert forall|q: int| 0 <= q < d.states@.len() implies (#[trigger] d.states@[q]).initial == (q == d.initial_state) by { assert(pstate(names, v.states@[q], d.states@[q])); assert(f[q] == v.states@[q].initial); }
    assert forall|p: int, q: int| 0 <= p < d.states@.len() && 0 <= q < d.states@.len() && p != q implies (#[trigger] d.states@[p]).name@ != (#[trigger] d.states@[q]).name@ by {
        assert(pstate(names, v.states@[p], d.states@[p]));
        assert(pstate(names, v.states@[q], d.states@[q]));
        assert(names[p] != names[q]);
    }
    let ini = d.initial_state as int;
    assert(f[ini]);
    assert(v.states@[ini].initial);
    assert forall|q: int, i: int| 0 <= q < v.states@.len() && 0 <= i < v.states@[q].transitions@.len() implies names.contains((#[trigger] v.states@[q].transitions@[i])@) by {
        assert(pstate(names, v.states@[q], d.states@[q]));
        let t = d.states@[q].transitions@[i];
        assert(names[t as int] == v.states@[q].transitions@[i]@);
    }
}
@fn dandy/src/dfa/parse.rs TryFrom<ParsedDfa> for Dfa::try_from
@sig
    ensures match r { Ok(d) => d.wf(), Err(e) => true },
        match r { Ok(d) => pdfa_is(&value, &d) && pdfa_valid(&value), Err(e) => pdfa_defect(&value, e) },
@start
    let ghost v = value;
    let ghost names = pnames(value.states@);
    let ghost syms = skeys(value.head@);
    let ghost f = pflags(value.states@);
@acc 1 Result<(), &&'a Str>
@loop 1 pre
    proof { lemma_seen_start(syms); }
@loop 1 inv
    it1_seq == v.head@,
    match t1 { Ok(_) => seen_texts(syms, it1.pos(), alphabet@), Err(c) => twice(syms, c@) },
@loop 1 beg
    proof { lemma_seen_step(syms, it1.pos(), alphabet@); assert(syms[it1.pos() - 1] == x1@); }
@loop 1 post
    proof { if t1 is Ok { lemma_seen_all(syms, alphabet@); } }
@acc 2 HMap<&Str, usize>
@loop 2 pre
    proof { lemma_name_map_start(names); }
@loop 2 inv
    it2_seq == v.states@, name_map(names, it2.pos(), acc2@),
@loop 2 beg
    proof { assert(names[it2.pos() - 1] == x2.name@); lemma_name_map_step(names, it2.pos(), acc2@, (it2.pos() - 1) as usize); }
@loop 2 post
    proof { lemma_name_map_len(names, acc2@); }
@acc 3 Option<&Str>
@loop 3 pre
    proof { lemma_seen_start(names); }
@loop 3 inv
    it3_seq == v.states@,
    match r3 { None => seen_texts(names, it3.pos(), seen@), Some(c) => twice(names, c@) },
@loop 3 beg
    proof { assert(names[it3.pos() - 1] == x3.name@); lemma_seen_step(names, it3.pos(), seen@); }
@loop 3 post
    proof { if r3 is None { lemma_seen_all(names, seen@); } }
@loop 4 inv
    it4_seq == v.states@, new_states@.len() == it4.pos(), flag_at(f, it4.pos(), initial_state),
    forall|q: int| 0 <= q < it4.pos() ==> (#[trigger] v.states@[q]).transitions@.len() == v.head@.len(),
    forall|q: int| 0 <= q < it4.pos() ==> pstate(names, v.states@[q], #[trigger] new_states@[q]),
@loop 4 beg
    proof { assert(f[it4.pos() - 1] == x4.initial); assert(names[it4.pos() - 1] == x4.name@); }
@loop 5 inv
    prow_part(names, it5_seq, new_transitions@, it5.pos()),
@loop 5 post
    proof { if initial && initial_state is Some { let p = initial_state.unwrap() as int; assert(f[p] && f[it4.pos() - 1]); assert(two_flags(f)); } }
@acc 6 Vec<Str>
@loop 6 inv
    acc6@.len() == it6.pos(), forall|i: int| 0 <= i < it6.pos() ==> (#[trigger] acc6@[i])@ == it6_seq[i]@,
@loop 6 post
    proof { assert(acc6@.map_values(|s: Str| s@) =~= syms); }
@let dfa
    proof { lemma_pdfa_ok(&v, &dfa); }
@end
    proof { assert(forall|q: int| 0 <= q < v.states@.len() ==> f[q] == (#[trigger] v.states@[q]).initial); }
