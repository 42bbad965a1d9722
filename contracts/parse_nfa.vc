@type dandy/src/nfa/parse.rs NfaParseError
@raw
pub type Head<'a> = Seq<NfaAlphabetEntry<'a>>;
pub open spec fn hsym(e: NfaAlphabetEntry) -> Option<Seq<char>> { match e { NfaAlphabetEntry::Eps => None, NfaAlphabetEntry::Element(s) => Some(s@) } }
pub open spec fn heps(h: Head) -> Seq<bool> { h.map_values(|e: NfaAlphabetEntry| hsym(e) is None) }
// the symbols of the first k columns
pub open spec fn helems(h: Head, k: int) -> Texts decreases k {
    if k <= 0 { Seq::empty() } else { match hsym(h[k - 1]) { None => helems(h, k - 1), Some(c) => helems(h, k - 1).push(c) } }
}
pub open spec fn hcount(h: Head, k: int) -> int { helems(h, k).len() as int }
pub open spec fn nnames(s: Seq<ParsedNfaState>) -> Texts { s.map_values(|x: ParsedNfaState| x.name@) }
pub open spec fn nflags(s: Seq<ParsedNfaState>) -> Seq<bool> { s.map_values(|x: ParsedNfaState| x.initial) }
// a cell of the table: the states that are named
pub open spec fn ncell_part(names: Texts, a: Seq<&Str>, b: Seq<usize>, k: int) -> bool { b.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] b[i]) < names.len() && names[b[i] as int] == a[i]@ }
pub open spec fn ncell(names: Texts, a: Seq<&Str>, b: Seq<usize>) -> bool { ncell_part(names, a, b, a.len() as int) }
// the first k cells: the moves on the j-th symbol are in the column of the j-th symbol, the others in the column of ε
pub open spec fn nrow_syms(h: Head, names: Texts, a: Seq<Vec<&Str>>, b: Seq<Vec<usize>>, k: int) -> bool {
    &&& b.len() == hcount(h, k)
    &&& forall|j: int| 0 <= j < k && hsym(#[trigger] h[j]) is Some ==> 0 <= hcount(h, j) < b.len() && ncell(names, a[j]@, b[hcount(h, j)]@)
}
pub open spec fn nrow_eps(h: Head, names: Texts, a: Seq<Vec<&Str>>, e: Seq<usize>, k: int) -> bool {
    &&& forall|j: int| 0 <= j < k && hsym(#[trigger] h[j]) is None ==> ncell(names, a[j]@, e)
    &&& (forall|j: int| 0 <= j < k ==> hsym(#[trigger] h[j]) is Some) ==> e.len() == 0
}
pub open spec fn nrow(h: Head, names: Texts, a: ParsedNfaState, b: NfaState) -> bool {
    &&& b.name@ == a.name@ && b.initial == a.initial && b.accepting == a.accepting
    &&& nrow_syms(h, names, a.transitions@, b.transitions@, h.len() as int)
    &&& nrow_eps(h, names, a.transitions@, b.epsilon_transitions@, h.len() as int)
}
pub open spec fn pnfa_is(v: &ParsedNfa, n: &Nfa) -> bool {
    &&& n.alphabet@.map_values(|s: Str| s@) == helems(v.head@, v.head@.len() as int)
    &&& n.states@.len() == v.states@.len()
    &&& forall|q: int| 0 <= q < v.states@.len() ==> nrow(v.head@, nnames(v.states@), v.states@[q], #[trigger] n.states@[q])
    &&& flag_at(nflags(v.states@), v.states@.len() as int, Some(n.initial_state))
}
pub open spec fn ncell_known(names: Texts, a: Seq<&Str>) -> bool { forall|i: int| 0 <= i < a.len() ==> names.contains((#[trigger] a[i])@) }
// a table that can be an automaton
pub open spec fn pnfa_valid(v: &ParsedNfa) -> bool {
    &&& helems(v.head@, v.head@.len() as int).no_duplicates() && !two_flags(heps(v.head@)) && nnames(v.states@).no_duplicates()
    &&& exists|q: int| 0 <= q < v.states@.len() && (#[trigger] v.states@[q]).initial
    &&& !two_flags(nflags(v.states@))
    &&& forall|q: int| 0 <= q < v.states@.len() ==> (#[trigger] v.states@[q]).transitions@.len() == v.head@.len()
    &&& forall|q: int, i: int| 0 <= q < v.states@.len() && 0 <= i < v.states@[q].transitions@.len() ==> ncell_known(nnames(v.states@), (#[trigger] v.states@[q].transitions@[i])@)
}
pub open spec fn ncell_names(a: Seq<&Str>, t: Seq<char>) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == t }
// the defect that the error names
pub open spec fn pnfa_defect(v: &ParsedNfa, e: NfaParseError) -> bool {
    match e {
        NfaParseError::WrongNumberOfTransitions(n, a, b) => a != b && b == v.head@.len() && exists|q: int| 0 <= q < v.states@.len() && (#[trigger] v.states@[q]).name@ == n@ && v.states@[q].transitions@.len() == a,
        NfaParseError::TransitionDoesNotExist(n, t) => !nnames(v.states@).contains(t@) && exists|q: int, i: int| 0 <= q < v.states@.len() && 0 <= i < v.states@[q].transitions@.len() && ncell_names((#[trigger] v.states@[q].transitions@[i])@, t@) && v.states@[q].name@ == n@,
        NfaParseError::MissingInitialState => forall|q: int| 0 <= q < v.states@.len() ==> !(#[trigger] v.states@[q]).initial,
        NfaParseError::MultipleInitialStates => two_flags(nflags(v.states@)),
        NfaParseError::DuplicateAlphabetSymbol(c) => twice(helems(v.head@, v.head@.len() as int), c@) || (c@ == "ε"@ && two_flags(heps(v.head@))),
        NfaParseError::DuplicateStateDefinition(n) => twice(nnames(v.states@), n@),
    }
}
pub proof fn theorem_pnfa_defect(v: &ParsedNfa, e: NfaParseError)
    requires pnfa_defect(v, e),
    ensures !pnfa_valid(v),
{
    match e {
        NfaParseError::TransitionDoesNotExist(n, t) => {
            let (q, i) = choose|q: int, i: int| 0 <= q < v.states@.len() && 0 <= i < v.states@[q].transitions@.len() && ncell_names((#[trigger] v.states@[q].transitions@[i])@, t@) && v.states@[q].name@ == n@;
            let a = v.states@[q].transitions@[i]@;
            let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j])@ == t@;
            assert(a[j]@ == t@);
            if pnfa_valid(v) { assert(ncell_known(nnames(v.states@), a)); }
        },
        _ => {}
    }
}
pub proof fn lemma_helems_step(h: Head, k: int)
    requires 0 < k <= h.len(),
    ensures helems(h, k) == (match hsym(h[k - 1]) { None => helems(h, k - 1), Some(c) => helems(h, k - 1).push(c) }), heps(h)[k - 1] == (hsym(h[k - 1]) is None),
{
}
pub proof fn lemma_helems_prefix(h: Head, j: int, k: int)
    requires 0 <= j <= k <= h.len(),
    ensures hcount(h, j) <= hcount(h, k), helems(h, j) == helems(h, k).take(hcount(h, j)),
    decreases k - j,
{
    if j < k {
        lemma_helems_prefix(h, j, k - 1);
        lemma_helems_step(h, k);
        assert(helems(h, j) =~= helems(h, k).take(hcount(h, j)));
    } else { assert(helems(h, j) =~= helems(h, k).take(hcount(h, j))); }
}
// every symbol has a column
pub proof fn lemma_hcol(h: Head, k: int, i: int) -> (j: int)
    requires 0 <= k <= h.len(), 0 <= i < hcount(h, k),
    ensures 0 <= j < k, hsym(h[j]) == Some(helems(h, k)[i]), hcount(h, j) == i,
    decreases k,
{
    lemma_helems_step(h, k);
    if hsym(h[k - 1]) is Some && i == hcount(h, k - 1) { k - 1 } else { lemma_hcol(h, k - 1, i) }
}
// the symbols seen so far
pub open spec fn hseen(h: Head, k: int, x: Set<Seq<char>>) -> bool { seen_texts(helems(h, k), hcount(h, k), x) }
pub proof fn lemma_hseen_start(h: Head)
    ensures hseen(h, 0, Set::empty()),
{
    lemma_seen_start(helems(h, 0));
}
pub proof fn lemma_hseen_step(h: Head, k: int, x: Set<Seq<char>>)
    requires hseen(h, k - 1, x), 0 < k <= h.len(),
    ensures match hsym(h[k - 1]) { None => hseen(h, k, x), Some(c) => (!x.contains(c) ==> hseen(h, k, x.insert(c))) && (x.contains(c) ==> twice(helems(h, h.len() as int), c)) },
{
    lemma_helems_step(h, k);
    let a = helems(h, k - 1);
    let b = helems(h, k);
    if hsym(h[k - 1]) is Some {
        let c = hsym(h[k - 1]).unwrap();
        assert(a.take(a.len() as int) =~= b.take(b.len() - 1));
        assert(seen_texts(b, b.len() - 1, x));
        lemma_seen_step(b, b.len() as int, x);
        if x.contains(c) {
            let all = helems(h, h.len() as int);
            lemma_helems_prefix(h, k, h.len() as int);
            let (i, j) = choose|i: int, j: int| 0 <= i < j < b.len() && #[trigger] b[i] == c && #[trigger] b[j] == c;
            assert(all[i] == b[i] && all[j] == b[j]);
        }
    }
}
pub proof fn lemma_hseen_all(h: Head, x: Set<Seq<char>>)
    requires hseen(h, h.len() as int, x),
    ensures helems(h, h.len() as int).no_duplicates(),
{
    lemma_seen_all(helems(h, h.len() as int), x);
}
pub proof fn lemma_flags_none(f: Seq<bool>, i: Option<usize>)
    requires flag_at(f, f.len() as int, i),
    ensures !two_flags(f),
{
    if two_flags(f) { let (a, b) = choose|a: int, b: int| 0 <= a < b < f.len() && #[trigger] f[a] && #[trigger] f[b]; assert(f[a] && f[b]); }
}
// one more cell
pub proof fn lemma_nrow_syms_push(h: Head, names: Texts, a: Seq<Vec<&Str>>, b: Seq<Vec<usize>>, k: int, c: Vec<usize>)
    requires nrow_syms(h, names, a, b, k - 1), 0 < k <= h.len(), h.len() == a.len(), hsym(h[k - 1]) is Some, ncell(names, a[k - 1]@, c@),
    ensures nrow_syms(h, names, a, b.push(c), k),
{
    lemma_helems_step(h, k);
    let b2 = b.push(c);
    assert forall|j: int| 0 <= j < k && hsym(#[trigger] h[j]) is Some implies 0 <= hcount(h, j) < b2.len() && ncell(names, a[j]@, b2[hcount(h, j)]@) by { if j < k - 1 { assert(b2[hcount(h, j)] == b[hcount(h, j)]); } }
}
pub open spec fn poeps(e: Option<Vec<usize>>) -> Seq<usize> { match e { None => Seq::empty(), Some(v) => v@ } }
pub proof fn lemma_nrow_ok(h: Head, names: Texts, a: ParsedNfaState, b: NfaState)
    requires nrow(h, names, a, b), a.transitions@.len() == h.len(),
    ensures nstate_ok(b, hcount(h, h.len() as int) as nat, names.len()), forall|i: int| 0 <= i < a.transitions@.len() ==> ncell_known(names, (#[trigger] a.transitions@[i])@),
{
    let n = h.len() as int;
    assert forall|i: int| 0 <= i < hcount(h, n) implies all_lt((#[trigger] b.transitions@[i])@, names.len()) by {
        let j = lemma_hcol(h, n, i);
        assert(ncell(names, a.transitions@[j]@, b.transitions@[i]@));
    }
    if exists|j: int| 0 <= j < n && hsym(#[trigger] h[j]) is None {
        let j = choose|j: int| 0 <= j < n && hsym(#[trigger] h[j]) is None;
        assert(ncell(names, a.transitions@[j]@, b.epsilon_transitions@));
    } else { assert(forall|j: int| 0 <= j < n ==> hsym(#[trigger] h[j]) is Some); }
    assert forall|i: int| 0 <= i < a.transitions@.len() implies ncell_known(names, (#[trigger] a.transitions@[i])@) by {
        let x = a.transitions@[i]@;
        let y = if hsym(h[i]) is Some { b.transitions@[hcount(h, i)]@ } else { b.epsilon_transitions@ };
        assert(ncell(names, x, y));
        assert forall|l: int| 0 <= l < x.len() implies names.contains((#[trigger] x[l])@) by { let t = y[l]; assert(names[t as int] == x[l]@); }
    }
}
pub proof fn lemma_pnfa_ok(v: &ParsedNfa, d: &Nfa)
    requires pnfa_is(v, d), helems(v.head@, v.head@.len() as int).no_duplicates(), !two_flags(heps(v.head@)), nnames(v.states@).no_duplicates(), forall|q: int| 0 <= q < v.states@.len() ==> (#[trigger] v.states@[q]).transitions@.len() == v.head@.len(),
    ensures pnfa_valid(v), d.wf(),
{
    let names = nnames(v.states@);
    let h = v.head@;
    let syms = helems(h, h.len() as int);
    let f = nflags(v.states@);
    assert forall|i: int| 0 <= i < d.alphabet@.len() implies #[trigger] d.alphabet@[i]@ == syms[i] by { assert(d.alphabet@.map_values(|s: Str| s@)[i] == syms[i]); }
    assert(d.alphabet@.len() == d.alphabet@.map_values(|s: Str| s@).len());
    assert forall|q: int| 0 <= q < d.states@.len() implies nstate_ok(#[trigger] d.states@[q], d.alphabet@.len(), d.states@.len()) by { assert(v.states@[q].transitions@.len() == h.len()); lemma_nrow_ok(h, names, v.states@[q], d.states@[q]); }
    assert forall|q: int| 0 <= q < d.states@.len() implies (#[trigger] d.states@[q]).initial == (q == d.initial_state) by { assert(nrow(h, names, v.states@[q], d.states@[q])); assert(f[q] == v.states@[q].initial); }
    assert forall|p: int, q: int| 0 <= p < d.states@.len() && 0 <= q < d.states@.len() && p != q implies (#[trigger] d.states@[p]).name@ != (#[trigger] d.states@[q]).name@ by {
        assert(nrow(h, names, v.states@[p], d.states@[p]));
        assert(nrow(h, names, v.states@[q], d.states@[q]));
        assert(names[p] != names[q]);
    }
    let ini = d.initial_state as int;
    assert(f[ini]);
    assert(v.states@[ini].initial);
    lemma_flags_none(f, Some(d.initial_state));
    assert forall|q: int, i: int| 0 <= q < v.states@.len() && 0 <= i < v.states@[q].transitions@.len() implies ncell_known(names, (#[trigger] v.states@[q].transitions@[i])@) by {
        assert(nrow(h, names, v.states@[q], d.states@[q]));
        assert(v.states@[q].transitions@.len() == h.len());
        lemma_nrow_ok(h, names, v.states@[q], d.states@[q]);
    }
}
@fn dandy/src/nfa/parse.rs TryFrom<ParsedNfa> for Nfa::try_from
@attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
@sig
    ensures match r { Ok(d) => d.wf(), Err(e) => true },
        match r { Ok(d) => pnfa_is(&value, &d) && pnfa_valid(&value), Err(e) => pnfa_defect(&value, e) },
@start
    let ghost v = value;
    let ghost h = value.head@;
    let ghost names = nnames(value.states@);
    let ghost f = nflags(value.states@);
@acc 1 Result<(), &&'a Str>
@loop 1 pre
    proof { lemma_hseen_start(h); }
@loop 1 inv
    it1_seq == v.head@,
    match t1 { Ok(_) => hseen(h, it1.pos(), alphabet@) && flag_at(heps(h), it1.pos(), eps_idx), Err(c) => twice(helems(h, h.len() as int), c@) || (c@ == "ε"@ && two_flags(heps(h))) },
@loop 1 beg
    proof {
        let k = it1.pos();
        lemma_hseen_step(h, k, alphabet@);
        lemma_helems_step(h, k);
        assert(h[k - 1] == x1);
        if x1 is Eps && eps_idx is Some { let p = eps_idx.unwrap() as int; assert(heps(h)[p] && heps(h)[k - 1]); }
    }
@loop 1 post
    proof { if t1 is Ok { lemma_hseen_all(h, alphabet@); lemma_flags_none(heps(h), eps_idx); } }
@acc 2 HMap<&Str, usize>
@loop 2 pre
    proof { lemma_name_map_start(names); }
@loop 2 inv
    it2_seq == v.states@, name_map(names, it2.pos(), acc2@),
@loop 2 beg
    proof { assert(names[it2.pos() - 1] == x2.name@); lemma_name_map_step(names, it2.pos(), acc2@, (it2.pos() - 1) as usize); }
@loop 2 post
    proof { lemma_name_map_len(names, acc2@); }
@acc 3 Option<&Str>
@loop 3 pre
    proof { lemma_seen_start(names); }
@loop 3 inv
    it3_seq == v.states@,
    match r3 { None => seen_texts(names, it3.pos(), seen@), Some(c) => twice(names, c@) },
@loop 3 beg
    proof { assert(names[it3.pos() - 1] == x3.name@); lemma_seen_step(names, it3.pos(), seen@); }
@loop 3 post
    proof { if r3 is None { lemma_seen_all(names, seen@); } }
@loop 4 inv
    it4_seq == v.states@, new_states@.len() == it4.pos(), flag_at(f, it4.pos(), initial_state),
    forall|q: int| 0 <= q < it4.pos() ==> (#[trigger] v.states@[q]).transitions@.len() == v.head@.len(),
    forall|q: int| 0 <= q < it4.pos() ==> nrow(h, names, v.states@[q], #[trigger] new_states@[q]),
@loop 4 beg
    proof { assert(f[it4.pos() - 1] == x4.initial); assert(names[it4.pos() - 1] == x4.name@); }
@loop 5 inv
    it5_seq == v.states@[it4.pos() - 1].transitions@,
    nrow_syms(h, names, it5_seq, new_transitions@, it5.pos()),
    nrow_eps(h, names, it5_seq, poeps(epsilon_transitions), it5.pos()),
@loop 5 beg
    let ghost nt = new_transitions@;
    proof { lemma_helems_step(h, it5.pos()); }
@loop 5 end
    proof {
        assert forall|j: int| 0 <= j < it5.pos() && hsym(#[trigger] h[j]) is None implies ncell(names, it5_seq[j]@, poeps(epsilon_transitions)) by { assert(heps(h)[j]); assert(heps(h)[it5.pos() - 1] == (hsym(h[it5.pos() - 1]) is None)); }
        if hsym(h[it5.pos() - 1]) is Some { assert(forall|j: int| 0 <= j < it5.pos() - 1 ==> h[j] == #[trigger] h[j]); }
        if hsym(h[it5.pos() - 1]) is Some { lemma_nrow_syms_push(h, names, it5_seq, nt, it5.pos(), new_transitions@.last()); } }
@loop 5 post
    proof { if initial && initial_state is Some { let p = initial_state.unwrap() as int; assert(f[p] && f[it4.pos() - 1]); assert(two_flags(f)); } }
@loop 6 inv
    ncell_part(names, it6_seq, tr_idx@, it6.pos()),
@loop 7 inv
    ncell_part(names, it7_seq, tr_idx@, it7.pos()),
@acc 8 Vec<Str>
@loop 8 inv
    it8_seq == h, acc8@.map_values(|s: Str| s@) == helems(h, it8.pos()),
@loop 8 beg
    let ghost a8 = acc8@;
    proof { lemma_helems_step(h, it8.pos()); }
@loop 8 end
    proof { assert(acc8@.map_values(|s: Str| s@) =~= helems(h, it8.pos())); }
@let dfa
    proof { lemma_pnfa_ok(&v, &dfa); }
@end
    proof { assert(forall|q: int| 0 <= q < v.states@.len() ==> f[q] == (#[trigger] v.states@[q]).initial); }
