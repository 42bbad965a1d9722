@raw
// ------------------------------------------------------------------ reading a text: the grammar, then validation
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct nom_Error<T> { s: T }
pub open spec fn dstate_view(s: ParsedDfaState) -> S_ParsedDfaState { S_ParsedDfaState { name: s.name@, initial: s.initial, accepting: s.accepting, transitions: tcells(s.transitions@) } }
pub open spec fn dfa_view(v: ParsedDfa) -> S_ParsedDfa { S_ParsedDfa { head: tcells(v.head@), states: v.states@.map_values(|s: ParsedDfaState| dstate_view(s)) } }
pub open spec fn entry_view(e: NfaAlphabetEntry) -> S_NfaAlphabetEntry { match e { NfaAlphabetEntry::Eps => S_NfaAlphabetEntry::Eps, NfaAlphabetEntry::Element(s) => S_NfaAlphabetEntry::Element(s@) } }
pub open spec fn nstate_view(s: ParsedNfaState) -> S_ParsedNfaState { S_ParsedNfaState { name: s.name@, initial: s.initial, accepting: s.accepting, transitions: s.transitions@.map_values(|c: Vec<&Str>| tcells(c@)) } }
pub open spec fn nfa_view(v: ParsedNfa) -> S_ParsedNfa { S_ParsedNfa { head: v.head@.map_values(|e: NfaAlphabetEntry| entry_view(e)), states: v.states@.map_values(|s: ParsedNfaState| nstate_view(s)) } }
// parser::dfa and parser::nfa are the translated grammars g_dfa and g_nfa
#[verifier::external_body]
pub fn parser_dfa<'a>(s: &'a Str) -> (r: Result<ParsedDfa<'a>, nom_Error<&'a Str>>) ensures match r { Ok(p) => g_dfa()(s@) == PR::Got(Seq::<char>::empty(), dfa_view(p)), Err(e) => g_dfa()(s@) is No } { unimplemented!() }
#[verifier::external_body]
pub fn parser_nfa<'a>(s: &'a Str) -> (r: Result<ParsedNfa<'a>, nom_Error<&'a Str>>) ensures match r { Ok(p) => g_nfa()(s@) == PR::Got(Seq::<char>::empty(), nfa_view(p)), Err(e) => g_nfa()(s@) is No } { unimplemented!() }

// ------------------------------------------------------------------ DFAs
pub open spec fn dfa_writable(d: &Dfa) -> bool { d.alphabet@.len() > 0 && wnames(scells(d.alphabet@)) && forall|q: int| 0 <= q < d.states@.len() ==> wname((#[trigger] d.states@[q]).name@) }
pub open spec fn s_dfa_state(d: &Dfa, q: int) -> S_ParsedDfaState { S_ParsedDfaState { name: d.states@[q].name@, initial: d.states@[q].initial, accepting: d.states@[q].accepting, transitions: targets(d, q, d.states@[q].transitions@.len() as int) } }
pub open spec fn s_dfa(d: &Dfa) -> S_ParsedDfa { S_ParsedDfa { head: scells(d.alphabet@), states: Seq::new(d.states@.len(), |q: int| s_dfa_state(d, q)) } }
pub proof fn lemma_dfa_row(d: &Dfa, arrow: Text, q: int, t: Text)
    requires d.wf(), dfa_writable(d), is_arrow(arrow), 0 <= q < d.states@.len(), row_text(t, dfa_row(d, arrow, q)),
    ensures row_ok(g_dfa_line(), t, s_dfa_state(d, q)),
{
    broadcast use axiom_ws;
    let s = d.states@[q];
    let n = s.transitions@.len() as int;
    let c = targets(d, q, n);
    let cs = dfa_row(d, arrow, q);
    let p = choose|p: Seq<nat>| pads_for(cs, p) && t == #[trigger] rtext(cs, p, 0);
    let e = g_state_name();
    assert forall|j: int| 0 <= j < c.len() implies elem_ok(e, #[trigger] c[j], c[j]) by { assert(d.states@[q].transitions@[j] < d.states@.len()); lemma_name_ok(c[j]); }
    assert(elems_ok(e, c, c));
    assert forall|r: Text| line_end(r) implies #[trigger] g_dfa_line()(t + r) == PR::Got(r, s_dfa_state(d, q)) && exists|k: nat| line_start(t + r, k) by {
        lemma_no_name(r);
        lemma_line(e, arrow, s.initial, s.accepting, s.name@, c, p, c, r);
        assert(line_p(e)(t + r) == PR::Got(r, (some_if(s.initial), some_if(s.accepting), s.name@, c)));
    }
}
pub proof fn lemma_dfa_head(d: &Dfa, t: Text)
    requires dfa_writable(d), row_text(t, three() + scells(d.alphabet@)),
    ensures row_ok(g_dfa_head(), t, scells(d.alphabet@)),
{
    broadcast use axiom_ws;
    let c = scells(d.alphabet@);
    let cs = three() + c;
    let p = choose|p: Seq<nat>| pads_for(cs, p) && t == #[trigger] rtext(cs, p, 0);
    let e = g_alphabet_elem();
    assert forall|j: int| 0 <= j < c.len() implies elem_ok(e, #[trigger] c[j], c[j]) by { lemma_name_ok(c[j]); }
    assert(elems_ok(e, c, c));
    assert(wname(c[0]));
    assert(!stop(c[0][0]));
    assert forall|r: Text| line_end(r) implies #[trigger] g_dfa_head()(t + r) == PR::Got(r, c) && exists|k: nat| line_start(t + r, k) by {
        lemma_no_name(r);
        lemma_head(e, c, p, c, r);
    }
}
// the grammar reads in the table of an automaton what the automaton is
pub proof fn theorem_dfa_text(d: &Dfa, arrow: Text, t: Text)
    requires d.wf(), dfa_writable(d), is_arrow(arrow), table_text(t, dfa_rows(d, arrow, d.states@.len() as int)),
    ensures g_dfa()(t) == PR::Got(Seq::<char>::empty(), s_dfa(d)),
{
    let rows = dfa_rows(d, arrow, d.states@.len() as int);
    let l = choose|l: Seq<Text>| all_rows(l, rows) && t == #[trigger] doc(l, 0);
    let b = l.skip(1);
    let v = s_dfa(d).states;
    assert(l =~= seq![l[0]] + b);
    assert(row_text(l[0], rows[0]));
    lemma_dfa_head(d, l[0]);
    assert forall|j: int| 0 <= j < b.len() implies row_ok(g_dfa_line(), #[trigger] b[j], v[j]) by { assert(row_text(l[j + 1], rows[j + 1])); lemma_dfa_row(d, arrow, j, b[j]); }
    lemma_full(g_dfa_head(), scells(d.alphabet@), g_dfa_line(), l[0], b, v);
    assert(full_p(g_dfa_head(), g_dfa_line())(t) == PR::Got(Seq::<char>::empty(), (scells(d.alphabet@), v)));
}
pub open spec fn same_dfa(a: &Dfa, b: &Dfa) -> bool {
    &&& scells(a.alphabet@) == scells(b.alphabet@) && a.states@.len() == b.states@.len() && a.initial_state == b.initial_state
    &&& forall|q: int| 0 <= q < a.states@.len() ==> (#[trigger] a.states@[q]).name@ == b.states@[q].name@ && a.states@[q].initial == b.states@[q].initial && a.states@[q].accepting == b.states@[q].accepting && a.states@[q].transitions@ == b.states@[q].transitions@
}
pub proof fn lemma_dfa_seen(d: &Dfa, v: &ParsedDfa)
    requires d.wf(), dfa_view(*v) == s_dfa(d),
    ensures v.states@.len() == d.states@.len(), skeys(v.head@) == scells(d.alphabet@), pnames(v.states@).len() == d.states@.len(),
        forall|q: int| 0 <= q < d.states@.len() ==> pnames(v.states@)[q] == (#[trigger] d.states@[q]).name@ && v.states@[q].name@ == d.states@[q].name@ && v.states@[q].initial == d.states@[q].initial && v.states@[q].accepting == d.states@[q].accepting && v.states@[q].transitions@.len() == d.states@[q].transitions@.len(),
        forall|q: int, i: int| 0 <= q < d.states@.len() && 0 <= i < d.states@[q].transitions@.len() ==> v.states@[q].transitions@[i]@ == d.states@[(#[trigger] d.states@[q].transitions@[i]) as int].name@,
{
    let w = dfa_view(*v);
    let u = s_dfa(d);
    assert(w.states.len() == v.states@.len());
    assert(u.states.len() == d.states@.len());
    assert(skeys(v.head@) =~= w.head);
    assert forall|q: int| 0 <= q < d.states@.len() implies pnames(v.states@)[q] == (#[trigger] d.states@[q]).name@ && v.states@[q].name@ == d.states@[q].name@ && v.states@[q].initial == d.states@[q].initial && v.states@[q].accepting == d.states@[q].accepting && v.states@[q].transitions@.len() == d.states@[q].transitions@.len() by {
        assert(w.states[q] == dstate_view(v.states@[q]));
        assert(u.states[q] == s_dfa_state(d, q));
        assert(tcells(v.states@[q].transitions@).len() == v.states@[q].transitions@.len());
    }
    assert forall|q: int, i: int| 0 <= q < d.states@.len() && 0 <= i < d.states@[q].transitions@.len() implies v.states@[q].transitions@[i]@ == d.states@[(#[trigger] d.states@[q].transitions@[i]) as int].name@ by {
        assert(w.states[q] == dstate_view(v.states@[q]));
        assert(u.states[q] == s_dfa_state(d, q));
        assert(tcells(v.states@[q].transitions@)[i] == v.states@[q].transitions@[i]@);
    }
}
pub proof fn lemma_dfa_read_valid(d: &Dfa, v: &ParsedDfa)
    requires d.wf(), dfa_view(*v) == s_dfa(d),
    ensures pdfa_valid(v),
{
    lemma_dfa_seen(d, v);
    let names = pnames(v.states@);
    let h = skeys(v.head@);
    assert(h.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < h.len() && 0 <= j < h.len() && i != j implies h[i] != h[j] by { assert(h[i] == d.alphabet@[i]@ && h[j] == d.alphabet@[j]@); } }
    assert(names.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < names.len() && 0 <= j < names.len() && i != j implies names[i] != names[j] by { assert(names[i] == d.states@[i].name@ && names[j] == d.states@[j].name@); } }
    let z = d.initial_state as int;
    assert(d.states@[z].initial);
    assert(v.states@[z].initial);
    let f = pflags(v.states@);
    assert forall|q: int| 0 <= q < f.len() implies #[trigger] f[q] == (q == z) by { assert(f[q] == v.states@[q].initial); assert(d.states@[q].initial == (q == z)); }
    assert(!two_flags(f));
    assert forall|q: int| 0 <= q < v.states@.len() implies (#[trigger] v.states@[q]).transitions@.len() == v.head@.len() by { assert(d.states@[q].transitions@.len() == d.alphabet@.len()); assert(h.len() == v.head@.len()); }
    assert forall|q: int, i: int| 0 <= q < v.states@.len() && 0 <= i < v.states@[q].transitions@.len() implies names.contains((#[trigger] v.states@[q].transitions@[i])@) by {
        assert(d.states@[q].transitions@.len() == v.states@[q].transitions@.len());
        let t = d.states@[q].transitions@[i] as int;
        assert(d.states@[q].transitions@[i] < d.states@.len());
        assert(names[t] == d.states@[t].name@);
    }
}
pub proof fn lemma_dfa_read_same(d: &Dfa, v: &ParsedDfa, e: &Dfa)
    requires d.wf(), dfa_view(*v) == s_dfa(d), e.wf(), pdfa_is(v, e),
    ensures same_dfa(d, e),
{
    lemma_dfa_seen(d, v);
    let names = pnames(v.states@);
    let f = pflags(v.states@);
    let z = e.initial_state as int;
    assert(scells(e.alphabet@) =~= e.alphabet@.map_values(|s: Str| s@));
    assert(f[z]);
    assert(f[z] == v.states@[z].initial);
    assert(d.states@[z].initial);
    assert forall|q: int| 0 <= q < d.states@.len() implies (#[trigger] d.states@[q]).name@ == e.states@[q].name@ && d.states@[q].initial == e.states@[q].initial && d.states@[q].accepting == e.states@[q].accepting && d.states@[q].transitions@ == e.states@[q].transitions@ by {
        assert(pstate(names, v.states@[q], e.states@[q]));
        let a = d.states@[q].transitions@;
        let b = e.states@[q].transitions@;
        assert(a.len() == b.len());
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
            assert(a[i] < d.states@.len());
            assert(v.states@[q].transitions@[i]@ == d.states@[d.states@[q].transitions@[i] as int].name@);
            assert(b[i] < names.len() && names[b[i] as int] == v.states@[q].transitions@[i]@);
            assert(names[b[i] as int] == d.states@[b[i] as int].name@);
            assert(d.states@[a[i] as int].name@ == d.states@[b[i] as int].name@);
        }
        assert(a =~= b);
    }
}
// reading and validating the table of an automaton
pub fn read_back_dfa(d: &Dfa, t: &Str, arrow: Ghost<Text>) -> (r: Dfa)
    requires d.wf(), dfa_writable(d), is_arrow(arrow@), table_text(t@, dfa_rows(d, arrow@, d.states@.len() as int)),
    ensures same_dfa(d, &r), r.wf(),
{
    proof { theorem_dfa_text(d, arrow@, t@); }
    match parser_dfa(t) {
        Ok(p) => {
            let ghost v = p;
            proof { lemma_dfa_read_valid(d, &v); }
            match Dfa::try_from(p) {
                Ok(e) => { proof { lemma_dfa_read_same(d, &v, &e); } e }
                Err(x) => { proof { theorem_pdfa_defect(&v, x); } vstd::pervasive::unreached() }
            }
        }
        Err(_) => vstd::pervasive::unreached(),
    }
}
pub fn theorem_round_trip_dfa(d: &Dfa) -> (r: (Dfa, Dfa))
    requires d.wf(), dfa_writable(d),
    ensures same_dfa(d, &r.0), same_dfa(d, &r.1),
{
    proof { lemma_lits(); }
    let t = d.to_table();
    let a = d.ascii_table();
    (read_back_dfa(d, &t, Ghost("→"@)), read_back_dfa(d, &a, Ghost("->"@)))
}

// ------------------------------------------------------------------ NFAs
pub open spec fn is_eps(e: Text) -> bool { e == seq!['ε'] || e == seq!['e', 'p', 's'] }
pub open spec fn nfa_writable(d: &Nfa) -> bool { wnames(scells(d.alphabet@)) && forall|q: int| 0 <= q < d.states@.len() ==> wname((#[trigger] d.states@[q]).name@) }
pub open spec fn s_nfa_head(d: &Nfa) -> Seq<S_NfaAlphabetEntry> { seq![S_NfaAlphabetEntry::Eps] + Seq::new(d.alphabet@.len(), |i: int| S_NfaAlphabetEntry::Element(d.alphabet@[i]@)) }
pub open spec fn s_nfa_cells(d: &Nfa, q: int) -> Seq<Seq<Text>> { seq![names_of(d, d.states@[q].epsilon_transitions@)] + Seq::new(d.states@[q].transitions@.len(), |i: int| names_of(d, d.states@[q].transitions@[i]@)) }
pub open spec fn s_nfa_state(d: &Nfa, q: int) -> S_ParsedNfaState { S_ParsedNfaState { name: d.states@[q].name@, initial: d.states@[q].initial, accepting: d.states@[q].accepting, transitions: s_nfa_cells(d, q) } }
pub open spec fn s_nfa(d: &Nfa) -> S_ParsedNfa { S_ParsedNfa { head: s_nfa_head(d), states: Seq::new(d.states@.len(), |q: int| s_nfa_state(d, q)) } }
pub proof fn lemma_names_of(d: &Nfa, t: Seq<usize>)
    requires nfa_writable(d), all_lt(t, d.states@.len()),
    ensures wnames(names_of(d, t)),
{
    assert forall|i: int| 0 <= i < t.len() implies wname(#[trigger] names_of(d, t)[i]) by { assert(t[i] < d.states@.len()); assert(wname(d.states@[t[i] as int].name@)); }
}
pub proof fn lemma_no_set(r: Text)
    requires line_end(r),
    ensures g_state_set()(r) is No,
{
    lemma_lits();
    if r.len() > 0 { assert(r.take(1)[0] == r[0]); }
}
pub proof fn lemma_nfa_row(d: &Nfa, arrow: Text, q: int, t: Text)
    requires d.wf(), nfa_writable(d), is_arrow(arrow), 0 <= q < d.states@.len(), row_text(t, nfa_row(d, arrow, q)),
    ensures row_ok(g_nfa_line(), t, s_nfa_state(d, q)),
{
    broadcast use axiom_ws;
    let s = d.states@[q];
    let c = nfa_cells(d, q, nfa_width(d, q));
    let cs = nfa_row(d, arrow, q);
    let p = choose|p: Seq<nat>| pads_for(cs, p) && t == #[trigger] rtext(cs, p, 0);
    let e = g_state_set();
    let v = s_nfa_cells(d, q);
    assert(nstate_ok(s, d.alphabet@.len(), d.states@.len()));
    assert forall|j: int| 0 <= j < c.len() implies elem_ok(e, #[trigger] c[j], v[j]) by {
        let x = if j == 0 { s.epsilon_transitions@ } else { s.transitions@[j - 1]@ };
        assert(all_lt(x, d.states@.len()));
        lemma_names_of(d, x);
        lemma_set_ok(names_of(d, x));
        assert(c[j] == set_cell(d, x));
    }
    assert(elems_ok(e, c, v));
    assert forall|r: Text| line_end(r) implies #[trigger] g_nfa_line()(t + r) == PR::Got(r, s_nfa_state(d, q)) && exists|k: nat| line_start(t + r, k) by {
        lemma_no_set(r);
        lemma_line(e, arrow, s.initial, s.accepting, s.name@, c, p, v, r);
        assert(line_p(e)(t + r) == PR::Got(r, (some_if(s.initial), some_if(s.accepting), s.name@, v)));
    }
}
pub open spec fn g_entry() -> P<S_NfaAlphabetEntry> { p_alt2(p_map(g_alphabet_elem(), |x: Text| S_NfaAlphabetEntry::Element(x)), p_value(S_NfaAlphabetEntry::Eps, g_eps())) }
pub proof fn lemma_entry_sym(n: Text)
    requires wname(n),
    ensures elem_ok(g_entry(), n, S_NfaAlphabetEntry::Element(n)),
{
    lemma_name_ok(n);
    assert forall|r: Text| stops(r) implies #[trigger] g_entry()(n + r) == PR::Got(r, S_NfaAlphabetEntry::Element(n)) by { assert(g_alphabet_elem()(n + r) == PR::Got(r, n)); }
}
pub proof fn lemma_entry_eps(n: Text)
    requires is_eps(n),
    ensures elem_ok(g_entry(), n, S_NfaAlphabetEntry::Eps),
{
    broadcast use axiom_ws;
    lemma_lits();
    assert forall|r: Text| stops(r) implies #[trigger] g_entry()(n + r) == PR::Got(r, S_NfaAlphabetEntry::Eps) by {
        let s = n + r;
        lemma_reserved_elem(n, r);
        lemma_tag(n, r);
        if n == seq!['e', 'p', 's'] { assert(p_tag("ε"@)(s) is No) by { assert(s.take(1)[0] == s[0]); } }
        assert(g_eps()(s) == PR::Got(r, ()));
    }
}
// the end of a line is no symbol
pub proof fn lemma_no_entry(r: Text)
    requires line_end(r),
    ensures g_entry()(r) is No,
{
    broadcast use axiom_ws;
    lemma_lits();
    lemma_no_name(r);
    if r.len() > 0 { assert(r.take(1)[0] == r[0]); if r.len() >= 3 { assert(r.take(3)[0] == r[0]); } }
}
// the sign for the empty word is no symbol (its characters are no blanks)
pub proof fn lemma_reserved_elem(n: Text, r: Text)
    requires is_eps(n), stops(r),
    ensures g_alphabet_elem()(n + r) is No,
{
    broadcast use axiom_ws, axiom_no_ws;
    lemma_lits(); lemma_spans();
    let lits = seq!["ε"@, "eps"@, "→"@, "->"@, "*"@];
    assert(lits[0] == seq!['ε'] && lits[1] == seq!['e', 'p', 's']);
    assert forall|c: char| "#{}"@.contains(c) <==> c == '#' || c == '{' || c == '}' by { let s = "#{}"@; assert(s[0] == '#' && s[1] == '{' && s[2] == '}'); }
}
pub proof fn lemma_nfa_head(d: &Nfa, eps: Text, t: Text)
    requires nfa_writable(d), is_eps(eps), row_text(t, nfa_head(d, eps, d.alphabet@.len() as int)),
    ensures row_ok(g_nfa_head(), t, s_nfa_head(d)),
{
    broadcast use axiom_ws;
    let a = scells(d.alphabet@);
    assert(d.alphabet@.take(d.alphabet@.len() as int) =~= d.alphabet@);
    let c = seq![eps] + a;
    let v = s_nfa_head(d);
    let cs = three() + c;
    let p = choose|p: Seq<nat>| pads_for(cs, p) && t == #[trigger] rtext(cs, p, 0);
    let e = g_entry();
    assert forall|j: int| 0 <= j < c.len() implies elem_ok(e, #[trigger] c[j], v[j]) by { if j == 0 { lemma_entry_eps(eps); } else { assert(wname(a[j - 1])); lemma_entry_sym(c[j]); } }
    assert(elems_ok(e, c, v));
    assert(c[0] == eps);
    assert(!is_nl(c[0][0]) && c[0][0] != '#');
    let hp = p_delimited(p_space0(), p_separated_list1(p_space1(), e), g_space_comment());
    assert forall|r: Text| line_end(r) implies #[trigger] g_nfa_head()(t + r) == PR::Got(r, v) && exists|k: nat| line_start(t + r, k) by {
        lemma_no_entry(r);
        lemma_head(e, c, p, v, r);
        assert(hp(t + r) == PR::Got(r, v));
        assert(hp == g_nfa_head());
    }
}
pub proof fn theorem_nfa_text(d: &Nfa, eps: Text, arrow: Text, t: Text)
    requires d.wf(), nfa_writable(d), is_eps(eps), is_arrow(arrow), table_text(t, nfa_rows(d, eps, arrow, d.states@.len() as int)),
    ensures g_nfa()(t) == PR::Got(Seq::<char>::empty(), s_nfa(d)),
{
    let rows = nfa_rows(d, eps, arrow, d.states@.len() as int);
    let l = choose|l: Seq<Text>| all_rows(l, rows) && t == #[trigger] doc(l, 0);
    let b = l.skip(1);
    let v = s_nfa(d).states;
    assert(l =~= seq![l[0]] + b);
    assert(row_text(l[0], rows[0]));
    lemma_nfa_head(d, eps, l[0]);
    assert forall|j: int| 0 <= j < b.len() implies row_ok(g_nfa_line(), #[trigger] b[j], v[j]) by { assert(row_text(l[j + 1], rows[j + 1])); lemma_nfa_row(d, arrow, j, b[j]); }
    lemma_full(g_nfa_head(), s_nfa_head(d), g_nfa_line(), l[0], b, v);
    assert(full_p(g_nfa_head(), g_nfa_line())(t) == PR::Got(Seq::<char>::empty(), (s_nfa_head(d), v)));
}
pub open spec fn same_sets(a: Seq<Vec<usize>>, b: Seq<Vec<usize>>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == b[i]@ }
pub open spec fn same_nstate(a: NfaState, b: NfaState) -> bool { a.name@ == b.name@ && a.initial == b.initial && a.accepting == b.accepting && a.epsilon_transitions@ == b.epsilon_transitions@ && same_sets(a.transitions@, b.transitions@) }
pub open spec fn same_nfa(a: &Nfa, b: &Nfa) -> bool {
    &&& scells(a.alphabet@) == scells(b.alphabet@) && a.states@.len() == b.states@.len() && a.initial_state == b.initial_state
    &&& forall|q: int| 0 <= q < a.states@.len() ==> same_nstate(#[trigger] a.states@[q], b.states@[q])
}
pub open spec fn nfa_cell(s: NfaState, j: int) -> Seq<usize> { if j == 0 { s.epsilon_transitions@ } else { s.transitions@[j - 1]@ } }
// the j-th cell that was read names the j-th set
pub open spec fn cell_seen(d: &Nfa, v: &ParsedNfa, q: int, j: int) -> bool { tcells(v.states@[q].transitions@[j]@) == names_of(d, nfa_cell(d.states@[q], j)) }
pub open spec fn nfa_seen(d: &Nfa, v: &ParsedNfa, q: int) -> bool {
    &&& nnames(v.states@)[q] == d.states@[q].name@ && v.states@[q].name@ == d.states@[q].name@ && v.states@[q].initial == d.states@[q].initial && v.states@[q].accepting == d.states@[q].accepting && v.states@[q].transitions@.len() == d.states@[q].transitions@.len() + 1
    &&& forall|j: int| 0 <= j < d.states@[q].transitions@.len() + 1 ==> #[trigger] cell_seen(d, v, q, j)
}
pub open spec fn nfa_head_seen(d: &Nfa, h: Head) -> bool {
    &&& h.len() == d.alphabet@.len() + 1 && hsym(h[0]) is None
    &&& forall|j: int| 1 <= j < h.len() ==> hsym(#[trigger] h[j]) == Some(d.alphabet@[j - 1]@)
}
pub proof fn lemma_nfa_seen(d: &Nfa, v: &ParsedNfa)
    requires d.wf(), nfa_view(*v) == s_nfa(d),
    ensures v.states@.len() == d.states@.len(), nfa_head_seen(d, v.head@), nnames(v.states@).len() == d.states@.len(),
        forall|q: int| 0 <= q < d.states@.len() ==> #[trigger] nfa_seen(d, v, q),
{
    let w = nfa_view(*v);
    let u = s_nfa(d);
    assert(w.states.len() == v.states@.len());
    assert(u.states.len() == d.states@.len());
    assert(w.head.len() == v.head@.len());
    assert forall|j: int| 0 <= j < v.head@.len() implies #[trigger] entry_view(v.head@[j]) == u.head[j] by { assert(w.head[j] == entry_view(v.head@[j])); }
    assert(entry_view(v.head@[0]) == S_NfaAlphabetEntry::Eps);
    assert forall|j: int| 1 <= j < v.head@.len() implies hsym(#[trigger] v.head@[j]) == Some(d.alphabet@[j - 1]@) by { assert(entry_view(v.head@[j]) == u.head[j]); assert(u.head[j] == S_NfaAlphabetEntry::Element(d.alphabet@[j - 1]@)); }
    assert forall|q: int| 0 <= q < d.states@.len() implies #[trigger] nfa_seen(d, v, q) by {
        assert(w.states[q] == nstate_view(v.states@[q]));
        assert(u.states[q] == s_nfa_state(d, q));
        let a = v.states@[q].transitions@;
        let va = nstate_view(v.states@[q]).transitions;
        assert(va.len() == a.len());
        assert(va == s_nfa_cells(d, q));
        assert forall|j: int| 0 <= j < d.states@[q].transitions@.len() + 1 implies #[trigger] cell_seen(d, v, q, j) by { assert(va[j] == tcells(a[j]@)); }
    }
}
pub proof fn lemma_helems_table(d: &Nfa, h: Head, k: int)
    requires nfa_head_seen(d, h), 0 <= k <= h.len(),
    ensures helems(h, k) == (if k == 0 { Seq::<Text>::empty() } else { scells(d.alphabet@).take(k - 1) }), hcount(h, k) == (if k == 0 { 0 } else { k - 1 }),
    decreases k,
{
    if k > 0 {
        lemma_helems_table(d, h, k - 1);
        assert(h[k - 1] == h[k - 1]);
        if k == 1 { assert(helems(h, k) =~= scells(d.alphabet@).take(k - 1)); } else {
            assert(hsym(h[k - 1]) == Some(d.alphabet@[k - 2]@));
            assert(helems(h, k) =~= scells(d.alphabet@).take(k - 1));
        }
    }
}
pub proof fn lemma_nfa_read_valid(d: &Nfa, v: &ParsedNfa)
    requires d.wf(), nfa_view(*v) == s_nfa(d),
    ensures pnfa_valid(v),
{
    lemma_nfa_seen(d, v);
    let names = nnames(v.states@);
    let h = v.head@;
    let a = scells(d.alphabet@);
    lemma_helems_table(d, h, h.len() as int);
    assert(a.take(a.len() as int) =~= a);
    assert(a.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { assert(a[i] == d.alphabet@[i]@ && a[j] == d.alphabet@[j]@); } }
    let g = heps(h);
    assert forall|j: int| 0 <= j < g.len() implies #[trigger] g[j] == (j == 0) by { assert(g[j] == (hsym(h[j]) is None)); }
    assert(!two_flags(g));
    assert(names.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < names.len() && 0 <= j < names.len() && i != j implies names[i] != names[j] by { assert(nfa_seen(d, v, i) && nfa_seen(d, v, j)); assert(d.states@[i].name@ != d.states@[j].name@); } }
    let z = d.initial_state as int;
    assert(d.states@[z].initial);
    assert(nfa_seen(d, v, z));
    assert(v.states@[z].initial);
    let f = nflags(v.states@);
    assert forall|q: int| 0 <= q < f.len() implies #[trigger] f[q] == (q == z) by { assert(f[q] == v.states@[q].initial); assert(nfa_seen(d, v, q)); assert(d.states@[q].initial == (q == z)); }
    assert(!two_flags(f));
    assert forall|q: int| 0 <= q < v.states@.len() implies (#[trigger] v.states@[q]).transitions@.len() == v.head@.len() by { assert(nfa_seen(d, v, q)); assert(nstate_ok(d.states@[q], d.alphabet@.len(), d.states@.len())); }
    assert forall|q: int, i: int| 0 <= q < v.states@.len() && 0 <= i < v.states@[q].transitions@.len() implies ncell_known(names, (#[trigger] v.states@[q].transitions@[i])@) by {
        assert(nfa_seen(d, v, q));
        assert(cell_seen(d, v, q, i));
        let x = nfa_cell(d.states@[q], i);
        assert(nstate_ok(d.states@[q], d.alphabet@.len(), d.states@.len()));
        assert(all_lt(x, d.states@.len()));
        let y = v.states@[q].transitions@[i]@;
        assert(tcells(y).len() == y.len());
        assert forall|m: int| 0 <= m < y.len() implies names.contains((#[trigger] y[m])@) by {
            assert(tcells(y)[m] == y[m]@);
            assert(x[m] < d.states@.len());
            assert(nfa_seen(d, v, x[m] as int));
            assert(names[x[m] as int] == y[m]@);
        }
    }
}
// a cell that was read and resolved is the set that was written
pub proof fn lemma_cell_same(d: &Nfa, v: &ParsedNfa, x: Seq<usize>, y: Seq<&Str>, b: Seq<usize>)
    requires d.wf(), nnames(v.states@).len() == d.states@.len(), forall|q: int| 0 <= q < d.states@.len() ==> #[trigger] nfa_seen(d, v, q), all_lt(x, d.states@.len()), tcells(y) == names_of(d, x), ncell(nnames(v.states@), y, b),
    ensures b == x,
{
    let names = nnames(v.states@);
    assert(tcells(y).len() == y.len());
    assert forall|m: int| 0 <= m < x.len() implies b[m] == x[m] by {
        assert(tcells(y)[m] == y[m]@);
        assert(x[m] < d.states@.len());
        assert(b[m] < names.len() && names[b[m] as int] == y[m]@);
        assert(nfa_seen(d, v, x[m] as int) && nfa_seen(d, v, b[m] as int));
        assert(d.states@[b[m] as int].name@ == d.states@[x[m] as int].name@);
    }
    assert(b =~= x);
}
pub proof fn lemma_nfa_read_same(d: &Nfa, v: &ParsedNfa, e: &Nfa)
    requires d.wf(), nfa_view(*v) == s_nfa(d), e.wf(), pnfa_is(v, e),
    ensures same_nfa(d, e),
{
    lemma_nfa_seen(d, v);
    let names = nnames(v.states@);
    let f = nflags(v.states@);
    let h = v.head@;
    let z = e.initial_state as int;
    let a = scells(d.alphabet@);
    lemma_helems_table(d, h, h.len() as int);
    assert(a.take(a.len() as int) =~= a);
    assert(scells(e.alphabet@) =~= a);
    assert(f[z]);
    assert(f[z] == v.states@[z].initial);
    assert(nfa_seen(d, v, z));
    assert(d.states@[z].initial);
    assert forall|q: int| 0 <= q < d.states@.len() implies same_nstate(#[trigger] d.states@[q], e.states@[q]) by {
        assert(nfa_seen(d, v, q));
        let r = v.states@[q];
        let s = d.states@[q];
        let b = e.states@[q];
        assert(nrow(h, names, r, b));
        assert(nstate_ok(s, d.alphabet@.len(), d.states@.len()));
        assert(cell_seen(d, v, q, 0));
        assert(hsym(h[0]) is None);
        assert(all_lt(s.epsilon_transitions@, d.states@.len()));
        lemma_cell_same(d, v, s.epsilon_transitions@, r.transitions@[0]@, b.epsilon_transitions@);
        assert(same_sets(s.transitions@, b.transitions@)) by {
            assert forall|i: int| 0 <= i < s.transitions@.len() implies (#[trigger] s.transitions@[i])@ == b.transitions@[i]@ by {
                lemma_helems_table(d, h, i + 1);
                assert(hsym(h[i + 1]) is Some);
                assert(hcount(h, i + 1) == i);
                assert(cell_seen(d, v, q, i + 1));
                assert(all_lt(s.transitions@[i]@, d.states@.len()));
                lemma_cell_same(d, v, s.transitions@[i]@, r.transitions@[i + 1]@, b.transitions@[i]@);
            }
        }
    }
}
pub fn read_back_nfa(d: &Nfa, t: &Str, eps: Ghost<Text>, arrow: Ghost<Text>) -> (r: Nfa)
    requires d.wf(), nfa_writable(d), is_eps(eps@), is_arrow(arrow@), table_text(t@, nfa_rows(d, eps@, arrow@, d.states@.len() as int)),
    ensures same_nfa(d, &r), r.wf(),
{
    proof { theorem_nfa_text(d, eps@, arrow@, t@); }
    match parser_nfa(t) {
        Ok(p) => {
            let ghost v = p;
            proof { lemma_nfa_read_valid(d, &v); }
            match Nfa::try_from(p) {
                Ok(e) => { proof { lemma_nfa_read_same(d, &v, &e); } e }
                Err(x) => { proof { theorem_pnfa_defect(&v, x); } vstd::pervasive::unreached() }
            }
        }
        Err(_) => vstd::pervasive::unreached(),
    }
}
pub fn theorem_round_trip_nfa(d: &Nfa) -> (r: (Nfa, Nfa))
    requires d.wf(), nfa_writable(d),
    ensures same_nfa(d, &r.0), same_nfa(d, &r.1),
{
    proof { lemma_lits(); }
    let t = d.to_table();
    let a = d.ascii_table();
    (read_back_nfa(d, &t, Ghost("ε"@), Ghost("→"@)), read_back_nfa(d, &a, Ghost("eps"@), Ghost("->"@)))
}
