@type dandy-cli/src/automata.rs AutomataType
@type dandy-cli/src/automata.rs Automata
@type dandy-cli/src/equivalence.rs EquivalenceResult
@type dandy-cli/src/main.rs EquivalenceArgs
@type dandy-cli/src/equivalence.rs DandyTester
@type dandy-cli/src/equivalence.rs Error
@raw
// ------------------------------------------------------------------ what lies outside: files
#[verifier::external_body]
pub struct Path { s: String }
#[verifier::external_body]
pub struct PathBuf { s: String }
#[verifier::external_body]
pub struct io_Error { s: String }
impl ToStr for io_Error { uninterp spec fn tostr(&self) -> Seq<char>; }
// the text of a file, None when it cannot be read; files do not change during a run
pub uninterp spec fn file_text(p: &Path) -> Option<Str>;
#[verifier::external_body]
pub fn fs_read_to_string(p: &Path) -> (r: Result<Str, io_Error>) ensures match r { Ok(s) => file_text(p) == Some(s), Err(e) => file_text(p) is None } { unimplemented!() }
// ------------------------------------------------------------------ what an input denotes
pub open spec fn texts(a: Seq<Str>) -> Syms { a.map_values(|s: Str| s@) }
pub open spec fn aalpha(a: &Automata) -> Syms {
    match a { Automata::Dfa(d) => texts(d.alphabet@), Automata::Nfa(n) => texts(n.alphabet@), Automata::Regex(r) => add_chars(r.tree, Seq::empty()) }
}
pub open spec fn aaccepts(a: &Automata, w: Word) -> bool {
    match a { Automata::Dfa(d) => daccepts(d, w), Automata::Nfa(n) => naccepts(n, w), Automata::Regex(r) => rlang(r.tree, w) }
}
pub open spec fn awf(a: &Automata) -> bool {
    match a { Automata::Dfa(d) => d.wf(), Automata::Nfa(n) => n.wf(), Automata::Regex(r) => nodes(r.tree) + 2 <= usize::MAX }
}
pub open spec fn atype(a: &Automata) -> AutomataType {
    match a { Automata::Dfa(d) => AutomataType::Dfa, Automata::Nfa(n) => AutomataType::Nfa, Automata::Regex(r) => AutomataType::Regex }
}
// the same alphabet, in order, and the same language
pub open spec fn asame(a: &Automata, b: &Automata) -> bool { aalpha(a) == aalpha(b) && forall|w: Word| #[trigger] aaccepts(a, w) == aaccepts(b, w) }
// the same language over the same alphabet
pub open spec fn aequiv(a: &Automata, b: &Automata) -> bool { (forall|c: Seq<char>| #[trigger] aalpha(a).contains(c) <==> aalpha(b).contains(c)) && forall|w: Word| #[trigger] aaccepts(a, w) == aaccepts(b, w) }
pub open spec fn astates(a: &Automata) -> nat { match a { Automata::Dfa(d) => d.states@.len(), _ => 0 } }
pub proof fn lemma_texts(a: Seq<Str>, c: Seq<char>)
    ensures has_sym(a, c) <==> texts(a).contains(c),
{
    if has_sym(a, c) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == c; assert(texts(a)[i] == c); }
    if texts(a).contains(c) { let i = choose|i: int| 0 <= i < texts(a).len() && texts(a)[i] == c; assert(a[i]@ == c); }
}
pub proof fn lemma_equiv_d(a: &Dfa, b: &Dfa)
    ensures dequiv(a, b) <==> aequiv(&Automata::Dfa(*a), &Automata::Dfa(*b)),
{
    let x = Automata::Dfa(*a); let y = Automata::Dfa(*b);
    assert forall|c: Seq<char>| #[trigger] has_sym(a.alphabet@, c) == aalpha(&x).contains(c) by { lemma_texts(a.alphabet@, c); }
    assert forall|c: Seq<char>| #[trigger] has_sym(b.alphabet@, c) == aalpha(&y).contains(c) by { lemma_texts(b.alphabet@, c); }
    if aequiv(&x, &y) {
        assert(same_syms(a.alphabet@, b.alphabet@)) by { assert forall|c: Seq<char>| #[trigger] has_sym(a.alphabet@, c) <==> has_sym(b.alphabet@, c) by { assert(aalpha(&x).contains(c) <==> aalpha(&y).contains(c)); } }
    }
    if same_syms(a.alphabet@, b.alphabet@) { assert forall|c: Seq<char>| #[trigger] aalpha(&x).contains(c) <==> aalpha(&y).contains(c) by { assert(has_sym(a.alphabet@, c) <==> has_sym(b.alphabet@, c)); } }
    if aequiv(&x, &y) { assert forall|w: Word| #[trigger] daccepts(a, w) == daccepts(b, w) by { assert(aaccepts(&x, w) == aaccepts(&y, w)); } }
    if dequiv(a, b) { assert forall|w: Word| #[trigger] aaccepts(&x, w) == aaccepts(&y, w) by { assert(daccepts(a, w) == daccepts(b, w)); } }
}
pub proof fn lemma_equiv_n(a: &Nfa, b: &Nfa)
    ensures nequiv(a, b) <==> aequiv(&Automata::Nfa(*a), &Automata::Nfa(*b)),
{
    let x = Automata::Nfa(*a); let y = Automata::Nfa(*b);
    assert forall|c: Seq<char>| #[trigger] has_sym(a.alphabet@, c) == aalpha(&x).contains(c) by { lemma_texts(a.alphabet@, c); }
    assert forall|c: Seq<char>| #[trigger] has_sym(b.alphabet@, c) == aalpha(&y).contains(c) by { lemma_texts(b.alphabet@, c); }
    if aequiv(&x, &y) {
        assert(same_syms(a.alphabet@, b.alphabet@)) by { assert forall|c: Seq<char>| #[trigger] has_sym(a.alphabet@, c) <==> has_sym(b.alphabet@, c) by { assert(aalpha(&x).contains(c) <==> aalpha(&y).contains(c)); } }
    }
    if same_syms(a.alphabet@, b.alphabet@) { assert forall|c: Seq<char>| #[trigger] aalpha(&x).contains(c) <==> aalpha(&y).contains(c) by { assert(has_sym(a.alphabet@, c) <==> has_sym(b.alphabet@, c)); } }
    if aequiv(&x, &y) { assert forall|w: Word| #[trigger] naccepts(a, w) == naccepts(b, w) by { assert(aaccepts(&x, w) == aaccepts(&y, w)); } }
    if nequiv(a, b) { assert forall|w: Word| #[trigger] aaccepts(&x, w) == aaccepts(&y, w) by { assert(naccepts(a, w) == naccepts(b, w)); } }
}
// equal denotations may replace each other in a comparison
pub proof fn lemma_equiv_same(a: &Automata, a2: &Automata, b: &Automata, b2: &Automata)
    requires asame(a, a2), asame(b, b2),
    ensures aequiv(a, b) <==> aequiv(a2, b2),
{
    if aequiv(a, b) { assert forall|w: Word| #[trigger] aaccepts(a2, w) == aaccepts(b2, w) by { assert(aaccepts(a, w) == aaccepts(b, w)); assert(aaccepts(a, w) == aaccepts(a2, w)); assert(aaccepts(b, w) == aaccepts(b2, w)); } }
    if aequiv(a2, b2) { assert forall|w: Word| #[trigger] aaccepts(a, w) == aaccepts(b, w) by { assert(aaccepts(a2, w) == aaccepts(b2, w)); assert(aaccepts(a, w) == aaccepts(a2, w)); assert(aaccepts(b, w) == aaccepts(b2, w)); } }
}
// the tested input denotes the automaton a
pub open spec fn denotes(text: &Str, ty: AutomataType, a: &Automata) -> bool {
    match (ty, a) {
        (AutomataType::Dfa, Automata::Dfa(d)) => match read_dfa(text) { Some(p) => pdfa_is(&p, d) && pdfa_valid(&p) && d.wf(), None => false },
        (AutomataType::Nfa, Automata::Nfa(n)) => match read_nfa(text) { Some(p) => pnfa_is(&p, n) && pnfa_valid(&p) && n.wf(), None => false },
        (AutomataType::Regex, Automata::Regex(x)) => read_regex(text) == Some(*x) && nodes(x.tree) + 2 <= usize::MAX,
        _ => false,
    }
}
// a is what the text denotes, up to the form it is given in
pub open spec fn loaded(text: &Str, ty: AutomataType, a: &Automata) -> bool { exists|d: Automata| #[trigger] denotes(text, ty, &d) && asame(&d, a) && (ty is Dfa <==> a is Dfa) && (ty is Dfa ==> *a == d) }
pub proof fn lemma_loaded_verdict(text: &Str, ty: AutomataType, t: &Automata, a: &Automata, min: bool, r: EquivalenceResult)
    requires loaded(text, ty, a), verdict(t, a, min, r),
    ensures exists|b: Automata| #[trigger] denotes(text, ty, &b) && verdict(t, &b, min, r),
{
    let d = choose|d: Automata| #[trigger] denotes(text, ty, &d) && asame(&d, a) && (ty is Dfa <==> a is Dfa) && (ty is Dfa ==> *a == d);
    lemma_equiv_same(t, t, &d, a);
    assert(denotes(text, ty, &d) && verdict(t, &d, min, r));
}
// the text can be read and describes an automaton
pub open spec fn valid(text: &Str, ty: AutomataType) -> bool {
    match ty {
        AutomataType::Dfa => match read_dfa(text) { Some(p) => pdfa_valid(&p), None => false },
        AutomataType::Nfa => match read_nfa(text) { Some(p) => pnfa_valid(&p), None => false },
        AutomataType::Regex => read_regex(text) is Some,
    }
}
pub open spec fn load_ok(file: &Str, ty: AutomataType, r: Result<Automata, EquivalenceResult>) -> bool { r is Ok ==> awf(&r->Ok_0) && loaded(file, ty, &r->Ok_0) }
pub open spec fn load_err(file: &Str, ty: AutomataType, r: Result<Automata, EquivalenceResult>) -> bool { r is Err ==> fails(file, ty, r->Err_0) }
// the reason given for a text that denotes nothing
pub open spec fn fails(text: &Str, ty: AutomataType, e: EquivalenceResult) -> bool {
    let read = match ty { AutomataType::Dfa => read_dfa(text) is Some, AutomataType::Nfa => read_nfa(text) is Some, AutomataType::Regex => read_regex(text) is Some };
    match e { EquivalenceResult::FailedToParse(_) => !read, EquivalenceResult::FailedToValidate(_) => read && !valid(text, ty), _ => false }
}
pub open spec fn sized(a: &Automata, b: &Automata, minimized: bool) -> bool { minimized && a is Dfa && b is Dfa ==> astates(a) == astates(b) }
pub open spec fn verdict(a: &Automata, b: &Automata, minimized: bool, r: EquivalenceResult) -> bool {
    match r {
        EquivalenceResult::Equivalent => aequiv(a, b) && sized(a, b, minimized),
        EquivalenceResult::NotMinimized => aequiv(a, b) && !sized(a, b, minimized),
        EquivalenceResult::NotEquivalent => !aequiv(a, b),
        _ => false,
    }
}
pub open spec fn asmallest(a: &Automata) -> bool { match a { Automata::Dfa(d) => distinguished(d) && all_reachable(d), _ => false } }
pub open spec fn in_type(args: &EquivalenceArgs) -> AutomataType { match args.in_type { Some(t) => t, None => args.r#type } }
pub open spec fn prepared(d: &Automata, args: &EquivalenceArgs, t: &DandyTester) -> bool {
    &&& awf(&t.input) && asame(d, &t.input) && t.minimized == args.minimized && t.test_type == args.r#type
    &&& t.minimized ==> args.r#type is Dfa && asmallest(&t.input)
    &&& t.input is Dfa <==> args.r#type is Dfa
    &&& t.input is Dfa || t.input is Nfa
}
pub open spec fn well_given(file: &Str, args: &EquivalenceArgs) -> bool { valid(file, in_type(args)) && (args.minimized ==> args.r#type is Dfa) }
pub open spec fn file_verdict(t: &DandyTester, p: &Path, r: EquivalenceResult) -> bool {
    match (file_text(p), r) {
        (None, EquivalenceResult::FailedToRead(_)) => true,
        (Some(f), EquivalenceResult::FailedToParse(_)) => fails(&f, t.test_type, r),
        (Some(f), EquivalenceResult::FailedToValidate(_)) => fails(&f, t.test_type, r),
        (Some(f), EquivalenceResult::FailedToRead(_)) => false,
        (Some(f), _) => exists|b: Automata| #[trigger] denotes(&f, t.test_type, &b) && verdict(&t.input, &b, t.minimized, r),
        _ => false,
    }
}
// the answer for a reference d and a tested b: equivalent exactly when they are, and, with the minimal option, when
// no smaller DFA is
pub open spec fn no_smaller(d: &Automata, b: &Automata) -> bool {
    forall|e: Dfa| e.wf() && e.states@.len() <= usize::MAX && #[trigger] aequiv(d, &Automata::Dfa(e)) ==> astates(b) <= e.states@.len()
}
pub proof fn theorem_cli(text: &Str, d: &Automata, args: &EquivalenceArgs, t: &DandyTester, b: &Automata, r: EquivalenceResult)
    requires prepared(d, args, t), denotes(text, args.r#type, b), verdict(&t.input, b, t.minimized, r), astates(&t.input) <= usize::MAX, astates(b) <= usize::MAX,
    ensures r is Equivalent <==> aequiv(d, b) && (args.minimized ==> no_smaller(d, b)),
{
    lemma_equiv_same(d, &t.input, b, b);
    if aequiv(d, b) && args.minimized {
        let x = t.input->Dfa_0;
        let y = b->Dfa_0;
        assert(t.input == Automata::Dfa(x) && *b == Automata::Dfa(y));
        lemma_equiv_d(&x, &y);
        assert(dequiv(&x, &y));
        assert forall|e: Dfa| e.wf() && e.states@.len() <= usize::MAX && #[trigger] aequiv(d, &Automata::Dfa(e)) implies x.states@.len() <= e.states@.len() by {
            lemma_equiv_same(d, &t.input, &Automata::Dfa(e), &Automata::Dfa(e));
            lemma_equiv_d(&x, &e);
            lemma_minimal(&x, &e);
        }
        if no_smaller(d, b) {
            assert(asame(d, &t.input));
            assert(aequiv(d, &Automata::Dfa(x)));
            assert(aequiv(d, &Automata::Dfa(y)));
        }
    }
}
@fn dandy-cli/src/automata.rs Automata::get_type
@sig
    ensures r == atype(self),
@fn dandy-cli/src/automata.rs Automata::into_dfa
@sig
    requires awf(&self),
    ensures r.0.wf(), asame(&self, &Automata::Dfa(r.0)), r.1 == !(self is Dfa), self is Dfa ==> self == Automata::Dfa(r.0),
@fn dandy-cli/src/automata.rs Automata::into_minimized_dfa
@sig
    requires awf(&self),
    ensures r.0.wf(), asame(&self, &Automata::Dfa(r.0)), distinguished(&r.0), all_reachable(&r.0),
@fn dandy-cli/src/automata.rs Automata::into_minimized_dfa_automata
@sig
    requires awf(&self),
    ensures awf(&r.0), asame(&self, &r.0), r.0 is Dfa, asmallest(&r.0),
@fn dandy-cli/src/automata.rs Automata::into_dfa_automata
@sig
    requires awf(&self),
    ensures awf(&r.0), asame(&self, &r.0), r.0 is Dfa, r.1 == !(self is Dfa), self is Dfa ==> self == r.0,
@fn dandy-cli/src/automata.rs Automata::borrow_dfa
@sig
    ensures match r { Some(d) => *self == Automata::Dfa(*d), None => !(self is Dfa) },
@fn dandy-cli/src/automata.rs Automata::into_nfa
@sig
    requires awf(&self),
    ensures r.0.wf(), asame(&self, &Automata::Nfa(r.0)), r.1 == !(self is Nfa), self is Nfa ==> self == Automata::Nfa(r.0),
@fn dandy-cli/src/automata.rs Automata::into_to_nfa_automata
@sig
    requires awf(&self),
    ensures awf(&r.0), asame(&self, &r.0), r.0 is Nfa, r.1 == !(self is Nfa), self is Nfa ==> self == r.0,
@fn dandy-cli/src/automata.rs Automata::borrow_nfa
@sig
    ensures match r { Some(d) => *self == Automata::Nfa(*d), None => !(self is Nfa) },
@fn dandy-cli/src/automata.rs Automata::prepare_to_compare_with
@sig
    requires awf(&self),
    ensures awf(&r.0), asame(&self, &r.0), r.0 is Dfa <==> other is Dfa, r.0 is Dfa || r.0 is Nfa, self is Dfa && other is Dfa ==> self == r.0,
@fn dandy-cli/src/automata.rs Automata::test_equivalence
@sig
    requires awf(self), awf(&other),
    ensures verdict(self, &other, minimized, r),
@start
    let ghost o = other;
@let dfa2
    proof { lemma_equiv_d(dfa1, dfa2); }
@let dfa2#2
    proof { lemma_equiv_d(dfa1, &dfa2); lemma_equiv_same(self, self, &o, &Automata::Dfa(dfa2)); }
@let nfa2
    proof { lemma_equiv_n(nfa1, &nfa2); lemma_equiv_same(self, self, &o, &Automata::Nfa(nfa2)); }
@let dfa2#3
    proof { lemma_equiv_d(&dfa1, &dfa2); lemma_equiv_same(self, &Automata::Dfa(dfa1), &o, &Automata::Dfa(dfa2)); }
@fn dandy-cli/src/automata.rs Automata::load_test
@sig
    ensures load_ok(file, r#type, r), load_err(file, r#type, r),
@let dfa
    proof { assert(denotes(file, AutomataType::Dfa, &Automata::Dfa(dfa))); }
@let nfa
    proof { assert(denotes(file, AutomataType::Nfa, &Automata::Nfa(nfa))); }
@let regex
    let ghost rx = regex;
@let nfa#2
    proof { assert(denotes(file, AutomataType::Regex, &Automata::Regex(rx))); assert(asame(&Automata::Regex(rx), &Automata::Nfa(nfa))); }
@fn dandy-cli/src/equivalence.rs DandyTester::new
@sig
    ensures match r {
            Ok(t) => exists|d: Automata| #[trigger] denotes(file, in_type(args), &d) && prepared(&d, args, &t),
            Err(e) => !well_given(file, args) },
@start
    let ghost mut d: Automata = arbitrary();
@let dfa
    proof { d = Automata::Dfa(dfa); }
@let nfa
    proof { d = Automata::Nfa(nfa); }
@let regex
    proof { d = Automata::Regex(regex); }
@let nfa#2
    proof { assert(asame(&d, &Automata::Nfa(nfa))); }
@let dfa#2
    proof { assert(asame(&d, &Automata::Dfa(dfa))); }
@let input
    proof { assert(denotes(file, in_type(args), &d) && asame(&d, &input) && awf(&input)); }
@let minimized
    proof { assert(asame(&d, &input) && awf(&input) && (minimized ==> input is Dfa && asmallest(&input))); }
@fn dandy-cli/src/equivalence.rs DandyTester::input_automata
@sig
    ensures r == &self.input,
@fn dandy-cli/src/equivalence.rs DandyTester::test_equivalence
@sig
    requires awf(&self.input),
    ensures file_verdict(self, file, r),
@start
    proof {
        if let Some(f) = file_text(file) {
            assert forall|a: Automata, r: EquivalenceResult| #[trigger] loaded(&f, self.test_type, &a) && #[trigger] verdict(&self.input, &a, self.minimized, r) implies file_verdict(self, file, r) by {
                lemma_loaded_verdict(&f, self.test_type, &self.input, &a, self.minimized, r);
            }
        }
    }
