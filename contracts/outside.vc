@raw
// ------------------------------------------------------------------ what lies outside: the grammars of the parsers
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct nom_Error<T> { s: T }
impl<T> ToStr for nom_Error<T> { uninterp spec fn tostr(&self) -> Seq<char>; }
impl<'a> ToStr for DfaParseError<'a> { uninterp spec fn tostr(&self) -> Seq<char>; }
impl<'a> ToStr for NfaParseError<'a> { uninterp spec fn tostr(&self) -> Seq<char>; }
// what the grammars read in a text, None when they reject it (C13, C16 are about the grammars)
pub uninterp spec fn read_dfa<'a>(s: &'a Str) -> Option<ParsedDfa<'a>>;
pub uninterp spec fn read_nfa<'a>(s: &'a Str) -> Option<ParsedNfa<'a>>;
pub uninterp spec fn read_regex(s: &Str) -> Option<Regex>;
#[verifier::external_body]
pub fn parser_dfa<'a>(s: &'a Str) -> (r: Result<ParsedDfa<'a>, nom_Error<&'a Str>>) ensures match r { Ok(p) => read_dfa(s) == Some(p), Err(e) => read_dfa(s) is None } { unimplemented!() }
#[verifier::external_body]
pub fn parser_nfa<'a>(s: &'a Str) -> (r: Result<ParsedNfa<'a>, nom_Error<&'a Str>>) ensures match r { Ok(p) => read_nfa(s) == Some(p), Err(e) => read_nfa(s) is None } { unimplemented!() }
// an expression that was read has fewer than usize::MAX - 2 nodes
#[verifier::external_body]
pub fn parser_regex<'a>(s: &'a Str) -> (r: Result<Regex, nom_Error<&'a Str>>) ensures match r { Ok(p) => read_regex(s) == Some(p) && nodes(p.tree) + 2 <= usize::MAX, Err(e) => read_regex(s) is None } { unimplemented!() }
// x.try_into() is TryFrom::try_from(x)
pub trait TryInto_ { type O; type E; spec fn tspec(self, r: Result<Self::O, Self::E>) -> bool; fn try_into_(self) -> (r: Result<Self::O, Self::E>) ensures self.tspec(r); }
impl<'a> TryInto_ for ParsedDfa<'a> { type O = Dfa; type E = DfaParseError<'a>;
    open spec fn tspec(self, r: Result<Dfa, DfaParseError<'a>>) -> bool { match r { Ok(d) => d.wf() && pdfa_is(&self, &d) && pdfa_valid(&self), Err(e) => !pdfa_valid(&self) } }
    fn try_into_(self) -> (r: Result<Dfa, DfaParseError<'a>>) { let ghost v = self; let r = Dfa::try_from(self); proof { if r is Err { theorem_pdfa_defect(&v, r->Err_0); } } r } }
impl<'a> TryInto_ for ParsedNfa<'a> { type O = Nfa; type E = NfaParseError<'a>;
    open spec fn tspec(self, r: Result<Nfa, NfaParseError<'a>>) -> bool { match r { Ok(d) => d.wf() && pnfa_is(&self, &d) && pnfa_valid(&self), Err(e) => !pnfa_valid(&self) } }
    fn try_into_(self) -> (r: Result<Nfa, NfaParseError<'a>>) { let ghost v = self; let r = Nfa::try_from(self); proof { if r is Err { theorem_pnfa_defect(&v, r->Err_0); } } r } }

