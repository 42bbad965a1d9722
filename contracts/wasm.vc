@type dandy-wasm/src/lib.rs thread_local
@raw
// ------------------------------------------------------------------ what lies outside
pub fn dflt_<K: Hk, V>() -> (r: HMap<K, V>) ensures r@ == Map::<K::Kv, V>::empty() { HMap::new() }
// the printed table (C13) is a function of the automaton
pub uninterp spec fn dtable(d: &Dfa) -> Seq<char>;
pub uninterp spec fn ntable(d: &Nfa) -> Seq<char>;
impl Dfa {
    #[verifier::external_body]
    pub fn to_table(&self) -> (r: Str) ensures r@ == dtable(self) { unimplemented!() }
}
impl Nfa {
    #[verifier::external_body]
    pub fn to_table(&self) -> (r: Str) ensures r@ == ntable(self) { unimplemented!() }
}
// the browser: a page with a document, whose canvas elements have a 2d context
#[verifier::external_body]
pub struct Window { s: String }
#[verifier::external_body]
pub struct Document { s: String }
#[verifier::external_body]
pub struct Element { s: String }
#[verifier::external_body]
pub struct JsObject { s: String }
#[verifier::external_body]
pub struct HtmlCanvasElement { s: String }
#[verifier::external_body]
pub struct CanvasRenderingContext2d { s: String }
#[verifier::external_body]
pub struct CanvasDrawer { s: String }
#[verifier::external_body]
pub fn web_sys_window() -> (r: Option<Window>) ensures r is Some { unimplemented!() }
impl Window {
    #[verifier::external_body]
    pub fn document(&self) -> (r: Option<Document>) ensures r is Some { unimplemented!() }
}
impl Document {
    #[verifier::external_body]
    pub fn get_element_by_id(&self, id: &Str) -> (r: Option<Element>) { unimplemented!() }
}
impl Element {
    #[verifier::external_body]
    pub fn dyn_into(self) -> (r: Result<HtmlCanvasElement, ()>) { unimplemented!() }
}
impl HtmlCanvasElement {
    #[verifier::external_body]
    pub fn get_context(&self, kind: &Str) -> (r: Result<Option<JsObject>, ()>) ensures r is Ok, r->Ok_0 is Some { unimplemented!() }
}
impl JsObject {
    #[verifier::external_body]
    pub fn dyn_into(self) -> (r: Result<CanvasRenderingContext2d, ()>) ensures r is Ok { unimplemented!() }
}
impl CanvasDrawer {
    #[verifier::external_body]
    pub fn new(c: CanvasRenderingContext2d) -> (r: CanvasDrawer) { unimplemented!() }
}
#[verifier::external_body]
pub fn dandy_draw_draw_dfa(d: &Dfa, to: &mut CanvasDrawer) { unimplemented!() }
#[verifier::external_body]
pub fn dandy_draw_draw_nfa(d: &Nfa, to: &mut CanvasDrawer) { unimplemented!() }

// ------------------------------------------------------------------ what a handle refers to
pub enum Obj { Dfa(Dfa), Nfa(Nfa), Regex(Regex) }
pub open spec fn dfas(g: &Globals) -> Map<usize, Dfa> { g.DFA_MAP@ }
pub open spec fn nfas(g: &Globals) -> Map<usize, Nfa> { g.NFA_MAP@ }
pub open spec fn regexes(g: &Globals) -> Map<usize, Regex> { g.REGEX_MAP@ }
pub open spec fn refers(g: &Globals, k: usize) -> Option<Obj> {
    if dfas(g).contains_key(k) { Some(Obj::Dfa(dfas(g)[k])) } else if nfas(g).contains_key(k) { Some(Obj::Nfa(nfas(g)[k])) }
    else if regexes(g).contains_key(k) { Some(Obj::Regex(regexes(g)[k])) } else { None }
}
// every handle in use was returned before, none is used for two objects, every object is well formed
pub open spec fn ok_handle(g: &Globals, k: usize) -> bool {
    &&& dfas(g).contains_key(k) ==> k < g.KEYGEN.cur && dfas(g)[k].wf() && !nfas(g).contains_key(k) && !regexes(g).contains_key(k)
    &&& nfas(g).contains_key(k) ==> k < g.KEYGEN.cur && nfas(g)[k].wf() && !regexes(g).contains_key(k)
    &&& regexes(g).contains_key(k) ==> k < g.KEYGEN.cur && nodes(regexes(g)[k].tree) + 2 <= usize::MAX
}
pub open spec fn ok(g: &Globals) -> bool { forall|k: usize| #[trigger] ok_handle(g, k) }
// only the handle h is operated on; a handle returned is new
pub open spec fn step(g: &Globals, g2: &Globals, h: usize) -> bool {
    &&& ok(g2) && g.KEYGEN.cur <= g2.KEYGEN.cur
    &&& forall|k: usize| k != h && k < g.KEYGEN.cur ==> #[trigger] refers(g2, k) == refers(g, k)
}
// nothing that exists is operated on
pub open spec fn grown(g: &Globals, g2: &Globals) -> bool { forall|h: usize| #[trigger] step(g, g2, h) }
pub open spec fn fresh(g: &Globals, g2: &Globals, k: usize) -> bool { g.KEYGEN.cur <= k < g2.KEYGEN.cur && refers(g2, k) is Some && refers(g, k) is None }
pub open spec fn unchanged(g: &Globals, g2: &Globals) -> bool { dfas(g2) == dfas(g) && nfas(g2) == nfas(g) && regexes(g2) == regexes(g) }
// a new object, nothing else
pub open spec fn made(g: &Globals, g2: &Globals, k: usize, o: Obj) -> bool {
    &&& fresh(g, g2, k) && refers(g2, k) == Some(o)
    &&& match o {
        Obj::Dfa(d) => dfas(g2) == dfas(g).insert(k, d) && nfas(g2) == nfas(g) && regexes(g2) == regexes(g),
        Obj::Nfa(d) => dfas(g2) == dfas(g) && nfas(g2) == nfas(g).insert(k, d) && regexes(g2) == regexes(g),
        Obj::Regex(d) => dfas(g2) == dfas(g) && nfas(g2) == nfas(g) && regexes(g2) == regexes(g).insert(k, d),
    }
}
pub proof fn lemma_unchanged(g: &Globals, g2: &Globals, h: usize)
    requires ok(g), unchanged(g, g2), g2.KEYGEN == g.KEYGEN,
    ensures step(g, g2, h),
{
    assert forall|k: usize| #[trigger] ok_handle(g2, k) by { assert(ok_handle(g, k)); }
}
pub proof fn lemma_removed(g: &Globals, g2: &Globals, h: usize)
    requires ok(g), g2.KEYGEN == g.KEYGEN, dfas(g2) == dfas(g).remove(h) || dfas(g2) == dfas(g), nfas(g2) == nfas(g).remove(h) || nfas(g2) == nfas(g), regexes(g2) == regexes(g).remove(h) || regexes(g2) == regexes(g),
    ensures step(g, g2, h),
{
    assert forall|k: usize| #[trigger] ok_handle(g2, k) by { assert(ok_handle(g, k)); }
    assert forall|k: usize| k != h && k < g.KEYGEN.cur implies #[trigger] refers(g2, k) == refers(g, k) by { assert(ok_handle(g, k)); }
}
pub proof fn lemma_made(g: &Globals, g2: &Globals, k: usize, h: usize, o: Obj)
    requires ok(g), g2.KEYGEN.cur == g.KEYGEN.cur + 1, k == g.KEYGEN.cur,
        match o {
            Obj::Dfa(d) => d.wf() && dfas(g2) == dfas(g).insert(k, d) && nfas(g2) == nfas(g) && regexes(g2) == regexes(g),
            Obj::Nfa(d) => d.wf() && dfas(g2) == dfas(g) && nfas(g2) == nfas(g).insert(k, d) && regexes(g2) == regexes(g),
            Obj::Regex(d) => nodes(d.tree) + 2 <= usize::MAX && dfas(g2) == dfas(g) && nfas(g2) == nfas(g) && regexes(g2) == regexes(g).insert(k, d),
        },
    ensures made(g, g2, k, o), step(g, g2, h),
{
    assert(ok_handle(g, k));
    assert forall|j: usize| #[trigger] ok_handle(g2, j) by { assert(ok_handle(g, j)); }
    assert forall|j: usize| j != h && j < g.KEYGEN.cur implies #[trigger] refers(g2, j) == refers(g, j) by { assert(ok_handle(g, j)); }
}
pub proof fn lemma_step_step(g: &Globals, g1: &Globals, g2: &Globals, h: usize)
    requires step(g, g1, h), step(g1, g2, h),
    ensures step(g, g2, h),
{
    assert forall|k: usize| k != h && k < g.KEYGEN.cur implies #[trigger] refers(g2, k) == refers(g, k) by { assert(refers(g1, k) == refers(g, k)); }
}
// a run: states s[0], s[1], ..; the i-th call operates on the handle h[i]
pub open spec fn run(s: Seq<Globals>, h: Seq<usize>) -> bool {
    &&& s.len() == h.len() + 1 && ok(&s[0])
    &&& forall|i: int| 0 <= i < h.len() ==> #[trigger] step(&s[i], &s[i + 1], h[i])
}
pub proof fn lemma_run_cur(s: Seq<Globals>, h: Seq<usize>, i: int, j: int)
    requires run(s, h), 0 <= i <= j < s.len(),
    ensures s[i].KEYGEN.cur <= s[j].KEYGEN.cur, ok(&s[j]),
    decreases j - i,
{
    if i < j { lemma_run_cur(s, h, i, j - 1); assert(step(&s[j - 1], &s[j - 1 + 1], h[j - 1])); }
    else if i > 0 { assert(step(&s[i - 1], &s[i - 1 + 1], h[i - 1])); }
}
// a handle that exists and is not operated on refers to the same object; a handle returned later is another one
pub proof fn theorem_handles(s: Seq<Globals>, h: Seq<usize>, i: int, j: int, k: usize)
    requires run(s, h), 0 <= i <= j < s.len(), k < s[i].KEYGEN.cur, forall|l: int| i <= l < j ==> #[trigger] h[l] != k,
    ensures refers(&s[j], k) == refers(&s[i], k), forall|l: int, k2: usize| i <= l < h.len() && #[trigger] fresh(&s[l], &s[l + 1], k2) ==> k2 != k,
    decreases j - i,
{
    if i < j {
        theorem_handles(s, h, i, j - 1, k);
        lemma_run_cur(s, h, i, j - 1);
        assert(step(&s[j - 1], &s[j - 1 + 1], h[j - 1]));
    }
    assert forall|l: int, k2: usize| i <= l < h.len() && #[trigger] fresh(&s[l], &s[l + 1], k2) implies k2 != k by { lemma_run_cur(s, h, i, l); }
}
@raw
pub proof fn lemma_moved(g: &Globals, g2: &Globals, h: usize, x: usize)
    requires ok(g), g.KEYGEN.cur <= x < g2.KEYGEN.cur, regexes(g2) == regexes(g).remove(h), dfas(g2) == dfas(g), nfas(g2).contains_key(x), nfas(g2)[x].wf(), nfas(g2) == nfas(g).insert(x, nfas(g2)[x]),
    ensures step(g, g2, h),
{
    assert(ok_handle(g, x));
    assert forall|k: usize| #[trigger] ok_handle(g2, k) by { assert(ok_handle(g, k)); }
    assert forall|k: usize| k != h && k < g.KEYGEN.cur implies #[trigger] refers(g2, k) == refers(g, k) by { assert(ok_handle(g, k)); }
}
pub open spec fn same_words(d: &Dfa, n: &Nfa) -> bool { forall|w: Word| #[trigger] naccepts(n, w) == daccepts(d, w) }
pub proof fn lemma_minimized_step(g: &Globals, g2: &Globals, h: usize)
    requires ok(g), g2.KEYGEN == g.KEYGEN, nfas(g2) == nfas(g), regexes(g2) == regexes(g),
        if dfas(g).contains_key(h) { dfas(g2).contains_key(h) && dfas(g2)[h].wf() && dfas(g2) == dfas(g).insert(h, dfas(g2)[h]) } else { dfas(g2) == dfas(g) },
    ensures step(g, g2, h),
{
    assert forall|k: usize| #[trigger] ok_handle(g2, k) by { assert(ok_handle(g, k)); }
    assert forall|k: usize| k != h && k < g.KEYGEN.cur implies #[trigger] refers(g2, k) == refers(g, k) by { assert(ok_handle(g, k)); }
}
@fn dandy-wasm/src/lib.rs thread_local
@sig
    ensures ok(&r), forall|k: usize| #[trigger] refers(&r, k) is None,
@fn dandy-wasm/src/lib.rs gen_key
@sig
    requires old(g_).KEYGEN.cur < usize::MAX,
    ensures r == old(g_).KEYGEN.cur, final(g_).KEYGEN.cur == r + 1, unchanged(old(g_), final(g_)),
@fn dandy-wasm/src/lib.rs push_dfa
@sig
    requires ok(old(g_)), old(g_).KEYGEN.cur < usize::MAX, dfa.wf(),
    ensures made(old(g_), final(g_), r, Obj::Dfa(dfa)), grown(old(g_), final(g_)),
@start
    let ghost g0 = *g_;
@end
    proof { assert forall|h: usize| #[trigger] step(&g0, g_, h) by { lemma_made(&g0, g_, key, h, Obj::Dfa(dfa)); } lemma_made(&g0, g_, key, 0, Obj::Dfa(dfa)); }
@fn dandy-wasm/src/lib.rs push_nfa
@sig
    requires ok(old(g_)), old(g_).KEYGEN.cur < usize::MAX, nfa.wf(),
    ensures made(old(g_), final(g_), r, Obj::Nfa(nfa)), grown(old(g_), final(g_)),
@start
    let ghost g0 = *g_;
@end
    proof { assert forall|h: usize| #[trigger] step(&g0, g_, h) by { lemma_made(&g0, g_, key, h, Obj::Nfa(nfa)); } lemma_made(&g0, g_, key, 0, Obj::Nfa(nfa)); }
@fn dandy-wasm/src/lib.rs push_regex
@sig
    requires ok(old(g_)), old(g_).KEYGEN.cur < usize::MAX, nodes(regex.tree) + 2 <= usize::MAX,
    ensures made(old(g_), final(g_), r, Obj::Regex(regex)), grown(old(g_), final(g_)),
@start
    let ghost g0 = *g_;
@end
    proof { assert forall|h: usize| #[trigger] step(&g0, g_, h) by { lemma_made(&g0, g_, key, h, Obj::Regex(regex)); } lemma_made(&g0, g_, key, 0, Obj::Regex(regex)); }
@fn dandy-wasm/src/lib.rs delete_regex
@sig
    requires ok(old(g_)),
    ensures r == regexes(old(g_)).contains_key(regex), regexes(final(g_)) == regexes(old(g_)).remove(regex), dfas(final(g_)) == dfas(old(g_)), nfas(final(g_)) == nfas(old(g_)), final(g_).KEYGEN == old(g_).KEYGEN, step(old(g_), final(g_), regex),
@start
    let ghost g0 = *g_;
@end
    proof { lemma_removed(&g0, g_, regex); }
@fn dandy-wasm/src/lib.rs delete_dfa
@sig
    requires ok(old(g_)),
    ensures r == dfas(old(g_)).contains_key(dfa), dfas(final(g_)) == dfas(old(g_)).remove(dfa), nfas(final(g_)) == nfas(old(g_)), regexes(final(g_)) == regexes(old(g_)), final(g_).KEYGEN == old(g_).KEYGEN, step(old(g_), final(g_), dfa),
@start
    let ghost g0 = *g_;
@end
    proof { lemma_removed(&g0, g_, dfa); }
@fn dandy-wasm/src/lib.rs delete_nfa
@sig
    requires ok(old(g_)),
    ensures r == nfas(old(g_)).contains_key(nfa), nfas(final(g_)) == nfas(old(g_)).remove(nfa), dfas(final(g_)) == dfas(old(g_)), regexes(final(g_)) == regexes(old(g_)), final(g_).KEYGEN == old(g_).KEYGEN, step(old(g_), final(g_), nfa),
@start
    let ghost g0 = *g_;
@end
    proof { lemma_removed(&g0, g_, nfa); }
@fn dandy-wasm/src/lib.rs dfa_to_table
@sig
    requires ok(old(g_)),
    ensures unchanged(old(g_), final(g_)), final(g_).KEYGEN == old(g_).KEYGEN, step(old(g_), final(g_), dfa), match r { Some(t) => dfas(old(g_)).contains_key(dfa) && t@ == dtable(&dfas(old(g_))[dfa]), None => !dfas(old(g_)).contains_key(dfa) },
@start
    let ghost g0 = *g_;
    proof { lemma_unchanged(&g0, &g0, dfa); }
@fn dandy-wasm/src/lib.rs draw_dfa
@sig
    requires ok(old(g_)),
    ensures unchanged(old(g_), final(g_)), final(g_).KEYGEN == old(g_).KEYGEN, step(old(g_), final(g_), dfa), r ==> dfas(old(g_)).contains_key(dfa),
@start
    let ghost g0 = *g_;
    proof { lemma_unchanged(&g0, &g0, dfa); }
@fn dandy-wasm/src/lib.rs check_dfa_eq
@sig
    requires ok(old(g_)),
    ensures unchanged(old(g_), final(g_)), final(g_).KEYGEN == old(g_).KEYGEN, step(old(g_), final(g_), dfa1), match r { Some(b) => dfas(old(g_)).contains_key(dfa1) && dfas(old(g_)).contains_key(dfa2) && b == dequiv(&dfas(old(g_))[dfa1], &dfas(old(g_))[dfa2]), None => !(dfas(old(g_)).contains_key(dfa1) && dfas(old(g_)).contains_key(dfa2)) },
@start
    let ghost g0 = *g_;
    proof { lemma_unchanged(&g0, &g0, dfa1); assert(ok_handle(&g0, dfa1)); assert(ok_handle(&g0, dfa2)); }
@fn dandy-wasm/src/lib.rs dfa_to_nfa
@sig
    requires ok(old(g_)), old(g_).KEYGEN.cur < usize::MAX,
    ensures step(old(g_), final(g_), dfa), match r { Some(x) => dfas(old(g_)).contains_key(dfa) && nfas(final(g_)).contains_key(x) && made(old(g_), final(g_), x, Obj::Nfa(nfas(final(g_))[x])) && same_words(&dfas(old(g_))[dfa], &nfas(final(g_))[x]), None => !dfas(old(g_)).contains_key(dfa) && *final(g_) == *old(g_) },
@start
    let ghost g0 = *g_;
    proof { lemma_unchanged(&g0, &g0, dfa); assert(ok_handle(&g0, dfa)); }
@fn dandy-wasm/src/lib.rs nfa_to_table
@sig
    requires ok(old(g_)),
    ensures unchanged(old(g_), final(g_)), final(g_).KEYGEN == old(g_).KEYGEN, step(old(g_), final(g_), nfa), match r { Some(t) => nfas(old(g_)).contains_key(nfa) && t@ == ntable(&nfas(old(g_))[nfa]), None => !nfas(old(g_)).contains_key(nfa) },
@start
    let ghost g0 = *g_;
    proof { lemma_unchanged(&g0, &g0, nfa); }
@fn dandy-wasm/src/lib.rs draw_nfa
@sig
    requires ok(old(g_)),
    ensures unchanged(old(g_), final(g_)), final(g_).KEYGEN == old(g_).KEYGEN, step(old(g_), final(g_), nfa), r ==> nfas(old(g_)).contains_key(nfa),
@start
    let ghost g0 = *g_;
    proof { lemma_unchanged(&g0, &g0, nfa); }
@fn dandy-wasm/src/lib.rs check_nfa_eq
@sig
    requires ok(old(g_)),
    ensures unchanged(old(g_), final(g_)), final(g_).KEYGEN == old(g_).KEYGEN, step(old(g_), final(g_), nfa1), match r { Some(b) => nfas(old(g_)).contains_key(nfa1) && nfas(old(g_)).contains_key(nfa2) && b == nequiv(&nfas(old(g_))[nfa1], &nfas(old(g_))[nfa2]), None => !(nfas(old(g_)).contains_key(nfa1) && nfas(old(g_)).contains_key(nfa2)) },
@start
    let ghost g0 = *g_;
    proof { lemma_unchanged(&g0, &g0, nfa1); assert(ok_handle(&g0, nfa1)); assert(ok_handle(&g0, nfa2)); }
@fn dandy-wasm/src/lib.rs nfa_to_dfa
@sig
    requires ok(old(g_)), old(g_).KEYGEN.cur < usize::MAX,
    ensures step(old(g_), final(g_), nfa), match r { Some(x) => nfas(old(g_)).contains_key(nfa) && dfas(final(g_)).contains_key(x) && made(old(g_), final(g_), x, Obj::Dfa(dfas(final(g_))[x])) && same_words(&dfas(final(g_))[x], &nfas(old(g_))[nfa]), None => !nfas(old(g_)).contains_key(nfa) && *final(g_) == *old(g_) },
@start
    let ghost g0 = *g_;
    proof { lemma_unchanged(&g0, &g0, nfa); assert(ok_handle(&g0, nfa)); }
@fn dandy-wasm/src/lib.rs minimize_dfa
@sig
    requires ok(old(g_)),
    ensures r == dfas(old(g_)).contains_key(dfa), step(old(g_), final(g_), dfa), nfas(final(g_)) == nfas(old(g_)), regexes(final(g_)) == regexes(old(g_)), final(g_).KEYGEN == old(g_).KEYGEN, !r ==> dfas(final(g_)) == dfas(old(g_)), r ==> dfas(final(g_)).contains_key(dfa) && dminimized(&dfas(old(g_))[dfa], &dfas(final(g_))[dfa]) && dfas(final(g_)) == dfas(old(g_)).insert(dfa, dfas(final(g_))[dfa]),
@start
    let ghost g0 = *g_;
    proof { assert(ok_handle(&g0, dfa)); }
@end
    proof { lemma_minimized_step(&g0, g_, dfa); }
@fn dandy-wasm/src/lib.rs regex_to_nfa
@sig
    requires ok(old(g_)), old(g_).KEYGEN.cur < usize::MAX,
    ensures step(old(g_), final(g_), regex), match r { Some(x) => regexes(old(g_)).contains_key(regex) && nfas(final(g_)).contains_key(x) && fresh(old(g_), final(g_), x) && refers(final(g_), regex) is None && dfas(final(g_)) == dfas(old(g_)) && regexes(final(g_)) == regexes(old(g_)).remove(regex) && nfas(final(g_)) == nfas(old(g_)).insert(x, nfas(final(g_))[x]) && (forall|w: Word| #[trigger] naccepts(&nfas(final(g_))[x], w) <==> rlang(regexes(old(g_))[regex].tree, w)), None => !regexes(old(g_)).contains_key(regex) && unchanged(old(g_), final(g_)) && final(g_).KEYGEN == old(g_).KEYGEN },
@start
    let ghost g0 = *g_;
    proof {
        assert(ok_handle(&g0, regex)); assert(ok_handle(&g0, g0.KEYGEN.cur));
        assert forall|g1: Globals| #![trigger ok(&g1)] #![trigger step(&g0, &g1, regex)] g1.KEYGEN == g0.KEYGEN && dfas(&g1) == dfas(&g0) && nfas(&g1) == nfas(&g0) && (regexes(&g1) == regexes(&g0) || regexes(&g1) == regexes(&g0).remove(regex)) implies ok(&g1) && step(&g0, &g1, regex) by { lemma_removed(&g0, &g1, regex); }
        assert(!regexes(&g0).contains_key(regex) ==> regexes(&g0).remove(regex) =~= regexes(&g0));
    }
@end
    proof {
        match ret_ { Some(x) => lemma_moved(&g0, g_, regex, x), None => lemma_unchanged(&g0, g_, regex) }
    }
@fn dandy-wasm/src/lib.rs load_regex
@sig
    requires ok(old(g_)), old(g_).KEYGEN.cur < usize::MAX,
    ensures grown(old(g_), final(g_)), match r { Ok(x) => read_regex(input) is Some && made(old(g_), final(g_), x, Obj::Regex(read_regex(input)->Some_0)), Err(e) => read_regex(input) is None && *final(g_) == *old(g_) },
@start
    let ghost g0 = *g_;
    proof { assert forall|h: usize| #[trigger] step(&g0, &g0, h) by { lemma_unchanged(&g0, &g0, h); } }
@fn dandy-wasm/src/lib.rs load_dfa
@sig
    requires ok(old(g_)), old(g_).KEYGEN.cur < usize::MAX,
    ensures grown(old(g_), final(g_)), match r { Ok(x) => dfas(final(g_)).contains_key(x) && made(old(g_), final(g_), x, Obj::Dfa(dfas(final(g_))[x])) && match read_dfa(input) { Some(p) => pdfa_valid(&p) && pdfa_is(&p, &dfas(final(g_))[x]), None => false }, Err(e) => (match read_dfa(input) { Some(p) => !pdfa_valid(&p), None => true }) && *final(g_) == *old(g_) },
@start
    let ghost g0 = *g_;
    proof { assert forall|h: usize| #[trigger] step(&g0, &g0, h) by { lemma_unchanged(&g0, &g0, h); } }
@fn dandy-wasm/src/lib.rs load_nfa
@sig
    requires ok(old(g_)), old(g_).KEYGEN.cur < usize::MAX,
    ensures grown(old(g_), final(g_)), match r { Ok(x) => nfas(final(g_)).contains_key(x) && made(old(g_), final(g_), x, Obj::Nfa(nfas(final(g_))[x])) && match read_nfa(input) { Some(p) => pnfa_valid(&p) && pnfa_is(&p, &nfas(final(g_))[x]), None => false }, Err(e) => (match read_nfa(input) { Some(p) => !pnfa_valid(&p), None => true }) && *final(g_) == *old(g_) },
@start
    let ghost g0 = *g_;
    proof { assert forall|h: usize| #[trigger] step(&g0, &g0, h) by { lemma_unchanged(&g0, &g0, h); } }
