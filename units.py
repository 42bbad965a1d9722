"""What each check proves and runs."""
STD = ["std model in contracts/prelude.vc: HashSet/HashMap/Vec/iterators/String behave as documented (external_body contracts)",
       "hash iteration order is arbitrary; hashing and equality of keys agree"]
GEN = ("automata, words and texts are drawn from the seeded generators of harness/src/gen.rs: small exhaustive families first, then random "
       "ones with up to about 8 states and 4 symbols, multi-character and combining symbols, duplicate-looking names, permuted alphabets; a case is "
       "non-trivial when its input has more than one state or symbol (or a non-empty word / tree / text) and was not run before")
PROPS = {}

def acyclic(groups):
    """every imported unit is proved by exactly one other group, and no unit's proof rests on itself: a unit may use
    only what stands before it in its group"""
    proved = {}
    for g in groups:
        for i, u in enumerate(g):
            if not u.startswith("use:"):
                assert u not in proved, u
                proved[u] = [x.removeprefix("use:") for x in g[:i]]
    for g in groups:
        for u in g:
            assert u.removeprefix("use:") in proved, u
    done, active = set(), set()
    def visit(u):
        if u in done:
            return
        assert u not in active, u
        active.add(u)
        for x in proved[u]:
            visit(x)
        active.discard(u)
        done.add(u)
    for u in proved:
        visit(u)

def prop(pid, units, theorems, bounded, level=None, rounds=8, assumptions=(), rule=GEN, clauses=None, sites=None):
    groups = [] if not units else units if isinstance(units[0], list) else [units]
    acyclic(groups)
    PROPS[pid] = {"groups": groups, "theorems": theorems, "bounded": bounded, "level": level or ("proof" if units else "exploration"),
                  "rounds": rounds, "assumptions": (STD if units else []) + list(assumptions), "rule": rule, "clauses": clauses, "sites": sites}

prop("C01", ["util", "dfa_base", "dfa_get", "dfa_eval"], ["Dfa::accepts", "Dfa::accepts_graphemes", "DfaEvaluator::step", "DfaEvaluator::step_multiple"],
     "DFAs with at most 8 states, words of up to 12 symbols, against direct table look-up",
     assumptions=["the splitting of a text into grapheme clusters (unicode-segmentation) is uninterpreted"])
prop("C02", ["util", "nfa_base", "nfa_get", "nfa_close", "nfa_eval"], ["Nfa::accepts", "Nfa::accepts_graphemes", "Nfa::closure", "NfaEvaluator::step", "NfaEvaluator::step_multiple"],
     "NFAs with at most 8 states, words of up to 12 symbols, against path search",
     assumptions=["the splitting of a text into grapheme clusters (unicode-segmentation) is uninterpreted"])
prop("C03", ["util", "dfa_base", "dfa_get", "dfa_eval", "frontier", "dfa_prod", "dfa_comb"], ["Dfa::union", "Dfa::intersection", "Dfa::difference", "Dfa::symmetric_difference", "Dfa::product_construction"],
     "pairs of DFAs with at most 8 states; languages compared exactly by pair exploration")
prop("C04", ["util", "dfa_base", "dfa_get", "dfa_eval", "frontier", "dfa_prod", "dfa_equiv"], ["Dfa::equivalent_to", "alphabet_equal"],
     "pairs of DFAs with at most 8 states; verdict compared with exact pair exploration")
prop("C05", ["util", "nfa_base", "nfa_get", "nfa_close", "nfa_eval", "nfa_sets", "nfa_equiv"], ["Nfa::equivalent_to", "Nfa::set_to_vec", "alphabet_equal"],
     "pairs of NFAs with at most 8 states; verdict compared with exact subset exploration")
prop("C06", [["util", "dfa_base", "dfa_get", "dfa_eval", "remove", "dfa_reach", "dfa_remove"],
             ["use:util", "use:dfa_base", "use:dfa_get", "use:dfa_eval", "use:remove", "use:dfa_reach", "use:dfa_remove", "hopcroft"],
             ["use:util", "use:dfa_base", "use:dfa_get", "use:dfa_eval", "use:remove", "use:dfa_reach", "use:dfa_remove", "use:hopcroft", "dfa_merge", "dfa_min"]],
     ["Dfa::minimize", "Dfa::merge_nondistinguishable_states", "Dfa::state_equivalence_classes", "Dfa::state_equivalence_classes_idx", "Dfa::remove_states", "theorem_minimize"], "DFAs with at most 10 states; language by pair exploration, size by Moore refinement")
prop("C07", ["util", "dfa_base", "nfa_base", "nfa_get", "nfa_close", "nfa_eval", "nfa_sets", "nfa_dfa"], ["Nfa::to_dfa", "Nfa::set_to_vec", "NfaEvaluator::step_all"], "NFAs with at most 8 states; languages compared exactly")
prop("C08", [["util", "dfa_base", "remove", "nfa_base", "nfa_get", "nfa_close", "nfa_eval", "nfa_name", "nfa_remap", "nfa_cut", "nfa_reach", "nfa_remove"],
             ["use:util", "use:dfa_base", "use:remove", "use:nfa_base", "use:nfa_get", "use:nfa_close", "use:nfa_eval", "use:nfa_name", "use:nfa_remap", "use:nfa_cut", "use:nfa_reach", "use:nfa_remove", "nfa_eps", "nfa_opt"]],
     ["Nfa::remove_epsilon_moves", "Nfa::has_epsilon_moves", "Nfa::optimize", "Nfa::remove_states", "Nfa::fresh_name"], "NFAs with at most 8 states; languages compared exactly",
     assumptions=["the number counter of fresh_name (i32 in the source) is read as usize: exact below 2^31 states"])
prop("C09", [["util", "dfa_base", "remove", "dfa_reach", "dfa_remove"],
             ["use:util", "use:dfa_base", "use:remove", "nfa_base", "nfa_get", "nfa_close", "nfa_eval", "nfa_remap", "nfa_cut"],
             ["use:util", "use:dfa_base", "use:remove", "use:nfa_base", "use:nfa_get", "use:nfa_close", "use:nfa_eval", "use:nfa_remap", "use:nfa_cut", "nfa_reach", "nfa_remove"]],
     ["Dfa::reachable_state_idx", "Dfa::unreachable_state_idx", "Dfa::reachable_states", "Dfa::unreachable_states", "Dfa::has_reachable_accepting_state", "Dfa::remove_unreachable_states",
      "Nfa::reachable_state_idx", "Nfa::unreachable_state_idx", "Nfa::reachable_states", "Nfa::unreachable_states", "Nfa::has_reachable_accepting_state", "Nfa::remove_unreachable_states"],
     "DFAs and NFAs with at most 10 states; reachable set by closure")
prop("C10", ["util", "dfa_base", "remove", "nfa_base", "nfa_name", "nfa_remap", "nfa_embed", "nfa_union"], ["Nfa::union", "Nfa::fresh_name", "Nfa::remap_transitions", "alphabet_equal"],
     "pairs of NFAs with at most 6 states; languages compared exactly",
     assumptions=["the number counter of fresh_name and of the renaming (i32 in the source) is read as usize: exact below 2^31 states"])
prop("C11", ["util", "dfa_base", "nfa_base", "frontier", "nfa_prod"], ["Nfa::intersection", "Nfa::product_construction", "alphabet_equal"], "pairs of NFAs with at most 6 states; languages compared exactly")
prop("C12", ["util", "dfa_base", "nfa_base", "nfa_get", "nfa_close", "words_base", "words_mat", "words", "words_iter"],
     ["WordComponentIndices::put_next", "WordComponentIndices::next_word", "WordComponentIndices::min_word", "WordComponentIndices::generate_matrices_up_to", "theorem_words", "theorem_iacc", "theorem_nums"],
     "NFAs with at most 6 states; all words up to a length of 5 to 8", rounds=2,
     assumptions=["nalgebra's matrix product is, per element, the sum of the products by NumBool's own operations (which are under contract)", "vectors hold at most isize::MAX items"])
prop("C13", ["util", "dfa_base", "nfa_base", "parse_base", "parse_dfa", "parse_nfa", "nom", "grammar", "tparse", "table", "roundtrip"],
     ["Table::push_row", "Table::to_string", "Dfa::gen_table", "Dfa::to_table", "Dfa::ascii_table", "Nfa::gen_table", "Nfa::to_table", "Nfa::ascii_table", "TryFrom<ParsedDfa> for Dfa::try_from", "TryFrom<ParsedNfa> for Nfa::try_from",
      "theorem_dfa_text", "theorem_nfa_text", "theorem_round_trip_dfa", "theorem_round_trip_nfa"],
     "DFAs and NFAs with at most 8 states and printable names",
     assumptions=["the combinators of nom 7.1.3 on texts (contracts/nom.vc, written from their sources); the functions of parser/fa.rs and parser::dfa, parser::nfa are translated token by token into compositions of that model on every run (@grammar)",
                  "char::is_whitespace: true on blanks and line ends, false on printable ASCII and ε, left open elsewhere", "derived Default of Table is the empty table",
                  "a text and a vector hold at most isize::MAX items"])
prop("C14", ["util", "dfa_base", "nfa_base", "parse_base", "parse_dfa", "parse_nfa"], ["TryFrom<ParsedDfa> for Dfa::try_from", "TryFrom<ParsedNfa> for Nfa::try_from", "theorem_pdfa_defect", "theorem_pnfa_defect"], "parsed automata with at most 5 states, valid and broken in every documented way",
     assumptions=["reading the text into rows (nom grammar in parser/fa.rs) is not part of this proof: C13 is about the grammar; the bounded harness covers both"])
prop("C15", ["util", "dfa_base", "nfa_base", "nfa_embed", "regex_lang", "regex_frag", "regex_paths", "regex_nfa"], ["Regex::to_nfa", "Regex::tree_to_nfa", "StateCounter::next", "theorem_regex_nfa"], "regex trees of up to about 12 nodes; language by subset construction on an independent position automaton",
     assumptions=["the expression has at most usize::MAX - 2 nodes", "the decimal texts of different numbers differ"])
prop("C16", ["util", "nfa_base", "regex_lang", "nom", "rgrammar", "rsyntax", "rprint", "rmean", "rfns", "rround", "rread"],
     ["Regex::build_string", "Regex::to_string", "one_cluster", "theorem_syntax", "theorem_meaning", "theorem_printed", "theorem_reads", "theorem_read_back", "theorem_round_trip", "theorem_accepted", "theorem_exact"],
     "regex trees of up to about 12 nodes, random texts in and out of the syntax",
     assumptions=["the combinators of nom 7.1.3 on texts (contracts/nom.vc, written from their sources); the functions of parser/regex.rs and parser::regex are translated token by token into compositions of that model on every run (@grammar), one_cluster is under contract",
                  "recursion of the grammar is taken as deep as the text needs (the running parser has a finite stack)",
                  "crate unicode-segmentation (contracts/rfns.vc, rprint.vc): clusters end at the first boundary, whether there is a boundary depends on the text before it and the next character, the search starts anew at a boundary and behind a backslash, there is a boundary between two of the eight operators (UAX #29); GraphemeCursor::is_boundary on the whole text agrees with the clusters",
                  "char::is_whitespace is false on printable ASCII; a character takes at least one byte of UTF-8",
                  "printing: expressions in which no symbol joins an operator written behind it (the others are the known finding cluster-prepend)"])
prop("C17", [["util", "dfa_base", "dfa_get", "nfa_base", "nfa_get", "arrows", "ascii"],
             ["use:" + x for x in ["util", "dfa_base", "dfa_get", "nfa_base", "nfa_get", "arrows", "ascii"]] + ["draw"]],
     ["draw", "draw_dfa", "draw_nfa", "draw_dfa_with_opts", "draw_nfa_with_opts", "theorem_shown", "theorem_tops_apart", "ascii_art", "dfa_ascii_art", "nfa_ascii_art", "theorem_ascii_picture", "State::from_dfa", "State::from_nfa", "Arrow::new", "dfa_to_arrows", "nfa_to_arrows", "group_arrows", "place_arrows", "theorem_drawing", "theorem_group_spans", "theorem_dfa_ends", "theorem_nfa_ends"],
     "DFAs and NFAs with at most 10 states, drawn through a recording Drawer",
     assumptions=["draw and ascii_art themselves (floating point positions, bytes of the picture) are not under contract: the bounded harness draws through a recording Drawer"])
prop("C20", ["util", "dfa_base", "nfa_base", "dfa_nfa"], ["Dfa::to_nfa", "Nfa::from", "NfaState::from"], "DFAs with at most 8 states; languages compared exactly")
prop("C21", ["util", "dfa_base", "dfa_get", "dfa_eval", "dfa_ops"], ["Dfa::invert"],
     "DFAs with at most 8 states; languages compared exactly")
WF_DFA = ["util", "dfa_base", "dfa_get", "dfa_eval"]
WF_NFA = ["nfa_base", "nfa_get", "nfa_close", "nfa_eval"]
def use(l):
    return ["use:" + x for x in l]
prop("C22", [
    WF_DFA + ["frontier", "dfa_prod", "dfa_comb", "dfa_equiv", "dfa_ops"],
    use(WF_DFA) + ["remove", "dfa_reach", "dfa_remove"],
    use(WF_DFA + ["remove", "dfa_reach", "dfa_remove"]) + ["hopcroft"],
    use(WF_DFA + ["remove", "dfa_reach", "dfa_remove", "hopcroft"]) + ["dfa_merge", "dfa_min"],
    use(WF_DFA + ["remove"]) + WF_NFA + ["nfa_name", "nfa_remap", "nfa_cut"],
    use(WF_DFA + ["remove"] + WF_NFA + ["nfa_name", "nfa_remap", "nfa_cut"]) + ["nfa_reach", "nfa_remove"],
    use(WF_DFA + ["remove"] + WF_NFA + ["nfa_name", "nfa_remap", "nfa_cut", "nfa_reach", "nfa_remove"]) + ["nfa_eps", "nfa_opt"],
    use(WF_DFA + WF_NFA) + ["nfa_sets", "nfa_equiv", "nfa_dfa"],
    use(["util", "dfa_base", "remove", "nfa_base", "nfa_name", "nfa_remap"]) + ["nfa_embed", "nfa_union"],
    use(["util", "dfa_base", "nfa_base", "frontier"]) + ["nfa_prod"],
    use(["util", "dfa_base", "nfa_base", "nfa_embed"]) + ["regex_lang", "regex_frag", "regex_paths", "regex_nfa"],
    use(["util", "dfa_base", "nfa_base"]) + ["parse_base", "parse_dfa", "parse_nfa"],
    use(["util", "dfa_base", "dfa_get", "dfa_eval", "remove", "dfa_reach", "dfa_remove", "hopcroft", "dfa_merge", "dfa_min", "dfa_ops"]
        + WF_NFA + ["nfa_name", "nfa_remap", "nfa_cut", "nfa_reach", "nfa_remove", "nfa_eps"]) + ["dfa_nfa", "wellformed"],
], ["Dfa::union", "Dfa::product_construction", "Dfa::invert", "Dfa::minimize", "Dfa::merge_nondistinguishable_states", "Dfa::remove_states", "Dfa::remove_unreachable_states",
    "Dfa::to_nfa", "Nfa::to_dfa", "Nfa::union", "Nfa::product_construction", "Nfa::fresh_name", "Nfa::remove_states", "Nfa::remove_epsilon_moves", "Nfa::optimize", "Regex::to_nfa",
    "Dfa::try_from", "Nfa::try_from", "theorem_wf_history"],
    "every automaton returned in random call sequences over the public API",
    clauses=r"\bwf\b|wf_but|names|core\(|nstates?_ok|initial ==|initial_state|alpha_distinct|transitions@\.len",
    assumptions=["the number counters of generated names (i32 in the source) are read as usize: exact below 2^31 states",
                 "a clone of an automaton equals it (derived Clone)"])
LIB_DFA = WF_DFA + ["frontier", "dfa_prod", "dfa_equiv", "remove", "dfa_reach", "dfa_remove", "hopcroft", "dfa_merge", "dfa_min"]
LIB_NFA = WF_NFA + ["nfa_sets", "nfa_equiv", "nfa_dfa", "dfa_nfa", "nfa_embed", "regex_lang", "regex_frag", "regex_paths", "regex_nfa", "parse_base", "parse_dfa", "parse_nfa"]
LIB = [
    WF_DFA + ["frontier", "dfa_prod", "dfa_equiv"],
    use(WF_DFA) + ["remove", "dfa_reach", "dfa_remove"],
    use(WF_DFA + ["remove", "dfa_reach", "dfa_remove"]) + ["hopcroft"],
    use(WF_DFA + ["remove", "dfa_reach", "dfa_remove", "hopcroft"]) + ["dfa_merge", "dfa_min"],
    use(WF_DFA) + WF_NFA + ["nfa_sets", "nfa_equiv"],
    use(WF_DFA + WF_NFA + ["nfa_sets"]) + ["nfa_dfa", "dfa_nfa"],
    use(["util", "dfa_base", "nfa_base"]) + ["nfa_embed", "regex_lang", "regex_frag", "regex_paths", "regex_nfa"],
    use(["util", "dfa_base", "nfa_base"]) + ["parse_base", "parse_dfa", "parse_nfa"],
    use(LIB_DFA + LIB_NFA) + ["outside"],
]
prop("C19", LIB + [use(LIB_DFA + LIB_NFA + ["outside"]) + ["cli"]], ["Automata::test_equivalence", "Automata::load_test", "Automata::into_minimized_dfa", "Automata::prepare_to_compare_with", "DandyTester::new", "DandyTester::test_equivalence", "theorem_cli",
    "Dfa::equivalent_to", "Nfa::equivalent_to", "Dfa::minimize", "Nfa::to_dfa", "Regex::to_nfa", "Dfa::try_from", "Nfa::try_from"],
    "pairs of automata files of every kind run through the built dandy-cli", sites=r"dandy-cli/|contracts/cli|cli\.vc",
    assumptions=["reading a file and reading a text into an automaton description (nom grammars) are uninterpreted functions of the path and of the text",
                 "an expression has at most usize::MAX - 2 nodes", "terminal output is dropped", "a clone of an automaton equals it (derived Clone)",
                 "equivalence(), main and the argument parser are not under contract: the bounded harness runs the built command line"])
prop("C18", LIB + [use(LIB_DFA + LIB_NFA + ["outside"]) + ["wasm"]],
    ["initial_globals", "gen_key", "push_dfa", "push_nfa", "push_regex", "load_dfa", "load_nfa", "load_regex", "delete_dfa", "delete_nfa", "delete_regex", "dfa_to_nfa", "nfa_to_dfa", "regex_to_nfa",
     "minimize_dfa", "check_dfa_eq", "check_nfa_eq", "dfa_to_table", "nfa_to_table", "draw_dfa", "draw_nfa", "theorem_handles"],
    "sequences of up to 30 handle operations against a per-handle model", sites=r"dandy-wasm/|contracts/wasm|wasm\.vc",
    assumptions=["the statics of thread_local! are gathered in a struct that every function gets as a first parameter: one thread, no re-entrance into a borrowed cell (a nested borrow does not type-check in the extracted text)",
                 "fewer than usize::MAX handles are made", "reading a text into an automaton description (nom grammars) is an uninterpreted function of the text",
                 "printing a table is an uninterpreted function of the automaton (C13)", "an expression has at most usize::MAX - 2 nodes",
                 "the browser (window, document, canvas) and the drawing of a copy touch no handle; wasm_bindgen's generated glue is not looked at", "a clone of an automaton equals it (derived Clone)"])
