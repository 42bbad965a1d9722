@raw
// ------------------------------------------------------------------ the moves of the automaton of a tree
pub open spec fn ctx(n: &Nfa, s: Syms) -> bool { n.core() && n.alphabet@.map_values(|x: Str| x@) == s && n.n() <= usize::MAX }
// the states c0.. of n stand for t
pub open spec fn at(n: &Nfa, t: RegexTree, c0: int, out: usize, s: Syms) -> bool { 0 <= c0 && c0 + nodes(t) <= n.n() && frag(t, sub(n.states@, c0, nodes(t)), c0, out, s) }
pub proof fn lemma_eps_edges(n: &Nfa, p: usize, e: Seq<usize>)
    requires n.core(), p < n.n(), node_eps(n.states@[p as int], e),
    ensures forall|q: usize| #[trigger] eedge(n, p, q) <==> e.contains(q), forall|c: Seq<char>, q: usize| !#[trigger] sedge(n, p, c, q),
{
    assert(nstate_ok(n.states@[p as int], n.alphabet@.len(), n.n()));
    assert forall|c: Seq<char>, q: usize| !#[trigger] sedge(n, p, c, q) by {
        if has_sym(n.alphabet@, c) { assert(n.states@[p as int].transitions@[sym_idx(n.alphabet@, c)]@.len() == 0); }
    }
}
pub proof fn lemma_chr_edges(n: &Nfa, s: Syms, p: usize, g: Seq<char>, out: usize)
    requires ctx(n, s), p < n.n(), node_chr(n.states@[p as int], g, s, out),
    ensures forall|q: usize| !#[trigger] eedge(n, p, q), forall|c: Seq<char>, q: usize| #[trigger] sedge(n, p, c, q) <==> c == g && q == out,
{
    let x = n.states@[p as int];
    assert(nstate_ok(x, n.alphabet@.len(), n.n()));
    let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == g && row_chr(x.transitions@, i, out);
    assert(n.alphabet@.map_values(|x: Str| x@)[i] == s[i]);
    assert(n.alphabet@[i]@ == g);
    assert(n.alphabet@.len() == s.len());
    assert(sym_idx(n.alphabet@, g) == i);
    assert(seq![out].contains(out)) by { assert(seq![out][0] == out); }
    assert forall|c: Seq<char>, q: usize| #[trigger] sedge(n, p, c, q) <==> c == g && q == out by {
        if has_sym(n.alphabet@, c) {
            let j = sym_idx(n.alphabet@, c);
            assert(n.alphabet@[j]@ == c);
            assert(x.transitions@[j]@ == (if j == i { seq![out] } else { Seq::<usize>::empty() }));
        }
    }
}
// the parts of a sequence
pub open spec fn sat(n: &Nfa, x: Seq<RegexTree>, base: int, out: usize, s: Syms) -> bool {
    0 <= base && base + snodes(x, x.len() as int) <= n.n() && forall|i: int| #[trigger] ridx_(i) && 0 <= i < x.len() ==> sitem(x, i, sub(n.states@, base, snodes(x, x.len() as int)), base, out, s)
}
pub proof fn lemma_sat_item(n: &Nfa, x: Seq<RegexTree>, i: int, base: int, out: usize, s: Syms)
    requires sat(n, x, base, out, s), 0 <= i < x.len(),
    ensures 0 <= snodes(x, i), snodes(x, i + 1) == snodes(x, i) + 1 + nodes(x[i]), snodes(x, i + 1) <= snodes(x, x.len() as int), nodes(x[i]) >= 1, i + 1 < x.len() ==> snodes(x, i + 1) + 2 <= snodes(x, x.len() as int),
        node_eps(n.states@[base + snodes(x, i)], seq![if i + 1 == x.len() { out } else { us(base + snodes(x, i + 1) + 1) }]),
        at(n, x[i], base + snodes(x, i) + 1, us(base + snodes(x, i)), s),
{
    let b = sub(n.states@, base, snodes(x, x.len() as int));
    lemma_snodes_mono(x, 0, i); lemma_snodes_mono(x, i, i + 1); lemma_snodes_mono(x, i + 1, x.len() as int);
    lemma_nodes_pos(x[i]);
    assert(ridx_(i));
    assert(sitem(x, i, b, base, out, s));
    let o = snodes(x, i);
    assert(sub(b, o + 1, nodes(x[i])) =~= sub(n.states@, base + o + 1, nodes(x[i])));
}
pub proof fn lemma_at_seq(n: &Nfa, x: Vec<RegexTree>, c0: int, out: usize, s: Syms)
    requires at(n, RegexTree::Sequence(x), c0, out, s),
    ensures sat(n, x@, c0 + 1, out, s), node_eps(n.states@[c0], if x@.len() == 0 { seq![out] } else { seq![us(c0 + 2)] }),
{
    let t = RegexTree::Sequence(x);
    lemma_nodes_pos(t);
    let st = sub(n.states@, c0, nodes(t));
    let b = sub(n.states@, c0 + 1, snodes(x@, x@.len() as int));
    lemma_snodes_mono(x@, 0, x@.len() as int);
    assert(st.skip(1) =~= b);
    assert(frag(t, st, c0, out, s));
    assert forall|i: int| #[trigger] ridx_(i) && 0 <= i < x@.len() implies sitem(x@, i, b, c0 + 1, out, s) by { assert(sitem(x@, i, st.skip(1), c0 + 1, out, s)); }
}
pub proof fn lemma_at_alt(n: &Nfa, x: Vec<RegexTree>, i: int, c0: int, out: usize, s: Syms)
    requires at(n, RegexTree::Alt(x), c0, out, s), 0 <= i < x@.len(),
    ensures at(n, x@[i], c0 + 1 + anodes(x@, i), out, s), 0 <= anodes(x@, i), anodes(x@, i) + nodes(x@[i]) <= anodes(x@, x@.len() as int), nodes(x@[i]) >= 1,
{
    let t = RegexTree::Alt(x);
    let st = sub(n.states@, c0, nodes(t));
    lemma_anodes_mono(x@, 0, i); lemma_anodes_mono(x@, i, i + 1); lemma_anodes_mono(x@, i + 1, x@.len() as int);
    lemma_nodes_pos(x@[i]);
    assert(ridx_(i));
    assert(frag(t, st, c0, out, s));
    assert(aitem(x@, i, st.skip(1), c0 + 1, out, s));
    assert(sub(st.skip(1), anodes(x@, i), nodes(x@[i])) =~= sub(n.states@, c0 + 1 + anodes(x@, i), nodes(x@[i])));
}
pub proof fn lemma_at_rep(n: &Nfa, r: Box<RegexTree>, c0: int, out: usize, s: Syms)
    requires at(n, RegexTree::Repeat(r), c0, out, s),
    ensures at(n, *r, c0 + 1, us(c0), s), node_eps(n.states@[c0], seq![us(c0 + 1), out]),
{
    let t = RegexTree::Repeat(r);
    lemma_nodes_pos(*r);
    let st = sub(n.states@, c0, nodes(t));
    assert(frag(t, st, c0, out, s));
    assert(st.skip(1) =~= sub(n.states@, c0 + 1, nodes(*r)));
}
// ------------------------------------------------------------------ every path through the states of t reads a word of t
// after i symbols and all but j moves the path is at out
pub open spec fn passes(n: &Nfa, t: RegexTree, out: usize, w: Word, q: usize, k: nat, i: int, j: nat) -> bool { 0 <= i <= w.len() && j < k && rlang(t, w.take(i)) && npath(n, out, w.skip(i), q, j) }
pub open spec fn spasses(n: &Nfa, x: Seq<RegexTree>, i0: int, out: usize, w: Word, q: usize, k: nat, i: int, j: nat) -> bool { 0 <= i <= w.len() && j < k && slang(x, i0, w.take(i)) && npath(n, out, w.skip(i), q, j) }
// the only move from p is an ε move to r
pub proof fn lemma_first_eps(n: &Nfa, p: usize, e: Seq<usize>, w: Word, q: usize, k: nat) -> (r: usize)
    requires n.core(), p < n.n(), node_eps(n.states@[p as int], e), npath(n, p, w, q, k), p != q,
    ensures k > 0, e.contains(r), npath(n, r, w, q, (k - 1) as nat),
{
    reveal_with_fuel(npath, 2);
    lemma_eps_edges(n, p, e);
    lemma_npath_first(n, p, w, q, k);
    if exists|r: usize| #[trigger] first_e(n, p, w, q, k, r) {
        choose|r: usize| #[trigger] first_e(n, p, w, q, k, r)
    } else {
        let r = choose|r: usize| #[trigger] first_s(n, p, w, q, k, r);
        assert(sedge(n, p, w[0], r));
        r
    }
}
pub proof fn lemma_passes(n: &Nfa, t: RegexTree, c0: int, out: usize, s: Syms, w: Word, q: usize, k: nat) -> (r: (int, nat))
    requires ctx(n, s), at(n, t, c0, out, s), npath(n, us(c0), w, q, k), !(c0 <= q < c0 + nodes(t)),
    ensures passes(n, t, out, w, q, k, r.0, r.1),
    decreases t, k,
{
    lemma_nodes_pos(t);
    let p = us(c0);
    let k1 = (k - 1) as nat;
    let st = sub(n.states@, c0, nodes(t));
    assert(st[0] == n.states@[c0]);
    assert(frag(t, st, c0, out, s));
    assert(w.take(0) =~= eword() && w.skip(0) =~= w);
    match t {
        RegexTree::Sequence(x) => {
            lemma_at_seq(n, x, c0, out, s);
            lemma_snodes_mono(x@, 0, x@.len() as int);
            if x@.len() == 0 {
                let r = lemma_first_eps(n, p, seq![out], w, q, k);
                assert(r == out);
                assert(slang(x@, 0, eword()));
                (0, k1)
            } else {
                let r = lemma_first_eps(n, p, seq![us(c0 + 2)], w, q, k);
                assert(r == us(c0 + 2));
                lemma_spasses(n, x@, 0, c0 + 1, out, s, w, q, k1)
            }
        },
        RegexTree::Alt(x) => {
            let e = Seq::new(x@.len(), |i: int| us(c0 + 1 + anodes(x@, i)));
            let r = lemma_first_eps(n, p, e, w, q, k);
            let i = choose|i: int| 0 <= i < e.len() && e[i] == r;
            lemma_at_alt(n, x, i, c0, out, s);
            let (m, j) = lemma_passes(n, x@[i], c0 + 1 + anodes(x@, i), out, s, w, q, k1);
            assert(rlang(x@[i], w.take(m)));
            (m, j)
        },
        RegexTree::Repeat(r) => {
            lemma_at_rep(n, r, c0, out, s);
            let e = seq![us(c0 + 1), out];
            let d = lemma_first_eps(n, p, e, w, q, k);
            assert(d == e[0] || d == e[1]);
            if d == out && d != us(c0 + 1) {
                assert(nat_(0)); assert(replang(*r, 0, eword()));
                (0, k1)
            } else {
                let (m, j) = lemma_passes(n, *r, c0 + 1, us(c0), s, w, q, k1);
                let v = w.skip(m);
                let (m2, j2) = lemma_passes(n, t, c0, out, s, v, q, j);
                let a = w.take(m + m2);
                assert(rlang(t, v.take(m2)));
                let c = choose|c: nat| #[trigger] nat_(c) && replang(*r, c, v.take(m2));
                assert(a.take(m) =~= w.take(m) && a.skip(m) =~= v.take(m2));
                assert(nat_(c + 1));
                assert(replang(*r, c + 1, a)) by { assert(rlang(*r, a.take(m)) && replang(*r, (c + 1 - 1) as nat, a.skip(m))); }
                assert(w.skip(m + m2) =~= v.skip(m2));
                (m + m2, j2)
            }
        },
        RegexTree::Char(RegexChar::Grapheme(g)) => {
            lemma_chr_edges(n, s, p, g@, out);
            reveal_with_fuel(npath, 2);
            lemma_npath_first(n, p, w, q, k);
            if exists|r: usize| #[trigger] first_e(n, p, w, q, k, r) {
                let r = choose|r: usize| #[trigger] first_e(n, p, w, q, k, r);
                assert(eedge(n, p, r));
                (0, k1)
            } else {
                let r = choose|r: usize| #[trigger] first_s(n, p, w, q, k, r);
                assert(sedge(n, p, w[0], r));
                assert(w.take(1) =~= seq![g@]);
                assert(w.skip(1) =~= w.drop_first());
                (1, k1)
            }
        },
        RegexTree::Char(RegexChar::Epsilon) => {
            let r = lemma_first_eps(n, p, seq![out], w, q, k);
            assert(r == out);
            (0, k1)
        },
        RegexTree::Char(RegexChar::Empty) => {
            let r = lemma_first_eps(n, p, Seq::<usize>::empty(), w, q, k);
            (0, k1)
        },
    }
}
// from the first state of the i-th item
pub proof fn lemma_spasses(n: &Nfa, x: Seq<RegexTree>, i: int, base: int, out: usize, s: Syms, w: Word, q: usize, k: nat) -> (r: (int, nat))
    requires ctx(n, s), sat(n, x, base, out, s), 0 <= i < x.len(), npath(n, us(base + snodes(x, i) + 1), w, q, k), !(base <= q < base + snodes(x, x.len() as int)),
    ensures spasses(n, x, i, out, w, q, k, r.0, r.1),
    decreases x, x.len() - i,
{
    lemma_sat_item(n, x, i, base, out, s);
    let o = base + snodes(x, i);
    let (m, j) = lemma_passes(n, x[i], o + 1, us(o), s, w, q, k);
    let v = w.skip(m);
    let d = if i + 1 == x.len() { out } else { us(base + snodes(x, i + 1) + 1) };
    let r = lemma_first_eps(n, us(o), seq![d], v, q, j);
    assert(r == d);
    let j1 = (j - 1) as nat;
    let (m2, j2) = if i + 1 == x.len() { (0int, j1) } else { lemma_spasses(n, x, i + 1, base, out, s, v, q, j1) };
    assert(v.take(0) =~= eword() && v.skip(0) =~= v);
    let a = w.take(m + m2);
    assert(slang(x, i + 1, v.take(m2)));
    assert(a.take(m) =~= w.take(m) && a.skip(m) =~= v.take(m2));
    assert(slang(x, i, a)) by { assert(rlang(x[i], a.take(m)) && slang(x, i + 1, a.skip(m))); }
    assert(w.skip(m + m2) =~= v.skip(m2));
    (m + m2, j2)
}
// ------------------------------------------------------------------ every word of t has a path
pub proof fn lemma_nreach_cat3(n: &Nfa, p: usize, a: usize, u: Word, b: usize, v: Word, q: usize)
    requires eedge(n, p, a), nreach(n, a, u, b), nreach(n, b, v, q),
    ensures nreach(n, p, u + v, q),
{
    lemma_nreach_concat(n, a, u, b, v, q);
    lemma_nreach_from_eedge(n, p, a, u + v, q);
}
pub proof fn lemma_reads(n: &Nfa, t: RegexTree, c0: int, out: usize, s: Syms, w: Word)
    requires ctx(n, s), at(n, t, c0, out, s), rlang(t, w),
    ensures nreach(n, us(c0), w, out),
    decreases t, 0nat, 0nat,
{
    lemma_nodes_pos(t);
    let p = us(c0);
    let st = sub(n.states@, c0, nodes(t));
    assert(st[0] == n.states@[c0]);
    assert(frag(t, st, c0, out, s));
    lemma_nreach_refl(n, out);
    match t {
        RegexTree::Sequence(x) => {
            lemma_at_seq(n, x, c0, out, s);
            let e = if x@.len() == 0 { seq![out] } else { seq![us(c0 + 2)] };
            lemma_eps_edges(n, p, e);
            assert(e.contains(e[0]));
            if x@.len() == 0 { assert(slang(x@, 0, w)); assert(w =~= eword()); lemma_nreach_from_eedge(n, p, out, eword(), out); }
            else { lemma_sreads(n, x@, 0, c0 + 1, out, s, w); lemma_nreach_from_eedge(n, p, us(c0 + 2), w, out); }
        },
        RegexTree::Alt(x) => {
            let e = Seq::new(x@.len(), |i: int| us(c0 + 1 + anodes(x@, i)));
            lemma_eps_edges(n, p, e);
            let i = choose|i: int| 0 <= i < x@.len() && rlang(#[trigger] x@[i], w);
            lemma_at_alt(n, x, i, c0, out, s);
            lemma_reads(n, x@[i], c0 + 1 + anodes(x@, i), out, s, w);
            assert(e.contains(e[i]));
            lemma_nreach_from_eedge(n, p, e[i], w, out);
        },
        RegexTree::Repeat(r) => {
            lemma_at_rep(n, r, c0, out, s);
            let c = choose|c: nat| #[trigger] nat_(c) && replang(*r, c, w);
            lemma_rreads(n, *r, c0, out, s, w, c);
        },
        RegexTree::Char(RegexChar::Grapheme(g)) => {
            lemma_chr_edges(n, s, p, g@, out);
            lemma_nreach_refl(n, p);
            lemma_nreach_sedge(n, p, eword(), p, g@, out);
            assert(eword().push(g@) =~= w);
        },
        RegexTree::Char(RegexChar::Epsilon) => {
            let e = seq![out];
            lemma_eps_edges(n, p, e);
            assert(e.contains(e[0]));
            assert(w =~= eword());
            lemma_nreach_from_eedge(n, p, out, eword(), out);
        },
        RegexTree::Char(RegexChar::Empty) => {},
    }
}
pub proof fn lemma_rreads(n: &Nfa, r: RegexTree, c0: int, out: usize, s: Syms, w: Word, c: nat)
    requires ctx(n, s), 0 <= c0, at(n, r, c0 + 1, us(c0), s), node_eps(n.states@[c0], seq![us(c0 + 1), out]), replang(r, c, w),
    ensures nreach(n, us(c0), w, out),
    decreases r, 1nat, c,
{
    lemma_nodes_pos(r);
    let e = seq![us(c0 + 1), out];
    lemma_eps_edges(n, us(c0), e);
    assert(e.contains(e[0]) && e.contains(e[1]));
    if c == 0 {
        lemma_nreach_refl(n, out);
        assert(w =~= eword());
        lemma_nreach_from_eedge(n, us(c0), out, eword(), out);
    } else {
        let m = choose|m: int| 0 <= m <= w.len() && rlang(r, #[trigger] w.take(m)) && replang(r, (c - 1) as nat, w.skip(m));
        lemma_reads(n, r, c0 + 1, us(c0), s, w.take(m));
        lemma_rreads(n, r, c0, out, s, w.skip(m), (c - 1) as nat);
        lemma_nreach_cat3(n, us(c0), us(c0 + 1), w.take(m), us(c0), w.skip(m), out);
        assert(w.take(m) + w.skip(m) =~= w);
    }
}
pub proof fn lemma_sreads(n: &Nfa, x: Seq<RegexTree>, i: int, base: int, out: usize, s: Syms, w: Word)
    requires ctx(n, s), sat(n, x, base, out, s), 0 <= i < x.len(), slang(x, i, w),
    ensures nreach(n, us(base + snodes(x, i) + 1), w, out),
    decreases x, (x.len() - i) as nat, 0nat,
{
    lemma_sat_item(n, x, i, base, out, s);
    let o = base + snodes(x, i);
    let m = choose|m: int| 0 <= m <= w.len() && rlang(x[i], #[trigger] w.take(m)) && slang(x, i + 1, w.skip(m));
    let v = w.skip(m);
    lemma_reads(n, x[i], o + 1, us(o), s, w.take(m));
    let d = if i + 1 == x.len() { out } else { us(base + snodes(x, i + 1) + 1) };
    let e = seq![d];
    lemma_eps_edges(n, us(o), e);
    assert(e.contains(e[0]));
    if i + 1 == x.len() { assert(v =~= eword()); lemma_nreach_refl(n, out); } else { lemma_sreads(n, x, i + 1, base, out, s, v); }
    lemma_nreach_from_eedge(n, us(o), d, v, out);
    lemma_nreach_concat(n, us(o + 1), w.take(m), us(o), v, out);
    assert(w.take(m) + v =~= w);
}
// ------------------------------------------------------------------ the whole automaton
pub open spec fn regex_nfa(n: &Nfa, t: RegexTree, s: Syms) -> bool {
    &&& ctx(n, s) && n.initial_state == 1 && n.n() == nodes(t) + 2 && at(n, t, 2, 0, s)
    &&& node_eps(n.states@[0], Seq::<usize>::empty()) && node_eps(n.states@[1], seq![2usize])
    &&& forall|p: usize| p < n.n() ==> #[trigger] n.acc(p) == (p == 0)
}
pub proof fn theorem_regex_nfa(n: &Nfa, t: RegexTree, s: Syms, w: Word)
    requires regex_nfa(n, t, s),
    ensures naccepts(n, w) <==> rlang(t, w),
{
    lemma_nodes_pos(t);
    let e1 = seq![2usize];
    lemma_eps_edges(n, 1, e1);
    assert(e1.contains(e1[0]));
    if rlang(t, w) {
        lemma_reads(n, t, 2, 0, s, w);
        lemma_nreach_from_eedge(n, 1, 2, w, 0);
        assert(nreach(n, 1, w, 0) && n.acc(0));
    }
    if naccepts(n, w) {
        let q = choose|q: usize| #[trigger] nreach(n, 1, w, q) && n.acc(q);
        lemma_nreach_in(n, 1, w, q);
        assert(q == 0);
        reveal(nreach);
        let k = choose|k: nat| npath(n, 1, w, 0, k);
        let r = lemma_first_eps(n, 1, e1, w, 0, k);
        assert(r == 2);
        let (i, j) = lemma_passes(n, t, 2, 0, s, w, 0, (k - 1) as nat);
        // there is no way on from the accepting state
        if j > 0 {
            lemma_eps_edges(n, 0, Seq::<usize>::empty());
            lemma_npath_first(n, 0, w.skip(i), 0, j);
            if exists|r: usize| #[trigger] first_e(n, 0, w.skip(i), 0, j, r) { let r = choose|r: usize| #[trigger] first_e(n, 0, w.skip(i), 0, j, r); assert(eedge(n, 0, r)); }
            else { let r = choose|r: usize| #[trigger] first_s(n, 0, w.skip(i), 0, j, r); assert(sedge(n, 0, w.skip(i)[0], r)); }
        }
        reveal_with_fuel(npath, 1);
        assert(w.skip(i).len() == 0);
        assert(w.take(i) =~= w);
    }
}
