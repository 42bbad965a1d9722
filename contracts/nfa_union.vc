@raw
pub proof fn lemma_increasing_id(s: Seq<usize>, i: int)
    requires increasing(s), all_lt(s, s.len()), 0 <= i < s.len(),
    ensures s[i] == i,
{
    lemma_inc_ge(s, i);
    lemma_inc_le(s, i);
}
pub proof fn lemma_inc_ge(s: Seq<usize>, i: int)
    requires increasing(s), 0 <= i < s.len(),
    ensures s[i] >= i,
    decreases i,
{ if i > 0 { lemma_inc_ge(s, i - 1); } }
pub proof fn lemma_inc_le(s: Seq<usize>, i: int)
    requires increasing(s), all_lt(s, s.len()), 0 <= i < s.len(),
    ensures s[i] <= i,
    decreases s.len() - i,
{ if i < s.len() - 1 { lemma_inc_le(s, i + 1); assert(s[i] < s[i + 1]); } else { assert(s[i] < s.len()); } }
pub proof fn lemma_adjacent(s: Seq<usize>)
    requires forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s[i] < s[i + 1],
    ensures increasing(s),
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i] < s[j] by { lemma_adjacent1(s, i, j); }
}
pub proof fn lemma_adjacent1(s: Seq<usize>, i: int, j: int)
    requires forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s[i] < s[i + 1], 0 <= i < j < s.len(),
    ensures s[i] < s[j],
    decreases j - i,
{ if j > i + 1 { lemma_adjacent1(s, i, j - 1); assert(s[j - 1] < s[j - 1 + 1]); } else { assert(s[i] < s[i + 1]); } }
// the columns of a, moved to their new places
pub open spec fn cols_moved(a: Seq<Vec<usize>>, b: Seq<Vec<usize>>, t: Seq<usize>) -> bool {
    a.len() == b.len() && a.len() == t.len() && forall|j: int| 0 <= j < a.len() ==> b[(#[trigger] t[j]) as int] == a[j]
}
pub proof fn lemma_sorted_cols(t: Seq<usize>, p: Seq<int>, a: Seq<Vec<usize>>, b: Seq<Vec<usize>>)
    requires sort_perm(t, p), t.no_duplicates(), all_lt(t, t.len()), a.len() == t.len(), b.len() == t.len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] b[i] == a[p[i]],
    ensures cols_moved(a, b, t),
{
    let s = Seq::new(p.len(), |i: int| t[p[i]]);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i] < s[j] by { assert(p[i] != p[j]); assert(t[p[i]] != t[p[j]]); }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < s.len() by { assert(t[p[i]] < t.len()); }
    assert forall|j: int| 0 <= j < a.len() implies b[(#[trigger] t[j]) as int] == a[j] by {
        assert(p.contains(j));
        let i = choose|i: int| 0 <= i < p.len() && p[i] == j;
        lemma_increasing_id(s, i);
        assert(s[i] == t[j]);
    }
}
pub open spec fn nstate_moved(a: NfaState, b: NfaState, t: Seq<usize>) -> bool {
    a.name == b.name && a.initial == b.initial && a.accepting == b.accepting && a.epsilon_transitions == b.epsilon_transitions && cols_moved(a.transitions@, b.transitions@, t)
}
// state s of a appears as state u in the union: moves shifted by off, columns moved by t
pub open spec fn nplaced(s: NfaState, u: NfaState, off: int, t: Seq<usize>) -> bool {
    &&& u.accepting == s.accepting && shifted(s.epsilon_transitions@, u.epsilon_transitions@, off)
    &&& u.transitions@.len() == s.transitions@.len() && s.transitions@.len() == t.len()
    &&& forall|j: int| 0 <= j < t.len() ==> (#[trigger] t[j]) < t.len() && shifted(s.transitions@[j]@, u.transitions@[t[j] as int]@, off)
}
pub open spec fn nplaced_all(a: &Nfa, u: &Nfa, off: int, t: Seq<usize>) -> bool {
    &&& 0 <= off && off + a.n() <= u.n() <= usize::MAX
    &&& forall|q: int| 0 <= q < a.n() ==> nplaced(#[trigger] a.states@[q], u.states@[off + q], off, t)
}
pub proof fn lemma_placed(a: &Nfa, u: &Nfa, off: int, t: Seq<usize>)
    requires a.core(), alpha_distinct(u.alphabet@), nplaced_all(a, u, off, t), col_map(u.alphabet@, a.alphabet@, t), same_syms(u.alphabet@, a.alphabet@),
    ensures nembed(a, u, off), forall|q: int| off <= q < off + a.n() ==> nstate_ok(#[trigger] u.states@[q], u.alphabet@.len(), u.n()),
{
    lemma_same_syms_len(u.alphabet@, a.alphabet@);
    let k = a.alphabet@.len();
    assert forall|y: usize| off <= y < off + a.n() implies #[trigger] nplaced(a.states@[y - off], u.states@[y as int], off, t) by { assert(nplaced(a.states@[y - off], u.states@[off + (y - off)], off, t)); }
    assert forall|p: usize, q: usize| p < a.n() && #[trigger] eedge(a, p, q) implies eedge(u, sh(off, p), sh(off, q)) by {
        assert(nstate_ok(a.states@[p as int], k, a.n())); assert(nplaced(a.states@[p as int], u.states@[off + p], off, t));
        lemma_shifted(a.eps(p), u.eps(sh(off, p)), off, a.n());
    }
    assert forall|y: usize, x: usize| off <= y < off + a.n() && #[trigger] eedge(u, y, x) implies off <= x < off + a.n() && eedge(a, (y - off) as usize, (x - off) as usize) by {
        let p = (y - off) as usize;
        assert(nstate_ok(a.states@[p as int], k, a.n())); assert(nplaced(a.states@[p as int], u.states@[y as int], off, t));
        lemma_shifted(a.eps(p), u.eps(y), off, a.n());
        lemma_edge_in(a, p, (x - off) as usize);
    }
    assert forall|p: usize, c: Seq<char>, q: usize| p < a.n() && #[trigger] sedge(a, p, c, q) implies sedge(u, sh(off, p), c, sh(off, q)) by {
        assert(nstate_ok(a.states@[p as int], k, a.n())); assert(nplaced(a.states@[p as int], u.states@[off + p], off, t));
        assert(has_sym(u.alphabet@, c));
        lemma_col_map(u.alphabet@, a.alphabet@, t, c);
        let j = sym_idx(a.alphabet@, c);
        assert(t[j] < t.len());
        lemma_shifted(a.tr(p, j), u.tr(sh(off, p), t[j] as int), off, a.n());
    }
    assert forall|y: usize, c: Seq<char>, x: usize| off <= y < off + a.n() && #[trigger] sedge(u, y, c, x) implies off <= x < off + a.n() && sedge(a, (y - off) as usize, c, (x - off) as usize) by {
        let p = (y - off) as usize;
        assert(nstate_ok(a.states@[p as int], k, a.n())); assert(nplaced(a.states@[p as int], u.states@[y as int], off, t));
        lemma_col_map(u.alphabet@, a.alphabet@, t, c);
        let j = sym_idx(a.alphabet@, c);
        assert(t[j] < t.len());
        lemma_shifted(a.tr(p, j), u.tr(y, t[j] as int), off, a.n());
        assert(has_sym(a.alphabet@, c));
        lemma_edge_in(a, p, (x - off) as usize);
    }
    assert forall|p: usize| p < a.n() implies #[trigger] a.acc(p) == u.acc(sh(off, p)) by { assert(nplaced(a.states@[p as int], u.states@[off + p], off, t)); }
    assert forall|q: int| off <= q < off + a.n() implies nstate_ok(#[trigger] u.states@[q], u.alphabet@.len(), u.n()) by {
        let p = q - off;
        assert(nstate_ok(a.states@[p], k, a.n())); assert(nplaced(a.states@[p], u.states@[off + p], off, t));
        let s = u.states@[q];
        assert forall|i: int| 0 <= i < k implies all_lt((#[trigger] s.transitions@[i])@, u.n()) by {
            let c = u.alphabet@[i]@;
            lemma_sym_idx(u.alphabet@, i);
            lemma_col_map(u.alphabet@, a.alphabet@, t, c);
            let j = sym_idx(a.alphabet@, c);
            assert(t[j] == i);
            assert(shifted(a.states@[p].transitions@[j]@, s.transitions@[i]@, off));
            assert forall|x: int| 0 <= x < s.transitions@[i]@.len() implies #[trigger] s.transitions@[i]@[x] < u.n() by { assert(a.states@[p].transitions@[j]@[x] < a.n()); }
        }
        assert forall|x: int| 0 <= x < s.epsilon_transitions@.len() implies #[trigger] s.epsilon_transitions@[x] < u.n() by { assert(a.states@[p].epsilon_transitions@[x] < a.n()); }
    }
}
// the new initial state only has epsilon moves to the two old ones
pub open spec fn nunion_of(a: &Nfa, b: &Nfa, u: &Nfa, t: Seq<usize>) -> bool {
    &&& u.alphabet == a.alphabet && u.n() == a.n() + b.n() + 1 && u.initial_state == a.n() + b.n()
    &&& col_map(a.alphabet@, b.alphabet@, t)
    &&& nplaced_all(a, u, 0, ids(a.alphabet@.len())) && nplaced_all(b, u, a.n() as int, t)
    &&& ({ let i = u.states@[u.initial_state as int];
        &&& !i.accepting && i.epsilon_transitions@ == seq![a.initial_state, sh(a.n() as int, b.initial_state)]
        &&& i.transitions@.len() == a.alphabet@.len() && forall|k: int| 0 <= k < i.transitions@.len() ==> (#[trigger] i.transitions@[k])@.len() == 0 })
}
pub proof fn lemma_union(a: &Nfa, b: &Nfa, u: &Nfa, t: Seq<usize>)
    requires a.core(), b.core(), same_syms(a.alphabet@, b.alphabet@), nunion_of(a, b, u, t),
    ensures u.core(), forall|w: Word| #[trigger] naccepts(u, w) == (naccepts(a, w) || naccepts(b, w)),
{
    let i = u.initial_state;
    let ib = sh(a.n() as int, b.initial_state);
    assert(a.alphabet@.len() == a.alphabet.len());
    assert(col_map(a.alphabet@, a.alphabet@, ids(a.alphabet@.len())));
    lemma_placed(a, u, 0, ids(a.alphabet@.len()));
    lemma_placed(b, u, a.n() as int, t);
    assert(nstates_ok(u.states@, u.alphabet@.len(), u.n()));
    assert(u.eps(i)[0] == a.initial_state && u.eps(i)[1] == ib);
    assert(eedge(u, i, a.initial_state) && eedge(u, i, ib));
    assert forall|r: usize| #[trigger] eedge(u, i, r) implies r == a.initial_state || r == ib by { let j = choose|j: int| 0 <= j < u.eps(i).len() && u.eps(i)[j] == r; }
    assert forall|w: Word| #[trigger] naccepts(u, w) == (naccepts(a, w) || naccepts(b, w)) by {
        lemma_embed_acc(a, u, 0, a.initial_state, w);
        lemma_embed_acc(b, u, a.n() as int, b.initial_state, w);
        assert(sh(0, a.initial_state) == a.initial_state);
        if naccepts(u, w) {
            let q = choose|q: usize| #[trigger] nreach(u, i, w, q) && u.acc(q);
            assert(exists|r: usize| eedge(u, i, r) && #[trigger] nreach(u, r, w, q)) by {
                reveal(nreach); reveal_with_fuel(npath, 2);
                let k = choose|k: nat| npath(u, i, w, q, k);
                assert(k > 0);
                lemma_npath_first(u, i, w, q, k);
                if exists|r: usize| #[trigger] first_s(u, i, w, q, k, r) {
                    let r = choose|r: usize| #[trigger] first_s(u, i, w, q, k, r);
                    let c = sym_idx(u.alphabet@, w[0]);
                    assert(u.tr(i, c).len() == 0);
                }
                let r = choose|r: usize| #[trigger] first_e(u, i, w, q, k, r);
                assert(eedge(u, i, r) && nreach(u, r, w, q));
            }
            let r = choose|r: usize| eedge(u, i, r) && #[trigger] nreach(u, r, w, q);
            assert(nacc_from(u, r, w));
        }
        if naccepts(a, w) {
            let q = choose|q: usize| #[trigger] nreach(u, a.initial_state, w, q) && u.acc(q);
            lemma_nreach_from_eedge(u, i, a.initial_state, w, q);
        }
        if naccepts(b, w) {
            let q = choose|q: usize| #[trigger] nreach(u, ib, w, q) && u.acc(q);
            lemma_nreach_from_eedge(u, i, ib, w, q);
        }
    }
}

// states of one list with their initial mark and name aside
pub open spec fn nstate_like(a: NfaState, b: NfaState) -> bool { a.accepting == b.accepting && a.epsilon_transitions == b.epsilon_transitions && a.transitions == b.transitions }
pub open spec fn nunion_pre(a: &Nfa, b1: Seq<NfaState>, u: Seq<NfaState>) -> bool {
    u.len() == a.n() + b1.len() && (forall|q: int| 0 <= q < a.n() ==> nstate_like(a.states@[q], #[trigger] u[q]))
        && (forall|q: int| 0 <= q < b1.len() ==> nstate_like(#[trigger] b1[q], u[a.n() + q]))
}

pub proof fn lemma_moved_rows(a: Seq<Vec<usize>>, b: Seq<Vec<usize>>, t: Seq<usize>, n: nat, al: Seq<Str>, bl: Seq<Str>)
    requires cols_moved(a, b, t), forall|i: int| 0 <= i < a.len() ==> all_lt((#[trigger] a[i])@, n), col_map(al, bl, t), alpha_distinct(al), alpha_distinct(bl), same_syms(al, bl), 
    ensures forall|i: int| 0 <= i < b.len() ==> all_lt((#[trigger] b[i])@, n),
{
    lemma_same_syms_len(al, bl);
    assert forall|i: int| 0 <= i < b.len() implies all_lt((#[trigger] b[i])@, n) by {
        lemma_sym_idx(al, i);
        lemma_col_map(al, bl, t, al[i]@);
        let j = sym_idx(bl, al[i]@);
        assert(b[t[j] as int] == a[j]);
    }
}

pub open spec fn nmoved(b0: &Nfa, b1: Seq<NfaState>, t: Seq<usize>) -> bool { b1.len() == b0.n() && forall|q: int| 0 <= q < b1.len() ==> nstate_moved(b0.states@[q], #[trigger] b1[q], t) }
pub proof fn lemma_not_moved(b0: &Nfa, al: Seq<Str>, t: Seq<usize>)
    requires b0.core(), alpha_distinct(al), same_syms(al, b0.alphabet@), col_map(al, b0.alphabet@, t), stepwise(t, t.len() - 1),
    ensures nmoved(b0, b0.states@, t),
{
    lemma_same_syms_len(al, b0.alphabet@);
    assert forall|q: int| 0 <= q < b0.n() implies nstate_moved(b0.states@[q], #[trigger] b0.states@[q], t) by {
        assert(nstate_ok(b0.states@[q], t.len(), b0.n()));
        lemma_adjacent(t);
        assert(all_lt(t, t.len())) by { assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] < t.len() by { assert(t[j] < al.len()); } }
        assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] == j by { lemma_increasing_id(t, j); }
    }
}
pub open spec fn adds_to<F: Fn(usize) -> Option<usize>>(f: F, off: int, n: nat) -> bool {
    0 <= off && off + n <= usize::MAX && (forall|x: usize| x < n ==> #[trigger] f.requires((x,))) && (forall|x: usize, m: Option<usize>| x < n && #[trigger] f.ensures((x,), m) ==> m == Some((off + x) as usize))
}
pub proof fn lemma_moved_callable<F: Fn(usize) -> Option<usize>>(f: F, off: int, b0: &Nfa, b1: Seq<NfaState>, al: Seq<Str>, t: Seq<usize>)
    requires b0.core(), nmoved(b0, b1, t), adds_to(f, off, b0.n()), col_map(al, b0.alphabet@, t), alpha_distinct(al), same_syms(al, b0.alphabet@),
    ensures forall|q: int| 0 <= q < b1.len() ==> callable_n(f, #[trigger] b1[q]),
{
    assert forall|q: int| 0 <= q < b1.len() implies callable_n(f, #[trigger] b1[q]) by {
        assert(nstate_moved(b0.states@[q], b1[q], t));
        assert(nstate_ok(b0.states@[q], b0.alphabet@.len(), b0.n()));
        assert(callable_row(f, b1[q].epsilon_transitions@));
        lemma_moved_rows(b0.states@[q].transitions@, b1[q].transitions@, t, b0.n(), al, b0.alphabet@);
        assert forall|i: int| 0 <= i < b1[q].transitions@.len() implies callable_row(f, (#[trigger] b1[q].transitions@[i])@) by { assert(all_lt(b1[q].transitions@[i]@, b0.n())); }
    }
}
pub open spec fn placed_seq(b0: &Nfa, b2: Seq<NfaState>, off: int, t: Seq<usize>) -> bool { b2.len() == b0.n() && forall|q: int| 0 <= q < b2.len() ==> nplaced(b0.states@[q], #[trigger] b2[q], off, t) }
pub proof fn lemma_moved_placed<F: Fn(usize) -> Option<usize>>(f: F, off: int, b0: &Nfa, b1: Seq<NfaState>, b2: Seq<NfaState>, al: Seq<Str>, t: Seq<usize>)
    requires b0.core(), nmoved(b0, b1, t), adds_to(f, off, b0.n()), col_map(al, b0.alphabet@, t), alpha_distinct(al), same_syms(al, b0.alphabet@),
        b2.len() == b1.len(), forall|q: int| 0 <= q < b1.len() ==> remap_nstate(f, b1[q], #[trigger] b2[q]),
    ensures placed_seq(b0, b2, off, t), forall|q: int| 0 <= q < b2.len() ==> (#[trigger] b2[q]).initial == b0.states@[q].initial,
{
    lemma_same_syms_len(al, b0.alphabet@);
    assert forall|q: int| 0 <= q < b2.len() implies nplaced(b0.states@[q], #[trigger] b2[q], off, t) by {
        let x = b1[q]; let y = b2[q];
        assert(nstate_moved(b0.states@[q], x, t));
        assert(remap_nstate(f, x, y));
        assert(nstate_ok(b0.states@[q], b0.alphabet@.len(), b0.n()));
        lemma_moved_rows(b0.states@[q].transitions@, x.transitions@, t, b0.n(), al, b0.alphabet@);
        assert forall|i: int| 0 <= i < x.transitions@.len() implies shifted(#[trigger] x.transitions@[i]@, y.transitions@[i]@, off) by {
            assert(remap_row(f, x.transitions@[i]@, y.transitions@[i]@));
            assert(all_lt(x.transitions@[i]@, b0.n()));
            assert forall|j: int| 0 <= j < x.transitions@[i]@.len() implies #[trigger] y.transitions@[i]@[j] == off + x.transitions@[i]@[j] by { let z = x.transitions@[i]@[j]; assert(remap1(f, z, y.transitions@[i]@[j])); assert(z < b0.n()); let m = choose|m: Option<usize>| #[trigger] f.ensures((z,), m) && y.transitions@[i]@[j] == (match m { Some(x) => x, None => z }); assert(f.ensures((z,), m)); }
        }
        assert forall|j: int| 0 <= j < x.epsilon_transitions@.len() implies #[trigger] y.epsilon_transitions@[j] == off + x.epsilon_transitions@[j] by { let z = x.epsilon_transitions@[j]; assert(remap1(f, z, y.epsilon_transitions@[j])); assert(z < b0.n()); let m = choose|m: Option<usize>| #[trigger] f.ensures((z,), m) && y.epsilon_transitions@[j] == (match m { Some(x) => x, None => z }); assert(f.ensures((z,), m)); }
        assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]) < t.len() && shifted(b0.states@[q].transitions@[j]@, y.transitions@[t[j] as int]@, off) by { assert(t[j] < al.len()); assert(x.transitions@[t[j] as int] == b0.states@[q].transitions@[j]); }
    }
}
// the states of the union before the new initial state is added, whatever their names and initial marks
pub open spec fn ubody(a: &Nfa, b2: Seq<NfaState>, u: Seq<NfaState>) -> bool {
    &&& u.len() == a.n() + b2.len()
    &&& forall|q: int| 0 <= q < a.n() ==> nstate_like(a.states@[q], #[trigger] u[q])
    &&& forall|q: int| a.n() <= q < u.len() ==> nstate_like(b2[q - a.n()], #[trigger] u[q])
}
pub proof fn lemma_nubody(a: &Nfa, b: &Nfa, b2: Seq<NfaState>, u: &Nfa, t: Seq<usize>)
    requires a.core(), b.core(), same_syms(a.alphabet@, b.alphabet@), col_map(a.alphabet@, b.alphabet@, t), placed_seq(b, b2, a.n() as int, t),
        u.alphabet == a.alphabet, u.n() == a.n() + b.n() + 1, u.initial_state == a.n() + b.n(), ubody(a, b2, u.states@.drop_last()),
        ({ let i = u.states@.last();
        &&& !i.accepting && i.epsilon_transitions@ == seq![a.initial_state, sh(a.n() as int, b.initial_state)]
        &&& i.transitions@.len() == a.alphabet@.len() && forall|k: int| 0 <= k < i.transitions@.len() ==> (#[trigger] i.transitions@[k])@.len() == 0 }),
    ensures nunion_of(a, b, u, t),
{
    let v = u.states@.drop_last();
    assert(u.states@.len() == u.states.len());
    assert(a.alphabet@.len() == a.alphabet.len());
    assert forall|q: int| 0 <= q < a.n() implies nplaced(#[trigger] a.states@[q], u.states@[0 + q], 0, ids(a.alphabet@.len())) by { assert(v[q] == u.states@[q]); assert(nstate_like(a.states@[q], v[q])); assert(nstate_ok(a.states@[q], a.alphabet@.len(), a.n())); }
    assert forall|q: int| 0 <= q < b.n() implies nplaced(#[trigger] b.states@[q], u.states@[a.n() + q], a.n() as int, t) by { assert(v[a.n() + q] == u.states@[a.n() + q]); assert(nstate_like(b2[q], v[a.n() + q])); assert(nplaced(b.states@[q], b2[q], a.n() as int, t)); }
}
pub open spec fn nname(s: NfaState) -> Seq<char> { s.name@ }
pub proof fn lemma_names_count(s: Seq<NfaState>)
    requires s.map_values(|x: NfaState| nname(x)).to_set().len() == s.len(),
    ensures nnames_distinct(s),
{
    let k = s.map_values(|x: NfaState| nname(x));
    k.lemma_no_dup_set_cardinality();
    assert forall|p: int, q: int| 0 <= p < s.len() && 0 <= q < s.len() && p != q implies (#[trigger] s[p]).name@ != (#[trigger] s[q]).name@ by { assert(k[p] != k[q]); }
}

pub open spec fn unumbered(u: Seq<NfaState>, k: int) -> bool { forall|q: int| 0 <= q < k ==> (#[trigger] u[q]).name@ == dec(q + 1) }
pub proof fn lemma_unumbered(u: Seq<NfaState>)
    requires unumbered(u, u.len() as int),
    ensures nnames_distinct(u),
{
    broadcast use axiom_dec_inj;
    assert forall|p: int, q: int| 0 <= p < u.len() && 0 <= q < u.len() && p != q implies (#[trigger] u[p]).name@ != (#[trigger] u[q]).name@ by { if dec(p + 1) == dec(q + 1) { } }
}
pub proof fn lemma_named_step(a: &Nfa, b: &Nfa, b2: Seq<NfaState>, u1: Seq<NfaState>, u: Seq<NfaState>, j: int, c: int)
    requires 0 <= j < u1.len(), c == j + 1, u.len() == u1.len(), ubody(a, b2, u1), flags_of(a, b, u1), unumbered(u1, j),
        forall|q: int| 0 <= q < u.len() && q != j ==> u[q] == u1[q],
        nstate_like(u1[j], u[j]) && u[j].initial == u1[j].initial && u[j].name@ == dec(c),
    ensures ubody(a, b2, u), flags_of(a, b, u), unumbered(u, j + 1),
{
}
pub open spec fn flags_of(a: &Nfa, b: &Nfa, u: Seq<NfaState>) -> bool {
    forall|q: int| 0 <= q < u.len() ==> (#[trigger] u[q]).initial == (q == a.initial_state || q == a.n() + b.initial_state)
}
pub proof fn lemma_flags(a: &Nfa, b: &Nfa, b2: Seq<NfaState>, u: Seq<NfaState>)
    requires a.wf(), b.wf(), b2.len() == b.n(), u == a.states@ + b2, forall|q: int| 0 <= q < b2.len() ==> (#[trigger] b2[q]).initial == b.states@[q].initial,
    ensures flags_of(a, b, u), ubody(a, b2, u),
{
    assert forall|q: int| 0 <= q < u.len() implies (#[trigger] u[q]).initial == (q == a.initial_state || q == a.n() + b.initial_state) by {
        if q < a.n() { assert(u[q] == a.states@[q]); } else { assert(u[q] == b2[q - a.n()]); assert(b.states@[q - a.n()].initial == (q - a.n() == b.initial_state)); }
    }
}
// the union as built: u2 with both old initial marks cleared and the new initial state added
pub proof fn lemma_union_end(a: &Nfa, b: &Nfa, b2: Seq<NfaState>, t: Seq<usize>, u2: Seq<NfaState>, u: &Nfa)
    requires a.wf(), b.wf(), same_syms(a.alphabet@, b.alphabet@), col_map(a.alphabet@, b.alphabet@, t), placed_seq(b, b2, a.n() as int, t),
        ubody(a, b2, u2), flags_of(a, b, u2), nnames_distinct(u2),
        u.alphabet == a.alphabet, u.n() == a.n() + b.n() + 1, u.initial_state == a.n() + b.n(),
        forall|q: int| 0 <= q < u2.len() ==> nstate_like(u2[q], #[trigger] u.states@[q]) && u.states@[q].name == u2[q].name,
        forall|q: int| 0 <= q < u2.len() ==> (#[trigger] u.states@[q]).initial == (u2[q].initial && q != a.initial_state && q != a.n() + b.initial_state),
        ({ let i = u.states@.last();
        &&& i.initial && !i.accepting && !nnamed(u2, i.name@) && i.epsilon_transitions@ == seq![a.initial_state, sh(a.n() as int, b.initial_state)]
        &&& i.transitions@.len() == a.alphabet@.len() && forall|k: int| 0 <= k < i.transitions@.len() ==> (#[trigger] i.transitions@[k])@.len() == 0 }),
    ensures u.wf(), forall|w: Word| #[trigger] naccepts(u, w) == (naccepts(a, w) || naccepts(b, w)),
{
    let v = u.states@.drop_last();
    assert forall|q: int| 0 <= q < v.len() implies nstate_like(u2[q], #[trigger] v[q]) by { assert(v[q] == u.states@[q]); }
    assert(ubody(a, b2, v));
    lemma_nubody(a, b, b2, u, t);
    lemma_union(a, b, u, t);
    assert forall|p: int, q: int| 0 <= p < u.n() && 0 <= q < u.n() && p != q implies (#[trigger] u.states@[p]).name@ != (#[trigger] u.states@[q]).name@ by {
        if p < u2.len() && q < u2.len() { assert(u2[p].name@ != u2[q].name@); }
        else if p < u2.len() { assert(u2[p].name@ == u.states@[p].name@); }
        else { assert(u2[q].name@ == u.states@[q].name@); }
    }
}
// the steps of sorting the columns of one state by their new place
pub open spec fn zips(v: Seq<(Vec<usize>, &usize)>, a: Seq<Vec<usize>>, t: Seq<usize>) -> bool { v.len() == a.len() && a.len() == t.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == a[i] && *v[i].1 == t[i] }
pub open spec fn firsts(a: Seq<Vec<usize>>, v: Seq<(Vec<usize>, &usize)>) -> bool { a.len() == v.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == v[i].0 }
pub open spec fn sort_of(t: Seq<usize>, v: Seq<(Vec<usize>, &usize)>, w: Seq<(Vec<usize>, &usize)>) -> bool {
    w.len() == v.len() && exists|p: Seq<int>| sort_perm(t, p) && forall|i: int| 0 <= i < p.len() ==> #[trigger] w[i] == v[p[i]]
}
pub proof fn lemma_sort_done(t: Seq<usize>, v: Seq<(Vec<usize>, &usize)>, w: Seq<(Vec<usize>, &usize)>, a: Seq<Vec<usize>>, b: Seq<Vec<usize>>)
    requires zips(v, a, t), sort_of(t, v, w), firsts(b, w), t.no_duplicates(), all_lt(t, t.len()),
    ensures cols_moved(a, b, t),
{
    let p = choose|p: Seq<int>| sort_perm(t, p) && forall|i: int| 0 <= i < p.len() ==> #[trigger] w[i] == v[p[i]];
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] b[i] == a[p[i]] by { assert(w[i] == v[p[i]]); assert(0 <= p[i] < t.len()); }
    lemma_sorted_cols(t, p, a, b);
}
// the first j states of b0 have their columns moved
pub open spec fn moved_upto(b0: &Nfa, s: Seq<NfaState>, t: Seq<usize>, j: int) -> bool {
    &&& s.len() == b0.n()
    &&& forall|q: int| 0 <= q < j ==> nstate_moved(b0.states@[q], #[trigger] s[q], t)
    &&& forall|q: int| j <= q < b0.n() ==> #[trigger] s[q] == b0.states@[q]
}
pub proof fn lemma_moved_step(b0: &Nfa, s0: Seq<NfaState>, s1: Seq<NfaState>, t: Seq<usize>, j: int)
    requires moved_upto(b0, s0, t, j), 0 <= j < s0.len(), s1 == s0.update(j, s1[j]), nstate_moved(b0.states@[j], s1[j], t),
    ensures moved_upto(b0, s1, t, j + 1),
{
    assert forall|q: int| 0 <= q < j + 1 implies nstate_moved(b0.states@[q], #[trigger] s1[q], t) by { if q < j { assert(s1[q] == s0[q]); } }
    assert forall|q: int| j + 1 <= q < b0.n() implies #[trigger] s1[q] == b0.states@[q] by { assert(s1[q] == s0[q]); }
}
pub proof fn lemma_moved_at(b0: &Nfa, s: Seq<NfaState>, t: Seq<usize>, j: int)
    requires b0.core(), moved_upto(b0, s, t, j), 0 <= j < s.len(),
    ensures s[j] == b0.states@[j], s[j].transitions@.len() == b0.alphabet@.len(),
{ assert(nstate_ok(b0.states@[j], b0.alphabet@.len(), b0.n())); }
// what is known of the translation of columns
pub open spec fn tcols(al: Seq<Str>, bl: Seq<Str>, t: Seq<usize>) -> bool { col_map(al, bl, t) && t.len() == al.len() && t.len() == bl.len() && t.no_duplicates() && all_lt(t, t.len()) }
pub proof fn lemma_tcols(al: Seq<Str>, bl: Seq<Str>, t: Seq<usize>)
    requires col_map(al, bl, t), alpha_distinct(al), alpha_distinct(bl), same_syms(al, bl),
    ensures tcols(al, bl, t),
{
    lemma_same_syms_len(al, bl);
    lemma_col_map_inj(al, bl, t);
    assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] < t.len() by { assert(t[j] < al.len()); }
}
// neighbours are in order
pub open spec fn stepwise(t: Seq<usize>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] t[i] < t[i + 1] }

@fn dandy/src/nfa/mod.rs Nfa::union
@hide nstates_ok nnames_distinct flags_of ubody zips firsts sort_of cols_moved moved_upto nmoved tcols stepwise col_map
@attr #[verifier::rlimit(200)]
@closure 1 b_idx: usize| -> (m: Option<usize>)
    requires b_idx + a_states <= usize::MAX
    ensures m == Some((b_idx + a_states) as usize)
@sig
    requires self.wf(), other.wf(),
    ensures match r { Err(p) => true, Ok(u) => u.wf() },
        match r {
        Err(p) => p.0 == self && p.1 == other && !same_syms(self.alphabet@, other.alphabet@),
        Ok(u) => same_syms(self.alphabet@, other.alphabet@) && u.alphabet == self.alphabet && forall|w: Word| #[trigger] naccepts(&u, w) == (naccepts(&self, w) || naccepts(&other, w)) },
@start
    let ghost a0 = self;
    let ghost b0 = other;
    let ghost al = self.alphabet@;
    let ghost bl = other.alphabet@;
    let ghost mut u0: Seq<NfaState> = seq![];
    let ghost mut u2: Seq<NfaState> = seq![];
    proof { if same_syms(al, bl) { lemma_same_syms_len(al, bl); } axiom_vec_len(&self.states); axiom_vec_len(&other.states); }
@acc 2 Option<usize>
@loop 1 inv
    it1_seq == bl, acc1@.len() == it1.pos(), forall|j: int| 0 <= j < it1.pos() ==> (#[trigger] acc1@[j]) < al.len() && al[acc1@[j] as int]@ == bl[j]@,
@loop 1 beg
    proof { assert(bl[it1.pos() - 1]@ == x1@); assert(has_sym(bl, x1@)); assert(has_sym(al, x1@)); }
@loop 2 inv
    it2_seq == al, match r2 { Some(i) => i < al.len() && al[i as int]@ == elem1@, None => forall|i: int| 0 <= i < it2.pos() ==> (#[trigger] al[i])@ != elem1@ },
@let alphabet_translation
    let ghost t = alphabet_translation@;
    proof { assert(col_map(al, bl, t)) by { reveal(col_map); } lemma_tcols(al, bl, t); }
@loop 3 pre
    proof { assert(stepwise(t, 0) && stepwise(t, -1)) by { reveal(stepwise); } }
@loop 3 inv
    t == alphabet_translation@, r3 ==> stepwise(t, it3.pos()), !r3 ==> !stepwise(t, t.len() - 1),
@loop 3 beg
    proof { reveal(stepwise); assert(x3@[0] == t[it3.pos() - 1] && x3@[1] == t[it3.pos()]); }
@loop 4 pre
    proof { assert(moved_upto(&b0, other.states@, t, 0)) by { reveal(moved_upto); } }
@loop 4 inv
    t == alphabet_translation@, tcols(al, bl, t), b0.core(), b0.alphabet@ == bl,
    other.alphabet == b0.alphabet, other.initial_state == b0.initial_state, other.states@.len() == b0.states@.len(),
    moved_upto(&b0, other.states@, t, j4 as int),
@loop 4 top
    let ghost o4 = other.states@;
    proof { lemma_moved_at(&b0, o4, t, j4 as int); assert(t.len() == bl.len()) by { reveal(tcols); } }
@loop 4 beg
    let ghost s4 = b0.states@[j4 as int];
    let ghost tr4 = s4.transitions@;
@loop 5 inv
    it5_seq == tr4, zt5_seq == t, acc5@.len() == it5.pos(), tr4.len() == t.len(),
    zips(acc5@, tr4.take(it5.pos()), t.take(it5.pos())),
    state.name == s4.name && state.initial == s4.initial && state.accepting == s4.accepting && state.epsilon_transitions == s4.epsilon_transitions,
@loop 5 pre
    proof { assert(zips(acc5@, tr4.take(0), t.take(0))) by { reveal(zips); } }
@loop 5 end
    proof { reveal(zips); }
@loop 5 post
    proof { assert(tr4.take(tr4.len() as int) =~= tr4); assert(t.take(t.len() as int) =~= t); }
@acc 5 Vec<(Vec<usize>, &usize)>
@let vec
    let ghost v5 = vec@;
    proof { assert(zips(v5, tr4, t)); }
@loop 6 inv
    it6_seq == v5, zips(v5, tr4, t), keys6@ == t.take(it6.pos()),
@loop 6 end
    proof { reveal(zips); assert(*v5[it6.pos() - 1].1 == t[it6.pos() - 1]); assert(keys6@ =~= t.take(it6.pos())); }
@loop 6 post
    proof { assert(v5.len() == t.len()) by { reveal(zips); } assert(keys6@ =~= t); }
@acc 7 Vec<Vec<usize>>
@loop 7 pre
    let ghost s7 = it7_seq;
    proof { assert(sort_of(t, v5, s7)) by { reveal(sort_of); } assert(firsts(acc7@, s7.take(0))) by { reveal(firsts); } }
@loop 7 inv
    it7_seq == s7, firsts(acc7@, s7.take(it7.pos())),
@loop 7 end
    proof { reveal(firsts); }
@loop 7 post
    proof {
        assert(s7.take(s7.len() as int) =~= s7);
        assert(t.no_duplicates() && all_lt(t, t.len())) by { reveal(tcols); }
        lemma_sort_done(t, v5, s7, tr4, acc7@);
    }
@loop 4 end
    proof { assert(nstate_moved(s4, other.states@[j4 - 1], t)); assert(other.states@ =~= o4.update(j4 - 1, other.states@[j4 - 1])); lemma_moved_step(&b0, o4, other.states@, t, j4 - 1); }
@let a_states
    let ghost b1 = other;
    proof {
        assert(col_map(al, bl, t)) by { reveal(tcols); }
        if stepwise(t, t.len() - 1) { lemma_not_moved(&b0, al, t); } else { assert(moved_upto(&b0, b1.states@, t, b0.n() as int)); assert(nmoved(&b0, b1.states@, t)) by { reveal(moved_upto); reveal(nmoved); } }
    }
@let remapping
    proof { lemma_moved_callable(remapping, a_states as int, &b0, b1.states@, al, t); }
@call remap_transitions
    let ghost b2 = other.states@;
    proof { lemma_moved_placed(remapping, a_states as int, &b0, b1.states@, b2, al, t); }
@loop 8 inv
    it8_seq == b2, self_.alphabet == a0.alphabet, self_.initial_state == a0.initial_state, self_.states@ == a0.states@ + b2.take(it8.pos()),
@loop 8 end
    proof { assert(b2.take(it8.pos()) =~= b2.take(it8.pos() - 1).push(x8)); assert(self_.states@ =~= a0.states@ + b2.take(it8.pos())); }
@loop 8 post
    proof { u0 = self_.states@; assert(b2.take(b2.len() as int) =~= b2); lemma_flags(&a0, &b0, b2, u0); }
@acc 9 HSet<&Str>
@loop 9 pre
    let ghost nm = u0.map_values(|x: NfaState| nname(x));
@loop 9 inv
    it9_seq == u0, acc9@ == nm.take(it9.pos()).to_set(),
@loop 9 end
    proof { assert(nm.take(it9.pos()) =~= nm.take(it9.pos() - 1).push(x9.name@)); nm.take(it9.pos() - 1).lemma_push_to_set_commute(x9.name@); }
@loop 9 post
    proof { assert(nm.take(u0.len() as int) =~= nm); if nm.to_set().len() == u0.len() { lemma_names_count(u0); } }
@loop 10 inv
    self_.alphabet == a0.alphabet, self_.initial_state == a0.initial_state, ubody(&a0, b2, self_.states@), iter.cur == j10 + 1, n10 <= isize::MAX,
    unumbered(self_.states@, j10 as int), nn == self_.states@.len(),
    flags_of(&a0, &b0, self_.states@),
@loop 10 pre
    let ghost nn = self_.states@.len();
    proof { axiom_vec_len(&self_.states); }
@loop 10 top
    let ghost u1 = self_.states@;
@loop 10 end
    proof { lemma_named_step(&a0, &b0, b2, u1, self_.states@, j10 - 1, iter.cur - 1); }
@loop 10 post
    proof {
        lemma_unumbered(self_.states@);
    }
@let new_initial_state
    proof { u2 = self_.states@; assert(nnames_distinct(u2)); }
@end
    proof { let u = &ret_->Ok_0; lemma_union_end(&a0, &b0, b2, t, u2, u); }
