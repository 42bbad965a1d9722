@raw
pub type OP = (Option<usize>, Option<usize>);
// entries of the exploration: pair, accepting, moves by column, epsilon moves
pub type NEntry = (OP, bool, Vec<Vec<OP>>, Vec<OP>);
pub open spec fn ndpairs(s: Seq<NEntry>) -> Seq<OP> { s.map_values(|e: NEntry| e.0) }
pub open spec fn oin(a: &Nfa, p: Option<usize>) -> bool { match p { Some(s) => s < a.n(), None => true } }
pub open spec fn opin(a: &Nfa, b: &Nfa, p: OP) -> bool { oin(a, p.0) && oin(b, p.1) }
pub open spec fn otr(a: &Nfa, p: Option<usize>, k: int) -> Seq<usize> { match p { Some(s) => a.tr(s, k), None => seq![] } }
pub open spec fn ost<'a>(a: &'a Nfa, p: Option<usize>) -> Option<&'a NfaState> { match p { Some(s) => Some(&a.states@[s as int]), None => None } }
pub open spec fn oc(s: Seq<usize>, t: Option<usize>) -> bool { match t { Some(q) => s.contains(q), None => false } }
// moves of a pair: together, or alone once the other has no move left
pub open spec fn is_nsucc(x: Seq<usize>, y: Seq<usize>, t: OP) -> bool {
    ||| oc(x, t.0) && oc(y, t.1)
    ||| oc(x, t.0) && y.len() == 0 && t.1 is None
    ||| x.len() == 0 && oc(y, t.1) && t.0 is None
}
pub open spec fn oeps(a: &Nfa, p: Option<usize>, t: Option<usize>) -> bool { match p { Some(s) => oc(a.eps(s), t), None => false } }
pub open spec fn is_neps(a: &Nfa, b: &Nfa, p: OP, t: OP) -> bool { (oeps(a, p.0, t.0) && t.1 == p.1) || (oeps(b, p.1, t.1) && t.0 == p.0) }
pub open spec fn osucc(a: &Nfa, b: &Nfa, tr: Seq<usize>, p: OP, k: int, t: OP) -> bool { is_nsucc(otr(a, p.0, k), otr(b, p.1, tr[k] as int), t) }
pub open spec fn lsucc(a: &Nfa, b: &Nfa, tr: Seq<usize>, p: OP, k: int, s: Seq<OP>) -> bool { forall|t: OP| #[trigger] s.contains(t) <==> osucc(a, b, tr, p, k, t) }
pub open spec fn leps(a: &Nfa, b: &Nfa, p: OP, s: Seq<OP>) -> bool { forall|t: OP| #[trigger] s.contains(t) <==> is_neps(a, b, p, t) }
pub open spec fn listed(x: Set<OP>, s: Seq<OP>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] x.contains(s[i]) }
pub open spec fn rows_listed(x: Set<OP>, s: Seq<Vec<OP>>) -> bool { forall|i: int| 0 <= i < s.len() ==> listed(x, (#[trigger] s[i])@) }
pub open spec fn nentry_ok<F: Fn(Option<&NfaState>, Option<&NfaState>) -> bool>(a: &Nfa, b: &Nfa, f: F, tr: Seq<usize>, e: NEntry) -> bool {
    &&& opin(a, b, e.0)
    &&& call_ensures(f, (ost(a, e.0.0), ost(b, e.0.1)), e.1)
    &&& e.2@.len() == a.alphabet@.len()
    &&& forall|k: int| 0 <= k < e.2@.len() ==> lsucc(a, b, tr, e.0, k, (#[trigger] e.2@[k])@)
    &&& leps(a, b, e.0, e.3@)
}
pub open spec fn nlisted(x: Set<OP>, e: NEntry) -> bool { rows_listed(x, e.2@) && listed(x, e.3@) }
pub open spec fn nentries_ok<F: Fn(Option<&NfaState>, Option<&NfaState>) -> bool>(a: &Nfa, b: &Nfa, f: F, tr: Seq<usize>, s: Seq<NEntry>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] nentry_ok(a, b, f, tr, s[i]) }
// what is known so far while the moves of cur are listed: done entries, waiting pairs, rows and current list
#[verifier::opaque]
pub open spec fn ngrow(a: &Nfa, b: &Nfa, x: Set<OP>, sd: Seq<NEntry>, cur: OP, stk: Seq<OP>, tl: Seq<Vec<OP>>, el: Seq<OP>) -> bool {
    &&& frontier(x, ndpairs(sd).push(cur) + stk)
    &&& forall|i: int| 0 <= i < stk.len() ==> opin(a, b, #[trigger] stk[i])
    &&& forall|i: int| 0 <= i < sd.len() ==> #[trigger] nlisted(x, sd[i])
    &&& rows_listed(x, tl) && listed(x, el)
}
pub proof fn lemma_nstep(a: &Nfa, b: &Nfa, x: Set<OP>, sd: Seq<NEntry>, cur: OP, stk: Seq<OP>, tl: Seq<Vec<OP>>, el: Seq<OP>, t: OP)
    requires ngrow(a, b, x, sd, cur, stk, tl, el), opin(a, b, t),
    ensures x.contains(t) ==> ngrow(a, b, x.insert(t), sd, cur, stk, tl, el.push(t)), !x.contains(t) ==> ngrow(a, b, x.insert(t), sd, cur, stk.push(t), tl, el.push(t)),
{
    reveal(ngrow);
    let y = x.insert(t);
    assert forall|s: Seq<OP>| #[trigger] listed(x, s) implies listed(y, s) by { assert forall|i: int| 0 <= i < s.len() implies #[trigger] y.contains(s[i]) by { assert(x.contains(s[i])); } }
    assert forall|s: Seq<Vec<OP>>| #[trigger] rows_listed(x, s) implies rows_listed(y, s) by { assert forall|i: int| 0 <= i < s.len() implies listed(y, (#[trigger] s[i])@) by { assert(listed(x, s[i]@)); } }
    assert forall|i: int| 0 <= i < sd.len() implies #[trigger] nlisted(y, sd[i]) by { assert(nlisted(x, sd[i])); }
    assert(listed(y, el.push(t))) by { assert(listed(y, el)); }
    let ps = ndpairs(sd).push(cur) + stk;
    if x.contains(t) { assert(y =~= x); } else {
        lemma_frontier_push(x, ps, t);
        assert(ndpairs(sd).push(cur) + stk.push(t) =~= ps.push(t));
    }
}
pub proof fn lemma_push_has<T>(s: Seq<T>, v: T)
    ensures forall|t: T| #[trigger] s.push(v).contains(t) <==> s.contains(t) || t == v,
{
    let u = s.push(v);
    assert forall|t: T| #[trigger] u.contains(t) <==> s.contains(t) || t == v by {
        if u.contains(t) { let i = choose|i: int| 0 <= i < u.len() && u[i] == t; if i < s.len() { assert(s[i] == t); } }
        if s.contains(t) { let i = choose|i: int| 0 <= i < s.len() && s[i] == t; assert(u[i] == t); }
        assert(u[s.len() as int] == v);
    }
}
pub proof fn lemma_take_has<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures forall|t: T| #[trigger] s.take(i + 1).contains(t) <==> s.take(i).contains(t) || t == s[i],
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    lemma_push_has(s.take(i), s[i]);
}
// el lists the first i of l1 together with all of l2
pub open spec fn both(l1: Seq<usize>, l2: Seq<usize>, el: Seq<OP>) -> bool { forall|t: OP| #[trigger] el.contains(t) <==> oc(l1, t.0) && oc(l2, t.1) }
pub open spec fn both2(l1: Seq<usize>, p: usize, l2: Seq<usize>, l3: Seq<usize>, el: Seq<OP>) -> bool { forall|t: OP| #[trigger] el.contains(t) <==> (oc(l1, t.0) && oc(l2, t.1)) || (t.0 == Some(p) && oc(l3, t.1)) }
pub open spec fn only1(l: Seq<usize>, u: Option<usize>, el: Seq<OP>) -> bool { forall|t: OP| #[trigger] el.contains(t) <==> oc(l, t.0) && t.1 == u }
pub open spec fn only2(l: Seq<usize>, u: Option<usize>, el: Seq<OP>) -> bool { forall|t: OP| #[trigger] el.contains(t) <==> oc(l, t.1) && t.0 == u }
pub open spec fn also2(e0: Seq<OP>, l: Seq<usize>, u: Option<usize>, el: Seq<OP>) -> bool { forall|t: OP| #[trigger] el.contains(t) <==> e0.contains(t) || (oc(l, t.1) && t.0 == u) }

// the finished product: state i is entry i, moves by number
pub open spec fn idx_list(ps: Seq<OP>, l: Seq<usize>, m: Seq<OP>) -> bool { l.len() == m.len() && forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j]) < ps.len() && ps[l[j] as int] == m[j] }
pub open spec fn nnumbered(ps: Seq<OP>, s: NfaState, e: NEntry) -> bool {
    &&& s.accepting == e.1 && s.transitions@.len() == e.2@.len() && idx_list(ps, s.epsilon_transitions@, e.3@)
    &&& forall|k: int| 0 <= k < e.2@.len() ==> idx_list(ps, (#[trigger] s.transitions@[k])@, e.2@[k]@)
}
pub open spec fn nprod_of<F: Fn(Option<&NfaState>, Option<&NfaState>) -> bool>(a: &Nfa, b: &Nfa, f: F, tr: Seq<usize>, d: &Nfa, sd: Seq<NEntry>) -> bool {
    &&& d.alphabet == a.alphabet && d.n() == sd.len() && d.initial_state < d.n()
    &&& sd[d.initial_state as int].0 == (Some(a.initial_state), Some(b.initial_state))
    &&& nentries_ok(a, b, f, tr, sd)
    &&& forall|i: int| 0 <= i < sd.len() ==> nnumbered(ndpairs(sd), #[trigger] d.states@[i], sd[i])
}
pub proof fn lemma_idx_list(ps: Seq<OP>, l: Seq<usize>, m: Seq<OP>)
    requires idx_list(ps, l, m), ps.no_duplicates(), ps.len() <= usize::MAX,
    ensures all_lt(l, ps.len()), forall|q: usize| #[trigger] l.contains(q) ==> q < ps.len() && m.contains(ps[q as int]),
        forall|t: OP| #[trigger] m.contains(t) ==> exists|q: usize| #[trigger] l.contains(q) && q < ps.len() && ps[q as int] == t,
{
    assert forall|q: usize| #[trigger] l.contains(q) implies q < ps.len() && m.contains(ps[q as int]) by { let j = choose|j: int| 0 <= j < l.len() && l[j] == q; assert(m[j] == ps[q as int]); }
    assert forall|t: OP| #[trigger] m.contains(t) implies exists|q: usize| #[trigger] l.contains(q) && q < ps.len() && ps[q as int] == t by {
        let j = choose|j: int| 0 <= j < m.len() && m[j] == t;
        let q = l[j];
        assert(l.contains(q) && ps[q as int] == t);
    }
}
pub proof fn lemma_nprod_core<F: Fn(Option<&NfaState>, Option<&NfaState>) -> bool>(a: &Nfa, b: &Nfa, f: F, tr: Seq<usize>, d: &Nfa, sd: Seq<NEntry>)
    requires a.core(), nprod_of(a, b, f, tr, d, sd), ndpairs(sd).no_duplicates(),
    ensures d.core(),
{
    let ps = ndpairs(sd);
    assert(d.states@.len() == d.states.len());
    assert forall|q: int| 0 <= q < d.n() implies nstate_ok(#[trigger] d.states@[q], d.alphabet@.len(), d.n()) by {
        let s = d.states@[q];
        assert(nnumbered(ps, s, sd[q]));
        assert(nentry_ok(a, b, f, tr, sd[q]));
        lemma_idx_list(ps, s.epsilon_transitions@, sd[q].3@);
        assert forall|k: int| 0 <= k < d.alphabet@.len() implies all_lt((#[trigger] s.transitions@[k])@, d.n()) by { lemma_idx_list(ps, s.transitions@[k]@, sd[q].2@[k]@); }
    }
}
// an epsilon move of the product
pub proof fn lemma_nprod_eedge<F: Fn(Option<&NfaState>, Option<&NfaState>) -> bool>(a: &Nfa, b: &Nfa, f: F, tr: Seq<usize>, d: &Nfa, sd: Seq<NEntry>, p: usize)
    requires nprod_of(a, b, f, tr, d, sd), ndpairs(sd).no_duplicates(), p < d.n(),
    ensures forall|q: usize| #[trigger] eedge(d, p, q) ==> q < d.n() && is_neps(a, b, sd[p as int].0, sd[q as int].0),
        forall|t: OP| #[trigger] is_neps(a, b, sd[p as int].0, t) ==> exists|q: usize| #[trigger] eedge(d, p, q) && q < d.n() && sd[q as int].0 == t,
{
    let ps = ndpairs(sd);
    let e = sd[p as int];
    assert(d.states@.len() == d.states.len());
    assert(nnumbered(ps, d.states@[p as int], e));
    assert(nentry_ok(a, b, f, tr, e));
    lemma_idx_list(ps, d.eps(p), e.3@);
    assert forall|q: usize| #[trigger] eedge(d, p, q) implies q < d.n() && is_neps(a, b, e.0, sd[q as int].0) by { assert(e.3@.contains(ps[q as int])); }
    assert forall|t: OP| #[trigger] is_neps(a, b, e.0, t) implies exists|q: usize| #[trigger] eedge(d, p, q) && q < d.n() && sd[q as int].0 == t by {
        assert(e.3@.contains(t));
        let q = choose|q: usize| #[trigger] d.eps(p).contains(q) && q < ps.len() && ps[q as int] == t;
        assert(eedge(d, p, q));
    }
}
pub proof fn lemma_nprod_sedge<F: Fn(Option<&NfaState>, Option<&NfaState>) -> bool>(a: &Nfa, b: &Nfa, f: F, tr: Seq<usize>, d: &Nfa, sd: Seq<NEntry>, p: usize, c: Seq<char>)
    requires nprod_of(a, b, f, tr, d, sd), ndpairs(sd).no_duplicates(), p < d.n(), has_sym(a.alphabet@, c),
    ensures forall|q: usize| #[trigger] sedge(d, p, c, q) ==> q < d.n() && osucc(a, b, tr, sd[p as int].0, sym_idx(a.alphabet@, c), sd[q as int].0),
        forall|t: OP| #[trigger] osucc(a, b, tr, sd[p as int].0, sym_idx(a.alphabet@, c), t) ==> exists|q: usize| #[trigger] sedge(d, p, c, q) && q < d.n() && sd[q as int].0 == t,
{
    let ps = ndpairs(sd);
    let e = sd[p as int];
    let k = sym_idx(a.alphabet@, c);
    assert(0 <= k < a.alphabet@.len());
    assert(d.states@.len() == d.states.len());
    assert(nnumbered(ps, d.states@[p as int], e));
    assert(nentry_ok(a, b, f, tr, e));
    let l = d.states@[p as int].transitions@[k]@;
    lemma_idx_list(ps, l, e.2@[k]@);
    assert(lsucc(a, b, tr, e.0, k, e.2@[k]@));
    assert forall|q: usize| #[trigger] sedge(d, p, c, q) implies q < d.n() && osucc(a, b, tr, e.0, k, sd[q as int].0) by { assert(l.contains(q)); assert(e.2@[k]@.contains(ps[q as int])); }
    assert forall|t: OP| #[trigger] osucc(a, b, tr, e.0, k, t) implies exists|q: usize| #[trigger] sedge(d, p, c, q) && q < d.n() && sd[q as int].0 == t by {
        assert(e.2@[k]@.contains(t));
        let q = choose|q: usize| #[trigger] l.contains(q) && q < ps.len() && ps[q as int] == t;
        assert(sedge(d, p, c, q));
    }
}
// a path between pairs of states gives a path in both automata
pub proof fn lemma_nprod_from<F: Fn(Option<&NfaState>, Option<&NfaState>) -> bool>(a: &Nfa, b: &Nfa, f: F, tr: Seq<usize>, d: &Nfa, sd: Seq<NEntry>, w: Word, x: usize, k: nat)
    requires a.core(), b.core(), same_syms(a.alphabet@, b.alphabet@), col_map(b.alphabet@, a.alphabet@, tr), nprod_of(a, b, f, tr, d, sd), ndpairs(sd).no_duplicates(),
        npath(d, d.initial_state, w, x, k),
    ensures x < d.n(), match sd[x as int].0 { (Some(p), Some(q)) => nreach(a, a.initial_state, w, p) && nreach(b, b.initial_state, w, q), _ => true },
    decreases k,
{
    reveal_with_fuel(npath, 2);
    lemma_nprod_core(a, b, f, tr, d, sd);
    lemma_npath_in(d, d.initial_state, w, x, k);
    if k == 0 {
        assert(w =~= eword());
        lemma_nreach_refl(a, a.initial_state); lemma_nreach_refl(b, b.initial_state);
    } else if sd[x as int].0.0 is Some && sd[x as int].0.1 is Some {
        let t = sd[x as int].0;
        let (p, q) = (t.0.unwrap(), t.1.unwrap());
        if exists|r: usize| npath(d, d.initial_state, w, r, (k - 1) as nat) && #[trigger] eedge(d, r, x) {
            let r = choose|r: usize| npath(d, d.initial_state, w, r, (k - 1) as nat) && #[trigger] eedge(d, r, x);
            lemma_nprod_from(a, b, f, tr, d, sd, w, r, (k - 1) as nat);
            lemma_nprod_eedge(a, b, f, tr, d, sd, r);
            let s = sd[r as int].0;
            if oeps(a, s.0, t.0) && t.1 == s.1 { assert(eedge(a, s.0.unwrap(), p)); lemma_nreach_eedge(a, a.initial_state, w, s.0.unwrap(), p); }
            else { assert(eedge(b, s.1.unwrap(), q)); lemma_nreach_eedge(b, b.initial_state, w, s.1.unwrap(), q); }
        } else {
            let v = w.drop_last();
            let c = w.last();
            let r = choose|r: usize| npath(d, d.initial_state, v, r, (k - 1) as nat) && #[trigger] sedge(d, r, c, x);
            lemma_nprod_from(a, b, f, tr, d, sd, v, r, (k - 1) as nat);
            lemma_nprod_sedge(a, b, f, tr, d, sd, r, c);
            let s = sd[r as int].0;
            lemma_col_map(b.alphabet@, a.alphabet@, tr, c);
            assert(v.push(c) =~= w);
            assert(sedge(a, s.0.unwrap(), c, p));
            assert(sedge(b, s.1.unwrap(), c, q));
            lemma_nreach_sedge(a, a.initial_state, v, s.0.unwrap(), c, p);
            lemma_nreach_sedge(b, b.initial_state, v, s.1.unwrap(), c, q);
        }
    }
}
pub open spec fn nat_pair(d: &Nfa, sd: Seq<NEntry>, w: Word, p: usize, q: usize, x: usize) -> bool { x < d.n() && sd[x as int].0 == (Some(p), Some(q)) && nreach(d, d.initial_state, w, x) }
// two paths reading the same word are read together
pub proof fn lemma_nprod_to<F: Fn(Option<&NfaState>, Option<&NfaState>) -> bool>(a: &Nfa, b: &Nfa, f: F, tr: Seq<usize>, d: &Nfa, sd: Seq<NEntry>, w: Word, p: usize, i: nat, q: usize, j: nat) -> (x: usize)
    requires a.core(), b.core(), same_syms(a.alphabet@, b.alphabet@), col_map(b.alphabet@, a.alphabet@, tr), nprod_of(a, b, f, tr, d, sd), ndpairs(sd).no_duplicates(),
        npath(a, a.initial_state, w, p, i), npath(b, b.initial_state, w, q, j),
    ensures nat_pair(d, sd, w, p, q, x),
    decreases i + j,
{
    reveal_with_fuel(npath, 2);
    if i > 0 && exists|r: usize| npath(a, a.initial_state, w, r, (i - 1) as nat) && #[trigger] eedge(a, r, p) {
        let r = choose|r: usize| npath(a, a.initial_state, w, r, (i - 1) as nat) && #[trigger] eedge(a, r, p);
        let y = lemma_nprod_to(a, b, f, tr, d, sd, w, r, (i - 1) as nat, q, j);
        lemma_nprod_eedge(a, b, f, tr, d, sd, y);
        let t: OP = (Some(p), Some(q));
        assert(is_neps(a, b, sd[y as int].0, t));
        let x = choose|x: usize| #[trigger] eedge(d, y, x) && x < d.n() && sd[x as int].0 == t;
        lemma_nreach_eedge(d, d.initial_state, w, y, x);
        x
    } else if j > 0 && exists|r: usize| npath(b, b.initial_state, w, r, (j - 1) as nat) && #[trigger] eedge(b, r, q) {
        let r = choose|r: usize| npath(b, b.initial_state, w, r, (j - 1) as nat) && #[trigger] eedge(b, r, q);
        let y = lemma_nprod_to(a, b, f, tr, d, sd, w, p, i, r, (j - 1) as nat);
        lemma_nprod_eedge(a, b, f, tr, d, sd, y);
        let t: OP = (Some(p), Some(q));
        assert(is_neps(a, b, sd[y as int].0, t));
        let x = choose|x: usize| #[trigger] eedge(d, y, x) && x < d.n() && sd[x as int].0 == t;
        lemma_nreach_eedge(d, d.initial_state, w, y, x);
        x
    } else if i == 0 || j == 0 {
        assert(w.len() == 0 && i == 0 && j == 0);
        assert(w =~= eword());
        lemma_nreach_refl(d, d.initial_state);
        d.initial_state
    } else {
        let v = w.drop_last();
        let c = w.last();
        let r = choose|r: usize| npath(a, a.initial_state, v, r, (i - 1) as nat) && #[trigger] sedge(a, r, c, p);
        let s = choose|s: usize| npath(b, b.initial_state, v, s, (j - 1) as nat) && #[trigger] sedge(b, s, c, q);
        let y = lemma_nprod_to(a, b, f, tr, d, sd, v, r, (i - 1) as nat, s, (j - 1) as nat);
        lemma_nprod_sedge(a, b, f, tr, d, sd, y, c);
        lemma_col_map(b.alphabet@, a.alphabet@, tr, c);
        let t: OP = (Some(p), Some(q));
        assert(osucc(a, b, tr, sd[y as int].0, sym_idx(a.alphabet@, c), t));
        let x = choose|x: usize| #[trigger] sedge(d, y, c, x) && x < d.n() && sd[x as int].0 == t;
        lemma_nreach_sedge(d, d.initial_state, v, y, c, x);
        assert(v.push(c) =~= w);
        x
    }
}
// a combinator that asks both states to be present and accepting
pub open spec fn both_accepting<F: Fn(Option<&NfaState>, Option<&NfaState>) -> bool>(f: F) -> bool {
    forall|p: Option<&NfaState>, q: Option<&NfaState>, r: bool| #[trigger] call_ensures(f, (p, q), r) ==> r == (p is Some && q is Some && p.unwrap().accepting && q.unwrap().accepting)
}
pub proof fn lemma_nprod_inter<F: Fn(Option<&NfaState>, Option<&NfaState>) -> bool>(a: &Nfa, b: &Nfa, f: F, tr: Seq<usize>, d: &Nfa, sd: Seq<NEntry>, w: Word)
    requires a.core(), b.core(), same_syms(a.alphabet@, b.alphabet@), col_map(b.alphabet@, a.alphabet@, tr), nprod_of(a, b, f, tr, d, sd), ndpairs(sd).no_duplicates(), both_accepting(f),
    ensures naccepts(d, w) == (naccepts(a, w) && naccepts(b, w)),
{
    reveal(nreach);
    assert forall|x: usize| x < d.n() implies #[trigger] d.acc(x) == (match sd[x as int].0 { (Some(p), Some(q)) => a.acc(p) && b.acc(q), _ => false }) by {
        assert(nnumbered(ndpairs(sd), d.states@[x as int], sd[x as int]));
        assert(nentry_ok(a, b, f, tr, sd[x as int]));
        assert(call_ensures(f, (ost(a, sd[x as int].0.0), ost(b, sd[x as int].0.1)), d.acc(x)));
    }
    if naccepts(d, w) {
        let x = choose|x: usize| #[trigger] nreach(d, d.initial_state, w, x) && d.acc(x);
        let k = choose|k: nat| npath(d, d.initial_state, w, x, k);
        lemma_nprod_from(a, b, f, tr, d, sd, w, x, k);
        assert(d.acc(x));
    }
    if naccepts(a, w) && naccepts(b, w) {
        let p = choose|p: usize| #[trigger] nreach(a, a.initial_state, w, p) && a.acc(p);
        let q = choose|q: usize| #[trigger] nreach(b, b.initial_state, w, q) && b.acc(q);
        let i = choose|i: nat| npath(a, a.initial_state, w, p, i);
        let j = choose|j: nat| npath(b, b.initial_state, w, q, j);
        let x = lemma_nprod_to(a, b, f, tr, d, sd, w, p, i, q, j);
        assert(nreach(d, d.initial_state, w, x) && d.acc(x));
    }
}

// the end of the product: numbering and names
pub open spec fn nnames_of(nm: Map<OP, Str>, s: Seq<NfaState>, sd: Seq<NEntry>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).name == nm[sd[i].0] }
pub proof fn lemma_nprod_wf<F: Fn(Option<&NfaState>, Option<&NfaState>) -> bool>(a: &Nfa, b: &Nfa, f: F, tr: Seq<usize>, d: &Nfa, sd: Seq<NEntry>, x: Set<OP>, nm: Map<OP, Str>)
    requires a.core(), nprod_of(a, b, f, tr, d, sd), frontier(x, ndpairs(sd)), names_ok(nm, x), nnames_of(nm, d.states@, sd),
        forall|i: int| 0 <= i < d.n() ==> (#[trigger] d.states@[i]).initial == (sd[i].0 == (Some(a.initial_state), Some(b.initial_state))),
    ensures d.wf(),
{
    let ps = ndpairs(sd);
    lemma_nprod_core(a, b, f, tr, d, sd);
    assert forall|p: int, q: int| 0 <= p < d.n() && 0 <= q < d.n() && p != q implies (#[trigger] d.states@[p]).name@ != (#[trigger] d.states@[q]).name@ by {
        assert(ps[p] != ps[q]);
        assert(ps.contains(ps[p]) && ps.contains(ps[q]));
        assert(x.contains(ps[p]) && x.contains(ps[q]));
        assert(nm.contains_key(ps[p]) && nm.contains_key(ps[q]));
    }
    assert forall|q: int| 0 <= q < d.n() implies (#[trigger] d.states@[q]).initial == (q == d.initial_state) by {
        assert(ps[q] == sd[q].0 && ps[d.initial_state as int] == sd[d.initial_state as int].0);
    }
}
pub open spec fn nprod_lang<F: Fn(Option<&NfaState>, Option<&NfaState>) -> bool>(a: &Nfa, b: &Nfa, f: F, d: &Nfa) -> bool {
    both_accepting(f) ==> forall|w: Word| #[trigger] naccepts(d, w) == (naccepts(a, w) && naccepts(b, w))
}
pub open spec fn all_listed(x: Set<OP>, sd: Seq<NEntry>) -> bool { forall|i: int| 0 <= i < sd.len() ==> #[trigger] nlisted(x, sd[i]) }
pub open spec fn all_opin(a: &Nfa, b: &Nfa, s: Seq<OP>) -> bool { forall|i: int| 0 <= i < s.len() ==> opin(a, b, #[trigger] s[i]) }
// between two states
#[verifier::opaque]
pub open spec fn nwait<F: Fn(Option<&NfaState>, Option<&NfaState>) -> bool>(a: &Nfa, b: &Nfa, f: F, tr: Seq<usize>, x: Set<OP>, sd: Seq<NEntry>, stk: Seq<OP>) -> bool {
    nentries_ok(a, b, f, tr, sd) && all_listed(x, sd) && all_opin(a, b, stk) && frontier(x, ndpairs(sd) + stk)
}
pub proof fn lemma_nwait_start<F: Fn(Option<&NfaState>, Option<&NfaState>) -> bool>(a: &Nfa, b: &Nfa, f: F, tr: Seq<usize>, p: OP)
    requires opin(a, b, p),
    ensures nwait(a, b, f, tr, Set::<OP>::empty().insert(p), seq![], seq![p]),
{
    reveal(nwait);
    assert(ndpairs(seq![]) + seq![p] =~= seq![p]);
    assert(seq![p][0] == p);
}
pub proof fn lemma_nwait_pop<F: Fn(Option<&NfaState>, Option<&NfaState>) -> bool>(a: &Nfa, b: &Nfa, f: F, tr: Seq<usize>, x: Set<OP>, sd: Seq<NEntry>, stk: Seq<OP>)
    requires nwait(a, b, f, tr, x, sd, stk), stk.len() > 0,
    ensures opin(a, b, stk.last()), nentries_ok(a, b, f, tr, sd), ngrow(a, b, x, sd, stk.last(), stk.drop_last(), seq![], seq![]),
{
    reveal(nwait); reveal(ngrow);
    let cur = stk.last();
    let s = stk.drop_last();
    assert(stk =~= s.push(cur));
    lemma_frontier_pop(x, ndpairs(sd), s, cur);
}
pub proof fn lemma_nwait_push<F: Fn(Option<&NfaState>, Option<&NfaState>) -> bool>(a: &Nfa, b: &Nfa, f: F, tr: Seq<usize>, x: Set<OP>, sd: Seq<NEntry>, stk: Seq<OP>, e: NEntry)
    requires nentries_ok(a, b, f, tr, sd), nentry_ok(a, b, f, tr, e), ngrow(a, b, x, sd, e.0, stk, e.2@, e.3@),
    ensures nwait(a, b, f, tr, x, sd.push(e), stk),
{
    reveal(nwait); reveal(ngrow);
    assert(ndpairs(sd.push(e)) =~= ndpairs(sd).push(e.0));
    let t = sd.push(e);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] nlisted(x, t[i]) by { if i < sd.len() { assert(t[i] == sd[i]); } }
}
pub proof fn lemma_ngrow_row(a: &Nfa, b: &Nfa, x: Set<OP>, sd: Seq<NEntry>, cur: OP, stk: Seq<OP>, tl: Seq<Vec<OP>>, el: Vec<OP>)
    requires ngrow(a, b, x, sd, cur, stk, tl, el@),
    ensures ngrow(a, b, x, sd, cur, stk, tl.push(el), seq![]),
{
    reveal(ngrow);
    let t = tl.push(el);
    assert forall|i: int| 0 <= i < t.len() implies listed(x, (#[trigger] t[i])@) by { if i < tl.len() { assert(t[i] == tl[i]); } }
}
// everything known once no pair waits any more
pub proof fn lemma_nwait_done<F: Fn(Option<&NfaState>, Option<&NfaState>) -> bool>(a: &Nfa, b: &Nfa, f: F, tr: Seq<usize>, x: Set<OP>, sd: Seq<NEntry>)
    requires nwait(a, b, f, tr, x, sd, seq![]),
    ensures nentries_ok(a, b, f, tr, sd), all_listed(x, sd), frontier(x, ndpairs(sd)), x == ndpairs(sd).to_set(), x.len() == sd.len(),
{
    reveal(nwait);
    let ps = ndpairs(sd);
    assert(ps + seq![] =~= ps);
    ps.unique_seq_to_set();
    assert(ps.to_set() =~= x);
}

@fn dandy/src/nfa/mod.rs Nfa::product_construction
@attr #[verifier::rlimit(60)]
@hide nstates_ok nnames_distinct same_syms alpha_distinct col_map nentry_ok frontier all_listed nlisted names_ok trans_idx
@sig
    requires self.wf(), other.wf(), 
        forall|p: Option<&NfaState>, q: Option<&NfaState>| call_requires(combinator, (p, q)),
    ensures r is None <==> !same_syms(self.alphabet@, other.alphabet@),
        match r { None => true, Some(d) => d.wf() },
        match r { None => true, Some(d) => d.alphabet == self.alphabet && nprod_lang(self, other, combinator, &d) },
@start
    let ghost al = self.alphabet@;
    let ghost bl = other.alphabet@;
@loop 1 inv
    it1_seq == al, same_syms(al, bl), acc1@.len() == it1.pos(), col_map(bl, al.take(it1.pos()), acc1@),
@loop 1 pre
    proof { reveal(col_map); }
@loop 1 beg
    let ghost a1 = acc1@;
    proof { reveal(same_syms); assert(al[it1.pos() - 1]@ == x1@); assert(has_sym(al, x1@)); assert(has_sym(bl, x1@)); }
@loop 1 end
    proof { reveal(col_map); assert forall|j: int| 0 <= j < it1.pos() implies (#[trigger] acc1@[j]) < bl.len() && bl[acc1@[j] as int]@ == al.take(it1.pos())[j]@ by { if j < it1.pos() - 1 { assert(a1[j] == acc1@[j]); } } }
@loop 1 post
    proof { assert(al.take(al.len() as int) =~= al); }
@loop 2 inv
    it2_seq == bl, match r2 { Some(i) => i < bl.len() && bl[i as int]@ == elem1@, None => forall|i: int| 0 <= i < it2.pos() ==> (#[trigger] bl[i])@ != elem1@ },
@acc 2 Option<usize>
@let alphabet_translation
    let ghost tr = alphabet_translation@;
@loop 3 pre
    let ghost mut stk = state_pairs_to_explore@;
    let ghost ps0: OP = (Some(q1), Some(q2));
    proof {
        assert(state_pairs_to_explore@ =~= seq![ps0]);
        assert(explored_states@ =~= Set::<OP>::empty().insert(ps0));
        assert(state_data@ =~= Seq::<NEntry>::empty());
        lemma_nwait_start(self, other, combinator, tr, ps0);
    }
@loop 3 inv
    stk == state_pairs_to_explore@, self.core(), other.core(), tr == alphabet_translation@, col_map(bl, al, tr), self.alphabet@ == al, other.alphabet@ == bl,
    explored_states@.contains(ps0),
    forall|p: Option<&NfaState>, q: Option<&NfaState>| call_requires(combinator, (p, q)),
    nwait(self, other, combinator, tr, explored_states@, state_data@, state_pairs_to_explore@),
@loop 3 beg
    let ghost cur: OP = (s1, s2);
    let ghost sd = state_data@;
    proof {
        lemma_nwait_pop(self, other, combinator, tr, explored_states@, sd, stk);
        lemma_orow(self, s1); lemma_orow(other, s2);
        assert(tr.len() == al.len() && all_lt(tr, bl.len())) by { reveal(col_map); }
    }
@let eps_transitions
    proof {
        assert(transition_list@ =~= Seq::<Vec<OP>>::empty());
        assert(eps_transitions@ =~= Seq::<OP>::empty());
    }
@loop 4 inv
    cur == (s1, s2), orow(self, s1), orow(other, s2), tr == alphabet_translation@, tr.len() == al.len(), all_lt(tr, bl.len()), self.alphabet@ == al, other.alphabet@ == bl,
    sd == state_data@, transition_list@.len() == it4.pos(), explored_states@.contains(ps0),
    forall|k: int| 0 <= k < it4.pos() ==> lsucc(self, other, tr, cur, k, (#[trigger] transition_list@[k])@),
    ngrow(self, other, explored_states@, sd, cur, state_pairs_to_explore@, transition_list@, seq![]),
@loop 4 beg
    let ghost k4 = x4 as int;
    let ghost tl = transition_list@;
    let ghost l1 = otr(self, s1, k4);
    let ghost l2 = otr(other, s2, tr[k4] as int);
    proof { assert(tr[k4] < bl.len()); }
@let elem_transitions
    proof { assert(elem_transitions@ =~= Seq::<OP>::empty()); assert(all_lt(l1, self.n()) && all_lt(l2, other.n())); }
@loop 5 inv
    it5_seq == l1, all_lt(l1, self.n()), all_lt(l2, other.n()), l2 == on_elem2@, tl == transition_list@, sd == state_data@, explored_states@.contains(ps0),
    both(l1.take(it5.pos()), l2, elem_transitions@),
    ngrow(self, other, explored_states@, sd, cur, state_pairs_to_explore@, tl, elem_transitions@),
@loop 6 pre
    proof { assert(l2.take(0) =~= Seq::<usize>::empty()); }
@loop 6 inv
    it6_seq == l2, all_lt(l2, other.n()), tr1 < self.n(), tl == transition_list@, sd == state_data@, explored_states@.contains(ps0),
    both2(l1.take(it5.pos() - 1), tr1, l2, l2.take(it6.pos()), elem_transitions@),
    ngrow(self, other, explored_states@, sd, cur, state_pairs_to_explore@, tl, elem_transitions@),
@loop 6 beg
    let ghost e6 = elem_transitions@;
    let ghost x6_ = explored_states@;
    let ghost w6 = state_pairs_to_explore@;
@loop 6 end
    proof {
        lemma_nstep(self, other, x6_, sd, cur, w6, tl, e6, states);
        lemma_push_has(e6, states);
        lemma_take_has(l2, it6.pos() - 1);
    }
@loop 5 end
    proof { lemma_take_has(l1, it5.pos() - 1); assert(l2.take(l2.len() as int) =~= l2); }
@loop 5 post
    proof { assert(l1.take(l1.len() as int) =~= l1); assert(both(l1, l2, elem_transitions@)); }
@loop 7 inv
    it7_seq == l1, all_lt(l1, self.n()), tl == transition_list@, sd == state_data@, explored_states@.contains(ps0),
    only1(l1.take(it7.pos()), None, elem_transitions@),
    ngrow(self, other, explored_states@, sd, cur, state_pairs_to_explore@, tl, elem_transitions@),
@loop 7 beg
    let ghost e6 = elem_transitions@;
    let ghost x6_ = explored_states@;
    let ghost w6 = state_pairs_to_explore@;
@loop 7 end
    proof {
        lemma_nstep(self, other, x6_, sd, cur, w6, tl, e6, states);
        lemma_push_has(e6, states);
        lemma_take_has(l1, it7.pos() - 1);
    }
@loop 7 post
    proof { assert(l1.take(l1.len() as int) =~= l1); assert(only1(l1, None, elem_transitions@)); }
@loop 8 inv
    it8_seq == l2, all_lt(l2, other.n()), tl == transition_list@, sd == state_data@, explored_states@.contains(ps0),
    only2(l2.take(it8.pos()), None, elem_transitions@),
    ngrow(self, other, explored_states@, sd, cur, state_pairs_to_explore@, tl, elem_transitions@),
@loop 8 beg
    let ghost e6 = elem_transitions@;
    let ghost x6_ = explored_states@;
    let ghost w6 = state_pairs_to_explore@;
@loop 8 end
    proof {
        lemma_nstep(self, other, x6_, sd, cur, w6, tl, e6, states);
        lemma_push_has(e6, states);
        lemma_take_has(l2, it8.pos() - 1);
    }
@loop 8 post
    proof { assert(l2.take(l2.len() as int) =~= l2); assert(only2(l2, None, elem_transitions@)); }
@loop 4 end
    proof {
        let r = transition_list@.last();
        assert(lsucc(self, other, tr, cur, k4, r@));
        lemma_ngrow_row(self, other, explored_states@, sd, cur, state_pairs_to_explore@, tl, r);
        assert(transition_list@ =~= tl.push(r));
        assert forall|k: int| 0 <= k < it4.pos() implies lsucc(self, other, tr, cur, k, (#[trigger] transition_list@[k])@) by { if k < tl.len() { assert(tl[k] == transition_list@[k]); } }
    }
@loop 9 pre
    let ghost l9 = self.eps(s1);
    proof { assert(l9.take(0) =~= Seq::<usize>::empty()); }
@loop 9 inv
    it9_seq == l9, all_lt(l9, self.n()), sd == state_data@, oin(other, s2), s2 == cur.1, explored_states@.contains(ps0),
    only1(l9.take(it9.pos()), s2, eps_transitions@),
    ngrow(self, other, explored_states@, sd, cur, state_pairs_to_explore@, transition_list@, eps_transitions@),
@loop 9 beg
    let ghost e6 = eps_transitions@;
    let ghost x6_ = explored_states@;
    let ghost w6 = state_pairs_to_explore@;
@loop 9 end
    proof {
        lemma_nstep(self, other, x6_, sd, cur, w6, transition_list@, e6, states);
        lemma_push_has(e6, states);
        lemma_take_has(l9, it9.pos() - 1);
    }
@loop 9 post
    proof { assert(l9.take(l9.len() as int) =~= l9); assert(only1(l9, s2, eps_transitions@)); }
@loop 10 pre
    let ghost l10 = other.eps(s2);
    let ghost e9 = eps_transitions@;
    proof { assert(l10.take(0) =~= Seq::<usize>::empty()); }
@loop 10 inv
    it10_seq == l10, all_lt(l10, other.n()), sd == state_data@, oin(self, s1), s1 == cur.0, explored_states@.contains(ps0),
    also2(e9, l10.take(it10.pos()), s1, eps_transitions@),
    ngrow(self, other, explored_states@, sd, cur, state_pairs_to_explore@, transition_list@, eps_transitions@),
@loop 10 beg
    let ghost e6 = eps_transitions@;
    let ghost x6_ = explored_states@;
    let ghost w6 = state_pairs_to_explore@;
@loop 10 end
    proof {
        lemma_nstep(self, other, x6_, sd, cur, w6, transition_list@, e6, states);
        lemma_push_has(e6, states);
        lemma_take_has(l10, it10.pos() - 1);
    }
@loop 10 post
    proof { assert(l10.take(l10.len() as int) =~= l10); assert(also2(e9, l10, s1, eps_transitions@)); }
@loop 3 end
    proof {
        stk = state_pairs_to_explore@;
        let e = state_data@.last();
        assert(leps(self, other, cur, e.3@));
        assert(nentry_ok(self, other, combinator, tr, e)) by { reveal(nentry_ok); }
        lemma_nwait_push(self, other, combinator, tr, explored_states@, sd, stk, e);
        assert(state_data@ =~= sd.push(e));
    }
@loop 3 post
    let ghost sdf = state_data@;
    let ghost ps = ndpairs(sdf);
    proof {
        assert(stk =~= Seq::<OP>::empty());
        lemma_nwait_done(self, other, combinator, tr, explored_states@, sdf);
        lemma_ps_opin(self, other, combinator, tr, sdf);
        lemma_frontier_mem(explored_states@, ps);
    }
@acc 11 HMap<(Option<usize>, Option<usize>), Str>
@loop 11 inv
    all_opin(self, other, ps), enumerates(it11_seq, explored_states@), members(explored_states@, ps),
    forall|k: OP| #[trigger] acc11@.contains_key(k) ==> explored_states@.contains(k) && hm@.contains(acc11@[k]@),
    forall|k: OP, l: OP| acc11@.contains_key(k) && acc11@.contains_key(l) && k != l ==> (#[trigger] acc11@[k])@ != (#[trigger] acc11@[l])@,
    forall|k: OP| #[trigger] acc11@.contains_key(k) ==> exists|j: int| 0 <= j < it11.pos() && it11_seq[j] == k,
@loop 11 beg
    proof {
        assert(it11_seq[it11.pos() - 1].kv() == *x11);
        assert(explored_states@.contains(*x11));
        assert(ps.contains(*x11));
        let i = choose|i: int| 0 <= i < ps.len() && ps[i] == *x11;
        assert(opin(self, other, ps[i]));
        assert forall|k: OP| #[trigger] acc11@.contains_key(k) implies k != *x11 by {
            let j = choose|j: int| 0 <= j < it11.pos() - 1 && it11_seq[j] == k;
            assert(it11_seq[j].kv() != it11_seq[it11.pos() - 1].kv());
        }
    }
@loop 11 post
    proof {
        assert(acc11@.dom().subset_of(explored_states@));
        if acc11@.dom().len() >= state_data@.len() {
            vstd::set_lib::lemma_len_subset(acc11@.dom(), explored_states@);
            vstd::set_lib::lemma_subset_equality(acc11@.dom(), explored_states@);
            assert(names_ok(acc11@, explored_states@)) by { reveal(names_ok); }
        }
    }
@acc 12 HMap<(Option<usize>, Option<usize>), Str>
@loop 12 inv
    enumerates(it12_seq, explored_states@),
    forall|k: OP| #[trigger] acc12@.contains_key(k) <==> exists|j: int| 0 <= j < it12.pos() && (#[trigger] it12_seq[j]) == k,
    forall|j: int| 0 <= j < it12.pos() ==> acc12@[#[trigger] it12_seq[j]]@ == dec(j),
@loop 12 beg
    proof {
        assert forall|j: int| 0 <= j < it12.pos() - 1 implies (#[trigger] it12_seq[j]) != *x12 by {
            assert(it12_seq[j].kv() != it12_seq[it12.pos() - 1].kv());
        }
    }
@loop 12 post
    proof {
        assert(names_ok(acc12@, explored_states@)) by {
            reveal(names_ok);
            assert forall|k: OP| #[trigger] acc12@.contains_key(k) <==> explored_states@.contains(k) by {
                if acc12@.contains_key(k) { let j = choose|j: int| 0 <= j < it12_seq.len() && (#[trigger] it12_seq[j]) == k; assert(explored_states@.contains(it12_seq[j].kv())); }
                if explored_states@.contains(k) { let j = choose|j: int| 0 <= j < it12_seq.len() && (#[trigger] it12_seq[j]).kv() == k; assert(it12_seq[j] == k); }
            }
            assert forall|k: OP, l: OP| acc12@.contains_key(k) && acc12@.contains_key(l) && k != l implies (#[trigger] acc12@[k])@ != (#[trigger] acc12@[l])@ by {
                let i = choose|j: int| 0 <= j < it12_seq.len() && (#[trigger] it12_seq[j]) == k;
                let j = choose|j: int| 0 <= j < it12_seq.len() && (#[trigger] it12_seq[j]) == l;
                axiom_dec_inj(i, j);
            }
        }
    }
@let names
    proof { assert(names_ok(names@, explored_states@)); }
@acc 13 HMap<(Option<usize>, Option<usize>), usize>
@loop 13 inv
    it13_seq == sdf, ps == ndpairs(sdf),
    forall|k: OP| #[trigger] acc13@.contains_key(k) <==> exists|j: int| 0 <= j < it13.pos() && (#[trigger] ps[j]) == k,
    forall|k: OP| #[trigger] acc13@.contains_key(k) ==> acc13@[k] < it13.pos() && ps[acc13@[k] as int] == k,
@loop 13 beg
    proof { assert(ps[it13.pos() - 1] == x13.0); }
@loop 13 post
    proof {
        assert(trans_idx(ps, acc13@)) by {
            reveal(trans_idx);
            assert forall|k: OP| #[trigger] acc13@.contains_key(k) <==> ps.contains(k) by {
                if acc13@.contains_key(k) { let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]) == k; assert(ps.contains(k)); }
                if ps.contains(k) { let j = choose|j: int| 0 <= j < ps.len() && ps[j] == k; assert(ps[j] == k); }
            }
        }
    }
@let rev_state_idx_map
    let ghost mm = rev_state_idx_map@;
    proof { lemma_trans_idx(ps, mm, ps0); }
@acc 14 Vec<NfaState>
@loop 14 inv
    it14_seq == sdf, ps == ndpairs(sdf), mm == rev_state_idx_map@, trans_idx(ps, mm), names_ok(names@, explored_states@), members(explored_states@, ps), all_listed(explored_states@, sdf),
    ps0 == (Some(q1), Some(q2)),
    acc14@.len() == it14.pos(), nnames_of(names@, acc14@, sdf),
    forall|i: int| 0 <= i < acc14@.len() ==> (#[trigger] acc14@[i]).initial == (sdf[i].0 == ps0),
    forall|i: int| 0 <= i < acc14@.len() ==> nnumbered(ps, #[trigger] acc14@[i], sdf[i]),
@loop 14 beg
    let ghost e14 = x14;
    proof {
        assert(ps[it14.pos() - 1] == e14.0);
        assert(ps.contains(e14.0));
        assert(explored_states@.contains(e14.0));
        assert(names@.contains_key(e14.0)) by { reveal(names_ok); }
        assert(nlisted(explored_states@, e14)) by { reveal(all_listed); assert(nlisted(explored_states@, sdf[it14.pos() - 1])); }
        assert(rows_listed(explored_states@, e14.2@) && listed(explored_states@, e14.3@)) by { reveal(nlisted); }
    }
@acc 15 Vec<Vec<usize>>
@loop 15 inv
    it15_seq == e14.2@, rows_listed(explored_states@, e14.2@), mm == rev_state_idx_map@, trans_idx(ps, mm), members(explored_states@, ps),
    acc15@.len() == it15.pos(), forall|k: int| 0 <= k < acc15@.len() ==> idx_list(ps, (#[trigger] acc15@[k])@, e14.2@[k]@),
@loop 15 beg
    proof { assert(listed(explored_states@, e14.2@[it15.pos() - 1]@)); }
@acc 16 Vec<usize>
@loop 16 inv
    it16_seq == transition_list@, listed(explored_states@, transition_list@), mm == rev_state_idx_map@, trans_idx(ps, mm), members(explored_states@, ps),
    acc16@.len() == it16.pos(), forall|k: int| 0 <= k < acc16@.len() ==> (#[trigger] acc16@[k]) < ps.len() && ps[acc16@[k] as int] == transition_list@[k],
@loop 16 beg
    proof { assert(explored_states@.contains(transition_list@[it16.pos() - 1])); lemma_trans_idx(ps, mm, *x16); }
@acc 17 Vec<usize>
@loop 17 inv
    it17_seq == e14.3@, listed(explored_states@, e14.3@), mm == rev_state_idx_map@, trans_idx(ps, mm), members(explored_states@, ps),
    acc17@.len() == it17.pos(), forall|k: int| 0 <= k < acc17@.len() ==> (#[trigger] acc17@[k]) < ps.len() && ps[acc17@[k] as int] == e14.3@[k],
@loop 17 beg
    proof { assert(explored_states@.contains(e14.3@[it17.pos() - 1])); lemma_trans_idx(ps, mm, x17); }
@end
    proof {
        let d = &ret_.unwrap();
        assert(nprod_of(self, other, combinator, tr, d, sdf));
        lemma_nprod_wf(self, other, combinator, tr, d, sdf, explored_states@, names@);
        if both_accepting(combinator) {
            assert forall|w: Word| #[trigger] naccepts(d, w) == (naccepts(self, w) && naccepts(other, w)) by {
                assert(ps.no_duplicates()) by { reveal(frontier); }
                lemma_nprod_inter(self, other, combinator, tr, d, sdf, w);
            }
        }
    }
@raw
pub open spec fn orow(a: &Nfa, p: Option<usize>) -> bool { match p { Some(s) => s < a.n() && nstate_ok(a.states@[s as int], a.alphabet@.len(), a.n()), None => true } }
pub proof fn lemma_orow(a: &Nfa, p: Option<usize>)
    requires a.core(), oin(a, p),
    ensures orow(a, p),
{}
pub open spec fn members(x: Set<OP>, ps: Seq<OP>) -> bool { forall|k: OP| #[trigger] x.contains(k) <==> ps.contains(k) }
pub proof fn lemma_frontier_mem(x: Set<OP>, ps: Seq<OP>)
    requires frontier(x, ps),
    ensures members(x, ps),
{}
pub proof fn lemma_ps_opin<F: Fn(Option<&NfaState>, Option<&NfaState>) -> bool>(a: &Nfa, b: &Nfa, f: F, tr: Seq<usize>, sd: Seq<NEntry>)
    requires nentries_ok(a, b, f, tr, sd),
    ensures all_opin(a, b, ndpairs(sd)),
{ assert forall|i: int| 0 <= i < sd.len() implies opin(a, b, #[trigger] ndpairs(sd)[i]) by { assert(nentry_ok(a, b, f, tr, sd[i])); } }
pub proof fn lemma_trans_idx(ps: Seq<OP>, m: Map<OP, usize>, k: OP)
    requires trans_idx(ps, m), ps.contains(k),
    ensures m.contains_key(k), m[k] < ps.len(), ps[m[k] as int] == k,
{}

@fn dandy/src/nfa/mod.rs Nfa::intersection
@sig
    requires self.wf(), other.wf(),
    ensures r is None <==> !same_syms(self.alphabet@, other.alphabet@),
        match r { None => true, Some(d) => d.wf() },
        match r { None => true, Some(d) => d.alphabet == self.alphabet && forall|w: Word| #[trigger] naccepts(&d, w) == (naccepts(self, w) && naccepts(other, w)) },
@closure 1 $%1: Option<&NfaState>, $%2: Option<&NfaState>| -> (r: bool)
    auto
