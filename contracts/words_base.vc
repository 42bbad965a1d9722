@raw
// ------------------------------------------------------------------ words as lists of symbol numbers
pub type Iw = Seq<usize>;
pub open spec fn iw_ok(n: &Nfa, w: Iw) -> bool { forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] < n.alphabet@.len() }
pub open spec fn syms_of(n: &Nfa, w: Iw) -> Word { w.map_values(|a: usize| n.alphabet@[a as int]@) }
// a move on symbol number a; a move on any symbol
pub open spec fn st(n: &Nfa, q: usize, a: usize, p: usize) -> bool { a < n.alphabet@.len() && n.tr(q, a as int).contains(p) }
pub open spec fn ge(n: &Nfa, q: usize, p: usize) -> bool { exists|a: usize| #[trigger] st(n, q, a, p) }
// p is m moves away from q
pub open spec fn go(n: &Nfa, q: usize, m: nat, p: usize) -> bool decreases m { if m == 0 { q == p } else { exists|r: usize| #[trigger] ge(n, q, r) && go(n, r, (m - 1) as nat, p) } }
// an accepting state is m moves away from q
pub open spec fn live(n: &Nfa, q: usize, m: nat) -> bool decreases m { if m == 0 { n.acc(q) } else { exists|r: usize| #[trigger] ge(n, q, r) && live(n, r, (m - 1) as nat) } }
// w leads from q to an accepting state
pub open spec fn racc(n: &Nfa, q: usize, w: Iw) -> bool decreases w.len() { if w.len() == 0 { n.acc(q) } else { exists|r: usize| #[trigger] st(n, q, w[0], r) && racc(n, r, w.skip(1)) } }
pub open spec fn raccs(n: &Nfa, x: Set<usize>, w: Iw) -> bool { exists|q: usize| x.contains(q) && #[trigger] racc(n, q, w) }
pub open spec fn iacc(n: &Nfa, w: Iw) -> bool { racc(n, n.initial_state, w) }
// the order of words: by length, then by the first difference
pub open spec fn lex(u: Iw, v: Iw) -> bool { exists|d: int| 0 <= d < u.len() && d < v.len() && #[trigger] u.take(d) == v.take(d) && u[d] < v[d] }
pub open spec fn wl(u: Iw, v: Iw) -> bool { u.len() < v.len() || (u.len() == v.len() && lex(u, v)) }
pub proof fn lemma_st_in(n: &Nfa, q: usize, a: usize, p: usize)
    requires n.core(), q < n.n(), st(n, q, a, p),
    ensures p < n.n(),
{
    assert(nstate_ok(n.states@[q as int], n.alphabet@.len(), n.n()));
    assert(all_lt(n.states@[q as int].transitions@[a as int]@, n.n()));
}
pub proof fn lemma_ge_in(n: &Nfa, q: usize, p: usize)
    requires n.core(), q < n.n(), ge(n, q, p),
    ensures p < n.n(),
{
    let a = choose|a: usize| #[trigger] st(n, q, a, p);
    lemma_st_in(n, q, a, p);
}
pub proof fn lemma_racc_live(n: &Nfa, q: usize, w: Iw)
    requires racc(n, q, w),
    ensures live(n, q, w.len()), iw_ok(n, w),
    decreases w.len(),
{
    if w.len() > 0 {
        let r = choose|r: usize| #[trigger] st(n, q, w[0], r) && racc(n, r, w.skip(1));
        lemma_racc_live(n, r, w.skip(1));
        assert(ge(n, q, r) && live(n, r, (w.len() - 1) as nat));
        assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i] < n.alphabet@.len() by { if i > 0 { assert(w.skip(1)[i - 1] == w[i]); } }
    }
}
pub proof fn lemma_live_go(n: &Nfa, q: usize, m: nat)
    ensures live(n, q, m) <==> exists|p: usize| #[trigger] go(n, q, m, p) && n.acc(p),
    decreases m,
{
    if m > 0 {
        if live(n, q, m) {
            let r = choose|r: usize| #[trigger] ge(n, q, r) && live(n, r, (m - 1) as nat);
            lemma_live_go(n, r, (m - 1) as nat);
            let p = choose|p: usize| #[trigger] go(n, r, (m - 1) as nat, p) && n.acc(p);
            assert(go(n, q, m, p));
        }
        if exists|p: usize| #[trigger] go(n, q, m, p) && n.acc(p) {
            let p = choose|p: usize| #[trigger] go(n, q, m, p) && n.acc(p);
            let r = choose|r: usize| #[trigger] ge(n, q, r) && go(n, r, (m - 1) as nat, p);
            lemma_live_go(n, r, (m - 1) as nat);
            assert(ge(n, q, r) && live(n, r, (m - 1) as nat));
        }
    } else {
        assert(go(n, q, 0, q));
    }
}
pub proof fn lemma_go_in(n: &Nfa, q: usize, m: nat, p: usize)
    requires n.core(), q < n.n(), go(n, q, m, p),
    ensures p < n.n(),
    decreases m,
{
    if m > 0 {
        let r = choose|r: usize| #[trigger] ge(n, q, r) && go(n, r, (m - 1) as nat, p);
        lemma_ge_in(n, q, r);
        lemma_go_in(n, r, (m - 1) as nat, p);
    }
}
// one more move at the end
pub proof fn lemma_go_last(n: &Nfa, q: usize, m: nat, p: usize)
    ensures go(n, q, m + 1, p) <==> exists|r: usize| go(n, q, m, r) && #[trigger] ge(n, r, p),
    decreases m,
{
    if m == 0 {
        if go(n, q, 1, p) { let r = choose|r: usize| #[trigger] ge(n, q, r) && go(n, r, 0, p); assert(go(n, q, 0, q) && ge(n, q, p)); }
        if exists|r: usize| go(n, q, 0, r) && #[trigger] ge(n, r, p) { assert(ge(n, q, p) && go(n, p, 0, p)); }
    } else {
        if go(n, q, m + 1, p) {
            let s = choose|s: usize| #[trigger] ge(n, q, s) && go(n, s, m, p);
            lemma_go_last(n, s, (m - 1) as nat, p);
            let r = choose|r: usize| go(n, s, (m - 1) as nat, r) && #[trigger] ge(n, r, p);
            assert(go(n, q, m, r));
        }
        if exists|r: usize| go(n, q, m, r) && #[trigger] ge(n, r, p) {
            let r = choose|r: usize| go(n, q, m, r) && #[trigger] ge(n, r, p);
            let s = choose|s: usize| #[trigger] ge(n, q, s) && go(n, s, (m - 1) as nat, r);
            lemma_go_last(n, s, (m - 1) as nat, p);
            assert(ge(n, q, s) && go(n, s, m, p));
        }
    }
}
// ------------------------------------------------------------------ the states a beginning of a word leads to, if it can be completed
// reached from x by u, each time into states from which len - (letters read) more letters can be accepted
pub open spec fn inx(n: &Nfa, x: Set<usize>, u: Iw, len: int, p: usize) -> bool decreases u.len() {
    if u.len() == 0 { x.contains(p) } else { live(n, p, nn(len - u.len())) && exists|q: usize| inx(n, x, u.drop_last(), len, q) && #[trigger] st(n, q, u.last(), p) }
}
pub open spec fn nn(m: int) -> nat { if m >= 0 { m as nat } else { 0 } }
// y holds exactly these states
pub open spec fn sx(n: &Nfa, x: Set<usize>, u: Iw, len: int, y: Set<usize>) -> bool { forall|p: usize| #[trigger] y.contains(p) <==> inx(n, x, u, len, p) }
// the states reached from x by one move on c, from which m more letters can be accepted
pub open spec fn suc(n: &Nfa, x: Set<usize>, c: usize, m: nat, p: usize) -> bool { live(n, p, m) && exists|q: usize| x.contains(q) && #[trigger] st(n, q, c, p) }
pub open spec fn can(n: &Nfa, x: Set<usize>, c: usize, m: nat) -> bool { exists|p: usize| #[trigger] suc(n, x, c, m, p) }
pub open spec fn sucs(n: &Nfa, x: Set<usize>, c: usize, m: nat, y: Set<usize>) -> bool { forall|p: usize| #[trigger] y.contains(p) <==> suc(n, x, c, m, p) }
// c is the smallest symbol that can come next
pub open spec fn least(n: &Nfa, x: Set<usize>, m: nat, c: usize) -> bool { can(n, x, c, m) && forall|a: usize| #[trigger] can(n, x, a, m) ==> c <= a }
pub proof fn lemma_sx_push(n: &Nfa, x: Set<usize>, u: Iw, len: int, y: Set<usize>, c: usize, z: Set<usize>)
    requires sx(n, x, u, len, y), sucs(n, y, c, nn(len - u.len() - 1), z),
    ensures sx(n, x, u.push(c), len, z),
{
    let v = u.push(c);
    assert(v.drop_last() =~= u);
    assert forall|p: usize| #[trigger] z.contains(p) <==> inx(n, x, v, len, p) by {
        if z.contains(p) { assert(suc(n, y, c, nn(len - u.len() - 1), p)); let q = choose|q: usize| y.contains(q) && #[trigger] st(n, q, c, p); assert(inx(n, x, v.drop_last(), len, q) && st(n, q, v.last(), p)); }
        if inx(n, x, v, len, p) { let q = choose|q: usize| inx(n, x, v.drop_last(), len, q) && #[trigger] st(n, q, v.last(), p); assert(y.contains(q)); assert(suc(n, y, c, nn(len - u.len() - 1), p)); }
    }
}
pub proof fn lemma_sx_cat(n: &Nfa, x: Set<usize>, u: Iw, len: int, y: Set<usize>, v: Iw, p: usize)
    requires sx(n, x, u, len, y),
    ensures inx(n, y, v, len - u.len(), p) <==> inx(n, x, u + v, len, p),
    decreases v.len(),
{
    if v.len() == 0 { assert(u + v =~= u); assert(y.contains(p) <==> inx(n, x, u, len, p)); } else {
        let w = u + v;
        assert(w.drop_last() =~= u + v.drop_last());
        assert(w.last() == v.last());
        assert forall|q: usize| inx(n, y, v.drop_last(), len - u.len(), q) <==> inx(n, x, w.drop_last(), len, q) by { lemma_sx_cat(n, x, u, len, y, v.drop_last(), q); }
        if inx(n, y, v, len - u.len(), p) { let q = choose|q: usize| inx(n, y, v.drop_last(), len - u.len(), q) && #[trigger] st(n, q, v.last(), p); assert(inx(n, x, w.drop_last(), len, q) && st(n, q, w.last(), p)); }
        if inx(n, x, w, len, p) { let q = choose|q: usize| inx(n, x, w.drop_last(), len, q) && #[trigger] st(n, q, w.last(), p); assert(inx(n, y, v.drop_last(), len - u.len(), q) && st(n, q, v.last(), p)); }
    }
}
pub proof fn lemma_sx_cat_all(n: &Nfa, x: Set<usize>, u: Iw, len: int, y: Set<usize>, v: Iw, z: Set<usize>)
    requires sx(n, x, u, len, y), sx(n, y, v, len - u.len(), z),
    ensures sx(n, x, u + v, len, z),
{
    assert forall|p: usize| #[trigger] z.contains(p) <==> inx(n, x, u + v, len, p) by { lemma_sx_cat(n, x, u, len, y, v, p); }
}
// what is accepted from there is accepted from the start
pub proof fn lemma_inx_sound(n: &Nfa, x: Set<usize>, u: Iw, len: int, p: usize, v: Iw)
    requires inx(n, x, u, len, p), racc(n, p, v),
    ensures raccs(n, x, u + v),
    decreases u.len(),
{
    if u.len() == 0 { assert(u + v =~= v); } else {
        let q = choose|q: usize| inx(n, x, u.drop_last(), len, q) && #[trigger] st(n, q, u.last(), p);
        let v2 = seq![u.last()] + v;
        assert(v2.skip(1) =~= v);
        assert(racc(n, q, v2)) by { assert(st(n, q, v2[0], p) && racc(n, p, v2.skip(1))); }
        lemma_inx_sound(n, x, u.drop_last(), len, q, v2);
        assert(u.drop_last() + v2 =~= u + v);
    }
}
pub proof fn lemma_inx_complete(n: &Nfa, x: Set<usize>, u: Iw, len: int, v: Iw)
    requires raccs(n, x, u + v), len == u.len() + v.len(),
    ensures exists|p: usize| #[trigger] inx(n, x, u, len, p) && racc(n, p, v),
    decreases u.len(),
{
    if u.len() == 0 {
        assert(u + v =~= v);
        let q = choose|q: usize| x.contains(q) && #[trigger] racc(n, q, u + v);
        assert(inx(n, x, u, len, q) && racc(n, q, v));
    } else {
        let v2 = seq![u.last()] + v;
        assert(u.drop_last() + v2 =~= u + v);
        lemma_inx_complete(n, x, u.drop_last(), len, v2);
        let q = choose|q: usize| #[trigger] inx(n, x, u.drop_last(), len, q) && racc(n, q, v2);
        let p = choose|p: usize| #[trigger] st(n, q, v2[0], p) && racc(n, p, v2.skip(1));
        assert(v2.skip(1) =~= v);
        lemma_racc_live(n, p, v);
        assert(inx(n, x, u.drop_last(), len, q) && st(n, q, u.last(), p));
        assert(inx(n, x, u, len, p));
    }
}
// a next letter exists
pub proof fn lemma_can(n: &Nfa, y: Set<usize>, m: nat)
    requires exists|q: usize| y.contains(q) && #[trigger] live(n, q, m), m > 0,
    ensures exists|c: usize| #[trigger] can(n, y, c, (m - 1) as nat),
{
    let q = choose|q: usize| y.contains(q) && #[trigger] live(n, q, m);
    let r = choose|r: usize| #[trigger] ge(n, q, r) && live(n, r, (m - 1) as nat);
    let a = choose|a: usize| #[trigger] st(n, q, a, r);
    assert(suc(n, y, a, (m - 1) as nat, r));
    assert(can(n, y, a, (m - 1) as nat));
}
// y picks the smallest letter each time
pub open spec fn greedy(n: &Nfa, x: Set<usize>, m: nat, y: Iw, sets: Seq<Set<usize>>) -> bool {
    &&& y.len() == m && sets.len() == m
    &&& forall|t: int| #[trigger] idx_(t) && 0 <= t < m ==> sx(n, x, y.take(t), m as int, sets[t])
    &&& forall|t: int| #[trigger] idx_(t) && 0 <= t < m ==> least(n, sets[t], (m - t - 1) as nat, y[t])
}
pub open spec fn idx_(i: int) -> bool { true }
pub proof fn lemma_greedy_acc(n: &Nfa, x: Set<usize>, m: nat, y: Iw, sets: Seq<Set<usize>>)
    requires greedy(n, x, m, y, sets), exists|q: usize| x.contains(q) && #[trigger] live(n, q, m),
    ensures raccs(n, x, y),
{
    if m == 0 {
        let q = choose|q: usize| x.contains(q) && #[trigger] live(n, q, m);
        assert(racc(n, q, y));
    } else {
        let t = m - 1;
        assert(idx_(t) && idx_(m as int));
        let p = choose|p: usize| #[trigger] suc(n, sets[t], y[t], 0, p);
        let q = choose|q: usize| sets[t].contains(q) && #[trigger] st(n, q, y[t], p);
        let v = seq![y[t]];
        assert(v.skip(1).len() == 0);
        assert(racc(n, q, v)) by { assert(st(n, q, v[0], p) && racc(n, p, v.skip(1))); }
        lemma_inx_sound(n, x, y.take(t), m as int, q, v);
        assert(y.take(t) + v =~= y);
    }
}
pub proof fn lemma_greedy_min(n: &Nfa, x: Set<usize>, m: nat, y: Iw, sets: Seq<Set<usize>>, v: Iw)
    requires greedy(n, x, m, y, sets), raccs(n, x, v), v.len() == m,
    ensures !lex(v, y),
{
    if lex(v, y) {
        let d = choose|d: int| 0 <= d < v.len() && d < y.len() && #[trigger] v.take(d) == y.take(d) && v[d] < y[d];
        assert(idx_(d));
        assert(v.take(d) + v.skip(d) =~= v);
        lemma_inx_complete(n, x, v.take(d), m as int, v.skip(d));
        let q = choose|q: usize| #[trigger] inx(n, x, v.take(d), m as int, q) && racc(n, q, v.skip(d));
        assert(sets[d].contains(q));
        let p = choose|p: usize| #[trigger] st(n, q, v.skip(d)[0], p) && racc(n, p, v.skip(d).skip(1));
        lemma_racc_live(n, p, v.skip(d).skip(1));
        assert(suc(n, sets[d], v[d], (m - d - 1) as nat, p));
        assert(can(n, sets[d], v[d], (m - d - 1) as nat));
    }
}
// ------------------------------------------------------------------ order
pub proof fn lemma_lex_irr(u: Iw)
    ensures !lex(u, u), !wl(u, u),
{
}
pub proof fn lemma_lex_trans(u: Iw, v: Iw, w: Iw)
    requires lex(u, v), lex(v, w),
    ensures lex(u, w),
{
    let d = choose|d: int| 0 <= d < u.len() && d < v.len() && #[trigger] u.take(d) == v.take(d) && u[d] < v[d];
    let e = choose|e: int| 0 <= e < v.len() && e < w.len() && #[trigger] v.take(e) == w.take(e) && v[e] < w[e];
    let f = if d < e { d } else { e };
    assert(u.take(f) =~= w.take(f)) by {
        assert forall|i: int| 0 <= i < f implies u[i] == w[i] by { assert(u.take(d)[i] == v.take(d)[i]); assert(v.take(e)[i] == w.take(e)[i]); }
    }
    if d < e { assert(v.take(e)[d] == w.take(e)[d]); }
    if e < d { assert(u.take(d)[e] == v.take(d)[e]); }
    assert(u[f] < w[f]);
}
pub proof fn lemma_lex_total(u: Iw, v: Iw)
    requires u.len() == v.len(),
    ensures u == v || lex(u, v) || lex(v, u),
{
    if u != v { assert(u.take(0) =~= v.take(0)); lemma_first_diff(u, v, 0); let d = choose|d: int| 0 <= d < u.len() && #[trigger] u.take(d) == v.take(d) && u[d] != v[d]; if u[d] < v[d] { assert(lex(u, v)); } else { assert(v.take(d) == u.take(d)); assert(lex(v, u)); } }
}
pub proof fn lemma_first_diff(u: Iw, v: Iw, i: int)
    requires u.len() == v.len(), u != v, 0 <= i <= u.len(), u.take(i) == v.take(i),
    ensures exists|d: int| 0 <= d < u.len() && #[trigger] u.take(d) == v.take(d) && u[d] != v[d],
    decreases u.len() - i,
{
    if i == u.len() { assert(u.take(i) =~= u); assert(v.take(i) =~= v); }
    else if u[i] == v[i] { assert(u.take(i + 1) =~= u.take(i).push(u[i])); assert(v.take(i + 1) =~= v.take(i).push(v[i])); lemma_first_diff(u, v, i + 1); }
}
pub proof fn lemma_wl_trans(u: Iw, v: Iw, w: Iw)
    requires wl(u, v), wl(v, w),
    ensures wl(u, w),
{
    if u.len() == v.len() && v.len() == w.len() { lemma_lex_trans(u, v, w); }
}
pub proof fn lemma_wl_total(u: Iw, v: Iw)
    ensures u == v || wl(u, v) || wl(v, u),
{
    if u.len() == v.len() { lemma_lex_total(u, v); }
}
// ------------------------------------------------------------------ lengths without words
// a walk of m moves from q to an accepting state, as the list of its states
pub open spec fn walk(n: &Nfa, t: Seq<usize>) -> bool { t.len() > 0 && n.acc(t.last()) && forall|i: int| 0 <= i < t.len() - 1 ==> ge(n, #[trigger] t[i], t[i + 1]) }
pub proof fn lemma_walk_live(n: &Nfa, t: Seq<usize>)
    requires walk(n, t),
    ensures live(n, t[0], (t.len() - 1) as nat),
    decreases t.len(),
{
    if t.len() > 1 {
        let s = t.skip(1);
        assert forall|i: int| 0 <= i < s.len() - 1 implies ge(n, #[trigger] s[i], s[i + 1]) by { assert(ge(n, t[i + 1], t[i + 1 + 1])); }
        lemma_walk_live(n, s);
        assert(ge(n, t[0], t[1]));
        assert(ge(n, t[0], s[0]) && live(n, s[0], (s.len() - 1) as nat));
    }
}
pub proof fn lemma_live_walk(n: &Nfa, q: usize, m: nat) -> (t: Seq<usize>)
    requires n.core(), q < n.n(), live(n, q, m),
    ensures walk(n, t), t[0] == q, t.len() == m + 1, all_lt(t, n.n()),
    decreases m,
{
    if m == 0 { seq![q] } else {
        let r = choose|r: usize| #[trigger] ge(n, q, r) && live(n, r, (m - 1) as nat);
        lemma_ge_in(n, q, r);
        let s = lemma_live_walk(n, r, (m - 1) as nat);
        let t = seq![q] + s;
        assert forall|i: int| 0 <= i < t.len() - 1 implies ge(n, #[trigger] t[i], t[i + 1]) by { if i > 0 { assert(ge(n, s[i - 1], s[i - 1 + 1])); } }
        assert(t.last() == s.last());
        t
    }
}
pub proof fn lemma_repeat(h: Seq<usize>, n: nat) -> (r: (int, int))
    requires h.len() > n, all_lt(h, n),
    ensures 0 <= r.0 < r.1 < h.len(), h[r.0] == h[r.1],
{
    if h.no_duplicates() {
        h.unique_seq_to_set();
        assert forall|x: usize| #[trigger] h.to_set().contains(x) implies x < n by { let i = choose|i: int| 0 <= i < h.len() && h[i] == x; assert(h[i] < n); }
        lemma_idx_bound(h.to_set(), n);
    }
    let (i, j) = choose|i: int, j: int| 0 <= i < h.len() && 0 <= j < h.len() && i != j && h[i] == h[j];
    if i < j { (i, j) } else { (j, i) }
}
pub proof fn lemma_cut_walk(n: &Nfa, t: Seq<usize>, i: int, j: int)
    requires walk(n, t), 0 <= i < j < t.len(), t[i] == t[j],
    ensures walk(n, t.take(i) + t.skip(j)), (t.take(i) + t.skip(j))[0] == t[0], (t.take(i) + t.skip(j)).len() == t.len() - (j - i),
{
    let s = t.take(i) + t.skip(j);
    assert forall|x: int| 0 <= x < s.len() - 1 implies ge(n, #[trigger] s[x], s[x + 1]) by {
        if x + 1 < i { assert(s[x] == t[x] && s[x + 1] == t[x + 1]); assert(ge(n, t[x], t[x + 1])); }
        else if x + 1 == i { assert(s[x] == t[x] && s[x + 1] == t[j]); assert(ge(n, t[x], t[x + 1])); }
        else { let y = x - i + j; assert(s[x] == t[y] && s[x + 1] == t[y + 1]); assert(ge(n, t[y], t[y + 1])); }
    }
    assert(s.last() == t.last());
    if i == 0 { assert(s[0] == t[j]); }
}
// after as many lengths without a word as there are states, no longer word exists
pub proof fn lemma_gap(n: &Nfa, q: usize, l: nat, m: nat)
    requires n.core(), q < n.n(), forall|j: nat| l <= j < l + n.n() ==> !live(n, q, j), m >= l,
    ensures !live(n, q, m),
    decreases m,
{
    if m >= l + n.n() && live(n, q, m) {
        let t = lemma_live_walk(n, q, m);
        let h = t.take((n.n() + 1) as int);
        let (i, j) = lemma_repeat(h, n.n());
        assert(h[i] == t[i] && h[j] == t[j]);
        lemma_cut_walk(n, t, i, j);
        let s = t.take(i) + t.skip(j);
        lemma_walk_live(n, s);
        lemma_gap(n, q, l, (s.len() - 1) as nat);
    }
}
// ------------------------------------------------------------------ what the iterator does at each call
pub open spec fn above(p: Option<Iw>, w: Iw) -> bool { match p { None => true, Some(u) => wl(u, w) } }
// from (last word, ended) to (last word, ended): the next accepted word, or the end when there is none
pub open spec fn stepped(n: &Nfa, p: Option<Iw>, pe: bool, c: Option<Iw>, ce: bool) -> bool {
    if pe { ce && c == p } else {
        match c {
            Some(w) => !ce && iacc(n, w) && above(p, w) && forall|v: Iw| #[trigger] iacc(n, v) && above(p, v) ==> !wl(v, w),
            None => ce && forall|v: Iw| #[trigger] iacc(n, v) ==> !above(p, v),
        }
    }
}
// the results of the calls so far; ended after them: e
pub open spec fn history(n: &Nfa, h: Seq<Option<Iw>>, e: bool) -> bool decreases h.len() {
    if h.len() == 0 { !e } else {
        exists|pe: bool| #[trigger] flag_(pe) && history(n, h.drop_last(), pe) && stepped(n, prev_of(h.drop_last()), pe, h.last(), e)
    }
}
pub open spec fn flag_(b: bool) -> bool { true }
pub open spec fn prev_of(h: Seq<Option<Iw>>) -> Option<Iw> { if h.len() == 0 { None } else { h.last() } }
// the number of words that come before w and a little more: k symbols, read as digits 1..k
pub open spec fn rank(k: nat, w: Iw) -> nat decreases w.len() { if w.len() == 0 { 0 } else { rank(k, w.drop_last()) * k + w.last() as nat + 1 } }
pub proof fn lemma_rank_lt(k: nat, u: Iw, v: Iw)
    requires wl(u, v), forall|i: int| 0 <= i < u.len() ==> #[trigger] u[i] < k, forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] < k,
    ensures rank(k, u) < rank(k, v),
    decreases v.len(),
{
    assert(v.len() > 0);
    if u.len() > 0 {
        let (u1, v1) = (u.drop_last(), v.drop_last());
        assert forall|i: int| 0 <= i < u1.len() implies #[trigger] u1[i] < k by { assert(u[i] < k); }
        assert forall|i: int| 0 <= i < v1.len() implies #[trigger] v1[i] < k by { assert(v[i] < k); }
        assert(u.last() < k && v.last() < k) by { assert(u[u.len() - 1] < k); assert(v[v.len() - 1] < k); }
        if wl(u1, v1) {
            lemma_rank_lt(k, u1, v1);
            let (a, b) = (rank(k, u1), rank(k, v1));
            assert(a * k + k <= b * k) by (nonlinear_arith) requires a + 1 <= b;
        } else {
            let d = choose|d: int| 0 <= d < u.len() && d < v.len() && #[trigger] u.take(d) == v.take(d) && u[d] < v[d];
            if d < u1.len() {
                assert(u1.take(d) =~= u.take(d)); assert(v1.take(d) =~= v.take(d));
                assert(u1[d] == u[d] && v1[d] == v[d]);
                assert(lex(u1, v1));
            }
            assert(u1 =~= u.take(d)); assert(v1 =~= v.take(d));
        }
    }
}
pub proof fn lemma_history(n: &Nfa, h: Seq<Option<Iw>>, e: bool)
    requires history(n, h, e),
    ensures
        e <==> (h.len() > 0 && h.last() is None),
        forall|i: int| 0 <= i < h.len() && (#[trigger] h[i]) is Some ==> iacc(n, h[i]->0),
        forall|i: int, j: int| 0 <= i < j < h.len() && (#[trigger] h[j]) is Some ==> (#[trigger] h[i]) is Some && wl(h[i]->0, h[j]->0),
        forall|v: Iw| #[trigger] iacc(n, v) ==> h.contains(Some(v)) || (!e && above(prev_of(h), v)),
    decreases h.len(),
{
    if h.len() > 0 {
        let g = h.drop_last();
        let pe = choose|pe: bool| #[trigger] flag_(pe) && history(n, g, pe) && stepped(n, prev_of(g), pe, h.last(), e);
        lemma_history(n, g, pe);
        let m = g.len() as int;
        assert forall|i: int, j: int| 0 <= i < j < h.len() && (#[trigger] h[j]) is Some implies (#[trigger] h[i]) is Some && wl(h[i]->0, h[j]->0) by {
            assert(h[i] == g[i]);
            if j < m { assert(h[j] == g[j]); } else {
                assert(!pe);
                if i < m - 1 { assert(g[m - 1] is Some); assert(g[i] is Some && wl(g[i]->0, g[m - 1]->0)); lemma_wl_trans(g[i]->0, g[m - 1]->0, h[j]->0); }
            }
        }
        assert forall|i: int| 0 <= i < h.len() && (#[trigger] h[i]) is Some implies iacc(n, h[i]->0) by { if i < m { assert(h[i] == g[i]); } }
        assert forall|v: Iw| #[trigger] iacc(n, v) implies h.contains(Some(v)) || (!e && above(prev_of(h), v)) by {
            if g.contains(Some(v)) { let i = choose|i: int| 0 <= i < g.len() && g[i] == Some(v); assert(h[i] == Some(v)); }
            else {
                assert(above(prev_of(g), v));
                match h.last() {
                    Some(w) => { lemma_wl_total(v, w); if v == w { assert(h[m] == Some(v)); } }
                    None => {}
                }
            }
        }
    }
}
pub proof fn lemma_rank_grows(n: &Nfa, h: Seq<Option<Iw>>, e: bool, i: int)
    requires history(n, h, e), 0 <= i < h.len(), h[i] is Some,
    ensures rank(n.alphabet@.len(), h[i]->0) >= i,
    decreases i,
{
    lemma_history(n, h, e);
    let k = n.alphabet@.len();
    if i > 0 {
        assert(h[i - 1] is Some && wl(h[i - 1]->0, h[i]->0));
        lemma_rank_grows(n, h, e, i - 1);
        lemma_racc_live(n, n.initial_state, h[i]->0);
        lemma_racc_live(n, n.initial_state, h[i - 1]->0);
        lemma_rank_lt(k, h[i - 1]->0, h[i]->0);
    }
}
// every call history lists the whole language once and in order
pub proof fn theorem_words(n: &Nfa, h: Seq<Option<Iw>>, e: bool)
    requires history(n, h, e),
    ensures
        // only accepted words
        forall|i: int| 0 <= i < h.len() && (#[trigger] h[i]) is Some ==> iacc(n, h[i]->0),
        // in order and each once; after the end only the end
        forall|i: int, j: int| 0 <= i < j < h.len() && (#[trigger] h[j]) is Some ==> (#[trigger] h[i]) is Some && wl(h[i]->0, h[j]->0) && h[i] != h[j],
        // every accepted word after finitely many calls
        forall|v: Iw| #[trigger] iacc(n, v) && h.len() > rank(n.alphabet@.len(), v) ==> h.contains(Some(v)),
        // the end only when all have been listed
        e ==> forall|v: Iw| #[trigger] iacc(n, v) ==> h.contains(Some(v)),
{
    lemma_history(n, h, e);
    assert forall|i: int, j: int| 0 <= i < j < h.len() && (#[trigger] h[j]) is Some implies (#[trigger] h[i]) is Some && wl(h[i]->0, h[j]->0) && h[i] != h[j] by { lemma_lex_irr(h[i]->0); }
    assert forall|v: Iw| #[trigger] iacc(n, v) && h.len() > rank(n.alphabet@.len(), v) implies h.contains(Some(v)) by {
        if !h.contains(Some(v)) {
            let k = n.alphabet@.len();
            let j = h.len() - 1;
            assert(h[j] is Some && wl(h[j]->0, v));
            lemma_rank_grows(n, h, e, j);
            lemma_racc_live(n, n.initial_state, h[j]->0);
            lemma_racc_live(n, n.initial_state, v);
            lemma_rank_lt(k, h[j]->0, v);
        }
    }
}
// ------------------------------------------------------------------ numbers of symbols and symbols
// read w from q, the last letter last
pub open spec fn tread(n: &Nfa, q: usize, w: Iw, p: usize) -> bool decreases w.len() { if w.len() == 0 { q == p } else { exists|r: usize| tread(n, q, w.drop_last(), r) && #[trigger] st(n, r, w.last(), p) } }
pub proof fn lemma_tread_racc(n: &Nfa, q: usize, w: Iw, p: usize, v: Iw)
    requires tread(n, q, w, p), racc(n, p, v),
    ensures racc(n, q, w + v),
    decreases w.len(),
{
    if w.len() == 0 { assert(w + v =~= v); } else {
        let r = choose|r: usize| tread(n, q, w.drop_last(), r) && #[trigger] st(n, r, w.last(), p);
        let v2 = seq![w.last()] + v;
        assert(v2.skip(1) =~= v);
        assert(racc(n, r, v2)) by { assert(st(n, r, v2[0], p) && racc(n, p, v2.skip(1))); }
        lemma_tread_racc(n, q, w.drop_last(), r, v2);
        assert(w.drop_last() + v2 =~= w + v);
    }
}
pub proof fn lemma_npath_tread(n: &Nfa, q: usize, w: Iw, p: usize, k: nat)
    requires n.core(), no_eps(n), q < n.n(), iw_ok(n, w), npath(n, q, syms_of(n, w), p, k),
    ensures tread(n, q, w, p),
    decreases k,
{
    reveal_with_fuel(npath, 2);
    let s = syms_of(n, w);
    if k > 0 {
        if exists|r: usize| npath(n, q, s, r, (k - 1) as nat) && #[trigger] eedge(n, r, p) {
            let r = choose|r: usize| npath(n, q, s, r, (k - 1) as nat) && #[trigger] eedge(n, r, p);
            lemma_npath_in(n, q, s, r, (k - 1) as nat);
            assert(n.states@[r as int].epsilon_transitions@.len() == 0);
        }
        let r = choose|r: usize| npath(n, q, s.drop_last(), r, (k - 1) as nat) && #[trigger] sedge(n, r, s.last(), p);
        let w1 = w.drop_last();
        assert(s.drop_last() =~= syms_of(n, w1));
        assert forall|i: int| 0 <= i < w1.len() implies #[trigger] w1[i] < n.alphabet@.len() by { assert(w[i] < n.alphabet@.len()); }
        lemma_npath_tread(n, q, w1, r, (k - 1) as nat);
        assert(w.last() < n.alphabet@.len()) by { assert(w[w.len() - 1] < n.alphabet@.len()); }
        lemma_sym_idx(n.alphabet@, w.last() as int);
        assert(st(n, r, w.last(), p));
    }
}
pub proof fn lemma_racc_nacc(n: &Nfa, q: usize, w: Iw)
    requires n.core(), q < n.n(), racc(n, q, w),
    ensures nacc_from(n, q, syms_of(n, w)),
    decreases w.len(),
{
    if w.len() == 0 {
        lemma_nreach_refl(n, q);
        assert(syms_of(n, w) =~= eword());
    } else {
        let r = choose|r: usize| #[trigger] st(n, q, w[0], r) && racc(n, r, w.skip(1));
        lemma_st_in(n, q, w[0], r);
        lemma_racc_nacc(n, r, w.skip(1));
        let p = choose|p: usize| #[trigger] nreach(n, r, syms_of(n, w.skip(1)), p) && n.acc(p);
        let c = n.alphabet@[w[0] as int]@;
        lemma_sym_idx(n.alphabet@, w[0] as int);
        assert(sedge(n, q, c, r));
        lemma_nreach_refl(n, q);
        lemma_nreach_sedge(n, q, eword(), q, c, r);
        lemma_nreach_concat(n, q, eword().push(c), r, syms_of(n, w.skip(1)), p);
        assert(eword().push(c) + syms_of(n, w.skip(1)) =~= syms_of(n, w));
    }
}
// the words listed by numbers are the accepted words
pub proof fn theorem_iacc(n: &Nfa, w: Iw)
    requires n.core(), no_eps(n), iw_ok(n, w),
    ensures iacc(n, w) <==> naccepts(n, syms_of(n, w)),
{
    let q = n.initial_state;
    if iacc(n, w) { lemma_racc_nacc(n, q, w); }
    if naccepts(n, syms_of(n, w)) {
        reveal(nreach);
        let p = choose|p: usize| #[trigger] nreach(n, q, syms_of(n, w), p) && n.acc(p);
        let k = choose|k: nat| npath(n, q, syms_of(n, w), p, k);
        lemma_npath_tread(n, q, w, p, k);
        let e = Seq::<usize>::empty();
        assert(racc(n, p, e));
        lemma_tread_racc(n, q, w, p, e);
        assert(w + e =~= w);
    }
}
// every accepted word has its list of numbers
pub open spec fn nums_of(n: &Nfa, w: Word) -> Iw { w.map_values(|c: Seq<char>| sym_idx(n.alphabet@, c) as usize) }
pub proof fn theorem_nums(n: &Nfa, w: Word)
    requires n.core(), no_eps(n), naccepts(n, w), n.alphabet@.len() <= usize::MAX,
    ensures iw_ok(n, nums_of(n, w)), syms_of(n, nums_of(n, w)) == w, iacc(n, nums_of(n, w)),
{
    let p = choose|p: usize| #[trigger] nreach(n, n.initial_state, w, p) && n.acc(p);
    lemma_nreach_in(n, n.initial_state, w, p);
    assert forall|i: int| 0 <= i < w.len() implies 0 <= sym_idx(n.alphabet@, #[trigger] w[i]) < n.alphabet@.len() && n.alphabet@[sym_idx(n.alphabet@, w[i])]@ == w[i] by { assert(has_sym(n.alphabet@, w[i])); }
    assert(syms_of(n, nums_of(n, w)) =~= w);
    theorem_iacc(n, nums_of(n, w));
}
