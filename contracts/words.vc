@raw
pub open spec fn init1(n: &Nfa) -> Set<usize> { Set::<usize>::empty().insert(n.initial_state) }
pub open spec fn some_live(n: &Nfa, x: Set<usize>, m: nat) -> bool { exists|q: usize| x.contains(q) && #[trigger] live(n, q, m) }
// what is gathered: every state (None), or those from which m more letters can be accepted
pub open spec fn kept(n: &Nfa, km: Option<nat>, p: usize) -> bool { match km { None => true, Some(m) => live(n, p, m) } }
pub open spec fn added(n: &Nfa, km: Option<nat>, b: Set<usize>, s: Seq<usize>, k: int, v: Set<usize>) -> bool { forall|p: usize| #[trigger] v.contains(p) <==> b.contains(p) || (kept(n, km, p) && s.take(k).contains(p)) }
pub open spec fn on_some(n: &Nfa, q: usize, k: int, p: usize) -> bool { exists|a: usize| a < k && #[trigger] st(n, q, a, p) }
pub open spec fn wrows_in(n: &Nfa, km: Option<nat>, b: Set<usize>, q: usize, k: int, v: Set<usize>) -> bool { forall|p: usize| #[trigger] v.contains(p) <==> b.contains(p) || (kept(n, km, p) && on_some(n, q, k, p)) }
pub open spec fn wfrom_some(n: &Nfa, s: Seq<usize>, k: int, p: usize) -> bool { exists|j: int| 0 <= j < k && ge(n, #[trigger] s[j], p) }
pub open spec fn outs(n: &Nfa, km: Option<nat>, s: Seq<usize>, k: int, v: Set<usize>) -> bool { forall|p: usize| #[trigger] v.contains(p) <==> kept(n, km, p) && wfrom_some(n, s, k, p) }
pub open spec fn from_on(n: &Nfa, s: Seq<usize>, k: int, c: usize, p: usize) -> bool { exists|j: int| 0 <= j < k && st(n, #[trigger] s[j], c, p) }
pub open spec fn ons(n: &Nfa, km: Option<nat>, s: Seq<usize>, k: int, c: usize, v: Set<usize>) -> bool { forall|p: usize| #[trigger] v.contains(p) <==> kept(n, km, p) && from_on(n, s, k, c, p) }
pub open spec fn gone(n: &Nfa, q: usize, i: nat, v: Set<usize>) -> bool { forall|p: usize| #[trigger] v.contains(p) <==> go(n, q, i, p) }
pub proof fn lemma_added_start(n: &Nfa, km: Option<nat>, b: Set<usize>, s: Seq<usize>)
    ensures added(n, km, b, s, 0, b),
{
    assert(s.take(0) =~= Seq::<usize>::empty());
}
pub proof fn lemma_added_step(n: &Nfa, km: Option<nat>, b: Set<usize>, s: Seq<usize>, k: int, v: Set<usize>, w: Set<usize>)
    requires added(n, km, b, s, k - 1, v), 0 < k <= s.len(), w == (if kept(n, km, s[k - 1]) { v.insert(s[k - 1]) } else { v }),
    ensures added(n, km, b, s, k, w),
{
    lemma_take_push(s, k);
    assert forall|p: usize| #[trigger] w.contains(p) <==> b.contains(p) || (kept(n, km, p) && s.take(k).contains(p)) by { lemma_push_contains(s.take(k - 1), s[k - 1], p); assert(v.contains(p) <==> b.contains(p) || (kept(n, km, p) && s.take(k - 1).contains(p))); }
}
pub proof fn lemma_rows_start(n: &Nfa, km: Option<nat>, b: Set<usize>, q: usize)
    ensures wrows_in(n, km, b, q, 0, b),
{
}
pub proof fn lemma_rows_step(n: &Nfa, km: Option<nat>, b: Set<usize>, q: usize, k: int, v: Set<usize>, w: Set<usize>)
    requires wrows_in(n, km, b, q, k - 1, v), 0 < k <= n.alphabet@.len(), k <= usize::MAX, added(n, km, v, n.tr(q, k - 1), n.tr(q, k - 1).len() as int, w),
    ensures wrows_in(n, km, b, q, k, w),
{
    let t = n.tr(q, k - 1);
    assert(t.take(t.len() as int) =~= t);
    let a = (k - 1) as usize;
    assert forall|p: usize| #[trigger] w.contains(p) <==> b.contains(p) || (kept(n, km, p) && on_some(n, q, k, p)) by {
        assert(v.contains(p) <==> b.contains(p) || (kept(n, km, p) && on_some(n, q, k - 1, p)));
        if t.contains(p) { assert(st(n, q, a, p)); }
        if on_some(n, q, k, p) { let c = choose|c: usize| c < k && #[trigger] st(n, q, c, p); if c != a { assert(c < k - 1); } }
        if on_some(n, q, k - 1, p) { let c = choose|c: usize| c < k - 1 && #[trigger] st(n, q, c, p); assert(c < k); }
    }
}
pub proof fn lemma_outs_start(n: &Nfa, km: Option<nat>, s: Seq<usize>)
    ensures outs(n, km, s, 0, Set::<usize>::empty()),
{
}
pub proof fn lemma_outs_step(n: &Nfa, km: Option<nat>, s: Seq<usize>, k: int, v: Set<usize>, w: Set<usize>)
    requires outs(n, km, s, k - 1, v), 0 < k <= s.len(), wrows_in(n, km, v, s[k - 1], n.alphabet@.len() as int, w),
    ensures outs(n, km, s, k, w),
{
    let q = s[k - 1];
    assert forall|p: usize| #[trigger] w.contains(p) <==> kept(n, km, p) && wfrom_some(n, s, k, p) by {
        assert(v.contains(p) <==> kept(n, km, p) && wfrom_some(n, s, k - 1, p));
        if on_some(n, q, n.alphabet@.len() as int, p) { assert(ge(n, s[k - 1], p)); }
        if wfrom_some(n, s, k, p) { let j = choose|j: int| 0 <= j < k && ge(n, #[trigger] s[j], p); if j == k - 1 { let a = choose|a: usize| #[trigger] st(n, q, a, p); assert(on_some(n, q, n.alphabet@.len() as int, p)); } else { assert(wfrom_some(n, s, k - 1, p)); } }
        if wfrom_some(n, s, k - 1, p) { let j = choose|j: int| 0 <= j < k - 1 && ge(n, #[trigger] s[j], p); assert(j < k); }
    }
}
pub proof fn lemma_ons_start(n: &Nfa, km: Option<nat>, s: Seq<usize>, c: usize)
    ensures ons(n, km, s, 0, c, Set::<usize>::empty()),
{
}
pub proof fn lemma_ons_step(n: &Nfa, km: Option<nat>, s: Seq<usize>, k: int, c: usize, v: Set<usize>, w: Set<usize>)
    requires ons(n, km, s, k - 1, c, v), 0 < k <= s.len(), c < n.alphabet@.len(), added(n, km, v, n.tr(s[k - 1], c as int), n.tr(s[k - 1], c as int).len() as int, w),
    ensures ons(n, km, s, k, c, w),
{
    let t = n.tr(s[k - 1], c as int);
    assert(t.take(t.len() as int) =~= t);
    assert forall|p: usize| #[trigger] w.contains(p) <==> kept(n, km, p) && from_on(n, s, k, c, p) by {
        assert(v.contains(p) <==> kept(n, km, p) && from_on(n, s, k - 1, c, p));
        if t.contains(p) { assert(st(n, s[k - 1], c, p)); }
        if from_on(n, s, k, c, p) { let j = choose|j: int| 0 <= j < k && st(n, #[trigger] s[j], c, p); if j != k - 1 { assert(from_on(n, s, k - 1, c, p)); } }
        if from_on(n, s, k - 1, c, p) { let j = choose|j: int| 0 <= j < k - 1 && st(n, #[trigger] s[j], c, p); assert(j < k); }
    }
}
pub proof fn lemma_ons_done(n: &Nfa, m: nat, s: Seq<usize>, x: Set<usize>, c: usize, v: Set<usize>)
    requires ons(n, Some(m), s, s.len() as int, c, v), enumerates(s, x),
    ensures sucs(n, x, c, m, v),
{
    assert forall|p: usize| #[trigger] v.contains(p) <==> suc(n, x, c, m, p) by {
        if v.contains(p) { let j = choose|j: int| 0 <= j < s.len() && st(n, #[trigger] s[j], c, p); assert(x.contains(s[j].kv())); }
        if suc(n, x, c, m, p) { let q = choose|q: usize| x.contains(q) && #[trigger] st(n, q, c, p); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).kv() == q; assert(st(n, s[j], c, p)); }
    }
}
// gather, then keep the live ones
pub proof fn lemma_retained(n: &Nfa, m: nat, s: Seq<usize>, x: Set<usize>, c: usize, v: Set<usize>, t: Seq<usize>, w: Set<usize>)
    requires ons(n, None, s, s.len() as int, c, v), enumerates(s, x), enumerates(t, v), added(n, Some(m), Set::<usize>::empty(), t, t.len() as int, w),
    ensures sucs(n, x, c, m, w),
{
    assert(t.take(t.len() as int) =~= t);
    assert(ons(n, Some(m), s, s.len() as int, c, w)) by {
        assert forall|p: usize| #[trigger] w.contains(p) <==> live(n, p, m) && from_on(n, s, s.len() as int, c, p) by { lemma_enum(t, v, p); assert(v.contains(p) <==> from_on(n, s, s.len() as int, c, p)); }
    }
    lemma_ons_done(n, m, s, x, c, w);
}
pub proof fn lemma_gone_step(n: &Nfa, q: usize, i: nat, x: Set<usize>, s: Seq<usize>, v: Set<usize>)
    requires gone(n, q, i, x), enumerates(s, x), outs(n, None, s, s.len() as int, v),
    ensures gone(n, q, i + 1, v),
{
    assert forall|p: usize| #[trigger] v.contains(p) <==> go(n, q, i + 1, p) by {
        lemma_go_last(n, q, i, p);
        if v.contains(p) { let j = choose|j: int| 0 <= j < s.len() && ge(n, #[trigger] s[j], p); assert(x.contains(s[j].kv())); assert(go(n, q, i, s[j]) && ge(n, s[j], p)); }
        if go(n, q, i + 1, p) { let r = choose|r: usize| go(n, q, i, r) && #[trigger] ge(n, r, p); assert(x.contains(r)); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).kv() == r; assert(ge(n, s[j], p)); }
    }
}
pub proof fn lemma_gone_in(n: &Nfa, q: usize, i: nat, x: Set<usize>)
    requires gone(n, q, i, x), n.core(), q < n.n(),
    ensures set_in(n, x),
{
    assert forall|p: usize| #[trigger] x.contains(p) implies p < n.n() by { lemma_go_in(n, q, i, p); }
}
pub proof fn lemma_sx_in(n: &Nfa, x: Set<usize>, u: Iw, len: int, y: Set<usize>)
    requires n.core(), set_in(n, x), sx(n, x, u, len, y),
    ensures set_in(n, y),
{
    assert forall|p: usize| #[trigger] y.contains(p) implies p < n.n() by { lemma_inx_in(n, x, u, len, p); }
}
pub proof fn lemma_inx_in(n: &Nfa, x: Set<usize>, u: Iw, len: int, p: usize)
    requires n.core(), set_in(n, x), inx(n, x, u, len, p),
    ensures p < n.n(),
    decreases u.len(),
{
    if u.len() > 0 {
        let q = choose|q: usize| inx(n, x, u.drop_last(), len, q) && #[trigger] st(n, q, u.last(), p);
        lemma_inx_in(n, x, u.drop_last(), len, q);
        lemma_st_in(n, q, u.last(), p);
    }
}
pub proof fn lemma_live_finals(n: &Nfa, q: usize, m: nat, f: Set<usize>, s: Seq<usize>)
    requires n.core(), q < n.n(), finals_of(n, f), enumerates(s, f),
    ensures live(n, q, m) <==> exists|j: int| 0 <= j < s.len() && go(n, q, m, #[trigger] s[j]),
{
    lemma_live_go(n, q, m);
    if live(n, q, m) {
        let p = choose|p: usize| #[trigger] go(n, q, m, p) && n.acc(p);
        lemma_go_in(n, q, m, p);
        assert(f.contains(p));
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).kv() == p;
        assert(go(n, q, m, s[j]));
    }
    if exists|j: int| 0 <= j < s.len() && go(n, q, m, #[trigger] s[j]) {
        let j = choose|j: int| 0 <= j < s.len() && go(n, q, m, #[trigger] s[j]);
        assert(f.contains(s[j].kv()));
        assert(go(n, q, m, s[j]) && n.acc(s[j]));
    }
}
// ------------------------------------------------------------------ the state of the iterator
pub open spec fn wbase(w: &WordComponentIndices) -> bool {
    &&& w.nfa.core() && no_eps(w.nfa) && w.nfa.n() <= isize::MAX && w.nfa.alphabet@.len() <= isize::MAX
    &&& finals_of(w.nfa, w.final_states@)
    &&& mats_ok(w.nfa, w.adj_matrices@)
}
pub open spec fn wsame(a: &WordComponentIndices, b: &WordComponentIndices) -> bool { a.nfa == b.nfa && a.final_states == b.final_states && a.has_failed == b.has_failed && a.last_word == b.last_word }
pub open spec fn stack_to(n: &Nfa, s: Seq<HSet<usize>>, w: Iw, k: int) -> bool { s.len() == k && forall|j: int| #[trigger] idx_(j) && 0 <= j < k ==> sx(n, init1(n), w.take(j), w.len() as int, s[j]@) }
pub open spec fn stack_ok(n: &Nfa, s: Seq<HSet<usize>>, w: Iw) -> bool { w.len() > 0 ==> stack_to(n, s, w, w.len() as int) }
pub open spec fn lw(o: Option<Vec<usize>>) -> Option<Iw> { match o { None => None, Some(w) => Some(w@) } }
pub open spec fn winv(w: &WordComponentIndices) -> bool {
    &&& wbase(w)
    &&& match lw(w.last_word) { None => true, Some(u) => !w.has_failed && iacc(w.nfa, u) && stack_ok(w.nfa, w.state_stack@, u) }
}
pub open spec fn pushed(a: Seq<HSet<usize>>, b: Seq<HSet<usize>>, sets: Seq<Set<usize>>, m: int) -> bool {
    &&& b.len() == a.len() + (if m > 1 { m - 1 } else { 0 })
    &&& forall|i: int| 0 <= i < a.len() ==> b[i] == #[trigger] a[i]
    &&& forall|t: int| #[trigger] idx_(t) && 0 <= t < m ==> b[a.len() - 1 + t]@ == sets[t]
}
// the words after w that share its first i letters: none of the same length is accepted
pub open spec fn none_after(n: &Nfa, w: Iw, i: int) -> bool { forall|v: Iw| #[trigger] iacc(n, v) && v.len() == w.len() && v.take(i) == w.take(i) ==> !lex(w, v) }
pub proof fn lemma_none_start(n: &Nfa, w: Iw)
    ensures none_after(n, w, w.len() as int),
{
    assert forall|v: Iw| #[trigger] iacc(n, v) && v.len() == w.len() && v.take(w.len() as int) == w.take(w.len() as int) implies !lex(w, v) by { assert(v.take(w.len() as int) =~= v); assert(w.take(w.len() as int) =~= w); lemma_lex_irr(w); }
}
pub proof fn lemma_from_init(n: &Nfa, v: Iw)
    ensures raccs(n, init1(n), v) <==> iacc(n, v),
{
    if iacc(n, v) { assert(init1(n).contains(n.initial_state) && racc(n, n.initial_state, v)); }
}
// an accepted word with the first i letters of w goes on with a letter that can come next
pub proof fn lemma_next_letter(n: &Nfa, w: Iw, i: int, x: Set<usize>, v: Iw)
    requires 0 <= i < w.len(), sx(n, init1(n), w.take(i), w.len() as int, x), iacc(n, v), v.len() == w.len(), v.take(i) == w.take(i),
    ensures can(n, x, v[i], nn(w.len() - i - 1)), v[i] < n.alphabet@.len(),
{
    lemma_from_init(n, v);
    assert(v.take(i) + v.skip(i) =~= v);
    lemma_inx_complete(n, init1(n), v.take(i), v.len() as int, v.skip(i));
    let q = choose|q: usize| #[trigger] inx(n, init1(n), v.take(i), v.len() as int, q) && racc(n, q, v.skip(i));
    assert(x.contains(q));
    let p = choose|p: usize| #[trigger] st(n, q, v.skip(i)[0], p) && racc(n, p, v.skip(i).skip(1));
    lemma_racc_live(n, p, v.skip(i).skip(1));
    assert(suc(n, x, v[i], nn(w.len() - i - 1), p));
}
pub proof fn lemma_lex_at(u: Iw, v: Iw, i: int) -> (d: int)
    requires lex(u, v), u.take(i) == v.take(i), 0 <= i <= u.len(), u.len() == v.len(),
    ensures i <= d < u.len(), u.take(d) == v.take(d), u[d] < v[d],
{
    let d = choose|d: int| 0 <= d < u.len() && d < v.len() && #[trigger] u.take(d) == v.take(d) && u[d] < v[d];
    if d < i { assert(u[d] == u.take(i)[d]); assert(v[d] == v.take(i)[d]); }
    d
}
pub proof fn lemma_none_step(n: &Nfa, w: Iw, i: int, x: Set<usize>)
    requires 0 < i <= w.len(), none_after(n, w, i), sx(n, init1(n), w.take(i - 1), w.len() as int, x), forall|c: usize| #[trigger] can(n, x, c, nn(w.len() - i)) ==> c <= w[i - 1],
    ensures none_after(n, w, i - 1),
{
    assert forall|v: Iw| #[trigger] iacc(n, v) && v.len() == w.len() && v.take(i - 1) == w.take(i - 1) implies !lex(w, v) by {
        if lex(w, v) {
            let d = lemma_lex_at(w, v, i - 1);
            lemma_next_letter(n, w, i - 1, x, v);
            assert(can(n, x, v[i - 1], nn(w.len() - i)));
            assert(v.take(i) =~= w.take(i)) by { assert forall|j: int| 0 <= j < i implies v[j] == w[j] by { if d > i - 1 { assert(v.take(d)[j] == w.take(d)[j]); } } }
        }
    }
}
pub open spec fn next_after(n: &Nfa, w: Iw, x: Iw) -> bool {
    &&& x.len() == w.len() && iacc(n, x) && lex(w, x)
    &&& forall|v: Iw| #[trigger] iacc(n, v) && v.len() == w.len() && lex(w, v) ==> !lex(v, x)
}
pub proof fn lemma_next(n: &Nfa, w: Iw, i: int, s: Set<usize>, b: usize, t: Set<usize>, y: Iw, sets: Seq<Set<usize>>)
    requires
        0 < i <= w.len(), none_after(n, w, i), sx(n, init1(n), w.take(i - 1), w.len() as int, s),
        can(n, s, b, nn(w.len() - i)), b > w[i - 1], forall|c: usize| #[trigger] can(n, s, c, nn(w.len() - i)) && c > w[i - 1] ==> b <= c,
        sucs(n, s, b, nn(w.len() - i), t), greedy(n, t, nn(w.len() - i), y, sets),
    ensures next_after(n, w, w.take(i - 1).push(b) + y),
{
    let len = w.len() as int;
    let m = nn(len - i);
    let u = w.take(i - 1);
    let ub = u.push(b);
    let x = ub + y;
    lemma_sx_push(n, init1(n), u, len, s, b, t);
    let p0 = choose|p: usize| #[trigger] suc(n, s, b, m, p);
    assert(t.contains(p0) && live(n, p0, m));
    lemma_greedy_acc(n, t, m, y, sets);
    let p1 = choose|p: usize| t.contains(p) && #[trigger] racc(n, p, y);
    assert(inx(n, init1(n), ub, len, p1));
    lemma_inx_sound(n, init1(n), ub, len, p1, y);
    lemma_from_init(n, x);
    assert(x.take(i - 1) =~= u);
    assert(x[i - 1] == b);
    assert(w.take(i - 1) == x.take(i - 1) && w[i - 1] < x[i - 1]);
    assert(lex(w, x));
    assert forall|v: Iw| #[trigger] iacc(n, v) && v.len() == w.len() && lex(w, v) implies !lex(v, x) by {
        if lex(v, x) {
            let d = choose|d: int| 0 <= d < w.len() && d < v.len() && #[trigger] w.take(d) == v.take(d) && w[d] < v[d];
            if d >= i {
                assert(v.take(i) =~= w.take(i)) by { assert forall|j: int| 0 <= j < i implies v[j] == w[j] by { assert(v.take(d)[j] == w.take(d)[j]); } }
            } else if d < i - 1 {
                assert(x.take(d) =~= v.take(d)) by { assert forall|j: int| 0 <= j < d implies x[j] == v[j] by { assert(x[j] == w[j]); assert(v.take(d)[j] == w.take(d)[j]); } }
                assert(x[d] == w[d]);
                assert(lex(x, v));
                lemma_lex_trans(x, v, x);
                lemma_lex_irr(x);
            } else {
                lemma_next_letter(n, w, i - 1, s, v);
                assert(can(n, s, v[i - 1], m));
                if v[i - 1] > b {
                    assert(x.take(i - 1) == v.take(i - 1) && x[i - 1] < v[i - 1]);
                    assert(lex(x, v));
                    lemma_lex_trans(x, v, x);
                    lemma_lex_irr(x);
                } else {
                    let z = v.skip(i);
                    assert(v.take(i) =~= ub) by { assert forall|j: int| 0 <= j < i - 1 implies v[j] == ub[j] by { assert(v.take(i - 1)[j] == w.take(i - 1)[j]); } }
                    assert(ub + z =~= v);
                    lemma_from_init(n, v);
                    lemma_inx_complete(n, init1(n), ub, len, z);
                    let q = choose|q: usize| #[trigger] inx(n, init1(n), ub, len, q) && racc(n, q, z);
                    assert(t.contains(q));
                    assert(raccs(n, t, z));
                    lemma_greedy_min(n, t, m, y, sets, z);
                    assert(x.take(i) =~= ub);
                    let e = lemma_lex_at(v, x, i);
                    assert(z.take(e - i) =~= y.take(e - i)) by { assert forall|j: int| 0 <= j < e - i implies z[j] == y[j] by { assert(v.take(e)[j + i] == x.take(e)[j + i]); } }
                    assert(z[e - i] < y[e - i]);
                    assert(lex(z, y));
                }
            }
        }
    }
}
// the stack after the change of a letter and the smallest completion
pub proof fn lemma_next_stack(n: &Nfa, w: Iw, i: int, s: Set<usize>, b: usize, t: Set<usize>, y: Iw, sets: Seq<Set<usize>>, s0: Seq<HSet<usize>>, s1: Seq<HSet<usize>>, th: HSet<usize>)
    requires
        0 < i < w.len(), stack_to(n, s0, w, i), s == s0[i - 1]@, sx(n, init1(n), w.take(i - 1), w.len() as int, s),
        sucs(n, s, b, nn(w.len() - i), t), th@ == t, greedy(n, t, nn(w.len() - i), y, sets), pushed(s0.push(th), s1, sets, w.len() - i),
    ensures stack_ok(n, s1, w.take(i - 1).push(b) + y),
{
    let len = w.len() as int;
    let m = len - i;
    let ub = w.take(i - 1).push(b);
    let x = ub + y;
    lemma_sx_push(n, init1(n), w.take(i - 1), len, s, b, t);
    assert forall|j: int| #[trigger] idx_(j) && 0 <= j < x.len() implies sx(n, init1(n), x.take(j), x.len() as int, s1[j]@) by {
        if j < i {
            assert(x.take(j) =~= w.take(j));
            assert(s1[j] == s0.push(th)[j]);
        } else {
            let k = j - i;
            assert(idx_(k));
            lemma_sx_cat_all(n, init1(n), ub, len, t, y.take(k), sets[k]);
            assert(ub + y.take(k) =~= x.take(j));
            assert(s1[i + 1 - 1 + k]@ == sets[k]);
        }
    }
}
pub proof fn lemma_last_stack(n: &Nfa, w: Iw, b: usize, s0: Seq<HSet<usize>>)
    requires 0 < w.len(), stack_to(n, s0, w, w.len() as int),
    ensures stack_ok(n, s0, w.take(w.len() - 1).push(b)),
{
    let x = w.take(w.len() - 1).push(b);
    assert forall|j: int| #[trigger] idx_(j) && 0 <= j < x.len() implies sx(n, init1(n), x.take(j), x.len() as int, s0[j]@) by { assert(x.take(j) =~= w.take(j)); }
}
// the symbols below k that can come next, in order
pub open spec fn cans(n: &Nfa, x: Set<usize>, m: nat, k: int, a: Seq<usize>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> #[trigger] a[i] < #[trigger] a[j]
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] < k && can(n, x, a[i], m)
    &&& forall|c: usize| #[trigger] can(n, x, c, m) && c < k ==> a.contains(c)
}
pub proof fn lemma_cans_step(n: &Nfa, x: Set<usize>, m: nat, k: int, a: Seq<usize>, b: Seq<usize>)
    requires cans(n, x, m, k, a), 0 <= k <= usize::MAX, b == (if can(n, x, k as usize, m) { a.push(k as usize) } else { a }),
    ensures cans(n, x, m, k + 1, b),
{
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < k + 1 && can(n, x, b[i], m) by { if i < a.len() { assert(b[i] == a[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] < #[trigger] b[j] by { assert(b[i] == a[i]); if j < a.len() { assert(b[j] == a[j]); } }
    assert forall|c: usize| #[trigger] can(n, x, c, m) && c < k + 1 implies b.contains(c) by {
        if c < k { let i = choose|i: int| 0 <= i < a.len() && a[i] == c; assert(b[i] == c); } else { assert(b[a.len() as int] == c); }
    }
}
pub proof fn lemma_can_sym(n: &Nfa, x: Set<usize>, c: usize, m: nat)
    requires can(n, x, c, m),
    ensures c < n.alphabet@.len(),
{
    let p = choose|p: usize| #[trigger] suc(n, x, c, m, p);
    let q = choose|q: usize| x.contains(q) && #[trigger] st(n, q, c, p);
}
// what is common to the states reached by c and the live states reached by any symbol
pub proof fn lemma_common(n: &Nfa, x: Set<usize>, s: Seq<usize>, s2: Seq<usize>, c: usize, m: nat, l: Set<usize>, r: Set<usize>)
    requires enumerates(s, x), ons(n, None, s, s.len() as int, c, l), enumerates(s2, x), outs(n, Some(m), s2, s2.len() as int, r),
    ensures can(n, x, c, m) <==> exists|p: usize| #[trigger] l.intersect(r).contains(p),
{
    if can(n, x, c, m) {
        let p = choose|p: usize| #[trigger] suc(n, x, c, m, p);
        let q = choose|q: usize| x.contains(q) && #[trigger] st(n, q, c, p);
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).kv() == q;
        assert(st(n, s[j], c, p));
        assert(l.contains(p));
        let j2 = choose|j: int| 0 <= j < s2.len() && (#[trigger] s2[j]).kv() == q;
        assert(ge(n, s2[j2], p));
        assert(r.contains(p));
        assert(l.intersect(r).contains(p));
    }
    if exists|p: usize| #[trigger] l.intersect(r).contains(p) {
        let p = choose|p: usize| #[trigger] l.intersect(r).contains(p);
        assert(l.contains(p) && r.contains(p));
        let j = choose|j: int| 0 <= j < s.len() && st(n, #[trigger] s[j], c, p);
        assert(x.contains(s[j].kv()));
        assert(suc(n, x, c, m, p));
    }
}
// the size of a listing of a set
pub proof fn lemma_some_in(s: Seq<usize>, v: Set<usize>)
    requires enumerates(s, v),
    ensures s.len() > 0 <==> exists|p: usize| #[trigger] v.contains(p),
{
    if s.len() > 0 { assert(v.contains(s[0].kv())); }
}
pub proof fn lemma_ons_in(n: &Nfa, s: Seq<usize>, x: Set<usize>, c: usize, v: Set<usize>)
    requires n.core(), set_in(n, x), enumerates(s, x), ons(n, None, s, s.len() as int, c, v),
    ensures set_in(n, v),
{
    assert forall|p: usize| #[trigger] v.contains(p) implies p < n.n() by { let j = choose|j: int| 0 <= j < s.len() && st(n, #[trigger] s[j], c, p); assert(x.contains(s[j].kv())); lemma_st_in(n, s[j], c, p); }
}
pub proof fn lemma_sucs_in(n: &Nfa, x: Set<usize>, c: usize, m: nat, v: Set<usize>)
    requires n.core(), set_in(n, x), sucs(n, x, c, m, v),
    ensures set_in(n, v),
{
    assert forall|p: usize| #[trigger] v.contains(p) implies p < n.n() by { let q = choose|q: usize| x.contains(q) && #[trigger] st(n, q, c, p); lemma_st_in(n, q, c, p); }
}
// the smallest word so far: y, and the sets before each of its letters
pub open spec fn part(n: &Nfa, x: Set<usize>, m: int, y: Iw, sets: Seq<Set<usize>>) -> bool {
    &&& y.len() <= m && sets.len() as int == (if y.len() < m { y.len() as int + 1 } else if m > 0 { m } else { 1int })
    &&& sets[0] == x
    &&& forall|t: int| #[trigger] idx_(t) && 0 <= t < sets.len() ==> sx(n, x, y.take(t), m, sets[t])
    &&& forall|t: int| #[trigger] idx_(t) && 0 <= t < y.len() ==> least(n, sets[t], nn(m - t - 1), y[t])
    &&& y.len() < m ==> some_live(n, sets[y.len() as int], nn(m - y.len()))
}
pub open spec fn laid(a: Seq<HSet<usize>>, b: Seq<HSet<usize>>, sets: Seq<Set<usize>>) -> bool {
    &&& b.len() == a.len() + sets.len() - 1
    &&& forall|i: int| 0 <= i < a.len() ==> b[i] == #[trigger] a[i]
    &&& forall|t: int| #[trigger] idx_(t) && 0 <= t < sets.len() ==> b[a.len() - 1 + t]@ == sets[t]
}
pub proof fn lemma_part_start(n: &Nfa, x: Set<usize>, m: int)
    requires m >= 0, some_live(n, x, m as nat),
    ensures part(n, x, m, Seq::<usize>::empty(), seq![x]),
{
}
pub proof fn lemma_part_step(n: &Nfa, x: Set<usize>, m: int, y: Iw, sets: Seq<Set<usize>>, c: usize, z: Set<usize>)
    requires part(n, x, m, y, sets), y.len() + 1 < m, least(n, sets[y.len() as int], nn(m - y.len() - 1), c), sucs(n, sets[y.len() as int], c, nn(m - y.len() - 1), z),
    ensures part(n, x, m, y.push(c), sets.push(z)),
{
    let k = y.len() as int;
    assert(idx_(k));
    assert(y.take(k) =~= y);
    lemma_sx_push(n, x, y, m, sets[k], c, z);
    let p = choose|p: usize| #[trigger] suc(n, sets[k], c, nn(m - k - 1), p);
    assert(z.contains(p));
    let (y1, s1) = (y.push(c), sets.push(z));
    assert(s1[y1.len() as int] == z);
    assert(some_live(n, z, nn(m - y1.len())));
    assert forall|t: int| #[trigger] idx_(t) && 0 <= t < s1.len() implies sx(n, x, y1.take(t), m, s1[t]) by { if t <= k { assert(y1.take(t) =~= y.take(t)); } else { assert(y1.take(t) =~= y1); } }
    assert forall|t: int| #[trigger] idx_(t) && 0 <= t < y1.len() implies least(n, s1[t], nn(m - t - 1), y1[t]) by { if t < k { assert(y1[t] == y[t]); } }
}
pub proof fn lemma_part_last(n: &Nfa, x: Set<usize>, m: int, y: Iw, sets: Seq<Set<usize>>, c: usize)
    requires part(n, x, m, y, sets), y.len() + 1 == m, least(n, sets[y.len() as int], nn(m - y.len() - 1), c),
    ensures part(n, x, m, y.push(c), sets),
{
    let k = y.len() as int;
    let y1 = y.push(c);
    assert forall|t: int| #[trigger] idx_(t) && 0 <= t < sets.len() implies sx(n, x, y1.take(t), m, sets[t]) by { assert(y1.take(t) =~= y.take(t)); }
    assert forall|t: int| #[trigger] idx_(t) && 0 <= t < y1.len() implies least(n, sets[t], nn(m - t - 1), y1[t]) by { if t < k { assert(y1[t] == y[t]); } }
}
pub proof fn lemma_part_done(n: &Nfa, x: Set<usize>, m: int, y: Iw, sets: Seq<Set<usize>>, a: Seq<HSet<usize>>, b: Seq<HSet<usize>>)
    requires part(n, x, m, y, sets), y.len() == m, laid(a, b, sets), m >= 0,
    ensures greedy(n, x, m as nat, y, sets.take(m)), pushed(a, b, sets.take(m), m),
{
    let s = sets.take(m);
    assert forall|t: int| #[trigger] idx_(t) && 0 <= t < m implies sx(n, x, y.take(t), m, s[t]) && least(n, s[t], (m - t - 1) as nat, y[t]) by { assert(s[t] == sets[t]); }
}
// c leads from u to a state from which m more letters can be accepted; to a state m moves away from f
pub open spec fn step_live(n: &Nfa, u: usize, c: usize, m: nat) -> bool { exists|p: usize| #[trigger] st(n, u, c, p) && live(n, p, m) }
pub open spec fn step_go(n: &Nfa, u: usize, c: usize, m: nat, f: usize) -> bool { exists|p: usize| #[trigger] st(n, u, c, p) && go(n, p, m, f) }
pub proof fn lemma_step_finals(n: &Nfa, u: usize, c: usize, m: nat, f: Set<usize>, s: Seq<usize>)
    requires n.core(), u < n.n(), finals_of(n, f), enumerates(s, f),
    ensures step_live(n, u, c, m) <==> exists|j: int| 0 <= j < s.len() && step_go(n, u, c, m, #[trigger] s[j]),
{
    if step_live(n, u, c, m) {
        let p = choose|p: usize| #[trigger] st(n, u, c, p) && live(n, p, m);
        lemma_st_in(n, u, c, p);
        lemma_live_finals(n, p, m, f, s);
        let j = choose|j: int| 0 <= j < s.len() && go(n, p, m, #[trigger] s[j]);
        assert(step_go(n, u, c, m, s[j]));
    }
    if exists|j: int| 0 <= j < s.len() && step_go(n, u, c, m, #[trigger] s[j]) {
        let j = choose|j: int| 0 <= j < s.len() && step_go(n, u, c, m, #[trigger] s[j]);
        let p = choose|p: usize| #[trigger] st(n, u, c, p) && go(n, p, m, s[j]);
        lemma_st_in(n, u, c, p);
        lemma_live_finals(n, p, m, f, s);
    }
}
pub proof fn lemma_can_steps(n: &Nfa, x: Set<usize>, s: Seq<usize>, c: usize, m: nat)
    requires enumerates(s, x),
    ensures can(n, x, c, m) <==> exists|j: int| 0 <= j < s.len() && step_live(n, #[trigger] s[j], c, m),
{
    if can(n, x, c, m) {
        let p = choose|p: usize| #[trigger] suc(n, x, c, m, p);
        let q = choose|q: usize| x.contains(q) && #[trigger] st(n, q, c, p);
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).kv() == q;
        assert(step_live(n, s[j], c, m));
    }
    if exists|j: int| 0 <= j < s.len() && step_live(n, #[trigger] s[j], c, m) {
        let j = choose|j: int| 0 <= j < s.len() && step_live(n, #[trigger] s[j], c, m);
        let p = choose|p: usize| #[trigger] st(n, s[j], c, p) && live(n, p, m);
        assert(x.contains(s[j].kv()));
        assert(suc(n, x, c, m, p));
    }
}
pub struct NComplete<'a> { pub nfa: &'a Nfa }

@fn dandy/src/nfa/words.rs WordComponentIndices::next_word/n_complete
@hoist n_complete NComplete<'a> nfa
@param $1 usize
@param $2 usize
@param return bool
@acc 2 HSet<usize>
@sig
    requires old(self).nfa.core(), old(self).nfa.alphabet@.len() <= usize::MAX, from < old(self).nfa.n(),
    ensures r == live(old(self).nfa, from, n as nat), final(self).nfa == old(self).nfa,
@loop 1 inv
    self.nfa == old(self).nfa, gone(self.nfa, from, it1.pos() as nat, s@),
@loop 1 beg
    let ghost i1 = (it1.pos() - 1) as nat;
    let ghost s1 = s@;
    proof { lemma_gone_in(self.nfa, from, i1, s1); }
@loop 2 pre
    proof { lemma_outs_start(self.nfa, None, it2_seq); assert(acc2@ =~= Set::<usize>::empty()); }
@loop 2 inv
    self.nfa == old(self).nfa, enumerates(it2_seq, s1), outs(self.nfa, None, it2_seq, it2.pos(), acc2@),
@loop 2 beg
    let ghost b2 = acc2@;
    let ghost k2 = it2.pos();
    proof { assert(s1.contains(it2_seq[k2 - 1].kv())); assert(x2 < self.nfa.n()); assert(nstate_ok(self.nfa.states@[x2 as int], self.nfa.alphabet@.len(), self.nfa.n())); lemma_rows_start(self.nfa, None, b2, x2); }
@loop 3 inv
    self.nfa == old(self).nfa, x2 < self.nfa.n(), it3_seq == self.nfa.states@[x2 as int].transitions@, it3_seq.len() == self.nfa.alphabet@.len(), wrows_in(self.nfa, None, b2, x2, it3.pos(), acc2@),
@loop 3 beg
    let ghost b3 = acc2@;
    let ghost k3 = it3.pos();
    proof { lemma_added_start(self.nfa, None, b3, x3@); assert(x3@ == self.nfa.tr(x2, k3 - 1)); }
@loop 4 inv
    it4_seq == x3@, added(self.nfa, None, b3, it4_seq, it4.pos(), acc2@),
@loop 4 beg
    let ghost b4 = acc2@;
@loop 4 end
    proof { lemma_added_step(self.nfa, None, b3, it4_seq, it4.pos(), b4, acc2@); }
@loop 3 end
    proof { lemma_rows_step(self.nfa, None, b2, x2, k3, b3, acc2@); }
@loop 2 end
    proof { lemma_outs_step(self.nfa, None, it2_seq, k2, b2, acc2@); }
@loop 2 post
    proof { lemma_gone_step(self.nfa, from, i1, s1, it2_seq, acc2@); }
@loop 5 pre
    let ghost sf = it5_seq;
    proof { lemma_live_go(self.nfa, from, n as nat); lemma_gone_in(self.nfa, from, n as nat, s@); }
@loop 5 inv
    gone(self.nfa, from, n as nat, s@), enumerates(it5_seq, s@), self.nfa == old(self).nfa,
    !r5 ==> forall|j: int| 0 <= j < it5.pos() ==> !self.nfa.acc(#[trigger] it5_seq[j]),
    r5 ==> live(self.nfa, from, n as nat),
@loop 5 beg
    proof { assert(s@.contains(it5_seq[it5.pos() - 1].kv())); assert(x5 < self.nfa.n()); assert(go(self.nfa, from, n as nat, x5)); }
@loop 5 post
    proof {
        if !r5 && live(self.nfa, from, n as nat) {
            let p = choose|p: usize| #[trigger] go(self.nfa, from, n as nat, p) && self.nfa.acc(p);
            assert(s@.contains(p));
            let j = choose|j: int| 0 <= j < it5_seq.len() && (#[trigger] it5_seq[j]).kv() == p;
            assert(self.nfa.acc(it5_seq[j]));
        }
    }

@fn dandy/src/nfa/words.rs WordComponentIndices::min_word
@sig
    requires wbase(&*old(self)), old(self).state_stack@.len() > 0, set_in(old(self).nfa, old(self).state_stack@.last()@),
    ensures wbase(&*final(self)), wsame(&*old(self), &*final(self)),
        match r {
            None => final(self).state_stack == old(self).state_stack && !some_live(old(self).nfa, old(self).state_stack@.last()@, n as nat),
            Some(y) => some_live(old(self).nfa, old(self).state_stack@.last()@, n as nat) && exists|sets: Seq<Set<usize>>| #[trigger] greedy(old(self).nfa, old(self).state_stack@.last()@, n as nat, y@, sets) && pushed(old(self).state_stack@, final(self).state_stack@, sets, n as int),
        },
@start
    let ghost nf = self.nfa;
    let ghost st0 = self.state_stack@;
    let ghost x0 = self.state_stack@.last()@;
    let ghost fin = self.final_states@;
    let ghost mut sets: Seq<Set<usize>> = seq![x0];
@let current_s
    proof { assert(mat_of(nf, &self.adj_matrices@[n as int], n as nat)); }
@loop 1 inv
    enumerates(it1_seq, x0), r1 ==> forall|j: int| 0 <= j < it1.pos() ==> !live(nf, #[trigger] it1_seq[j], n as nat), !r1 ==> some_live(nf, x0, n as nat),
@loop 1 beg
    let ghost k1 = it1.pos() - 1;
    proof { assert(x0.contains(it1_seq[k1].kv())); assert(*x1 < nf.n()); assert(*x1 == it1_seq[k1]); }
@loop 2 inv
    enumerates(it2_seq, fin), r2 ==> forall|j: int| 0 <= j < it2.pos() ==> !go(nf, *x1, n as nat, #[trigger] it2_seq[j]),
    !r2 ==> exists|j: int| 0 <= j < it2_seq.len() && go(nf, *x1, n as nat, #[trigger] it2_seq[j]),
@loop 2 beg
    proof { assert(fin.contains(it2_seq[it2.pos() - 1].kv())); assert(*x2 == it2_seq[it2.pos() - 1]); assert(*x2 < nf.n()); }
@loop 2 post
    proof { lemma_live_finals(nf, *x1, n as nat, fin, it2_seq); if !r2 { assert(x0.contains(*x1) && live(nf, *x1, n as nat)); } }
@loop 3 pre
    proof { lemma_part_start(nf, x0, n as int); }
@loop 3 inv
    it3_seq.len() == n, part(nf, x0, n as int, ret@, sets), ret@.len() == it3.pos(), laid(st0, self.state_stack@, sets),
    it3.pos() < n ==> current_s@ == sets[it3.pos()] && set_in(nf, current_s@),
    wbase(&*self), wsame(&*old(self), &*self), self.nfa == nf, self.final_states@ == fin, self.adj_matrices@.len() > n, some_live(nf, x0, n as nat),
@loop 3 beg
    let ghost k3 = it3.pos() - 1;
    let ghost m1 = nn(n - k3 - 1);
    let ghost y3 = ret@;
    let ghost cx = sets[k3];
    let ghost mut s8 = Seq::<usize>::empty();
    let ghost mut z3 = Set::<usize>::empty();
    proof { assert(idx_(k3)); }
@let matrix
    proof { assert(mat_of(nf, &self.adj_matrices@[n - i - 1], m1)); }
@loop 4 inv
    it4_seq.len() == nf.alphabet@.len(), r4 is None ==> forall|c: usize| c < it4.pos() ==> !#[trigger] can(nf, cx, c, m1), r4 is Some ==> least(nf, cx, m1, r4->0) && r4->0 < nf.alphabet@.len(),
@loop 4 post
    proof {
        if r4 is None {
            lemma_can(nf, cx, nn(n - k3));
            let c = choose|c: usize| #[trigger] can(nf, cx, c, (nn(n - k3) - 1) as nat);
            assert((nn(n - k3) - 1) as nat == m1);
            lemma_can_sym(nf, cx, c, m1);
        }
    }
@loop 5 pre
    proof { lemma_can_steps(nf, cx, it5_seq, x4, m1); }
@loop 5 inv
    enumerates(it5_seq, cx), r5 ==> can(nf, cx, x4, m1), !r5 ==> forall|j: int| 0 <= j < it5.pos() ==> !step_live(nf, #[trigger] it5_seq[j], x4, m1),
@loop 5 beg
    proof { assert(cx.contains(it5_seq[it5.pos() - 1].kv())); assert(*x5 == it5_seq[it5.pos() - 1]); assert(*x5 < nf.n()); assert(nstate_ok(nf.states@[*x5 as int], nf.alphabet@.len(), nf.n())); }
@loop 6 pre
    proof { lemma_step_finals(nf, *x5, x4, m1, fin, it6_seq); }
@loop 6 inv
    enumerates(it6_seq, fin), r6 ==> step_live(nf, *x5, x4, m1), !r6 ==> forall|j: int| 0 <= j < it6.pos() ==> !step_go(nf, *x5, x4, m1, #[trigger] it6_seq[j]),
@loop 6 beg
    proof { assert(fin.contains(it6_seq[it6.pos() - 1].kv())); assert(*x6 == it6_seq[it6.pos() - 1]); assert(*x6 < nf.n()); }
@loop 7 inv
    it7_seq == nf.tr(*x5, x4 as int), r7 ==> step_go(nf, *x5, x4, m1, *x6), !r7 ==> forall|j: int| 0 <= j < it7.pos() ==> !go(nf, #[trigger] it7_seq[j], m1, *x6),
@loop 7 beg
    proof { assert(*x7 == it7_seq[it7.pos() - 1]); assert(st(nf, *x5, x4, *x7)); lemma_st_in(nf, *x5, x4, *x7); }
@loop 7 post
    proof {
        if !r7 && step_go(nf, *x5, x4, m1, *x6) {
            let p = choose|p: usize| #[trigger] st(nf, *x5, x4, p) && go(nf, p, m1, *x6);
            let j = choose|j: int| 0 <= j < it7_seq.len() && it7_seq[j] == p;
            assert(go(nf, it7_seq[j], m1, *x6));
        }
    }
@let next_elem_idx
    let ghost c0 = next_elem_idx;
    proof { assert(least(nf, cx, m1, c0)); }
@loop 8 pre
    proof { lemma_ons_start(nf, None, it8_seq, c0); assert(f8@ =~= Set::<usize>::empty()); }
@loop 8 inv
    enumerates(it8_seq, cx), ons(nf, None, it8_seq, it8.pos(), c0, f8@),
@loop 8 beg
    let ghost b8 = f8@;
    proof { assert(cx.contains(it8_seq[it8.pos() - 1].kv())); assert(*x8 == it8_seq[it8.pos() - 1]); assert(*x8 < nf.n()); assert(nstate_ok(nf.states@[*x8 as int], nf.alphabet@.len(), nf.n())); lemma_added_start(nf, None, b8, nf.tr(*x8, c0 as int)); }
@acc 9 Option<&usize>
@loop 9 inv
    it9_seq == nf.tr(*x8, c0 as int), added(nf, None, b8, it9_seq, it9.pos(), set@),
@loop 9 beg
    let ghost b9 = set@;
@loop 9 end
    proof { lemma_added_step(nf, None, b8, it9_seq, it9.pos(), b9, set@); }
@loop 8 end
    proof { lemma_ons_step(nf, None, it8_seq, it8.pos(), c0, b8, f8@); }
@loop 8 post
    proof { s8 = it8_seq; lemma_ons_in(nf, it8_seq, cx, c0, f8@); }
@acc 8 HSet<usize>
@let new_s
    let ghost v8 = new_s@;
@loop 10 pre
    proof { lemma_added_start(nf, Some(m1), Set::<usize>::empty(), it10_seq); }
@loop 10 inv
    enumerates(it10_seq, v8), added(nf, Some(m1), Set::<usize>::empty(), it10_seq, it10.pos(), new_s@),
@loop 10 beg
    let ghost b10 = new_s@;
    proof { assert(v8.contains(it10_seq[it10.pos() - 1].kv())); assert(x10 < nf.n()); }
@loop 11 pre
    proof { lemma_live_finals(nf, x10, m1, fin, it11_seq); }
@loop 11 inv
    enumerates(it11_seq, fin), r11 ==> live(nf, x10, m1), !r11 ==> forall|j: int| 0 <= j < it11.pos() ==> !go(nf, x10, m1, #[trigger] it11_seq[j]),
@loop 11 beg
    proof { assert(fin.contains(it11_seq[it11.pos() - 1].kv())); assert(*x11 == it11_seq[it11.pos() - 1]); assert(*x11 < nf.n()); }
@loop 10 end
    proof { lemma_added_step(nf, Some(m1), Set::<usize>::empty(), it10_seq, it10.pos(), b10, new_s@); }
@loop 10 post
    proof { lemma_retained(nf, m1, s8, cx, c0, v8, it10_seq, new_s@); lemma_sucs_in(nf, cx, c0, m1, new_s@); z3 = new_s@; }
@loop 3 end
    proof {
        assert(ret@ == y3.push(c0));
        if k3 + 1 < n {
            lemma_part_step(nf, x0, n as int, y3, sets, c0, z3);
            sets = sets.push(z3);
            assert(laid(st0, self.state_stack@, sets));
        } else {
            lemma_part_last(nf, x0, n as int, y3, sets, c0);
        }
    }
@loop 3 post
    proof { assert(ret@.len() == n); lemma_part_done(nf, x0, n as int, ret@, sets, st0, self.state_stack@); }
@end
    proof { assert(wbase(&*self)); assert(wsame(&*old(self), &*self)); assert(some_live(nf, x0, n as nat)); assert(ret_ is Some); assert(greedy(nf, x0, n as nat, ret_->0@, sets.take(n as int))); assert(pushed(st0, self.state_stack@, sets.take(n as int), n as int)); assert(exists|sets: Seq<Set<usize>>| #[trigger] greedy(nf, x0, n as nat, ret_->0@, sets) && pushed(st0, self.state_stack@, sets, n as int)); }

@raw
pub proof fn lemma_member(n: &Nfa, s: Seq<usize>, x: Set<usize>, k: int)
    requires enumerates(s, x), set_in(n, x), n.core(), 0 <= k < s.len(),
    ensures s[k] < n.n(), n.states@[s[k] as int].transitions@.len() == n.alphabet@.len(),
{
    assert(x.contains(s[k].kv()));
    assert(nstate_ok(n.states@[s[k] as int], n.alphabet@.len(), n.n()));
}
pub proof fn lemma_target(n: &Nfa, q: usize, a: usize, k: int)
    requires n.core(), q < n.n(), a < n.alphabet@.len(), 0 <= k < n.tr(q, a as int).len(),
    ensures n.tr(q, a as int)[k] < n.n(),
{
    assert(st(n, q, a, n.tr(q, a as int)[k]));
    lemma_st_in(n, q, a, n.tr(q, a as int)[k]);
}
pub proof fn lemma_init_in(n: &Nfa)
    requires n.core(),
    ensures set_in(n, init1(n)),
{
}

@raw
pub proof fn lemma_wbase(a: &WordComponentIndices, b: &WordComponentIndices)
    requires wbase(a), a.nfa == b.nfa, a.final_states == b.final_states, a.adj_matrices == b.adj_matrices,
    ensures wbase(b),
{
}
pub proof fn lemma_wsame(a: &WordComponentIndices, b: &WordComponentIndices)
    ensures wsame(a, b) <==> a.nfa == b.nfa && a.final_states == b.final_states && a.has_failed == b.has_failed && a.last_word == b.last_word,
{
}
pub proof fn lemma_can_live(n: &Nfa, x: Set<usize>, c: usize, m: nat, t: Set<usize>)
    requires can(n, x, c, m), sucs(n, x, c, m, t),
    ensures some_live(n, t, m),
{
    let p = choose|p: usize| #[trigger] suc(n, x, c, m, p);
    assert(t.contains(p) && live(n, p, m));
}
pub open spec fn wonly(a: &WordComponentIndices, b: &WordComponentIndices) -> bool { a.nfa == b.nfa && a.final_states == b.final_states && a.has_failed == b.has_failed && a.last_word == b.last_word && a.adj_matrices == b.adj_matrices }

@fn dandy/src/nfa/words.rs WordComponentIndices::next_word
@hoist n_complete NComplete nfa
@attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
@ret out
@hide outs wrows_in ons added cans can suc sucs least none_after next_after stack_ok stack_to sx inx st ge live go greedy pushed mats_ok mat_of finals_of racc no_eps wbase wsame enumerates nstate_ok nstates_ok all_lt iacc some_live alpha_distinct set_in
@sig
    requires wbase(&*old(self)), stack_ok(old(self).nfa, old(self).state_stack@, word@),
    ensures wbase(&*final(self)), wsame(&*old(self), &*final(self)),
        match out {
            None => forall|v: Iw| #[trigger] iacc(old(self).nfa, v) && v.len() == word@.len() ==> !lex(word@, v),
            Some(x) => next_after(old(self).nfa, word@, x@) && stack_ok(old(self).nfa, final(self).state_stack@, x@),
        },
@start
    let ghost nf = self.nfa;
    let ghost w0 = word@;
    let ghost len0 = word@.len() as int;
    proof { assert(nf.core() && nf.alphabet@.len() <= isize::MAX) by { reveal(wbase); } lemma_none_start(nf, w0); if len0 > 0 { assert(stack_to(nf, self.state_stack@, w0, len0)) by { reveal(stack_ok); } } }
@loop 1 inv
    it1_seq.len() == len0, forall|j: int| 0 <= j < len0 ==> #[trigger] it1_seq[j] == len0 - j,
    word@ == w0, wonly(&*old(self), &*self), n_complete.nfa == nf, self.nfa == nf,
    none_after(nf, w0, len0 - it1.pos()), len0 > 0 ==> stack_to(nf, self.state_stack@, w0, len0 - it1.pos()),
@loop 1 beg
    let ghost i0 = len0 - it1.pos() + 1;
    let ghost m1 = nn(len0 - i0);
    let ghost s0 = self.state_stack@;
    let ghost cx = s0[i0 - 1]@;
    let ghost mut s2 = Seq::<usize>::empty();
    proof { assert(x1 == i0); assert(s0.len() == i0 && sx(nf, init1(nf), w0.take(i0 - 1), len0, cx)) by { reveal(stack_to); assert(idx_(i0 - 1)); } lemma_init_in(nf); lemma_sx_in(nf, init1(nf), w0.take(i0 - 1), len0, cx); }
@acc 2 HSet<usize>
@loop 2 pre
    proof { lemma_outs_start(nf, Some(m1), it2_seq); assert(acc2@ =~= Set::<usize>::empty()); }
@loop 2 inv
    n_complete.nfa == nf, enumerates(it2_seq, cx), outs(nf, Some(m1), it2_seq, it2.pos(), acc2@),
@loop 2 beg
    let ghost b2 = acc2@;
    let ghost k2 = it2.pos();
    proof { assert(*x2 == it2_seq[k2 - 1]); lemma_member(nf, it2_seq, cx, k2 - 1); lemma_rows_start(nf, Some(m1), b2, *x2); }
@loop 3 inv
    n_complete.nfa == nf, it3_seq == nf.states@[*x2 as int].transitions@, it3_seq.len() == nf.alphabet@.len(), wrows_in(nf, Some(m1), b2, *x2, it3.pos(), acc2@),
@loop 3 beg
    let ghost b3 = acc2@;
    let ghost k3 = it3.pos();
    proof { lemma_added_start(nf, Some(m1), b3, x3@); assert(x3@ == nf.tr(*x2, k3 - 1)); }
@loop 4 inv
    n_complete.nfa == nf, it4_seq == x3@, added(nf, Some(m1), b3, it4_seq, it4.pos(), acc2@),
@loop 4 beg
    let ghost b4 = acc2@;
    proof { assert(*x4 == it4_seq[it4.pos() - 1]); lemma_target(nf, *x2, (k3 - 1) as usize, it4.pos() - 1); }
@loop 4 end
    proof { lemma_added_step(nf, Some(m1), b3, it4_seq, it4.pos(), b4, acc2@); }
@loop 3 end
    proof { lemma_rows_step(nf, Some(m1), b2, *x2, k3, b3, acc2@); }
@loop 2 end
    proof { lemma_outs_step(nf, Some(m1), it2_seq, k2, b2, acc2@); }
@loop 2 post
    proof { s2 = it2_seq; }
@let r
    let ghost r0 = r@;
@acc 5 Vec<usize>
@loop 5 pre
    proof { assert(cans(nf, cx, m1, 0, acc5@)) by { reveal(cans); } }
@loop 5 inv
    it5_seq.len() == nf.alphabet@.len(), cans(nf, cx, m1, it5.pos(), acc5@),
@loop 5 beg
    let ghost b5 = acc5@;
@acc 6 HSet<usize>
@loop 6 pre
    proof { lemma_ons_start(nf, None, it6_seq, x5); assert(acc6@ =~= Set::<usize>::empty()); }
@loop 6 inv
    n_complete.nfa == nf, enumerates(it6_seq, cx), ons(nf, None, it6_seq, it6.pos(), x5, acc6@),
@loop 6 beg
    let ghost b6 = acc6@;
    proof { assert(*x6 == it6_seq[it6.pos() - 1]); lemma_member(nf, it6_seq, cx, it6.pos() - 1); lemma_added_start(nf, None, b6, nf.tr(*x6, x5 as int)); }
@loop 7 inv
    it7_seq == nf.tr(*x6, x5 as int), added(nf, None, b6, it7_seq, it7.pos(), acc6@),
@loop 7 beg
    let ghost b7 = acc6@;
@loop 7 end
    proof { lemma_added_step(nf, None, b6, it7_seq, it7.pos(), b7, acc6@); }
@loop 6 end
    proof { lemma_ons_step(nf, None, it6_seq, it6.pos(), x5, b6, acc6@); }
@loop 6 post
    proof {
        lemma_common(nf, cx, it6_seq, s2, x5, m1, acc6@, r0);
        assert forall|s: Seq<usize>| #[trigger] enumerates(s, acc6@.intersect(r0)) implies (s.len() > 0 <==> can(nf, cx, x5, m1)) by { lemma_some_in(s, acc6@.intersect(r0)); }
    }
@loop 5 end
    proof { lemma_cans_step(nf, cx, m1, it5.pos() - 1, b5, acc5@); }
@let a
    let ghost a0 = a@;
    let ghost wl0 = w0[i0 - 1];
    proof {
        assert forall|c: usize| #[trigger] can(nf, cx, c, m1) implies a0.contains(c) by { reveal(cans); lemma_can_sym(nf, cx, c, m1); }
        assert forall|i: int, j: int| 0 <= i < j < a0.len() implies #[trigger] a0[i] < #[trigger] a0[j] by { reveal(cans); }
        assert forall|i: int| 0 <= i < a0.len() implies can(nf, cx, #[trigger] a0[i], m1) by { reveal(cans); }
    }
@loop 8 inv
    it8_seq == a0, r8 ==> forall|j: int| 0 <= j < it8.pos() ==> #[trigger] a0[j] <= wl0, !r8 ==> exists|j: int| 0 <= j < a0.len() && #[trigger] a0[j] > wl0,
@loop 8 post
    proof {
        if r8 {
            assert forall|c: usize| #[trigger] can(nf, cx, c, nn(len0 - i0)) implies c <= wl0 by { let j = choose|j: int| 0 <= j < a0.len() && a0[j] == c; assert(a0[j] <= wl0); }
            lemma_none_step(nf, w0, i0, cx);
        }
    }
@acc 9 Option<&usize>
@loop 9 inv
    it9_seq == a0, r9 is None ==> forall|j: int| 0 <= j < it9.pos() ==> #[trigger] a0[j] <= wl0,
    r9 is Some ==> exists|j: int| 0 <= j < a0.len() && #[trigger] a0[j] == *r9->0 && a0[j] > wl0 && forall|h: int| 0 <= h < j ==> #[trigger] a0[h] <= wl0,
@let b
    let ghost bb = b;
    proof {
        let j = choose|j: int| 0 <= j < a0.len() && #[trigger] a0[j] == b && a0[j] > wl0 && forall|h: int| 0 <= h < j ==> #[trigger] a0[h] <= wl0;
        assert forall|c: usize| #[trigger] can(nf, cx, c, nn(len0 - i0)) && c > wl0 implies bb <= c by { let h = choose|h: int| 0 <= h < a0.len() && a0[h] == c; if h > j { assert(a0[j] < a0[h]); } }
        lemma_can_sym(nf, cx, bb, m1);
    }
@acc 10 HSet<usize>
@loop 10 pre
    proof { lemma_ons_start(nf, Some(m1), it10_seq, bb); assert(acc10@ =~= Set::<usize>::empty()); }
@loop 10 inv
    n_complete.nfa == nf, enumerates(it10_seq, cx), ons(nf, Some(m1), it10_seq, it10.pos(), bb, acc10@),
@loop 10 beg
    let ghost b10 = acc10@;
    proof { assert(*x10 == it10_seq[it10.pos() - 1]); lemma_member(nf, it10_seq, cx, it10.pos() - 1); lemma_added_start(nf, Some(m1), b10, nf.tr(*x10, bb as int)); }
@loop 11 inv
    n_complete.nfa == nf, it11_seq == nf.tr(*x10, bb as int), added(nf, Some(m1), b10, it11_seq, it11.pos(), acc10@),
@loop 11 beg
    let ghost b11 = acc10@;
    proof { assert(*x11 == it11_seq[it11.pos() - 1]); lemma_target(nf, *x10, bb, it11.pos() - 1); }
@loop 11 end
    proof { lemma_added_step(nf, Some(m1), b10, it11_seq, it11.pos(), b11, acc10@); }
@loop 10 end
    proof { lemma_ons_step(nf, Some(m1), it10_seq, it10.pos(), bb, b10, acc10@); }
@loop 10 post
    proof { lemma_ons_done(nf, m1, it10_seq, cx, bb, acc10@); lemma_sucs_in(nf, cx, bb, m1, acc10@); }
@let s
    let ghost t0 = s@;
    let ghost th = s;
    let ghost u0 = w0.take(i0 - 1).push(bb);
    proof {
        lemma_can_live(nf, cx, bb, m1, t0);
        assert(s0.push(th).last() == th);
    }
@call push#2
    proof { lemma_wbase(&*old(self), &*self); }
@loop 1 end
    proof { assert(stack_to(nf, self.state_stack@, w0, i0 - 1)) by { reveal(stack_to); } }
@loop 1 post
    proof { lemma_wbase(&*old(self), &*self); lemma_wsame(&*old(self), &*self); assert(forall|v: Iw| #[trigger] iacc(nf, v) && v.len() == w0.len() ==> !lex(w0, v)) by { reveal(none_after); assert forall|v: Iw| #[trigger] iacc(nf, v) && v.len() == w0.len() implies !lex(w0, v) by { assert(v.take(0) =~= w0.take(0)); } } }
@loop 12 pre
    proof {
        reveal(wsame);
        let sets = choose|sets: Seq<Set<usize>>| #[trigger] greedy(nf, t0, m1, it12_seq, sets) && pushed(s0.push(th), self.state_stack@, sets, m1 as int);
        lemma_next(nf, w0, i0, cx, bb, t0, it12_seq, sets);
        lemma_next_stack(nf, w0, i0, cx, bb, t0, it12_seq, sets, s0, self.state_stack@, th);
        assert(u0 + it12_seq.take(0) =~= u0);
    }
@loop 12 inv
    word@ == u0 + it12_seq.take(it12.pos()), next_after(nf, w0, u0 + it12_seq), stack_ok(nf, self.state_stack@, u0 + it12_seq), wbase(&*self), self.nfa == nf, self.final_states == old(self).final_states, self.has_failed == old(self).has_failed, self.last_word == old(self).last_word,
@loop 12 end
    proof { assert(word@ =~= u0 + it12_seq.take(it12.pos())); }
@loop 12 post
    proof { assert(it12_seq.take(it12.pos()) =~= it12_seq); }
@return
    proof {
        lemma_wsame(&*old(self), &*self);
        if i0 == len0 {
            lemma_wbase(&*old(self), &*self);
            let e = Seq::<usize>::empty();
            assert(greedy(nf, t0, m1, e, Seq::<Set<usize>>::empty())) by { reveal(greedy); }
            lemma_next(nf, w0, i0, cx, bb, t0, e, Seq::<Set<usize>>::empty());
            assert(u0 + e =~= u0);
            lemma_last_stack(nf, w0, bb, s0);
        }
    }

@fn dandy/src/nfa/words.rs WordComponentIndices::new
@sig
    requires nfa.core(), no_eps(nfa),
    ensures winv(&r), r.nfa == nfa, r.last_word is None, !r.has_failed,
@acc 1 HSet<usize>
@loop 1 inv
    it1_seq == nfa.states@, forall|q: usize| #[trigger] acc1@.contains(q) <==> q < it1.pos() && nfa.acc(q),
@end
    proof {
        axiom_vec_len(&nfa.states);
        axiom_vec_len(&nfa.alphabet);
        assert forall|i: int| 0 <= i < ret_.adj_matrices@.len() implies mat_of(nfa, &#[trigger] ret_.adj_matrices@[i], i as nat) by {}
    }

