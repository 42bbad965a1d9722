@raw
pub open spec fn ekey<'a>(e: NfaEvaluator<'a>) -> Seq<usize> { canon(e.current_states@, e.nfa.n()) }
pub open spec fn eok<'a>(e: NfaEvaluator<'a>, n: &Nfa) -> bool { e.ok() && e.nfa == n && !e.unknown_elem_seen }
pub open spec fn ewaiting<'a>(s: Seq<NfaEvaluator<'a>>, k: Seq<usize>) -> bool { exists|i: int| 0 <= i < s.len() && ekey(#[trigger] s[i]) == k }
pub proof fn lemma_ekey<'a>(e: NfaEvaluator<'a>, n: &Nfa)
    requires eok(e, n),
    ensures ekey(e).to_set() == e.current_states@, subs(n.n()).contains(ekey(e)), n.n() <= usize::MAX, lt_set(e.current_states@, n.n()),
        kacc(n, ekey(e)) == (exists|q: usize| #[trigger] e.current_states@.contains(q) && n.acc(q)),
{
    lemma_states_len(n);
    lemma_canon_set(e.current_states@, n.n());
    lemma_subs(e.current_states@, n.n());
}
// column i leads from the set k to the set with number t
pub open spec fn dlink(n: &Nfa, gk: Seq<Seq<usize>>, k: Seq<usize>, i: int, t: usize) -> bool {
    t < gk.len() && steps_to(n, k.to_set(), n.alphabet@[i]@, gk[t as int].to_set())
}
pub open spec fn dlinks(n: &Nfa, gk: Seq<Seq<usize>>, k: Seq<usize>, tr: Seq<usize>) -> bool {
    forall|i: int| 0 <= i < tr.len() ==> dlink(n, gk, k, i, #[trigger] tr[i])
}
pub open spec fn drow(n: &Nfa, gk: Seq<Seq<usize>>, k: Seq<usize>, tr: Seq<usize>) -> bool { tr.len() == n.alphabet@.len() && dlinks(n, gk, k, tr) }
pub proof fn lemma_dlinks_grow(n: &Nfa, gk: Seq<Seq<usize>>, x: Seq<usize>, k: Seq<usize>, tr: Seq<usize>)
    requires dlinks(n, gk, k, tr),
    ensures dlinks(n, gk.push(x), k, tr),
{
    assert forall|i: int| 0 <= i < tr.len() implies dlink(n, gk.push(x), k, i, #[trigger] tr[i]) by { assert(dlink(n, gk, k, i, tr[i])); assert(gk.push(x)[tr[i] as int] == gk[tr[i] as int]); }
}
// the map numbers the sets of gk
pub open spec fn numbered(m: Map<Seq<usize>, usize>, gk: Seq<Seq<usize>>) -> bool {
    &&& m.dom().len() == gk.len()
    &&& forall|i: int| 0 <= i < gk.len() ==> m.contains_key(#[trigger] gk[i]) && m[gk[i]] == i
    &&& forall|k: Seq<usize>| #[trigger] m.contains_key(k) ==> m[k] < gk.len() && gk[m[k] as int] == k
}
pub proof fn lemma_numbered(m: Map<Seq<usize>, usize>, gk: Seq<Seq<usize>>, k: Seq<usize>, n: usize)
    requires numbered(m, gk), !m.contains_key(k), n == gk.len(),
    ensures numbered(m.insert(k, n), gk.push(k)),
{
    let m2 = m.insert(k, n); let g2 = gk.push(k);
    assert(m2.dom() =~= m.dom().insert(k));
    assert forall|i: int| 0 <= i < g2.len() implies m2.contains_key(#[trigger] g2[i]) && m2[g2[i]] == i by { if i < gk.len() { assert(m.contains_key(gk[i])); } }
    assert forall|x: Seq<usize>| #[trigger] m2.contains_key(x) implies m2[x] < g2.len() && g2[m2[x] as int] == x by { if x != k { assert(m.contains_key(x)); } }
}
pub open spec fn acc_set(n: &Nfa, gk: Seq<Seq<usize>>, s: Set<usize>) -> bool { forall|i: usize| #[trigger] s.contains(i) <==> i < gk.len() && kacc(n, gk[i as int]) }
pub open spec fn rows(n: &Nfa, gk: Seq<Seq<usize>>, m: Map<Seq<usize>, Vec<usize>>) -> bool { forall|k: Seq<usize>| #[trigger] m.contains_key(k) ==> drow(n, gk, k, m[k]@) }
pub proof fn lemma_rows_grow(n: &Nfa, gk: Seq<Seq<usize>>, x: Seq<usize>, m: Map<Seq<usize>, Vec<usize>>)
    requires rows(n, gk, m),
    ensures rows(n, gk.push(x), m),
{
    assert forall|k: Seq<usize>| #[trigger] m.contains_key(k) implies drow(n, gk.push(x), k, m[k]@) by { assert(drow(n, gk, k, m[k]@)); lemma_dlinks_grow(n, gk, x, k, m[k]@); }
}
// state i of d stands for the set gk[i]
pub open spec fn dstands(n: &Nfa, gk: Seq<Seq<usize>>, i: int, s: DfaState) -> bool {
    s.name@ == dec(i) && s.initial == (i == 0) && s.accepting == kacc(n, gk[i]) && drow(n, gk, gk[i], s.transitions@)
}
pub open spec fn det(n: &Nfa, gk: Seq<Seq<usize>>, d: &Dfa) -> bool {
    &&& d.alphabet == n.alphabet && d.initial_state == 0 && gk.len() > 0 && d.states@.len() == gk.len()
    &&& states_of(n, eword(), gk[0].to_set())
    &&& forall|i: int| 0 <= i < gk.len() ==> dstands(n, gk, i, #[trigger] d.states@[i])
}
pub open spec fn dkeep(n: &Nfa, gk: Seq<Seq<usize>>, w: Word, x: Option<usize>) -> bool {
    match x { Some(q) => over(n.alphabet@, w) && q < gk.len() && states_of(n, w, gk[q as int].to_set()), None => !over(n.alphabet@, w) }
}
pub proof fn lemma_det_run(n: &Nfa, gk: Seq<Seq<usize>>, d: &Dfa, w: Word)
    requires n.core(), det(n, gk, d),
    ensures dkeep(n, gk, w, drun(d, 0, w)),
    decreases w.len(),
{
    if w.len() == 0 { assert(w =~= eword()); } else {
        let v = w.drop_last(); let c = w.last();
        lemma_det_run(n, gk, d, v);
        assert(w =~= v.push(c));
        lemma_over_push(n.alphabet@, v, c);
        match drun(d, 0, v) {
            Some(q) => if has_sym(n.alphabet@, c) {
                let i = sym_idx(n.alphabet@, c);
                assert(0 <= i < n.alphabet@.len() && n.alphabet@[i]@ == c);
                assert(dstands(n, gk, q as int, d.states@[q as int]));
                assert(dlink(n, gk, gk[q as int], i, d.states@[q as int].transitions@[i]));
                lemma_steps(n, v, gk[q as int].to_set(), c, gk[d.next(q, i) as int].to_set());
            },
            None => {}
        }
    }
}
pub proof fn lemma_det(n: &Nfa, gk: Seq<Seq<usize>>, d: &Dfa)
    requires n.core(), det(n, gk, d),
    ensures d.wf(), forall|w: Word| #[trigger] daccepts(d, w) == naccepts(n, w),
{
    broadcast use axiom_dec_inj;
    assert forall|q: int, i: int| 0 <= q < d.states@.len() && 0 <= i < d.alphabet@.len() implies #[trigger] d.states@[q].transitions@[i] < d.states@.len() by {
        assert(dstands(n, gk, q, d.states@[q]));
        assert(dlink(n, gk, gk[q], i, d.states@[q].transitions@[i]));
    }
    assert forall|q: int| 0 <= q < d.states@.len() implies (#[trigger] d.states@[q]).transitions@.len() == d.alphabet@.len() && d.states@[q].initial == (q == d.initial_state) by { assert(dstands(n, gk, q, d.states@[q])); }
    assert forall|p: int, q: int| 0 <= p < d.states@.len() && 0 <= q < d.states@.len() && p != q implies (#[trigger] d.states@[p]).name@ != (#[trigger] d.states@[q]).name@ by {
        assert(dstands(n, gk, p, d.states@[p])); assert(dstands(n, gk, q, d.states@[q]));
    }
    assert forall|w: Word| #[trigger] daccepts(d, w) == naccepts(n, w) by {
        lemma_det_run(n, gk, d, w);
        match drun(d, 0, w) {
            Some(q) => { lemma_kacc(n, w, gk[q as int]); assert(dstands(n, gk, q as int, d.states@[q as int])); },
            None => { if naccepts(n, w) { lemma_naccepts_over(n, w); } }
        }
    }
}
// an increasing list of n numbers below n is 0, 1, .., n - 1
pub proof fn lemma_fill(f: Seq<int>, i: int)
    requires forall|a: int, b: int| 0 <= a < b < f.len() ==> f[a] < f[b], forall|a: int| 0 <= a < f.len() ==> 0 <= #[trigger] f[a] < f.len(), 0 <= i < f.len(),
    ensures f[i] == i,
{
    lemma_fill_low(f, i);
    lemma_fill_high(f, i);
}
pub proof fn lemma_fill_low(f: Seq<int>, i: int)
    requires forall|a: int, b: int| 0 <= a < b < f.len() ==> f[a] < f[b], forall|a: int| 0 <= a < f.len() ==> 0 <= #[trigger] f[a] < f.len(), 0 <= i < f.len(),
    ensures f[i] >= i,
    decreases i,
{
    if i > 0 { lemma_fill_low(f, i - 1); assert(f[i - 1] < f[i]); }
}
pub proof fn lemma_fill_high(f: Seq<int>, i: int)
    requires forall|a: int, b: int| 0 <= a < b < f.len() ==> f[a] < f[b], forall|a: int| 0 <= a < f.len() ==> 0 <= #[trigger] f[a] < f.len(), 0 <= i < f.len(),
    ensures f[i] <= i,
    decreases f.len() - i,
{
    if i + 1 < f.len() { lemma_fill_high(f, i + 1); assert(f[i] < f[i + 1]); }
}
pub proof fn lemma_sort_numbered<'a>(m: Map<Seq<usize>, usize>, gk: Seq<Seq<usize>>, v: Seq<(&'a Vec<usize>, &'a usize)>, u: Seq<(&'a Vec<usize>, &'a usize)>, keys: Seq<usize>, p: Seq<int>)
    requires numbered(m, gk), ref_entries(v, m), sort_perm(keys, p), keys.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> keys[i] == *(#[trigger] v[i]).1,
        u.len() == v.len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] u[i] == v[p[i]],
    ensures u.len() == gk.len(), forall|i: int| 0 <= i < u.len() ==> (#[trigger] u[i]).0.kv() == gk[i] && *u[i].1 == i,
{
    let f = Seq::new(u.len(), |i: int| keys[p[i]] as int);
    assert forall|a: int, b: int| 0 <= a < b < f.len() implies f[a] < f[b] by {
        let x = p[a]; let y = p[b];
        assert(v[x].0.kv() != v[y].0.kv());
        assert(keys[x] == *v[x].1 && keys[y] == *v[y].1);
        assert(m.contains_key(v[x].0.kv()) && m.contains_key(v[y].0.kv()));
        assert(keys[x] != keys[y]);
    }
    assert forall|a: int| 0 <= a < f.len() implies 0 <= #[trigger] f[a] < f.len() by { let x = p[a]; assert(keys[x] == *v[x].1); assert(m.contains_key(v[x].0.kv())); }
    assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).0.kv() == gk[i] && *u[i].1 == i by {
        lemma_fill(f, i);
        let x = p[i]; assert(keys[x] == *v[x].1); assert(m.contains_key(v[x].0.kv()));
    }
}

@fn dandy/src/nfa/mod.rs Nfa::to_dfa
@sig
    requires self.core(),
    ensures r.wf(), r.alphabet == self.alphabet, forall|w: Word| #[trigger] daccepts(&r, w) == naccepts(self, w),
@start
    let ghost mut gk: Seq<Seq<usize>> = seq![];
    let ghost mut stk: Seq<NfaEvaluator> = seq![];
    let ghost u = subs(self.n());
@let to_explore
    proof {
        assert(over(self.alphabet@, eword()));
        assert(to_explore@[0].at(eword()));
        lemma_ekey(to_explore@[0], self);
    }
@loop 1 pre
    proof {
        stk = to_explore@;
        let k = ekey(to_explore@[0]);
        gk = seq![k];
        assert(map@ =~= Map::empty().insert(k, 0usize));
        assert(map@.dom() =~= Set::empty().insert(k));
        assert(numbered(map@, gk));
        assert(ewaiting(to_explore@, k));
        vstd::set_lib::lemma_len_subset(map@.dom(), u);
    }
@loop 1 inv
    stk == to_explore@, self.core(), u == subs(self.n()), gk.len() > 0, states_of(self, eword(), gk[0].to_set()),
    gen.cur == gk.len(), numbered(map@, gk), acc_set(self, gk, accepting@), rows(self, gk, transitions@),
    forall|i: int| 0 <= i < to_explore@.len() ==> eok(#[trigger] to_explore@[i], self) && map@.contains_key(ekey(to_explore@[i])),
    forall|k: Seq<usize>| #[trigger] map@.contains_key(k) ==> transitions@.contains_key(k) || ewaiting(to_explore@, k),
    map@.dom().subset_of(u), map@.dom().len() <= u.len(),
    decreases u.len() - map@.dom().len(), to_explore@.len(),
@loop 1 beg
    let ghost cur = ekey(eval);
    let ghost m1 = map@.dom().len();
    let ghost l1 = to_explore@.len();
    proof {
        assert(stk.last() == eval);
        assert(eok(eval, self));
        lemma_ekey(eval, self);
        assert forall|i: int| 0 <= i < to_explore@.len() implies eok(#[trigger] to_explore@[i], self) && map@.contains_key(ekey(to_explore@[i])) by { assert(to_explore@[i] == stk[i]); }
        assert forall|k: Seq<usize>| #[trigger] map@.contains_key(k) implies transitions@.contains_key(k) || k == cur || ewaiting(to_explore@, k) by {
            if !transitions@.contains_key(k) {
                let i = choose|i: int| 0 <= i < stk.len() && ekey(#[trigger] stk[i]) == k;
                if i < to_explore@.len() { assert(to_explore@[i] == stk[i]); }
            }
        }
    }
@loop 2 inv
    self.core(), u == subs(self.n()), gk.len() > 0, states_of(self, eword(), gk[0].to_set()), eok(eval, self), cur == ekey(eval), map@.contains_key(cur), cur.to_set() == eval.current_states@,
    it2_seq.len() == self.alphabet@.len(),
    forall|i: int| 0 <= i < it2_seq.len() ==> eok(#[trigger] it2_seq[i], self) && steps_to(self, eval.current_states@, self.alphabet@[i]@, it2_seq[i].current_states@),
    gen.cur == gk.len(), numbered(map@, gk), acc_set(self, gk, accepting@), rows(self, gk, transitions@),
    forall|i: int| 0 <= i < to_explore@.len() ==> eok(#[trigger] to_explore@[i], self) && map@.contains_key(ekey(to_explore@[i])),
    forall|k: Seq<usize>| #[trigger] map@.contains_key(k) ==> transitions@.contains_key(k) || k == cur || ewaiting(to_explore@, k),
    map@.dom().subset_of(u), map@.dom().len() <= u.len(), map@.dom().len() >= m1, map@.dom().len() == m1 ==> to_explore@.len() == l1,
    tr@.len() == it2.pos(), dlinks(self, gk, cur, tr@),
@loop 2 beg
    let ghost ne = x2;
    let ghost k2 = ekey(ne);
    let ghost g0 = gk;
    let ghost map0 = map@;
    let ghost ex0 = to_explore@;
    let ghost acc0 = accepting@;
    let ghost tr0 = tr@;
    proof {
        assert(ne == it2_seq[it2.pos() - 1]);
        lemma_ekey(ne, self);
        axiom_hmap_len(&map);
    }
@loop 2 end
    proof {
        let g = if map0.contains_key(k2) { g0 } else { g0.push(k2) };
        if !map0.contains_key(k2) {
            lemma_numbered(map0, g0, k2, g0.len() as usize);
            lemma_rows_grow(self, g0, k2, transitions@);
            lemma_dlinks_grow(self, g0, k2, cur, tr0);
            assert(map@ == map0.insert(k2, g0.len() as usize));
            assert(map@.dom() =~= map0.dom().insert(k2));
            vstd::set_lib::lemma_len_subset(map@.dom(), u);
            assert(to_explore@ == ex0.push(ne));
        }
        gk = g;
        assert(numbered(map@, gk));
        let t = map@[k2];
        assert(gk[t as int] == k2);
        assert(tr@ == tr0.push(t));
        assert(dlink(self, gk, cur, tr0.len() as int, t));
        assert(dlinks(self, gk, cur, tr@)) by {
            assert forall|i: int| 0 <= i < tr@.len() implies dlink(self, gk, cur, i, #[trigger] tr@[i]) by { if i < tr0.len() { assert(tr@[i] == tr0[i]); } }
        }
        assert(acc_set(self, gk, accepting@)) by {
            assert forall|i: usize| #[trigger] accepting@.contains(i) <==> i < gk.len() && kacc(self, gk[i as int]) by {
                assert(acc0.contains(i) <==> i < g0.len() && kacc(self, g0[i as int]));
                assert(i < g0.len() ==> gk[i as int] == g0[i as int]);
            }
        }
        assert forall|k: Seq<usize>| #[trigger] map@.contains_key(k) implies transitions@.contains_key(k) || k == cur || ewaiting(to_explore@, k) by {
            if map0.contains_key(k) {
                if !transitions@.contains_key(k) && k != cur {
                    let i = choose|i: int| 0 <= i < ex0.len() && ekey(#[trigger] ex0[i]) == k;
                    assert(to_explore@[i] == ex0[i]);
                }
            } else { assert(ekey(to_explore@.last()) == k); }
        }
    }
@loop 1 end
    proof {
        assert(transitions@.contains_key(cur));
        stk = to_explore@;
    }
@acc 3 Vec<(&Vec<usize>, &usize)>
@loop 3 inv
    ref_entries(it3_seq, map@), acc3@ == it3_seq.take(it3.pos()),
@loop 3 end
    proof { assert(acc3@ =~= it3_seq.take(it3.pos())); }
@loop 3 post
    proof { assert(acc3@ =~= it3_seq); }
@let vec
    let ghost v0 = vec@;
    let ghost mut ks: Seq<usize> = seq![];
@loop 4 post
    proof { ks = keys4@; }
@loop 4 inv
    it4_seq == v0, forall|i: int| 0 <= i < it4.pos() ==> keys4@[i] == *(#[trigger] it4_seq[i]).1,
@call sort_by_key
    proof {
        let p = choose|p: Seq<int>| sort_perm(ks, p) && forall|i: int| 0 <= i < p.len() ==> #[trigger] vec@[i] == v0[p[i]];
        lemma_sort_numbered(map@, gk, v0, vec@, ks, p);
    }
@acc 5 Vec<DfaState>
@loop 5 inv
    it5_seq.len() == gk.len(), forall|i: int| 0 <= i < it5_seq.len() ==> (#[trigger] it5_seq[i]).0.kv() == gk[i] && *it5_seq[i].1 == i,
    numbered(map@, gk), acc_set(self, gk, accepting@), rows(self, gk, transitions@),
    acc5@.len() == it5.pos(),
    forall|i: int| it5.pos() <= i < gk.len() ==> transitions@.contains_key(#[trigger] gk[i]),
    forall|i: int| 0 <= i < it5.pos() ==> dstands(self, gk, i, #[trigger] acc5@[i]),
@loop 5 beg
    let ghost i5 = it5.pos() - 1;
    proof { assert(it5_seq[i5].0.kv() == gk[i5]); assert(map@[gk[i5]] == i5); assert(drow(self, gk, gk[i5], transitions@[gk[i5]]@)); }
@let states
    proof {
        let d = Dfa { alphabet: self.alphabet, states: states, initial_state: 0 };
        assert(det(self, gk, &d));
        lemma_det(self, gk, &d);
    }
