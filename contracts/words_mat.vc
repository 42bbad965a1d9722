@type dandy/src/nfa/words.rs NumBool
@raw
use NumBool::*;
pub open spec fn nb_add(a: NumBool, b: NumBool) -> NumBool { if a == NumBool::True || b == NumBool::True { NumBool::True } else { NumBool::False } }
pub open spec fn nb_mul(a: NumBool, b: NumBool) -> NumBool { if a == NumBool::True && b == NumBool::True { NumBool::True } else { NumBool::False } }
// a matrix (nalgebra): rows, columns and elements
#[verifier::external_body]
pub struct Mat { v: Vec<NumBool> }
impl Mat {
    pub uninterp spec fn rows(&self) -> nat;
    pub uninterp spec fn cols(&self) -> nat;
    pub uninterp spec fn el(&self, i: int, j: int) -> NumBool;
    #[verifier::external_body]
    pub fn from_fn<F: Fn(usize, usize) -> NumBool>(r: usize, c: usize, f: F) -> (m: Mat)
        requires forall|i: usize, j: usize| i < r && j < c ==> call_requires(f, (i, j)),
        ensures m.rows() == r, m.cols() == c, forall|i: usize, j: usize| #![trigger m.el(i as int, j as int)] i < r && j < c ==> call_ensures(f, (i, j), m.el(i as int, j as int))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn at_(&self, i: usize, j: usize) -> (r: NumBool) requires i < self.rows(), j < self.cols() ensures r == self.el(i as int, j as int) { unimplemented!() }
}
// the sum of the first k products, by the operations of the elements (under contract below)
pub open spec fn dot(a: &Mat, b: &Mat, i: int, j: int, k: nat) -> NumBool decreases k {
    if k == 0 { NumBool::False } else { nb_add(dot(a, b, i, j, (k - 1) as nat), nb_mul(a.el(i, k - 1), b.el(k - 1, j))) }
}
#[verifier::external_body]
pub fn mat_mul(a: &Mat, b: &Mat) -> (r: Mat)
    requires a.cols() == b.rows(),
    ensures r.rows() == a.rows(), r.cols() == b.cols(), forall|i: int, j: int| 0 <= i < a.rows() && 0 <= j < b.cols() ==> #[trigger] r.el(i, j) == dot(a, b, i, j, a.cols())
{ unimplemented!() }
pub proof fn lemma_dot(a: &Mat, b: &Mat, i: int, j: int, k: nat)
    ensures dot(a, b, i, j, k) == NumBool::True <==> exists|r: int| 0 <= r < k && #[trigger] a.el(i, r) == NumBool::True && b.el(r, j) == NumBool::True,
    decreases k,
{
    if k > 0 {
        lemma_dot(a, b, i, j, (k - 1) as nat);
        if a.el(i, k - 1) == NumBool::True && b.el(k - 1, j) == NumBool::True { assert(dot(a, b, i, j, k) == NumBool::True); }
    }
}
// m tells which states are i moves apart
pub open spec fn mat_of(n: &Nfa, m: &Mat, i: nat) -> bool {
    &&& m.rows() == n.n() && m.cols() == n.n()
    &&& forall|p: usize, q: usize| #![trigger m.el(p as int, q as int)] p < n.n() && q < n.n() ==> (m.el(p as int, q as int) == NumBool::True <==> go(n, p, i, q))
}
pub open spec fn mats_ok(n: &Nfa, m: Seq<Mat>) -> bool { m.len() >= 2 && forall|i: int| 0 <= i < m.len() ==> mat_of(n, &#[trigger] m[i], i as nat) }
pub proof fn lemma_mat_mul(n: &Nfa, a: &Mat, b: &Mat, r: &Mat, m: nat)
    requires n.core(), n.n() <= usize::MAX, mat_of(n, a, 1), mat_of(n, b, m), r.rows() == a.rows(), r.cols() == b.cols(),
        forall|i: int, j: int| 0 <= i < a.rows() && 0 <= j < b.cols() ==> #[trigger] r.el(i, j) == dot(a, b, i, j, a.cols()),
    ensures mat_of(n, r, m + 1),
{
    assert forall|p: usize, q: usize| #![trigger r.el(p as int, q as int)] p < n.n() && q < n.n() implies (r.el(p as int, q as int) == NumBool::True <==> go(n, p, m + 1, q)) by {
        lemma_dot(a, b, p as int, q as int, n.n());
        reveal_with_fuel(go, 2);
        if r.el(p as int, q as int) == NumBool::True {
            let k = choose|k: int| 0 <= k < n.n() && #[trigger] a.el(p as int, k) == NumBool::True && b.el(k, q as int) == NumBool::True;
            let ku = k as usize;
            assert(a.el(p as int, ku as int) == NumBool::True);
            assert(b.el(ku as int, q as int) == NumBool::True);
            let z = choose|z: usize| #[trigger] ge(n, p, z) && go(n, z, 0, ku);
            assert(ge(n, p, ku) && go(n, ku, m, q));
        }
        if go(n, p, m + 1, q) {
            let ku = choose|k: usize| #[trigger] ge(n, p, k) && go(n, k, ((m + 1) - 1) as nat, q);
            lemma_ge_in(n, p, ku);
            assert(go(n, ku, 0, ku));
            assert(go(n, p, 1, ku));
            assert(a.el(p as int, ku as int) == NumBool::True);
            assert(b.el(ku as int, q as int) == NumBool::True);
        }
    }
}
pub open spec fn finals_of(n: &Nfa, f: Set<usize>) -> bool { forall|q: usize| #[trigger] f.contains(q) <==> q < n.n() && n.acc(q) }

@fn dandy/src/nfa/words.rs Add for NumBool::add
@sig
    ensures r == nb_add(self, rhs),
@fn dandy/src/nfa/words.rs Mul for NumBool::mul
@sig
    ensures r == nb_mul(self, rhs),
@fn dandy/src/nfa/words.rs One for NumBool::one
@sig
    ensures r == NumBool::True,
@fn dandy/src/nfa/words.rs Zero for NumBool::zero
@sig
    ensures r == NumBool::False,
@fn dandy/src/nfa/words.rs From<bool> for NumBool::from
@sig
    ensures r == (if value { NumBool::True } else { NumBool::False }),

@type dandy/src/nfa/words.rs WordComponentIndices

@fn dandy/src/nfa/words.rs WordComponentIndices::is_reachable_in_one_step
@sig
    requires nfa.core(), no_eps(nfa), !epsilon_moves, from < nfa.n(),
    ensures r == ge(nfa, from, to),
@loop 1 inv
    false,
@loop 2 inv
    false,
@loop 3 inv
    false,
@loop 4 pre
    proof { assert(nstate_ok(nfa.states@[from as int], nfa.alphabet@.len(), nfa.n())); axiom_vec_len(&nfa.alphabet); }
@loop 4 inv
    from < nfa.n(), nfa.states@[from as int].transitions@.len() == nfa.alphabet@.len(), it4_seq == nfa.states@[from as int].transitions@,
    !r4 ==> forall|a: usize| a < it4.pos() ==> !#[trigger] st(nfa, from, a, to), r4 ==> ge(nfa, from, to),
@loop 4 beg
    let ghost k4 = it4.pos() - 1;
    proof { assert(it4_seq[k4]@ == nfa.tr(from, k4)); assert(*x4 == it4_seq[k4]); assert(x4.vk() == nfa.tr(from, k4)); }
@loop 4 end
    proof {
        if r4 {
            let i = choose|i: int| 0 <= i < it4_seq[k4]@.len() && (#[trigger] it4_seq[k4]@[i]).kv() == to.kv();
            assert(nfa.tr(from, k4)[i] == to);
            assert(st(nfa, from, k4 as usize, to));
        } else if st(nfa, from, k4 as usize, to) {
            let i = choose|i: int| 0 <= i < nfa.tr(from, k4).len() && nfa.tr(from, k4)[i] == to;
            assert((x4.vk()[i]).kv() == to.kv());
        }
    }

@fn dandy/src/nfa/words.rs WordComponentIndices::generate_adjacency_matrix
@into NumBool
@sig
    requires nfa.core(), no_eps(nfa),
    ensures mat_of(nfa, &r, 1),
@closure 1 $%1: usize, $%2: usize| -> (r: NumBool)
    requires nfa.core(), no_eps(nfa), !eps, $%1 < nfa.n(), ensures r == (if ge(nfa, $%1, $%2) { NumBool::True } else { NumBool::False }),
@end
    proof {
        reveal_with_fuel(go, 2);
        assert forall|p: usize, q: usize| #![trigger ret_.el(p as int, q as int)] p < nfa.n() && q < nfa.n() implies (ret_.el(p as int, q as int) == NumBool::True <==> go(nfa, p, 1, q)) by {
            assert(ge(nfa, p, q) ==> go(nfa, q, 0, q));
        }
    }

@fn dandy/src/nfa/words.rs WordComponentIndices::identity_matrix
@into NumBool
@sig
    ensures r.rows() == n, r.cols() == n, forall|p: usize, q: usize| #![trigger r.el(p as int, q as int)] p < n && q < n ==> (r.el(p as int, q as int) == NumBool::True <==> p == q),
@closure 1 $%1: usize, $%2: usize| -> (r: NumBool)
    ensures r == (if $%1 == $%2 { NumBool::True } else { NumBool::False }),

@fn dandy/src/nfa/words.rs WordComponentIndices::generate_matrices_up_to
@sig
    requires old(self).nfa.core(), old(self).nfa.n() <= usize::MAX, mats_ok(old(self).nfa, old(self).adj_matrices@),
    ensures mats_ok(old(self).nfa, final(self).adj_matrices@), final(self).adj_matrices@.len() > n,
        final(self).nfa == old(self).nfa, final(self).final_states == old(self).final_states, final(self).state_stack == old(self).state_stack,
        final(self).has_failed == old(self).has_failed, final(self).last_word == old(self).last_word,
@loop 1 inv
    mats_ok(self.nfa, self.adj_matrices@), self.nfa == old(self).nfa, self.final_states == old(self).final_states, self.state_stack == old(self).state_stack,
    self.has_failed == old(self).has_failed, self.last_word == old(self).last_word,
    decreases n + 1 - self.adj_matrices@.len(),
@loop 1 beg
    let ghost m0 = self.adj_matrices@;
@loop 1 end
    proof {
        let k = m0.len() as int;
        assert(mat_of(self.nfa, &m0[1], 1));
        assert(mat_of(self.nfa, &m0[k - 1], (k - 1) as nat));
        lemma_mat_mul(self.nfa, &m0[1], &m0[k - 1], &self.adj_matrices@[k], (k - 1) as nat);
        assert forall|i: int| 0 <= i < k + 1 implies mat_of(self.nfa, &#[trigger] self.adj_matrices@[i], i as nat) by { if i < k { assert(self.adj_matrices@[i] == m0[i]); } }
    }
