@type dandy/src/dfa/eval.rs DfaEvaluator
@raw
impl<'a> DfaEvaluator<'a> {
    pub open spec fn ok(&self) -> bool { self.dfa.core() && rev_ok(self.rev_map@, self.dfa.alphabet@) && self.current_state < self.dfa.states@.len() }
    // None: a symbol outside the alphabet has been read
    pub open spec fn st(&self) -> Option<usize> { if self.unknown_elem_seen { None } else { Some(self.current_state) } }
}
pub open spec fn drun_opt(d: &Dfa, q: Option<usize>, w: Word) -> Option<usize> { match q { Some(p) => drun(d, p, w), None => None } }

@fn dandy/src/dfa/eval.rs From<&Dfa> for DfaEvaluator::from
@sig
    requires value.core(),
    ensures r.ok(), r.dfa == value, r.st() == Some(value.initial_state),
@acc 1 HMap<&Str, usize>
@loop 1 inv
    it1_seq == value.alphabet@,
    forall|c: Seq<char>| #[trigger] acc1@.contains_key(c) <==> exists|i: int| 0 <= i < it1.pos() && (#[trigger] value.alphabet@[i])@ == c,
    forall|c: Seq<char>| #[trigger] acc1@.contains_key(c) ==> acc1@[c] < it1.pos() && value.alphabet@[acc1@[c] as int]@ == c,

@fn dandy/src/dfa/eval.rs DfaEvaluator::current_state
@sig
    requires self.ok(),
    ensures match self.st() { Some(q) => r == Some(&self.dfa.states@[q as int]), None => r is None },

@fn dandy/src/dfa/eval.rs DfaEvaluator::is_accepting
@sig
    requires self.ok(),
    ensures r == (match self.st() { Some(q) => self.dfa.acc(q), None => false }),

@fn dandy/src/dfa/eval.rs DfaEvaluator::current_state_idx
@sig
    ensures r == self.current_state,

@fn dandy/src/dfa/eval.rs DfaEvaluator::step
@sig
    requires old(self).ok(),
    ensures final(self).ok(), final(self).dfa == old(self).dfa,
        final(self).st() == (match old(self).st() { Some(q) => dstep(old(self).dfa, q, elem@), None => None }),
        match final(self).st() { Some(q) => r == Some(&old(self).dfa.states@[q as int]), None => r is None },
@start
    proof { if self.rev_map@.contains_key(elem@) { lemma_rev_idx(self.rev_map@, self.dfa.alphabet@, elem@); } }

@fn dandy/src/dfa/eval.rs DfaEvaluator::step_multiple
@sig
    requires old(self).ok(),
    ensures final(self).ok(), final(self).dfa == old(self).dfa,
        final(self).st() == drun_opt(old(self).dfa, old(self).st(), skeys(elems@)),
        match final(self).st() { Some(q) => r == Some(&old(self).dfa.states@[q as int]), None => r is None },
@acc 1 Option<()>
@loop 1 pre
    proof { assert(skeys(elems@.take(0)) =~= Seq::empty()); }
@loop 1 inv
    it1_seq == elems@, self.ok(), self.dfa == old(self).dfa,
    t1 is Some ==> self.st() == drun_opt(old(self).dfa, old(self).st(), skeys(elems@.take(it1.pos()))) && (it1.pos() > 0 ==> self.st() is Some),
    t1 is None ==> drun_opt(old(self).dfa, old(self).st(), skeys(elems@.take(it1.pos()))) is None,
@loop 1 end
    proof {
        let w0 = skeys(elems@.take(it1.pos() - 1));
        let w1 = skeys(elems@.take(it1.pos()));
        assert(w1.drop_last() =~= w0);
        assert(w1.last() == x1@);
    }
@loop 1 post
    proof {
        lemma_drun_prefix_none(old(self).dfa, old(self).st(), skeys(elems@), it1.pos());
        assert(skeys(elems@).take(it1.pos()) =~= skeys(elems@.take(it1.pos())));
        assert(elems@.take(it1.pos()) =~= elems@ || t1 is None);
    }
@raw
pub proof fn lemma_drun_prefix_none(d: &Dfa, q: Option<usize>, w: Word, n: int)
    requires 0 <= n <= w.len(),
    ensures drun_opt(d, q, w.take(n)) is None ==> drun_opt(d, q, w) is None,
    decreases w.len() - n,
{
    if n < w.len() {
        assert(w.take(n + 1).drop_last() =~= w.take(n));
        lemma_drun_prefix_none(d, q, w, n + 1);
    } else {
        assert(w.take(n) =~= w);
    }
}

@fn dandy/src/dfa/eval.rs DfaEvaluator::step_all
@sig
    requires self.ok(),
    ensures r@.len() == self.dfa.alphabet@.len(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).ok() && r@[i].dfa == self.dfa
            && r@[i].st() == (match self.st() { Some(q) => dstep(self.dfa, q, self.dfa.alphabet@[i]@), None => None }),
@acc 1 Vec<DfaEvaluator<'a>>
@loop 1 inv
    it1_seq == self.dfa.alphabet@, acc1@.len() == it1.pos(),
    forall|i: int| 0 <= i < acc1@.len() ==> (#[trigger] acc1@[i]).ok() && acc1@[i].dfa == self.dfa
            && acc1@[i].st() == (match self.st() { Some(q) => dstep(self.dfa, q, self.dfa.alphabet@[i]@), None => None }),

@fn dandy/src/dfa/mod.rs Dfa::evaluator
@sig
    requires self.core(),
    ensures r.ok(), r.dfa == self, r.st() == Some(self.initial_state),

@fn dandy/src/dfa/mod.rs Dfa::accepts
@sig
    requires self.core(),
    ensures r == daccepts(self, skeys(string@)),

@fn dandy/src/dfa/mod.rs Dfa::accepts_graphemes
@sig
    requires self.core(),
    ensures r == daccepts(self, graphemes(string@)),
@acc 1 Vec<&Str>
@loop 1 inv
    acc1@ == it1_seq.take(it1.pos()), skeys(it1_seq) == graphemes(string@),
@loop 1 end
    proof { assert(acc1@ =~= it1_seq.take(it1.pos())); }
@loop 1 post
    proof { assert(it1_seq.take(it1.pos()) =~= it1_seq); }

@fn dandy/src/dfa/mod.rs Dfa::graphemes_only
@sig
    ensures r == forall|i: int| 0 <= i < self.alphabet@.len() ==> graphemes((#[trigger] self.alphabet@[i])@).len() == 1,
@loop 1 inv
    it1_seq == self.alphabet@,
    r1 ==> forall|i: int| 0 <= i < it1.pos() ==> graphemes((#[trigger] self.alphabet@[i])@).len() == 1,
    !r1 ==> exists|i: int| 0 <= i < it1.pos() && graphemes((#[trigger] self.alphabet@[i])@).len() != 1,
@loop 2 inv
    skeys(it2_seq) == graphemes(self.alphabet@[it1.pos() - 1]@), r2 == it2.pos(), it2_seq.len() <= isize::MAX,
