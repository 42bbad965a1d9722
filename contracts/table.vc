@raw
// ------------------------------------------------------------------ joined texts
pub proof fn lemma_joined_left(s: Seq<Text>, sep: Text)
    requires s.len() > 1,
    ensures joined(s, sep) == s[0] + sep + joined(s.skip(1), sep),
    decreases s.len(),
{
    let d = s.drop_last();
    let t = s.skip(1);
    if s.len() == 2 {
        assert(joined(d, sep) == d[0]);
        assert(joined(t, sep) == t[0]);
    } else {
        lemma_joined_left(d, sep);
        assert(d.skip(1) =~= t.drop_last());
        assert(joined(t, sep) == joined(t.drop_last(), sep) + sep + t.last());
        assert(joined(s, sep) =~= s[0] + sep + joined(t, sep));
    }
}
// a cell followed by at least one blank
pub open spec fn padded(t: Text, c: Text) -> bool { exists|k: nat| k > 0 && t == #[trigger] (c + sp(k)) }
pub open spec fn all_padded(t: Seq<Text>, c: Seq<Text>) -> bool { t.len() == c.len() && forall|i: int| 0 <= i < c.len() ==> padded(#[trigger] t[i], c[i]) }
// a row of cells, each followed by at least one blank
pub open spec fn pads_for(c: Seq<Text>, p: Seq<nat>) -> bool { p.len() == c.len() && forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]) > 0 }
pub open spec fn row_text(t: Text, c: Seq<Text>) -> bool { exists|p: Seq<nat>| pads_for(c, p) && t == #[trigger] rtext(c, p, 0) }
pub open spec fn all_rows(t: Seq<Text>, rows: Seq<Seq<Text>>) -> bool { t.len() == rows.len() && forall|i: int| 0 <= i < rows.len() ==> row_text(#[trigger] t[i], rows[i]) }
// the text of a table
pub open spec fn table_text(t: Text, rows: Seq<Seq<Text>>) -> bool { exists|l: Seq<Text>| all_rows(l, rows) && t == #[trigger] doc(l, 0) }

pub proof fn lemma_concat(t: Seq<Text>, c: Seq<Text>, p: Seq<nat>, i: int)
    requires t.len() == c.len(), p.len() == c.len(), forall|j: int| 0 <= j < c.len() ==> #[trigger] t[j] == c[j] + sp(p[j]), 0 <= i <= c.len(),
    ensures joined(t.skip(i), Seq::<char>::empty()) == rtext(c, p, i),
    decreases c.len() - i,
{
    let e = Seq::<char>::empty();
    if i < c.len() {
        let s = t.skip(i);
        lemma_concat(t, c, p, i + 1);
        assert(s[0] == t[i]);
        assert(s.skip(1) =~= t.skip(i + 1));
        if s.len() > 1 { lemma_joined_left(s, e); } else { assert(joined(t.skip(i + 1), e) =~= e); }
        assert(joined(s, e) =~= s[0] + joined(s.skip(1), e));
        assert(joined(s, e) =~= c[i] + (sp(p[i]) + rtext(c, p, i + 1)));
    } else {
        assert(t.skip(i) =~= Seq::<Text>::empty());
    }
}
pub proof fn lemma_row_text(t: Seq<Text>, c: Seq<Text>)
    requires all_padded(t, c),
    ensures row_text(joined(t, Seq::<char>::empty()), c),
{
    let p = Seq::new(c.len(), |i: int| choose|k: nat| k > 0 && t[i] == #[trigger] (c[i] + sp(k)));
    assert forall|j: int| 0 <= j < c.len() implies (#[trigger] p[j]) > 0 && t[j] == c[j] + sp(p[j]) by { assert(padded(t[j], c[j])); }
    lemma_concat(t, c, p, 0);
    assert(t.skip(0) =~= t);
    assert(pads_for(c, p));
}
pub proof fn lemma_doc(l: Seq<Text>, i: int)
    requires 0 <= i <= l.len(),
    ensures joined(l.skip(i), seq!['\n']) == doc(l, i),
    decreases l.len() - i,
{
    let s = l.skip(i);
    if i < l.len() {
        assert(s[0] == l[i]);
        if s.len() > 1 {
            lemma_doc(l, i + 1);
            lemma_joined_left(s, seq!['\n']);
            assert(s.skip(1) =~= l.skip(i + 1));
            assert(doc(l, i) =~= joined(s, seq!['\n']));
        }
    } else {
        assert(s =~= Seq::<Text>::empty());
    }
}
pub proof fn lemma_table_text(l: Seq<Text>, rows: Seq<Seq<Text>>)
    requires all_rows(l, rows),
    ensures table_text(joined(l, seq!['\n']), rows),
{
    lemma_doc(l, 0);
    assert(l.skip(0) =~= l);
}
pub proof fn lemma_set_text_from(c: Seq<Text>, i: int)
    requires 0 <= i <= c.len(),
    ensures joined(c.skip(i), seq![' ']) == rtext(c, set_pads(c.len()), i),
    decreases c.len() - i,
{
    let s = c.skip(i);
    let p = set_pads(c.len());
    if i < c.len() {
        assert(s[0] == c[i]);
        lemma_set_text_from(c, i + 1);
        if s.len() > 1 {
            lemma_joined_left(s, seq![' ']);
            assert(s.skip(1) =~= c.skip(i + 1));
            assert(sp(p[i]) =~= seq![' ']);
            assert(rtext(c, p, i) =~= joined(s, seq![' ']));
        } else {
            assert(rtext(c, p, i) =~= c[i]);
        }
    } else {
        assert(s =~= Seq::<Text>::empty());
    }
}
pub proof fn lemma_set_text(c: Seq<Text>)
    ensures set_text(c) == seq!['{'] + joined(c, seq![' ']) + seq!['}'],
{
    lemma_set_text_from(c, 0);
    assert(c.skip(0) =~= c);
    assert(set_text(c) =~= seq!['{'] + joined(c, seq![' ']) + seq!['}']);
}
pub proof fn lemma_tlits()
    ensures ""@ == Seq::<char>::empty(), " "@ == seq![' '], "\n"@ == seq!['\n'], "{"@ == seq!['{'], "}"@ == seq!['}'], "*"@ == seq!['*'],
{
    reveal_strlit(""); reveal_strlit(" "); reveal_strlit("\n"); reveal_strlit("{"); reveal_strlit("}"); reveal_strlit("*");
    assert(""@ =~= Seq::<char>::empty()); assert(" "@ =~= seq![' ']); assert("\n"@ =~= seq!['\n']); assert("{"@ =~= seq!['{']); assert("}"@ =~= seq!['}']); assert("*"@ =~= seq!['*']);
}
pub open spec fn tcells(v: Seq<&Str>) -> Seq<Text> { v.map_values(|s: &Str| s@) }
pub proof fn lemma_tcells()
    ensures forall|v: Seq<&Str>, x: &Str| #[trigger] tcells(v.push(x)) == tcells(v).push(x@), forall|v: Seq<Str>, x: Str| #[trigger] scells(v.push(x)) == scells(v).push(x@),
{
    assert forall|v: Seq<Str>, x: Str| #[trigger] scells(v.push(x)) == scells(v).push(x@) by { assert(scells(v.push(x)) =~= scells(v).push(x@)); }
    assert forall|v: Seq<&Str>, x: &Str| #[trigger] tcells(v.push(x)) == tcells(v).push(x@) by { assert(tcells(v.push(x)) =~= tcells(v).push(x@)); }
}
pub open spec fn scells(v: Seq<Str>) -> Seq<Text> { v.map_values(|s: Str| s@) }
pub open spec fn max_s(a: usize, b: usize) -> usize { if a >= b { a } else { b } }
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == max_s(a, b) { if a >= b { a } else { b } }
// a blank, repeated
pub trait StrRepeat: Sized { spec fn srv(&self) -> Text; fn repeat_(&self, n: usize) -> (r: Str) ensures self.srv() == seq![' '] ==> r@ == sp(n as nat); }
impl StrRepeat for Str { open spec fn srv(&self) -> Text { self@ }
    #[verifier::external_body]
    fn repeat_(&self, n: usize) -> (r: Str) { unimplemented!() } }
impl<'a> Table<'a> {
    // #[derive(Default)]
    #[verifier::external_body]
    pub fn default() -> (r: Table<'a>) ensures r.row_len@.len() == 0, r.rows@.len() == 0 { unimplemented!() }
    pub open spec fn cells(&self) -> Seq<Seq<Text>> { Seq::new(self.rows@.len(), |i: int| tcells(self.rows@[i]@)) }
    pub open spec fn wide(&self) -> bool { forall|i: int| 0 <= i < self.rows@.len() ==> (#[trigger] self.rows@[i])@.len() <= self.row_len@.len() }
}

@type dandy/src/table/mod.rs Table
@fn dandy/src/table/mod.rs Table::push_row
    requires old(self).wide(),
    ensures final(self).wide(), final(self).row_len@.len() >= row@.len(), final(self).row_len@.len() >= old(self).row_len@.len(), final(self).rows@ == old(self).rows@.push(row), final(self).cells() == old(self).cells().push(tcells(row@)),
@loop 1 inv
    self.rows@ == old(self).rows@, self.row_len@.len() >= row@.len(), self.row_len@.len() >= old(self).row_len@.len(),
@loop 2 inv
    r2 == it2.pos(), self.rows@ == old(self).rows@, it2.seq().len() <= isize::MAX,
@end
    assert(self.cells() =~= old(self).cells().push(tcells(row@)));

@fn dandy/src/table/mod.rs Table::to_string
@fmt
    requires self.wide(), self.row_len@.len() > 0, sep@ == seq![' '],
    ensures table_text(r@, self.cells()),
@start
    proof { lemma_tlits(); }
@closure 1 $%1: &Str, $%2: usize| -> (r: Str)
    ensures exists|k: nat| r@ == #[trigger] ($%1@ + sp(k))
@loop 1 post
    proof { assert(s@ + sp(0) =~= s@); assert forall|k: nat| #[trigger] sp(k) == sp(k) && (Seq::<char>::empty() + s@) + sp(k) == s@ + sp(k) by { assert((Seq::<char>::empty() + s@) + sp(k) =~= s@ + sp(k)); } }
@loop 1 inv
    r1 == it1.pos(), it1.seq().len() <= isize::MAX,
@acc 2 Vec<Str>
@acc 3 Vec<Str>
@loop 2 inv
    acc2@.len() == it2.pos(), it2_seq == self.rows@,
    forall|i: int| 0 <= i < acc2@.len() ==> row_text(#[trigger] acc2@[i]@, self.cells()[i]),
@loop 4 inv
    zv3@.len() == it4.pos(), it4.pos() <= take4, it4_seq == self.row_len@,
@loop 5 inv
    zv3@.len() == take4 + it5.pos(), it5_seq.len() == 1,
@loop 3 inv
    acc3@.len() == it3.pos(), zt3_seq.len() == self.row_len@.len(), it3_seq == row@, row@.len() <= self.row_len@.len(),
    forall|i: int| 0 <= i < acc3@.len() ==> padded(#[trigger] acc3@[i]@, row@[i]@),
@loop 3 end
    proof {
        let t = acc3@.last()@; let c = row@[acc3@.len() - 1]@;
        assert(exists|k: nat| t == (Seq::<char>::empty() + #[trigger] (c + sp(k))) + sep@);
        let k = choose|k: nat| t == (Seq::<char>::empty() + #[trigger] (c + sp(k))) + sep@;
        assert(t =~= c + sp(k + 1));
        assert(padded(t, c));
    }
@loop 3 post
    proof {
        let t = scells(acc3@); let c = tcells(row@);
        assert forall|i: int| 0 <= i < c.len() implies padded(#[trigger] t[i], c[i]) by { assert(padded(acc3@[i]@, row@[i]@)); }
        lemma_row_text(t, c);
        assert(acc3.vjt() =~= t);
        assert(self.cells()[it2.pos() - 1] == c);
    }
@loop 2 post
    proof {
        let t = scells(acc2@);
        assert forall|i: int| 0 <= i < t.len() implies row_text(#[trigger] t[i], self.cells()[i]) by { assert(row_text(acc2@[i]@, self.cells()[i])); }
        lemma_table_text(t, self.cells());
        assert(acc2.vjt() =~= t);
    }

@raw
// the rows of the table of an automaton
pub open spec fn targets(d: &Dfa, q: int, n: int) -> Seq<Text> { Seq::new(n as nat, |i: int| d.states@[d.states@[q].transitions@[i] as int].name@) }
pub open spec fn three() -> Seq<Text> { seq![Seq::<char>::empty(), Seq::<char>::empty(), Seq::<char>::empty()] }
pub open spec fn dfa_row(d: &Dfa, arrow: Text, q: int) -> Seq<Text> { state_cells(arrow, d.states@[q].initial, d.states@[q].accepting, d.states@[q].name@, targets(d, q, d.states@[q].transitions@.len() as int)) }
pub open spec fn dfa_rows(d: &Dfa, arrow: Text, k: int) -> Seq<Seq<Text>> { seq![three() + scells(d.alphabet@)] + Seq::new(k as nat, |q: int| dfa_row(d, arrow, q)) }
pub open spec fn dfa_rows_done(d: &Dfa, arrow: Text, rows: Seq<Seq<Text>>, k: int) -> bool { rows == dfa_rows(d, arrow, k) }
pub proof fn lemma_dfa_rows_step(d: &Dfa, arrow: Text, rows: Seq<Seq<Text>>, k: int)
    requires dfa_rows_done(d, arrow, rows, k - 1), k > 0,
    ensures dfa_rows_done(d, arrow, rows.push(dfa_row(d, arrow, k - 1)), k),
{
    assert(dfa_rows(d, arrow, k) =~= rows.push(dfa_row(d, arrow, k - 1)));
}

@fn dandy/src/dfa/mod.rs Dfa::gen_table
    requires self.wf(),
    ensures table_text(r@, dfa_rows(self, arrow@, self.states@.len() as int)),
@start
    proof { lemma_tlits(); lemma_tcells(); }
    let ghost mut rows0: Seq<Seq<Text>> = Seq::empty();
    let ghost mut qq: int = 0;
@loop 1 inv
    alph@.len() == 3 + it1.pos(), tcells(alph@) == three() + scells(self.alphabet@.take(it1.pos())), it1_seq == self.alphabet@,
@loop 1 pre
    proof { assert(tcells(alph@) =~= three() + scells(self.alphabet@.take(0))); }
@loop 1 end
    proof { assert(scells(self.alphabet@.take(it1.pos())) =~= scells(self.alphabet@.take(it1.pos() - 1)).push(self.alphabet@[it1.pos() - 1]@)); assert(tcells(alph@) =~= three() + scells(self.alphabet@.take(it1.pos()))); }
@loop 1 post
    proof { assert(self.alphabet@.take(it1.pos()) =~= self.alphabet@); }
@loop 2 pre
    proof { assert(dfa_rows_done(self, arrow@, table.cells(), 0)) by { assert(table.cells() =~= dfa_rows(self, arrow@, 0)); } }
@loop 2 inv
    table.wide(), table.row_len@.len() > 0, it2_seq == self.states@, dfa_rows_done(self, arrow@, table.cells(), it2.pos()),
@loop 2 end
    proof { lemma_dfa_rows_step(self, arrow@, rows0, it2.pos()); }
@loop 3 pre
    proof { rows0 = table.cells(); qq = it2.pos() - 1; }
@loop 3 inv
    it3_seq == transitions@, tcells(state@) == state_cells(arrow@, self.states@[qq].initial, self.states@[qq].accepting, self.states@[qq].name@, targets(self, qq, it3.pos())),
@loop 3 end
    proof { assert(targets(self, qq, it3.pos()) =~= targets(self, qq, it3.pos() - 1).push(self.states@[self.states@[qq].transitions@[it3.pos() - 1] as int].name@)); assert(tcells(state@) =~= state_cells(arrow@, self.states@[qq].initial, self.states@[qq].accepting, self.states@[qq].name@, targets(self, qq, it3.pos()))); }
@loop 3 post
    proof { assert(tcells(state@) == dfa_row(self, arrow@, qq)); }

@raw
pub open spec fn names_of(n: &Nfa, t: Seq<usize>) -> Seq<Text> { Seq::new(t.len(), |i: int| n.states@[t[i] as int].name@) }
pub open spec fn names_part(n: &Nfa, t: Seq<usize>, k: int) -> Seq<Text> { Seq::new(k as nat, |i: int| n.states@[t[i] as int].name@) }
pub open spec fn set_cell(n: &Nfa, t: Seq<usize>) -> Text { set_text(names_of(n, t)) }
pub open spec fn nfa_cells(n: &Nfa, q: int, k: int) -> Seq<Text> { seq![set_cell(n, n.states@[q].epsilon_transitions@)] + Seq::new(k as nat, |i: int| set_cell(n, n.states@[q].transitions@[i]@)) }
pub open spec fn nfa_width(n: &Nfa, q: int) -> int { n.states@[q].transitions@.len() as int }
pub open spec fn nfa_row(n: &Nfa, arrow: Text, q: int) -> Seq<Text> { state_cells(arrow, n.states@[q].initial, n.states@[q].accepting, n.states@[q].name@, nfa_cells(n, q, nfa_width(n, q))) }
pub open spec fn nfa_head(n: &Nfa, eps: Text, k: int) -> Seq<Text> { three() + (seq![eps] + scells(n.alphabet@.take(k))) }
pub open spec fn nfa_rows(n: &Nfa, eps: Text, arrow: Text, k: int) -> Seq<Seq<Text>> { seq![nfa_head(n, eps, n.alphabet@.len() as int)] + Seq::new(k as nat, |q: int| nfa_row(n, arrow, q)) }
pub open spec fn nfa_rows_done(n: &Nfa, eps: Text, arrow: Text, rows: Seq<Seq<Text>>, k: int) -> bool { rows == nfa_rows(n, eps, arrow, k) }
pub proof fn lemma_nfa_rows_step(n: &Nfa, eps: Text, arrow: Text, rows: Seq<Seq<Text>>, k: int)
    requires nfa_rows_done(n, eps, arrow, rows, k - 1), k > 0,
    ensures nfa_rows_done(n, eps, arrow, rows.push(nfa_row(n, arrow, k - 1)), k),
{
    assert(nfa_rows(n, eps, arrow, k) =~= rows.push(nfa_row(n, arrow, k - 1)));
}
// the text of a set of states: between braces
pub proof fn lemma_set_cell(n: &Nfa, t: Seq<usize>, names: Seq<Str>, z: Seq<Text>)
    requires scells(names) == names_part(n, t, t.len() as int), z == scells(names),
    ensures forall|e: Text| e.len() == 0 ==> #[trigger] (e + seq!['{']) + joined(z, seq![' ']) + seq!['}'] == set_cell(n, t),
{
    let c = names_of(n, t);
    assert(scells(names) =~= c);
    lemma_set_text(c);
    assert forall|e: Text| e.len() == 0 implies #[trigger] (e + seq!['{']) + joined(z, seq![' ']) + seq!['}'] == set_cell(n, t) by { assert(e + seq!['{'] =~= seq!['{']); }
}
pub open spec fn cells_are(a: Seq<Str>, c: Seq<Text>) -> bool { scells(a) == c }
pub proof fn lemma_cells_push(a: Seq<Str>, c: Seq<Text>, x: Str)
    requires cells_are(a, c),
    ensures cells_are(a.push(x), c.push(x@)),
{
    assert(scells(a.push(x)) =~= c.push(x@));
}
@fn dandy/src/nfa/mod.rs Nfa::gen_table
@fmt
    requires self.wf(),
    ensures table_text(r@, nfa_rows(self, eps@, arrow@, self.states@.len() as int)),
@start
    proof { lemma_tlits(); lemma_tcells(); }
    let ghost mut rows0: Seq<Seq<Text>> = Seq::empty();
    let ghost mut qq: int = 0;
@acc 2 Vec<Vec<Str>>
@acc 3 Vec<Str>
@acc 4 Vec<Str>
@acc 6 Vec<Str>
@loop 1 inv
    tcells(alph@) == nfa_head(self, eps@, it1.pos()), it1_seq == self.alphabet@,
@loop 1 pre
    proof { assert(tcells(alph@) =~= nfa_head(self, eps@, 0)); }
@loop 1 end
    proof { assert(scells(self.alphabet@.take(it1.pos())) =~= scells(self.alphabet@.take(it1.pos() - 1)).push(self.alphabet@[it1.pos() - 1]@)); assert(tcells(alph@) =~= nfa_head(self, eps@, it1.pos())); }
@loop 2 inv
    acc2@.len() == it2.pos(), it2_seq == self.states@,
    forall|q: int| 0 <= q < acc2@.len() ==> scells((#[trigger] acc2@[q])@) == nfa_cells(self, q, nfa_width(self, q)),
@loop 3 inv
    it3_seq.len() == 1, *it3_seq[0] == state.epsilon_transitions, it3.pos() == 0 ==> acc3@.len() == 0, it3.pos() == 1 ==> scells(acc3@) == nfa_cells(self, it2.pos() - 1, 0),
@loop 3 end
    proof { assert(scells(acc3@) =~= nfa_cells(self, it2.pos() - 1, 0)); }
@loop 4 inv
    it4_seq == x3@, scells(acc4@) == names_part(self, x3@, it4.pos()),
@loop 4 pre
    proof { assert(scells(acc4@) =~= names_part(self, x3@, 0)); }
@loop 4 end
    proof { assert(names_part(self, x3@, it4.pos()) =~= names_part(self, x3@, it4.pos() - 1).push(self.states@[x3@[it4.pos() - 1] as int].name@)); assert(scells(acc4@) =~= names_part(self, x3@, it4.pos())); }
@loop 4 post
    proof { lemma_set_cell(self, x3@, acc4@, acc4.vjt()); }
@loop 5 inv
    it5_seq == state.transitions@, scells(acc3@) == nfa_cells(self, it2.pos() - 1, it5.pos()),
@loop 5 end
    proof { assert(nfa_cells(self, it2.pos() - 1, it5.pos()) =~= nfa_cells(self, it2.pos() - 1, it5.pos() - 1).push(set_cell(self, x5@))); assert(acc3@.last()@ == set_cell(self, x5@)); }
@loop 6 inv
    it6_seq == x5@, scells(acc6@) == names_part(self, x5@, it6.pos()),
@loop 6 pre
    proof { assert(scells(acc6@) =~= names_part(self, x5@, 0)); }
@loop 6 end
    proof { assert(names_part(self, x5@, it6.pos()) =~= names_part(self, x5@, it6.pos() - 1).push(self.states@[x5@[it6.pos() - 1] as int].name@)); assert(scells(acc6@) =~= names_part(self, x5@, it6.pos())); }
@loop 6 post
    proof { lemma_set_cell(self, x5@, acc6@, acc6.vjt()); }
@loop 7 pre
    proof { assert(table.cells() =~= nfa_rows(self, eps@, arrow@, 0)) by { assert(self.alphabet@.take(self.alphabet@.len() as int) =~= self.alphabet@); } }
@loop 7 inv
    table.wide(), table.row_len@.len() > 0, it7_seq == self.states@, nfa_rows_done(self, eps@, arrow@, table.cells(), it7.pos()), trans_strings@.len() == self.states@.len(),
@loop 7 end
    proof { lemma_nfa_rows_step(self, eps@, arrow@, rows0, it7.pos()); }
@loop 8 pre
    proof { rows0 = table.cells(); qq = it7.pos() - 1; }
@loop 8 inv
    it8_seq == trans_strings@[qq]@, tcells(state@) == seq![mark(self.states@[qq].initial, arrow@), mark(self.states@[qq].accepting, seq!['*']), self.states@[qq].name@] + scells(it8_seq.take(it8.pos())),
@loop 8 end
    proof { assert(scells(it8_seq.take(it8.pos())) =~= scells(it8_seq.take(it8.pos() - 1)).push(it8_seq[it8.pos() - 1]@)); assert(tcells(state@) =~= seq![mark(self.states@[qq].initial, arrow@), mark(self.states@[qq].accepting, seq!['*']), self.states@[qq].name@] + scells(it8_seq.take(it8.pos()))); }
@loop 8 post
    proof { assert(it8_seq.take(it8.pos()) =~= it8_seq); assert(tcells(state@) == nfa_row(self, arrow@, qq)); }

@fn dandy/src/dfa/mod.rs Dfa::to_table
    requires self.wf(),
    ensures table_text(r@, dfa_rows(self, "→"@, self.states@.len() as int)),
@fn dandy/src/dfa/mod.rs Dfa::ascii_table
    requires self.wf(),
    ensures table_text(r@, dfa_rows(self, "->"@, self.states@.len() as int)),
@fn dandy/src/nfa/mod.rs Nfa::to_table
    requires self.wf(),
    ensures table_text(r@, nfa_rows(self, "ε"@, "→"@, self.states@.len() as int)),
@fn dandy/src/nfa/mod.rs Nfa::ascii_table
    requires self.wf(),
    ensures table_text(r@, nfa_rows(self, "eps"@, "->"@, self.states@.len() as int)),
