@raw
// ------------------------------------------------------------------ drawing with characters
// the bytes of the first n characters of a text
pub uninterp spec fn boff(s: Seq<char>, n: int) -> int;
pub open spec fn is_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 127 }
pub open spec fn sp(n: int) -> Seq<char> { Seq::new(n as nat, |i: int| ' ') }
// a range of bytes
pub struct Part_ { pub start: usize, pub end: usize }
// the bytes from the i-th up to the j-th character
pub open spec fn part_of(s: Seq<char>, p: Part_, i: int, j: int) -> bool { 0 <= i <= j <= s.len() && p.start == boff(s, i) && p.end == boff(s, j) }
impl Str {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == boff(self@, self@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn char_indices_nth_(&self, n: usize) -> (r: Option<(usize, char)>)
        ensures match r { Some(t) => n < self@.len() && t.0 == boff(self@, n as int) && t.1 == self@[n as int], None => n >= self@.len() } { unimplemented!() }
    // what `unsafe` stands for: the text stays UTF-8 because all of it, and the byte written, is ASCII
    #[verifier::external_body]
    pub fn set_byte_(&mut self, i: usize, b: u8)
        requires is_ascii(old(self)@), i < old(self)@.len(), b <= 127,
        ensures final(self)@ == old(self)@.update(i as int, b as char), is_ascii(final(self)@) { unimplemented!() }
    // panics unless the range lies in the text and at the bounds of characters
    #[verifier::external_body]
    pub fn replace_range_(&mut self, p: Part_, t: &Str)
        requires exists|i: int, j: int| #[trigger] part_of(old(self)@, p, i, j),
        ensures forall|i: int, j: int| #[trigger] part_of(old(self)@, p, i, j) ==> final(self)@ == old(self)@.take(i) + t@ + old(self)@.skip(j) { unimplemented!() }
    // panics when the result has more than isize::MAX bytes
    #[verifier::external_body]
    pub fn repeat_(&self, n: usize) -> (r: Str) requires self@ == seq![' '], n <= isize::MAX ensures r@ == sp(n as int) { unimplemented!() }
}
pub open spec fn omax_(a: Option<usize>, b: usize) -> usize { match a { Some(x) => if b >= x { b } else { x }, None => b } }
pub fn opt_max_(a: Option<usize>, b: usize) -> (r: Option<usize>) ensures r == Some(omax_(a, b)) { match a { Some(x) => if b >= x { Some(b) } else { Some(x) }, None => Some(b) } }
// a state to draw: its name, and whether it accepts
pub type Nm = (Seq<char>, bool);
pub open spec fn widest(s: Seq<Nm>, k: int) -> int decreases k { if k <= 0 { 0 } else { let m = widest(s, k - 1); let l = s[k - 1].0.len() as int; if l > m { l } else { m } } }
pub open spec fn pad_(t: Seq<char>, w: int) -> Seq<char> { if t.len() < w { t + sp(w - t.len()) } else { t } }
pub open spec fn cell(m: Nm, w: int) -> Seq<char> { if m.1 { "(( "@ + pad_(m.0, w) + " )) "@ } else { "(  "@ + pad_(m.0, w) + "  ) "@ } }
pub open spec fn cells(s: Seq<Nm>, w: int, k: int) -> Seq<char> decreases k { if k <= 0 { "-> "@ } else { cells(s, w, k - 1) + cell(s[k - 1], w) } }
// where the cell of a state begins, apart from the five characters at its left
pub open spec fn col(w: int, i: int) -> int { (7 + w) * i }
pub proof fn lemma_cols(w: int, n: int)
    requires 0 <= w,
    ensures col(w, 0) == 0, forall|i: int, j: int| 0 <= i < j <= n ==> #[trigger] col(w, i) + 7 + w <= #[trigger] col(w, j), forall|i: int| 0 <= i ==> 0 <= #[trigger] col(w, i),
{
    assert forall|i: int, j: int| 0 <= i < j <= n implies #[trigger] col(w, i) + 7 + w <= #[trigger] col(w, j) by {
        assert((7 + w) * (i + 1) <= (7 + w) * j) by (nonlinear_arith) requires i + 1 <= j, 0 <= w;
        assert((7 + w) * (i + 1) == (7 + w) * i + (7 + w)) by (nonlinear_arith);
    }
    assert forall|i: int| 0 <= i implies 0 <= #[trigger] col(w, i) by { assert((7 + w) * i >= 0) by (nonlinear_arith) requires 0 <= i, 0 <= w; }
}
// the picture of n states is this wide
pub open spec fn wide(w: int, n: int) -> int { 5 + w + col(w, n) }
pub open spec fn fits(s: Seq<Nm>) -> bool { s.len() > 0 && wide(widest(s, s.len() as int), s.len() as int) + 1 <= isize::MAX }
// the columns of an arrow
pub open spec fn lo_(w: int, g: GroupedArrow) -> int { if g.left == g.right { 5 + col(w, g.left as int) } else { 6 + w + col(w, g.left as int) } }
pub open spec fn hi_(w: int, g: GroupedArrow) -> int { if g.left == g.right { 6 + w + col(w, g.right as int) } else { 5 + col(w, g.right as int) } }
pub open spec fn head_(w: int, g: GroupedArrow) -> int {
    match g.direction { Direction::Left => 4 + col(w, g.right as int), Direction::Right => 8 + w + col(w, g.left as int), Direction::Spot => 6 + col(w, g.left as int) }
}
pub open spec fn mark_(w: int, g: GroupedArrow, x: int) -> char { if x != head_(w, g) { '-' } else if g.direction == Direction::Left { '<' } else { '>' } }
// its dashes and its head are there
pub open spec fn run_shown(line: Seq<char>, w: int, g: GroupedArrow) -> bool { forall|x: int| lo_(w, g) <= x <= hi_(w, g) ==> 0 <= x < line.len() && #[trigger] line[x] == mark_(w, g, x) }
pub open spec fn label_(g: GroupedArrow) -> Seq<char> { joined(gtexts(g), ", "@) }
// its label begins here
pub open spec fn at_(w: int, g: GroupedArrow) -> int { 7 + w + col(w, g.left as int) }
pub open spec fn labelled(g: GroupedArrow) -> bool { g.left != g.right }
pub open spec fn under<'a>(s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, m: int, x: int) -> bool { labelled(s[m].arrow) && at_(w, s[m].arrow) <= x < at_(w, s[m].arrow) + label_(s[m].arrow).len() }
// another label of the level covers this column
pub open spec fn covered<'a>(s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, k: int, l: int, i: int, x: int) -> bool { exists|m: int| 0 <= m < k && m != i && s[m].level == l && #[trigger] under(s, w, m, x) }
pub open spec fn label_shown<'a>(line: Seq<char>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, k: int, l: int, i: int) -> bool {
    let g = s[i].arrow;
    forall|x: int| #[trigger] under(s, w, i, x) && !covered(s, w, k, l, i, x) ==> 0 <= x < line.len() && line[x] == label_(g)[x - at_(w, g)]
}
pub open spec fn arrow_ok(g: GroupedArrow, n: int) -> bool { g.left <= g.right < n && (g.left == g.right <==> g.direction == Direction::Spot) }
pub open spec fn arrows_ok<'a>(s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> arrow_ok((#[trigger] s[i]).arrow, n) }
// no other dashes or heads
pub open spec fn in_run<'a>(s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, k: int, l: int, x: int) -> bool { exists|i: int| 0 <= i < k && s[i].level == l && lo_(w, (#[trigger] s[i]).arrow) <= x <= hi_(w, s[i].arrow) }
pub open spec fn top_ok<'a>(line: Seq<char>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, k: int, l: int) -> bool {
    &&& forall|i: int| 0 <= i < k && (#[trigger] s[i]).level == l ==> run_shown(line, w, s[i].arrow)
    &&& forall|x: int| 0 <= x < line.len() && (#[trigger] line[x]) != ' ' && line[x] != '|' ==> in_run(s, w, k, l, x)
}
pub open spec fn bot_ok<'a>(line: Seq<char>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, k: int, l: int) -> bool { forall|i: int| 0 <= i < k && (#[trigger] s[i]).level == l ==> label_shown(line, s, w, k, l, i) }
// the columns at which an arrow ends
pub open spec fn ends_at(w: int, g: GroupedArrow, x: int) -> bool { x == 6 + w + col(w, g.left as int) || x == 5 + col(w, g.right as int) }
pub open spec fn under_any<'a>(s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, k: int, l: int, x: int) -> bool { exists|m: int| 0 <= m < k && s[m].level == l && #[trigger] under(s, w, m, x) }
// columns with a line down, which arrows and labels may cross
pub open spec fn down_top<'a>(line: Seq<char>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, k: int, l: int, b: Set<usize>) -> bool { forall|x: usize| #[trigger] b.contains(x) ==> x < line.len() && (line[x as int] == '|' || in_run(s, w, k, l, x as int)) }
pub open spec fn down_bot<'a>(line: Seq<char>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, k: int, l: int, b: Set<usize>) -> bool { forall|x: usize| #[trigger] b.contains(x) ==> x < line.len() && (line[x as int] == '|' || under_any(s, w, k, l, x as int)) }
// the arrows above level l, and the first k on it, end in columns of b
pub open spec fn ends_in<'a>(s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, k: int, l: int, b: Set<usize>) -> bool {
    forall|i: int, x: usize| 0 <= i < s.len() && ((#[trigger] s[i]).level > l || (s[i].level == l && i < k)) && #[trigger] ends_at(w, s[i].arrow, x as int) ==> b.contains(x)
}
// lines lead down from the ends of all arrows
pub open spec fn downs_ok<'a>(top: Seq<char>, bot: Seq<char>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, l: int) -> bool {
    let k = s.len() as int;
    &&& forall|i: int, x: int| 0 <= i < k && (#[trigger] s[i]).level > l && #[trigger] ends_at(w, s[i].arrow, x) ==> 0 <= x < top.len() && (top[x] == '|' || in_run(s, w, k, l, x))
    &&& forall|i: int, x: int| 0 <= i < k && (#[trigger] s[i]).level >= l && #[trigger] ends_at(w, s[i].arrow, x) ==> 0 <= x < bot.len() && (bot[x] == '|' || under_any(s, w, k, l, x))
}
pub open spec fn level_ok<'a>(lines: Seq<Seq<char>>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, n: int, l: int) -> bool {
    top_ok(lines[2 * (n - 1 - l)], s, w, s.len() as int, l) && bot_ok(lines[2 * (n - 1 - l) + 1], s, w, s.len() as int, l) && downs_ok(lines[2 * (n - 1 - l)], lines[2 * (n - 1 - l) + 1], s, w, l)
}
pub open spec fn art_ok<'a>(t: Seq<Nm>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, n: int, lines: Seq<Seq<char>>) -> bool {
    let w = widest(t, t.len() as int);
    &&& lines.len() == 2 * n + 1
    &&& lines[2 * n] == cells(t, w, t.len() as int)
    &&& forall|l: int| 0 <= l < n ==> #[trigger] level_ok(lines, s, w, n, l)
}
pub proof fn lemma_col_pos(w: int, n: int) requires 0 <= w, 0 <= n ensures 0 <= col(w, n) { lemma_cols(w, n); }
// the columns of an arrow are in the picture
pub proof fn lemma_arrow_cols(w: int, n: int, g: GroupedArrow)
    requires 0 <= w, arrow_ok(g, n),
    ensures 0 <= col(w, g.left as int) <= col(w, g.right as int), col(w, g.right as int) + 7 + w <= col(w, n), g.left < g.right ==> col(w, g.left as int) + 7 + w <= col(w, g.right as int),
{ lemma_cols(w, n); }
pub proof fn lemma_run_step<'a>(a: Seq<char>, b: Seq<char>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, k: int, l: int, n: int)
    requires top_ok(a, s, w, k, l), 0 <= k < s.len(), no_overlap(s), arrows_ok(s, n), 0 <= w, a.len() == b.len() == wide(w, n), s[k].level == l,
        forall|x: int| 0 <= x < a.len() ==> #[trigger] b[x] == (if lo_(w, s[k].arrow) <= x <= hi_(w, s[k].arrow) { mark_(w, s[k].arrow, x) } else { a[x] }),
    ensures top_ok(b, s, w, k + 1, l),
{
    lemma_cols(w, n);
    let g = s[k].arrow;
    assert forall|i: int| 0 <= i < k + 1 && (#[trigger] s[i]).level == l implies run_shown(b, w, s[i].arrow) by {
        let h = s[i].arrow;
        assert forall|x: int| lo_(w, h) <= x <= hi_(w, h) implies 0 <= x < b.len() && #[trigger] b[x] == mark_(w, h, x) by {
            assert(arrow_ok(g, n) && arrow_ok(h, n));
            if i < k {
                assert(run_shown(a, w, h));
                assert(a[x] == mark_(w, h, x));
                assert(s[k].level == s[i].level);
                if lo_(w, g) <= x <= hi_(w, g) {
                    if end_(h) <= g.left { assert(x == hi_(w, h) && x == lo_(w, g)); } else { assert(end_(g) <= h.left); assert(x == hi_(w, g) && x == lo_(w, h)); }
                    assert(mark_(w, g, x) == '-');
                    assert(mark_(w, h, x) == '-');
                }
            } else { assert(hi_(w, g) < wide(w, n)); }
        }
    }
    assert forall|x: int| 0 <= x < b.len() && (#[trigger] b[x]) != ' ' && b[x] != '|' implies in_run(s, w, k + 1, l, x) by {
        if lo_(w, g) <= x <= hi_(w, g) { assert(lo_(w, s[k].arrow) <= x); } else {
            assert(a[x] == b[x]);
            assert(in_run(s, w, k, l, x));
            let i = choose|i: int| 0 <= i < k && s[i].level == l && lo_(w, (#[trigger] s[i]).arrow) <= x <= hi_(w, s[i].arrow);
            assert(s[i].level == l);
        }
    }
}
pub proof fn lemma_label_step<'a>(a: Seq<char>, b: Seq<char>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, k: int, l: int, n: int)
    requires bot_ok(a, s, w, k, l), 0 <= k < s.len(), arrows_ok(s, n), 0 <= w, a.len() >= wide(w, n), s[k].level == l,
        ({
            let p = at_(w, s[k].arrow); let t = label_(s[k].arrow); let q = if p + t.len() <= a.len() { p + t.len() } else { a.len() as int };
            if labelled(s[k].arrow) { b == a.take(p) + t + a.skip(q) } else { b == a }
        }),
    ensures bot_ok(b, s, w, k + 1, l), b.len() >= a.len(),
{
    lemma_cols(w, n);
    let g = s[k].arrow;
    assert(arrow_ok(g, n));
    if labelled(g) { assert(at_(w, g) <= wide(w, n)); }
    assert forall|i: int| 0 <= i < k + 1 && (#[trigger] s[i]).level == l implies label_shown(b, s, w, k + 1, l, i) by {
        let h = s[i].arrow;
        assert forall|x: int| #[trigger] under(s, w, i, x) && !covered(s, w, k + 1, l, i, x) implies 0 <= x < b.len() && b[x] == label_(h)[x - at_(w, h)] by {
            if i < k {
                assert(label_shown(a, s, w, k, l, i));
                lemma_covered(s, w, k, l, i, x);
                assert(a[x] == label_(h)[x - at_(w, h)]);
                assert(!under(s, w, k, x));
            }
        }
    }
}
pub proof fn lemma_covered<'a>(s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, k: int, l: int, i: int, x: int)
    requires !covered(s, w, k + 1, l, i, x),
    ensures !covered(s, w, k, l, i, x), i != k && k >= 0 && s[k].level == l ==> !under(s, w, k, x),
{
    if covered(s, w, k, l, i, x) { let m = choose|m: int| 0 <= m < k && m != i && s[m].level == l && #[trigger] under(s, w, m, x); assert(under(s, w, m, x)); }
}
pub proof fn lemma_down_run<'a>(a: Seq<char>, b: Seq<char>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, k: int, l: int, d: Set<usize>)
    requires down_top(a, s, w, k, l, d), 0 <= k < s.len(), a.len() == b.len(), s[k].level == l,
        forall|x: int| 0 <= x < a.len() ==> #[trigger] b[x] == (if lo_(w, s[k].arrow) <= x <= hi_(w, s[k].arrow) { mark_(w, s[k].arrow, x) } else { a[x] }),
    ensures down_top(b, s, w, k + 1, l, d),
{
    assert forall|x: usize| #[trigger] d.contains(x) implies x < b.len() && (b[x as int] == '|' || in_run(s, w, k + 1, l, x as int)) by {
        if lo_(w, s[k].arrow) <= x <= hi_(w, s[k].arrow) { assert(s[k].level == l); } else if in_run(s, w, k, l, x as int) {
            let i = choose|i: int| 0 <= i < k && s[i].level == l && lo_(w, (#[trigger] s[i]).arrow) <= x <= hi_(w, s[i].arrow);
            assert(s[i].level == l);
        } else { assert(b[x as int] == a[x as int]); }
    }
}
pub proof fn lemma_down_label<'a>(a: Seq<char>, b: Seq<char>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, k: int, l: int, d: Set<usize>)
    requires down_bot(a, s, w, k, l, d), 0 <= k < s.len(), s[k].level == l, 0 <= at_(w, s[k].arrow) <= a.len(),
        ({
            let p = at_(w, s[k].arrow); let t = label_(s[k].arrow); let q = if p + t.len() <= a.len() { p + t.len() } else { a.len() as int };
            if labelled(s[k].arrow) { b == a.take(p) + t + a.skip(q) } else { b == a }
        }),
    ensures down_bot(b, s, w, k + 1, l, d),
{
    assert forall|x: usize| #[trigger] d.contains(x) implies x < b.len() && (b[x as int] == '|' || under_any(s, w, k + 1, l, x as int)) by {
        if under(s, w, k, x as int) { assert(under_any(s, w, k + 1, l, x as int)); } else if under_any(s, w, k, l, x as int) {
            let m = choose|m: int| 0 <= m < k && s[m].level == l && #[trigger] under(s, w, m, x as int);
            assert(under(s, w, m, x as int));
        } else { assert(b[x as int] == a[x as int]); }
    }
}
pub proof fn lemma_down_none<'a>(a: Seq<char>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, k: int, l: int, d: Set<usize>)
    requires 0 <= k < s.len(), s[k].level != l,
    ensures down_top(a, s, w, k, l, d) ==> down_top(a, s, w, k + 1, l, d), down_bot(a, s, w, k, l, d) ==> down_bot(a, s, w, k + 1, l, d),
{
    assert forall|x: int| in_run(s, w, k, l, x) implies in_run(s, w, k + 1, l, x) by {
        let i = choose|i: int| 0 <= i < k && s[i].level == l && lo_(w, (#[trigger] s[i]).arrow) <= x <= hi_(w, s[i].arrow);
        assert(s[i].level == l);
    }
    assert forall|x: int| under_any(s, w, k, l, x) implies under_any(s, w, k + 1, l, x) by {
        let m = choose|m: int| 0 <= m < k && s[m].level == l && #[trigger] under(s, w, m, x);
        assert(under(s, w, m, x));
    }
}
// two more columns get a line
pub proof fn lemma_down_two<'a>(a: Seq<char>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, l: int, d: Set<usize>, x: usize, y: usize)
    requires down_bot(a, s, w, 0, l, d), x < a.len(), y < a.len(),
    ensures down_bot(a.update(x as int, '|').update(y as int, '|'), s, w, 0, l, d.insert(x).insert(y)),
{
    let b = a.update(x as int, '|').update(y as int, '|');
    assert forall|z: usize| #[trigger] d.insert(x).insert(y).contains(z) implies z < b.len() && (b[z as int] == '|' || under_any(s, w, 0, l, z as int)) by { if z != x && z != y { assert(d.contains(z)); } }
}
pub proof fn lemma_ends_step<'a>(s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, k: int, l: int, d: Set<usize>, x: usize, y: usize)
    requires 0 <= k < s.len(), ends_in(s, w, k, l, d),
    ensures s[k].level == l && x == 6 + w + col(w, s[k].arrow.left as int) && y == 5 + col(w, s[k].arrow.right as int) ==> ends_in(s, w, k + 1, l, d.insert(x).insert(y)), s[k].level != l ==> ends_in(s, w, k + 1, l, d),
{ }
pub proof fn lemma_down_start<'a>(a: Seq<char>, b: Seq<char>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, l: int, d: Set<usize>)
    requires forall|x: usize| #[trigger] d.contains(x) ==> x < a.len() && x < b.len() && a[x as int] == '|' && b[x as int] == '|',
    ensures down_top(a, s, w, 0, l, d), down_bot(b, s, w, 0, l, d),
{ }
pub proof fn lemma_ends_next<'a>(s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, l: int, d: Set<usize>)
    ensures ends_in(s, w, s.len() as int, l, d) ==> ends_in(s, w, 0, l - 1, d), levels_below(s, l) ==> ends_in(s, w, 0, l - 1, d),
{ }
pub proof fn lemma_downs_ok<'a>(a: Seq<char>, b: Seq<char>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, l: int, d: Set<usize>, e: Set<usize>, n: int)
    requires down_top(a, s, w, s.len() as int, l, d), down_bot(b, s, w, s.len() as int, l, e), ends_in(s, w, 0, l, d), ends_in(s, w, s.len() as int, l, e), arrows_ok(s, n), 0 <= w, wide(w, n) <= isize::MAX,
    ensures downs_ok(a, b, s, w, l),
{
    lemma_cols(w, n);
    assert forall|i: int, x: int| 0 <= i < s.len() && (#[trigger] s[i]).level > l && #[trigger] ends_at(w, s[i].arrow, x) implies 0 <= x < a.len() && (a[x] == '|' || in_run(s, w, s.len() as int, l, x)) by {
        assert(arrow_ok(s[i].arrow, n));
        assert(ends_at(w, s[i].arrow, (x as usize) as int));
        assert(d.contains(x as usize));
    }
    assert forall|i: int, x: int| 0 <= i < s.len() && (#[trigger] s[i]).level >= l && #[trigger] ends_at(w, s[i].arrow, x) implies 0 <= x < b.len() && (b[x] == '|' || under_any(s, w, s.len() as int, l, x)) by {
        assert(arrow_ok(s[i].arrow, n));
        assert(ends_at(w, s[i].arrow, (x as usize) as int));
        assert(e.contains(x as usize));
    }
}
pub proof fn lemma_level_start<'a>(a: Seq<char>, b: Seq<char>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, l: int)
    ensures (forall|x: int| 0 <= x < a.len() ==> #[trigger] a[x] == ' ' || a[x] == '|') ==> top_ok(a, s, w, 0, l), bot_ok(b, s, w, 0, l),
{ }
pub proof fn lemma_no_label<'a>(a: Seq<char>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, w: int, k: int, l: int)
    requires 0 <= k < s.len(), s[k].level != l,
    ensures bot_ok(a, s, w, k, l) ==> bot_ok(a, s, w, k + 1, l), top_ok(a, s, w, k, l) ==> top_ok(a, s, w, k + 1, l),
{
    if bot_ok(a, s, w, k, l) {
        assert forall|i: int| 0 <= i < k + 1 && (#[trigger] s[i]).level == l implies label_shown(a, s, w, k + 1, l, i) by {
            let h = s[i].arrow;
            assert(label_shown(a, s, w, k, l, i));
            assert forall|x: int| #[trigger] under(s, w, i, x) && !covered(s, w, k + 1, l, i, x) implies 0 <= x < a.len() && a[x] == label_(h)[x - at_(w, h)] by { lemma_covered(s, w, k, l, i, x); }
        }
    }
    if top_ok(a, s, w, k, l) {
        assert forall|x: int| 0 <= x < a.len() && (#[trigger] a[x]) != ' ' && a[x] != '|' implies in_run(s, w, k + 1, l, x) by {
            assert(in_run(s, w, k, l, x));
            let i = choose|i: int| 0 <= i < k && s[i].level == l && lo_(w, (#[trigger] s[i]).arrow) <= x <= hi_(w, s[i].arrow);
            assert(s[i].level == l);
        }
    }
}
// arrows between states are grouped into arrows between states
pub open spec fn aok(a: Arrow, n: int) -> bool { a.left <= a.right < n && (a.left == a.right <==> a.direction == Direction::Spot) }
pub open spec fn aoks(a: Seq<Arrow>, n: int) -> bool { forall|i: int| 0 <= i < a.len() ==> aok(#[trigger] a[i], n) }
pub open spec fn goks(g: Seq<GroupedArrow>, n: int) -> bool { forall|i: int| 0 <= i < g.len() ==> arrow_ok(#[trigger] g[i], n) }
pub proof fn lemma_goks(a: Seq<Arrow>, g: Seq<GroupedArrow>, n: int)
    requires grouped(a, g), aoks(a, n), n <= isize::MAX,
    ensures goks(g, n), spans_ok(g),
{
    assert forall|i: int| 0 <= i < g.len() implies arrow_ok(#[trigger] g[i], n) by {
        assert(has_key(a, a.len() as int, gkey(g[i])));
        let j = choose|j: int| 0 <= j < a.len() && akey(#[trigger] a[j]) == gkey(g[i]);
        assert(aok(a[j], n));
    }
    assert forall|i: int| 0 <= i < g.len() implies span_ok(#[trigger] g[i]) by { assert(arrow_ok(g[i], n)); }
}
pub proof fn lemma_placed_oks<'a>(g: Seq<GroupedArrow<'a>>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, k: int, n: int)
    requires goks(g, n), placed_ok(g, s, k),
    ensures arrows_ok(s, n), no_overlap(s), levels_below(s, k),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let c = carried(s);
    assert forall|i: int| 0 <= i < s.len() implies arrow_ok((#[trigger] s[i]).arrow, n) by {
        assert(c[i] == s[i].arrow);
        assert(c.contains(c[i]));
        assert(c.to_multiset().count(c[i]) > 0);
        assert(g.to_multiset().count(c[i]) > 0);
        assert(g.contains(c[i]));
    }
}
pub open spec fn art_of<'a>(a: Seq<Arrow<'a>>, t: Seq<Nm>, g: Seq<GroupedArrow<'a>>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, n: int, lines: Seq<Seq<char>>) -> bool {
    grouped(a, g) && placed_ok(g, s, n) && art_ok(t, s, n, lines)
}
// the text is a picture of these arrows and states
pub open spec fn pictures<'a>(a: Seq<Arrow<'a>>, t: Seq<Nm>, text: Seq<char>) -> bool {
    exists|g: Seq<GroupedArrow<'a>>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, n: int, lines: Seq<Seq<char>>| #[trigger] art_of(a, t, g, s, n, lines) && text == joined(lines, "\n"@)
}
pub proof fn lemma_art_of<'a>(a: Seq<Arrow<'a>>, t: Seq<Nm>, g: Seq<GroupedArrow<'a>>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, n: int, lines: Seq<Seq<char>>, sep: Seq<char>)
    requires grouped(a, g), placed_ok(g, s, n), lines.len() == 2 * n + 1, lines[2 * n] == cells(t, widest(t, t.len() as int), t.len() as int), sep == "\n"@,
        forall|l: int| 0 <= l < n ==> #[trigger] level_ok(lines, s, widest(t, t.len() as int), n, l),
    ensures pictures(a, t, joined(lines, sep)),
{
    assert(art_of(a, t, g, s, n, lines));
}
pub proof fn lemma_widest(t: Seq<Nm>, k: int, n: int)
    requires 0 <= k <= n <= t.len(),
    ensures 0 <= widest(t, k) <= widest(t, n),
    decreases n,
{
    if n > k { lemma_widest(t, k, n - 1); } else if k > 0 { lemma_widest(t, k - 1, k - 1); }
}
pub proof fn lemma_alits()
    ensures " "@ == seq![' '], ascii_sp(),
{ reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
pub open spec fn ascii_sp() -> bool { forall|n: int| is_ascii(#[trigger] sp(n)) }
@type dandy-draw/src/lib.rs State
@raw
pub open spec fn nms(s: Seq<State>) -> Seq<Nm> { s.map_values(|x: State| (x.name@, x.accepting)) }
@fn dandy-draw/src/lib.rs ascii_art
@fmt
@hide down_top down_bot ends_in downs_ok ends_at under_any is_ascii top_ok bot_ok run_shown label_shown in_run covered under art_ok grouped placed_ok no_overlap levels_below spans_ok goks aoks joined pictures gtexts
@sig
    requires fits(nms(states@)), aoks(arrows@, states@.len() as int),
    ensures pictures(arrows@, nms(states@), r@),
@start
    let ghost t = nms(states@);
    let ghost n = states@.len() as int;
    let ghost w = widest(t, n);
    let ghost a = arrows@;
    let ghost mut g = Seq::<GroupedArrow<'a>>::empty();
    let ghost mut art = Seq::<Seq<char>>::empty();
    proof { lemma_alits(); lemma_col_pos(w, n); axiom_vec_len(&states); }
@loop 1 inv
    it1_seq == states@, r1 == (if it1.pos() == 0 { None::<usize> } else { Some(widest(t, it1.pos()) as usize) }), widest(t, it1.pos()) <= isize::MAX, n == it1_seq.len(), t == nms(states@),
@loop 1 beg
    proof { assert(t[it1.pos() - 1].0 == x1.name@); }
@loop 2 inv
    r2 == it2.pos(), it2.seq() == x1.name@, it2.seq().len() <= isize::MAX,
@let arrows#1
    proof { g = arrows@; lemma_goks(a, g, n); }
@let arrows#2
    proof { lemma_placed_oks(g, arrows@, levels as int, n); }
@closure 1 $%1: usize| -> (r: usize)
    requires 5 + col(w, $%1 as int) <= isize::MAX, w == widest_state_name,
    ensures r == 5 + col(w, $%1 as int),
@closure 2 $%1: usize| -> (r: usize)
    requires 6 + w + col(w, $%1 as int) <= isize::MAX, w == widest_state_name,
    ensures r == 6 + w + col(w, $%1 as int),
@closure 3 $%1: &Str, $%2: usize| -> (r: Str)
    requires $%2 <= isize::MAX,
    ensures r@ == pad_($%1@, $%2 as int),
@loop 3 inv
    r3 == it3.pos(), it3.seq() == s@, it3.seq().len() <= isize::MAX,
@loop 4 inv
    it4_seq == states@, acc@ == cells(t, w, it4.pos()),
@loop 5 inv
    art.len() == 2 * it5.pos(), lines.vjt() == art, forall|b: usize| #[trigger] bars@.contains(b) ==> b < art_width,
    forall|l: int| levels - it5.pos() <= l < levels ==> #[trigger] level_ok(art, arrows@, w, levels as int, l),
    ends_in(arrows@, w, 0, levels - it5.pos() - 1, bars@),
@loop 5 beg
    let ghost bars5 = bars@;
@loop 6 inv
    forall|i: int| 0 <= i < it6.pos() ==> top_line@[(#[trigger] it6_seq[i]) as int] == '|' && bot_line@[it6_seq[i] as int] == '|',
    is_ascii(top_line@), is_ascii(bot_line@), top_line@.len() == art_width, bot_line@.len() == art_width,
    forall|x: int| 0 <= x < art_width ==> #[trigger] top_line@[x] == ' ' || top_line@[x] == '|',
@loop 5 pre
    proof { lemma_ends_next(arrows@, w, levels as int, bars@); }
@loop 6 post
    proof { lemma_down_start(top_line@, bot_line@, arrows@, w, level as int, bars5); lemma_level_start(top_line@, bot_line@, arrows@, w, level as int); }
@loop 7 inv
    down_top(top_line@, arrows@, w, it7.pos(), level as int, bars5), down_bot(bot_line@, arrows@, w, 0, level as int, bars@), ends_in(arrows@, w, it7.pos(), level as int, bars@),
    it7_seq == arrows@, is_ascii(top_line@), is_ascii(bot_line@), top_line@.len() == art_width, bot_line@.len() == art_width,
    top_ok(top_line@, arrows@, w, it7.pos(), level as int), forall|b: usize| #[trigger] bars@.contains(b) ==> b < art_width,
@loop 7 beg
    let ghost top7 = top_line@;
    let ghost bot7 = bot_line@;
    let ghost bars7 = bars@;
    proof { if x7.level != level { lemma_down_none(top7, arrows@, w, it7.pos() - 1, level as int, bars5); lemma_ends_step(arrows@, w, it7.pos() - 1, level as int, bars7, 0, 0); lemma_no_label(top_line@, arrows@, w, it7.pos() - 1, level as int); } else { assert(arrow_ok(x7.arrow, n)); lemma_arrow_cols(w, n, x7.arrow); } }
@loop 7 end
    proof { if x7.level == level { 
        let (x, y) = ((6 + w + col(w, x7.arrow.left as int)) as usize, (5 + col(w, x7.arrow.right as int)) as usize);
        lemma_run_step(top7, top_line@, arrows@, w, it7.pos() - 1, level as int, n);
        lemma_down_run(top7, top_line@, arrows@, w, it7.pos() - 1, level as int, bars5);
        lemma_ends_step(arrows@, w, it7.pos() - 1, level as int, bars7, x, y);
        lemma_down_two(bot7, arrows@, w, level as int, bars7, x, y);
        assert(bars@ =~= bars7.insert(x).insert(y));
        assert(bot_line@ =~= bot7.update(x as int, '|').update(y as int, '|'));
    } }
@loop 8 inv
    forall|x: int| 0 <= x < art_width ==> #[trigger] top_line@[x] == (if leftmost <= x < leftmost + it8.pos() { '-' } else { top7[x] }),
    is_ascii(top_line@), top_line@.len() == art_width,
@loop 9 pre
    proof { lemma_level_start(top_line@, bot_line@, arrows@, w, level as int); }
@loop 9 inv
    down_bot(bot_line@, arrows@, w, it9.pos(), level as int, bars@),
    it9_seq == arrows@, bot_line@.len() >= art_width, bot_ok(bot_line@, arrows@, w, it9.pos(), level as int),
@loop 9 beg
    let ghost bot9 = bot_line@;
    proof { if x9.level != level { lemma_down_none(bot9, arrows@, w, it9.pos() - 1, level as int, bars@); lemma_no_label(bot9, arrows@, w, it9.pos() - 1, level as int); } else { assert(arrow_ok(x9.arrow, n)); lemma_arrow_cols(w, n, x9.arrow); } }
@loop 9 end
    proof { if x9.level == level { lemma_label_step(bot9, bot_line@, arrows@, w, it9.pos() - 1, level as int, n); lemma_down_label(bot9, bot_line@, arrows@, w, it9.pos() - 1, level as int, bars@); } }
@let range#1
    proof {
        let p = at_(w, x9.arrow);
        let q = if p + label@.len() <= bot9.len() { p + label@.len() } else { bot9.len() as int };
        assert(part_of(bot9, range, p, q));
    }
@closure 4 $%1: usize| -> (r: usize)
    ensures r == boff(bot_line@, if $%1 < bot_line@.len() { $%1 as int } else { bot_line@.len() as int })
@loop 5 end
    proof {
        let old_ = art;
        lemma_downs_ok(top_line@, bot_line@, arrows@, w, level as int, bars5, bars@, n);
        lemma_ends_next(arrows@, w, level as int, bars@);
        let p = it5.pos() - 1;
        art = old_.push(top_line@).push(bot_line@);
        assert(lines.vjt() =~= art);
        assert forall|l: int| levels - it5.pos() <= l < levels implies #[trigger] level_ok(art, arrows@, w, levels as int, l) by {
            if l > level { assert(level_ok(old_, arrows@, w, levels as int, l)); assert(art[2 * (levels - 1 - l)] == old_[2 * (levels - 1 - l)]); assert(art[2 * (levels - 1 - l) + 1] == old_[2 * (levels - 1 - l) + 1]); }
            else { assert(art[2 * p] == top_line@ && art[2 * p + 1] == bot_line@); }
        }
    }
@end
    proof {
        let all = art.push(last_line@);
        assert(lines.vjt() =~= all);
        assert forall|l: int| 0 <= l < levels implies #[trigger] level_ok(all, arrows@, w, levels as int, l) by {
            assert(level_ok(art, arrows@, w, levels as int, l)); assert(all[2 * (levels - 1 - l)] == art[2 * (levels - 1 - l)]); assert(all[2 * (levels - 1 - l) + 1] == art[2 * (levels - 1 - l) + 1]);
        }
        lemma_art_of(a, t, g, arrows@, levels as int, all, "\n"@);
    }
@loop 10 inv
    r10 == it10.pos(), it10.seq() == label@, it10.seq().len() <= isize::MAX,
@fn dandy-draw/src/lib.rs From<&'a DfaState> for State::from
@as from_dfa
@sig
    ensures r.name@ == value.name@, r.accepting == value.accepting, r.initial == value.initial,
@fn dandy-draw/src/lib.rs From<&'a NfaState> for State::from
@as from_nfa
@sig
    ensures r.name@ == value.name@, r.accepting == value.accepting, r.initial == value.initial,
@raw
pub open spec fn dnms(d: &Dfa) -> Seq<Nm> { d.states@.map_values(|q: DfaState| (q.name@, q.accepting)) }
pub open spec fn nnms(n: &Nfa) -> Seq<Nm> { n.states@.map_values(|q: NfaState| (q.name@, q.accepting)) }
// the text shows an arrow between every two states with a transition, and nothing else
pub open spec fn art_shows<'a>(u: Seq<Tr>, t: Seq<Nm>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, n: int, lines: Seq<Seq<char>>) -> bool { drawn(u, s, n) && art_ok(t, s, n, lines) }
pub open spec fn ascii_picture(u: Seq<Tr>, t: Seq<Nm>, text: Seq<char>) -> bool {
    exists|s: Seq<PlacedArrow<'static, GroupedArrow<'static>>>, n: int, lines: Seq<Seq<char>>| #[trigger] art_shows(u, t, s, n, lines) && text == joined(lines, "\n"@)
}
pub proof fn theorem_ascii_picture<'a>(a: Seq<Arrow<'a>>, u: Seq<Tr>, t: Seq<Nm>, text: Seq<char>)
    requires arrows_for(a, u), pictures(a, t, text),
    ensures ascii_picture(u, t, text),
{
    let (g, s, n, lines) = choose|g: Seq<GroupedArrow<'a>>, s: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, n: int, lines: Seq<Seq<char>>| #[trigger] art_of(a, t, g, s, n, lines) && text == joined(lines, "\n"@);
    theorem_drawing(u, a, g, s, n);
    assert(art_shows(u, t, s, n, lines));
}
pub proof fn lemma_aoks(a: Seq<Arrow>, u: Seq<Tr>, n: nat)
    requires arrows_for(a, u), ends_ok(u, n),
    ensures aoks(a, n as int),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let v = choose|v: Seq<Tr>| arrows_are(a, v) && #[trigger] v.to_multiset() == u.to_multiset();
    assert forall|i: int| 0 <= i < a.len() implies aok(#[trigger] a[i], n as int) by {
        assert(arrow_is(a[i], v[i]));
        assert(v.contains(v[i]));
        assert(v.to_multiset().count(v[i]) > 0);
        assert(u.to_multiset().count(v[i]) > 0);
        let k = choose|k: int| 0 <= k < u.len() && u[k] == v[i];
        assert(u[k].0 < n && u[k].1 < n);
    }
}
@fn dandy-draw/src/lib.rs dfa_ascii_art
@into State::from_dfa
@sig
    requires dfa.core(), fits(dnms(dfa)),
    ensures ascii_picture(dall(dfa), dnms(dfa), r@),
@acc 1 Vec<State>
@loop 1 inv
    it1_seq == dfa.states@, acc1@.len() == it1.pos(), forall|i: int| 0 <= i < it1.pos() ==> (#[trigger] acc1@[i]).name@ == it1_seq[i].name@ && acc1@[i].accepting == it1_seq[i].accepting,
@loop 1 post
    proof { assert(nms(acc1@) =~= dnms(dfa)); axiom_vec_len(&dfa.states); theorem_dfa_ends(dfa, dfa.states@.len() as int); }
@let arrows#1
    proof { lemma_aoks(arrows@, dall(dfa), dfa.states@.len()); }
    let ghost a = arrows@;
@end
    proof { theorem_ascii_picture(a, dall(dfa), dnms(dfa), ret_@); }
@fn dandy-draw/src/lib.rs nfa_ascii_art
@into State::from_nfa
@sig
    requires nfa.core(), fits(nnms(nfa)),
    ensures ascii_picture(nall(nfa), nnms(nfa), r@),
@acc 1 Vec<State>
@loop 1 inv
    it1_seq == nfa.states@, acc1@.len() == it1.pos(), forall|i: int| 0 <= i < it1.pos() ==> (#[trigger] acc1@[i]).name@ == it1_seq[i].name@ && acc1@[i].accepting == it1_seq[i].accepting,
@loop 1 post
    proof { assert(nms(acc1@) =~= nnms(nfa)); axiom_vec_len(&nfa.states); theorem_nfa_ends(nfa, nfa.states@.len() as int); }
@let arrows#1
    proof { lemma_aoks(arrows@, nall(nfa), nfa.states@.len()); }
    let ghost a = arrows@;
@end
    proof { theorem_ascii_picture(a, nall(nfa), nnms(nfa), ret_@); }
