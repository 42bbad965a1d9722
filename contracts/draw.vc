@raw
// ------------------------------------------------------------------ drawing through a Drawer
// f32 as exact numbers
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Fl_ { f: f32 }
impl View for Fl_ { type V = real; uninterp spec fn view(&self) -> real; }
pub uninterp spec fn mk(r: real) -> Fl_;
pub broadcast axiom fn axiom_mk(r: real) ensures (#[trigger] mk(r))@ == r;
#[verifier::external_body]
pub fn fl_(n: u64, d: u64) -> (r: Fl_) requires d > 0 ensures r@ == (n as real) / (d as real) { unimplemented!() }
#[verifier::external_body]
pub fn fl_of_(n: usize) -> (r: Fl_) ensures r@ == n as real { unimplemented!() }
impl core::ops::Add for Fl_ { type Output = Fl_; #[verifier::external_body] fn add(self, o: Fl_) -> (r: Fl_) ensures r@ == self@ + o@ { unimplemented!() } }
impl core::ops::Sub for Fl_ { type Output = Fl_; #[verifier::external_body] fn sub(self, o: Fl_) -> (r: Fl_) ensures r@ == self@ - o@ { unimplemented!() } }
impl core::ops::Mul for Fl_ { type Output = Fl_; #[verifier::external_body] fn mul(self, o: Fl_) -> (r: Fl_) ensures r@ == self@ * o@ { unimplemented!() } }
impl core::ops::Div for Fl_ { type Output = Fl_; #[verifier::external_body] fn div(self, o: Fl_) -> (r: Fl_) ensures r@ == self@ / o@ { unimplemented!() } }
impl core::ops::Neg for Fl_ { type Output = Fl_; #[verifier::external_body] fn neg(self) -> (r: Fl_) ensures r@ == 0real - self@ { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<Fl_> for Fl_ { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Fl_) -> bool { true } open spec fn add_spec(self, o: Fl_) -> Fl_ { mk(self@ + o@) } }
impl vstd::std_specs::ops::SubSpecImpl<Fl_> for Fl_ { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Fl_) -> bool { true } open spec fn sub_spec(self, o: Fl_) -> Fl_ { mk(self@ - o@) } }
impl vstd::std_specs::ops::MulSpecImpl<Fl_> for Fl_ { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Fl_) -> bool { true } open spec fn mul_spec(self, o: Fl_) -> Fl_ { mk(self@ * o@) } }
impl vstd::std_specs::ops::DivSpecImpl<Fl_> for Fl_ { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: Fl_) -> bool { o@ != 0real } open spec fn div_spec(self, o: Fl_) -> Fl_ { mk(self@ / o@) } }
impl vstd::std_specs::ops::NegSpecImpl for Fl_ { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> Fl_ { mk(0real - self@) } }
@type dandy-draw/src/pos2.rs Pos2
@fn dandy-draw/src/pos2.rs pos2
@sig
    ensures r.x == x, r.y == y,
@fn dandy-draw/src/pos2.rs Pos2::y
@sig
    ensures r.x@ == 0real, r.y == y,
@fn dandy-draw/src/pos2.rs Add for Pos2::add
@as plus_
@sig
    ensures r.x@ == self.x@ + rhs.x@, r.y@ == self.y@ + rhs.y@,
@fn dandy-draw/src/pos2.rs Sub for Pos2::sub
@as minus_
@sig
    ensures r.x@ == self.x@ - rhs.x@, r.y@ == self.y@ - rhs.y@,
@fn dandy-draw/src/pos2.rs Mul<Pos2> for Pos2::mul
@as times_
@sig
    ensures r.x@ == self.x@ * rhs.x@, r.y@ == self.y@ * rhs.y@,
@raw
// the operators are the methods above
impl core::ops::Add for Pos2 { type Output = Pos2; fn add(self, rhs: Pos2) -> (r: Pos2) ensures r@ == (self@.0 + rhs@.0, self@.1 + rhs@.1) { let r = Pos2::plus_(self, rhs); proof { axiom_pos(r, self@.0 + rhs@.0, self@.1 + rhs@.1); } r } }
impl core::ops::Sub for Pos2 { type Output = Pos2; fn sub(self, rhs: Pos2) -> (r: Pos2) ensures r@ == (self@.0 - rhs@.0, self@.1 - rhs@.1) { let r = Pos2::minus_(self, rhs); proof { axiom_pos(r, self@.0 - rhs@.0, self@.1 - rhs@.1); } r } }
impl core::ops::Mul for Pos2 { type Output = Pos2; fn mul(self, rhs: Pos2) -> (r: Pos2) ensures r@ == (self@.0 * rhs@.0, self@.1 * rhs@.1) { let r = Pos2::times_(self, rhs); proof { axiom_pos(r, self@.0 * rhs@.0, self@.1 * rhs@.1); } r } }
pub type Pt = (real, real);
impl View for Pos2 { type V = Pt; open spec fn view(&self) -> Pt { (self.x@, self.y@) } }
pub open spec fn pos_(x: real, y: real) -> Pos2 { Pos2 { x: mk(x), y: mk(y) } }
// equal numbers are equal values
pub axiom fn axiom_fl(a: Fl_) ensures a == mk(a@);
pub proof fn axiom_pos(p: Pos2, x: real, y: real) requires p@ == (x, y) ensures p == pos_(x, y) { axiom_fl(p.x); axiom_fl(p.y); }
impl vstd::std_specs::ops::AddSpecImpl<Pos2> for Pos2 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Pos2) -> bool { true } open spec fn add_spec(self, o: Pos2) -> Pos2 { pos_(self@.0 + o@.0, self@.1 + o@.1) } }
impl vstd::std_specs::ops::SubSpecImpl<Pos2> for Pos2 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Pos2) -> bool { true } open spec fn sub_spec(self, o: Pos2) -> Pos2 { pos_(self@.0 - o@.0, self@.1 - o@.1) } }
impl vstd::std_specs::ops::MulSpecImpl<Pos2> for Pos2 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Pos2) -> bool { true } open spec fn mul_spec(self, o: Pos2) -> Pos2 { pos_(self@.0 * o@.0, self@.1 * o@.1) } }
// what a drawer has been asked to draw: begun and not finished (1) or not, and the shapes
pub enum Ink { Circle(Pt, real, real), Text(Pt, Seq<char>), Rect(Pt, Pt), Line(Pt, Pt, real) }
pub type Inks = vstd::multiset::Multiset<Ink>;
pub struct Log { pub phase: int, pub ink: Inks }
pub open spec fn inked(l: Log, i: Ink) -> Log { Log { phase: l.phase, ink: l.ink.insert(i) } }
pub trait Drawer: Sized {
    spec fn log(&self) -> Log;
    // what it will have been asked when a borrow ends
    #[verifier::prophetic]
    spec fn fin(&self) -> Log;
    fn start_drawing(&mut self)
        ensures final(self).log() == (Log { phase: 1, ink: old(self).log().ink }), final(self).fin() == old(self).fin();
    fn finish_drawing(&mut self)
        requires old(self).log().phase == 1,
        ensures final(self).log() == (Log { phase: 2, ink: old(self).log().ink }), final(self).fin() == old(self).fin();
    fn draw_circle(&mut self, pos: Pos2, radius: Fl_, thickness: Fl_)
        requires old(self).log().phase == 1,
        ensures final(self).log() == inked(old(self).log(), Ink::Circle(pos@, radius@, thickness@)), final(self).fin() == old(self).fin();
    fn draw_centered_text(&mut self, pos: Pos2, text: &Str)
        requires old(self).log().phase == 1,
        ensures final(self).log() == inked(old(self).log(), Ink::Text(pos@, text@)), final(self).fin() == old(self).fin();
    fn draw_rect(&mut self, upper_left: Pos2, size: Pos2)
        requires old(self).log().phase == 1,
        ensures final(self).log() == inked(old(self).log(), Ink::Rect(upper_left@, size@)), final(self).fin() == old(self).fin();
    fn draw_line(&mut self, from: Pos2, to: Pos2, thickness: Fl_)
        requires old(self).log().phase == 1,
        ensures final(self).log() == inked(old(self).log(), Ink::Line(from@, to@, thickness@)), final(self).fin() == old(self).fin();
    fn set_color(&mut self, rgb: [u8; 3])
        ensures final(self).log() == old(self).log(), final(self).fin() == old(self).fin();
}
@type dandy-draw/src/lib.rs OffsetScaleDrawer
@raw
pub open spec fn moved(o: Pt, s: Pt, p: Pt) -> Pt { ((p.0 + o.0) * s.0, (p.1 + o.1) * s.1) }
impl<'a, T: Drawer> OffsetScaleDrawer<'a, T> {
    pub open spec fn log(&self) -> Log { self.drawer.log() }
    pub open spec fn frame(&self) -> (Pt, Pt) { (self.offset@, self.scale@) }
    #[verifier::prophetic]
    pub open spec fn fin(&self) -> Log { final(self.drawer).log() }
}
@fn dandy-draw/src/lib.rs Drawer for OffsetScaleDrawer::start_drawing
@sig
    ensures final(self).log() == (Log { phase: 1, ink: old(self).log().ink }), final(self).fin() == old(self).fin(), final(self).frame() == old(self).frame(),
@fn dandy-draw/src/lib.rs Drawer for OffsetScaleDrawer::finish_drawing
@sig
    requires old(self).log().phase == 1,
    ensures final(self).log() == (Log { phase: 2, ink: old(self).log().ink }), final(self).fin() == old(self).fin(), final(self).frame() == old(self).frame(),
@fn dandy-draw/src/lib.rs Drawer for OffsetScaleDrawer::draw_circle
@sig
    requires old(self).log().phase == 1,
    ensures final(self).log() == inked(old(self).log(), Ink::Circle(moved(old(self).offset@, old(self).scale@, pos@), radius@ * old(self).scale@.0, thickness@)), final(self).fin() == old(self).fin(), final(self).frame() == old(self).frame(),
@fn dandy-draw/src/lib.rs Drawer for OffsetScaleDrawer::draw_centered_text
@sig
    requires old(self).log().phase == 1,
    ensures final(self).log() == inked(old(self).log(), Ink::Text(moved(old(self).offset@, old(self).scale@, pos@), text@)), final(self).fin() == old(self).fin(), final(self).frame() == old(self).frame(),
@fn dandy-draw/src/lib.rs Drawer for OffsetScaleDrawer::draw_line
@sig
    requires old(self).log().phase == 1,
    ensures final(self).log() == inked(old(self).log(), Ink::Line(moved(old(self).offset@, old(self).scale@, from@), moved(old(self).offset@, old(self).scale@, to@), thickness@)), final(self).fin() == old(self).fin(), final(self).frame() == old(self).frame(),
@fn dandy-draw/src/lib.rs Drawer for OffsetScaleDrawer::set_color
@sig
    ensures final(self).log() == old(self).log(), final(self).fin() == old(self).fin(), final(self).frame() == old(self).frame(),
@type dandy-draw/src/lib.rs DrawOptions
@raw
// ------------------------------------------------------------------ where things are drawn
pub open spec fn xat(o: &DrawOptions, i: int) -> real { o.init_arrow_length@ + o.center_line_padding@ + o.circle_radius@ + (o.circle_radius@ * 2real + o.center_line_padding@) * (i as real) }
// the right and the left side of a state
pub open spec fn xfrom(o: &DrawOptions, i: int) -> real { xat(o, i) + o.from_line_offset@ }
pub open spec fn xto(o: &DrawOptions, i: int) -> real { xat(o, i) - o.to_line_offset@ }
pub open spec fn baseline(o: &DrawOptions, n: int) -> real { ((n + 1) as real) * o.floor_height@ }
pub open spec fn center(o: &DrawOptions, n: int) -> real { baseline(o, n) + o.line_circle_margin@ + o.circle_radius@ }
// the height of a level
pub open spec fn high(o: &DrawOptions, n: int, l: int) -> real { o.floor_height@ * ((n - l) as real) }
pub open spec fn at(o: &DrawOptions, p: Pt) -> Pt { moved((o.x_offset@, o.y_offset@), (o.x_scale@, o.y_scale@), p) }
pub open spec fn line(o: &DrawOptions, s: Inks, p: Pt, q: Pt, w: real) -> Inks { s.insert(Ink::Line(at(o, p), at(o, q), w)) }
pub open spec fn round(o: &DrawOptions, s: Inks, p: Pt, r: real, w: real) -> Inks { s.insert(Ink::Circle(at(o, p), r * o.x_scale@, w)) }
pub open spec fn word(o: &DrawOptions, s: Inks, p: Pt, t: Seq<char>) -> Inks { s.insert(Ink::Text(at(o, p), t)) }
pub type Lk = (Seq<char>, bool, bool);
pub open spec fn mark_ink(o: &DrawOptions, n: int, s: Inks) -> Inks {
    let (x, c, a, w) = (o.init_arrow_length@, center(o, n), o.init_arrow_arms_length@, o.init_arrow_width@);
    line(o, line(o, line(o, s, (0real, c), (x, c), w), (x, c), (x - a, c - a), w), (x, c), (x - a, c + a), w)
}
pub open spec fn init_ink(o: &DrawOptions, n: int, i: int, s: Inks) -> Inks {
    let (x, y, a, w) = (xat(o, i), center(o, n) + (o.circle_radius@ + o.center_line_padding@), o.init_arrow_arms_length@, o.init_arrow_width@);
    line(o, line(o, line(o, s, (x, y), (x, y + o.init_arrow_length@), w), (x, y), (x + a, y + a), w), (x, y), (x - a, y + a), w)
}
pub open spec fn state_ink(o: &DrawOptions, n: int, i: int, q: Lk, s: Inks) -> Inks {
    let c = (xat(o, i), center(o, n));
    let s = round(o, s, c, o.circle_radius@, o.circle_width@);
    let s = if q.1 { round(o, s, c, o.accepting_circle_radius@, o.accepting_circle_width@) } else { s };
    let s = if q.2 { init_ink(o, n, i, s) } else { s };
    word(o, s, c, q.0)
}
pub open spec fn states_ink(o: &DrawOptions, n: int, q: Seq<Lk>, k: int, s: Inks) -> Inks decreases k { if k <= 0 { s } else { state_ink(o, n, k - 1, q[k - 1], states_ink(o, n, q, k - 1, s)) } }
// the sides and the top of an arrow
pub open spec fn path_ink(o: &DrawOptions, n: int, l: int, g: GroupedArrow, s: Inks) -> Inks {
    let (a, b, h, c, w) = (xfrom(o, g.left as int), xto(o, g.right as int), high(o, n, l), baseline(o, n), o.trans_line_width@);
    line(o, line(o, line(o, s, (a, c), (a, h), w), (b, c), (b, h), w), (a, h), (b, h), w)
}
pub open spec fn mid_x(o: &DrawOptions, g: GroupedArrow) -> real { (xfrom(o, g.left as int) + xto(o, g.right as int)) / 2real }
pub open spec fn mid_ink(o: &DrawOptions, n: int, l: int, g: GroupedArrow, s: Inks) -> Inks {
    let (h, a, w) = (high(o, n, l), o.trans_arrow_arms_length@, o.trans_line_width@);
    let m = if g.direction == Direction::Left { 1real } else { -1real };
    let x = mid_x(o, g) - a * m * (1real / 2real);
    line(o, line(o, s, (x, h), (x + m * a, h + a), w), (x, h), (x + m * a, h - a), w)
}
pub open spec fn head_ink(o: &DrawOptions, n: int, g: GroupedArrow, s: Inks) -> Inks {
    let (y, a, w) = (baseline(o, n), o.trans_arrow_arms_length@, o.trans_line_width@);
    let x = if g.direction == Direction::Right { xto(o, g.right as int) } else { xfrom(o, g.left as int) };
    line(o, line(o, s, (x, y), (x - a, y - a), w), (x, y), (x + a, y - a), w)
}
pub open spec fn arrow_ink(o: &DrawOptions, n: int, l: int, g: GroupedArrow, s: Inks) -> Inks {
    let s = path_ink(o, n, l, g, s);
    let s = if o.middle_arrow { mid_ink(o, n, l, g, s) } else { s };
    let s = if o.end_arrow { head_ink(o, n, g, s) } else { s };
    word(o, s, (mid_x(o, g), high(o, n, l) - o.text_margin@), label_(g))
}
pub open spec fn arrows_ink<'a>(o: &DrawOptions, n: int, a: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, k: int, s: Inks) -> Inks decreases k {
    if k <= 0 { s } else { arrow_ink(o, n, a[k - 1].level as int, a[k - 1].arrow, arrows_ink(o, n, a, k - 1, s)) }
}
pub open spec fn all_ink<'a>(o: &DrawOptions, n: int, q: Seq<Lk>, a: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, s: Inks) -> Inks {
    arrows_ink(o, n, a, a.len() as int, states_ink(o, n, q, q.len() as int, mark_ink(o, n, s)))
}
pub open spec fn lks(s: Seq<State>) -> Seq<Lk> { s.map_values(|x: State| (x.name@, x.accepting, x.initial)) }
// these arrows were placed and drawn
pub open spec fn sketch_of<'a>(a: Seq<Arrow<'a>>, q: Seq<Lk>, o: &DrawOptions, g: Seq<GroupedArrow<'a>>, p: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, n: int, s: Inks, e: Inks) -> bool {
    grouped(a, g) && placed_ok(g, p, n) && e == all_ink(o, n, q, p, s)
}
pub open spec fn sketches<'a>(a: Seq<Arrow<'a>>, q: Seq<Lk>, o: &DrawOptions, s: Inks, e: Inks) -> bool {
    exists|g: Seq<GroupedArrow<'a>>, p: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, n: int| #[trigger] sketch_of(a, q, o, g, p, n, s, e)
}
@fn dandy-draw/src/lib.rs draw
@sig
    requires aoks(arrows@, states@.len() as int), states@.len() <= isize::MAX,
    ensures final(drawer).log().phase == 2, sketches(arrows@, lks(states@), &opts, old(drawer).log().ink, final(drawer).log().ink),
@closure 1 $%1: usize| -> (r: Fl_)
    ensures r@ == xat(&opts, $%1 as int),
@closure 2 $%1: usize| -> (r: Fl_)
    ensures r@ == xfrom(&opts, $%1 as int),
@closure 3 $%1: usize| -> (r: Fl_)
    ensures r@ == xto(&opts, $%1 as int),
@start
    let ghost o = &opts;
    let ghost q = lks(states@);
    let ghost n = states@.len() as int;
    let ghost a = arrows@;
    let ghost mut g = Seq::<GroupedArrow<'a>>::empty();
    let ghost s0 = drawer.log().ink;
@let arrows#1
    proof { g = arrows@; lemma_goks(a, g, n); axiom_vec_len(&arrows); }
@let arrows#2
    proof { lemma_placed_oks(g, arrows@, levels as int, n); }
    let ghost p = arrows@;
    let ghost fin = drawer.fin();
@loop 1 inv
    it1_seq == states@, drawer.log().phase == 1, drawer.frame() == (offset@, scale@), drawer.fin() == fin,
    drawer.log().ink == states_ink(o, levels as int, q, it1.pos(), mark_ink(o, levels as int, s0)),
@loop 1 beg
    let ghost s1 = drawer.log().ink;
@loop 1 end
    proof { assert(q[it1.pos() - 1] == (x1.name@, x1.accepting, x1.initial)); assert(drawer.log().ink =~= state_ink(o, levels as int, it1.pos() - 1, q[it1.pos() - 1], s1)); }
@loop 1 pre
    proof { assert(drawer.log().ink =~= mark_ink(o, levels as int, s0)); }
@loop 2 inv
    it2_seq == p, drawer.log().phase == 1, drawer.frame() == (offset@, scale@), drawer.fin() == fin,
    drawer.log().ink == arrows_ink(o, levels as int, p, it2.pos(), states_ink(o, levels as int, q, n, mark_ink(o, levels as int, s0))),
@loop 2 beg
    let ghost s2 = drawer.log().ink;
@loop 2 end
    proof { assert(drawer.log().ink =~= arrow_ink(o, levels as int, x2.level as int, x2.arrow, s2)); }
@end
    proof { assert(sketch_of(a, q, o, g, p, levels as int, s0, drawer.log().ink)); }
@raw
// ------------------------------------------------------------------ whole automata
pub open spec fn dlks(d: &Dfa) -> Seq<Lk> { d.states@.map_values(|q: DfaState| (q.name@, q.accepting, q.initial)) }
pub open spec fn nlks(n: &Nfa) -> Seq<Lk> { n.states@.map_values(|q: NfaState| (q.name@, q.accepting, q.initial)) }
pub open spec fn shown_of<'a>(u: Seq<Tr>, q: Seq<Lk>, o: &DrawOptions, p: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, n: int, s: Inks, e: Inks) -> bool { drawn(u, p, n) && e == all_ink(o, n, q, p, s) }
// the states and an arrow between every two states with a transition have been drawn, and nothing else
pub open spec fn shown(u: Seq<Tr>, q: Seq<Lk>, o: &DrawOptions, s: Inks, e: Inks) -> bool {
    exists|p: Seq<PlacedArrow<'static, GroupedArrow<'static>>>, n: int| #[trigger] shown_of(u, q, o, p, n, s, e)
}
pub open spec fn shown_plain(u: Seq<Tr>, q: Seq<Lk>, s: Inks, e: Inks) -> bool { exists|o: DrawOptions| plain(&o) && #[trigger] shown(u, q, &o, s, e) }
pub proof fn theorem_shown<'a>(a: Seq<Arrow<'a>>, u: Seq<Tr>, q: Seq<Lk>, o: &DrawOptions, s: Inks, e: Inks)
    requires arrows_for(a, u), sketches(a, q, o, s, e),
    ensures shown(u, q, o, s, e),
{
    let (g, p, n) = choose|g: Seq<GroupedArrow<'a>>, p: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, n: int| #[trigger] sketch_of(a, q, o, g, p, n, s, e);
    theorem_drawing(u, a, g, p, n);
    assert(shown_of(u, q, o, p, n, s, e));
}
// options with which arrows have room: the default ones are of this kind
pub open spec fn plain(o: &DrawOptions) -> bool {
    o.floor_height@ > 0real && o.from_line_offset@ >= 0real && o.to_line_offset@ >= 0real && o.from_line_offset@ + o.to_line_offset@ <= o.circle_radius@ * 2real + o.center_line_padding@
}
// where the top of an arrow begins and ends
pub open spec fn west(o: &DrawOptions, g: GroupedArrow) -> real { if g.left == g.right { xto(o, g.right as int) } else { xfrom(o, g.left as int) } }
pub open spec fn east(o: &DrawOptions, g: GroupedArrow) -> real { if g.left == g.right { xfrom(o, g.left as int) } else { xto(o, g.right as int) } }
pub proof fn lemma_xat(o: &DrawOptions, i: int, j: int)
    requires i <= j, plain(o),
    ensures xat(o, i) <= xat(o, j), i < j ==> xat(o, i) + o.circle_radius@ * 2real + o.center_line_padding@ <= xat(o, j),
{
    let s = o.circle_radius@ * 2real + o.center_line_padding@;
    assert(s * (i as real) <= s * (j as real)) by (nonlinear_arith) requires s >= 0real, i <= j;
    if i < j { assert(s * (i as real) + s <= s * (j as real)) by (nonlinear_arith) requires s >= 0real, i + 1 <= j; }
}
// tops of arrows at the same height meet in one point at most, and lie between the top of the picture and the states
pub proof fn theorem_tops_apart<'a>(u: Seq<Tr>, p: Seq<PlacedArrow<'a, GroupedArrow<'a>>>, n: int, o: &DrawOptions, i: int, j: int)
    requires drawn(u, p, n), plain(o), 0 <= i < p.len(), 0 <= j < p.len(), i != j, high(o, n, p[i].level as int) == high(o, n, p[j].level as int),
    ensures east(o, p[i].arrow) <= west(o, p[j].arrow) || east(o, p[j].arrow) <= west(o, p[i].arrow), 0real < high(o, n, p[i].level as int) < baseline(o, n),
{
    let (a, b) = (p[i].arrow, p[j].arrow);
    let (x, y, f) = ((n - p[i].level) as real, (n - p[j].level) as real, o.floor_height@);
    assert(x == y) by (nonlinear_arith) requires f * x == f * y, f > 0real;
    assert(p[i].level < n && p[j].level < n);
    assert(f * x > 0real) by (nonlinear_arith) requires f > 0real, x > 0real;
    let z = (n + 1) as real;
    assert(f * x < z * f) by (nonlinear_arith) requires f > 0real, x < z;
    if end_(a) <= b.left { lemma_apart(o, a, b); } else { lemma_apart(o, b, a); }
}
pub proof fn lemma_apart(o: &DrawOptions, a: GroupedArrow, b: GroupedArrow)
    requires plain(o), end_(a) <= b.left, ensures east(o, a) <= west(o, b),
{ lemma_xat(o, a.right as int, b.left as int); }
@fn dandy-draw/src/lib.rs draw_dfa_with_opts
@into State::from_dfa
@sig
    requires dfa.core(),
    ensures final(drawer).log().phase == 2, shown(dall(dfa), dlks(dfa), &opts, old(drawer).log().ink, final(drawer).log().ink),
@acc 1 Vec<State>
@loop 1 inv
    it1_seq == dfa.states@, acc1@.len() == it1.pos(), forall|i: int| 0 <= i < it1.pos() ==> (#[trigger] acc1@[i]).name@ == it1_seq[i].name@ && acc1@[i].accepting == it1_seq[i].accepting && acc1@[i].initial == it1_seq[i].initial,
@loop 1 post
    proof { assert(lks(acc1@) =~= dlks(dfa)); axiom_vec_len(&dfa.states); theorem_dfa_ends(dfa, dfa.states@.len() as int); }
@let arrows#1
    proof { lemma_aoks(arrows@, dall(dfa), dfa.states@.len()); }
    let ghost a = arrows@;
@end
    proof { theorem_shown(a, dall(dfa), dlks(dfa), &opts, old(drawer).log().ink, drawer.log().ink); }
@fn dandy-draw/src/lib.rs draw_dfa
@sig
    requires dfa.core(),
    ensures final(drawer).log().phase == 2, shown_plain(dall(dfa), dlks(dfa), old(drawer).log().ink, final(drawer).log().ink),
@fn dandy-draw/src/lib.rs draw_nfa_with_opts
@into State::from_nfa
@sig
    requires nfa.core(),
    ensures final(drawer).log().phase == 2, shown(nall(nfa), nlks(nfa), &opts, old(drawer).log().ink, final(drawer).log().ink),
@acc 1 Vec<State>
@loop 1 inv
    it1_seq == nfa.states@, acc1@.len() == it1.pos(), forall|i: int| 0 <= i < it1.pos() ==> (#[trigger] acc1@[i]).name@ == it1_seq[i].name@ && acc1@[i].accepting == it1_seq[i].accepting && acc1@[i].initial == it1_seq[i].initial,
@loop 1 post
    proof { assert(lks(acc1@) =~= nlks(nfa)); axiom_vec_len(&nfa.states); theorem_nfa_ends(nfa, nfa.states@.len() as int); }
@let arrows#1
    proof { lemma_aoks(arrows@, nall(nfa), nfa.states@.len()); }
    let ghost a = arrows@;
@end
    proof { theorem_shown(a, nall(nfa), nlks(nfa), &opts, old(drawer).log().ink, drawer.log().ink); }
@fn dandy-draw/src/lib.rs draw_nfa
@sig
    requires nfa.core(),
    ensures final(drawer).log().phase == 2, shown_plain(nall(nfa), nlks(nfa), old(drawer).log().ink, final(drawer).log().ink),
