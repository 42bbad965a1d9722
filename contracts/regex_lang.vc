@type dandy/src/regex/mod.rs RegexChar
@type dandy/src/regex/mod.rs RegexTree
@type dandy/src/regex/mod.rs Regex
@type dandy/src/regex/mod.rs StateCounter
@raw
// ------------------------------------------------------------------ what a regular expression means
pub open spec fn nat_(n: nat) -> bool { true }
pub open spec fn rlang(t: RegexTree, w: Word) -> bool decreases t, 0nat {
    match t {
        RegexTree::Sequence(s) => slang(s@, 0, w),
        RegexTree::Alt(s) => exists|i: int| 0 <= i < s@.len() && rlang(#[trigger] s@[i], w),
        RegexTree::Repeat(r) => exists|n: nat| #[trigger] nat_(n) && replang(*r, n, w),
        RegexTree::Char(RegexChar::Grapheme(g)) => w == seq![g@],
        RegexTree::Char(RegexChar::Epsilon) => w.len() == 0,
        RegexTree::Char(RegexChar::Empty) => false,
    }
}
// the items i.. of a sequence
pub open spec fn slang(s: Seq<RegexTree>, i: int, w: Word) -> bool decreases s, s.len() - i {
    if 0 <= i < s.len() { exists|m: int| 0 <= m <= w.len() && rlang(s[i], #[trigger] w.take(m)) && slang(s, i + 1, w.skip(m)) } else { w.len() == 0 }
}
// n times
pub open spec fn replang(t: RegexTree, n: nat, w: Word) -> bool decreases t, n + 1 {
    if n == 0 { w.len() == 0 } else { exists|m: int| 0 <= m <= w.len() && rlang(t, #[trigger] w.take(m)) && replang(t, (n - 1) as nat, w.skip(m)) }
}
// ------------------------------------------------------------------ the characters, in order of first occurrence
pub type Syms = Seq<Seq<char>>;
pub open spec fn add_chars(t: RegexTree, s: Syms) -> Syms decreases t, 0nat {
    match t {
        RegexTree::Sequence(x) => add_items(x@, x@.len() as int, s),
        RegexTree::Alt(x) => add_items(x@, x@.len() as int, s),
        RegexTree::Repeat(r) => add_chars(*r, s),
        RegexTree::Char(RegexChar::Grapheme(g)) => if s.contains(g@) { s } else { s.push(g@) },
        RegexTree::Char(_) => s,
    }
}
pub open spec fn add_items(x: Seq<RegexTree>, k: int, s: Syms) -> Syms decreases x, k {
    if 0 < k <= x.len() { add_chars(x[k - 1], add_items(x, k - 1, s)) } else { s }
}
// the number of states of the automaton
pub open spec fn nodes(t: RegexTree) -> int decreases t, 0nat {
    match t {
        RegexTree::Sequence(x) => 1 + snodes(x@, x@.len() as int),
        RegexTree::Alt(x) => 1 + anodes(x@, x@.len() as int),
        RegexTree::Repeat(r) => 1 + nodes(*r),
        RegexTree::Char(_) => 1,
    }
}
pub open spec fn snodes(x: Seq<RegexTree>, k: int) -> int decreases x, k { if 0 < k <= x.len() { snodes(x, k - 1) + 1 + nodes(x[k - 1]) } else { 0 } }
pub open spec fn anodes(x: Seq<RegexTree>, k: int) -> int decreases x, k { if 0 < k <= x.len() { anodes(x, k - 1) + nodes(x[k - 1]) } else { 0 } }
