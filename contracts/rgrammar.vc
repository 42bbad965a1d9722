@spectype dandy/src/regex/mod.rs RegexChar
@spectype dandy/src/regex/mod.rs RegexTree
@spectype dandy/src/regex/mod.rs Regex
@raw
// ------------------------------------------------------------------ extended grapheme clusters (crate unicode-segmentation, trusted)
// There is a boundary after the nonempty text a before the character c: by UAX #29 this depends on nothing else.
pub uninterp spec fn brk(a: Seq<char>, c: char) -> bool;
pub open spec fn fc_from(s: Seq<char>, i: int) -> int decreases s.len() - i { if i >= s.len() { s.len() as int } else if brk(s.take(i), s[i]) { i } else { fc_from(s, i + 1) } }
// the length of the first cluster
pub open spec fn fc(s: Seq<char>) -> int { fc_from(s, 1) }
pub open spec fn g_one_cluster() -> P<S_RegexChar> { |s: Seq<char>| if s.len() == 0 { PR::No } else { PR::Got(s.skip(fc(s)), S_RegexChar::Grapheme(s.take(fc(s)))) } }
@grammar dandy/src/parser/regex.rs full_regex opaque:one_cluster
@grammar dandy/src/parser/mod.rs regex dandy/src/parser/regex.rs opaque:one_cluster
