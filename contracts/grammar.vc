@spectype dandy/src/parser/mod.rs NfaAlphabetEntry
@spectype dandy/src/parser/mod.rs ParsedNfaState
@spectype dandy/src/parser/mod.rs ParsedNfa
@spectype dandy/src/parser/mod.rs ParsedDfaState
@spectype dandy/src/parser/mod.rs ParsedDfa
@grammar dandy/src/parser/fa.rs comment
@grammar dandy/src/parser/fa.rs space_comment
@grammar dandy/src/parser/fa.rs space_comment_line
@grammar dandy/src/parser/fa.rs arrow
@grammar dandy/src/parser/fa.rs accepting
@grammar dandy/src/parser/fa.rs state_name
@grammar dandy/src/parser/fa.rs state_set
@grammar dandy/src/parser/fa.rs alphabet_elem
@grammar dandy/src/parser/fa.rs eps
@grammar dandy/src/parser/fa.rs dfa_line
@grammar dandy/src/parser/fa.rs dfa_head
@grammar dandy/src/parser/fa.rs full_dfa
@grammar dandy/src/parser/fa.rs nfa_line
@grammar dandy/src/parser/fa.rs nfa_head
@grammar dandy/src/parser/fa.rs full_nfa
@grammar dandy/src/parser/mod.rs dfa dandy/src/parser/fa.rs
@grammar dandy/src/parser/mod.rs nfa dandy/src/parser/fa.rs
