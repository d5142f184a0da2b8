// C06: the comment lexer
use vstd::prelude::*;
verus! {
//@modules crate parser fmt std
//@include std_shim.rs
//@include lex_shim.rs
//@include lex_util.rs
//@enum Token src/parser/comment_lexer.rs Token
//@typemap Self::Item => Result<(usize, Token, usize), LexicalError>
//@type src/parser/comment_lexer.rs Token
//@type src/parser/comment_lexer.rs LexicalError
//@type src/parser/comment_lexer.rs Lexer | pubfields

//@include c06_ctok.rs
pub open spec fn bad(s: Seq<char>, l: int) -> bool {
    l < s.len() && (comment_open(s, l) || (s[l] == '-' && !dashes(s, l)) || !(blank(s[l]) || s[l] == '\n' || s[l] == '-'))
}
pub open spec fn lok(x: Lexer) -> bool { x.chars.ok() && x.chars.src() == x.input@ && (x.at_end ==> x.chars.pos() == x.input@.len()) }

//@fn src/parser/comment_lexer.rs Lexer::new | params=input
    ensures lok(r), r.input == input, r.chars.pos() == 0, !r.at_end,
//@end
//@fn src/parser/comment_lexer.rs Lexer::consume_ok | params=l,tok,e
    requires lok(*old(self)), ensures lok(*final(self)), final(self).input == old(self).input, final(self).at_end == old(self).at_end,
        old(self).chars.pos() < old(self).input@.len() ==> final(self).chars.pos() == old(self).chars.pos() + 1,
        r == Some::<Result<(usize, Token, usize), LexicalError>>(Ok((l, tok, e))),
//@end
//@fn src/parser/comment_lexer.rs Lexer as Iterator::next | enum=Token
    requires lok(*old(self)),
    ensures lok(*final(self)), final(self).input == old(self).input, old(self).chars.pos() <= final(self).chars.pos(),
        match r {
            None => old(self).at_end && final(self).at_end,
            Some(Ok((l, t, e))) => gap(old(self).input@, old(self).chars.pos(), l as int) && e == final(self).chars.pos() && (
                if t is EOF { l == e && e == old(self).input@.len() && !old(self).at_end && final(self).at_end }
                else { l < e && e <= old(self).input@.len() && tok(old(self).input@, l as int, t, e as int) && final(self).at_end == old(self).at_end }),
            Some(Err(_)) => exists|l: int| #[trigger] gap(old(self).input@, old(self).chars.pos(), l) && bad(old(self).input@, l),
        },
//@pre
    broadcast use g_lex;
//@loop 0
    invariant lok(*self), lok(*old(self)), self.input == old(self).input, self.at_end == old(self).at_end, old(self).chars.pos() <= self.chars.pos(),
        gap(old(self).input@, old(self).chars.pos(), self.chars.pos()),
    decreases self.input@.len() - self.chars.pos(),
//@loopbegin 0
    broadcast use g_lex;
//@end
fn main() {}
}
