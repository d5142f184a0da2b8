// C06: the Lua lexer
use vstd::prelude::*;
verus! {
//@modules crate parser fmt std
//@include std_shim.rs
//@include lex_shim.rs
//@include lex_util.rs
//@enum Token src/parser/lua_lexer.rs Token
//@typemap Self::Item => Result<(usize, Token, usize), LexicalError>
//@type src/parser/lua_lexer.rs Token
//@type src/parser/lua_lexer.rs LexicalError
//@type src/parser/lua_lexer.rs Lexer | pubfields
impl Token { #[verifier::external_body] pub fn v_clone(&self) -> (r: Token) ensures r == *self { unimplemented!() } }

//@include lex_gap.rs
//@include lex_pred.rs
//@include c06_tok.rs
/// no token, white space or comment starts with this character
pub open spec fn stray(c: char) -> bool {
    !(blank(c) || sp_digit(c) || sp_alpha(c) || c == '_' || c == '^' || c == '#' || c == '*' || c == '/' || c == '%' || c == '+' || c == '-' || c == '<' || c == '>'
        || c == '&' || c == '~' || c == '|' || c == '=' || c == ';' || c == ':' || c == ',' || c == '.' || c == '(' || c == ')' || c == '[' || c == ']' || c == '{' || c == '}' || c == '"' || c == '\'')
}
/// what starts at l is malformed
pub open spec fn bad(s: Seq<char>, l: int) -> bool {
    l < s.len() && (comment_open(s, l) || stray(s[l])
        || (num_start(s, l) && numeral(s, l) is None)
        || ((s[l] == '"' || s[l] == '\'') && sopen(s, l + 1, s[l]))
        || (s[l] == '[' && (match lopen(s, l) { Some(n) => unclosed(s, l + n + 2, n), None => l + 1 < s.len() && s[l + 1] == '=' })))
}
/// the grammar is unambiguous: at most one token starts at a place, and none where the text is malformed or a comment starts
pub proof fn tok_end_unique(s: Seq<char>, l: int, t: Token, e: int, u: Token, f: int)
    requires 0 <= l < e <= s.len(), l < f <= s.len(), tok(s, l, t, e), tok(s, l, u, f)
    ensures e == f
{ broadcast use g_lex; if e < f { assert(cls(WORD(), s[e]) || true); } if f < e { assert(cls(WORD(), s[f]) || true); } }
pub proof fn tok_excludes(s: Seq<char>, l: int, t: Token, e: int)
    requires 0 <= l < e <= s.len(), tok(s, l, t, e)
    ensures !bad(s, l), !blank(s[l]), !dashes(s, l)
{ broadcast use g_lex; if s[l] == '[' { run_of(s, l + 1, EQS()); } }
pub open spec fn lok(x: Lexer) -> bool { x.chars.ok() && x.chars.src() == x.input@ && (x.at_end ==> x.chars.pos() == x.input@.len()) }

//@phf src/parser/lua_lexer.rs KEYWORDS
    ensures r == kw_of(k@),
//@end
//@fn src/parser/lua_lexer.rs Lexer::new | params=input
    ensures lok(r), r.input == input, r.chars.pos() == 0, !r.at_end,
//@end
//@fn src/parser/lua_lexer.rs Lexer::consume_ok | params=l,tok,e
    requires lok(*old(self)), ensures lok(*final(self)), final(self).input == old(self).input, final(self).at_end == old(self).at_end,
        old(self).chars.pos() < old(self).input@.len() ==> final(self).chars.pos() == old(self).chars.pos() + 1,
        r == Some::<Result<(usize, Token, usize), LexicalError>>(Ok((l, tok, e))),
//@end
//@fn src/parser/lua_lexer.rs Lexer as Iterator::next | enum=Token attr="#[verifier::rlimit(100)]"
    requires lok(*old(self)),
    ensures lok(*final(self)), final(self).input == old(self).input, old(self).chars.pos() <= final(self).chars.pos(),
        match r {
            None => old(self).at_end && final(self).at_end,
            Some(Ok((l, t, e))) => skip(old(self).input@, old(self).chars.pos(), l as int) && e == final(self).chars.pos() && (
                if t is EOF { l == e && e == old(self).input@.len() && !old(self).at_end && final(self).at_end }
                else { l < e && e <= old(self).input@.len() && tok(old(self).input@, l as int, t, e as int) && final(self).at_end == old(self).at_end }),
            Some(Err(_)) => exists|l: int| #[trigger] skip(old(self).input@, old(self).chars.pos(), l) && bad(old(self).input@, l),
        },
//@pre
    hide(skip);
    broadcast use g_lex, b_skp, b_skp0;
//@loop 0
    invariant lok(*self), lok(*old(self)), self.input == old(self).input, self.at_end == old(self).at_end, old(self).chars.pos() <= self.chars.pos(),
        skip(old(self).input@, old(self).chars.pos(), self.chars.pos()),
    decreases self.input@.len() - self.chars.pos(),
//@loopbegin 0
    broadcast use g_lex, b_skp, b_skp0;
    let ghost s = self.input@; let ghost p = self.chars.pos();
    proof { reveal_strlit("0x"); reveal_strlit("#!"); if p < s.len() { run_of(s, p + 1, EQS()); run_of(s, p + 1, DIGDOT()); } if p + 1 < s.len() { run_of(s, p + 2, LINE()); run_of(s, p + 2, HEX()); } }
//@end
fn main() {}
}
