pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\r' || c == '\t' }
/// only blanks lie between a and b
pub open spec fn gap(s: Seq<char>, a: int, b: int) -> bool { 0 <= a <= b <= s.len() && forall|i: int| a <= i < b ==> blank(#[trigger] s[i]) }
pub open spec fn tok(s: Seq<char>, l: int, t: Token, e: int) -> bool {
    match t {
        Token::NewLine => e == l + 1 && s[l] == '\n',
        Token::OneLineComment(v) => dashes(s, l) && comment_from(s, l + 2, e, None, v@),
        Token::MultiLineComment(n, v) => dashes(s, l) && comment_from(s, l + 2, e, Some(n as int), v@),
        Token::EOF => false,
    }
}
