// written by gen_tok.py
pub open spec fn tok(s: Seq<char>, l: int, t: Token, e: int) -> bool {
    match t {
        Token::OpExponentiation => e == l + 1 && s[l + 0] == '^',
        Token::OpLength => e == l + 1 && s[l + 0] == '#' && !(e < s.len() && s[e] == '!'),
        Token::OpMultiplication => e == l + 1 && s[l + 0] == '*',
        Token::OpDivision => e == l + 1 && s[l + 0] == '/' && !(e < s.len() && s[e] == '/'),
        Token::OpFloorDivision => e == l + 2 && e <= s.len() && s[l + 0] == '/' && s[l + 1] == '/',
        Token::OpModulo => e == l + 1 && s[l + 0] == '%',
        Token::OpAddition => e == l + 1 && s[l + 0] == '+',
        Token::Minus => e == l + 1 && s[l + 0] == '-' && !(e < s.len() && s[e] == '-'),
        Token::OpConcatenation => e == l + 2 && e <= s.len() && s[l + 0] == '.' && s[l + 1] == '.' && !(e < s.len() && s[e] == '.'),
        Token::OpLeftShift => e == l + 2 && e <= s.len() && s[l + 0] == '<' && s[l + 1] == '<',
        Token::OpRightShift => e == l + 2 && e <= s.len() && s[l + 0] == '>' && s[l + 1] == '>',
        Token::OpBitwiseAnd => e == l + 1 && s[l + 0] == '&',
        Token::Tilde => e == l + 1 && s[l + 0] == '~' && !(e < s.len() && s[e] == '='),
        Token::OpBitwiseOr => e == l + 1 && s[l + 0] == '|',
        Token::OpEquality => e == l + 2 && e <= s.len() && s[l + 0] == '=' && s[l + 1] == '=',
        Token::OpInequality => e == l + 2 && e <= s.len() && s[l + 0] == '~' && s[l + 1] == '=',
        Token::OpLessThan => e == l + 1 && s[l + 0] == '<' && !(e < s.len() && s[e] == '<') && !(e < s.len() && s[e] == '='),
        Token::OpGreaterThan => e == l + 1 && s[l + 0] == '>' && !(e < s.len() && s[e] == '>') && !(e < s.len() && s[e] == '='),
        Token::OpLessOrEqual => e == l + 2 && e <= s.len() && s[l + 0] == '<' && s[l + 1] == '=',
        Token::OpGreaterOrEqual => e == l + 2 && e <= s.len() && s[l + 0] == '>' && s[l + 1] == '=',
        Token::Semicolon => e == l + 1 && s[l + 0] == ';',
        Token::Comma => e == l + 1 && s[l + 0] == ',',
        Token::Colon => e == l + 1 && s[l + 0] == ':' && !(e < s.len() && s[e] == ':'),
        Token::Label => e == l + 2 && e <= s.len() && s[l + 0] == ':' && s[l + 1] == ':',
        Token::EqualsSign => e == l + 1 && s[l + 0] == '=' && !(e < s.len() && s[e] == '='),
        Token::Period => e == l + 1 && s[l + 0] == '.' && !(e < s.len() && s[e] == '.') && !(e < s.len() && sp_digit(s[e])),
        Token::OpenRoundBracket => e == l + 1 && s[l + 0] == '(',
        Token::CloseRoundBracket => e == l + 1 && s[l + 0] == ')',
        Token::OpenSquareBracket => e == l + 1 && s[l + 0] == '[' && !(e < s.len() && s[e] == '[') && !(e < s.len() && s[e] == '='),
        Token::CloseSquareBracket => e == l + 1 && s[l + 0] == ']',
        Token::OpenCurlyBracket => e == l + 1 && s[l + 0] == '{',
        Token::CloseCurlyBracket => e == l + 1 && s[l + 0] == '}',
        Token::VarArg => e == l + 3 && e <= s.len() && s[l + 0] == '.' && s[l + 1] == '.' && s[l + 2] == '.',
        Token::Variable(v) => word(s, l, e) && v@ == s.subrange(l, e) && !is_kw(v@),
        Token::Numeral(v) => numeral(s, l) == Some(e) && v@ =~= s.subrange(l, e),
        Token::NormalStringLiteral(v) => s[l] == '"' && sclose(s, l + 1, '"', e - 1) && v@ == s.subrange(l + 1, e - 1),
        Token::CharStringLiteral(v) => s[l] == '\'' && sclose(s, l + 1, '\'', e - 1) && v@ == s.subrange(l + 1, e - 1),
        Token::MultiLineStringLiteral(n, v) => lopen(s, l) == Some(n as int) && lclose(s, l + n + 2, n as int, e - n - 2) && v@ == s.subrange(l + n + 2, e - n - 2),
        Token::SheBang(v) => l + 1 < s.len() && s[l] == '#' && s[l + 1] == '!' && ({ let q = run_end(s, l + 2, LINE()); e == (if q < s.len() { q + 1 } else { q }) && v@ =~= s.subrange(l, q) }),
        Token::EOF => false,
        _ => word(s, l, e) && kw_of(s.subrange(l, e)) == Some(t),
    }
}
/// the keywords of Lua 5.3
pub open spec fn kw_of(x: Seq<char>) -> Option<Token> {
    if x == "and"@ { Some(Token::OpLogicalAnd) }
    else if x == "break"@ { Some(Token::Break) }
    else if x == "do"@ { Some(Token::Do) }
    else if x == "else"@ { Some(Token::Else) }
    else if x == "elseif"@ { Some(Token::ElseIf) }
    else if x == "end"@ { Some(Token::End) }
    else if x == "false"@ { Some(Token::False) }
    else if x == "for"@ { Some(Token::For) }
    else if x == "function"@ { Some(Token::Function) }
    else if x == "goto"@ { Some(Token::GoTo) }
    else if x == "if"@ { Some(Token::If) }
    else if x == "in"@ { Some(Token::In) }
    else if x == "local"@ { Some(Token::Local) }
    else if x == "nil"@ { Some(Token::Nil) }
    else if x == "not"@ { Some(Token::OpLogicalNot) }
    else if x == "or"@ { Some(Token::OpLogicalOr) }
    else if x == "repeat"@ { Some(Token::Repeat) }
    else if x == "return"@ { Some(Token::Return) }
    else if x == "then"@ { Some(Token::Then) }
    else if x == "true"@ { Some(Token::True) }
    else if x == "until"@ { Some(Token::Until) }
    else if x == "while"@ { Some(Token::While) }
    else { None }
}
pub open spec fn is_kw(x: Seq<char>) -> bool { kw_of(x) is Some }
