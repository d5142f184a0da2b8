/// white space and comments, which the token in front does not swallow
#[verifier::opaque] pub open spec fn trivia(s: Seq<char>, a: int, b: int) -> bool { skip(s, a, b) && !(0 < a < s.len() && s[a - 1] == '-' && s[a] == '-') }
