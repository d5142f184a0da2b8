/// what lies in front of a token: nothing, or white space and comments
pub open spec fn gap(s: Seq<char>, a: int, b: int) -> bool { 0 <= a <= b <= s.len() && (a == b || (b < s.len() && trivia(s, a, b))) }
/// the same, at the end
pub open spec fn gape(s: Seq<char>, a: int, b: int) -> bool { 0 <= a <= b <= s.len() && (a == b || trivia(s, a, b)) }
