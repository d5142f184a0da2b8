pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\r' || c == '\t' || c == '\n' }
/// one white space character or one comment takes [m, b)
pub open spec fn step(s: Seq<char>, m: int, b: int) -> bool { 0 <= m < b <= s.len() && ((b == m + 1 && blank(s[m])) || comment(s, m, b)) }
pub open spec fn chain(s: Seq<char>, a: int, b: int, c: Seq<int>) -> bool {
    c.len() > 0 && c[0] == a && c.last() == b && forall|i: int| 0 <= i < c.len() - 1 ==> step(s, #[trigger] c[i], c[i + 1])
}
/// only white space and comments lie between a and b
pub open spec fn skip(s: Seq<char>, a: int, b: int) -> bool { 0 <= a <= b <= s.len() && exists|c: Seq<int>| chain(s, a, b, c) }
pub broadcast proof fn b_skp(s: Seq<char>, a: int, m: int, b: int)
    requires #[trigger] skip(s, a, m), step(s, m, b)
    ensures #[trigger] skip(s, a, b)
{ let c = choose|c: Seq<int>| chain(s, a, m, c); let d = c.push(b);
  assert forall|i: int| 0 <= i < d.len() - 1 implies step(s, #[trigger] d[i], d[i + 1]) by { if i < c.len() - 1 { assert(step(s, c[i], c[i + 1])); } }
  assert(chain(s, a, b, d)); }
pub broadcast proof fn b_skp0(s: Seq<char>, a: int) requires 0 <= a <= s.len() ensures #[trigger] skip(s, a, a) { assert(chain(s, a, a, seq![a])); }
