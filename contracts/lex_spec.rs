// ---- the lexical grammar, over the text s, as predicates on positions
pub open spec fn DIGIT() -> int { 0 }
pub open spec fn HEX() -> int { 1 }
pub open spec fn DIGDOT() -> int { 2 }
pub open spec fn WORD() -> int { 3 }
pub open spec fn LINE() -> int { 4 }
pub open spec fn EQS() -> int { 5 }
pub open spec fn cls(k: int, c: char) -> bool {
    if k == 0 { sp_digit(c) } else if k == 1 { c.cx() } else if k == 2 { sp_digit(c) || c == '.' }
    else if k == 3 { sp_digit(c) || sp_alpha(c) || c == '_' } else if k == 4 { c != '\n' } else { c == '=' }
}
/// [p, q) is the longest run of characters of class k starting at p
pub open spec fn run(s: Seq<char>, p: int, q: int, k: int) -> bool {
    0 <= p <= q <= s.len() && (forall|i: int| p <= i < q ==> cls(k, #[trigger] s[i])) && (q < s.len() ==> !cls(k, s[q]))
}
pub open spec fn run_end(s: Seq<char>, p: int, k: int) -> int decreases s.len() - p {
    if 0 <= p < s.len() && cls(k, s[p]) { run_end(s, p + 1, k) } else { p }
}
pub proof fn run_is(s: Seq<char>, p: int, q: int, k: int) requires run(s, p, q, k) ensures run_end(s, p, k) == q decreases q - p
{ if p < q { assert(cls(k, s[p])); run_is(s, p + 1, q, k); } }
pub broadcast proof fn b_run(s: Seq<char>, p: int, q: int, k: int) requires #[trigger] run(s, p, q, k) ensures run_end(s, p, k) == q { run_is(s, p, q, k); }
pub proof fn run_of(s: Seq<char>, p: int, k: int) requires 0 <= p <= s.len() ensures run(s, p, run_end(s, p, k), k) decreases s.len() - p
{ if p < s.len() && cls(k, s[p]) { run_of(s, p + 1, k); } }
/// is the character at k, in a string whose text starts at p, escaped by a backslash?
pub open spec fn esc(s: Seq<char>, p: int, k: int) -> bool decreases k - p { if k <= p { false } else { !esc(s, p, k - 1) && s[k - 1] == '\\' } }
/// `]`, n times `=`, `]` at c
pub open spec fn close_at(s: Seq<char>, c: int, n: int) -> bool {
    0 <= c && c + n + 1 < s.len() && s[c] == ']' && (forall|i: int| c < i <= c + n ==> #[trigger] s[i] == '=') && s[c + n + 1] == ']'
}
/// the long bracket text that starts at p ends at c
pub open spec fn lclose(s: Seq<char>, p: int, n: int, c: int) -> bool { p <= c && close_at(s, c, n) && forall|d: int| p <= d < c ==> !#[trigger] close_at(s, d, n) }
pub open spec fn unclosed(s: Seq<char>, p: int, n: int) -> bool { forall|d: int| p <= d ==> !#[trigger] close_at(s, d, n) }
/// the level of the long bracket that opens at p (s[p] is `[`), if one opens there
pub open spec fn lopen(s: Seq<char>, p: int) -> Option<int> {
    let q = run_end(s, p + 1, EQS());
    if p < s.len() && s[p] == '[' && q < s.len() && s[q] == '[' { Some(q - p - 1) } else { None }
}
/// what follows `--` at p: the comment token ends at e, with this level and text
pub open spec fn comment_from(s: Seq<char>, p: int, e: int, lvl: Option<int>, val: Seq<char>) -> bool {
    0 <= p <= e <= s.len() && match lopen(s, p) {
        Some(n) => lvl == Some(n) && lclose(s, p + n + 2, n, e - n - 2) && val =~= s.subrange(p + n + 2, e - n - 2),
        None => { let q = run_end(s, p, LINE()); lvl is None && e == (if q < s.len() { q + 1 } else { q }) && p <= q && val =~= s.subrange(p, q) }
    }
}
pub open spec fn dashes(s: Seq<char>, m: int) -> bool { 0 <= m && m + 1 < s.len() && s[m] == '-' && s[m + 1] == '-' }
pub open spec fn comment(s: Seq<char>, m: int, e: int) -> bool { dashes(s, m) && exists|lvl: Option<int>, val: Seq<char>| #[trigger] comment_from(s, m + 2, e, lvl, val) }
pub open spec fn comment_open(s: Seq<char>, m: int) -> bool { dashes(s, m) && match lopen(s, m + 2) { Some(n) => unclosed(s, m + 2 + n + 2, n), None => false } }
pub open spec fn inc(l: Option<usize>) -> Option<int> { match l { Some(n) => Some(n as int), None => None } }

pub proof fn rep_eqs(s: Seq<char>, p: int, n: int)
    requires 0 <= p, 0 <= n, p + n <= s.len(), forall|i: int| p <= i < p + n ==> #[trigger] s[i] == '='
    ensures rep(seq!['='], n) == s.subrange(p, p + n)
    decreases n
{
    if n > 0 { rep_eqs(s, p, n - 1); assert(s[p + n - 1] == '='); }
    assert(rep(seq!['='], n) =~= s.subrange(p, p + n));
}
pub broadcast proof fn b_rep(s: Seq<char>, p: int, q: int)
    requires #[trigger] run(s, p, q, 5)
    ensures rep("="@, q - p) == s.subrange(p, q)
{ reveal_strlit("="); assert("="@ =~= seq!['=']); rep_eqs(s, p, q - p); }
/// no closing bracket starts inside `]` followed by a run of `=`, unless the level and the `]` after it match
pub broadcast proof fn b_close(s: Seq<char>, p: int, q: int, n: int, d: int)
    requires #[trigger] run(s, p, q, 5), 0 < p, 0 <= n, p - 1 <= d < q, #[trigger] close_at(s, d, n)
    ensures d == p - 1 && q == p + n && q < s.len() && s[q] == ']'
{
    if d >= p { assert(s[d] == '='); }
    if q < p + n { assert(s[q] == '='); }
    if q > p + n { assert(s[p + n] == '='); }
}
pub proof fn run_skip(s: Seq<char>, a: int, b: int, k: int)
    requires 0 <= a <= b <= s.len(), forall|i: int| a <= i < b ==> cls(k, #[trigger] s[i]) ensures run_end(s, a, k) == run_end(s, b, k) decreases b - a
{ if a < b { assert(cls(k, s[a])); run_skip(s, a + 1, b, k); } }
pub broadcast proof fn b_skip(s: Seq<char>, p: int, q: int)
    requires #[trigger] run(s, p, q, 5), 0 < p, s[p - 1] != '\n' ensures run_end(s, p - 1, 4) == run_end(s, q, 4)
{ assert forall|i: int| p - 1 <= i < q implies cls(4, #[trigger] s[i]) by { if i >= p { assert(cls(5, s[i])); } } run_skip(s, p - 1, q, 4); }
pub broadcast group g_lex { b_skip, b_run, b_rep, b_close }

/// the numeral whose digits (and points) run from p on ends here; None if its exponent has no digits
pub open spec fn num_end(s: Seq<char>, p: int) -> Option<int> {
    let m = run_end(s, p, DIGDOT());
    if m < s.len() && (s[m] == 'e' || s[m] == 'E') {
        let k = if m + 1 < s.len() && (s[m + 1] == '+' || s[m + 1] == '-') { m + 2 } else { m + 1 };
        let e = run_end(s, k, DIGIT());
        if e > k { Some(e) } else { None }
    } else { Some(m) }
}
/// in a string opened by q whose text starts at p, e is the closing quote
pub open spec fn sclose(s: Seq<char>, p: int, q: char, e: int) -> bool {
    p <= e < s.len() && s[e] == q && !esc(s, p, e) && forall|k: int| p <= k < e ==> (#[trigger] s[k] != q || esc(s, p, k))
}
pub open spec fn sopen(s: Seq<char>, p: int, q: char) -> bool { forall|k: int| p <= k < s.len() ==> (#[trigger] s[k] != q || esc(s, p, k)) }
