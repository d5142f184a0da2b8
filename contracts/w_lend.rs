/// the text ends within a line that holds a comment or is a `#!` line
pub open spec fn line_end(t: Seq<char>) -> bool { exists|m: int| 0 <= m <= t.len() - 2 && #[trigger] mark(t, m) && forall|i: int| m <= i < t.len() ==> #[trigger] t[i] != '\n' }
pub open spec fn mark(t: Seq<char>, m: int) -> bool { (t[m] == '-' && t[m + 1] == '-') || (t[m] == '#' && t[m + 1] == '!') }
