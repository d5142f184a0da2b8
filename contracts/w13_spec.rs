// ---- what the writers promise about collapsing: vocabulary
/// characters behind the last line end
pub open spec fn tail_len(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || s.last() == '\n' { 0 } else { 1 + tail_len(s.drop_last()) } }
pub open spec fn no_nl(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n' }
/// the text b, written after f, breaks no line and ends within the width
pub open spec fn fitb(f: Seq<char>, b: Seq<char>, c: Config) -> bool { no_nl(b) && match c.fmt.max_width { Some(m) => tail_len(f) + b.len() <= m, None => false } }
pub open spec fn fits(f: Seq<char>, g: Seq<char>, c: Config) -> bool { exists|b: Seq<char>| #![trigger f + b] #![trigger fitb(f, b, c)] g == f + b && fitb(f, b, c) }
pub proof fn tail_at(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| s.len() - n <= i < s.len() ==> #[trigger] s[i] != '\n', n < s.len() ==> s[s.len() - n - 1] == '\n'
    ensures tail_len(s) == n decreases n
{ if n > 0 { assert(s.last() == s[s.len() - 1]); let t = s.drop_last(); assert forall|i: int| t.len() - (n - 1) <= i < t.len() implies #[trigger] t[i] != '\n' by { assert(t[i] == s[i]); } if n < s.len() { assert(t[t.len() - (n - 1) - 1] == s[s.len() - n - 1]); } tail_at(t, n - 1); } else if s.len() > 0 { assert(s.last() == s[s.len() - 1]); } }
pub broadcast proof fn tail_rev(s: Seq<char>, n: int)
    requires #[trigger] s.reverse().take(n).len() == n, 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> #[trigger] s.reverse()[i] != '\n', n < s.len() ==> s.reverse()[n] == '\n'
    ensures tail_len(s) == n
{ assert forall|i: int| s.len() - n <= i < s.len() implies #[trigger] s[i] != '\n' by { assert(s.reverse()[s.len() - 1 - i] == s[i]); } if n < s.len() { assert(s.reverse()[n] == s[s.len() - n - 1]); } tail_at(s, n); }
pub open spec fn oor(range: Option<(usize, usize)>, span: Loc) -> bool { match range { Some(p) => span.1 <= p.0 || span.0 >= p.1, None => false } }
pub open spec fn ncc(range: Option<(usize, usize)>, span: Loc) -> bool { match range { Some(p) => (span.0 < p.0 && span.1 > p.0) || (span.0 < p.1 && span.1 > p.1), None => false } }
/// no break is forgotten
pub open spec fn mono(a: State, b: State) -> bool { a.ev@.subset_of(b.ev@) && a.pos_range == b.pos_range }
/// the line breaks that an option asks for in this construct: whether it does, and the gap in front of its last token
pub open spec fn breaks(n: Node, c: Config) -> Option<Loc> {
    match n {
        Node::IfThen(_, g, _) => if c.fmt.newline_format_if == Some(1usize) { Some(g@[2]) } else { None },
        Node::IfThenB(_, g, _, _) => if c.fmt.newline_format_if == Some(1usize) { Some(g@[3]) } else { None },
        Node::IfThenElse(_, g, _) => if c.fmt.newline_format_if == Some(1usize) { Some(g@[3]) } else { None },
        Node::IfThenBElse(_, g, _, _) => if c.fmt.newline_format_if == Some(1usize) { Some(g@[4]) } else { None },
        Node::IfThenElseB(_, g, _, _) => if c.fmt.newline_format_if == Some(1usize) { Some(g@[4]) } else { None },
        Node::IfThenBElseB(_, g, _, _, _) => if c.fmt.newline_format_if == Some(1usize) { Some(g@[5]) } else { None },
        Node::IfThenElseIf(_, g, _, _) => if c.fmt.newline_format_if == Some(1usize) { Some(g@[3]) } else { None },
        Node::IfThenBElseIf(_, g, _, _, _) => if c.fmt.newline_format_if == Some(1usize) { Some(g@[4]) } else { None },
        Node::IfThenElseIfElse(_, g, _, _) => if c.fmt.newline_format_if == Some(1usize) { Some(g@[4]) } else { None },
        Node::IfThenBElseIfElse(_, g, _, _, _) => if c.fmt.newline_format_if == Some(1usize) { Some(g@[5]) } else { None },
        Node::IfThenElseIfElseB(_, g, _, _, _) => if c.fmt.newline_format_if == Some(1usize) { Some(g@[5]) } else { None },
        Node::IfThenBElseIfElseB(_, g, _, _, _, _) => if c.fmt.newline_format_if == Some(1usize) { Some(g@[6]) } else { None },
        Node::FuncBody(_, g) => if c.fmt.newline_format_function == Some(1usize) { Some(g@[1]) } else { None },
        Node::FuncBodyB(_, g, _) => if c.fmt.newline_format_function == Some(1usize) { Some(g@[2]) } else { None },
        Node::FuncPBody(_, g, _) => if c.fmt.newline_format_function == Some(1usize) { Some(g@[2]) } else { None },
        Node::FuncPBodyB(_, g, _, _) => if c.fmt.newline_format_function == Some(1usize) { Some(g@[3]) } else { None },
        Node::TableConstructor(_, g, _, o) => if c.fmt.newline_format_table_constructor == Some(1usize)
            && !(c.fmt.force_single_line_table == Some(true) && o.is_iv_table == Some(true) && o.is_single_child == Some(true)) { Some(g@[1]) } else { None },
        _ => None,
    }
}
pub open spec fn span_of(n: Node) -> Loc {
    match n {
        Node::IfThen(a, _, _) | Node::IfThenB(a, _, _, _) | Node::IfThenElse(a, _, _) | Node::IfThenBElse(a, _, _, _) | Node::IfThenElseB(a, _, _, _) | Node::IfThenBElseB(a, _, _, _, _) | Node::IfThenElseIf(a, _, _, _)
            | Node::IfThenBElseIf(a, _, _, _, _) | Node::IfThenElseIfElse(a, _, _, _) | Node::IfThenBElseIfElse(a, _, _, _, _) | Node::IfThenElseIfElseB(a, _, _, _, _) | Node::IfThenBElseIfElseB(a, _, _, _, _, _)
            | Node::FuncBody(a, _) | Node::FuncBodyB(a, _, _) | Node::FuncPBody(a, _, _) | Node::FuncPBodyB(a, _, _, _) | Node::TableConstructor(a, _, _, _) => a,
        _ => Loc(0, 0),
    }
}
pub open spec fn indent_text(c: Config, l: int) -> Seq<char> { match c.fmt.indentation_string { Some(s) => rep(s@, l), None => Seq::empty() } }
/// s ends in a line that holds nothing but ind
pub open spec fn broken(s: Seq<char>, ind: Seq<char>) -> bool { exists|p: Seq<char>| p.len() > 0 && p.last() == '\n' && s == #[trigger] (p + ind) }
pub proof fn lits() ensures "\n"@.len() == 1, "\n"@[0] == '\n' { reveal_strlit("\n"); }
/// one way of writing is as good as another, here
pub fn w_lit(f: &mut String, s: &str) -> (r: WR) ensures final(f)@ == old(f)@ + s@ { raw_str(f, s) }
pub fn w_ws(f: &mut String, s: &str) -> (r: WR) ensures final(f)@ == old(f)@ + s@ { raw_str(f, s) }
pub fn w_disp<T: Disp + ?Sized>(f: &mut String, x: &T) -> (r: WR) ensures final(f)@ == old(f)@ + x.d() { raw_disp(f, x) }
