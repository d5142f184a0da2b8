pub open spec fn csp(n: CNode) -> (int, int) {
    match n {
        CNode::OneLineComment(a, _) | CNode::MultiLineComment(a, _, _) | CNode::NewLine(a) | CNode::VariantList(a, _) | CNode::CommentList(a, _) | CNode::NewLineList(a, _) => (a.0 as int, a.1 as int),
        CNode::Chunk(a, _, b) => (a.0 as int, b.1 as int),
    }
}
/// the text of a block comment
pub open spec fn mlc(level: int, t: Seq<char>) -> Seq<char> { "--["@ + rep("="@, level) + "["@ + t + "]"@ + rep("="@, level) + "]"@ }
/// does it end in a line comment that the text ends, not the line?
pub open spec fn endnl(n: CNode) -> bool decreases n {
    match n {
        CNode::OneLineComment(l, t) => l.1 - l.0 == t@.len() + 2,
        CNode::VariantList(_, v) | CNode::CommentList(_, v) | CNode::NewLineList(_, v) => endnls(v, v@.len() as int),
        CNode::Chunk(_, c, _) => endnl(*c),
        _ => false,
    }
}
pub open spec fn endnls(v: Vec<(Loc, CNode)>, k: int) -> bool decreases v { if 0 < k <= v@.len() { endnl(v@[k - 1].1) } else { false } }
pub open spec fn clend(v: Seq<(Loc, CNode)>, k: int, a: int) -> int { if k <= 0 { a } else { csp(v[k - 1].1).1 } }
/// the tree holds the text
pub open spec fn cwt(n: CNode, s: Seq<char>) -> bool decreases n {
    match n {
        CNode::OneLineComment(l, t) => l.0 < l.1 <= s.len() && (s.subrange(l.0 as int, l.1 as int) == "--"@ + t@ + "\n"@ || (l.1 == s.len() && s.subrange(l.0 as int, l.1 as int) == "--"@ + t@)),
        CNode::MultiLineComment(l, k, t) => l.0 < l.1 <= s.len() && s.subrange(l.0 as int, l.1 as int) == mlc(k as int, t@),
        CNode::NewLine(l) => l.0 < l.1 <= s.len() && s.subrange(l.0 as int, l.1 as int) == "\n"@,
        CNode::VariantList(l, v) | CNode::CommentList(l, v) | CNode::NewLineList(l, v) => l.0 <= l.1 <= s.len() && cwts(v, s, v@.len() as int, l.0 as int) && clend(v@, v@.len() as int, l.0 as int) == l.1,
        CNode::Chunk(a, c, b) => a.0 == 0 && a.1 == csp(*c).0 && cwt(*c, s) && b.0 == csp(*c).1 && b.0 <= b.1 == s.len(),
    }
}
pub open spec fn cwts(v: Vec<(Loc, CNode)>, s: Seq<char>, k: int, a: int) -> bool decreases v, k {
    if k <= 0 || k > v@.len() { true } else {
        cwts(v, s, k - 1, a) && v@[k - 1].0.0 == clend(v@, k - 1, a) && v@[k - 1].0.0 <= v@[k - 1].0.1 && v@[k - 1].0.1 == csp(v@[k - 1].1).0
            && csp(v@[k - 1].1).0 < csp(v@[k - 1].1).1 <= s.len() && cwt(v@[k - 1].1, s)
    }
}
