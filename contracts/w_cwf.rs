pub open spec fn cwf(n: CNode, s: Seq<char>) -> bool decreases n {
    match n {
        CNode::OneLineComment(l, t) => no_nl(t@),
        CNode::MultiLineComment(l, _, t) => true,
        CNode::NewLine(l) => true,
        CNode::VariantList(l, v) | CNode::CommentList(l, v) => cwfs(v, s, v@.len() as int),
        CNode::NewLineList(l, v) => cwfs(v, s, v@.len() as int) && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).1 is NewLine,
        CNode::Chunk(a, c, b) => cgap_ok(a, s) && cwf(*c, s) && cgap_ok(b, s),
    }
}
pub open spec fn cwfs(v: Vec<(Loc, CNode)>, s: Seq<char>, k: int) -> bool decreases v, k {
    if k <= 0 || k > v@.len() { true } else { cwfs(v, s, k - 1) && cgap_ok(v@[k - 1].0, s) && cwf(v@[k - 1].1, s) }
}
pub open spec fn cgap_ok(l: Loc, s: Seq<char>) -> bool { lvalid(l, s) && is_ws(lsub(l, s)) }
