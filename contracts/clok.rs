/// every position a comment tree names lies inside the text
pub open spec fn clok(n: CNode, s: Seq<char>) -> bool decreases n, 0int {
    match n {
        CNode::OneLineComment(l, _) => lvalid(l, s), CNode::MultiLineComment(l, _, _) => lvalid(l, s), CNode::NewLine(l) => lvalid(l, s),
        CNode::VariantList(l, v) | CNode::CommentList(l, v) | CNode::NewLineList(l, v) => lvalid(l, s) && clok2(v, v@.len() as int, s),
        CNode::Chunk(a, c, b) => lvalid(a, s) && clok(*c, s) && lvalid(b, s) && a.0 <= b.1,
    }
}
pub open spec fn clok2(v: Vec<(Loc, CNode)>, k: int, s: Seq<char>) -> bool decreases v, k { if k <= 0 || k > v@.len() { true } else { clok2(v, k - 1, s) && lvalid(v@[k - 1].0, s) && clok(v@[k - 1].1, s) } }
pub proof fn clok2_get(v: Vec<(Loc, CNode)>, k: int, s: Seq<char>) requires clok2(v, k, s), k <= v@.len() ensures forall|i: int| 0 <= i < k ==> lvalid((#[trigger] v@[i]).0, s) && clok(v@[i].1, s) decreases k
{ if k > 0 { clok2_get(v, k - 1, s); } }
pub open spec fn clstep(n: CNode, s: Seq<char>) -> bool {
    match csp_items(n) { Some(v) => forall|i: int| 0 <= i < v@.len() ==> lvalid((#[trigger] v@[i]).0, s) && clok(v@[i].1, s), None => true }
}
pub proof fn clok_step(n: CNode, s: Seq<char>) requires clok(n, s) ensures clstep(n, s)
{ match n { CNode::VariantList(_, v) | CNode::CommentList(_, v) | CNode::NewLineList(_, v) => clok2_get(v, v@.len() as int, s), _ => {} } }
pub open spec fn csp_items(n: CNode) -> Option<Vec<(Loc, CNode)>> { match n { CNode::VariantList(_, v) | CNode::CommentList(_, v) | CNode::NewLineList(_, v) => Some(v), _ => None } }
