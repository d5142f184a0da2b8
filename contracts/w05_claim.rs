// ---- what the writers promise under a line range
pub open spec fn ooi(range: Option<(usize, usize)>, a: int, b: int) -> bool { match range { Some(p) => b <= p.0 || a >= p.1, None => false } }
pub open spec fn oor(range: Option<(usize, usize)>, span: Loc) -> bool { ooi(range, span.0 as int, span.1 as int) }
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\t' }
/// a list of statements in the text s
pub struct K { pub s: Seq<char>, pub v: Seq<(Loc, Node)>, pub r: Option<(usize, usize)> }
pub open spec fn isub(s: Seq<char>, p: (int, int)) -> Seq<char> { s.subrange(p.0, p.1) }
/// the statement is a text out of the range (which does not end in a blank, being made of tokens)
pub open spec fn outi(k: K, i: int) -> bool { let p = sp(k.v[i].1); verb(k.v[i].1) && 0 <= p.0 < p.1 <= k.s.len() && !blank(k.s[p.1 - 1]) && ooi(k.r, p.0, p.1) }
pub open spec fn outg(k: K, i: int) -> bool { lvalid(k.v[i].0, k.s) && oor(k.r, k.v[i].0) }
/// the first i statements stand in f at the places e; m: the gap behind them, too
pub open spec fn Ve(f: Seq<char>, k: K, i: int, m: bool, e: Seq<(int, int)>) -> bool {
    &&& e.len() == i
    &&& forall|j: int| 0 <= j < i && outi(k, j) ==> 0 <= (#[trigger] e[j]).0 <= e[j].1 <= f.len() && f.subrange(e[j].0, e[j].1) == isub(k.s, sp(k.v[j].1))
    &&& forall|j: int, l: int| 0 <= j < l < i && outi(k, j) && outi(k, l) ==> (#[trigger] e[j]).1 <= (#[trigger] e[l]).0
    &&& forall|j: int| 1 <= j < i && outi(k, j - 1) && outi(k, j) && outg(k, j) ==> f.subrange(e[j - 1].1, (#[trigger] e[j]).0) == lsub(k.v[j].0, k.s)
}
pub open spec fn listed(f: Seq<char>, k: K) -> bool { exists|e: Seq<(int, int)>| #[trigger] Ve(f, k, k.v.len() as int, false, e) }
/// the spans of the statements of a block: inside the text, one behind the other
pub open spec fn wfp(n: Node, s: Seq<char>) -> bool decreases n, 0int {
    &&& 0 <= sp(n).0 <= sp(n).1 <= s.len()
    &&& match n {
        Node::StatementList(_, v) => wfps(v, s, v@.len() as int, sp(n).0) && lend(v@, v@.len() as int, sp(n).0) == sp(n).1,
        Node::StatsRetStat(_, g, a, b) => wfp(*a, s) && wfp(*b, s) && sp(*a).0 == sp(n).0 && sp(*a).1 == g@[0].0 && g@[0].0 <= g@[0].1 && g@[0].1 == sp(*b).0 && sp(*b).1 == sp(n).1,
        Node::Chunk(_, b, _) => wfp(*b, s),
        Node::SheBangChunk(_, _, _, b, _) => wfp(*b, s),
        Node::Semicolon(_) => isub(s, sp(n)) == ";"@,
        Node::Break(_) => isub(s, sp(n)) == "break"@,
        Node::RetStatNone(_) => isub(s, sp(n)) == "return"@,
        _ => true,
    }
}
pub open spec fn wfps(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int) -> bool decreases v, k {
    if k <= 0 || k > v@.len() { true } else { wfps(v, s, k - 1, a) && v@[k - 1].0.0 == lend(v@, k - 1, a) && v@[k - 1].0.0 <= v@[k - 1].0.1 && v@[k - 1].0.1 == sp(v@[k - 1].1).0 && wfp(v@[k - 1].1, s) }
}
pub open spec fn pitem(v: Seq<(Loc, Node)>, s: Seq<char>, i: int, a: int) -> bool { v[i].0.0 == lend(v, i, a) && v[i].0.0 <= v[i].0.1 && v[i].0.1 == sp(v[i].1).0 && wfp(v[i].1, s) }
pub proof fn pget(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int, i: int) requires wfps(v, s, k, a), 0 <= i < k <= v@.len() ensures pitem(v@, s, i, a) decreases k
{ if i < k - 1 { pget(v, s, k - 1, a, i); } }
/// the statements of a chunk's body, as far as they are out of the range, stand in f
pub open spec fn kof(s: Seq<char>, v: Vec<(Loc, Node)>, r: Option<(usize, usize)>) -> K { K { s, v: v@, r } }
pub open spec fn body(f: Seq<char>, n: Node, s: Seq<char>, r: Option<(usize, usize)>) -> bool decreases n {
    match n {
        Node::StatementList(_, v) => listed(f, kof(s, v, r)),
        Node::StatsRetStat(_, _, a, b) => body(f, *a, s, r) && alone(f, *b, s, r),
        _ => alone(f, n, s, r),
    }
}
pub open spec fn alone(f: Seq<char>, n: Node, s: Seq<char>, r: Option<(usize, usize)>) -> bool {
    let p = sp(n); verb(n) && 0 <= p.0 < p.1 <= s.len() && !blank(s[p.1 - 1]) && ooi(r, p.0, p.1) ==> exists|a: int, b: int| 0 <= a <= b <= f.len() && #[trigger] f.subrange(a, b) == isub(s, p)
}
/// statements (what stands in a list of statements), and all else that is written as it stands when it is out of the range
pub open spec fn verb(n: Node) -> bool { !(n is SheBang || n is Chunk || n is SheBangChunk || n is Nil || n is False || n is True || n is VarArg || n is Numeral || n is NormalStringLiteral || n is CharStringLiteral || n is MultiLineStringLiteral || n is Name) }
/// what the writer of a node does
pub open spec fn wrote(f: Seq<char>, f2: Seq<char>, n: Node, s: Seq<char>, r: Option<(usize, usize)>) -> bool {
    &&& verb(n) && ooi(r, sp(n).0, sp(n).1) ==> f2 == f + isub(s, sp(n))
    &&& n is StatementList || n is StatsRetStat ==> body(f2, n, s, r)
    &&& n matches Node::Chunk(_, b, _) ==> body(f2, *b, s, r)
    &&& n matches Node::SheBangChunk(_, _, _, b, _) ==> body(f2, *b, s, r)
}
