// C16: the productions of the comment grammar; what the writers of comments (C01, C02) rely on follows from it
#![allow(non_snake_case, non_camel_case_types, unused, dead_code)]
use vstd::prelude::*;
verus! {
//@modules crate parser fmt std common comment_ast comment_lexer comment_syntax
//@include std_shim.rs
//@include lex_shim.rs
//@include lex_spec.rs
//@enum Token src/parser/comment_lexer.rs Token
//@type src/parser/comment_lexer.rs Token
//@include c06_ctok.rs
//@type src/parser/common.rs Loc
//@type src/parser/comment_ast.rs Node
pub open spec fn tok_at(s: Seq<char>, p: int, t: Seq<char>) -> bool { 0 <= p && p + t.len() <= s.len() && s.subrange(p, p + t.len()) == t }
pub open spec fn sp(n: Node) -> (int, int) {
    match n {
        Node::OneLineComment(a, _) | Node::MultiLineComment(a, _, _) | Node::NewLine(a) | Node::VariantList(a, _) | Node::CommentList(a, _) | Node::NewLineList(a, _) => (a.0 as int, a.1 as int),
        Node::Chunk(a, _, b) => (a.0 as int, b.1 as int),
    }
}
pub open spec fn lend(v: Seq<(Loc, Node)>, k: int, a: int) -> int { if k <= 0 { a } else { sp(v[k - 1].1).1 } }
pub open spec fn list_item(v: Seq<(Loc, Node)>, s: Seq<char>, i: int, a: int) -> bool { v[i].0.0 == lend(v, i, a) && v[i].0.1 == sp(v[i].1).0 && gap(s, v[i].0.0 as int, v[i].0.1 as int) }
pub open spec fn wf_list(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int) -> bool decreases v, k {
    if k <= 0 || k > v@.len() { true } else { wf_list(v, s, k - 1, a) && list_item(v@, s, k - 1, a) && wf(v@[k - 1].1, s) }
}
pub open spec fn cmt_node(n: Node) -> bool { n is OneLineComment || n is MultiLineComment }
/// the tree records the text: comment by comment, line end by line end, and the blanks between them
pub open spec fn wf(n: Node, s: Seq<char>) -> bool decreases n {
    match n {
        Node::OneLineComment(l, t) => l.0 < l.1 <= s.len() && tok(s, l.0 as int, Token::OneLineComment(t), l.1 as int),
        Node::MultiLineComment(l, k, t) => l.0 < l.1 <= s.len() && tok(s, l.0 as int, Token::MultiLineComment(k, t), l.1 as int),
        Node::NewLine(l) => l.0 < l.1 <= s.len() && tok(s, l.0 as int, Token::NewLine, l.1 as int),
        Node::VariantList(l, v) => l.0 <= l.1 <= s.len() && wf_list(v, s, v@.len() as int, l.0 as int) && lend(v@, v@.len() as int, l.0 as int) == l.1
            && forall|i: int| 0 <= i < v@.len() ==> ((#[trigger] v@[i]).1 is CommentList || v@[i].1 is NewLineList),
        Node::CommentList(l, v) => l.0 <= l.1 <= s.len() && wf_list(v, s, v@.len() as int, l.0 as int) && lend(v@, v@.len() as int, l.0 as int) == l.1 && v@.len() > 0
            && forall|i: int| 0 <= i < v@.len() ==> cmt_node((#[trigger] v@[i]).1),
        Node::NewLineList(l, v) => l.0 <= l.1 <= s.len() && wf_list(v, s, v@.len() as int, l.0 as int) && lend(v@, v@.len() as int, l.0 as int) == l.1 && v@.len() > 0
            && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).1 is NewLine,
        Node::Chunk(a, c, b) => a.0 == 0 && gap(s, 0, a.1 as int) && sp(*c).0 == a.1 && wf(*c, s) && b.0 == sp(*c).1 && gap(s, b.0 as int, b.1 as int) && b.1 == s.len(),
    }
}
pub proof fn list_of(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int) requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < k ==> #[trigger] list_item(v@, s, i, a) && wf(v@[i].1, s) ensures wf_list(v, s, k, a) decreases k
{ if k > 0 { assert(list_item(v@, s, k - 1, a)); list_of(v, s, k - 1, a); } }
pub proof fn list_get(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int, i: int) requires wf_list(v, s, k, a), 0 <= i < k <= v@.len() ensures list_item(v@, s, i, a), wf(v@[i].1, s) decreases k
{ if i < k - 1 { list_get(v, s, k - 1, a, i); } }
/// a list starts with one or two items
pub broadcast proof fn b_new(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int)
    requires 0 <= k <= 2, k <= v@.len(), k > 0 ==> list_item(v@, s, 0, a) && wf(v@[0].1, s), k > 1 ==> list_item(v@, s, 1, a) && wf(v@[1].1, s) ensures #[trigger] wf_list(v, s, k, a)
{ assert forall|i: int| 0 <= i < k implies #[trigger] list_item(v@, s, i, a) && wf(v@[i].1, s) by { if i > 0 { assert(i == 1); } } list_of(v, s, k, a); }
/// and grows at its end
pub broadcast proof fn b_push(w: Vec<(Loc, Node)>, v: Vec<(Loc, Node)>, s: Seq<char>, k: int, j: int, a: int)
    requires #[trigger] wf_list(v, s, j, a), 0 < j == v@.len(), j < k <= j + 2, k == w@.len(), forall|i: int| 0 <= i < j ==> w@[i] == #[trigger] v@[i],
        list_item(w@, s, j, a) && wf(w@[j].1, s), k == j + 2 ==> list_item(w@, s, j + 1, a) && wf(w@[j + 1].1, s) ensures #[trigger] wf_list(w, s, k, a)
{ assert forall|i: int| 0 <= i < k implies #[trigger] list_item(w@, s, i, a) && wf(w@[i].1, s) by { if i < j { list_get(v, s, j, a, i); assert(w@[i] == v@[i]); if i > 0 { assert(w@[i - 1] == v@[i - 1]); } } else if i > j { assert(i == j + 1); } } list_of(w, s, k, a); }
pub broadcast proof fn w_VariantList(l: Loc, v: Vec<(Loc, Node)>, s: Seq<char>) ensures #[trigger] wf(Node::VariantList(l, v), s) == (l.0 <= l.1 <= s.len() && wf_list(v, s, v@.len() as int, l.0 as int) && lend(v@, v@.len() as int, l.0 as int) == l.1
            && forall|i: int| 0 <= i < v@.len() ==> ((#[trigger] v@[i]).1 is CommentList || v@[i].1 is NewLineList)) { }
pub broadcast proof fn w_Chunk(a: Loc, c: Box<Node>, b: Loc, s: Seq<char>) ensures #[trigger] wf(Node::Chunk(a, c, b), s) == (a.0 == 0 && gap(s, 0, a.1 as int) && sp(*c).0 == a.1 && wf(*c, s) && b.0 == sp(*c).1 && gap(s, b.0 as int, b.1 as int) && b.1 == s.len()) { }
pub broadcast group g_c { b_new, b_push, w_VariantList, w_Chunk }
// ---- what C01 and C02 rely on
pub use Node as CNode;
pub uninterp spec fn other_ws(c: char) -> bool;
pub open spec fn ws_ch(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || other_ws(c) }
pub open spec fn is_ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> ws_ch(#[trigger] s[i]) }
pub open spec fn no_nl(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n' }
pub open spec fn lvalid(l: Loc, s: Seq<char>) -> bool { 0 <= l.0 <= l.1 <= s.len() }
pub open spec fn lsub(l: Loc, s: Seq<char>) -> Seq<char> { s.subrange(l.0 as int, l.1 as int) }
//@include w_cwf.rs
proof fn gap_cgap(l: Loc, s: Seq<char>) requires gap(s, l.0 as int, l.1 as int) ensures cgap_ok(l, s)
{ assert forall|i: int| 0 <= i < lsub(l, s).len() implies ws_ch(#[trigger] lsub(l, s)[i]) by { assert(blank(s[l.0 + i])); } }
proof fn cwfs_from_wf(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int) requires wf_list(v, s, k, a), 0 <= k <= v@.len() ensures cwfs(v, s, k) decreases v, k
{ if k > 0 { cwfs_from_wf(v, s, k - 1, a); gap_cgap(v@[k - 1].0, s); cwf_from_wf(v@[k - 1].1, s); } }
/// parse_comment's promise to the writers of comments
pub proof fn cwf_from_wf(n: Node, s: Seq<char>) requires wf(n, s) ensures cwf(n, s) decreases n
{
    match n {
        Node::OneLineComment(l, t) => {
            run_of(s, l.0 + 2, LINE());
            assert forall|i: int| 0 <= i < t@.len() implies #[trigger] t@[i] != '\n' by { assert(cls(LINE(), s[l.0 + 2 + i])); }
        }
        Node::VariantList(l, v) => cwfs_from_wf(v, s, v@.len() as int, l.0 as int),
        Node::CommentList(l, v) => cwfs_from_wf(v, s, v@.len() as int, l.0 as int),
        Node::NewLineList(l, v) => cwfs_from_wf(v, s, v@.len() as int, l.0 as int),
        Node::Chunk(a, c, b) => { gap_cgap(a, s); gap_cgap(b, s); cwf_from_wf(*c, s); }
        _ => { }
    }
}
// ---- what C04 relies on
pub mod lg {
use super::*;
//@include lex_gap.rs
//@include lex_trivia.rs
}
//@include w_lend.rs
//@include w_cwt.rs
proof fn sub_run(s: Seq<char>, a: int, b: int, p: int, k: int) requires 0 <= a <= b <= s.len(), 0 <= p <= b - a
    ensures ({ let t = s.subrange(a, b); let q = run_end(t, p, k); p <= q <= t.len() && (if q < t.len() { run_end(s, a + p, k) == a + q } else { run_end(s, a + p, k) >= b }) })
    decreases b - a - p
{ let t = s.subrange(a, b); run_of(t, p, k); if p < t.len() { assert(t[p] == s[a + p]); if cls(k, t[p]) { sub_run(s, a, b, p + 1, k); } } else { run_of(s, a + p, k); } }
proof fn sub_close(s: Seq<char>, a: int, b: int, c: int, n: int) requires 0 <= a <= b <= s.len(), 0 <= n
    ensures close_at(s.subrange(a, b), c, n) ==> close_at(s, a + c, n), 0 <= c && c + n + 1 < b - a && close_at(s, a + c, n) ==> close_at(s.subrange(a, b), c, n)
{ let t = s.subrange(a, b);
  if close_at(t, c, n) { assert forall|i: int| a + c < i <= a + c + n implies #[trigger] s[i] == '=' by { assert(t[i - a] == '='); } assert(t[c] == s[a + c] && t[c + n + 1] == s[a + c + n + 1]); }
  if 0 <= c && c + n + 1 < b - a && close_at(s, a + c, n) { assert forall|i: int| c < i <= c + n implies #[trigger] t[i] == '=' by { assert(s[a + i] == '='); } } }
/// where a comment ends is not up to choice
proof fn comment_det(s: Seq<char>, p: int, e: int, l: Option<int>, v: Seq<char>, e2: int, l2: Option<int>, v2: Seq<char>)
    requires comment_from(s, p, e, l, v), comment_from(s, p, e2, l2, v2) ensures e == e2, l == l2
{ match lopen(s, p) { Some(n) => { let c = e - n - 2; let d = e2 - n - 2; if c < d { assert(close_at(s, c, n)); } if d < c { assert(close_at(s, d, n)); } } None => {} } }
proof fn step_det(s: Seq<char>, m: int, x: int, y: int) requires lg::step(s, m, x), lg::step(s, m, y) ensures x == y
{ if dashes(s, m) { let (l, v) = choose|l: Option<int>, v: Seq<char>| #[trigger] comment_from(s, m + 2, x, l, v); let (l2, v2) = choose|l: Option<int>, v: Seq<char>| #[trigger] comment_from(s, m + 2, y, l, v); comment_det(s, m + 2, x, l, v, y, l2, v2); } }
/// a step within the text a..b is a step of the whole text, unless it is a line comment that reaches b
proof fn step_sub(s: Seq<char>, a: int, b: int, m: int, e: int) requires 0 <= a <= b <= s.len(), lg::step(s.subrange(a, b), m, e), e < b - a ensures lg::step(s, a + m, a + e)
{ let t = s.subrange(a, b);
  if !(e == m + 1 && lg::blank(t[m])) { let (l, v) = choose|l: Option<int>, v: Seq<char>| #[trigger] comment_from(t, m + 2, e, l, v); let p = m + 2;
    sub_lopen(s, a, b, p, e, l, v); assert(dashes(s, a + m));
    match lopen(t, p) {
      Some(n) => { run_of(t, p + 1, EQS()); let c = e - n - 2; sub_close(s, a, b, c, n);
        assert forall|d: int| a + p + n + 2 <= d < a + c implies !#[trigger] close_at(s, d, n) by { sub_close(s, a, b, d - a, n); assert(!close_at(t, d - a, n)); }
        assert(t.subrange(p + n + 2, e - n - 2) =~= s.subrange(a + p + n + 2, a + e - n - 2)); assert(comment_from(s, (a + m) + 2, a + e, l, v)); }
      None => { sub_run(s, a, b, p, LINE()); let q = run_end(t, p, LINE()); run_of(t, p, LINE()); assert(t.subrange(p, q) =~= s.subrange(a + p, a + q)); assert(comment_from(s, (a + m) + 2, a + e, l, v)); }
    } } else { assert(t[m] == s[a + m]); } }
proof fn sub_lopen(s: Seq<char>, a: int, b: int, p: int, e: int, l: Option<int>, v: Seq<char>)
    requires 0 <= a <= b <= s.len(), comment_from(s.subrange(a, b), p, e, l, v), e < b - a ensures lopen(s, a + p) == lopen(s.subrange(a, b), p)
{ let t = s.subrange(a, b); 
  if p < t.len() { assert(t[p] == s[a + p]); }
  if p + 1 <= t.len() { sub_run(s, a, b, p + 1, EQS()); let q = run_end(t, p + 1, EQS()); if q < t.len() { assert(t[q] == s[a + q]); }
    else { run_of(t, p + 1, EQS()); sub_run(s, a, b, p, LINE()); let z = run_end(t, p, LINE()); run_of(t, p, LINE()); if z < t.len() { assert(t[z] == '\n'); if z > p { assert(cls(EQS(), t[z])); } } } } }
/// a line comment that reaches the end of a..b goes on behind it
proof fn line_cut(s: Seq<char>, a: int, b: int, m: int, x: int) requires 0 <= a <= b < s.len(), openm(s.subrange(a, b), m), lg::step(s, a + m, x) ensures x > b
{ let t = s.subrange(a, b); let p = m + 2; assert(t[m] == s[a + m]); assert(dashes(s, a + m)) by { assert(t[m + 1] == s[a + m + 1]); }
  let (l, v) = choose|l: Option<int>, v: Seq<char>| #[trigger] comment_from(s, a + m + 2, x, l, v);
  sub_run(s, a, b, p, LINE());
  match lopen(s, a + p) { Some(n) => { let q = run_end(s, a + p + 1, EQS()); if p + 1 <= t.len() { sub_run(s, a, b, p + 1, EQS()); if a + p < b { assert(t[p] == s[a + p]); } let q2 = run_end(t, p + 1, EQS()); if q2 < t.len() { assert(t[q2] == s[a + q2]); assert(lopen(t, p) is Some); } } }
    None => {} } }
/// a line comment starts at m and the text ends before its line does
spec fn openm(t: Seq<char>, m: int) -> bool { dashes(t, m) && lopen(t, m + 2) is None && run_end(t, m + 2, LINE()) == t.len() }
/// white space and comments, the last of which the text ends, not its line
pub closed spec fn openc(t: Seq<char>) -> bool { exists|m: int| lg::skip(t, 0, m) && #[trigger] openm(t, m) }
proof fn chain_mono(s: Seq<char>, a: int, b: int, c: Seq<int>, i: int, j: int) requires lg::chain(s, a, b, c), 0 <= i <= j < c.len() ensures c[i] <= c[j] decreases j - i
{ if i < j { assert(lg::step(s, c[i], c[i + 1])); chain_mono(s, a, b, c, i + 1, j); } }
/// two ways from a: the shorter is the start of the longer
proof fn chain_same(s: Seq<char>, a: int, b: int, c: Seq<int>, x: int, d: Seq<int>, i: int) requires lg::chain(s, a, b, c), lg::chain(s, a, x, d), x < b, 0 <= i < d.len() ensures i < c.len() - 1, c[i] == d[i] decreases i
{ if i > 0 { chain_same(s, a, b, c, x, d, i - 1); assert(lg::step(s, c[i - 1], c[i - 1 + 1])); assert(lg::step(s, d[i - 1], d[i - 1 + 1])); step_det(s, c[i - 1], c[i], d[i]); }
  chain_mono(s, a, x, d, i, d.len() - 1); if i >= c.len() - 1 { assert(c.last() == b); } }
proof fn openc_cut(s: Seq<char>, a: int, b: int) requires lg::skip(s, a, b), b < s.len() ensures !openc(s.subrange(a, b))
{ let t = s.subrange(a, b);
  if openc(t) { let m = choose|m: int| lg::skip(t, 0, m) && #[trigger] openm(t, m); let c = choose|c: Seq<int>| lg::chain(s, a, b, c); let d = choose|d: Seq<int>| lg::chain(t, 0, m, d);
    let e = d.map_values(|i: int| a + i); 
    assert forall|i: int| 0 <= i < e.len() - 1 implies lg::step(s, #[trigger] e[i], e[i + 1]) by { assert(lg::step(t, d[i], d[i + 1])); chain_mono(t, 0, m, d, i + 1, d.len() - 1); step_sub(s, a, b, d[i], d[i + 1]); }
    assert(lg::chain(s, a, a + m, e)); let i = e.len() - 1; chain_same(s, a, b, c, a + m, e, i); assert(c[i] == a + m); assert(lg::step(s, c[i], c[i + 1])); line_cut(s, a, b, m, c[i + 1]); chain_mono(s, a, b, c, i + 1, c.len() - 1); } }
/// the writers' facts about white space and comments
pub proof fn trivia_facts(s: Seq<char>, a: int, b: int) requires lg::trivia(s, a, b), 0 <= a <= b <= s.len()
    ensures 0 < a < s.len() ==> !(s[a - 1] == '-' && s[a] == '-'), b < s.len() ==> !openc(s.subrange(a, b))
{ reveal(lg::trivia); if b < s.len() { openc_cut(s, a, b); } }
pub proof fn openc_facts(t: Seq<char>) requires openc(t) ensures line_end(t)
{ let m = choose|m: int| lg::skip(t, 0, m) && #[trigger] openm(t, m); run_of(t, m + 2, LINE()); assert(mark(t, m)); assert forall|i: int| m <= i < t.len() implies #[trigger] t[i] != '\n' by { if i >= m + 2 { assert(cls(LINE(), t[i])); } } }
proof fn skip_gap(s: Seq<char>, o: int, a: int, b: int) requires lg::skip(s, o, a), gap(s, a, b) ensures lg::skip(s, o, b) decreases b - a
{ if a < b { skip_gap(s, o, a, b - 1); assert(blank(s[b - 1])); lg::b_skp(s, o, b - 1, b); } }
/// the parts of a tree, one after the other
proof fn tree_skip(n: Node, s: Seq<char>, o: int) requires wf(n, s), lg::skip(s, o, sp(n).0) ensures lg::skip(s, o, sp(n).1) decreases n
{ match n {
    Node::OneLineComment(l, t) => { assert(comment_from(s, l.0 + 2, l.1 as int, None, t@)); lg::b_skp(s, o, l.0 as int, l.1 as int); }
    Node::MultiLineComment(l, k, t) => { assert(comment_from(s, l.0 + 2, l.1 as int, Some(k as int), t@)); lg::b_skp(s, o, l.0 as int, l.1 as int); }
    Node::NewLine(l) => { lg::b_skp(s, o, l.0 as int, l.1 as int); }
    Node::VariantList(l, v) => { list_skip(v, s, v@.len() as int, l.0 as int, o); }
    Node::CommentList(l, v) => { list_skip(v, s, v@.len() as int, l.0 as int, o); }
    Node::NewLineList(l, v) => { list_skip(v, s, v@.len() as int, l.0 as int, o); }
    Node::Chunk(a, c, b) => { skip_gap(s, o, 0, a.1 as int); tree_skip(*c, s, o); skip_gap(s, o, b.0 as int, b.1 as int); }
} }
proof fn list_skip(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int, o: int) requires wf_list(v, s, k, a), 0 <= k <= v@.len(), lg::skip(s, o, a) ensures lg::skip(s, o, lend(v@, k, a)) decreases v, k
{ if k > 0 { list_skip(v, s, k - 1, a, o); skip_gap(s, o, v@[k - 1].0.0 as int, v@[k - 1].0.1 as int); tree_skip(v@[k - 1].1, s, o); } }
proof fn tree_open(n: Node, s: Seq<char>) requires wf(n, s), endnl(n), lg::skip(s, 0, sp(n).0) ensures openc(s) decreases n
{ match n {
    Node::OneLineComment(l, t) => { run_of(s, l.0 + 2, LINE()); assert(openm(s, l.0 as int)); }
    Node::VariantList(l, v) => { list_open(v, s, v@.len() as int, l.0 as int); }
    Node::CommentList(l, v) => { list_open(v, s, v@.len() as int, l.0 as int); }
    Node::NewLineList(l, v) => { list_open(v, s, v@.len() as int, l.0 as int); }
    Node::Chunk(a, c, b) => { skip_gap(s, 0, 0, a.1 as int); tree_open(*c, s); }
    _ => { }
} }
proof fn list_open(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int) requires wf_list(v, s, k, a), 0 <= k <= v@.len(), endnls(v, k), lg::skip(s, 0, a) ensures openc(s) decreases v, k
{ if k > 0 { list_skip(v, s, k - 1, a, 0); skip_gap(s, 0, v@[k - 1].0.0 as int, v@[k - 1].0.1 as int); tree_open(v@[k - 1].1, s); } }
proof fn sp_lt(n: Node, s: Seq<char>) requires wf(n, s) ensures 0 <= sp(n).0 <= sp(n).1 <= s.len() decreases n { if let Node::Chunk(_, c, _) = n { sp_lt(*c, s); } }
/// no part of a list is empty
proof fn strict(n: Node, s: Seq<char>) requires wf(n, s), !(n is VariantList), !(n is Chunk) ensures sp(n).0 < sp(n).1
{ match n { Node::CommentList(l, v) => { list_lt(v, s, v@.len() as int, l.0 as int); } Node::NewLineList(l, v) => { list_lt(v, s, v@.len() as int, l.0 as int); } _ => {} } }
proof fn list_lt(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int) requires wf_list(v, s, k, a), 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> cmt_node((#[trigger] v@[i]).1) || v@[i].1 is NewLine
    ensures a <= lend(v@, k, a), k > 0 ==> a < lend(v@, k, a) decreases k
{ if k > 0 { list_lt(v, s, k - 1, a); list_get(v, s, k, a, k - 1); assert(cmt_node(v@[k - 1].1) || v@[k - 1].1 is NewLine); assert(wf(v@[k - 1].1, s)); } }
proof fn cwts_from_wf(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int) requires wf_list(v, s, k, a), 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> !((#[trigger] v@[i]).1 is VariantList || v@[i].1 is Chunk) ensures cwts(v, s, k, a), clend(v@, k, a) == lend(v@, k, a) decreases v, k
{ if k > 0 { cwts_from_wf(v, s, k - 1, a); assert(!(v@[k - 1].1 is VariantList || v@[k - 1].1 is Chunk)); strict(v@[k - 1].1, s); sp_lt(v@[k - 1].1, s); cwt_from_wf(v@[k - 1].1, s); } }
pub proof fn cwt_from_wf(n: Node, s: Seq<char>) requires wf(n, s) ensures cwt(n, s), csp(n) == sp(n) decreases n
{ reveal_strlit("--"); reveal_strlit("\n"); reveal_strlit("--["); reveal_strlit("["); reveal_strlit("]"); reveal_strlit("=");
  match n {
    Node::OneLineComment(l, t) => { run_of(s, l.0 + 2, LINE()); let q = run_end(s, l.0 + 2, LINE()); let x = s.subrange(l.0 as int, l.1 as int); if q < s.len() { assert(x =~= "--"@ + t@ + "\n"@); } else { assert(x =~= "--"@ + t@); } }
    Node::MultiLineComment(l, k, t) => { let p = l.0 + 2; run_of(s, p + 1, EQS()); let q = run_end(s, p + 1, EQS()); assert(q == p + 1 + k);
        assert forall|i: int| p + 1 <= i < p + 1 + k implies #[trigger] s[i] == '=' by { assert(cls(EQS(), s[i])); }
        rep_eqs(s, p + 1, k as int); rep_eqs(s, l.1 - k - 1, k as int); assert("="@ =~= seq!['=']); assert(s.subrange(l.0 as int, l.1 as int) =~= mlc(k as int, t@)); }
    Node::NewLine(l) => { assert(s.subrange(l.0 as int, l.1 as int) =~= "\n"@); }
    Node::VariantList(l, v) => { cwts_from_wf(v, s, v@.len() as int, l.0 as int); }
    Node::CommentList(l, v) => { cwts_from_wf(v, s, v@.len() as int, l.0 as int); }
    Node::NewLineList(l, v) => { cwts_from_wf(v, s, v@.len() as int, l.0 as int); }
    Node::Chunk(a, c, b) => { cwt_from_wf(*c, s); }
} }
pub proof fn parse_promise(n: Node, s: Seq<char>) requires wf(n, s), sp(n).0 == 0 ensures cwt(n, s), csp(n) == sp(n), endnl(n) ==> openc(s)
{ cwt_from_wf(n, s); if endnl(n) { lg::b_skp0(s, 0); tree_open(n, s); } }
// ---- what C15 relies on
//@include clok.rs
proof fn wf_clok2(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int) requires wf_list(v, s, k, a), 0 <= k <= v@.len() ensures clok2(v, k, s) decreases v, k
{ if k > 0 { wf_clok2(v, s, k - 1, a); wf_clok(v@[k - 1].1, s); } }
pub proof fn wf_clok(n: Node, s: Seq<char>) requires wf(n, s) ensures clok(n, s) decreases n
{ sp_lt(n, s); match n { Node::VariantList(l, v) | Node::CommentList(l, v) | Node::NewLineList(l, v) => { wf_clok2(v, s, v@.len() as int, l.0 as int); } Node::Chunk(a, c, b) => { sp_lt(*c, s); wf_clok(*c, s); } _ => {} } }
//@grammar src/parser/comment_syntax.lalrpop gap
    broadcast use g_c;
//@end
// ---- the parser: an LR automaton (generated by LALRPOP, trusted) that runs the productions over the lexer's tokens
pub struct PErr;
/// Lexer::new is under contract in C06
pub struct Lexer<'a> { pub input: &'a str }
impl<'a> Lexer<'a> { pub fn new(input: &'a str) -> (r: Lexer<'a>) ensures r.input == input { Lexer { input } } }
pub struct ChunkParser;
impl ChunkParser {
    pub fn new() -> ChunkParser { ChunkParser }
    #[verifier::external_body] pub fn parse(&self, src: &str, lexer: Lexer) -> (r: Result<Node, PErr>) requires lexer.input@ == src@ ensures r is Ok ==> nt_Chunk(r->Ok_0, src@, 0, src@.len() as int) { unimplemented!() }
}
//@typemap CommentParserError => PErr
//@fn src/parser/mod.rs parse_comment | params=src
    ensures r is Ok ==> wf(r->Ok_0, src@) && clok(r->Ok_0, src@),
        r is Ok ==> cwt(r->Ok_0, src@) && csp(r->Ok_0) == (0int, src@.len() as int) && (endnl(r->Ok_0) ==> openc(src@)),
//@pre
    proof { assert forall|n: Node| #[trigger] nt_Chunk(n, src@, 0, src@.len() as int) implies cwt(n, src@) && csp(n) == (0int, src@.len() as int) && (endnl(n) ==> openc(src@)) by { parse_promise(n, src@); }
        assert forall|n: Node| #[trigger] nt_Chunk(n, src@, 0, src@.len() as int) implies clok(n, src@) by { wf_clok(n, src@); } }
//@end
fn main() {}
}
