// C05, from the text to the writer: the range that is written, and what the writers' promise (w05.rs) means for the output
#![allow(non_snake_case, non_camel_case_types, unused, dead_code)]
use vstd::prelude::*;
use std::collections::HashMap;
verus! {
//@macros src/config.rs src/formatting/util.rs
//@modules crate parser formatter fmt std util list reconstruction config lua_ast comment_ast core cmp
//@typemap std::fmt::Result => Result<(), FErr>
//@typemap std::fmt::Error => FErr
//@typemap Cell<bool> => CellB
//@attr #[verifier::exec_allows_no_decreases_clause]
//@include std_shim.rs
//@include w_shim.rs
impl VChars {
    #[verifier::external_body] pub fn nxt(&mut self) -> (r: Option<char>)
        ensures match r { Some(c) => old(self).v().len() > 0 && c == old(self).v()[0] && final(self).v() == old(self).v().skip(1), None => old(self).v().len() == 0 && final(self).v() == old(self).v() } { unimplemented!() }
}
#[verifier::external_body] pub fn max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { unimplemented!() }
//@methods chars=v_chars starts_with=c_sw ends_with=c_ew find=c_find contains=c_has trim_end_matches=v_trim_em trim_start_matches=v_trim_sm pop=v_pop trim=v_trim trim_start=v_trim_start trim_end=v_trim_end
#[verifier::external_body] pub fn w_disp<T: Disp + ?Sized>(f: &mut String, x: &T) -> (r: WR) ensures final(f)@ == old(f)@ + x.d() { unimplemented!() }
#[verifier::external_body] pub fn w_lit(f: &mut String, s: &str) -> (r: WR) ensures final(f)@ == old(f)@ + s@ { unimplemented!() }
//@type src/config.rs FormatOpts
//@type src/config.rs Config
//@type src/config.rs State
//@type src/parser/common.rs Loc
//@type src/parser/common.rs Str
//@type src/parser/lua_ast.rs TableConstructorOpts
//@type src/parser/lua_ast.rs FieldsOpts
//@type src/parser/lua_ast.rs Node
//@enum Node src/parser/lua_ast.rs Node
impl Clone for Loc { #[verifier::external_body] fn clone(&self) -> (r: Loc) ensures r == *self { unimplemented!() } }

// ---- the writers' state
//@include it_shim.rs
pub open spec fn kept(a: State, b: State) -> bool { kept_in(a, b, 0) }
/// d blocks deeper
pub open spec fn kept_in(a: State, b: State, d: int) -> bool {
    &&& a.chars_to_bytes@ == b.chars_to_bytes@ && (a.pos_range is None ==> b.pos_range is None)
    &&& a.indent_level == b.indent_level && a.stack_indent@ == b.stack_indent@ && a.function_nested_level == b.function_nested_level && a.block_nested_level + d == b.block_nested_level
    &&& a.comment_pos_range == b.comment_pos_range && a.comment_offset == b.comment_offset
}
/// the state in which the writer of the whole tree starts
pub open spec fn ready(st: State, cfg: Config, buf: Seq<char>) -> bool {
    &&& idx_at(st.chars_to_bytes@, 0, buf) && (cfg.line_range is None ==> st.pos_range is None)
    &&& st.indent_level == 0 && st.stack_indent@.len() == 0 && st.function_nested_level == 0 && st.block_nested_level == 0 && st.comment_pos_range is None
}
/// a field and the same field with other hints on its table
pub open spec fn eqopts(a: Node, b: Node) -> bool {
    a == b || match a { Node::Fields(p, v, o) => match b { Node::Fields(q, w, x) => p == q && v@ == w@, _ => false }, Node::FieldSequential(p, e) => match b { Node::FieldSequential(q, f) => p == q && match *e { Node::TableConstructor(s, l, r, o) => match *f { Node::TableConstructor(s2, l2, r2, o2) => s == s2 && l == l2 && r == r2, _ => false }, _ => false }, _ => false }, _ => false }
}
pub open spec fn tc_inner(n: Node) -> Node { match n { Node::TableConstructor(_, _, e, _) => *e, _ => n } }
pub proof fn lem_eqopts(a: Node, a2: Node, b: Node, conv: bool) requires eqopts(a, a2), same(a2, b, conv) ensures same(a, b, conv)
{ reveal_with_fuel(same, 3); }
pub enum SepKind { fields, comma, dot }
pub open spec fn long_str(level: int, s: Seq<char>) -> Seq<char> {
    "["@ + rep("="@, level) + "["@ + s + "]"@ + rep("="@, level) + "]"@
}
/// white space and comments (defined in lex_trivia.rs)
pub uninterp spec fn trivia(s: Seq<char>, a: int, b: int) -> bool;
//@include wf_gap.rs
//@include wf.rs
//@include w_idx.rs
//@include w_lend.rs
//@include strval.rs
//@include same.rs
//@include nest.rs
pub open spec fn vec4_of(n: Node) -> Seq<(Loc, Node, Loc, String)> { match n { Node::ExpList(_, v) | Node::NameList(_, v) | Node::VarList(_, v) | Node::ParList(_, v) | Node::FuncName(_, v) => v@, Node::FuncNameSelf(_, _, v, _) => v@, Node::Fields(_, v, _) => v@, _ => Seq::empty() } }
pub open spec fn vec2_of(n: Node) -> Seq<(Loc, Node)> { match n { Node::VarSuffixList(_, v) | Node::ElseIfThenVec(_, v) | Node::StatementList(_, v) => v@, _ => Seq::empty() } }
pub open spec fn same_pre4(a: Seq<(Loc, Node, Loc, String)>, b: Seq<(Loc, Node, Loc, String)>, k: int, conv: bool) -> bool {
    a.len() == b.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] b[i]).0 == a[i].0 && b[i].2 == a[i].2 && b[i].3 == a[i].3 && same(a[i].1, b[i].1, conv))
    && (forall|i: int| k <= i < b.len() ==> (#[trigger] b[i]) == a[i])
}
pub open spec fn same_pre2(a: Seq<(Loc, Node)>, b: Seq<(Loc, Node)>, k: int, conv: bool) -> bool {
    a.len() == b.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] b[i]).0 == a[i].0 && same(a[i].1, b[i].1, conv))
    && (forall|i: int| k <= i < b.len() ==> (#[trigger] b[i]) == a[i])
}
pub broadcast proof fn b_same4(a: Seq<(Loc, Node, Loc, String)>, b: Seq<(Loc, Node, Loc, String)>, k: int, c: bool) requires #[trigger] same_pre4(a, b, k, c), k >= a.len() ensures same4(a, b, c) {}
pub broadcast proof fn b_same2(a: Seq<(Loc, Node)>, b: Seq<(Loc, Node)>, k: int, c: bool) requires #[trigger] same_pre2(a, b, k, c), k >= a.len() ensures same2(a, b, c) {}
//@fn src/formatting/util.rs charstring_to_normalstring | params=s
    ensures converted(s@, r@),
//@pre
    proof { lem_converted(s@); }
//@loop 0
    invariant_except_break result@ + cv(it__1.v(), escaped) == cv(s@, false),
    ensures result@ == cv(s@, false),
    decreases it__1.v().len(),
//@loopbegin 0
    proof { lem_conv_step(result@, it__1.v(), escaped); }
//@end

//@include w05_claim.rs
// ---- the range grows over whole top-level statements only
/// p lies inside a..b, or apart from it
pub open spec fn sepin(p: (int, int), a: int, b: int) -> bool { (a <= p.0 && p.1 <= b) || p.1 <= a || b <= p.0 }
/// so does every construct below n that can make the range grow, when n is met lvl blocks deep
pub open spec fn fre(n: Node, a: int, b: int, lvl: int) -> bool decreases n, 0int {
    sepin(sp(n), a, b) || (lvl == 0 && match n {
        Node::StatementList(_, v) => forall|i: int| 0 <= i < v@.len() ==> sepin(sp((#[trigger] v@[i]).1), a, b),
        Node::StatsRetStat(_, _, x, y) => fre(*x, a, b, lvl) && fre(*y, a, b, lvl),
        Node::Chunk(_, x, _) => fre(*x, a, b, lvl),
        Node::SheBangChunk(_, x, _, y, _) => fre(*x, a, b, lvl) && fre(*y, a, b, lvl),
        _ => false,
    })
}
/// what lies inside or apart from all of it, and out of the range before, is out of it afterwards
pub open spec fn grows(n: Node, lvl: int, r: Option<(usize, usize)>, r2: Option<(usize, usize)>) -> bool {
    forall|a: int, b: int| #[trigger] ooi(r, a, b) && a <= b && fre(n, a, b, lvl) ==> ooi(r2, a, b)
}
pub proof fn fre_kid(n: Node, c: Node, lvl: int) requires nest(n), inn(sp(c), sp(n)) ensures forall|a: int, b: int, l2: int| sepin(sp(n), a, b) && a <= b ==> #[trigger] fre(c, a, b, l2) { }
pub proof fn nest_eqopts(a: Node, b: Node) requires eqopts(a, b), nest(a) ensures nest(b), sp(a) == sp(b)
{
    nest_step(a);
    match a {
        Node::Fields(p, v, _) => { if let Node::Fields(q, w, _) = b { nest4_put(w, w@.len() as int, sp(b)); assert(nest(b)); } },
        Node::FieldSequential(p, e) => { nest_step(*e); if a != b { if let Node::FieldSequential(q, f) = b { assert(nest(*f)); assert(nest(b)); } } },
        _ => {}
    }
}
//@fn src/formatting/reconstruction.rs update_pos_range | params=span,state
    ensures kept(*old(state), *final(state)), old(state).block_nested_level != 1 ==> final(state).pos_range == old(state).pos_range,
        span.0 <= span.1 ==> forall|a: int, b: int| #[trigger] ooi(old(state).pos_range, a, b) && a <= b && sepin((span.0 as int, span.1 as int), a, b) ==> ooi(final(state).pos_range, a, b),
//@end
//@arms src/formatting/reconstruction.rs reconstruct_node_tree | params=node,cfg,state iter=mut enum=Node arith=math on=node
    ensures same(*old(node), *final(node), cfg.fmt.convert_charstring_to_normalstring == Some(true)), kept(*old(state), *final(state)),
        nest(*old(node)) ==> grows(*old(node), old(state).block_nested_level as int, old(state).pos_range, final(state).pos_range),
//@loop 0
    invariant kept(*old(state), *state), n__ == vec4_of(*old(node)).len(), same_pre4(vec4_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
        nest(*old(node)) ==> nstep(*old(node)) && grows(*old(node), old(state).block_nested_level as int, old(state).pos_range, state.pos_range),
//@loop 1
    invariant kept(*old(state), *state), n__ == vec2_of(*old(node)).len(), same_pre2(vec2_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
        nest(*old(node)) ==> nstep(*old(node)) && grows(*old(node), old(state).block_nested_level as int, old(state).pos_range, state.pos_range),
//@loop 2
    invariant kept_in(*old(state), *state, 1), n__ == vec2_of(*old(node)).len(), same_pre2(vec2_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
        nest(*old(node)) ==> nstep(*old(node)) && grows(*old(node), old(state).block_nested_level as int, old(state).pos_range, state.pos_range),
//@loop 3
    invariant kept(*old(state), *state), n__ == vec4_of(*old(node)).len(), same_pre4(vec4_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
        nest(*old(node)) ==> nstep(*old(node)) && grows(*old(node), old(state).block_nested_level as int, old(state).pos_range, state.pos_range),
//@loop 4
    invariant kept(*old(state), *state), n__ == vec4_of(*old(node)).len(), same_pre4(vec4_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
        nest(*old(node)) ==> nstep(*old(node)) && grows(*old(node), old(state).block_nested_level as int, old(state).pos_range, state.pos_range),
//@loopbegin 4
    proof { let a = v@[k__ as int].1; let c = cfg.fmt.convert_charstring_to_normalstring == Some(true);
        assert forall|a2: Node, b: Node| #[trigger] same(a2, b, c) && eqopts(a, a2) implies same(a, b, c) by { lem_eqopts(a, a2, b, c); }
        if nest(*old(node)) { assert forall|a2: Node| eqopts(a, a2) implies #[trigger] nest(a2) && sp(a2) == sp(a) by { nest_eqopts(a, a2); } } }
//@pre
    broadcast use b_same4, b_same2;
    proof { if nest(*node) { nest_step(*node); } }
//@armpre TableConstructor
    proof { let c = cfg.fmt.convert_charstring_to_normalstring == Some(true); let a = tc_inner(*node);
        assert forall|a2: Node, b: Node| #[trigger] same(a2, b, c) && eqopts(a, a2) implies same(a, b, c) by { lem_eqopts(a, a2, b, c); }
        if nest(*node) { nest_step(*node); assert forall|a2: Node| eqopts(a, a2) implies #[trigger] nest(a2) && sp(a2) == sp(a) by { nest_eqopts(a, a2); } } }
//@end
// ---- the lines that are asked for
/// the places of the line ends
pub open spec fn nls(s: Seq<char>) -> Seq<int> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.last() == '\n' { nls(s.drop_last()).push(s.len() - 1) } else { nls(s.drop_last()) } }
/// line k lies between the borders k - 1 and k
pub open spec fn borders(s: Seq<char>) -> Seq<int> { seq![0int] + nls(s) + seq![s.len() as int] }
pub open spec fn lines(s: Seq<char>, lr: (usize, usize)) -> (int, int) {
    let n = borders(s).len() as int; let (l, r) = (lr.0 as int, lr.1 as int);
    (borders(s)[if 0 < l <= r && l < n { l - 1 } else { 0 }], borders(s)[if 0 < r && l <= r && r < n { r } else { n - 1 }])
}
pub open spec fn nlp() -> spec_fn((usize, char)) -> bool { |x: (usize, char)| x.1 == '\n' }
pub proof fn lem_nls(s: Seq<char>) requires s.len() <= usize::MAX ensures enumd(s).filter(nlp()).len() == nls(s).len(), forall|i: int| 0 <= i < nls(s).len() ==> (#[trigger] nls(s)[i]) == enumd(s).filter(nlp())[i].0 && 0 <= nls(s)[i] < s.len() decreases s.len()
{
    reveal(Seq::filter);
    let e = enumd(s);
    if s.len() > 0 { lem_nls(s.drop_last()); assert(e.drop_last() =~= enumd(s.drop_last())); }
}
/// what borders are: the start, every line end, and the end
pub proof fn lem_borders(s: Seq<char>) ensures forall|i: int| 0 <= i < nls(s).len() ==> 0 <= #[trigger] nls(s)[i] < s.len() && s[nls(s)[i]] == '\n',
    forall|i: int, j: int| 0 <= i < j < nls(s).len() ==> #[trigger] nls(s)[i] < #[trigger] nls(s)[j],
    forall|p: int| 0 <= p < s.len() && #[trigger] s[p] == '\n' ==> nls(s).contains(p),
    decreases s.len()
{ if s.len() > 0 { lem_borders(s.drop_last()); let t = nls(s.drop_last());
    assert forall|p: int| 0 <= p < s.len() && #[trigger] s[p] == '\n' implies nls(s).contains(p) by {
        if p == s.len() - 1 { assert(nls(s)[nls(s).len() - 1] == p); } else { assert(s.drop_last()[p] == '\n'); assert(t.contains(p)); let i = choose|i: int| 0 <= i < t.len() && t[i] == p; assert(nls(s)[i] == p); } } } }
//@fn src/formatting/util.rs line_range_to_pos_range | params=buf,lr_opt
    ensures lr_opt is None ==> r is None,
        lr_opt is Some ==> r is Some && (r->Some_0.0 as int, r->Some_0.1 as int) == lines(buf@, lr_opt->Some_0),
//@pre
    blen_max(buf);
    proof { lem_nls(buf@); }
//@end
// ---- what is promised about the output
/// the same node, statement for statement, in the text's terms
pub proof fn wfp_of(n: Node, s: Seq<char>) requires wf(n, s) ensures wfp(n, s) decreases n, 1int
{
    wf_sub(n, s);
    match n {
        Node::StatementList(l, v) => { w_StatementList(l, v, s); wfps_of(v, s, v@.len() as int, l.0 as int); }
        Node::StatsRetStat(l, g, a, b) => { w_StatsRetStat(l, g, a, b, s); wfp_of(*a, s); wfp_of(*b, s); }
        Node::Chunk(l, a, b) => { w_Chunk(l, a, b, s); wfp_of(*a, s); }
        Node::SheBangChunk(l, a, b, c, d) => { w_SheBangChunk(l, a, b, c, d, s); wfp_of(*c, s); }
        Node::Semicolon(l) => { w_Semicolon(l, s); lits05(); }
        Node::Break(l) => { w_Break(l, s); lits05(); }
        Node::RetStatNone(l) => { w_RetStatNone(l, s); lits05(); }
        _ => {}
    }
}
pub proof fn lits05() ensures ";"@.len() == 1, "break"@.len() == 5, "return"@.len() == 6 { reveal_strlit(";"); reveal_strlit("break"); reveal_strlit("return"); }
pub proof fn wfps_of(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int) requires wf_list(v, s, k, a), 0 <= k <= v@.len() ensures wfps(v, s, k, a) decreases v, k
{ if k > 0 { wfps_of(v, s, k - 1, a); wfp_of(v@[k - 1].1, s); } }
pub proof fn same_at(a: Node, b: Node, c: bool) requires same(a, b, c) ensures sp(a) == sp(b) { }
pub proof fn same_kind(a: Node, b: Node, c: bool) requires same(a, b, c) ensures match a {
    Node::StatementList(l, v) => b matches Node::StatementList(k, w) && k == l && same2(v@, w@, c),
    Node::StatsRetStat(l, g, x, y) => b matches Node::StatsRetStat(k, h, x2, y2) && k == l && h == g && same(*x, *x2, c) && same(*y, *y2, c),
    Node::Chunk(l, x, y) => b matches Node::Chunk(k, x2, y2) && k == l && y2 == y && same(*x, *x2, c),
    Node::SheBangChunk(l, x, y, z, t) => b matches Node::SheBangChunk(k, x2, y2, z2, t2) && k == l && y2 == y && t2 == t && same(*x, *x2, c) && same(*z, *z2, c),
    Node::Semicolon(_) | Node::Break(_) | Node::RetStatNone(_) => b == a,
    _ => !(b is StatementList || b is StatsRetStat || b is Chunk || b is SheBangChunk || b is Semicolon || b is Break || b is RetStatNone),
} { }
pub proof fn same_wfp(a: Node, b: Node, s: Seq<char>, c: bool) requires wfp(a, s), same(a, b, c) ensures wfp(b, s), sp(a) == sp(b) decreases a, 1int
{
    hide(same); hide(sp);
    same_at(a, b, c); same_kind(a, b, c);
    match a {
        Node::StatementList(l, v) => { if let Node::StatementList(_, w) = b { sp_list(l, v); sp_list(l, w); same_wfps(v, w, s, v@.len() as int, l.0 as int, c); assert(wfp(b, s)); } }
        Node::StatsRetStat(l, g, x, y) => { if let Node::StatsRetStat(_, _, x2, y2) = b { same_wfp(*x, *x2, s, c); same_wfp(*y, *y2, s, c); } }
        Node::Chunk(l, x, y) => { if let Node::Chunk(_, x2, _) = b { same_wfp(*x, *x2, s, c); } }
        Node::SheBangChunk(l, x, y, z, t) => { if let Node::SheBangChunk(_, _, _, z2, _) = b { same_wfp(*z, *z2, s, c); } }
        _ => {}
    }
}
proof fn sp_list(l: Loc, v: Vec<(Loc, Node)>) ensures sp(Node::StatementList(l, v)) == (l.0 as int, l.1 as int) { }
pub proof fn same_wfps(v: Vec<(Loc, Node)>, w: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int, c: bool) requires wfps(v, s, k, a), same2(v@, w@, c), 0 <= k <= v@.len() ensures wfps(w, s, k, a), lend(w@, k, a) == lend(v@, k, a) decreases v, k
{ if k > 0 { assert(w@[k - 1].0 == v@[k - 1].0); same_wfps(v, w, s, k - 1, a, c); same_wfp(v@[k - 1].1, w@[k - 1].1, s, c); } }

/// the body of a chunk
pub open spec fn inner(t: Node) -> Node { match t { Node::Chunk(_, b, _) => *b, Node::SheBangChunk(_, _, _, b, _) => *b, _ => t } }
pub open spec fn mono(n: Node, r: Option<(usize, usize)>, r2: Option<(usize, usize)>) -> bool {
    forall|a: int, b: int| #[trigger] ooi(r, a, b) && sp(n).0 <= a && a <= b && b <= sp(n).1 && fre(n, a, b, 0) ==> ooi(r2, a, b)
}
proof fn qget(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int, i: int) requires wfps(v, s, k, a), 0 <= i < k <= v@.len() ensures v@[i].0.0 == lend(v@, i, a), v@[i].0.0 <= v@[i].0.1 == sp(v@[i].1).0 <= sp(v@[i].1).1 <= s.len() decreases k
{ if i < k - 1 { qget(v, s, k - 1, a, i); } else { wle(v@[i].1, s); } }
proof fn wle(n: Node, s: Seq<char>) requires wfp(n, s) ensures 0 <= sp(n).0 <= sp(n).1 <= s.len() { }
proof fn ord(v: Vec<(Loc, Node)>, s: Seq<char>, a: int, j: int, l: int) requires wfps(v, s, v@.len() as int, a), 0 <= j < l <= v@.len() ensures sp(v@[j].1).1 <= lend(v@, l, a), l < v@.len() ==> sp(v@[j].1).1 <= v@[l].0.0 <= v@[l].0.1 <= sp(v@[l].1).0, a <= v@[j].0.0 decreases l
{ qget(v, s, v@.len() as int, a, j); if l < v@.len() { qget(v, s, v@.len() as int, a, l); } if j < l - 1 { ord(v, s, a, j, l - 1); qget(v, s, v@.len() as int, a, l - 1); } else if j > 0 { ord(v, s, a, 0, j); qget(v, s, v@.len() as int, a, 0); } }
proof fn list_fre(n: Node, v: Vec<(Loc, Node)>, s: Seq<char>, i: int)
    requires wfp(n, s), n matches Node::StatementList(_, w) && w == v, 0 <= i < v@.len()
    ensures fre(n, sp(v@[i].1).0, sp(v@[i].1).1, 0), fre(n, v@[i].0.0 as int, v@[i].0.1 as int, 0), sp(n).0 <= v@[i].0.0 <= v@[i].0.1 <= sp(v@[i].1).0 <= sp(v@[i].1).1 <= sp(n).1
{
    let a = sp(n).0; let N = v@.len() as int;
    qget(v, s, N, a, i); ord(v, s, a, i, N);
    assert forall|j: int| 0 <= j < v@.len() implies sepin(sp((#[trigger] v@[j]).1), sp(v@[i].1).0, sp(v@[i].1).1) && sepin(sp(v@[j].1), v@[i].0.0 as int, v@[i].0.1 as int) by { qget(v, s, N, a, j); if j < i { ord(v, s, a, j, i); } else if i < j { ord(v, s, a, i, j); } }
}
/// what stands in the output by the range that grew, stands there by the range that was asked for
proof fn body_mono(f: Seq<char>, t: Node, u: Node, s: Seq<char>, r: Option<(usize, usize)>, r2: Option<(usize, usize)>, c: bool)
    requires wfp(t, s), same(t, u, c), body(f, u, s, r2), mono(t, r, r2) ensures body(f, t, s, r) decreases t
{
    match t {
        Node::StatementList(_, v) => { if let Node::StatementList(_, w) = u { list_mono(f, t, u, v, w, s, r, r2, c); } }
        Node::StatsRetStat(_, g, a, b) => { if let Node::StatsRetStat(_, _, a2, b2) = u {
            wle(*a, s); wle(*b, s);
            assert forall|x: int, y: int| #[trigger] ooi(r, x, y) && sp(*a).0 <= x && x <= y && y <= sp(*a).1 && fre(*a, x, y, 0) implies ooi(r2, x, y) by { assert(fre(*b, x, y, 0)); assert(fre(t, x, y, 0)); }
            body_mono(f, *a, *a2, s, r, r2, c);
            assert forall|x: int, y: int| #[trigger] ooi(r, x, y) && sp(*b).0 <= x && x <= y && y <= sp(*b).1 && fre(*b, x, y, 0) implies ooi(r2, x, y) by { assert(fre(*a, x, y, 0)); assert(fre(t, x, y, 0)); }
            alone_mono(f, *b, *b2, s, r, r2, c); } }
        _ => alone_mono(f, t, u, s, r, r2, c),
    }
}
proof fn alone_mono(f: Seq<char>, t: Node, u: Node, s: Seq<char>, r: Option<(usize, usize)>, r2: Option<(usize, usize)>, c: bool)
    requires wfp(t, s), same(t, u, c), alone(f, u, s, r2), mono(t, r, r2) ensures alone(f, t, s, r)
{ same_wfp(t, u, s, c); assert(verb(t) == verb(u)); let p = sp(t); assert(fre(t, p.0, p.1, 0)); }
proof fn list_mono(f: Seq<char>, t: Node, u: Node, v: Vec<(Loc, Node)>, w: Vec<(Loc, Node)>, s: Seq<char>, r: Option<(usize, usize)>, r2: Option<(usize, usize)>, c: bool)
    requires wfp(t, s), same(t, u, c), t matches Node::StatementList(_, x) && x == v, u matches Node::StatementList(_, x) && x == w, listed(f, kof(s, w, r2)), mono(t, r, r2) ensures listed(f, kof(s, v, r))
{
    let k = kof(s, v, r); let k2 = kof(s, w, r2); let n = v@.len() as int;
    assert(same2(v@, w@, c));
    assert forall|i: int| 0 <= i < n implies w@[i].0 == v@[i].0 && sp(w@[i].1) == sp(v@[i].1) && (#[trigger] outi(k, i) ==> outi(k2, i)) by {
        assert(w@[i].0 == v@[i].0); wfps_at(v, s, n, sp(t).0, i); same_wfp(v@[i].1, w@[i].1, s, c); assert(verb(v@[i].1) == verb(w@[i].1)); list_fre(t, v, s, i); }
    assert forall|i: int| 0 <= i < n implies (#[trigger] outg(k, i) ==> outg(k2, i)) by { assert(w@[i].0 == v@[i].0); list_fre(t, v, s, i); }
    let e = choose|e: Seq<(int, int)>| #[trigger] Ve(f, k2, w@.len() as int, false, e);
    assert forall|j: int| 0 <= j < n && outi(k, j) implies 0 <= (#[trigger] e[j]).0 <= e[j].1 <= f.len() && f.subrange(e[j].0, e[j].1) == isub(k.s, sp(k.v[j].1)) by { assert(outi(k2, j)); }
    assert forall|j: int, l: int| 0 <= j < l < n && outi(k, j) && outi(k, l) implies (#[trigger] e[j]).1 <= (#[trigger] e[l]).0 by { assert(outi(k2, j) && outi(k2, l)); }
    assert forall|j: int| 1 <= j < n && outi(k, j - 1) && outi(k, j) && outg(k, j) implies f.subrange(e[j - 1].1, (#[trigger] e[j]).0) == lsub(k.v[j].0, k.s) by { assert(outi(k2, j - 1) && outi(k2, j) && outg(k2, j)); assert(w@[j].0 == v@[j].0); }
    assert(Ve(f, k, n, false, e));
}
proof fn wfps_at(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int, i: int) requires wfps(v, s, k, a), 0 <= i < k <= v@.len() ensures wfp(v@[i].1, s) decreases k
{ if i < k - 1 { wfps_at(v, s, k - 1, a, i); } }
/// with the lines lr selected, what lies apart from them stands in the output as it does in the text
pub open spec fn confined(s: Seq<char>, lr: (usize, usize), out: Seq<char>) -> bool {
    exists|t: Node| #[trigger] parsed(s, t) && wf(t, s) && sp(t) == (0int, s.len() as int) && exists|r: (usize, usize)| (r.0 as int, r.1 as int) == lines(s, lr) && #[trigger] body(out, inner(t), s, Some(r))
}
proof fn confine(out: Seq<char>, t: Node, u: Node, s: Seq<char>, r: (usize, usize), r2: Option<(usize, usize)>, lr: (usize, usize), c: bool)
    requires parsed(s, t), wf(t, s), t is Chunk || t is SheBangChunk, sp(t) == (0int, s.len() as int), same(t, u, c), (r.0 as int, r.1 as int) == lines(s, lr), grows(t, 0, Some(r), r2), chunk_body(out, u, s, r2) ensures confined(s, lr, out)
{
    wfp_of(t, s); same_wfp(t, u, s, c);
    let b = inner(t); let b2 = inner(u);
    match t {
        Node::Chunk(l, x, y) => { w_Chunk(l, x, y, s); if let Node::Chunk(_, x2, _) = u { assert(same(*x, *x2, c)); } }
        Node::SheBangChunk(l, x, y, z, q) => { w_SheBangChunk(l, x, y, z, q, s); wf_sub(*x, s); if let Node::SheBangChunk(_, _, _, z2, _) = u { assert(same(*z, *z2, c)); } }
        _ => {}
    }
    assert forall|x: int, y: int| #[trigger] ooi(Some(r), x, y) && sp(b).0 <= x && x <= y && y <= sp(b).1 && fre(b, x, y, 0) implies ooi(r2, x, y) by { if let Node::SheBangChunk(l, h, _, z, q) = t { assert(fre(*h, x, y, 0)); } assert(fre(t, x, y, 0)); }
    assert(wfp(b, s)); body_mono(out, b, b2, s, Some(r), r2, c);
}
/// the writers' promise for the whole tree
pub open spec fn chunk_body(out: Seq<char>, u: Node, s: Seq<char>, r: Option<(usize, usize)>) -> bool { u is Chunk || u is SheBangChunk ==> body(out, inner(u), s, r) }
/// the map after k characters
pub open spec fn idx_k(m: Map<usize, usize>, s: Seq<char>, k: int) -> bool {
    0 <= k <= s.len() && (forall|j: usize| #[trigger] m.dom().contains(j) <==> j < k) && forall|j: usize| j < k ==> #[trigger] m[j] == boff(s, j as int)
}
pub open spec fn only_map(a: State, b: State) -> bool {
    a.pos_range == b.pos_range && a.indent_level == b.indent_level && a.stack_indent@ == b.stack_indent@ && a.function_nested_level == b.function_nested_level && a.block_nested_level == b.block_nested_level
        && a.comment_pos_range == b.comment_pos_range && a.comment_offset == b.comment_offset
}
//@fn src/formatting/reconstruction.rs update_indexes | methods=char_indices:v_char_indices,len:v_len params=buf,state
    requires old(state).chars_to_bytes@ == Map::<usize, usize>::empty(),
    ensures idx_at(final(state).chars_to_bytes@, 0, buf@), only_map(*old(state), *final(state)),
//@pre
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    blen_max(buf);
    let ghost mut k = 0int;
//@loop 0
    invariant_except_break it__1.v() == ci(buf@).skip(k), ci(buf@).len() == buf@.len(), blen_ok(buf@),
        idx_k(state.chars_to_bytes@, buf@, k), index == (if k > 0 { k - 1 } else { 0 }), only_map(*old(state), *state),
    ensures idx_k(state.chars_to_bytes@, buf@, buf@.len() as int), index == (if buf@.len() > 0 { buf@.len() - 1 } else { 0 }), only_map(*old(state), *state),
    decreases it__1.v().len(),
//@loopbegin 0
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { if it__1.v().len() > 0 { ci_at(buf@, k); k = k + 1; } }
//@end
//@fn src/config.rs State::default
    ensures r.pos_range is None, r.chars_to_bytes@ == Map::<usize, usize>::empty(), r.indent_level == 0, r.stack_indent@.len() == 0, r.function_nested_level == 0, r.block_nested_level == 0, r.comment_pos_range is None,
//@pre
    broadcast use vstd::std_specs::hash::group_hash_axioms;
//@end
// ---- the pipeline
#[verifier::external_body] pub struct PErr { x: u8 }
impl Disp for PErr { uninterp spec fn d(&self) -> Seq<char>; }
/// t is the tree of src
pub uninterp spec fn parsed(src: Seq<char>, t: Node) -> bool;

/// parse_lua's promise, proved from the grammar in c16_lua.rs: the tree is a chunk
#[verifier::external_body] pub fn parse_lua(s: &String) -> (r: Result<Node, PErr>) ensures r matches Ok(t) ==> parsed(s@, t) && wf(t, s@) && sp(t) == (0int, s@.len() as int) && (t is Chunk || t is SheBangChunk) { unimplemented!() }
pub open spec fn idx(a: State, s: Seq<char>) -> bool { idx_at(a.chars_to_bytes@, 0, s) }
impl Node {
    /// the writers' promise, proved in w05.rs
    #[verifier::external_body] pub fn configured_write(&self, f: &mut String, cfg: &Config, buf: &String, state: &mut State) -> (r: WR)
        ensures r is Ok && idx(*old(state), buf@) && wfp(*self, buf@) ==> wrote(old(f)@, final(f)@, *self, buf@, old(state).pos_range) { unimplemented!() }
}
//@type src/formatter.rs FormatterError
//@enum FormatterError src/formatter.rs FormatterError
//@fn src/formatter.rs process_buffer_with_config | params=content,cfg,verbose enum=FormatterError
    ensures r is Ok && cfg.line_range is Some ==> confined(content@, cfg.line_range->Some_0, r->Ok_0@),
//@pre
    proof {
        let s = content@; let c = cfg.fmt.convert_charstring_to_normalstring == Some(true);
        assert forall|t: Node| #[trigger] parsed(s, t) && wf(t, s) implies nest(t) by { wf_nest(t, s); }
        assert forall|t: Node, u: Node| #[trigger] same(t, u, c) && wf(t, s) implies wfp(u, s) by { wfp_of(t, s); same_wfp(t, u, s, c); }
        if cfg.line_range is Some { let lr = cfg.line_range->Some_0;
        assert forall|t: Node, u: Node, r: (usize, usize), r2: Option<(usize, usize)>, f: Seq<char>, out: Seq<char>|
            parsed(s, t) && wf(t, s) && sp(t) == (0int, s.len() as int) && #[trigger] same(t, u, c) && (r.0 as int, r.1 as int) == lines(s, lr) && #[trigger] grows(t, 0, Some(r), r2) && (t is Chunk || t is SheBangChunk) && #[trigger] wrote(f, out, u, s, r2) implies confined(s, lr, out) by { confine(out, t, u, s, r, r2, lr, c); }
        }
    }
//@end
fn main() {}
}
