// C15, from the text to the writers: what they require (w15.rs) holds where they are called; no index, slice or counter overflows on the way
#![allow(non_snake_case, non_camel_case_types, unused, dead_code)]
use vstd::prelude::*;
use std::collections::HashMap;
verus! {
//@define C15
//@macros src/config.rs src/formatting/util.rs
//@modules crate parser formatter fmt std util list reconstruction config lua_ast comment_ast core cmp
//@typemap std::fmt::Result => Result<(), FErr>
//@typemap std::fmt::Error => FErr
//@typemap Cell<bool> => CellB
//@attr #[verifier::exec_allows_no_decreases_clause]
//@include std_shim.rs
//@include w_shim.rs
impl VChars {
    #[verifier::external_body] pub fn nxt(&mut self) -> (r: Option<char>)
        ensures match r { Some(c) => old(self).v().len() > 0 && c == old(self).v()[0] && final(self).v() == old(self).v().skip(1), None => old(self).v().len() == 0 && final(self).v() == old(self).v() } { unimplemented!() }
}
#[verifier::external_body] pub fn max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { unimplemented!() }
//@methods chars=v_chars starts_with=c_sw ends_with=c_ew find=c_find contains=c_has trim_end_matches=v_trim_em trim_start_matches=v_trim_sm pop=v_pop trim=v_trim trim_start=v_trim_start trim_end=v_trim_end
#[verifier::external_body] pub fn w_disp<T: Disp + ?Sized>(f: &mut String, x: &T) -> (r: WR) ensures final(f)@ == old(f)@ + x.d() { unimplemented!() }
#[verifier::external_body] pub fn w_lit(f: &mut String, s: &str) -> (r: WR) ensures final(f)@ == old(f)@ + s@ { unimplemented!() }
//@type src/config.rs FormatOpts
//@type src/config.rs Config
//@type src/config.rs State
//@type src/parser/common.rs Loc
//@type src/parser/common.rs Str
//@type src/parser/lua_ast.rs TableConstructorOpts
//@type src/parser/lua_ast.rs FieldsOpts
//@type src/parser/lua_ast.rs Node
//@enum Node src/parser/lua_ast.rs Node
impl Clone for Loc { #[verifier::external_body] fn clone(&self) -> (r: Loc) ensures r == *self { unimplemented!() } }

// ---- the writers' state
//@include it_shim.rs
pub open spec fn kept(a: State, b: State) -> bool { kept_in(a, b, 0) }
/// d blocks deeper
pub open spec fn kept_in(a: State, b: State, d: int) -> bool {
    &&& a.chars_to_bytes@ == b.chars_to_bytes@ && (a.pos_range is None ==> b.pos_range is None)
    &&& a.indent_level == b.indent_level && a.stack_indent@ == b.stack_indent@ && a.function_nested_level == b.function_nested_level && a.block_nested_level + d == b.block_nested_level
    &&& a.comment_pos_range == b.comment_pos_range && a.comment_offset == b.comment_offset
}
/// the state in which the writer of the whole tree starts
pub open spec fn ready(st: State, cfg: Config, buf: Seq<char>) -> bool {
    &&& idx_at(st.chars_to_bytes@, 0, buf) && (cfg.line_range is None ==> st.pos_range is None)
    &&& st.indent_level == 0 && st.stack_indent@.len() == 0 && st.function_nested_level == 0 && st.block_nested_level == 0 && st.comment_pos_range is None
}
/// a field and the same field with other hints on its table
pub open spec fn eqopts(a: Node, b: Node) -> bool {
    a == b || match a { Node::Fields(p, v, o) => match b { Node::Fields(q, w, x) => p == q && v@ == w@, _ => false }, Node::FieldSequential(p, e) => match b { Node::FieldSequential(q, f) => p == q && match *e { Node::TableConstructor(s, l, r, o) => match *f { Node::TableConstructor(s2, l2, r2, o2) => s == s2 && l == l2 && r == r2, _ => false }, _ => false }, _ => false }, _ => false }
}
pub open spec fn tc_inner(n: Node) -> Node { match n { Node::TableConstructor(_, _, e, _) => *e, _ => n } }
pub proof fn lem_eqopts(a: Node, a2: Node, b: Node, conv: bool) requires eqopts(a, a2), same(a2, b, conv) ensures same(a, b, conv)
{ reveal_with_fuel(same, 3); }
pub enum SepKind { fields, comma, dot }
pub open spec fn long_str(level: int, s: Seq<char>) -> Seq<char> {
    "["@ + rep("="@, level) + "["@ + s + "]"@ + rep("="@, level) + "]"@
}
/// white space and comments (defined in lex_trivia.rs)
pub uninterp spec fn trivia(s: Seq<char>, a: int, b: int) -> bool;
//@include wf_gap.rs
//@include wf.rs
//@include w_idx.rs
//@include w_lend.rs
//@include strval.rs
//@include same.rs
//@include nest.rs
//@include lok.rs
//@include lokwf.rs
pub open spec fn vec4_of(n: Node) -> Seq<(Loc, Node, Loc, String)> { match n { Node::ExpList(_, v) | Node::NameList(_, v) | Node::VarList(_, v) | Node::ParList(_, v) | Node::FuncName(_, v) => v@, Node::FuncNameSelf(_, _, v, _) => v@, Node::Fields(_, v, _) => v@, _ => Seq::empty() } }
pub open spec fn vec2_of(n: Node) -> Seq<(Loc, Node)> { match n { Node::VarSuffixList(_, v) | Node::ElseIfThenVec(_, v) | Node::StatementList(_, v) => v@, _ => Seq::empty() } }
pub open spec fn same_pre4(a: Seq<(Loc, Node, Loc, String)>, b: Seq<(Loc, Node, Loc, String)>, k: int, conv: bool) -> bool {
    a.len() == b.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] b[i]).0 == a[i].0 && b[i].2 == a[i].2 && b[i].3 == a[i].3 && same(a[i].1, b[i].1, conv))
    && (forall|i: int| k <= i < b.len() ==> (#[trigger] b[i]) == a[i])
}
pub open spec fn same_pre2(a: Seq<(Loc, Node)>, b: Seq<(Loc, Node)>, k: int, conv: bool) -> bool {
    a.len() == b.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] b[i]).0 == a[i].0 && same(a[i].1, b[i].1, conv))
    && (forall|i: int| k <= i < b.len() ==> (#[trigger] b[i]) == a[i])
}
pub broadcast proof fn b_same4(a: Seq<(Loc, Node, Loc, String)>, b: Seq<(Loc, Node, Loc, String)>, k: int, c: bool) requires #[trigger] same_pre4(a, b, k, c), k >= a.len() ensures same4(a, b, c) {}
pub broadcast proof fn b_same2(a: Seq<(Loc, Node)>, b: Seq<(Loc, Node)>, k: int, c: bool) requires #[trigger] same_pre2(a, b, k, c), k >= a.len() ensures same2(a, b, c) {}
//@fn src/formatting/util.rs charstring_to_normalstring | params=s
    ensures converted(s@, r@),
//@pre
    proof { lem_converted(s@); }
//@loop 0
    invariant_except_break result@ + cv(it__1.v(), escaped) == cv(s@, false),
    ensures result@ == cv(s@, false),
    decreases it__1.v().len(),
//@loopbegin 0
    proof { lem_conv_step(result@, it__1.v(), escaped); }
//@end

//@include w05_claim.rs
// ---- the range grows over whole top-level statements only
/// p lies inside a..b, or apart from it
pub open spec fn sepin(p: (int, int), a: int, b: int) -> bool { (a <= p.0 && p.1 <= b) || p.1 <= a || b <= p.0 }
/// so does every construct below n that can make the range grow, when n is met lvl blocks deep
pub open spec fn fre(n: Node, a: int, b: int, lvl: int) -> bool decreases n, 0int {
    sepin(sp(n), a, b) || (lvl == 0 && match n {
        Node::StatementList(_, v) => forall|i: int| 0 <= i < v@.len() ==> sepin(sp((#[trigger] v@[i]).1), a, b),
        Node::StatsRetStat(_, _, x, y) => fre(*x, a, b, lvl) && fre(*y, a, b, lvl),
        Node::Chunk(_, x, _) => fre(*x, a, b, lvl),
        Node::SheBangChunk(_, x, _, y, _) => fre(*x, a, b, lvl) && fre(*y, a, b, lvl),
        _ => false,
    })
}
/// what lies inside or apart from all of it, and out of the range before, is out of it afterwards
pub open spec fn grows(n: Node, lvl: int, r: Option<(usize, usize)>, r2: Option<(usize, usize)>) -> bool {
    forall|a: int, b: int| #[trigger] ooi(r, a, b) && a <= b && fre(n, a, b, lvl) ==> ooi(r2, a, b)
}
pub proof fn fre_kid(n: Node, c: Node, lvl: int) requires nest(n), inn(sp(c), sp(n)) ensures forall|a: int, b: int, l2: int| sepin(sp(n), a, b) && a <= b ==> #[trigger] fre(c, a, b, l2) { }
pub proof fn nest_eqopts(a: Node, b: Node) requires eqopts(a, b), nest(a) ensures nest(b), sp(a) == sp(b)
{
    nest_step(a);
    match a {
        Node::Fields(p, v, _) => { if let Node::Fields(q, w, _) = b { nest4_put(w, w@.len() as int, sp(b)); assert(nest(b)); } },
        Node::FieldSequential(p, e) => { nest_step(*e); if a != b { if let Node::FieldSequential(q, f) = b { assert(nest(*f)); assert(nest(b)); } } },
        _ => {}
    }
}
//@fn src/formatting/reconstruction.rs update_pos_range | params=span,state
    ensures kept(*old(state), *final(state)), old(state).block_nested_level != 1 ==> final(state).pos_range == old(state).pos_range,
        span.0 <= span.1 ==> forall|a: int, b: int| #[trigger] ooi(old(state).pos_range, a, b) && a <= b && sepin((span.0 as int, span.1 as int), a, b) ==> ooi(final(state).pos_range, a, b),
//@end
//@arms src/formatting/reconstruction.rs reconstruct_node_tree | params=node,cfg,state iter=mut enum=Node arith=math on=node
    ensures same(*old(node), *final(node), cfg.fmt.convert_charstring_to_normalstring == Some(true)), kept(*old(state), *final(state)),
        nest(*old(node)) ==> grows(*old(node), old(state).block_nested_level as int, old(state).pos_range, final(state).pos_range),
//@loop 0
    invariant kept(*old(state), *state), n__ == vec4_of(*old(node)).len(), same_pre4(vec4_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
        nest(*old(node)) ==> nstep(*old(node)) && grows(*old(node), old(state).block_nested_level as int, old(state).pos_range, state.pos_range),
//@loop 1
    invariant kept(*old(state), *state), n__ == vec2_of(*old(node)).len(), same_pre2(vec2_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
        nest(*old(node)) ==> nstep(*old(node)) && grows(*old(node), old(state).block_nested_level as int, old(state).pos_range, state.pos_range),
//@loop 2
    invariant kept_in(*old(state), *state, 1), n__ == vec2_of(*old(node)).len(), same_pre2(vec2_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
        nest(*old(node)) ==> nstep(*old(node)) && grows(*old(node), old(state).block_nested_level as int, old(state).pos_range, state.pos_range),
//@loop 3
    invariant kept(*old(state), *state), n__ == vec4_of(*old(node)).len(), same_pre4(vec4_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
        nest(*old(node)) ==> nstep(*old(node)) && grows(*old(node), old(state).block_nested_level as int, old(state).pos_range, state.pos_range),
//@loop 4
    invariant kept(*old(state), *state), n__ == vec4_of(*old(node)).len(), same_pre4(vec4_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
        nest(*old(node)) ==> nstep(*old(node)) && grows(*old(node), old(state).block_nested_level as int, old(state).pos_range, state.pos_range),
//@loopbegin 4
    proof { let a = v@[k__ as int].1; let c = cfg.fmt.convert_charstring_to_normalstring == Some(true);
        assert forall|a2: Node, b: Node| #[trigger] same(a2, b, c) && eqopts(a, a2) implies same(a, b, c) by { lem_eqopts(a, a2, b, c); }
        if nest(*old(node)) { assert forall|a2: Node| eqopts(a, a2) implies #[trigger] nest(a2) && sp(a2) == sp(a) by { nest_eqopts(a, a2); } } }
//@pre
    broadcast use b_same4, b_same2;
    proof { if nest(*node) { nest_step(*node); } }
//@armpre TableConstructor
    proof { let c = cfg.fmt.convert_charstring_to_normalstring == Some(true); let a = tc_inner(*node);
        assert forall|a2: Node, b: Node| #[trigger] same(a2, b, c) && eqopts(a, a2) implies same(a, b, c) by { lem_eqopts(a, a2, b, c); }
        if nest(*node) { nest_step(*node); assert forall|a2: Node| eqopts(a, a2) implies #[trigger] nest(a2) && sp(a2) == sp(a) by { nest_eqopts(a, a2); } } }
//@end
// ---- the lines that are asked for
/// the places of the line ends
pub open spec fn nls(s: Seq<char>) -> Seq<int> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.last() == '\n' { nls(s.drop_last()).push(s.len() - 1) } else { nls(s.drop_last()) } }
/// line k lies between the borders k - 1 and k
pub open spec fn borders(s: Seq<char>) -> Seq<int> { seq![0int] + nls(s) + seq![s.len() as int] }
pub open spec fn lines(s: Seq<char>, lr: (usize, usize)) -> (int, int) {
    let n = borders(s).len() as int; let (l, r) = (lr.0 as int, lr.1 as int);
    (borders(s)[if 0 < l <= r && l < n { l - 1 } else { 0 }], borders(s)[if 0 < r && l <= r && r < n { r } else { n - 1 }])
}
pub open spec fn nlp() -> spec_fn((usize, char)) -> bool { |x: (usize, char)| x.1 == '\n' }
pub proof fn lem_nls(s: Seq<char>) requires s.len() <= usize::MAX ensures enumd(s).filter(nlp()).len() == nls(s).len(), forall|i: int| 0 <= i < nls(s).len() ==> (#[trigger] nls(s)[i]) == enumd(s).filter(nlp())[i].0 && 0 <= nls(s)[i] < s.len() decreases s.len()
{
    reveal(Seq::filter);
    let e = enumd(s);
    if s.len() > 0 { lem_nls(s.drop_last()); assert(e.drop_last() =~= enumd(s.drop_last())); }
}
/// what borders are: the start, every line end, and the end
pub proof fn lem_borders(s: Seq<char>) ensures forall|i: int| 0 <= i < nls(s).len() ==> 0 <= #[trigger] nls(s)[i] < s.len() && s[nls(s)[i]] == '\n',
    forall|i: int, j: int| 0 <= i < j < nls(s).len() ==> #[trigger] nls(s)[i] < #[trigger] nls(s)[j],
    forall|p: int| 0 <= p < s.len() && #[trigger] s[p] == '\n' ==> nls(s).contains(p),
    decreases s.len()
{ if s.len() > 0 { lem_borders(s.drop_last()); let t = nls(s.drop_last());
    assert forall|p: int| 0 <= p < s.len() && #[trigger] s[p] == '\n' implies nls(s).contains(p) by {
        if p == s.len() - 1 { assert(nls(s)[nls(s).len() - 1] == p); } else { assert(s.drop_last()[p] == '\n'); assert(t.contains(p)); let i = choose|i: int| 0 <= i < t.len() && t[i] == p; assert(nls(s)[i] == p); } } } }
//@fn src/formatting/util.rs line_range_to_pos_range | params=buf,lr_opt
    ensures lr_opt is None ==> r is None,
        lr_opt is Some ==> r is Some && (r->Some_0.0 as int, r->Some_0.1 as int) == lines(buf@, lr_opt->Some_0),
//@pre
    blen_max(buf);
    proof { lem_nls(buf@); }
//@end
/// the widths below 2^31 that the property is stated for
pub open spec fn wok(c: Config) -> bool { c.fmt.max_width is Some ==> c.fmt.max_width->Some_0 < 0x8000_0000 }
/// the map after k characters
pub open spec fn idx_k(m: Map<usize, usize>, s: Seq<char>, k: int) -> bool {
    0 <= k <= s.len() && (forall|j: usize| #[trigger] m.dom().contains(j) <==> j < k) && forall|j: usize| j < k ==> #[trigger] m[j] == boff(s, j as int)
}
pub open spec fn only_map(a: State, b: State) -> bool {
    a.pos_range == b.pos_range && a.indent_level == b.indent_level && a.stack_indent@ == b.stack_indent@ && a.function_nested_level == b.function_nested_level && a.block_nested_level == b.block_nested_level
        && a.comment_pos_range == b.comment_pos_range && a.comment_offset == b.comment_offset
}
//@fn src/formatting/reconstruction.rs update_indexes | methods=char_indices:v_char_indices,len:v_len params=buf,state
    requires old(state).chars_to_bytes@ == Map::<usize, usize>::empty(),
    ensures idx_at(final(state).chars_to_bytes@, 0, buf@), only_map(*old(state), *final(state)),
//@pre
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    blen_max(buf);
    let ghost mut k = 0int;
//@loop 0
    invariant_except_break it__1.v() == ci(buf@).skip(k), ci(buf@).len() == buf@.len(), blen_ok(buf@),
        idx_k(state.chars_to_bytes@, buf@, k), index == (if k > 0 { k - 1 } else { 0 }), only_map(*old(state), *state),
    ensures idx_k(state.chars_to_bytes@, buf@, buf@.len() as int), index == (if buf@.len() > 0 { buf@.len() - 1 } else { 0 }), only_map(*old(state), *state),
    decreases it__1.v().len(),
//@loopbegin 0
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { if it__1.v().len() > 0 { ci_at(buf@, k); k = k + 1; } }
//@end
//@fn src/config.rs State::default
    ensures r.pos_range is None, r.chars_to_bytes@ == Map::<usize, usize>::empty(), r.indent_level == 0, r.stack_indent@.len() == 0, r.function_nested_level == 0, r.block_nested_level == 0, r.comment_pos_range is None,
//@pre
    broadcast use vstd::std_specs::hash::group_hash_axioms;
//@end
// ---- the pipeline
#[verifier::external_body] pub struct PErr { x: u8 }
impl Disp for PErr { uninterp spec fn d(&self) -> Seq<char>; }
/// t is the tree of src
pub uninterp spec fn parsed(src: Seq<char>, t: Node) -> bool;

/// parse_lua's promise, proved from the grammar in c16_lua.rs: the tree is a chunk
#[verifier::external_body] pub fn parse_lua(s: &String) -> (r: Result<Node, PErr>) ensures r matches Ok(t) ==> parsed(s@, t) && wf(t, s@) && sp(t) == (0int, s@.len() as int) && (t is Chunk || t is SheBangChunk) { unimplemented!() }
pub open spec fn idx(a: State, s: Seq<char>) -> bool { idx_at(a.chars_to_bytes@, 0, s) }
impl Node {
    /// what the writers require, as proved in w15.rs
    #[verifier::external_body] pub fn configured_write(&self, f: &mut String, cfg: &Config, buf: &String, state: &mut State) -> (r: WR)
        requires wok(*cfg), idx(*old(state), buf@), lok(*self, buf@) { unimplemented!() }
}
//@type src/formatter.rs FormatterError
//@enum FormatterError src/formatter.rs FormatterError
//@fn src/formatter.rs process_buffer_with_config | params=content,cfg,verbose enum=FormatterError
    requires wok(*cfg)
//@pre
    proof {
        let s = content@; let c = cfg.fmt.convert_charstring_to_normalstring == Some(true);
        assert forall|t: Node| #[trigger] parsed(s, t) && wf(t, s) implies nest(t) && lok(t, s) by { wf_nest(t, s); wf_lok(t, s); }
        assert forall|t: Node, u: Node| #[trigger] same(t, u, c) && wf(t, s) implies lok(u, s) by { wf_lok(t, s); same_lok(t, u, s, c); }
    }
//@end
fn main() {}
}
