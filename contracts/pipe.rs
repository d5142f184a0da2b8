// from the text to the writer and to the output: what the writer of the whole tree is called with; C04: what its promise (w04.rs) means for the output
#![allow(non_snake_case, non_camel_case_types, unused, dead_code)]
use vstd::prelude::*;
use std::collections::HashMap;
verus! {
//@macros src/config.rs src/formatting/util.rs
//@modules crate parser formatter fmt std util list reconstruction config lua_ast comment_ast core cmp
//@typemap std::fmt::Result => Result<(), FErr>
//@typemap std::fmt::Error => FErr
//@typemap Cell<bool> => CellB
//@attr #[verifier::exec_allows_no_decreases_clause]
//@include std_shim.rs
//@include w_shim.rs
impl VChars {
    #[verifier::external_body] pub fn nxt(&mut self) -> (r: Option<char>)
        ensures match r { Some(c) => old(self).v().len() > 0 && c == old(self).v()[0] && final(self).v() == old(self).v().skip(1), None => old(self).v().len() == 0 && final(self).v() == old(self).v() } { unimplemented!() }
}
#[verifier::external_body] pub fn max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { unimplemented!() }
//@methods chars=v_chars starts_with=c_sw ends_with=c_ew find=c_find contains=c_has trim_end_matches=v_trim_em trim_start_matches=v_trim_sm pop=v_pop trim=v_trim trim_start=v_trim_start trim_end=v_trim_end
#[verifier::external_body] pub fn w_disp<T: Disp + ?Sized>(f: &mut String, x: &T) -> (r: WR) ensures final(f)@ == old(f)@ + x.d() { unimplemented!() }
#[verifier::external_body] pub fn w_lit(f: &mut String, s: &str) -> (r: WR) ensures final(f)@ == old(f)@ + s@ { unimplemented!() }
//@type src/config.rs FormatOpts
//@type src/config.rs Config
//@type src/config.rs State
//@type src/parser/common.rs Loc
//@type src/parser/common.rs Str
//@type src/parser/lua_ast.rs TableConstructorOpts
//@type src/parser/lua_ast.rs FieldsOpts
//@type src/parser/lua_ast.rs Node
//@enum Node src/parser/lua_ast.rs Node
impl Clone for Loc { #[verifier::external_body] fn clone(&self) -> (r: Loc) ensures r == *self { unimplemented!() } }

// ---- the writers' state
//@include it_shim.rs
pub open spec fn kept(a: State, b: State) -> bool { kept_in(a, b, 0) }
/// d blocks deeper
pub open spec fn kept_in(a: State, b: State, d: int) -> bool {
    &&& a.chars_to_bytes@ == b.chars_to_bytes@ && (a.pos_range is None ==> b.pos_range is None)
    &&& a.indent_level == b.indent_level && a.stack_indent@ == b.stack_indent@ && a.function_nested_level == b.function_nested_level && a.block_nested_level + d == b.block_nested_level
    &&& a.comment_pos_range == b.comment_pos_range && a.comment_offset == b.comment_offset
}
/// the state in which the writer of the whole tree starts
pub open spec fn ready(st: State, cfg: Config, buf: Seq<char>) -> bool {
    &&& idx_at(st.chars_to_bytes@, 0, buf) && (cfg.line_range is None ==> st.pos_range is None)
    &&& st.indent_level == 0 && st.stack_indent@.len() == 0 && st.function_nested_level == 0 && st.block_nested_level == 0 && st.comment_pos_range is None
}
/// a field and the same field with other hints on its table
pub open spec fn eqopts(a: Node, b: Node) -> bool {
    a == b || match a { Node::Fields(p, v, o) => match b { Node::Fields(q, w, x) => p == q && v@ == w@, _ => false }, Node::FieldSequential(p, e) => match b { Node::FieldSequential(q, f) => p == q && match *e { Node::TableConstructor(s, l, r, o) => match *f { Node::TableConstructor(s2, l2, r2, o2) => s == s2 && l == l2 && r == r2, _ => false }, _ => false }, _ => false }, _ => false }
}
pub open spec fn tc_inner(n: Node) -> Node { match n { Node::TableConstructor(_, _, e, _) => *e, _ => n } }
pub proof fn lem_eqopts(a: Node, a2: Node, b: Node, conv: bool) requires eqopts(a, a2), same(a2, b, conv) ensures same(a, b, conv)
{ reveal_with_fuel(same, 3); }
pub enum SepKind { fields, comma, dot }
pub open spec fn long_str(level: int, s: Seq<char>) -> Seq<char> {
    "["@ + rep("="@, level) + "["@ + s + "]"@ + rep("="@, level) + "]"@
}
/// white space and comments (defined in lex_trivia.rs)
pub uninterp spec fn trivia(s: Seq<char>, a: int, b: int) -> bool;
//@include wf_gap.rs
//@include wf.rs
//@include w_idx.rs
//@include w_lend.rs
//@include w04_t.rs
//@include w04_none.rs
//@include strval.rs
//@include same.rs
//@include same_wf.rs
pub open spec fn vec4_of(n: Node) -> Seq<(Loc, Node, Loc, String)> { match n { Node::ExpList(_, v) | Node::NameList(_, v) | Node::VarList(_, v) | Node::ParList(_, v) | Node::FuncName(_, v) => v@, Node::FuncNameSelf(_, _, v, _) => v@, Node::Fields(_, v, _) => v@, _ => Seq::empty() } }
pub open spec fn vec2_of(n: Node) -> Seq<(Loc, Node)> { match n { Node::VarSuffixList(_, v) | Node::ElseIfThenVec(_, v) | Node::StatementList(_, v) => v@, _ => Seq::empty() } }
pub open spec fn same_pre4(a: Seq<(Loc, Node, Loc, String)>, b: Seq<(Loc, Node, Loc, String)>, k: int, conv: bool) -> bool {
    a.len() == b.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] b[i]).0 == a[i].0 && b[i].2 == a[i].2 && b[i].3 == a[i].3 && same(a[i].1, b[i].1, conv))
    && (forall|i: int| k <= i < b.len() ==> (#[trigger] b[i]) == a[i])
}
pub open spec fn same_pre2(a: Seq<(Loc, Node)>, b: Seq<(Loc, Node)>, k: int, conv: bool) -> bool {
    a.len() == b.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] b[i]).0 == a[i].0 && same(a[i].1, b[i].1, conv))
    && (forall|i: int| k <= i < b.len() ==> (#[trigger] b[i]) == a[i])
}
pub broadcast proof fn b_same4(a: Seq<(Loc, Node, Loc, String)>, b: Seq<(Loc, Node, Loc, String)>, k: int, c: bool) requires #[trigger] same_pre4(a, b, k, c), k >= a.len() ensures same4(a, b, c) {}
pub broadcast proof fn b_same2(a: Seq<(Loc, Node)>, b: Seq<(Loc, Node)>, k: int, c: bool) requires #[trigger] same_pre2(a, b, k, c), k >= a.len() ensures same2(a, b, c) {}
//@fn src/formatting/util.rs charstring_to_normalstring | params=s
    ensures converted(s@, r@),
//@pre
    proof { lem_converted(s@); }
//@loop 0
    invariant_except_break result@ + cv(it__1.v(), escaped) == cv(s@, false),
    ensures result@ == cv(s@, false),
    decreases it__1.v().len(),
//@loopbegin 0
    proof { lem_conv_step(result@, it__1.v(), escaped); }
//@end
//@fn src/formatting/reconstruction.rs update_pos_range | params=span,state
    ensures kept(*old(state), *final(state)),
//@end
//@arms src/formatting/reconstruction.rs reconstruct_node_tree | params=node,cfg,state iter=mut enum=Node arith=math on=node
    ensures same(*old(node), *final(node), cfg.fmt.convert_charstring_to_normalstring == Some(true)), kept(*old(state), *final(state)),
//@loop 0
    invariant kept(*old(state), *state), n__ == vec4_of(*old(node)).len(), same_pre4(vec4_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
//@loop 1
    invariant kept(*old(state), *state), n__ == vec2_of(*old(node)).len(), same_pre2(vec2_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
//@loop 2
    invariant kept_in(*old(state), *state, 1), n__ == vec2_of(*old(node)).len(), same_pre2(vec2_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
//@loop 3
    invariant kept(*old(state), *state), n__ == vec4_of(*old(node)).len(), same_pre4(vec4_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
//@loop 4
    invariant kept(*old(state), *state), n__ == vec4_of(*old(node)).len(), same_pre4(vec4_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
//@loopbegin 4
    proof { let a = v@[k__ as int].1; let c = cfg.fmt.convert_charstring_to_normalstring == Some(true);
        assert forall|a2: Node, b: Node| #[trigger] same(a2, b, c) && eqopts(a, a2) implies same(a, b, c) by { lem_eqopts(a, a2, b, c); } }
//@pre
    broadcast use b_same4, b_same2;
//@armpre TableConstructor
    proof { let c = cfg.fmt.convert_charstring_to_normalstring == Some(true); let a = tc_inner(*node);
        assert forall|a2: Node, b: Node| #[trigger] same(a2, b, c) && eqopts(a, a2) implies same(a, b, c) by { lem_eqopts(a, a2, b, c); } }
//@end
/// the map after k characters
pub open spec fn idx_k(m: Map<usize, usize>, s: Seq<char>, k: int) -> bool {
    0 <= k <= s.len() && (forall|j: usize| #[trigger] m.dom().contains(j) <==> j < k) && forall|j: usize| j < k ==> #[trigger] m[j] == boff(s, j as int)
}
pub open spec fn only_map(a: State, b: State) -> bool {
    a.pos_range == b.pos_range && a.indent_level == b.indent_level && a.stack_indent@ == b.stack_indent@ && a.function_nested_level == b.function_nested_level && a.block_nested_level == b.block_nested_level
        && a.comment_pos_range == b.comment_pos_range && a.comment_offset == b.comment_offset
}
//@fn src/formatting/reconstruction.rs update_indexes | methods=char_indices:v_char_indices,len:v_len params=buf,state
    requires old(state).chars_to_bytes@ == Map::<usize, usize>::empty(),
    ensures idx_at(final(state).chars_to_bytes@, 0, buf@), only_map(*old(state), *final(state)),
//@pre
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    blen_max(buf);
    let ghost mut k = 0int;
//@loop 0
    invariant_except_break it__1.v() == ci(buf@).skip(k), ci(buf@).len() == buf@.len(), blen_ok(buf@),
        idx_k(state.chars_to_bytes@, buf@, k), index == (if k > 0 { k - 1 } else { 0 }), only_map(*old(state), *state),
    ensures idx_k(state.chars_to_bytes@, buf@, buf@.len() as int), index == (if buf@.len() > 0 { buf@.len() - 1 } else { 0 }), only_map(*old(state), *state),
    decreases it__1.v().len(),
//@loopbegin 0
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { if it__1.v().len() > 0 { ci_at(buf@, k); k = k + 1; } }
//@end
//@fn src/formatting/util.rs line_range_to_pos_range | params=buf,lr_opt
    ensures lr_opt is None ==> r is None,
//@end
//@fn src/config.rs State::default
    ensures r.pos_range is None, r.chars_to_bytes@ == Map::<usize, usize>::empty(), r.indent_level == 0, r.stack_indent@.len() == 0, r.function_nested_level == 0, r.block_nested_level == 0, r.comment_pos_range is None,
//@pre
    broadcast use vstd::std_specs::hash::group_hash_axioms;
//@end
// ---- the pipeline
#[verifier::external_body] pub struct PErr { x: u8 }
impl Disp for PErr { uninterp spec fn d(&self) -> Seq<char>; }
/// t is the tree of src
pub uninterp spec fn parsed(src: Seq<char>, t: Node) -> bool;
/// what the writers make of the tree, starting from a state that is ready
pub uninterp spec fn written(t: Node, cfg: Config, src: Seq<char>, out: Seq<char>) -> bool;
/// what is written is the tree that was parsed, quotes converted if that is asked for
pub open spec fn piped(src: Seq<char>, cfg: Config, out: Seq<char>) -> bool {
    exists|t: Node, u: Node| #[trigger] parsed(src, t) && #[trigger] written(u, cfg, src, out) && same(t, u, cfg.fmt.convert_charstring_to_normalstring == Some(true))
}
/// parse_lua's promise, proved from the grammar in c16_lua.rs
#[verifier::external_body] pub fn parse_lua(s: &String) -> (r: Result<Node, PErr>) ensures r matches Ok(t) ==> parsed(s@, t) && wf(t, s@) && sp(t) == (0int, s@.len() as int) { unimplemented!() }
pub open spec fn sok(st: State, buf: Seq<char>) -> bool { st.pos_range is None && idx_at(st.chars_to_bytes@, 0, buf) }
impl Node {
    /// the writers' promise, proved in w04.rs
    #[verifier::external_body] pub fn configured_write(&self, f: &mut String, cfg: &Config, buf: &String, state: &mut State) -> (r: WR)
        ensures r is Ok && old(f)@.len() == 0 && ready(*old(state), *cfg, buf@) ==> written(*self, *cfg, buf@, final(f)@),
            cnone(*cfg) && sok(*old(state), buf@) && wf(*self, buf@) && r is Ok ==>
            forall|k: K, p: int| #[trigger] T(old(f)@, k, p) && k.s == buf@ && p == sp(*self).0 ==> T(final(f)@, k, sp(*self).1) { unimplemented!() }
}
/// the source, the white space of empty tables aside; a line comment or `#!` line that the source ends gets its line end
pub open spec fn identity(s: Seq<char>, out: Seq<char>) -> bool { exists|y: Seq<char>| #[trigger] eqv(s, y) && (out == y || (line_end(s) && out == y + "\n"@)) }
pub proof fn T_whole(out: Seq<char>, s: Seq<char>)
    requires T(out, K { o: Seq::empty(), s, a: 0 }, s.len() as int) ensures identity(s, out)
{ reveal(T); let k = K { o: Seq::<char>::empty(), s, a: 0 }; let n = s.len() as int;
  let y = choose|y: Seq<char>| #[trigger] eqv(k.s.subrange(k.a, n), y) && (out == k.o + y || (n == k.s.len() && line_end(k.s) && out == k.o + y + "\n"@));
  assert(s.subrange(0, n) =~= s); assert(k.o + y =~= y); assert(k.o + y + "\n"@ =~= y + "\n"@); }
//@type src/formatter.rs FormatterError
//@enum FormatterError src/formatter.rs FormatterError
//@fn src/formatter.rs process_buffer_with_config | params=content,cfg,verbose enum=FormatterError
    ensures r is Ok ==> piped(content@, *cfg, r->Ok_0@),
        r is Ok && cnone(*cfg) && cfg.line_range is None ==> identity(content@, r->Ok_0@),
//@pre
    proof { T_start0(K { o: Seq::empty(), s: content@, a: 0 });
        assert forall|a: Node, b: Node, s: Seq<char>| #[trigger] wf(a, s) && #[trigger] same(a, b, false) implies wf(b, s) && sp(b) == sp(a) by { same_wf(a, b, s); }
        assert forall|out: Seq<char>| #[trigger] T(out, K { o: Seq::empty(), s: content@, a: 0 }, content@.len() as int) implies identity(content@, out) by { T_whole(out, content@); } }
//@end
fn main() {}
}
