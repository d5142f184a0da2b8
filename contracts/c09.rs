// C09: the conversion of '...' strings, and the pass over the tree that applies it
#![allow(non_snake_case, non_camel_case_types, unused, dead_code)]
use vstd::prelude::*;
use std::collections::HashMap;
verus! {
//@macros src/config.rs src/formatting/util.rs
//@modules crate parser formatter fmt std util list reconstruction config lua_ast comment_ast core cmp
//@typemap std::fmt::Result => Result<(), FErr>
//@typemap std::fmt::Error => FErr
//@typemap Cell<bool> => CellB
//@attr #[verifier::exec_allows_no_decreases_clause]
//@include std_shim.rs
//@include w_shim.rs
impl VChars {
    #[verifier::external_body] pub fn nxt(&mut self) -> (r: Option<char>)
        ensures match r { Some(c) => old(self).v().len() > 0 && c == old(self).v()[0] && final(self).v() == old(self).v().skip(1), None => old(self).v().len() == 0 && final(self).v() == old(self).v() } { unimplemented!() }
}
pub fn into_it(x: VChars) -> (r: VChars) ensures r == x { x }
#[verifier::external_body] pub fn max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { unimplemented!() }
//@methods chars=v_chars starts_with=c_sw ends_with=c_ew find=c_find contains=c_has trim_end_matches=v_trim_em trim_start_matches=v_trim_sm pop=v_pop trim=v_trim trim_start=v_trim_start trim_end=v_trim_end
#[verifier::external_body] pub fn w_disp<T: Disp + ?Sized>(f: &mut String, x: &T) -> (r: WR) ensures final(f)@ == old(f)@ + x.d() { unimplemented!() }
#[verifier::external_body] pub fn w_lit(f: &mut String, s: &str) -> (r: WR) ensures final(f)@ == old(f)@ + s@ { unimplemented!() }
//@type src/config.rs FormatOpts
//@type src/config.rs Config
//@type src/config.rs State
//@type src/parser/common.rs Loc
//@type src/parser/common.rs Str
//@type src/parser/lua_ast.rs TableConstructorOpts
//@type src/parser/lua_ast.rs FieldsOpts
//@type src/parser/lua_ast.rs Node
//@enum Node src/parser/lua_ast.rs Node
impl Clone for Loc { #[verifier::external_body] fn clone(&self) -> (r: Loc) ensures r == *self { unimplemented!() } }
/// the text of a string literal of Lua
pub open spec fn lit_text(n: Node) -> Seq<char> {
    match n {
        Node::NormalStringLiteral(_, s) => seq!['"'] + s@ + seq!['"'],
        Node::CharStringLiteral(_, s) => seq!['\''] + s@ + seq!['\''],
        Node::MultiLineStringLiteral(_, k, s) => seq!['['] + rep("="@, k as int) + seq!['['] + s@ + seq![']'] + rep("="@, k as int) + seq![']'],
        _ => Seq::empty(),
    }
}
/// a field and the same field with other hints on its table
pub open spec fn eqopts(a: Node, b: Node) -> bool {
    a == b || match a { Node::Fields(p, v, o) => match b { Node::Fields(q, w, x) => p == q && v@ == w@, _ => false }, Node::FieldSequential(p, e) => match b { Node::FieldSequential(q, f) => p == q && match *e { Node::TableConstructor(s, l, r, o) => match *f { Node::TableConstructor(s2, l2, r2, o2) => s == s2 && l == l2 && r == r2, _ => false }, _ => false }, _ => false }, _ => false }
}
pub open spec fn tc_inner(n: Node) -> Node { match n { Node::TableConstructor(_, _, e, _) => *e, _ => n } }
pub proof fn lem_eqopts(a: Node, a2: Node, b: Node, conv: bool) requires eqopts(a, a2), same(a2, b, conv) ensures same(a, b, conv)
{ reveal_with_fuel(same, 3); }
//@include strval.rs
//@include same.rs
pub open spec fn vec4_of(n: Node) -> Seq<(Loc, Node, Loc, String)> { match n { Node::ExpList(_, v) | Node::NameList(_, v) | Node::VarList(_, v) | Node::ParList(_, v) | Node::FuncName(_, v) => v@, Node::FuncNameSelf(_, _, v, _) => v@, Node::Fields(_, v, _) => v@, _ => Seq::empty() } }
pub open spec fn vec2_of(n: Node) -> Seq<(Loc, Node)> { match n { Node::VarSuffixList(_, v) | Node::ElseIfThenVec(_, v) | Node::StatementList(_, v) => v@, _ => Seq::empty() } }
pub open spec fn same_pre4(a: Seq<(Loc, Node, Loc, String)>, b: Seq<(Loc, Node, Loc, String)>, k: int, conv: bool) -> bool {
    a.len() == b.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] b[i]).0 == a[i].0 && b[i].2 == a[i].2 && b[i].3 == a[i].3 && same(a[i].1, b[i].1, conv))
    && (forall|i: int| k <= i < b.len() ==> (#[trigger] b[i]) == a[i])
}
pub open spec fn same_pre2(a: Seq<(Loc, Node)>, b: Seq<(Loc, Node)>, k: int, conv: bool) -> bool {
    a.len() == b.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] b[i]).0 == a[i].0 && same(a[i].1, b[i].1, conv))
    && (forall|i: int| k <= i < b.len() ==> (#[trigger] b[i]) == a[i])
}
pub broadcast proof fn b_same4(a: Seq<(Loc, Node, Loc, String)>, b: Seq<(Loc, Node, Loc, String)>, k: int, c: bool) requires #[trigger] same_pre4(a, b, k, c), k >= a.len() ensures same4(a, b, c) {}
pub broadcast proof fn b_same2(a: Seq<(Loc, Node)>, b: Seq<(Loc, Node)>, k: int, c: bool) requires #[trigger] same_pre2(a, b, k, c), k >= a.len() ensures same2(a, b, c) {}
//@fn src/formatting/util.rs charstring_to_normalstring | params=s
    ensures converted(s@, r@),
//@pre
    proof { lem_converted(s@); }
//@loop 0
    invariant_except_break result@ + cv(it__1.v(), escaped) == cv(s@, false),
    ensures result@ == cv(s@, false),
    decreases it__1.v().len(),
//@loopbegin 0
    proof { lem_conv_step(result@, it__1.v(), escaped); }
//@end
//@fn src/formatting/reconstruction.rs update_pos_range | params=span,state
//@end
//@arms src/formatting/reconstruction.rs reconstruct_node_tree | params=node,cfg,state iter=mut enum=Node arith=math on=node
    ensures same(*old(node), *final(node), cfg.fmt.convert_charstring_to_normalstring == Some(true)),
//@loop 0
    invariant n__ == vec4_of(*old(node)).len(), same_pre4(vec4_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
//@loop 1
    invariant n__ == vec2_of(*old(node)).len(), same_pre2(vec2_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
//@loop 2
    invariant n__ == vec2_of(*old(node)).len(), same_pre2(vec2_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
//@loop 3
    invariant n__ == vec4_of(*old(node)).len(), same_pre4(vec4_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
//@loop 4
    invariant n__ == vec4_of(*old(node)).len(), same_pre4(vec4_of(*old(node)), v@, k__ as int, cfg.fmt.convert_charstring_to_normalstring == Some(true)),
//@loopbegin 4
    proof { let a = v@[k__ as int].1; let c = cfg.fmt.convert_charstring_to_normalstring == Some(true);
        assert forall|a2: Node, b: Node| #[trigger] same(a2, b, c) && eqopts(a, a2) implies same(a, b, c) by { lem_eqopts(a, a2, b, c); } }
//@pre
    broadcast use b_same4, b_same2;
//@armpre TableConstructor
    proof { let c = cfg.fmt.convert_charstring_to_normalstring == Some(true); let a = tc_inner(*node);
        assert forall|a2: Node, b: Node| #[trigger] same(a2, b, c) && eqopts(a, a2) implies same(a, b, c) by { lem_eqopts(a, a2, b, c); } }
//@end
//@arms src/parser/lua_ast.rs Node as ConfiguredWrite::configured_write | enum=Node params=f,cfg,buf,state only=NormalStringLiteral,CharStringLiteral,MultiLineStringLiteral
    ensures r is Ok ==> final(f)@ =~= old(f)@ + lit_text(*self),
//@pre
    proof { reveal_strlit("\""); reveal_strlit("'"); reveal_strlit("["); reveal_strlit("]"); }
//@end
// the pipeline: what is written is the tree that was parsed, after this pass
pub uninterp spec fn parsed(src: Seq<char>, t: Node) -> bool;
pub uninterp spec fn written(t: Node, cfg: Config, src: Seq<char>, out: Seq<char>) -> bool;
pub open spec fn piped(src: Seq<char>, cfg: Config, out: Seq<char>) -> bool {
    exists|t: Node, u: Node| #[trigger] parsed(src, t) && #[trigger] written(u, cfg, src, out) && same(t, u, cfg.fmt.convert_charstring_to_normalstring == Some(true))
}
#[verifier::external_body] pub struct PErr { x: u8 }
#[verifier::external_body] pub fn parse_lua(s: &String) -> (r: Result<Node, PErr>) ensures r matches Ok(t) ==> parsed(s@, t) { unimplemented!() }
impl Node {
    #[verifier::external_body] pub fn configured_write(&self, f: &mut String, cfg: &Config, buf: &String, state: &mut State) -> (r: WR)
        ensures r is Ok && old(f)@.len() == 0 ==> written(*self, *cfg, buf@, final(f)@) { unimplemented!() }
}
impl State { #[verifier::external_body] pub fn default() -> (r: State) { unimplemented!() } }
#[verifier::external_body] pub fn line_range_to_pos_range(buf: &String, lr_opt: Option<(usize, usize)>) -> (r: Option<(usize, usize)>) { unimplemented!() }
#[verifier::external_body] pub fn update_indexes(buf: &String, state: &mut State) { unimplemented!() }
//@type src/formatter.rs FormatterError
//@enum FormatterError src/formatter.rs FormatterError
impl Disp for PErr { uninterp spec fn d(&self) -> Seq<char>; }
//@fn src/formatter.rs process_buffer_with_config | params=content,cfg,verbose enum=FormatterError
    ensures r is Ok ==> piped(content@, *cfg, r->Ok_0@),
//@end
fn main() {}
}
