// generated by gen_w.py from w_skel.txt and w15.txt
// the writers: lua_ast.rs, comment_ast.rs, formatting/*.rs
#![allow(non_snake_case, non_camel_case_types, unused, dead_code)]
use vstd::prelude::*;
use std::collections::HashMap;
verus! {
//@macros src/config.rs src/formatting/util.rs
//@modules crate parser fmt std util list reconstruction config lua_ast comment_ast core
//@mono cfg_write_list cfg_write_sep_list
//@typemap std::fmt::Result => Result<(), FErr>
//@typemap std::fmt::Error => FErr
//@typemap core::fmt::Error => FErr
//@typemap Cell<bool> => CellB
//@methods chars=v_chars starts_with=c_sw ends_with=c_ew find=c_find contains=c_has trim_end_matches=v_trim_em trim_start_matches=v_trim_sm pop=v_pop trim=v_trim trim_start=v_trim_start trim_end=v_trim_end
//@attr #[verifier::exec_allows_no_decreases_clause]
//@define C15
//@include std_shim.rs
//@include w_shim.rs
//@include w15_spec.rs
//@text KEEP
    requires idx(*old(state), buf@),
    ensures st_same(*old(state), *final(state)),
//@endtext
//@text CKEEP
    requires cidx(*old(state), buf@),
    ensures cst_same(*old(state), *final(state)), keep1(old(f)@, final(f)@),
//@endtext
//@type src/config.rs FormatOpts
//@type src/config.rs Config
//@type src/config.rs State
impl Clone for Config { #[verifier::external_body] fn clone(&self) -> (r: Config) ensures r == *self { unimplemented!() } }
impl Clone for State { #[verifier::external_body] fn clone(&self) -> (r: State) ensures r == *self { unimplemented!() } }
//@type src/parser/common.rs Loc
//@type src/parser/common.rs Str
//@type src/parser/lua_ast.rs TableConstructorOpts
//@type src/parser/lua_ast.rs FieldsOpts
//@type src/parser/lua_ast.rs Node
//@enum Node src/parser/lua_ast.rs Node
//@type src/parser/comment_ast.rs Node | as=CNode inst=Node:CNode
//@enum CNode src/parser/comment_ast.rs Node
//@type src/formatting/loc_hint.rs CommentLocHint
//@type src/formatting/loc_hint.rs SpaceLocHint
//@type src/formatting/decoration.rs IfNewLine
//@type src/formatting/decoration.rs IncIndent
//@type src/formatting/decoration.rs DecIndent
//@type src/formatting/decoration.rs IncFuncLevel
//@type src/formatting/decoration.rs DecFuncLevel
/// what the comment grammar promises (c16_com.rs): the positions a comment tree names lie inside the text
#[verifier::external_body] pub fn parse_comment(s: &str) -> (r: Result<CNode, FErr>) ensures r matches Ok(t) ==> clok(t, s@)
{ unimplemented!() }
//@fn src/parser/common.rs Loc::substr | params=buf,state,offset arith=math
    requires idx_at(state.chars_to_bytes@, offset as int, buf@), lvalid(*self, buf@)
    ensures r@ == lsub(*self, buf@)
//@pre
    broadcast use vstd::std_specs::hash::group_hash_axioms, lem_boff_pos;
    proof { assert(mkk(0) && mkk(self.0 as int) && mkk(self.1 as int)); reveal_strlit(""); 
        if buf@.len() == 0 { assert(lsub(*self, buf@) =~= Seq::empty()); } lem_boff_mono(buf@, self.0 as int, self.1 as int); }
//@end
//@fn src/parser/common.rs Loc as ConfiguredWrite::configured_write | params=f,cfg,buf,state
    requires idx(*old(state), buf@), lvalid(*self, buf@)
    ensures *final(state) == *old(state),
//@end
//@fn src/parser/common.rs Str as ConfiguredWrite::configured_write | params=f,cfg,buf,state
    ensures *final(state) == *old(state),
//@end
//@fn src/formatting/util.rs test_out_of_range | params=range,span
//@end
//@fn src/formatting/util.rs test_not_completely_contained | params=range,span
//@end
//@fn src/formatting/util.rs trim_end_spaces_and_tabs | params=string
//@end
//@fn src/formatting/util.rs get_len_after_newline | params=s,cfg
    ensures r <= isize::MAX
//@end
//@fn src/formatting/util.rs get_len_till_newline | params=s,cfg
    ensures r <= isize::MAX
//@end
//@fn src/formatting/util.rs has_newlines | params=s
//@end
//@fn src/formatting/util.rs write_indent | params=f,cfg,state
    ensures keep1(old(f)@, final(f)@)
//@pre
    broadcast use keep1_app;
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as LocHintConstructible::new | params=loc,s
    ensures r.0 == loc, r.1@ == s@
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as LocHintConstructible::get_loc
    ensures r == self.0
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as LocHintConstructible::is_out_of_range | params=state
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as LocHintConstructible::new | params=loc,s
    ensures r.0 == loc, r.1@ == s@
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as LocHintConstructible::get_loc
    ensures r == self.0
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as LocHintConstructible::is_out_of_range | params=state
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint::write_formatted_comment_block | methods=is_empty:v_empty params=f,cfg,buf,comment_block
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as ConfiguredWrite::configured_write | methods=len:v_len,is_empty:v_empty params=f,cfg,buf,state
    requires idx(*old(state), buf@), lvalid(*self.0, buf@)
    ensures st_same(*old(state), *final(state)),
//@pre
    broadcast use keep1_boff;
    proof { lem_idx_sub(state.chars_to_bytes@, buf@, self.0.0 as int, self.0.1 as int); }
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as ConfiguredWrite::configured_write | params=f,cfg,buf,state
    requires cidx(*old(state), buf@), lvalid(*self.0, buf@)
    ensures cst_same(*old(state), *final(state)), keep1(old(f)@, final(f)@),
//@pre
    broadcast use keep1_app;
//@end
//@fn src/formatting/decoration.rs IfNewLine as ConfiguredWrite::configured_write | methods=len:v_len,is_empty:v_empty params=f,cfg,buf,state impl="<'a, 'b> IfNewLine<CommentLocHint<'a, 'b>>" inst=LocHint:CommentLocHint
    requires idx(*old(state), buf@), lvalid(*self.1.0, buf@)
    ensures st_same(*old(state), *final(state)),
//@end
//@fn src/formatting/decoration.rs IfNewLine as ConfiguredWrite::configured_write | methods=len:v_len,is_empty:v_empty params=f,cfg,buf,state impl="<'a, 'b> IfNewLine<SpaceLocHint<'a, 'b>>" inst=LocHint:SpaceLocHint
    requires cidx(*old(state), buf@), lvalid(*self.1.0, buf@)
    ensures cst_same(*old(state), *final(state)), keep1(old(f)@, final(f)@),
//@pre
    broadcast use keep1_app, keep1_pop, boff_one;
//@end
//@fn src/formatting/decoration.rs IncIndent as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures st_same(*old(state), *final(state)),
//@end
//@fn src/formatting/decoration.rs DecIndent as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures st_same(*old(state), *final(state)),
//@end
//@fn src/formatting/decoration.rs IncFuncLevel as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures st_same(*old(state), *final(state)),
//@end
//@fn src/formatting/decoration.rs DecFuncLevel as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures st_same(*old(state), *final(state)),
//@end
pub struct IfInc<'a>(pub bool, pub &'a IncIndent);
pub struct IfDec<'a>(pub bool, pub &'a DecIndent);
//@fn src/formatting/decoration.rs If as ConfiguredWrite::configured_write | params=f,cfg,buf,state impl="<'a> IfInc<'a>"
    ensures st_same(*old(state), *final(state)),
//@end
//@fn src/formatting/decoration.rs If as ConfiguredWrite::configured_write | params=f,cfg,buf,state impl="<'a> IfDec<'a>"
    ensures st_same(*old(state), *final(state)),
//@end
//@fn src/parser/lua_ast.rs Node as AnyListItem::list_item_prefix_hint | enum=Node params=cfg impl="<'a> Node"
//@end
//@fn src/parser/lua_ast.rs Node as AnyListItem::need_newline | enum=Node params=prev,parent,f,cfg,buf,state impl=" Node" arith=math
    requires wok(*cfg), idx(*old(state), buf@), lok(*self, buf@), lok(*prev, buf@), lok(*parent, buf@)
    ensures st_same(*old(state), *final(state)),
//@end
//@fn src/parser/lua_ast.rs Node as AnyListItem::need_first_newline | enum=Node params=parent,f,cfg,buf,state impl=" Node" arith=math
    requires wok(*cfg), idx(*old(state), buf@), lok(*self, buf@), lok(*parent, buf@)
    ensures st_same(*old(state), *final(state)),
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::items | as=Node::sep_items enum=Node
    ensures match sp_seps(*self) { Some(v) => r is Some && *r->Some_0 == v, None => r is None }
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::element_prefix_hint | enum=Node
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::separator | enum=Node params=cfg
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::trailing_separator | enum=Node params=cfg
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::need_newlines | as=Node::sep_need_newlines enum=Node params=cfg
//@end
//@fn src/parser/lua_ast.rs Node as ListOfItems::items | enum=Node
    ensures match sp_items(*self) { Some(v) => r is Some && *r->Some_0 == v, None => r is None }
//@end
//@fn src/parser/lua_ast.rs Node as ListOfItems::need_newlines | enum=Node params=cfg
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_table_cfg | enum=Node params=cfg arith=math
    requires wok(*cfg), self matches Node::TableConstructor(span, _, _, _) ==> span.0 <= span.1
    ensures r is Some ==> wok(r->Some_0)
//@end
//@fn src/parser/lua_ast.rs Node::bracket_hint | enum=Node
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_table_field | enum=Node params=f,cfg,buf,state arith=math
    requires wok(*cfg), idx(*old(state), buf@), lok(*self, buf@)
    ensures st_same(*old(state), *final(state)),
//@pre
    proof { lok_step(*self, buf@); }
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_if | enum=Node params=f,cfg,buf,state arith=math
    requires wok(*cfg), idx(*old(state), buf@), lok(*self, buf@)
    ensures st_same(*old(state), *final(state)),
//@pre
    proof { lok_step(*self, buf@); }
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_function | enum=Node params=f,cfg,buf,state arith=math
    requires wok(*cfg), idx(*old(state), buf@), lok(*self, buf@)
    ensures st_same(*old(state), *final(state)),
//@pre
    proof { lok_step(*self, buf@); }
//@end
//@fn src/parser/lua_ast.rs Node::test_indent | enum=Node params=f,cfg,buf,state,hint arith=math
    requires wok(*cfg), idx(*old(state), buf@), lok(*self, buf@), lvalid(*hint.0, buf@)
    ensures st_same(*old(state), *final(state)),
//@pre
    proof { lok_step(*self, buf@); }
//@end
//@fn src/formatting/list.rs cfg_write_sep_list | as=cfg_write_sep_list__Node_CommentLocHint inst=Hint:CommentLocHint params=f,cfg,buf,state,list_node methods=items:sep_items,need_newlines:sep_need_newlines
    requires wok(*cfg), idx(*old(state), buf@), lok(*list_node, buf@)
    ensures st_same(*old(state), *final(state)),
//@pre
    proof { lok_step(*list_node, buf@); }
//@loop 0
    invariant wok(*cfg), st_same(*old(state), *state), idx(*state, buf@), items@.len() > 0, lok(*list_node, buf@), sp_seps(*list_node) == Some(*items), lstep(*list_node, buf@),
//@end
//@fn src/formatting/list.rs cfg_write_list | as=cfg_write_list__Node_CommentLocHint inst=Hint:CommentLocHint params=f,cfg,buf,state,list_node
    requires wok(*cfg), idx(*old(state), buf@), lok(*list_node, buf@)
    ensures st_same(*old(state), *final(state)),
//@pre
    proof { lok_step(*list_node, buf@); }
//@loop 0
    invariant wok(*cfg), st_same(*old(state), *state), idx(*state, buf@), items@.len() > 0, lok(*list_node, buf@), sp_items(*list_node) == Some(*items), lstep(*list_node, buf@),
//@end
//@fn src/formatting/list.rs cfg_write_list | as=cfg_write_list__CNode_SpaceLocHint inst=Hint:SpaceLocHint,Node:CNode params=f,cfg,buf,state,list_node
    requires cidx(*old(state), buf@), clok(*list_node, buf@)
    ensures cst_same(*old(state), *final(state)), keep1(old(f)@, final(f)@),
//@pre
    proof { clok_step(*list_node, buf@); }
//@loop 0
    invariant cst_same(*old(state), *state), cidx(*state, buf@), items@.len() > 0, keep1(old(f)@, f@), csp_items(*list_node) == Some(*items), clstep(*list_node, buf@), forall|k: int| 0 <= k < items@.len() ==> lvalid((#[trigger] items@[k]).0, buf@) && clok(items@[k].1, buf@),
//@end
//@arms src/parser/lua_ast.rs Node as ConfiguredWrite::configured_write | enum=Node params=f,cfg,buf,state arith=math
    requires wok(*cfg), idx(*old(state), buf@), lok(*self, buf@)
    ensures st_same(*old(state), *final(state)),
//@armpre
    proof { lok_step(*self, buf@); }
//@end
//@fn src/parser/comment_ast.rs Node as ListOfItems::items | enum=CNode inst=Node:CNode
    ensures match csp_items(*self) { Some(v) => r is Some && *r->Some_0 == v, None => r is None }
//@end
//@fn src/parser/comment_ast.rs Node as ListOfItems::need_newlines | enum=CNode inst=Node:CNode params=cfg
//@end
//@fn src/parser/comment_ast.rs Node as AnyListItem::list_item_prefix_hint | enum=CNode inst=Node:CNode params=cfg impl="<'a> CNode"
//@end
//@fn src/parser/comment_ast.rs Node as AnyListItem::need_newline | enum=CNode inst=Node:CNode params=prev,parent,f,cfg,buf,state impl=" CNode"
    ensures *final(state) == *old(state), final(f)@ == old(f)@,
//@end
//@fn src/parser/comment_ast.rs Node as AnyListItem::need_first_newline | enum=CNode inst=Node:CNode params=parent,f,cfg,buf,state impl=" CNode"
    ensures *final(state) == *old(state), final(f)@ == old(f)@,
//@end
//@arms src/parser/comment_ast.rs Node as ConfiguredWrite::configured_write | enum=CNode inst=Node:CNode params=f,cfg,buf,state impl=" CNode" arith=math methods=is_empty:v_empty
    requires cidx(*old(state), buf@), clok(*self, buf@)
    ensures cst_same(*old(state), *final(state)), keep1(old(f)@, final(f)@),
//@armpre
    broadcast use keep1_app;
//@end
fn main() {}
}
