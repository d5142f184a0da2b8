// generated by gen_w.py from w_skel.txt and w13.txt
// the writers: lua_ast.rs, comment_ast.rs, formatting/*.rs
#![allow(non_snake_case, non_camel_case_types, unused, dead_code)]
use vstd::prelude::*;
use std::collections::HashMap;
verus! {
//@macros src/config.rs src/formatting/util.rs
//@modules crate parser fmt std util list reconstruction config lua_ast comment_ast core
//@mono cfg_write_list cfg_write_sep_list
//@typemap std::fmt::Result => Result<(), FErr>
//@typemap std::fmt::Error => FErr
//@typemap core::fmt::Error => FErr
//@typemap Cell<bool> => CellB
//@methods chars=v_chars starts_with=c_sw ends_with=c_ew find=c_find contains=c_has trim_end_matches=v_trim_em trim_start_matches=v_trim_sm pop=v_pop trim=v_trim trim_start=v_trim_start trim_end=v_trim_end
//@attr #[verifier::exec_allows_no_decreases_clause]
//@include std_shim.rs
//@include w_shim.rs
//@include w13_spec.rs
//@text TST
    ensures *final(state) == *old(state), final(f)@ == old(f)@,
//@endtext
//@text ONE
//@use TST
        r matches Some(b) ==> fitb(old(f)@, b@, *cfg),
//@endtext
//@type src/config.rs FormatOpts
//@type src/config.rs Config
//@type src/config.rs State | ghost=ev:Set<Loc>
impl Clone for Config { #[verifier::external_body] fn clone(&self) -> (r: Config) ensures r == *self { unimplemented!() } }
impl Clone for State { #[verifier::external_body] fn clone(&self) -> (r: State) ensures r == *self { unimplemented!() } }
//@type src/parser/common.rs Loc
//@type src/parser/common.rs Str
//@type src/parser/lua_ast.rs TableConstructorOpts
//@type src/parser/lua_ast.rs FieldsOpts
//@type src/parser/lua_ast.rs Node
//@enum Node src/parser/lua_ast.rs Node
//@type src/parser/comment_ast.rs Node | as=CNode inst=Node:CNode
//@enum CNode src/parser/comment_ast.rs Node
//@type src/formatting/loc_hint.rs CommentLocHint
//@type src/formatting/loc_hint.rs SpaceLocHint
//@type src/formatting/decoration.rs IfNewLine
//@type src/formatting/decoration.rs IncIndent
//@type src/formatting/decoration.rs DecIndent
//@type src/formatting/decoration.rs IncFuncLevel
//@type src/formatting/decoration.rs DecFuncLevel
#[verifier::external_body] pub fn parse_comment(s: &str) -> (r: Result<CNode, FErr>)
{ unimplemented!() }
//@fn src/parser/common.rs Loc::substr | params=buf,state,offset arith=math
//@end
//@fn src/parser/common.rs Loc as ConfiguredWrite::configured_write | params=f,cfg,buf,state
    ensures *final(state) == *old(state),
//@end
//@fn src/parser/common.rs Str as ConfiguredWrite::configured_write | params=f,cfg,buf,state
    ensures *final(state) == *old(state), final(f)@ == old(f)@ + self.0@,
//@end
//@fn src/formatting/util.rs test_out_of_range | params=range,span
    ensures r == oor(*range, *span)
//@end
//@fn src/formatting/util.rs test_not_completely_contained | params=range,span
    ensures r == ncc(*range, *span)
//@end
//@fn src/formatting/util.rs trim_end_spaces_and_tabs | params=string
//@end
//@fn src/formatting/util.rs get_len_after_newline | params=s,cfg
    ensures r == tail_len(s@)
//@pre
    broadcast use tail_rev;
//@end
//@fn src/formatting/util.rs get_len_till_newline | params=s,cfg
    ensures no_nl(s@) ==> r == s@.len()
//@end
//@fn src/formatting/util.rs has_newlines | params=s
    ensures r == !no_nl(s@)
//@end
//@fn src/formatting/util.rs write_indent | params=f,cfg,state
    ensures r is Ok ==> final(f)@ == old(f)@ + indent_text(*cfg, state.indent_level as int)
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as LocHintConstructible::new | params=loc,s
    ensures r.0 == loc, r.1@ == s@
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as LocHintConstructible::get_loc
    ensures r == self.0
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as LocHintConstructible::is_out_of_range | params=state
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as LocHintConstructible::new | params=loc,s
    ensures r.0 == loc, r.1@ == s@
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as LocHintConstructible::get_loc
    ensures r == self.0
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as LocHintConstructible::is_out_of_range | params=state
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint::write_formatted_comment_block | methods=is_empty:v_empty params=f,cfg,buf,comment_block
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as ConfiguredWrite::configured_write | methods=len:v_len,is_empty:v_empty params=f,cfg,buf,state
    ensures r is Ok ==> mono(*old(state), *final(state)),
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as ConfiguredWrite::configured_write | params=f,cfg,buf,state
    ensures *final(state) == *old(state),
//@end
//@fn src/formatting/decoration.rs IfNewLine as ConfiguredWrite::configured_write | methods=len:v_len,is_empty:v_empty params=f,cfg,buf,state impl="<'a, 'b> IfNewLine<CommentLocHint<'a, 'b>>" inst=LocHint:CommentLocHint
    ensures r is Ok ==> mono(*old(state), *final(state)),
        r is Ok && self.0 ==> final(state).ev@.contains(*self.1.0) && broken(final(f)@, indent_text(*cfg, final(state).indent_level as int)),
//@pre
    proof { lits(); if self.0 { state.ev@ = state.ev@.insert(*self.1.0); } }
//@end
//@fn src/formatting/decoration.rs IfNewLine as ConfiguredWrite::configured_write | methods=len:v_len,is_empty:v_empty params=f,cfg,buf,state impl="<'a, 'b> IfNewLine<SpaceLocHint<'a, 'b>>" inst=LocHint:SpaceLocHint
    ensures r is Ok ==> mono(*old(state), *final(state)),
//@end
//@fn src/formatting/decoration.rs IncIndent as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures mono(*old(state), *final(state)), final(f)@ == old(f)@
//@end
//@fn src/formatting/decoration.rs DecIndent as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures mono(*old(state), *final(state)), final(f)@ == old(f)@
//@end
//@fn src/formatting/decoration.rs IncFuncLevel as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures mono(*old(state), *final(state)), final(f)@ == old(f)@
//@end
//@fn src/formatting/decoration.rs DecFuncLevel as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures mono(*old(state), *final(state)), final(f)@ == old(f)@
//@end
pub struct IfInc<'a>(pub bool, pub &'a IncIndent);
pub struct IfDec<'a>(pub bool, pub &'a DecIndent);
//@fn src/formatting/decoration.rs If as ConfiguredWrite::configured_write | params=f,cfg,buf,state impl="<'a> IfInc<'a>"
    ensures mono(*old(state), *final(state)), final(f)@ == old(f)@
//@end
//@fn src/formatting/decoration.rs If as ConfiguredWrite::configured_write | params=f,cfg,buf,state impl="<'a> IfDec<'a>"
    ensures mono(*old(state), *final(state)), final(f)@ == old(f)@
//@end
//@fn src/parser/lua_ast.rs Node as AnyListItem::list_item_prefix_hint | enum=Node params=cfg impl="<'a> Node"
//@end
//@fn src/parser/lua_ast.rs Node as AnyListItem::need_newline | enum=Node params=prev,parent,f,cfg,buf,state impl=" Node" arith=math
//@use TST
//@end
//@fn src/parser/lua_ast.rs Node as AnyListItem::need_first_newline | enum=Node params=parent,f,cfg,buf,state impl=" Node" arith=math
//@use TST
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::items | as=Node::sep_items enum=Node
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::element_prefix_hint | enum=Node
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::separator | enum=Node params=cfg
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::trailing_separator | enum=Node params=cfg
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::need_newlines | as=Node::sep_need_newlines enum=Node params=cfg
//@end
//@fn src/parser/lua_ast.rs Node as ListOfItems::items | enum=Node
//@end
//@fn src/parser/lua_ast.rs Node as ListOfItems::need_newlines | enum=Node params=cfg
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_table_cfg | enum=Node params=cfg arith=math
    ensures r matches Some(c) ==> c.fmt.max_width == cfg.fmt.max_width
//@end
//@fn src/parser/lua_ast.rs Node::bracket_hint | enum=Node
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_table_field | enum=Node params=f,cfg,buf,state arith=math
//@use ONE
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_if | enum=Node params=f,cfg,buf,state arith=math
//@use ONE
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_function | enum=Node params=f,cfg,buf,state arith=math
//@use ONE
//@end
//@fn src/parser/lua_ast.rs Node::test_indent | enum=Node params=f,cfg,buf,state,hint arith=math
//@use TST
//@end
//@fn src/formatting/list.rs cfg_write_sep_list | as=cfg_write_sep_list__Node_CommentLocHint inst=Hint:CommentLocHint params=f,cfg,buf,state,list_node methods=items:sep_items,need_newlines:sep_need_newlines
    ensures r is Ok ==> mono(*old(state), *final(state)),
//@loop 0
    invariant mono(*old(state), *state), items@.len() > 0,
//@end
//@fn src/formatting/list.rs cfg_write_list | as=cfg_write_list__Node_CommentLocHint inst=Hint:CommentLocHint params=f,cfg,buf,state,list_node
    ensures r is Ok ==> mono(*old(state), *final(state)),
//@loop 0
    invariant mono(*old(state), *state), items@.len() > 0,
//@end
//@fn src/formatting/list.rs cfg_write_list | as=cfg_write_list__CNode_SpaceLocHint inst=Hint:SpaceLocHint,Node:CNode params=f,cfg,buf,state,list_node
    ensures r is Ok ==> mono(*old(state), *final(state)),
//@loop 0
    invariant mono(*old(state), *state), items@.len() > 0,
//@end
//@arms src/parser/lua_ast.rs Node as ConfiguredWrite::configured_write | enum=Node params=f,cfg,buf,state arith=math
    ensures r is Ok ==> mono(*old(state), *final(state)),
        r is Ok && !oor(old(state).pos_range, span_of(*self)) && !ncc(old(state).pos_range, span_of(*self)) ==>
            (breaks(*self, *cfg) matches Some(g) ==> fits(old(f)@, final(f)@, *cfg) || final(state).ev@.contains(g)),
//@end
//@fn src/parser/comment_ast.rs Node as ListOfItems::items | enum=CNode inst=Node:CNode
//@end
//@fn src/parser/comment_ast.rs Node as ListOfItems::need_newlines | enum=CNode inst=Node:CNode params=cfg
//@end
//@fn src/parser/comment_ast.rs Node as AnyListItem::list_item_prefix_hint | enum=CNode inst=Node:CNode params=cfg impl="<'a> CNode"
//@end
//@fn src/parser/comment_ast.rs Node as AnyListItem::need_newline | enum=CNode inst=Node:CNode params=prev,parent,f,cfg,buf,state impl=" CNode"
//@use TST
//@end
//@fn src/parser/comment_ast.rs Node as AnyListItem::need_first_newline | enum=CNode inst=Node:CNode params=parent,f,cfg,buf,state impl=" CNode"
//@use TST
//@end
//@arms src/parser/comment_ast.rs Node as ConfiguredWrite::configured_write | enum=CNode inst=Node:CNode params=f,cfg,buf,state impl=" CNode" arith=math methods=is_empty:v_empty
    ensures r is Ok ==> mono(*old(state), *final(state)),
//@end
fn main() {}
}
