// generated by gen_w.py from w_skel.txt and w03.txt
// the writers: lua_ast.rs, comment_ast.rs, formatting/*.rs
#![allow(non_snake_case, non_camel_case_types, unused, dead_code)]
use vstd::prelude::*;
use std::collections::HashMap;
verus! {
//@macros src/config.rs src/formatting/util.rs
//@modules crate parser fmt std util list reconstruction config lua_ast comment_ast core
//@mono cfg_write_list cfg_write_sep_list
//@typemap std::fmt::Result => Result<(), FErr>
//@typemap std::fmt::Error => FErr
//@typemap core::fmt::Error => FErr
//@typemap Cell<bool> => CellB
//@methods chars=v_chars starts_with=c_sw ends_with=c_ew find=c_find contains=c_has trim_end_matches=v_trim_em trim_start_matches=v_trim_sm pop=v_pop trim=v_trim trim_start=v_trim_start trim_end=v_trim_end
//@attr #[verifier::exec_allows_no_decreases_clause]
//@include std_shim.rs
//@include w_shim.rs
//@include w03_spec.rs
//@text TST
    requires cok(*cfg), st(*old(state)), sh(*self),
    ensures st(*final(state)), final(f)@ == old(f)@,
//@endtext
//@type src/config.rs FormatOpts
//@type src/config.rs Config
//@type src/config.rs State
impl Clone for Config { #[verifier::external_body] fn clone(&self) -> (r: Config) ensures r == *self { unimplemented!() } }
impl Clone for State { #[verifier::external_body] fn clone(&self) -> (r: State) ensures r == *self { unimplemented!() } }
//@type src/parser/common.rs Loc
//@type src/parser/common.rs Str
//@type src/parser/lua_ast.rs TableConstructorOpts
//@type src/parser/lua_ast.rs FieldsOpts
//@type src/parser/lua_ast.rs Node
//@enum Node src/parser/lua_ast.rs Node
//@type src/parser/comment_ast.rs Node | as=CNode inst=Node:CNode
//@enum CNode src/parser/comment_ast.rs Node
//@type src/formatting/loc_hint.rs CommentLocHint
//@type src/formatting/loc_hint.rs SpaceLocHint
//@type src/formatting/decoration.rs IfNewLine
//@type src/formatting/decoration.rs IncIndent
//@type src/formatting/decoration.rs DecIndent
//@type src/formatting/decoration.rs IncFuncLevel
//@type src/formatting/decoration.rs DecFuncLevel
/// assumed: the comment grammar accepts what the Lua lexer skipped
#[verifier::external_body] pub fn parse_comment(s: &str) -> (r: Result<CNode, FErr>) ensures r is Ok
{ unimplemented!() }
//@fn src/parser/common.rs Loc::substr | params=buf,state,offset arith=math
//@end
//@fn src/parser/common.rs Loc as ConfiguredWrite::configured_write | params=f,cfg,buf,state
    ensures r is Ok, *final(state) == *old(state),
//@end
//@fn src/parser/common.rs Str as ConfiguredWrite::configured_write | params=f,cfg,buf,state
    requires optok(self.0@) ==> jn(old(f)@, self.0@)
    ensures r is Ok, *final(state) == *old(state), final(f)@ == old(f)@ + self.0@,
//@end
//@fn src/formatting/util.rs test_out_of_range | params=range,span
    ensures *range is None ==> !r
//@end
//@fn src/formatting/util.rs test_not_completely_contained | params=range,span
    ensures *range is None ==> !r
//@end
//@fn src/formatting/util.rs trim_end_spaces_and_tabs | params=string
    ensures is_head(string@, r@), forall|i: int| r@.len() <= i < string@.len() ==> #[trigger] string@[i] == ' ' || string@[i] == '\t', r@.len() > 0 ==> r@.last() != ' ' && r@.last() != '\t'
//@end
//@fn src/formatting/util.rs get_len_after_newline | params=s,cfg
//@end
//@fn src/formatting/util.rs get_len_till_newline | params=s,cfg
//@end
//@fn src/formatting/util.rs has_newlines | params=s
//@end
//@fn src/formatting/util.rs write_indent | params=f,cfg,state
    requires wso(cfg.fmt.indentation_string)
    ensures r is Ok, cl(old(f)@) ==> cl(final(f)@), final(f)@.len() >= old(f)@.len(), forall|i: int| 0 <= i < old(f)@.len() ==> final(f)@[i] == old(f)@[i]
//@pre
    proof { alits(); if cfg.fmt.indentation_string is Some { rep_ws(cfg.fmt.indentation_string->Some_0@, state.indent_level as int); } }
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as LocHintConstructible::new | params=loc,s
    ensures r.0 == loc, r.1@ == s@
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as LocHintConstructible::get_loc
    ensures r == self.0
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as LocHintConstructible::is_out_of_range | params=state
    ensures state.pos_range is None ==> !r
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as LocHintConstructible::new | params=loc,s
    ensures r.0 == loc, r.1@ == s@
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as LocHintConstructible::get_loc
    ensures r == self.0
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as LocHintConstructible::is_out_of_range | params=state
    ensures state.comment_pos_range is None ==> !r
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint::write_formatted_comment_block | methods=is_empty:v_empty params=f,cfg,buf,comment_block
    requires cok(*cfg), wsx(self.1@), comment_block@.len() > 0 ==> cl(comment_block@)
    ensures r is Ok, gp(old(f)@, final(f)@, self.1@) && dash(old(f)@, final(f)@),
        comment_block@.len() == 0 ==> final(f)@ == old(f)@ + self.1@,
//@pre
    proof { alits(); }
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as ConfiguredWrite::configured_write | methods=len:v_len,is_empty:v_empty params=f,cfg,buf,state
    requires cok(*cfg), st(*old(state)), wsx(self.1@)
    ensures st(*final(state)), r is Ok, gp(old(f)@, final(f)@, self.1@) && dash(old(f)@, final(f)@),
//@pre
    proof { alits(); }
    broadcast use keep1_boff;
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as ConfiguredWrite::configured_write | params=f,cfg,buf,state
    requires cok(*cfg), cst(*old(state)), wsx(self.1@)
    ensures cst(*final(state)), r is Ok, final(f)@ == old(f)@ + self.1@
//@end
//@fn src/formatting/decoration.rs IfNewLine as ConfiguredWrite::configured_write | methods=len:v_len,is_empty:v_empty params=f,cfg,buf,state impl="<'a, 'b> IfNewLine<CommentLocHint<'a, 'b>>" inst=LocHint:CommentLocHint
    requires cok(*cfg), st(*old(state)), wsx(self.1.1@)
    ensures st(*final(state)), r is Ok, (if self.0 { cl(final(f)@) } else { gp(old(f)@, final(f)@, self.1.1@) }) && dash(old(f)@, final(f)@),
//@pre
    proof { alits(); }
    broadcast use add0;
//@end
//@fn src/formatting/decoration.rs IfNewLine as ConfiguredWrite::configured_write | methods=len:v_len,is_empty:v_empty params=f,cfg,buf,state impl="<'a, 'b> IfNewLine<SpaceLocHint<'a, 'b>>" inst=LocHint:SpaceLocHint
    requires cok(*cfg), cst(*old(state)), wsx(self.1.1@), cx(old(f)@)
    ensures cst(*final(state)), r is Ok, cx(final(f)@) && keep1(old(f)@, final(f)@)
//@pre
    proof { alits(); }
    broadcast use add0, keep1_app, keep1_pop, boff_one;
//@end
//@fn src/formatting/decoration.rs IncIndent as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures r is Ok, final(f)@ == old(f)@, final(state).pos_range == old(state).pos_range,
//@end
//@fn src/formatting/decoration.rs DecIndent as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures r is Ok, final(f)@ == old(f)@, final(state).pos_range == old(state).pos_range,
//@end
//@fn src/formatting/decoration.rs IncFuncLevel as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures r is Ok, final(f)@ == old(f)@, final(state).pos_range == old(state).pos_range,
//@end
//@fn src/formatting/decoration.rs DecFuncLevel as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures r is Ok, final(f)@ == old(f)@, final(state).pos_range == old(state).pos_range,
//@end
pub struct IfInc<'a>(pub bool, pub &'a IncIndent);
pub struct IfDec<'a>(pub bool, pub &'a DecIndent);
//@fn src/formatting/decoration.rs If as ConfiguredWrite::configured_write | params=f,cfg,buf,state impl="<'a> IfInc<'a>"
    ensures r is Ok, final(f)@ == old(f)@, final(state).pos_range == old(state).pos_range,
//@end
//@fn src/formatting/decoration.rs If as ConfiguredWrite::configured_write | params=f,cfg,buf,state impl="<'a> IfDec<'a>"
    ensures r is Ok, final(f)@ == old(f)@, final(state).pos_range == old(state).pos_range,
//@end
//@fn src/parser/lua_ast.rs Node as AnyListItem::list_item_prefix_hint | enum=Node params=cfg impl="<'a> Node"
    ensures r@.len() == 0 ==> opn(*self) || *self is Semicolon, wsx(r@)
//@pre
    proof { alits(); }
//@end
//@fn src/parser/lua_ast.rs Node as AnyListItem::need_newline | enum=Node params=prev,parent,f,cfg,buf,state impl=" Node" arith=math
//@use TST
//@pre
    proof { alits(); }
    broadcast use add0, add_ws, add_last, go_closed, go_opn;
//@end
//@fn src/parser/lua_ast.rs Node as AnyListItem::need_first_newline | enum=Node params=parent,f,cfg,buf,state impl=" Node" arith=math
//@use TST
//@pre
    proof { alits(); }
    broadcast use add0, add_ws, add_last, go_closed, go_opn;
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::items | as=Node::sep_items enum=Node
    ensures match sp_seps(*self) { Some(v) => r is Some && *r->Some_0 == v, None => r is None }
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::element_prefix_hint | enum=Node
    ensures wsx(r@)
//@pre
    proof { alits(); }
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::separator | enum=Node params=cfg
    requires cok(*cfg)
    ensures r matches Some(s) ==> sept(s@)
//@pre
    proof { alits(); }
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::trailing_separator | enum=Node params=cfg
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::need_newlines | as=Node::sep_need_newlines enum=Node params=cfg
//@end
//@fn src/parser/lua_ast.rs Node as ListOfItems::items | enum=Node
    ensures match sp_items(*self) { Some(v) => r is Some && *r->Some_0 == v, None => r is None }
//@end
//@fn src/parser/lua_ast.rs Node as ListOfItems::need_newlines | enum=Node params=cfg
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_table_cfg | enum=Node params=cfg arith=math
    requires cok(*cfg)
    ensures r matches Some(c) ==> cok(c)
//@end
//@fn src/parser/lua_ast.rs Node::bracket_hint | enum=Node
    ensures wsx(r@), r@.len() == 0 && sh(*self) && ex(*self) ==> starts(*self, '[')
//@pre
    proof { alits(); }
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_table_field | enum=Node params=f,cfg,buf,state arith=math
//@use TST
        r matches Some(b) ==> ek(b@),
//@pre
    proof { alits(); }
    broadcast use add_last;
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_if | enum=Node params=f,cfg,buf,state arith=math
//@use TST
        r matches Some(b) ==> ek(b@),
//@pre
    proof { alits(); }
    broadcast use add_last;
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_function | enum=Node params=f,cfg,buf,state arith=math
//@use TST
        r matches Some(b) ==> ek(b@),
//@pre
    proof { alits(); }
    broadcast use add_last;
//@end
//@fn src/parser/lua_ast.rs Node::test_indent | enum=Node params=f,cfg,buf,state,hint arith=math
    requires cok(*cfg), st(*old(state)), sh(*self), wsx(hint.1@), hint.1@.len() > 0 || go(*self, old(f)@)
    ensures st(*final(state)), final(f)@ == old(f)@,
//@pre
    broadcast use add0, add_ws, add_last, go_closed, go_opn;
//@end
//@fn src/formatting/list.rs cfg_write_sep_list | as=cfg_write_sep_list__Node_CommentLocHint inst=Hint:CommentLocHint params=f,cfg,buf,state,list_node methods=items:sep_items,need_newlines:sep_need_newlines
    requires cok(*cfg), st(*old(state)), sh(*list_node), go(*list_node, old(f)@)
    ensures st(*final(state)), final(f)@ == old(f)@ || ek(final(f)@), r is Ok, sp_seps(*list_node) is Some ==> ek(final(f)@)
//@pre
    proof { alits(); sh_step(*list_node); }
    broadcast use add0, add_ws, add_last, go_closed, go_opn;
//@loop 0
    invariant cok(*cfg), st(*state), items@.len() > 0, ek(f@), sp_seps(*list_node) == Some(*items), sep_opt matches Some(s) ==> sept(s@),
        forall|i: int| 0 <= i < items@.len() ==> sh((#[trigger] items@[i]).1) && !maye(items@[i].1) && (items@[i].3@.len() > 0 ==> sept(items@[i].3@)) && (i < items@.len() - 1 ==> items@[i].3@.len() > 0)
//@loopbegin 0
    broadcast use add0, add_ws, add_last, go_closed, go_opn;
    proof { alits(); }
//@end
//@fn src/formatting/list.rs cfg_write_list | as=cfg_write_list__Node_CommentLocHint inst=Hint:CommentLocHint params=f,cfg,buf,state,list_node
    requires cok(*cfg), st(*old(state)), sh(*list_node), go(*list_node, old(f)@)
    ensures st(*final(state)), r is Ok, final(f)@ == old(f)@ || ek(final(f)@), list_node is StatementList && !maye(*list_node) ==> ek(final(f)@)
//@pre
    proof { alits(); sh_step(*list_node); }
    broadcast use add0, add_ws, add_last, go_closed, go_opn;
//@loop 0
    invariant cok(*cfg), st(*state), items@.len() > 0, ek(f@), sp_items(*list_node) == Some(*items),
        forall|i: int| 0 <= i < items@.len() ==> sh((#[trigger] items@[i]).1) && !maye(items@[i].1)
//@loopbegin 0
    broadcast use add0, add_ws, add_last, go_closed, go_opn;
    proof { alits(); }
//@end
//@fn src/formatting/list.rs cfg_write_list | as=cfg_write_list__CNode_SpaceLocHint inst=Hint:SpaceLocHint,Node:CNode params=f,cfg,buf,state,list_node
    requires cok(*cfg), cst(*old(state)), cx(old(f)@)
    ensures cst(*final(state)), r is Ok, cx(final(f)@) && keep1(old(f)@, final(f)@)
//@pre
    proof { alits(); }
    broadcast use keep1_app;
//@loop 0
    invariant cok(*cfg), cst(*state), items@.len() > 0, cx(f@), keep1(old(f)@, f@)
//@loopbegin 0
    broadcast use add0, add_ws, keep1_app;
    proof { alits(); }
//@end
//@arms src/parser/lua_ast.rs Node as ConfiguredWrite::configured_write | enum=Node params=f,cfg,buf,state arith=math
    requires cok(*cfg), st(*old(state)), sh(*self), go(*self, old(f)@)
    ensures st(*final(state)), r is Ok, ek(final(f)@) || (maye(*self) && final(f)@ == old(f)@), self is TableConstructor ==> final(f)@.last() == '}', self is SheBang ==> cl(final(f)@)
//@armpre
    proof { alits(); sh_step(*self); }
    broadcast use add0, add_ws, add_last, go_closed, go_opn;
//@end
//@fn src/parser/comment_ast.rs Node as ListOfItems::items | enum=CNode inst=Node:CNode
//@end
//@fn src/parser/comment_ast.rs Node as ListOfItems::need_newlines | enum=CNode inst=Node:CNode params=cfg
//@end
//@fn src/parser/comment_ast.rs Node as AnyListItem::list_item_prefix_hint | enum=CNode inst=Node:CNode params=cfg impl="<'a> CNode"
    requires cok(*cfg)
    ensures wsx(r@)
//@pre
    proof { alits(); }
//@end
//@fn src/parser/comment_ast.rs Node as AnyListItem::need_newline | enum=CNode inst=Node:CNode params=prev,parent,f,cfg,buf,state impl=" CNode"
    ensures *final(state) == *old(state), final(f)@ == old(f)@,
//@end
//@fn src/parser/comment_ast.rs Node as AnyListItem::need_first_newline | enum=CNode inst=Node:CNode params=parent,f,cfg,buf,state impl=" CNode"
    ensures *final(state) == *old(state), final(f)@ == old(f)@,
//@end
//@arms src/parser/comment_ast.rs Node as ConfiguredWrite::configured_write | enum=CNode inst=Node:CNode params=f,cfg,buf,state impl=" CNode" arith=math methods=is_empty:v_empty
    requires cok(*cfg), cst(*old(state)), cx(old(f)@)
    ensures cst(*final(state)), r is Ok, cx(final(f)@) && keep1(old(f)@, final(f)@)
//@armpre
    proof { alits(); }
    broadcast use keep1_app;
//@end
fn main() {}
}
