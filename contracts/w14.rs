// generated by gen_w.py from w_skel.txt and w14.txt
// the writers: lua_ast.rs, comment_ast.rs, formatting/*.rs
#![allow(non_snake_case, non_camel_case_types, unused, dead_code)]
use vstd::prelude::*;
use std::collections::HashMap;
verus! {
//@macros src/config.rs src/formatting/util.rs
//@modules crate parser fmt std util list reconstruction config lua_ast comment_ast core
//@mono cfg_write_list cfg_write_sep_list
//@typemap std::fmt::Result => Result<(), FErr>
//@typemap std::fmt::Error => FErr
//@typemap core::fmt::Error => FErr
//@typemap Cell<bool> => CellB
//@methods chars=v_chars starts_with=c_sw ends_with=c_ew find=c_find contains=c_has trim_end_matches=v_trim_em trim_start_matches=v_trim_sm pop=v_pop trim=v_trim trim_start=v_trim_start trim_end=v_trim_end
//@attr #[verifier::exec_allows_no_decreases_clause]
//@include std_shim.rs
//@include w_shim.rs
//@include w14_spec.rs
//@text TST
    ensures *final(state) == *old(state), final(f)@ == old(f)@,
//@endtext
//@type src/config.rs FormatOpts
//@type src/config.rs Config
//@type src/config.rs State | ghost=ev:Set<Ev>
impl Clone for Config { #[verifier::external_body] fn clone(&self) -> (r: Config) ensures r == *self { unimplemented!() } }
impl Clone for State { #[verifier::external_body] fn clone(&self) -> (r: State) ensures r == *self { unimplemented!() } }
//@type src/parser/common.rs Loc
//@type src/parser/common.rs Str
//@type src/parser/lua_ast.rs TableConstructorOpts
//@type src/parser/lua_ast.rs FieldsOpts
//@type src/parser/lua_ast.rs Node
//@enum Node src/parser/lua_ast.rs Node
//@type src/parser/comment_ast.rs Node | as=CNode inst=Node:CNode
//@enum CNode src/parser/comment_ast.rs Node
//@type src/formatting/loc_hint.rs CommentLocHint
//@type src/formatting/loc_hint.rs SpaceLocHint
//@type src/formatting/decoration.rs IfNewLine
//@type src/formatting/decoration.rs IncIndent
//@type src/formatting/decoration.rs DecIndent
//@type src/formatting/decoration.rs IncFuncLevel
//@type src/formatting/decoration.rs DecFuncLevel
#[verifier::external_body] pub fn parse_comment(s: &str) -> (r: Result<CNode, FErr>)
{ unimplemented!() }
//@fn src/parser/common.rs Loc::substr | params=buf,state,offset arith=math
//@end
//@fn src/parser/common.rs Loc as ConfiguredWrite::configured_write | params=f,cfg,buf,state
    ensures *final(state) == *old(state),
//@end
//@fn src/parser/common.rs Str as ConfiguredWrite::configured_write | params=f,cfg,buf,state
    ensures *final(state) == *old(state),
//@end
//@fn src/formatting/util.rs test_out_of_range | params=range,span
    ensures *range is None ==> !r
//@end
//@fn src/formatting/util.rs test_not_completely_contained | params=range,span
    ensures *range is None ==> !r
//@end
//@fn src/formatting/util.rs trim_end_spaces_and_tabs | params=string
//@end
//@fn src/formatting/util.rs get_len_after_newline | params=s,cfg
//@end
//@fn src/formatting/util.rs get_len_till_newline | params=s,cfg
//@end
//@fn src/formatting/util.rs has_newlines | params=s
//@end
//@fn src/formatting/util.rs write_indent | params=f,cfg,state
    ensures r is Ok ==> final(f)@ == old(f)@ + indent_text(*cfg, state.indent_level as int)
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as LocHintConstructible::new | params=loc,s
    ensures r.0 == loc, r.1@ == s@
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as LocHintConstructible::get_loc
    ensures r == self.0
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as LocHintConstructible::is_out_of_range | params=state
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as LocHintConstructible::new | params=loc,s
    ensures r.0 == loc, r.1@ == s@
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as LocHintConstructible::get_loc
    ensures r == self.0
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as LocHintConstructible::is_out_of_range | params=state
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint::write_formatted_comment_block | methods=is_empty:v_empty params=f,cfg,buf,comment_block
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as ConfiguredWrite::configured_write | methods=len:v_len,is_empty:v_empty params=f,cfg,buf,state
    ensures r is Ok ==> ist(*old(state), *final(state)),
        r is Ok ==> forall|e: Ev| #[trigger] final(state).ev@.contains(e) ==> old(state).ev@.contains(e) || lv_gap(*self.0, old(state).indent_level as int, e),
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as ConfiguredWrite::configured_write | params=f,cfg,buf,state
    ensures *final(state) == *old(state),
//@end
//@fn src/formatting/decoration.rs IfNewLine as ConfiguredWrite::configured_write | methods=len:v_len,is_empty:v_empty params=f,cfg,buf,state impl="<'a, 'b> IfNewLine<CommentLocHint<'a, 'b>>" inst=LocHint:CommentLocHint
    ensures r is Ok ==> ist(*old(state), *final(state)),
        r is Ok ==> forall|e: Ev| #[trigger] final(state).ev@.contains(e) ==> old(state).ev@.contains(e) || lv_gap(*self.1.0, old(state).indent_level as int, e),
        r is Ok && self.0 ==> broken(final(f)@, indent_text(*cfg, old(state).indent_level as int)),
//@pre
    proof { lits(); if self.0 { state.ev@ = state.ev@.insert(Ev { cm: false, loc: *self.1.0, lvl: state.indent_level as int }); } }
//@end
//@fn src/formatting/decoration.rs IfNewLine as ConfiguredWrite::configured_write | methods=len:v_len,is_empty:v_empty params=f,cfg,buf,state impl="<'a, 'b> IfNewLine<SpaceLocHint<'a, 'b>>" inst=LocHint:SpaceLocHint
    ensures r is Ok ==> ist(*old(state), *final(state)),
        r is Ok ==> forall|e: Ev| #[trigger] final(state).ev@.contains(e) ==> old(state).ev@.contains(e) || (e.cm && e.lvl == old(state).indent_level),
        r is Ok && self.0 ==> broken(final(f)@, indent_text(*cfg, old(state).indent_level as int)),
//@pre
    proof { lits(); if self.0 { state.ev@ = state.ev@.insert(Ev { cm: true, loc: *self.1.0, lvl: state.indent_level as int }); } }
//@end
//@fn src/formatting/decoration.rs IncIndent as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures final(f)@ == old(f)@, r is Ok,
        *final(state) == (State { stack_indent: final(state).stack_indent, indent_level: final(state).indent_level, ..*old(state) }),
        final(state).stack_indent@ == old(state).stack_indent@.push(self.0),
        final(state).indent_level == old(state).indent_level + step(top(*old(state)), lab(self.0)),
//@end
//@fn src/formatting/decoration.rs DecIndent as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures final(f)@ == old(f)@, r is Ok,
        *final(state) == (State { stack_indent: final(state).stack_indent, indent_level: final(state).indent_level, ..*old(state) }),
        old(state).stack_indent@.len() > 0 ==> final(state).stack_indent@ == old(state).stack_indent@.drop_last()
            && final(state).indent_level == old(state).indent_level - step(top_of(old(state).stack_indent@.drop_last()), lab(old(state).stack_indent@.last())),
//@end
//@fn src/formatting/decoration.rs IncFuncLevel as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures final(f)@ == old(f)@, r is Ok, *final(state) == (State { function_nested_level: final(state).function_nested_level, ..*old(state) }),
        final(state).function_nested_level == old(state).function_nested_level + 1,
//@end
//@fn src/formatting/decoration.rs DecFuncLevel as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures final(f)@ == old(f)@, r is Ok, *final(state) == (State { function_nested_level: final(state).function_nested_level, ..*old(state) }),
        final(state).function_nested_level == old(state).function_nested_level - 1,
//@end
pub struct IfInc<'a>(pub bool, pub &'a IncIndent);
pub struct IfDec<'a>(pub bool, pub &'a DecIndent);
//@fn src/formatting/decoration.rs If as ConfiguredWrite::configured_write | params=f,cfg,buf,state impl="<'a> IfInc<'a>"
    ensures final(f)@ == old(f)@, r is Ok,
        *final(state) == (State { stack_indent: final(state).stack_indent, indent_level: final(state).indent_level, ..*old(state) }),
        !self.0 ==> *final(state) == *old(state),
        self.0 ==> final(state).stack_indent@ == old(state).stack_indent@.push(self.1.0)
            && final(state).indent_level == old(state).indent_level + step(top(*old(state)), lab(self.1.0)),
//@end
//@fn src/formatting/decoration.rs If as ConfiguredWrite::configured_write | params=f,cfg,buf,state impl="<'a> IfDec<'a>"
    ensures final(f)@ == old(f)@, r is Ok,
        *final(state) == (State { stack_indent: final(state).stack_indent, indent_level: final(state).indent_level, ..*old(state) }),
        !self.0 ==> *final(state) == *old(state),
        self.0 && old(state).stack_indent@.len() > 0 ==> final(state).stack_indent@ == old(state).stack_indent@.drop_last()
            && final(state).indent_level == old(state).indent_level - step(top_of(old(state).stack_indent@.drop_last()), lab(old(state).stack_indent@.last())),
//@end
//@fn src/parser/lua_ast.rs Node as AnyListItem::list_item_prefix_hint | enum=Node params=cfg impl="<'a> Node"
//@end
//@fn src/parser/lua_ast.rs Node as AnyListItem::need_newline | enum=Node params=prev,parent,f,cfg,buf,state impl=" Node" arith=math
//@use TST
//@end
//@fn src/parser/lua_ast.rs Node as AnyListItem::need_first_newline | enum=Node params=parent,f,cfg,buf,state impl=" Node" arith=math
//@use TST
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::items | as=Node::sep_items enum=Node
    ensures match sp_seps(*self) { Some(v) => r is Some && *r->Some_0 == v, None => r is None }
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::element_prefix_hint | enum=Node
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::separator | enum=Node params=cfg
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::trailing_separator | enum=Node params=cfg
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::need_newlines | as=Node::sep_need_newlines enum=Node params=cfg
//@end
//@fn src/parser/lua_ast.rs Node as ListOfItems::items | enum=Node
    ensures match sp_items(*self) { Some(v) => r is Some && *r->Some_0 == v, None => r is None }
//@end
//@fn src/parser/lua_ast.rs Node as ListOfItems::need_newlines | enum=Node params=cfg
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_table_cfg | enum=Node params=cfg arith=math
//@end
//@fn src/parser/lua_ast.rs Node::bracket_hint | enum=Node
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_table_field | enum=Node params=f,cfg,buf,state arith=math
//@use TST
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_if | enum=Node params=f,cfg,buf,state arith=math
//@use TST
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_function | enum=Node params=f,cfg,buf,state arith=math
//@use TST
//@end
//@fn src/parser/lua_ast.rs Node::test_indent | enum=Node params=f,cfg,buf,state,hint arith=math
//@use TST
//@end
//@fn src/formatting/list.rs cfg_write_sep_list | as=cfg_write_sep_list__Node_CommentLocHint inst=Hint:CommentLocHint params=f,cfg,buf,state,list_node methods=items:sep_items,need_newlines:sep_need_newlines
    ensures r is Ok ==> ist(*old(state), *final(state)),
        r is Ok && old(state).pos_range is None ==> forall|e: Ev| #[trigger] final(state).ev@.contains(e) ==> old(state).ev@.contains(e)
            || sp_seps(*list_node) is Some && lv_sep(sp_seps(*list_node)->Some_0, sp_seps(*list_node)->Some_0@.len() as int, old(state).indent_level as int, top(*old(state)), e),
//@pre
    hide(lv); hide(lv_sep);
    let ghost l = state.indent_level as int;
    let ghost t = top(*state);
    proof { if sp_seps(*list_node) is Some { let v = sp_seps(*list_node)->Some_0;
        assert forall|e: Ev| v@.len() > 0 && !(#[trigger] lv_sep(v, 1, l, t, e)) implies !lv_gap(v@[0].0, l, e) && !lv(v@[0].1, l, t, e) && !lv_gap(v@[0].2, l, e) by { step_lv_sep(v, 1, l, t, e); } } }
//@loop 0
    invariant ist(*old(state), *state), l == old(state).indent_level, t == top(*old(state)),
        sp_seps(*list_node) is Some, *items == sp_seps(*list_node)->Some_0, items@.len() > 0,
        old(state).pos_range is None ==> forall|e: Ev| #[trigger] state.ev@.contains(e) ==> old(state).ev@.contains(e) || lv_sep(*items, i as int, l, t, e),
//@loopbegin 0
    proof { assert forall|e: Ev| !(#[trigger] lv_sep(*items, i + 1, l, t, e)) implies !lv_sep(*items, i as int, l, t, e) && !lv_gap(items@[i as int].0, l, e) && !lv(items@[i as int].1, l, t, e) && !lv_gap(items@[i as int].2, l, e) by { step_lv_sep(*items, i + 1, l, t, e); } }
//@end
//@fn src/formatting/list.rs cfg_write_list | as=cfg_write_list__Node_CommentLocHint inst=Hint:CommentLocHint params=f,cfg,buf,state,list_node
    ensures r is Ok ==> ist(*old(state), *final(state)),
        r is Ok && old(state).pos_range is None ==> forall|e: Ev| #[trigger] final(state).ev@.contains(e) ==> old(state).ev@.contains(e)
            || sp_items(*list_node) is Some && lv_list(sp_items(*list_node)->Some_0, sp_items(*list_node)->Some_0@.len() as int, old(state).indent_level as int, top(*old(state)), e),
//@pre
    hide(lv); hide(lv_list);
    let ghost l = state.indent_level as int;
    let ghost t = top(*state);
    proof { if sp_items(*list_node) is Some { let v = sp_items(*list_node)->Some_0;
        assert forall|e: Ev| v@.len() > 0 && !(#[trigger] lv_list(v, 1, l, t, e)) implies !lv_gap(v@[0].0, l, e) && !lv(v@[0].1, l, t, e) by { step_lv_list(v, 1, l, t, e); } } }
//@loop 0
    invariant ist(*old(state), *state), l == old(state).indent_level, t == top(*old(state)),
        sp_items(*list_node) is Some, *items == sp_items(*list_node)->Some_0, items@.len() > 0,
        old(state).pos_range is None ==> forall|e: Ev| #[trigger] state.ev@.contains(e) ==> old(state).ev@.contains(e) || lv_list(*items, i as int, l, t, e),
//@loopbegin 0
    proof { assert forall|e: Ev| !(#[trigger] lv_list(*items, i + 1, l, t, e)) implies !lv_list(*items, i as int, l, t, e) && !lv_gap(items@[i as int].0, l, e) && !lv(items@[i as int].1, l, t, e) by { step_lv_list(*items, i + 1, l, t, e); } }
//@end
//@fn src/formatting/list.rs cfg_write_list | as=cfg_write_list__CNode_SpaceLocHint inst=Hint:SpaceLocHint,Node:CNode params=f,cfg,buf,state,list_node
    ensures r is Ok ==> ist(*old(state), *final(state)),
        r is Ok ==> forall|e: Ev| #[trigger] final(state).ev@.contains(e) ==> old(state).ev@.contains(e) || (e.cm && e.lvl == old(state).indent_level),
//@loop 0
    invariant ist(*old(state), *state), items@.len() > 0,
        forall|e: Ev| #[trigger] state.ev@.contains(e) ==> old(state).ev@.contains(e) || (e.cm && e.lvl == old(state).indent_level),
//@end
//@arms src/parser/lua_ast.rs Node as ConfiguredWrite::configured_write | enum=Node params=f,cfg,buf,state arith=math
    ensures r is Ok ==> ist(*old(state), *final(state)),
        r is Ok && old(state).pos_range is None ==> forall|e: Ev| #[trigger] final(state).ev@.contains(e) ==> old(state).ev@.contains(e)
            || lv(*self, old(state).indent_level as int, top(*old(state)), e),
//@armpre
    broadcast use push_pop;
//@end
//@fn src/parser/comment_ast.rs Node as ListOfItems::items | enum=CNode inst=Node:CNode
//@end
//@fn src/parser/comment_ast.rs Node as ListOfItems::need_newlines | enum=CNode inst=Node:CNode params=cfg
//@end
//@fn src/parser/comment_ast.rs Node as AnyListItem::list_item_prefix_hint | enum=CNode inst=Node:CNode params=cfg impl="<'a> CNode"
//@end
//@fn src/parser/comment_ast.rs Node as AnyListItem::need_newline | enum=CNode inst=Node:CNode params=prev,parent,f,cfg,buf,state impl=" CNode"
//@use TST
//@end
//@fn src/parser/comment_ast.rs Node as AnyListItem::need_first_newline | enum=CNode inst=Node:CNode params=parent,f,cfg,buf,state impl=" CNode"
//@use TST
//@end
//@arms src/parser/comment_ast.rs Node as ConfiguredWrite::configured_write | enum=CNode inst=Node:CNode params=f,cfg,buf,state impl=" CNode" arith=math methods=is_empty:v_empty
    ensures r is Ok ==> ist(*old(state), *final(state)),
        r is Ok ==> forall|e: Ev| #[trigger] final(state).ev@.contains(e) ==> old(state).ev@.contains(e) || (e.cm && e.lvl == old(state).indent_level),
//@end
fn main() {}
}
