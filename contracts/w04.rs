// generated by gen_w.py from w_skel.txt and w04.txt
// the writers: lua_ast.rs, comment_ast.rs, formatting/*.rs
#![allow(non_snake_case, non_camel_case_types, unused, dead_code)]
use vstd::prelude::*;
use std::collections::HashMap;
verus! {
//@macros src/config.rs src/formatting/util.rs
//@modules crate parser fmt std util list reconstruction config lua_ast comment_ast core
//@mono cfg_write_list cfg_write_sep_list
//@typemap std::fmt::Result => Result<(), FErr>
//@typemap std::fmt::Error => FErr
//@typemap core::fmt::Error => FErr
//@typemap Cell<bool> => CellB
//@methods chars=v_chars starts_with=c_sw ends_with=c_ew find=c_find contains=c_has trim_end_matches=v_trim_em trim_start_matches=v_trim_sm pop=v_pop trim=v_trim trim_start=v_trim_start trim_end=v_trim_end
//@attr #[verifier::exec_allows_no_decreases_clause]
//@include std_shim.rs
//@include w_shim.rs
//@include w04_spec.rs
//@text W
    requires cnone(*cfg), sok(*old(state), buf@), wf(*self, buf@),
    ensures st_same(*old(state), *final(state)),
        r is Ok ==> forall|k: K, p: int| #[trigger] T(old(f)@, k, p) && k.s == buf@ && p == sp(*self).0 ==> T(final(f)@, k, sp(*self).1),
//@endtext
//@text TST
    requires cnone(*cfg), sok(*old(state), buf@),
    ensures *final(state) == *old(state), final(f)@ == old(f)@,
//@endtext
//@text ONE
//@use TST
        r is None,
//@endtext
//@text CW
    requires cnone(*cfg), csok(*old(state)), cwt(*self, buf@),
    ensures cst_same(*old(state), *final(state)),
        r is Ok && cidx(*old(state), buf@) ==> final(f)@ == old(f)@ + ctext(*self, buf@),
//@endtext
//@type src/config.rs FormatOpts
//@type src/config.rs Config
//@type src/config.rs State
impl Clone for Config { #[verifier::external_body] fn clone(&self) -> (r: Config) ensures r == *self { unimplemented!() } }
impl Clone for State { #[verifier::external_body] fn clone(&self) -> (r: State) ensures r == *self { unimplemented!() } }
//@type src/parser/common.rs Loc
//@type src/parser/common.rs Str
//@type src/parser/lua_ast.rs TableConstructorOpts
//@type src/parser/lua_ast.rs FieldsOpts
//@type src/parser/lua_ast.rs Node
//@enum Node src/parser/lua_ast.rs Node
//@type src/parser/comment_ast.rs Node | as=CNode inst=Node:CNode
//@enum CNode src/parser/comment_ast.rs Node
//@type src/formatting/loc_hint.rs CommentLocHint
//@type src/formatting/loc_hint.rs SpaceLocHint
//@type src/formatting/decoration.rs IfNewLine
//@type src/formatting/decoration.rs IncIndent
//@type src/formatting/decoration.rs DecIndent
//@type src/formatting/decoration.rs IncFuncLevel
//@type src/formatting/decoration.rs DecFuncLevel
/// what c04_gap.rs proves about the comment grammar
#[verifier::external_body] pub fn parse_comment(s: &str) -> (r: Result<CNode, FErr>)
    ensures r is Ok ==> cwt(r->Ok_0, s@) && csp(r->Ok_0) == (0int, s@.len() as int) && (endnl(r->Ok_0) ==> openc(s@)),
{ unimplemented!() }
//@fn src/parser/common.rs Loc::substr | params=buf,state,offset arith=math
    ensures idx_at(state.chars_to_bytes@, offset as int, buf@) && lvalid(*self, buf@) ==> r@ == lsub(*self, buf@)
//@pre
    broadcast use vstd::std_specs::hash::group_hash_axioms, lem_boff_pos;
    proof { assert(mkk(0) && mkk(self.0 as int) && mkk(self.1 as int)); reveal_strlit(""); 
        if lvalid(*self, buf@) && buf@.len() == 0 { assert(lsub(*self, buf@) =~= Seq::empty()); } }
//@end
//@fn src/parser/common.rs Loc as ConfiguredWrite::configured_write | params=f,cfg,buf,state
    ensures *final(state) == *old(state), idx_at(old(state).chars_to_bytes@, 0, buf@) && lvalid(*self, buf@) ==> final(f)@ == old(f)@ + lsub(*self, buf@)
//@end
//@fn src/parser/common.rs Str as ConfiguredWrite::configured_write | params=f,cfg,buf,state
    ensures *final(state) == *old(state), final(f)@ == old(f)@ + self.0@
//@end
//@fn src/formatting/util.rs test_out_of_range | params=range,span
    ensures *range is None ==> !r
//@end
//@fn src/formatting/util.rs test_not_completely_contained | params=range,span
    ensures *range is None ==> !r
//@end
//@fn src/formatting/util.rs trim_end_spaces_and_tabs | params=string
    ensures r@.len() <= string@.len(), r@ == string@.take(r@.len() as int),
        forall|i: int| r@.len() <= i < string@.len() ==> sp_tab(#[trigger] string@[i]),
//@end
//@fn src/formatting/util.rs get_len_after_newline | params=s,cfg
//@end
//@fn src/formatting/util.rs get_len_till_newline | params=s,cfg
//@end
//@fn src/formatting/util.rs has_newlines | params=s
//@end
//@fn src/formatting/util.rs write_indent | params=f,cfg,state
    requires cnone(*cfg)
    ensures final(f)@ == old(f)@
//@pre
    broadcast use app_none;
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as LocHintConstructible::new | params=loc,s
    ensures r.0 == loc, r.1@ == s@
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as LocHintConstructible::get_loc
    ensures r == self.0
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as LocHintConstructible::is_out_of_range | params=state
    ensures state.pos_range is None ==> !r
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as LocHintConstructible::new | params=loc,s
    ensures r.0 == loc, r.1@ == s@
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as LocHintConstructible::get_loc
    ensures r == self.0
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as LocHintConstructible::is_out_of_range | params=state
    ensures state.comment_pos_range is None ==> !r
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint::write_formatted_comment_block | methods=is_empty:v_empty params=f,cfg,buf,comment_block
    requires cnone(*cfg)
    ensures r is Ok ==> final(f)@ == old(f)@ + dash(old(f)@, comment_block@) + comment_block@
//@pre
    broadcast use app_none;
    proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as ConfiguredWrite::configured_write | methods=len:v_len,is_empty:v_empty params=f,cfg,buf,state
    requires cnone(*cfg), sok(*old(state), buf@),
    ensures st_same(*old(state), *final(state)),
        r is Ok && lvalid(*self.0, buf@) ==> gapw(old(f)@, final(f)@, lsub(*self.0, buf@)),
        r is Ok ==> forall|k: K, p: int| #[trigger] T(old(f)@, k, p) && k.s == buf@ && p == self.0.0 && gape(buf@, p, self.0.1 as int) ==> T(final(f)@, k, self.0.1 as int),
        r is Ok && lvalid(*self.0, buf@) && self.0.0 == self.0.1 ==> final(f)@ == old(f)@,
//@pre
    broadcast use RC_first, app_none;
    let ghost f0 = f@;
    proof { if lvalid(*self.0, buf@) { let g = lsub(*self.0, buf@); lem_idx_sub(state.chars_to_bytes@, buf@, self.0.0 as int, self.0.1 as int); 
        assert forall|f2: Seq<char>, k: K, p: int| #[trigger] gapw(f0, f2, g) && #[trigger] T(f0, k, p) && k.s == buf@ && p == self.0.0 && gape(buf@, p, self.0.1 as int) implies T(f2, k, self.0.1 as int) by { gapw_T(f0, f2, k, p, self.0.1 as int); }
        gapw_of(f0, g); assert(g.subrange(0, g.len() as int) =~= g);
        if self.0.0 == self.0.1 { assert forall|f2: Seq<char>| #[trigger] gapw(f0, f2, g) implies f2 == f0 by { gapw_empty(f0, f2, g); } } } }
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as ConfiguredWrite::configured_write | params=f,cfg,buf,state
    requires cnone(*cfg), csok(*old(state)),
    ensures cst_same(*old(state), *final(state)), *final(state) == *old(state),
        r is Ok && cidx(*old(state), buf@) && lvalid(*self.0, buf@) ==> final(f)@ == old(f)@ + lsub(*self.0, buf@),
//@end
//@fn src/formatting/decoration.rs IfNewLine as ConfiguredWrite::configured_write | methods=len:v_len,is_empty:v_empty params=f,cfg,buf,state impl="<'a, 'b> IfNewLine<CommentLocHint<'a, 'b>>" inst=LocHint:CommentLocHint
    requires cnone(*cfg), sok(*old(state), buf@),
    ensures st_same(*old(state), *final(state)),
        r is Ok && !self.0 ==> forall|k: K, p: int| #[trigger] T(old(f)@, k, p) && k.s == buf@ && p == self.1.0.0 && gape(buf@, p, self.1.0.1 as int) ==> T(final(f)@, k, self.1.0.1 as int),
        r is Ok && !self.0 && lvalid(*self.1.0, buf@) && self.1.0.0 == self.1.0.1 ==> final(f)@ == old(f)@,
        r is Ok && self.0 && lvalid(*self.1.0, buf@) && old(f)@.len() > 0 && old(f)@.last() == '{' && has_nlc(lsub(*self.1.0, buf@)) && !openc(lsub(*self.1.0, buf@)) ==> tabw(old(f)@, final(f)@, lsub(*self.1.0, buf@)),
//@pre
    proof { list_lits(); if lvalid(*self.1.0, buf@) { let g = lsub(*self.1.0, buf@);
        assert forall|b: Seq<char>| #[trigger] gapw(Seq::empty(), b, g) && !openc(g) implies b == g by { gapw_start(b, g); }
        assert forall|n: int| 0 <= n <= g.len() && (forall|i: int| n <= i < g.len() ==> sp_tab(#[trigger] g[i])) implies norm(g, #[trigger] g.take(n)) && norm(g, g.take(n) + "\n"@) by { assert(norm_at(g, g.take(n), n)); assert(norm_at(g, g.take(n) + "\n"@, n)); }
    } assert forall|h: Seq<char>| true implies #[trigger] (f@ + h + "\n"@) == f@ + (h + "\n"@) by { assert(f@ + h + "\n"@ =~= f@ + (h + "\n"@)); } }
//@end
//@fn src/formatting/decoration.rs IfNewLine as ConfiguredWrite::configured_write | methods=len:v_len,is_empty:v_empty params=f,cfg,buf,state impl="<'a, 'b> IfNewLine<SpaceLocHint<'a, 'b>>" inst=LocHint:SpaceLocHint
    requires cnone(*cfg), csok(*old(state)), !self.0,
    ensures cst_same(*old(state), *final(state)),
        r is Ok && cidx(*old(state), buf@) && lvalid(*self.1.0, buf@) ==> final(f)@ == old(f)@ + lsub(*self.1.0, buf@),
//@end
//@fn src/formatting/decoration.rs IncIndent as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures st_same(*old(state), *final(state)), final(f)@ == old(f)@,
//@end
//@fn src/formatting/decoration.rs DecIndent as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures st_same(*old(state), *final(state)), final(f)@ == old(f)@,
//@end
//@fn src/formatting/decoration.rs IncFuncLevel as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures st_same(*old(state), *final(state)), final(f)@ == old(f)@,
//@end
//@fn src/formatting/decoration.rs DecFuncLevel as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures st_same(*old(state), *final(state)), final(f)@ == old(f)@,
//@end
pub struct IfInc<'a>(pub bool, pub &'a IncIndent);
pub struct IfDec<'a>(pub bool, pub &'a DecIndent);
//@fn src/formatting/decoration.rs If as ConfiguredWrite::configured_write | params=f,cfg,buf,state impl="<'a> IfInc<'a>"
    ensures st_same(*old(state), *final(state)), final(f)@ == old(f)@,
//@end
//@fn src/formatting/decoration.rs If as ConfiguredWrite::configured_write | params=f,cfg,buf,state impl="<'a> IfDec<'a>"
    ensures st_same(*old(state), *final(state)), final(f)@ == old(f)@,
//@end
//@fn src/parser/lua_ast.rs Node as AnyListItem::list_item_prefix_hint | enum=Node params=cfg impl="<'a> Node"
//@end
//@fn src/parser/lua_ast.rs Node as AnyListItem::need_newline | enum=Node params=prev,parent,f,cfg,buf,state impl=" Node" arith=math
//@use TST
        !r,
//@end
//@fn src/parser/lua_ast.rs Node as AnyListItem::need_first_newline | enum=Node params=parent,f,cfg,buf,state impl=" Node" arith=math
//@use TST
        !r,
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::items | as=Node::sep_items enum=Node
    ensures match sp_seps(*self) { Some((v, k)) => r is Some && *r->Some_0 == v, None => r is None }
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::element_prefix_hint | enum=Node
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::separator | enum=Node params=cfg
    requires cnone(*cfg)
    ensures match sp_seps(*self) { Some((v, k)) => match k { SepKind::fields => r is None, SepKind::comma => r is Some && r->Some_0@ == ","@, SepKind::dot => r is Some && r->Some_0@ == "."@ }, None => true }
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::trailing_separator | enum=Node params=cfg
    requires cnone(*cfg)
    ensures match sp_seps(*self) { Some((v, k)) => if k is fields { r is None } else { r == Some(false) }, None => true }
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::need_newlines | as=Node::sep_need_newlines enum=Node params=cfg
    requires cnone(*cfg) ensures !r
//@end
//@fn src/parser/lua_ast.rs Node as ListOfItems::items | enum=Node
    ensures match sp_items(*self) { Some(v) => r is Some && *r->Some_0 == v, None => r is None }
//@end
//@fn src/parser/lua_ast.rs Node as ListOfItems::need_newlines | enum=Node params=cfg
    requires cnone(*cfg) ensures !r
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_table_cfg | enum=Node params=cfg arith=math
    requires cnone(*cfg) ensures r is None
//@end
//@fn src/parser/lua_ast.rs Node::bracket_hint | enum=Node
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_table_field | enum=Node params=f,cfg,buf,state arith=math
//@use ONE
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_if | enum=Node params=f,cfg,buf,state arith=math
//@use ONE
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_function | enum=Node params=f,cfg,buf,state arith=math
//@use ONE
//@end
//@fn src/parser/lua_ast.rs Node::test_indent | enum=Node params=f,cfg,buf,state,hint arith=math
    requires cnone(*cfg), sok(*old(state), buf@), wf(*self, buf@),
    ensures *final(state) == *old(state), final(f)@ == old(f)@,
//@end
//@fn src/formatting/list.rs cfg_write_sep_list | as=cfg_write_sep_list__Node_CommentLocHint inst=Hint:CommentLocHint params=f,cfg,buf,state,list_node methods=items:sep_items,need_newlines:sep_need_newlines
    requires cnone(*cfg), sok(*old(state), buf@), wf(*list_node, buf@),
    ensures st_same(*old(state), *final(state)),
        r is Ok && sp_seps(*list_node) is Some ==> forall|k: K, p: int| #[trigger] T(old(f)@, k, p) && k.s == buf@ && p == sp(*list_node).0 ==> T(final(f)@, k, send(sp_seps(*list_node)->Some_0.0@, sp_seps(*list_node)->Some_0.0@.len() as int, sp(*list_node).0)),
//@pre
    hide(wf); hide(wf_sep); hide(wf_seps); hide(wf_list);
    broadcast use T_push;
    let ghost f0 = f@;
    let ghost a = sp(*list_node).0;
    proof { list_lits(); if sp_seps(*list_node) is Some { wf_of_seps(*list_node, buf@); let (v, kd) = sp_seps(*list_node)->Some_0;
        sep_get(v, buf@, kd, v@.len() as int, a, 0); sep_get(v, buf@, kd, v@.len() as int, a, v@.len() - 1); } }
//@loop 0
    invariant cnone(*cfg), sok(*state, buf@), st_same(*old(state), *state), f0 == old(f)@, a == sp(*list_node).0,
        sp_seps(*list_node) is Some, *items == sp_seps(*list_node)->Some_0.0, items@.len() > 0,
        wf_sep(*items, buf@, sp_seps(*list_node)->Some_0.1, items@.len() as int, a),
        match sp_seps(*list_node)->Some_0.1 { SepKind::fields => sep_opt is None, SepKind::comma => sep_opt is Some && sep_opt->Some_0@ == ","@, SepKind::dot => sep_opt is Some && sep_opt->Some_0@ == "."@ },
        forall|k: K| #[trigger] T(f0, k, a) && k.s == buf@ ==> T(f@, k, items@[i - 1].2.1 as int),
//@loopbegin 0
    broadcast use T_push;
    proof { let (v, kd) = sp_seps(*list_node)->Some_0; list_lits(); sep_get(v, buf@, kd, v@.len() as int, a, i - 1); sep_get(v, buf@, kd, v@.len() as int, a, i as int); }
//@end
//@fn src/formatting/list.rs cfg_write_list | as=cfg_write_list__Node_CommentLocHint inst=Hint:CommentLocHint params=f,cfg,buf,state,list_node
    requires cnone(*cfg), sok(*old(state), buf@), wf(*list_node, buf@),
    ensures st_same(*old(state), *final(state)),
        r is Ok && sp_items(*list_node) is Some ==> forall|k: K, p: int| #[trigger] T(old(f)@, k, p) && k.s == buf@ && p == sp(*list_node).0 ==> T(final(f)@, k, lend(sp_items(*list_node)->Some_0@, sp_items(*list_node)->Some_0@.len() as int, sp(*list_node).0)),
//@pre
    hide(wf); hide(wf_sep); hide(wf_seps); hide(wf_list);
    let ghost f0 = f@;
    let ghost a = sp(*list_node).0;
    proof { list_lits(); if sp_items(*list_node) is Some { wf_of_list(*list_node, buf@); let v = sp_items(*list_node)->Some_0;
        if v@.len() > 0 { list_get(v, buf@, v@.len() as int, a, 0); } } }
//@loop 0
    invariant cnone(*cfg), sok(*state, buf@), st_same(*old(state), *state), f0 == old(f)@, a == sp(*list_node).0,
        sp_items(*list_node) is Some, *items == sp_items(*list_node)->Some_0, items@.len() > 0,
        wf_list(*items, buf@, items@.len() as int, a),
        forall|k: K| #[trigger] T(f0, k, a) && k.s == buf@ ==> T(f@, k, sp(items@[i - 1].1).1),
//@loopbegin 0
    proof { let v = sp_items(*list_node)->Some_0; list_lits(); list_get(v, buf@, v@.len() as int, a, i as int); }
//@end
//@fn src/formatting/list.rs cfg_write_list | as=cfg_write_list__CNode_SpaceLocHint inst=Hint:SpaceLocHint,Node:CNode params=f,cfg,buf,state,list_node
    requires cnone(*cfg), csok(*old(state)), cwt(*list_node, buf@),
    ensures cst_same(*old(state), *final(state)),
        r is Ok && cidx(*old(state), buf@) && cp_items(*list_node) is Some ==> final(f)@ == old(f)@ + ctext(*list_node, buf@),
//@pre
    hide(cwt); hide(cwts);
    let ghost f0 = f@;
    let ghost a = csp(*list_node).0;
    proof { list_lits(); if cp_items(*list_node) is Some { cwt_of_list(*list_node, buf@); let v = cp_items(*list_node)->Some_0;
        csum_ends(f0, buf@, *list_node); if v@.len() > 0 { csum_step(f0, buf@, v, a, 0); } } }
//@loop 0
    invariant cnone(*cfg), csok(*state), cst_same(*old(state), *state), f0 == old(f)@, a == csp(*list_node).0,
        cp_items(*list_node) is Some, *items == cp_items(*list_node)->Some_0, items@.len() > 0,
        cwts(*items, buf@, items@.len() as int, a), 0 <= a <= buf@.len(),
        cidx(*old(state), buf@) ==> f@ == csum(f0, buf@, *items, a, i as int),
//@loopbegin 0
    proof { let v = cp_items(*list_node)->Some_0; list_lits(); csum_step(f0, buf@, v, a, i as int); }
//@end
//@arms src/parser/lua_ast.rs Node as ConfiguredWrite::configured_write | enum=Node params=f,cfg,buf,state arith=math
//@use W
//@armpre
    broadcast use T_push, T_to, tok_split;
    proof { list_lits(); key_lits(); }
//@armpre BinaryOp
    proof { w_BinaryOp(self->BinaryOp_0, self->BinaryOp_1, self->BinaryOp_2, self->BinaryOp_3, self->BinaryOp_4, buf@); }
//@armpre UnaryOp
    proof { w_UnaryOp(self->UnaryOp_0, self->UnaryOp_1, self->UnaryOp_2, self->UnaryOp_3, buf@); }
//@armpre UnaryNot
    proof { w_UnaryNot(self->UnaryNot_0, self->UnaryNot_1, self->UnaryNot_2, buf@); }
//@armpre Var
    proof { w_Var(self->Var_0, self->Var_1, self->Var_2, self->Var_3, buf@); }
//@armpre RoundBrackets
    proof { w_RoundBrackets(self->RoundBrackets_0, self->RoundBrackets_1, self->RoundBrackets_2, buf@); }
//@armpre ArgsRoundBrackets
    proof { w_ArgsRoundBrackets(self->ArgsRoundBrackets_0, self->ArgsRoundBrackets_1, self->ArgsRoundBrackets_2, buf@); }
//@armpre ArgsRoundBracketsEmpty
    proof { w_ArgsRoundBracketsEmpty(self->ArgsRoundBracketsEmpty_0, self->ArgsRoundBracketsEmpty_1, buf@); }
//@armpre Nil
    proof { w_Nil(self->Nil_0, buf@); }
//@armpre False
    proof { w_False(self->False_0, buf@); }
//@armpre True
    proof { w_True(self->True_0, buf@); }
//@armpre VarArg
    proof { w_VarArg(self->VarArg_0, buf@); }
//@armpre Break
    proof { w_Break(self->Break_0, buf@); }
//@armpre Numeral
    proof { w_Numeral(self->Numeral_0, self->Numeral_1, buf@); }
//@armpre NormalStringLiteral
    proof { w_NormalStringLiteral(self->NormalStringLiteral_0, self->NormalStringLiteral_1, buf@); }
//@armpre CharStringLiteral
    proof { w_CharStringLiteral(self->CharStringLiteral_0, self->CharStringLiteral_1, buf@); }
//@armpre MultiLineStringLiteral
    proof { w_MultiLineStringLiteral(self->MultiLineStringLiteral_0, self->MultiLineStringLiteral_1, self->MultiLineStringLiteral_2, buf@); }
//@armpre TableConstructor
    proof { w_TableConstructor(self->TableConstructor_0, self->TableConstructor_1, self->TableConstructor_2, self->TableConstructor_3, buf@); }
//@armpre TableConstructorEmpty
    proof { w_TableConstructorEmpty(self->TableConstructorEmpty_0, self->TableConstructorEmpty_1, buf@); }
    let ghost l = self->TableConstructorEmpty_1@[0];
    let ghost g = lsub(l, buf@);
    proof { let f0 = f@; let a = l.0 as int; let b = l.1 as int; if a < b { trivia_facts(buf@, a, b); } else { if openc(g) { openc_facts(g); } }
        assert forall|h: Seq<char>| #[trigger] gapw(Seq::empty(), h, g) implies h == g by { gapw_start(h, g); }
        assert forall|f2: Seq<char>, k: K| #[trigger] T(f0, k, a - 1) && k.s == buf@ && #[trigger] tabw(f0 + "{"@, f2, g) && has_nlc(g) implies T(f2 + "}"@, k, b + 1) by { T_table(f0, k, a - 1, f0 + "{"@, f2, g, b); } }
//@armpre Fields
    proof { w_Fields(self->Fields_0, self->Fields_1, self->Fields_2, buf@); }
//@armpre FieldNamedBracket
    proof { w_FieldNamedBracket(self->FieldNamedBracket_0, self->FieldNamedBracket_1, self->FieldNamedBracket_2, self->FieldNamedBracket_3, buf@); }
//@armpre FieldNamed
    proof { w_FieldNamed(self->FieldNamed_0, self->FieldNamed_1, self->FieldNamed_2, self->FieldNamed_3, buf@); }
//@armpre FieldSequential
    proof { w_FieldSequential(self->FieldSequential_0, self->FieldSequential_1, buf@); }
//@armpre TableIndex
    proof { w_TableIndex(self->TableIndex_0, self->TableIndex_1, self->TableIndex_2, buf@); }
//@armpre TableMember
    proof { w_TableMember(self->TableMember_0, self->TableMember_1, self->TableMember_2, buf@); }
//@armpre ExpList
    proof { w_ExpList(self->ExpList_0, self->ExpList_1, buf@); }
//@armpre NameList
    proof { w_NameList(self->NameList_0, self->NameList_1, buf@); }
//@armpre ParList
    proof { w_ParList(self->ParList_0, self->ParList_1, buf@); }
//@armpre VarList
    proof { w_VarList(self->VarList_0, self->VarList_1, buf@); }
//@armpre VarRoundSuffix
    proof { w_VarRoundSuffix(self->VarRoundSuffix_0, self->VarRoundSuffix_1, self->VarRoundSuffix_2, self->VarRoundSuffix_3, buf@); }
//@armpre VarSuffixList
    proof { w_VarSuffixList(self->VarSuffixList_0, self->VarSuffixList_1, buf@); }
//@armpre FnMethodCall
    proof { w_FnMethodCall(self->FnMethodCall_0, self->FnMethodCall_1, self->FnMethodCall_2, self->FnMethodCall_3, buf@); }
//@armpre FunctionDef
    proof { w_FunctionDef(self->FunctionDef_0, self->FunctionDef_1, self->FunctionDef_2, buf@); }
//@armpre FuncBody
    proof { w_FuncBody(self->FuncBody_0, self->FuncBody_1, buf@); }
//@armpre FuncBodyB
    proof { w_FuncBodyB(self->FuncBodyB_0, self->FuncBodyB_1, self->FuncBodyB_2, buf@); }
//@armpre FuncPBody
    proof { w_FuncPBody(self->FuncPBody_0, self->FuncPBody_1, self->FuncPBody_2, buf@); }
//@armpre FuncPBodyB
    proof { w_FuncPBodyB(self->FuncPBodyB_0, self->FuncPBodyB_1, self->FuncPBodyB_2, self->FuncPBodyB_3, buf@); }
//@armpre FuncName
    proof { w_FuncName(self->FuncName_0, self->FuncName_1, buf@); }
//@armpre FuncNameSelf
    proof { w_FuncNameSelf(self->FuncNameSelf_0, self->FuncNameSelf_1, self->FuncNameSelf_2, self->FuncNameSelf_3, buf@); }
//@armpre FuncDecl
    proof { w_FuncDecl(self->FuncDecl_0, self->FuncDecl_1, self->FuncDecl_2, self->FuncDecl_3, buf@); }
//@armpre LocalFuncDecl
    proof { w_LocalFuncDecl(self->LocalFuncDecl_0, self->LocalFuncDecl_1, self->LocalFuncDecl_2, self->LocalFuncDecl_3, buf@); }
//@armpre StatementList
    proof { w_StatementList(self->StatementList_0, self->StatementList_1, buf@); }
//@armpre DoEnd
    proof { w_DoEnd(self->DoEnd_0, self->DoEnd_1, buf@); }
//@armpre DoBEnd
    proof { w_DoBEnd(self->DoBEnd_0, self->DoBEnd_1, self->DoBEnd_2, buf@); }
//@armpre VarsExprs
    proof { w_VarsExprs(self->VarsExprs_0, self->VarsExprs_1, self->VarsExprs_2, self->VarsExprs_3, buf@); }
//@armpre Name
    proof { w_Name(self->Name_0, self->Name_1, buf@); }
//@armpre Label
    proof { w_Label(self->Label_0, self->Label_1, self->Label_2, buf@); }
//@armpre GoTo
    proof { w_GoTo(self->GoTo_0, self->GoTo_1, self->GoTo_2, buf@); }
//@armpre WhileDo
    proof { w_WhileDo(self->WhileDo_0, self->WhileDo_1, self->WhileDo_2, buf@); }
//@armpre WhileDoB
    proof { w_WhileDoB(self->WhileDoB_0, self->WhileDoB_1, self->WhileDoB_2, self->WhileDoB_3, buf@); }
//@armpre RepeatUntil
    proof { w_RepeatUntil(self->RepeatUntil_0, self->RepeatUntil_1, self->RepeatUntil_2, buf@); }
//@armpre RepeatBUntil
    proof { w_RepeatBUntil(self->RepeatBUntil_0, self->RepeatBUntil_1, self->RepeatBUntil_2, self->RepeatBUntil_3, buf@); }
//@armpre ForInt
    proof { w_ForInt(self->ForInt_0, self->ForInt_1, self->ForInt_2, self->ForInt_3, self->ForInt_4, buf@); }
//@armpre ForIntB
    proof { w_ForIntB(self->ForIntB_0, self->ForIntB_1, self->ForIntB_2, self->ForIntB_3, self->ForIntB_4, self->ForIntB_5, buf@); }
//@armpre ForIntStep
    proof { w_ForIntStep(self->ForIntStep_0, self->ForIntStep_1, self->ForIntStep_2, self->ForIntStep_3, self->ForIntStep_4, self->ForIntStep_5, buf@); }
//@armpre ForIntStepB
    proof { w_ForIntStepB(self->ForIntStepB_0, self->ForIntStepB_1, self->ForIntStepB_2, self->ForIntStepB_3, self->ForIntStepB_4, self->ForIntStepB_5, self->ForIntStepB_6, buf@); }
//@armpre ForRange
    proof { w_ForRange(self->ForRange_0, self->ForRange_1, self->ForRange_2, self->ForRange_3, buf@); }
//@armpre ForRangeB
    proof { w_ForRangeB(self->ForRangeB_0, self->ForRangeB_1, self->ForRangeB_2, self->ForRangeB_3, self->ForRangeB_4, buf@); }
//@armpre LocalNames
    proof { w_LocalNames(self->LocalNames_0, self->LocalNames_1, self->LocalNames_2, buf@); }
//@armpre LocalNamesExprs
    proof { w_LocalNamesExprs(self->LocalNamesExprs_0, self->LocalNamesExprs_1, self->LocalNamesExprs_2, self->LocalNamesExprs_3, buf@); }
//@armpre IfThen
    proof { w_IfThen(self->IfThen_0, self->IfThen_1, self->IfThen_2, buf@); }
//@armpre IfThenB
    proof { w_IfThenB(self->IfThenB_0, self->IfThenB_1, self->IfThenB_2, self->IfThenB_3, buf@); }
//@armpre IfThenElse
    proof { w_IfThenElse(self->IfThenElse_0, self->IfThenElse_1, self->IfThenElse_2, buf@); }
//@armpre IfThenBElse
    proof { w_IfThenBElse(self->IfThenBElse_0, self->IfThenBElse_1, self->IfThenBElse_2, self->IfThenBElse_3, buf@); }
//@armpre IfThenElseB
    proof { w_IfThenElseB(self->IfThenElseB_0, self->IfThenElseB_1, self->IfThenElseB_2, self->IfThenElseB_3, buf@); }
//@armpre IfThenBElseB
    proof { w_IfThenBElseB(self->IfThenBElseB_0, self->IfThenBElseB_1, self->IfThenBElseB_2, self->IfThenBElseB_3, self->IfThenBElseB_4, buf@); }
//@armpre IfThenElseIf
    proof { w_IfThenElseIf(self->IfThenElseIf_0, self->IfThenElseIf_1, self->IfThenElseIf_2, self->IfThenElseIf_3, buf@); }
//@armpre IfThenBElseIf
    proof { w_IfThenBElseIf(self->IfThenBElseIf_0, self->IfThenBElseIf_1, self->IfThenBElseIf_2, self->IfThenBElseIf_3, self->IfThenBElseIf_4, buf@); }
//@armpre IfThenElseIfElse
    proof { w_IfThenElseIfElse(self->IfThenElseIfElse_0, self->IfThenElseIfElse_1, self->IfThenElseIfElse_2, self->IfThenElseIfElse_3, buf@); }
//@armpre IfThenBElseIfElse
    proof { w_IfThenBElseIfElse(self->IfThenBElseIfElse_0, self->IfThenBElseIfElse_1, self->IfThenBElseIfElse_2, self->IfThenBElseIfElse_3, self->IfThenBElseIfElse_4, buf@); }
//@armpre IfThenElseIfElseB
    proof { w_IfThenElseIfElseB(self->IfThenElseIfElseB_0, self->IfThenElseIfElseB_1, self->IfThenElseIfElseB_2, self->IfThenElseIfElseB_3, self->IfThenElseIfElseB_4, buf@); }
//@armpre IfThenBElseIfElseB
    proof { w_IfThenBElseIfElseB(self->IfThenBElseIfElseB_0, self->IfThenBElseIfElseB_1, self->IfThenBElseIfElseB_2, self->IfThenBElseIfElseB_3, self->IfThenBElseIfElseB_4, self->IfThenBElseIfElseB_5, buf@); }
//@armpre ElseIfThenVec
    proof { w_ElseIfThenVec(self->ElseIfThenVec_0, self->ElseIfThenVec_1, buf@); }
//@armpre ElseIfThen
    proof { w_ElseIfThen(self->ElseIfThen_0, self->ElseIfThen_1, self->ElseIfThen_2, buf@); }
//@armpre ElseIfThenB
    proof { w_ElseIfThenB(self->ElseIfThenB_0, self->ElseIfThenB_1, self->ElseIfThenB_2, self->ElseIfThenB_3, buf@); }
//@armpre RetStatNone
    proof { w_RetStatNone(self->RetStatNone_0, buf@); }
//@armpre RetStatExpr
    proof { w_RetStatExpr(self->RetStatExpr_0, self->RetStatExpr_1, self->RetStatExpr_2, buf@); }
//@armpre RetStatNoneComma
    proof { w_RetStatNoneComma(self->RetStatNoneComma_0, self->RetStatNoneComma_1, buf@); }
//@armpre RetStatExprComma
    proof { w_RetStatExprComma(self->RetStatExprComma_0, self->RetStatExprComma_1, self->RetStatExprComma_2, buf@); }
//@armpre StatsRetStat
    proof { w_StatsRetStat(self->StatsRetStat_0, self->StatsRetStat_1, self->StatsRetStat_2, self->StatsRetStat_3, buf@); }
//@armpre Chunk
    proof { w_Chunk(self->Chunk_0, self->Chunk_1, self->Chunk_2, buf@); }
//@armpre SheBangChunk
    proof { w_SheBangChunk(self->SheBangChunk_0, self->SheBangChunk_1, self->SheBangChunk_2, self->SheBangChunk_3, self->SheBangChunk_4, buf@); }
//@armpre Semicolon
    proof { w_Semicolon(self->Semicolon_0, buf@); }
//@armpre SheBang
    proof { w_SheBang(self->SheBang_0, self->SheBang_1, buf@);
        let f0 = f@; let t = self->SheBang_1@; let p = sp(*self).0; let q = sp(*self).1;
        assert(f0 + (Seq::<char>::empty() + t + "\n"@) =~= f0 + t + "\n"@);
        assert forall|k: K| #[trigger] T(f0, k, p) && k.s == buf@ implies T(f0 + t + "\n"@, k, q) by { T_bang(f0, k, p, t, q); } }
//@end
//@fn src/parser/comment_ast.rs Node as ListOfItems::items | enum=CNode inst=Node:CNode
    ensures match cp_items(*self) { Some(v) => r is Some && *r->Some_0 == v, None => r is None }
//@end
//@fn src/parser/comment_ast.rs Node as ListOfItems::need_newlines | enum=CNode inst=Node:CNode params=cfg
//@end
//@fn src/parser/comment_ast.rs Node as AnyListItem::list_item_prefix_hint | enum=CNode inst=Node:CNode params=cfg impl="<'a> CNode"
//@end
//@fn src/parser/comment_ast.rs Node as AnyListItem::need_newline | enum=CNode inst=Node:CNode params=prev,parent,f,cfg,buf,state impl=" CNode"
    requires cnone(*cfg)
    ensures *final(state) == *old(state), final(f)@ == old(f)@, !r
//@end
//@fn src/parser/comment_ast.rs Node as AnyListItem::need_first_newline | enum=CNode inst=Node:CNode params=parent,f,cfg,buf,state impl=" CNode"
    requires cnone(*cfg)
    ensures *final(state) == *old(state), final(f)@ == old(f)@, !r
//@end
//@arms src/parser/comment_ast.rs Node as ConfiguredWrite::configured_write | enum=CNode inst=Node:CNode params=f,cfg,buf,state impl=" CNode" arith=math methods=is_empty:v_empty
//@use CW
//@armpre
    proof { list_lits(); ctext_parts(*self, buf@, f@); }
//@end
fn main() {}
}
