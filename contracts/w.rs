// the writers: lua_ast.rs, comment_ast.rs, formatting/*.rs
#![allow(non_snake_case, non_camel_case_types, unused, dead_code)]
use vstd::prelude::*;
use std::collections::HashMap;
verus! {
//@macros src/config.rs src/formatting/util.rs
//@modules crate parser fmt std util list reconstruction config lua_ast comment_ast core
//@mono cfg_write_list cfg_write_sep_list
//@typemap std::fmt::Result => Result<(), FErr>
//@typemap std::fmt::Error => FErr
//@typemap core::fmt::Error => FErr
//@typemap Cell<bool> => CellB
//@methods chars=v_chars starts_with=c_sw ends_with=c_ew find=c_find contains=c_has trim_end_matches=v_trim_em trim_start_matches=v_trim_sm pop=v_pop trim=v_trim trim_start=v_trim_start trim_end=v_trim_end
//@attr #[verifier::exec_allows_no_decreases_clause]
//@include std_shim.rs
//@include w_shim.rs
//@include w_rshim.rs
//@include w_spec.rs
//@type src/config.rs FormatOpts
//@type src/config.rs Config
//@type src/config.rs State
impl Clone for Config { #[verifier::external_body] fn clone(&self) -> (r: Config) ensures r == *self { unimplemented!() } }
impl Clone for State { #[verifier::external_body] fn clone(&self) -> (r: State) ensures r == *self { unimplemented!() } }
//@type src/parser/common.rs Loc
//@type src/parser/common.rs Str
//@type src/parser/lua_ast.rs TableConstructorOpts
//@type src/parser/lua_ast.rs FieldsOpts
//@type src/parser/lua_ast.rs Node
//@enum Node src/parser/lua_ast.rs Node
//@type src/parser/comment_ast.rs Node | as=CNode inst=Node:CNode
//@enum CNode src/parser/comment_ast.rs Node
//@type src/formatting/loc_hint.rs CommentLocHint
//@type src/formatting/loc_hint.rs SpaceLocHint
//@type src/formatting/decoration.rs IfNewLine
//@type src/formatting/decoration.rs IncIndent
//@type src/formatting/decoration.rs DecIndent
//@type src/formatting/decoration.rs IncFuncLevel
//@type src/formatting/decoration.rs DecFuncLevel
//@text W
    requires cok(*cfg), sok(*old(state), buf@),
    ensures st_same(*old(state), *final(state)),
        r is Ok ==> forall|P: Acc| #[trigger] R(old(f)@, P) ==> R(final(f)@, add(cxof(*cfg, buf@), P, *self)),
//@endtext
//@text TST
    requires cok(*cfg), sok(*old(state), buf@),
    ensures *final(state) == *old(state), final(f)@ == old(f)@,
//@endtext
//@text ONE
//@use TST
        match r { Some(line) => R(line@, add(cxof(*cfg, buf@), e0(), *self)), None => true },
//@pre
    proof { lits(); lem_R_empty(); }
//@endtext
//@text CW
    requires cok(*cfg), csok(*old(state)), cwf(*self, buf@),
    ensures cst_same(*old(state), *final(state)),
        r is Ok && cidx(*old(state), buf@) ==> forall|P: Acc| #[trigger] RC(old(f)@, P) ==> RC(final(f)@, cadd(cxof(*cfg, Seq::empty()), P, *self)) && final(f)@[0] == old(f)@[0],
//@endtext
//@text CTST
    ensures *final(state) == *old(state), final(f)@ == old(f)@,
//@endtext
#[verifier::external_body] pub fn parse_comment(s: &str) -> (r: Result<CNode, FErr>)
    ensures r is Ok ==> cwf(r->Ok_0, s@),
//@if C02
        r is Ok ==> r->Ok_0 == ctree(s@),
//@fi
{ unimplemented!() }
//@fn src/parser/common.rs Loc::substr | params=buf,state,offset arith=math
    ensures idx_at(state.chars_to_bytes@, offset as int, buf@) && lvalid(*self, buf@) ==> r@ == lsub(*self, buf@)
//@pre
    broadcast use vstd::std_specs::hash::group_hash_axioms, lem_boff_pos;
    proof { assert(mkk(0) && mkk(self.0 as int) && mkk(self.1 as int)); reveal_strlit(""); 
        if lvalid(*self, buf@) && buf@.len() == 0 { assert(lsub(*self, buf@) =~= Seq::empty()); } }
//@end
//@fn src/parser/common.rs Loc as ConfiguredWrite::configured_write | params=f,cfg,buf,state
    ensures *final(state) == *old(state),
//@end
//@fn src/parser/common.rs Str as ConfiguredWrite::configured_write | params=f,cfg,buf,state
    ensures *final(state) == *old(state),
        forall|P: Acc| #[trigger] R(old(f)@, P) ==> R(final(f)@, push_t(P, self.0@)),
        forall|P: Acc, Q: Acc| #[trigger] R(old(f)@, P) && #[trigger] R(self.0@, Q) ==> R(final(f)@, cat(P, Q)),
//@end
//@fn src/formatting/util.rs test_out_of_range | params=range,span
    ensures *range is None ==> !r
//@end
//@fn src/formatting/util.rs test_not_completely_contained | params=range,span
    ensures *range is None ==> !r
//@end
//@fn src/formatting/util.rs trim_end_spaces_and_tabs | params=string
    ensures r@.len() <= string@.len(), r@ == string@.take(r@.len() as int),
        forall|i: int| r@.len() <= i < string@.len() ==> trimmed_ch(#[trigger] string@[i]),
        forall|P: Acc| #[trigger] R(string@, P) ==> R(r@, P),
//@pre
    proof { assert forall|n: int, P: Acc| R(string@, P) && 0 <= n <= string@.len() && (forall|i: int| n <= i < string@.len() ==> trimmed_ch(#[trigger] string@[i])) implies #[trigger] R(string@.take(n), P) by { lem_R_trim_n(string@, n, P); } }
//@end
//@fn src/formatting/util.rs get_len_after_newline | params=s,cfg
//@end
//@fn src/formatting/util.rs get_len_till_newline | params=s,cfg
//@end
//@fn src/formatting/util.rs has_newlines | params=s
//@end
//@fn src/formatting/util.rs write_indent | params=f,cfg,state
    requires cok(*cfg),
    ensures forall|P: Acc| #[trigger] R(old(f)@, P) ==> R(final(f)@, P),
        forall|P: Acc| #[trigger] RC(old(f)@, P) ==> RC(final(f)@, P) && final(f)@[0] == old(f)@[0],
//@pre
    proof { if cfg.fmt.indentation_string is Some { lem_rep_ws(cfg.fmt.indentation_string->Some_0@, state.indent_level as int); } }
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as LocHintConstructible::new | params=loc,s
    ensures r.0 == loc, r.1@ == s@
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as LocHintConstructible::get_loc
    ensures r == self.0
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as LocHintConstructible::is_out_of_range | params=state
    ensures state.pos_range is None ==> !r
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as LocHintConstructible::new | params=loc,s
    ensures r.0 == loc, r.1@ == s@
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as LocHintConstructible::get_loc
    ensures r == self.0
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as LocHintConstructible::is_out_of_range | params=state
    ensures state.comment_pos_range is None ==> !r
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint::write_formatted_comment_block | methods=is_empty:v_empty params=f,cfg,buf,comment_block
    requires cok(*cfg), is_ws(self.1@),
    ensures forall|P: Acc, Q: Acc| #[trigger] R(old(f)@, P) && #[trigger] R(comment_block@, Q) ==> R(final(f)@, cat(P, Q)) || r is Err,
//@pre
    proof { lits(); assert forall|s: Seq<char>, w: Seq<char>, P: Acc| #[trigger] R(s, P) && is_ws(w) implies #[trigger] R(s + w, P) by { lem_R_ws(s, w, P); }
        assert forall|s: Seq<char>, P: Acc, Q: Acc| #[trigger] R(s, P) && R(comment_block@, Q) implies #[trigger] R(s, cat(P, Q)) || comment_block@.len() > 0 by { if comment_block@.len() == 0 { lem_R_cat(s, comment_block@, P, Q); assert(s + comment_block@ =~= s); } }
    }
//@end
//@fn src/formatting/loc_hint.rs CommentLocHint as ConfiguredWrite::configured_write | methods=len:v_len,is_empty:v_empty params=f,cfg,buf,state
    requires cok(*cfg), sok(*old(state), buf@), is_ws(self.1@),
    ensures st_same(*old(state), *final(state)),
        r is Ok ==> forall|P: Acc| #[trigger] R(old(f)@, P) ==> R(final(f)@, gap(cxof(*cfg, buf@), P, *self.0)),
//@pre
    broadcast use acc_facts, RC_first, one_char;
    proof { lem_R_empty(); if lvalid(*self.0, buf@) { lem_idx_sub(state.chars_to_bytes@, buf@, self.0.0 as int, self.0.1 as int); } }
//@end
//@fn src/formatting/loc_hint.rs SpaceLocHint as ConfiguredWrite::configured_write | params=f,cfg,buf,state
    requires csok(*old(state)), is_ws(self.1@), cgap_ok(*self.0, buf@),
    ensures cst_same(*old(state), *final(state)),
        cidx(*old(state), buf@) ==> exists|w: Seq<char>| #[trigger] is_ws(w) && final(f)@ == old(f)@ + w,
        cidx(*old(state), buf@) ==> forall|P: Acc| #[trigger] RC(old(f)@, P) ==> RC(final(f)@, P) && final(f)@[0] == old(f)@[0],
//@end
//@fn src/formatting/decoration.rs IfNewLine as ConfiguredWrite::configured_write | methods=len:v_len,is_empty:v_empty params=f,cfg,buf,state impl="<'a, 'b> IfNewLine<CommentLocHint<'a, 'b>>" inst=LocHint:CommentLocHint
    requires cok(*cfg), sok(*old(state), buf@), is_ws(self.1.1@),
    ensures st_same(*old(state), *final(state)),
        r is Ok ==> forall|P: Acc| #[trigger] R(old(f)@, P) ==> R(final(f)@, gap(cxof(*cfg, buf@), P, *self.1.0)),
//@pre
    broadcast use nl_facts;
    proof { lits(); lem_R_empty(); cat_e0(gacc(cxof(*cfg, buf@), *self.1.0));
        assert(gap(cxof(*cfg, buf@), e0(), *self.1.0) == gacc(cxof(*cfg, buf@), *self.1.0)); }
//@end
//@fn src/formatting/decoration.rs IfNewLine as ConfiguredWrite::configured_write | methods=len:v_len,is_empty:v_empty params=f,cfg,buf,state impl="<'a, 'b> IfNewLine<SpaceLocHint<'a, 'b>>" inst=LocHint:SpaceLocHint
    requires cok(*cfg), csok(*old(state)), is_ws(self.1.1@), cgap_ok(*self.1.0, buf@),
    ensures cst_same(*old(state), *final(state)),
        r is Ok && cidx(*old(state), buf@) ==> forall|P: Acc| #[trigger] RC(old(f)@, P) ==> RC(final(f)@, P) && final(f)@[0] == old(f)@[0],
//@pre
    broadcast use nl_facts;
    proof { lits(); lem_R_empty(); clen_ascii();
        assert forall|s: Seq<char>, n: int| is_ws(s) && 0 <= n <= s.len() implies is_ws(#[trigger] s.take(n)) by { ws_take(s, n); } }
//@end
//@fn src/formatting/decoration.rs IncIndent as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures st_same(*old(state), *final(state)), final(f)@ == old(f)@,
//@end
//@fn src/formatting/decoration.rs DecIndent as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures st_same(*old(state), *final(state)), final(f)@ == old(f)@,
//@end
//@fn src/formatting/decoration.rs IncFuncLevel as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures st_same(*old(state), *final(state)), final(f)@ == old(f)@,
//@end
//@fn src/formatting/decoration.rs DecFuncLevel as ConfiguredWrite::configured_write | params=f,cfg,buf,state arith=math
    ensures st_same(*old(state), *final(state)), final(f)@ == old(f)@,
//@end
pub struct IfInc<'a>(pub bool, pub &'a IncIndent);
pub struct IfDec<'a>(pub bool, pub &'a DecIndent);
//@fn src/formatting/decoration.rs If as ConfiguredWrite::configured_write | params=f,cfg,buf,state impl="<'a> IfInc<'a>"
    ensures st_same(*old(state), *final(state)), final(f)@ == old(f)@,
//@end
//@fn src/formatting/decoration.rs If as ConfiguredWrite::configured_write | params=f,cfg,buf,state impl="<'a> IfDec<'a>"
    ensures st_same(*old(state), *final(state)), final(f)@ == old(f)@,
//@end
//@fn src/parser/lua_ast.rs Node as AnyListItem::list_item_prefix_hint | enum=Node params=cfg impl="<'a> Node"
    ensures is_ws(r@)
//@pre
    proof { lits(); }
//@end
//@fn src/parser/lua_ast.rs Node as AnyListItem::need_newline | enum=Node params=prev,parent,f,cfg,buf,state impl=" Node" arith=math
//@use TST
//@pre
    proof { lits(); }
//@end
//@fn src/parser/lua_ast.rs Node as AnyListItem::need_first_newline | enum=Node params=parent,f,cfg,buf,state impl=" Node" arith=math
//@use TST
//@pre
    proof { lits(); }
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::items | as=Node::sep_items enum=Node
    ensures match sp_seps(*self) { Some((v, k)) => r is Some && *r->Some_0 == v, None => r is None }
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::element_prefix_hint | enum=Node
    ensures is_ws(r@)
//@pre
    proof { lits(); }
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::separator | enum=Node params=cfg
    ensures forall|own: Seq<char>, b: Seq<char>| sp_seps(*self) is Some ==> #[trigger] sep_of(cxof(*cfg, b), sp_seps(*self)->Some_0.1, own) == (match r { Some(s) => s@, None => own })
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::trailing_separator | enum=Node params=cfg
    ensures sp_seps(*self) is Some && !(sp_seps(*self)->Some_0.1 is fields) ==> r == Some(false)
//@end
//@fn src/parser/lua_ast.rs Node as SepListOfItems::need_newlines | as=Node::sep_need_newlines enum=Node params=cfg
//@end
//@fn src/parser/lua_ast.rs Node as ListOfItems::items | enum=Node
    ensures match sp_items(*self) { Some(v) => r is Some && *r->Some_0 == v, None => r is None }
//@end
//@fn src/parser/lua_ast.rs Node as ListOfItems::need_newlines | enum=Node params=cfg
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_table_cfg | enum=Node params=cfg arith=math
    ensures match r { Some(c) => cok(*cfg) ==> cok(c) && forall|b: Seq<char>| #[trigger] cxof(c, b) == cxof(*cfg, b), None => true }
//@end
//@fn src/parser/lua_ast.rs Node::bracket_hint | enum=Node
    ensures is_ws(r@)
//@pre
    proof { lits(); }
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_table_field | enum=Node params=f,cfg,buf,state arith=math
//@use ONE
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_if | enum=Node params=f,cfg,buf,state arith=math
//@use ONE
//@end
//@fn src/parser/lua_ast.rs Node::test_oneline_function | enum=Node params=f,cfg,buf,state arith=math
//@use ONE
//@end
//@fn src/parser/lua_ast.rs Node::test_indent | enum=Node params=f,cfg,buf,state,hint arith=math
    requires cok(*cfg), sok(*old(state), buf@), is_ws(hint.1@),
    ensures *final(state) == *old(state), final(f)@ == old(f)@,
//@end
//@fn src/formatting/list.rs cfg_write_sep_list | as=cfg_write_sep_list__Node_CommentLocHint inst=Hint:CommentLocHint params=f,cfg,buf,state,list_node methods=items:sep_items,need_newlines:sep_need_newlines
    requires cok(*cfg), sok(*old(state), buf@),
    ensures st_same(*old(state), *final(state)),
        r is Ok && sp_seps(*list_node) is Some ==> forall|P: Acc| #[trigger] R(old(f)@, P) ==> R(final(f)@, add_seps(cxof(*cfg, buf@), P, sp_seps(*list_node)->Some_0.0, sp_seps(*list_node)->Some_0.1)),
//@pre
    hide(add); hide(add_sep); hide(add_seps);
    broadcast use o_none;
    proof { lits(); }
    let ghost cx = cxof(*cfg, buf@);
    let ghost f0 = f@;
    proof { if sp_seps(*list_node) is Some { let (v, sk) = sp_seps(*list_node)->Some_0;
        assert forall|P: Acc| #[trigger] add_seps(cx, P, v, sk) == (if v@.len() == 0 { P } else { let q = add_sep(cx, P, v, sk, v@.len() as int); if sk is fields { push_o(q, sep_of(cx, sk, v@[v@.len() - 1].3@)) } else { q } }) by { step_seps(cx, P, v, sk); }
        assert forall|P: Acc| v@.len() > 0 implies #[trigger] add_sep(cx, P, v, sk, 1) == gap(cx, add(cx, gap(cx, P, v@[0].0), v@[0].1), v@[0].2) by { step_sep(cx, P, v, sk, 1); } } }
//@loop 0
    invariant cok(*cfg), sok(*state, buf@), st_same(*old(state), *state), cx == cxof(*cfg, buf@), f0 == old(f)@,
        sp_seps(*list_node) is Some, *items == sp_seps(*list_node)->Some_0.0, items@.len() > 0,
        is_ws(""@),
        forall|own: Seq<char>| #[trigger] sep_of(cx, sp_seps(*list_node)->Some_0.1, own) == (match sep_opt { Some(s) => s@, None => own }),
        forall|P: Acc| #[trigger] R(f0, P) ==> R(f@, add_sep(cx, P, *items, sp_seps(*list_node)->Some_0.1, i as int)),
//@loopbegin 0
    proof { let (v, sk) = sp_seps(*list_node)->Some_0;
        assert forall|P: Acc| #[trigger] add_sep(cx, P, v, sk, i + 1) == gap(cx, add(cx, gap(cx, push_t(add_sep(cx, P, v, sk, i as int), sep_of(cx, sk, v@[i - 1].3@)), v@[i as int].0), v@[i as int].1), v@[i as int].2) by { step_sep(cx, P, v, sk, i + 1); } }
//@end
//@fn src/formatting/list.rs cfg_write_list | as=cfg_write_list__Node_CommentLocHint inst=Hint:CommentLocHint params=f,cfg,buf,state,list_node
    requires cok(*cfg), sok(*old(state), buf@),
    ensures st_same(*old(state), *final(state)),
        r is Ok && sp_items(*list_node) is Some ==> forall|P: Acc| #[trigger] R(old(f)@, P) ==> R(final(f)@, add_list(cxof(*cfg, buf@), P, sp_items(*list_node)->Some_0, sp_items(*list_node)->Some_0@.len() as int)),
//@pre
    hide(add); hide(add_list);
    proof { lits(); }
    let ghost cx = cxof(*cfg, buf@);
    let ghost f0 = f@;
    proof { if sp_items(*list_node) is Some { let v = sp_items(*list_node)->Some_0;
        assert forall|P: Acc| v@.len() > 0 implies #[trigger] add_list(cx, P, v, 1) == add(cx, gap(cx, P, v@[0].0), v@[0].1) by { step_list(cx, P, v, 1); }
        assert forall|P: Acc| #[trigger] add_list(cx, P, v, 0) == P by { step_list(cx, P, v, 0); } } }
//@loop 0
    invariant cok(*cfg), sok(*state, buf@), st_same(*old(state), *state), cx == cxof(*cfg, buf@), f0 == old(f)@,
        sp_items(*list_node) is Some, *items == sp_items(*list_node)->Some_0, items@.len() > 0,
        is_ws(""@),
        forall|P: Acc| #[trigger] R(f0, P) ==> R(f@, add_list(cx, P, *items, i as int)),
//@loopbegin 0
    proof { let v = sp_items(*list_node)->Some_0;
        assert forall|P: Acc| #[trigger] add_list(cx, P, v, i + 1) == add(cx, gap(cx, add_list(cx, P, v, i as int), v@[i as int].0), v@[i as int].1) by { step_list(cx, P, v, i + 1); } }
//@end
//@fn src/formatting/list.rs cfg_write_list | as=cfg_write_list__CNode_SpaceLocHint inst=Hint:SpaceLocHint,Node:CNode params=f,cfg,buf,state,list_node
    requires cok(*cfg), csok(*old(state)), cwf(*list_node, buf@),
    ensures cst_same(*old(state), *final(state)),
        r is Ok && cidx(*old(state), buf@) && cp_items(*list_node) is Some ==> forall|P: Acc| #[trigger] RC(old(f)@, P) ==> RC(final(f)@, clist(cxof(*cfg, Seq::empty()), P, cp_items(*list_node)->Some_0, cp_items(*list_node)->Some_0@.len() as int)) && final(f)@[0] == old(f)@[0],
//@pre
//@if C02
    hide(cadd); hide(clist);
//@fi
    proof { lits(); }
    let ghost cx = cxof(*cfg, Seq::empty());
    let ghost f0 = f@;
    proof { if cp_items(*list_node) is Some { let v = cp_items(*list_node)->Some_0; assert forall|i: int| 0 <= i < v@.len() implies cgap_ok((#[trigger] v@[i]).0, buf@) && cwf(v@[i].1, buf@) by { lem_cwfs(v, buf@, v@.len() as int, i); }
        assert forall|P: Acc| v@.len() > 0 implies #[trigger] clist(cx, P, v, 1) == cadd(cx, P, v@[0].1) by { step_clist(cx, P, v, 1); }
        assert forall|P: Acc| #[trigger] clist(cx, P, v, 0) == P by { step_clist(cx, P, v, 0); } } }
//@loop 0
    invariant cok(*cfg), csok(*state), cst_same(*old(state), *state), cx == cxof(*cfg, Seq::empty()), f0 == old(f)@,
        cp_items(*list_node) is Some, *items == cp_items(*list_node)->Some_0, items@.len() > 0,
        is_ws(""@),
        forall|i: int| 0 <= i < items@.len() ==> cgap_ok((#[trigger] items@[i]).0, buf@) && cwf(items@[i].1, buf@),
        cidx(*old(state), buf@) ==> forall|P: Acc| #[trigger] RC(f0, P) ==> RC(f@, clist(cx, P, *items, i as int)) && f@[0] == f0[0],
//@loopbegin 0
    proof { let v = cp_items(*list_node)->Some_0;
        assert forall|P: Acc| #[trigger] clist(cx, P, v, i + 1) == cadd(cx, clist(cx, P, v, i as int), v@[i as int].1) by { step_clist(cx, P, v, i + 1); } }
//@end
//@arms src/parser/lua_ast.rs Node as ConfiguredWrite::configured_write | enum=Node params=f,cfg,buf,state arith=math
//@use W
//@armpre
    broadcast use empty_add;
    proof { lits(); lem_R_empty(); }
    let ghost cx = cxof(*cfg, buf@);
    proof { assert forall|P: Acc| #[trigger] cat(P, add(cx, e0(), *self)) == add(cx, P, *self) by { hom(cx, P, e0(), *self); cat_e0(P); } }
//@armpre TableConstructor
    proof { assert forall|P: Acc| #[trigger] gap(cx, P, Loc(0, 0)) == P by { lem_gap0(cx, P); } }
//@end
//@fn src/parser/comment_ast.rs Node as ListOfItems::items | enum=CNode inst=Node:CNode
    ensures match cp_items(*self) { Some(v) => r is Some && *r->Some_0 == v, None => r is None }
//@end
//@fn src/parser/comment_ast.rs Node as ListOfItems::need_newlines | enum=CNode inst=Node:CNode params=cfg
//@end
//@fn src/parser/comment_ast.rs Node as AnyListItem::list_item_prefix_hint | enum=CNode inst=Node:CNode params=cfg impl="<'a> CNode"
    requires cok(*cfg) ensures is_ws(r@)
//@pre
    proof { lits(); }
//@end
//@fn src/parser/comment_ast.rs Node as AnyListItem::need_newline | enum=CNode inst=Node:CNode params=prev,parent,f,cfg,buf,state impl=" CNode"
//@use CTST
//@end
//@fn src/parser/comment_ast.rs Node as AnyListItem::need_first_newline | enum=CNode inst=Node:CNode params=parent,f,cfg,buf,state impl=" CNode"
//@use CTST
//@end
//@arms src/parser/comment_ast.rs Node as ConfiguredWrite::configured_write | enum=CNode inst=Node:CNode params=f,cfg,buf,state impl=" CNode" arith=math methods=is_empty:v_empty
//@use CW
//@armpre
    broadcast use empty_add, cmt_facts;
    proof { lits(); cmt_lits(); }
    let ghost cx = cxof(*cfg, Seq::empty());
//@armpre VariantList
    proof { let v = self->VariantList_1; if v@.len() == 1 && v@[0].1 is NewLineList { assert forall|P: Acc| #[trigger] cadd(cx, P, *self) == P by { lem_only_nls(cx, P, v, buf@); } } }
//@end
fn main() {}
}
