// ---- what the writers promise about indentation: vocabulary
pub open spec fn lab(x: Option<&'static str>) -> Option<Seq<char>> { match x { Some(s) => Some(s@), None => None } }
/// the innermost label, if there is one
pub type Lab = Option<Option<Seq<char>>>;
pub open spec fn top_of(s: Seq<Option<&'static str>>) -> Lab { if s.len() == 0 { None } else { Some(lab(s.last())) } }
pub open spec fn top(st: State) -> Lab { top_of(st.stack_indent@) }
pub open spec fn inner() -> Lab { Some(None) }
/// levels that a label adds on top of others
pub open spec fn step(t: Lab, x: Option<Seq<char>>) -> int { if x is None || t != Some(x) { 1 } else { 0 } }
pub open spec fn lv_op(l: int, t: Lab, tok: Seq<char>) -> int { l + step(t, Some(tok)) }
/// a line was broken at gap loc (cm: within a comment block), the new one indented by lvl
pub struct Ev { pub cm: bool, pub loc: Loc, pub lvl: int }
pub open spec fn lv_gap(g: Loc, l: int, e: Ev) -> bool { e.lvl == l && (e.cm || e.loc == g) }
//@include levels.rs
/// what every construct leaves as it was
pub open spec fn ist(a: State, b: State) -> bool {
    &&& a.indent_level == b.indent_level && a.stack_indent@ == b.stack_indent@
    &&& a.function_nested_level == b.function_nested_level && a.block_nested_level == b.block_nested_level
    &&& a.pos_range == b.pos_range
}
/// new breaks: none but those that p allows
pub open spec fn indent_text(c: Config, l: int) -> Seq<char> { match c.fmt.indentation_string { Some(s) => rep(s@, l), None => Seq::empty() } }
/// s ends in a line that holds nothing but ind
pub open spec fn broken(s: Seq<char>, ind: Seq<char>) -> bool { exists|p: Seq<char>| p.len() > 0 && p.last() == '\n' && s == #[trigger] (p + ind) }
pub broadcast proof fn push_pop(s: Seq<Option<&'static str>>, x: Option<&'static str>) ensures (#[trigger] s.push(x)).drop_last() == s { assert(s.push(x).drop_last() =~= s); }
pub proof fn lits() ensures "\n"@.len() == 1, "\n"@[0] == '\n' { reveal_strlit("\n"); }
pub open spec fn sp_items(n: Node) -> Option<Vec<(Loc, Node)>> {
    match n { Node::StatementList(_, v) | Node::VarSuffixList(_, v) | Node::ElseIfThenVec(_, v) => Some(v), _ => None }
}
pub open spec fn sp_seps(n: Node) -> Option<Vec<(Loc, Node, Loc, String)>> {
    match n { Node::Fields(_, v, _) | Node::ExpList(_, v) | Node::NameList(_, v) | Node::VarList(_, v) | Node::ParList(_, v) | Node::FuncName(_, v) | Node::FuncNameSelf(_, _, v, _) => Some(v), _ => None }
}
pub proof fn step_lv_sep(v: Vec<(Loc, Node, Loc, String)>, k: int, l: int, t: Lab, e: Ev)
    ensures lv_sep(v, 0, l, t, e) == false,
        0 < k <= v@.len() ==> lv_sep(v, k, l, t, e) == (lv_sep(v, k - 1, l, t, e) || lv_gap(v@[k - 1].0, l, e) || lv(v@[k - 1].1, l, t, e) || lv_gap(v@[k - 1].2, l, e)) { }
pub proof fn step_lv_list(v: Vec<(Loc, Node)>, k: int, l: int, t: Lab, e: Ev)
    ensures lv_list(v, 0, l, t, e) == false,
        0 < k <= v@.len() ==> lv_list(v, k, l, t, e) == (lv_list(v, k - 1, l, t, e) || lv_gap(v@[k - 1].0, l, e) || lv(v@[k - 1].1, l, t, e)) { }
/// one way of writing is as good as another, here
pub fn w_lit(f: &mut String, s: &str) -> (r: WR) ensures final(f)@ == old(f)@ + s@ { raw_str(f, s) }
pub fn w_ws(f: &mut String, s: &str) -> (r: WR) ensures final(f)@ == old(f)@ + s@ { raw_str(f, s) }
pub fn w_disp<T: Disp + ?Sized>(f: &mut String, x: &T) -> (r: WR) ensures final(f)@ == old(f)@ + x.d() { raw_disp(f, x) }
