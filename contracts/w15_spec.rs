// ---- nothing in the writers can panic: vocabulary
//@include w_idx.rs
//@include lok.rs
pub open spec fn st_same(a: State, b: State) -> bool { a.chars_to_bytes@ == b.chars_to_bytes@ }
pub open spec fn cst_same(a: State, b: State) -> bool { a.chars_to_bytes@ == b.chars_to_bytes@ && a.comment_offset == b.comment_offset }
pub open spec fn idx(a: State, s: Seq<char>) -> bool { idx_at(a.chars_to_bytes@, 0, s) }
pub open spec fn cidx(a: State, s: Seq<char>) -> bool { idx_at(a.chars_to_bytes@, a.comment_offset as int, s) }
/// the first character stays
pub open spec fn keep1(f: Seq<char>, f2: Seq<char>) -> bool { f.len() > 0 ==> f2.len() > 0 && f2[0] == f[0] }
pub broadcast proof fn keep1_app(f: Seq<char>, t: Seq<char>) ensures keep1(f, #[trigger] (f + t)) { }
pub broadcast proof fn keep1_pop(f: Seq<char>) requires f.len() > 1 ensures keep1(f, #[trigger] f.drop_last()) { }
//@include clok.rs
pub open spec fn sp_items(n: Node) -> Option<Vec<(Loc, Node)>> { match n { Node::StatementList(_, v) | Node::VarSuffixList(_, v) | Node::ElseIfThenVec(_, v) => Some(v), _ => None } }
pub open spec fn sp_seps(n: Node) -> Option<Vec<(Loc, Node, Loc, String)>> {
    match n { Node::ExpList(_, v) | Node::NameList(_, v) | Node::VarList(_, v) | Node::ParList(_, v) | Node::FuncName(_, v) | Node::FuncNameSelf(_, _, v, _) | Node::Fields(_, v, _) => Some(v), _ => None } }
pub proof fn lem_boff_mono(s: Seq<char>, a: int, b: int) requires 0 <= a <= b ensures boff(s, a) <= boff(s, b) decreases b { if a < b { lem_boff_mono(s, a, b - 1); } }
pub fn w_lit(f: &mut String, s: &str) -> (r: WR) ensures final(f)@ == old(f)@ + s@ { raw_str(f, s) }
pub fn w_ws(f: &mut String, s: &str) -> (r: WR) ensures final(f)@ == old(f)@ + s@ { raw_str(f, s) }
pub fn w_disp<T: Disp + ?Sized>(f: &mut String, x: &T) -> (r: WR) ensures final(f)@ == old(f)@ + x.d() { raw_disp(f, x) }

/// the widths below 2^31 that the property is stated for
pub open spec fn wok(c: Config) -> bool { c.fmt.max_width is Some ==> c.fmt.max_width->Some_0 < 0x8000_0000 }
pub axiom fn clen_ascii() ensures clen(' ') == 1, clen('\t') == 1;
pub broadcast proof fn keep1_boff(f: Seq<char>, g: Seq<char>) requires #[trigger] keep1(f, g), f.len() == 1 ensures boff(g, 1) == boff(f, 1), g.len() >= 1
{ reveal_with_fuel(boff, 2); }
/// more than one byte, the last of them a blank: more than one character
pub broadcast proof fn boff_one(f: Seq<char>) requires f.len() == 1, f[0] == ' ' || f[0] == '\t' ensures #[trigger] boff(f, f.len() as int) == 1
{ clen_ascii(); reveal_with_fuel(boff, 2); }
