// ---- what the writers promise: vocabulary
pub mod th {
use vstd::prelude::*;
//@include s_theory.rs
}
pub use th::*;

/// the part of the configuration (and the source) that decides what is written, white space aside
pub struct Cx { pub buf: Seq<char>, pub sep: Option<Seq<char>>, pub rc: Option<bool>, pub ho: Option<Seq<char>>, pub hmb: Option<Seq<char>>, pub hma: Option<Seq<char>> }
/// comments do not depend on the source
pub open spec fn nb(cx: Cx) -> Cx { Cx { buf: Seq::empty(), ..cx } }
pub open spec fn ov(s: Option<String>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
pub open spec fn cxof(c: Config, buf: Seq<char>) -> Cx {
    Cx { buf, sep: ov(c.fmt.field_separator), rc: c.fmt.remove_comments, ho: ov(c.fmt.hint_before_oneline_comment_text),
        hmb: ov(c.fmt.hint_before_multiline_comment_text), hma: ov(c.fmt.hint_after_multiline_comment_text) }
}
pub open spec fn ows(s: Option<String>) -> bool { match s { Some(x) => is_ws(x@), None => true } }
/// the configurations the statement is about: hints and indentation are white space
pub open spec fn cok(c: Config) -> bool {
    &&& ows(c.fmt.hint_before_comment) && ows(c.fmt.hint_after_multiline_comment) && ows(c.fmt.hint_table_constructor) && ows(c.fmt.indentation_string)
    &&& match c.fmt.hint_before_oneline_comment_text { Some(x) => no_nl(x@), None => true }
}
//@include w_idx.rs
pub open spec fn sok(st: State, buf: Seq<char>) -> bool { st.pos_range is None && idx_at(st.chars_to_bytes@, 0, buf) }
pub open spec fn csok(st: State) -> bool { st.comment_pos_range is None }
pub open spec fn cidx(st: State, buf: Seq<char>) -> bool { idx_at(st.chars_to_bytes@, st.comment_offset as int, buf) }
/// what every writer leaves as it was
pub open spec fn st_same(a: State, b: State) -> bool {
    &&& a.chars_to_bytes@ == b.chars_to_bytes@ && a.pos_range == b.pos_range
}
pub open spec fn cst_same(a: State, b: State) -> bool {
    &&& st_same(a, b) && a.comment_pos_range == b.comment_pos_range && a.comment_offset == b.comment_offset
}
// ---- comments
/// what parse_comment promises about its result (trusted: the comment grammar)
//@include w_cwf.rs
pub proof fn lem_cwfs(v: Vec<(Loc, CNode)>, s: Seq<char>, k: int, i: int)
    requires cwfs(v, s, k), 0 <= i < k <= v@.len()
    ensures cgap_ok(v@[i].0, s), cwf(v@[i].1, s)
    decreases k
{ if i < k - 1 { lem_cwfs(v, s, k - 1, i); } }

//@if C01
pub open spec fn cadd(cx: Cx, P: Acc, n: CNode) -> Acc { P }
pub open spec fn clist(cx: Cx, P: Acc, v: Vec<(Loc, CNode)>, k: int) -> Acc { P }
pub open spec fn gacc(cx: Cx, l: Loc) -> Acc { if lvalid(l, cx.buf) { e0() } else { Acc::Bad } }
pub proof fn lem_gap0(cx: Cx, P: Acc) ensures gap(cx, P, Loc(0, 0)) == P { cat_e0(P); }
//@fi
//@if C02
pub open spec fn c1_text(cx: Cx, t: Seq<char>) -> Seq<char> {
    match cx.ho { None => "--"@ + t + "\n"@, Some(p) => if trim_l(t).len() == 0 { "--\n"@ } else { "--"@ + p + trim_l(t) + "\n"@ } }
}
pub open spec fn c2_text(cx: Cx, level: int, t: Seq<char>) -> Seq<char> {
    let q = "--["@ + rep("="@, level) + "["@;
    let m = match (cx.hmb, cx.hma) { (None, None) => q + t, (Some(p), None) => q + p + trim_l(t), (None, Some(s)) => q + trim_r(t) + s, (Some(p), Some(s)) => q + p + trim_both(t) + s };
    m + "]"@ + rep("="@, level) + "]"@
}
pub open spec fn cadd(cx: Cx, P: Acc, n: CNode) -> Acc decreases n {
    match n {
        CNode::OneLineComment(_, t) => if cx.rc == Some(true) { P } else { push_c(P, c1_text(cx, t@)) },
        CNode::MultiLineComment(_, level, t) => if cx.rc == Some(true) { P } else { push_c(P, c2_text(cx, level as int, t@)) },
        CNode::NewLine(_) => P,
        CNode::VariantList(_, v) | CNode::CommentList(_, v) | CNode::NewLineList(_, v) => clist(cx, P, v, v@.len() as int),
        CNode::Chunk(_, c, _) => cadd(cx, P, *c),
    }
}
pub open spec fn clist(cx: Cx, P: Acc, v: Vec<(Loc, CNode)>, k: int) -> Acc decreases v, k {
    if k <= 0 || k > v@.len() { P } else { cadd(cx, clist(cx, P, v, k - 1), v@[k - 1].1) }
}
/// the tree parse_comment builds for a text
pub uninterp spec fn ctree(s: Seq<char>) -> CNode;
pub open spec fn gacc(cx: Cx, l: Loc) -> Acc { if lvalid(l, cx.buf) { cadd(nb(cx), e0(), ctree(lsub(l, cx.buf))) } else { Acc::Bad } }
/// there is no comment in an empty text (trusted: the comment grammar)
pub axiom fn ctree_empty(cx: Cx) ensures cadd(nb(cx), e0(), ctree(Seq::empty())) == e0();
pub proof fn lem_gap0(cx: Cx, P: Acc) ensures gap(cx, P, Loc(0, 0)) == P { cat_e0(P); assert(cx.buf.subrange(0, 0) =~= Seq::empty()); ctree_empty(cx); }
//@fi
pub open spec fn gap(cx: Cx, P: Acc, l: Loc) -> Acc { cat(P, gacc(cx, l)) }
pub proof fn cat_gap(cx: Cx, a: Acc, b: Acc, l: Loc) ensures gap(cx, cat(a, b), l) == cat(a, gap(cx, b, l)) { cat_assoc(a, b, gacc(cx, l)); }
/// comment text is assembled after one leading character
pub open spec fn RC(s: Seq<char>, P: Acc) -> bool { s.len() > 0 && R(s.skip(1), P) }
//@include shapes.rs
pub open spec fn sp_items(n: Node) -> Option<Vec<(Loc, Node)>> {
    match n { Node::StatementList(_, v) | Node::VarSuffixList(_, v) | Node::ElseIfThenVec(_, v) => Some(v), _ => None }
}
pub open spec fn sp_seps(n: Node) -> Option<(Vec<(Loc, Node, Loc, String)>, SepKind)> {
    match n { Node::Fields(_, v, _) => Some((v, SepKind::fields)),
        Node::ExpList(_, v) | Node::NameList(_, v) | Node::VarList(_, v) | Node::ParList(_, v) => Some((v, SepKind::comma)),
        Node::FuncName(_, v) | Node::FuncNameSelf(_, _, v, _) => Some((v, SepKind::dot)), _ => None }
}
pub open spec fn cp_items(n: CNode) -> Option<Vec<(Loc, CNode)>> {
    match n { CNode::VariantList(_, v) | CNode::CommentList(_, v) | CNode::NewLineList(_, v) => Some(v), _ => None }
}
/// the literals that are used as white space
pub proof fn lits() ensures is_ws(" "@), is_ws(""@), is_ws("\n"@), " "@.len() == 1, "\n"@.len() == 1, "\n"@[0] == '\n', " "@[0] == ' ', ""@ =~= Seq::<char>::empty() {
    reveal_strlit(" "); reveal_strlit("\n"); reveal_strlit("");
}
pub broadcast proof fn empty_add(s: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + s) == s { assert(Seq::<char>::empty() + s =~= s); }
/// one byte for the ASCII characters (trusted: UTF-8)
pub axiom fn clen_ascii() ensures clen(' ') == 1, clen('\t') == 1;
pub proof fn lem_RC_app(s: Seq<char>, t: Seq<char>) requires s.len() > 0 ensures (s + t).skip(1) == s.skip(1) + t, (s + t)[0] == s[0] { assert((s + t).skip(1) =~= s.skip(1) + t); }
pub proof fn lem_rep_ws(s: Seq<char>, n: int) requires is_ws(s) ensures is_ws(rep(s, n)) decreases n {
    if n > 0 { lem_rep_ws(s, n - 1); let a = rep(s, n - 1); let b = rep(s, n);
        assert forall|i: int| 0 <= i < b.len() implies ws_ch(#[trigger] b[i]) by { if i < a.len() { assert(b[i] == a[i]); } else { assert(b[i] == s[i - a.len()]); } } }
}
/// the first character as a prefix
pub broadcast proof fn RC_first(t: Seq<char>, P: Acc) ensures #[trigger] RC(t, P) ==> boff(t, 1) == clen(t[0]) { reveal_with_fuel(boff, 3); }
pub broadcast proof fn one_char(c: char) ensures (#[trigger] Seq::<char>::empty().push(c)).skip(1) == Seq::<char>::empty(), boff(Seq::<char>::empty().push(c), 1) == clen(c), RC(Seq::<char>::empty().push(c), e0()) {
    lem_R_empty();
    reveal_with_fuel(boff, 3); assert(Seq::<char>::empty().push(c).skip(1) =~= Seq::<char>::empty());
}

/// one space or tab less at the end
pub broadcast proof fn R_pop(s: Seq<char>, P: Acc) ensures #![trigger R(s, P), s.drop_last()] R(s, P) && s.len() > 0 && trimmed_ch(s.last()) ==> R(s.drop_last(), P) {
    if R(s, P) && s.len() > 0 && trimmed_ch(s.last()) { lem_R_trim(s, P); }
}
pub broadcast proof fn RC_pop(s: Seq<char>, P: Acc) ensures #![trigger RC(s, P), s.drop_last()] RC(s, P) && s.len() > 1 && trimmed_ch(s.last()) ==> RC(s.drop_last(), P) && s.drop_last()[0] == s[0] {
    if RC(s, P) && s.len() > 1 && trimmed_ch(s.last()) { lem_R_trim(s.skip(1), P); assert(s.drop_last().skip(1) =~= s.skip(1).drop_last()); }
}
/// nothing there, hence nothing to add
pub broadcast proof fn gap_none(cx: Cx, s: Seq<char>, P: Acc, l: Loc) ensures #![trigger R(s, P), gap(cx, P, l)] R(s, P) && R(Seq::empty(), gacc(cx, l)) ==> R(s, gap(cx, P, l)) {
    if R(s, P) && R(Seq::empty(), gacc(cx, l)) { lem_R_cat(s, Seq::empty(), P, gacc(cx, l)); assert(s + Seq::<char>::empty() =~= s); }
}
pub proof fn ws_take(s: Seq<char>, n: int) requires is_ws(s), 0 <= n <= s.len() ensures is_ws(s.take(n)) {
    assert forall|i: int| 0 <= i < n implies ws_ch(#[trigger] s.take(n)[i]) by { assert(s.take(n)[i] == s[i]); }
}
pub broadcast proof fn R_zero(s: Seq<char>, P: Acc) ensures #[trigger] R(s, P) && s.len() == 0 ==> s == Seq::<char>::empty() { if s.len() == 0 { assert(s =~= Seq::empty()); } }
pub broadcast group nl_facts { R_zero, R_pop, RC_pop, gap_none, RC_first, empty_add, cat_bad, R_bad }

// one step of each list
pub proof fn step_list(cx: Cx, P: Acc, v: Vec<(Loc, Node)>, k: int)
    ensures add_list(cx, P, v, 0) == P, 0 < k <= v@.len() ==> add_list(cx, P, v, k) == add(cx, gap(cx, add_list(cx, P, v, k - 1), v@[k - 1].0), v@[k - 1].1) { }
pub proof fn step_sep(cx: Cx, P: Acc, v: Vec<(Loc, Node, Loc, String)>, sk: SepKind, k: int)
    ensures add_sep(cx, P, v, sk, 0) == P,
        0 < k <= v@.len() ==> add_sep(cx, P, v, sk, k) == ({ let q = if k == 1 { P } else { push_t(add_sep(cx, P, v, sk, k - 1), sep_of(cx, sk, v@[k - 2].3@)) };
            gap(cx, add(cx, gap(cx, q, v@[k - 1].0), v@[k - 1].1), v@[k - 1].2) }) { }

/// the optional text, left out
pub broadcast proof fn o_none(s: Seq<char>, P: Acc, alt: Seq<char>) ensures #![trigger R(s, P), push_o(P, alt)] R(s, P) ==> R(s, push_o(P, alt)) {
    if R(s, P) { lem_R_o(s, Seq::empty(), P, alt); assert(s + Seq::<char>::empty() =~= s); }
}

pub proof fn step_seps(cx: Cx, P: Acc, v: Vec<(Loc, Node, Loc, String)>, k: SepKind)
    ensures add_seps(cx, P, v, k) == (if v@.len() == 0 { P } else { let q = add_sep(cx, P, v, k, v@.len() as int); if k is fields { push_o(q, sep_of(cx, k, v@[v@.len() - 1].3@)) } else { q } }) { }

// comment texts
pub broadcast proof fn no_nl_add(a: Seq<char>, b: Seq<char>) ensures no_nl(a) && no_nl(b) ==> #[trigger] no_nl(a + b) {
    if no_nl(a) && no_nl(b) { let c = a + b; assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] != '\n' by { if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); } } }
}
pub broadcast proof fn cmt_one(x: Seq<char>) ensures x.len() >= 2 && x[0] == '-' && x[1] == '-' && no_nl(x) ==> #[trigger] is_cmt(x + "\n"@) {
    reveal_strlit("\n"); assert((x + "\n"@).drop_last() =~= x);
}
pub broadcast proof fn cmt_multi(x: Seq<char>) ensures x.len() >= 3 && x[0] == '-' && x[1] == '-' && x[2] == '[' ==> #[trigger] is_cmt(x + "]"@) { reveal_strlit("]"); }
pub broadcast proof fn trim_no_nl(s: Seq<char>) ensures no_nl(s) ==> #[trigger] no_nl(trim_l(s)) {
    trim_sub(s); if no_nl(s) { let t = trim_l(s); assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != '\n' by { assert(t[i] == s[i + s.len() - t.len()]); } }
}
/// str::trim_start gives an end of the text (trusted: standard library)
pub axiom fn trim_sub(s: Seq<char>) ensures trim_l(s).len() <= s.len(), trim_l(s) == s.skip(s.len() - trim_l(s).len());
pub broadcast group cmt_facts { no_nl_add, cmt_one, cmt_multi, trim_no_nl }
pub proof fn cmt_lits() ensures "--"@.len() == 2, "--"@[0] == '-', "--"@[1] == '-', no_nl("--"@), "--["@.len() == 3, "--["@[0] == '-', "--["@[1] == '-', "--["@[2] == '[', is_cmt("--\n"@) {
    reveal_strlit("--"); reveal_strlit("--["); reveal_strlit("--\n"); reveal_strlit("\n"); assert("--\n"@ =~= "--"@ + "\n"@); cmt_one("--"@);
}

pub proof fn step_clist(cx: Cx, P: Acc, v: Vec<(Loc, CNode)>, k: int)
    ensures clist(cx, P, v, 0) == P, 0 < k <= v@.len() ==> clist(cx, P, v, k) == cadd(cx, clist(cx, P, v, k - 1), v@[k - 1].1) { }
/// line breaks add nothing
pub proof fn lem_nls(cx: Cx, P: Acc, v: Vec<(Loc, CNode)>, k: int)
    requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).1 is NewLine
    ensures clist(cx, P, v, k) == P decreases k
{ step_clist(cx, P, v, k); if k > 0 { lem_nls(cx, P, v, k - 1); } }
/// a variant list that holds nothing but a list of line breaks
pub proof fn lem_only_nls(cx: Cx, P: Acc, v: Vec<(Loc, CNode)>, s: Seq<char>)
    requires cwfs(v, s, v@.len() as int), v@.len() == 1, v@[0].1 is NewLineList
    ensures clist(cx, P, v, 1) == P
{
    lem_cwfs(v, s, 1, 0); let w = v@[0].1->NewLineList_1;
    step_clist(cx, P, v, 1); lem_nls(cx, P, w, w@.len() as int); assert(cwf(v@[0].1, s));
}
