// ---- what the writers promise when no option is set: vocabulary
pub enum SepKind { fields, comma, dot }
pub open spec fn long_str(level: int, s: Seq<char>) -> Seq<char> {
    "["@ + rep("="@, level) + "["@ + s + "]"@ + rep("="@, level) + "]"@
}
/// white space and comments, which the token in front does not swallow (defined in c16_lua.rs)
pub uninterp spec fn trivia(s: Seq<char>, a: int, b: int) -> bool;
/// the comment at the end of this white space ends with the text, not with its line (defined in c04_gap.rs)
pub uninterp spec fn openc(t: Seq<char>) -> bool;
//@include wf_gap.rs
//@include wf.rs
//@include w_idx.rs
/// what c04_gap.rs proves about white space and comments
pub axiom fn trivia_facts(s: Seq<char>, a: int, b: int) requires trivia(s, a, b), 0 <= a <= b <= s.len()
    ensures 0 < a < s.len() ==> !(s[a - 1] == '-' && s[a] == '-'), b < s.len() ==> !openc(s.subrange(a, b));
pub axiom fn openc_facts(t: Seq<char>) requires openc(t) ensures line_end(t);
//@include w_lend.rs
pub proof fn line_end_sub(s: Seq<char>, a: int) requires 0 <= a <= s.len(), line_end(s.skip(a)) ensures line_end(s)
{ let m = choose|m: int| 0 <= m <= s.skip(a).len() - 2 && #[trigger] mark(s.skip(a), m) && forall|i: int| m <= i < s.skip(a).len() ==> #[trigger] s.skip(a)[i] != '\n';
  assert(mark(s, a + m)); assert forall|i: int| a + m <= i < s.len() implies #[trigger] s[i] != '\n' by { assert(s.skip(a)[i - a] != '\n'); } }

//@include w04_t.rs
/// a token
pub broadcast proof fn T_push(f: Seq<char>, k: K, p: int, t: Seq<char>) requires #[trigger] T(f, k, p), tok_at(k.s, p, t) ensures T(#[trigger] (f + t), k, p + t.len())
{ reveal(T); let y = choose|y: Seq<char>| #[trigger] eqv(k.s.subrange(k.a, p), y) && (f == k.o + y || (p == k.s.len() && line_end(k.s) && f == k.o + y + "\n"@));
  let x = k.s.subrange(k.a, p); let n = p + t.len();
  eqv_push(x, y, t, t); assert(x + t =~= k.s.subrange(k.a, n)); 
  if f == k.o + y { assert(f + t =~= k.o + (y + t)); } else { assert(t.len() == 0); assert(f + t =~= f); assert(y + t =~= y); }
  if t.len() > 0 { assert(t.last() == k.s[n - 1]); } else { assert(f + t =~= f); } }
/// a gap, and the line end that a comment at the end of the text gets
pub proof fn T_gap(f: Seq<char>, k: K, p: int, q: int) requires T(f, k, p), gape(k.s, p, q)
    ensures T(f + k.s.subrange(p, q), k, q), p < q && openc(k.s.subrange(p, q)) ==> T(f + k.s.subrange(p, q) + "\n"@, k, q)
{ let t = k.s.subrange(p, q); T_push(f, k, p, t);
  if p < q && openc(t) {
    trivia_facts(k.s, p, q); assert(q == k.s.len()); openc_facts(t); assert(k.s.skip(p) =~= t); line_end_sub(k.s, p);
    reveal(T); let y = choose|y: Seq<char>| #[trigger] eqv(k.s.subrange(k.a, q), y) && (f + t == k.o + y || (q == k.s.len() && line_end(k.s) && f + t == k.o + y + "\n"@));
    if f + t == k.o + y + "\n"@ { 
      reveal_strlit("\n"); let m = choose|m: int| 0 <= m <= t.len() - 2 && #[trigger] mark(t, m) && forall|i: int| m <= i < t.len() ==> #[trigger] t[i] != '\n';
      assert(t.last() == (f + t).last()); assert((k.o + y + "\n"@).last() == '\n'); assert(t[t.len() - 1] != '\n'); assert(false); }
  } }
/// the `#!` line, which always gets a line end
pub proof fn T_bang(f: Seq<char>, k: K, p: int, t: Seq<char>, q: int)
    requires T(f, k, p), tok_at(k.s, p, t), bang(t),
        if q == p + t.len() { q == k.s.len() } else { q == p + t.len() + 1 && q <= k.s.len() && k.s[q - 1] == '\n' }
    ensures T(f + t + "\n"@, k, q)
{ T_push(f, k, p, t); reveal_strlit("\n");
  if q == p + t.len() { reveal(T); assert(mark(k.s, p)); assert forall|i: int| p <= i < k.s.len() implies #[trigger] k.s[i] != '\n' by { assert(k.s.subrange(p, q)[i - p] != '\n'); assert(t[i - p] != '\n'); } assert(line_end(k.s));
    let y = choose|y: Seq<char>| #[trigger] eqv(k.s.subrange(k.a, q), y) && (f + t == k.o + y || (q == k.s.len() && line_end(k.s) && f + t == k.o + y + "\n"@));
    if f + t == k.o + y + "\n"@ { assert((f + t).last() == t.last()); assert((k.o + y + "\n"@).last() == '\n'); assert(t[t.len() - 1] != '\n'); assert(false); }
  } else { assert(k.s.subrange(q - 1, q) =~= "\n"@); T_push(f + t, k, q - 1, "\n"@); } }
/// what a line break in front of `}` leaves of the gap g
pub open spec fn tabw(f: Seq<char>, f2: Seq<char>, g: Seq<char>) -> bool { exists|h: Seq<char>| #[trigger] norm(g, h) && f2 == f + h }
pub proof fn T_table(f: Seq<char>, k: K, p: int, f1: Seq<char>, f2: Seq<char>, g: Seq<char>, q: int)
    requires T(f, k, p), f1 == f + "{"@, tabw(f1, f2, g), has_nlc(g), tok_at(k.s, p, "{"@), p + 1 <= q, q < k.s.len(), g == k.s.subrange(p + 1, q), tok_at(k.s, q, "}"@)
    ensures T(f2 + "}"@, k, q + 1)
{ reveal(T); reveal_strlit("{"); reveal_strlit("}"); let h = choose|h: Seq<char>| #[trigger] norm(g, h) && f2 == f1 + h;
  let y = choose|y: Seq<char>| #[trigger] eqv(k.s.subrange(k.a, p), y) && (f == k.o + y || (p == k.s.len() && line_end(k.s) && f == k.o + y + "\n"@));
  let a = "{"@ + g + "}"@; let b = "{"@ + h + "}"@; assert(piece((a, b))); eqv_push(k.s.subrange(k.a, p), y, a, b);
  assert(k.s.subrange(q, q + 1)[0] == '}'); assert(k.s[q] == k.s.subrange(q, q + 1)[0]); assert(k.s.subrange(p, p + 1)[0] == '{');
  assert(k.s.subrange(k.a, p) + a =~= k.s.subrange(k.a, q + 1)); assert(f2 + "}"@ =~= k.o + (y + b)); }
pub broadcast proof fn T_to(f: Seq<char>, k: K, p: int) ensures #[trigger] T(f, k, p) ==> 0 <= p <= k.s.len() { reveal(T); }
/// the parts of a text
pub broadcast proof fn tok_split(s: Seq<char>, p: int, a: Seq<char>, b: Seq<char>) requires #[trigger] tok_at(s, p, a + b) ensures tok_at(s, p, a), tok_at(s, p + a.len(), b)
{ let t = a + b; assert(s.subrange(p, p + a.len()) =~= t.take(a.len() as int)); assert(t.take(a.len() as int) =~= a); assert(s.subrange(p + a.len(), p + a.len() + b.len()) =~= t.skip(a.len() as int)); assert(t.skip(a.len() as int) =~= b); }

pub open spec fn sp_items(n: Node) -> Option<Vec<(Loc, Node)>> {
    match n { Node::StatementList(_, v) | Node::VarSuffixList(_, v) | Node::ElseIfThenVec(_, v) => Some(v), _ => None }
}
pub open spec fn sp_seps(n: Node) -> Option<(Vec<(Loc, Node, Loc, String)>, SepKind)> {
    match n { Node::Fields(_, v, _) => Some((v, SepKind::fields)),
        Node::ExpList(_, v) | Node::NameList(_, v) | Node::VarList(_, v) | Node::ParList(_, v) => Some((v, SepKind::comma)),
        Node::FuncName(_, v) | Node::FuncNameSelf(_, _, v, _) => Some((v, SepKind::dot)), _ => None }
}
pub open spec fn lit_len() -> bool { true }
/// one way of writing is as good as another, here
pub fn w_lit(f: &mut String, s: &str) -> (r: WR) ensures final(f)@ == old(f)@ + s@ { raw_str(f, s) }
pub fn w_ws(f: &mut String, s: &str) -> (r: WR) ensures final(f)@ == old(f)@ + s@ { raw_str(f, s) }
pub fn w_disp<D: Disp + ?Sized>(f: &mut String, x: &D) -> (r: WR) ensures final(f)@ == old(f)@ + x.d() { raw_disp(f, x) }

//@include w04_none.rs
pub open spec fn sok(st: State, buf: Seq<char>) -> bool { st.pos_range is None && idx_at(st.chars_to_bytes@, 0, buf) }
pub open spec fn csok(st: State) -> bool { st.comment_pos_range is None }
pub open spec fn cidx(st: State, buf: Seq<char>) -> bool { idx_at(st.chars_to_bytes@, st.comment_offset as int, buf) }
pub open spec fn st_same(a: State, b: State) -> bool { a.chars_to_bytes@ == b.chars_to_bytes@ && a.pos_range == b.pos_range }
pub open spec fn cst_same(a: State, b: State) -> bool { st_same(a, b) && a.comment_pos_range == b.comment_pos_range && a.comment_offset == b.comment_offset }

// ---- comments
//@include w_cwt.rs
/// what is written for a comment tree, or a part of it
pub open spec fn ctext(n: CNode, s: Seq<char>) -> Seq<char> { s.subrange(csp(n).0, csp(n).1) + (if endnl(n) { "\n"@ } else { Seq::empty() }) }
pub open spec fn cp_items(n: CNode) -> Option<Vec<(Loc, CNode)>> {
    match n { CNode::VariantList(_, v) | CNode::CommentList(_, v) | CNode::NewLineList(_, v) => Some(v), _ => None }
}
/// `-` followed by a comment would be read as another comment
pub open spec fn dash(f: Seq<char>, b: Seq<char>) -> Seq<char> { if b.len() > 0 && b[0] == '-' && f.len() > 0 && f.last() == '-' { " "@ } else { Seq::empty() } }
/// a gap with the text g was written after f
pub open spec fn gapw(f: Seq<char>, f2: Seq<char>, g: Seq<char>) -> bool { f2 == f + dash(f, g) + g || (openc(g) && f2 == f + dash(f, g) + g + "\n"@) }
pub proof fn gapw_T(f: Seq<char>, f2: Seq<char>, k: K, p: int, q: int) requires T(f, k, p), gape(k.s, p, q), gapw(f, f2, k.s.subrange(p, q)) ensures T(f2, k, q)
{ let g = k.s.subrange(p, q); T_gap(f, k, p, q); T_to(f, k, p);
  if p < q { trivia_facts(k.s, p, q); reveal(T); assert(dash(f, g).len() == 0) by { if g[0] == '-' && f.len() > 0 && f.last() == '-' { assert(k.s[p] == g[0]); } } assert(f + dash(f, g) =~= f); }
  else { assert(g =~= Seq::empty()); assert(f + dash(f, g) =~= f); if openc(g) { openc_facts(g); } } }
// ---- what is proved from these, generated helpers
pub proof fn key_lits() ensures "'"@.len() == 1, "("@.len() == 1, ")"@.len() == 1, ","@.len() == 1, "."@.len() == 1, "..."@.len() == 3, ":"@.len() == 1, "::"@.len() == 2, ";"@.len() == 1, "="@.len() == 1, "["@.len() == 1, "\""@.len() == 1, "]"@.len() == 1, "break"@.len() == 5, "do"@.len() == 2, "else"@.len() == 4, "elseif"@.len() == 6, "end"@.len() == 3, "false"@.len() == 5, "for"@.len() == 3, "function"@.len() == 8, "goto"@.len() == 4, "if"@.len() == 2, "in"@.len() == 2, "local"@.len() == 5, "nil"@.len() == 3, "not"@.len() == 3, "repeat"@.len() == 6, "return"@.len() == 6, "then"@.len() == 4, "true"@.len() == 4, "until"@.len() == 5, "while"@.len() == 5, "{"@.len() == 1, "}"@.len() == 1
{ reveal_strlit("'"); reveal_strlit("("); reveal_strlit(")"); reveal_strlit(","); reveal_strlit("."); reveal_strlit("..."); reveal_strlit(":"); reveal_strlit("::"); reveal_strlit(";"); reveal_strlit("="); reveal_strlit("["); reveal_strlit("\""); reveal_strlit("]"); reveal_strlit("break"); reveal_strlit("do"); reveal_strlit("else"); reveal_strlit("elseif"); reveal_strlit("end"); reveal_strlit("false"); reveal_strlit("for"); reveal_strlit("function"); reveal_strlit("goto"); reveal_strlit("if"); reveal_strlit("in"); reveal_strlit("local"); reveal_strlit("nil"); reveal_strlit("not"); reveal_strlit("repeat"); reveal_strlit("return"); reveal_strlit("then"); reveal_strlit("true"); reveal_strlit("until"); reveal_strlit("while"); reveal_strlit("{"); reveal_strlit("}"); }
pub proof fn list_lits() ensures ""@ == Seq::<char>::empty(), "\n"@.len() == 1, "\n"@[0] == '\n', "{"@.len() == 1, "{"@[0] == '{', ","@.len() == 1, "."@.len() == 1, ";"@.len() == 1
{ reveal_strlit(""); reveal_strlit("\n"); reveal_strlit("{"); reveal_strlit(","); reveal_strlit("."); reveal_strlit(";"); assert(""@ =~= Seq::<char>::empty()); }
pub broadcast proof fn app_none(f: Seq<char>, t: Seq<char>) requires t.len() == 0 ensures #[trigger] (f + t) == f { assert(f + t =~= f); }
pub broadcast proof fn RC_first(c: char, x: Seq<char>) ensures boff(#[trigger] (Seq::<char>::empty().push(c) + x), 1) == clen(c), (Seq::<char>::empty().push(c) + x).subrange(1, (1 + x.len()) as int) == x, boff(Seq::<char>::empty().push(c), 1) == clen(c)
{ reveal_with_fuel(boff, 3); let t = Seq::<char>::empty().push(c) + x; assert(t[0] == c); assert(t.subrange(1, (1 + x.len()) as int) =~= x); }
pub proof fn gapw_of(f: Seq<char>, g: Seq<char>) ensures forall|b: Seq<char>| (b == g + Seq::<char>::empty() || (b == g + "\n"@ && openc(g))) ==> gapw(f, #[trigger] (f + dash(f, b) + b), g)
{ list_lits(); assert(g + Seq::<char>::empty() =~= g); let b = g + "\n"@;
  if openc(g) { if g.len() == 0 { assert(g =~= Seq::empty()); openc_facts(g); assert(false); } assert(b[0] == g[0]); assert(f + dash(f, b) + b =~= f + dash(f, g) + g + "\n"@); } }
pub proof fn gapw_empty(f: Seq<char>, f2: Seq<char>, g: Seq<char>) requires gapw(f, f2, g), g.len() == 0 ensures f2 == f
{ if openc(g) { openc_facts(g); assert(false); } assert(f + dash(f, g) + g =~= f); }
pub proof fn gapw_start(b: Seq<char>, g: Seq<char>) requires gapw(Seq::empty(), b, g), !openc(g) ensures b == g
{ assert(Seq::<char>::empty() + dash(Seq::empty(), g) + g =~= g); }
// ---- lists
pub proof fn wf_of_seps(n: Node, s: Seq<char>) requires wf(n, s), sp_seps(n) is Some
    ensures sp_seps(n)->Some_0.0@.len() > 0, wf_sep(sp_seps(n)->Some_0.0, s, sp_seps(n)->Some_0.1, sp_seps(n)->Some_0.0@.len() as int, sp(n).0)
{ match n { Node::Fields(a, b, c) => w_Fields(a, b, c, s), Node::ExpList(a, b) => w_ExpList(a, b, s), Node::NameList(a, b) => w_NameList(a, b, s), Node::VarList(a, b) => w_VarList(a, b, s), Node::ParList(a, b) => w_ParList(a, b, s), Node::FuncName(a, b) => w_FuncName(a, b, s), Node::FuncNameSelf(a, b, c, d) => w_FuncNameSelf(a, b, c, d, s), _ => {} } }
pub proof fn wf_of_list(n: Node, s: Seq<char>) requires wf(n, s), sp_items(n) is Some ensures wf_list(sp_items(n)->Some_0, s, sp_items(n)->Some_0@.len() as int, sp(n).0)
{ match n { Node::StatementList(a, b) => w_StatementList(a, b, s), Node::VarSuffixList(a, b) => w_VarSuffixList(a, b, s), Node::ElseIfThenVec(a, b) => w_ElseIfThenVec(a, b, s), _ => {} } }
// ---- comment lists
pub proof fn cwt_of_list(n: CNode, s: Seq<char>) requires cwt(n, s), cp_items(n) is Some
    ensures cwts(cp_items(n)->Some_0, s, cp_items(n)->Some_0@.len() as int, csp(n).0), 0 <= csp(n).0 <= csp(n).1 <= s.len(), clend(cp_items(n)->Some_0@, cp_items(n)->Some_0@.len() as int, csp(n).0) == csp(n).1, endnl(n) == endnls(cp_items(n)->Some_0, cp_items(n)->Some_0@.len() as int)
{ }
pub proof fn cwts_get(v: Vec<(Loc, CNode)>, s: Seq<char>, k: int, a: int, i: int) requires cwts(v, s, k, a), 0 <= i < k <= v@.len()
    ensures cwts(v, s, i, a), v@[i].0.0 == clend(v@, i, a), v@[i].0.0 <= v@[i].0.1, v@[i].0.1 == csp(v@[i].1).0, csp(v@[i].1).0 < csp(v@[i].1).1 <= s.len(), cwt(v@[i].1, s) decreases k
{ if i < k - 1 { cwts_get(v, s, k - 1, a, i); } }
/// only what the text ends can end without its line
pub proof fn cend_nl(n: CNode, s: Seq<char>) requires cwt(n, s), endnl(n) ensures csp(n).1 == s.len() decreases n
{ if cp_items(n) is Some { cwt_of_list(n, s); let v = cp_items(n)->Some_0; if v@.len() > 0 { cends_nl(v, s, v@.len() as int, csp(n).0); } else { assert(!endnls(v, 0)); } }
  match n {
    CNode::OneLineComment(l, t) => { list_lits(); reveal_strlit("--"); assert(s.subrange(l.0 as int, l.1 as int).len() == l.1 - l.0); } _ => {} } }
pub proof fn cends_nl(v: Vec<(Loc, CNode)>, s: Seq<char>, k: int, a: int) requires cwts(v, s, k, a), endnls(v, k), 0 < k <= v@.len() ensures csp(v@[k - 1].1).1 == s.len() decreases v, 0int
{ assert(cwt(v@[k - 1].1, s) && endnl(v@[k - 1].1)); cend_nl(v@[k - 1].1, s); }
pub open spec fn csum(f: Seq<char>, s: Seq<char>, v: Vec<(Loc, CNode)>, a: int, i: int) -> Seq<char> { f + s.subrange(a, clend(v@, i, a)) + (if endnls(v, i) { "\n"@ } else { Seq::empty() }) }
pub proof fn csum_step(f: Seq<char>, s: Seq<char>, v: Vec<(Loc, CNode)>, a: int, i: int) requires cwts(v, s, v@.len() as int, a), 0 <= a <= s.len(), 0 <= i < v@.len()
    ensures lvalid(v@[i].0, s), cwt(v@[i].1, s), csum(f, s, v, a, i) + lsub(v@[i].0, s) + ctext(v@[i].1, s) == csum(f, s, v, a, i + 1)
{ cwts_get(v, s, v@.len() as int, a, i); csum_a(s, v, a, i); if i > 0 { cwts_get(v, s, v@.len() as int, a, i - 1); if endnls(v, i) { cends_nl(v, s, i, a); } }
  let x = clend(v@, i, a); let y = csp(v@[i].1).0; let z = csp(v@[i].1).1;
  assert(csum(f, s, v, a, i) =~= f + s.subrange(a, x));
  let e = if endnl(v@[i].1) { "\n"@ } else { Seq::<char>::empty() };
  assert(s.subrange(a, x) + s.subrange(x, y) + s.subrange(y, z) =~= s.subrange(a, z));
  assert(f + s.subrange(a, x) + s.subrange(x, y) + (s.subrange(y, z) + e) =~= f + (s.subrange(a, x) + s.subrange(x, y) + s.subrange(y, z)) + e); }
pub proof fn csum_a(s: Seq<char>, v: Vec<(Loc, CNode)>, a: int, i: int) requires cwts(v, s, v@.len() as int, a), 0 <= a <= s.len(), 0 <= i <= v@.len() ensures a <= clend(v@, i, a) <= s.len() decreases i
{ if i > 0 { csum_a(s, v, a, i - 1); cwts_get(v, s, v@.len() as int, a, i - 1); } }
pub proof fn csum_ends(f: Seq<char>, s: Seq<char>, n: CNode) requires cwt(n, s), cp_items(n) is Some
    ensures csum(f, s, cp_items(n)->Some_0, csp(n).0, 0) == f, csum(f, s, cp_items(n)->Some_0, csp(n).0, cp_items(n)->Some_0@.len() as int) == f + ctext(n, s)
{ cwt_of_list(n, s); let v = cp_items(n)->Some_0; let a = csp(n).0; assert(csum(f, s, v, a, 0) =~= f); assert(csum(f, s, v, a, v@.len() as int) =~= f + ctext(n, s)); }
/// what each kind of comment node is written from
pub open spec fn cparts(n: CNode, s: Seq<char>, f: Seq<char>) -> bool {
    match n {
        CNode::Chunk(a, c, b) => lvalid(a, s) && lvalid(b, s) && cwt(*c, s) && f + lsub(a, s) + ctext(*c, s) + lsub(b, s) == f + ctext(n, s),
        CNode::OneLineComment(_, t) => f + "--"@ + t@ + "\n"@ == f + ctext(n, s),
        CNode::MultiLineComment(_, k, t) => f + "--["@ + rep("="@, k as int) + "["@ + t@ + "]"@ + rep("="@, k as int) + "]"@ == f + ctext(n, s),
        CNode::NewLine(_) => f + "\n"@ == f + ctext(n, s),
        _ => true,
    }
}
pub proof fn ctext_parts(n: CNode, s: Seq<char>, f: Seq<char>) requires cwt(n, s) ensures cparts(n, s, f)
{ list_lits(); reveal_strlit("--");
  match n {
    CNode::Chunk(a, c, b) => { if endnl(*c) { cend_nl(*c, s); } csp_le(*c, s);
        assert(f + lsub(a, s) + ctext(*c, s) + lsub(b, s) =~= f + ctext(n, s)); }
    CNode::OneLineComment(l, t) => { let x = s.subrange(l.0 as int, l.1 as int); assert(x.len() == l.1 - l.0); 
        if x == "--"@ + t@ + "\n"@ { assert(!endnl(n)); assert(f + "--"@ + t@ + "\n"@ =~= f + (x + Seq::<char>::empty())); } else { assert(endnl(n)); assert(f + "--"@ + t@ + "\n"@ =~= f + (x + "\n"@)); } }
    CNode::MultiLineComment(l, k, t) => { assert(f + "--["@ + rep("="@, k as int) + "["@ + t@ + "]"@ + rep("="@, k as int) + "]"@ =~= f + (mlc(k as int, t@) + Seq::<char>::empty())); }
    CNode::NewLine(_) => { assert("\n"@ + Seq::<char>::empty() =~= "\n"@); }
    _ => {}
  } }
pub proof fn csp_le(n: CNode, s: Seq<char>) requires cwt(n, s) ensures 0 <= csp(n).0 <= csp(n).1 <= s.len() decreases n { if let CNode::Chunk(_, c, _) = n { csp_le(*c, s); } }
