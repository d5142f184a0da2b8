// C16: the productions of the Lua grammar
#![allow(non_snake_case, non_camel_case_types, unused, dead_code)]
use vstd::prelude::*;
verus! {
//@modules crate parser fmt std common lua_ast lua_lexer lua_syntax
//@include std_shim.rs
//@include lex_shim.rs
//@include lex_spec.rs
//@include c16_shim.rs
//@enum Token src/parser/lua_lexer.rs Token
//@type src/parser/lua_lexer.rs Token
//@include lex_pred.rs
//@include c06_tok.rs
//@typemap Cell<bool> => CellB
//@typemap Cell::new => CellB::new
//@typemap fmt::Formatter => String
//@typemap fmt::Result => Result<(), FErr>
//@methods to_string=v_to_string
//@type src/parser/common.rs Loc
//@type src/parser/common.rs Str
//@type src/parser/lua_ast.rs TableConstructorOpts
//@type src/parser/lua_ast.rs FieldsOpts
//@type src/parser/lua_ast.rs Node
//@include lex_gap.rs
//@include lex_trivia.rs
//@include wf_gap.rs
/// the lexer's promise (C06) about two neighbours is what the productions below expect of their symbols
pub proof fn trivia_after(s: Seq<char>, l: int, t: Token, a: int, b: int) requires 0 <= l < a <= s.len(), tok(s, l, t, a), skip(s, a, b), a < b ensures trivia(s, a, b)
{ reveal(trivia); broadcast use g_lex;
  if a < s.len() && s[a - 1] == '-' { 
    assert(!cls(DIGIT(), '-') && !cls(HEX(), '-') && !cls(DIGDOT(), '-') && !cls(WORD(), '-'));
    if l + 1 <= s.len() { run_of(s, l + 1, DIGDOT()); }
    if l + 2 <= s.len() { run_of(s, l + 2, HEX()); run_of(s, l + 2, LINE()); }
    let m = run_end(s, l + 1, DIGDOT());
    if m + 1 <= s.len() { run_of(s, m + 1, DIGIT()); } if m + 2 <= s.len() { run_of(s, m + 2, DIGIT()); }
    assert(cls(0, s[a - 1]) || cls(1, s[a - 1]) || cls(2, s[a - 1]) || cls(3, s[a - 1]) || t is Minus || t is SheBang);
  } }
pub proof fn trivia_first(s: Seq<char>, b: int) requires skip(s, 0, b) ensures trivia(s, 0, b) { reveal(trivia); }
pub enum SepKind { fields, comma, dot }
pub open spec fn long_str(level: int, s: Seq<char>) -> Seq<char> {
    "["@ + rep("="@, level) + "["@ + s + "]"@ + rep("="@, level) + "]"@
}
//@include wf.rs
//@fn src/parser/lua_ast.rs TableConstructorOpts::default | as=TableConstructorOpts::default
//@end
//@fn src/parser/lua_ast.rs FieldsOpts::default | as=FieldsOpts::default
//@end
//@fn src/parser/lua_lexer.rs Token as Display::fmt | as=Token::disp params=f enum=Token
    ensures r is Ok, (self is Comma ==> final(f)@ == old(f)@ + ","@) && (self is Semicolon ==> final(f)@ == old(f)@ + ";"@) && (self is Period ==> final(f)@ == old(f)@ + "."@),
//@end
impl ToS for Token {
    open spec fn ts(&self, r: Seq<char>) -> bool { (self is Comma ==> r == ","@) && (self is Semicolon ==> r == ";"@) && (self is Period ==> r == "."@) }
    fn v_to_string(&self) -> (r: String) { let mut f = string_new(); let _ = self.disp(&mut f); proof { assert(Seq::<char>::empty() + ","@ =~= ","@); assert(Seq::<char>::empty() + ";"@ =~= ";"@); assert(Seq::<char>::empty() + "."@ =~= "."@); } f }
}
// ---- the ways lists grow
pub broadcast proof fn b_list2(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int)
    requires 0 <= k <= 2, k <= v@.len(), k > 0 ==> list_item(v@, s, 0, a), k > 1 ==> list_item(v@, s, 1, a) ensures #[trigger] wf_list(v, s, k, a)
{ assert forall|i: int| 0 <= i < k implies #[trigger] list_item(v@, s, i, a) by { if i > 0 { assert(i == 1); } } list_of(v, s, k, a); }
pub broadcast proof fn b_list_push(w: Vec<(Loc, Node)>, v: Vec<(Loc, Node)>, s: Seq<char>, k: int, j: int, a: int)
    requires #[trigger] wf_list(v, s, j, a), j == v@.len(), k == j + 1 == w@.len(), forall|i: int| 0 <= i < j ==> w@[i] == #[trigger] v@[i], list_item(w@, s, j, a) ensures #[trigger] wf_list(w, s, k, a)
{ assert forall|i: int| 0 <= i < k implies #[trigger] list_item(w@, s, i, a) by { if i < j { list_get(v, s, j, a, i); assert(w@[i] == v@[i]); if i > 0 { assert(w@[i - 1] == v@[i - 1]); } } } list_of(w, s, k, a); }
pub broadcast proof fn b_list_ins(w: Vec<(Loc, Node)>, v: Vec<(Loc, Node)>, s: Seq<char>, k: int, j: int, a: int, b: int)
    requires #[trigger] wf_list(v, s, j, b), j == v@.len(), j > 0, k == j + 1 == w@.len(), list_item(w@, s, 0, a),
        w@[1].0.0 == sp(w@[0].1).1, gap(s, w@[1].0.0 as int, w@[1].0.1 as int), w@[1].0.1 == sp(v@[0].1).0, w@[1].1 == v@[0].1,
        forall|i: int| 2 <= i < k ==> #[trigger] w@[i] == v@[i - 1] ensures #[trigger] wf_list(w, s, k, a)
{ assert forall|i: int| 0 <= i < k implies #[trigger] list_item(w@, s, i, a) by { if i > 0 { list_get(v, s, j, b, i - 1); if i > 1 { assert(w@[i] == v@[i - 1]); if i > 2 { assert(w@[i - 1] == v@[i - 2]); } } } } list_of(w, s, k, a); }
pub broadcast proof fn b_sep1(v: Vec<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, a: int)
    requires v@.len() == 1, seps_item(v@, s, kd, 0, a) ensures #[trigger] wf_seps(v, s, kd, a)
{ sep_all(v, s, kd, 1, a); }
pub broadcast proof fn b_sep_ins(w: Vec<(Loc, Node, Loc, String)>, v: Vec<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, a: int, b: int)
    requires #[trigger] wf_seps(v, s, kd, b), w@.len() == v@.len() + 1, seps_item(w@, s, kd, 0, a),
        w@[1].0.0 == w@[0].2.1 + w@[0].3@.len(), gap(s, w@[1].0.0 as int, w@[1].0.1 as int), w@[1].0.1 == sp(v@[0].1).0, w@[1].1 == v@[0].1, w@[1].2 == v@[0].2, w@[1].3 == v@[0].3,
        forall|i: int| 2 <= i < w@.len() ==> #[trigger] w@[i] == v@[i - 1] ensures #[trigger] wf_seps(w, s, kd, a)
{ let k = w@.len() as int; let j = v@.len() as int;
  assert forall|i: int| 0 <= i < k implies #[trigger] seps_item(w@, s, kd, i, a) by { if i > 0 { sep_get(v, s, kd, j, b, i - 1); if i > 1 { assert(w@[i] == v@[i - 1]); if i > 2 { assert(w@[i - 1] == v@[i - 2]); } } } } sep_all(w, s, kd, k, a); }
// ---- the tokens with a text
pub broadcast proof fn b_t1(s: Seq<char>, l: int, v: String, e: int) requires #[trigger] tok(s, l, Token::Variable(v), e), 0 <= l < e <= s.len() ensures tok_at(s, l, v@), e == l + v@.len() { }
pub broadcast proof fn b_t2(s: Seq<char>, l: int, v: String, e: int) requires #[trigger] tok(s, l, Token::Numeral(v), e), 0 <= l < e <= s.len() ensures tok_at(s, l, v@), e == l + v@.len() { }
pub broadcast proof fn b_t3(s: Seq<char>, l: int, v: String, e: int) requires #[trigger] tok(s, l, Token::NormalStringLiteral(v), e), 0 <= l < e <= s.len() ensures tok_at(s, l, "\""@ + v@ + "\""@), e == l + v@.len() + 2
{ reveal_strlit("\""); assert(s.subrange(l, e) =~= "\""@ + v@ + "\""@); }
pub broadcast proof fn b_t4(s: Seq<char>, l: int, v: String, e: int) requires #[trigger] tok(s, l, Token::CharStringLiteral(v), e), 0 <= l < e <= s.len() ensures tok_at(s, l, "'"@ + v@ + "'"@), e == l + v@.len() + 2
{ reveal_strlit("'"); assert(s.subrange(l, e) =~= "'"@ + v@ + "'"@); }
pub broadcast proof fn b_sepk(s: Seq<char>, l: int, t: Token, e: int) requires #[trigger] tok(s, l, t, e), 0 <= l < e <= s.len(), t is Comma || t is Semicolon
    ensures e == l + 1, ","@.len() == 1, ";"@.len() == 1, t is Comma ==> tok_at(s, l, ","@), t is Semicolon ==> tok_at(s, l, ";"@)
{ reveal_strlit(","); reveal_strlit(";"); if t is Comma { assert(s.subrange(l, e) =~= ","@); } else { assert(s.subrange(l, e) =~= ";"@); } }
pub proof fn rep_len(s: Seq<char>, n: int) requires s.len() == 1, n >= 0 ensures rep(s, n).len() == n decreases n { if n > 0 { rep_len(s, n - 1); } }
pub broadcast proof fn b_t5(s: Seq<char>, l: int, n: usize, v: String, e: int) requires #[trigger] tok(s, l, Token::MultiLineStringLiteral(n, v), e), 0 <= l < e <= s.len() ensures tok_at(s, l, long_str(n as int, v@)), e == l + long_str(n as int, v@).len()
{
    reveal_strlit("["); reveal_strlit("]"); reveal_strlit("=");
    run_of(s, l + 1, EQS()); let q = run_end(s, l + 1, EQS()); assert(q == l + 1 + n);
    assert forall|i: int| l + 1 <= i < l + 1 + n implies #[trigger] s[i] == '=' by { assert(cls(EQS(), s[i])); }
    rep_eqs(s, l + 1, n as int); rep_eqs(s, e - n - 1, n as int); assert("="@ =~= seq!['=']); rep_len("="@, n as int);
    assert(s.subrange(l, e) =~= long_str(n as int, v@));
}
pub broadcast proof fn b_t6(s: Seq<char>, l: int, v: String, e: int) requires #[trigger] tok(s, l, Token::SheBang(v), e), 0 <= l < e <= s.len()
    ensures tok_at(s, l, v@), bang(v@), e == l + v@.len() && e == s.len() || e == l + v@.len() + 1 && s[e - 1] == '\n'
{ run_of(s, l + 2, LINE()); }
pub broadcast group g_wf { b_sepk, b_list2, b_list_push, b_list_ins, b_sep1, b_sep_ins, b_t1, b_t2, b_t3, b_t4, b_t5, b_t6 }
//@grammar src/parser/lua_syntax.lalrpop trivia
    hide(wf);
    broadcast use g_wf;
//@end
// ---- the parser: an LR automaton (generated by LALRPOP, trusted) that runs the productions over the lexer's tokens
pub struct PErr;
/// Lexer::new is under contract in C06
pub struct Lexer<'a> { pub input: &'a str }
impl<'a> Lexer<'a> { pub fn new(input: &'a str) -> (r: Lexer<'a>) ensures r.input == input { Lexer { input } } }
pub struct ChunkParser;
impl ChunkParser {
    pub fn new() -> ChunkParser { ChunkParser }
    #[verifier::external_body] pub fn parse(&self, src: &str, lexer: Lexer) -> (r: Result<Node, PErr>) requires lexer.input@ == src@ ensures r is Ok ==> nt_Chunk(r->Ok_0, src@, 0, src@.len() as int) { unimplemented!() }
}
//@typemap LuaParserError => PErr
//@fn src/parser/mod.rs parse_lua | params=src
    ensures r is Ok ==> wf(r->Ok_0, src@) && (r->Ok_0 is Chunk || r->Ok_0 is SheBangChunk) && sp(r->Ok_0) == (0int, src@.len() as int),
//@pre
    broadcast use w_Chunk, w_SheBangChunk;
//@end
fn main() {}
}
