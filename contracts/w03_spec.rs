// ---- which characters may meet: vocabulary
/// signs that nothing runs into, white space included
pub open spec fn closed(c: char) -> bool {
    c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '(' || c == ')' || c == '{' || c == '}' || c == ']' || c == ',' || c == ';' || c == '=' || c == '<' || c == '>' || c == '~'
        || c == '*' || c == '/' || c == '%' || c == '^' || c == '#' || c == '&' || c == '|' || c == '+' || c == ':' || c == '.' || c == '"' || c == '\''
}
/// letters, digits, `_`: what a word is made of
pub open spec fn word(c: char) -> bool { !closed(c) && c != '-' && c != '[' }
/// writing s directly behind f fuses no words and makes no comment
pub open spec fn jn(f: Seq<char>, s: Seq<char>) -> bool { f.len() > 0 && s.len() > 0 ==> !(word(f.last()) && word(s[0])) && !(f.last() == '-' && s[0] == '-') }
/// the start of a comment; what it may follow is the business of the gaps (dash)
pub open spec fn dd(s: Seq<char>) -> bool { s.len() >= 2 && s[0] == '-' && s[1] == '-' }
pub open spec fn cl(s: Seq<char>) -> bool { s.len() > 0 && closed(s.last()) }
pub open spec fn ek(s: Seq<char>) -> bool { s.len() > 0 && s.last() != '-' && s.last() != '[' }
/// a gap: nothing but the hint, or something that ends closed
pub open spec fn gp(f: Seq<char>, g: Seq<char>, h: Seq<char>) -> bool { g == f + h || cl(g) }
/// what the gap starts with does not make a comment of a dash
pub open spec fn dash(f: Seq<char>, g: Seq<char>) -> bool { f.len() > 0 && f.last() == '-' && g.len() > f.len() ==> g[f.len() as int] != '-' }
pub open spec fn wsx(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r' }
pub open spec fn wso(s: Option<String>) -> bool { s matches Some(t) ==> wsx(t@) }
pub open spec fn sept(s: Seq<char>) -> bool { s.len() > 0 && closed(s.last()) && closed(s[0]) }
pub open spec fn optok(s: Seq<char>) -> bool { s.len() > 0 && s.last() != '}' }
pub open spec fn txt(s: Seq<char>) -> bool { ek(s) && s[0] != '-' }
/// the configurations that squeeze, with hints of white space
pub open spec fn cok(c: Config) -> bool {
    &&& c.fmt.replace_zero_spaces_with_hint == Some(true) && c.fmt.remove_spaces_between_tokens == Some(true)
    &&& wso(c.fmt.indentation_string) && wso(c.fmt.hint_before_comment) && wso(c.fmt.hint_after_multiline_comment) && wso(c.fmt.hint_table_constructor)
    &&& c.fmt.field_separator matches Some(t) ==> sept(t@)
}
pub open spec fn st(s: State) -> bool { s.pos_range is None }
pub open spec fn cst(s: State) -> bool { s.pos_range is None && s.comment_pos_range is None }
//@include adj.rs
/// the suffixes of a variable
pub open spec fn vs(n: Node) -> bool { match n { Node::VarSuffixList(_, v) => v@.len() > 0 ==> opn(v@[0].1), _ => opn(n) } }
pub proof fn rep_ws(s: Seq<char>, n: int) requires wsx(s) ensures wsx(rep(s, n)) decreases n { if n > 0 { rep_ws(s, n - 1); } }
pub open spec fn sp_items(n: Node) -> Option<Vec<(Loc, Node)>> { match n { Node::StatementList(_, v) | Node::VarSuffixList(_, v) | Node::ElseIfThenVec(_, v) => Some(v), _ => None } }
pub open spec fn sp_seps(n: Node) -> Option<Vec<(Loc, Node, Loc, String)>> {
    match n { Node::ExpList(_, v) | Node::NameList(_, v) | Node::VarList(_, v) | Node::ParList(_, v) | Node::FuncName(_, v) | Node::FuncNameSelf(_, _, v, _) | Node::Fields(_, v, _) => Some(v), _ => None } }
pub open spec fn go(n: Node, f: Seq<char>) -> bool { f.len() > 0 ==> starts(n, f.last()) }
/// one way into a construct: behind a closed character
pub broadcast proof fn go_closed(n: Node, f: Seq<char>) requires cl(f) ensures #[trigger] go(n, f) { starts_any(n, f.last()); }
pub broadcast proof fn add0(f: Seq<char>, h: Seq<char>) requires h.len() == 0 ensures #[trigger] (f + h) == f { assert(f + h =~= f); }
pub broadcast proof fn add_last(f: Seq<char>, h: Seq<char>) requires h.len() > 0 ensures #[trigger] (f + h).last() == h.last(), (f + h).len() > 0 { }
/// writing to a String cannot fail
#[verifier::external_body] pub fn w_lit(f: &mut String, s: &str) -> (r: WR) requires jn(old(f)@, s@) || dd(s@) ensures r is Ok, final(f)@ == old(f)@ + s@ { unimplemented!() }
/// writing to a String cannot fail
#[verifier::external_body] pub fn w_ws(f: &mut String, s: &str) -> (r: WR) ensures r is Ok, final(f)@ == old(f)@ + s@ { unimplemented!() }
/// writing to a String cannot fail
#[verifier::external_body] pub fn w_disp<T: Disp + ?Sized>(f: &mut String, x: &T) -> (r: WR) ensures r is Ok, final(f)@ == old(f)@ + x.d() { unimplemented!() }
pub proof fn alits() ensures ""@ == Seq::<char>::empty(), "("@.len() == 1, "("@[0] == '(', "("@[0] == '(', ")"@.len() == 1, ")"@[0] == ')', ")"@[0] == ')', ","@.len() == 1, ","@[0] == ',', ","@[0] == ',', "."@.len() == 1, "."@[0] == '.', "."@[0] == '.', "..."@.len() == 3, "..."@[0] == '.', "..."@[2] == '.', ":"@.len() == 1, ":"@[0] == ':', ":"@[0] == ':', "::"@.len() == 2, "::"@[0] == ':', "::"@[1] == ':', ";"@.len() == 1, ";"@[0] == ';', ";"@[0] == ';', "="@.len() == 1, "="@[0] == '=', "="@[0] == '=', "["@.len() == 1, "["@[0] == '[', "["@[0] == '[', "]"@.len() == 1, "]"@[0] == ']', "]"@[0] == ']', "break"@.len() == 5, "break"@[0] == 'b', "break"@[4] == 'k', "do"@.len() == 2, "do"@[0] == 'd', "do"@[1] == 'o', "else"@.len() == 4, "else"@[0] == 'e', "else"@[3] == 'e', "elseif"@.len() == 6, "elseif"@[0] == 'e', "elseif"@[5] == 'f', "end"@.len() == 3, "end"@[0] == 'e', "end"@[2] == 'd', "false"@.len() == 5, "false"@[0] == 'f', "false"@[4] == 'e', "for"@.len() == 3, "for"@[0] == 'f', "for"@[2] == 'r', "function"@.len() == 8, "function"@[0] == 'f', "function"@[7] == 'n', "goto"@.len() == 4, "goto"@[0] == 'g', "goto"@[3] == 'o', "if"@.len() == 2, "if"@[0] == 'i', "if"@[1] == 'f', "in"@.len() == 2, "in"@[0] == 'i', "in"@[1] == 'n', "local"@.len() == 5, "local"@[0] == 'l', "local"@[4] == 'l', "nil"@.len() == 3, "nil"@[0] == 'n', "nil"@[2] == 'l', "not"@.len() == 3, "not"@[0] == 'n', "not"@[2] == 't', "repeat"@.len() == 6, "repeat"@[0] == 'r', "repeat"@[5] == 't', "return"@.len() == 6, "return"@[0] == 'r', "return"@[5] == 'n', "then"@.len() == 4, "then"@[0] == 't', "then"@[3] == 'n', "true"@.len() == 4, "true"@[0] == 't', "true"@[3] == 'e', "until"@.len() == 5, "until"@[0] == 'u', "until"@[4] == 'l', "while"@.len() == 5, "while"@[0] == 'w', "while"@[4] == 'e', "{"@.len() == 1, "{"@[0] == '{', "{"@[0] == '{', "}"@.len() == 1, "}"@[0] == '}', "}"@[0] == '}', "'"@.len() == 1, "'"@[0] == '\'', "'"@[0] == '\'', "\""@.len() == 1, "\""@[0] == '"', "\""@[0] == '"', "]["@.len() == 2, "]["@[0] == ']', "]["@[1] == '[', "]]"@.len() == 2, "]]"@[0] == ']', "]]"@[1] == ']', "[["@.len() == 2, "[["@[0] == '[', "[["@[1] == '[', "--"@.len() == 2, "--"@[0] == '-', "--"@[1] == '-', "--"@[1] == '-', "\n"@.len() == 1, "\n"@[0] == '\n', "\n"@[0] == '\n', "--["@.len() == 3, "--["@[0] == '-', "--["@[2] == '[', "--["@[1] == '-', " "@.len() == 1, " "@[0] == ' ', " "@[0] == ' ', "--\n"@.len() == 3, "--\n"@[0] == '-', "--\n"@[2] == '\n', "--\n"@[1] == '-'
{ reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); reveal_strlit("("); reveal_strlit(")"); reveal_strlit(","); reveal_strlit("."); reveal_strlit("..."); reveal_strlit(":"); reveal_strlit("::"); reveal_strlit(";"); reveal_strlit("="); reveal_strlit("["); reveal_strlit("]"); reveal_strlit("break"); reveal_strlit("do"); reveal_strlit("else"); reveal_strlit("elseif"); reveal_strlit("end"); reveal_strlit("false"); reveal_strlit("for"); reveal_strlit("function"); reveal_strlit("goto"); reveal_strlit("if"); reveal_strlit("in"); reveal_strlit("local"); reveal_strlit("nil"); reveal_strlit("not"); reveal_strlit("repeat"); reveal_strlit("return"); reveal_strlit("then"); reveal_strlit("true"); reveal_strlit("until"); reveal_strlit("while"); reveal_strlit("{"); reveal_strlit("}"); reveal_strlit("'"); reveal_strlit("\""); reveal_strlit("]["); reveal_strlit("]]"); reveal_strlit("[["); reveal_strlit("--"); reveal_strlit("\n"); reveal_strlit("--["); reveal_strlit(" "); reveal_strlit("--\n"); }
/// a comment block being written behind one character: nothing, or something that ends closed
pub open spec fn cx(f: Seq<char>) -> bool { f.len() > 0 && (f.len() > 1 ==> closed(f.last())) }
/// the first character stays
pub open spec fn keep1(f: Seq<char>, f2: Seq<char>) -> bool { f.len() > 0 ==> f2.len() > 0 && f2[0] == f[0] }
pub broadcast proof fn keep1_app(f: Seq<char>, t: Seq<char>) ensures keep1(f, #[trigger] (f + t)) { }
pub broadcast proof fn keep1_pop(f: Seq<char>) requires f.len() > 1 ensures keep1(f, #[trigger] f.drop_last()) { }
pub axiom fn clen_ascii() ensures clen(' ') == 1, clen('\t') == 1;
pub broadcast proof fn keep1_boff(f: Seq<char>, g: Seq<char>) requires #[trigger] keep1(f, g), f.len() == 1 ensures boff(g, 1) == boff(f, 1), g.len() >= 1
{ reveal_with_fuel(boff, 2); }
pub broadcast proof fn boff_one(f: Seq<char>) requires f.len() == 1, f[0] == ' ' || f[0] == '\t' ensures #[trigger] boff(f, f.len() as int) == 1
{ clen_ascii(); reveal_with_fuel(boff, 2); }
pub broadcast proof fn go_opn(n: Node, f: Seq<char>) requires opn(n) || vs(n), ek(f) ensures #[trigger] go(n, f)
{ if let Node::VarSuffixList(_, v) = n { if v@.len() > 0 { assert(opn(v@[0].1)); assert(starts(v@[0].1, f.last())); } } }
pub broadcast proof fn add_ws(f: Seq<char>, h: Seq<char>) requires wsx(h), h.len() > 0 ensures cl(#[trigger] (f + h))
{ assert((f + h).last() == h[h.len() - 1]); }
