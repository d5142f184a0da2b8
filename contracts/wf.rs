// generated by gen_wf.py
pub open spec fn tok_at(s: Seq<char>, p: int, t: Seq<char>) -> bool { 0 <= p && p + t.len() <= s.len() && s.subrange(p, p + t.len()) == t }
/// the text of a `#!` line
pub open spec fn bang(t: Seq<char>) -> bool { t.len() >= 2 && t[0] == '#' && t[1] == '!' && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '\n' }
pub open spec fn sepok(k: SepKind, t: Seq<char>) -> bool { match k { SepKind::fields => t == ","@ || t == ";"@, SepKind::comma => t == ","@, SepKind::dot => t == "."@ } }
/// the place after the first k items of a list that starts at a
pub open spec fn lend(v: Seq<(Loc, Node)>, k: int, a: int) -> int { if k <= 0 { a } else { sp(v[k - 1].1).1 } }
pub open spec fn wf_list(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int) -> bool decreases v, k {
    if k <= 0 || k > v@.len() { true } else { wf_list(v, s, k - 1, a) && v@[k - 1].0.0 == lend(v@, k - 1, a) && gap(s, v@[k - 1].0.0 as int, v@[k - 1].0.1 as int) && v@[k - 1].0.1 == sp(v@[k - 1].1).0 && wf(v@[k - 1].1, s) }
}
/// the place after the first k items of a separated list that starts at a, with their separators
pub open spec fn send(v: Seq<(Loc, Node, Loc, String)>, k: int, a: int) -> int { if k <= 0 { a } else { v[k - 1].2.1 + v[k - 1].3@.len() } }
pub open spec fn wf_sep(v: Vec<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, k: int, a: int) -> bool decreases v, k {
    if k <= 0 || k > v@.len() { true } else { wf_sep(v, s, kd, k - 1, a) && sep_item(v@, s, kd, k - 1, a) && wf(v@[k - 1].1, s) }
}
/// item i stands at its place, and its separator behind it; only the last one may be without
pub open spec fn sep_item(v: Seq<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, i: int, a: int) -> bool {
    v[i].0.0 == send(v, i, a) && gap(s, v[i].0.0 as int, v[i].0.1 as int) && v[i].0.1 == sp(v[i].1).0 && v[i].2.0 == sp(v[i].1).1 && gap(s, v[i].2.0 as int, v[i].2.1 as int)
        && (if i == v.len() - 1 && v[i].3@.len() == 0 { v[i].2.1 == v[i].2.0 } else { tok_at(s, v[i].2.1 as int, v[i].3@) && sepok(kd, v[i].3@) && (i == v.len() - 1 ==> kd is fields) })
}
pub open spec fn wf_seps(v: Vec<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, a: int) -> bool decreases v, v@.len() + 1 { v@.len() > 0 && wf_sep(v, s, kd, v@.len() as int, a) }
/// where a construct starts and ends
pub open spec fn sp(n: Node) -> (int, int) {
    match n {
        Node::BinaryOp(a0, _, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::UnaryOp(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::UnaryNot(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::Var(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::RoundBrackets(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::ArgsRoundBrackets(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::ArgsRoundBracketsEmpty(a0, _) => (a0.0 as int, a0.1 as int),
        Node::Nil(a0) => (a0.0 as int, a0.1 as int),
        Node::False(a0) => (a0.0 as int, a0.1 as int),
        Node::True(a0) => (a0.0 as int, a0.1 as int),
        Node::VarArg(a0) => (a0.0 as int, a0.1 as int),
        Node::Break(a0) => (a0.0 as int, a0.1 as int),
        Node::Numeral(a0, _) => (a0.0 as int, a0.1 as int),
        Node::NormalStringLiteral(a0, _) => (a0.0 as int, a0.1 as int),
        Node::CharStringLiteral(a0, _) => (a0.0 as int, a0.1 as int),
        Node::MultiLineStringLiteral(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::TableConstructor(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::TableConstructorEmpty(a0, _) => (a0.0 as int, a0.1 as int),
        Node::Fields(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::FieldNamedBracket(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::FieldNamed(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::FieldSequential(a0, _) => (a0.0 as int, a0.1 as int),
        Node::TableIndex(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::TableMember(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::ExpList(a0, _) => (a0.0 as int, a0.1 as int),
        Node::NameList(a0, _) => (a0.0 as int, a0.1 as int),
        Node::ParList(a0, _) => (a0.0 as int, a0.1 as int),
        Node::VarList(a0, _) => (a0.0 as int, a0.1 as int),
        Node::VarRoundSuffix(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::VarSuffixList(a0, _) => (a0.0 as int, a0.1 as int),
        Node::FnMethodCall(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::FunctionDef(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::FuncBody(a0, _) => (a0.0 as int, a0.1 as int),
        Node::FuncBodyB(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::FuncPBody(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::FuncPBodyB(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::FuncName(a0, _) => (a0.0 as int, a0.1 as int),
        Node::FuncNameSelf(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::FuncDecl(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::LocalFuncDecl(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::StatementList(a0, _) => (a0.0 as int, a0.1 as int),
        Node::DoEnd(a0, _) => (a0.0 as int, a0.1 as int),
        Node::DoBEnd(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::VarsExprs(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::Name(a0, _) => (a0.0 as int, a0.1 as int),
        Node::Label(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::GoTo(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::WhileDo(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::WhileDoB(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::RepeatUntil(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::RepeatBUntil(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::ForInt(a0, _, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::ForIntB(a0, _, _, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::ForIntStep(a0, _, _, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::ForIntStepB(a0, _, _, _, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::ForRange(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::ForRangeB(a0, _, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::LocalNames(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::LocalNamesExprs(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::IfThen(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::IfThenB(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::IfThenElse(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::IfThenBElse(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::IfThenElseB(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::IfThenBElseB(a0, _, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::IfThenElseIf(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::IfThenBElseIf(a0, _, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::IfThenElseIfElse(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::IfThenBElseIfElse(a0, _, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::IfThenElseIfElseB(a0, _, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::IfThenBElseIfElseB(a0, _, _, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::ElseIfThenVec(a0, _) => (a0.0 as int, a0.1 as int),
        Node::ElseIfThen(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::ElseIfThenB(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::RetStatNone(a0) => (a0.0 as int, a0.1 as int),
        Node::RetStatExpr(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::RetStatNoneComma(a0, _) => (a0.0 as int, a0.1 as int),
        Node::RetStatExprComma(a0, _, _) => (a0.0 as int, a0.1 as int),
        Node::StatsRetStat(a0, _, _, _) => (a0.0 as int, a0.1 as int),
        Node::Chunk(a0, _, a2) => (a0.0 as int, a2.1 as int),
        Node::SheBangChunk(a0, _, _, _, a4) => (a0.0 as int, a4.1 as int),
        Node::Semicolon(a0) => (a0.0 as int, a0.1 as int),
        Node::SheBang(a0, _) => (a0.0 as int, a0.1 as int),
    }
}
/// the tree records the text s: token by token and gap by gap, from its first character to its last
pub open spec fn wf(n: Node, s: Seq<char>) -> bool decreases n {
    match n {
        Node::BinaryOp(a0, a1, a2, a3, a4) => a0.0 <= a0.1 <= s.len() && sp(*a3).0 == a0.0 && wf(*a3, s) && a1@[0].0 == sp(*a3).1 && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, a2.0@) && a1@[1].0 == (a1@[0].1 + a2.0@.len()) && gap(s, a1@[1].0 as int, a1@[1].1 as int) && sp(*a4).0 == a1@[1].1 && wf(*a4, s) && sp(*a4).1 == a0.1,
        Node::UnaryOp(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, a2.0@) && a1@[0].0 == (a0.0 + a2.0@.len()) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a3).0 == a1@[0].1 && wf(*a3, s) && sp(*a3).1 == a0.1,
        Node::UnaryNot(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "not"@) && a1@[0].0 == (a0.0 + 3) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && sp(*a2).1 == a0.1,
        Node::Var(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && sp(*a2).0 == a0.0 && wf(*a2, s) && a1@[0].0 == sp(*a2).1 && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a3).0 == a1@[0].1 && wf(*a3, s) && sp(*a3).1 == a0.1,
        Node::RoundBrackets(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "("@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, ")"@) && (a1@[1].1 + 1) == a0.1,
        Node::ArgsRoundBrackets(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "("@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, ")"@) && (a1@[1].1 + 1) == a0.1,
        Node::ArgsRoundBracketsEmpty(a0, a1) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "("@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, ")"@) && (a1@[0].1 + 1) == a0.1,
        Node::Nil(a0) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "nil"@) && (a0.0 + 3) == a0.1,
        Node::False(a0) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "false"@) && (a0.0 + 5) == a0.1,
        Node::True(a0) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "true"@) && (a0.0 + 4) == a0.1,
        Node::VarArg(a0) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "..."@) && (a0.0 + 3) == a0.1,
        Node::Break(a0) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "break"@) && (a0.0 + 5) == a0.1,
        Node::Numeral(a0, a1) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, a1@) && (a0.0 + a1@.len()) == a0.1,
        Node::NormalStringLiteral(a0, a1) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "\""@ + a1@ + "\""@) && (a0.0 + (a1@.len() + 2)) == a0.1,
        Node::CharStringLiteral(a0, a1) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "'"@ + a1@ + "'"@) && (a0.0 + (a1@.len() + 2)) == a0.1,
        Node::MultiLineStringLiteral(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, long_str(a1 as int, a2@)) && (a0.0 + long_str(a1 as int, a2@).len()) == a0.1,
        Node::TableConstructor(a0, a1, a2, _) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "{"@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "}"@) && (a1@[1].1 + 1) == a0.1 && (*a2 is Fields),
        Node::TableConstructorEmpty(a0, a1) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "{"@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, "}"@) && (a1@[0].1 + 1) == a0.1,
        Node::Fields(a0, a1, _) => a0.0 <= a0.1 <= s.len() && wf_seps(a1, s, SepKind::fields, a0.0 as int) && send(a1@, a1@.len() as int, a0.0 as int) == a0.1,
        Node::FieldNamedBracket(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "["@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "]"@) && a1@[2].0 == (a1@[1].1 + 1) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && tok_at(s, a1@[2].1 as int, "="@) && a1@[3].0 == (a1@[2].1 + 1) && gap(s, a1@[3].0 as int, a1@[3].1 as int) && sp(*a3).0 == a1@[3].1 && wf(*a3, s) && sp(*a3).1 == a0.1,
        Node::FieldNamed(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && sp(*a2).0 == a0.0 && wf(*a2, s) && a1@[0].0 == sp(*a2).1 && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, "="@) && a1@[1].0 == (a1@[0].1 + 1) && gap(s, a1@[1].0 as int, a1@[1].1 as int) && sp(*a3).0 == a1@[1].1 && wf(*a3, s) && sp(*a3).1 == a0.1,
        Node::FieldSequential(a0, a1) => a0.0 <= a0.1 <= s.len() && sp(*a1).0 == a0.0 && wf(*a1, s) && sp(*a1).1 == a0.1,
        Node::TableIndex(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "["@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "]"@) && (a1@[1].1 + 1) == a0.1,
        Node::TableMember(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "."@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && sp(*a2).1 == a0.1,
        Node::ExpList(a0, a1) => a0.0 <= a0.1 <= s.len() && wf_seps(a1, s, SepKind::comma, a0.0 as int) && send(a1@, a1@.len() as int, a0.0 as int) == a0.1,
        Node::NameList(a0, a1) => a0.0 <= a0.1 <= s.len() && wf_seps(a1, s, SepKind::comma, a0.0 as int) && send(a1@, a1@.len() as int, a0.0 as int) == a0.1,
        Node::ParList(a0, a1) => a0.0 <= a0.1 <= s.len() && wf_seps(a1, s, SepKind::comma, a0.0 as int) && send(a1@, a1@.len() as int, a0.0 as int) == a0.1,
        Node::VarList(a0, a1) => a0.0 <= a0.1 <= s.len() && wf_seps(a1, s, SepKind::comma, a0.0 as int) && send(a1@, a1@.len() as int, a0.0 as int) == a0.1,
        Node::VarRoundSuffix(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "("@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, ")"@) && a1@[2].0 == (a1@[1].1 + 1) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && sp(*a3).1 == a0.1,
        Node::VarSuffixList(a0, a1) => a0.0 <= a0.1 <= s.len() && wf_list(a1, s, a1@.len() as int, a0.0 as int) && lend(a1@, a1@.len() as int, a0.0 as int) == a0.1,
        Node::FnMethodCall(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, ":"@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && sp(*a3).0 == a1@[1].1 && wf(*a3, s) && sp(*a3).1 == a0.1,
        Node::FunctionDef(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "function"@) && a1@[0].0 == (a0.0 + 8) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && sp(*a2).1 == a0.1,
        Node::FuncBody(a0, a1) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "("@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, ")"@) && a1@[1].0 == (a1@[0].1 + 1) && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "end"@) && (a1@[1].1 + 3) == a0.1,
        Node::FuncBodyB(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "("@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, ")"@) && a1@[1].0 == (a1@[0].1 + 1) && gap(s, a1@[1].0 as int, a1@[1].1 as int) && sp(*a2).0 == a1@[1].1 && wf(*a2, s) && a1@[2].0 == sp(*a2).1 && gap(s, a1@[2].0 as int, a1@[2].1 as int) && tok_at(s, a1@[2].1 as int, "end"@) && (a1@[2].1 + 3) == a0.1,
        Node::FuncPBody(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "("@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, ")"@) && a1@[2].0 == (a1@[1].1 + 1) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && tok_at(s, a1@[2].1 as int, "end"@) && (a1@[2].1 + 3) == a0.1,
        Node::FuncPBodyB(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "("@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, ")"@) && a1@[2].0 == (a1@[1].1 + 1) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "end"@) && (a1@[3].1 + 3) == a0.1,
        Node::FuncName(a0, a1) => a0.0 <= a0.1 <= s.len() && wf_seps(a1, s, SepKind::dot, a0.0 as int) && send(a1@, a1@.len() as int, a0.0 as int) == a0.1,
        Node::FuncNameSelf(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && wf_seps(a2, s, SepKind::dot, a0.0 as int) && a1@[0].0 == send(a2@, a2@.len() as int, a0.0 as int) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, ":"@) && a1@[1].0 == (a1@[0].1 + 1) && gap(s, a1@[1].0 as int, a1@[1].1 as int) && sp(*a3).0 == a1@[1].1 && wf(*a3, s) && sp(*a3).1 == a0.1,
        Node::FuncDecl(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "function"@) && a1@[0].0 == (a0.0 + 8) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && sp(*a3).0 == a1@[1].1 && wf(*a3, s) && sp(*a3).1 == a0.1,
        Node::LocalFuncDecl(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "local"@) && a1@[0].0 == (a0.0 + 5) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, "function"@) && a1@[1].0 == (a1@[0].1 + 8) && gap(s, a1@[1].0 as int, a1@[1].1 as int) && sp(*a2).0 == a1@[1].1 && wf(*a2, s) && a1@[2].0 == sp(*a2).1 && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && sp(*a3).1 == a0.1,
        Node::StatementList(a0, a1) => a0.0 <= a0.1 <= s.len() && wf_list(a1, s, a1@.len() as int, a0.0 as int) && lend(a1@, a1@.len() as int, a0.0 as int) == a0.1,
        Node::DoEnd(a0, a1) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "do"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, "end"@) && (a1@[0].1 + 3) == a0.1,
        Node::DoBEnd(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "do"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "end"@) && (a1@[1].1 + 3) == a0.1,
        Node::VarsExprs(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && sp(*a2).0 == a0.0 && wf(*a2, s) && a1@[0].0 == sp(*a2).1 && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, "="@) && a1@[1].0 == (a1@[0].1 + 1) && gap(s, a1@[1].0 as int, a1@[1].1 as int) && sp(*a3).0 == a1@[1].1 && wf(*a3, s) && sp(*a3).1 == a0.1,
        Node::Name(a0, a1) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, a1@) && (a0.0 + a1@.len()) == a0.1,
        Node::Label(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "::"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "::"@) && (a1@[1].1 + 2) == a0.1,
        Node::GoTo(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "goto"@) && a1@[0].0 == (a0.0 + 4) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && sp(*a2).1 == a0.1,
        Node::WhileDo(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "while"@) && a1@[0].0 == (a0.0 + 5) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "do"@) && a1@[2].0 == (a1@[1].1 + 2) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && tok_at(s, a1@[2].1 as int, "end"@) && (a1@[2].1 + 3) == a0.1,
        Node::WhileDoB(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "while"@) && a1@[0].0 == (a0.0 + 5) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "do"@) && a1@[2].0 == (a1@[1].1 + 2) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "end"@) && (a1@[3].1 + 3) == a0.1,
        Node::RepeatUntil(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "repeat"@) && a1@[0].0 == (a0.0 + 6) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, "until"@) && a1@[1].0 == (a1@[0].1 + 5) && gap(s, a1@[1].0 as int, a1@[1].1 as int) && sp(*a2).0 == a1@[1].1 && wf(*a2, s) && sp(*a2).1 == a0.1,
        Node::RepeatBUntil(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "repeat"@) && a1@[0].0 == (a0.0 + 6) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "until"@) && a1@[2].0 == (a1@[1].1 + 5) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && sp(*a3).1 == a0.1,
        Node::ForInt(a0, a1, a2, a3, a4) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "for"@) && a1@[0].0 == (a0.0 + 3) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "="@) && a1@[2].0 == (a1@[1].1 + 1) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, ","@) && a1@[4].0 == (a1@[3].1 + 1) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && sp(*a4).0 == a1@[4].1 && wf(*a4, s) && a1@[5].0 == sp(*a4).1 && gap(s, a1@[5].0 as int, a1@[5].1 as int) && tok_at(s, a1@[5].1 as int, "do"@) && a1@[6].0 == (a1@[5].1 + 2) && gap(s, a1@[6].0 as int, a1@[6].1 as int) && tok_at(s, a1@[6].1 as int, "end"@) && (a1@[6].1 + 3) == a0.1,
        Node::ForIntB(a0, a1, a2, a3, a4, a5) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "for"@) && a1@[0].0 == (a0.0 + 3) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "="@) && a1@[2].0 == (a1@[1].1 + 1) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, ","@) && a1@[4].0 == (a1@[3].1 + 1) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && sp(*a4).0 == a1@[4].1 && wf(*a4, s) && a1@[5].0 == sp(*a4).1 && gap(s, a1@[5].0 as int, a1@[5].1 as int) && tok_at(s, a1@[5].1 as int, "do"@) && a1@[6].0 == (a1@[5].1 + 2) && gap(s, a1@[6].0 as int, a1@[6].1 as int) && sp(*a5).0 == a1@[6].1 && wf(*a5, s) && a1@[7].0 == sp(*a5).1 && gap(s, a1@[7].0 as int, a1@[7].1 as int) && tok_at(s, a1@[7].1 as int, "end"@) && (a1@[7].1 + 3) == a0.1,
        Node::ForIntStep(a0, a1, a2, a3, a4, a5) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "for"@) && a1@[0].0 == (a0.0 + 3) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "="@) && a1@[2].0 == (a1@[1].1 + 1) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, ","@) && a1@[4].0 == (a1@[3].1 + 1) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && sp(*a4).0 == a1@[4].1 && wf(*a4, s) && a1@[5].0 == sp(*a4).1 && gap(s, a1@[5].0 as int, a1@[5].1 as int) && tok_at(s, a1@[5].1 as int, ","@) && a1@[6].0 == (a1@[5].1 + 1) && gap(s, a1@[6].0 as int, a1@[6].1 as int) && sp(*a5).0 == a1@[6].1 && wf(*a5, s) && a1@[7].0 == sp(*a5).1 && gap(s, a1@[7].0 as int, a1@[7].1 as int) && tok_at(s, a1@[7].1 as int, "do"@) && a1@[8].0 == (a1@[7].1 + 2) && gap(s, a1@[8].0 as int, a1@[8].1 as int) && tok_at(s, a1@[8].1 as int, "end"@) && (a1@[8].1 + 3) == a0.1,
        Node::ForIntStepB(a0, a1, a2, a3, a4, a5, a6) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "for"@) && a1@[0].0 == (a0.0 + 3) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "="@) && a1@[2].0 == (a1@[1].1 + 1) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, ","@) && a1@[4].0 == (a1@[3].1 + 1) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && sp(*a4).0 == a1@[4].1 && wf(*a4, s) && a1@[5].0 == sp(*a4).1 && gap(s, a1@[5].0 as int, a1@[5].1 as int) && tok_at(s, a1@[5].1 as int, ","@) && a1@[6].0 == (a1@[5].1 + 1) && gap(s, a1@[6].0 as int, a1@[6].1 as int) && sp(*a5).0 == a1@[6].1 && wf(*a5, s) && a1@[7].0 == sp(*a5).1 && gap(s, a1@[7].0 as int, a1@[7].1 as int) && tok_at(s, a1@[7].1 as int, "do"@) && a1@[8].0 == (a1@[7].1 + 2) && gap(s, a1@[8].0 as int, a1@[8].1 as int) && sp(*a6).0 == a1@[8].1 && wf(*a6, s) && a1@[9].0 == sp(*a6).1 && gap(s, a1@[9].0 as int, a1@[9].1 as int) && tok_at(s, a1@[9].1 as int, "end"@) && (a1@[9].1 + 3) == a0.1,
        Node::ForRange(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "for"@) && a1@[0].0 == (a0.0 + 3) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "in"@) && a1@[2].0 == (a1@[1].1 + 2) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "do"@) && a1@[4].0 == (a1@[3].1 + 2) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && tok_at(s, a1@[4].1 as int, "end"@) && (a1@[4].1 + 3) == a0.1,
        Node::ForRangeB(a0, a1, a2, a3, a4) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "for"@) && a1@[0].0 == (a0.0 + 3) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "in"@) && a1@[2].0 == (a1@[1].1 + 2) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "do"@) && a1@[4].0 == (a1@[3].1 + 2) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && sp(*a4).0 == a1@[4].1 && wf(*a4, s) && a1@[5].0 == sp(*a4).1 && gap(s, a1@[5].0 as int, a1@[5].1 as int) && tok_at(s, a1@[5].1 as int, "end"@) && (a1@[5].1 + 3) == a0.1,
        Node::LocalNames(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "local"@) && a1@[0].0 == (a0.0 + 5) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && sp(*a2).1 == a0.1,
        Node::LocalNamesExprs(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "local"@) && a1@[0].0 == (a0.0 + 5) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "="@) && a1@[2].0 == (a1@[1].1 + 1) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && sp(*a3).1 == a0.1,
        Node::IfThen(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && tok_at(s, a1@[2].1 as int, "end"@) && (a1@[2].1 + 3) == a0.1,
        Node::IfThenB(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "end"@) && (a1@[3].1 + 3) == a0.1,
        Node::IfThenElse(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && tok_at(s, a1@[2].1 as int, "else"@) && a1@[3].0 == (a1@[2].1 + 4) && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "end"@) && (a1@[3].1 + 3) == a0.1,
        Node::IfThenBElse(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "else"@) && a1@[4].0 == (a1@[3].1 + 4) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && tok_at(s, a1@[4].1 as int, "end"@) && (a1@[4].1 + 3) == a0.1,
        Node::IfThenElseB(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && tok_at(s, a1@[2].1 as int, "else"@) && a1@[3].0 == (a1@[2].1 + 4) && gap(s, a1@[3].0 as int, a1@[3].1 as int) && sp(*a3).0 == a1@[3].1 && wf(*a3, s) && a1@[4].0 == sp(*a3).1 && gap(s, a1@[4].0 as int, a1@[4].1 as int) && tok_at(s, a1@[4].1 as int, "end"@) && (a1@[4].1 + 3) == a0.1,
        Node::IfThenBElseB(a0, a1, a2, a3, a4) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "else"@) && a1@[4].0 == (a1@[3].1 + 4) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && sp(*a4).0 == a1@[4].1 && wf(*a4, s) && a1@[5].0 == sp(*a4).1 && gap(s, a1@[5].0 as int, a1@[5].1 as int) && tok_at(s, a1@[5].1 as int, "end"@) && (a1@[5].1 + 3) == a0.1,
        Node::IfThenElseIf(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "end"@) && (a1@[3].1 + 3) == a0.1,
        Node::IfThenBElseIf(a0, a1, a2, a3, a4) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && sp(*a4).0 == a1@[3].1 && wf(*a4, s) && a1@[4].0 == sp(*a4).1 && gap(s, a1@[4].0 as int, a1@[4].1 as int) && tok_at(s, a1@[4].1 as int, "end"@) && (a1@[4].1 + 3) == a0.1,
        Node::IfThenElseIfElse(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "else"@) && a1@[4].0 == (a1@[3].1 + 4) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && tok_at(s, a1@[4].1 as int, "end"@) && (a1@[4].1 + 3) == a0.1,
        Node::IfThenBElseIfElse(a0, a1, a2, a3, a4) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && sp(*a4).0 == a1@[3].1 && wf(*a4, s) && a1@[4].0 == sp(*a4).1 && gap(s, a1@[4].0 as int, a1@[4].1 as int) && tok_at(s, a1@[4].1 as int, "else"@) && a1@[5].0 == (a1@[4].1 + 4) && gap(s, a1@[5].0 as int, a1@[5].1 as int) && tok_at(s, a1@[5].1 as int, "end"@) && (a1@[5].1 + 3) == a0.1,
        Node::IfThenElseIfElseB(a0, a1, a2, a3, a4) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "else"@) && a1@[4].0 == (a1@[3].1 + 4) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && sp(*a4).0 == a1@[4].1 && wf(*a4, s) && a1@[5].0 == sp(*a4).1 && gap(s, a1@[5].0 as int, a1@[5].1 as int) && tok_at(s, a1@[5].1 as int, "end"@) && (a1@[5].1 + 3) == a0.1,
        Node::IfThenBElseIfElseB(a0, a1, a2, a3, a4, a5) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && sp(*a4).0 == a1@[3].1 && wf(*a4, s) && a1@[4].0 == sp(*a4).1 && gap(s, a1@[4].0 as int, a1@[4].1 as int) && tok_at(s, a1@[4].1 as int, "else"@) && a1@[5].0 == (a1@[4].1 + 4) && gap(s, a1@[5].0 as int, a1@[5].1 as int) && sp(*a5).0 == a1@[5].1 && wf(*a5, s) && a1@[6].0 == sp(*a5).1 && gap(s, a1@[6].0 as int, a1@[6].1 as int) && tok_at(s, a1@[6].1 as int, "end"@) && (a1@[6].1 + 3) == a0.1,
        Node::ElseIfThenVec(a0, a1) => a0.0 <= a0.1 <= s.len() && wf_list(a1, s, a1@.len() as int, a0.0 as int) && lend(a1@, a1@.len() as int, a0.0 as int) == a0.1,
        Node::ElseIfThen(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "elseif"@) && a1@[0].0 == (a0.0 + 6) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && (a1@[1].1 + 4) == a0.1,
        Node::ElseIfThenB(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "elseif"@) && a1@[0].0 == (a0.0 + 6) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && sp(*a3).1 == a0.1,
        Node::RetStatNone(a0) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "return"@) && (a0.0 + 6) == a0.1,
        Node::RetStatExpr(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "return"@) && a1@[0].0 == (a0.0 + 6) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && sp(*a2).1 == a0.1,
        Node::RetStatNoneComma(a0, a1) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "return"@) && a1@[0].0 == (a0.0 + 6) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, ";"@) && (a1@[0].1 + 1) == a0.1,
        Node::RetStatExprComma(a0, a1, a2) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "return"@) && a1@[0].0 == (a0.0 + 6) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, ";"@) && (a1@[1].1 + 1) == a0.1,
        Node::StatsRetStat(a0, a1, a2, a3) => a0.0 <= a0.1 <= s.len() && sp(*a2).0 == a0.0 && wf(*a2, s) && a1@[0].0 == sp(*a2).1 && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a3).0 == a1@[0].1 && wf(*a3, s) && sp(*a3).1 == a0.1,
        Node::Chunk(a0, a1, a2) => (a0.0 == 0 && gape(s, a0.0 as int, a0.1 as int)) && (sp(*a1).0 == a0.1 && wf(*a1, s)) && (a2.0 == sp(*a1).1 && gape(s, a2.0 as int, a2.1 as int)) && (a2.1 == s.len()),
        Node::SheBangChunk(a0, a1, a2, a3, a4) => (a0.0 == 0 && gape(s, a0.0 as int, a0.1 as int)) && (sp(*a1).0 == a0.1 && wf(*a1, s)) && (a2.0 == sp(*a1).1 && gape(s, a2.0 as int, a2.1 as int)) && (sp(*a3).0 == a2.1 && wf(*a3, s)) && (a4.0 == sp(*a3).1 && gape(s, a4.0 as int, a4.1 as int)) && (a4.1 == s.len()),
        Node::Semicolon(a0) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, ";"@) && (a0.0 + 1) == a0.1,
        Node::SheBang(a0, a1) => a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, a1@) && bang(a1@) && (if a0.1 == a0.0 + a1@.len() { a0.1 == s.len() } else { a0.1 == a0.0 + a1@.len() + 1 && s[a0.1 - 1] == '\n' }),
    }
}
// the same, variant by variant
pub broadcast proof fn w_BinaryOp(a0: Loc, a1: [Loc; 2], a2: Str<'static>, a3: Box<Node>, a4: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::BinaryOp(a0, a1, a2, a3, a4), s) == (a0.0 <= a0.1 <= s.len() && sp(*a3).0 == a0.0 && wf(*a3, s) && a1@[0].0 == sp(*a3).1 && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, a2.0@) && a1@[1].0 == (a1@[0].1 + a2.0@.len()) && gap(s, a1@[1].0 as int, a1@[1].1 as int) && sp(*a4).0 == a1@[1].1 && wf(*a4, s) && sp(*a4).1 == a0.1) { }
pub broadcast proof fn w_UnaryOp(a0: Loc, a1: [Loc; 1], a2: Str<'static>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::UnaryOp(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, a2.0@) && a1@[0].0 == (a0.0 + a2.0@.len()) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a3).0 == a1@[0].1 && wf(*a3, s) && sp(*a3).1 == a0.1) { }
pub broadcast proof fn w_UnaryNot(a0: Loc, a1: [Loc; 1], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::UnaryNot(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "not"@) && a1@[0].0 == (a0.0 + 3) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && sp(*a2).1 == a0.1) { }
pub broadcast proof fn w_Var(a0: Loc, a1: [Loc; 1], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::Var(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && sp(*a2).0 == a0.0 && wf(*a2, s) && a1@[0].0 == sp(*a2).1 && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a3).0 == a1@[0].1 && wf(*a3, s) && sp(*a3).1 == a0.1) { }
pub broadcast proof fn w_RoundBrackets(a0: Loc, a1: [Loc; 2], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::RoundBrackets(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "("@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, ")"@) && (a1@[1].1 + 1) == a0.1) { }
pub broadcast proof fn w_ArgsRoundBrackets(a0: Loc, a1: [Loc; 2], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::ArgsRoundBrackets(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "("@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, ")"@) && (a1@[1].1 + 1) == a0.1) { }
pub broadcast proof fn w_ArgsRoundBracketsEmpty(a0: Loc, a1: [Loc; 1], s: Seq<char>) ensures #[trigger] wf(Node::ArgsRoundBracketsEmpty(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "("@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, ")"@) && (a1@[0].1 + 1) == a0.1) { }
pub broadcast proof fn w_Nil(a0: Loc, s: Seq<char>) ensures #[trigger] wf(Node::Nil(a0), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "nil"@) && (a0.0 + 3) == a0.1) { }
pub broadcast proof fn w_False(a0: Loc, s: Seq<char>) ensures #[trigger] wf(Node::False(a0), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "false"@) && (a0.0 + 5) == a0.1) { }
pub broadcast proof fn w_True(a0: Loc, s: Seq<char>) ensures #[trigger] wf(Node::True(a0), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "true"@) && (a0.0 + 4) == a0.1) { }
pub broadcast proof fn w_VarArg(a0: Loc, s: Seq<char>) ensures #[trigger] wf(Node::VarArg(a0), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "..."@) && (a0.0 + 3) == a0.1) { }
pub broadcast proof fn w_Break(a0: Loc, s: Seq<char>) ensures #[trigger] wf(Node::Break(a0), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "break"@) && (a0.0 + 5) == a0.1) { }
pub broadcast proof fn w_Numeral(a0: Loc, a1: String, s: Seq<char>) ensures #[trigger] wf(Node::Numeral(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, a1@) && (a0.0 + a1@.len()) == a0.1) { }
pub broadcast proof fn w_NormalStringLiteral(a0: Loc, a1: String, s: Seq<char>) ensures #[trigger] wf(Node::NormalStringLiteral(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "\""@ + a1@ + "\""@) && (a0.0 + (a1@.len() + 2)) == a0.1) { }
pub broadcast proof fn w_CharStringLiteral(a0: Loc, a1: String, s: Seq<char>) ensures #[trigger] wf(Node::CharStringLiteral(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "'"@ + a1@ + "'"@) && (a0.0 + (a1@.len() + 2)) == a0.1) { }
pub broadcast proof fn w_MultiLineStringLiteral(a0: Loc, a1: usize, a2: String, s: Seq<char>) ensures #[trigger] wf(Node::MultiLineStringLiteral(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, long_str(a1 as int, a2@)) && (a0.0 + long_str(a1 as int, a2@).len()) == a0.1) { }
pub broadcast proof fn w_TableConstructor(a0: Loc, a1: [Loc; 2], a2: Box<Node>, a3: TableConstructorOpts, s: Seq<char>) ensures #[trigger] wf(Node::TableConstructor(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "{"@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "}"@) && (a1@[1].1 + 1) == a0.1 && (*a2 is Fields)) { }
pub broadcast proof fn w_TableConstructorEmpty(a0: Loc, a1: [Loc; 1], s: Seq<char>) ensures #[trigger] wf(Node::TableConstructorEmpty(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "{"@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, "}"@) && (a1@[0].1 + 1) == a0.1) { }
pub broadcast proof fn w_Fields(a0: Loc, a1: Vec<(Loc, Node, Loc, String)>, a2: FieldsOpts, s: Seq<char>) ensures #[trigger] wf(Node::Fields(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && wf_seps(a1, s, SepKind::fields, a0.0 as int) && send(a1@, a1@.len() as int, a0.0 as int) == a0.1) { }
pub broadcast proof fn w_FieldNamedBracket(a0: Loc, a1: [Loc; 4], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::FieldNamedBracket(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "["@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "]"@) && a1@[2].0 == (a1@[1].1 + 1) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && tok_at(s, a1@[2].1 as int, "="@) && a1@[3].0 == (a1@[2].1 + 1) && gap(s, a1@[3].0 as int, a1@[3].1 as int) && sp(*a3).0 == a1@[3].1 && wf(*a3, s) && sp(*a3).1 == a0.1) { }
pub broadcast proof fn w_FieldNamed(a0: Loc, a1: [Loc; 2], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::FieldNamed(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && sp(*a2).0 == a0.0 && wf(*a2, s) && a1@[0].0 == sp(*a2).1 && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, "="@) && a1@[1].0 == (a1@[0].1 + 1) && gap(s, a1@[1].0 as int, a1@[1].1 as int) && sp(*a3).0 == a1@[1].1 && wf(*a3, s) && sp(*a3).1 == a0.1) { }
pub broadcast proof fn w_FieldSequential(a0: Loc, a1: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::FieldSequential(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && sp(*a1).0 == a0.0 && wf(*a1, s) && sp(*a1).1 == a0.1) { }
pub broadcast proof fn w_TableIndex(a0: Loc, a1: [Loc; 2], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::TableIndex(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "["@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "]"@) && (a1@[1].1 + 1) == a0.1) { }
pub broadcast proof fn w_TableMember(a0: Loc, a1: [Loc; 1], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::TableMember(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "."@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && sp(*a2).1 == a0.1) { }
pub broadcast proof fn w_ExpList(a0: Loc, a1: Vec<(Loc, Node, Loc, String)>, s: Seq<char>) ensures #[trigger] wf(Node::ExpList(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && wf_seps(a1, s, SepKind::comma, a0.0 as int) && send(a1@, a1@.len() as int, a0.0 as int) == a0.1) { }
pub broadcast proof fn w_NameList(a0: Loc, a1: Vec<(Loc, Node, Loc, String)>, s: Seq<char>) ensures #[trigger] wf(Node::NameList(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && wf_seps(a1, s, SepKind::comma, a0.0 as int) && send(a1@, a1@.len() as int, a0.0 as int) == a0.1) { }
pub broadcast proof fn w_ParList(a0: Loc, a1: Vec<(Loc, Node, Loc, String)>, s: Seq<char>) ensures #[trigger] wf(Node::ParList(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && wf_seps(a1, s, SepKind::comma, a0.0 as int) && send(a1@, a1@.len() as int, a0.0 as int) == a0.1) { }
pub broadcast proof fn w_VarList(a0: Loc, a1: Vec<(Loc, Node, Loc, String)>, s: Seq<char>) ensures #[trigger] wf(Node::VarList(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && wf_seps(a1, s, SepKind::comma, a0.0 as int) && send(a1@, a1@.len() as int, a0.0 as int) == a0.1) { }
pub broadcast proof fn w_VarRoundSuffix(a0: Loc, a1: [Loc; 3], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::VarRoundSuffix(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "("@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, ")"@) && a1@[2].0 == (a1@[1].1 + 1) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && sp(*a3).1 == a0.1) { }
pub broadcast proof fn w_VarSuffixList(a0: Loc, a1: Vec<(Loc, Node)>, s: Seq<char>) ensures #[trigger] wf(Node::VarSuffixList(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && wf_list(a1, s, a1@.len() as int, a0.0 as int) && lend(a1@, a1@.len() as int, a0.0 as int) == a0.1) { }
pub broadcast proof fn w_FnMethodCall(a0: Loc, a1: [Loc; 2], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::FnMethodCall(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, ":"@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && sp(*a3).0 == a1@[1].1 && wf(*a3, s) && sp(*a3).1 == a0.1) { }
pub broadcast proof fn w_FunctionDef(a0: Loc, a1: [Loc; 1], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::FunctionDef(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "function"@) && a1@[0].0 == (a0.0 + 8) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && sp(*a2).1 == a0.1) { }
pub broadcast proof fn w_FuncBody(a0: Loc, a1: [Loc; 2], s: Seq<char>) ensures #[trigger] wf(Node::FuncBody(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "("@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, ")"@) && a1@[1].0 == (a1@[0].1 + 1) && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "end"@) && (a1@[1].1 + 3) == a0.1) { }
pub broadcast proof fn w_FuncBodyB(a0: Loc, a1: [Loc; 3], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::FuncBodyB(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "("@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, ")"@) && a1@[1].0 == (a1@[0].1 + 1) && gap(s, a1@[1].0 as int, a1@[1].1 as int) && sp(*a2).0 == a1@[1].1 && wf(*a2, s) && a1@[2].0 == sp(*a2).1 && gap(s, a1@[2].0 as int, a1@[2].1 as int) && tok_at(s, a1@[2].1 as int, "end"@) && (a1@[2].1 + 3) == a0.1) { }
pub broadcast proof fn w_FuncPBody(a0: Loc, a1: [Loc; 3], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::FuncPBody(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "("@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, ")"@) && a1@[2].0 == (a1@[1].1 + 1) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && tok_at(s, a1@[2].1 as int, "end"@) && (a1@[2].1 + 3) == a0.1) { }
pub broadcast proof fn w_FuncPBodyB(a0: Loc, a1: [Loc; 4], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::FuncPBodyB(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "("@) && a1@[0].0 == (a0.0 + 1) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, ")"@) && a1@[2].0 == (a1@[1].1 + 1) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "end"@) && (a1@[3].1 + 3) == a0.1) { }
pub broadcast proof fn w_FuncName(a0: Loc, a1: Vec<(Loc, Node, Loc, String)>, s: Seq<char>) ensures #[trigger] wf(Node::FuncName(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && wf_seps(a1, s, SepKind::dot, a0.0 as int) && send(a1@, a1@.len() as int, a0.0 as int) == a0.1) { }
pub broadcast proof fn w_FuncNameSelf(a0: Loc, a1: [Loc; 2], a2: Vec<(Loc, Node, Loc, String)>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::FuncNameSelf(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && wf_seps(a2, s, SepKind::dot, a0.0 as int) && a1@[0].0 == send(a2@, a2@.len() as int, a0.0 as int) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, ":"@) && a1@[1].0 == (a1@[0].1 + 1) && gap(s, a1@[1].0 as int, a1@[1].1 as int) && sp(*a3).0 == a1@[1].1 && wf(*a3, s) && sp(*a3).1 == a0.1) { }
pub broadcast proof fn w_FuncDecl(a0: Loc, a1: [Loc; 2], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::FuncDecl(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "function"@) && a1@[0].0 == (a0.0 + 8) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && sp(*a3).0 == a1@[1].1 && wf(*a3, s) && sp(*a3).1 == a0.1) { }
pub broadcast proof fn w_LocalFuncDecl(a0: Loc, a1: [Loc; 3], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::LocalFuncDecl(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "local"@) && a1@[0].0 == (a0.0 + 5) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, "function"@) && a1@[1].0 == (a1@[0].1 + 8) && gap(s, a1@[1].0 as int, a1@[1].1 as int) && sp(*a2).0 == a1@[1].1 && wf(*a2, s) && a1@[2].0 == sp(*a2).1 && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && sp(*a3).1 == a0.1) { }
pub broadcast proof fn w_StatementList(a0: Loc, a1: Vec<(Loc, Node)>, s: Seq<char>) ensures #[trigger] wf(Node::StatementList(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && wf_list(a1, s, a1@.len() as int, a0.0 as int) && lend(a1@, a1@.len() as int, a0.0 as int) == a0.1) { }
pub broadcast proof fn w_DoEnd(a0: Loc, a1: [Loc; 1], s: Seq<char>) ensures #[trigger] wf(Node::DoEnd(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "do"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, "end"@) && (a1@[0].1 + 3) == a0.1) { }
pub broadcast proof fn w_DoBEnd(a0: Loc, a1: [Loc; 2], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::DoBEnd(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "do"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "end"@) && (a1@[1].1 + 3) == a0.1) { }
pub broadcast proof fn w_VarsExprs(a0: Loc, a1: [Loc; 2], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::VarsExprs(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && sp(*a2).0 == a0.0 && wf(*a2, s) && a1@[0].0 == sp(*a2).1 && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, "="@) && a1@[1].0 == (a1@[0].1 + 1) && gap(s, a1@[1].0 as int, a1@[1].1 as int) && sp(*a3).0 == a1@[1].1 && wf(*a3, s) && sp(*a3).1 == a0.1) { }
pub broadcast proof fn w_Name(a0: Loc, a1: String, s: Seq<char>) ensures #[trigger] wf(Node::Name(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, a1@) && (a0.0 + a1@.len()) == a0.1) { }
pub broadcast proof fn w_Label(a0: Loc, a1: [Loc; 2], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::Label(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "::"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "::"@) && (a1@[1].1 + 2) == a0.1) { }
pub broadcast proof fn w_GoTo(a0: Loc, a1: [Loc; 1], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::GoTo(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "goto"@) && a1@[0].0 == (a0.0 + 4) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && sp(*a2).1 == a0.1) { }
pub broadcast proof fn w_WhileDo(a0: Loc, a1: [Loc; 3], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::WhileDo(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "while"@) && a1@[0].0 == (a0.0 + 5) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "do"@) && a1@[2].0 == (a1@[1].1 + 2) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && tok_at(s, a1@[2].1 as int, "end"@) && (a1@[2].1 + 3) == a0.1) { }
pub broadcast proof fn w_WhileDoB(a0: Loc, a1: [Loc; 4], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::WhileDoB(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "while"@) && a1@[0].0 == (a0.0 + 5) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "do"@) && a1@[2].0 == (a1@[1].1 + 2) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "end"@) && (a1@[3].1 + 3) == a0.1) { }
pub broadcast proof fn w_RepeatUntil(a0: Loc, a1: [Loc; 2], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::RepeatUntil(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "repeat"@) && a1@[0].0 == (a0.0 + 6) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, "until"@) && a1@[1].0 == (a1@[0].1 + 5) && gap(s, a1@[1].0 as int, a1@[1].1 as int) && sp(*a2).0 == a1@[1].1 && wf(*a2, s) && sp(*a2).1 == a0.1) { }
pub broadcast proof fn w_RepeatBUntil(a0: Loc, a1: [Loc; 3], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::RepeatBUntil(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "repeat"@) && a1@[0].0 == (a0.0 + 6) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "until"@) && a1@[2].0 == (a1@[1].1 + 5) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && sp(*a3).1 == a0.1) { }
pub broadcast proof fn w_ForInt(a0: Loc, a1: [Loc; 7], a2: Box<Node>, a3: Box<Node>, a4: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::ForInt(a0, a1, a2, a3, a4), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "for"@) && a1@[0].0 == (a0.0 + 3) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "="@) && a1@[2].0 == (a1@[1].1 + 1) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, ","@) && a1@[4].0 == (a1@[3].1 + 1) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && sp(*a4).0 == a1@[4].1 && wf(*a4, s) && a1@[5].0 == sp(*a4).1 && gap(s, a1@[5].0 as int, a1@[5].1 as int) && tok_at(s, a1@[5].1 as int, "do"@) && a1@[6].0 == (a1@[5].1 + 2) && gap(s, a1@[6].0 as int, a1@[6].1 as int) && tok_at(s, a1@[6].1 as int, "end"@) && (a1@[6].1 + 3) == a0.1) { }
pub broadcast proof fn w_ForIntB(a0: Loc, a1: [Loc; 8], a2: Box<Node>, a3: Box<Node>, a4: Box<Node>, a5: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::ForIntB(a0, a1, a2, a3, a4, a5), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "for"@) && a1@[0].0 == (a0.0 + 3) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "="@) && a1@[2].0 == (a1@[1].1 + 1) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, ","@) && a1@[4].0 == (a1@[3].1 + 1) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && sp(*a4).0 == a1@[4].1 && wf(*a4, s) && a1@[5].0 == sp(*a4).1 && gap(s, a1@[5].0 as int, a1@[5].1 as int) && tok_at(s, a1@[5].1 as int, "do"@) && a1@[6].0 == (a1@[5].1 + 2) && gap(s, a1@[6].0 as int, a1@[6].1 as int) && sp(*a5).0 == a1@[6].1 && wf(*a5, s) && a1@[7].0 == sp(*a5).1 && gap(s, a1@[7].0 as int, a1@[7].1 as int) && tok_at(s, a1@[7].1 as int, "end"@) && (a1@[7].1 + 3) == a0.1) { }
pub broadcast proof fn w_ForIntStep(a0: Loc, a1: [Loc; 9], a2: Box<Node>, a3: Box<Node>, a4: Box<Node>, a5: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::ForIntStep(a0, a1, a2, a3, a4, a5), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "for"@) && a1@[0].0 == (a0.0 + 3) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "="@) && a1@[2].0 == (a1@[1].1 + 1) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, ","@) && a1@[4].0 == (a1@[3].1 + 1) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && sp(*a4).0 == a1@[4].1 && wf(*a4, s) && a1@[5].0 == sp(*a4).1 && gap(s, a1@[5].0 as int, a1@[5].1 as int) && tok_at(s, a1@[5].1 as int, ","@) && a1@[6].0 == (a1@[5].1 + 1) && gap(s, a1@[6].0 as int, a1@[6].1 as int) && sp(*a5).0 == a1@[6].1 && wf(*a5, s) && a1@[7].0 == sp(*a5).1 && gap(s, a1@[7].0 as int, a1@[7].1 as int) && tok_at(s, a1@[7].1 as int, "do"@) && a1@[8].0 == (a1@[7].1 + 2) && gap(s, a1@[8].0 as int, a1@[8].1 as int) && tok_at(s, a1@[8].1 as int, "end"@) && (a1@[8].1 + 3) == a0.1) { }
pub broadcast proof fn w_ForIntStepB(a0: Loc, a1: [Loc; 10], a2: Box<Node>, a3: Box<Node>, a4: Box<Node>, a5: Box<Node>, a6: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::ForIntStepB(a0, a1, a2, a3, a4, a5, a6), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "for"@) && a1@[0].0 == (a0.0 + 3) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "="@) && a1@[2].0 == (a1@[1].1 + 1) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, ","@) && a1@[4].0 == (a1@[3].1 + 1) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && sp(*a4).0 == a1@[4].1 && wf(*a4, s) && a1@[5].0 == sp(*a4).1 && gap(s, a1@[5].0 as int, a1@[5].1 as int) && tok_at(s, a1@[5].1 as int, ","@) && a1@[6].0 == (a1@[5].1 + 1) && gap(s, a1@[6].0 as int, a1@[6].1 as int) && sp(*a5).0 == a1@[6].1 && wf(*a5, s) && a1@[7].0 == sp(*a5).1 && gap(s, a1@[7].0 as int, a1@[7].1 as int) && tok_at(s, a1@[7].1 as int, "do"@) && a1@[8].0 == (a1@[7].1 + 2) && gap(s, a1@[8].0 as int, a1@[8].1 as int) && sp(*a6).0 == a1@[8].1 && wf(*a6, s) && a1@[9].0 == sp(*a6).1 && gap(s, a1@[9].0 as int, a1@[9].1 as int) && tok_at(s, a1@[9].1 as int, "end"@) && (a1@[9].1 + 3) == a0.1) { }
pub broadcast proof fn w_ForRange(a0: Loc, a1: [Loc; 5], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::ForRange(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "for"@) && a1@[0].0 == (a0.0 + 3) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "in"@) && a1@[2].0 == (a1@[1].1 + 2) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "do"@) && a1@[4].0 == (a1@[3].1 + 2) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && tok_at(s, a1@[4].1 as int, "end"@) && (a1@[4].1 + 3) == a0.1) { }
pub broadcast proof fn w_ForRangeB(a0: Loc, a1: [Loc; 6], a2: Box<Node>, a3: Box<Node>, a4: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::ForRangeB(a0, a1, a2, a3, a4), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "for"@) && a1@[0].0 == (a0.0 + 3) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "in"@) && a1@[2].0 == (a1@[1].1 + 2) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "do"@) && a1@[4].0 == (a1@[3].1 + 2) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && sp(*a4).0 == a1@[4].1 && wf(*a4, s) && a1@[5].0 == sp(*a4).1 && gap(s, a1@[5].0 as int, a1@[5].1 as int) && tok_at(s, a1@[5].1 as int, "end"@) && (a1@[5].1 + 3) == a0.1) { }
pub broadcast proof fn w_LocalNames(a0: Loc, a1: [Loc; 1], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::LocalNames(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "local"@) && a1@[0].0 == (a0.0 + 5) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && sp(*a2).1 == a0.1) { }
pub broadcast proof fn w_LocalNamesExprs(a0: Loc, a1: [Loc; 3], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::LocalNamesExprs(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "local"@) && a1@[0].0 == (a0.0 + 5) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "="@) && a1@[2].0 == (a1@[1].1 + 1) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && sp(*a3).1 == a0.1) { }
pub broadcast proof fn w_IfThen(a0: Loc, a1: [Loc; 3], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::IfThen(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && tok_at(s, a1@[2].1 as int, "end"@) && (a1@[2].1 + 3) == a0.1) { }
pub broadcast proof fn w_IfThenB(a0: Loc, a1: [Loc; 4], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::IfThenB(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "end"@) && (a1@[3].1 + 3) == a0.1) { }
pub broadcast proof fn w_IfThenElse(a0: Loc, a1: [Loc; 4], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::IfThenElse(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && tok_at(s, a1@[2].1 as int, "else"@) && a1@[3].0 == (a1@[2].1 + 4) && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "end"@) && (a1@[3].1 + 3) == a0.1) { }
pub broadcast proof fn w_IfThenBElse(a0: Loc, a1: [Loc; 5], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::IfThenBElse(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "else"@) && a1@[4].0 == (a1@[3].1 + 4) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && tok_at(s, a1@[4].1 as int, "end"@) && (a1@[4].1 + 3) == a0.1) { }
pub broadcast proof fn w_IfThenElseB(a0: Loc, a1: [Loc; 5], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::IfThenElseB(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && tok_at(s, a1@[2].1 as int, "else"@) && a1@[3].0 == (a1@[2].1 + 4) && gap(s, a1@[3].0 as int, a1@[3].1 as int) && sp(*a3).0 == a1@[3].1 && wf(*a3, s) && a1@[4].0 == sp(*a3).1 && gap(s, a1@[4].0 as int, a1@[4].1 as int) && tok_at(s, a1@[4].1 as int, "end"@) && (a1@[4].1 + 3) == a0.1) { }
pub broadcast proof fn w_IfThenBElseB(a0: Loc, a1: [Loc; 6], a2: Box<Node>, a3: Box<Node>, a4: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::IfThenBElseB(a0, a1, a2, a3, a4), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "else"@) && a1@[4].0 == (a1@[3].1 + 4) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && sp(*a4).0 == a1@[4].1 && wf(*a4, s) && a1@[5].0 == sp(*a4).1 && gap(s, a1@[5].0 as int, a1@[5].1 as int) && tok_at(s, a1@[5].1 as int, "end"@) && (a1@[5].1 + 3) == a0.1) { }
pub broadcast proof fn w_IfThenElseIf(a0: Loc, a1: [Loc; 4], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::IfThenElseIf(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "end"@) && (a1@[3].1 + 3) == a0.1) { }
pub broadcast proof fn w_IfThenBElseIf(a0: Loc, a1: [Loc; 5], a2: Box<Node>, a3: Box<Node>, a4: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::IfThenBElseIf(a0, a1, a2, a3, a4), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && sp(*a4).0 == a1@[3].1 && wf(*a4, s) && a1@[4].0 == sp(*a4).1 && gap(s, a1@[4].0 as int, a1@[4].1 as int) && tok_at(s, a1@[4].1 as int, "end"@) && (a1@[4].1 + 3) == a0.1) { }
pub broadcast proof fn w_IfThenElseIfElse(a0: Loc, a1: [Loc; 5], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::IfThenElseIfElse(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "else"@) && a1@[4].0 == (a1@[3].1 + 4) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && tok_at(s, a1@[4].1 as int, "end"@) && (a1@[4].1 + 3) == a0.1) { }
pub broadcast proof fn w_IfThenBElseIfElse(a0: Loc, a1: [Loc; 6], a2: Box<Node>, a3: Box<Node>, a4: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::IfThenBElseIfElse(a0, a1, a2, a3, a4), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && sp(*a4).0 == a1@[3].1 && wf(*a4, s) && a1@[4].0 == sp(*a4).1 && gap(s, a1@[4].0 as int, a1@[4].1 as int) && tok_at(s, a1@[4].1 as int, "else"@) && a1@[5].0 == (a1@[4].1 + 4) && gap(s, a1@[5].0 as int, a1@[5].1 as int) && tok_at(s, a1@[5].1 as int, "end"@) && (a1@[5].1 + 3) == a0.1) { }
pub broadcast proof fn w_IfThenElseIfElseB(a0: Loc, a1: [Loc; 6], a2: Box<Node>, a3: Box<Node>, a4: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::IfThenElseIfElseB(a0, a1, a2, a3, a4), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && tok_at(s, a1@[3].1 as int, "else"@) && a1@[4].0 == (a1@[3].1 + 4) && gap(s, a1@[4].0 as int, a1@[4].1 as int) && sp(*a4).0 == a1@[4].1 && wf(*a4, s) && a1@[5].0 == sp(*a4).1 && gap(s, a1@[5].0 as int, a1@[5].1 as int) && tok_at(s, a1@[5].1 as int, "end"@) && (a1@[5].1 + 3) == a0.1) { }
pub broadcast proof fn w_IfThenBElseIfElseB(a0: Loc, a1: [Loc; 7], a2: Box<Node>, a3: Box<Node>, a4: Box<Node>, a5: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::IfThenBElseIfElseB(a0, a1, a2, a3, a4, a5), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "if"@) && a1@[0].0 == (a0.0 + 2) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && a1@[3].0 == sp(*a3).1 && gap(s, a1@[3].0 as int, a1@[3].1 as int) && sp(*a4).0 == a1@[3].1 && wf(*a4, s) && a1@[4].0 == sp(*a4).1 && gap(s, a1@[4].0 as int, a1@[4].1 as int) && tok_at(s, a1@[4].1 as int, "else"@) && a1@[5].0 == (a1@[4].1 + 4) && gap(s, a1@[5].0 as int, a1@[5].1 as int) && sp(*a5).0 == a1@[5].1 && wf(*a5, s) && a1@[6].0 == sp(*a5).1 && gap(s, a1@[6].0 as int, a1@[6].1 as int) && tok_at(s, a1@[6].1 as int, "end"@) && (a1@[6].1 + 3) == a0.1) { }
pub broadcast proof fn w_ElseIfThenVec(a0: Loc, a1: Vec<(Loc, Node)>, s: Seq<char>) ensures #[trigger] wf(Node::ElseIfThenVec(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && wf_list(a1, s, a1@.len() as int, a0.0 as int) && lend(a1@, a1@.len() as int, a0.0 as int) == a0.1) { }
pub broadcast proof fn w_ElseIfThen(a0: Loc, a1: [Loc; 2], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::ElseIfThen(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "elseif"@) && a1@[0].0 == (a0.0 + 6) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && (a1@[1].1 + 4) == a0.1) { }
pub broadcast proof fn w_ElseIfThenB(a0: Loc, a1: [Loc; 3], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::ElseIfThenB(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "elseif"@) && a1@[0].0 == (a0.0 + 6) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, "then"@) && a1@[2].0 == (a1@[1].1 + 4) && gap(s, a1@[2].0 as int, a1@[2].1 as int) && sp(*a3).0 == a1@[2].1 && wf(*a3, s) && sp(*a3).1 == a0.1) { }
pub broadcast proof fn w_RetStatNone(a0: Loc, s: Seq<char>) ensures #[trigger] wf(Node::RetStatNone(a0), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "return"@) && (a0.0 + 6) == a0.1) { }
pub broadcast proof fn w_RetStatExpr(a0: Loc, a1: [Loc; 1], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::RetStatExpr(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "return"@) && a1@[0].0 == (a0.0 + 6) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && sp(*a2).1 == a0.1) { }
pub broadcast proof fn w_RetStatNoneComma(a0: Loc, a1: [Loc; 1], s: Seq<char>) ensures #[trigger] wf(Node::RetStatNoneComma(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "return"@) && a1@[0].0 == (a0.0 + 6) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && tok_at(s, a1@[0].1 as int, ";"@) && (a1@[0].1 + 1) == a0.1) { }
pub broadcast proof fn w_RetStatExprComma(a0: Loc, a1: [Loc; 2], a2: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::RetStatExprComma(a0, a1, a2), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, "return"@) && a1@[0].0 == (a0.0 + 6) && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a2).0 == a1@[0].1 && wf(*a2, s) && a1@[1].0 == sp(*a2).1 && gap(s, a1@[1].0 as int, a1@[1].1 as int) && tok_at(s, a1@[1].1 as int, ";"@) && (a1@[1].1 + 1) == a0.1) { }
pub broadcast proof fn w_StatsRetStat(a0: Loc, a1: [Loc; 1], a2: Box<Node>, a3: Box<Node>, s: Seq<char>) ensures #[trigger] wf(Node::StatsRetStat(a0, a1, a2, a3), s) == (a0.0 <= a0.1 <= s.len() && sp(*a2).0 == a0.0 && wf(*a2, s) && a1@[0].0 == sp(*a2).1 && gap(s, a1@[0].0 as int, a1@[0].1 as int) && sp(*a3).0 == a1@[0].1 && wf(*a3, s) && sp(*a3).1 == a0.1) { }
pub broadcast proof fn w_Chunk(a0: Loc, a1: Box<Node>, a2: Loc, s: Seq<char>) ensures #[trigger] wf(Node::Chunk(a0, a1, a2), s) == ((a0.0 == 0 && gape(s, a0.0 as int, a0.1 as int)) && (sp(*a1).0 == a0.1 && wf(*a1, s)) && (a2.0 == sp(*a1).1 && gape(s, a2.0 as int, a2.1 as int)) && (a2.1 == s.len())) { }
pub broadcast proof fn w_SheBangChunk(a0: Loc, a1: Box<Node>, a2: Loc, a3: Box<Node>, a4: Loc, s: Seq<char>) ensures #[trigger] wf(Node::SheBangChunk(a0, a1, a2, a3, a4), s) == ((a0.0 == 0 && gape(s, a0.0 as int, a0.1 as int)) && (sp(*a1).0 == a0.1 && wf(*a1, s)) && (a2.0 == sp(*a1).1 && gape(s, a2.0 as int, a2.1 as int)) && (sp(*a3).0 == a2.1 && wf(*a3, s)) && (a4.0 == sp(*a3).1 && gape(s, a4.0 as int, a4.1 as int)) && (a4.1 == s.len())) { }
pub broadcast proof fn w_Semicolon(a0: Loc, s: Seq<char>) ensures #[trigger] wf(Node::Semicolon(a0), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, ";"@) && (a0.0 + 1) == a0.1) { }
pub broadcast proof fn w_SheBang(a0: Loc, a1: String, s: Seq<char>) ensures #[trigger] wf(Node::SheBang(a0, a1), s) == (a0.0 <= a0.1 <= s.len() && tok_at(s, a0.0 as int, a1@) && bang(a1@) && (if a0.1 == a0.0 + a1@.len() { a0.1 == s.len() } else { a0.1 == a0.0 + a1@.len() + 1 && s[a0.1 - 1] == '\n' })) { }
pub broadcast group g_wfv { w_BinaryOp, w_UnaryOp, w_UnaryNot, w_Var, w_RoundBrackets, w_ArgsRoundBrackets, w_ArgsRoundBracketsEmpty, w_Nil, w_False, w_True, w_VarArg, w_Break, w_Numeral, w_NormalStringLiteral, w_CharStringLiteral, w_MultiLineStringLiteral, w_TableConstructor, w_TableConstructorEmpty, w_Fields, w_FieldNamedBracket, w_FieldNamed, w_FieldSequential, w_TableIndex, w_TableMember, w_ExpList, w_NameList, w_ParList, w_VarList, w_VarRoundSuffix, w_VarSuffixList, w_FnMethodCall, w_FunctionDef, w_FuncBody, w_FuncBodyB, w_FuncPBody, w_FuncPBodyB, w_FuncName, w_FuncNameSelf, w_FuncDecl, w_LocalFuncDecl, w_StatementList, w_DoEnd, w_DoBEnd, w_VarsExprs, w_Name, w_Label, w_GoTo, w_WhileDo, w_WhileDoB, w_RepeatUntil, w_RepeatBUntil, w_ForInt, w_ForIntB, w_ForIntStep, w_ForIntStepB, w_ForRange, w_ForRangeB, w_LocalNames, w_LocalNamesExprs, w_IfThen, w_IfThenB, w_IfThenElse, w_IfThenBElse, w_IfThenElseB, w_IfThenBElseB, w_IfThenElseIf, w_IfThenBElseIf, w_IfThenElseIfElse, w_IfThenBElseIfElse, w_IfThenElseIfElseB, w_IfThenBElseIfElseB, w_ElseIfThenVec, w_ElseIfThen, w_ElseIfThenB, w_RetStatNone, w_RetStatExpr, w_RetStatNoneComma, w_RetStatExprComma, w_StatsRetStat, w_Chunk, w_SheBangChunk, w_Semicolon, w_SheBang }
// ---- lists, item by item
pub open spec fn list_item(v: Seq<(Loc, Node)>, s: Seq<char>, i: int, a: int) -> bool { v[i].0.0 == lend(v, i, a) && gap(s, v[i].0.0 as int, v[i].0.1 as int) && v[i].0.1 == sp(v[i].1).0 && wf(v[i].1, s) }
pub proof fn list_of(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int) requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < k ==> #[trigger] list_item(v@, s, i, a) ensures wf_list(v, s, k, a) decreases k
{ if k > 0 { assert(list_item(v@, s, k - 1, a)); list_of(v, s, k - 1, a); } }
pub proof fn list_get(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int, i: int) requires wf_list(v, s, k, a), 0 <= i < k <= v@.len() ensures list_item(v@, s, i, a) decreases k
{ if i < k - 1 { list_get(v, s, k - 1, a, i); } }
pub open spec fn seps_item(v: Seq<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, i: int, a: int) -> bool { sep_item(v, s, kd, i, a) && wf(v[i].1, s) }
pub proof fn sep_all(v: Vec<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, k: int, a: int) requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < k ==> #[trigger] seps_item(v@, s, kd, i, a) ensures wf_sep(v, s, kd, k, a) decreases k
{ if k > 0 { assert(seps_item(v@, s, kd, k - 1, a)); sep_all(v, s, kd, k - 1, a); } }
pub proof fn sep_get(v: Vec<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, k: int, a: int, i: int) requires wf_sep(v, s, kd, k, a), 0 <= i < k <= v@.len() ensures seps_item(v@, s, kd, i, a) decreases k
{ if i < k - 1 { sep_get(v, s, kd, k - 1, a, i); } }
