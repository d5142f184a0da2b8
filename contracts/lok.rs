// generated by gen_lok.py from enum Node
/// every position the tree names lies inside the text
pub open spec fn lok(n: Node, s: Seq<char>) -> bool decreases n, 0int {
    match n {
        Node::BinaryOp(a0, a1, a2, a3, a4) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lok(*a3, s) && lok(*a4, s),
        Node::UnaryOp(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lok(*a3, s),
        Node::UnaryNot(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lok(*a2, s),
        Node::Var(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lok(*a2, s) && lok(*a3, s),
        Node::RoundBrackets(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lok(*a2, s),
        Node::ArgsRoundBrackets(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lok(*a2, s),
        Node::ArgsRoundBracketsEmpty(a0, a1) => lvalid(a0, s) && lvalid(a1@[0], s),
        Node::Nil(a0) => lvalid(a0, s),
        Node::False(a0) => lvalid(a0, s),
        Node::True(a0) => lvalid(a0, s),
        Node::VarArg(a0) => lvalid(a0, s),
        Node::Break(a0) => lvalid(a0, s),
        Node::Numeral(a0, a1) => lvalid(a0, s),
        Node::NormalStringLiteral(a0, a1) => lvalid(a0, s),
        Node::CharStringLiteral(a0, a1) => lvalid(a0, s),
        Node::MultiLineStringLiteral(a0, a1, a2) => lvalid(a0, s),
        Node::TableConstructor(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lok(*a2, s),
        Node::TableConstructorEmpty(a0, a1) => lvalid(a0, s) && lvalid(a1@[0], s),
        Node::Fields(a0, a1, a2) => lvalid(a0, s) && lok4(a1, a1@.len() as int, s),
        Node::FieldNamedBracket(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lok(*a2, s) && lok(*a3, s),
        Node::FieldNamed(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lok(*a2, s) && lok(*a3, s),
        Node::FieldSequential(a0, a1) => lvalid(a0, s) && lok(*a1, s),
        Node::TableIndex(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lok(*a2, s),
        Node::TableMember(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lok(*a2, s),
        Node::ExpList(a0, a1) => lvalid(a0, s) && lok4(a1, a1@.len() as int, s),
        Node::NameList(a0, a1) => lvalid(a0, s) && lok4(a1, a1@.len() as int, s),
        Node::ParList(a0, a1) => lvalid(a0, s) && lok4(a1, a1@.len() as int, s),
        Node::VarList(a0, a1) => lvalid(a0, s) && lok4(a1, a1@.len() as int, s),
        Node::VarRoundSuffix(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lok(*a2, s) && lok(*a3, s),
        Node::VarSuffixList(a0, a1) => lvalid(a0, s) && lok2(a1, a1@.len() as int, s),
        Node::FnMethodCall(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lok(*a2, s) && lok(*a3, s),
        Node::FunctionDef(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lok(*a2, s),
        Node::FuncBody(a0, a1) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s),
        Node::FuncBodyB(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lok(*a2, s),
        Node::FuncPBody(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lok(*a2, s),
        Node::FuncPBodyB(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lok(*a2, s) && lok(*a3, s),
        Node::FuncName(a0, a1) => lvalid(a0, s) && lok4(a1, a1@.len() as int, s),
        Node::FuncNameSelf(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lok4(a2, a2@.len() as int, s) && lok(*a3, s),
        Node::FuncDecl(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lok(*a2, s) && lok(*a3, s),
        Node::LocalFuncDecl(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lok(*a2, s) && lok(*a3, s),
        Node::StatementList(a0, a1) => lvalid(a0, s) && lok2(a1, a1@.len() as int, s),
        Node::DoEnd(a0, a1) => lvalid(a0, s) && lvalid(a1@[0], s),
        Node::DoBEnd(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lok(*a2, s),
        Node::VarsExprs(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lok(*a2, s) && lok(*a3, s),
        Node::Name(a0, a1) => lvalid(a0, s),
        Node::Label(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lok(*a2, s),
        Node::GoTo(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lok(*a2, s),
        Node::WhileDo(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lok(*a2, s),
        Node::WhileDoB(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lok(*a2, s) && lok(*a3, s),
        Node::RepeatUntil(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lok(*a2, s),
        Node::RepeatBUntil(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lok(*a2, s) && lok(*a3, s),
        Node::ForInt(a0, a1, a2, a3, a4) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lvalid(a1@[4], s) && lvalid(a1@[5], s) && lvalid(a1@[6], s) && lok(*a2, s) && lok(*a3, s) && lok(*a4, s),
        Node::ForIntB(a0, a1, a2, a3, a4, a5) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lvalid(a1@[4], s) && lvalid(a1@[5], s) && lvalid(a1@[6], s) && lvalid(a1@[7], s) && lok(*a2, s) && lok(*a3, s) && lok(*a4, s) && lok(*a5, s),
        Node::ForIntStep(a0, a1, a2, a3, a4, a5) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lvalid(a1@[4], s) && lvalid(a1@[5], s) && lvalid(a1@[6], s) && lvalid(a1@[7], s) && lvalid(a1@[8], s) && lok(*a2, s) && lok(*a3, s) && lok(*a4, s) && lok(*a5, s),
        Node::ForIntStepB(a0, a1, a2, a3, a4, a5, a6) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lvalid(a1@[4], s) && lvalid(a1@[5], s) && lvalid(a1@[6], s) && lvalid(a1@[7], s) && lvalid(a1@[8], s) && lvalid(a1@[9], s) && lok(*a2, s) && lok(*a3, s) && lok(*a4, s) && lok(*a5, s) && lok(*a6, s),
        Node::ForRange(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lvalid(a1@[4], s) && lok(*a2, s) && lok(*a3, s),
        Node::ForRangeB(a0, a1, a2, a3, a4) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lvalid(a1@[4], s) && lvalid(a1@[5], s) && lok(*a2, s) && lok(*a3, s) && lok(*a4, s),
        Node::LocalNames(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lok(*a2, s),
        Node::LocalNamesExprs(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lok(*a2, s) && lok(*a3, s),
        Node::IfThen(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lok(*a2, s),
        Node::IfThenB(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lok(*a2, s) && lok(*a3, s),
        Node::IfThenElse(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lok(*a2, s),
        Node::IfThenBElse(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lvalid(a1@[4], s) && lok(*a2, s) && lok(*a3, s),
        Node::IfThenElseB(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lvalid(a1@[4], s) && lok(*a2, s) && lok(*a3, s),
        Node::IfThenBElseB(a0, a1, a2, a3, a4) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lvalid(a1@[4], s) && lvalid(a1@[5], s) && lok(*a2, s) && lok(*a3, s) && lok(*a4, s),
        Node::IfThenElseIf(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lok(*a2, s) && lok(*a3, s),
        Node::IfThenBElseIf(a0, a1, a2, a3, a4) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lvalid(a1@[4], s) && lok(*a2, s) && lok(*a3, s) && lok(*a4, s),
        Node::IfThenElseIfElse(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lvalid(a1@[4], s) && lok(*a2, s) && lok(*a3, s),
        Node::IfThenBElseIfElse(a0, a1, a2, a3, a4) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lvalid(a1@[4], s) && lvalid(a1@[5], s) && lok(*a2, s) && lok(*a3, s) && lok(*a4, s),
        Node::IfThenElseIfElseB(a0, a1, a2, a3, a4) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lvalid(a1@[4], s) && lvalid(a1@[5], s) && lok(*a2, s) && lok(*a3, s) && lok(*a4, s),
        Node::IfThenBElseIfElseB(a0, a1, a2, a3, a4, a5) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lvalid(a1@[3], s) && lvalid(a1@[4], s) && lvalid(a1@[5], s) && lvalid(a1@[6], s) && lok(*a2, s) && lok(*a3, s) && lok(*a4, s) && lok(*a5, s),
        Node::ElseIfThenVec(a0, a1) => lvalid(a0, s) && lok2(a1, a1@.len() as int, s),
        Node::ElseIfThen(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lok(*a2, s),
        Node::ElseIfThenB(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lvalid(a1@[2], s) && lok(*a2, s) && lok(*a3, s),
        Node::RetStatNone(a0) => lvalid(a0, s),
        Node::RetStatExpr(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lok(*a2, s),
        Node::RetStatNoneComma(a0, a1) => lvalid(a0, s) && lvalid(a1@[0], s),
        Node::RetStatExprComma(a0, a1, a2) => lvalid(a0, s) && lvalid(a1@[0], s) && lvalid(a1@[1], s) && lok(*a2, s),
        Node::StatsRetStat(a0, a1, a2, a3) => lvalid(a0, s) && lvalid(a1@[0], s) && lok(*a2, s) && lok(*a3, s),
        Node::Chunk(a0, a1, a2) => lvalid(a0, s) && lok(*a1, s) && lvalid(a2, s),
        Node::SheBangChunk(a0, a1, a2, a3, a4) => lvalid(a0, s) && lok(*a1, s) && lvalid(a2, s) && lok(*a3, s) && lvalid(a4, s),
        Node::Semicolon(a0) => lvalid(a0, s),
        Node::SheBang(a0, a1) => lvalid(a0, s),
    }
}
pub open spec fn lok4(v: Vec<(Loc, Node, Loc, String)>, k: int, s: Seq<char>) -> bool decreases v, k { if k <= 0 || k > v@.len() { true } else { lok4(v, k - 1, s) && lvalid(v@[k - 1].0, s) && lok(v@[k - 1].1, s) && lvalid(v@[k - 1].2, s) } }
pub open spec fn lok2(v: Vec<(Loc, Node)>, k: int, s: Seq<char>) -> bool decreases v, k { if k <= 0 || k > v@.len() { true } else { lok2(v, k - 1, s) && lvalid(v@[k - 1].0, s) && lok(v@[k - 1].1, s) } }
pub proof fn lok4_get(v: Vec<(Loc, Node, Loc, String)>, k: int, s: Seq<char>) requires lok4(v, k, s), k <= v@.len() ensures forall|i: int| 0 <= i < k ==> lvalid((#[trigger] v@[i]).0, s) && lok(v@[i].1, s) && lvalid(v@[i].2, s) decreases k
{ if k > 0 { lok4_get(v, k - 1, s); } }
pub proof fn lok2_get(v: Vec<(Loc, Node)>, k: int, s: Seq<char>) requires lok2(v, k, s), k <= v@.len() ensures forall|i: int| 0 <= i < k ==> lvalid((#[trigger] v@[i]).0, s) && lok(v@[i].1, s) decreases k
{ if k > 0 { lok2_get(v, k - 1, s); } }
pub open spec fn lstep(n: Node, s: Seq<char>) -> bool {
    match n {
        Node::BinaryOp(a0, a1, a2, a3, a4) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lok(*a3, s)) && (lok(*a4, s)),
        Node::UnaryOp(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lok(*a3, s)),
        Node::UnaryNot(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lok(*a2, s)),
        Node::Var(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::RoundBrackets(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lok(*a2, s)),
        Node::ArgsRoundBrackets(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lok(*a2, s)),
        Node::ArgsRoundBracketsEmpty(a0, a1) => (lvalid(a0, s)) && (lvalid(a1@[0], s)),
        Node::Nil(a0) => (lvalid(a0, s)),
        Node::False(a0) => (lvalid(a0, s)),
        Node::True(a0) => (lvalid(a0, s)),
        Node::VarArg(a0) => (lvalid(a0, s)),
        Node::Break(a0) => (lvalid(a0, s)),
        Node::Numeral(a0, a1) => (lvalid(a0, s)),
        Node::NormalStringLiteral(a0, a1) => (lvalid(a0, s)),
        Node::CharStringLiteral(a0, a1) => (lvalid(a0, s)),
        Node::MultiLineStringLiteral(a0, a1, a2) => (lvalid(a0, s)),
        Node::TableConstructor(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lok(*a2, s)),
        Node::TableConstructorEmpty(a0, a1) => (lvalid(a0, s)) && (lvalid(a1@[0], s)),
        Node::Fields(a0, a1, a2) => (lvalid(a0, s)) && (forall|i: int| 0 <= i < a1@.len() ==> lvalid((#[trigger] a1@[i]).0, s) && lok(a1@[i].1, s) && lvalid(a1@[i].2, s)),
        Node::FieldNamedBracket(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::FieldNamed(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::FieldSequential(a0, a1) => (lvalid(a0, s)) && (lok(*a1, s)),
        Node::TableIndex(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lok(*a2, s)),
        Node::TableMember(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lok(*a2, s)),
        Node::ExpList(a0, a1) => (lvalid(a0, s)) && (forall|i: int| 0 <= i < a1@.len() ==> lvalid((#[trigger] a1@[i]).0, s) && lok(a1@[i].1, s) && lvalid(a1@[i].2, s)),
        Node::NameList(a0, a1) => (lvalid(a0, s)) && (forall|i: int| 0 <= i < a1@.len() ==> lvalid((#[trigger] a1@[i]).0, s) && lok(a1@[i].1, s) && lvalid(a1@[i].2, s)),
        Node::ParList(a0, a1) => (lvalid(a0, s)) && (forall|i: int| 0 <= i < a1@.len() ==> lvalid((#[trigger] a1@[i]).0, s) && lok(a1@[i].1, s) && lvalid(a1@[i].2, s)),
        Node::VarList(a0, a1) => (lvalid(a0, s)) && (forall|i: int| 0 <= i < a1@.len() ==> lvalid((#[trigger] a1@[i]).0, s) && lok(a1@[i].1, s) && lvalid(a1@[i].2, s)),
        Node::VarRoundSuffix(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::VarSuffixList(a0, a1) => (lvalid(a0, s)) && (forall|i: int| 0 <= i < a1@.len() ==> lvalid((#[trigger] a1@[i]).0, s) && lok(a1@[i].1, s)),
        Node::FnMethodCall(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::FunctionDef(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lok(*a2, s)),
        Node::FuncBody(a0, a1) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)),
        Node::FuncBodyB(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lok(*a2, s)),
        Node::FuncPBody(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lok(*a2, s)),
        Node::FuncPBodyB(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::FuncName(a0, a1) => (lvalid(a0, s)) && (forall|i: int| 0 <= i < a1@.len() ==> lvalid((#[trigger] a1@[i]).0, s) && lok(a1@[i].1, s) && lvalid(a1@[i].2, s)),
        Node::FuncNameSelf(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (forall|i: int| 0 <= i < a2@.len() ==> lvalid((#[trigger] a2@[i]).0, s) && lok(a2@[i].1, s) && lvalid(a2@[i].2, s)) && (lok(*a3, s)),
        Node::FuncDecl(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::LocalFuncDecl(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::StatementList(a0, a1) => (lvalid(a0, s)) && (forall|i: int| 0 <= i < a1@.len() ==> lvalid((#[trigger] a1@[i]).0, s) && lok(a1@[i].1, s)),
        Node::DoEnd(a0, a1) => (lvalid(a0, s)) && (lvalid(a1@[0], s)),
        Node::DoBEnd(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lok(*a2, s)),
        Node::VarsExprs(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::Name(a0, a1) => (lvalid(a0, s)),
        Node::Label(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lok(*a2, s)),
        Node::GoTo(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lok(*a2, s)),
        Node::WhileDo(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lok(*a2, s)),
        Node::WhileDoB(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::RepeatUntil(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lok(*a2, s)),
        Node::RepeatBUntil(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::ForInt(a0, a1, a2, a3, a4) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lvalid(a1@[4], s)) && (lvalid(a1@[5], s)) && (lvalid(a1@[6], s)) && (lok(*a2, s)) && (lok(*a3, s)) && (lok(*a4, s)),
        Node::ForIntB(a0, a1, a2, a3, a4, a5) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lvalid(a1@[4], s)) && (lvalid(a1@[5], s)) && (lvalid(a1@[6], s)) && (lvalid(a1@[7], s)) && (lok(*a2, s)) && (lok(*a3, s)) && (lok(*a4, s)) && (lok(*a5, s)),
        Node::ForIntStep(a0, a1, a2, a3, a4, a5) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lvalid(a1@[4], s)) && (lvalid(a1@[5], s)) && (lvalid(a1@[6], s)) && (lvalid(a1@[7], s)) && (lvalid(a1@[8], s)) && (lok(*a2, s)) && (lok(*a3, s)) && (lok(*a4, s)) && (lok(*a5, s)),
        Node::ForIntStepB(a0, a1, a2, a3, a4, a5, a6) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lvalid(a1@[4], s)) && (lvalid(a1@[5], s)) && (lvalid(a1@[6], s)) && (lvalid(a1@[7], s)) && (lvalid(a1@[8], s)) && (lvalid(a1@[9], s)) && (lok(*a2, s)) && (lok(*a3, s)) && (lok(*a4, s)) && (lok(*a5, s)) && (lok(*a6, s)),
        Node::ForRange(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lvalid(a1@[4], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::ForRangeB(a0, a1, a2, a3, a4) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lvalid(a1@[4], s)) && (lvalid(a1@[5], s)) && (lok(*a2, s)) && (lok(*a3, s)) && (lok(*a4, s)),
        Node::LocalNames(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lok(*a2, s)),
        Node::LocalNamesExprs(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::IfThen(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lok(*a2, s)),
        Node::IfThenB(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::IfThenElse(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lok(*a2, s)),
        Node::IfThenBElse(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lvalid(a1@[4], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::IfThenElseB(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lvalid(a1@[4], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::IfThenBElseB(a0, a1, a2, a3, a4) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lvalid(a1@[4], s)) && (lvalid(a1@[5], s)) && (lok(*a2, s)) && (lok(*a3, s)) && (lok(*a4, s)),
        Node::IfThenElseIf(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::IfThenBElseIf(a0, a1, a2, a3, a4) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lvalid(a1@[4], s)) && (lok(*a2, s)) && (lok(*a3, s)) && (lok(*a4, s)),
        Node::IfThenElseIfElse(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lvalid(a1@[4], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::IfThenBElseIfElse(a0, a1, a2, a3, a4) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lvalid(a1@[4], s)) && (lvalid(a1@[5], s)) && (lok(*a2, s)) && (lok(*a3, s)) && (lok(*a4, s)),
        Node::IfThenElseIfElseB(a0, a1, a2, a3, a4) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lvalid(a1@[4], s)) && (lvalid(a1@[5], s)) && (lok(*a2, s)) && (lok(*a3, s)) && (lok(*a4, s)),
        Node::IfThenBElseIfElseB(a0, a1, a2, a3, a4, a5) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lvalid(a1@[3], s)) && (lvalid(a1@[4], s)) && (lvalid(a1@[5], s)) && (lvalid(a1@[6], s)) && (lok(*a2, s)) && (lok(*a3, s)) && (lok(*a4, s)) && (lok(*a5, s)),
        Node::ElseIfThenVec(a0, a1) => (lvalid(a0, s)) && (forall|i: int| 0 <= i < a1@.len() ==> lvalid((#[trigger] a1@[i]).0, s) && lok(a1@[i].1, s)),
        Node::ElseIfThen(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lok(*a2, s)),
        Node::ElseIfThenB(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lvalid(a1@[2], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::RetStatNone(a0) => (lvalid(a0, s)),
        Node::RetStatExpr(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lok(*a2, s)),
        Node::RetStatNoneComma(a0, a1) => (lvalid(a0, s)) && (lvalid(a1@[0], s)),
        Node::RetStatExprComma(a0, a1, a2) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lvalid(a1@[1], s)) && (lok(*a2, s)),
        Node::StatsRetStat(a0, a1, a2, a3) => (lvalid(a0, s)) && (lvalid(a1@[0], s)) && (lok(*a2, s)) && (lok(*a3, s)),
        Node::Chunk(a0, a1, a2) => (lvalid(a0, s)) && (lok(*a1, s)) && (lvalid(a2, s)),
        Node::SheBangChunk(a0, a1, a2, a3, a4) => (lvalid(a0, s)) && (lok(*a1, s)) && (lvalid(a2, s)) && (lok(*a3, s)) && (lvalid(a4, s)),
        Node::Semicolon(a0) => (lvalid(a0, s)),
        Node::SheBang(a0, a1) => (lvalid(a0, s)),
    }
}
pub proof fn lok_step(n: Node, s: Seq<char>) requires lok(n, s) ensures lstep(n, s)
{ match n {
    Node::ExpList(_, v) | Node::NameList(_, v) | Node::VarList(_, v) | Node::ParList(_, v) | Node::FuncName(_, v) | Node::FuncNameSelf(_, _, v, _) | Node::Fields(_, v, _) => lok4_get(v, v@.len() as int, s),
    Node::VarSuffixList(_, v) | Node::ElseIfThenVec(_, v) | Node::StatementList(_, v) => lok2_get(v, v@.len() as int, s),
    _ => {} } }
