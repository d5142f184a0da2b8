// generated by gen_adj.py from enum Node
/// may the character a stand directly in front of the construct
pub open spec fn starts(n: Node, a: char) -> bool decreases n {
    match n {
        Node::BinaryOp(_, _, _, a3, _) => starts(*a3, a),
        Node::Var(_, _, a2, _) => starts(*a2, a),
        Node::RoundBrackets(_, _, _) => true,
        Node::ArgsRoundBrackets(_, _, _) => true,
        Node::ArgsRoundBracketsEmpty(_, _) => true,
        Node::NormalStringLiteral(_, _) => true,
        Node::CharStringLiteral(_, _) => true,
        Node::MultiLineStringLiteral(_, _, _) => a != '[',
        Node::TableConstructor(_, _, _, _) => true,
        Node::TableConstructorEmpty(_, _) => true,
        Node::Fields(_, a1, _) => if a1@.len() > 0 { starts(a1@[0].1, a) } else { true },
        Node::FieldNamedBracket(_, _, _, _) => a != '[',
        Node::FieldNamed(_, _, a2, _) => starts(*a2, a),
        Node::FieldSequential(_, a1) => starts(*a1, a),
        Node::TableIndex(_, _, _) => a != '[',
        Node::TableMember(_, _, _) => true,
        Node::ExpList(_, a1) => if a1@.len() > 0 { starts(a1@[0].1, a) } else { true },
        Node::NameList(_, a1) => if a1@.len() > 0 { starts(a1@[0].1, a) } else { true },
        Node::ParList(_, a1) => if a1@.len() > 0 { starts(a1@[0].1, a) } else { true },
        Node::VarList(_, a1) => if a1@.len() > 0 { starts(a1@[0].1, a) } else { true },
        Node::VarRoundSuffix(_, _, _, _) => true,
        Node::VarSuffixList(_, a1) => if a1@.len() > 0 { starts(a1@[0].1, a) } else { true },
        Node::FnMethodCall(_, _, _, _) => true,
        Node::FuncBody(_, _) => true,
        Node::FuncBodyB(_, _, _) => true,
        Node::FuncPBody(_, _, _) => true,
        Node::FuncPBodyB(_, _, _, _) => true,
        Node::FuncName(_, a1) => if a1@.len() > 0 { starts(a1@[0].1, a) } else { true },
        Node::FuncNameSelf(_, _, a2, _) => if a2@.len() > 0 { starts(a2@[0].1, a) } else { true },
        Node::StatementList(_, a1) => if a1@.len() > 0 { starts(a1@[0].1, a) } else { true },
        Node::VarsExprs(_, _, a2, _) => starts(*a2, a),
        Node::Label(_, _, _) => true,
        Node::ElseIfThenVec(_, a1) => if a1@.len() > 0 { starts(a1@[0].1, a) } else { true },
        Node::StatsRetStat(_, _, a2, _) => starts(*a2, a),
        Node::Chunk(_, a1, _) => starts(*a1, a),
        Node::SheBangChunk(_, a1, _, _, _) => starts(*a1, a),
        Node::Semicolon(_) => true,
        Node::SheBang(_, _) => true,
        Node::UnaryOp(..) => !word(a) && a != '-',
        _ => !word(a),
    }
}
/// constructs that start with a bracket, a quote or another sign that no word runs into
pub open spec fn opn(n: Node) -> bool {
    match n { Node::ArgsRoundBrackets(..) | Node::ArgsRoundBracketsEmpty(..) | Node::TableConstructor(..) | Node::TableConstructorEmpty(..) | Node::TableMember(..) | Node::FnMethodCall(..) | Node::NormalStringLiteral(..) | Node::CharStringLiteral(..) | Node::FuncBody(..) | Node::FuncBodyB(..) | Node::FuncPBody(..) | Node::FuncPBodyB(..) | Node::RoundBrackets(..) | Node::VarRoundSuffix(..) | Node::Label(..) | Node::Semicolon(..) | Node::SheBang(..) | Node::TableIndex(..) | Node::MultiLineStringLiteral(..) => true, _ => false }
}
/// empty lists, and chunks: they may write nothing
pub open spec fn maye(n: Node) -> bool { match n { Node::StatementList(_, v) => v@.len() == 0, Node::VarSuffixList(..) | Node::ElseIfThenVec(..) | Node::Chunk(..) | Node::SheBangChunk(..) => true, _ => false } }
/// an expression
pub open spec fn ex(n: Node) -> bool decreases n {
    match n {
        Node::BinaryOp(_, _, _, a3, _) => ex(*a3),
        Node::Fields(_, _, _) => false,
        Node::FieldNamedBracket(_, _, _, _) => false,
        Node::FieldNamed(_, _, _, _) => false,
        Node::FieldSequential(_, _) => false,
        Node::TableIndex(_, _, _) => false,
        Node::ExpList(_, _) => false,
        Node::NameList(_, _) => false,
        Node::ParList(_, _) => false,
        Node::VarList(_, _) => false,
        Node::VarSuffixList(_, _) => false,
        Node::FuncName(_, _) => false,
        Node::FuncNameSelf(_, _, _, _) => false,
        Node::StatementList(_, _) => false,
        Node::VarsExprs(_, _, _, _) => false,
        Node::ElseIfThenVec(_, _) => false,
        Node::StatsRetStat(_, _, _, _) => false,
        Node::Chunk(_, _, _) => false,
        Node::SheBangChunk(_, _, _, _, _) => false,
        _ => true,
    }
}
/// a tree of the grammar's shape, as far as it matters here
pub open spec fn sh(n: Node) -> bool decreases n, 0int {
    match n {
        Node::BinaryOp(a0, a1, a2, a3, a4) => optok(a2.0@) && sh(*a3) && sh(*a4),
        Node::UnaryOp(a0, a1, a2, a3) => optok(a2.0@) && !maye(*a3) && starts(*a3, a2.0@.last()) && sh(*a3),
        Node::UnaryNot(a0, a1, a2) => sh(*a2),
        Node::Var(a0, a1, a2, a3) => starts(*a2, '[') && !maye(*a2) && vs(*a3) && sh(*a2) && sh(*a3),
        Node::RoundBrackets(a0, a1, a2) => sh(*a2),
        Node::ArgsRoundBrackets(a0, a1, a2) => sh(*a2),
        Node::Numeral(a0, a1) => txt(a1@),
        Node::TableConstructor(a0, a1, a2, a3) => sh(*a2),
        Node::Fields(a0, a1, a2) => a1@.len() > 0 && sh4(a1, a1@.len() as int),
        Node::FieldNamedBracket(a0, a1, a2, a3) => ex(*a2) && sh(*a2) && sh(*a3),
        Node::FieldNamed(a0, a1, a2, a3) => sh(*a2) && sh(*a3),
        Node::FieldSequential(a0, a1) => !maye(*a1) && sh(*a1),
        Node::TableIndex(a0, a1, a2) => ex(*a2) && sh(*a2),
        Node::TableMember(a0, a1, a2) => true && sh(*a2),
        Node::ExpList(a0, a1) => a1@.len() > 0 && sh4(a1, a1@.len() as int),
        Node::NameList(a0, a1) => a1@.len() > 0 && sh4(a1, a1@.len() as int),
        Node::ParList(a0, a1) => a1@.len() > 0 && sh4(a1, a1@.len() as int),
        Node::VarList(a0, a1) => a1@.len() > 0 && sh4(a1, a1@.len() as int),
        Node::VarRoundSuffix(a0, a1, a2, a3) => sh(*a2) && sh(*a3),
        Node::VarSuffixList(a0, a1) => (a1@.len() > 0 ==> opn(a1@[0].1)) && sh2(a1, a1@.len() as int),
        Node::FnMethodCall(a0, a1, a2, a3) => !maye(*a2) && opn(*a3) && sh(*a2) && sh(*a3),
        Node::FunctionDef(a0, a1, a2) => opn(*a2) && sh(*a2),
        Node::FuncBodyB(a0, a1, a2) => sh(*a2),
        Node::FuncPBody(a0, a1, a2) => sh(*a2),
        Node::FuncPBodyB(a0, a1, a2, a3) => sh(*a2) && sh(*a3),
        Node::FuncName(a0, a1) => a1@.len() > 0 && sh4(a1, a1@.len() as int),
        Node::FuncNameSelf(a0, a1, a2, a3) => a2@.len() > 0 && sh4(a2, a2@.len() as int) && sh(*a3),
        Node::FuncDecl(a0, a1, a2, a3) => !maye(*a2) && opn(*a3) && sh(*a2) && sh(*a3),
        Node::LocalFuncDecl(a0, a1, a2, a3) => !maye(*a2) && opn(*a3) && sh(*a2) && sh(*a3),
        Node::StatementList(a0, a1) => sh2(a1, a1@.len() as int),
        Node::DoBEnd(a0, a1, a2) => sh(*a2),
        Node::VarsExprs(a0, a1, a2, a3) => sh(*a2) && sh(*a3),
        Node::Name(a0, a1) => txt(a1@),
        Node::Label(a0, a1, a2) => sh(*a2),
        Node::GoTo(a0, a1, a2) => sh(*a2),
        Node::WhileDo(a0, a1, a2) => sh(*a2),
        Node::WhileDoB(a0, a1, a2, a3) => sh(*a2) && sh(*a3),
        Node::RepeatUntil(a0, a1, a2) => sh(*a2),
        Node::RepeatBUntil(a0, a1, a2, a3) => sh(*a2) && sh(*a3),
        Node::ForInt(a0, a1, a2, a3, a4) => sh(*a2) && sh(*a3) && sh(*a4),
        Node::ForIntB(a0, a1, a2, a3, a4, a5) => sh(*a2) && sh(*a3) && sh(*a4) && sh(*a5),
        Node::ForIntStep(a0, a1, a2, a3, a4, a5) => sh(*a2) && sh(*a3) && sh(*a4) && sh(*a5),
        Node::ForIntStepB(a0, a1, a2, a3, a4, a5, a6) => sh(*a2) && sh(*a3) && sh(*a4) && sh(*a5) && sh(*a6),
        Node::ForRange(a0, a1, a2, a3) => sh(*a2) && sh(*a3),
        Node::ForRangeB(a0, a1, a2, a3, a4) => sh(*a2) && sh(*a3) && sh(*a4),
        Node::LocalNames(a0, a1, a2) => sh(*a2),
        Node::LocalNamesExprs(a0, a1, a2, a3) => sh(*a2) && sh(*a3),
        Node::IfThen(a0, a1, a2) => sh(*a2),
        Node::IfThenB(a0, a1, a2, a3) => sh(*a2) && sh(*a3),
        Node::IfThenElse(a0, a1, a2) => sh(*a2),
        Node::IfThenBElse(a0, a1, a2, a3) => sh(*a2) && sh(*a3),
        Node::IfThenElseB(a0, a1, a2, a3) => sh(*a2) && sh(*a3),
        Node::IfThenBElseB(a0, a1, a2, a3, a4) => sh(*a2) && sh(*a3) && sh(*a4),
        Node::IfThenElseIf(a0, a1, a2, a3) => sh(*a2) && sh(*a3),
        Node::IfThenBElseIf(a0, a1, a2, a3, a4) => sh(*a2) && sh(*a3) && sh(*a4),
        Node::IfThenElseIfElse(a0, a1, a2, a3) => sh(*a2) && sh(*a3),
        Node::IfThenBElseIfElse(a0, a1, a2, a3, a4) => sh(*a2) && sh(*a3) && sh(*a4),
        Node::IfThenElseIfElseB(a0, a1, a2, a3, a4) => sh(*a2) && sh(*a3) && sh(*a4),
        Node::IfThenBElseIfElseB(a0, a1, a2, a3, a4, a5) => sh(*a2) && sh(*a3) && sh(*a4) && sh(*a5),
        Node::ElseIfThenVec(a0, a1) => sh2(a1, a1@.len() as int),
        Node::ElseIfThen(a0, a1, a2) => sh(*a2),
        Node::ElseIfThenB(a0, a1, a2, a3) => sh(*a2) && sh(*a3),
        Node::RetStatExpr(a0, a1, a2) => sh(*a2),
        Node::RetStatExprComma(a0, a1, a2) => sh(*a2),
        Node::StatsRetStat(a0, a1, a2, a3) => sh(*a2) && sh(*a3),
        Node::Chunk(a0, a1, a2) => sh(*a1),
        Node::SheBangChunk(a0, a1, a2, a3, a4) => *a1 is SheBang && sh(*a1) && sh(*a3),
        _ => true,
    }
}
pub open spec fn sh2(v: Vec<(Loc, Node)>, k: int) -> bool decreases v, k { if k <= 0 || k > v@.len() { true } else { sh2(v, k - 1) && sh(v@[k - 1].1) && !maye(v@[k - 1].1) } }
pub open spec fn sh4(v: Vec<(Loc, Node, Loc, String)>, k: int) -> bool decreases v, k { if k <= 0 || k > v@.len() { true } else { sh4(v, k - 1) && sh(v@[k - 1].1) && !maye(v@[k - 1].1) && (v@[k - 1].3@.len() > 0 ==> sept(v@[k - 1].3@)) && (k - 1 < v@.len() - 1 ==> v@[k - 1].3@.len() > 0) } }
pub proof fn sh2_at(v: Vec<(Loc, Node)>, k: int) requires sh2(v, k), k <= v@.len() ensures forall|i: int| 0 <= i < k ==> sh((#[trigger] v@[i]).1) && !maye(v@[i].1) decreases k { if k > 0 { sh2_at(v, k - 1); } }
pub proof fn sh4_at(v: Vec<(Loc, Node, Loc, String)>, k: int) requires sh4(v, k), k <= v@.len()
    ensures forall|i: int| 0 <= i < k ==> sh((#[trigger] v@[i]).1) && !maye(v@[i].1) && (v@[i].3@.len() > 0 ==> sept(v@[i].3@)) && (i < v@.len() - 1 ==> v@[i].3@.len() > 0) decreases k { if k > 0 { sh4_at(v, k - 1); } }
pub open spec fn shs(n: Node) -> bool {
    match n {
        Node::BinaryOp(a0, a1, a2, a3, a4) => (optok(a2.0@)) && (sh(*a3)) && (sh(*a4)),
        Node::UnaryOp(a0, a1, a2, a3) => (optok(a2.0@) && !maye(*a3) && starts(*a3, a2.0@.last())) && (sh(*a3)),
        Node::UnaryNot(a0, a1, a2) => (sh(*a2)),
        Node::Var(a0, a1, a2, a3) => (starts(*a2, '[') && !maye(*a2) && vs(*a3)) && (sh(*a2)) && (sh(*a3)),
        Node::RoundBrackets(a0, a1, a2) => (sh(*a2)),
        Node::ArgsRoundBrackets(a0, a1, a2) => (sh(*a2)),
        Node::Numeral(a0, a1) => (txt(a1@)),
        Node::TableConstructor(a0, a1, a2, a3) => (sh(*a2)),
        Node::Fields(a0, a1, a2) => (a1@.len() > 0) && (forall|i: int| 0 <= i < a1@.len() ==> sh((#[trigger] a1@[i]).1) && !maye(a1@[i].1) && (a1@[i].3@.len() > 0 ==> sept(a1@[i].3@)) && (i < a1@.len() - 1 ==> a1@[i].3@.len() > 0)),
        Node::FieldNamedBracket(a0, a1, a2, a3) => (ex(*a2)) && (sh(*a2)) && (sh(*a3)),
        Node::FieldNamed(a0, a1, a2, a3) => (sh(*a2)) && (sh(*a3)),
        Node::FieldSequential(a0, a1) => (!maye(*a1)) && (sh(*a1)),
        Node::TableIndex(a0, a1, a2) => (ex(*a2)) && (sh(*a2)),
        Node::TableMember(a0, a1, a2) => (true) && (sh(*a2)),
        Node::ExpList(a0, a1) => (a1@.len() > 0) && (forall|i: int| 0 <= i < a1@.len() ==> sh((#[trigger] a1@[i]).1) && !maye(a1@[i].1) && (a1@[i].3@.len() > 0 ==> sept(a1@[i].3@)) && (i < a1@.len() - 1 ==> a1@[i].3@.len() > 0)),
        Node::NameList(a0, a1) => (a1@.len() > 0) && (forall|i: int| 0 <= i < a1@.len() ==> sh((#[trigger] a1@[i]).1) && !maye(a1@[i].1) && (a1@[i].3@.len() > 0 ==> sept(a1@[i].3@)) && (i < a1@.len() - 1 ==> a1@[i].3@.len() > 0)),
        Node::ParList(a0, a1) => (a1@.len() > 0) && (forall|i: int| 0 <= i < a1@.len() ==> sh((#[trigger] a1@[i]).1) && !maye(a1@[i].1) && (a1@[i].3@.len() > 0 ==> sept(a1@[i].3@)) && (i < a1@.len() - 1 ==> a1@[i].3@.len() > 0)),
        Node::VarList(a0, a1) => (a1@.len() > 0) && (forall|i: int| 0 <= i < a1@.len() ==> sh((#[trigger] a1@[i]).1) && !maye(a1@[i].1) && (a1@[i].3@.len() > 0 ==> sept(a1@[i].3@)) && (i < a1@.len() - 1 ==> a1@[i].3@.len() > 0)),
        Node::VarRoundSuffix(a0, a1, a2, a3) => (sh(*a2)) && (sh(*a3)),
        Node::VarSuffixList(a0, a1) => ((a1@.len() > 0 ==> opn(a1@[0].1))) && (forall|i: int| 0 <= i < a1@.len() ==> sh((#[trigger] a1@[i]).1) && !maye(a1@[i].1)),
        Node::FnMethodCall(a0, a1, a2, a3) => (!maye(*a2) && opn(*a3)) && (sh(*a2)) && (sh(*a3)),
        Node::FunctionDef(a0, a1, a2) => (opn(*a2)) && (sh(*a2)),
        Node::FuncBodyB(a0, a1, a2) => (sh(*a2)),
        Node::FuncPBody(a0, a1, a2) => (sh(*a2)),
        Node::FuncPBodyB(a0, a1, a2, a3) => (sh(*a2)) && (sh(*a3)),
        Node::FuncName(a0, a1) => (a1@.len() > 0) && (forall|i: int| 0 <= i < a1@.len() ==> sh((#[trigger] a1@[i]).1) && !maye(a1@[i].1) && (a1@[i].3@.len() > 0 ==> sept(a1@[i].3@)) && (i < a1@.len() - 1 ==> a1@[i].3@.len() > 0)),
        Node::FuncNameSelf(a0, a1, a2, a3) => (a2@.len() > 0) && (forall|i: int| 0 <= i < a2@.len() ==> sh((#[trigger] a2@[i]).1) && !maye(a2@[i].1) && (a2@[i].3@.len() > 0 ==> sept(a2@[i].3@)) && (i < a2@.len() - 1 ==> a2@[i].3@.len() > 0)) && (sh(*a3)),
        Node::FuncDecl(a0, a1, a2, a3) => (!maye(*a2) && opn(*a3)) && (sh(*a2)) && (sh(*a3)),
        Node::LocalFuncDecl(a0, a1, a2, a3) => (!maye(*a2) && opn(*a3)) && (sh(*a2)) && (sh(*a3)),
        Node::StatementList(a0, a1) => (forall|i: int| 0 <= i < a1@.len() ==> sh((#[trigger] a1@[i]).1) && !maye(a1@[i].1)),
        Node::DoBEnd(a0, a1, a2) => (sh(*a2)),
        Node::VarsExprs(a0, a1, a2, a3) => (sh(*a2)) && (sh(*a3)),
        Node::Name(a0, a1) => (txt(a1@)),
        Node::Label(a0, a1, a2) => (sh(*a2)),
        Node::GoTo(a0, a1, a2) => (sh(*a2)),
        Node::WhileDo(a0, a1, a2) => (sh(*a2)),
        Node::WhileDoB(a0, a1, a2, a3) => (sh(*a2)) && (sh(*a3)),
        Node::RepeatUntil(a0, a1, a2) => (sh(*a2)),
        Node::RepeatBUntil(a0, a1, a2, a3) => (sh(*a2)) && (sh(*a3)),
        Node::ForInt(a0, a1, a2, a3, a4) => (sh(*a2)) && (sh(*a3)) && (sh(*a4)),
        Node::ForIntB(a0, a1, a2, a3, a4, a5) => (sh(*a2)) && (sh(*a3)) && (sh(*a4)) && (sh(*a5)),
        Node::ForIntStep(a0, a1, a2, a3, a4, a5) => (sh(*a2)) && (sh(*a3)) && (sh(*a4)) && (sh(*a5)),
        Node::ForIntStepB(a0, a1, a2, a3, a4, a5, a6) => (sh(*a2)) && (sh(*a3)) && (sh(*a4)) && (sh(*a5)) && (sh(*a6)),
        Node::ForRange(a0, a1, a2, a3) => (sh(*a2)) && (sh(*a3)),
        Node::ForRangeB(a0, a1, a2, a3, a4) => (sh(*a2)) && (sh(*a3)) && (sh(*a4)),
        Node::LocalNames(a0, a1, a2) => (sh(*a2)),
        Node::LocalNamesExprs(a0, a1, a2, a3) => (sh(*a2)) && (sh(*a3)),
        Node::IfThen(a0, a1, a2) => (sh(*a2)),
        Node::IfThenB(a0, a1, a2, a3) => (sh(*a2)) && (sh(*a3)),
        Node::IfThenElse(a0, a1, a2) => (sh(*a2)),
        Node::IfThenBElse(a0, a1, a2, a3) => (sh(*a2)) && (sh(*a3)),
        Node::IfThenElseB(a0, a1, a2, a3) => (sh(*a2)) && (sh(*a3)),
        Node::IfThenBElseB(a0, a1, a2, a3, a4) => (sh(*a2)) && (sh(*a3)) && (sh(*a4)),
        Node::IfThenElseIf(a0, a1, a2, a3) => (sh(*a2)) && (sh(*a3)),
        Node::IfThenBElseIf(a0, a1, a2, a3, a4) => (sh(*a2)) && (sh(*a3)) && (sh(*a4)),
        Node::IfThenElseIfElse(a0, a1, a2, a3) => (sh(*a2)) && (sh(*a3)),
        Node::IfThenBElseIfElse(a0, a1, a2, a3, a4) => (sh(*a2)) && (sh(*a3)) && (sh(*a4)),
        Node::IfThenElseIfElseB(a0, a1, a2, a3, a4) => (sh(*a2)) && (sh(*a3)) && (sh(*a4)),
        Node::IfThenBElseIfElseB(a0, a1, a2, a3, a4, a5) => (sh(*a2)) && (sh(*a3)) && (sh(*a4)) && (sh(*a5)),
        Node::ElseIfThenVec(a0, a1) => (forall|i: int| 0 <= i < a1@.len() ==> sh((#[trigger] a1@[i]).1) && !maye(a1@[i].1)),
        Node::ElseIfThen(a0, a1, a2) => (sh(*a2)),
        Node::ElseIfThenB(a0, a1, a2, a3) => (sh(*a2)) && (sh(*a3)),
        Node::RetStatExpr(a0, a1, a2) => (sh(*a2)),
        Node::RetStatExprComma(a0, a1, a2) => (sh(*a2)),
        Node::StatsRetStat(a0, a1, a2, a3) => (sh(*a2)) && (sh(*a3)),
        Node::Chunk(a0, a1, a2) => (sh(*a1)),
        Node::SheBangChunk(a0, a1, a2, a3, a4) => (*a1 is SheBang) && (sh(*a1)) && (sh(*a3)),
        _ => true,
    }
}
pub proof fn sh_step(n: Node) requires sh(n) ensures shs(n)
{
    match n {
        Node::Fields(a0, a1, a2) => { sh4_at(a1, a1@.len() as int); },
        Node::ExpList(a0, a1) => { sh4_at(a1, a1@.len() as int); },
        Node::NameList(a0, a1) => { sh4_at(a1, a1@.len() as int); },
        Node::ParList(a0, a1) => { sh4_at(a1, a1@.len() as int); },
        Node::VarList(a0, a1) => { sh4_at(a1, a1@.len() as int); },
        Node::VarSuffixList(a0, a1) => { sh2_at(a1, a1@.len() as int); },
        Node::FuncName(a0, a1) => { sh4_at(a1, a1@.len() as int); },
        Node::FuncNameSelf(a0, a1, a2, a3) => { sh4_at(a2, a2@.len() as int); },
        Node::StatementList(a0, a1) => { sh2_at(a1, a1@.len() as int); },
        Node::ElseIfThenVec(a0, a1) => { sh2_at(a1, a1@.len() as int); },
        _ => {},
    }
}
/// no construct starts with a word character, a dash or a bracket that a closed character could run into
pub proof fn starts_any(n: Node, a: char) requires closed(a) ensures starts(n, a) decreases n
{
    match n {
        Node::BinaryOp(_, _, _, a3, _) => starts_any(*a3, a),
        Node::Var(_, _, a2, _) => starts_any(*a2, a),
        Node::Fields(_, a1, _) => if a1@.len() > 0 { starts_any(a1@[0].1, a); },
        Node::FieldNamed(_, _, a2, _) => starts_any(*a2, a),
        Node::FieldSequential(_, a1) => starts_any(*a1, a),
        Node::ExpList(_, a1) => if a1@.len() > 0 { starts_any(a1@[0].1, a); },
        Node::NameList(_, a1) => if a1@.len() > 0 { starts_any(a1@[0].1, a); },
        Node::ParList(_, a1) => if a1@.len() > 0 { starts_any(a1@[0].1, a); },
        Node::VarList(_, a1) => if a1@.len() > 0 { starts_any(a1@[0].1, a); },
        Node::VarSuffixList(_, a1) => if a1@.len() > 0 { starts_any(a1@[0].1, a); },
        Node::FuncName(_, a1) => if a1@.len() > 0 { starts_any(a1@[0].1, a); },
        Node::FuncNameSelf(_, _, a2, _) => if a2@.len() > 0 { starts_any(a2@[0].1, a); },
        Node::StatementList(_, a1) => if a1@.len() > 0 { starts_any(a1@[0].1, a); },
        Node::VarsExprs(_, _, a2, _) => starts_any(*a2, a),
        Node::ElseIfThenVec(_, a1) => if a1@.len() > 0 { starts_any(a1@[0].1, a); },
        Node::StatsRetStat(_, _, a2, _) => starts_any(*a2, a),
        Node::Chunk(_, a1, _) => starts_any(*a1, a),
        Node::SheBangChunk(_, a1, _, _, _) => starts_any(*a1, a),
        _ => {},
    }
}
