// generated by gen_nest.py from enum Node
pub open spec fn inn(p: (int, int), q: (int, int)) -> bool { q.0 <= p.0 <= p.1 <= q.1 }
/// the parts of a construct lie inside it
pub open spec fn nest(n: Node) -> bool decreases n, 0int {
    match n {
        Node::BinaryOp(a0, a1, a2, a3, a4) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)) && nest(*a4) && inn(sp(*a4), sp(n)),
        Node::UnaryOp(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::UnaryNot(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::Var(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::RoundBrackets(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::ArgsRoundBrackets(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::ArgsRoundBracketsEmpty(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)),
        Node::Nil(a0) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)),
        Node::False(a0) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)),
        Node::True(a0) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)),
        Node::VarArg(a0) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)),
        Node::Break(a0) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)),
        Node::Numeral(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)),
        Node::NormalStringLiteral(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)),
        Node::CharStringLiteral(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)),
        Node::MultiLineStringLiteral(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)),
        Node::TableConstructor(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::TableConstructorEmpty(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)),
        Node::Fields(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest4(a1, a1@.len() as int, sp(n)),
        Node::FieldNamedBracket(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::FieldNamed(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::FieldSequential(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a1) && inn(sp(*a1), sp(n)),
        Node::TableIndex(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::TableMember(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::ExpList(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest4(a1, a1@.len() as int, sp(n)),
        Node::NameList(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest4(a1, a1@.len() as int, sp(n)),
        Node::ParList(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest4(a1, a1@.len() as int, sp(n)),
        Node::VarList(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest4(a1, a1@.len() as int, sp(n)),
        Node::VarRoundSuffix(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::VarSuffixList(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest2(a1, a1@.len() as int, sp(n)),
        Node::FnMethodCall(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::FunctionDef(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::FuncBody(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)),
        Node::FuncBodyB(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::FuncPBody(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::FuncPBodyB(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::FuncName(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest4(a1, a1@.len() as int, sp(n)),
        Node::FuncNameSelf(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest4(a2, a2@.len() as int, sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::FuncDecl(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::LocalFuncDecl(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::StatementList(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest2(a1, a1@.len() as int, sp(n)),
        Node::DoEnd(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)),
        Node::DoBEnd(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::VarsExprs(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::Name(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)),
        Node::Label(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::GoTo(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::WhileDo(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::WhileDoB(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::RepeatUntil(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::RepeatBUntil(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::ForInt(a0, a1, a2, a3, a4) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)) && nest(*a4) && inn(sp(*a4), sp(n)),
        Node::ForIntB(a0, a1, a2, a3, a4, a5) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)) && nest(*a4) && inn(sp(*a4), sp(n)) && nest(*a5) && inn(sp(*a5), sp(n)),
        Node::ForIntStep(a0, a1, a2, a3, a4, a5) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)) && nest(*a4) && inn(sp(*a4), sp(n)) && nest(*a5) && inn(sp(*a5), sp(n)),
        Node::ForIntStepB(a0, a1, a2, a3, a4, a5, a6) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)) && nest(*a4) && inn(sp(*a4), sp(n)) && nest(*a5) && inn(sp(*a5), sp(n)) && nest(*a6) && inn(sp(*a6), sp(n)),
        Node::ForRange(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::ForRangeB(a0, a1, a2, a3, a4) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)) && nest(*a4) && inn(sp(*a4), sp(n)),
        Node::LocalNames(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::LocalNamesExprs(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::IfThen(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::IfThenB(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::IfThenElse(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::IfThenBElse(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::IfThenElseB(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::IfThenBElseB(a0, a1, a2, a3, a4) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)) && nest(*a4) && inn(sp(*a4), sp(n)),
        Node::IfThenElseIf(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::IfThenBElseIf(a0, a1, a2, a3, a4) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)) && nest(*a4) && inn(sp(*a4), sp(n)),
        Node::IfThenElseIfElse(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::IfThenBElseIfElse(a0, a1, a2, a3, a4) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)) && nest(*a4) && inn(sp(*a4), sp(n)),
        Node::IfThenElseIfElseB(a0, a1, a2, a3, a4) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)) && nest(*a4) && inn(sp(*a4), sp(n)),
        Node::IfThenBElseIfElseB(a0, a1, a2, a3, a4, a5) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)) && nest(*a4) && inn(sp(*a4), sp(n)) && nest(*a5) && inn(sp(*a5), sp(n)),
        Node::ElseIfThenVec(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest2(a1, a1@.len() as int, sp(n)),
        Node::ElseIfThen(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::ElseIfThenB(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::RetStatNone(a0) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)),
        Node::RetStatExpr(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::RetStatNoneComma(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)),
        Node::RetStatExprComma(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)),
        Node::StatsRetStat(a0, a1, a2, a3) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a2) && inn(sp(*a2), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::Chunk(a0, a1, a2) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a1) && inn(sp(*a1), sp(n)),
        Node::SheBangChunk(a0, a1, a2, a3, a4) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)) && nest(*a1) && inn(sp(*a1), sp(n)) && nest(*a3) && inn(sp(*a3), sp(n)),
        Node::Semicolon(a0) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)),
        Node::SheBang(a0, a1) => sp(n).0 <= sp(n).1 && inn((a0.0 as int, a0.1 as int), sp(n)),
    }
}
pub open spec fn nest4(v: Vec<(Loc, Node, Loc, String)>, k: int, l: (int, int)) -> bool decreases v, k { if k <= 0 || k > v@.len() { true } else { nest4(v, k - 1, l) && nest(v@[k - 1].1) && inn(sp(v@[k - 1].1), l) } }
pub open spec fn nest2(v: Vec<(Loc, Node)>, k: int, l: (int, int)) -> bool decreases v, k { if k <= 0 || k > v@.len() { true } else { nest2(v, k - 1, l) && nest(v@[k - 1].1) && inn(sp(v@[k - 1].1), l) } }
pub proof fn nest4_get(v: Vec<(Loc, Node, Loc, String)>, k: int, l: (int, int)) requires nest4(v, k, l), k <= v@.len() ensures forall|i: int| 0 <= i < k ==> nest((#[trigger] v@[i]).1) && inn(sp(v@[i].1), l) decreases k
{ if k > 0 { nest4_get(v, k - 1, l); } }
pub proof fn nest2_get(v: Vec<(Loc, Node)>, k: int, l: (int, int)) requires nest2(v, k, l), k <= v@.len() ensures forall|i: int| 0 <= i < k ==> nest((#[trigger] v@[i]).1) && inn(sp(v@[i].1), l) decreases k
{ if k > 0 { nest2_get(v, k - 1, l); } }
pub proof fn nest4_put(v: Vec<(Loc, Node, Loc, String)>, k: int, l: (int, int)) requires k <= v@.len(), forall|i: int| 0 <= i < k ==> nest((#[trigger] v@[i]).1) && inn(sp(v@[i].1), l) ensures nest4(v, k, l) decreases k
{ if k > 0 { nest4_put(v, k - 1, l); } }
pub open spec fn nstep(n: Node) -> bool {
    match n {
        Node::BinaryOp(a0, a1, a2, a3, a4) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))) && (nest(*a4) && inn(sp(*a4), sp(n))),
        Node::UnaryOp(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::UnaryNot(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::Var(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::RoundBrackets(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::ArgsRoundBrackets(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::ArgsRoundBracketsEmpty(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))),
        Node::Nil(a0) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))),
        Node::False(a0) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))),
        Node::True(a0) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))),
        Node::VarArg(a0) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))),
        Node::Break(a0) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))),
        Node::Numeral(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))),
        Node::NormalStringLiteral(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))),
        Node::CharStringLiteral(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))),
        Node::MultiLineStringLiteral(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))),
        Node::TableConstructor(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::TableConstructorEmpty(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))),
        Node::Fields(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (forall|i: int| 0 <= i < a1@.len() ==> nest((#[trigger] a1@[i]).1) && inn(sp(a1@[i].1), sp(n))),
        Node::FieldNamedBracket(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::FieldNamed(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::FieldSequential(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a1) && inn(sp(*a1), sp(n))),
        Node::TableIndex(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::TableMember(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::ExpList(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (forall|i: int| 0 <= i < a1@.len() ==> nest((#[trigger] a1@[i]).1) && inn(sp(a1@[i].1), sp(n))),
        Node::NameList(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (forall|i: int| 0 <= i < a1@.len() ==> nest((#[trigger] a1@[i]).1) && inn(sp(a1@[i].1), sp(n))),
        Node::ParList(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (forall|i: int| 0 <= i < a1@.len() ==> nest((#[trigger] a1@[i]).1) && inn(sp(a1@[i].1), sp(n))),
        Node::VarList(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (forall|i: int| 0 <= i < a1@.len() ==> nest((#[trigger] a1@[i]).1) && inn(sp(a1@[i].1), sp(n))),
        Node::VarRoundSuffix(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::VarSuffixList(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (forall|i: int| 0 <= i < a1@.len() ==> nest((#[trigger] a1@[i]).1) && inn(sp(a1@[i].1), sp(n))),
        Node::FnMethodCall(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::FunctionDef(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::FuncBody(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))),
        Node::FuncBodyB(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::FuncPBody(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::FuncPBodyB(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::FuncName(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (forall|i: int| 0 <= i < a1@.len() ==> nest((#[trigger] a1@[i]).1) && inn(sp(a1@[i].1), sp(n))),
        Node::FuncNameSelf(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (forall|i: int| 0 <= i < a2@.len() ==> nest((#[trigger] a2@[i]).1) && inn(sp(a2@[i].1), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::FuncDecl(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::LocalFuncDecl(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::StatementList(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (forall|i: int| 0 <= i < a1@.len() ==> nest((#[trigger] a1@[i]).1) && inn(sp(a1@[i].1), sp(n))),
        Node::DoEnd(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))),
        Node::DoBEnd(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::VarsExprs(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::Name(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))),
        Node::Label(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::GoTo(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::WhileDo(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::WhileDoB(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::RepeatUntil(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::RepeatBUntil(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::ForInt(a0, a1, a2, a3, a4) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))) && (nest(*a4) && inn(sp(*a4), sp(n))),
        Node::ForIntB(a0, a1, a2, a3, a4, a5) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))) && (nest(*a4) && inn(sp(*a4), sp(n))) && (nest(*a5) && inn(sp(*a5), sp(n))),
        Node::ForIntStep(a0, a1, a2, a3, a4, a5) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))) && (nest(*a4) && inn(sp(*a4), sp(n))) && (nest(*a5) && inn(sp(*a5), sp(n))),
        Node::ForIntStepB(a0, a1, a2, a3, a4, a5, a6) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))) && (nest(*a4) && inn(sp(*a4), sp(n))) && (nest(*a5) && inn(sp(*a5), sp(n))) && (nest(*a6) && inn(sp(*a6), sp(n))),
        Node::ForRange(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::ForRangeB(a0, a1, a2, a3, a4) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))) && (nest(*a4) && inn(sp(*a4), sp(n))),
        Node::LocalNames(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::LocalNamesExprs(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::IfThen(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::IfThenB(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::IfThenElse(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::IfThenBElse(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::IfThenElseB(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::IfThenBElseB(a0, a1, a2, a3, a4) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))) && (nest(*a4) && inn(sp(*a4), sp(n))),
        Node::IfThenElseIf(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::IfThenBElseIf(a0, a1, a2, a3, a4) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))) && (nest(*a4) && inn(sp(*a4), sp(n))),
        Node::IfThenElseIfElse(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::IfThenBElseIfElse(a0, a1, a2, a3, a4) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))) && (nest(*a4) && inn(sp(*a4), sp(n))),
        Node::IfThenElseIfElseB(a0, a1, a2, a3, a4) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))) && (nest(*a4) && inn(sp(*a4), sp(n))),
        Node::IfThenBElseIfElseB(a0, a1, a2, a3, a4, a5) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))) && (nest(*a4) && inn(sp(*a4), sp(n))) && (nest(*a5) && inn(sp(*a5), sp(n))),
        Node::ElseIfThenVec(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (forall|i: int| 0 <= i < a1@.len() ==> nest((#[trigger] a1@[i]).1) && inn(sp(a1@[i].1), sp(n))),
        Node::ElseIfThen(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::ElseIfThenB(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::RetStatNone(a0) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))),
        Node::RetStatExpr(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::RetStatNoneComma(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))),
        Node::RetStatExprComma(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))),
        Node::StatsRetStat(a0, a1, a2, a3) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a2) && inn(sp(*a2), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::Chunk(a0, a1, a2) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a1) && inn(sp(*a1), sp(n))),
        Node::SheBangChunk(a0, a1, a2, a3, a4) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))) && (nest(*a1) && inn(sp(*a1), sp(n))) && (nest(*a3) && inn(sp(*a3), sp(n))),
        Node::Semicolon(a0) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))),
        Node::SheBang(a0, a1) => (sp(n).0 <= sp(n).1) && (inn((a0.0 as int, a0.1 as int), sp(n))),
    }
}
pub proof fn nest_step(n: Node) requires nest(n) ensures nstep(n)
{ match n {
    Node::ExpList(_, v) | Node::NameList(_, v) | Node::VarList(_, v) | Node::ParList(_, v) | Node::FuncName(_, v) | Node::FuncNameSelf(_, _, v, _) | Node::Fields(_, v, _) => nest4_get(v, v@.len() as int, sp(n)),
    Node::VarSuffixList(_, v) | Node::ElseIfThenVec(_, v) | Node::StatementList(_, v) => nest2_get(v, v@.len() as int, sp(n)),
    _ => {} } }
pub proof fn wf_sub(n: Node, s: Seq<char>) requires wf(n, s) ensures 0 <= sp(n).0 <= sp(n).1 <= s.len() decreases n
{ match n { Node::Chunk(a0, a1, a2) => { w_Chunk(a0, a1, a2, s); wf_sub(*a1, s); } Node::SheBangChunk(a0, a1, a2, a3, a4) => { w_SheBangChunk(a0, a1, a2, a3, a4, s); wf_sub(*a1, s); wf_sub(*a3, s); } _ => {} } }
pub proof fn wfn4(v: Vec<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, k: int, a: int, e: int) requires 0 <= k <= v@.len(), wf_sep(v, s, kd, k, a), a <= e, send(v@, k, a) <= e ensures nest4(v, k, (a, e)), a <= send(v@, k, a) decreases v, k
{ if k > 0 { wf_nest(v@[k - 1].1, s); wf_sub(v@[k - 1].1, s); wfn4(v, s, kd, k - 1, a, e); } }
pub proof fn wfn2(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int, e: int) requires 0 <= k <= v@.len(), wf_list(v, s, k, a), a <= e, lend(v@, k, a) <= e ensures nest2(v, k, (a, e)), a <= lend(v@, k, a) decreases v, k
{ if k > 0 { wf_nest(v@[k - 1].1, s); wf_sub(v@[k - 1].1, s); wfn2(v, s, k - 1, a, e); } }
pub proof fn wf_nest(n: Node, s: Seq<char>) requires wf(n, s) ensures nest(n) decreases n, 1int
{
    match n {
        Node::BinaryOp(_, _, _, _, _) => wn_BinaryOp(n, s),
        Node::UnaryOp(_, _, _, _) => wn_UnaryOp(n, s),
        Node::UnaryNot(_, _, _) => wn_UnaryNot(n, s),
        Node::Var(_, _, _, _) => wn_Var(n, s),
        Node::RoundBrackets(_, _, _) => wn_RoundBrackets(n, s),
        Node::ArgsRoundBrackets(_, _, _) => wn_ArgsRoundBrackets(n, s),
        Node::ArgsRoundBracketsEmpty(_, _) => wn_ArgsRoundBracketsEmpty(n, s),
        Node::Nil(_) => wn_Nil(n, s),
        Node::False(_) => wn_False(n, s),
        Node::True(_) => wn_True(n, s),
        Node::VarArg(_) => wn_VarArg(n, s),
        Node::Break(_) => wn_Break(n, s),
        Node::Numeral(_, _) => wn_Numeral(n, s),
        Node::NormalStringLiteral(_, _) => wn_NormalStringLiteral(n, s),
        Node::CharStringLiteral(_, _) => wn_CharStringLiteral(n, s),
        Node::MultiLineStringLiteral(_, _, _) => wn_MultiLineStringLiteral(n, s),
        Node::TableConstructor(_, _, _, _) => wn_TableConstructor(n, s),
        Node::TableConstructorEmpty(_, _) => wn_TableConstructorEmpty(n, s),
        Node::Fields(_, _, _) => wn_Fields(n, s),
        Node::FieldNamedBracket(_, _, _, _) => wn_FieldNamedBracket(n, s),
        Node::FieldNamed(_, _, _, _) => wn_FieldNamed(n, s),
        Node::FieldSequential(_, _) => wn_FieldSequential(n, s),
        Node::TableIndex(_, _, _) => wn_TableIndex(n, s),
        Node::TableMember(_, _, _) => wn_TableMember(n, s),
        Node::ExpList(_, _) => wn_ExpList(n, s),
        Node::NameList(_, _) => wn_NameList(n, s),
        Node::ParList(_, _) => wn_ParList(n, s),
        Node::VarList(_, _) => wn_VarList(n, s),
        Node::VarRoundSuffix(_, _, _, _) => wn_VarRoundSuffix(n, s),
        Node::VarSuffixList(_, _) => wn_VarSuffixList(n, s),
        Node::FnMethodCall(_, _, _, _) => wn_FnMethodCall(n, s),
        Node::FunctionDef(_, _, _) => wn_FunctionDef(n, s),
        Node::FuncBody(_, _) => wn_FuncBody(n, s),
        Node::FuncBodyB(_, _, _) => wn_FuncBodyB(n, s),
        Node::FuncPBody(_, _, _) => wn_FuncPBody(n, s),
        Node::FuncPBodyB(_, _, _, _) => wn_FuncPBodyB(n, s),
        Node::FuncName(_, _) => wn_FuncName(n, s),
        Node::FuncNameSelf(_, _, _, _) => wn_FuncNameSelf(n, s),
        Node::FuncDecl(_, _, _, _) => wn_FuncDecl(n, s),
        Node::LocalFuncDecl(_, _, _, _) => wn_LocalFuncDecl(n, s),
        Node::StatementList(_, _) => wn_StatementList(n, s),
        Node::DoEnd(_, _) => wn_DoEnd(n, s),
        Node::DoBEnd(_, _, _) => wn_DoBEnd(n, s),
        Node::VarsExprs(_, _, _, _) => wn_VarsExprs(n, s),
        Node::Name(_, _) => wn_Name(n, s),
        Node::Label(_, _, _) => wn_Label(n, s),
        Node::GoTo(_, _, _) => wn_GoTo(n, s),
        Node::WhileDo(_, _, _) => wn_WhileDo(n, s),
        Node::WhileDoB(_, _, _, _) => wn_WhileDoB(n, s),
        Node::RepeatUntil(_, _, _) => wn_RepeatUntil(n, s),
        Node::RepeatBUntil(_, _, _, _) => wn_RepeatBUntil(n, s),
        Node::ForInt(_, _, _, _, _) => wn_ForInt(n, s),
        Node::ForIntB(_, _, _, _, _, _) => wn_ForIntB(n, s),
        Node::ForIntStep(_, _, _, _, _, _) => wn_ForIntStep(n, s),
        Node::ForIntStepB(_, _, _, _, _, _, _) => wn_ForIntStepB(n, s),
        Node::ForRange(_, _, _, _) => wn_ForRange(n, s),
        Node::ForRangeB(_, _, _, _, _) => wn_ForRangeB(n, s),
        Node::LocalNames(_, _, _) => wn_LocalNames(n, s),
        Node::LocalNamesExprs(_, _, _, _) => wn_LocalNamesExprs(n, s),
        Node::IfThen(_, _, _) => wn_IfThen(n, s),
        Node::IfThenB(_, _, _, _) => wn_IfThenB(n, s),
        Node::IfThenElse(_, _, _) => wn_IfThenElse(n, s),
        Node::IfThenBElse(_, _, _, _) => wn_IfThenBElse(n, s),
        Node::IfThenElseB(_, _, _, _) => wn_IfThenElseB(n, s),
        Node::IfThenBElseB(_, _, _, _, _) => wn_IfThenBElseB(n, s),
        Node::IfThenElseIf(_, _, _, _) => wn_IfThenElseIf(n, s),
        Node::IfThenBElseIf(_, _, _, _, _) => wn_IfThenBElseIf(n, s),
        Node::IfThenElseIfElse(_, _, _, _) => wn_IfThenElseIfElse(n, s),
        Node::IfThenBElseIfElse(_, _, _, _, _) => wn_IfThenBElseIfElse(n, s),
        Node::IfThenElseIfElseB(_, _, _, _, _) => wn_IfThenElseIfElseB(n, s),
        Node::IfThenBElseIfElseB(_, _, _, _, _, _) => wn_IfThenBElseIfElseB(n, s),
        Node::ElseIfThenVec(_, _) => wn_ElseIfThenVec(n, s),
        Node::ElseIfThen(_, _, _) => wn_ElseIfThen(n, s),
        Node::ElseIfThenB(_, _, _, _) => wn_ElseIfThenB(n, s),
        Node::RetStatNone(_) => wn_RetStatNone(n, s),
        Node::RetStatExpr(_, _, _) => wn_RetStatExpr(n, s),
        Node::RetStatNoneComma(_, _) => wn_RetStatNoneComma(n, s),
        Node::RetStatExprComma(_, _, _) => wn_RetStatExprComma(n, s),
        Node::StatsRetStat(_, _, _, _) => wn_StatsRetStat(n, s),
        Node::Chunk(_, _, _) => wn_Chunk(n, s),
        Node::SheBangChunk(_, _, _, _, _) => wn_SheBangChunk(n, s),
        Node::Semicolon(_) => wn_Semicolon(n, s),
        Node::SheBang(_, _) => wn_SheBang(n, s),
    }
}
pub mod wn0 { use super::*;
pub proof fn wn_BinaryOp(n: Node, s: Seq<char>) requires n is BinaryOp, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::BinaryOp(a0, a1, a2, a3, a4) = n { w_BinaryOp(a0, a1, a2, a3, a4, s); wf_sub(n, s); wf_nest(*a3, s); wf_sub(*a3, s); wf_nest(*a4, s); wf_sub(*a4, s); } }
pub proof fn wn_UnaryOp(n: Node, s: Seq<char>) requires n is UnaryOp, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::UnaryOp(a0, a1, a2, a3) = n { w_UnaryOp(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_UnaryNot(n: Node, s: Seq<char>) requires n is UnaryNot, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::UnaryNot(a0, a1, a2) = n { w_UnaryNot(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_Var(n: Node, s: Seq<char>) requires n is Var, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::Var(a0, a1, a2, a3) = n { w_Var(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_RoundBrackets(n: Node, s: Seq<char>) requires n is RoundBrackets, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::RoundBrackets(a0, a1, a2) = n { w_RoundBrackets(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_ArgsRoundBrackets(n: Node, s: Seq<char>) requires n is ArgsRoundBrackets, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::ArgsRoundBrackets(a0, a1, a2) = n { w_ArgsRoundBrackets(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_ArgsRoundBracketsEmpty(n: Node, s: Seq<char>) requires n is ArgsRoundBracketsEmpty, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::ArgsRoundBracketsEmpty(a0, a1) = n { w_ArgsRoundBracketsEmpty(a0, a1, s); wf_sub(n, s);  } }
pub proof fn wn_Nil(n: Node, s: Seq<char>) requires n is Nil, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::Nil(a0) = n { w_Nil(a0, s); wf_sub(n, s);  } }
pub proof fn wn_False(n: Node, s: Seq<char>) requires n is False, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::False(a0) = n { w_False(a0, s); wf_sub(n, s);  } }
pub proof fn wn_True(n: Node, s: Seq<char>) requires n is True, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::True(a0) = n { w_True(a0, s); wf_sub(n, s);  } }
pub proof fn wn_VarArg(n: Node, s: Seq<char>) requires n is VarArg, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::VarArg(a0) = n { w_VarArg(a0, s); wf_sub(n, s);  } }
}
pub use wn0::*;
pub mod wn1 { use super::*;
pub proof fn wn_Break(n: Node, s: Seq<char>) requires n is Break, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::Break(a0) = n { w_Break(a0, s); wf_sub(n, s);  } }
pub proof fn wn_Numeral(n: Node, s: Seq<char>) requires n is Numeral, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::Numeral(a0, a1) = n { w_Numeral(a0, a1, s); wf_sub(n, s);  } }
pub proof fn wn_NormalStringLiteral(n: Node, s: Seq<char>) requires n is NormalStringLiteral, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::NormalStringLiteral(a0, a1) = n { w_NormalStringLiteral(a0, a1, s); wf_sub(n, s);  } }
pub proof fn wn_CharStringLiteral(n: Node, s: Seq<char>) requires n is CharStringLiteral, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::CharStringLiteral(a0, a1) = n { w_CharStringLiteral(a0, a1, s); wf_sub(n, s);  } }
pub proof fn wn_MultiLineStringLiteral(n: Node, s: Seq<char>) requires n is MultiLineStringLiteral, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::MultiLineStringLiteral(a0, a1, a2) = n { w_MultiLineStringLiteral(a0, a1, a2, s); wf_sub(n, s);  } }
pub proof fn wn_TableConstructor(n: Node, s: Seq<char>) requires n is TableConstructor, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::TableConstructor(a0, a1, a2, a3) = n { w_TableConstructor(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_TableConstructorEmpty(n: Node, s: Seq<char>) requires n is TableConstructorEmpty, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::TableConstructorEmpty(a0, a1) = n { w_TableConstructorEmpty(a0, a1, s); wf_sub(n, s);  } }
pub proof fn wn_Fields(n: Node, s: Seq<char>) requires n is Fields, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::Fields(a0, a1, a2) = n { w_Fields(a0, a1, a2, s); wf_sub(n, s); wfn4(a1, s, SepKind::fields, a1@.len() as int, a0.0 as int, sp(n).1); } }
pub proof fn wn_FieldNamedBracket(n: Node, s: Seq<char>) requires n is FieldNamedBracket, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::FieldNamedBracket(a0, a1, a2, a3) = n { w_FieldNamedBracket(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_FieldNamed(n: Node, s: Seq<char>) requires n is FieldNamed, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::FieldNamed(a0, a1, a2, a3) = n { w_FieldNamed(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_FieldSequential(n: Node, s: Seq<char>) requires n is FieldSequential, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::FieldSequential(a0, a1) = n { w_FieldSequential(a0, a1, s); wf_sub(n, s); wf_nest(*a1, s); wf_sub(*a1, s); } }
}
pub use wn1::*;
pub mod wn2 { use super::*;
pub proof fn wn_TableIndex(n: Node, s: Seq<char>) requires n is TableIndex, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::TableIndex(a0, a1, a2) = n { w_TableIndex(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_TableMember(n: Node, s: Seq<char>) requires n is TableMember, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::TableMember(a0, a1, a2) = n { w_TableMember(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_ExpList(n: Node, s: Seq<char>) requires n is ExpList, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::ExpList(a0, a1) = n { w_ExpList(a0, a1, s); wf_sub(n, s); wfn4(a1, s, SepKind::comma, a1@.len() as int, a0.0 as int, sp(n).1); } }
pub proof fn wn_NameList(n: Node, s: Seq<char>) requires n is NameList, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::NameList(a0, a1) = n { w_NameList(a0, a1, s); wf_sub(n, s); wfn4(a1, s, SepKind::comma, a1@.len() as int, a0.0 as int, sp(n).1); } }
pub proof fn wn_ParList(n: Node, s: Seq<char>) requires n is ParList, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::ParList(a0, a1) = n { w_ParList(a0, a1, s); wf_sub(n, s); wfn4(a1, s, SepKind::comma, a1@.len() as int, a0.0 as int, sp(n).1); } }
pub proof fn wn_VarList(n: Node, s: Seq<char>) requires n is VarList, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::VarList(a0, a1) = n { w_VarList(a0, a1, s); wf_sub(n, s); wfn4(a1, s, SepKind::comma, a1@.len() as int, a0.0 as int, sp(n).1); } }
pub proof fn wn_VarRoundSuffix(n: Node, s: Seq<char>) requires n is VarRoundSuffix, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::VarRoundSuffix(a0, a1, a2, a3) = n { w_VarRoundSuffix(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_VarSuffixList(n: Node, s: Seq<char>) requires n is VarSuffixList, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::VarSuffixList(a0, a1) = n { w_VarSuffixList(a0, a1, s); wf_sub(n, s); wfn2(a1, s, a1@.len() as int, a0.0 as int, sp(n).1); } }
pub proof fn wn_FnMethodCall(n: Node, s: Seq<char>) requires n is FnMethodCall, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::FnMethodCall(a0, a1, a2, a3) = n { w_FnMethodCall(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_FunctionDef(n: Node, s: Seq<char>) requires n is FunctionDef, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::FunctionDef(a0, a1, a2) = n { w_FunctionDef(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_FuncBody(n: Node, s: Seq<char>) requires n is FuncBody, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::FuncBody(a0, a1) = n { w_FuncBody(a0, a1, s); wf_sub(n, s);  } }
}
pub use wn2::*;
pub mod wn3 { use super::*;
pub proof fn wn_FuncBodyB(n: Node, s: Seq<char>) requires n is FuncBodyB, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::FuncBodyB(a0, a1, a2) = n { w_FuncBodyB(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_FuncPBody(n: Node, s: Seq<char>) requires n is FuncPBody, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::FuncPBody(a0, a1, a2) = n { w_FuncPBody(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_FuncPBodyB(n: Node, s: Seq<char>) requires n is FuncPBodyB, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::FuncPBodyB(a0, a1, a2, a3) = n { w_FuncPBodyB(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_FuncName(n: Node, s: Seq<char>) requires n is FuncName, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::FuncName(a0, a1) = n { w_FuncName(a0, a1, s); wf_sub(n, s); wfn4(a1, s, SepKind::dot, a1@.len() as int, a0.0 as int, sp(n).1); } }
pub proof fn wn_FuncNameSelf(n: Node, s: Seq<char>) requires n is FuncNameSelf, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::FuncNameSelf(a0, a1, a2, a3) = n { w_FuncNameSelf(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a3, s); wf_sub(*a3, s); wfn4(a2, s, SepKind::dot, a2@.len() as int, a0.0 as int, sp(n).1); } }
pub proof fn wn_FuncDecl(n: Node, s: Seq<char>) requires n is FuncDecl, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::FuncDecl(a0, a1, a2, a3) = n { w_FuncDecl(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_LocalFuncDecl(n: Node, s: Seq<char>) requires n is LocalFuncDecl, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::LocalFuncDecl(a0, a1, a2, a3) = n { w_LocalFuncDecl(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_StatementList(n: Node, s: Seq<char>) requires n is StatementList, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::StatementList(a0, a1) = n { w_StatementList(a0, a1, s); wf_sub(n, s); wfn2(a1, s, a1@.len() as int, a0.0 as int, sp(n).1); } }
pub proof fn wn_DoEnd(n: Node, s: Seq<char>) requires n is DoEnd, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::DoEnd(a0, a1) = n { w_DoEnd(a0, a1, s); wf_sub(n, s);  } }
pub proof fn wn_DoBEnd(n: Node, s: Seq<char>) requires n is DoBEnd, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::DoBEnd(a0, a1, a2) = n { w_DoBEnd(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_VarsExprs(n: Node, s: Seq<char>) requires n is VarsExprs, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::VarsExprs(a0, a1, a2, a3) = n { w_VarsExprs(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
}
pub use wn3::*;
pub mod wn4 { use super::*;
pub proof fn wn_Name(n: Node, s: Seq<char>) requires n is Name, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::Name(a0, a1) = n { w_Name(a0, a1, s); wf_sub(n, s);  } }
pub proof fn wn_Label(n: Node, s: Seq<char>) requires n is Label, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::Label(a0, a1, a2) = n { w_Label(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_GoTo(n: Node, s: Seq<char>) requires n is GoTo, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::GoTo(a0, a1, a2) = n { w_GoTo(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_WhileDo(n: Node, s: Seq<char>) requires n is WhileDo, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::WhileDo(a0, a1, a2) = n { w_WhileDo(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_WhileDoB(n: Node, s: Seq<char>) requires n is WhileDoB, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::WhileDoB(a0, a1, a2, a3) = n { w_WhileDoB(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_RepeatUntil(n: Node, s: Seq<char>) requires n is RepeatUntil, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::RepeatUntil(a0, a1, a2) = n { w_RepeatUntil(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_RepeatBUntil(n: Node, s: Seq<char>) requires n is RepeatBUntil, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::RepeatBUntil(a0, a1, a2, a3) = n { w_RepeatBUntil(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_ForInt(n: Node, s: Seq<char>) requires n is ForInt, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::ForInt(a0, a1, a2, a3, a4) = n { w_ForInt(a0, a1, a2, a3, a4, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); wf_nest(*a4, s); wf_sub(*a4, s); } }
pub proof fn wn_ForIntB(n: Node, s: Seq<char>) requires n is ForIntB, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::ForIntB(a0, a1, a2, a3, a4, a5) = n { w_ForIntB(a0, a1, a2, a3, a4, a5, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); wf_nest(*a4, s); wf_sub(*a4, s); wf_nest(*a5, s); wf_sub(*a5, s); } }
pub proof fn wn_ForIntStep(n: Node, s: Seq<char>) requires n is ForIntStep, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::ForIntStep(a0, a1, a2, a3, a4, a5) = n { w_ForIntStep(a0, a1, a2, a3, a4, a5, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); wf_nest(*a4, s); wf_sub(*a4, s); wf_nest(*a5, s); wf_sub(*a5, s); } }
pub proof fn wn_ForIntStepB(n: Node, s: Seq<char>) requires n is ForIntStepB, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::ForIntStepB(a0, a1, a2, a3, a4, a5, a6) = n { w_ForIntStepB(a0, a1, a2, a3, a4, a5, a6, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); wf_nest(*a4, s); wf_sub(*a4, s); wf_nest(*a5, s); wf_sub(*a5, s); wf_nest(*a6, s); wf_sub(*a6, s); } }
}
pub use wn4::*;
pub mod wn5 { use super::*;
pub proof fn wn_ForRange(n: Node, s: Seq<char>) requires n is ForRange, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::ForRange(a0, a1, a2, a3) = n { w_ForRange(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_ForRangeB(n: Node, s: Seq<char>) requires n is ForRangeB, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::ForRangeB(a0, a1, a2, a3, a4) = n { w_ForRangeB(a0, a1, a2, a3, a4, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); wf_nest(*a4, s); wf_sub(*a4, s); } }
pub proof fn wn_LocalNames(n: Node, s: Seq<char>) requires n is LocalNames, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::LocalNames(a0, a1, a2) = n { w_LocalNames(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_LocalNamesExprs(n: Node, s: Seq<char>) requires n is LocalNamesExprs, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::LocalNamesExprs(a0, a1, a2, a3) = n { w_LocalNamesExprs(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_IfThen(n: Node, s: Seq<char>) requires n is IfThen, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::IfThen(a0, a1, a2) = n { w_IfThen(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_IfThenB(n: Node, s: Seq<char>) requires n is IfThenB, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::IfThenB(a0, a1, a2, a3) = n { w_IfThenB(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_IfThenElse(n: Node, s: Seq<char>) requires n is IfThenElse, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::IfThenElse(a0, a1, a2) = n { w_IfThenElse(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_IfThenBElse(n: Node, s: Seq<char>) requires n is IfThenBElse, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::IfThenBElse(a0, a1, a2, a3) = n { w_IfThenBElse(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_IfThenElseB(n: Node, s: Seq<char>) requires n is IfThenElseB, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::IfThenElseB(a0, a1, a2, a3) = n { w_IfThenElseB(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_IfThenBElseB(n: Node, s: Seq<char>) requires n is IfThenBElseB, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::IfThenBElseB(a0, a1, a2, a3, a4) = n { w_IfThenBElseB(a0, a1, a2, a3, a4, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); wf_nest(*a4, s); wf_sub(*a4, s); } }
pub proof fn wn_IfThenElseIf(n: Node, s: Seq<char>) requires n is IfThenElseIf, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::IfThenElseIf(a0, a1, a2, a3) = n { w_IfThenElseIf(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
}
pub use wn5::*;
pub mod wn6 { use super::*;
pub proof fn wn_IfThenBElseIf(n: Node, s: Seq<char>) requires n is IfThenBElseIf, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::IfThenBElseIf(a0, a1, a2, a3, a4) = n { w_IfThenBElseIf(a0, a1, a2, a3, a4, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); wf_nest(*a4, s); wf_sub(*a4, s); } }
pub proof fn wn_IfThenElseIfElse(n: Node, s: Seq<char>) requires n is IfThenElseIfElse, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::IfThenElseIfElse(a0, a1, a2, a3) = n { w_IfThenElseIfElse(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_IfThenBElseIfElse(n: Node, s: Seq<char>) requires n is IfThenBElseIfElse, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::IfThenBElseIfElse(a0, a1, a2, a3, a4) = n { w_IfThenBElseIfElse(a0, a1, a2, a3, a4, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); wf_nest(*a4, s); wf_sub(*a4, s); } }
pub proof fn wn_IfThenElseIfElseB(n: Node, s: Seq<char>) requires n is IfThenElseIfElseB, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::IfThenElseIfElseB(a0, a1, a2, a3, a4) = n { w_IfThenElseIfElseB(a0, a1, a2, a3, a4, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); wf_nest(*a4, s); wf_sub(*a4, s); } }
pub proof fn wn_IfThenBElseIfElseB(n: Node, s: Seq<char>) requires n is IfThenBElseIfElseB, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::IfThenBElseIfElseB(a0, a1, a2, a3, a4, a5) = n { w_IfThenBElseIfElseB(a0, a1, a2, a3, a4, a5, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); wf_nest(*a4, s); wf_sub(*a4, s); wf_nest(*a5, s); wf_sub(*a5, s); } }
pub proof fn wn_ElseIfThenVec(n: Node, s: Seq<char>) requires n is ElseIfThenVec, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::ElseIfThenVec(a0, a1) = n { w_ElseIfThenVec(a0, a1, s); wf_sub(n, s); wfn2(a1, s, a1@.len() as int, a0.0 as int, sp(n).1); } }
pub proof fn wn_ElseIfThen(n: Node, s: Seq<char>) requires n is ElseIfThen, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::ElseIfThen(a0, a1, a2) = n { w_ElseIfThen(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_ElseIfThenB(n: Node, s: Seq<char>) requires n is ElseIfThenB, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::ElseIfThenB(a0, a1, a2, a3) = n { w_ElseIfThenB(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_RetStatNone(n: Node, s: Seq<char>) requires n is RetStatNone, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::RetStatNone(a0) = n { w_RetStatNone(a0, s); wf_sub(n, s);  } }
pub proof fn wn_RetStatExpr(n: Node, s: Seq<char>) requires n is RetStatExpr, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::RetStatExpr(a0, a1, a2) = n { w_RetStatExpr(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_RetStatNoneComma(n: Node, s: Seq<char>) requires n is RetStatNoneComma, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::RetStatNoneComma(a0, a1) = n { w_RetStatNoneComma(a0, a1, s); wf_sub(n, s);  } }
}
pub use wn6::*;
pub mod wn7 { use super::*;
pub proof fn wn_RetStatExprComma(n: Node, s: Seq<char>) requires n is RetStatExprComma, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::RetStatExprComma(a0, a1, a2) = n { w_RetStatExprComma(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); } }
pub proof fn wn_StatsRetStat(n: Node, s: Seq<char>) requires n is StatsRetStat, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::StatsRetStat(a0, a1, a2, a3) = n { w_StatsRetStat(a0, a1, a2, a3, s); wf_sub(n, s); wf_nest(*a2, s); wf_sub(*a2, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_Chunk(n: Node, s: Seq<char>) requires n is Chunk, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::Chunk(a0, a1, a2) = n { w_Chunk(a0, a1, a2, s); wf_sub(n, s); wf_nest(*a1, s); wf_sub(*a1, s); } }
pub proof fn wn_SheBangChunk(n: Node, s: Seq<char>) requires n is SheBangChunk, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::SheBangChunk(a0, a1, a2, a3, a4) = n { w_SheBangChunk(a0, a1, a2, a3, a4, s); wf_sub(n, s); wf_nest(*a1, s); wf_sub(*a1, s); wf_nest(*a3, s); wf_sub(*a3, s); } }
pub proof fn wn_Semicolon(n: Node, s: Seq<char>) requires n is Semicolon, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::Semicolon(a0) = n { w_Semicolon(a0, s); wf_sub(n, s);  } }
pub proof fn wn_SheBang(n: Node, s: Seq<char>) requires n is SheBang, wf(n, s) ensures nest(n) decreases n, 0int
{ hide(wf); if let Node::SheBang(a0, a1) = n { w_SheBang(a0, a1, s); wf_sub(n, s);  } }
}
pub use wn7::*;
