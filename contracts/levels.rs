// generated by gen_levels.py
pub open spec fn lv_sep(v: Vec<(Loc, Node, Loc, String)>, k: int, l: int, t: Lab, e: Ev) -> bool decreases v, k {
    if k <= 0 || k > v@.len() { false } else { lv_sep(v, k - 1, l, t, e) || lv_gap(v@[k - 1].0, l, e) || lv(v@[k - 1].1, l, t, e) || lv_gap(v@[k - 1].2, l, e) }
}
pub open spec fn lv_list(v: Vec<(Loc, Node)>, k: int, l: int, t: Lab, e: Ev) -> bool decreases v, k {
    if k <= 0 || k > v@.len() { false } else { lv_list(v, k - 1, l, t, e) || lv_gap(v@[k - 1].0, l, e) || lv(v@[k - 1].1, l, t, e) }
}
pub open spec fn lv(n: Node, l: int, t: Lab, e: Ev) -> bool decreases n {
    match n {
        Node::BinaryOp(_, a1, a2, a3, a4) => lv(*a3, lv_op(l, t, a2.0@), Some(Some(a2.0@)), e) || lv_gap(a1@[0], lv_op(l, t, a2.0@), e) || lv_gap(a1@[1], lv_op(l, t, a2.0@), e) || lv(*a4, lv_op(l, t, a2.0@), Some(Some(a2.0@)), e),
        Node::UnaryOp(_, a1, _, a3) => lv_gap(a1@[0], l, e) || lv(*a3, l, t, e),
        Node::UnaryNot(_, a1, a2) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e),
        Node::Var(_, a1, a2, a3) => lv(*a2, l, t, e) || lv_gap(a1@[0], l, e) || lv_gap(a1@[0], l + 1, e) || lv(*a3, l, t, e) || lv(*a3, l + 1, inner(), e),
        Node::RoundBrackets(_, a1, a2) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e),
        Node::ArgsRoundBrackets(_, a1, a2) => lv_gap(a1@[0], l, e) || lv_gap(a1@[0], l + 1, e) || lv(*a2, l, t, e) || lv(*a2, l + 1, inner(), e) || lv_gap(a1@[1], l, e),
        Node::ArgsRoundBracketsEmpty(_, a1) => lv_gap(a1@[0], l, e),
        Node::Nil(_) => false,
        Node::False(_) => false,
        Node::True(_) => false,
        Node::VarArg(_) => false,
        Node::Break(_) => false,
        Node::Numeral(_, _) => false,
        Node::NormalStringLiteral(_, _) => false,
        Node::CharStringLiteral(_, _) => false,
        Node::MultiLineStringLiteral(_, _, _) => false,
        Node::TableConstructor(_, a1, a2, _) => lv_gap(a1@[0], l, e) || lv_gap(a1@[0], l + 1, e) || lv(*a2, l, t, e) || lv(*a2, l + 1, inner(), e) || lv_gap(a1@[1], l, e) || lv_gap(Loc(0, 0), l, e),
        Node::TableConstructorEmpty(_, a1) => lv_gap(a1@[0], l, e),
        Node::Fields(_, a1, _) => lv_sep(a1, a1@.len() as int, l, t, e),
        Node::FieldNamedBracket(_, a1, a2, a3) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l, e) || lv_gap(a1@[3], l, e) || lv(*a3, l, t, e),
        Node::FieldNamed(_, a1, a2, a3) => lv(*a2, l, t, e) || lv_gap(a1@[0], l, e) || lv_gap(a1@[1], l, e) || lv(*a3, l, t, e),
        Node::FieldSequential(_, a1) => lv(*a1, l, t, e),
        Node::TableIndex(_, a1, a2) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e),
        Node::TableMember(_, a1, a2) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e),
        Node::ExpList(_, a1) => lv_sep(a1, a1@.len() as int, l, t, e),
        Node::NameList(_, a1) => lv_sep(a1, a1@.len() as int, l, t, e),
        Node::ParList(_, a1) => lv_sep(a1, a1@.len() as int, l, t, e),
        Node::VarList(_, a1) => lv_sep(a1, a1@.len() as int, l, t, e),
        Node::VarRoundSuffix(_, a1, a2, a3) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l, e) || lv_gap(a1@[2], l + 1, e) || lv(*a3, l, t, e) || lv(*a3, l + 1, inner(), e),
        Node::VarSuffixList(_, a1) => lv_list(a1, a1@.len() as int, l, t, e),
        Node::FnMethodCall(_, a1, a2, a3) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv(*a3, l, t, e),
        Node::FunctionDef(_, a1, a2) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e),
        Node::FuncBody(_, a1) => lv_gap(a1@[0], l, e) || lv_gap(a1@[1], l, e),
        Node::FuncBodyB(_, a1, a2) => lv_gap(a1@[0], l, e) || lv_gap(a1@[1], l + 1, e) || lv(*a2, l + 1, inner(), e) || lv_gap(a1@[2], l, e),
        Node::FuncPBody(_, a1, a2) => lv_gap(a1@[0], l + 1, e) || lv(*a2, l + 1, inner(), e) || lv_gap(a1@[1], l + 1, e) || lv_gap(a1@[2], l, e),
        Node::FuncPBodyB(_, a1, a2, a3) => lv_gap(a1@[0], l + 1, e) || lv(*a2, l + 1, inner(), e) || lv_gap(a1@[1], l + 1, e) || lv_gap(a1@[2], l + 1, e) || lv(*a3, l + 1, inner(), e) || lv_gap(a1@[3], l, e),
        Node::FuncName(_, a1) => lv_sep(a1, a1@.len() as int, l, t, e),
        Node::FuncNameSelf(_, a1, a2, a3) => lv_sep(a2, a2@.len() as int, l, t, e) || lv_gap(a1@[0], l, e) || lv_gap(a1@[1], l, e) || lv(*a3, l, t, e),
        Node::FuncDecl(_, a1, a2, a3) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv(*a3, l, t, e),
        Node::LocalFuncDecl(_, a1, a2, a3) => lv_gap(a1@[0], l, e) || lv_gap(a1@[1], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[2], l, e) || lv(*a3, l, t, e),
        Node::StatementList(_, a1) => lv_list(a1, a1@.len() as int, l, t, e),
        Node::DoEnd(_, a1) => lv_gap(a1@[0], l, e),
        Node::DoBEnd(_, a1, a2) => lv_gap(a1@[0], l + 1, e) || lv(*a2, l + 1, inner(), e) || lv_gap(a1@[1], l, e),
        Node::VarsExprs(_, a1, a2, a3) => lv(*a2, l, t, e) || lv_gap(a1@[0], l, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[1], l + 1, e) || lv(*a3, l, t, e) || lv(*a3, l + 1, inner(), e),
        Node::Name(_, _) => false,
        Node::Label(_, a1, a2) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e),
        Node::GoTo(_, a1, a2) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e),
        Node::WhileDo(_, a1, a2) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l, e),
        Node::WhileDoB(_, a1, a2, a3) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l + 1, e) || lv(*a3, l + 1, inner(), e) || lv_gap(a1@[3], l, e),
        Node::RepeatUntil(_, a1, a2) => lv_gap(a1@[0], l, e) || lv_gap(a1@[1], l, e) || lv(*a2, l, t, e),
        Node::RepeatBUntil(_, a1, a2, a3) => lv_gap(a1@[0], l + 1, e) || lv(*a2, l + 1, inner(), e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l, e) || lv(*a3, l, t, e),
        Node::ForInt(_, a1, a2, a3, a4) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l, e) || lv(*a3, l, t, e) || lv_gap(a1@[3], l, e) || lv_gap(a1@[4], l, e) || lv(*a4, l, t, e) || lv_gap(a1@[5], l, e) || lv_gap(a1@[6], l, e),
        Node::ForIntB(_, a1, a2, a3, a4, a5) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l, e) || lv(*a3, l, t, e) || lv_gap(a1@[3], l, e) || lv_gap(a1@[4], l, e) || lv(*a4, l, t, e) || lv_gap(a1@[5], l, e) || lv_gap(a1@[6], l + 1, e) || lv(*a5, l + 1, inner(), e) || lv_gap(a1@[7], l, e),
        Node::ForIntStep(_, a1, a2, a3, a4, a5) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l, e) || lv(*a3, l, t, e) || lv_gap(a1@[3], l, e) || lv_gap(a1@[4], l, e) || lv(*a4, l, t, e) || lv_gap(a1@[5], l, e) || lv_gap(a1@[6], l, e) || lv(*a5, l, t, e) || lv_gap(a1@[7], l, e) || lv_gap(a1@[8], l, e),
        Node::ForIntStepB(_, a1, a2, a3, a4, a5, a6) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l, e) || lv(*a3, l, t, e) || lv_gap(a1@[3], l, e) || lv_gap(a1@[4], l, e) || lv(*a4, l, t, e) || lv_gap(a1@[5], l, e) || lv_gap(a1@[6], l, e) || lv(*a5, l, t, e) || lv_gap(a1@[7], l, e) || lv_gap(a1@[8], l + 1, e) || lv(*a6, l + 1, inner(), e) || lv_gap(a1@[9], l, e),
        Node::ForRange(_, a1, a2, a3) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l, e) || lv_gap(a1@[2], l + 1, e) || lv(*a3, l, t, e) || lv(*a3, l + 1, inner(), e) || lv_gap(a1@[3], l, e) || lv_gap(a1@[4], l, e),
        Node::ForRangeB(_, a1, a2, a3, a4) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l, e) || lv_gap(a1@[2], l + 1, e) || lv(*a3, l, t, e) || lv(*a3, l + 1, inner(), e) || lv_gap(a1@[3], l, e) || lv_gap(a1@[4], l + 1, e) || lv(*a4, l + 1, inner(), e) || lv_gap(a1@[5], l, e),
        Node::LocalNames(_, a1, a2) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e),
        Node::LocalNamesExprs(_, a1, a2, a3) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l, e) || lv_gap(a1@[2], l + 1, e) || lv(*a3, l, t, e) || lv(*a3, l + 1, inner(), e),
        Node::IfThen(_, a1, a2) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l, e),
        Node::IfThenB(_, a1, a2, a3) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l + 1, e) || lv(*a3, l + 1, inner(), e) || lv_gap(a1@[3], l, e),
        Node::IfThenElse(_, a1, a2) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l, e) || lv_gap(a1@[3], l, e),
        Node::IfThenBElse(_, a1, a2, a3) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l + 1, e) || lv(*a3, l + 1, inner(), e) || lv_gap(a1@[3], l, e) || lv_gap(a1@[4], l, e),
        Node::IfThenElseB(_, a1, a2, a3) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l, e) || lv_gap(a1@[3], l + 1, e) || lv(*a3, l + 1, inner(), e) || lv_gap(a1@[4], l, e),
        Node::IfThenBElseB(_, a1, a2, a3, a4) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l + 1, e) || lv(*a3, l + 1, inner(), e) || lv_gap(a1@[3], l, e) || lv_gap(a1@[4], l + 1, e) || lv(*a4, l + 1, inner(), e) || lv_gap(a1@[5], l, e),
        Node::IfThenElseIf(_, a1, a2, a3) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l, e) || lv(*a3, l, t, e) || lv_gap(a1@[3], l, e),
        Node::IfThenBElseIf(_, a1, a2, a3, a4) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l + 1, e) || lv(*a3, l + 1, inner(), e) || lv_gap(a1@[3], l, e) || lv(*a4, l, t, e) || lv_gap(a1@[4], l, e),
        Node::IfThenElseIfElse(_, a1, a2, a3) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l, e) || lv(*a3, l, t, e) || lv_gap(a1@[3], l, e) || lv_gap(a1@[4], l, e),
        Node::IfThenBElseIfElse(_, a1, a2, a3, a4) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l + 1, e) || lv(*a3, l + 1, inner(), e) || lv_gap(a1@[3], l, e) || lv(*a4, l, t, e) || lv_gap(a1@[4], l, e) || lv_gap(a1@[5], l, e),
        Node::IfThenElseIfElseB(_, a1, a2, a3, a4) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l, e) || lv(*a3, l, t, e) || lv_gap(a1@[3], l, e) || lv_gap(a1@[4], l + 1, e) || lv(*a4, l + 1, inner(), e) || lv_gap(a1@[5], l, e),
        Node::IfThenBElseIfElseB(_, a1, a2, a3, a4, a5) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l + 1, e) || lv(*a3, l + 1, inner(), e) || lv_gap(a1@[3], l, e) || lv(*a4, l, t, e) || lv_gap(a1@[4], l, e) || lv_gap(a1@[5], l + 1, e) || lv(*a5, l + 1, inner(), e) || lv_gap(a1@[6], l, e),
        Node::ElseIfThenVec(_, a1) => lv_list(a1, a1@.len() as int, l, t, e),
        Node::ElseIfThen(_, a1, a2) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e),
        Node::ElseIfThenB(_, a1, a2, a3) => lv_gap(a1@[0], l, e) || lv(*a2, l, t, e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[2], l + 1, e) || lv(*a3, l + 1, inner(), e),
        Node::RetStatNone(_) => false,
        Node::RetStatExpr(_, a1, a2) => lv_gap(a1@[0], l, e) || lv_gap(a1@[0], l + 1, e) || lv(*a2, l, t, e) || lv(*a2, l + 1, inner(), e),
        Node::RetStatNoneComma(_, a1) => lv_gap(a1@[0], l, e),
        Node::RetStatExprComma(_, a1, a2) => lv_gap(a1@[0], l, e) || lv_gap(a1@[0], l + 1, e) || lv(*a2, l, t, e) || lv(*a2, l + 1, inner(), e) || lv_gap(a1@[1], l, e) || lv_gap(a1@[1], l + 1, e),
        Node::StatsRetStat(_, a1, a2, a3) => lv(*a2, l, t, e) || lv_gap(a1@[0], l, e) || lv(*a3, l, t, e),
        Node::Chunk(a0, a1, a2) => lv_gap(a0, l, e) || lv(*a1, l, t, e) || lv_gap(a2, l, e),
        Node::SheBangChunk(a0, a1, a2, a3, a4) => lv_gap(a0, l, e) || lv(*a1, l, t, e) || lv_gap(a2, l, e) || lv(*a3, l, t, e) || lv_gap(a4, l, e),
        Node::Semicolon(_) => false,
        Node::SheBang(_, _) => false,
    }
}
