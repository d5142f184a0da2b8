// generated by gen_same.py from enum Node
pub open spec fn same(a: Node, b: Node, conv: bool) -> bool decreases a {
    match a {
        Node::BinaryOp(a0, a1, a2, a3, a4) => match b { Node::BinaryOp(b0, b1, b2, b3, b4) => a0 == b0 && a1 == b1 && a2 == b2 && same(*a3, *b3, conv) && same(*a4, *b4, conv), _ => false },
        Node::UnaryOp(a0, a1, a2, a3) => match b { Node::UnaryOp(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && a2 == b2 && same(*a3, *b3, conv), _ => false },
        Node::UnaryNot(a0, a1, a2) => match b { Node::UnaryNot(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::Var(a0, a1, a2, a3) => match b { Node::Var(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::RoundBrackets(a0, a1, a2) => match b { Node::RoundBrackets(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::ArgsRoundBrackets(a0, a1, a2) => match b { Node::ArgsRoundBrackets(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::ArgsRoundBracketsEmpty(a0, a1) => match b { Node::ArgsRoundBracketsEmpty(b0, b1) => a0 == b0 && a1 == b1, _ => false },
        Node::Nil(a0) => match b { Node::Nil(b0) => a0 == b0, _ => false },
        Node::False(a0) => match b { Node::False(b0) => a0 == b0, _ => false },
        Node::True(a0) => match b { Node::True(b0) => a0 == b0, _ => false },
        Node::VarArg(a0) => match b { Node::VarArg(b0) => a0 == b0, _ => false },
        Node::Break(a0) => match b { Node::Break(b0) => a0 == b0, _ => false },
        Node::Numeral(a0, a1) => match b { Node::Numeral(b0, b1) => a0 == b0 && a1 == b1, _ => false },
        Node::NormalStringLiteral(a0, a1) => match b { Node::NormalStringLiteral(b0, b1) => a0 == b0 && a1 == b1, _ => false },
        Node::CharStringLiteral(p, x) => if conv { match b { Node::NormalStringLiteral(q, y) => q == p && converted(x@, y@), _ => false } }
            else { b == a },
        Node::MultiLineStringLiteral(a0, a1, a2) => match b { Node::MultiLineStringLiteral(b0, b1, b2) => a0 == b0 && a1 == b1 && a2 == b2, _ => false },
        Node::TableConstructor(a0, a1, a2, a3) => match b { Node::TableConstructor(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::TableConstructorEmpty(a0, a1) => match b { Node::TableConstructorEmpty(b0, b1) => a0 == b0 && a1 == b1, _ => false },
        Node::Fields(a0, a1, a2) => match b { Node::Fields(b0, b1, b2) => a0 == b0 && same4(a1@, b1@, conv), _ => false },
        Node::FieldNamedBracket(a0, a1, a2, a3) => match b { Node::FieldNamedBracket(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::FieldNamed(a0, a1, a2, a3) => match b { Node::FieldNamed(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::FieldSequential(a0, a1) => match b { Node::FieldSequential(b0, b1) => a0 == b0 && same(*a1, *b1, conv), _ => false },
        Node::TableIndex(a0, a1, a2) => match b { Node::TableIndex(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::TableMember(a0, a1, a2) => match b { Node::TableMember(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::ExpList(a0, a1) => match b { Node::ExpList(b0, b1) => a0 == b0 && same4(a1@, b1@, conv), _ => false },
        Node::NameList(a0, a1) => match b { Node::NameList(b0, b1) => a0 == b0 && same4(a1@, b1@, conv), _ => false },
        Node::ParList(a0, a1) => match b { Node::ParList(b0, b1) => a0 == b0 && same4(a1@, b1@, conv), _ => false },
        Node::VarList(a0, a1) => match b { Node::VarList(b0, b1) => a0 == b0 && same4(a1@, b1@, conv), _ => false },
        Node::VarRoundSuffix(a0, a1, a2, a3) => match b { Node::VarRoundSuffix(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::VarSuffixList(a0, a1) => match b { Node::VarSuffixList(b0, b1) => a0 == b0 && same2(a1@, b1@, conv), _ => false },
        Node::FnMethodCall(a0, a1, a2, a3) => match b { Node::FnMethodCall(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::FunctionDef(a0, a1, a2) => match b { Node::FunctionDef(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::FuncBody(a0, a1) => match b { Node::FuncBody(b0, b1) => a0 == b0 && a1 == b1, _ => false },
        Node::FuncBodyB(a0, a1, a2) => match b { Node::FuncBodyB(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::FuncPBody(a0, a1, a2) => match b { Node::FuncPBody(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::FuncPBodyB(a0, a1, a2, a3) => match b { Node::FuncPBodyB(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::FuncName(a0, a1) => match b { Node::FuncName(b0, b1) => a0 == b0 && same4(a1@, b1@, conv), _ => false },
        Node::FuncNameSelf(a0, a1, a2, a3) => match b { Node::FuncNameSelf(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same4(a2@, b2@, conv) && same(*a3, *b3, conv), _ => false },
        Node::FuncDecl(a0, a1, a2, a3) => match b { Node::FuncDecl(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::LocalFuncDecl(a0, a1, a2, a3) => match b { Node::LocalFuncDecl(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::StatementList(a0, a1) => match b { Node::StatementList(b0, b1) => a0 == b0 && same2(a1@, b1@, conv), _ => false },
        Node::DoEnd(a0, a1) => match b { Node::DoEnd(b0, b1) => a0 == b0 && a1 == b1, _ => false },
        Node::DoBEnd(a0, a1, a2) => match b { Node::DoBEnd(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::VarsExprs(a0, a1, a2, a3) => match b { Node::VarsExprs(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::Name(a0, a1) => match b { Node::Name(b0, b1) => a0 == b0 && a1 == b1, _ => false },
        Node::Label(a0, a1, a2) => match b { Node::Label(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::GoTo(a0, a1, a2) => match b { Node::GoTo(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::WhileDo(a0, a1, a2) => match b { Node::WhileDo(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::WhileDoB(a0, a1, a2, a3) => match b { Node::WhileDoB(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::RepeatUntil(a0, a1, a2) => match b { Node::RepeatUntil(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::RepeatBUntil(a0, a1, a2, a3) => match b { Node::RepeatBUntil(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::ForInt(a0, a1, a2, a3, a4) => match b { Node::ForInt(b0, b1, b2, b3, b4) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv) && same(*a4, *b4, conv), _ => false },
        Node::ForIntB(a0, a1, a2, a3, a4, a5) => match b { Node::ForIntB(b0, b1, b2, b3, b4, b5) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv) && same(*a4, *b4, conv) && same(*a5, *b5, conv), _ => false },
        Node::ForIntStep(a0, a1, a2, a3, a4, a5) => match b { Node::ForIntStep(b0, b1, b2, b3, b4, b5) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv) && same(*a4, *b4, conv) && same(*a5, *b5, conv), _ => false },
        Node::ForIntStepB(a0, a1, a2, a3, a4, a5, a6) => match b { Node::ForIntStepB(b0, b1, b2, b3, b4, b5, b6) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv) && same(*a4, *b4, conv) && same(*a5, *b5, conv) && same(*a6, *b6, conv), _ => false },
        Node::ForRange(a0, a1, a2, a3) => match b { Node::ForRange(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::ForRangeB(a0, a1, a2, a3, a4) => match b { Node::ForRangeB(b0, b1, b2, b3, b4) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv) && same(*a4, *b4, conv), _ => false },
        Node::LocalNames(a0, a1, a2) => match b { Node::LocalNames(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::LocalNamesExprs(a0, a1, a2, a3) => match b { Node::LocalNamesExprs(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::IfThen(a0, a1, a2) => match b { Node::IfThen(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::IfThenB(a0, a1, a2, a3) => match b { Node::IfThenB(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::IfThenElse(a0, a1, a2) => match b { Node::IfThenElse(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::IfThenBElse(a0, a1, a2, a3) => match b { Node::IfThenBElse(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::IfThenElseB(a0, a1, a2, a3) => match b { Node::IfThenElseB(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::IfThenBElseB(a0, a1, a2, a3, a4) => match b { Node::IfThenBElseB(b0, b1, b2, b3, b4) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv) && same(*a4, *b4, conv), _ => false },
        Node::IfThenElseIf(a0, a1, a2, a3) => match b { Node::IfThenElseIf(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::IfThenBElseIf(a0, a1, a2, a3, a4) => match b { Node::IfThenBElseIf(b0, b1, b2, b3, b4) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv) && same(*a4, *b4, conv), _ => false },
        Node::IfThenElseIfElse(a0, a1, a2, a3) => match b { Node::IfThenElseIfElse(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::IfThenBElseIfElse(a0, a1, a2, a3, a4) => match b { Node::IfThenBElseIfElse(b0, b1, b2, b3, b4) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv) && same(*a4, *b4, conv), _ => false },
        Node::IfThenElseIfElseB(a0, a1, a2, a3, a4) => match b { Node::IfThenElseIfElseB(b0, b1, b2, b3, b4) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv) && same(*a4, *b4, conv), _ => false },
        Node::IfThenBElseIfElseB(a0, a1, a2, a3, a4, a5) => match b { Node::IfThenBElseIfElseB(b0, b1, b2, b3, b4, b5) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv) && same(*a4, *b4, conv) && same(*a5, *b5, conv), _ => false },
        Node::ElseIfThenVec(a0, a1) => match b { Node::ElseIfThenVec(b0, b1) => a0 == b0 && same2(a1@, b1@, conv), _ => false },
        Node::ElseIfThen(a0, a1, a2) => match b { Node::ElseIfThen(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::ElseIfThenB(a0, a1, a2, a3) => match b { Node::ElseIfThenB(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::RetStatNone(a0) => match b { Node::RetStatNone(b0) => a0 == b0, _ => false },
        Node::RetStatExpr(a0, a1, a2) => match b { Node::RetStatExpr(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::RetStatNoneComma(a0, a1) => match b { Node::RetStatNoneComma(b0, b1) => a0 == b0 && a1 == b1, _ => false },
        Node::RetStatExprComma(a0, a1, a2) => match b { Node::RetStatExprComma(b0, b1, b2) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv), _ => false },
        Node::StatsRetStat(a0, a1, a2, a3) => match b { Node::StatsRetStat(b0, b1, b2, b3) => a0 == b0 && a1 == b1 && same(*a2, *b2, conv) && same(*a3, *b3, conv), _ => false },
        Node::Chunk(a0, a1, a2) => match b { Node::Chunk(b0, b1, b2) => a0 == b0 && same(*a1, *b1, conv) && a2 == b2, _ => false },
        Node::SheBangChunk(a0, a1, a2, a3, a4) => match b { Node::SheBangChunk(b0, b1, b2, b3, b4) => a0 == b0 && same(*a1, *b1, conv) && a2 == b2 && same(*a3, *b3, conv) && a4 == b4, _ => false },
        Node::Semicolon(a0) => match b { Node::Semicolon(b0) => a0 == b0, _ => false },
        Node::SheBang(a0, a1) => match b { Node::SheBang(b0, b1) => a0 == b0 && a1 == b1, _ => false },
    }
}
pub open spec fn same4(a: Seq<(Loc, Node, Loc, String)>, b: Seq<(Loc, Node, Loc, String)>, conv: bool) -> bool decreases a {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).0 == a[i].0 && b[i].2 == a[i].2 && b[i].3 == a[i].3 && same(a[i].1, b[i].1, conv)
}
pub open spec fn same2(a: Seq<(Loc, Node)>, b: Seq<(Loc, Node)>, conv: bool) -> bool decreases a {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).0 == a[i].0 && same(a[i].1, b[i].1, conv)
}
