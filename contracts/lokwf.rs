// generated by gen_lok.py from enum Node
pub proof fn wl4(v: Vec<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, k: int, a: int) requires 0 <= k <= v@.len(), wf_sep(v, s, kd, k, a) ensures lok4(v, k, s) decreases v, k
{ if k > 0 { wl4(v, s, kd, k - 1, a); wf_lok(v@[k - 1].1, s); wf_sub(v@[k - 1].1, s); } }
pub proof fn wl2(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int) requires 0 <= k <= v@.len(), wf_list(v, s, k, a) ensures lok2(v, k, s) decreases v, k
{ if k > 0 { wl2(v, s, k - 1, a); wf_lok(v@[k - 1].1, s); wf_sub(v@[k - 1].1, s); } }
pub proof fn wf_lok(n: Node, s: Seq<char>) requires wf(n, s) ensures lok(n, s) decreases n, 1int
{
    match n {
        Node::BinaryOp(_, _, _, _, _) => wl_BinaryOp(n, s),
        Node::UnaryOp(_, _, _, _) => wl_UnaryOp(n, s),
        Node::UnaryNot(_, _, _) => wl_UnaryNot(n, s),
        Node::Var(_, _, _, _) => wl_Var(n, s),
        Node::RoundBrackets(_, _, _) => wl_RoundBrackets(n, s),
        Node::ArgsRoundBrackets(_, _, _) => wl_ArgsRoundBrackets(n, s),
        Node::ArgsRoundBracketsEmpty(_, _) => wl_ArgsRoundBracketsEmpty(n, s),
        Node::Nil(_) => wl_Nil(n, s),
        Node::False(_) => wl_False(n, s),
        Node::True(_) => wl_True(n, s),
        Node::VarArg(_) => wl_VarArg(n, s),
        Node::Break(_) => wl_Break(n, s),
        Node::Numeral(_, _) => wl_Numeral(n, s),
        Node::NormalStringLiteral(_, _) => wl_NormalStringLiteral(n, s),
        Node::CharStringLiteral(_, _) => wl_CharStringLiteral(n, s),
        Node::MultiLineStringLiteral(_, _, _) => wl_MultiLineStringLiteral(n, s),
        Node::TableConstructor(_, _, _, _) => wl_TableConstructor(n, s),
        Node::TableConstructorEmpty(_, _) => wl_TableConstructorEmpty(n, s),
        Node::Fields(_, _, _) => wl_Fields(n, s),
        Node::FieldNamedBracket(_, _, _, _) => wl_FieldNamedBracket(n, s),
        Node::FieldNamed(_, _, _, _) => wl_FieldNamed(n, s),
        Node::FieldSequential(_, _) => wl_FieldSequential(n, s),
        Node::TableIndex(_, _, _) => wl_TableIndex(n, s),
        Node::TableMember(_, _, _) => wl_TableMember(n, s),
        Node::ExpList(_, _) => wl_ExpList(n, s),
        Node::NameList(_, _) => wl_NameList(n, s),
        Node::ParList(_, _) => wl_ParList(n, s),
        Node::VarList(_, _) => wl_VarList(n, s),
        Node::VarRoundSuffix(_, _, _, _) => wl_VarRoundSuffix(n, s),
        Node::VarSuffixList(_, _) => wl_VarSuffixList(n, s),
        Node::FnMethodCall(_, _, _, _) => wl_FnMethodCall(n, s),
        Node::FunctionDef(_, _, _) => wl_FunctionDef(n, s),
        Node::FuncBody(_, _) => wl_FuncBody(n, s),
        Node::FuncBodyB(_, _, _) => wl_FuncBodyB(n, s),
        Node::FuncPBody(_, _, _) => wl_FuncPBody(n, s),
        Node::FuncPBodyB(_, _, _, _) => wl_FuncPBodyB(n, s),
        Node::FuncName(_, _) => wl_FuncName(n, s),
        Node::FuncNameSelf(_, _, _, _) => wl_FuncNameSelf(n, s),
        Node::FuncDecl(_, _, _, _) => wl_FuncDecl(n, s),
        Node::LocalFuncDecl(_, _, _, _) => wl_LocalFuncDecl(n, s),
        Node::StatementList(_, _) => wl_StatementList(n, s),
        Node::DoEnd(_, _) => wl_DoEnd(n, s),
        Node::DoBEnd(_, _, _) => wl_DoBEnd(n, s),
        Node::VarsExprs(_, _, _, _) => wl_VarsExprs(n, s),
        Node::Name(_, _) => wl_Name(n, s),
        Node::Label(_, _, _) => wl_Label(n, s),
        Node::GoTo(_, _, _) => wl_GoTo(n, s),
        Node::WhileDo(_, _, _) => wl_WhileDo(n, s),
        Node::WhileDoB(_, _, _, _) => wl_WhileDoB(n, s),
        Node::RepeatUntil(_, _, _) => wl_RepeatUntil(n, s),
        Node::RepeatBUntil(_, _, _, _) => wl_RepeatBUntil(n, s),
        Node::ForInt(_, _, _, _, _) => wl_ForInt(n, s),
        Node::ForIntB(_, _, _, _, _, _) => wl_ForIntB(n, s),
        Node::ForIntStep(_, _, _, _, _, _) => wl_ForIntStep(n, s),
        Node::ForIntStepB(_, _, _, _, _, _, _) => wl_ForIntStepB(n, s),
        Node::ForRange(_, _, _, _) => wl_ForRange(n, s),
        Node::ForRangeB(_, _, _, _, _) => wl_ForRangeB(n, s),
        Node::LocalNames(_, _, _) => wl_LocalNames(n, s),
        Node::LocalNamesExprs(_, _, _, _) => wl_LocalNamesExprs(n, s),
        Node::IfThen(_, _, _) => wl_IfThen(n, s),
        Node::IfThenB(_, _, _, _) => wl_IfThenB(n, s),
        Node::IfThenElse(_, _, _) => wl_IfThenElse(n, s),
        Node::IfThenBElse(_, _, _, _) => wl_IfThenBElse(n, s),
        Node::IfThenElseB(_, _, _, _) => wl_IfThenElseB(n, s),
        Node::IfThenBElseB(_, _, _, _, _) => wl_IfThenBElseB(n, s),
        Node::IfThenElseIf(_, _, _, _) => wl_IfThenElseIf(n, s),
        Node::IfThenBElseIf(_, _, _, _, _) => wl_IfThenBElseIf(n, s),
        Node::IfThenElseIfElse(_, _, _, _) => wl_IfThenElseIfElse(n, s),
        Node::IfThenBElseIfElse(_, _, _, _, _) => wl_IfThenBElseIfElse(n, s),
        Node::IfThenElseIfElseB(_, _, _, _, _) => wl_IfThenElseIfElseB(n, s),
        Node::IfThenBElseIfElseB(_, _, _, _, _, _) => wl_IfThenBElseIfElseB(n, s),
        Node::ElseIfThenVec(_, _) => wl_ElseIfThenVec(n, s),
        Node::ElseIfThen(_, _, _) => wl_ElseIfThen(n, s),
        Node::ElseIfThenB(_, _, _, _) => wl_ElseIfThenB(n, s),
        Node::RetStatNone(_) => wl_RetStatNone(n, s),
        Node::RetStatExpr(_, _, _) => wl_RetStatExpr(n, s),
        Node::RetStatNoneComma(_, _) => wl_RetStatNoneComma(n, s),
        Node::RetStatExprComma(_, _, _) => wl_RetStatExprComma(n, s),
        Node::StatsRetStat(_, _, _, _) => wl_StatsRetStat(n, s),
        Node::Chunk(_, _, _) => wl_Chunk(n, s),
        Node::SheBangChunk(_, _, _, _, _) => wl_SheBangChunk(n, s),
        Node::Semicolon(_) => wl_Semicolon(n, s),
        Node::SheBang(_, _) => wl_SheBang(n, s),
    }
}
pub proof fn sl4(v: Vec<(Loc, Node, Loc, String)>, w: Vec<(Loc, Node, Loc, String)>, s: Seq<char>, k: int, c: bool) requires 0 <= k <= v@.len(), lok4(v, k, s), same4(v@, w@, c) ensures lok4(w, k, s) decreases v, k
{ if k > 0 { sl4(v, w, s, k - 1, c); assert(w@[k - 1].0 == v@[k - 1].0 && w@[k - 1].2 == v@[k - 1].2); same_lok(v@[k - 1].1, w@[k - 1].1, s, c); } }
pub proof fn sl2(v: Vec<(Loc, Node)>, w: Vec<(Loc, Node)>, s: Seq<char>, k: int, c: bool) requires 0 <= k <= v@.len(), lok2(v, k, s), same2(v@, w@, c) ensures lok2(w, k, s) decreases v, k
{ if k > 0 { sl2(v, w, s, k - 1, c); assert(w@[k - 1].0 == v@[k - 1].0); same_lok(v@[k - 1].1, w@[k - 1].1, s, c); } }
pub proof fn same_lok(a: Node, b: Node, s: Seq<char>, c: bool) requires lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 1int
{
    match a {
        Node::BinaryOp(_, _, _, _, _) => sl_BinaryOp(a, b, s, c),
        Node::UnaryOp(_, _, _, _) => sl_UnaryOp(a, b, s, c),
        Node::UnaryNot(_, _, _) => sl_UnaryNot(a, b, s, c),
        Node::Var(_, _, _, _) => sl_Var(a, b, s, c),
        Node::RoundBrackets(_, _, _) => sl_RoundBrackets(a, b, s, c),
        Node::ArgsRoundBrackets(_, _, _) => sl_ArgsRoundBrackets(a, b, s, c),
        Node::ArgsRoundBracketsEmpty(_, _) => sl_ArgsRoundBracketsEmpty(a, b, s, c),
        Node::Nil(_) => sl_Nil(a, b, s, c),
        Node::False(_) => sl_False(a, b, s, c),
        Node::True(_) => sl_True(a, b, s, c),
        Node::VarArg(_) => sl_VarArg(a, b, s, c),
        Node::Break(_) => sl_Break(a, b, s, c),
        Node::Numeral(_, _) => sl_Numeral(a, b, s, c),
        Node::NormalStringLiteral(_, _) => sl_NormalStringLiteral(a, b, s, c),
        Node::CharStringLiteral(_, _) => sl_CharStringLiteral(a, b, s, c),
        Node::MultiLineStringLiteral(_, _, _) => sl_MultiLineStringLiteral(a, b, s, c),
        Node::TableConstructor(_, _, _, _) => sl_TableConstructor(a, b, s, c),
        Node::TableConstructorEmpty(_, _) => sl_TableConstructorEmpty(a, b, s, c),
        Node::Fields(_, _, _) => sl_Fields(a, b, s, c),
        Node::FieldNamedBracket(_, _, _, _) => sl_FieldNamedBracket(a, b, s, c),
        Node::FieldNamed(_, _, _, _) => sl_FieldNamed(a, b, s, c),
        Node::FieldSequential(_, _) => sl_FieldSequential(a, b, s, c),
        Node::TableIndex(_, _, _) => sl_TableIndex(a, b, s, c),
        Node::TableMember(_, _, _) => sl_TableMember(a, b, s, c),
        Node::ExpList(_, _) => sl_ExpList(a, b, s, c),
        Node::NameList(_, _) => sl_NameList(a, b, s, c),
        Node::ParList(_, _) => sl_ParList(a, b, s, c),
        Node::VarList(_, _) => sl_VarList(a, b, s, c),
        Node::VarRoundSuffix(_, _, _, _) => sl_VarRoundSuffix(a, b, s, c),
        Node::VarSuffixList(_, _) => sl_VarSuffixList(a, b, s, c),
        Node::FnMethodCall(_, _, _, _) => sl_FnMethodCall(a, b, s, c),
        Node::FunctionDef(_, _, _) => sl_FunctionDef(a, b, s, c),
        Node::FuncBody(_, _) => sl_FuncBody(a, b, s, c),
        Node::FuncBodyB(_, _, _) => sl_FuncBodyB(a, b, s, c),
        Node::FuncPBody(_, _, _) => sl_FuncPBody(a, b, s, c),
        Node::FuncPBodyB(_, _, _, _) => sl_FuncPBodyB(a, b, s, c),
        Node::FuncName(_, _) => sl_FuncName(a, b, s, c),
        Node::FuncNameSelf(_, _, _, _) => sl_FuncNameSelf(a, b, s, c),
        Node::FuncDecl(_, _, _, _) => sl_FuncDecl(a, b, s, c),
        Node::LocalFuncDecl(_, _, _, _) => sl_LocalFuncDecl(a, b, s, c),
        Node::StatementList(_, _) => sl_StatementList(a, b, s, c),
        Node::DoEnd(_, _) => sl_DoEnd(a, b, s, c),
        Node::DoBEnd(_, _, _) => sl_DoBEnd(a, b, s, c),
        Node::VarsExprs(_, _, _, _) => sl_VarsExprs(a, b, s, c),
        Node::Name(_, _) => sl_Name(a, b, s, c),
        Node::Label(_, _, _) => sl_Label(a, b, s, c),
        Node::GoTo(_, _, _) => sl_GoTo(a, b, s, c),
        Node::WhileDo(_, _, _) => sl_WhileDo(a, b, s, c),
        Node::WhileDoB(_, _, _, _) => sl_WhileDoB(a, b, s, c),
        Node::RepeatUntil(_, _, _) => sl_RepeatUntil(a, b, s, c),
        Node::RepeatBUntil(_, _, _, _) => sl_RepeatBUntil(a, b, s, c),
        Node::ForInt(_, _, _, _, _) => sl_ForInt(a, b, s, c),
        Node::ForIntB(_, _, _, _, _, _) => sl_ForIntB(a, b, s, c),
        Node::ForIntStep(_, _, _, _, _, _) => sl_ForIntStep(a, b, s, c),
        Node::ForIntStepB(_, _, _, _, _, _, _) => sl_ForIntStepB(a, b, s, c),
        Node::ForRange(_, _, _, _) => sl_ForRange(a, b, s, c),
        Node::ForRangeB(_, _, _, _, _) => sl_ForRangeB(a, b, s, c),
        Node::LocalNames(_, _, _) => sl_LocalNames(a, b, s, c),
        Node::LocalNamesExprs(_, _, _, _) => sl_LocalNamesExprs(a, b, s, c),
        Node::IfThen(_, _, _) => sl_IfThen(a, b, s, c),
        Node::IfThenB(_, _, _, _) => sl_IfThenB(a, b, s, c),
        Node::IfThenElse(_, _, _) => sl_IfThenElse(a, b, s, c),
        Node::IfThenBElse(_, _, _, _) => sl_IfThenBElse(a, b, s, c),
        Node::IfThenElseB(_, _, _, _) => sl_IfThenElseB(a, b, s, c),
        Node::IfThenBElseB(_, _, _, _, _) => sl_IfThenBElseB(a, b, s, c),
        Node::IfThenElseIf(_, _, _, _) => sl_IfThenElseIf(a, b, s, c),
        Node::IfThenBElseIf(_, _, _, _, _) => sl_IfThenBElseIf(a, b, s, c),
        Node::IfThenElseIfElse(_, _, _, _) => sl_IfThenElseIfElse(a, b, s, c),
        Node::IfThenBElseIfElse(_, _, _, _, _) => sl_IfThenBElseIfElse(a, b, s, c),
        Node::IfThenElseIfElseB(_, _, _, _, _) => sl_IfThenElseIfElseB(a, b, s, c),
        Node::IfThenBElseIfElseB(_, _, _, _, _, _) => sl_IfThenBElseIfElseB(a, b, s, c),
        Node::ElseIfThenVec(_, _) => sl_ElseIfThenVec(a, b, s, c),
        Node::ElseIfThen(_, _, _) => sl_ElseIfThen(a, b, s, c),
        Node::ElseIfThenB(_, _, _, _) => sl_ElseIfThenB(a, b, s, c),
        Node::RetStatNone(_) => sl_RetStatNone(a, b, s, c),
        Node::RetStatExpr(_, _, _) => sl_RetStatExpr(a, b, s, c),
        Node::RetStatNoneComma(_, _) => sl_RetStatNoneComma(a, b, s, c),
        Node::RetStatExprComma(_, _, _) => sl_RetStatExprComma(a, b, s, c),
        Node::StatsRetStat(_, _, _, _) => sl_StatsRetStat(a, b, s, c),
        Node::Chunk(_, _, _) => sl_Chunk(a, b, s, c),
        Node::SheBangChunk(_, _, _, _, _) => sl_SheBangChunk(a, b, s, c),
        Node::Semicolon(_) => sl_Semicolon(a, b, s, c),
        Node::SheBang(_, _) => sl_SheBang(a, b, s, c),
    }
}
pub mod wl0 { use super::*;
pub proof fn wl_BinaryOp(n: Node, s: Seq<char>) requires n is BinaryOp, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::BinaryOp(a0, a1, a2, a3, a4) = n { w_BinaryOp(a0, a1, a2, a3, a4, s); wf_lok(*a3, s); wf_sub(*a3, s); wf_lok(*a4, s); wf_sub(*a4, s); } }
pub proof fn wl_UnaryOp(n: Node, s: Seq<char>) requires n is UnaryOp, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::UnaryOp(a0, a1, a2, a3) = n { w_UnaryOp(a0, a1, a2, a3, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_UnaryNot(n: Node, s: Seq<char>) requires n is UnaryNot, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::UnaryNot(a0, a1, a2) = n { w_UnaryNot(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_Var(n: Node, s: Seq<char>) requires n is Var, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::Var(a0, a1, a2, a3) = n { w_Var(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_RoundBrackets(n: Node, s: Seq<char>) requires n is RoundBrackets, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::RoundBrackets(a0, a1, a2) = n { w_RoundBrackets(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_ArgsRoundBrackets(n: Node, s: Seq<char>) requires n is ArgsRoundBrackets, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::ArgsRoundBrackets(a0, a1, a2) = n { w_ArgsRoundBrackets(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_ArgsRoundBracketsEmpty(n: Node, s: Seq<char>) requires n is ArgsRoundBracketsEmpty, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::ArgsRoundBracketsEmpty(a0, a1) = n { w_ArgsRoundBracketsEmpty(a0, a1, s);  } }
pub proof fn wl_Nil(n: Node, s: Seq<char>) requires n is Nil, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::Nil(a0) = n { w_Nil(a0, s);  } }
pub proof fn wl_False(n: Node, s: Seq<char>) requires n is False, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::False(a0) = n { w_False(a0, s);  } }
pub proof fn wl_True(n: Node, s: Seq<char>) requires n is True, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::True(a0) = n { w_True(a0, s);  } }
pub proof fn wl_VarArg(n: Node, s: Seq<char>) requires n is VarArg, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::VarArg(a0) = n { w_VarArg(a0, s);  } }
}
pub use wl0::*;
pub mod wl1 { use super::*;
pub proof fn wl_Break(n: Node, s: Seq<char>) requires n is Break, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::Break(a0) = n { w_Break(a0, s);  } }
pub proof fn wl_Numeral(n: Node, s: Seq<char>) requires n is Numeral, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::Numeral(a0, a1) = n { w_Numeral(a0, a1, s);  } }
pub proof fn wl_NormalStringLiteral(n: Node, s: Seq<char>) requires n is NormalStringLiteral, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::NormalStringLiteral(a0, a1) = n { w_NormalStringLiteral(a0, a1, s);  } }
pub proof fn wl_CharStringLiteral(n: Node, s: Seq<char>) requires n is CharStringLiteral, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::CharStringLiteral(a0, a1) = n { w_CharStringLiteral(a0, a1, s);  } }
pub proof fn wl_MultiLineStringLiteral(n: Node, s: Seq<char>) requires n is MultiLineStringLiteral, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::MultiLineStringLiteral(a0, a1, a2) = n { w_MultiLineStringLiteral(a0, a1, a2, s);  } }
pub proof fn wl_TableConstructor(n: Node, s: Seq<char>) requires n is TableConstructor, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::TableConstructor(a0, a1, a2, a3) = n { w_TableConstructor(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_TableConstructorEmpty(n: Node, s: Seq<char>) requires n is TableConstructorEmpty, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::TableConstructorEmpty(a0, a1) = n { w_TableConstructorEmpty(a0, a1, s);  } }
pub proof fn wl_Fields(n: Node, s: Seq<char>) requires n is Fields, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::Fields(a0, a1, a2) = n { w_Fields(a0, a1, a2, s); wl4(a1, s, SepKind::fields, a1@.len() as int, a0.0 as int); } }
pub proof fn wl_FieldNamedBracket(n: Node, s: Seq<char>) requires n is FieldNamedBracket, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::FieldNamedBracket(a0, a1, a2, a3) = n { w_FieldNamedBracket(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_FieldNamed(n: Node, s: Seq<char>) requires n is FieldNamed, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::FieldNamed(a0, a1, a2, a3) = n { w_FieldNamed(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_FieldSequential(n: Node, s: Seq<char>) requires n is FieldSequential, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::FieldSequential(a0, a1) = n { w_FieldSequential(a0, a1, s); wf_lok(*a1, s); wf_sub(*a1, s); } }
}
pub use wl1::*;
pub mod wl2 { use super::*;
pub proof fn wl_TableIndex(n: Node, s: Seq<char>) requires n is TableIndex, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::TableIndex(a0, a1, a2) = n { w_TableIndex(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_TableMember(n: Node, s: Seq<char>) requires n is TableMember, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::TableMember(a0, a1, a2) = n { w_TableMember(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_ExpList(n: Node, s: Seq<char>) requires n is ExpList, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::ExpList(a0, a1) = n { w_ExpList(a0, a1, s); wl4(a1, s, SepKind::comma, a1@.len() as int, a0.0 as int); } }
pub proof fn wl_NameList(n: Node, s: Seq<char>) requires n is NameList, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::NameList(a0, a1) = n { w_NameList(a0, a1, s); wl4(a1, s, SepKind::comma, a1@.len() as int, a0.0 as int); } }
pub proof fn wl_ParList(n: Node, s: Seq<char>) requires n is ParList, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::ParList(a0, a1) = n { w_ParList(a0, a1, s); wl4(a1, s, SepKind::comma, a1@.len() as int, a0.0 as int); } }
pub proof fn wl_VarList(n: Node, s: Seq<char>) requires n is VarList, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::VarList(a0, a1) = n { w_VarList(a0, a1, s); wl4(a1, s, SepKind::comma, a1@.len() as int, a0.0 as int); } }
pub proof fn wl_VarRoundSuffix(n: Node, s: Seq<char>) requires n is VarRoundSuffix, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::VarRoundSuffix(a0, a1, a2, a3) = n { w_VarRoundSuffix(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_VarSuffixList(n: Node, s: Seq<char>) requires n is VarSuffixList, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::VarSuffixList(a0, a1) = n { w_VarSuffixList(a0, a1, s); wl2(a1, s, a1@.len() as int, a0.0 as int); } }
pub proof fn wl_FnMethodCall(n: Node, s: Seq<char>) requires n is FnMethodCall, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::FnMethodCall(a0, a1, a2, a3) = n { w_FnMethodCall(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_FunctionDef(n: Node, s: Seq<char>) requires n is FunctionDef, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::FunctionDef(a0, a1, a2) = n { w_FunctionDef(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_FuncBody(n: Node, s: Seq<char>) requires n is FuncBody, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::FuncBody(a0, a1) = n { w_FuncBody(a0, a1, s);  } }
}
pub use wl2::*;
pub mod wl3 { use super::*;
pub proof fn wl_FuncBodyB(n: Node, s: Seq<char>) requires n is FuncBodyB, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::FuncBodyB(a0, a1, a2) = n { w_FuncBodyB(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_FuncPBody(n: Node, s: Seq<char>) requires n is FuncPBody, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::FuncPBody(a0, a1, a2) = n { w_FuncPBody(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_FuncPBodyB(n: Node, s: Seq<char>) requires n is FuncPBodyB, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::FuncPBodyB(a0, a1, a2, a3) = n { w_FuncPBodyB(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_FuncName(n: Node, s: Seq<char>) requires n is FuncName, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::FuncName(a0, a1) = n { w_FuncName(a0, a1, s); wl4(a1, s, SepKind::dot, a1@.len() as int, a0.0 as int); } }
pub proof fn wl_FuncNameSelf(n: Node, s: Seq<char>) requires n is FuncNameSelf, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::FuncNameSelf(a0, a1, a2, a3) = n { w_FuncNameSelf(a0, a1, a2, a3, s); wl4(a2, s, SepKind::dot, a2@.len() as int, a0.0 as int); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_FuncDecl(n: Node, s: Seq<char>) requires n is FuncDecl, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::FuncDecl(a0, a1, a2, a3) = n { w_FuncDecl(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_LocalFuncDecl(n: Node, s: Seq<char>) requires n is LocalFuncDecl, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::LocalFuncDecl(a0, a1, a2, a3) = n { w_LocalFuncDecl(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_StatementList(n: Node, s: Seq<char>) requires n is StatementList, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::StatementList(a0, a1) = n { w_StatementList(a0, a1, s); wl2(a1, s, a1@.len() as int, a0.0 as int); } }
pub proof fn wl_DoEnd(n: Node, s: Seq<char>) requires n is DoEnd, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::DoEnd(a0, a1) = n { w_DoEnd(a0, a1, s);  } }
pub proof fn wl_DoBEnd(n: Node, s: Seq<char>) requires n is DoBEnd, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::DoBEnd(a0, a1, a2) = n { w_DoBEnd(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_VarsExprs(n: Node, s: Seq<char>) requires n is VarsExprs, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::VarsExprs(a0, a1, a2, a3) = n { w_VarsExprs(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
}
pub use wl3::*;
pub mod wl4 { use super::*;
pub proof fn wl_Name(n: Node, s: Seq<char>) requires n is Name, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::Name(a0, a1) = n { w_Name(a0, a1, s);  } }
pub proof fn wl_Label(n: Node, s: Seq<char>) requires n is Label, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::Label(a0, a1, a2) = n { w_Label(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_GoTo(n: Node, s: Seq<char>) requires n is GoTo, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::GoTo(a0, a1, a2) = n { w_GoTo(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_WhileDo(n: Node, s: Seq<char>) requires n is WhileDo, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::WhileDo(a0, a1, a2) = n { w_WhileDo(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_WhileDoB(n: Node, s: Seq<char>) requires n is WhileDoB, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::WhileDoB(a0, a1, a2, a3) = n { w_WhileDoB(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_RepeatUntil(n: Node, s: Seq<char>) requires n is RepeatUntil, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::RepeatUntil(a0, a1, a2) = n { w_RepeatUntil(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_RepeatBUntil(n: Node, s: Seq<char>) requires n is RepeatBUntil, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::RepeatBUntil(a0, a1, a2, a3) = n { w_RepeatBUntil(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_ForInt(n: Node, s: Seq<char>) requires n is ForInt, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::ForInt(a0, a1, a2, a3, a4) = n { w_ForInt(a0, a1, a2, a3, a4, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); wf_lok(*a4, s); wf_sub(*a4, s); } }
pub proof fn wl_ForIntB(n: Node, s: Seq<char>) requires n is ForIntB, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::ForIntB(a0, a1, a2, a3, a4, a5) = n { w_ForIntB(a0, a1, a2, a3, a4, a5, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); wf_lok(*a4, s); wf_sub(*a4, s); wf_lok(*a5, s); wf_sub(*a5, s); } }
pub proof fn wl_ForIntStep(n: Node, s: Seq<char>) requires n is ForIntStep, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::ForIntStep(a0, a1, a2, a3, a4, a5) = n { w_ForIntStep(a0, a1, a2, a3, a4, a5, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); wf_lok(*a4, s); wf_sub(*a4, s); wf_lok(*a5, s); wf_sub(*a5, s); } }
pub proof fn wl_ForIntStepB(n: Node, s: Seq<char>) requires n is ForIntStepB, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::ForIntStepB(a0, a1, a2, a3, a4, a5, a6) = n { w_ForIntStepB(a0, a1, a2, a3, a4, a5, a6, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); wf_lok(*a4, s); wf_sub(*a4, s); wf_lok(*a5, s); wf_sub(*a5, s); wf_lok(*a6, s); wf_sub(*a6, s); } }
}
pub use wl4::*;
pub mod wl5 { use super::*;
pub proof fn wl_ForRange(n: Node, s: Seq<char>) requires n is ForRange, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::ForRange(a0, a1, a2, a3) = n { w_ForRange(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_ForRangeB(n: Node, s: Seq<char>) requires n is ForRangeB, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::ForRangeB(a0, a1, a2, a3, a4) = n { w_ForRangeB(a0, a1, a2, a3, a4, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); wf_lok(*a4, s); wf_sub(*a4, s); } }
pub proof fn wl_LocalNames(n: Node, s: Seq<char>) requires n is LocalNames, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::LocalNames(a0, a1, a2) = n { w_LocalNames(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_LocalNamesExprs(n: Node, s: Seq<char>) requires n is LocalNamesExprs, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::LocalNamesExprs(a0, a1, a2, a3) = n { w_LocalNamesExprs(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_IfThen(n: Node, s: Seq<char>) requires n is IfThen, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::IfThen(a0, a1, a2) = n { w_IfThen(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_IfThenB(n: Node, s: Seq<char>) requires n is IfThenB, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::IfThenB(a0, a1, a2, a3) = n { w_IfThenB(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_IfThenElse(n: Node, s: Seq<char>) requires n is IfThenElse, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::IfThenElse(a0, a1, a2) = n { w_IfThenElse(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_IfThenBElse(n: Node, s: Seq<char>) requires n is IfThenBElse, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::IfThenBElse(a0, a1, a2, a3) = n { w_IfThenBElse(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_IfThenElseB(n: Node, s: Seq<char>) requires n is IfThenElseB, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::IfThenElseB(a0, a1, a2, a3) = n { w_IfThenElseB(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_IfThenBElseB(n: Node, s: Seq<char>) requires n is IfThenBElseB, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::IfThenBElseB(a0, a1, a2, a3, a4) = n { w_IfThenBElseB(a0, a1, a2, a3, a4, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); wf_lok(*a4, s); wf_sub(*a4, s); } }
pub proof fn wl_IfThenElseIf(n: Node, s: Seq<char>) requires n is IfThenElseIf, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::IfThenElseIf(a0, a1, a2, a3) = n { w_IfThenElseIf(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
}
pub use wl5::*;
pub mod wl6 { use super::*;
pub proof fn wl_IfThenBElseIf(n: Node, s: Seq<char>) requires n is IfThenBElseIf, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::IfThenBElseIf(a0, a1, a2, a3, a4) = n { w_IfThenBElseIf(a0, a1, a2, a3, a4, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); wf_lok(*a4, s); wf_sub(*a4, s); } }
pub proof fn wl_IfThenElseIfElse(n: Node, s: Seq<char>) requires n is IfThenElseIfElse, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::IfThenElseIfElse(a0, a1, a2, a3) = n { w_IfThenElseIfElse(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_IfThenBElseIfElse(n: Node, s: Seq<char>) requires n is IfThenBElseIfElse, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::IfThenBElseIfElse(a0, a1, a2, a3, a4) = n { w_IfThenBElseIfElse(a0, a1, a2, a3, a4, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); wf_lok(*a4, s); wf_sub(*a4, s); } }
pub proof fn wl_IfThenElseIfElseB(n: Node, s: Seq<char>) requires n is IfThenElseIfElseB, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::IfThenElseIfElseB(a0, a1, a2, a3, a4) = n { w_IfThenElseIfElseB(a0, a1, a2, a3, a4, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); wf_lok(*a4, s); wf_sub(*a4, s); } }
pub proof fn wl_IfThenBElseIfElseB(n: Node, s: Seq<char>) requires n is IfThenBElseIfElseB, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::IfThenBElseIfElseB(a0, a1, a2, a3, a4, a5) = n { w_IfThenBElseIfElseB(a0, a1, a2, a3, a4, a5, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); wf_lok(*a4, s); wf_sub(*a4, s); wf_lok(*a5, s); wf_sub(*a5, s); } }
pub proof fn wl_ElseIfThenVec(n: Node, s: Seq<char>) requires n is ElseIfThenVec, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::ElseIfThenVec(a0, a1) = n { w_ElseIfThenVec(a0, a1, s); wl2(a1, s, a1@.len() as int, a0.0 as int); } }
pub proof fn wl_ElseIfThen(n: Node, s: Seq<char>) requires n is ElseIfThen, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::ElseIfThen(a0, a1, a2) = n { w_ElseIfThen(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_ElseIfThenB(n: Node, s: Seq<char>) requires n is ElseIfThenB, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::ElseIfThenB(a0, a1, a2, a3) = n { w_ElseIfThenB(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_RetStatNone(n: Node, s: Seq<char>) requires n is RetStatNone, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::RetStatNone(a0) = n { w_RetStatNone(a0, s);  } }
pub proof fn wl_RetStatExpr(n: Node, s: Seq<char>) requires n is RetStatExpr, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::RetStatExpr(a0, a1, a2) = n { w_RetStatExpr(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_RetStatNoneComma(n: Node, s: Seq<char>) requires n is RetStatNoneComma, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::RetStatNoneComma(a0, a1) = n { w_RetStatNoneComma(a0, a1, s);  } }
}
pub use wl6::*;
pub mod wl7 { use super::*;
pub proof fn wl_RetStatExprComma(n: Node, s: Seq<char>) requires n is RetStatExprComma, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::RetStatExprComma(a0, a1, a2) = n { w_RetStatExprComma(a0, a1, a2, s); wf_lok(*a2, s); wf_sub(*a2, s); } }
pub proof fn wl_StatsRetStat(n: Node, s: Seq<char>) requires n is StatsRetStat, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::StatsRetStat(a0, a1, a2, a3) = n { w_StatsRetStat(a0, a1, a2, a3, s); wf_lok(*a2, s); wf_sub(*a2, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_Chunk(n: Node, s: Seq<char>) requires n is Chunk, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::Chunk(a0, a1, a2) = n { w_Chunk(a0, a1, a2, s); wf_lok(*a1, s); wf_sub(*a1, s); } }
pub proof fn wl_SheBangChunk(n: Node, s: Seq<char>) requires n is SheBangChunk, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::SheBangChunk(a0, a1, a2, a3, a4) = n { w_SheBangChunk(a0, a1, a2, a3, a4, s); wf_lok(*a1, s); wf_sub(*a1, s); wf_lok(*a3, s); wf_sub(*a3, s); } }
pub proof fn wl_Semicolon(n: Node, s: Seq<char>) requires n is Semicolon, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::Semicolon(a0) = n { w_Semicolon(a0, s);  } }
pub proof fn wl_SheBang(n: Node, s: Seq<char>) requires n is SheBang, wf(n, s) ensures lok(n, s) decreases n, 0int
{ hide(wf); wf_sub(n, s); if let Node::SheBang(a0, a1) = n { w_SheBang(a0, a1, s);  } }
}
pub use wl7::*;
pub mod slm0 { use super::*;
pub proof fn sl_BinaryOp(a: Node, b: Node, s: Seq<char>, c: bool) requires a is BinaryOp, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::BinaryOp(a0, a1, a2, a3, a4) = a { if let Node::BinaryOp(b0, b1, b2, b3, b4) = b { same_lok(*a3, *b3, s, c); same_lok(*a4, *b4, s, c); } } }
pub proof fn sl_UnaryOp(a: Node, b: Node, s: Seq<char>, c: bool) requires a is UnaryOp, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::UnaryOp(a0, a1, a2, a3) = a { if let Node::UnaryOp(b0, b1, b2, b3) = b { same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_UnaryNot(a: Node, b: Node, s: Seq<char>, c: bool) requires a is UnaryNot, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::UnaryNot(a0, a1, a2) = a { if let Node::UnaryNot(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_Var(a: Node, b: Node, s: Seq<char>, c: bool) requires a is Var, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::Var(a0, a1, a2, a3) = a { if let Node::Var(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_RoundBrackets(a: Node, b: Node, s: Seq<char>, c: bool) requires a is RoundBrackets, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::RoundBrackets(a0, a1, a2) = a { if let Node::RoundBrackets(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_ArgsRoundBrackets(a: Node, b: Node, s: Seq<char>, c: bool) requires a is ArgsRoundBrackets, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::ArgsRoundBrackets(a0, a1, a2) = a { if let Node::ArgsRoundBrackets(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_ArgsRoundBracketsEmpty(a: Node, b: Node, s: Seq<char>, c: bool) requires a is ArgsRoundBracketsEmpty, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::ArgsRoundBracketsEmpty(a0, a1) = a { if let Node::ArgsRoundBracketsEmpty(b0, b1) = b {  } } }
pub proof fn sl_Nil(a: Node, b: Node, s: Seq<char>, c: bool) requires a is Nil, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::Nil(a0) = a { if let Node::Nil(b0) = b {  } } }
pub proof fn sl_False(a: Node, b: Node, s: Seq<char>, c: bool) requires a is False, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::False(a0) = a { if let Node::False(b0) = b {  } } }
pub proof fn sl_True(a: Node, b: Node, s: Seq<char>, c: bool) requires a is True, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::True(a0) = a { if let Node::True(b0) = b {  } } }
pub proof fn sl_VarArg(a: Node, b: Node, s: Seq<char>, c: bool) requires a is VarArg, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::VarArg(a0) = a { if let Node::VarArg(b0) = b {  } } }
}
pub use slm0::*;
pub mod slm1 { use super::*;
pub proof fn sl_Break(a: Node, b: Node, s: Seq<char>, c: bool) requires a is Break, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::Break(a0) = a { if let Node::Break(b0) = b {  } } }
pub proof fn sl_Numeral(a: Node, b: Node, s: Seq<char>, c: bool) requires a is Numeral, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::Numeral(a0, a1) = a { if let Node::Numeral(b0, b1) = b {  } } }
pub proof fn sl_NormalStringLiteral(a: Node, b: Node, s: Seq<char>, c: bool) requires a is NormalStringLiteral, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::NormalStringLiteral(a0, a1) = a { if let Node::NormalStringLiteral(b0, b1) = b {  } } }
pub proof fn sl_CharStringLiteral(a: Node, b: Node, s: Seq<char>, c: bool) requires a is CharStringLiteral, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::CharStringLiteral(a0, a1) = a { if let Node::CharStringLiteral(b0, b1) = b {  } } }
pub proof fn sl_MultiLineStringLiteral(a: Node, b: Node, s: Seq<char>, c: bool) requires a is MultiLineStringLiteral, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::MultiLineStringLiteral(a0, a1, a2) = a { if let Node::MultiLineStringLiteral(b0, b1, b2) = b {  } } }
pub proof fn sl_TableConstructor(a: Node, b: Node, s: Seq<char>, c: bool) requires a is TableConstructor, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::TableConstructor(a0, a1, a2, a3) = a { if let Node::TableConstructor(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_TableConstructorEmpty(a: Node, b: Node, s: Seq<char>, c: bool) requires a is TableConstructorEmpty, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::TableConstructorEmpty(a0, a1) = a { if let Node::TableConstructorEmpty(b0, b1) = b {  } } }
pub proof fn sl_Fields(a: Node, b: Node, s: Seq<char>, c: bool) requires a is Fields, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::Fields(a0, a1, a2) = a { if let Node::Fields(b0, b1, b2) = b { assert(same4(a1@, b1@, c)); sl4(a1, b1, s, a1@.len() as int, c); } } }
pub proof fn sl_FieldNamedBracket(a: Node, b: Node, s: Seq<char>, c: bool) requires a is FieldNamedBracket, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::FieldNamedBracket(a0, a1, a2, a3) = a { if let Node::FieldNamedBracket(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_FieldNamed(a: Node, b: Node, s: Seq<char>, c: bool) requires a is FieldNamed, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::FieldNamed(a0, a1, a2, a3) = a { if let Node::FieldNamed(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_FieldSequential(a: Node, b: Node, s: Seq<char>, c: bool) requires a is FieldSequential, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::FieldSequential(a0, a1) = a { if let Node::FieldSequential(b0, b1) = b { same_lok(*a1, *b1, s, c); } } }
}
pub use slm1::*;
pub mod slm2 { use super::*;
pub proof fn sl_TableIndex(a: Node, b: Node, s: Seq<char>, c: bool) requires a is TableIndex, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::TableIndex(a0, a1, a2) = a { if let Node::TableIndex(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_TableMember(a: Node, b: Node, s: Seq<char>, c: bool) requires a is TableMember, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::TableMember(a0, a1, a2) = a { if let Node::TableMember(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_ExpList(a: Node, b: Node, s: Seq<char>, c: bool) requires a is ExpList, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::ExpList(a0, a1) = a { if let Node::ExpList(b0, b1) = b { assert(same4(a1@, b1@, c)); sl4(a1, b1, s, a1@.len() as int, c); } } }
pub proof fn sl_NameList(a: Node, b: Node, s: Seq<char>, c: bool) requires a is NameList, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::NameList(a0, a1) = a { if let Node::NameList(b0, b1) = b { assert(same4(a1@, b1@, c)); sl4(a1, b1, s, a1@.len() as int, c); } } }
pub proof fn sl_ParList(a: Node, b: Node, s: Seq<char>, c: bool) requires a is ParList, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::ParList(a0, a1) = a { if let Node::ParList(b0, b1) = b { assert(same4(a1@, b1@, c)); sl4(a1, b1, s, a1@.len() as int, c); } } }
pub proof fn sl_VarList(a: Node, b: Node, s: Seq<char>, c: bool) requires a is VarList, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::VarList(a0, a1) = a { if let Node::VarList(b0, b1) = b { assert(same4(a1@, b1@, c)); sl4(a1, b1, s, a1@.len() as int, c); } } }
pub proof fn sl_VarRoundSuffix(a: Node, b: Node, s: Seq<char>, c: bool) requires a is VarRoundSuffix, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::VarRoundSuffix(a0, a1, a2, a3) = a { if let Node::VarRoundSuffix(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_VarSuffixList(a: Node, b: Node, s: Seq<char>, c: bool) requires a is VarSuffixList, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::VarSuffixList(a0, a1) = a { if let Node::VarSuffixList(b0, b1) = b { assert(same2(a1@, b1@, c)); sl2(a1, b1, s, a1@.len() as int, c); } } }
pub proof fn sl_FnMethodCall(a: Node, b: Node, s: Seq<char>, c: bool) requires a is FnMethodCall, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::FnMethodCall(a0, a1, a2, a3) = a { if let Node::FnMethodCall(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_FunctionDef(a: Node, b: Node, s: Seq<char>, c: bool) requires a is FunctionDef, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::FunctionDef(a0, a1, a2) = a { if let Node::FunctionDef(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_FuncBody(a: Node, b: Node, s: Seq<char>, c: bool) requires a is FuncBody, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::FuncBody(a0, a1) = a { if let Node::FuncBody(b0, b1) = b {  } } }
}
pub use slm2::*;
pub mod slm3 { use super::*;
pub proof fn sl_FuncBodyB(a: Node, b: Node, s: Seq<char>, c: bool) requires a is FuncBodyB, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::FuncBodyB(a0, a1, a2) = a { if let Node::FuncBodyB(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_FuncPBody(a: Node, b: Node, s: Seq<char>, c: bool) requires a is FuncPBody, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::FuncPBody(a0, a1, a2) = a { if let Node::FuncPBody(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_FuncPBodyB(a: Node, b: Node, s: Seq<char>, c: bool) requires a is FuncPBodyB, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::FuncPBodyB(a0, a1, a2, a3) = a { if let Node::FuncPBodyB(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_FuncName(a: Node, b: Node, s: Seq<char>, c: bool) requires a is FuncName, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::FuncName(a0, a1) = a { if let Node::FuncName(b0, b1) = b { assert(same4(a1@, b1@, c)); sl4(a1, b1, s, a1@.len() as int, c); } } }
pub proof fn sl_FuncNameSelf(a: Node, b: Node, s: Seq<char>, c: bool) requires a is FuncNameSelf, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::FuncNameSelf(a0, a1, a2, a3) = a { if let Node::FuncNameSelf(b0, b1, b2, b3) = b { assert(same4(a2@, b2@, c)); sl4(a2, b2, s, a2@.len() as int, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_FuncDecl(a: Node, b: Node, s: Seq<char>, c: bool) requires a is FuncDecl, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::FuncDecl(a0, a1, a2, a3) = a { if let Node::FuncDecl(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_LocalFuncDecl(a: Node, b: Node, s: Seq<char>, c: bool) requires a is LocalFuncDecl, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::LocalFuncDecl(a0, a1, a2, a3) = a { if let Node::LocalFuncDecl(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_StatementList(a: Node, b: Node, s: Seq<char>, c: bool) requires a is StatementList, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::StatementList(a0, a1) = a { if let Node::StatementList(b0, b1) = b { assert(same2(a1@, b1@, c)); sl2(a1, b1, s, a1@.len() as int, c); } } }
pub proof fn sl_DoEnd(a: Node, b: Node, s: Seq<char>, c: bool) requires a is DoEnd, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::DoEnd(a0, a1) = a { if let Node::DoEnd(b0, b1) = b {  } } }
pub proof fn sl_DoBEnd(a: Node, b: Node, s: Seq<char>, c: bool) requires a is DoBEnd, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::DoBEnd(a0, a1, a2) = a { if let Node::DoBEnd(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_VarsExprs(a: Node, b: Node, s: Seq<char>, c: bool) requires a is VarsExprs, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::VarsExprs(a0, a1, a2, a3) = a { if let Node::VarsExprs(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
}
pub use slm3::*;
pub mod slm4 { use super::*;
pub proof fn sl_Name(a: Node, b: Node, s: Seq<char>, c: bool) requires a is Name, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::Name(a0, a1) = a { if let Node::Name(b0, b1) = b {  } } }
pub proof fn sl_Label(a: Node, b: Node, s: Seq<char>, c: bool) requires a is Label, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::Label(a0, a1, a2) = a { if let Node::Label(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_GoTo(a: Node, b: Node, s: Seq<char>, c: bool) requires a is GoTo, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::GoTo(a0, a1, a2) = a { if let Node::GoTo(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_WhileDo(a: Node, b: Node, s: Seq<char>, c: bool) requires a is WhileDo, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::WhileDo(a0, a1, a2) = a { if let Node::WhileDo(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_WhileDoB(a: Node, b: Node, s: Seq<char>, c: bool) requires a is WhileDoB, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::WhileDoB(a0, a1, a2, a3) = a { if let Node::WhileDoB(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_RepeatUntil(a: Node, b: Node, s: Seq<char>, c: bool) requires a is RepeatUntil, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::RepeatUntil(a0, a1, a2) = a { if let Node::RepeatUntil(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_RepeatBUntil(a: Node, b: Node, s: Seq<char>, c: bool) requires a is RepeatBUntil, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::RepeatBUntil(a0, a1, a2, a3) = a { if let Node::RepeatBUntil(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_ForInt(a: Node, b: Node, s: Seq<char>, c: bool) requires a is ForInt, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::ForInt(a0, a1, a2, a3, a4) = a { if let Node::ForInt(b0, b1, b2, b3, b4) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); same_lok(*a4, *b4, s, c); } } }
pub proof fn sl_ForIntB(a: Node, b: Node, s: Seq<char>, c: bool) requires a is ForIntB, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::ForIntB(a0, a1, a2, a3, a4, a5) = a { if let Node::ForIntB(b0, b1, b2, b3, b4, b5) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); same_lok(*a4, *b4, s, c); same_lok(*a5, *b5, s, c); } } }
pub proof fn sl_ForIntStep(a: Node, b: Node, s: Seq<char>, c: bool) requires a is ForIntStep, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::ForIntStep(a0, a1, a2, a3, a4, a5) = a { if let Node::ForIntStep(b0, b1, b2, b3, b4, b5) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); same_lok(*a4, *b4, s, c); same_lok(*a5, *b5, s, c); } } }
pub proof fn sl_ForIntStepB(a: Node, b: Node, s: Seq<char>, c: bool) requires a is ForIntStepB, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::ForIntStepB(a0, a1, a2, a3, a4, a5, a6) = a { if let Node::ForIntStepB(b0, b1, b2, b3, b4, b5, b6) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); same_lok(*a4, *b4, s, c); same_lok(*a5, *b5, s, c); same_lok(*a6, *b6, s, c); } } }
}
pub use slm4::*;
pub mod slm5 { use super::*;
pub proof fn sl_ForRange(a: Node, b: Node, s: Seq<char>, c: bool) requires a is ForRange, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::ForRange(a0, a1, a2, a3) = a { if let Node::ForRange(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_ForRangeB(a: Node, b: Node, s: Seq<char>, c: bool) requires a is ForRangeB, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::ForRangeB(a0, a1, a2, a3, a4) = a { if let Node::ForRangeB(b0, b1, b2, b3, b4) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); same_lok(*a4, *b4, s, c); } } }
pub proof fn sl_LocalNames(a: Node, b: Node, s: Seq<char>, c: bool) requires a is LocalNames, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::LocalNames(a0, a1, a2) = a { if let Node::LocalNames(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_LocalNamesExprs(a: Node, b: Node, s: Seq<char>, c: bool) requires a is LocalNamesExprs, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::LocalNamesExprs(a0, a1, a2, a3) = a { if let Node::LocalNamesExprs(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_IfThen(a: Node, b: Node, s: Seq<char>, c: bool) requires a is IfThen, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::IfThen(a0, a1, a2) = a { if let Node::IfThen(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_IfThenB(a: Node, b: Node, s: Seq<char>, c: bool) requires a is IfThenB, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::IfThenB(a0, a1, a2, a3) = a { if let Node::IfThenB(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_IfThenElse(a: Node, b: Node, s: Seq<char>, c: bool) requires a is IfThenElse, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::IfThenElse(a0, a1, a2) = a { if let Node::IfThenElse(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_IfThenBElse(a: Node, b: Node, s: Seq<char>, c: bool) requires a is IfThenBElse, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::IfThenBElse(a0, a1, a2, a3) = a { if let Node::IfThenBElse(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_IfThenElseB(a: Node, b: Node, s: Seq<char>, c: bool) requires a is IfThenElseB, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::IfThenElseB(a0, a1, a2, a3) = a { if let Node::IfThenElseB(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_IfThenBElseB(a: Node, b: Node, s: Seq<char>, c: bool) requires a is IfThenBElseB, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::IfThenBElseB(a0, a1, a2, a3, a4) = a { if let Node::IfThenBElseB(b0, b1, b2, b3, b4) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); same_lok(*a4, *b4, s, c); } } }
pub proof fn sl_IfThenElseIf(a: Node, b: Node, s: Seq<char>, c: bool) requires a is IfThenElseIf, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::IfThenElseIf(a0, a1, a2, a3) = a { if let Node::IfThenElseIf(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
}
pub use slm5::*;
pub mod slm6 { use super::*;
pub proof fn sl_IfThenBElseIf(a: Node, b: Node, s: Seq<char>, c: bool) requires a is IfThenBElseIf, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::IfThenBElseIf(a0, a1, a2, a3, a4) = a { if let Node::IfThenBElseIf(b0, b1, b2, b3, b4) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); same_lok(*a4, *b4, s, c); } } }
pub proof fn sl_IfThenElseIfElse(a: Node, b: Node, s: Seq<char>, c: bool) requires a is IfThenElseIfElse, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::IfThenElseIfElse(a0, a1, a2, a3) = a { if let Node::IfThenElseIfElse(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_IfThenBElseIfElse(a: Node, b: Node, s: Seq<char>, c: bool) requires a is IfThenBElseIfElse, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::IfThenBElseIfElse(a0, a1, a2, a3, a4) = a { if let Node::IfThenBElseIfElse(b0, b1, b2, b3, b4) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); same_lok(*a4, *b4, s, c); } } }
pub proof fn sl_IfThenElseIfElseB(a: Node, b: Node, s: Seq<char>, c: bool) requires a is IfThenElseIfElseB, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::IfThenElseIfElseB(a0, a1, a2, a3, a4) = a { if let Node::IfThenElseIfElseB(b0, b1, b2, b3, b4) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); same_lok(*a4, *b4, s, c); } } }
pub proof fn sl_IfThenBElseIfElseB(a: Node, b: Node, s: Seq<char>, c: bool) requires a is IfThenBElseIfElseB, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::IfThenBElseIfElseB(a0, a1, a2, a3, a4, a5) = a { if let Node::IfThenBElseIfElseB(b0, b1, b2, b3, b4, b5) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); same_lok(*a4, *b4, s, c); same_lok(*a5, *b5, s, c); } } }
pub proof fn sl_ElseIfThenVec(a: Node, b: Node, s: Seq<char>, c: bool) requires a is ElseIfThenVec, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::ElseIfThenVec(a0, a1) = a { if let Node::ElseIfThenVec(b0, b1) = b { assert(same2(a1@, b1@, c)); sl2(a1, b1, s, a1@.len() as int, c); } } }
pub proof fn sl_ElseIfThen(a: Node, b: Node, s: Seq<char>, c: bool) requires a is ElseIfThen, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::ElseIfThen(a0, a1, a2) = a { if let Node::ElseIfThen(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_ElseIfThenB(a: Node, b: Node, s: Seq<char>, c: bool) requires a is ElseIfThenB, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::ElseIfThenB(a0, a1, a2, a3) = a { if let Node::ElseIfThenB(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_RetStatNone(a: Node, b: Node, s: Seq<char>, c: bool) requires a is RetStatNone, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::RetStatNone(a0) = a { if let Node::RetStatNone(b0) = b {  } } }
pub proof fn sl_RetStatExpr(a: Node, b: Node, s: Seq<char>, c: bool) requires a is RetStatExpr, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::RetStatExpr(a0, a1, a2) = a { if let Node::RetStatExpr(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_RetStatNoneComma(a: Node, b: Node, s: Seq<char>, c: bool) requires a is RetStatNoneComma, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::RetStatNoneComma(a0, a1) = a { if let Node::RetStatNoneComma(b0, b1) = b {  } } }
}
pub use slm6::*;
pub mod slm7 { use super::*;
pub proof fn sl_RetStatExprComma(a: Node, b: Node, s: Seq<char>, c: bool) requires a is RetStatExprComma, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::RetStatExprComma(a0, a1, a2) = a { if let Node::RetStatExprComma(b0, b1, b2) = b { same_lok(*a2, *b2, s, c); } } }
pub proof fn sl_StatsRetStat(a: Node, b: Node, s: Seq<char>, c: bool) requires a is StatsRetStat, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::StatsRetStat(a0, a1, a2, a3) = a { if let Node::StatsRetStat(b0, b1, b2, b3) = b { same_lok(*a2, *b2, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_Chunk(a: Node, b: Node, s: Seq<char>, c: bool) requires a is Chunk, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::Chunk(a0, a1, a2) = a { if let Node::Chunk(b0, b1, b2) = b { same_lok(*a1, *b1, s, c); } } }
pub proof fn sl_SheBangChunk(a: Node, b: Node, s: Seq<char>, c: bool) requires a is SheBangChunk, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::SheBangChunk(a0, a1, a2, a3, a4) = a { if let Node::SheBangChunk(b0, b1, b2, b3, b4) = b { same_lok(*a1, *b1, s, c); same_lok(*a3, *b3, s, c); } } }
pub proof fn sl_Semicolon(a: Node, b: Node, s: Seq<char>, c: bool) requires a is Semicolon, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::Semicolon(a0) = a { if let Node::Semicolon(b0) = b {  } } }
pub proof fn sl_SheBang(a: Node, b: Node, s: Seq<char>, c: bool) requires a is SheBang, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int
{ if let Node::SheBang(a0, a1) = a { if let Node::SheBang(b0, b1) = b {  } } }
}
pub use slm7::*;
