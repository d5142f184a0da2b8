// generated by gen_same_wf.py from enum Node
pub proof fn same_send(v: Seq<(Loc, Node, Loc, String)>, w: Seq<(Loc, Node, Loc, String)>, k: int, a: int) requires same4(v, w, false), k <= v.len() ensures send(w, k, a) == send(v, k, a)
{ if k > 0 { assert(w[k - 1].2 == v[k - 1].2); } }
pub proof fn same_lend(v: Seq<(Loc, Node)>, w: Seq<(Loc, Node)>, s: Seq<char>, k: int, a: int) requires same2(v, w, false), k <= v.len() ensures lend(w, k, a) == lend(v, k, a)
{ if k > 0 { assert(w[k - 1].0 == v[k - 1].0); same_sp(v[k - 1].1, w[k - 1].1); } }
pub proof fn same_sp(a: Node, b: Node) requires same(a, b, false) ensures sp(b) == sp(a), (b is Fields) == (a is Fields) { }
pub proof fn same_seps(v: Vec<(Loc, Node, Loc, String)>, w: Vec<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, k: int, a: int) requires same4(v@, w@, false), wf_sep(v, s, kd, k, a), k <= v@.len() ensures wf_sep(w, s, kd, k, a) decreases v, k + 2
{ if k > 0 { assert(w@[k - 1].0 == v@[k - 1].0); same_seps(v, w, s, kd, k - 1, a); same_send(v@, w@, k - 1, a); same_sp(v@[k - 1].1, w@[k - 1].1); same_wf(v@[k - 1].1, w@[k - 1].1, s); } }
pub proof fn same_list(v: Vec<(Loc, Node)>, w: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int) requires same2(v@, w@, false), wf_list(v, s, k, a), k <= v@.len() ensures wf_list(w, s, k, a) decreases v, k + 2
{ if k > 0 { assert(w@[k - 1].0 == v@[k - 1].0); same_list(v, w, s, k - 1, a); same_lend(v@, w@, s, k - 1, a); same_sp(v@[k - 1].1, w@[k - 1].1); same_wf(v@[k - 1].1, w@[k - 1].1, s); } }
pub proof fn same_wf(a: Node, b: Node, s: Seq<char>) requires wf(a, s), same(a, b, false) ensures wf(b, s), sp(b) == sp(a), (b is Fields) == (a is Fields) decreases a, 1int
{
    same_sp(a, b);
    match a {
        Node::BinaryOp(_, _, _, _, _) => sw_BinaryOp(a, b, s),
        Node::UnaryOp(_, _, _, _) => sw_UnaryOp(a, b, s),
        Node::UnaryNot(_, _, _) => sw_UnaryNot(a, b, s),
        Node::Var(_, _, _, _) => sw_Var(a, b, s),
        Node::RoundBrackets(_, _, _) => sw_RoundBrackets(a, b, s),
        Node::ArgsRoundBrackets(_, _, _) => sw_ArgsRoundBrackets(a, b, s),
        Node::ArgsRoundBracketsEmpty(_, _) => sw_ArgsRoundBracketsEmpty(a, b, s),
        Node::Nil(_) => sw_Nil(a, b, s),
        Node::False(_) => sw_False(a, b, s),
        Node::True(_) => sw_True(a, b, s),
        Node::VarArg(_) => sw_VarArg(a, b, s),
        Node::Break(_) => sw_Break(a, b, s),
        Node::Numeral(_, _) => sw_Numeral(a, b, s),
        Node::NormalStringLiteral(_, _) => sw_NormalStringLiteral(a, b, s),
        Node::CharStringLiteral(_, _) => sw_CharStringLiteral(a, b, s),
        Node::MultiLineStringLiteral(_, _, _) => sw_MultiLineStringLiteral(a, b, s),
        Node::TableConstructor(_, _, _, _) => sw_TableConstructor(a, b, s),
        Node::TableConstructorEmpty(_, _) => sw_TableConstructorEmpty(a, b, s),
        Node::Fields(_, _, _) => sw_Fields(a, b, s),
        Node::FieldNamedBracket(_, _, _, _) => sw_FieldNamedBracket(a, b, s),
        Node::FieldNamed(_, _, _, _) => sw_FieldNamed(a, b, s),
        Node::FieldSequential(_, _) => sw_FieldSequential(a, b, s),
        Node::TableIndex(_, _, _) => sw_TableIndex(a, b, s),
        Node::TableMember(_, _, _) => sw_TableMember(a, b, s),
        Node::ExpList(_, _) => sw_ExpList(a, b, s),
        Node::NameList(_, _) => sw_NameList(a, b, s),
        Node::ParList(_, _) => sw_ParList(a, b, s),
        Node::VarList(_, _) => sw_VarList(a, b, s),
        Node::VarRoundSuffix(_, _, _, _) => sw_VarRoundSuffix(a, b, s),
        Node::VarSuffixList(_, _) => sw_VarSuffixList(a, b, s),
        Node::FnMethodCall(_, _, _, _) => sw_FnMethodCall(a, b, s),
        Node::FunctionDef(_, _, _) => sw_FunctionDef(a, b, s),
        Node::FuncBody(_, _) => sw_FuncBody(a, b, s),
        Node::FuncBodyB(_, _, _) => sw_FuncBodyB(a, b, s),
        Node::FuncPBody(_, _, _) => sw_FuncPBody(a, b, s),
        Node::FuncPBodyB(_, _, _, _) => sw_FuncPBodyB(a, b, s),
        Node::FuncName(_, _) => sw_FuncName(a, b, s),
        Node::FuncNameSelf(_, _, _, _) => sw_FuncNameSelf(a, b, s),
        Node::FuncDecl(_, _, _, _) => sw_FuncDecl(a, b, s),
        Node::LocalFuncDecl(_, _, _, _) => sw_LocalFuncDecl(a, b, s),
        Node::StatementList(_, _) => sw_StatementList(a, b, s),
        Node::DoEnd(_, _) => sw_DoEnd(a, b, s),
        Node::DoBEnd(_, _, _) => sw_DoBEnd(a, b, s),
        Node::VarsExprs(_, _, _, _) => sw_VarsExprs(a, b, s),
        Node::Name(_, _) => sw_Name(a, b, s),
        Node::Label(_, _, _) => sw_Label(a, b, s),
        Node::GoTo(_, _, _) => sw_GoTo(a, b, s),
        Node::WhileDo(_, _, _) => sw_WhileDo(a, b, s),
        Node::WhileDoB(_, _, _, _) => sw_WhileDoB(a, b, s),
        Node::RepeatUntil(_, _, _) => sw_RepeatUntil(a, b, s),
        Node::RepeatBUntil(_, _, _, _) => sw_RepeatBUntil(a, b, s),
        Node::ForInt(_, _, _, _, _) => sw_ForInt(a, b, s),
        Node::ForIntB(_, _, _, _, _, _) => sw_ForIntB(a, b, s),
        Node::ForIntStep(_, _, _, _, _, _) => sw_ForIntStep(a, b, s),
        Node::ForIntStepB(_, _, _, _, _, _, _) => sw_ForIntStepB(a, b, s),
        Node::ForRange(_, _, _, _) => sw_ForRange(a, b, s),
        Node::ForRangeB(_, _, _, _, _) => sw_ForRangeB(a, b, s),
        Node::LocalNames(_, _, _) => sw_LocalNames(a, b, s),
        Node::LocalNamesExprs(_, _, _, _) => sw_LocalNamesExprs(a, b, s),
        Node::IfThen(_, _, _) => sw_IfThen(a, b, s),
        Node::IfThenB(_, _, _, _) => sw_IfThenB(a, b, s),
        Node::IfThenElse(_, _, _) => sw_IfThenElse(a, b, s),
        Node::IfThenBElse(_, _, _, _) => sw_IfThenBElse(a, b, s),
        Node::IfThenElseB(_, _, _, _) => sw_IfThenElseB(a, b, s),
        Node::IfThenBElseB(_, _, _, _, _) => sw_IfThenBElseB(a, b, s),
        Node::IfThenElseIf(_, _, _, _) => sw_IfThenElseIf(a, b, s),
        Node::IfThenBElseIf(_, _, _, _, _) => sw_IfThenBElseIf(a, b, s),
        Node::IfThenElseIfElse(_, _, _, _) => sw_IfThenElseIfElse(a, b, s),
        Node::IfThenBElseIfElse(_, _, _, _, _) => sw_IfThenBElseIfElse(a, b, s),
        Node::IfThenElseIfElseB(_, _, _, _, _) => sw_IfThenElseIfElseB(a, b, s),
        Node::IfThenBElseIfElseB(_, _, _, _, _, _) => sw_IfThenBElseIfElseB(a, b, s),
        Node::ElseIfThenVec(_, _) => sw_ElseIfThenVec(a, b, s),
        Node::ElseIfThen(_, _, _) => sw_ElseIfThen(a, b, s),
        Node::ElseIfThenB(_, _, _, _) => sw_ElseIfThenB(a, b, s),
        Node::RetStatNone(_) => sw_RetStatNone(a, b, s),
        Node::RetStatExpr(_, _, _) => sw_RetStatExpr(a, b, s),
        Node::RetStatNoneComma(_, _) => sw_RetStatNoneComma(a, b, s),
        Node::RetStatExprComma(_, _, _) => sw_RetStatExprComma(a, b, s),
        Node::StatsRetStat(_, _, _, _) => sw_StatsRetStat(a, b, s),
        Node::Chunk(_, _, _) => sw_Chunk(a, b, s),
        Node::SheBangChunk(_, _, _, _, _) => sw_SheBangChunk(a, b, s),
        Node::Semicolon(_) => sw_Semicolon(a, b, s),
        Node::SheBang(_, _) => sw_SheBang(a, b, s),
    }
}
pub mod sw0 { use super::*;
pub proof fn sw_BinaryOp(a: Node, b: Node, s: Seq<char>) requires a is BinaryOp, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::BinaryOp(a0, a1, a2, a3, a4) = a { if let Node::BinaryOp(b0, b1, b2, b3, b4) = b { w_BinaryOp(a0, a1, a2, a3, a4, s); w_BinaryOp(b0, b1, b2, b3, b4, s); same_wf(*a3, *b3, s); same_wf(*a4, *b4, s); } } }
pub proof fn sw_UnaryOp(a: Node, b: Node, s: Seq<char>) requires a is UnaryOp, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::UnaryOp(a0, a1, a2, a3) = a { if let Node::UnaryOp(b0, b1, b2, b3) = b { w_UnaryOp(a0, a1, a2, a3, s); w_UnaryOp(b0, b1, b2, b3, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_UnaryNot(a: Node, b: Node, s: Seq<char>) requires a is UnaryNot, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::UnaryNot(a0, a1, a2) = a { if let Node::UnaryNot(b0, b1, b2) = b { w_UnaryNot(a0, a1, a2, s); w_UnaryNot(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_Var(a: Node, b: Node, s: Seq<char>) requires a is Var, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::Var(a0, a1, a2, a3) = a { if let Node::Var(b0, b1, b2, b3) = b { w_Var(a0, a1, a2, a3, s); w_Var(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_RoundBrackets(a: Node, b: Node, s: Seq<char>) requires a is RoundBrackets, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::RoundBrackets(a0, a1, a2) = a { if let Node::RoundBrackets(b0, b1, b2) = b { w_RoundBrackets(a0, a1, a2, s); w_RoundBrackets(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_ArgsRoundBrackets(a: Node, b: Node, s: Seq<char>) requires a is ArgsRoundBrackets, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::ArgsRoundBrackets(a0, a1, a2) = a { if let Node::ArgsRoundBrackets(b0, b1, b2) = b { w_ArgsRoundBrackets(a0, a1, a2, s); w_ArgsRoundBrackets(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_ArgsRoundBracketsEmpty(a: Node, b: Node, s: Seq<char>) requires a is ArgsRoundBracketsEmpty, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::ArgsRoundBracketsEmpty(a0, a1) = a { if let Node::ArgsRoundBracketsEmpty(b0, b1) = b { w_ArgsRoundBracketsEmpty(a0, a1, s); w_ArgsRoundBracketsEmpty(b0, b1, s);  } } }
pub proof fn sw_Nil(a: Node, b: Node, s: Seq<char>) requires a is Nil, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::Nil(a0) = a { if let Node::Nil(b0) = b { w_Nil(a0, s); w_Nil(b0, s);  } } }
pub proof fn sw_False(a: Node, b: Node, s: Seq<char>) requires a is False, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::False(a0) = a { if let Node::False(b0) = b { w_False(a0, s); w_False(b0, s);  } } }
pub proof fn sw_True(a: Node, b: Node, s: Seq<char>) requires a is True, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::True(a0) = a { if let Node::True(b0) = b { w_True(a0, s); w_True(b0, s);  } } }
pub proof fn sw_VarArg(a: Node, b: Node, s: Seq<char>) requires a is VarArg, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::VarArg(a0) = a { if let Node::VarArg(b0) = b { w_VarArg(a0, s); w_VarArg(b0, s);  } } }
}
pub use sw0::*;
pub mod sw1 { use super::*;
pub proof fn sw_Break(a: Node, b: Node, s: Seq<char>) requires a is Break, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::Break(a0) = a { if let Node::Break(b0) = b { w_Break(a0, s); w_Break(b0, s);  } } }
pub proof fn sw_Numeral(a: Node, b: Node, s: Seq<char>) requires a is Numeral, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::Numeral(a0, a1) = a { if let Node::Numeral(b0, b1) = b { w_Numeral(a0, a1, s); w_Numeral(b0, b1, s);  } } }
pub proof fn sw_NormalStringLiteral(a: Node, b: Node, s: Seq<char>) requires a is NormalStringLiteral, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::NormalStringLiteral(a0, a1) = a { if let Node::NormalStringLiteral(b0, b1) = b { w_NormalStringLiteral(a0, a1, s); w_NormalStringLiteral(b0, b1, s);  } } }
pub proof fn sw_CharStringLiteral(a: Node, b: Node, s: Seq<char>) requires a is CharStringLiteral, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::CharStringLiteral(a0, a1) = a { if let Node::CharStringLiteral(b0, b1) = b { w_CharStringLiteral(a0, a1, s); w_CharStringLiteral(b0, b1, s);  } } }
pub proof fn sw_MultiLineStringLiteral(a: Node, b: Node, s: Seq<char>) requires a is MultiLineStringLiteral, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::MultiLineStringLiteral(a0, a1, a2) = a { if let Node::MultiLineStringLiteral(b0, b1, b2) = b { w_MultiLineStringLiteral(a0, a1, a2, s); w_MultiLineStringLiteral(b0, b1, b2, s);  } } }
pub proof fn sw_TableConstructor(a: Node, b: Node, s: Seq<char>) requires a is TableConstructor, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::TableConstructor(a0, a1, a2, a3) = a { if let Node::TableConstructor(b0, b1, b2, b3) = b { w_TableConstructor(a0, a1, a2, a3, s); w_TableConstructor(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_TableConstructorEmpty(a: Node, b: Node, s: Seq<char>) requires a is TableConstructorEmpty, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::TableConstructorEmpty(a0, a1) = a { if let Node::TableConstructorEmpty(b0, b1) = b { w_TableConstructorEmpty(a0, a1, s); w_TableConstructorEmpty(b0, b1, s);  } } }
pub proof fn sw_Fields(a: Node, b: Node, s: Seq<char>) requires a is Fields, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::Fields(a0, a1, a2) = a { if let Node::Fields(b0, b1, b2) = b { w_Fields(a0, a1, a2, s); w_Fields(b0, b1, b2, s); assert(a0 == b0 && same4(a1@, b1@, false)); same_seps(a1, b1, s, SepKind::fields, a1@.len() as int, (a0.0 as int)); same_send(a1@, b1@, a1@.len() as int, (a0.0 as int)); assert(wf_seps(b1, s, SepKind::fields, (b0.0 as int))); assert(send(b1@, b1@.len() as int, (b0.0 as int)) == send(a1@, a1@.len() as int, (a0.0 as int))); } } }
pub proof fn sw_FieldNamedBracket(a: Node, b: Node, s: Seq<char>) requires a is FieldNamedBracket, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::FieldNamedBracket(a0, a1, a2, a3) = a { if let Node::FieldNamedBracket(b0, b1, b2, b3) = b { w_FieldNamedBracket(a0, a1, a2, a3, s); w_FieldNamedBracket(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_FieldNamed(a: Node, b: Node, s: Seq<char>) requires a is FieldNamed, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::FieldNamed(a0, a1, a2, a3) = a { if let Node::FieldNamed(b0, b1, b2, b3) = b { w_FieldNamed(a0, a1, a2, a3, s); w_FieldNamed(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_FieldSequential(a: Node, b: Node, s: Seq<char>) requires a is FieldSequential, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::FieldSequential(a0, a1) = a { if let Node::FieldSequential(b0, b1) = b { w_FieldSequential(a0, a1, s); w_FieldSequential(b0, b1, s); same_wf(*a1, *b1, s); } } }
}
pub use sw1::*;
pub mod sw2 { use super::*;
pub proof fn sw_TableIndex(a: Node, b: Node, s: Seq<char>) requires a is TableIndex, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::TableIndex(a0, a1, a2) = a { if let Node::TableIndex(b0, b1, b2) = b { w_TableIndex(a0, a1, a2, s); w_TableIndex(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_TableMember(a: Node, b: Node, s: Seq<char>) requires a is TableMember, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::TableMember(a0, a1, a2) = a { if let Node::TableMember(b0, b1, b2) = b { w_TableMember(a0, a1, a2, s); w_TableMember(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_ExpList(a: Node, b: Node, s: Seq<char>) requires a is ExpList, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::ExpList(a0, a1) = a { if let Node::ExpList(b0, b1) = b { w_ExpList(a0, a1, s); w_ExpList(b0, b1, s); assert(a0 == b0 && same4(a1@, b1@, false)); same_seps(a1, b1, s, SepKind::comma, a1@.len() as int, (a0.0 as int)); same_send(a1@, b1@, a1@.len() as int, (a0.0 as int)); assert(wf_seps(b1, s, SepKind::comma, (b0.0 as int))); assert(send(b1@, b1@.len() as int, (b0.0 as int)) == send(a1@, a1@.len() as int, (a0.0 as int))); } } }
pub proof fn sw_NameList(a: Node, b: Node, s: Seq<char>) requires a is NameList, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::NameList(a0, a1) = a { if let Node::NameList(b0, b1) = b { w_NameList(a0, a1, s); w_NameList(b0, b1, s); assert(a0 == b0 && same4(a1@, b1@, false)); same_seps(a1, b1, s, SepKind::comma, a1@.len() as int, (a0.0 as int)); same_send(a1@, b1@, a1@.len() as int, (a0.0 as int)); assert(wf_seps(b1, s, SepKind::comma, (b0.0 as int))); assert(send(b1@, b1@.len() as int, (b0.0 as int)) == send(a1@, a1@.len() as int, (a0.0 as int))); } } }
pub proof fn sw_ParList(a: Node, b: Node, s: Seq<char>) requires a is ParList, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::ParList(a0, a1) = a { if let Node::ParList(b0, b1) = b { w_ParList(a0, a1, s); w_ParList(b0, b1, s); assert(a0 == b0 && same4(a1@, b1@, false)); same_seps(a1, b1, s, SepKind::comma, a1@.len() as int, (a0.0 as int)); same_send(a1@, b1@, a1@.len() as int, (a0.0 as int)); assert(wf_seps(b1, s, SepKind::comma, (b0.0 as int))); assert(send(b1@, b1@.len() as int, (b0.0 as int)) == send(a1@, a1@.len() as int, (a0.0 as int))); } } }
pub proof fn sw_VarList(a: Node, b: Node, s: Seq<char>) requires a is VarList, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::VarList(a0, a1) = a { if let Node::VarList(b0, b1) = b { w_VarList(a0, a1, s); w_VarList(b0, b1, s); assert(a0 == b0 && same4(a1@, b1@, false)); same_seps(a1, b1, s, SepKind::comma, a1@.len() as int, (a0.0 as int)); same_send(a1@, b1@, a1@.len() as int, (a0.0 as int)); assert(wf_seps(b1, s, SepKind::comma, (b0.0 as int))); assert(send(b1@, b1@.len() as int, (b0.0 as int)) == send(a1@, a1@.len() as int, (a0.0 as int))); } } }
pub proof fn sw_VarRoundSuffix(a: Node, b: Node, s: Seq<char>) requires a is VarRoundSuffix, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::VarRoundSuffix(a0, a1, a2, a3) = a { if let Node::VarRoundSuffix(b0, b1, b2, b3) = b { w_VarRoundSuffix(a0, a1, a2, a3, s); w_VarRoundSuffix(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_VarSuffixList(a: Node, b: Node, s: Seq<char>) requires a is VarSuffixList, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::VarSuffixList(a0, a1) = a { if let Node::VarSuffixList(b0, b1) = b { w_VarSuffixList(a0, a1, s); w_VarSuffixList(b0, b1, s); assert(a0 == b0 && same2(a1@, b1@, false)); same_list(a1, b1, s, a1@.len() as int, a0.0 as int); same_lend(a1@, b1@, s, a1@.len() as int, a0.0 as int); assert(wf_list(b1, s, b1@.len() as int, b0.0 as int)); assert(lend(b1@, b1@.len() as int, b0.0 as int) == b0.1); } } }
pub proof fn sw_FnMethodCall(a: Node, b: Node, s: Seq<char>) requires a is FnMethodCall, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::FnMethodCall(a0, a1, a2, a3) = a { if let Node::FnMethodCall(b0, b1, b2, b3) = b { w_FnMethodCall(a0, a1, a2, a3, s); w_FnMethodCall(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_FunctionDef(a: Node, b: Node, s: Seq<char>) requires a is FunctionDef, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::FunctionDef(a0, a1, a2) = a { if let Node::FunctionDef(b0, b1, b2) = b { w_FunctionDef(a0, a1, a2, s); w_FunctionDef(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_FuncBody(a: Node, b: Node, s: Seq<char>) requires a is FuncBody, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::FuncBody(a0, a1) = a { if let Node::FuncBody(b0, b1) = b { w_FuncBody(a0, a1, s); w_FuncBody(b0, b1, s);  } } }
}
pub use sw2::*;
pub mod sw3 { use super::*;
pub proof fn sw_FuncBodyB(a: Node, b: Node, s: Seq<char>) requires a is FuncBodyB, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::FuncBodyB(a0, a1, a2) = a { if let Node::FuncBodyB(b0, b1, b2) = b { w_FuncBodyB(a0, a1, a2, s); w_FuncBodyB(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_FuncPBody(a: Node, b: Node, s: Seq<char>) requires a is FuncPBody, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::FuncPBody(a0, a1, a2) = a { if let Node::FuncPBody(b0, b1, b2) = b { w_FuncPBody(a0, a1, a2, s); w_FuncPBody(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_FuncPBodyB(a: Node, b: Node, s: Seq<char>) requires a is FuncPBodyB, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::FuncPBodyB(a0, a1, a2, a3) = a { if let Node::FuncPBodyB(b0, b1, b2, b3) = b { w_FuncPBodyB(a0, a1, a2, a3, s); w_FuncPBodyB(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_FuncName(a: Node, b: Node, s: Seq<char>) requires a is FuncName, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::FuncName(a0, a1) = a { if let Node::FuncName(b0, b1) = b { w_FuncName(a0, a1, s); w_FuncName(b0, b1, s); assert(a0 == b0 && same4(a1@, b1@, false)); same_seps(a1, b1, s, SepKind::dot, a1@.len() as int, (a0.0 as int)); same_send(a1@, b1@, a1@.len() as int, (a0.0 as int)); assert(wf_seps(b1, s, SepKind::dot, (b0.0 as int))); assert(send(b1@, b1@.len() as int, (b0.0 as int)) == send(a1@, a1@.len() as int, (a0.0 as int))); } } }
pub proof fn sw_FuncNameSelf(a: Node, b: Node, s: Seq<char>) requires a is FuncNameSelf, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::FuncNameSelf(a0, a1, a2, a3) = a { if let Node::FuncNameSelf(b0, b1, b2, b3) = b { w_FuncNameSelf(a0, a1, a2, a3, s); w_FuncNameSelf(b0, b1, b2, b3, s); assert(a0 == b0 && same4(a2@, b2@, false)); same_seps(a2, b2, s, SepKind::dot, a2@.len() as int, (a0.0 as int)); same_send(a2@, b2@, a2@.len() as int, (a0.0 as int)); assert(wf_seps(b2, s, SepKind::dot, (b0.0 as int))); assert(send(b2@, b2@.len() as int, (b0.0 as int)) == send(a2@, a2@.len() as int, (a0.0 as int))); same_wf(*a3, *b3, s); } } }
pub proof fn sw_FuncDecl(a: Node, b: Node, s: Seq<char>) requires a is FuncDecl, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::FuncDecl(a0, a1, a2, a3) = a { if let Node::FuncDecl(b0, b1, b2, b3) = b { w_FuncDecl(a0, a1, a2, a3, s); w_FuncDecl(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_LocalFuncDecl(a: Node, b: Node, s: Seq<char>) requires a is LocalFuncDecl, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::LocalFuncDecl(a0, a1, a2, a3) = a { if let Node::LocalFuncDecl(b0, b1, b2, b3) = b { w_LocalFuncDecl(a0, a1, a2, a3, s); w_LocalFuncDecl(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_StatementList(a: Node, b: Node, s: Seq<char>) requires a is StatementList, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::StatementList(a0, a1) = a { if let Node::StatementList(b0, b1) = b { w_StatementList(a0, a1, s); w_StatementList(b0, b1, s); assert(a0 == b0 && same2(a1@, b1@, false)); same_list(a1, b1, s, a1@.len() as int, a0.0 as int); same_lend(a1@, b1@, s, a1@.len() as int, a0.0 as int); assert(wf_list(b1, s, b1@.len() as int, b0.0 as int)); assert(lend(b1@, b1@.len() as int, b0.0 as int) == b0.1); } } }
pub proof fn sw_DoEnd(a: Node, b: Node, s: Seq<char>) requires a is DoEnd, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::DoEnd(a0, a1) = a { if let Node::DoEnd(b0, b1) = b { w_DoEnd(a0, a1, s); w_DoEnd(b0, b1, s);  } } }
pub proof fn sw_DoBEnd(a: Node, b: Node, s: Seq<char>) requires a is DoBEnd, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::DoBEnd(a0, a1, a2) = a { if let Node::DoBEnd(b0, b1, b2) = b { w_DoBEnd(a0, a1, a2, s); w_DoBEnd(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_VarsExprs(a: Node, b: Node, s: Seq<char>) requires a is VarsExprs, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::VarsExprs(a0, a1, a2, a3) = a { if let Node::VarsExprs(b0, b1, b2, b3) = b { w_VarsExprs(a0, a1, a2, a3, s); w_VarsExprs(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
}
pub use sw3::*;
pub mod sw4 { use super::*;
pub proof fn sw_Name(a: Node, b: Node, s: Seq<char>) requires a is Name, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::Name(a0, a1) = a { if let Node::Name(b0, b1) = b { w_Name(a0, a1, s); w_Name(b0, b1, s);  } } }
pub proof fn sw_Label(a: Node, b: Node, s: Seq<char>) requires a is Label, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::Label(a0, a1, a2) = a { if let Node::Label(b0, b1, b2) = b { w_Label(a0, a1, a2, s); w_Label(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_GoTo(a: Node, b: Node, s: Seq<char>) requires a is GoTo, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::GoTo(a0, a1, a2) = a { if let Node::GoTo(b0, b1, b2) = b { w_GoTo(a0, a1, a2, s); w_GoTo(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_WhileDo(a: Node, b: Node, s: Seq<char>) requires a is WhileDo, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::WhileDo(a0, a1, a2) = a { if let Node::WhileDo(b0, b1, b2) = b { w_WhileDo(a0, a1, a2, s); w_WhileDo(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_WhileDoB(a: Node, b: Node, s: Seq<char>) requires a is WhileDoB, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::WhileDoB(a0, a1, a2, a3) = a { if let Node::WhileDoB(b0, b1, b2, b3) = b { w_WhileDoB(a0, a1, a2, a3, s); w_WhileDoB(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_RepeatUntil(a: Node, b: Node, s: Seq<char>) requires a is RepeatUntil, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::RepeatUntil(a0, a1, a2) = a { if let Node::RepeatUntil(b0, b1, b2) = b { w_RepeatUntil(a0, a1, a2, s); w_RepeatUntil(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_RepeatBUntil(a: Node, b: Node, s: Seq<char>) requires a is RepeatBUntil, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::RepeatBUntil(a0, a1, a2, a3) = a { if let Node::RepeatBUntil(b0, b1, b2, b3) = b { w_RepeatBUntil(a0, a1, a2, a3, s); w_RepeatBUntil(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_ForInt(a: Node, b: Node, s: Seq<char>) requires a is ForInt, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::ForInt(a0, a1, a2, a3, a4) = a { if let Node::ForInt(b0, b1, b2, b3, b4) = b { w_ForInt(a0, a1, a2, a3, a4, s); w_ForInt(b0, b1, b2, b3, b4, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); same_wf(*a4, *b4, s); } } }
pub proof fn sw_ForIntB(a: Node, b: Node, s: Seq<char>) requires a is ForIntB, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::ForIntB(a0, a1, a2, a3, a4, a5) = a { if let Node::ForIntB(b0, b1, b2, b3, b4, b5) = b { w_ForIntB(a0, a1, a2, a3, a4, a5, s); w_ForIntB(b0, b1, b2, b3, b4, b5, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); same_wf(*a4, *b4, s); same_wf(*a5, *b5, s); } } }
pub proof fn sw_ForIntStep(a: Node, b: Node, s: Seq<char>) requires a is ForIntStep, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::ForIntStep(a0, a1, a2, a3, a4, a5) = a { if let Node::ForIntStep(b0, b1, b2, b3, b4, b5) = b { w_ForIntStep(a0, a1, a2, a3, a4, a5, s); w_ForIntStep(b0, b1, b2, b3, b4, b5, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); same_wf(*a4, *b4, s); same_wf(*a5, *b5, s); } } }
pub proof fn sw_ForIntStepB(a: Node, b: Node, s: Seq<char>) requires a is ForIntStepB, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::ForIntStepB(a0, a1, a2, a3, a4, a5, a6) = a { if let Node::ForIntStepB(b0, b1, b2, b3, b4, b5, b6) = b { w_ForIntStepB(a0, a1, a2, a3, a4, a5, a6, s); w_ForIntStepB(b0, b1, b2, b3, b4, b5, b6, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); same_wf(*a4, *b4, s); same_wf(*a5, *b5, s); same_wf(*a6, *b6, s); } } }
}
pub use sw4::*;
pub mod sw5 { use super::*;
pub proof fn sw_ForRange(a: Node, b: Node, s: Seq<char>) requires a is ForRange, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::ForRange(a0, a1, a2, a3) = a { if let Node::ForRange(b0, b1, b2, b3) = b { w_ForRange(a0, a1, a2, a3, s); w_ForRange(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_ForRangeB(a: Node, b: Node, s: Seq<char>) requires a is ForRangeB, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::ForRangeB(a0, a1, a2, a3, a4) = a { if let Node::ForRangeB(b0, b1, b2, b3, b4) = b { w_ForRangeB(a0, a1, a2, a3, a4, s); w_ForRangeB(b0, b1, b2, b3, b4, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); same_wf(*a4, *b4, s); } } }
pub proof fn sw_LocalNames(a: Node, b: Node, s: Seq<char>) requires a is LocalNames, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::LocalNames(a0, a1, a2) = a { if let Node::LocalNames(b0, b1, b2) = b { w_LocalNames(a0, a1, a2, s); w_LocalNames(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_LocalNamesExprs(a: Node, b: Node, s: Seq<char>) requires a is LocalNamesExprs, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::LocalNamesExprs(a0, a1, a2, a3) = a { if let Node::LocalNamesExprs(b0, b1, b2, b3) = b { w_LocalNamesExprs(a0, a1, a2, a3, s); w_LocalNamesExprs(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_IfThen(a: Node, b: Node, s: Seq<char>) requires a is IfThen, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::IfThen(a0, a1, a2) = a { if let Node::IfThen(b0, b1, b2) = b { w_IfThen(a0, a1, a2, s); w_IfThen(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_IfThenB(a: Node, b: Node, s: Seq<char>) requires a is IfThenB, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::IfThenB(a0, a1, a2, a3) = a { if let Node::IfThenB(b0, b1, b2, b3) = b { w_IfThenB(a0, a1, a2, a3, s); w_IfThenB(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_IfThenElse(a: Node, b: Node, s: Seq<char>) requires a is IfThenElse, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::IfThenElse(a0, a1, a2) = a { if let Node::IfThenElse(b0, b1, b2) = b { w_IfThenElse(a0, a1, a2, s); w_IfThenElse(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_IfThenBElse(a: Node, b: Node, s: Seq<char>) requires a is IfThenBElse, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::IfThenBElse(a0, a1, a2, a3) = a { if let Node::IfThenBElse(b0, b1, b2, b3) = b { w_IfThenBElse(a0, a1, a2, a3, s); w_IfThenBElse(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_IfThenElseB(a: Node, b: Node, s: Seq<char>) requires a is IfThenElseB, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::IfThenElseB(a0, a1, a2, a3) = a { if let Node::IfThenElseB(b0, b1, b2, b3) = b { w_IfThenElseB(a0, a1, a2, a3, s); w_IfThenElseB(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_IfThenBElseB(a: Node, b: Node, s: Seq<char>) requires a is IfThenBElseB, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::IfThenBElseB(a0, a1, a2, a3, a4) = a { if let Node::IfThenBElseB(b0, b1, b2, b3, b4) = b { w_IfThenBElseB(a0, a1, a2, a3, a4, s); w_IfThenBElseB(b0, b1, b2, b3, b4, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); same_wf(*a4, *b4, s); } } }
pub proof fn sw_IfThenElseIf(a: Node, b: Node, s: Seq<char>) requires a is IfThenElseIf, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::IfThenElseIf(a0, a1, a2, a3) = a { if let Node::IfThenElseIf(b0, b1, b2, b3) = b { w_IfThenElseIf(a0, a1, a2, a3, s); w_IfThenElseIf(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
}
pub use sw5::*;
pub mod sw6 { use super::*;
pub proof fn sw_IfThenBElseIf(a: Node, b: Node, s: Seq<char>) requires a is IfThenBElseIf, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::IfThenBElseIf(a0, a1, a2, a3, a4) = a { if let Node::IfThenBElseIf(b0, b1, b2, b3, b4) = b { w_IfThenBElseIf(a0, a1, a2, a3, a4, s); w_IfThenBElseIf(b0, b1, b2, b3, b4, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); same_wf(*a4, *b4, s); } } }
pub proof fn sw_IfThenElseIfElse(a: Node, b: Node, s: Seq<char>) requires a is IfThenElseIfElse, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::IfThenElseIfElse(a0, a1, a2, a3) = a { if let Node::IfThenElseIfElse(b0, b1, b2, b3) = b { w_IfThenElseIfElse(a0, a1, a2, a3, s); w_IfThenElseIfElse(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_IfThenBElseIfElse(a: Node, b: Node, s: Seq<char>) requires a is IfThenBElseIfElse, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::IfThenBElseIfElse(a0, a1, a2, a3, a4) = a { if let Node::IfThenBElseIfElse(b0, b1, b2, b3, b4) = b { w_IfThenBElseIfElse(a0, a1, a2, a3, a4, s); w_IfThenBElseIfElse(b0, b1, b2, b3, b4, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); same_wf(*a4, *b4, s); } } }
pub proof fn sw_IfThenElseIfElseB(a: Node, b: Node, s: Seq<char>) requires a is IfThenElseIfElseB, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::IfThenElseIfElseB(a0, a1, a2, a3, a4) = a { if let Node::IfThenElseIfElseB(b0, b1, b2, b3, b4) = b { w_IfThenElseIfElseB(a0, a1, a2, a3, a4, s); w_IfThenElseIfElseB(b0, b1, b2, b3, b4, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); same_wf(*a4, *b4, s); } } }
pub proof fn sw_IfThenBElseIfElseB(a: Node, b: Node, s: Seq<char>) requires a is IfThenBElseIfElseB, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::IfThenBElseIfElseB(a0, a1, a2, a3, a4, a5) = a { if let Node::IfThenBElseIfElseB(b0, b1, b2, b3, b4, b5) = b { w_IfThenBElseIfElseB(a0, a1, a2, a3, a4, a5, s); w_IfThenBElseIfElseB(b0, b1, b2, b3, b4, b5, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); same_wf(*a4, *b4, s); same_wf(*a5, *b5, s); } } }
pub proof fn sw_ElseIfThenVec(a: Node, b: Node, s: Seq<char>) requires a is ElseIfThenVec, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::ElseIfThenVec(a0, a1) = a { if let Node::ElseIfThenVec(b0, b1) = b { w_ElseIfThenVec(a0, a1, s); w_ElseIfThenVec(b0, b1, s); assert(a0 == b0 && same2(a1@, b1@, false)); same_list(a1, b1, s, a1@.len() as int, a0.0 as int); same_lend(a1@, b1@, s, a1@.len() as int, a0.0 as int); assert(wf_list(b1, s, b1@.len() as int, b0.0 as int)); assert(lend(b1@, b1@.len() as int, b0.0 as int) == b0.1); } } }
pub proof fn sw_ElseIfThen(a: Node, b: Node, s: Seq<char>) requires a is ElseIfThen, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::ElseIfThen(a0, a1, a2) = a { if let Node::ElseIfThen(b0, b1, b2) = b { w_ElseIfThen(a0, a1, a2, s); w_ElseIfThen(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_ElseIfThenB(a: Node, b: Node, s: Seq<char>) requires a is ElseIfThenB, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::ElseIfThenB(a0, a1, a2, a3) = a { if let Node::ElseIfThenB(b0, b1, b2, b3) = b { w_ElseIfThenB(a0, a1, a2, a3, s); w_ElseIfThenB(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_RetStatNone(a: Node, b: Node, s: Seq<char>) requires a is RetStatNone, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::RetStatNone(a0) = a { if let Node::RetStatNone(b0) = b { w_RetStatNone(a0, s); w_RetStatNone(b0, s);  } } }
pub proof fn sw_RetStatExpr(a: Node, b: Node, s: Seq<char>) requires a is RetStatExpr, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::RetStatExpr(a0, a1, a2) = a { if let Node::RetStatExpr(b0, b1, b2) = b { w_RetStatExpr(a0, a1, a2, s); w_RetStatExpr(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_RetStatNoneComma(a: Node, b: Node, s: Seq<char>) requires a is RetStatNoneComma, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::RetStatNoneComma(a0, a1) = a { if let Node::RetStatNoneComma(b0, b1) = b { w_RetStatNoneComma(a0, a1, s); w_RetStatNoneComma(b0, b1, s);  } } }
}
pub use sw6::*;
pub mod sw7 { use super::*;
pub proof fn sw_RetStatExprComma(a: Node, b: Node, s: Seq<char>) requires a is RetStatExprComma, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::RetStatExprComma(a0, a1, a2) = a { if let Node::RetStatExprComma(b0, b1, b2) = b { w_RetStatExprComma(a0, a1, a2, s); w_RetStatExprComma(b0, b1, b2, s); same_wf(*a2, *b2, s); } } }
pub proof fn sw_StatsRetStat(a: Node, b: Node, s: Seq<char>) requires a is StatsRetStat, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::StatsRetStat(a0, a1, a2, a3) = a { if let Node::StatsRetStat(b0, b1, b2, b3) = b { w_StatsRetStat(a0, a1, a2, a3, s); w_StatsRetStat(b0, b1, b2, b3, s); same_wf(*a2, *b2, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_Chunk(a: Node, b: Node, s: Seq<char>) requires a is Chunk, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::Chunk(a0, a1, a2) = a { if let Node::Chunk(b0, b1, b2) = b { w_Chunk(a0, a1, a2, s); w_Chunk(b0, b1, b2, s); same_wf(*a1, *b1, s); } } }
pub proof fn sw_SheBangChunk(a: Node, b: Node, s: Seq<char>) requires a is SheBangChunk, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::SheBangChunk(a0, a1, a2, a3, a4) = a { if let Node::SheBangChunk(b0, b1, b2, b3, b4) = b { w_SheBangChunk(a0, a1, a2, a3, a4, s); w_SheBangChunk(b0, b1, b2, b3, b4, s); same_wf(*a1, *b1, s); same_wf(*a3, *b3, s); } } }
pub proof fn sw_Semicolon(a: Node, b: Node, s: Seq<char>) requires a is Semicolon, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::Semicolon(a0) = a { if let Node::Semicolon(b0) = b { w_Semicolon(a0, s); w_Semicolon(b0, s);  } } }
pub proof fn sw_SheBang(a: Node, b: Node, s: Seq<char>) requires a is SheBang, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int
{ hide(wf); hide(sp); if let Node::SheBang(a0, a1) = a { if let Node::SheBang(b0, b1) = b { w_SheBang(a0, a1, s); w_SheBang(b0, b1, s);  } } }
}
pub use sw7::*;
