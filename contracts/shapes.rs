// generated by gen_shapes.py
pub enum SepKind { fields, comma, dot }
pub open spec fn sep_of(cx: Cx, k: SepKind, own: Seq<char>) -> Seq<char> {
    match k { SepKind::fields => match cx.sep { Some(s) => s, None => own }, SepKind::comma => ","@, SepKind::dot => "."@ }
}
pub open spec fn add_seps(cx: Cx, P: Acc, v: Vec<(Loc, Node, Loc, String)>, k: SepKind) -> Acc decreases v, v@.len() + 1 {
    if v@.len() == 0 { P } else {
        let q = add_sep(cx, P, v, k, v@.len() as int);
        if k is fields { push_o(q, sep_of(cx, k, v@[v@.len() - 1].3@)) } else { q }
    }
}
pub open spec fn add_sep(cx: Cx, P: Acc, v: Vec<(Loc, Node, Loc, String)>, sk: SepKind, k: int) -> Acc decreases v, k {
    if k <= 0 || k > v@.len() { P } else {
        let q = if k == 1 { P } else { push_t(add_sep(cx, P, v, sk, k - 1), sep_of(cx, sk, v@[k - 2].3@)) };
        gap(cx, add(cx, gap(cx, q, v@[k - 1].0), v@[k - 1].1), v@[k - 1].2)
    }
}
pub open spec fn add_list(cx: Cx, P: Acc, v: Vec<(Loc, Node)>, k: int) -> Acc decreases v, k {
    if k <= 0 || k > v@.len() { P } else {
        add(cx, gap(cx, add_list(cx, P, v, k - 1), v@[k - 1].0), v@[k - 1].1)
    }
}
pub open spec fn long_str(level: int, s: Seq<char>) -> Seq<char> {
    "["@ + rep("="@, level) + "["@ + s + "]"@ + rep("="@, level) + "]"@
}
pub open spec fn add(cx: Cx, P: Acc, n: Node) -> Acc decreases n {
    match n {
        Node::BinaryOp(_, a1, a2, a3, a4) => add(cx, gap(cx, push_t(gap(cx, add(cx, P, *a3), a1@[0]), a2.0@), a1@[1]), *a4),
        Node::UnaryOp(_, a1, a2, a3) => add(cx, gap(cx, push_t(P, a2.0@), a1@[0]), *a3),
        Node::UnaryNot(_, a1, a2) => add(cx, gap(cx, push_t(P, "not"@), a1@[0]), *a2),
        Node::Var(_, a1, a2, a3) => add(cx, gap(cx, add(cx, P, *a2), a1@[0]), *a3),
        Node::RoundBrackets(_, a1, a2) => push_t(gap(cx, add(cx, gap(cx, push_t(P, "("@), a1@[0]), *a2), a1@[1]), ")"@),
        Node::ArgsRoundBrackets(_, a1, a2) => push_t(gap(cx, add(cx, gap(cx, push_t(P, "("@), a1@[0]), *a2), a1@[1]), ")"@),
        Node::ArgsRoundBracketsEmpty(_, a1) => push_t(gap(cx, push_t(P, "("@), a1@[0]), ")"@),
        Node::Nil(_) => push_t(P, "nil"@),
        Node::False(_) => push_t(P, "false"@),
        Node::True(_) => push_t(P, "true"@),
        Node::VarArg(_) => push_t(P, "..."@),
        Node::Break(_) => push_t(P, "break"@),
        Node::Numeral(_, a1) => push_t(P, a1@),
        Node::NormalStringLiteral(_, a1) => push_t(P, "\""@ + a1@ + "\""@),
        Node::CharStringLiteral(_, a1) => push_t(P, "'"@ + a1@ + "'"@),
        Node::MultiLineStringLiteral(_, a1, a2) => push_t(P, long_str(a1 as int, a2@)),
        Node::TableConstructor(_, a1, a2, _) => push_t(gap(cx, add(cx, gap(cx, push_t(P, "{"@), a1@[0]), *a2), a1@[1]), "}"@),
        Node::TableConstructorEmpty(_, a1) => push_t(gap(cx, push_t(P, "{"@), a1@[0]), "}"@),
        Node::Fields(_, a1, _) => add_seps(cx, P, a1, SepKind::fields),
        Node::FieldNamedBracket(_, a1, a2, a3) => add(cx, gap(cx, push_t(gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "["@), a1@[0]), *a2), a1@[1]), "]"@), a1@[2]), "="@), a1@[3]), *a3),
        Node::FieldNamed(_, a1, a2, a3) => add(cx, gap(cx, push_t(gap(cx, add(cx, P, *a2), a1@[0]), "="@), a1@[1]), *a3),
        Node::FieldSequential(_, a1) => add(cx, P, *a1),
        Node::TableIndex(_, a1, a2) => push_t(gap(cx, add(cx, gap(cx, push_t(P, "["@), a1@[0]), *a2), a1@[1]), "]"@),
        Node::TableMember(_, a1, a2) => add(cx, gap(cx, push_t(P, "."@), a1@[0]), *a2),
        Node::ExpList(_, a1) => add_seps(cx, P, a1, SepKind::comma),
        Node::NameList(_, a1) => add_seps(cx, P, a1, SepKind::comma),
        Node::ParList(_, a1) => add_seps(cx, P, a1, SepKind::comma),
        Node::VarList(_, a1) => add_seps(cx, P, a1, SepKind::comma),
        Node::VarRoundSuffix(_, a1, a2, a3) => add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "("@), a1@[0]), *a2), a1@[1]), ")"@), a1@[2]), *a3),
        Node::VarSuffixList(_, a1) => add_list(cx, P, a1, a1@.len() as int),
        Node::FnMethodCall(_, a1, a2, a3) => add(cx, gap(cx, add(cx, gap(cx, push_t(P, ":"@), a1@[0]), *a2), a1@[1]), *a3),
        Node::FunctionDef(_, a1, a2) => add(cx, gap(cx, push_t(P, "function"@), a1@[0]), *a2),
        Node::FuncBody(_, a1) => push_t(gap(cx, push_t(gap(cx, push_t(P, "("@), a1@[0]), ")"@), a1@[1]), "end"@),
        Node::FuncBodyB(_, a1, a2) => push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, push_t(P, "("@), a1@[0]), ")"@), a1@[1]), *a2), a1@[2]), "end"@),
        Node::FuncPBody(_, a1, a2) => push_t(gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "("@), a1@[0]), *a2), a1@[1]), ")"@), a1@[2]), "end"@),
        Node::FuncPBodyB(_, a1, a2, a3) => push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "("@), a1@[0]), *a2), a1@[1]), ")"@), a1@[2]), *a3), a1@[3]), "end"@),
        Node::FuncName(_, a1) => add_seps(cx, P, a1, SepKind::dot),
        Node::FuncNameSelf(_, a1, a2, a3) => add(cx, gap(cx, push_t(gap(cx, add_seps(cx, P, a2, SepKind::dot), a1@[0]), ":"@), a1@[1]), *a3),
        Node::FuncDecl(_, a1, a2, a3) => add(cx, gap(cx, add(cx, gap(cx, push_t(P, "function"@), a1@[0]), *a2), a1@[1]), *a3),
        Node::LocalFuncDecl(_, a1, a2, a3) => add(cx, gap(cx, add(cx, gap(cx, push_t(gap(cx, push_t(P, "local"@), a1@[0]), "function"@), a1@[1]), *a2), a1@[2]), *a3),
        Node::StatementList(_, a1) => add_list(cx, P, a1, a1@.len() as int),
        Node::DoEnd(_, a1) => push_t(gap(cx, push_t(P, "do"@), a1@[0]), "end"@),
        Node::DoBEnd(_, a1, a2) => push_t(gap(cx, add(cx, gap(cx, push_t(P, "do"@), a1@[0]), *a2), a1@[1]), "end"@),
        Node::VarsExprs(_, a1, a2, a3) => add(cx, gap(cx, push_t(gap(cx, add(cx, P, *a2), a1@[0]), "="@), a1@[1]), *a3),
        Node::Name(_, a1) => push_t(P, a1@),
        Node::Label(_, a1, a2) => push_t(gap(cx, add(cx, gap(cx, push_t(P, "::"@), a1@[0]), *a2), a1@[1]), "::"@),
        Node::GoTo(_, a1, a2) => add(cx, gap(cx, push_t(P, "goto"@), a1@[0]), *a2),
        Node::WhileDo(_, a1, a2) => push_t(gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "while"@), a1@[0]), *a2), a1@[1]), "do"@), a1@[2]), "end"@),
        Node::WhileDoB(_, a1, a2, a3) => push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "while"@), a1@[0]), *a2), a1@[1]), "do"@), a1@[2]), *a3), a1@[3]), "end"@),
        Node::RepeatUntil(_, a1, a2) => add(cx, gap(cx, push_t(gap(cx, push_t(P, "repeat"@), a1@[0]), "until"@), a1@[1]), *a2),
        Node::RepeatBUntil(_, a1, a2, a3) => add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "repeat"@), a1@[0]), *a2), a1@[1]), "until"@), a1@[2]), *a3),
        Node::ForInt(_, a1, a2, a3, a4) => push_t(gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "for"@), a1@[0]), *a2), a1@[1]), "="@), a1@[2]), *a3), a1@[3]), ","@), a1@[4]), *a4), a1@[5]), "do"@), a1@[6]), "end"@),
        Node::ForIntB(_, a1, a2, a3, a4, a5) => push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "for"@), a1@[0]), *a2), a1@[1]), "="@), a1@[2]), *a3), a1@[3]), ","@), a1@[4]), *a4), a1@[5]), "do"@), a1@[6]), *a5), a1@[7]), "end"@),
        Node::ForIntStep(_, a1, a2, a3, a4, a5) => push_t(gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "for"@), a1@[0]), *a2), a1@[1]), "="@), a1@[2]), *a3), a1@[3]), ","@), a1@[4]), *a4), a1@[5]), ","@), a1@[6]), *a5), a1@[7]), "do"@), a1@[8]), "end"@),
        Node::ForIntStepB(_, a1, a2, a3, a4, a5, a6) => push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "for"@), a1@[0]), *a2), a1@[1]), "="@), a1@[2]), *a3), a1@[3]), ","@), a1@[4]), *a4), a1@[5]), ","@), a1@[6]), *a5), a1@[7]), "do"@), a1@[8]), *a6), a1@[9]), "end"@),
        Node::ForRange(_, a1, a2, a3) => push_t(gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "for"@), a1@[0]), *a2), a1@[1]), "in"@), a1@[2]), *a3), a1@[3]), "do"@), a1@[4]), "end"@),
        Node::ForRangeB(_, a1, a2, a3, a4) => push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "for"@), a1@[0]), *a2), a1@[1]), "in"@), a1@[2]), *a3), a1@[3]), "do"@), a1@[4]), *a4), a1@[5]), "end"@),
        Node::LocalNames(_, a1, a2) => add(cx, gap(cx, push_t(P, "local"@), a1@[0]), *a2),
        Node::LocalNamesExprs(_, a1, a2, a3) => add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "local"@), a1@[0]), *a2), a1@[1]), "="@), a1@[2]), *a3),
        Node::IfThen(_, a1, a2) => push_t(gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "if"@), a1@[0]), *a2), a1@[1]), "then"@), a1@[2]), "end"@),
        Node::IfThenB(_, a1, a2, a3) => push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "if"@), a1@[0]), *a2), a1@[1]), "then"@), a1@[2]), *a3), a1@[3]), "end"@),
        Node::IfThenElse(_, a1, a2) => push_t(gap(cx, push_t(gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "if"@), a1@[0]), *a2), a1@[1]), "then"@), a1@[2]), "else"@), a1@[3]), "end"@),
        Node::IfThenBElse(_, a1, a2, a3) => push_t(gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "if"@), a1@[0]), *a2), a1@[1]), "then"@), a1@[2]), *a3), a1@[3]), "else"@), a1@[4]), "end"@),
        Node::IfThenElseB(_, a1, a2, a3) => push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "if"@), a1@[0]), *a2), a1@[1]), "then"@), a1@[2]), "else"@), a1@[3]), *a3), a1@[4]), "end"@),
        Node::IfThenBElseB(_, a1, a2, a3, a4) => push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "if"@), a1@[0]), *a2), a1@[1]), "then"@), a1@[2]), *a3), a1@[3]), "else"@), a1@[4]), *a4), a1@[5]), "end"@),
        Node::IfThenElseIf(_, a1, a2, a3) => push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "if"@), a1@[0]), *a2), a1@[1]), "then"@), a1@[2]), *a3), a1@[3]), "end"@),
        Node::IfThenBElseIf(_, a1, a2, a3, a4) => push_t(gap(cx, add(cx, gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "if"@), a1@[0]), *a2), a1@[1]), "then"@), a1@[2]), *a3), a1@[3]), *a4), a1@[4]), "end"@),
        Node::IfThenElseIfElse(_, a1, a2, a3) => push_t(gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "if"@), a1@[0]), *a2), a1@[1]), "then"@), a1@[2]), *a3), a1@[3]), "else"@), a1@[4]), "end"@),
        Node::IfThenBElseIfElse(_, a1, a2, a3, a4) => push_t(gap(cx, push_t(gap(cx, add(cx, gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "if"@), a1@[0]), *a2), a1@[1]), "then"@), a1@[2]), *a3), a1@[3]), *a4), a1@[4]), "else"@), a1@[5]), "end"@),
        Node::IfThenElseIfElseB(_, a1, a2, a3, a4) => push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "if"@), a1@[0]), *a2), a1@[1]), "then"@), a1@[2]), *a3), a1@[3]), "else"@), a1@[4]), *a4), a1@[5]), "end"@),
        Node::IfThenBElseIfElseB(_, a1, a2, a3, a4, a5) => push_t(gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "if"@), a1@[0]), *a2), a1@[1]), "then"@), a1@[2]), *a3), a1@[3]), *a4), a1@[4]), "else"@), a1@[5]), *a5), a1@[6]), "end"@),
        Node::ElseIfThenVec(_, a1) => add_list(cx, P, a1, a1@.len() as int),
        Node::ElseIfThen(_, a1, a2) => push_t(gap(cx, add(cx, gap(cx, push_t(P, "elseif"@), a1@[0]), *a2), a1@[1]), "then"@),
        Node::ElseIfThenB(_, a1, a2, a3) => add(cx, gap(cx, push_t(gap(cx, add(cx, gap(cx, push_t(P, "elseif"@), a1@[0]), *a2), a1@[1]), "then"@), a1@[2]), *a3),
        Node::RetStatNone(_) => push_t(P, "return"@),
        Node::RetStatExpr(_, a1, a2) => add(cx, gap(cx, push_t(P, "return"@), a1@[0]), *a2),
        Node::RetStatNoneComma(_, a1) => push_t(gap(cx, push_t(P, "return"@), a1@[0]), ";"@),
        Node::RetStatExprComma(_, a1, a2) => push_t(gap(cx, add(cx, gap(cx, push_t(P, "return"@), a1@[0]), *a2), a1@[1]), ";"@),
        Node::StatsRetStat(_, a1, a2, a3) => add(cx, gap(cx, add(cx, P, *a2), a1@[0]), *a3),
        Node::Chunk(a0, a1, a2) => gap(cx, add(cx, gap(cx, P, a0), *a1), a2),
        Node::SheBangChunk(a0, a1, a2, a3, a4) => gap(cx, add(cx, gap(cx, add(cx, gap(cx, P, a0), *a1), a2), *a3), a4),
        Node::Semicolon(_) => push_t(P, ";"@),
        Node::SheBang(_, a1) => push_t(P, a1@ + "\n"@),
    }
}
// ---- writing after something else = writing, then appending
pub proof fn hom_seps(cx: Cx, P: Acc, Q: Acc, v: Vec<(Loc, Node, Loc, String)>, k: SepKind) ensures add_seps(cx, cat(P, Q), v, k) == cat(P, add_seps(cx, Q, v, k)) decreases v, v@.len() + 1 {
    if v@.len() > 0 {
        hom_sep(cx, P, Q, v, k, v@.len() as int);
        cat_push_o(P, add_sep(cx, Q, v, k, v@.len() as int), sep_of(cx, k, v@[v@.len() - 1].3@));
    }
}
pub proof fn hom_sep(cx: Cx, P: Acc, Q: Acc, v: Vec<(Loc, Node, Loc, String)>, sk: SepKind, k: int) ensures add_sep(cx, cat(P, Q), v, sk, k) == cat(P, add_sep(cx, Q, v, sk, k)) decreases v, k {
    if k <= 0 || k > v@.len() { } else {
        if k > 1 {
            hom_sep(cx, P, Q, v, sk, k - 1);
            cat_push_t(P, add_sep(cx, Q, v, sk, k - 1), sep_of(cx, sk, v@[k - 2].3@));
        }
        let q = if k == 1 { Q } else { push_t(add_sep(cx, Q, v, sk, k - 1), sep_of(cx, sk, v@[k - 2].3@)) };
        cat_gap(cx, P, q, v@[k - 1].0);
        let q = gap(cx, q, v@[k - 1].0);
        hom(cx, P, q, v@[k - 1].1);
        cat_gap(cx, P, add(cx, q, v@[k - 1].1), v@[k - 1].2);
    }
}
pub proof fn hom_list(cx: Cx, P: Acc, Q: Acc, v: Vec<(Loc, Node)>, k: int) ensures add_list(cx, cat(P, Q), v, k) == cat(P, add_list(cx, Q, v, k)) decreases v, k {
    if k <= 0 || k > v@.len() { } else {
        hom_list(cx, P, Q, v, k - 1);
        let q = add_list(cx, Q, v, k - 1);
        cat_gap(cx, P, q, v@[k - 1].0);
        hom(cx, P, gap(cx, q, v@[k - 1].0), v@[k - 1].1);
    }
}
pub proof fn hom(cx: Cx, P: Acc, Q: Acc, n: Node) ensures add(cx, cat(P, Q), n) == cat(P, add(cx, Q, n)) decreases n {
    match n {
        Node::BinaryOp(_, a1, a2, a3, a4) => { let q = Q; hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); cat_push_t(P, q, a2.0@); let q = push_t(q, a2.0@); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); hom(cx, P, q, *a4); let q = add(cx, q, *a4); }
        Node::UnaryOp(_, a1, a2, a3) => { let q = Q; cat_push_t(P, q, a2.0@); let q = push_t(q, a2.0@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); }
        Node::UnaryNot(_, a1, a2) => { let q = Q; cat_push_t(P, q, "not"@); let q = push_t(q, "not"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); }
        Node::Var(_, a1, a2, a3) => { let q = Q; hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); }
        Node::RoundBrackets(_, a1, a2) => { let q = Q; cat_push_t(P, q, "("@); let q = push_t(q, "("@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, ")"@); let q = push_t(q, ")"@); }
        Node::ArgsRoundBrackets(_, a1, a2) => { let q = Q; cat_push_t(P, q, "("@); let q = push_t(q, "("@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, ")"@); let q = push_t(q, ")"@); }
        Node::ArgsRoundBracketsEmpty(_, a1) => { let q = Q; cat_push_t(P, q, "("@); let q = push_t(q, "("@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); cat_push_t(P, q, ")"@); let q = push_t(q, ")"@); }
        Node::Nil(_) => { let q = Q; cat_push_t(P, q, "nil"@); let q = push_t(q, "nil"@); }
        Node::False(_) => { let q = Q; cat_push_t(P, q, "false"@); let q = push_t(q, "false"@); }
        Node::True(_) => { let q = Q; cat_push_t(P, q, "true"@); let q = push_t(q, "true"@); }
        Node::VarArg(_) => { let q = Q; cat_push_t(P, q, "..."@); let q = push_t(q, "..."@); }
        Node::Break(_) => { let q = Q; cat_push_t(P, q, "break"@); let q = push_t(q, "break"@); }
        Node::Numeral(_, a1) => { let q = Q; cat_push_t(P, q, a1@); let q = push_t(q, a1@); }
        Node::NormalStringLiteral(_, a1) => { let q = Q; cat_push_t(P, q, "\""@ + a1@ + "\""@); let q = push_t(q, "\""@ + a1@ + "\""@); }
        Node::CharStringLiteral(_, a1) => { let q = Q; cat_push_t(P, q, "'"@ + a1@ + "'"@); let q = push_t(q, "'"@ + a1@ + "'"@); }
        Node::MultiLineStringLiteral(_, a1, a2) => { let q = Q; cat_push_t(P, q, long_str(a1 as int, a2@)); let q = push_t(q, long_str(a1 as int, a2@)); }
        Node::TableConstructor(_, a1, a2, _) => { let q = Q; cat_push_t(P, q, "{"@); let q = push_t(q, "{"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "}"@); let q = push_t(q, "}"@); }
        Node::TableConstructorEmpty(_, a1) => { let q = Q; cat_push_t(P, q, "{"@); let q = push_t(q, "{"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); cat_push_t(P, q, "}"@); let q = push_t(q, "}"@); }
        Node::Fields(_, a1, _) => { let q = Q; hom_seps(cx, P, q, a1, SepKind::fields); let q = add_seps(cx, q, a1, SepKind::fields); }
        Node::FieldNamedBracket(_, a1, a2, a3) => { let q = Q; cat_push_t(P, q, "["@); let q = push_t(q, "["@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "]"@); let q = push_t(q, "]"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); cat_push_t(P, q, "="@); let q = push_t(q, "="@); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); }
        Node::FieldNamed(_, a1, a2, a3) => { let q = Q; hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); cat_push_t(P, q, "="@); let q = push_t(q, "="@); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); }
        Node::FieldSequential(_, a1) => { let q = Q; hom(cx, P, q, *a1); let q = add(cx, q, *a1); }
        Node::TableIndex(_, a1, a2) => { let q = Q; cat_push_t(P, q, "["@); let q = push_t(q, "["@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "]"@); let q = push_t(q, "]"@); }
        Node::TableMember(_, a1, a2) => { let q = Q; cat_push_t(P, q, "."@); let q = push_t(q, "."@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); }
        Node::ExpList(_, a1) => { let q = Q; hom_seps(cx, P, q, a1, SepKind::comma); let q = add_seps(cx, q, a1, SepKind::comma); }
        Node::NameList(_, a1) => { let q = Q; hom_seps(cx, P, q, a1, SepKind::comma); let q = add_seps(cx, q, a1, SepKind::comma); }
        Node::ParList(_, a1) => { let q = Q; hom_seps(cx, P, q, a1, SepKind::comma); let q = add_seps(cx, q, a1, SepKind::comma); }
        Node::VarList(_, a1) => { let q = Q; hom_seps(cx, P, q, a1, SepKind::comma); let q = add_seps(cx, q, a1, SepKind::comma); }
        Node::VarRoundSuffix(_, a1, a2, a3) => { let q = Q; cat_push_t(P, q, "("@); let q = push_t(q, "("@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, ")"@); let q = push_t(q, ")"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); }
        Node::VarSuffixList(_, a1) => { let q = Q; hom_list(cx, P, q, a1, a1@.len() as int); let q = add_list(cx, q, a1, a1@.len() as int); }
        Node::FnMethodCall(_, a1, a2, a3) => { let q = Q; cat_push_t(P, q, ":"@); let q = push_t(q, ":"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); }
        Node::FunctionDef(_, a1, a2) => { let q = Q; cat_push_t(P, q, "function"@); let q = push_t(q, "function"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); }
        Node::FuncBody(_, a1) => { let q = Q; cat_push_t(P, q, "("@); let q = push_t(q, "("@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); cat_push_t(P, q, ")"@); let q = push_t(q, ")"@); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::FuncBodyB(_, a1, a2) => { let q = Q; cat_push_t(P, q, "("@); let q = push_t(q, "("@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); cat_push_t(P, q, ")"@); let q = push_t(q, ")"@); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::FuncPBody(_, a1, a2) => { let q = Q; cat_push_t(P, q, "("@); let q = push_t(q, "("@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, ")"@); let q = push_t(q, ")"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::FuncPBodyB(_, a1, a2, a3) => { let q = Q; cat_push_t(P, q, "("@); let q = push_t(q, "("@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, ")"@); let q = push_t(q, ")"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::FuncName(_, a1) => { let q = Q; hom_seps(cx, P, q, a1, SepKind::dot); let q = add_seps(cx, q, a1, SepKind::dot); }
        Node::FuncNameSelf(_, a1, a2, a3) => { let q = Q; hom_seps(cx, P, q, a2, SepKind::dot); let q = add_seps(cx, q, a2, SepKind::dot); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); cat_push_t(P, q, ":"@); let q = push_t(q, ":"@); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); }
        Node::FuncDecl(_, a1, a2, a3) => { let q = Q; cat_push_t(P, q, "function"@); let q = push_t(q, "function"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); }
        Node::LocalFuncDecl(_, a1, a2, a3) => { let q = Q; cat_push_t(P, q, "local"@); let q = push_t(q, "local"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); cat_push_t(P, q, "function"@); let q = push_t(q, "function"@); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); }
        Node::StatementList(_, a1) => { let q = Q; hom_list(cx, P, q, a1, a1@.len() as int); let q = add_list(cx, q, a1, a1@.len() as int); }
        Node::DoEnd(_, a1) => { let q = Q; cat_push_t(P, q, "do"@); let q = push_t(q, "do"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::DoBEnd(_, a1, a2) => { let q = Q; cat_push_t(P, q, "do"@); let q = push_t(q, "do"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::VarsExprs(_, a1, a2, a3) => { let q = Q; hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); cat_push_t(P, q, "="@); let q = push_t(q, "="@); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); }
        Node::Name(_, a1) => { let q = Q; cat_push_t(P, q, a1@); let q = push_t(q, a1@); }
        Node::Label(_, a1, a2) => { let q = Q; cat_push_t(P, q, "::"@); let q = push_t(q, "::"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "::"@); let q = push_t(q, "::"@); }
        Node::GoTo(_, a1, a2) => { let q = Q; cat_push_t(P, q, "goto"@); let q = push_t(q, "goto"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); }
        Node::WhileDo(_, a1, a2) => { let q = Q; cat_push_t(P, q, "while"@); let q = push_t(q, "while"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "do"@); let q = push_t(q, "do"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::WhileDoB(_, a1, a2, a3) => { let q = Q; cat_push_t(P, q, "while"@); let q = push_t(q, "while"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "do"@); let q = push_t(q, "do"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::RepeatUntil(_, a1, a2) => { let q = Q; cat_push_t(P, q, "repeat"@); let q = push_t(q, "repeat"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); cat_push_t(P, q, "until"@); let q = push_t(q, "until"@); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); }
        Node::RepeatBUntil(_, a1, a2, a3) => { let q = Q; cat_push_t(P, q, "repeat"@); let q = push_t(q, "repeat"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "until"@); let q = push_t(q, "until"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); }
        Node::ForInt(_, a1, a2, a3, a4) => { let q = Q; cat_push_t(P, q, "for"@); let q = push_t(q, "for"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "="@); let q = push_t(q, "="@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); cat_push_t(P, q, ","@); let q = push_t(q, ","@); cat_gap(cx, P, q, a1@[4]); let q = gap(cx, q, a1@[4]); hom(cx, P, q, *a4); let q = add(cx, q, *a4); cat_gap(cx, P, q, a1@[5]); let q = gap(cx, q, a1@[5]); cat_push_t(P, q, "do"@); let q = push_t(q, "do"@); cat_gap(cx, P, q, a1@[6]); let q = gap(cx, q, a1@[6]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::ForIntB(_, a1, a2, a3, a4, a5) => { let q = Q; cat_push_t(P, q, "for"@); let q = push_t(q, "for"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "="@); let q = push_t(q, "="@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); cat_push_t(P, q, ","@); let q = push_t(q, ","@); cat_gap(cx, P, q, a1@[4]); let q = gap(cx, q, a1@[4]); hom(cx, P, q, *a4); let q = add(cx, q, *a4); cat_gap(cx, P, q, a1@[5]); let q = gap(cx, q, a1@[5]); cat_push_t(P, q, "do"@); let q = push_t(q, "do"@); cat_gap(cx, P, q, a1@[6]); let q = gap(cx, q, a1@[6]); hom(cx, P, q, *a5); let q = add(cx, q, *a5); cat_gap(cx, P, q, a1@[7]); let q = gap(cx, q, a1@[7]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::ForIntStep(_, a1, a2, a3, a4, a5) => { let q = Q; cat_push_t(P, q, "for"@); let q = push_t(q, "for"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "="@); let q = push_t(q, "="@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); cat_push_t(P, q, ","@); let q = push_t(q, ","@); cat_gap(cx, P, q, a1@[4]); let q = gap(cx, q, a1@[4]); hom(cx, P, q, *a4); let q = add(cx, q, *a4); cat_gap(cx, P, q, a1@[5]); let q = gap(cx, q, a1@[5]); cat_push_t(P, q, ","@); let q = push_t(q, ","@); cat_gap(cx, P, q, a1@[6]); let q = gap(cx, q, a1@[6]); hom(cx, P, q, *a5); let q = add(cx, q, *a5); cat_gap(cx, P, q, a1@[7]); let q = gap(cx, q, a1@[7]); cat_push_t(P, q, "do"@); let q = push_t(q, "do"@); cat_gap(cx, P, q, a1@[8]); let q = gap(cx, q, a1@[8]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::ForIntStepB(_, a1, a2, a3, a4, a5, a6) => { let q = Q; cat_push_t(P, q, "for"@); let q = push_t(q, "for"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "="@); let q = push_t(q, "="@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); cat_push_t(P, q, ","@); let q = push_t(q, ","@); cat_gap(cx, P, q, a1@[4]); let q = gap(cx, q, a1@[4]); hom(cx, P, q, *a4); let q = add(cx, q, *a4); cat_gap(cx, P, q, a1@[5]); let q = gap(cx, q, a1@[5]); cat_push_t(P, q, ","@); let q = push_t(q, ","@); cat_gap(cx, P, q, a1@[6]); let q = gap(cx, q, a1@[6]); hom(cx, P, q, *a5); let q = add(cx, q, *a5); cat_gap(cx, P, q, a1@[7]); let q = gap(cx, q, a1@[7]); cat_push_t(P, q, "do"@); let q = push_t(q, "do"@); cat_gap(cx, P, q, a1@[8]); let q = gap(cx, q, a1@[8]); hom(cx, P, q, *a6); let q = add(cx, q, *a6); cat_gap(cx, P, q, a1@[9]); let q = gap(cx, q, a1@[9]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::ForRange(_, a1, a2, a3) => { let q = Q; cat_push_t(P, q, "for"@); let q = push_t(q, "for"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "in"@); let q = push_t(q, "in"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); cat_push_t(P, q, "do"@); let q = push_t(q, "do"@); cat_gap(cx, P, q, a1@[4]); let q = gap(cx, q, a1@[4]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::ForRangeB(_, a1, a2, a3, a4) => { let q = Q; cat_push_t(P, q, "for"@); let q = push_t(q, "for"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "in"@); let q = push_t(q, "in"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); cat_push_t(P, q, "do"@); let q = push_t(q, "do"@); cat_gap(cx, P, q, a1@[4]); let q = gap(cx, q, a1@[4]); hom(cx, P, q, *a4); let q = add(cx, q, *a4); cat_gap(cx, P, q, a1@[5]); let q = gap(cx, q, a1@[5]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::LocalNames(_, a1, a2) => { let q = Q; cat_push_t(P, q, "local"@); let q = push_t(q, "local"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); }
        Node::LocalNamesExprs(_, a1, a2, a3) => { let q = Q; cat_push_t(P, q, "local"@); let q = push_t(q, "local"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "="@); let q = push_t(q, "="@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); }
        Node::IfThen(_, a1, a2) => { let q = Q; cat_push_t(P, q, "if"@); let q = push_t(q, "if"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "then"@); let q = push_t(q, "then"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::IfThenB(_, a1, a2, a3) => { let q = Q; cat_push_t(P, q, "if"@); let q = push_t(q, "if"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "then"@); let q = push_t(q, "then"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::IfThenElse(_, a1, a2) => { let q = Q; cat_push_t(P, q, "if"@); let q = push_t(q, "if"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "then"@); let q = push_t(q, "then"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); cat_push_t(P, q, "else"@); let q = push_t(q, "else"@); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::IfThenBElse(_, a1, a2, a3) => { let q = Q; cat_push_t(P, q, "if"@); let q = push_t(q, "if"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "then"@); let q = push_t(q, "then"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); cat_push_t(P, q, "else"@); let q = push_t(q, "else"@); cat_gap(cx, P, q, a1@[4]); let q = gap(cx, q, a1@[4]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::IfThenElseB(_, a1, a2, a3) => { let q = Q; cat_push_t(P, q, "if"@); let q = push_t(q, "if"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "then"@); let q = push_t(q, "then"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); cat_push_t(P, q, "else"@); let q = push_t(q, "else"@); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[4]); let q = gap(cx, q, a1@[4]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::IfThenBElseB(_, a1, a2, a3, a4) => { let q = Q; cat_push_t(P, q, "if"@); let q = push_t(q, "if"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "then"@); let q = push_t(q, "then"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); cat_push_t(P, q, "else"@); let q = push_t(q, "else"@); cat_gap(cx, P, q, a1@[4]); let q = gap(cx, q, a1@[4]); hom(cx, P, q, *a4); let q = add(cx, q, *a4); cat_gap(cx, P, q, a1@[5]); let q = gap(cx, q, a1@[5]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::IfThenElseIf(_, a1, a2, a3) => { let q = Q; cat_push_t(P, q, "if"@); let q = push_t(q, "if"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "then"@); let q = push_t(q, "then"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::IfThenBElseIf(_, a1, a2, a3, a4) => { let q = Q; cat_push_t(P, q, "if"@); let q = push_t(q, "if"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "then"@); let q = push_t(q, "then"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); hom(cx, P, q, *a4); let q = add(cx, q, *a4); cat_gap(cx, P, q, a1@[4]); let q = gap(cx, q, a1@[4]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::IfThenElseIfElse(_, a1, a2, a3) => { let q = Q; cat_push_t(P, q, "if"@); let q = push_t(q, "if"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "then"@); let q = push_t(q, "then"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); cat_push_t(P, q, "else"@); let q = push_t(q, "else"@); cat_gap(cx, P, q, a1@[4]); let q = gap(cx, q, a1@[4]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::IfThenBElseIfElse(_, a1, a2, a3, a4) => { let q = Q; cat_push_t(P, q, "if"@); let q = push_t(q, "if"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "then"@); let q = push_t(q, "then"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); hom(cx, P, q, *a4); let q = add(cx, q, *a4); cat_gap(cx, P, q, a1@[4]); let q = gap(cx, q, a1@[4]); cat_push_t(P, q, "else"@); let q = push_t(q, "else"@); cat_gap(cx, P, q, a1@[5]); let q = gap(cx, q, a1@[5]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::IfThenElseIfElseB(_, a1, a2, a3, a4) => { let q = Q; cat_push_t(P, q, "if"@); let q = push_t(q, "if"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "then"@); let q = push_t(q, "then"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); cat_push_t(P, q, "else"@); let q = push_t(q, "else"@); cat_gap(cx, P, q, a1@[4]); let q = gap(cx, q, a1@[4]); hom(cx, P, q, *a4); let q = add(cx, q, *a4); cat_gap(cx, P, q, a1@[5]); let q = gap(cx, q, a1@[5]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::IfThenBElseIfElseB(_, a1, a2, a3, a4, a5) => { let q = Q; cat_push_t(P, q, "if"@); let q = push_t(q, "if"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "then"@); let q = push_t(q, "then"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a1@[3]); let q = gap(cx, q, a1@[3]); hom(cx, P, q, *a4); let q = add(cx, q, *a4); cat_gap(cx, P, q, a1@[4]); let q = gap(cx, q, a1@[4]); cat_push_t(P, q, "else"@); let q = push_t(q, "else"@); cat_gap(cx, P, q, a1@[5]); let q = gap(cx, q, a1@[5]); hom(cx, P, q, *a5); let q = add(cx, q, *a5); cat_gap(cx, P, q, a1@[6]); let q = gap(cx, q, a1@[6]); cat_push_t(P, q, "end"@); let q = push_t(q, "end"@); }
        Node::ElseIfThenVec(_, a1) => { let q = Q; hom_list(cx, P, q, a1, a1@.len() as int); let q = add_list(cx, q, a1, a1@.len() as int); }
        Node::ElseIfThen(_, a1, a2) => { let q = Q; cat_push_t(P, q, "elseif"@); let q = push_t(q, "elseif"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "then"@); let q = push_t(q, "then"@); }
        Node::ElseIfThenB(_, a1, a2, a3) => { let q = Q; cat_push_t(P, q, "elseif"@); let q = push_t(q, "elseif"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, "then"@); let q = push_t(q, "then"@); cat_gap(cx, P, q, a1@[2]); let q = gap(cx, q, a1@[2]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); }
        Node::RetStatNone(_) => { let q = Q; cat_push_t(P, q, "return"@); let q = push_t(q, "return"@); }
        Node::RetStatExpr(_, a1, a2) => { let q = Q; cat_push_t(P, q, "return"@); let q = push_t(q, "return"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); }
        Node::RetStatNoneComma(_, a1) => { let q = Q; cat_push_t(P, q, "return"@); let q = push_t(q, "return"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); cat_push_t(P, q, ";"@); let q = push_t(q, ";"@); }
        Node::RetStatExprComma(_, a1, a2) => { let q = Q; cat_push_t(P, q, "return"@); let q = push_t(q, "return"@); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[1]); let q = gap(cx, q, a1@[1]); cat_push_t(P, q, ";"@); let q = push_t(q, ";"@); }
        Node::StatsRetStat(_, a1, a2, a3) => { let q = Q; hom(cx, P, q, *a2); let q = add(cx, q, *a2); cat_gap(cx, P, q, a1@[0]); let q = gap(cx, q, a1@[0]); hom(cx, P, q, *a3); let q = add(cx, q, *a3); }
        Node::Chunk(a0, a1, a2) => { let q = Q; cat_gap(cx, P, q, a0); let q = gap(cx, q, a0); hom(cx, P, q, *a1); let q = add(cx, q, *a1); cat_gap(cx, P, q, a2); let q = gap(cx, q, a2); }
        Node::SheBangChunk(a0, a1, a2, a3, a4) => { let q = Q; cat_gap(cx, P, q, a0); let q = gap(cx, q, a0); hom(cx, P, q, *a1); let q = add(cx, q, *a1); cat_gap(cx, P, q, a2); let q = gap(cx, q, a2); hom(cx, P, q, *a3); let q = add(cx, q, *a3); cat_gap(cx, P, q, a4); let q = gap(cx, q, a4); }
        Node::Semicolon(_) => { let q = Q; cat_push_t(P, q, ";"@); let q = push_t(q, ";"@); }
        Node::SheBang(_, a1) => { let q = Q; cat_push_t(P, q, a1@ + "\n"@); let q = push_t(q, a1@ + "\n"@); }
    }
}
