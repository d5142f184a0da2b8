// generated by contracts/gen_wf.py: does the tree record the text, token by token and gap by gap?
use luafmt::verif::lua_ast::*;
use luafmt::verif::common::Loc;
pub struct W<'a> { pub s: &'a [char], pub gaps: Vec<(usize, usize)> }
type R<T> = Result<T, String>;
impl W<'_> {
    fn text(&self, p: usize, t: &str, v: &str) -> R<usize> {
        let t: Vec<char> = t.chars().collect();
        if p + t.len() <= self.s.len() && self.s[p..p + t.len()] == t[..] { Ok(p + t.len()) } else { Err(format!("{}: {:?} is not at {}", v, t.iter().collect::<String>(), p)) }
    }
    fn gap(&mut self, p: usize, l: &Loc, v: &str) -> R<usize> {
        if l.0 != p || l.1 < l.0 || l.1 > self.s.len() { return Err(format!("{}: a gap is recorded as {}..{}, it starts at {}", v, l.0, l.1, p)); }
        self.gaps.push((l.0, l.1));
        Ok(l.1)
    }
    fn child(&mut self, p: usize, n: &Node, v: &str) -> R<usize> {
        let (a, b) = self.node(n)?;
        if a != p { return Err(format!("{}: a part is recorded at {}..{}, it starts at {}", v, a, b, p)); }
        Ok(b)
    }
    fn seps(&mut self, mut p: usize, x: &[(Loc, Node, Loc, String)], k: &[&str], last: bool, v: &str) -> R<usize> {
        if x.is_empty() { return Err(format!("{}: no items", v)); }
        for (i, (a, n, b, t)) in x.iter().enumerate() {
            p = self.gap(p, a, v)?;
            p = self.child(p, n, v)?;
            p = self.gap(p, b, v)?;
            if i + 1 == x.len() && t.is_empty() { if b.0 != b.1 { return Err(format!("{}: a gap after the last item", v)); } continue; }
            if !k.contains(&t.as_str()) || i + 1 == x.len() && !last { return Err(format!("{}: separator {:?}", v, t)); }
            p = self.text(p, t, v)?;
        }
        Ok(p)
    }
    fn list(&mut self, mut p: usize, x: &[(Loc, Node)], v: &str) -> R<usize> {
        for (a, n) in x { p = self.gap(p, a, v)?; p = self.child(p, n, v)?; }
        Ok(p)
    }
    pub fn node(&mut self, n: &Node) -> R<(usize, usize)> {
        match n {
            Node::BinaryOp(a0, a1, a2, a3, a4) => { let mut p = a0.0; p = self.child(p, a3, "BinaryOp")?; p = self.gap(p, &a1[0], "BinaryOp")?; p = self.text(p, a2.0, "BinaryOp")?; p = self.gap(p, &a1[1], "BinaryOp")?; p = self.child(p, a4, "BinaryOp")?; if p != a0.1 { return Err(format!("BinaryOp: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::UnaryOp(a0, a1, a2, a3) => { let mut p = a0.0; p = self.text(p, a2.0, "UnaryOp")?; p = self.gap(p, &a1[0], "UnaryOp")?; p = self.child(p, a3, "UnaryOp")?; if p != a0.1 { return Err(format!("UnaryOp: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::UnaryNot(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, "not", "UnaryNot")?; p = self.gap(p, &a1[0], "UnaryNot")?; p = self.child(p, a2, "UnaryNot")?; if p != a0.1 { return Err(format!("UnaryNot: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::Var(a0, a1, a2, a3) => { let mut p = a0.0; p = self.child(p, a2, "Var")?; p = self.gap(p, &a1[0], "Var")?; p = self.child(p, a3, "Var")?; if p != a0.1 { return Err(format!("Var: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::RoundBrackets(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, "(", "RoundBrackets")?; p = self.gap(p, &a1[0], "RoundBrackets")?; p = self.child(p, a2, "RoundBrackets")?; p = self.gap(p, &a1[1], "RoundBrackets")?; p = self.text(p, ")", "RoundBrackets")?; if p != a0.1 { return Err(format!("RoundBrackets: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::ArgsRoundBrackets(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, "(", "ArgsRoundBrackets")?; p = self.gap(p, &a1[0], "ArgsRoundBrackets")?; p = self.child(p, a2, "ArgsRoundBrackets")?; p = self.gap(p, &a1[1], "ArgsRoundBrackets")?; p = self.text(p, ")", "ArgsRoundBrackets")?; if p != a0.1 { return Err(format!("ArgsRoundBrackets: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::ArgsRoundBracketsEmpty(a0, a1) => { let mut p = a0.0; p = self.text(p, "(", "ArgsRoundBracketsEmpty")?; p = self.gap(p, &a1[0], "ArgsRoundBracketsEmpty")?; p = self.text(p, ")", "ArgsRoundBracketsEmpty")?; if p != a0.1 { return Err(format!("ArgsRoundBracketsEmpty: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::Nil(a0) => { let mut p = a0.0; p = self.text(p, "nil", "Nil")?; if p != a0.1 { return Err(format!("Nil: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::False(a0) => { let mut p = a0.0; p = self.text(p, "false", "False")?; if p != a0.1 { return Err(format!("False: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::True(a0) => { let mut p = a0.0; p = self.text(p, "true", "True")?; if p != a0.1 { return Err(format!("True: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::VarArg(a0) => { let mut p = a0.0; p = self.text(p, "...", "VarArg")?; if p != a0.1 { return Err(format!("VarArg: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::Break(a0) => { let mut p = a0.0; p = self.text(p, "break", "Break")?; if p != a0.1 { return Err(format!("Break: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::Numeral(a0, a1) => { let mut p = a0.0; p = self.text(p, a1, "Numeral")?; if p != a0.1 { return Err(format!("Numeral: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::NormalStringLiteral(a0, a1) => { let mut p = a0.0; p = self.text(p, &format!("\"{}\"", a1), "NormalStringLiteral")?; if p != a0.1 { return Err(format!("NormalStringLiteral: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::CharStringLiteral(a0, a1) => { let mut p = a0.0; p = self.text(p, &format!("'{}'", a1), "CharStringLiteral")?; if p != a0.1 { return Err(format!("CharStringLiteral: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::MultiLineStringLiteral(a0, a1, a2) => { let mut p = a0.0; let eq = "=".repeat(*a1); p = self.text(p, &format!("[{}[{}]{}]", eq, a2, eq), "MultiLineStringLiteral")?; if p != a0.1 { return Err(format!("MultiLineStringLiteral: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::TableConstructor(a0, a1, a2, _) => { let mut p = a0.0; p = self.text(p, "{", "TableConstructor")?; p = self.gap(p, &a1[0], "TableConstructor")?; p = self.child(p, a2, "TableConstructor")?; p = self.gap(p, &a1[1], "TableConstructor")?; p = self.text(p, "}", "TableConstructor")?; if p != a0.1 { return Err(format!("TableConstructor: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::TableConstructorEmpty(a0, a1) => { let mut p = a0.0; p = self.text(p, "{", "TableConstructorEmpty")?; p = self.gap(p, &a1[0], "TableConstructorEmpty")?; p = self.text(p, "}", "TableConstructorEmpty")?; if p != a0.1 { return Err(format!("TableConstructorEmpty: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::Fields(a0, a1, _) => { let mut p = a0.0; p = self.seps(p, a1, &[",", ";"], true, "Fields")?; if p != a0.1 { return Err(format!("Fields: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::FieldNamedBracket(a0, a1, a2, a3) => { let mut p = a0.0; p = self.text(p, "[", "FieldNamedBracket")?; p = self.gap(p, &a1[0], "FieldNamedBracket")?; p = self.child(p, a2, "FieldNamedBracket")?; p = self.gap(p, &a1[1], "FieldNamedBracket")?; p = self.text(p, "]", "FieldNamedBracket")?; p = self.gap(p, &a1[2], "FieldNamedBracket")?; p = self.text(p, "=", "FieldNamedBracket")?; p = self.gap(p, &a1[3], "FieldNamedBracket")?; p = self.child(p, a3, "FieldNamedBracket")?; if p != a0.1 { return Err(format!("FieldNamedBracket: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::FieldNamed(a0, a1, a2, a3) => { let mut p = a0.0; p = self.child(p, a2, "FieldNamed")?; p = self.gap(p, &a1[0], "FieldNamed")?; p = self.text(p, "=", "FieldNamed")?; p = self.gap(p, &a1[1], "FieldNamed")?; p = self.child(p, a3, "FieldNamed")?; if p != a0.1 { return Err(format!("FieldNamed: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::FieldSequential(a0, a1) => { let mut p = a0.0; p = self.child(p, a1, "FieldSequential")?; if p != a0.1 { return Err(format!("FieldSequential: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::TableIndex(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, "[", "TableIndex")?; p = self.gap(p, &a1[0], "TableIndex")?; p = self.child(p, a2, "TableIndex")?; p = self.gap(p, &a1[1], "TableIndex")?; p = self.text(p, "]", "TableIndex")?; if p != a0.1 { return Err(format!("TableIndex: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::TableMember(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, ".", "TableMember")?; p = self.gap(p, &a1[0], "TableMember")?; p = self.child(p, a2, "TableMember")?; if p != a0.1 { return Err(format!("TableMember: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::ExpList(a0, a1) => { let mut p = a0.0; p = self.seps(p, a1, &[","], false, "ExpList")?; if p != a0.1 { return Err(format!("ExpList: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::NameList(a0, a1) => { let mut p = a0.0; p = self.seps(p, a1, &[","], false, "NameList")?; if p != a0.1 { return Err(format!("NameList: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::ParList(a0, a1) => { let mut p = a0.0; p = self.seps(p, a1, &[","], false, "ParList")?; if p != a0.1 { return Err(format!("ParList: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::VarList(a0, a1) => { let mut p = a0.0; p = self.seps(p, a1, &[","], false, "VarList")?; if p != a0.1 { return Err(format!("VarList: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::VarRoundSuffix(a0, a1, a2, a3) => { let mut p = a0.0; p = self.text(p, "(", "VarRoundSuffix")?; p = self.gap(p, &a1[0], "VarRoundSuffix")?; p = self.child(p, a2, "VarRoundSuffix")?; p = self.gap(p, &a1[1], "VarRoundSuffix")?; p = self.text(p, ")", "VarRoundSuffix")?; p = self.gap(p, &a1[2], "VarRoundSuffix")?; p = self.child(p, a3, "VarRoundSuffix")?; if p != a0.1 { return Err(format!("VarRoundSuffix: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::VarSuffixList(a0, a1) => { let mut p = a0.0; p = self.list(p, a1, "VarSuffixList")?; if p != a0.1 { return Err(format!("VarSuffixList: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::FnMethodCall(a0, a1, a2, a3) => { let mut p = a0.0; p = self.text(p, ":", "FnMethodCall")?; p = self.gap(p, &a1[0], "FnMethodCall")?; p = self.child(p, a2, "FnMethodCall")?; p = self.gap(p, &a1[1], "FnMethodCall")?; p = self.child(p, a3, "FnMethodCall")?; if p != a0.1 { return Err(format!("FnMethodCall: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::FunctionDef(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, "function", "FunctionDef")?; p = self.gap(p, &a1[0], "FunctionDef")?; p = self.child(p, a2, "FunctionDef")?; if p != a0.1 { return Err(format!("FunctionDef: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::FuncBody(a0, a1) => { let mut p = a0.0; p = self.text(p, "(", "FuncBody")?; p = self.gap(p, &a1[0], "FuncBody")?; p = self.text(p, ")", "FuncBody")?; p = self.gap(p, &a1[1], "FuncBody")?; p = self.text(p, "end", "FuncBody")?; if p != a0.1 { return Err(format!("FuncBody: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::FuncBodyB(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, "(", "FuncBodyB")?; p = self.gap(p, &a1[0], "FuncBodyB")?; p = self.text(p, ")", "FuncBodyB")?; p = self.gap(p, &a1[1], "FuncBodyB")?; p = self.child(p, a2, "FuncBodyB")?; p = self.gap(p, &a1[2], "FuncBodyB")?; p = self.text(p, "end", "FuncBodyB")?; if p != a0.1 { return Err(format!("FuncBodyB: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::FuncPBody(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, "(", "FuncPBody")?; p = self.gap(p, &a1[0], "FuncPBody")?; p = self.child(p, a2, "FuncPBody")?; p = self.gap(p, &a1[1], "FuncPBody")?; p = self.text(p, ")", "FuncPBody")?; p = self.gap(p, &a1[2], "FuncPBody")?; p = self.text(p, "end", "FuncPBody")?; if p != a0.1 { return Err(format!("FuncPBody: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::FuncPBodyB(a0, a1, a2, a3) => { let mut p = a0.0; p = self.text(p, "(", "FuncPBodyB")?; p = self.gap(p, &a1[0], "FuncPBodyB")?; p = self.child(p, a2, "FuncPBodyB")?; p = self.gap(p, &a1[1], "FuncPBodyB")?; p = self.text(p, ")", "FuncPBodyB")?; p = self.gap(p, &a1[2], "FuncPBodyB")?; p = self.child(p, a3, "FuncPBodyB")?; p = self.gap(p, &a1[3], "FuncPBodyB")?; p = self.text(p, "end", "FuncPBodyB")?; if p != a0.1 { return Err(format!("FuncPBodyB: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::FuncName(a0, a1) => { let mut p = a0.0; p = self.seps(p, a1, &["."], false, "FuncName")?; if p != a0.1 { return Err(format!("FuncName: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::FuncNameSelf(a0, a1, a2, a3) => { let mut p = a0.0; p = self.seps(p, a2, &["."], false, "FuncNameSelf")?; p = self.gap(p, &a1[0], "FuncNameSelf")?; p = self.text(p, ":", "FuncNameSelf")?; p = self.gap(p, &a1[1], "FuncNameSelf")?; p = self.child(p, a3, "FuncNameSelf")?; if p != a0.1 { return Err(format!("FuncNameSelf: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::FuncDecl(a0, a1, a2, a3) => { let mut p = a0.0; p = self.text(p, "function", "FuncDecl")?; p = self.gap(p, &a1[0], "FuncDecl")?; p = self.child(p, a2, "FuncDecl")?; p = self.gap(p, &a1[1], "FuncDecl")?; p = self.child(p, a3, "FuncDecl")?; if p != a0.1 { return Err(format!("FuncDecl: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::LocalFuncDecl(a0, a1, a2, a3) => { let mut p = a0.0; p = self.text(p, "local", "LocalFuncDecl")?; p = self.gap(p, &a1[0], "LocalFuncDecl")?; p = self.text(p, "function", "LocalFuncDecl")?; p = self.gap(p, &a1[1], "LocalFuncDecl")?; p = self.child(p, a2, "LocalFuncDecl")?; p = self.gap(p, &a1[2], "LocalFuncDecl")?; p = self.child(p, a3, "LocalFuncDecl")?; if p != a0.1 { return Err(format!("LocalFuncDecl: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::StatementList(a0, a1) => { let mut p = a0.0; p = self.list(p, a1, "StatementList")?; if p != a0.1 { return Err(format!("StatementList: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::DoEnd(a0, a1) => { let mut p = a0.0; p = self.text(p, "do", "DoEnd")?; p = self.gap(p, &a1[0], "DoEnd")?; p = self.text(p, "end", "DoEnd")?; if p != a0.1 { return Err(format!("DoEnd: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::DoBEnd(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, "do", "DoBEnd")?; p = self.gap(p, &a1[0], "DoBEnd")?; p = self.child(p, a2, "DoBEnd")?; p = self.gap(p, &a1[1], "DoBEnd")?; p = self.text(p, "end", "DoBEnd")?; if p != a0.1 { return Err(format!("DoBEnd: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::VarsExprs(a0, a1, a2, a3) => { let mut p = a0.0; p = self.child(p, a2, "VarsExprs")?; p = self.gap(p, &a1[0], "VarsExprs")?; p = self.text(p, "=", "VarsExprs")?; p = self.gap(p, &a1[1], "VarsExprs")?; p = self.child(p, a3, "VarsExprs")?; if p != a0.1 { return Err(format!("VarsExprs: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::Name(a0, a1) => { let mut p = a0.0; p = self.text(p, a1, "Name")?; if p != a0.1 { return Err(format!("Name: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::Label(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, "::", "Label")?; p = self.gap(p, &a1[0], "Label")?; p = self.child(p, a2, "Label")?; p = self.gap(p, &a1[1], "Label")?; p = self.text(p, "::", "Label")?; if p != a0.1 { return Err(format!("Label: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::GoTo(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, "goto", "GoTo")?; p = self.gap(p, &a1[0], "GoTo")?; p = self.child(p, a2, "GoTo")?; if p != a0.1 { return Err(format!("GoTo: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::WhileDo(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, "while", "WhileDo")?; p = self.gap(p, &a1[0], "WhileDo")?; p = self.child(p, a2, "WhileDo")?; p = self.gap(p, &a1[1], "WhileDo")?; p = self.text(p, "do", "WhileDo")?; p = self.gap(p, &a1[2], "WhileDo")?; p = self.text(p, "end", "WhileDo")?; if p != a0.1 { return Err(format!("WhileDo: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::WhileDoB(a0, a1, a2, a3) => { let mut p = a0.0; p = self.text(p, "while", "WhileDoB")?; p = self.gap(p, &a1[0], "WhileDoB")?; p = self.child(p, a2, "WhileDoB")?; p = self.gap(p, &a1[1], "WhileDoB")?; p = self.text(p, "do", "WhileDoB")?; p = self.gap(p, &a1[2], "WhileDoB")?; p = self.child(p, a3, "WhileDoB")?; p = self.gap(p, &a1[3], "WhileDoB")?; p = self.text(p, "end", "WhileDoB")?; if p != a0.1 { return Err(format!("WhileDoB: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::RepeatUntil(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, "repeat", "RepeatUntil")?; p = self.gap(p, &a1[0], "RepeatUntil")?; p = self.text(p, "until", "RepeatUntil")?; p = self.gap(p, &a1[1], "RepeatUntil")?; p = self.child(p, a2, "RepeatUntil")?; if p != a0.1 { return Err(format!("RepeatUntil: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::RepeatBUntil(a0, a1, a2, a3) => { let mut p = a0.0; p = self.text(p, "repeat", "RepeatBUntil")?; p = self.gap(p, &a1[0], "RepeatBUntil")?; p = self.child(p, a2, "RepeatBUntil")?; p = self.gap(p, &a1[1], "RepeatBUntil")?; p = self.text(p, "until", "RepeatBUntil")?; p = self.gap(p, &a1[2], "RepeatBUntil")?; p = self.child(p, a3, "RepeatBUntil")?; if p != a0.1 { return Err(format!("RepeatBUntil: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::ForInt(a0, a1, a2, a3, a4) => { let mut p = a0.0; p = self.text(p, "for", "ForInt")?; p = self.gap(p, &a1[0], "ForInt")?; p = self.child(p, a2, "ForInt")?; p = self.gap(p, &a1[1], "ForInt")?; p = self.text(p, "=", "ForInt")?; p = self.gap(p, &a1[2], "ForInt")?; p = self.child(p, a3, "ForInt")?; p = self.gap(p, &a1[3], "ForInt")?; p = self.text(p, ",", "ForInt")?; p = self.gap(p, &a1[4], "ForInt")?; p = self.child(p, a4, "ForInt")?; p = self.gap(p, &a1[5], "ForInt")?; p = self.text(p, "do", "ForInt")?; p = self.gap(p, &a1[6], "ForInt")?; p = self.text(p, "end", "ForInt")?; if p != a0.1 { return Err(format!("ForInt: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::ForIntB(a0, a1, a2, a3, a4, a5) => { let mut p = a0.0; p = self.text(p, "for", "ForIntB")?; p = self.gap(p, &a1[0], "ForIntB")?; p = self.child(p, a2, "ForIntB")?; p = self.gap(p, &a1[1], "ForIntB")?; p = self.text(p, "=", "ForIntB")?; p = self.gap(p, &a1[2], "ForIntB")?; p = self.child(p, a3, "ForIntB")?; p = self.gap(p, &a1[3], "ForIntB")?; p = self.text(p, ",", "ForIntB")?; p = self.gap(p, &a1[4], "ForIntB")?; p = self.child(p, a4, "ForIntB")?; p = self.gap(p, &a1[5], "ForIntB")?; p = self.text(p, "do", "ForIntB")?; p = self.gap(p, &a1[6], "ForIntB")?; p = self.child(p, a5, "ForIntB")?; p = self.gap(p, &a1[7], "ForIntB")?; p = self.text(p, "end", "ForIntB")?; if p != a0.1 { return Err(format!("ForIntB: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::ForIntStep(a0, a1, a2, a3, a4, a5) => { let mut p = a0.0; p = self.text(p, "for", "ForIntStep")?; p = self.gap(p, &a1[0], "ForIntStep")?; p = self.child(p, a2, "ForIntStep")?; p = self.gap(p, &a1[1], "ForIntStep")?; p = self.text(p, "=", "ForIntStep")?; p = self.gap(p, &a1[2], "ForIntStep")?; p = self.child(p, a3, "ForIntStep")?; p = self.gap(p, &a1[3], "ForIntStep")?; p = self.text(p, ",", "ForIntStep")?; p = self.gap(p, &a1[4], "ForIntStep")?; p = self.child(p, a4, "ForIntStep")?; p = self.gap(p, &a1[5], "ForIntStep")?; p = self.text(p, ",", "ForIntStep")?; p = self.gap(p, &a1[6], "ForIntStep")?; p = self.child(p, a5, "ForIntStep")?; p = self.gap(p, &a1[7], "ForIntStep")?; p = self.text(p, "do", "ForIntStep")?; p = self.gap(p, &a1[8], "ForIntStep")?; p = self.text(p, "end", "ForIntStep")?; if p != a0.1 { return Err(format!("ForIntStep: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::ForIntStepB(a0, a1, a2, a3, a4, a5, a6) => { let mut p = a0.0; p = self.text(p, "for", "ForIntStepB")?; p = self.gap(p, &a1[0], "ForIntStepB")?; p = self.child(p, a2, "ForIntStepB")?; p = self.gap(p, &a1[1], "ForIntStepB")?; p = self.text(p, "=", "ForIntStepB")?; p = self.gap(p, &a1[2], "ForIntStepB")?; p = self.child(p, a3, "ForIntStepB")?; p = self.gap(p, &a1[3], "ForIntStepB")?; p = self.text(p, ",", "ForIntStepB")?; p = self.gap(p, &a1[4], "ForIntStepB")?; p = self.child(p, a4, "ForIntStepB")?; p = self.gap(p, &a1[5], "ForIntStepB")?; p = self.text(p, ",", "ForIntStepB")?; p = self.gap(p, &a1[6], "ForIntStepB")?; p = self.child(p, a5, "ForIntStepB")?; p = self.gap(p, &a1[7], "ForIntStepB")?; p = self.text(p, "do", "ForIntStepB")?; p = self.gap(p, &a1[8], "ForIntStepB")?; p = self.child(p, a6, "ForIntStepB")?; p = self.gap(p, &a1[9], "ForIntStepB")?; p = self.text(p, "end", "ForIntStepB")?; if p != a0.1 { return Err(format!("ForIntStepB: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::ForRange(a0, a1, a2, a3) => { let mut p = a0.0; p = self.text(p, "for", "ForRange")?; p = self.gap(p, &a1[0], "ForRange")?; p = self.child(p, a2, "ForRange")?; p = self.gap(p, &a1[1], "ForRange")?; p = self.text(p, "in", "ForRange")?; p = self.gap(p, &a1[2], "ForRange")?; p = self.child(p, a3, "ForRange")?; p = self.gap(p, &a1[3], "ForRange")?; p = self.text(p, "do", "ForRange")?; p = self.gap(p, &a1[4], "ForRange")?; p = self.text(p, "end", "ForRange")?; if p != a0.1 { return Err(format!("ForRange: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::ForRangeB(a0, a1, a2, a3, a4) => { let mut p = a0.0; p = self.text(p, "for", "ForRangeB")?; p = self.gap(p, &a1[0], "ForRangeB")?; p = self.child(p, a2, "ForRangeB")?; p = self.gap(p, &a1[1], "ForRangeB")?; p = self.text(p, "in", "ForRangeB")?; p = self.gap(p, &a1[2], "ForRangeB")?; p = self.child(p, a3, "ForRangeB")?; p = self.gap(p, &a1[3], "ForRangeB")?; p = self.text(p, "do", "ForRangeB")?; p = self.gap(p, &a1[4], "ForRangeB")?; p = self.child(p, a4, "ForRangeB")?; p = self.gap(p, &a1[5], "ForRangeB")?; p = self.text(p, "end", "ForRangeB")?; if p != a0.1 { return Err(format!("ForRangeB: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::LocalNames(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, "local", "LocalNames")?; p = self.gap(p, &a1[0], "LocalNames")?; p = self.child(p, a2, "LocalNames")?; if p != a0.1 { return Err(format!("LocalNames: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::LocalNamesExprs(a0, a1, a2, a3) => { let mut p = a0.0; p = self.text(p, "local", "LocalNamesExprs")?; p = self.gap(p, &a1[0], "LocalNamesExprs")?; p = self.child(p, a2, "LocalNamesExprs")?; p = self.gap(p, &a1[1], "LocalNamesExprs")?; p = self.text(p, "=", "LocalNamesExprs")?; p = self.gap(p, &a1[2], "LocalNamesExprs")?; p = self.child(p, a3, "LocalNamesExprs")?; if p != a0.1 { return Err(format!("LocalNamesExprs: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::IfThen(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, "if", "IfThen")?; p = self.gap(p, &a1[0], "IfThen")?; p = self.child(p, a2, "IfThen")?; p = self.gap(p, &a1[1], "IfThen")?; p = self.text(p, "then", "IfThen")?; p = self.gap(p, &a1[2], "IfThen")?; p = self.text(p, "end", "IfThen")?; if p != a0.1 { return Err(format!("IfThen: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::IfThenB(a0, a1, a2, a3) => { let mut p = a0.0; p = self.text(p, "if", "IfThenB")?; p = self.gap(p, &a1[0], "IfThenB")?; p = self.child(p, a2, "IfThenB")?; p = self.gap(p, &a1[1], "IfThenB")?; p = self.text(p, "then", "IfThenB")?; p = self.gap(p, &a1[2], "IfThenB")?; p = self.child(p, a3, "IfThenB")?; p = self.gap(p, &a1[3], "IfThenB")?; p = self.text(p, "end", "IfThenB")?; if p != a0.1 { return Err(format!("IfThenB: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::IfThenElse(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, "if", "IfThenElse")?; p = self.gap(p, &a1[0], "IfThenElse")?; p = self.child(p, a2, "IfThenElse")?; p = self.gap(p, &a1[1], "IfThenElse")?; p = self.text(p, "then", "IfThenElse")?; p = self.gap(p, &a1[2], "IfThenElse")?; p = self.text(p, "else", "IfThenElse")?; p = self.gap(p, &a1[3], "IfThenElse")?; p = self.text(p, "end", "IfThenElse")?; if p != a0.1 { return Err(format!("IfThenElse: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::IfThenBElse(a0, a1, a2, a3) => { let mut p = a0.0; p = self.text(p, "if", "IfThenBElse")?; p = self.gap(p, &a1[0], "IfThenBElse")?; p = self.child(p, a2, "IfThenBElse")?; p = self.gap(p, &a1[1], "IfThenBElse")?; p = self.text(p, "then", "IfThenBElse")?; p = self.gap(p, &a1[2], "IfThenBElse")?; p = self.child(p, a3, "IfThenBElse")?; p = self.gap(p, &a1[3], "IfThenBElse")?; p = self.text(p, "else", "IfThenBElse")?; p = self.gap(p, &a1[4], "IfThenBElse")?; p = self.text(p, "end", "IfThenBElse")?; if p != a0.1 { return Err(format!("IfThenBElse: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::IfThenElseB(a0, a1, a2, a3) => { let mut p = a0.0; p = self.text(p, "if", "IfThenElseB")?; p = self.gap(p, &a1[0], "IfThenElseB")?; p = self.child(p, a2, "IfThenElseB")?; p = self.gap(p, &a1[1], "IfThenElseB")?; p = self.text(p, "then", "IfThenElseB")?; p = self.gap(p, &a1[2], "IfThenElseB")?; p = self.text(p, "else", "IfThenElseB")?; p = self.gap(p, &a1[3], "IfThenElseB")?; p = self.child(p, a3, "IfThenElseB")?; p = self.gap(p, &a1[4], "IfThenElseB")?; p = self.text(p, "end", "IfThenElseB")?; if p != a0.1 { return Err(format!("IfThenElseB: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::IfThenBElseB(a0, a1, a2, a3, a4) => { let mut p = a0.0; p = self.text(p, "if", "IfThenBElseB")?; p = self.gap(p, &a1[0], "IfThenBElseB")?; p = self.child(p, a2, "IfThenBElseB")?; p = self.gap(p, &a1[1], "IfThenBElseB")?; p = self.text(p, "then", "IfThenBElseB")?; p = self.gap(p, &a1[2], "IfThenBElseB")?; p = self.child(p, a3, "IfThenBElseB")?; p = self.gap(p, &a1[3], "IfThenBElseB")?; p = self.text(p, "else", "IfThenBElseB")?; p = self.gap(p, &a1[4], "IfThenBElseB")?; p = self.child(p, a4, "IfThenBElseB")?; p = self.gap(p, &a1[5], "IfThenBElseB")?; p = self.text(p, "end", "IfThenBElseB")?; if p != a0.1 { return Err(format!("IfThenBElseB: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::IfThenElseIf(a0, a1, a2, a3) => { let mut p = a0.0; p = self.text(p, "if", "IfThenElseIf")?; p = self.gap(p, &a1[0], "IfThenElseIf")?; p = self.child(p, a2, "IfThenElseIf")?; p = self.gap(p, &a1[1], "IfThenElseIf")?; p = self.text(p, "then", "IfThenElseIf")?; p = self.gap(p, &a1[2], "IfThenElseIf")?; p = self.child(p, a3, "IfThenElseIf")?; p = self.gap(p, &a1[3], "IfThenElseIf")?; p = self.text(p, "end", "IfThenElseIf")?; if p != a0.1 { return Err(format!("IfThenElseIf: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::IfThenBElseIf(a0, a1, a2, a3, a4) => { let mut p = a0.0; p = self.text(p, "if", "IfThenBElseIf")?; p = self.gap(p, &a1[0], "IfThenBElseIf")?; p = self.child(p, a2, "IfThenBElseIf")?; p = self.gap(p, &a1[1], "IfThenBElseIf")?; p = self.text(p, "then", "IfThenBElseIf")?; p = self.gap(p, &a1[2], "IfThenBElseIf")?; p = self.child(p, a3, "IfThenBElseIf")?; p = self.gap(p, &a1[3], "IfThenBElseIf")?; p = self.child(p, a4, "IfThenBElseIf")?; p = self.gap(p, &a1[4], "IfThenBElseIf")?; p = self.text(p, "end", "IfThenBElseIf")?; if p != a0.1 { return Err(format!("IfThenBElseIf: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::IfThenElseIfElse(a0, a1, a2, a3) => { let mut p = a0.0; p = self.text(p, "if", "IfThenElseIfElse")?; p = self.gap(p, &a1[0], "IfThenElseIfElse")?; p = self.child(p, a2, "IfThenElseIfElse")?; p = self.gap(p, &a1[1], "IfThenElseIfElse")?; p = self.text(p, "then", "IfThenElseIfElse")?; p = self.gap(p, &a1[2], "IfThenElseIfElse")?; p = self.child(p, a3, "IfThenElseIfElse")?; p = self.gap(p, &a1[3], "IfThenElseIfElse")?; p = self.text(p, "else", "IfThenElseIfElse")?; p = self.gap(p, &a1[4], "IfThenElseIfElse")?; p = self.text(p, "end", "IfThenElseIfElse")?; if p != a0.1 { return Err(format!("IfThenElseIfElse: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::IfThenBElseIfElse(a0, a1, a2, a3, a4) => { let mut p = a0.0; p = self.text(p, "if", "IfThenBElseIfElse")?; p = self.gap(p, &a1[0], "IfThenBElseIfElse")?; p = self.child(p, a2, "IfThenBElseIfElse")?; p = self.gap(p, &a1[1], "IfThenBElseIfElse")?; p = self.text(p, "then", "IfThenBElseIfElse")?; p = self.gap(p, &a1[2], "IfThenBElseIfElse")?; p = self.child(p, a3, "IfThenBElseIfElse")?; p = self.gap(p, &a1[3], "IfThenBElseIfElse")?; p = self.child(p, a4, "IfThenBElseIfElse")?; p = self.gap(p, &a1[4], "IfThenBElseIfElse")?; p = self.text(p, "else", "IfThenBElseIfElse")?; p = self.gap(p, &a1[5], "IfThenBElseIfElse")?; p = self.text(p, "end", "IfThenBElseIfElse")?; if p != a0.1 { return Err(format!("IfThenBElseIfElse: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::IfThenElseIfElseB(a0, a1, a2, a3, a4) => { let mut p = a0.0; p = self.text(p, "if", "IfThenElseIfElseB")?; p = self.gap(p, &a1[0], "IfThenElseIfElseB")?; p = self.child(p, a2, "IfThenElseIfElseB")?; p = self.gap(p, &a1[1], "IfThenElseIfElseB")?; p = self.text(p, "then", "IfThenElseIfElseB")?; p = self.gap(p, &a1[2], "IfThenElseIfElseB")?; p = self.child(p, a3, "IfThenElseIfElseB")?; p = self.gap(p, &a1[3], "IfThenElseIfElseB")?; p = self.text(p, "else", "IfThenElseIfElseB")?; p = self.gap(p, &a1[4], "IfThenElseIfElseB")?; p = self.child(p, a4, "IfThenElseIfElseB")?; p = self.gap(p, &a1[5], "IfThenElseIfElseB")?; p = self.text(p, "end", "IfThenElseIfElseB")?; if p != a0.1 { return Err(format!("IfThenElseIfElseB: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::IfThenBElseIfElseB(a0, a1, a2, a3, a4, a5) => { let mut p = a0.0; p = self.text(p, "if", "IfThenBElseIfElseB")?; p = self.gap(p, &a1[0], "IfThenBElseIfElseB")?; p = self.child(p, a2, "IfThenBElseIfElseB")?; p = self.gap(p, &a1[1], "IfThenBElseIfElseB")?; p = self.text(p, "then", "IfThenBElseIfElseB")?; p = self.gap(p, &a1[2], "IfThenBElseIfElseB")?; p = self.child(p, a3, "IfThenBElseIfElseB")?; p = self.gap(p, &a1[3], "IfThenBElseIfElseB")?; p = self.child(p, a4, "IfThenBElseIfElseB")?; p = self.gap(p, &a1[4], "IfThenBElseIfElseB")?; p = self.text(p, "else", "IfThenBElseIfElseB")?; p = self.gap(p, &a1[5], "IfThenBElseIfElseB")?; p = self.child(p, a5, "IfThenBElseIfElseB")?; p = self.gap(p, &a1[6], "IfThenBElseIfElseB")?; p = self.text(p, "end", "IfThenBElseIfElseB")?; if p != a0.1 { return Err(format!("IfThenBElseIfElseB: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::ElseIfThenVec(a0, a1) => { let mut p = a0.0; p = self.list(p, a1, "ElseIfThenVec")?; if p != a0.1 { return Err(format!("ElseIfThenVec: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::ElseIfThen(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, "elseif", "ElseIfThen")?; p = self.gap(p, &a1[0], "ElseIfThen")?; p = self.child(p, a2, "ElseIfThen")?; p = self.gap(p, &a1[1], "ElseIfThen")?; p = self.text(p, "then", "ElseIfThen")?; if p != a0.1 { return Err(format!("ElseIfThen: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::ElseIfThenB(a0, a1, a2, a3) => { let mut p = a0.0; p = self.text(p, "elseif", "ElseIfThenB")?; p = self.gap(p, &a1[0], "ElseIfThenB")?; p = self.child(p, a2, "ElseIfThenB")?; p = self.gap(p, &a1[1], "ElseIfThenB")?; p = self.text(p, "then", "ElseIfThenB")?; p = self.gap(p, &a1[2], "ElseIfThenB")?; p = self.child(p, a3, "ElseIfThenB")?; if p != a0.1 { return Err(format!("ElseIfThenB: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::RetStatNone(a0) => { let mut p = a0.0; p = self.text(p, "return", "RetStatNone")?; if p != a0.1 { return Err(format!("RetStatNone: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::RetStatExpr(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, "return", "RetStatExpr")?; p = self.gap(p, &a1[0], "RetStatExpr")?; p = self.child(p, a2, "RetStatExpr")?; if p != a0.1 { return Err(format!("RetStatExpr: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::RetStatNoneComma(a0, a1) => { let mut p = a0.0; p = self.text(p, "return", "RetStatNoneComma")?; p = self.gap(p, &a1[0], "RetStatNoneComma")?; p = self.text(p, ";", "RetStatNoneComma")?; if p != a0.1 { return Err(format!("RetStatNoneComma: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::RetStatExprComma(a0, a1, a2) => { let mut p = a0.0; p = self.text(p, "return", "RetStatExprComma")?; p = self.gap(p, &a1[0], "RetStatExprComma")?; p = self.child(p, a2, "RetStatExprComma")?; p = self.gap(p, &a1[1], "RetStatExprComma")?; p = self.text(p, ";", "RetStatExprComma")?; if p != a0.1 { return Err(format!("RetStatExprComma: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::StatsRetStat(a0, a1, a2, a3) => { let mut p = a0.0; p = self.child(p, a2, "StatsRetStat")?; p = self.gap(p, &a1[0], "StatsRetStat")?; p = self.child(p, a3, "StatsRetStat")?; if p != a0.1 { return Err(format!("StatsRetStat: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::Chunk(a0, a1, a2) => { let mut p = 0; p = self.gap(p, a0, "Chunk")?; p = self.child(p, a1, "Chunk")?; p = self.gap(p, a2, "Chunk")?; if p != self.s.len() { return Err("Chunk: ends early".into()); } Ok((0, p)) }
            Node::SheBangChunk(a0, a1, a2, a3, a4) => { let mut p = 0; p = self.gap(p, a0, "SheBangChunk")?; p = self.child(p, a1, "SheBangChunk")?; p = self.gap(p, a2, "SheBangChunk")?; p = self.child(p, a3, "SheBangChunk")?; p = self.gap(p, a4, "SheBangChunk")?; if p != self.s.len() { return Err("SheBangChunk: ends early".into()); } Ok((0, p)) }
            Node::Semicolon(a0) => { let mut p = a0.0; p = self.text(p, ";", "Semicolon")?; if p != a0.1 { return Err(format!("Semicolon: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
            Node::SheBang(a0, a1) => { let mut p = a0.0; p = self.text(p, a1, "SheBang")?; if self.s.get(p) == Some(&'\n') { p += 1; } if p != a0.1 { return Err(format!("SheBang: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p)) }
        }
    }
}
