sym=[("OpExponentiation","^",""),("OpLength","#","!"),("OpMultiplication","*",""),("OpDivision","/","/"),("OpFloorDivision","//",""),("OpModulo","%",""),("OpAddition","+",""),("Minus","-","-"),("OpConcatenation","..","."),("OpLeftShift","<<",""),("OpRightShift",">>",""),("OpBitwiseAnd","&",""),("Tilde","~","="),("OpBitwiseOr","|",""),("OpEquality","==",""),("OpInequality","~=",""),("OpLessThan","<","<="),("OpGreaterThan",">",">="),("OpLessOrEqual","<=",""),("OpGreaterOrEqual",">=",""),("Semicolon",";",""),("Comma",",",""),("Colon",":",":"),("Label","::",""),("EqualsSign","=","="),("Period",".",".0"),("OpenRoundBracket","(",""),("CloseRoundBracket",")",""),("OpenSquareBracket","[","[="),("CloseSquareBracket","]",""),("OpenCurlyBracket","{",""),("CloseCurlyBracket","}",""),("VarArg","...","")]
kw=dict(OpLogicalAnd="and",Break="break",Do="do",Else="else",ElseIf="elseif",End="end",False_="false",For="for",Function="function",GoTo="goto",If="if",In="in",Local="local",Nil="nil",OpLogicalNot="not",OpLogicalOr="or",Repeat="repeat",Return="return",Then="then",True_="true",Until="until",While="while")
o=[]
o.append("pub open spec fn tok(s: Seq<char>, l: int, t: Token, e: int) -> bool {\n    match t {")
for n,x,no in sym:
    c=["e == l + %d"%len(x)]
    if len(x)>1: c.append("e <= s.len()")
    for i,ch in enumerate(x): c.append("s[l + %d] == '%s'"%(i,ch))
    for ch in no:
        if ch=='0': c.append("!(e < s.len() && sp_digit(s[e]))")
        else: c.append("!(e < s.len() && s[e] == '%s')"%ch)
    o.append("        Token::%s => %s,"%(n," && ".join(c)))
o.append('''        Token::Variable(v) => word(s, l, e) && v@ == s.subrange(l, e) && !is_kw(v@),
        Token::Numeral(v) => numeral(s, l) == Some(e) && v@ =~= s.subrange(l, e),
        Token::NormalStringLiteral(v) => s[l] == '"' && sclose(s, l + 1, '"', e - 1) && v@ == s.subrange(l + 1, e - 1),
        Token::CharStringLiteral(v) => s[l] == '\\'' && sclose(s, l + 1, '\\'', e - 1) && v@ == s.subrange(l + 1, e - 1),
        Token::MultiLineStringLiteral(n, v) => lopen(s, l) == Some(n as int) && lclose(s, l + n + 2, n as int, e - n - 2) && v@ == s.subrange(l + n + 2, e - n - 2),
        Token::SheBang(v) => l + 1 < s.len() && s[l] == '#' && s[l + 1] == '!' && ({ let q = run_end(s, l + 2, LINE()); e == (if q < s.len() { q + 1 } else { q }) && v@ =~= s.subrange(l, q) }),
        Token::EOF => false,
        _ => word(s, l, e) && kw_of(s.subrange(l, e)) == Some(t),
    }
}''')
o.append("/// the keywords of Lua 5.3\npub open spec fn kw_of(x: Seq<char>) -> Option<Token> {")
first=True
for n,x in kw.items():
    o.append('    %sif x == "%s"@ { Some(Token::%s) }'%("" if first else "else ",x,n.rstrip('_'))); first=False
o.append("    else { None }\n}\npub open spec fn is_kw(x: Seq<char>) -> bool { kw_of(x) is Some }")
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/c06_tok.rs','w').write("// written by gen_tok.py\n"+"\n".join(o)+"\n")
