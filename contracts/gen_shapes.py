#!/usr/bin/env python3
# shapes.rs: the concrete syntax of every Lua construct, as the item sequence a writer must produce.
# one line per tree variant: quoted tokens, gK = gap K of the locs array, cN = child in field N, sN = operator
# text in field N, xN = text in field N, hN = gap in field N, hw etc.; lists are SEP(kind,N) and LIST(N)
T = r'''
BinaryOp c3 g0 s2 g1 c4
UnaryOp s2 g0 c3
UnaryNot 'not' g0 c2
Var c2 g0 c3
RoundBrackets '(' g0 c2 g1 ')'
ArgsRoundBrackets '(' g0 c2 g1 ')'
ArgsRoundBracketsEmpty '(' g0 ')'
Nil 'nil'
False 'false'
True 'true'
VarArg '...'
Break 'break'
Numeral x1
NormalStringLiteral q1
CharStringLiteral a1
MultiLineStringLiteral m
TableConstructor '{' g0 c2 g1 '}'
TableConstructorEmpty '{' g0 '}'
Fields SEP(fields,1)
FieldNamedBracket '[' g0 c2 g1 ']' g2 '=' g3 c3
FieldNamed c2 g0 '=' g1 c3
FieldSequential c1
TableIndex '[' g0 c2 g1 ']'
TableMember '.' g0 c2
ExpList SEP(comma,1)
NameList SEP(comma,1)
ParList SEP(comma,1)
VarList SEP(comma,1)
VarRoundSuffix '(' g0 c2 g1 ')' g2 c3
VarSuffixList LIST(1)
FnMethodCall ':' g0 c2 g1 c3
FunctionDef 'function' g0 c2
FuncBody '(' g0 ')' g1 'end'
FuncBodyB '(' g0 ')' g1 c2 g2 'end'
FuncPBody '(' g0 c2 g1 ')' g2 'end'
FuncPBodyB '(' g0 c2 g1 ')' g2 c3 g3 'end'
FuncName SEP(dot,1)
FuncNameSelf SEP(dot,2) g0 ':' g1 c3
FuncDecl 'function' g0 c2 g1 c3
LocalFuncDecl 'local' g0 'function' g1 c2 g2 c3
StatementList LIST(1)
DoEnd 'do' g0 'end'
DoBEnd 'do' g0 c2 g1 'end'
VarsExprs c2 g0 '=' g1 c3
Name x1
Label '::' g0 c2 g1 '::'
GoTo 'goto' g0 c2
WhileDo 'while' g0 c2 g1 'do' g2 'end'
WhileDoB 'while' g0 c2 g1 'do' g2 c3 g3 'end'
RepeatUntil 'repeat' g0 'until' g1 c2
RepeatBUntil 'repeat' g0 c2 g1 'until' g2 c3
ForInt 'for' g0 c2 g1 '=' g2 c3 g3 ',' g4 c4 g5 'do' g6 'end'
ForIntB 'for' g0 c2 g1 '=' g2 c3 g3 ',' g4 c4 g5 'do' g6 c5 g7 'end'
ForIntStep 'for' g0 c2 g1 '=' g2 c3 g3 ',' g4 c4 g5 ',' g6 c5 g7 'do' g8 'end'
ForIntStepB 'for' g0 c2 g1 '=' g2 c3 g3 ',' g4 c4 g5 ',' g6 c5 g7 'do' g8 c6 g9 'end'
ForRange 'for' g0 c2 g1 'in' g2 c3 g3 'do' g4 'end'
ForRangeB 'for' g0 c2 g1 'in' g2 c3 g3 'do' g4 c4 g5 'end'
LocalNames 'local' g0 c2
LocalNamesExprs 'local' g0 c2 g1 '=' g2 c3
IfThen 'if' g0 c2 g1 'then' g2 'end'
IfThenB 'if' g0 c2 g1 'then' g2 c3 g3 'end'
IfThenElse 'if' g0 c2 g1 'then' g2 'else' g3 'end'
IfThenBElse 'if' g0 c2 g1 'then' g2 c3 g3 'else' g4 'end'
IfThenElseB 'if' g0 c2 g1 'then' g2 'else' g3 c3 g4 'end'
IfThenBElseB 'if' g0 c2 g1 'then' g2 c3 g3 'else' g4 c4 g5 'end'
IfThenElseIf 'if' g0 c2 g1 'then' g2 c3 g3 'end'
IfThenBElseIf 'if' g0 c2 g1 'then' g2 c3 g3 c4 g4 'end'
IfThenElseIfElse 'if' g0 c2 g1 'then' g2 c3 g3 'else' g4 'end'
IfThenBElseIfElse 'if' g0 c2 g1 'then' g2 c3 g3 c4 g4 'else' g5 'end'
IfThenElseIfElseB 'if' g0 c2 g1 'then' g2 c3 g3 'else' g4 c4 g5 'end'
IfThenBElseIfElseB 'if' g0 c2 g1 'then' g2 c3 g3 c4 g4 'else' g5 c5 g6 'end'
ElseIfThenVec LIST(1)
ElseIfThen 'elseif' g0 c2 g1 'then'
ElseIfThenB 'elseif' g0 c2 g1 'then' g2 c3
RetStatNone 'return'
RetStatExpr 'return' g0 c2
RetStatNoneComma 'return' g0 ';'
RetStatExprComma 'return' g0 c2 g1 ';'
StatsRetStat c2 g0 c3
Chunk h0 c1 h2
SheBangChunk h0 c1 h2 c3 h4
Semicolon ';'
SheBang b1
'''
# number of fields of each variant (from the enum): read from the source so that patterns have the right arity
import re, sys
ARITY = {}
src = open('/repo/src/parser/lua_ast.rs').read()
enum = src[src.index('pub enum Node {'):]
enum = enum[:enum.index('\n}')]
for m in re.finditer(r'^\s+(\w+)\((.*)\),$', enum, re.M):
    d = 0; k = 1
    for ch in m.group(2):
        if ch in '([<': d += 1
        if ch in ')]>': d -= 1
        if ch == ',' and d == 0: k += 1
    ARITY[m.group(1)] = k
shapes = {}
for l in T.strip().split('\n'):
    w = l.split()
    shapes[w[0]] = w[1:]
assert set(shapes) == set(ARITY), (set(shapes) ^ set(ARITY))

def pat(v, used):
    n = ARITY[v]
    return 'Node::%s(%s)' % (v, ', '.join('a%d' % i if i in used else '_' for i in range(n)))
def used(sh):
    u = set()
    for e in sh:
        m = re.match(r'^([cshxqab])(\d)$', e)
        if m: u.add(int(m.group(2)))
        if re.match(r'^g\d$', e): u.add(1)
        m = re.match(r'^(SEP\(\w+,|LIST\()(\d)\)$', e)
        if m: u.add(int(m.group(2)))
        if e == 'm': u |= {1, 2}
    return u
def render(sh, P='P'):
    for e in sh:
        if e[0] == "'": P = 'push_t(%s, "%s"@)' % (P, e[1:-1])
        elif e[0] == 'g': P = 'gap(cx, %s, a1@[%s])' % (P, e[1:])
        elif e[0] == 'h': P = 'gap(cx, %s, a%s)' % (P, e[1:])
        elif e[0] == 'c': P = 'add(cx, %s, *a%s)' % (P, e[1:])
        elif e[0] == 's': P = 'push_t(%s, a%s.0@)' % (P, e[1:])
        elif e[0] == 'x': P = 'push_t(%s, a%s@)' % (P, e[1:])
        elif e[0] == 'q': P = 'push_t(%s, "\\""@ + a%s@ + "\\""@)' % (P, e[1:])
        elif e[0] == 'a': P = 'push_t(%s, "\'"@ + a%s@ + "\'"@)' % (P, e[1:])
        elif e[0] == 'b': P = 'push_t(%s, a%s@ + "\\n"@)' % (P, e[1:])
        elif e == 'm': P = 'push_t(%s, long_str(a1 as int, a2@))' % P
        elif e.startswith('SEP('):
            k, n = e[4:-1].split(',')
            P = 'add_seps(cx, %s, a%s, SepKind::%s)' % (P, n, k)
        elif e.startswith('LIST('): P = 'add_list(cx, %s, a%s, a%s@.len() as int)' % (P, e[5:-1], e[5:-1])
        else: raise Exception(e)
    return P

def hom(sh):
    """the steps of `add` once more, each with the lemma that moves it through `cat`"""
    L = ['let q = Q;']
    for e in sh:
        def tok(t): L.append('cat_push_t(P, q, %s); let q = push_t(q, %s);' % (t, t))
        if e[0] == "'": tok('"%s"@' % e[1:-1])
        elif e[0] in 'gh':
            l = ('a1@[%s]' if e[0] == 'g' else 'a%s') % e[1:]
            L.append('cat_gap(cx, P, q, %s); let q = gap(cx, q, %s);' % (l, l))
        elif e[0] == 'c': L.append('hom(cx, P, q, *a%s); let q = add(cx, q, *a%s);' % (e[1:], e[1:]))
        elif e[0] == 's': tok('a%s.0@' % e[1:])
        elif e[0] == 'x': tok('a%s@' % e[1:])
        elif e[0] == 'q': tok('"\\""@ + a%s@ + "\\""@' % e[1:])
        elif e[0] == 'a': tok('"\'"@ + a%s@ + "\'"@' % e[1:])
        elif e[0] == 'b': tok('a%s@ + "\\n"@' % e[1:])
        elif e == 'm': tok('long_str(a1 as int, a2@)')
        elif e.startswith('SEP('):
            k, n = e[4:-1].split(',')
            L.append('hom_seps(cx, P, q, a%s, SepKind::%s); let q = add_seps(cx, q, a%s, SepKind::%s);' % (n, k, n, k))
        elif e.startswith('LIST('):
            n = e[5:-1]
            L.append('hom_list(cx, P, q, a%s, a%s@.len() as int); let q = add_list(cx, q, a%s, a%s@.len() as int);' % (n, n, n, n))
        else: raise Exception(e)
    return ' '.join(L)

out = []
out.append('// generated by gen_shapes.py')
out.append('pub enum SepKind { fields, comma, dot }')
out.append('''pub open spec fn sep_of(cx: Cx, k: SepKind, own: Seq<char>) -> Seq<char> {
    match k { SepKind::fields => match cx.sep { Some(s) => s, None => own }, SepKind::comma => ","@, SepKind::dot => "."@ }
}
pub open spec fn add_seps(cx: Cx, P: Acc, v: Vec<(Loc, Node, Loc, String)>, k: SepKind) -> Acc decreases v, v@.len() + 1 {
    if v@.len() == 0 { P } else {
        let q = add_sep(cx, P, v, k, v@.len() as int);
        if k is fields { push_o(q, sep_of(cx, k, v@[v@.len() - 1].3@)) } else { q }
    }
}
pub open spec fn add_sep(cx: Cx, P: Acc, v: Vec<(Loc, Node, Loc, String)>, sk: SepKind, k: int) -> Acc decreases v, k {
    if k <= 0 || k > v@.len() { P } else {
        let q = if k == 1 { P } else { push_t(add_sep(cx, P, v, sk, k - 1), sep_of(cx, sk, v@[k - 2].3@)) };
        gap(cx, add(cx, gap(cx, q, v@[k - 1].0), v@[k - 1].1), v@[k - 1].2)
    }
}
pub open spec fn add_list(cx: Cx, P: Acc, v: Vec<(Loc, Node)>, k: int) -> Acc decreases v, k {
    if k <= 0 || k > v@.len() { P } else {
        add(cx, gap(cx, add_list(cx, P, v, k - 1), v@[k - 1].0), v@[k - 1].1)
    }
}
pub open spec fn long_str(level: int, s: Seq<char>) -> Seq<char> {
    "["@ + rep("="@, level) + "["@ + s + "]"@ + rep("="@, level) + "]"@
}''')
out.append('pub open spec fn add(cx: Cx, P: Acc, n: Node) -> Acc decreases n {\n    match n {')
for v, sh in shapes.items():
    out.append('        %s => %s,' % (pat(v, used(sh)), render(sh)))
out.append('    }\n}')
out.append('''// ---- writing after something else = writing, then appending
pub proof fn hom_seps(cx: Cx, P: Acc, Q: Acc, v: Vec<(Loc, Node, Loc, String)>, k: SepKind) ensures add_seps(cx, cat(P, Q), v, k) == cat(P, add_seps(cx, Q, v, k)) decreases v, v@.len() + 1 {
    if v@.len() > 0 {
        hom_sep(cx, P, Q, v, k, v@.len() as int);
        cat_push_o(P, add_sep(cx, Q, v, k, v@.len() as int), sep_of(cx, k, v@[v@.len() - 1].3@));
    }
}
pub proof fn hom_sep(cx: Cx, P: Acc, Q: Acc, v: Vec<(Loc, Node, Loc, String)>, sk: SepKind, k: int) ensures add_sep(cx, cat(P, Q), v, sk, k) == cat(P, add_sep(cx, Q, v, sk, k)) decreases v, k {
    if k <= 0 || k > v@.len() { } else {
        if k > 1 {
            hom_sep(cx, P, Q, v, sk, k - 1);
            cat_push_t(P, add_sep(cx, Q, v, sk, k - 1), sep_of(cx, sk, v@[k - 2].3@));
        }
        let q = if k == 1 { Q } else { push_t(add_sep(cx, Q, v, sk, k - 1), sep_of(cx, sk, v@[k - 2].3@)) };
        cat_gap(cx, P, q, v@[k - 1].0);
        let q = gap(cx, q, v@[k - 1].0);
        hom(cx, P, q, v@[k - 1].1);
        cat_gap(cx, P, add(cx, q, v@[k - 1].1), v@[k - 1].2);
    }
}
pub proof fn hom_list(cx: Cx, P: Acc, Q: Acc, v: Vec<(Loc, Node)>, k: int) ensures add_list(cx, cat(P, Q), v, k) == cat(P, add_list(cx, Q, v, k)) decreases v, k {
    if k <= 0 || k > v@.len() { } else {
        hom_list(cx, P, Q, v, k - 1);
        let q = add_list(cx, Q, v, k - 1);
        cat_gap(cx, P, q, v@[k - 1].0);
        hom(cx, P, gap(cx, q, v@[k - 1].0), v@[k - 1].1);
    }
}''')
out.append('pub proof fn hom(cx: Cx, P: Acc, Q: Acc, n: Node) ensures add(cx, cat(P, Q), n) == cat(P, add(cx, Q, n)) decreases n {\n    match n {')
for v, sh in shapes.items():
    out.append('        %s => { %s }' % (pat(v, used(sh)), hom(sh)))
out.append('    }\n}')
open(sys.argv[1] if len(sys.argv) > 1 else '/verif/contracts/shapes.rs', 'w').write('\n'.join(out) + '\n')
