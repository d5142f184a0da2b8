#!/usr/bin/env python3
"""gen_adj.py > adj.rs: which character may stand directly in front of a construct (starts), and the shape of trees that the writers rely on (sh)"""
import re
src = open('/repo/src/parser/lua_ast.rs').read()
body = src[src.index('pub enum Node {'):]
body = body[:body.index('\n}')]
OPN = 'ArgsRoundBrackets ArgsRoundBracketsEmpty TableConstructor TableConstructorEmpty TableMember FnMethodCall NormalStringLiteral CharStringLiteral FuncBody FuncBodyB FuncPBody FuncPBodyB RoundBrackets VarRoundSuffix Label Semicolon SheBang'.split()
BR = 'TableIndex FieldNamedBracket MultiLineStringLiteral'.split()
FIRST = {'BinaryOp': 3, 'VarsExprs': 2, 'FieldNamed': 2, 'FieldSequential': 1, 'Var': 2, 'StatsRetStat': 2, 'Chunk': 1, 'SheBangChunk': 1}
MAYE = 'StatementList VarSuffixList ElseIfThenVec Chunk SheBangChunk'.split()
EXTRA = {
    'UnaryOp': 'optok(a2.0@) && !maye(*a3) && starts(*a3, a2.0@.last())', 'BinaryOp': 'optok(a2.0@)',
    'Var': 'starts(*a2, \'[\') && !maye(*a2) && vs(*a3)', 'TableIndex': 'ex(*a2)', 'FieldNamedBracket': 'ex(*a2)', 'FieldSequential': '!maye(*a1)',
    'FnMethodCall': '!maye(*a2) && opn(*a3)', 'FunctionDef': 'opn(*a2)', 'FuncDecl': '!maye(*a2) && opn(*a3)', 'LocalFuncDecl': '!maye(*a2) && opn(*a3)',
    'VarSuffixList': '(a1@.len() > 0 ==> opn(a1@[0].1))', 'Name': 'txt(a1@)', 'Numeral': 'txt(a1@)', 'TableMember': 'true', 'SheBangChunk': '*a1 is SheBang',
}
st, sh, step, ops, brs = [], [], [], [], []
maye, exl = [], []
for m in re.finditer(r'^    (\w+)\((.*)\),$', body, re.M):
    name, args = m.group(1), m.group(2)
    fs, d, cur = [], 0, ''
    for c in args:
        if c in '(<[': d += 1
        if c in ')>]': d -= 1
        if c == ',' and d == 0: fs.append(cur.strip()); cur = ''
        else: cur += c
    fs.append(cur.strip())
    A = ', '.join('a%d' % i for i in range(len(fs)))
    W = lambda k: 'Node::%s(%s)' % (name, ', '.join('a%d' % i if i == k else '_' for i in range(len(fs))))
    V = [i for i, t in enumerate(fs) if t.startswith('Vec<')]
    if name in OPN: st.append('        %s => true,' % W(-1))
    elif name in BR: st.append('        %s => a != \'[\',' % W(-1))
    elif name in FIRST: st.append('        %s => starts(*a%d, a),' % (W(FIRST[name]), FIRST[name]))
    elif V: st.append('        %s => if a%d@.len() > 0 { starts(a%d@[0].1, a) } else { true },' % (W(V[0]), V[0], V[0]))
    if name in ('BinaryOp',): exl.append('        %s => ex(*a%d),' % (W(3), 3))
    elif name == 'MultiLineStringLiteral': pass
    elif (name in FIRST and name != 'Var') or V or name in BR: exl.append('        %s => false,' % W(-1))
    c, s = [], []
    if name in EXTRA: c.append(EXTRA[name]); s.append(EXTRA[name])
    for i, t in enumerate(fs):
        if t == 'Box<Node>': x = 'sh(*a%d)' % i; c.append(x); s.append(x)
        elif t.startswith('Vec<(Loc, Node, '):
            x = 'a%d@.len() > 0' % i; c.append(x); s.append(x)
            c.append('sh4(a%d, a%d@.len() as int)' % (i, i)); s.append('forall|i: int| 0 <= i < a%d@.len() ==> sh((#[trigger] a%d@[i]).1) && !maye(a%d@[i].1) && (a%d@[i].3@.len() > 0 ==> sept(a%d@[i].3@)) && (i < a%d@.len() - 1 ==> a%d@[i].3@.len() > 0)' % ((i,) * 7))
        elif t == 'Vec<(Loc, Node)>':
            c.append('sh2(a%d, a%d@.len() as int)' % (i, i)); s.append('forall|i: int| 0 <= i < a%d@.len() ==> sh((#[trigger] a%d@[i]).1) && !maye(a%d@[i].1)' % (i, i, i))
    if c:
        sh.append('        Node::%s(%s) => %s,' % (name, A, ' && '.join(c)))
        step.append('        Node::%s(%s) => %s,' % (name, A, ' && '.join('(%s)' % x for x in s)))
print('// generated by gen_adj.py from enum Node')
print('/// may the character a stand directly in front of the construct\npub open spec fn starts(n: Node, a: char) -> bool decreases n {\n    match n {')
print('\n'.join(st)); print("        Node::UnaryOp(..) => !word(a) && a != '-',\n        _ => !word(a),\n    }\n}")
print('/// constructs that start with a bracket, a quote or another sign that no word runs into\npub open spec fn opn(n: Node) -> bool {\n    match n { %s => true, _ => false }\n}' % ' | '.join('Node::%s(..)' % x for x in OPN + ['TableIndex', 'MultiLineStringLiteral']))
print('/// empty lists, and chunks: they may write nothing\npub open spec fn maye(n: Node) -> bool { match n { Node::StatementList(_, v) => v@.len() == 0, %s => true, _ => false } }' % ' | '.join('Node::%s(..)' % x for x in MAYE if x != 'StatementList'))
print('/// an expression\npub open spec fn ex(n: Node) -> bool decreases n {\n    match n {')
print('\n'.join(exl)); print('        _ => true,\n    }\n}')
print('''/// a tree of the grammar's shape, as far as it matters here
pub open spec fn sh(n: Node) -> bool decreases n, 0int {
    match n {''')
print('\n'.join(sh)); print('        _ => true,\n    }\n}')
print('''pub open spec fn sh2(v: Vec<(Loc, Node)>, k: int) -> bool decreases v, k { if k <= 0 || k > v@.len() { true } else { sh2(v, k - 1) && sh(v@[k - 1].1) && !maye(v@[k - 1].1) } }
pub open spec fn sh4(v: Vec<(Loc, Node, Loc, String)>, k: int) -> bool decreases v, k { if k <= 0 || k > v@.len() { true } else { sh4(v, k - 1) && sh(v@[k - 1].1) && !maye(v@[k - 1].1) && (v@[k - 1].3@.len() > 0 ==> sept(v@[k - 1].3@)) && (k - 1 < v@.len() - 1 ==> v@[k - 1].3@.len() > 0) } }
pub proof fn sh2_at(v: Vec<(Loc, Node)>, k: int) requires sh2(v, k), k <= v@.len() ensures forall|i: int| 0 <= i < k ==> sh((#[trigger] v@[i]).1) && !maye(v@[i].1) decreases k { if k > 0 { sh2_at(v, k - 1); } }
pub proof fn sh4_at(v: Vec<(Loc, Node, Loc, String)>, k: int) requires sh4(v, k), k <= v@.len()
    ensures forall|i: int| 0 <= i < k ==> sh((#[trigger] v@[i]).1) && !maye(v@[i].1) && (v@[i].3@.len() > 0 ==> sept(v@[i].3@)) && (i < v@.len() - 1 ==> v@[i].3@.len() > 0) decreases k { if k > 0 { sh4_at(v, k - 1); } }
pub open spec fn shs(n: Node) -> bool {
    match n {''')
print('\n'.join(step)); print('        _ => true,\n    }\n}')
print('pub proof fn sh_step(n: Node) requires sh(n) ensures shs(n)\n{\n    match n {')
for l in step:
    h = l.strip().split(' => ')[0]
    m4 = re.search(r'forall\|i: int\| 0 <= i < (a\d)@', l)
    if m4: print('        %s => { %s(%s, %s@.len() as int); },' % (h, 'sh4_at' if '.3@' in l else 'sh2_at', m4.group(1), m4.group(1)))
print('        _ => {},\n    }\n}')
print('''/// no construct starts with a word character, a dash or a bracket that a closed character could run into
pub proof fn starts_any(n: Node, a: char) requires closed(a) ensures starts(n, a) decreases n
{
    match n {''')
for l in st:
    h, r = l.strip().rstrip(',').split(' => ', 1)
    mm = re.match(r'starts\(\*(a\d), a\)', r)
    if mm: print('        %s => starts_any(*%s, a),' % (h, mm.group(1)))
    mm = re.match(r'if (a\d)@', r)
    if mm: print('        %s => if %s@.len() > 0 { starts_any(%s@[0].1, a); },' % (h, mm.group(1), mm.group(1)))
print('        _ => {},\n    }\n}')
