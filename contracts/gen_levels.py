#!/usr/bin/env python3
# levels.rs: at which indentation level each construct may break lines.  One line per tree variant: the fields of the
# variant (gK = gap K of the locs array, hN = gap in field N, cN = child in field N, SEP(N), LIST(N)) that do not stand
# at the level of the construct itself: +1 one level deeper, ? the same level or one deeper (a choice the formatter may
# make), b one level deeper unless the same operator chain is already indented
import re, sys
sys.argv = [sys.argv[0], '/dev/null'] + sys.argv[1:]
exec(open(__file__.replace('gen_levels', 'gen_shapes')).read())
L = r'''
BinaryOp c3=b g0=b g1=b c4=b
Var g0=? c3=?
ArgsRoundBrackets g0=? c2=?
TableConstructor g0=? c2=?
VarRoundSuffix g2=? c3=?
FuncBodyB g1=+1 c2=+1
FuncPBody g0=+1 c2=+1 g1=+1
FuncPBodyB g0=+1 c2=+1 g1=+1 g2=+1 c3=+1
DoBEnd g0=+1 c2=+1
VarsExprs g1=? c3=?
WhileDoB g2=+1 c3=+1
RepeatBUntil g0=+1 c2=+1
ForIntB g6=+1 c5=+1
ForIntStepB g8=+1 c6=+1
ForRange g2=? c3=?
ForRangeB g2=? c3=? g4=+1 c4=+1
LocalNamesExprs g2=? c3=?
IfThenB g2=+1 c3=+1
IfThenBElse g2=+1 c3=+1
IfThenElseB g3=+1 c3=+1
IfThenBElseB g2=+1 c3=+1 g4=+1 c4=+1
IfThenBElseIf g2=+1 c3=+1
IfThenBElseIfElse g2=+1 c3=+1
IfThenElseIfElseB g4=+1 c4=+1
IfThenBElseIfElseB g2=+1 c3=+1 g5=+1 c5=+1
ElseIfThenB g2=+1 c3=+1
RetStatExpr g0=? c2=?
RetStatExprComma g0=? c2=? g1=?
'''
off = {}
for l in L.strip().split('\n'):
    w = l.split()
    off[w[0]] = dict(x.split('=') for x in w[1:])
    assert set(off[w[0]]) <= set(shapes[w[0]]), w
o = ['// generated by gen_levels.py']
o.append('''pub open spec fn lv_sep(v: Vec<(Loc, Node, Loc, String)>, k: int, l: int, t: Lab, e: Ev) -> bool decreases v, k {
    if k <= 0 || k > v@.len() { false } else { lv_sep(v, k - 1, l, t, e) || lv_gap(v@[k - 1].0, l, e) || lv(v@[k - 1].1, l, t, e) || lv_gap(v@[k - 1].2, l, e) }
}
pub open spec fn lv_list(v: Vec<(Loc, Node)>, k: int, l: int, t: Lab, e: Ev) -> bool decreases v, k {
    if k <= 0 || k > v@.len() { false } else { lv_list(v, k - 1, l, t, e) || lv_gap(v@[k - 1].0, l, e) || lv(v@[k - 1].1, l, t, e) }
}
pub open spec fn lv(n: Node, l: int, t: Lab, e: Ev) -> bool decreases n {
    match n {''')
for v, sh in shapes.items():
    T = []
    for x in sh:
        k = off.get(v, {}).get(x)
        def at(l, t):
            if x[0] == 'g': return 'lv_gap(a1@[%s], %s, e)' % (x[1:], l)
            if x[0] == 'h': return 'lv_gap(a%s, %s, e)' % (x[1:], l)
            if x[0] == 'c': return 'lv(*a%s, %s, %s, e)' % (x[1:], l, t)
            if x.startswith('SEP('): return 'lv_sep(a%s, a%s@.len() as int, %s, %s, e)' % (x[4:-1].split(',')[1], x[4:-1].split(',')[1], l, t)
            if x.startswith('LIST('): return 'lv_list(a%s, a%s@.len() as int, %s, %s, e)' % (x[5:-1], x[5:-1], l, t)
            return None
        if at('', '') is None: continue
        if k is None or k == '?': T.append(at('l', 't'))
        if k in ('+1', '?'): T.append(at('l + 1', 'inner()'))
        if k == 'b': T.append(at('lv_op(l, t, a2.0@)', 'Some(Some(a2.0@))'))
    if v == 'TableConstructor': T.append('lv_gap(Loc(0, 0), l, e)')
    u = used([x for x in sh if x[0] in 'ghcSL']) | ({2} if v == 'BinaryOp' else set())
    o.append('        %s => %s,' % (pat(v, u), ' || '.join(T) if T else 'false'))
o.append('    }\n}')
open(__file__.replace('gen_levels.py', 'levels.rs'), 'w').write('\n'.join(o) + '\n')
