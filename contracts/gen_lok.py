#!/usr/bin/env python3
"""gen_lok.py > lok.rs: every position a tree names lies inside the text; with wf: lokwf.rs (wf gives it, the pass over the tree keeps it)"""
import re, sys
src = open('/repo/src/parser/lua_ast.rs').read()
body = src[src.index('pub enum Node {'):]
body = body[:body.index('\n}')]
cl, step, per, disp, sper, sdisp = [], [], [], [], [], []
for m in re.finditer(r'^    (\w+)\((.*)\),$', body, re.M):
    name, args = m.group(1), m.group(2)
    fs, d, cur = [], 0, ''
    for c in args:
        if c in '(<[': d += 1
        if c in ')>]': d -= 1
        if c == ',' and d == 0: fs.append(cur.strip()); cur = ''
        else: cur += c
    fs.append(cur.strip())
    A = ', '.join('a%d' % i for i in range(len(fs))); B = ', '.join('b%d' % i for i in range(len(fs)))
    c, s, w, p = [], [], [], []
    for i, t in enumerate(fs):
        if t == 'Loc': x = 'lvalid(a%d, s)' % i; c.append(x); s.append(x)
        elif re.match(r'\[Loc; \d+\]$', t):
            for j in range(int(t[6:-1])): x = 'lvalid(a%d@[%d], s)' % (i, j); c.append(x); s.append(x)
        elif t == 'Box<Node>': x = 'lok(*a%d, s)' % i; c.append(x); s.append(x); w.append('wf_lok(*a%d, s); wf_sub(*a%d, s);' % (i, i)); p.append('same_lok(*a%d, *b%d, s, c);' % (i, i))
        elif t.startswith('Vec<(Loc, Node, '):
            c.append('lok4(a%d, a%d@.len() as int, s)' % (i, i)); s.append('forall|i: int| 0 <= i < a%d@.len() ==> lvalid((#[trigger] a%d@[i]).0, s) && lok(a%d@[i].1, s) && lvalid(a%d@[i].2, s)' % (i, i, i, i))
            w.append('wl4(a%d, s, SepKind::%s, a%d@.len() as int, a0.0 as int);' % (i, 'fields' if name == 'Fields' else 'dot' if name.startswith('FuncName') else 'comma', i)); p.append('assert(same4(a%d@, b%d@, c)); sl4(a%d, b%d, s, a%d@.len() as int, c);' % (i, i, i, i, i))
        elif t == 'Vec<(Loc, Node)>':
            c.append('lok2(a%d, a%d@.len() as int, s)' % (i, i)); s.append('forall|i: int| 0 <= i < a%d@.len() ==> lvalid((#[trigger] a%d@[i]).0, s) && lok(a%d@[i].1, s)' % (i, i, i))
            w.append('wl2(a%d, s, a%d@.len() as int, a0.0 as int);' % (i, i)); p.append('assert(same2(a%d@, b%d@, c)); sl2(a%d, b%d, s, a%d@.len() as int, c);' % (i, i, i, i, i))
    cl.append('        Node::%s(%s) => %s,' % (name, A, ' && '.join(c)))
    step.append('        Node::%s(%s) => %s,' % (name, A, ' && '.join('(%s)' % x for x in s)))
    disp.append('        Node::%s(%s) => wl_%s(n, s),' % (name, ', '.join('_' for _ in fs), name))
    sdisp.append('        Node::%s(%s) => sl_%s(a, b, s, c),' % (name, ', '.join('_' for _ in fs), name))
    per.append('pub proof fn wl_%s(n: Node, s: Seq<char>) requires n is %s, wf(n, s) ensures lok(n, s) decreases n, 0int\n{ hide(wf); wf_sub(n, s); if let Node::%s(%s) = n { w_%s(%s, s); %s } }' % (name, name, name, A, name, A, ' '.join(w)))
    sper.append('pub proof fn sl_%s(a: Node, b: Node, s: Seq<char>, c: bool) requires a is %s, lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 0int\n{ if let Node::%s(%s) = a { if let Node::%s(%s) = b { %s } } }' % (name, name, name, A, name, B, ' '.join(p)))
if len(sys.argv) < 2:
    print('''// generated by gen_lok.py from enum Node
/// every position the tree names lies inside the text
pub open spec fn lok(n: Node, s: Seq<char>) -> bool decreases n, 0int {
    match n {
%s
    }
}
pub open spec fn lok4(v: Vec<(Loc, Node, Loc, String)>, k: int, s: Seq<char>) -> bool decreases v, k { if k <= 0 || k > v@.len() { true } else { lok4(v, k - 1, s) && lvalid(v@[k - 1].0, s) && lok(v@[k - 1].1, s) && lvalid(v@[k - 1].2, s) } }
pub open spec fn lok2(v: Vec<(Loc, Node)>, k: int, s: Seq<char>) -> bool decreases v, k { if k <= 0 || k > v@.len() { true } else { lok2(v, k - 1, s) && lvalid(v@[k - 1].0, s) && lok(v@[k - 1].1, s) } }
pub proof fn lok4_get(v: Vec<(Loc, Node, Loc, String)>, k: int, s: Seq<char>) requires lok4(v, k, s), k <= v@.len() ensures forall|i: int| 0 <= i < k ==> lvalid((#[trigger] v@[i]).0, s) && lok(v@[i].1, s) && lvalid(v@[i].2, s) decreases k
{ if k > 0 { lok4_get(v, k - 1, s); } }
pub proof fn lok2_get(v: Vec<(Loc, Node)>, k: int, s: Seq<char>) requires lok2(v, k, s), k <= v@.len() ensures forall|i: int| 0 <= i < k ==> lvalid((#[trigger] v@[i]).0, s) && lok(v@[i].1, s) decreases k
{ if k > 0 { lok2_get(v, k - 1, s); } }
pub open spec fn lstep(n: Node, s: Seq<char>) -> bool {
    match n {
%s
    }
}
pub proof fn lok_step(n: Node, s: Seq<char>) requires lok(n, s) ensures lstep(n, s)
{ match n {
    Node::ExpList(_, v) | Node::NameList(_, v) | Node::VarList(_, v) | Node::ParList(_, v) | Node::FuncName(_, v) | Node::FuncNameSelf(_, _, v, _) | Node::Fields(_, v, _) => lok4_get(v, v@.len() as int, s),
    Node::VarSuffixList(_, v) | Node::ElseIfThenVec(_, v) | Node::StatementList(_, v) => lok2_get(v, v@.len() as int, s),
    _ => {} } }''' % ('\n'.join(cl), '\n'.join(step)))
else:
    print('''// generated by gen_lok.py from enum Node
pub proof fn wl4(v: Vec<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, k: int, a: int) requires 0 <= k <= v@.len(), wf_sep(v, s, kd, k, a) ensures lok4(v, k, s) decreases v, k
{ if k > 0 { wl4(v, s, kd, k - 1, a); wf_lok(v@[k - 1].1, s); wf_sub(v@[k - 1].1, s); } }
pub proof fn wl2(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int) requires 0 <= k <= v@.len(), wf_list(v, s, k, a) ensures lok2(v, k, s) decreases v, k
{ if k > 0 { wl2(v, s, k - 1, a); wf_lok(v@[k - 1].1, s); wf_sub(v@[k - 1].1, s); } }
pub proof fn wf_lok(n: Node, s: Seq<char>) requires wf(n, s) ensures lok(n, s) decreases n, 1int
{
    match n {
%s
    }
}
pub proof fn sl4(v: Vec<(Loc, Node, Loc, String)>, w: Vec<(Loc, Node, Loc, String)>, s: Seq<char>, k: int, c: bool) requires 0 <= k <= v@.len(), lok4(v, k, s), same4(v@, w@, c) ensures lok4(w, k, s) decreases v, k
{ if k > 0 { sl4(v, w, s, k - 1, c); assert(w@[k - 1].0 == v@[k - 1].0 && w@[k - 1].2 == v@[k - 1].2); same_lok(v@[k - 1].1, w@[k - 1].1, s, c); } }
pub proof fn sl2(v: Vec<(Loc, Node)>, w: Vec<(Loc, Node)>, s: Seq<char>, k: int, c: bool) requires 0 <= k <= v@.len(), lok2(v, k, s), same2(v@, w@, c) ensures lok2(w, k, s) decreases v, k
{ if k > 0 { sl2(v, w, s, k - 1, c); assert(w@[k - 1].0 == v@[k - 1].0); same_lok(v@[k - 1].1, w@[k - 1].1, s, c); } }
pub proof fn same_lok(a: Node, b: Node, s: Seq<char>, c: bool) requires lok(a, s), same(a, b, c) ensures lok(b, s) decreases a, 1int
{
    match a {
%s
    }
}''' % ('\n'.join(disp), '\n'.join(sdisp)))
    for nm, q in (('wl', per), ('slm', sper)):
        for k in range(0, len(q), 11): print('pub mod %s%d { use super::*;\n%s\n}\npub use %s%d::*;' % (nm, k // 11, '\n'.join(q[k:k + 11]), nm, k // 11))
