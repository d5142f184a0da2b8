#!/usr/bin/env python3
"""gen_nest.py > nest.rs: the parts of a construct lie inside it"""
import re, sys
src = open(sys.argv[1] if len(sys.argv) > 1 else '/repo/src/parser/lua_ast.rs').read()
body = src[src.index('pub enum Node {'):]
body = body[:body.index('\n}')]
cl, step, per, disp = [], [], [], []
for m in re.finditer(r'^    (\w+)\((.*)\),$', body, re.M):
    name, args = m.group(1), m.group(2)
    fs, d, cur = [], 0, ''
    for c in args:
        if c in '(<[': d += 1
        if c in ')>]': d -= 1
        if c == ',' and d == 0: fs.append(cur.strip()); cur = ''
        else: cur += c
    fs.append(cur.strip())
    A = ', '.join('a%d' % i for i in range(len(fs)))
    c, s, w = ['sp(n).0 <= sp(n).1', 'inn((a0.0 as int, a0.1 as int), sp(n))'], ['sp(n).0 <= sp(n).1', 'inn((a0.0 as int, a0.1 as int), sp(n))'], []
    for i, t in enumerate(fs):
        if t == 'Box<Node>': x = 'nest(*a%d) && inn(sp(*a%d), sp(n))' % (i, i); c.append(x); s.append(x); w.append('wf_nest(*a%d, s); wf_sub(*a%d, s);' % (i, i))
        elif t.startswith('Vec<(Loc, Node, '): c.append('nest4(a%d, a%d@.len() as int, sp(n))' % (i, i)); s.append('forall|i: int| 0 <= i < a%d@.len() ==> nest((#[trigger] a%d@[i]).1) && inn(sp(a%d@[i].1), sp(n))' % (i, i, i)); w.append('wfn4(a%d, s, SepKind::%s, a%d@.len() as int, a0.0 as int, sp(n).1);' % (i, 'fields' if name == 'Fields' else 'dot' if name.startswith('FuncName') else 'comma', i))
        elif t == 'Vec<(Loc, Node)>': c.append('nest2(a%d, a%d@.len() as int, sp(n))' % (i, i)); s.append('forall|i: int| 0 <= i < a%d@.len() ==> nest((#[trigger] a%d@[i]).1) && inn(sp(a%d@[i].1), sp(n))' % (i, i, i)); w.append('wfn2(a%d, s, a%d@.len() as int, a0.0 as int, sp(n).1);' % (i, i))
    cl.append('        Node::%s(%s) => %s,' % (name, A, ' && '.join(c)))
    step.append('        Node::%s(%s) => %s,' % (name, A, ' && '.join('(%s)' % x for x in s)))
    disp.append('        Node::%s(%s) => wn_%s(n, s),' % (name, ', '.join('_' for _ in fs), name))
    per.append('pub proof fn wn_%s(n: Node, s: Seq<char>) requires n is %s, wf(n, s) ensures nest(n) decreases n, 0int\n{ hide(wf); if let Node::%s(%s) = n { w_%s(%s, s); wf_sub(n, s); %s } }' % (name, name, name, A, name, A, ' '.join(sorted(w))))
print('''// generated by gen_nest.py from enum Node
pub open spec fn inn(p: (int, int), q: (int, int)) -> bool { q.0 <= p.0 <= p.1 <= q.1 }
/// the parts of a construct lie inside it
pub open spec fn nest(n: Node) -> bool decreases n, 0int {
    match n {
%s
    }
}
pub open spec fn nest4(v: Vec<(Loc, Node, Loc, String)>, k: int, l: (int, int)) -> bool decreases v, k { if k <= 0 || k > v@.len() { true } else { nest4(v, k - 1, l) && nest(v@[k - 1].1) && inn(sp(v@[k - 1].1), l) } }
pub open spec fn nest2(v: Vec<(Loc, Node)>, k: int, l: (int, int)) -> bool decreases v, k { if k <= 0 || k > v@.len() { true } else { nest2(v, k - 1, l) && nest(v@[k - 1].1) && inn(sp(v@[k - 1].1), l) } }
pub proof fn nest4_get(v: Vec<(Loc, Node, Loc, String)>, k: int, l: (int, int)) requires nest4(v, k, l), k <= v@.len() ensures forall|i: int| 0 <= i < k ==> nest((#[trigger] v@[i]).1) && inn(sp(v@[i].1), l) decreases k
{ if k > 0 { nest4_get(v, k - 1, l); } }
pub proof fn nest2_get(v: Vec<(Loc, Node)>, k: int, l: (int, int)) requires nest2(v, k, l), k <= v@.len() ensures forall|i: int| 0 <= i < k ==> nest((#[trigger] v@[i]).1) && inn(sp(v@[i].1), l) decreases k
{ if k > 0 { nest2_get(v, k - 1, l); } }
pub proof fn nest4_put(v: Vec<(Loc, Node, Loc, String)>, k: int, l: (int, int)) requires k <= v@.len(), forall|i: int| 0 <= i < k ==> nest((#[trigger] v@[i]).1) && inn(sp(v@[i].1), l) ensures nest4(v, k, l) decreases k
{ if k > 0 { nest4_put(v, k - 1, l); } }
pub open spec fn nstep(n: Node) -> bool {
    match n {
%s
    }
}
pub proof fn nest_step(n: Node) requires nest(n) ensures nstep(n)
{ match n {
    Node::ExpList(_, v) | Node::NameList(_, v) | Node::VarList(_, v) | Node::ParList(_, v) | Node::FuncName(_, v) | Node::FuncNameSelf(_, _, v, _) | Node::Fields(_, v, _) => nest4_get(v, v@.len() as int, sp(n)),
    Node::VarSuffixList(_, v) | Node::ElseIfThenVec(_, v) | Node::StatementList(_, v) => nest2_get(v, v@.len() as int, sp(n)),
    _ => {} } }
pub proof fn wf_sub(n: Node, s: Seq<char>) requires wf(n, s) ensures 0 <= sp(n).0 <= sp(n).1 <= s.len() decreases n
{ match n { Node::Chunk(a0, a1, a2) => { w_Chunk(a0, a1, a2, s); wf_sub(*a1, s); } Node::SheBangChunk(a0, a1, a2, a3, a4) => { w_SheBangChunk(a0, a1, a2, a3, a4, s); wf_sub(*a1, s); wf_sub(*a3, s); } _ => {} } }
pub proof fn wfn4(v: Vec<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, k: int, a: int, e: int) requires 0 <= k <= v@.len(), wf_sep(v, s, kd, k, a), a <= e, send(v@, k, a) <= e ensures nest4(v, k, (a, e)), a <= send(v@, k, a) decreases v, k
{ if k > 0 { wf_nest(v@[k - 1].1, s); wf_sub(v@[k - 1].1, s); wfn4(v, s, kd, k - 1, a, e); } }
pub proof fn wfn2(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int, e: int) requires 0 <= k <= v@.len(), wf_list(v, s, k, a), a <= e, lend(v@, k, a) <= e ensures nest2(v, k, (a, e)), a <= lend(v@, k, a) decreases v, k
{ if k > 0 { wf_nest(v@[k - 1].1, s); wf_sub(v@[k - 1].1, s); wfn2(v, s, k - 1, a, e); } }
pub proof fn wf_nest(n: Node, s: Seq<char>) requires wf(n, s) ensures nest(n) decreases n, 1int
{
    match n {
%s
    }
}''' % ('\n'.join(cl), '\n'.join(step), '\n'.join(disp)))
for k in range(0, len(per), 11): print('pub mod wn%d { use super::*;\n%s\n}\npub use wn%d::*;' % (k // 11, '\n'.join(per[k:k + 11]), k // 11))
