#!/usr/bin/env python3
"""gen_same_wf.py > same_wf.rs: the pass over the tree keeps what the tree says about the text (no quote conversion)"""
import re, sys
src = open(sys.argv[1] if len(sys.argv) > 1 else '/repo/src/parser/lua_ast.rs').read()
body = src[src.index('pub enum Node {'):]
body = body[:body.index('\n}')]
wf = open(__file__.replace('gen_same_wf.py', 'wf.rs')).read()
out, per = [], []
for m in re.finditer(r'^    (\w+)\((.*)\),$', body, re.M):
    name, args = m.group(1), m.group(2)
    fs, d, cur = [], 0, ''
    for c in args:
        if c in '(<[': d += 1
        if c in ')>]': d -= 1
        if c == ',' and d == 0: fs.append(cur.strip()); cur = ''
        else: cur += c
    fs.append(cur.strip())
    A = ', '.join('a%d' % i for i in range(len(fs))); B = ', '.join('b%d' % i for i in range(len(fs)))
    st = []
    for i, t in enumerate(fs):
        if t == 'Box<Node>': st.append('same_wf(*a%d, *b%d, s);' % (i, i))
        elif t.startswith('Vec<(Loc, Node, '): st.append('assert(a0 == b0 && same4(a%d@, b%d@, false)); same_seps(a%d, b%d, s, SepKind::KIND, a%d@.len() as int, (a0.0 as int)); same_send(a%d@, b%d@, a%d@.len() as int, (a0.0 as int)); assert(wf_seps(b%d, s, SepKind::KIND, (b0.0 as int))); assert(send(b%d@, b%d@.len() as int, (b0.0 as int)) == send(a%d@, a%d@.len() as int, (a0.0 as int)));' % ((i,) * 13)); st[-1] = st[-1].replace('KIND', 'fields' if name == 'Fields' else 'dot' if name.startswith('FuncName') else 'comma')
        elif t == 'Vec<(Loc, Node)>': st.append('assert(a%d == b%d && same2(a%d@, b%d@, false)); same_list(a%d, b%d, s, a%d@.len() as int, a0.0 as int); same_lend(a%d@, b%d@, s, a%d@.len() as int, a0.0 as int); assert(wf_list(b%d, s, b%d@.len() as int, b0.0 as int)); assert(lend(b%d@, b%d@.len() as int, b0.0 as int) == b0.1);' % (0, 0, i, i, i, i, i, i, i, i, i, i, i, i))
    wd = 'w_%s(%s, s); w_%s(%s, s); ' % (name, A, name, B)
    out.append('        Node::%s(%s) => sw_%s(a, b, s),' % (name, ', '.join('_' for _ in fs), name))
    per.append('proof fn sw_%s(a: Node, b: Node, s: Seq<char>) requires a is %s, wf(a, s), same(a, b, false) ensures wf(b, s) decreases a, 0int\n{ hide(wf); hide(sp); if let Node::%s(%s) = a { if let Node::%s(%s) = b { %s%s } } }' % (name, name, name, A, name, B, wd, ' '.join(st)))
print('''// generated by gen_same_wf.py from enum Node
pub proof fn same_send(v: Seq<(Loc, Node, Loc, String)>, w: Seq<(Loc, Node, Loc, String)>, k: int, a: int) requires same4(v, w, false), k <= v.len() ensures send(w, k, a) == send(v, k, a)
{ if k > 0 { assert(w[k - 1].2 == v[k - 1].2); } }
pub proof fn same_lend(v: Seq<(Loc, Node)>, w: Seq<(Loc, Node)>, s: Seq<char>, k: int, a: int) requires same2(v, w, false), k <= v.len() ensures lend(w, k, a) == lend(v, k, a)
{ if k > 0 { assert(w[k - 1].0 == v[k - 1].0); same_sp(v[k - 1].1, w[k - 1].1); } }
pub proof fn same_sp(a: Node, b: Node) requires same(a, b, false) ensures sp(b) == sp(a), (b is Fields) == (a is Fields) { }
pub proof fn same_seps(v: Vec<(Loc, Node, Loc, String)>, w: Vec<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, k: int, a: int) requires same4(v@, w@, false), wf_sep(v, s, kd, k, a), k <= v@.len() ensures wf_sep(w, s, kd, k, a) decreases v, k + 2
{ if k > 0 { assert(w@[k - 1].0 == v@[k - 1].0); same_seps(v, w, s, kd, k - 1, a); same_send(v@, w@, k - 1, a); same_sp(v@[k - 1].1, w@[k - 1].1); same_wf(v@[k - 1].1, w@[k - 1].1, s); } }
pub proof fn same_list(v: Vec<(Loc, Node)>, w: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int) requires same2(v@, w@, false), wf_list(v, s, k, a), k <= v@.len() ensures wf_list(w, s, k, a) decreases v, k + 2
{ if k > 0 { assert(w@[k - 1].0 == v@[k - 1].0); same_list(v, w, s, k - 1, a); same_lend(v@, w@, s, k - 1, a); same_sp(v@[k - 1].1, w@[k - 1].1); same_wf(v@[k - 1].1, w@[k - 1].1, s); } }
pub proof fn same_wf(a: Node, b: Node, s: Seq<char>) requires wf(a, s), same(a, b, false) ensures wf(b, s), sp(b) == sp(a), (b is Fields) == (a is Fields) decreases a, 1int
{
    same_sp(a, b);
    match a {
%s
    }
}''' % '\n'.join(out))
for k in range(0, len(per), 11): print('pub mod sw%d { use super::*;\n%s\n}\npub use sw%d::*;' % (k // 11, '\n'.join('pub ' + x for x in per[k:k + 11]), k // 11))
