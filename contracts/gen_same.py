#!/usr/bin/env python3
"""gen_same.py [/repo/src/parser/lua_ast.rs] > same.rs: the relation `same(a, b, conv)` between two syntax trees, one case per variant
of `enum Node`: the tree b is the tree a in which the '...' literals were rewritten iff conv.  The `opts` fields (hints for the writer) are free."""
import re, sys
src = open(sys.argv[1] if len(sys.argv) > 1 else '/repo/src/parser/lua_ast.rs').read()
body = src[src.index('pub enum Node {'):]
body = body[:body.index('\n}')]
out = []
for m in re.finditer(r'^    (\w+)\((.*)\),$', body, re.M):
    name, args = m.group(1), m.group(2)
    fs, d, cur = [], 0, ''
    for c in args:
        if c in '(<[': d += 1
        if c in ')>]': d -= 1
        if c == ',' and d == 0: fs.append(cur.strip()); cur = ''
        else: cur += c
    fs.append(cur.strip())
    if name == 'CharStringLiteral':
        out.append("        Node::CharStringLiteral(p, x) => if conv { match b { Node::NormalStringLiteral(q, y) => q == p && converted(x@, y@), _ => false } }\n            else { b == a },")
        continue
    A = ', '.join('a%d' % i for i in range(len(fs))); B = ', '.join('b%d' % i for i in range(len(fs)))
    cs = []
    for i, t in enumerate(fs):
        if t == 'Box<Node>': cs.append('same(*a%d, *b%d, conv)' % (i, i))
        elif t.startswith('Vec<(Loc, Node, '): cs.append('same4(a%d@, b%d@, conv)' % (i, i))
        elif t == 'Vec<(Loc, Node)>': cs.append('same2(a%d@, b%d@, conv)' % (i, i))
        elif t.endswith('Opts'): pass
        else: cs.append('a%d == b%d' % (i, i))
    out.append('        Node::%s(%s) => match b { Node::%s(%s) => %s, _ => false },' % (name, A, name, B, ' && '.join(cs)))
print('''// generated by gen_same.py from enum Node
pub open spec fn same(a: Node, b: Node, conv: bool) -> bool decreases a {
    match a {
%s
    }
}
pub open spec fn same4(a: Seq<(Loc, Node, Loc, String)>, b: Seq<(Loc, Node, Loc, String)>, conv: bool) -> bool decreases a {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).0 == a[i].0 && b[i].2 == a[i].2 && b[i].3 == a[i].3 && same(a[i].1, b[i].1, conv)
}
pub open spec fn same2(a: Seq<(Loc, Node)>, b: Seq<(Loc, Node)>, conv: bool) -> bool decreases a {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).0 == a[i].0 && same(a[i].1, b[i].1, conv)
}''' % '\n'.join(out))
