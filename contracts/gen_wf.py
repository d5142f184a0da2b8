#!/usr/bin/env python3
# wf.rs: what it means that a tree records a text: every construct covers its span, token by token, gap by gap, in source order.
# From the same table of concrete syntax as shapes.rs (gen_shapes.py); with a second argument also the executable form for the harness.
import re, sys, os, io, contextlib
here = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(here, 'gen_shapes.py')).read()
ns = {}
sys_argv, sys.argv = sys.argv, ['gen_shapes.py', '/dev/null']
exec(compile(src, 'gen_shapes.py', 'exec'), ns)
sys.argv = sys_argv
shapes, ARITY = ns['shapes'], ns['ARITY']
SPECIAL = {'Chunk': 2, 'SheBangChunk': 4}

def pat(v, used):
    return 'Node::%s(%s)' % (v, ', '.join('a%d' % i if i in used else '_' for i in range(ARITY[v])))
def refs(t): return set(int(x) for x in re.findall(r'\ba(\d)\b', t))

out = ['// generated by gen_wf.py']
out.append('''pub open spec fn tok_at(s: Seq<char>, p: int, t: Seq<char>) -> bool { 0 <= p && p + t.len() <= s.len() && s.subrange(p, p + t.len()) == t }
/// the text of a `#!` line
pub open spec fn bang(t: Seq<char>) -> bool { t.len() >= 2 && t[0] == '#' && t[1] == '!' && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '\\n' }
pub open spec fn sepok(k: SepKind, t: Seq<char>) -> bool { match k { SepKind::fields => t == ","@ || t == ";"@, SepKind::comma => t == ","@, SepKind::dot => t == "."@ } }
/// the place after the first k items of a list that starts at a
pub open spec fn lend(v: Seq<(Loc, Node)>, k: int, a: int) -> int { if k <= 0 { a } else { sp(v[k - 1].1).1 } }
pub open spec fn wf_list(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int) -> bool decreases v, k {
    if k <= 0 || k > v@.len() { true } else { wf_list(v, s, k - 1, a) && v@[k - 1].0.0 == lend(v@, k - 1, a) && gap(s, v@[k - 1].0.0 as int, v@[k - 1].0.1 as int) && v@[k - 1].0.1 == sp(v@[k - 1].1).0 && wf(v@[k - 1].1, s) }
}
/// the place after the first k items of a separated list that starts at a, with their separators
pub open spec fn send(v: Seq<(Loc, Node, Loc, String)>, k: int, a: int) -> int { if k <= 0 { a } else { v[k - 1].2.1 + v[k - 1].3@.len() } }
pub open spec fn wf_sep(v: Vec<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, k: int, a: int) -> bool decreases v, k {
    if k <= 0 || k > v@.len() { true } else { wf_sep(v, s, kd, k - 1, a) && sep_item(v@, s, kd, k - 1, a) && wf(v@[k - 1].1, s) }
}
/// item i stands at its place, and its separator behind it; only the last one may be without
pub open spec fn sep_item(v: Seq<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, i: int, a: int) -> bool {
    v[i].0.0 == send(v, i, a) && gap(s, v[i].0.0 as int, v[i].0.1 as int) && v[i].0.1 == sp(v[i].1).0 && v[i].2.0 == sp(v[i].1).1 && gap(s, v[i].2.0 as int, v[i].2.1 as int)
        && (if i == v.len() - 1 && v[i].3@.len() == 0 { v[i].2.1 == v[i].2.0 } else { tok_at(s, v[i].2.1 as int, v[i].3@) && sepok(kd, v[i].3@) && (i == v.len() - 1 ==> kd is fields) })
}
pub open spec fn wf_seps(v: Vec<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, a: int) -> bool decreases v, v@.len() + 1 { v@.len() > 0 && wf_sep(v, s, kd, v@.len() as int, a) }''')
out.append('/// where a construct starts and ends')
out.append('pub open spec fn sp(n: Node) -> (int, int) {\n    match n {')
for v in shapes:
    if v in SPECIAL: out.append('        %s => (a0.0 as int, a%d.1 as int),' % (pat(v, {0, SPECIAL[v]}), SPECIAL[v]))
    else: out.append('        %s => (a0.0 as int, a0.1 as int),' % pat(v, {0}))
out.append('    }\n}')

def conds(v, sh):
    C = []
    if v in SPECIAL: pos = '0'
    else:
        pos = 'a0.0'; C.append('a0.0 <= a0.1 <= s.len()')
    for e in sh:
        def text(t, ln):
            C.append('tok_at(s, %s as int, %s)' % (pos, t)); return '(%s + %s)' % (pos, ln)
        if e[0] == "'": pos = text('"%s"@' % e[1:-1], len(e) - 2)
        elif e[0] in 'gh':
            l = ('a1@[%s]' if e[0] == 'g' else 'a%s') % e[1:]
            C.append('%s.0 == %s && %s(s, %s.0 as int, %s.1 as int)' % (l, pos, 'gape' if v in SPECIAL else 'gap', l, l)); pos = l + '.1'
        elif e[0] == 'c':
            C.append('sp(*a%s).0 == %s && wf(*a%s, s)' % (e[1:], pos, e[1:])); pos = 'sp(*a%s).1' % e[1:]
        elif e[0] == 's': pos = text('a%s.0@' % e[1:], 'a%s.0@.len()' % e[1:])
        elif e[0] == 'x': pos = text('a%s@' % e[1:], 'a%s@.len()' % e[1:])
        elif e[0] == 'q': pos = text('"\\""@ + a%s@ + "\\""@' % e[1:], '(a%s@.len() + 2)' % e[1:])
        elif e[0] == 'a': pos = text('"\'"@ + a%s@ + "\'"@' % e[1:], '(a%s@.len() + 2)' % e[1:])
        elif e == 'm': pos = text('long_str(a1 as int, a2@)', 'long_str(a1 as int, a2@).len()')
        elif e[0] == 'b':
            text('a1@', '0'); C.append('bang(a1@)')
            C.append('(if a0.1 == a0.0 + a1@.len() { a0.1 == s.len() } else { a0.1 == a0.0 + a1@.len() + 1 && s[a0.1 - 1] == \'\\n\' })'); pos = 'a0.1'
        elif e.startswith('SEP('):
            k, n = e[4:-1].split(',')
            C.append('wf_seps(a%s, s, SepKind::%s, %s as int)' % (n, k, pos)); pos = 'send(a%s@, a%s@.len() as int, %s as int)' % (n, n, pos)
        elif e.startswith('LIST('):
            n = e[5:-1]
            C.append('wf_list(a%s, s, a%s@.len() as int, %s as int)' % (n, n, pos)); pos = 'lend(a%s@, a%s@.len() as int, %s as int)' % (n, n, pos)
        else: raise Exception(e)
    if v in SPECIAL:
        C.append('%s == s.len()' % pos)
    elif pos != 'a0.1': C.append('%s == a0.1' % pos)
    return C
KIND = {'TableConstructor': [(2, ['Fields'])]}
ONE = []
out.append('/// the tree records the text s: token by token and gap by gap, from its first character to its last')
out.append('pub open spec fn wf(n: Node, s: Seq<char>) -> bool decreases n {\n    match n {')
for v, sh in shapes.items():
    C = conds(v, sh)
    for i, ks in KIND.get(v, []): C.append('(%s)' % ' || '.join('*a%d is %s' % (i, k) for k in ks))
    if v in SPECIAL: C = ['(%s)' % c for c in C]
    t = ' && '.join(C)
    out.append('        %s => %s,' % (pat(v, refs(t)), t)); ONE.append(out[-1])
out.append('    }\n}')
out.append('// the same, variant by variant')
for v in shapes:
    t = re.search(r'^\s+%s\((.*)\),$' % v, ns['enum'], re.M).group(1)
    ty, d, cur = [], 0, ''
    for ch in t:
        if ch in '([<': d += 1
        if ch in ')]>': d -= 1
        if ch == ',' and d == 0: ty.append(cur.strip()); cur = ''
        else: cur += ch
    ty.append(cur.strip())
    a = ['a%d' % i for i in range(len(ty))]
    cond = [o for o in ONE if 'Node::%s(' % v in o][0].split(' => ', 1)[1].rstrip(',')
    out.append('pub broadcast proof fn w_%s(%s, s: Seq<char>) ensures #[trigger] wf(Node::%s(%s), s) == (%s) { }' % (v, ', '.join('%s: %s' % x for x in zip(a, ty)), v, ', '.join(a), cond))
out.append('pub broadcast group g_wfv { %s }' % ', '.join('w_' + v for v in shapes))
out.append('''// ---- lists, item by item
pub open spec fn list_item(v: Seq<(Loc, Node)>, s: Seq<char>, i: int, a: int) -> bool { v[i].0.0 == lend(v, i, a) && gap(s, v[i].0.0 as int, v[i].0.1 as int) && v[i].0.1 == sp(v[i].1).0 && wf(v[i].1, s) }
pub proof fn list_of(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int) requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < k ==> #[trigger] list_item(v@, s, i, a) ensures wf_list(v, s, k, a) decreases k
{ if k > 0 { assert(list_item(v@, s, k - 1, a)); list_of(v, s, k - 1, a); } }
pub proof fn list_get(v: Vec<(Loc, Node)>, s: Seq<char>, k: int, a: int, i: int) requires wf_list(v, s, k, a), 0 <= i < k <= v@.len() ensures list_item(v@, s, i, a) decreases k
{ if i < k - 1 { list_get(v, s, k - 1, a, i); } }
pub open spec fn seps_item(v: Seq<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, i: int, a: int) -> bool { sep_item(v, s, kd, i, a) && wf(v[i].1, s) }
pub proof fn sep_all(v: Vec<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, k: int, a: int) requires 0 <= k <= v@.len(), forall|i: int| 0 <= i < k ==> #[trigger] seps_item(v@, s, kd, i, a) ensures wf_sep(v, s, kd, k, a) decreases k
{ if k > 0 { assert(seps_item(v@, s, kd, k - 1, a)); sep_all(v, s, kd, k - 1, a); } }
pub proof fn sep_get(v: Vec<(Loc, Node, Loc, String)>, s: Seq<char>, kd: SepKind, k: int, a: int, i: int) requires wf_sep(v, s, kd, k, a), 0 <= i < k <= v@.len() ensures seps_item(v@, s, kd, i, a) decreases k
{ if i < k - 1 { sep_get(v, s, kd, k - 1, a, i); } }''')
open(os.path.join(here, 'wf.rs'), 'w').write('\n'.join(out) + '\n')

# ---- the same, executable (for the harness)
X = ['// generated by contracts/gen_wf.py: does the tree record the text, token by token and gap by gap?', 'use luafmt::verif::lua_ast::*;', 'use luafmt::verif::common::Loc;',
'''pub struct W<'a> { pub s: &'a [char], pub gaps: Vec<(usize, usize)> }
type R<T> = Result<T, String>;
impl W<'_> {
    fn text(&self, p: usize, t: &str, v: &str) -> R<usize> {
        let t: Vec<char> = t.chars().collect();
        if p + t.len() <= self.s.len() && self.s[p..p + t.len()] == t[..] { Ok(p + t.len()) } else { Err(format!("{}: {:?} is not at {}", v, t.iter().collect::<String>(), p)) }
    }
    fn gap(&mut self, p: usize, l: &Loc, v: &str) -> R<usize> {
        if l.0 != p || l.1 < l.0 || l.1 > self.s.len() { return Err(format!("{}: a gap is recorded as {}..{}, it starts at {}", v, l.0, l.1, p)); }
        self.gaps.push((l.0, l.1));
        Ok(l.1)
    }
    fn child(&mut self, p: usize, n: &Node, v: &str) -> R<usize> {
        let (a, b) = self.node(n)?;
        if a != p { return Err(format!("{}: a part is recorded at {}..{}, it starts at {}", v, a, b, p)); }
        Ok(b)
    }
    fn seps(&mut self, mut p: usize, x: &[(Loc, Node, Loc, String)], k: &[&str], last: bool, v: &str) -> R<usize> {
        if x.is_empty() { return Err(format!("{}: no items", v)); }
        for (i, (a, n, b, t)) in x.iter().enumerate() {
            p = self.gap(p, a, v)?;
            p = self.child(p, n, v)?;
            p = self.gap(p, b, v)?;
            if i + 1 == x.len() && t.is_empty() { if b.0 != b.1 { return Err(format!("{}: a gap after the last item", v)); } continue; }
            if !k.contains(&t.as_str()) || i + 1 == x.len() && !last { return Err(format!("{}: separator {:?}", v, t)); }
            p = self.text(p, t, v)?;
        }
        Ok(p)
    }
    fn list(&mut self, mut p: usize, x: &[(Loc, Node)], v: &str) -> R<usize> {
        for (a, n) in x { p = self.gap(p, a, v)?; p = self.child(p, n, v)?; }
        Ok(p)
    }
    pub fn node(&mut self, n: &Node) -> R<(usize, usize)> {
        match n {''']
def step(v, e):
    t = '"%s"' % v
    if e[0] == "'": return 'p = self.text(p, "%s", %s)?;' % (e[1:-1], t)
    if e[0] == 'g': return 'p = self.gap(p, &a1[%s], %s)?;' % (e[1:], t)
    if e[0] == 'h': return 'p = self.gap(p, a%s, %s)?;' % (e[1:], t)
    if e[0] == 'c': return 'p = self.child(p, a%s, %s)?;' % (e[1:], t)
    if e[0] == 's': return 'p = self.text(p, a%s.0, %s)?;' % (e[1:], t)
    if e[0] == 'x': return 'p = self.text(p, a%s, %s)?;' % (e[1:], t)
    if e[0] == 'q': return 'p = self.text(p, &format!("\\"{}\\"", a%s), %s)?;' % (e[1:], t)
    if e[0] == 'a': return 'p = self.text(p, &format!("\'{}\'", a%s), %s)?;' % (e[1:], t)
    if e == 'm': return 'let eq = "=".repeat(*a1); p = self.text(p, &format!("[{}[{}]{}]", eq, a2, eq), %s)?;' % t
    if e[0] == 'b': return 'p = self.text(p, a1, %s)?; if self.s.get(p) == Some(&\'\\n\') { p += 1; }' % t
    if e.startswith('SEP('):
        k, n = e[4:-1].split(',')
        return 'p = self.seps(p, a%s, &[%s], %s, %s)?;' % (n, {'fields': '",", ";"', 'comma': '","', 'dot': '"."'}[k], 'true' if k == 'fields' else 'false', t)
    return 'p = self.list(p, a%s, %s)?;' % (e[5:-1], t)
for v, sh in shapes.items():
    body = ' '.join(step(v, e) for e in sh)
    us = {0} | refs(body) | ({SPECIAL[v]} if v in SPECIAL else set())
    if v in SPECIAL:
        b = 'let mut p = 0; %s if p != self.s.len() { return Err("%s: ends early".into()); } Ok((0, p))' % (body, v)
        if 0 not in refs(body): us -= {0}
    else: b = 'let mut p = a0.0; %s if p != a0.1 { return Err(format!("%s: recorded as {}..{}, it ends at {}", a0.0, a0.1, p)); } Ok((a0.0, p))' % (body, v)
    X.append('            %s => { %s }' % (pat(v, us), b))
X.append('        }\n    }\n}')
hp = os.path.join(here, '..', 'harness', 'src', 'wf.rs')
open(hp, 'w').write('\n'.join(X) + '\n')
