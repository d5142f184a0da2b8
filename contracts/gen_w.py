#!/usr/bin/env python3
"""gen_w.py THEORY.txt OUT.rs: the template that puts the contracts of one theory on the writers.
w_skel.txt lists the functions of /repo (with the options of their extraction), THEORY.txt gives a contract by key:
"=== key [key...]" followed by text; `head` is everything before the types; a function without one gets none."""
import sys, os
here = os.path.dirname(os.path.abspath(__file__))
th, cur = {}, None
for l in open(sys.argv[1]).read().split('\n'):
    if l.startswith('=== '):
        cur = l[4:].split()
        for k in cur: th[k] = []
    elif cur: 
        for k in cur: th[k].append(l)
out, used = ['// generated by gen_w.py from w_skel.txt and %s' % os.path.basename(sys.argv[1])], set()
for l in open(os.path.join(here, 'w_skel.txt')).read().split('\n'):
    if l.startswith('//@@'):
        k, _, d = l[4:].partition(' ')
        used.add(k)
        t = '\n'.join(th.get(k, [])).strip('\n')
        if d:
            opt = ''
            if t.startswith('| '):
                opt, _, t = t[2:].partition('\n')
            o = '//@' + d
            if opt: o += ' ' + opt
            out.append(o)
            if t: out.append(t)
            out.append('//@end')
        elif t: out.append(t)
    elif l.startswith('//@type src/config.rs State') and 'state' in th:
        used.add('state'); out.append(l + ' | ' + '\n'.join(th['state']).strip())
    else: out.append(l)
assert set(th) <= used, set(th) - used
open(sys.argv[2], 'w').write('\n'.join(out))
