"""writes BOUNDS.md: every exploration of every check with the size of its space in both tiers"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'mc'), os.environ.get('MC_REPO', '/repo')]
out = ['# Explorations and the sizes of their spaces', '',
       'Generated by tools/mkbounds.py.  A space is enumerated completely; `thorough` is the same exploration one level',
       'deeper (or with a larger alphabet).', '']
for i in range(1, 100):
    name = 'checks.c%02d' % i
    if not os.path.exists(os.path.join(HERE, 'mc', 'checks', 'c%02d.py' % i)):
        break
    m = importlib.import_module(name)
    out += ['## C%02d' % i, '', '| exploration | quick | thorough | space (quick) |', '|---|---|---|---|']
    q, t = {}, {}
    for tier, d in (('quick', q), ('thorough', t)):
        for e in m.plan(tier):
            d[e.name] = e
    for n in list(q) + [n for n in t if n not in q]:
        a, b = q.get(n), t.get(n)
        out.append('| %s | %s | %s | %s |' % (n, a.space.size if a else '-', b.space.size if b else '-',
                                            (a or b).space.about.replace('|', '\\|').replace('\n', ' ')))
    out += ['', 'Sum: %d quick, %d thorough.' % (sum(e.space.size for e in q.values()), sum(e.space.size for e in t.values())), '']
open(os.path.join(HERE, 'BOUNDS.md'), 'w').write('\n'.join(out))
