"""ev.py FUNC [self=CLASS] [b=PATTERN...] [k=KIND,..] [t=param:class] [a=param:None]: compact events"""
import sys
sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
from rules.base import *
import warnings; warnings.simplefilter('ignore')
W = 260
sc = None; bs = []; kinds = None; types = {}; args = {}; keep = []
for a in sys.argv[2:]:
    k, v = a.split('=', 1)
    if k == 'self': sc = v
    if k == 'b': bs.append(v)
    if k == 'keep': keep.append(v)
    if k == 'k': kinds = v.split(',')
    if k == 'w': W = int(v)
    if k == 't':
        p_, c_ = v.split(':'); types[P(p_)] = c_
    if k == 'a':
        p_, c_ = v.split(':'); args[p_] = const(eval(c_))
m = Model('/repo'); C = Check(m, 'X', 'quick')
I = C.run(sys.argv[1], selfcls=sc, boundary=bs, types=types, args=args, keep=keep)
L = I.L
if I.unsupported: print('UNS', I.unsupported)
def s(v):
    if isinstance(v, tuple) and v and isinstance(v[0], tuple): return ' | '.join(L.show(t)[:120] for g, t in v)
    if isinstance(v, tuple): return L.show(v)[:120]
    if isinstance(v, list): return '[' + ', '.join(s(x) for x in v) + ']'
    if isinstance(v, dict): return '{' + ', '.join('%s:%s' % (a, s(x)) for a, x in v.items()) + '}'
    return repr(v)
for e in I.events:
    if kinds and e.kind not in kinds: continue
    if not kinds and e.kind in ('enter', 'construct'): continue
    ln = e.where.split(' in ')[0].split('/')[-1]
    dd = {k: v for k, v in e.d.items() if k in ('sym', 'callee', 'args', 'kws', 'key', 'target', 'name', 'attr', 'value', 'result') and v not in ([], {})}
    print(e.kind, ln, 'caught' if e.d.get('caught') or getattr(e, 'caught', None) else '', '|', [L.show(x)[:60] for x in e.loops], '|', '; '.join('%s=%s' % (k, s(v)) for k, v in dd.items())[:W])
    print('     G', L.showg(e.guard)[:W])
for g, t in flat(I, I.rv): print('RV', L.show(t)[:W], ' G', L.showg(g)[:W])
