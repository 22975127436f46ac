"""dump the events of one analysed entry point (debugging aid)
usage: dump.py FUNC [-c SELFCLASS] [-t term=class] [-i inlinector] [boundary prefixes]"""
import sys, time, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, __file__.rsplit('/', 2)[0])
from sa.model import Model
from sa.interp import Interp
m = Model()
av = sys.argv[1:]
sc = None
types = {}
ic = set()
bl = []
fq = av.pop(0)
while av:
    a = av.pop(0)
    if a == '-c':
        sc = av.pop(0)
    elif a == '-t':
        k, v = av.pop(0).split('=')
        types[('param', k)] = v
    elif a == '-i':
        ic.add(av.pop(0))
    else:
        bl.append(a)
f = m.need_func(fq)
I = Interp(m, boundary={q for q in m.funcs if any(
    q.startswith(p) for p in bl)} - {f.qual}, types=types, inline_ctor=ic)
t = time.time()
rv = I.run(f, selfcls=sc)
print("time", time.time() - t, "events", len(I.events))
for u in I.unsupported:
    print("UNS", u)
L = I.L


def sv(V):
    return ' | '.join('%s' % (L.show(t)) for g, t in V)


def ss(v):
    if isinstance(v, tuple) and v and isinstance(v[0], tuple):
        return sv(v)
    if isinstance(v, tuple):
        return L.show(v)
    if isinstance(v, list):
        return '[' + ', '.join(ss(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ', '.join('%s:%s' % (a, ss(x))
                               for a, x in v.items()) + '}'
    return repr(v)


for e in I.events:
    ln = e.where.split(' in ')
    print(e.kind, ln[0].split('/')[-1], ln[1].replace('normalize.', ''),
          '| L', [L.show(x) for x in e.loops] if e.loops else '', '|',
          ' ; '.join(k + '=' + ss(v) for k, v in e.d.items())[:500])
    print('      G:', L.showg(e.guard)[:400])
print('RV', [(L.showg(g)[:200], L.show(t)) for g, t in rv])
