"""contents of containers: which terms a container may hold, and when"""
from .base import *

LISTS = ('list', 'tuple', 'set', 'frozenset', 'sorted', 'iter', 'reversed')


def elements(I, t, guard=TRUE, values=True, depth=0, seen=()):
    """[(guard, term)] the members a container term may have (for a
    mapping: its values).  A container whose construction is not visible
    contributes the symbolic member ('elem', t)."""
    b = I.b
    if guard == FALSE:
        return []
    if depth > 12 or t in seen:
        return [(guard, ('unk', 'deep'))]
    k = t[0]
    seen = seen + (t,)

    def rec(x, g=guard):
        return elements(I, x, g, values, depth + 1, seen)
    if k == 'phi':
        out = []
        for g, x in t[1]:
            out += rec(x, b.and_(guard, g))
        return out
    if t in I.conts:
        out = []
        for e in I.conts[t].entries:
            g0 = b.and_(guard, e.guard)
            if e.star:
                for g, x in e.val:
                    out += rec(x, b.and_(g0, g))
            else:
                for g, x in flat(I, e.val, g0):
                    out.append((g, x))
        return out
    if k == 'tuple':
        return [(guard, x) for x in t[1:]]
    if k == 'const':
        return []
    if k == 'call' and t[1][0] == 'attr' and t[1][2] == 'union' and not t[3]:
        out = rec(t[1][1])
        for a in t[2]:
            if a[0] == 'star':
                for g, x in rec(a[1]):
                    out += rec(x, g)
            else:
                out += rec(a)
        return out
    if k == 'bin' and t[1] == 'BitOr':
        return rec(t[2]) + rec(t[3])
    if k == 'call' and t[2]:
        c = t[1]
        nm = c[-1] if c[0] in ('builtin', 'attr', 'ext') else None
        if c[0] == 'builtin' and nm in LISTS or nm == 'colltype':
            return rec(t[2][0])
        if c[0] == 'builtin' and nm == 'dict':
            return rec(t[2][0])
    if k == 'bin' and t[1] == 'Add':
        return rec(t[2]) + rec(t[3])
    if k in ('slice', 'seq1'):
        return rec(t[1])
    return [(guard, ('elem', t))]


def pair_values(I, els):
    """second component of (key, value) pairs"""
    out = []
    for g, t in els:
        if t[0] == 'tuple' and len(t) == 3:
            out += flat(I, ((g, t[2]),))
        elif t[0] == 'elem':
            out.append((g, ('item', t, const(1))))
        else:
            out.append((g, t))
    return out
