"""Reduced ordered BDDs: the canonical form of the path conditions (guards)
that the gated value-flow analysis attaches to values and events.

Two equal boolean functions over the same atoms are the same integer, so a
guard can itself be part of a hash-consed term (used for EXISTS atoms).
"""

FALSE, TRUE = 0, 1


class BDD(object):
    def __init__(self):
        self.nodes = [(1 << 60, 0, 0), (1 << 60, 1, 1)]
        self.unique = {}
        self.atoms = []
        self.index = {}
        self.memo = {}
        self.supp = {0: frozenset(), 1: frozenset()}

    # -- construction
    def atom(self, key):
        i = self.index.get(key)
        if i is None:
            i = self.index[key] = len(self.atoms)
            self.atoms.append(key)
        return self.mk(i, FALSE, TRUE)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.unique.get(k)
        if n is None:
            n = self.unique[k] = len(self.nodes)
            self.nodes.append(k)
        return n

    def ite(self, f, g, h):
        if f == TRUE:
            return g
        if f == FALSE:
            return h
        if g == h:
            return g
        if g == TRUE and h == FALSE:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self.nodes[f][0], self.nodes[g][0], self.nodes[h][0])
        f0, f1 = self.cof(f, v)
        g0, g1 = self.cof(g, v)
        h0, h1 = self.cof(h, v)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def cof(self, f, v):
        n = self.nodes[f]
        if n[0] == v:
            return n[1], n[2]
        return f, f

    def not_(self, f):
        return self.ite(f, FALSE, TRUE)

    def and_(self, *fs):
        r = TRUE
        for f in fs:
            r = self.ite(r, f, FALSE)
            if r == FALSE:
                return r
        return r

    def or_(self, *fs):
        r = FALSE
        for f in fs:
            r = self.ite(r, TRUE, f)
            if r == TRUE:
                return r
        return r

    def imp(self, f, g):
        return self.ite(f, g, TRUE)

    # -- queries
    def support(self, f):
        s = self.supp.get(f)
        if s is None:
            v, lo, hi = self.nodes[f]
            s = self.supp[f] = self.support(lo) | self.support(hi) | {v}
        return s

    def support_atoms(self, f):
        return [self.atoms[i] for i in sorted(self.support(f))]

    def restrict(self, f, v, val):
        """cofactor of f by variable index v"""
        if v not in self.support(f):
            return f
        k = ('r', f, v, val)
        r = self.memo.get(k)
        if r is None:
            n = self.nodes[f]
            if n[0] == v:
                r = n[2] if val else n[1]
            else:
                r = self.mk(n[0], self.restrict(n[1], v, val),
                            self.restrict(n[2], v, val))
            self.memo[k] = r
        return r

    def exists_var(self, f, v):
        return self.or_(self.restrict(f, v, 0), self.restrict(f, v, 1))

    def constrain(self, f, c):
        """Coudert-Madre generalized cofactor: equals f wherever c holds"""
        if c == TRUE or f in (TRUE, FALSE):
            return f
        if c == FALSE:
            return FALSE
        if f == c:
            return TRUE
        k = ('c', f, c)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self.nodes[f][0], self.nodes[c][0])
        f0, f1 = self.cof(f, v)
        c0, c1 = self.cof(c, v)
        if c0 == FALSE:
            r = self.constrain(f1, c1)
        elif c1 == FALSE:
            r = self.constrain(f0, c0)
        else:
            r = self.mk(v, self.constrain(f0, c0), self.constrain(f1, c1))
        self.memo[k] = r
        return r

    def drop(self, f, c):
        """simplify f under care-set c, without introducing variables of c
        that f does not depend on"""
        sup = self.support(f)
        for v in sorted(self.support(c)):
            if v not in sup:
                c = self.exists_var(c, v)
        return self.constrain(f, c)

    def anysat(self, f):
        """one satisfying assignment, as {atom: bool}"""
        out = {}
        while f not in (TRUE, FALSE):
            v, lo, hi = self.nodes[f]
            if lo != FALSE:
                out[self.atoms[v]] = False
                f = lo
            else:
                out[self.atoms[v]] = True
                f = hi
        return out if f == TRUE else None
