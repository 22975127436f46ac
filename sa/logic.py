"""Guard logic: boolean atoms over value terms, their simplification, and the
finite theory (isinstance lattice, None-ness, constants, identity) used when a
guard implication is decided.  Deciding an implication is a BDD operation over
the atoms that occur; no solver is involved."""
import ast
import builtins

from .bdd import BDD, FALSE, TRUE

NONE = ('const', 'NoneType', None)
TRUEC = ('const', 'bool', True)
FALSEC = ('const', 'bool', False)
UNDEF = ('undef',)
SING = ('class', 'func', 'module', 'builtin', 'ext', 'modvar', 'closure')


def const(v):
    return ('const', type(v).__name__, v)


# pairwise disjoint concrete builtin layouts
LAYOUT = ('str', 'bytes', 'int', 'float', 'list', 'tuple', 'dict', 'set',
          'frozenset', 'NoneType', 'type', 'bytearray', 'slice', 'complex',
          'BaseException')
ABC = {
    'collections.abc.Mapping': ('dict',),
    'collections.abc.MutableMapping': ('dict',),
    'collections.abc.Sequence': ('list', 'tuple', 'str', 'bytes',
                                 'bytearray'),
    'collections.abc.Iterable': ('list', 'tuple', 'str', 'bytes', 'dict',
                                 'set', 'frozenset', 'bytearray'),
    'collections.abc.Set': ('set', 'frozenset'),
    'collections.Mapping': ('dict',),
}


def layout_of(name):
    k = getattr(builtins, name, None)
    if not isinstance(k, type):
        return None
    for l in LAYOUT:
        lk = type(None) if l == 'NoneType' else getattr(builtins, l)
        if issubclass(k, lk):
            return l
    return None


def subterms(t, acc=None):
    if acc is None:
        acc = set()
    if isinstance(t, tuple) and t not in acc:
        acc.add(t)
        for x in t:
            if isinstance(x, tuple):
                subterms(x, acc)
    return acc


class Logic(object):
    def __init__(self, model):
        self.model = model
        self.b = BDD()
        self._sub = {}

    # ---- structure helpers
    def has(self, t, sub):
        """does term t contain sub-term sub"""
        k = (t, sub)
        r = self._sub.get(k)
        if r is None:
            if t == sub:
                r = True
            elif isinstance(t, tuple):
                r = False
                if t and t[0] == 'exists':
                    # the bound loop variable is not free in the body
                    if sub in (('elem', t[1]), ('idx', t[1])):
                        self._sub[k] = False
                        return False
                    r = self.has(t[1], sub) or any(
                        self.has(a, sub)
                        for a in self.b.support_atoms(t[2]))
                elif t and t[0] == 'phi':
                    r = any(self.has(x, sub) for g, x in t[1])
                else:
                    r = any(self.has(x, sub) for x in t
                            if isinstance(x, tuple))
            else:
                r = False
            self._sub[k] = r
        return r

    # ---- class relations between symbols
    def cls_issub(self, a, b):
        """subclass relation between two class symbols: True/False/None"""
        if a == b:
            return True
        if b == ('builtin', 'object'):
            return True
        m = self.model
        if a[0] == 'class':
            ca = m.classes.get(a[1])
            if ca is None:
                return None
            if b[0] == 'class':
                return m.classes.get(b[1]) in ca.mro
            if b[0] == 'builtin':
                kb = getattr(builtins, b[1], None)
                if not isinstance(kb, type):
                    return None
                for x in ca.ext_bases():
                    k = getattr(builtins, x, None)
                    if isinstance(k, type) and issubclass(k, kb):
                        return True
                return False
            if b[0] == 'ext':
                if b[1] in ca.ext_bases():
                    return True
                return None
            return None
        if a[0] == 'builtin':
            ka = getattr(builtins, a[1], None)
            if not isinstance(ka, type):
                return None
            if b[0] == 'class':
                return False
            if b[0] == 'builtin':
                kb = getattr(builtins, b[1], None)
                if isinstance(kb, type):
                    return issubclass(ka, kb)
                return None
            if b[0] == 'ext' and b[1] in ABC:
                return layout_of(a[1]) in ABC[b[1]]
        return None

    def disjoint(self, a, b):
        """can no object be an instance of both class symbols?"""
        la = lb = None
        if a[0] == 'builtin':
            la = layout_of(a[1])
        if b[0] == 'builtin':
            lb = layout_of(b[1])
        if la and lb:
            return la != lb
        for x, l, y in ((a, la, b), (b, lb, a)):
            if l and y[0] == 'class':
                c = self.model.classes.get(y[1])
                if c is None:
                    return False
                if l == 'NoneType':
                    return True
                own = [layout_of(e) for e in c.ext_bases()]
                own = [o for o in own if o]
                if not c.ext_bases():
                    # a plain project class: instances of a user subclass
                    # could still derive a builtin; treat concrete project
                    # records and str/int etc. as disjoint
                    return True
                if own and l not in own:
                    return True
            if l and y[0] == 'ext' and y[1] in ABC:
                return l not in ABC[y[1]]
        return False

    # ---- class of a term
    def class_of(self, t):
        return None

    def builtin_class(self, t):
        """builtin class symbol a term is known to be an instance of"""
        k = t[0]
        if k == 'const':
            return ('builtin', t[1])
        if k == 'tuple':
            return ('builtin', 'tuple')
        if k == 'sl':
            return ('builtin', 'slice')
        if k == 'new':
            if t[2] in ('list', 'dict', 'set', 'frozenset', 'tuple'):
                return ('builtin', t[2])
            if t[2] == 'gen':
                return ('ext', 'types.GeneratorType')
            return ('class', t[2])
        if k == 'fmt':
            return ('builtin', 'str')
        if k in ('func', 'closure', 'bound'):
            return ('ext', 'types.FunctionType')
        if k == 'class':
            return ('builtin', 'type')
        if k == 'builtin':
            o = getattr(builtins, t[1], None)
            return ('builtin', 'type') if isinstance(o, type) else \
                ('ext', 'types.BuiltinFunctionType')
        if k == 'len':
            return ('builtin', 'int')
        if k == 'idx':
            return ('builtin', 'int')
        if k == 'module':
            return ('ext', 'types.ModuleType')
        c = self.class_of(t)
        if c:
            return ('class', c)
        return None

    def noneish(self, s):
        return s == ('builtin', 'NoneType') or \
            s == ('ext', 'types.NoneType') or \
            s == ('typeof', NONE)

    # ---- atoms
    def isinst(self, t, spec):
        b = self.b
        if spec[0] == 'tuple':
            return b.or_(*[self.isinst(t, s) for s in spec[1:]]) \
                if len(spec) > 1 else FALSE
        if spec[0] == 'phi':
            return b.or_(*[b.and_(g, self.isinst(t, s))
                           for g, s in spec[1]])
        if t[0] == 'phi':
            return b.or_(*[b.and_(g, self.isinst(x, spec))
                           for g, x in t[1]])
        if spec == ('builtin', 'object'):
            return TRUE
        if self.noneish(spec):
            return self.isnone(t)
        if self.isnone(t) == TRUE and spec[0] in ('class', 'builtin'):
            return FALSE
        if t[0] == 'excv' and t[2] and self.cls_issub(t[2], spec) is True:
            return TRUE
        own = self.builtin_class(t)
        if own is not None and spec[0] in ('class', 'builtin', 'ext'):
            r = self.cls_issub(own, spec)
            exact = t[0] in ('const', 'tuple', 'new', 'class', 'sl')
            if r is True:
                return TRUE
            if r is False and exact:
                return FALSE
            if self.disjoint(own, spec):
                return FALSE
        if own is not None and spec[0] == 'typeof' and spec[1] == t:
            return TRUE
        return b.atom(('isinst', t, spec))

    def isnone(self, t):
        if t == NONE:
            return TRUE
        if t[0] == 'phi':
            return self.b.or_(*[self.b.and_(g, self.isnone(x))
                                for g, x in t[1]])
        if t[0] in ('const', 'tuple', 'new', 'bin', 'fmt', 'len', 'idx',
                    'typeof', 'slice', 'bound') + SING:
            if t[0] == 'modvar' and not self.modvar_nonnull(t):
                return self.b.atom(('isnone', t))
            return FALSE
        if self.class_of(t):
            return FALSE
        return self.b.atom(('isnone', t))

    def modvar_nonnull(self, t):
        return True

    def truthy(self, t):
        b = self.b
        k = t[0]
        if k == 'const':
            return TRUE if t[2] else FALSE
        if k == 'phi':
            return b.or_(*[b.and_(g, self.truthy(x)) for g, x in t[1]])
        if k == 'tuple':
            return TRUE if len(t) > 1 else FALSE
        if k in ('class', 'func', 'module', 'builtin', 'closure', 'bound',
                 'ext', 'typeof'):
            return TRUE
        if k == 'len':
            return self.truthy(t[1])
        if k == 'fmt':
            return TRUE
        if k == 'new' and t[2] not in ('list', 'dict', 'set', 'gen',
                                       'frozenset', 'tuple'):
            if not self.cls_sized(t[2]):
                return TRUE
        if k == 'new' and t[2] == 'gen':
            return TRUE
        return b.atom(('truthy', t))

    def cls_sized(self, q):
        c = self.model.classes.get(q)
        if c is None:
            return True
        return any(c.lookup(n)[1] is not None
                   for n in ('__len__', '__bool__')) or any(
            x in ('list', 'dict', 'tuple', 'str', 'set', 'int')
            for x in c.ext_bases())

    def is_(self, x, y):
        b = self.b
        if x == y:
            return TRUE
        if x == NONE:
            return self.isnone(y)
        if y == NONE:
            return self.isnone(x)
        for p, q in ((x, y), (y, x)):
            if p[0] == 'phi':
                return b.or_(*[b.and_(g, self.is_(z, q)) for g, z in p[1]])
        if x[0] in SING + ('const',) and y[0] in SING + ('const',):
            if x[0] == 'const' and y[0] == 'const':
                return TRUE if x == y else FALSE
            if 'modvar' in (x[0], y[0]) and x[0] != y[0]:
                pass
            else:
                return FALSE
        fresh = ('new', 'tuple', 'len', 'idx')
        if x[0] in fresh and y[0] in fresh + SING + ('const', 'param'):
            return FALSE
        if y[0] in fresh and x[0] in fresh + SING + ('const', 'param'):
            return FALSE
        if x[0] == 'modvar' and y[0] == 'modvar':
            return FALSE
        if self.members(x, y):
            return FALSE
        p, q = sorted((x, y), key=repr)
        return b.atom(('is', p, q))

    def members(self, x, y):
        """different members of an enumeration?"""
        if x[0] != 'attr' or y[0] != 'attr' or x[1] != y[1] or \
                x[1][0] != 'class' or x[2] == y[2]:
            return False
        c = self.model.classes.get(x[1][1])
        made = [c.attrs.get(t[2]) if c else None for t in (x, y)]
        if not all(isinstance(m, ast.Call) and isinstance(m.func, ast.Name)
                   and m.func.id in c.attrs and m.args and
                   isinstance(m.args[0], ast.Constant) for m in made):
            return False
        return made[0].func.id == made[1].func.id and \
            made[0].args[0].value != made[1].args[0].value

    def eq(self, x, y):
        b = self.b
        if x == y:
            return TRUE
        for p, q in ((x, y), (y, x)):
            if p[0] == 'phi':
                return b.or_(*[b.and_(g, self.eq(z, q)) for g, z in p[1]])
        if x == NONE:
            return self.isnone(y)
        if y == NONE:
            return self.isnone(x)
        if x[0] == 'const' and y[0] == 'const':
            return TRUE if x[2] == y[2] else FALSE
        if x[0] == 'tuple' and y[0] == 'tuple':
            if len(x) != len(y):
                return FALSE
            return b.and_(*[self.eq(p, q) for p, q in zip(x[1:], y[1:])]) \
                if len(x) > 1 else TRUE
        sing = ('class', 'func', 'builtin', 'module', 'ext', 'modvar')
        if x[0] in sing + ('typeof',) and y[0] in sing + ('typeof',):
            return self.is_(x, y)
        if x[0] in sing and y[0] in sing + ('const',):
            return FALSE
        if y[0] in sing and x[0] == 'const':
            return FALSE
        for p, q in ((x, y), (y, x)):
            if p[0] == 'len' and q == const(0):
                return b.not_(self.truthy(p[1]))
            if q[0] in sing and q[0] != 'modvar':
                return self.is_(p, q)
            if q == const(0) and p[0] == 'bin':
                pass
        if self.members(x, y):
            return FALSE
        p, q = sorted((x, y), key=repr)
        return b.atom(('eq', p, q))

    def lt(self, x, y):
        b = self.b
        for p, s in ((x, 0), (y, 1)):
            if p[0] == 'phi':
                return b.or_(*[
                    b.and_(g, self.lt(z, y) if s == 0 else self.lt(x, z))
                    for g, z in p[1]])
        if x == y:
            return FALSE
        if x[0] == 'const' and y[0] == 'const':
            try:
                return TRUE if x[2] < y[2] else FALSE
            except TypeError:
                pass
        if x == const(0) and y[0] == 'len':
            return self.truthy(y[1])
        if y == const(1) and x[0] == 'len':
            return b.not_(self.truthy(x[1]))
        if x[0] == 'len' and y == const(0):
            return FALSE
        return b.atom(('lt', x, y))

    def in_(self, k, c):
        b = self.b
        if c[0] == 'phi':
            return b.or_(*[b.and_(g, self.in_(k, z)) for g, z in c[1]])
        if c[0] == 'tuple':
            return b.or_(*[self.eq(k, e) for e in c[1:]]) \
                if len(c) > 1 else FALSE
        if k[0] == 'phi':
            return b.or_(*[b.and_(g, self.in_(z, c)) for g, z in k[1]])
        if c[0] == 'const' and c[1] == 'str' and k[0] == 'const' and \
                k[1] == 'str':
            return TRUE if k[2] in c[2] else FALSE
        if k == ('elem', c):
            return TRUE
        return b.atom(('in', k, c))

    def hasattr(self, t, name):
        b = self.b
        if t[0] == 'phi':
            return b.or_(*[b.and_(g, self.hasattr(x, name))
                           for g, x in t[1]])
        own = self.builtin_class(t)
        if own is not None and t[0] in ('const', 'tuple', 'new', 'class') \
                and name[0] == 'const':
            if own[0] == 'builtin' and t[0] != 'class':
                k = getattr(builtins, own[1], type(None))
                return TRUE if hasattr(k, name[2]) else FALSE
        c = self.class_of(t)
        if c and name[0] == 'const':
            o, a = self.model.classes[c].lookup(name[2])
            if a is not None:
                from .model import Func
                if not (isinstance(a, Func) and a.kind == 'property'):
                    if isinstance(a, Func):
                        return TRUE
        return b.atom(('hasattr', t, name))

    # ---- theory
    def axioms(self, f):
        """conjunction of the theory facts relating the atoms of f"""
        b = self.b
        ats = b.support_atoms(f)
        ax = TRUE
        seen = set(ats)
        todo = list(ats)
        by = {}
        for a in todo:
            by.setdefault(a[0], []).append(a)
        A = b.atom

        def add(x):
            nonlocal ax
            ax = b.and_(ax, x)

        inst = by.get('isinst', [])
        for i, x in enumerate(inst):
            for y in inst[i + 1:]:
                if x[1] != y[1]:
                    continue
                for p, q in ((x, y), (y, x)):
                    if p[2][0] in ('class', 'builtin', 'ext') and \
                            q[2][0] in ('class', 'builtin', 'ext') and \
                            self.cls_issub(p[2], q[2]) is True:
                        add(b.imp(A(p), A(q)))
                if x[2][0] in ('class', 'builtin', 'ext') and \
                        y[2][0] in ('class', 'builtin', 'ext') and \
                        self.disjoint(x[2], y[2]):
                    add(b.not_(b.and_(A(x), A(y))))
        for a in by.get('isnone', []):
            n, t = A(a), a[1]
            for x in inst:
                if x[1] == t and x[2][0] in ('class', 'builtin', 'ext'):
                    add(b.not_(b.and_(n, A(x))))
            for x in by.get('truthy', []):
                if x[1] == t:
                    add(b.not_(b.and_(n, A(x))))
            for x in by.get('callable', []):
                if x[1] == t:
                    add(b.not_(b.and_(n, A(x))))
            for x in by.get('is', []) + by.get('eq', []):
                if t in x[1:]:
                    o = x[2] if x[1] == t else x[1]
                    if o[0] in ('const',) + SING:
                        add(b.not_(b.and_(n, A(x))))
                    for y in by.get('isnone', []):
                        if y[1] == o:
                            add(b.imp(A(x), b.not_(
                                b.or_(b.and_(n, b.not_(A(y))),
                                      b.and_(A(y), b.not_(n))))))
            if t[0] == 'elem' or t[0] == 'item':
                pass
        for a in by.get('truthy', []):
            t = a[1]
            for x in by.get('is', []) + by.get('eq', []):
                if t in x[1:]:
                    o = x[2] if x[1] == t else x[1]
                    if o[0] == 'const':
                        add(b.imp(A(x), A(a) if o[2] else b.not_(A(a))))
                    elif o[0] in ('class', 'func', 'builtin', 'modvar'):
                        if o[0] != 'modvar' or self.modvar_truthy(o):
                            add(b.imp(A(x), A(a)))
            for x in inst:
                if x[1] == t and x[2][0] == 'class' and \
                        not self.cls_sized(x[2][1]):
                    add(b.imp(A(x), A(a)))
        for x in by.get('is', []):
            for y in by.get('eq', []):
                if x[1:] == y[1:]:
                    add(b.imp(A(x), A(y)))
        eqs = by.get('is', []) + by.get('eq', [])
        for i, x in enumerate(eqs):
            for y in eqs[i + 1:]:
                for p, o1 in ((x[1], x[2]), (x[2], x[1])):
                    for q, o2 in ((y[1], y[2]), (y[2], y[1])):
                        if p == q and o1 != o2 and \
                                o1[0] in ('const',) + SING and \
                                o2[0] in ('const',) + SING:
                            if o1[0] == 'const' and o2[0] == 'const' and \
                                    o1[2] == o2[2]:
                                continue
                            add(b.not_(b.and_(A(x), A(y))))
            # identity to a sentinel / class object fixes isinstance
            for p, o in ((x[1], x[2]), (x[2], x[1])):
                for y in inst:
                    if y[1] == p and o[0] == 'modvar' and \
                            y[2][0] in ('class', 'builtin'):
                        r = self.modvar_isinst(o, y[2])
                        if r is not None:
                            add(b.imp(A(x), A(y) if r else b.not_(A(y))))
                    if y[1] == p and o[0] == 'const' and \
                            y[2][0] in ('class', 'builtin', 'ext'):
                        r = self.isinst(o, y[2])
                        if r in (TRUE, FALSE):
                            add(b.imp(A(x), A(y) if r == TRUE
                                      else b.not_(A(y))))
        # typeof equality
        for x in by.get('is', []):
            for p, o in ((x[1], x[2]), (x[2], x[1])):
                if p[0] == 'typeof':
                    for y in inst:
                        if y[1] == p[1] and y[2] == o:
                            add(b.imp(A(x), A(y)))
        for x in by.get('exists', []):
            t = ('truthy', x[1])
            if t in seen:
                add(b.imp(A(x), A(t)))
        ex = by.get('exists', [])
        for i, x in enumerate(ex):
            for y in ex[i + 1:]:
                if x[1] == y[1]:
                    if b.imp(x[2], y[2]) == TRUE:
                        add(b.imp(A(x), A(y)))
                    if b.imp(y[2], x[2]) == TRUE:
                        add(b.imp(A(y), A(x)))
        for x in by.get('lt', []):
            y = ('lt', x[2], x[1])
            if y in seen:
                add(b.not_(b.and_(A(x), A(y))))
        return ax

    def modvar_truthy(self, t):
        return False

    def modvar_isinst(self, t, spec):
        return None

    def sat(self, f):
        if f == FALSE:
            return False
        return self.b.and_(f, self.axioms(f)) != FALSE

    def implies(self, g, phi):
        f = self.b.and_(g, self.b.not_(phi))
        return not self.sat(f)

    def counterexample(self, g, phi):
        f = self.b.and_(g, self.b.not_(phi))
        f = self.b.and_(f, self.axioms(f))
        return self.b.anysat(f)

    # ---- rendering
    def show(self, t, d=0):
        if not isinstance(t, tuple) or not t:
            return repr(t)
        if d > 7:
            return '..'
        k = t[0]
        s = lambda x: self.show(x, d + 1)
        if k == 'const':
            return repr(t[2])
        if k in ('param', 'sym'):
            return t[1]
        if k in ('class', 'func', 'module'):
            return t[1].split('.')[-1]
        if k in ('builtin', 'ext'):
            return t[1]
        if k == 'modvar':
            return t[2]
        if k == 'typeof':
            return 'type(%s)' % s(t[1])
        if k == 'attr':
            return '%s.%s' % (s(t[1]), t[2])
        if k == 'item':
            return '%s[%s]' % (s(t[1]), s(t[2]))
        if k == 'elem':
            return 'each(%s)' % s(t[1])
        if k == 'idx':
            return 'index(%s)' % s(t[1])
        if k == 'tuple':
            return '(%s)' % ', '.join(s(x) for x in t[1:])
        if k == 'bin':
            return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
        if k == 'call':
            return '%s(%s)' % (s(t[1]), ', '.join(
                [s(x) for x in t[2]] + ['%s=%s' % (n, s(v))
                                        for n, v in t[3]]))
        if k == 'new':
            return '<%s#%d>' % (t[2].split('.')[-1], t[1])
        if k == 'bound':
            return '%s.%s' % (s(t[1]), t[2].split('.')[-1])
        if k == 'phi':
            return 'phi{%s}' % ' | '.join(s(x) for g, x in t[1])
        if k == 'isinst':
            return 'isinstance(%s, %s)' % (s(t[1]), s(t[2]))
        if k == 'isnone':
            return '%s is None' % s(t[1])
        if k == 'truthy':
            return 'bool(%s)' % s(t[1])
        if k == 'eq':
            return '%s == %s' % (s(t[1]), s(t[2]))
        if k == 'is':
            return '%s is %s' % (s(t[1]), s(t[2]))
        if k == 'in':
            return '%s in %s' % (s(t[1]), s(t[2]))
        if k == 'lt':
            return '%s < %s' % (s(t[1]), s(t[2]))
        if k == 'hasattr':
            return 'hasattr(%s, %s)' % (s(t[1]), s(t[2]))
        if k == 'exists':
            return 'any[%s: %s]' % (s(t[1]), self.showg(t[2], d + 1))
        return '%s<%s>' % (k, ', '.join(
            s(x) if isinstance(x, tuple) else str(x) for x in t[1:]))

    def showg(self, g, d=0):
        if g == TRUE:
            return 'True'
        if g == FALSE:
            return 'False'
        if d > 6:
            return '..'
        # sum of cubes, bounded
        out = []

        def rec(n, path):
            if len(out) > 5:
                return
            if n == FALSE:
                return
            if n == TRUE:
                out.append(' & '.join(path) or 'True')
                return
            v, lo, hi = self.b.nodes[n]
            a = self.show(self.b.atoms[v], d + 1)
            rec(hi, path + [a])
            rec(lo, path + ['!(' + a + ')'])
        rec(g, [])
        return ' || '.join(out[:5]) + (' || ...' if len(out) > 5 else '')
