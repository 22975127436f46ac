"""C30: operations of typed collections are those of list and dict

Every operation is reduced to one *effect* on the members: a span of
positions is replaced by new members (appending replaces the empty span at
the end, pop() the span of one member, ...).  The span is an arithmetic term
over the number of members and the arguments; it is compared with the one
the built-in type uses at the representatives of every region (inside,
outside, at both ends, negative) of the arguments.
"""
import ast

from .base import *
from .colls import COLL, VALUES, CLS, members, mine
from .elems import elements
from .jsonio import default_of

LIST = 'normalize.coll.ListCollection'
DICT = 'normalize.coll.DictCollection'
KEEP = [COLL + '.coerce_value', COLL + '.__init__', 'normalize.record.']
SIZES = (0, 1, 2, 3)
NUMS = (-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5)
PURE = {'count', 'index', 'copy', 'get', 'keys', 'values', 'items',
        '__len__', '__contains__', '__getitem__', '__iter__'}


class Unknown(Exception):
    pass


class Num(object):
    """values of arithmetic terms and guards at one point"""

    def __init__(self, I, n, env, known=None):
        self.I, self.n, self.env, self.known = I, n, env, known or {}

    def hold(self, g):
        b = self.I.b
        if g in (FALSE, TRUE):
            return g == TRUE
        v, lo, hi = b.nodes[g]
        try:
            x = self.atom(b.atoms[v])
        except Unknown:
            lo, hi = self.hold(lo), self.hold(hi)
            if lo == hi:
                return lo
            raise
        return self.hold(hi if x else lo)

    def atom(self, a):
        if a in self.known:
            return self.known[a]
        k = a[0]
        if k in ('lt', 'eq', 'is') and len(a) == 3:
            x, y = self.val(a[1]), self.val(a[2])
            if k == 'lt':
                if x is None or y is None:
                    raise Unknown
                return x < y
            return x == y
        if k == 'isnone':
            return self.val(a[1]) is None
        if k == 'truthy':
            if a[1] in (VALUES, SELF):
                return self.n > 0
            return bool(self.val(a[1]))
        if k == 'isinst' and a[2][0] == 'builtin':
            x = self.val(a[1])
            if isinstance(x, (list, tuple)):
                raise Unknown
            return a[2][1] == type(x).__name__
        raise Unknown

    def val(self, t):
        if t in self.env:
            return self.env[t]
        k = t[0]
        if k == 'const':
            return t[-1]
        if k == 'len' and (t[1] == VALUES or t[1] == SELF):
            return self.n
        if k == 'phi':
            for g, x in t[1]:
                if self.hold(g):
                    return self.val(x)
            raise Unknown
        if k == 'bin' and len(t) == 4:
            x, y = self.val(t[2]), self.val(t[3])
            try:
                return {'Add': lambda: x + y, 'Sub': lambda: x - y,
                        'Mult': lambda: x * y, 'Mod': lambda: x % y,
                        'FloorDiv': lambda: x // y}[t[1]]()
            except (KeyError, TypeError, ZeroDivisionError):
                raise Unknown
        if k == 'un' and t[1] == 'USub':
            return -self.val(t[2])
        if k == 'tuple':
            return tuple(self.val(x) for x in t[1:])
        if k == 'range':
            return tuple(range(*[self.val(x) for x in t[1:]]))
        if k == 'sl':
            return slice(*[self.val(x) for x in t[1:]])
        if k == 'item':
            o, i = self.val(t[1]), self.val(t[2])
            if isinstance(o, tuple) and isinstance(i, int) and \
                    -len(o) <= i < len(o):
                return o[i]
            raise Unknown
        if k == 'call' and not t[3]:
            f = t[1]
            if f[0] == 'builtin' and f[1] in ('min', 'max', 'abs', 'slice',
                                              'int', 'range'):
                xs = [self.val(x) for x in t[2]]
                try:
                    return {'min': min, 'max': max, 'abs': abs, 'int': int,
                            'slice': slice,
                            'range': lambda *a: tuple(range(*a))}[f[1]](*xs)
                except TypeError:
                    raise Unknown
            if f[0] == 'attr' and f[2] == 'indices':
                s = self.val(f[1])
                xs = [self.val(x) for x in t[2]]
                if isinstance(s, slice) and len(xs) == 1:
                    return s.indices(*xs)
            if f == A(VALUES, '__len__') and not t[2]:
                return self.n
        raise Unknown


def pick(N, V):
    """the alternative of a guarded value at a point"""
    for g, t in V:
        if N.hold(g):
            if t[0] == 'phi':
                return pick(N, t[1])
            return t
    raise Unknown


def effects(I):
    """the events which change the members of the collection itself"""
    out = []
    for e in I.events:
        if e.kind in ('setitem', 'delitem') and e.target == VALUES or \
                e.kind == 'mut' and e.target == VALUES and \
                e.name not in PURE or \
                e.kind == 'store' and e.target == SELF and \
                e.attr in ('_values', const('_values')) or \
                e.kind == 'del' and e.get('target') == SELF:
            out.append(e)
    return out


def span(I, e, N):
    """(start, stop, guarded value of new members, many?)"""
    n = N.n

    def at(V):
        return N.val(pick(N, V))

    def one(i):
        if not isinstance(i, int):
            raise Unknown
        if i < 0:
            i += n
        return None if not 0 <= i < n else (i, i + 1)
    if e.kind in ('setitem', 'delitem'):
        k = N.val(e.key)
        new = e.value if e.kind == 'setitem' else None
        if isinstance(k, slice):
            a, z, s = k.indices(n)
            if s != 1:
                raise Unknown
            return (a, max(a, z)), new, True
        return one(k), new, False
    if e.kind == 'mut':
        if e.get('kws') or e.get('star'):
            raise Unknown
        a = e.args
        if e.name == 'append' and len(a) == 1:
            return (n, n), a[0], False
        if e.name in ('extend', '__iadd__') and len(a) == 1:
            return (n, n), a[0], True
        if e.name == 'insert' and len(a) == 2:
            i = at(a[0])
            i = max(0, i + n) if i < 0 else min(i, n)
            return (i, i), a[1], False
        if e.name == 'pop' and len(a) < 2:
            return one(at(a[0]) if a else -1), None, False
        if e.name == 'clear' and not a:
            return (0, n), None, False
    raise Unknown


def from_arg(t, x):
    """t is x, coerced or not"""
    if t == x:
        return True
    return t[0] == 'call' and t[2] == (x,) and not t[3] and (
        t[1][0] in ('attr', 'bound'))


def und(C, rule, con, w, msg):
    C.unk(rule, con, msg, w)


def run(C, cls, name):
    f = C.m.need_class(cls).lookup(name)[1]
    if not isinstance(f, Func):
        return None, None
    return f, C.run(f, selfcls=cls, boundary=KEEP)


def points(I, params):
    """every region of the integer arguments"""
    from itertools import product
    for n in SIZES:
        for vs in product(*[d for _, d in params]):
            yield n, dict(zip([p for p, _ in params], vs))


def same_span(C, con, f, I, params, want, new, many):
    """the one effect of an operation replaces the span `want(n, env)` by
    the members given"""
    rule = 'C30.effect'
    es = effects(I)
    w = where(f)
    seen = set()
    if new is not None:
        in_order(C, I, con, (P(new),))
        # where it goes does not depend on what it is
        for e in es:
            ks = [e.key] if e.kind in ('setitem', 'delitem') else [
                t for g, t in flat(I, e.args[0])] if e.kind == 'mut' and \
                e.name == 'insert' and len(e.args) == 2 else []
            gs = [e.guard] + [g for k in ks for y in subterms(k)
                              if y[0] == 'phi' for g, t in y[1]]
            ks += [a for g in gs for a in I.b.support_atoms(g)
                   if a[0] == 'lt']
            ks = [k for k in ks if mentions(k, P(new))]
            C.check(not ks or (None if any(
                y[0] == 'call' for k in ks for y in subterms(k)) else False),
                rule, con + ':where', 'the place is taken from the member',
                e.where, str([I.L.show(k)[:60] for k in ks]))
    if not any(e.loops for e in es):
        C.implies(I, exits(I), I.b.or_(*[e.guard for e in es]), rule,
                  con + ':always', 'the members are left as they were', w)
    for n, env in points(I, params):
        N = Num(I, n, {P(k): v for k, v in env.items()})
        sp = want(n, **env)
        try:
            live = [e for e in es if not e.loops and N.hold(e.guard)]
            loop = [e for e in es if e.loops]
        except Unknown:
            if not searched(C, I, con, es):
                und(C, rule, con, w, 'guard')
            return
        if loop:
            for e in loop:
                if not grows(C, I, e, con, new, many):
                    und(C, rule, con, w, 'a loop')
            return
        if len(live) > 1:
            und(C, rule, con, w, 'more than one effect')
            return
        if not live:
            if sp is not None and not I.unsupported:
                C.check(False, rule, con, 'the members are left as they '
                        'were', w, '%d members, %r' % (n, env))
                return
            continue
        e = live[0]
        try:
            got, val, m = span(I, e, N)
        except Unknown:
            if not searched(C, I, con, [e]):
                und(C, rule, con, e.where, e.kind)
            return
        if sp is None:
            # the built-in raises; what is done instead must raise as well
            C.check(got is None, rule, con + ':range', 'an index beyond the '
                    'members is accepted', e.where, '%d members, %r' % (
                        n, env))
            if got is not None:
                return
            continue
        if got != sp:
            C.check(False, rule, con + ':position', 'another position than '
                    'on the built-in type', e.where,
                    '%d members, %r: %r for %r' % (n, env, got, sp))
            return
        seen.add((e, m))
    C.ok(rule, con, w)
    for e, m in seen:
        contents(C, I, e, m, con, new, many)


def unwrap(I, t):
    """the sequence a copy is of"""
    while True:
        if t[0] == 'seq1':
            t = t[1]
        elif t[0] == 'call' and t[1][0] == 'builtin' and len(t[2]) == 1 and \
                t[1][1] in ('list', 'tuple', 'iter'):
            t = t[2][0]
        elif t in I.conts and len(I.conts[t].entries) == 1 and \
                I.conts[t].entries[0].star and \
                len(I.conts[t].entries[0].val) == 1:
            t = I.conts[t].entries[0].val[0][1]
        else:
            return t


def part_of(I, d, terms):
    """d is some of the members of one of the sequences"""
    if d[0] == 'slice' or d[0] == 'item' and d[2][0] == 'sl':
        x = unwrap(I, d[1])
        return x in terms or part_of(I, x, terms)
    return False


def searched(C, I, con, es):
    """the position is found by comparing members"""
    for e in es:
        at_ = e.key if e.kind in ('setitem', 'delitem') else \
            ('tuple',) + tuple(t for a in e.get('args') or () for _, t in a)
        if mentions(at_, ('idx', VALUES)) and not opaque(at_):
            C.check(False, 'C30.effect', con + ':position', 'the position '
                    'depends on what the members are equal to', e.where,
                    I.L.show(at_)[:80])
            return True
    return False


def in_order(C, I, con, terms, allowed=FALSE):
    """nothing is turned round or sorted on the way"""
    for e in evs(I, 'reversed', 'sorted'):
        t = unwrap(I, e.arg)
        if t in terms:
            C.implies(I, e.guard, allowed if e.kind == 'sorted' else FALSE,
                      'C30.order', con, 'members are not taken in their '
                      'order', e.where)
    C.ok('C30.order', con, where(I.entry))


def grows(C, I, e, con, new, many):
    """members added one at a time by a loop over the argument"""
    if e.kind == 'mut' and e.name == 'append' and many and new is not None \
            and e.loops == (P(new),):
        C.check(False, 'C30.aliasing', con, 'members are added while the '
                'argument, which may be the collection itself, is iterated '
                'over', e.where)
        return True
    return False


def contents(C, I, e, m, con, new, many):
    rule = 'C30.members'
    val = e.value if e.kind == 'setitem' else e.args[-1] if (
        e.kind == 'mut' and e.args and e.name != 'pop') else None
    if new is None:
        C.check(val is None, rule, con, 'members are put in', e.where)
        return
    src = P(new)
    for g, t in flat(I, val, e.guard):
        if not m:
            if many:
                und(C, rule, con, e.where, 'one for many')
                continue
            C.check(True if from_arg(t, src) else None if opaque(t) else
                    False, rule, con, 'what is put in is not the item '
                    'given', e.where, I.L.show(t)[:120])
            continue
        if many and e.kind == 'mut':
            lazy = t in I.conts and I.conts[t].kind == 'gen' or \
                t == src or t[0] == 'map'
            C.check(not lazy, 'C30.aliasing', con, 'members are added while '
                    'the argument, which may be the collection itself, is '
                    'iterated over', e.where, I.L.show(t)[:80])
        els = elements(I, t, g)
        if not many:
            C.check(len(els) == 1 and from_arg(els[0][1], src) if not any(
                opaque(x) or x[0] == 'elem' for _, x in els) else None, rule,
                con, 'what is put in is not the item given', e.where,
                I.L.show(t)[:120])
            continue
        want = ('elem', src)
        ok = [x for x in els if from_arg(x[1], want)]
        bad = [x for x in els if not from_arg(x[1], want)]
        C.check(True if not bad else None if any(
            opaque(x) or x[0] == 'elem' for _, x in bad) else False, rule,
            con, 'what is put in are not the items given', e.where,
            I.L.show(t)[:120])
        C.implies(I, g, I.b.or_(*[x for x, _ in ok]) if ok else FALSE, rule,
                  con + ':all', 'items given are left out', e.where)


def clamp(n, i):
    return max(0, i + n) if i < 0 else min(i, n)


def at(n, i):
    if i < 0:
        i += n
    return (i, i + 1) if 0 <= i < n else None


def untouched(C, con, f, I):
    """an operation which reads does not change the members"""
    for e in effects(I):
        C.never(I, e.guard, 'C30.reads', con, 'reading changes the members',
                e.where)
    C.ok('C30.reads', con, where(f))


def result(C, I, f, con, want, msg):
    """every alternative returned is accepted by `want` (True, False or None
    where it can't be told)"""
    n = 0
    for g, t in flat(I, I.rv, exits(I)):
        n += 1
        r = want(g, t)
        C.check(None if r is None and True else r, 'C30.result', con, msg,
                where(f), I.L.show(t)[:120])
    if not n:
        und(C, 'C30.result', con, where(f), 'no result')


def ints(*names):
    return [(n, NUMS) for n in names]


def c30(C):
    C.m.need_class(LIST)
    C.m.need_class(DICT)
    lists(C)
    reads(C)
    index(C)
    removal(C)
    pops(C)
    items_set(C)
    adding(C)
    dicts(C)
    updates(C)
    alias(C)
    numbering(C)
    equality(C)


def missing(C, f, con, cls, name):
    if f is None:
        C.check(False, 'C30.present', con, '%s has no operation %s()' % (
            short(cls), name), short(cls))
        return True
    return False


def lists(C):
    ends = lambda n, **k: (n, n)                           # noqa: E731
    for name, params, want, argi, many in (
            ('append', [], ends, 0, False),
            ('extend', [], ends, 0, True),
            ('insert', 1, lambda n, i: (clamp(n, i),) * 2, 1, False)):
        con = short(LIST) + '.' + name
        f, I = run(C, LIST, name)
        if missing(C, f, con, LIST, name):
            continue
        args = [a.arg for a in f.node.args.args[1:]]
        ps = [(args[0], NUMS)] if params == 1 else []
        if params == 1:
            w = (lambda want, p: lambda n, **k: want(n, k[p]))(want, args[0])
        else:
            w = want
        same_span(C, con, f, I, ps, w, None if argi is None else args[argi],
                  many)
    for cls in (LIST, DICT):
        con = short(cls) + '.__delitem__'
        f, I = run(C, cls, '__delitem__')
        if missing(C, f, con, cls, '__delitem__'):
            continue
        K = P(f.node.args.args[1].arg)
        hit = FALSE
        for e in effects(I):
            hit = I.b.or_(hit, e.guard)
            if e.kind == 'delitem':
                C.check(e.key == K or (None if opaque(e.key) or
                                       e.key[0] == 'call' else False),
                        'C30.effect', con + ':key', 'another member is '
                        'taken out', e.where, I.L.show(e.key)[:80])
            elif e.kind != 'mut' or e.name not in ('pop', '__delitem__'):
                und(C, 'C30.effect', con, e.where, e.kind)
        C.implies(I, exits(I), hit, 'C30.effect', con, 'the members are '
                  'left as they were', where(f))
    for name in ('reverse', 'sort'):
        con = short(LIST) + '.' + name
        f, I = run(C, LIST, name)
        if missing(C, f, con, LIST, name):
            continue
        es = effects(I)
        hit = FALSE
        for e in es:
            if e.kind == 'mut' and e.name == name:
                hit = I.b.or_(hit, e.guard)
                if name == 'sort':
                    a = f.node.args
                    C.check(bool(e.get('star') or e.args) or not a.vararg,
                            'C30.effect', con + ':arguments', 'the '
                            'arguments of sort() are dropped', e.where)
                    C.check(bool(e.get('starkw') or e.kws) or not a.kwarg,
                            'C30.effect', con + ':keywords', 'the key or '
                            'the order asked for is dropped', e.where)
            else:
                und(C, 'C30.effect', con, e.where, e.kind)
                hit = TRUE
        C.implies(I, TRUE, hit, 'C30.effect', con, 'the members are left as '
                  'they were', where(f))


def is_len(t):
    return t == ('len', VALUES)


def reads(C):
    key = lambda f: P(f.node.args.args[1].arg)             # noqa: E731

    def length(f, I):
        return lambda g, t: True if is_len(t) else None if opaque(t) or \
            t[0] == 'call' else False

    def getitem(f, I):
        k = key(f)
        return lambda g, t: True if t == ('item', VALUES, k) else \
            None if opaque(t) else False

    def count(f, I):
        k = key(f)
        return lambda g, t: True if t == (
            'call', A(VALUES, 'count'), (k,), ()) else \
            None if t[0] not in ('const', 'len') else False
    for cls, name, want in ((LIST, '__len__', length),
                            (DICT, '__len__', length),
                            (LIST, '__getitem__', getitem),
                            (DICT, '__getitem__', getitem),
                            (LIST, 'count', count)):
        con = short(cls) + '.' + name
        f, I = run(C, cls, name)
        if missing(C, f, con, cls, name):
            continue
        result(C, I, f, con, want(f, I), 'not what the built-in type gives')
        untouched(C, con, f, I)
    for cls in (LIST, DICT):
        name = '__contains__'
        con = short(cls) + '.' + name
        f, I = run(C, cls, name)
        if missing(C, f, con, cls, name):
            continue
        untouched(C, con, f, I)
        x = key(f)
        cand = [x]
        if cls == LIST:
            cand = [t for t in [e.get('result') for e in evs(I, 'call')]
                    if t and t[0] == 'call' and from_arg(t, x)]
            C.check(bool(cand) or (None if I.unsupported else False),
                    'C30.result', con + ':converted', 'the item looked for '
                    'is not converted to the type of the members', where(f))
            cand.append(x)
        ins = I.b.or_(*[I.L.in_(c, VALUES) for c in cand])
        yes, unk = FALSE, False
        for g, t in flat(I, I.rv, exits(I)):
            if t[0] == 'const':
                yes = I.b.or_(yes, g) if t[-1] else yes
            else:
                unk = True
        if unk or any(a[0] in ('exists', 'first') or opaque(a)
                      for a in I.b.support_atoms(yes)):
            und(C, 'C30.result', con, where(f), 'not a truth value')
            continue
        C.implies(I, yes, ins, 'C30.result', con, 'an item is said to be in '
                  'the collection which is not', where(f))
        C.implies(I, exits(I), I.b.or_(yes, I.b.not_(ins)) if len(
            cand) == 1 else I.b.or_(yes, *[
                I.b.not_(I.L.in_(c, VALUES)) for c in cand[:-1]]),
            'C30.result', con + ':found', 'an item of the collection is not '
            'found', where(f))


def index(C):
    """index(x, i, j): the first position in range(*slice(i, j).indices(n))
    at which the member equals x; ValueError without one"""
    con, rule = short(LIST) + '.index', 'C30.index'
    f, I = run(C, LIST, 'index')
    if missing(C, f, con, LIST, 'index'):
        return
    w = where(f)
    untouched(C, con, f, I)
    args = [a.arg for a in f.node.args.args[1:]]
    if len(args) != 3:
        und(C, rule, con, w, 'other parameters')
        return
    x, pi, pj = args
    d = default_of(f, pi)
    C.check(None if d is None else d.value in (0, None), rule, con +
            ':start', 'the search starts elsewhere by default', w)
    X = P(x)
    loops = [e for e in evs(I, 'return') if len(e.stack) == 1 and e.loops]
    plain = [e for e in evs(I, 'return') if len(e.stack) == 1 and
             not e.loops and e.guard != FALSE]
    if any(len(e.loops) != 1 for e in loops):
        und(C, rule, con, w, 'nested loops')
        return
    for e in plain:
        for g, t in flat(I, e.value, e.guard):
            if t[0] == 'const':
                C.never(I, g, rule, con + ':none', 'no position is given '
                        'and nothing is raised', e.where)
            else:
                und(C, rule, con, e.where, I.L.show(t)[:60])
    vs = [r for r in raises(I) if exc_name(r) == 'ValueError' or
          r.sym == ('builtin', 'ValueError') or r.sym == 'ValueError']
    for e in raises(I):
        if e not in vs:
            C.never(I, e.guard, rule, con + ':raise', 'raises another '
                    'exception than list.index()', e.where,)
    if not loops:
        und(C, rule, con, w, 'no loop')
        return
    C.check(bool(vs), rule, con + ':missing', 'no ValueError for an item '
            'which is not there', w)
    if len(loops) > 1:
        und(C, rule, con, w, 'several loops')
        return
    r = loops[0]
    dom = r.loops[0]
    eqs = [a for a in I.b.support_atoms(r.guard) if a[0] == 'eq' and
           X in a[1:]]
    if len(eqs) != 1:
        if not any(opaque(a) or a[0] not in ('lt',)
                   for a in I.b.support_atoms(r.guard)):
            C.check(False, rule, con + ':equal', 'the position of a member '
                    'which is not equal is given', r.where)
        else:
            und(C, rule, con, w, 'which member is compared')
        return
    in_order(C, I, con, (dom, VALUES))
    eq = eqs[0]
    mem = eq[2] if eq[1] == X else eq[1]
    from itertools import product
    for n in SIZES:
        for i, j in product(NUMS, NUMS + (None,)):
            env = {P(pi): i, P(pj): j}
            N = Num(I, n, env)
            try:
                got = tested(I, N, dom, mem, r, eq)
            except Unknown:
                und(C, rule, con, w, I.L.show(dom)[:80])
                return
            want = list(range(*slice(i, j).indices(n)))
            if got != want:
                C.check(False, rule, con, 'other positions are searched '
                        'than list.index() searches', r.where,
                        '%d members, index(x, %r, %r): %r for %r' % (
                            n, i, j, got, want))
                return
    C.ok(rule, con, w)


def positions(I, N, dom):
    """the (position, ordinal) of each turn of a loop"""
    if dom[0] == 'range':
        return [(p, p) for p in N.val(dom)]
    if dom == VALUES or dom == SELF:
        return [(p, k) for k, p in enumerate(range(N.n))]
    if dom[0] == 'slice' or dom[0] == 'item' and dom[2][0] == 'sl':
        o, s = dom[1], dom[2] if dom[0] == 'item' else None
        if o in (VALUES, SELF):
            s = N.val(s) if s is not None else slice(
                *[N.val(x) for x in dom[2:]])
            return [(p, k) for k, p in enumerate(
                range(*s.indices(N.n)))]
    raise Unknown


def tested(I, N, dom, mem, r, eq):
    out = []
    for p, k in positions(I, N, dom):
        env = dict(N.env)
        if dom[0] == 'range':
            env[('elem', dom)] = p
        env[('idx', dom)] = k
        M = Num(I, N.n, env, {eq: True})
        if mem == ('elem', dom):
            q = p
        elif mem[0] == 'item' and mem[1] == VALUES:
            q = M.val(mem[2])
        else:
            raise Unknown
        if not 0 <= q < N.n:
            q = ('beyond', q)
        if not M.hold(r.guard):
            continue
        if Num(I, N.n, env, {eq: False}).hold(r.guard):
            raise Unknown
        t = pick(M, r.value)
        if t == ('elem', dom) and dom[0] != 'range':
            raise Unknown
        out.append(q if M.val(t) == q else ('not', q))
    return out


def removal(C):
    """remove(x): the first member equal to x goes"""
    con, rule = short(LIST) + '.remove', 'C30.remove'
    f, I = run(C, LIST, 'remove')
    if missing(C, f, con, LIST, 'remove'):
        return
    w = where(f)
    X = P(f.node.args.args[1].arg)
    hit = FALSE
    for e in effects(I):
        if e.kind == 'mut' and e.name == 'remove' and e.args and \
                all(from_arg(t, X) for g, t in flat(I, e.args[0])):
            hit = I.b.or_(hit, e.guard)
            continue
        if e.kind == 'delitem' and e.key == ('idx', VALUES):
            eq = I.L.eq(('elem', VALUES), X)
            C.implies(I, e.guard, eq, rule, con, 'a member which is not '
                      'equal is removed', e.where)
            hit = TRUE
            continue
        if e.kind == 'delitem' and e.key[0] == 'call' and \
                e.key[1][0] in ('attr', 'bound', 'func') and \
                str(e.key[1][2 if e.key[1][0] != 'func' else 1]).rpartition(
                    '.')[2] == 'index':
            hit = TRUE
            continue
        if e.kind in ('store', 'setitem') and e.value:
            # all members but those which are equal
            for g, t in flat(I, e.value, e.guard):
                es = I.conts[t].entries if t in I.conts else ()
                if es and all(not x.star and x.loops for x in es) and all(
                        not I.L.sat(I.b.and_(x.guard, I.L.eq(
                            u, X))) for x in es
                        for h, u in flat(I, x.val) if u == (
                            'elem', VALUES)) and all(
                        u == ('elem', VALUES) for x in es
                        for h, u in flat(I, x.val)):
                    C.never(I, g, rule, con, 'not only the first equal '
                            'member is removed', e.where)
        if e.kind == 'delitem' and e.key[0] == 'bin' and mentions(
                e.key, ('idx', VALUES)):
            C.check(False, rule, con, 'another member is removed', e.where,
                    I.L.show(e.key)[:80])
        hit = TRUE
        und(C, rule, con, e.where, e.kind)
    C.implies(I, exits(I), hit, rule, con + ':removed', 'nothing is removed',
              w)


def pops(C):
    """pop(i): the member at i is returned and goes"""
    con, rule = short(LIST) + '.pop', 'C30.pop'
    f, I = run(C, LIST, 'pop')
    if not missing(C, f, con, LIST, 'pop'):
        w = where(f)
        args = [a.arg for a in f.node.args.args[1:]]
        if len(args) == 1:
            d = default_of(f, args[0])
            ast_ = f.node.args.defaults
            C.check(bool(ast_) and ast.unparse(ast_[0]) == '-1' or (
                None if ast_ and not isinstance(
                    ast_[0], (ast.Constant, ast.UnaryOp)) or
                d is not None and d.value is None else False), rule,
                con + ':default', 'another member than the last is taken by '
                'default', w)
            # for an index out of range list.pop() raises, and so does the
            # access of the member
            same_span(C, con, f, I, [(args[0], NUMS)],
                      lambda n, **k: at(n, k[args[0]]), None, False)
            for n, env in points(I, [(args[0], NUMS)]):
                i = env[args[0]]
                if at(n, i) is None:
                    continue
                N = Num(I, n, {P(args[0]): i})
                try:
                    t = pick(N, I.rv)
                    if t[0] == 'item' and t[1] == VALUES:
                        k = N.val(t[2])
                    elif t[0] == 'call' and t[1] == A(VALUES, 'pop') and \
                            not t[3]:
                        k = N.val(t[2][0]) if t[2] else -1
                    elif t[0] == 'const':
                        k = None
                    else:
                        raise Unknown
                except Unknown:
                    und(C, 'C30.result', con, w, 'result')
                    break
                k = k + n if k is not None and k < 0 else k
                if k != at(n, i)[0]:
                    C.check(False, 'C30.result', con, 'another member than '
                            'the one taken is returned', w,
                            '%d members, pop(%d)' % (n, i))
                    break
            else:
                C.ok('C30.result', con, w)
        else:
            und(C, rule, con, w, 'other parameters')
    for name in ('pop', 'popitem', 'clear'):
        con = short(DICT) + '.' + name
        f, I = run(C, DICT, name)
        if missing(C, f, con, DICT, name):
            continue
        w = where(f)
        k = [P(a.arg) for a in f.node.args.args[1:2]]
        hit = FALSE
        for e in effects(I):
            if e.kind == 'mut' and e.name == name:
                if name == 'pop':
                    C.check(None if not e.args else all(
                        t == k[0] for g, t in flat(I, e.args[0])), rule, con,
                        'another key is taken out', e.where)
                hit = I.b.or_(hit, e.guard)
            elif name == 'pop' and e.kind == 'delitem':
                C.check(e.key == k[0] or (None if opaque(e.key) else False),
                        rule, con, 'another key is taken out', e.where)
                hit = I.b.or_(hit, e.guard)
            else:
                und(C, rule, con, e.where, e.kind)
                hit = TRUE
        C.implies(I, exits(I), hit, rule, con + ':done', 'the members are '
                  'left as they were', w)
        if name != 'clear':
            result(C, I, f, con, lambda g, t: True if (
                t[0] == 'item' and t[1] == VALUES and t[2] in k or
                t[0] == 'call' and t[1] == A(VALUES, name) and
                t[2] == tuple(k)) else False if t[0] == 'const' else None,
                'what is taken out is not returned')


def items_set(C):
    """c[key] = x"""
    rule = 'C30.setitem'
    for cls in (LIST, DICT):
        con = short(cls) + '.__setitem__'
        f, I = run(C, cls, '__setitem__')
        if missing(C, f, con, cls, '__setitem__'):
            continue
        w = where(f)
        K, V = [P(a.arg) for a in f.node.args.args[1:3]]
        sl = I.L.isinst(K, ('builtin', 'slice')) if cls == LIST else FALSE
        done = FALSE
        for e in effects(I):
            if e.kind != 'setitem':
                und(C, rule, con, e.where, e.kind)
                done = TRUE
                continue
            C.check(e.key == K or (None if opaque(e.key) or
                                   e.key[0] in ('sl', 'call') else False),
                    rule, con + ':key', 'another member is set', e.where,
                    I.L.show(e.key)[:80])
            done = I.b.or_(done, e.guard)
            for g, t in flat(I, e.value, e.guard):
                gs, gn = I.b.and_(g, sl), I.b.and_(g, I.b.not_(sl))
                if gn != FALSE and not from_arg(t, V):
                    if opaque(t):
                        und(C, rule, con, e.where, 'value')
                    else:
                        C.never(I, gn, rule, con + ':value', 'another '
                                'value is set', e.where, I.L.show(t)[:80])
                if gs == FALSE:
                    continue
                els = elements(I, t, gs)
                ok = [x for x, y in els if from_arg(y, ('elem', V))]
                if any(opaque(y) or y[0] == 'elem' and y[1] != V
                       for _, y in els):
                    und(C, rule, con, e.where, 'slice')
                    continue
                C.implies(I, gs, I.b.or_(*ok) if ok else FALSE, rule, con +
                          ':slice', 'items given for a slice are left out',
                          e.where)
        C.implies(I, exits(I), done, rule, con, 'nothing is set', w)


def adding(C):
    """a + b: a new collection of the members of a, then those of b"""
    con, rule = short(LIST) + '.__add__', 'C30.add'
    f, I = run(C, LIST, '__add__')
    if missing(C, f, con, LIST, '__add__'):
        return
    untouched(C, con, f, I)
    w = where(f)
    in_order(C, I, con, (VALUES,))
    O = P(f.node.args.args[1].arg)
    for e in I.events:
        if e.kind in ('setitem', 'delitem', 'mut') and (
                e.target == A(O, '_values') or e.target == O):
            C.never(I, e.guard, rule, con + ':operand', 'the other operand '
                    'is changed', e.where)

    def of_other(t):
        if t == O or t == A(O, '_values'):
            return True
        if t[0] == 'attr' and t[2] == '_values':
            return of_other(t[1])
        if t[0] == 'newof' and len(t) > 3:
            return any(of_other(x) for x in arguments(t))
        return False

    def arguments(t, g0=TRUE):
        for e in evs(I, 'construct', 'call'):
            if e.get('result') == t:
                for a in e.args or ():
                    for g, x in flat(I, a, I.b.and_(e.guard, g0)):
                        yield x

    def order(t, g):
        """the operands in order: 'a', 'b'"""
        if t in (VALUES, SELF):
            return 'a'
        if of_other(t):
            return 'b'
        if t[0] == 'bin' and t[1] == 'Add':
            return order(t[2], g) + order(t[3], g)
        if t[0] == 'attr' and t[2] == '_values':
            return order(t[1], g)
        if t[0] == 'newof' and len(t) > 3:
            xs = {order(x, g) for x in arguments(t)}
            return xs.pop() if len(xs) == 1 else '?'
        if t[0] == 'phi':
            xs = {order(x, g) for _, x in t[1]}
            return xs.pop() if len(xs) == 1 else '?'
        if t in I.conts:
            s = ''
            for e in I.conts[t].entries:
                xs = set()
                for gg, x in flat(I, e.val):
                    if e.star:
                        xs.add(order(x, gg))
                    elif e.loops and x == ('elem', e.loops[-1]):
                        xs.add(order(e.loops[-1], gg))
                s += xs.pop() if len(xs) == 1 else '?'
            return s
        return '?'

    def want(g, t):
        if t in (SELF, O) or t[0] in ('const', 'bin') or t in I.conts:
            return False
        if t[0] != 'newof':
            return None
        if t[2] != CLS:
            return None
        args = list(arguments(t, g))
        mut = [e for e in I.events if e.kind == 'mut' and e.target in (
            A(t, '_values'), t)]
        if mut or not args:
            return None
        plain = I.b.and_(g, I.b.not_(I.L.isinst(O, CLS)), *[
            I.L.isinst(O, x) for x in (
                A(CLS, 'colltype'), A(SELF, 'colltype'),
                ('builtin', 'list'))])
        if plain != FALSE and any(mentions(y, A(O, '_values'))
                                  for x in args for y in (x,)) and \
                not opaque_guard(I, plain):
            C.never(I, plain, rule, con + ':plain', 'a plain list is not '
                    'converted first', where(f))
        for s in (order(x, g) for x in args):
            if '?' in s:
                return None
            if s != 'ab':
                return False
        return True
    result(C, I, f, con, want, 'not the members of both, one after the '
           'other, in a new collection')


def canon_kv(t):
    """'k' a key, 'v' the value of the key, None otherwise"""
    els = (('elem', VALUES), ('elem', ('keys', VALUES)))
    it = ('elem', ('items', VALUES))
    if t in els or t == ('item', it, const(0)):
        return 'k'
    if t == ('elem', ('values', VALUES)) or t == ('item', it, const(1)) or \
            t[0] == 'item' and t[1] == VALUES and t[2] in els + (
                ('item', it, const(0)),):
        return 'v'
    if t == it:
        return 'kv'
    if t[0] == 'tuple' and len(t) == 3:
        xs = [canon_kv(x) for x in t[1:]]
        return ''.join(xs) if None not in xs else None
    return None


WHOLE = {('items', VALUES): 'kv', ('values', VALUES): 'v', VALUES: 'k',
         SELF: 'k', ('items', SELF): 'kv', ('values', SELF): 'v',
         ('keys', SELF): 'k',
         ('keys', VALUES): 'k'}


def sequence(I, t, depth=0):
    """'k', 'v', 'kv': the whole of the keys, values or items; '' where
    some are left out; None: not known"""
    if depth > 6:
        return None
    if t in WHOLE:
        return WHOLE[t]
    if t[0] == 'seq1':
        return sequence(I, t[1], depth + 1)
    if t[0] == 'call' and t[1][0] == 'builtin' and t[1][1] in (
            'list', 'tuple', 'iter') and len(t[2]) == 1:
        return sequence(I, t[2][0], depth + 1)
    if t in I.conts:
        es = I.conts[t].entries
        if len(es) != 1:
            return None
        e = es[0]
        vals = flat(I, e.val)
        if len(vals) != 1:
            return None
        if e.star:
            return sequence(I, vals[0][1], depth + 1)
        s = canon_kv(vals[0][1])
        if e.loops and part_of(I, e.loops[-1], WHOLE):
            return ''
        if e.loops and mentions(vals[0][1], ('item', ('elem', e.loops[-1]),
                                             const(0))) and \
                WHOLE.get(e.loops[-1]) in ('k', 'v'):
            return ''
        if s is None or not e.loops:
            return None
        g = I.b.and_(e.guard, vals[0][0])
        if g != TRUE:
            return None if opaque_guard(I, g) else ''
        return s
    return None


def dicts(C):
    rule = 'C30.views'
    for name, want in (('itertuples', 'kv'), ('iteritems', 'kv'),
                       ('items', 'kv'), ('iterkeys', 'k'),
                       ('itervalues', 'v'), ('keys', 'k'), ('values', 'v'),
                       ('__iter__', 'k')):
        con = short(DICT) + '.' + name
        f, I = run(C, DICT, name)
        if missing(C, f, con, DICT, name):
            continue
        untouched(C, con, f, I)
        for g, t in flat(I, I.rv, exits(I)):
            s = sequence(I, t)
            C.check(None if s is None and t[0] != 'const' else s == want,
                    rule, con, 'not all the %s of the mapping' % {
                        'kv': '(key, value) pairs', 'k': 'keys',
                        'v': 'values'}[want], where(f),
                    I.L.show(t)[:80])
        in_order(C, I, con, tuple(WHOLE))
        whole_loop(C, I, lambda d: mentions(d, VALUES), rule, con + ':all',
                   'the members are not all given', True)
    f, I = run(C, LIST, '__iter__')
    con = short(LIST) + '.__iter__'
    if not missing(C, f, con, LIST, '__iter__'):
        untouched(C, con, f, I)
        for g, t in flat(I, I.rv, exits(I)):
            s = sequence(I, t)
            C.check(None if s is None and t[0] != 'const' else s == 'k',
                    rule, con, 'not the members in order', where(f),
                    I.L.show(t)[:80])
        in_order(C, I, con, tuple(WHOLE))
        whole_loop(C, I, lambda d: mentions(d, VALUES), rule, con + ':all',
                   'the members are not all given', True)
    for cls, nm in ((LIST, 'itertuples'),):
        con = short(cls) + '.' + nm
        f, I = run(C, cls, nm)
        if missing(C, f, con, cls, nm):
            continue
        untouched(C, con, f, I)


def alias(C):
    """the old name `values` of a list collection is the collection"""
    con, rule = short(LIST) + '.values', 'C30.alias'
    k = C.m.need_class(LIST)
    f, st = k.lookup('values')[1], k.setters.get('values')
    if isinstance(f, Func):
        I = C.run(f, selfcls=LIST, boundary=KEEP)
        for g, t in flat(I, I.rv, exits(I)):
            C.check(True if t in (SELF, VALUES) else False if
                    t[0] == 'const' else None, rule, con, 'not the members',
                    where(f))
        untouched(C, con, f, I)
    if isinstance(st, Func):
        I = C.run(st, selfcls=LIST, boundary=KEEP)
        C.implies(I, exits(I), I.b.or_(*[e.guard for e in effects(I)]),
                  rule, con + ':set', 'assignment changes nothing',
                  where(st))
        for e in effects(I):
            if e.kind == 'setitem':
                C.check(True if e.key[0] == 'sl' and
                        e.key[1:3] in ((const(None), const(None)), (const(0), const(None))) else
                        None if opaque(e.key) or e.key[0] != 'sl' else False,
                        rule, con + ':span', 'not all members are replaced',
                        e.where)
                contents(C, I, e, True, con, st.node.args.args[1].arg, True)


def updates(C):
    """update(x, **kw): what a mapping maps, or pairs; then the keywords"""
    con, rule = short(DICT) + '.update', 'C30.update'
    f, I = run(C, DICT, 'update')
    if missing(C, f, con, DICT, 'update'):
        return
    w = where(f)
    X = P(f.node.args.args[1].arg) if len(f.node.args.args) > 1 else None
    KW = P('**' + f.node.args.kwarg.arg) if f.node.args.kwarg else None
    if X is None or KW is None:
        und(C, rule, con, w, 'other parameters')
        return
    b = I.b
    in_order(C, I, con, (X, ('items', X)))
    cases = {'mapping': FALSE, 'pairs': FALSE, 'keywords': FALSE}
    order = []
    unk = False
    for e in effects(I):
        if e.kind != 'setitem' or not e.loops:
            unk = True
            und(C, rule, con, e.where, e.kind)
            continue
        k = e.key
        for g, t in flat(I, e.value, e.guard):
            v = t
            while v[0] == 'call' and len(v[2]) == 1 and not v[3] and \
                    v[1][0] in ('attr', 'bound'):
                v = v[2][0]
            d = e.loops[-1]
            what = None
            if part_of(I, d, (X, ('items', X), ('keys', X), KW,
                              ('items', KW))):
                C.check(False, rule, con + ':all', 'items are left out',
                        e.where, I.L.show(d)[:80])
                unk = True
                continue
            if d in (KW, ('items', KW)):
                what = 'keywords'
                good = k in (('elem', d), ('item', ('elem', ('items', d)),
                                           const(0))) and v in (
                    ('item', d, ('elem', d)),
                    ('item', ('elem', ('items', d)), const(1)))
            elif d == X or d in (('items', X), ('keys', X)):
                if k == ('item', ('elem', X), const(0)):
                    what = 'pairs'
                    good = v == ('item', ('elem', X), const(1))
                elif k == ('elem', X) or k == ('elem', d):
                    what = 'mapping'
                    good = v in (('item', X, k),)
                elif k == ('item', ('elem', ('items', X)), const(0)):
                    what = 'mapping'
                    good = v in (('item', ('elem', ('items', X)), const(1)),
                                 ('item', X, k))
                elif mentions(k, ('elem', X)) and not opaque(k):
                    what, good = 'pairs', False
            if what is None:
                unk = True
                und(C, rule, con, e.where, I.L.show(k)[:60])
                continue
            C.check(True if good else None if opaque(v) else False, rule,
                    con + ':' + what, 'a key is set to a value which is not '
                    'its own', e.where, '%s: %s' % (I.L.show(k)[:50],
                                                    I.L.show(v)[:50]))
            cases[what] = b.or_(cases[what], g)
            order.append(what)
    if unk:
        return
    none = I.L.isnone(X)
    keys = b.and_(I.L.hasattr(X, const('keys')), I.L.truthy(A(X, 'keys')),
                  b.atom(('callable', A(X, 'keys'))))
    C.implies(I, b.and_(keys, b.not_(none)), b.or_(cases['mapping']), rule,
              con + ':mapping', 'the items of a mapping are not all taken '
              'in', w)
    C.implies(I, b.and_(b.not_(I.L.hasattr(X, const('keys'))),
                        b.not_(none)), cases['pairs'], rule, con + ':pairs',
              'pairs are not all taken in', w)
    C.implies(I, TRUE, cases['keywords'], rule, con + ':keywords',
              'keywords are not all taken in', w)
    C.check('keywords' not in order or order[-1] == 'keywords', rule,
            con + ':order', 'a keyword does not take precedence', w)
    whole_loop(C, I, lambda d: True, rule, con + ':all', 'items are left '
               'out')


def numbering(C):
    """the members of a list are numbered from 0 in order; a mapping keeps
    its keys in a dictionary and their order in a list"""
    rule = 'C30.numbers'
    for cls in (LIST, DICT):
        con = short(cls) + '.coll_to_tuples'
        f, I = run(C, cls, 'coll_to_tuples')
        if missing(C, f, con, cls, 'coll_to_tuples'):
            continue
        X = P(f.node.args.args[1].arg)
        kv = {'key': (('elem', X), ('item', ('elem', ('items', X)),
                                    const(0))),
              'value': (('item', X, ('elem', X)),
                        ('item', ('elem', ('items', X)), const(1)))}
        in_order(C, I, con, (X, ('keys', X), ('items', X)), I.L.isinst(
            X, ('ext', 'collections.abc.Mapping')) if cls == LIST else FALSE)
        for e in evs(I, 'yield'):
            if not e.loops:
                continue
            for g, t in flat(I, e.value, e.guard):
                if t[0] != 'tuple' or len(t) != 3:
                    if t != ('elem', X) or cls == LIST:
                        und(C, rule, con, e.where, I.L.show(t)[:60])
                    else:
                        pair = I.b.and_(
                            I.L.isinst(t, ('builtin', 'tuple')),
                            I.L.eq(('len', t), const(2)))
                        C.implies(I, g, pair, rule, con + ':pair', 'an item '
                                  'which is no pair is taken as one',
                                  e.where)
                    continue
                k, v = t[1], t[2]
                ismap = v in kv['value'] or k in kv['key']
                if ismap:
                    C.check(v in kv['value'] or (None if opaque(v) else
                                                 False), rule, con +
                            ':mapping', 'a key gets another value',
                            e.where, I.L.show(t)[:80])
                    if cls == DICT:
                        C.check(k in kv['key'] or (None if opaque(k) else
                                                   False), rule, con +
                                ':keys', 'the keys of a mapping are not '
                                'kept', e.where, I.L.show(t)[:80])
                        continue
                    srt = evs(I, 'sorted')
                    for s in srt:
                        kw = s.get('kws') or {}
                        C.check(not set(kw) & {'reverse', 'key'}, rule, con + ':sorted',
                                'members are not in the order of their '
                                'keys', s.where)
                    C.check(bool(srt) or (None if evs(I, 'mut') else False),
                            rule, con + ':sorted',
                            'members are not in the order of their keys',
                            e.where)
                else:
                    C.check(v == ('elem', X) or (None if opaque(v) else
                                                 False), rule, con +
                            ':members', 'other members than those given',
                            e.where, I.L.show(v)[:80])
                d = e.loops[-1]
                C.check(True if k == ('idx', d) else None if opaque(k)
                        else False, rule, con + ':number', 'members are not '
                        'numbered 0, 1, 2...', e.where, I.L.show(k)[:80])


def compares(I, a):
    """a quantified atom which may compare the members one by one"""
    for x in a[1:]:
        if isinstance(x, int) and not isinstance(x, bool):
            ats = I.b.support_atoms(x)
            return not ats or any(y[0] != 'in' for y in ats)
    return True


def equality(C):
    """equal: same type of members, and equal members; a plain list or
    dictionary is converted first"""
    rule = 'C30.equal'
    con = short(COLL) + '.__eq__'
    for cls in (LIST, DICT):
        con = short(cls) + '.__eq__'
        for name, sign in (('__eq__', True), ('__ne__', False)):
            f, I = run(C, cls, name)
            con = short(cls) + '.' + name
            if missing(C, f, con, cls, name):
                continue
            untouched(C, con, f, I)
            b, L = I.b, I.L
            O = P(f.node.args.args[1].arg)
            yes, unk = FALSE, False
            for g, t in flat(I, I.rv, exits(I)):
                if t[0] == 'const' and isinstance(t[-1], bool):
                    yes = b.or_(yes, g) if t[-1] == sign else yes
                else:
                    unk = True
            ats = b.support_atoms(yes)
            if unk or any(opaque(a) or a[0] in ('exists', 'first') and
                          compares(I, a) for a in ats):
                und(C, rule, con, where(f), 'not a truth value')
                continue
            same = b.and_(L.isinst(O, CLS), b.not_(L.isnone(VALUES)))
            both = b.and_(L.hasattr(O, const('itemtype')),
                          L.hasattr(O, const('_values')))
            it = [L.eq(A(O, 'itemtype'), A(x, 'itemtype'))
                  for x in (CLS, SELF)]
            vals = L.eq(A(O, '_values'), VALUES)
            C.implies(I, b.and_(yes, same, both), b.and_(vals, b.or_(*it)), rule,
                      con, 'collections of other members or another type of '
                      'members are said to be equal', where(f))
            C.implies(I, b.and_(same, both, vals, *it), yes, rule, con +
                      ':same', 'collections of the same members are said to '
                      'differ', where(f))


RULES = {'C30': c30}
