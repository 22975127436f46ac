"""C05: typed collections"""
from .base import *
from .elems import elements, pair_values

COLL = 'normalize.coll.Collection'
VALUES = A(SELF, '_values')
CLS = ('typeof', SELF)


def coll_classes(C):
    return [c for c in subclasses(C.m, COLL)]


def concrete(C):
    """collection classes which define their container"""
    out = []
    for c in coll_classes(C):
        o, a = c.lookup('colltype')
        if a is not None and not isinstance(a, Func):
            out.append(c)
    if len(out) < 2:
        raise AnalysisBroken('only %d concrete collection classes' %
                             len(out))
    return sorted(out, key=lambda c: c.qual)


def public(n):
    return not n.startswith('_') or n.startswith('__') and n.endswith('__')


def methods(C, cls):
    out = {}
    for k in cls.mro:
        if not isinstance(k, Class):
            continue
        if not k.issub(C.m.need_class(COLL)):
            continue
        for n, a in k.attrs.items():
            if isinstance(a, Func) and public(n) and n not in out:
                out[n] = a
        for n, a in k.setters.items():
            out.setdefault(n + '=', a)
    return out


def mine(x):
    """x is the collection itself, or a new one of its class"""
    return x == SELF or x[0] == 'newof' and x[2] == CLS


def members(t):
    return t is not None and t[0] == 'attr' and t[2] == '_values' and \
        mine(t[1])


def member_ok(I, t):
    """formula: t is acceptable as a member"""
    it = A(CLS, 'itemtype')
    if t[0] == 'call' and t[1] in (A(CLS, 'coerceitem'),
                                   A(SELF, 'coerceitem')):
        return TRUE
    if t[0] == 'call' and t[1][0] == 'bound' and \
            t[1][2].endswith('.coerce_value'):
        return TRUE
    own = None
    if t[0] in ('elem', 'item') and t[1][0] == 'attr':
        own = t[1]
    elif t[0] == 'item' and t[1][0] == 'elem':
        x = t[1][1]
        if x[0] == 'items':
            own = x[1]
    elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in (
            'pop', '__getitem__', 'get') and t[1][1][0] == 'attr':
        own = t[1][1]
    if own is not None and own[0] == 'attr' and own[2] == '_values':
        x = own[1]
        if mine(x):
            return TRUE
        return I.L.isinst(x, CLS)
    return I.b.or_(I.L.isinst(t, it), I.L.isinst(t, A(SELF, 'itemtype')))


ADD = {'append': 0, 'add': 0, 'insert': 1, 'setdefault': 1,
       '__setitem__': 1, 'appendleft': 0}
BULK = {'extend': 0, '__iadd__': 0, 'update': 0}


def added(I, isdict):
    """[(event, [(guard, member term)])] members put into self._values"""
    out = []
    for e in I.events:
        if e.kind == 'setitem' and members(e.target):
            if not isdict and is_slice_key(I, e):
                g = e.guard
                ms = []
                for gg, t in flat(I, e.value, e.guard):
                    ms += elements(I, t, gg)
                kg = I.L.isinst(e.key, ('builtin', 'slice'))
                ms = [(I.b.and_(x, kg), t) for x, t in ms]
                ms += [(I.b.and_(x, I.b.not_(kg)), t) for x, t in
                       flat(I, e.value, e.guard)]
                out.append((e, [(x, t) for x, t in ms if x != FALSE]))
            else:
                out.append((e, flat(I, e.value, e.guard)))
        elif e.kind == 'mut' and members(e.target):
            if e.name in ADD and len(e.args) > ADD[e.name]:
                out.append((e, flat(I, e.args[ADD[e.name]], e.guard)))
            elif e.name in BULK and e.args:
                ms = []
                for g, t in flat(I, e.args[0], e.guard):
                    els = elements(I, t, g)
                    ms += pair_values(I, els) if isdict else els
                for n, v in (e.kws or {}).items() if e.get('kws') else ():
                    ms += flat(I, v, e.guard)
                out.append((e, ms))
        elif e.kind == 'store' and mine(e.target) and \
                e.attr in ('_values', const('_values')):
            ms = []
            for g, t in flat(I, e.value, e.guard):
                els = elements(I, t, g)
                ms += pair_values(I, els) if isdict else els
            out.append((e, ms))
    return out


def is_slice_key(I, e):
    return I.b.and_(e.guard, I.L.isinst(e.key, ('builtin', 'slice'))) \
        != FALSE


def c05(C):
    nadd = 0
    BND = ['normalize.record.*', 'normalize.identity.*', 'normalize.diff.*']
    for cls in concrete(C):
        isdict = cls.lookup('colltype')[1]
        isdict = isinstance(isdict, tuple) and isdict[-1] == 'dict' or \
            isinstance(isdict, ast.Name) and isdict.id == 'dict' or \
            cls.issub(C.m.need_class('normalize.coll.DictCollection'))
        for n, a in sorted(methods(C, cls).items()):
            if a.kind in ('classmethod', 'staticmethod', 'classproperty'):
                continue
            if not a.qual.startswith('normalize.coll.') and n in (
                    'json_data', 'diff', 'diff_iter'):
                continue
            I = C.run(a, selfcls=cls.qual, boundary=BND, crash=False)
            cons = '%s.%s' % (short(cls.qual), n.rstrip('='))
            ad = added(I, isdict)
            nadd += len(ad)
            for e, ms in ad:
                for g, t in ms:
                    C.implies(I, g, member_ok(I, t), 'C05.member-typed',
                              cons, 'a member can enter the collection '
                              'without being of the item type: %s' %
                              I.L.show(t), e.where, (t,))
            # the item coercion is applied to non-conforming values only
            for e in I.events:
                if e.kind == 'call' and e.callee == A(CLS, 'coerceitem') \
                        and e.args:
                    for g, t in flat(I, e.args[0], e.guard):
                        C.implies(I, g, I.b.not_(I.L.isinst(t, A(
                            CLS, 'itemtype'))), 'C05.conforming-kept',
                            cons, 'a member of the item type is coerced '
                            'again', e.where, (t,))
            if n == '__init__' and a is C.m.method(COLL, '__init__'):
                complete(C, I, cls, ad, isdict)
        # a member which cannot be coerced is refused with an error
        I = C.run(C.m.method(cls.qual, 'coerce_value'), selfcls=cls.qual,
                  boundary=BND)
        v = [p for p in I.entry.node.args.args][-1].arg
        for g, t in flat(I, I.rv):
            if t == P(v):
                C.implies(I, g, I.L.isinst(t, A(CLS, 'itemtype')),
                          'C05.member-typed', short(cls.qual) +
                          '.coerce_value', 'an unacceptable member is '
                          'returned as it is', where(I.entry))
            else:
                C.check(t[0] == 'call' and t[1] == A(CLS, 'coerceitem') or
                        None if opaque(t) or t[0] == 'excv' else
                        t[0] == 'call' and t[1] == A(CLS, 'coerceitem'),
                        'C05.member-typed', short(cls.qual) +
                        '.coerce_value', 'the coerced member is not the '
                        'result of the item coercion: %s' % I.L.show(t),
                        where(I.entry))
        want = ('class', C.m.need_class(
            'normalize.exc.CollectionItemCoerceError').qual)
        hs = [e for e in I.events if e.kind == 'handler']
        C.check(bool(raises(I, want)), 'C05.refusal', short(cls.qual),
                'a member which cannot be coerced is not reported as a '
                'collection item error', where(I.entry))
    if nadd < 12:
        raise AnalysisBroken('only %d member insertions found' % nadd)
    # who may write the container
    own = set(x.qual for x in coll_classes(C))
    for q, f in sorted(C.m.funcs.items()):
        if f.cls is not None and f.cls.qual in own:
            continue
        for nd in ast.walk(f.node):
            if isinstance(nd, (ast.Attribute,)) and nd.attr == '_values' \
                    and isinstance(nd.ctx, (ast.Store, ast.Del)) or \
                    isinstance(nd, ast.Subscript) and isinstance(
                        nd.ctx, (ast.Store, ast.Del)) and isinstance(
                        nd.value, ast.Attribute) and \
                    nd.value.attr == '_values' or \
                    isinstance(nd, ast.Call) and isinstance(
                        nd.func, ast.Attribute) and nd.func.attr in (
                        'append', 'extend', 'insert', 'update',
                        'setdefault') and isinstance(
                        nd.func.value, ast.Attribute) and \
                    nd.func.value.attr == '_values':
                C.bad('C05.who-may-write', short(q), 'the members of a '
                      'collection are written directly', '%s:%d in %s' % (
                          f.module.rel, nd.lineno, q))
    C.ok('C05.who-may-write', 'normalize')


def complete(C, I, cls, ad, isdict):
    """every element of a plain sequence/mapping becomes a member"""
    b, L = I.b, I.L
    a = I.entry.node.args
    src = P(a.args[1].arg)
    map_ = L.isinst(src, ('ext', 'collections.abc.Mapping'))
    seq = L.isinst(src, ('ext', 'collections.abc.Sequence'))
    st = L.isinst(src, ('builtin', 'str'))
    got = FALSE
    for e, ms in ad:
        for g, t in ms:
            if mentions(t, ('elem', src)) or mentions(
                    t, ('elem', ('items', src))) or any(
                    x[0] == 'elem' and mentions(x, src)
                    for x in subterms(t)):
                got = b.or_(got, g)
    rz = raised(I)
    for nm, cond in (('sequence', b.and_(seq, b.not_(map_), b.not_(st))),
                     ('mapping', b.and_(map_, b.not_(seq), b.not_(st)))):
        C.implies(I, b.and_(cond, b.not_(rz)), got, 'C05.all-members',
                  '%s from a %s' % (short(cls.qual), nm),
                  'elements of the %s given are left out' % nm,
                  where(I.entry))
    it = b.and_(L.hasattr(src, const('__iter__')),
                b.atom(('callable', A(src, '__iter__'))))
    C.implies(I, b.and_(it, b.not_(b.or_(map_, seq, st, rz))), got,
              'C05.all-members', '%s from an iterable' % short(cls.qual),
              'elements of the iterable given are left out', where(I.entry))
    C.implies(I, b.and_(L.truthy(src), b.not_(got)), rz, 'C05.refused',
              short(cls.qual), 'a value which is no collection makes a '
              'collection without its members', where(I.entry))
    C.implies(I, st, b.and_(rz, b.not_(got)), 'C05.no-string',
              short(cls.qual), 'a string is taken apart as a collection',
              where(I.entry))


RULES = {'C05': c05}
