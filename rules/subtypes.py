"""C29 a subtype admits the values which meet its constraint, and no others"""
from .base import *
from .empty import both, deep, params

ST = 'normalize.subtype.subtype'
OF = A(SELF, 'of')
WF = A(SELF, 'where_funcs')


def c29(C):
    admits(C)
    made(C)
    converts(C)


def admits(C):
    f = C.m.need_func(ST + '.__instancecheck__')
    I = C.run(f, selfcls=ST)
    b, L = I.b, I.L
    w = where(f)
    X = params(f, 1)
    r = ('call', ('elem', WF), (X,), ())
    inst = L.isinst(X, OF)
    some = L.truthy(WF)
    rz = set()

    def cond(truth, fails):
        def fn(a):
            if a[0] == 'raises' and a[1] == r:
                rz.add(a[2])
                return TRUE if fails else FALSE
            if a == ('truthy', r):
                return TRUE if truth else FALSE
        return fn
    yes = no = FALSE
    for g, t in flat(I, I.rv, exits(I)):
        v = L.truthy(t)
        yes = b.or_(yes, b.and_(g, v))
        no = b.or_(no, b.and_(g, b.not_(v)))
    C.never(I, b.and_(yes, b.not_(inst)), 'admits', 'of', 'a value of '
            'another type', w)
    bad = I.quant((WF,), b.not_(L.truthy(r)))
    good = deep(I, yes, lambda a: FALSE if a[0] == 'raises' and a[1] == r
                else None)
    C.never(I, b.and_(good, bad), 'admits', 'where', 'a value for which a '
            'condition does not hold', w)
    full = deep(I, yes, cond(True, False))
    C.implies(I, inst, full, 'admits', 'all', 'a value which meets the '
              'constraint is rejected', w)
    none = deep(I, yes, cond(True, True))
    C.never(I, b.and_(none, some), 'admits', 'fails', 'a value for which a '
            'condition fails', w)
    es = [e for e in evs(I, 'call') if e.result == r]
    C.check(bool(es) or (None if any(opaque(t) or t[0] in ('call', 'unk')
                                     for g, t in flat(I, I.rv))
                         else False), 'admits', 'asked', 'the conditions '
            'are not asked', w)
    wide = {x[1] for x in rz if x and x[0] == 'builtin'}
    C.check(bool(wide & {'Exception', 'BaseException'}) or not es, 'admits',
            'errors', 'an error in a condition is not a rejection', w)
    C.never(I, b.and_(inst, raised(I)), 'admits', 'quiet', 'an error', w)


def entries(I, t):
    if t in I.conts:
        for e in I.conts[t].entries:
            k = e.key
            if k and not isinstance(k[0], str):
                k = k[0][1]
            yield k, e
    elif t[0] == 'dict':
        for x in t[1:]:
            if isinstance(x, tuple) and len(x) == 2:
                yield x[0], None


def single(C, V_, I, want, con, msg, w):
    for g, t in flat(I, V_):
        C.check(t == want or (None if opaque(t) or t[0] in ('new', 'call')
                              else False), 'made', con, msg, w,
                I.L.show(t)[:80])


def made(C):
    f = C.m.need_func(ST + '.__new__')
    I = C.run(f, selfcls=ST)
    b, L = I.b, I.L
    w = where(f)
    ps = [params(f, i) for i in range(len(f.node.args.args))]
    C.check(len(ps) >= 5 or None, 'made', 'signature', 'not known', w)
    mcs, name, of, whr, coerce = ps[:5]
    isty = L.isinst(of, ('builtin', 'type'))
    ra = [e for e in raises(I) if exc_name(e) == 'SubtypeOfWhat']
    C.implies(I, b.not_(isty), b.or_(FALSE, *[e.guard for e in ra]), 'made',
              'type', 'of something which is no type', w)
    C.never(I, b.and_(isty, raised(I)), 'made', 'type', 'an error for a '
            'type', w)
    new = 0
    for e in evs(I, 'call'):
        if len(e.args) == 4 and [t for g, t in flat(I, e.args[0])] == [of]:
            continue
        a = [[t for g, t in flat(I, v)] for v in e.args]
        if len(a) == 4 and a[:4] == [[name], [of], [whr], [coerce]]:
            C.ok('made', 'again', e.where)
        elif len(a) == 4 and method(e)[1] != '__new__' and a[0] == [name]:
            C.bad('made', 'again', 'the arguments are mixed up', e.where)
        elif a[:2] == [[name], [of]] and len(a) < 4 and \
                method(e)[1] not in ('__new__', '__init__') and \
                e.callee[0] != 'class':
            kw = {k: [t for g, t in flat(I, v)]
                  for k, v in dict(e.kws or ()).items()}
            have = a[2:] + list(kw.values())
            for x, nm in ((whr, 'where'), (coerce, 'coerce')):
                C.check([x] in have or (None if any(
                    opaque(t) for v in have for t in v) else False), 'made',
                    'again:' + nm, '%s= is lost for a type with a metaclass '
                    'of its own' % nm, e.where)
        if method(e)[1] != '__new__' or len(a) != 4:
            continue
        new += 1
        C.check(a[0] == [mcs] or None, 'made', 'metaclass', 'another '
                'metaclass', e.where)
        C.check(a[1] == [name] or None, 'made', 'name', 'another name',
                e.where)
        for t in a[2]:
            C.check(t == ('tuple', of) or (None if opaque(t) or
                    t[0] == 'new' else False), 'made', 'bases', 'not a kind '
                    'of the type', e.where, L.show(t)[:80])
        for t in a[3]:
            got = {}
            for k, x in entries(I, t):
                if k and k[0] == 'const' and x is not None:
                    got[k[2]] = x.val
            if not got:
                C.unk('made', 'attributes', 'not seen')
                continue
            for k, want in (('of', [of]), ('where_funcs', [
                    ('tuple', whr), ('list', whr)]), ('coerce', [
                        ('tuple', coerce), ('list', coerce), coerce])):
                if k not in got:
                    C.bad('made', k, 'is lost', e.where)
                    continue
                for g, x in flat(I, got[k]):
                    C.check(x in want or (None if opaque(x) or x[0] in (
                        'new', 'call') else False), 'made', k, 'is another',
                        e.where, L.show(x)[:80])
            if '__new__' not in got:
                C.bad('made', '__new__', 'values are not converted',
                      e.where)
    if not new:
        C.unk('made', 'class', 'not seen to be made')
    for g, t in flat(I, I.rv, exits(I)):
        C.check(t != NONE, 'made', 'result', 'no class', w)


def converts(C):
    f = C.m.need_func(ST + '.__new__')
    I = C.run(f, selfcls=ST)
    b, L = I.b, I.L
    w = where(f)
    whr, coerce = params(f, 3), params(f, 4)
    made_ = [e for e in evs(I, 'call') if method(e)[1] == '__new__']
    if not made_:
        C.unk('converts', 'class', 'not seen to be made')
        return
    e0 = made_[0]
    fn = None
    for t in [t for g, t in flat(I, e0.args[3])] if len(
            e0.args) == 4 else ():
        for k, x in entries(I, t):
            if k == const('__new__') and x is not None:
                fs = [y for g, y in flat(I, x.val)]
                fn = fs[0] if len(fs) == 1 else None
    if fn is None or fn[0] != 'closure':
        C.unk('converts', 'function', 'not seen')
        return
    cl, v = P('cls'), P('a-value')
    n = len(I.events)
    base = e0.guard
    rv = I.apply(fn, [cl, v], base)
    new = I.events[n:]
    T = {e0.result, cl}
    isa = lambda t: b.or_(*[L.isinst(t, x) for x in T])
    # both name the class which was made

    def same(g):
        return subst(I, g, lambda a: L.isinst(a[1], cl)
                     if a[0] == 'isinst' and a[2] in T else None)
    is_ = lambda t: L.isinst(t, cl)
    CO = [('item', A(cl, 'coerce'), const(0)), A(cl, 'coerce'), coerce]
    fnc = [x for x in CO if any(e.kind == 'call' and e.callee == x
                                for e in new)]
    fnc = fnc[0] if fnc else None
    res = ('call', fnc, (v,), ()) if fnc else None
    for e in new:
        if e.kind == 'call' and e.callee == fnc:
            C.check([t for V_ in e.args for g, t in flat(I, V_)] == [v],
                    'converts', 'what', 'not of the value', e.where)
            C.never(I, b.and_(same(e.guard), is_(v)), 'converts', 'again',
                    'a value which meets the constraint is converted',
                    e.where)
    if res is None:
        C.unk('converts', 'call', 'no conversion is seen')
        return
    gives = FALSE
    for g, t in flat(I, rv, base):
        g = same(g)
        if not L.sat(g):
            continue
        gives = b.or_(gives, g)
        C.implies(I, g, is_(t), 'converts', 'checked', 'gives a value which '
                  'does not meet the constraint', w, terms=(t,))
        if t == v:
            C.ok('converts', 'same', w)
        elif t == res:
            C.implies(I, g, L.truthy(fnc), 'converts', 'given', 'converts '
                      'by no function', w)
        else:
            C.check(None if opaque(t) else False, 'converts', 'result',
                    'is another value', w, L.show(t)[:80])
    C.implies(I, b.and_(base, is_(v)), gives, 'converts', 'accepts', 'a '
              'value which meets the constraint is not accepted', w)
    C.implies(I, b.and_(base, b.not_(is_(v)), L.truthy(fnc), is_(res)),
              gives, 'converts', 'accepts', 'a value which can be converted '
              'is not accepted', w)
    errs = {}
    for e in new:
        if e.kind == 'raise' and not e.caught:
            errs[exc_name(e)] = b.or_(errs.get(exc_name(e), FALSE),
                                      same(e.guard))
    C.implies(I, b.and_(base, b.not_(is_(v)), b.not_(L.truthy(fnc))),
              errs.get('SubtypeNoCoerceFunc', FALSE), 'converts', 'none',
              'no error although there is no way to convert', w)
    C.implies(I, b.and_(base, b.not_(is_(v)), L.truthy(fnc),
                        b.not_(is_(res))),
              errs.get('SubtypeCoerceError', FALSE), 'converts', 'wrong',
              'no error although the converted value does not meet the '
              'constraint', w)
    for e in new:
        if e.kind == 'construct' and e.cls[1].endswith(
                '.SubtypeCoerceError'):
            V_ = e.kws.get('coerced') if isinstance(e.kws, dict) else dict(
                e.kws).get('coerced')
            ts = [t for g, t in flat(I, V_)] if V_ else []
            C.check(ts == [res] or (None if not ts or any(
                opaque(t) for t in ts) else False), 'converts', 'coerced',
                'the error gives another value', e.where)


RULES = {'C29': c29}
