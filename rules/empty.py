"""C28 a placeholder stands in for a value which is missing"""
from .base import *

EMP = 'normalize.empty'
EV = EMP + '.EmptyVal'
PROPC = 'normalize.property.Property'
AUX = 'normalize.property.EmptyAuxProp'
V1 = 'normalize.property.V1Property'
RM = 'normalize.record.meta.RecordMeta'
ANY = ('builtin', 'any')
TT = A(SELF, '_typetuple')
ITEM = ('elem', TT)
OPENS = [EMP + '.placeholder', EMP + '.itertypes', EV + '._exc']
ISANY = lambda I: I.L.is_(TT, ANY)


def c28(C):
    one_each(C)
    types(C)
    attribute(C)
    member(C)
    called(C)
    begins(C)
    assigned(C)
    false(C)
    told(C)
    accessor(C)
    naming(C)
    declared(C)
    emptiness(C)


def deep(I, g, fn):
    """replace atoms, those below quantifiers included.  fn(atom) -> formula
    or None"""
    b = I.b

    def one(a):
        r = fn(a)
        if r is not None:
            return r
        if a[0] == 'exists':
            inner = deep(I, a[2], fn)
            if inner == TRUE and a[1][0] == 'attr' and a[1][2] == '__mro__':
                return TRUE
            if inner != a[2]:
                return I.quant1(a[1], inner)
        return None
    return subst(I, g, one)


def params(f, n):
    a = [x.arg for x in f.node.args.args]
    return P(a[n]) if n < len(a) else None


def one_each(C):
    """placeholder(): one object per set of types"""
    f = C.m.need_func(EMP + '.placeholder')
    I = C.run(f)
    b, L = I.b, I.L
    w = where(f)
    T = params(f, 0)
    tup = L.isinst(T, ('builtin', 'tuple'))
    many = b.and_(tup, L.in_(ANY, T))
    one = b.and_(b.not_(tup), L.is_(ANY, T))
    anyg = b.or_(many, one)
    keys = {ANY: anyg, T: b.and_(tup, b.not_(anyg)),
            ('tuple', T): b.and_(b.not_(tup), b.not_(anyg))}

    def keyed(g, k, what, wh):
        if k not in keys:
            C.check(None if opaque(k) or k[0] == 'new' else False, 'one',
                    what, 'for other types', wh, L.show(k)[:80])
            return
        C.implies(I, g, keys[k], 'one', what, 'for other types than those '
                  'asked for', wh, terms=(k,))
    stores = {}
    reg = None
    for e in evs(I, 'setitem'):
        reg = e.target
        for gk, k in flat(I, e.key if e.key and isinstance(
                e.key[0], tuple) else [(TRUE, e.key)], e.guard):
            keyed(gk, k, 'registered', e.where)
            for g, t in flat(I, e.value, gk):
                if t[0] == 'new':
                    stores[t] = b.or_(stores.get(t, FALSE), g)
    for e in evs(I, 'construct'):
        if e.cls != ('class', EV):
            continue
        for g, t in flat(I, e.args[0], e.guard) if e.args else ():
            keyed(g, t, 'types', e.where)
        C.implies(I, e.guard, stores.get(e.result, FALSE), 'one', 'kept',
                  'the placeholder is not kept: there are several for the '
                  'same types', e.where)
        if reg is not None:
            for k, g in keys.items():
                C.never(I, b.and_(e.guard, g, L.in_(k, reg)), 'one',
                        'again', 'made although there is one', e.where)
    for g, t in flat(I, I.rv, exits(I)):
        if t[0] == 'item' and (reg is None or t[1] == reg):
            keyed(g, t[2], 'found', w)
        elif t[0] == 'new' and I.L.show(t).startswith('<EmptyVal'):
            C.ok('one', 'made', w)
        else:
            C.check(None if opaque(t) or t[0] in ('call', 'new') else False,
                    'one', 'result', 'is no placeholder', w,
                    L.show(t)[:80])
    C.check(b.not_(exits(I)) == FALSE or None, 'one', 'always', 'not always '
            'a placeholder', w)


def types(C):
    """itertypes(): every type, those within tuples included"""
    f = C.m.need_func(EMP + '.itertypes')
    I = C.run(f)
    b, L = I.b, I.L
    w = where(f)
    D = params(f, 0)
    el = ('elem', D)
    inner = ('elem', el)
    tup = L.isinst(el, ('builtin', 'tuple'))
    got = {el: FALSE, inner: FALSE}
    for e in evs(I, 'yield'):
        if not e.top:
            continue
        for g, t in flat(I, e.value, e.guard):
            if t not in got:
                C.check(None if opaque(t) else False, 'types', 'what',
                        'not one of the types', e.where, L.show(t)[:80])
                continue
            got[t] = b.or_(got[t], g)
            C.implies(I, g, tup if t == inner else b.not_(tup), 'types',
                      'tuples', 'a tuple is taken for a type', e.where)
    first = b.atom(('first', D))
    for t, cond in ((el, b.not_(tup)), (inner, b.and_(tup, b.atom((
            'first', el))))):
        fresh = subst(I, got[t], lambda a: FALSE if a[0] == 'exists' else
                      None)
        C.implies(I, b.and_(cond, first), fresh, 'types', 'first:%d' % (
            t == inner), 'a type is left out', w)
        C.check(got[t] != FALSE, 'types', 'all:%d' % (t == inner),
                'types are left out', w)
    for e in evs(I, 'break'):
        C.never(I, e.guard, 'types', 'rest', 'types are left out', e.where)
    for e in evs(I, 'return'):
        if e.loops and len(e.stack) == 1:
            C.never(I, e.guard, 'types', 'rest', 'types are left out',
                    e.where)


def leaves(I, t, g=TRUE, seen=()):
    """what a container of types is filled with"""
    b = I.b
    if t[0] == 'call' and t[1] == ('func', EMP + '.itertypes') and t[2]:
        for x in leaves(I, t[2][0], g, seen):
            yield x
    elif t[0] == 'call' and t[1] in (('builtin', 'tuple'),
                                     ('builtin', 'list')) and t[2]:
        for x in leaves(I, t[2][0], g, seen):
            yield x
    elif t[0] == 'tuple':
        for x in t[1:]:
            for y in leaves(I, x, g, seen):
                yield y
    elif t[0] == 'phi':
        for g2, x in flat(I, t[1], g):
            for y in leaves(I, x, g2, seen):
                yield y
    elif t[0] == 'new' and t in I.conts and t not in seen:
        for e in I.conts[t].entries:
            for g2, x in flat(I, e.val, b.and_(g, e.guard)):
                for y in leaves(I, x, g2, seen + (t,)):
                    yield y
    else:
        yield g, t


def thrown(C, I, name, con):
    """guard under which the error is raised"""
    b = I.b
    g = FALSE
    for e in raises(I):
        n = exc_name(e)
        if n is None:
            for gg, t in flat(I, e.exc if isinstance(e.exc[0], tuple) else
                              [(TRUE, e.exc)]):
                if t[0] == 'call' and t[1] == ('bound', SELF,
                                               EV + '._exc') and t[2]:
                    n = t[2][0][2] if t[2][0][0] == 'const' else None
        C.check(n == name if n else None, 'errors', con + ':which', 'another '
                'error', e.where, str(n))
        g = b.or_(g, e.guard)
    return raised(I)


def holders(V_, I):
    """[(guard, types argument)] of placeholders in a value"""
    out = []
    for g, t in flat(I, V_):
        if t[0] == 'call' and t[1] == ('func', EMP + '.placeholder') and \
                t[2]:
            out.append((g, t[2][0]))
    return out


def anyself(C, I, con, w):
    """a placeholder for anything gives itself, and never an error"""
    b = I.b
    g = FALSE
    for gg, t in flat(I, I.rv, exits(I)):
        if I.L.sat(b.and_(gg, ISANY(I))):
            C.check(t == SELF or (None if opaque(t) else False), 'any', con,
                    'is another value', w, I.L.show(t)[:80])
            g = b.or_(g, gg)
    C.never(I, b.and_(raised(I), ISANY(I)), 'any', con + ':error', 'an error '
            'from a placeholder for anything', w)


def supplied(I, name, v):
    """does the type supply the special method: all such tests become v"""
    def fn(a):
        if a[0] in ('in', 'truthy', 'hasattr', 'isnone', 'is', 'eq') and \
                mentions(a, const(name)):
            neg = a[0] == 'isnone' or a[0] in ('is', 'eq') and \
                mentions(a, NONE)
            return FALSE if v == neg else TRUE
    return fn


def both(*fns):
    def fn(a):
        for f in fns:
            r = f(a)
            if r is not None:
                return r
    return fn


def inherited(C, I, name, con, w):
    """the test whether a type supplies a method sees its bases"""
    ats = set()

    def fn(a):
        if a[0] != 'exists' and mentions(a, const(name)):
            ats.add(a)
    for e in I.events:
        deep(I, e.guard, fn)
    own = [a for a in ats if mentions(a, A(ITEM, '__dict__')) or mentions(
        a, ('call', ('builtin', 'vars'), (ITEM,), ()))]
    C.check(not own if ats else None, 'supplies', con, 'a method which the '
            'type inherits is not seen', w)


def whole(C, I, name, con):
    """all of the types are asked"""
    for e in evs(I, 'break', 'return'):
        if TT in e.loops and (len(e.stack) == 1 if e.kind == 'return' else
                              e.loops[-1] == TT):
            g = e.guard
            if e.kind == 'return' and con == 'called':
                g = deep(I, g, supplied(I, name, False))
            C.never(I, g, 'all', con, 'not all of the types are asked',
                    e.where)


def held(C, I, con, V_, g0, w):
    """what is given is a placeholder"""
    for g, t in flat(I, V_, g0):
        if t == SELF or opaque(t):
            continue
        bad = t[0] in ('const', 'tuple') or t[0] == 'new' and t[2] in (
            'list', 'tuple', 'dict', 'set', 'gen') or t[0] == 'builtin' or \
            t[0] == 'call' and (t[1] in (
                ('func', EMP + '.itertypes'), ('builtin', 'tuple'),
                ('builtin', 'list')))
        if bad:
            C.never(I, g, 'typed', con + ':placeholder', 'what it gives is '
                    'no placeholder', w)
        elif t == A(SELF, '_member_type'):
            C.never(I, I.b.and_(g, I.L.isnone(t)), 'typed', con +
                    ':placeholder', 'what it gives is no placeholder', w)
        elif t[0] == 'call' and t[1] == ('func', EMP + '.placeholder'):
            for x in t[2]:
                C.check(not (x[0] == 'new' and x[2] in (
                    'list', 'set', 'gen', 'dict') or x[0] == 'call' and
                    x[1] in (('func', EMP + '.itertypes'),
                             ('builtin', 'list'))), 'typed', con + ':key',
                        'there is a new placeholder every time', w)


def answers(C, I, con, w, *cases):
    """there is a result or one of the errors"""
    b = I.b
    g = b.or_(raised(I), *[x for x, t in I.rv])
    q = [b.not_(b.atom(x)) for x in b.support_atoms(g) if x[0] == 'raises']
    for fn in cases:
        C.implies(I, b.and_(L_some(I), *q), deep(I, g, fn), 'errors', con +
                  ':other', 'it fails with another error', w)


def L_some(I):
    return I.L.truthy(TT)


def attribute(C):
    f = C.m.need_func(EV + '.__getattr__')
    I = C.run(f, boundary=OPENS, selfcls=EV)
    b, L = I.b, I.L
    w = where(f)
    con = 'attribute'
    N = params(f, 1)
    anyself(C, I, con, w)
    ra = thrown(C, I, 'NoSuchAttribute', con)
    cell = A(SELF, '_attrs')
    new = b.and_(b.not_(ISANY(I)), b.not_(L.in_(N, cell)))
    C.never(I, b.and_(ra, b.not_(new)), 'errors', con + ':known', 'an error '
            'for an attribute which was there', w)

    def has(v):
        def fn(a):
            if a[0] == 'hasattr' and a[1] == ITEM and a[2] == N:
                return TRUE if v else FALSE
            if a[0] == 'isnone' and a[1][0] in ('dattr', 'call') and \
                    mentions(a[1], N):
                return FALSE if v else TRUE
        return fn
    sup = '__getattr__'
    none = deep(I, ra, both(has(False), supplied(I, sup, False)))
    C.implies(I, new, none, 'errors', con + ':missing', 'no error for an '
              'attribute which no type has', w)
    some = L.truthy(TT)
    answers(C, I, con, w, *[both(has(v), supplied(I, sup, s))
                            for v in (True, False) for s in (True, False)])
    for v, s in ((True, False), (False, True), (True, True)):
        g = deep(I, ra, both(has(v), supplied(I, sup, s)))
        C.never(I, b.and_(g, new, some), 'errors', con + (':has' if v else
                ':dynamic'), 'an error although the attribute may exist', w)
    inherited(C, I, sup, con, w)
    whole(C, I, sup, con)
    d = ('dattr', ITEM, N)
    found = False
    for V_, g0, wh in [(I.rv, exits(I), w)] + [
            (e.value, e.guard, e.where) for e in evs(I, 'setitem')
            if e.target == cell]:
        for g, t in holders(V_, I):
            found = True
            got = FALSE
            for gl, x in leaves(I, t, b.and_(g, g0)):
                x_ = rewrite(x, lambda y: d if y[0] in ('dattr', 'attr') and
                             len(y) == 3 and y[1] == ITEM and y[2] == N
                             else None)
                vt = A(d, 'valuetype')
                has_vt = b.and_(b.atom(('hasattr', d, const('valuetype'))),
                                L.truthy(vt))
                if x_ == vt:
                    C.implies(I, gl, L.truthy(vt), 'typed', con + ':none',
                              'no type is taken for one', wh)
                    got = b.or_(got, gl)
                elif x_ == ANY:
                    known = deep(I, gl, both(has(True), supplied(
                        I, sup, False)))
                    C.never(I, b.and_(known, has_vt), 'typed',
                            con + ':lost', 'the type of the attribute is '
                            'lost', wh)
                    got = b.or_(got, gl)
                else:
                    C.check(None if opaque(x) or x[0] in (
                        'new', 'call', 'dattr') else False, 'typed',
                        con + ':type', 'not the type of the attribute', wh,
                        L.show(x)[:80])
                    got = TRUE
            for v, s in ((True, False), (False, True)):
                full = deep(I, got, both(has(v), supplied(I, sup, s)))
                C.implies(I, b.and_(new, some), full, 'typed', con + (
                    ':found' if v else ':dynamic'), 'the type of an '
                    'attribute is left out', wh)
    if not found:
        C.unk('typed', con, 'no placeholder is seen')
    for e in evs(I, 'mut', 'yield', 'call'):
        for V_ in (e.get('args') or ()) if e.kind != 'yield' else [e.value]:
            for g, t in flat(I, V_, e.guard):
                if t == d:
                    C.implies(I, g, b.atom(('hasattr', ITEM, N)), 'errors',
                              con + ':other', 'a type without the '
                              'attribute is an error', e.where)
    for e in evs(I, 'setitem'):
        if e.target == cell:
            for g, k in flat(I, e.key if e.key and isinstance(
                    e.key[0], tuple) else [(TRUE, e.key)], e.guard):
                C.check(k == N or (None if opaque(k) else False), 'typed',
                        con + ':kept', 'kept for another attribute',
                        e.where)
    for g, t in flat(I, I.rv, exits(I)):
        if t == ('item', cell, N):
            for v in (True, False):
                C.implies(I, b.and_(some, deep(I, g, both(has(v), supplied(
                    I, sup, not v)))), L.in_(N, cell), 'errors', con +
                    ':other', 'it fails with another error', w)
        if t[0] == 'item' and t[1] == cell:
            C.check(t[2] == N or (None if opaque(t[2]) else False), 'typed',
                    con + ':kept', 'that of another attribute', w)
        elif t == SELF:
            C.implies(I, g, ISANY(I), 'typed', con + ':self', 'the '
                      'placeholder itself', w)
    held(C, I, con, I.rv, exits(I), w)
    for e in evs(I, 'setitem'):
        if e.target == cell:
            held(C, I, con, e.value, e.guard, e.where)


def member(C):
    f = C.m.need_func(EV + '.__getitem__')
    I = C.run(f, boundary=OPENS, selfcls=EV)
    b, L = I.b, I.L
    w = where(f)
    con = 'member'
    K = params(f, 1)
    anyself(C, I, con, w)
    ra = thrown(C, I, 'NotSubscriptable', con)
    cell = A(SELF, '_member_type')
    sl = L.isinst(K, ('builtin', 'slice'))
    new = b.and_(b.not_(ISANY(I)), b.not_(sl), L.isnone(cell))
    C.never(I, b.and_(ra, b.not_(new)), 'errors', con + ':known', 'an error '
            'for a member which was there', w)
    sup = '__getitem__'
    COLL = ('class', 'normalize.coll.Collection')

    def coll(v):
        def fn(a):
            if a[0] in ('subcls', 'isinst') and a[1] == ITEM and len(a) > 2:
                if a[2] == COLL:
                    return TRUE if v else FALSE
        return fn
    answers(C, I, con, w, *[both(coll(v), supplied(I, sup, s))
                            for v in (True, False) for s in (True, False)])
    none = deep(I, ra, both(coll(False), supplied(I, sup, False)))
    C.implies(I, new, none, 'errors', con + ':missing', 'no error although '
              'nothing is subscriptable', w)
    some = L.truthy(TT)
    for v, s in ((True, False), (False, True), (True, True)):
        g = deep(I, ra, both(coll(v), supplied(I, sup, s)))
        C.never(I, b.and_(g, new, some), 'errors', con + (
            ':collection' if v else ':dynamic'), 'an error although a type '
            'is subscriptable', w)
    inherited(C, I, sup, con, w)
    whole(C, I, sup, con)
    IT = A(ITEM, 'itemtype')
    found = False
    places = [(I.rv, exits(I), w)]
    for e in evs(I, 'setitem', 'store'):
        if e.kind == 'store' and e.attr == '_member_type' or \
                e.kind == 'setitem' and mentions(
                    ('x', e.key) if isinstance(e.key[0], str) else
                    ('x', e.key[0][1]), const('_member_type')):
            places.append((e.value, e.guard, e.where))
    for V_, g0, wh in places:
        for g, t in holders(V_, I):
            found = True
            got = FALSE
            for gl, x in leaves(I, t, b.and_(g, g0)):
                if x == IT:
                    got = b.or_(got, gl)
                    C.never(I, deep(I, gl, coll(False)), 'typed',
                            con + ':other', 'the item type of something '
                            'which is no collection', wh)
                elif x == ANY:
                    C.never(I, b.and_(new, deep(I, gl, coll(True))),
                            'typed', con + ':lost', 'the type of the items '
                            'is lost', wh)
                    got = b.or_(got, gl)
                else:
                    C.check(None if opaque(x) or x[0] in (
                        'new', 'call') else False, 'typed', con + ':type',
                        'not the type of the items', wh, L.show(x)[:80])
                    got = TRUE
            for v, s in ((True, False), (False, True)):
                full = deep(I, got, both(coll(v), supplied(I, sup, s)))
                C.implies(I, b.and_(new, some), full, 'typed', con + (
                    ':collection' if v else ':dynamic'), 'the type of the '
                    'items is left out', wh)
    if not found:
        C.unk('typed', con, 'no placeholder is seen')
    for g, t in flat(I, I.rv, exits(I)):
        if t == SELF:
            C.implies(I, g, b.or_(ISANY(I), sl), 'typed', con + ':self',
                      'the placeholder itself', w)
    for V_, g0, wh in places:
        held(C, I, con, V_, g0, wh)


def called(C):
    f = C.m.need_func(EV + '.__call__')
    I = C.run(f, boundary=OPENS, selfcls=EV)
    b, L = I.b, I.L
    w = where(f)
    con = 'called'
    anyself(C, I, con, w)
    ra = thrown(C, I, 'NotCallable', con)
    sup = '__call__'
    answers(C, I, con, w, supplied(I, sup, True), supplied(I, sup, False))
    new = b.not_(ISANY(I))
    C.implies(I, new, deep(I, ra, supplied(I, sup, False)), 'errors',
              con + ':missing', 'no error although nothing is callable', w)
    C.never(I, b.and_(new, L.truthy(TT), deep(I, ra, supplied(
        I, sup, True))), 'errors', con + ':dynamic', 'an error although a '
        'type is callable', w)
    inherited(C, I, sup, con, w)
    whole(C, I, sup, con)
    for g, t in flat(I, I.rv, exits(I)):
        if L.sat(b.and_(g, new)):
            C.check(t == ('call', ('func', EMP + '.placeholder'), (ANY,),
                          ()) or (None if opaque(t) or t[0] in (
                              'call', 'item', 'new') else False), 'typed',
                    con, 'the result may be anything', w, L.show(t)[:80])


def begins(C):
    """a new placeholder knows its types and nothing else"""
    f = C.m.need_func(EV + '.__init__')
    I = C.run(f, boundary=OPENS, selfcls=EV)
    b = I.b
    w = where(f)
    got = {}
    for e in evs(I, 'setitem'):
        if e.target == A(SELF, '__dict__') and e.key and \
                e.key[0] == 'const':
            got.setdefault(e.key[2], []).append(e)
    if not got:
        C.unk('begins', 'how', 'how the attributes are set is not seen')
        return
    for n, what in (('_typetuple', 'its types'),
                    ('_attrs', 'its attributes'),
                    ('_member_type', 'its items')):
        g = FALSE
        for e in got.get(n, []):
            g = b.or_(g, e.guard)
            for h, t in flat(I, e.value, e.guard):
                good = t == params(f, 1) if n == '_typetuple' else \
                    t == NONE if n == '_member_type' else \
                    t[0] == 'new' and t[2] == 'dict' and not [
                        x for x in getattr(I.conts.get(t), 'entries', [])]
                C.check(good or (None if opaque(t) or t[0] == 'new' or (
                    t[0] == 'call' and n == '_typetuple') else False),
                        'begins', n, 'a new placeholder knows something '
                        'else as ' + what, e.where, I.L.show(t)[:80])
        C.implies(I, TRUE, g, 'begins', n + ':all', 'a new placeholder '
                  'does not know ' + what, w)


def assigned(C):
    inner = ('_typetuple', '_attrs', '_member_type')
    for n, con in (('__setattr__', 'attributes'), ('__setitem__', 'items')):
        f = C.m.need_func(EV + '.' + n)
        I = C.run(f, boundary=OPENS, selfcls=EV)
        b, L = I.b, I.L
        w = where(f)
        N = params(f, 1)
        ra = thrown(C, I, 'BadAssignment', con)
        own = FALSE
        if n == '__setattr__':
            own = b.or_(*[L.eq(N, const(x)) for x in inner])
        C.implies(I, b.not_(own), ra, 'assign', con, 'a placeholder is '
                  'changed', w)
        C.never(I, b.and_(own, ra), 'assign', con + ':own', 'it cannot keep '
                'what it knows', w)
        sets = [e for e in evs(I, 'setitem')
                if e.target == A(SELF, '__dict__')]
        if n == '__setattr__' and not any(
                I.L.sat(b.and_(own, e.guard))
                for e in evs(I, 'call', 'store')):
            kept = FALSE
            for e in sets:
                kept = b.or_(kept, e.guard)
            C.implies(I, own, kept, 'assign', con + ':kept', 'it does not '
                      'keep what it knows', w)
        for e in sets:
            if True:
                C.check(e.key == N or (None if opaque(e.key) or isinstance(
                    e.key[0], tuple) else False), 'assign', con + ':name',
                    'another attribute is set', e.where)
                for g, t in flat(I, e.value, e.guard):
                    C.check(t == params(f, 2) or (None if opaque(t) else
                                                  False), 'assign',
                            con + ':value', 'to another value', e.where)


def false(C):
    f = C.m.need_func(EV + '.__bool__')
    I = C.run(f, selfcls=EV)
    C.check(not raises(I), 'false', 'bool', 'an error', where(f))
    for g, t in flat(I, I.rv, exits(I)):
        C.check(t == const(False) or (None if opaque(t) or t[0] != 'const'
                                      else False), 'false', 'bool',
                'a placeholder is true', where(f), I.L.show(t)[:80])
    c, e = C.m.need_class(EV).lookup('__len__')
    C.check(c is None or C.m.need_class(EV).lookup('__bool__')[0]
            is not None, 'false', 'len', 'is not what decides', where(f))


def told(C):
    """a placeholder for anything has a text, too"""
    for nm in ('__repr__', '__str__'):
        c, f = C.m.need_class(EV).lookup(nm)
        if not isinstance(f, Func):
            continue
        I = C.run(f, selfcls=EV)
        gs = [e.guard for e in I.events if ITEM in [
            t for v in e.get('args') or () for g, t in flat(I, v)] or
            mentions(e.get('result') or NONE, ITEM)]
        for c in I.conts.values():
            for en in c.entries:
                gs += [g for g, t in flat(I, en.val, en.guard)
                       if mentions(t, ITEM)]
        C.ok('told', nm)
        for g in gs:
            C.never(I, I.b.and_(g, ISANY(I)), 'told', nm, 'the text of a '
                    'placeholder for anything goes through its types',
                    where(f))


def accessor(C):
    """the ...0 attribute: the value, or a placeholder of its type"""
    f = C.m.need_func(AUX + '.__get__')
    I = C.run(f, boundary=OPENS, selfcls=AUX)
    b, L = I.b, I.L
    w = where(f)
    o = params(f, 1)
    got = None
    for e in evs(I, 'call'):
        if method(e) == (A(SELF, 'prop'), '__get__'):
            got = e
    if got is None:
        C.unk('accessor', 'get', 'the value is not read')
        return
    for t in [t for g, t in flat(I, got.args[0])] if got.args else ():
        C.check(t == o or (None if opaque(t) else False), 'accessor', 'of',
                'not of the object', got.where)
    miss = [a for e in I.events for a in b.support_atoms(e.guard)
            if a[0] == 'raises' and a[1] == got.result]
    gone = b.or_(FALSE, *[b.atom(a) for a in miss])
    C.check({a[2] for a in miss} == {('builtin', 'AttributeError')} if miss
            else False, 'accessor', 'error', 'an empty slot gives an error, '
            'or other errors are hidden', w)
    seen = FALSE
    for g, t in flat(I, I.rv, exits(I)):
        if not L.sat(g):
            continue
        if t == got.result:
            C.never(I, b.and_(g, gone), 'accessor', 'value', 'a value which '
                    'was not obtained', w)
            seen = b.or_(seen, g)
        elif t[0] == 'call' and t[1] == ('func', EMP + '.placeholder'):
            C.check(t[2] == (A(SELF, 'valuetype'),) or (
                None if opaque(t) else False), 'accessor', 'type',
                'a placeholder for another type', w, L.show(t)[:80])
            C.implies(I, b.and_(g, got.guard), gone, 'accessor', 'set',
                      'a placeholder although there is a value', w)
        else:
            C.check(None if opaque(t) else False, 'accessor', 'result',
                    'is neither the value nor a placeholder', w,
                    L.show(t)[:80])
    C.check(seen != FALSE, 'accessor', 'value', 'the value is never given',
            w)
    f = C.m.need_func(AUX + '.__init__')
    I = C.run(f, selfcls=AUX)
    b, L = I.b, I.L
    pr = params(f, 1)
    for e in evs(I, 'store'):
        for g, t in flat(I, e.value, e.guard):
            if e.attr == 'prop':
                C.check(t == pr or (None if opaque(t) else False),
                        'accessor', 'prop', 'another property', e.where)
            elif e.attr == 'valuetype':
                vt = A(pr, 'valuetype')
                if t == vt:
                    C.implies(I, g, L.truthy(vt), 'accessor', 'valuetype',
                              'no type is taken for one', e.where)
                elif t == ANY:
                    C.never(I, b.and_(g, L.truthy(vt)), 'accessor',
                            'valuetype', 'the type is lost', e.where)
                else:
                    C.check(None if opaque(t) else False, 'accessor',
                            'valuetype', 'is another type', e.where)
    f = C.m.need_func(PROPC + '.aux_props')
    I = C.run(f, selfcls=PROPC)
    b, L = I.b, I.L
    name = A(SELF, 'empty_attr')
    for g, t in flat(I, I.rv, exits(I)):
        inner = t[1:] if t[0] in ('tuple', 'list') else [
            x for x in ([y for e in I.conts[t].entries
                         for gg, y in flat(I, e.val)]
                        if t in I.conts else [])]
        if not inner:
            C.implies(I, g, L.isnone(name), 'accessor', 'offered', 'the '
                      'accessor is left out', where(f), terms=(t,))
            continue
        C.never(I, b.and_(g, L.isnone(name)), 'accessor', 'offered', 'an '
                'accessor which was turned off', where(f))
        for x in inner:
            if x[0] != 'tuple' or len(x) != 3:
                C.unk('accessor', 'pair', 'not a pair')
                continue
            C.check(x[1] == name or (None if opaque(x[1]) else False),
                    'accessor', 'name', 'by another name', where(f))
            es = [e for e in evs(I, 'construct') if e.result == x[2]]
            C.check(bool(es) and es[0].cls == ('class', AUX) and [
                t for g_, t in flat(I, es[0].args[0])] == [SELF] or None,
                'accessor', 'of-property', 'not of the property', where(f))


def naming(C):
    """the default name: that of the property and a 0, none when the name
    ends in a digit"""
    f = C.m.need_func(PROPC + '.set_name')
    I = C.run(f, selfcls=PROPC)
    b, L = I.b, I.L
    w = where(f)
    N = params(f, 1)
    st = [e for e in evs(I, 'store') if e.target == SELF]
    named = [e for e in st if e.attr == 'name']
    C.implies(I, exits(I), b.or_(FALSE, *[e.guard for e in named]), 'naming',
              'name', 'the name is not set', w)
    for e in named:
        for g, t in flat(I, e.value):
            C.check(t == N or (None if opaque(t) else False), 'naming',
                    'name', 'another name', e.where, L.show(t)[:80])
    aux = [e for e in st if e.attr == 'empty_attr']
    last = ('item', N, const(-1))
    sent = [a for e in aux for a in b.support_atoms(e.guard)
            if a[0] in ('is', 'eq') and mentions(a, A(SELF, 'empty_attr'))]
    ever = b.or_(FALSE, *[e.guard for e in aux])
    C.check(bool(sent) or (False if L.implies(exits(I), ever) else None),
            'naming', 'given', 'a name which was given is not respected', w)
    own = A(SELF, 'empty_attr')
    done = b.and_(exits(I), ever)
    for g, t in flat(I, I.load_attr(((TRUE, SELF),), 'empty_attr'), done):
        if t == own:
            continue
        ten = [b.atom(a) for a in b.support_atoms(g) if a[0] == 'in' and
               a[1] == last and a[2][0] == 'const' and
               set(a[2][2]) == set('0123456789')]
        dig = ten[0] if ten else L.in_(last, const('0123456789'))
        if t == NONE:
            C.implies(I, g, dig, 'naming', 'digit', 'no accessor although '
                      'the name ends in no digit', w,
                      terms=[x for x in b.support_atoms(g)])
        elif t[0] in ('bin', 'call', 'fmt'):
            C.never(I, b.and_(g, dig), 'naming', 'digit', 'an accessor '
                    'although the name ends in a digit', w)
            if t[0] == 'bin':
                C.check(t[1:] in (('Add', N, const('0')), ('+', N, const('0')))
                        or (None if opaque(t) or const('0') in t else False),
                        'naming', 'default', 'another name', w, str(t)[:80])
    for e in aux:
        for a in sent:
            C.implies(I, e.guard, b.atom(a), 'naming', 'given', 'a name '
                      'which was given is replaced', e.where)


def inherits(I, a, k, bases):
    """does the atom say that the name is one of the inherited ones?"""
    if a[0] == 'exists':
        return mentions(a[1], bases) and any(
            x[0] == 'exists' and inherits(I, x, k, bases) or mentions(x, k)
            or any(mentions(y, k) for y in deepatoms(I, x))
            for x in I.b.support_atoms(a[2]))
    return a[0] == 'in' and a[1] == k and (
        a[2][0] == 'new' or mentions(a[2], bases))


def deepatoms(I, a):
    if a[0] == 'exists':
        for x in I.b.support_atoms(a[2]):
            for y in deepatoms(I, x):
                yield y
    else:
        yield a


def declared(C):
    """what a class declares is not replaced by accessors"""
    f = C.m.need_func(RM + '.__new__')
    I = C.run(f)
    b, L = I.b, I.L
    w = where(f)
    bases, attrs = params(f, 2), params(f, 3)
    seen = 0
    aux = [e for e in evs(I, 'call') if method(e)[1] == 'aux_props']
    C.check(bool(aux) or None, 'declared', 'accessors', 'are not asked for',
            w)
    mine = lambda t: any(mentions(t, e.result) for e in aux)
    for e in evs(I, 'mut'):
        if e.target != attrs:
            continue
        if e.name == 'update':
            for V_ in e.args:
                for g, t in flat(I, V_):
                    ks = [x.key for x in I.conts[t].entries] \
                        if t in I.conts else []
                    if any(k and mine(k if isinstance(k[0], str) else
                                      k[0][1]) for k in ks):
                        seen += 1
                        C.bad('declared', 'replaced', 'an attribute which '
                              'is declared is replaced by the accessor of '
                              'another property', e.where)
        elif e.name == 'setdefault':
            if e.args and any(mine(t) for g, t in flat(I, e.args[0])):
                seen += 1
                C.ok('declared', 'replaced', e.where)
    for e in evs(I, 'setitem'):
        k = e.key if isinstance(e.key[0], str) else e.key[0][1]
        if e.target == attrs and mine(k):
            seen += 1
            C.never(I, b.and_(e.guard, L.in_(k, attrs)), 'declared',
                    'replaced', 'an attribute which is declared is replaced '
                    'by the accessor of another property', e.where)
            stays = [a for a in b.support_atoms(e.guard)
                     if inherits(I, a, k, bases) and not L.sat(
                         b.and_(e.guard, b.atom(a)))]
            C.check(bool(stays) or (None if opaque_guard(I, e.guard)
                                    else False), 'declared', 'inherited',
                    'a property which is inherited is replaced by the '
                    'accessor of another property', e.where)
    if not seen:
        C.unk('declared', 'replaced', 'no place adds the accessors')


def emptiness(C):
    """slot_is_empty()"""
    f = C.m.need_func(PROPC + '.slot_is_empty')
    for cls in (PROPC, V1):
        c, g_ = C.m.need_class(cls).lookup('slot_is_empty')
        f = C.m.need_func(c.qual + '.slot_is_empty')
        I = C.run(f, selfcls=cls)
        b, L = I.b, I.L
        o = params(f, 1)
        there = L.in_(A(SELF, 'name'), A(o, '__dict__'))
        con = cls.rpartition('.')[2]
        up = L.truthy(A(SELF, 'v1_upgraded')) if cls == V1 else FALSE
        yes = no = FALSE
        for g, t in flat(I, I.rv, exits(I)):
            v = L.truthy(t)
            yes = b.or_(yes, b.and_(g, v))
            no = b.or_(no, b.and_(g, b.not_(v)))
        want = b.and_(b.not_(there), b.not_(up))
        C.never(I, b.and_(no, want), 'empty', con, 'a slot which is empty '
                'is taken for one which is not', where(f))
        C.never(I, b.and_(yes, b.not_(want)), 'empty', con, 'a slot which '
                'is not empty is taken for one', where(f))


RULES = {'C28': c28}
