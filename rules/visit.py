"""C26 a visit calls the hooks on every included slot and item, and only on
those"""
from .base import *
from .selvals import bools, seq
from .multisel import shares

V = 'normalize.visitor.Visitor'
VP = V + 'Pattern'
REC = 'normalize.record.Record'
MS = 'normalize.selector.MultiFieldSelector'
VIS = P('visitor')
CLS = ('typeof', SELF)
COPY = ('call', ('bound', VIS, V + '.copy'), (), ())
HOOKS = ('unpack', 'apply', 'collect', 'reduce')
MAPS = ('map', 'map_record', 'map_collection', 'map_prop', 'map_type_union')
OPEN = [V + '.' + x for x in ('copy', 'push', 'pop', 'is_filtered',
                              'field_selector')] + [VP + '.' + x
                                                    for x in MAPS]
RTYPE, VT, PR = P('record_type'), P('value_type'), P('prop')
GEN, CT = P('coll_generator'), P('coll_type')
EMPTY = ('AttributeError', 'KeyError')


def vrun(C, name, **kw):
    """the function, and its analysis.  Its parameters go by the names they
    have in the signature the callers know"""
    f = C.m.need_func(VP + '.' + name)
    kw.setdefault('types', {VIS: V, COPY: V})
    return f, C.run(f, boundary=OPEN, selfcls=VP, **kw)


def c26(C):
    records(C)
    collections(C)
    dispatch(C)
    props(C)
    unions(C)
    options(C)
    copies(C)
    filtering(C)
    path(C)
    wiring(C)


def sig(C, qual, drop=1):
    """names of the positional parameters"""
    f = C.m.need_func(qual)
    return [a.arg for a in f.node.args.args][drop:]


def bound(C, qual, args, kws, drop=1):
    """the arguments of a call, in the order of the parameters"""
    ps = sig(C, qual, drop)
    out = list(args) + [None] * (len(ps) - len(args))
    for k, v in (kws.items() if isinstance(kws, dict) else kws):
        if k not in ps:
            return None
        out[ps.index(k)] = v
    while out and out[-1] is None:
        out.pop()
    return out


def hook(t):
    """(name, args) of the result of a hook or of one of the map functions"""
    if t[0] != 'call' or t[1][0] not in ('bound', 'attr'):
        return None, ()
    return t[1][2].rpartition('.')[2], t[2]


def args_of(I, e, C=None, qual=None):
    """the argument values of a call event"""
    if C is not None:
        return bound(C, qual, e.args, e.kws)
    return list(e.args)


def terms(V_, I):
    return [t for g, t in flat(I, V_)] if V_ else []


def calls(I, name):
    return [e for e in evs(I, 'call', 'mut')
            if (e.name if e.kind == 'mut' else method(e)[1]) == name]


def order(I, e):
    return I.events.index(e)


def canonical(owner):
    """VISITOR for the visitor and the copies of it, property and name"""
    pn = propnorm(owner)

    def fn(t):
        return VIS if t == COPY else None
    return lambda t: rewrite(pn(t), fn)


def cued(C, I, keys, loop, inner, canon, con, w):
    """the cue has the key exactly while the value is obtained and mapped"""
    b, L = I.b, I.L
    pushes, pops = [], []
    for e in evs(I, 'call', 'mut'):
        r, m = method(e) if e.kind == 'call' else (e.target, e.name)
        if r is None or m not in ('push', 'pop', 'append'):
            continue
        if r[0] == 'attr' and r[2] == 'cue':
            r = r[1]
        elif m == 'append':
            continue
        if r not in (VIS, COPY):
            continue
        (pops if m == 'pop' else pushes).append((r, e))
    if not pushes:
        C.bad('cue', con + ':push', 'the path is not followed', w)
        return
    for r, e in pushes:
        C.check(r == COPY, 'cue', con + ':own', 'the path of the caller is '
                'changed', e.where)
        for k in [canon(t) for t in terms(e.args[0], I)]:
            C.check(k in keys or (None if opaque(k) else False), 'cue',
                    con + ':key', 'another key on the path', e.where,
                    L.show(k)[:100])
        C.check(bool(e.loops) and len(e.loops) == 1 or None, 'cue',
                con + ':once', 'pushed outside of the loop', e.where)
        for r2, p in pops:
            if r2 != r:
                C.unk('cue', con + ':pair', 'pops another path')
    for r, e in pops:
        for k in [canon(t) for t in terms(e.args[0], I)] if e.args else ():
            C.check(k in keys or k == NONE or (
                None if opaque(k) else False), 'cue', con + ':popped',
                'expects another key', e.where, L.show(k)[:100])
    # every call which uses the path is within push .. pop
    for c in inner:
        mine = [e for r, e in pushes if shares(e, c) and
                order(I, e) < order(I, c)]
        g = b.or_(FALSE, *[e.guard for e in mine])
        C.implies(I, c.guard, g, 'cue', con + ':inside', 'the key is not on '
                  'the path while the value is dealt with', c.where)
        for r, p in pops:
            if shares(p, c) and order(I, p) < order(I, c):
                C.never(I, b.and_(p.guard, c.guard), 'cue', con + ':inside',
                        'the key is off the path before the value is dealt '
                        'with', c.where)
    # balance, where the pass goes on
    out = b.or_(FALSE, *[e.guard for e in raises(I)])
    push = b.or_(FALSE, *[e.guard for r, e in pushes])
    pop = b.or_(FALSE, *[e.guard for r, e in pops
                         if any(order(I, e) > order(I, x)
                                for r2, x in pushes)])
    C.implies(I, b.and_(push, b.not_(out)), pop, 'cue', con + ':popped',
              'the key stays on the path', w)
    C.implies(I, pop, push, 'cue', con + ':popped', 'a key of the caller is '
              'taken off the path', w)
    for i, (r, e) in enumerate(pops):
        for r2, e2 in pops[i + 1:]:
            C.never(I, b.and_(e.guard, e2.guard), 'cue', con + ':popped',
                    'taken off twice', e2.where)
    for i, (r, e) in enumerate(pushes):
        for r2, e2 in pushes[i + 1:]:
            C.never(I, b.and_(e.guard, e2.guard), 'cue', con + ':push',
                    'put on twice', e2.where)


def expand(I, V_, live=TRUE):
    """alternatives, those inside of tuples included"""
    b = I.b
    for g, t in flat(I, V_, live):
        if t[0] == 'tuple':
            part = [(g, ('tuple',))]
            for x in t[1:]:
                xs = flat(I, x[1]) if x[0] == 'phi' else [(TRUE, x)]
                part = [(b.and_(g1, g2), p + (y,)) for g1, p in part
                        for g2, y in xs if b.and_(g1, g2) != FALSE]
            for p in part:
                yield p
        else:
            yield g, t


def kept(I, m):
    """what is mapped is kept"""
    b, L = I.b, I.L
    return b.not_(b.or_(
        b.and_(L.isnone(m), L.truthy(A(VIS, 'ignore_none'))),
        b.and_(L.eq(m, const('')), L.truthy(A(VIS,
                                              'ignore_empty_string')))))


def yielded(C, I, mapped, key, canon, con, w, f):
    """(key, mapped value) is yielded exactly when not to be ignored.
    `mapped`: [(event, result)]"""
    b, L = I.b, I.L
    cg = lambda g: canon_guard(I, g, canon)
    ys = []
    for e in evs(I, 'yield'):
        if not e.top:
            continue
        for g, t in expand(I, e.value, e.guard):
            if not L.sat(g):
                continue
            t = canon(t)
            if t[0] != 'tuple' or len(t) != 3:
                C.check(None if opaque(t) or t[0] != 'tuple' else False,
                        'yield', con + ':pair', 'not a pair', e.where,
                        L.show(t)[:100])
                continue
            ys.append((cg(g), t, e))
    res = {canon(r): e for e, r in mapped}
    got = {}
    for g, t, e in ys:
        C.check(t[1] == key or (None if opaque(t[1]) else False), 'yield',
                con + ':key', 'with another key', e.where,
                L.show(t[1])[:100])
        if t[2] not in res:
            C.check(None if opaque(t[2]) else False, 'yield',
                    con + ':value', 'not what the value was mapped to',
                    e.where, L.show(t[2])[:120])
            continue
        C.implies(I, g, kept(I, t[2]), 'yield', con + ':ignored',
                  'a value to be ignored is given out', e.where,
                  terms=(t[2],))
        got[t[2]] = b.or_(got.get(t[2], FALSE), g)
    for r, e in res.items():
        C.implies(I, b.and_(cg(e.guard), kept(I, r)), got.get(r, FALSE),
                  'yield', con + ':kept', 'a mapped value is lost',
                  e.where, terms=(r,))
    for i, (g, t, e) in enumerate(ys):
        for g2, t2, e2 in ys[i + 1:]:
            if e2 is not e:
                C.never(I, b.and_(g, g2), 'yield', con + ':kept',
                        'given out twice', e2.where)


def option_reads(C, I, names, con):
    """options are read from the visitor (or the copy of it)"""


def records(C):
    f, I = vrun(C, 'map_record')
    b, L = I.b, I.L
    w = where(f)
    con = 'map_record'
    canon = canonical((RTYPE,))
    cg = lambda g: canon_guard(I, g, canon)
    gets = [e for e in evs(I, 'call') if e.callee == P('get_value')]
    maps = calls(I, 'map_prop')
    if not gets or not maps:
        C.unk('slots', con, 'no call of the getter, or of map_prop', w)
        return
    fil = L.truthy(('call', ('bound', VIS, V + '.is_filtered'), (PROP,),
                    ()))
    over = lambda d: mentions(d, A(RTYPE, 'properties')) or \
        mentions(d, A(RTYPE, '_sorted_properties'))
    for e in gets + maps:
        C.check(len(e.loops) == 1 and over(e.loops[0]) or None, 'slots',
                con + ':loop', 'not over the properties of the type',
                e.where)
    # a getter which fails otherwise
    for e in gets:
        ats = {a for h in I.events for a in b.support_atoms(h.guard)
               if a[0] == 'raises' and a[1] == e.result}
        C.check(any(a[2] in (('builtin', 'Exception'),
                             ('builtin', 'BaseException')) for a in ats)
                or (None if any(opaque(a) for a in ats) else False),
                'slots', con + ':failing', 'a getter which fails otherwise '
                'is not a VisitorPropError', e.where)
    # is_filtered is asked while the path is that of the record
    for e in calls(I, 'is_filtered'):
        r, m = method(e)
        for p in calls(I, 'push'):
            if shares(p, e) and order(I, p) < order(I, e) and \
                    method(p)[0] == r:
                C.never(I, b.and_(e.guard, p.guard), 'slots',
                        con + ':filter', 'the path to be filtered has the '
                        'name twice', e.where)
        for t in [canon(t) for t in terms(e.args[0], I)]:
            C.check(t == PROP or (None if opaque(t) else False), 'slots',
                    con + ':filter', 'not asked for the property', e.where)
    cover = FALSE
    got = None
    for e in gets:
        g = cg(e.guard)
        for t in [canon(t) for t in terms(e.args[0], I)]:
            C.check(t == PROP or (None if opaque(t) else False), 'slots',
                    con + ':get', 'not for the property', e.where)
        C.never(I, b.and_(g, fil), 'slots', con + ':filtered',
                'the slot of a property which is filtered out is read',
                e.where)
        cover = b.or_(cover, g)
        got = canon(e.result)
    C.implies(I, b.not_(fil), cover, 'slots', con + ':read', 'the slot of a '
              'property is left out', w)
    exc_atoms = {n: b.atom(('raises', got, ('builtin', n)))
                 for n in EMPTY}
    ra = {a for e in I.events for a in b.support_atoms(cg(e.guard))
          if a[0] == 'raises' and a[1] == got}
    byname = {a[2][1].rpartition('.')[2]: b.atom(a) for a in ra}
    missing = b.or_(FALSE, *[byname[n] for n in EMPTY if n in byname])
    other = b.or_(FALSE, *[x for n, x in byname.items() if n not in EMPTY])
    for n in EMPTY:
        C.check(n in byname, 'slots', con + ':' + n, 'an empty slot stops '
                'the visit', w)
    empty = L.truthy(A(VIS, 'apply_empty_slots'))
    isexc = b.or_(*[L.isinst(got, ('builtin', n)) for n in EMPTY])
    have = gone = FALSE
    mapped = []
    for e in maps:
        a = bound(C, VP + '.map_prop', e.args, e.kws)
        g = cg(e.guard)
        if not a or len(a) != 3:
            C.unk('slots', con + ':args', 'unknown arguments', e.where)
            continue
        for t in terms(a[0], I):
            C.check(t == COPY or (None if opaque(t) or t != VIS else
                                  False), 'slots', con + ':visitor',
                    'not with the path of the slot', e.where)
        for t in [canon(t) for t in terms(a[2], I)]:
            C.check(t == PROP or (None if opaque(t) else False), 'slots',
                    con + ':prop', 'not with the property', e.where)
        for gg, t in flat(I, a[1], e.guard):
            t = canon(t)
            gg = cg(gg)
            if t == got:
                have = b.or_(have, gg)
                C.never(I, b.and_(gg, b.or_(missing, other)), 'slots',
                        con + ':stale', 'maps a value which was not '
                        'obtained', e.where)
            elif t[0] == 'excv' and t[1] == got:
                gone = b.or_(gone, gg)
                C.implies(I, gg, empty, 'slots', con + ':empty', 'an empty '
                          'slot is visited without apply_empty_slots',
                          e.where)
            else:
                C.check(None if opaque(t) else False, 'slots',
                        con + ':value', 'not the value of the slot',
                        e.where, L.show(t)[:100])
        mapped.append((e, e.result))
    ok = b.and_(b.not_(fil), b.not_(missing), b.not_(other))
    C.implies(I, b.and_(ok, b.not_(isexc)), have, 'slots', con + ':visited',
              'a slot which has a value is not visited', w)
    C.implies(I, b.and_(b.not_(fil), missing, empty), gone, 'slots',
              con + ':empty', 'an empty slot is not visited in spite of '
              'apply_empty_slots', w)
    if not any(t and t[0] == 'raises' and t[1] in [r for e, r in mapped]
               for e in evs(I, 'handler')
               for t in b.support_atoms(e.guard)):
        C.ok('slots', con + ':errors', w)
    else:
        C.unk('slots', con + ':errors', 'errors of hooks are caught')
    yielded(C, I, mapped, PROP, canon, con, w, f)
    cued(C, I, (NAME,), None, gets + maps, canon, con, w)
    whole_loop(C, I, over, 'slots', con + ':all', 'properties after this '
               'one are left out')


def collections(C):
    f, I = vrun(C, 'map_collection')
    b, L = I.b, I.L
    w = where(f)
    con = 'map_collection'
    el = ('elem', GEN)
    K, VAL = ('item', el, const(0)), ('item', el, const(1))
    canon = canonical(())
    cg = lambda g: canon_guard(I, g, canon)
    maps = calls(I, 'map')
    if not maps:
        C.unk('items', con, 'no call of map', w)
        return
    over = lambda d: d == GEN
    cover = FALSE
    mapped = []
    for e in maps:
        C.check(len(e.loops) == 1 and over(e.loops[0]) or None, 'items',
                con + ':loop', 'not over the items', e.where)
        a = bound(C, VP + '.map', e.args, e.kws)
        if not a or len(a) != 3:
            C.unk('items', con + ':args', 'unknown arguments', e.where)
            continue
        for i, want, what in ((0, COPY, 'the path of the item'),
                              (1, VAL, 'the item'),
                              (2, A(CT, 'itemtype'), 'the item type')):
            for t in terms(a[i], I):
                C.check(t == want or (None if opaque(t) else False),
                        'items', con + ':' + str(i), 'not with ' + what,
                        e.where, L.show(t)[:100])
        cover = b.or_(cover, cg(e.guard))
        mapped.append((e, e.result))
    C.implies(I, TRUE, cover, 'items', con + ':visited', 'an item is not '
              'visited', w)
    yielded(C, I, mapped, K, canon, con, w, f)
    cued(C, I, (K,), None, maps, canon, con, w)
    whole_loop(C, I, over, 'items', con + ':all', 'items after this one are '
               'left out', True)


def cases(C, I, rule, con, f, table):
    """in each case, the result is the one wanted"""
    b, L = I.b, I.L
    for name, g0, want in table:
        n = 0
        for g, t in flat(I, I.rv, exits(I)):
            gg = b.and_(g, g0)
            if not L.sat(gg):
                continue
            n += 1
            r = norm(C, t) in [norm(C, x) for x in want]
            if not r and (opaque(t) or opaque_guard(I, gg)):
                r = None
            C.check(r, rule, con + ':' + name, 'another result', where(f),
                    '%s when %s' % (L.show(t)[:100], L.showg(gg)[:200]))
        if n:
            C.never(I, b.and_(g0, b.not_(exits(I)), b.not_(
                b.or_(FALSE, *[e.guard for e in raises(I)]))), rule,
                con + ':' + name, 'no result', where(f))
        else:
            C.unk(rule, con + ':' + name, 'no result')


def norm(C, t):
    """map functions, however they are called"""
    def fn(x):
        if x[0] == 'call' and x[1][0] in ('bound', 'attr') and \
                x[1][2].rpartition('.')[2] in MAPS and \
                x[1][1] in (CLS, SELF):
            n = x[1][2].rpartition('.')[2]
            a = bound(C, VP + '.' + n, x[2], dict(x[3]) if x[3] else {})
            if a is not None:
                return ('call', ('attr', CLS, n), tuple(a), ())
    return rewrite(t, fn)


def mp(name, *a):
    return ('call', ('attr', CLS, name), a, ())


def hk(name, *a):
    return ('call', A(VIS, name), a, ())


def dispatch(C):
    f, I = vrun(C, 'map')
    b, L = I.b, I.L
    con = 'map'
    U = hk('unpack', VALUE, VT, VIS)
    SV = VP + '.StopVisiting'
    ats = [a for e in I.events for a in b.support_atoms(e.guard)]
    stops = FALSE
    for a in set(ats):
        if a[0] in ('is', 'eq', 'isinst') and mentions(a, U) and any(
                isinstance(x, tuple) and x[-1:] and isinstance(
                    x[-1], str) and x[-1].endswith('StopVisiting')
                for x in subterms(a)):
            stops = b.or_(stops, b.atom(a))
    istup = L.isinst(U, ('builtin', 'tuple'))
    free = b.not_(stops)
    table = [('stop', stops, [A(U, 'return_value')])]
    if stops == FALSE:
        C.unk('dispatch', con + ':stop', 'StopVisiting is not recognised')
        table = []
    else:
        C.check(any(a[0] in ('is', 'eq', 'in', 'subcls') and mentions(a, U)
                    for a in b.support_atoms(stops)) or any(
                        a[0] in ('in', 'subcls') and mentions(a, U)
                        for a in set(ats)), 'dispatch', con + ':stop-class',
                'the class StopVisiting itself does not stop', where(f))
    for tup in (True, False):
        p = ('item', U, const(0)) if tup else U
        c = ('item', U, const(1)) if tup else None
        base = b.and_(free, istup if tup else b.not_(istup))
        for hasp in (True, False):
            gp = L.truthy(p) if hasp else L.isnone(p)
            for hasc in (True, False):
                if not tup and hasc:
                    continue
                gc = TRUE if c is None else \
                    L.truthy(c) if hasc else L.isnone(c)
                g = b.and_(base, gp, gc)
                mr = mp('map_record', VIS, p, VT) if hasp else NONE
                mc = hk('collect', mp('map_collection', VIS, c, VT), VT,
                        VIS) if hasc else NONE
                red = hk('reduce', mr, mc, VT, VIS)
                app = hk('apply', VALUE, NONE, VIS)
                name = '%s-%s-%s' % ('tuple' if tup else 'getter',
                                     'record' if hasp else 'no-record',
                                     'items' if hasc else 'no-items')
                if hasp:
                    table.append((name, g, [red]))
                elif hasc:
                    none = L.isnone(mc)
                    for a in set(ats):
                        if a[0] in ('isnone', 'is') and norm(
                                C, a) == ('isnone', mc):
                            none = b.or_(none, b.atom(a))
                    table.append((name, b.and_(g, b.not_(none)), [red]))
                    table.append((name + '-none', b.and_(g, none),
                                  [red, app]))
                else:
                    table.append((name, g, [app]))
    cases(C, I, 'dispatch', con, f, table)


def props(C):
    f, I = vrun(C, 'map_prop')
    b, L = I.b, I.L
    con = 'map_prop'
    pvt = A(PR, 'valuetype')
    tv = ('typeof', VALUE)
    exc = b.or_(*[L.isinst(VALUE, ('builtin', n)) for n in EMPTY])
    isrec = L.isinst(VALUE, ('class', REC))
    has = L.truthy(pvt)
    tup = L.isinst(pvt, ('builtin', 'tuple'))
    sub = L.b.atom(('subcls', pvt, ('class', REC)))
    sane = b.and_(b.not_(exc), b.not_(L.isinst(tv, ('builtin', 'tuple'))))
    app = hk('apply', VALUE, PR, VIS)
    cases(C, I, 'dispatch', con, f, [
        ('empty', b.and_(exc, b.not_(isrec)), [app]),
        ('union', b.and_(sane, has, tup),
         [mp('map_type_union', VIS, VALUE, pvt, PR)]),
        ('record', b.and_(sane, has, b.not_(tup), sub),
         [mp('map', VIS, VALUE, pvt)]),
        ('value', b.and_(sane, has, b.not_(tup), b.not_(sub)), [app]),
        ('untyped-record', b.and_(sane, L.isnone(pvt), isrec),
         [mp('map', VIS, VALUE, tv)]),
        ('untyped-value', b.and_(sane, L.isnone(pvt), b.not_(isrec)),
         [app]),
    ])


def unions(C):
    f, I = vrun(C, 'map_type_union')
    b, L = I.b, I.L
    w = where(f)
    con = 'map_type_union'
    TT = P('type_tuple')
    el = ('elem', TT)
    sub = b.atom(('subcls', el, ('class', REC)))
    inst = L.isinst(VALUE, el)
    match = I.quant((TT,), b.and_(sub, inst))
    maps = calls(I, 'map')
    if not maps:
        C.unk('union', con, 'no call of map', w)
        return
    cover = FALSE
    for e in maps:
        a = bound(C, VP + '.map', e.args, e.kws)
        if not a or len(a) != 3 or e.loops != (TT,):
            C.unk('union', con + ':args', 'unknown arguments', e.where)
            continue
        for i, want, what in ((0, VIS, 'the visitor'), (1, VALUE,
                              'the value'), (2, el, 'a type of the union')):
            for t in terms(a[i], I):
                C.check(t == want or (None if opaque(t) else False),
                        'union', con + ':' + str(i), 'not with ' + what,
                        e.where, L.show(t)[:100])
        C.implies(I, e.guard, sub, 'union', con + ':records', 'a type which '
                  'is no record type is mapped as one', e.where)
        C.implies(I, b.and_(e.guard, match), inst, 'union', con +
                  ':matching', 'a type the value is not of is preferred',
                  e.where)
        cover = b.or_(cover, e.guard)
        hs = [h for h in evs(I, 'handler') if shares(h, e) and any(
            x[0] == 'raises' and x[1] == e.result and
            x[2] == ('builtin', 'TypeError')
            for x in b.support_atoms(h.guard))]
        ra = b.atom(('raises', e.result, ('builtin', 'TypeError')))
        C.implies(I, b.and_(e.guard, ra), b.or_(FALSE, *[
            h.guard for h in hs]), 'union', con + ':protest', 'a TypeError '
            'of one type stops the others from being tried', e.where)
        for h in hs:
            for r in raises(I):
                if shares(r, h) and order(I, r) > order(I, h):
                    C.never(I, b.and_(r.guard, h.guard, ra), 'union',
                            con + ':protest', 'a TypeError of one type '
                            'stops the others from being tried', r.where)
        for x in evs(I, 'break', 'return'):
            if shares(x, e):
                C.never(I, b.and_(x.guard, ra), 'union', con + ':protest',
                        'a TypeError of one type stops the others from '
                        'being tried', x.where)
                C.implies(I, b.and_(x.guard, b.not_(ra)), L.truthy(
                    e.result), 'union', con + ':first', 'stops at a type '
                    'which gave nothing', x.where)
    ok = {i for x in evs(I, 'break') if any(shares(x, e) for e in maps)
          for i in x.lids}
    for v in sorted(b.support(cover)):
        a = b.atoms[v]
        if a[0] == 'unbroken' and a[2] in ok:
            cover = b.restrict(cover, v, 1)
    C.implies(I, b.and_(sub, inst, match), cover, 'union', con + ':tried',
              'a type the value is of is not tried', w)
    C.implies(I, b.and_(sub, b.not_(match)), cover, 'union',
              con + ':tried', 'a record type is not tried', w)
    app = hk('apply', VALUE, PR, VIS)
    res = {norm(C, e.result) for e in maps}
    for g, t in flat(I, I.rv, exits(I)):
        if not L.sat(g):
            continue
        if t == app:
            C.never(I, b.and_(g, match), 'union', con + ':fallback',
                    'a record which maps to nothing is applied as a plain '
                    'value', w)
        elif t == NONE:
            C.implies(I, g, match, 'union', con + ':fallback', 'a value of '
                      'none of the record types is lost', w)
        else:
            C.check(norm(C, t) in res or (None if opaque(t) else False),
                    'union', con + ':result', 'not what a type mapped it to',
                    w, L.show(t)[:100])
            if norm(C, t) in res:
                gn = b.and_(g, b.not_(match))
                ats = [a for a in b.support_atoms(gn) if a[0] in (
                    'truthy', 'isnone', 'eq', 'is') and t in a]
                C.check(L.implies(gn, L.truthy(t)) or (
                    None if any(a[0] not in ('isnone', 'truthy') for a in ats)
                    else False),
                    'union', con + ':empty', 'a value which no type made '
                    'anything of is lost', w)
    for e in evs(I, 'reversed', 'sorted', 'merged'):
        x = e.arg
        if x == TT or x in I.conts and any(
                en.loops == (TT,) for en in I.conts[x].entries):
            C.never(I, e.guard, 'union', con + ':order', 'not tried in turn',
                    e.where)


# ---- the visitor

def options(C):
    f = C.m.need_func(V + '.__init__')
    I = C.run(f, boundary=OPEN, selfcls=V)
    b, L = I.b, I.L
    w = where(f)
    con = 'Visitor.__init__'
    st = [e for e in evs(I, 'store') if e.target == SELF]
    for n in ('apply_empty_slots', 'extraneous', 'ignore_empty_string',
              'ignore_none'):
        alts = [(g, t) for e in st if e.attr == n
                for g, t in flat(I, e.value, e.guard)]
        if not alts:
            C.unk('options', con + ':' + n, 'not seen to be set')
            continue
        for g, t in alts:
            C.check(flagged(t, P(n)) or (None if opaque(t) else False),
                    'options', con + ':' + n, 'is not the option given', w,
                    L.show(t)[:100])
        C.implies(I, TRUE, b.or_(*[g for g, t in alts]), 'options',
                  con + ':' + n, 'is not set', w)
    vf, fl = P('visit_filter'), P('filter')
    seen = FALSE
    for e in st:
        if e.attr != 'visit_filter':
            continue
        for g, t in flat(I, e.value, e.guard):
            seen = b.or_(seen, g)
            src = None
            made = t[0] == 'new' and t[2] == MS
            if made:
                ce = [x for x in evs(I, 'construct') if x.result == t]
                ss = [y for x in ce for s in (x.get('star') or ())
                      for y in (flat(I, s, g) if s and isinstance(
                          s[0], tuple) else [(g, s)])]
                if len(ce) != 1 or ce[0].args or not ss:
                    C.unk('options', con + ':filter', 'not decided', w)
                    continue
                srcs = ss
            else:
                srcs = [(g, t)]
            for g, x in srcs:
                if x == vf:
                    C.never(I, b.and_(g, L.isnone(vf), b.not_(L.isnone(
                        fl))) if not made else FALSE, 'options',
                        con + ':filter', 'the other name of the option is '
                        'not looked at', w)
                elif x == fl:
                    C.implies(I, g, L.isnone(vf), 'options', con +
                              ':filter', 'the filter given is not used', w)
                elif x == NONE and not made:
                    C.implies(I, g, b.and_(L.isnone(vf), L.isnone(fl)),
                              'options', con + ':filter', 'the filter is '
                              'dropped', w)
                else:
                    C.check(None if opaque(x) or x[0] not in (
                        'param', 'const') else False, 'options',
                        con + ':filter', 'not the filter', w,
                        L.show(x)[:80])
                ism = L.isinst(x, ('class', MS))
                if x in (vf, fl):
                    if made:
                        C.never(I, b.and_(g, ism), 'options', con +
                                ':selector', 'a selector is taken apart',
                                w)
                        C.never(I, b.and_(g, L.isnone(x)), 'options', con +
                                ':selector', 'fails without a filter', w)
                    else:
                        C.implies(I, g, b.or_(ism, L.isnone(x)), 'options',
                                  con + ':selector', 'is not made a '
                                  'selector', w)
    C.implies(I, TRUE, seen, 'options', con + ':filter', 'is not set', w)


def flagged(t, x):
    return t == x or t == ('call', ('builtin', 'bool'), (x,), ())


def ctor_map(C):
    """parameter of the constructor -> attribute it ends up in"""
    f = C.m.need_func(V + '.__init__')
    I = C.run(f, boundary=OPEN, selfcls=V)
    out = {}
    for e in evs(I, 'store'):
        if e.target == SELF:
            for g, t in flat(I, e.value, e.guard):
                if t[0] == 'param':
                    out.setdefault(t[1], set()).add(e.attr)
                elif flagged(t, t[2][0] if t[0] == 'call' and t[2] else t):
                    if t[2][0][0] == 'param':
                        out.setdefault(t[2][0][1], set()).add(e.attr)
    return out


def copies(C):
    f = C.m.need_func(V + '.copy')
    I = C.run(f, boundary=OPEN, selfcls=V)
    b, L = I.b, I.L
    w = where(f)
    con = 'Visitor.copy'
    cm = ctor_map(C)
    attrs = HOOKS + ('apply_empty_slots', 'extraneous',
                     'ignore_empty_string', 'ignore_none', 'visit_filter')
    for g, t in flat(I, I.rv, exits(I)):
        call = t[3] if t[0] == 'newof' else None
        ce = [e for e in evs(I, 'construct') if e.result == t]
        if len(ce) == 1 and call is None and t[0] == 'new' and t[2] == V:
            C.bad('copy', con + ':class', 'does not keep the class of the '
                  'visitor', w)
            call = ce[0]
        if len(ce) != 1 or ce[0].get('star') or ce[0].get('starkw'):
            C.unk('copy', con, 'made in an unknown way', w)
            continue
        e = ce[0]
        a = bound(C, V + '.__init__', e.args, e.kws)
        if a is None:
            C.unk('copy', con, 'unknown arguments', w)
            continue
        ps = sig(C, V + '.__init__')
        have = {}
        for i, x in enumerate(a):
            if x is not None:
                for n in cm.get(ps[i], ()):
                    have.setdefault(n, []).extend(terms(x, I))
        for x in evs(I, 'store'):
            if x.target == t and x.attr in attrs:
                C.check(L.implies(g, x.guard) or None, 'copy', con + ':' +
                        x.attr, 'set conditionally', x.where)
                have[x.attr] = terms(x.value, I)
        for n in attrs:
            if n not in have:
                C.bad('copy', con + ':' + n, 'the option is forgotten', w)
                continue
            for x in have[n]:
                C.check(x == A(SELF, n) or (None if opaque(x) else False),
                        'copy', con + ':' + n, 'is another', w,
                        L.show(x)[:80])
        # the path
        cue = A(SELF, 'cue')
        own = ('attr', t, 'cue')
        got = None
        for x in evs(I, 'call', 'mut', 'store'):
            if x.kind == 'store':
                if not (x.target == t and x.attr == 'cue'):
                    continue
                got = []
                for g2, y in flat(I, x.value, x.guard):
                    s = seq(I, y)
                    if y == cue:
                        C.bad('copy', con + ':cue', 'the path is shared',
                              x.where)
                    got = s
                continue
            r, m = method(x) if x.kind == 'call' else (x.target, x.name)
            if r not in (t, own) or m not in ('push', 'append', 'extend',
                                              'pop', 'insert', '+='):
                continue
            ys = terms(x.args[0], I) if x.args else []
            if m in ('push', 'append') and x.loops == (cue,) and \
                    ys == [('elem', cue)]:
                got = (got or []) + [('all', cue)]
            elif m in ('extend', '+=') and not x.loops and len(ys) == 1:
                s = seq(I, ys[0])
                got = None if s is None else (got or []) + s
            elif m in ('push', 'append') and len(x.loops) == 1 and \
                    ys == [('elem', x.loops[0])] and seq(
                        I, x.loops[0]) is not None:
                got = (got or []) + seq(I, x.loops[0])
            elif m in ('push', 'append') and x.loops:
                if x.loops[0] == cue or any(opaque(y) for y in ys):
                    C.check(None if any(opaque(y) for y in ys) else False,
                            'copy', con + ':cue', 'another path', x.where)
                got = [('one', ('unk', 'loop'))]
            else:
                got = [('one', ('unk', 'x'))]
        if got == [('all', cue)]:
            C.ok('copy', con + ':cue', w)
        elif got is None:
            C.check(None if any(e.get('target') in (t, own) and
                                e.get('attr') == 'cue'
                                for e in I.events) else False, 'copy',
                    con + ':cue', 'the path is forgotten', w)
        else:
            C.check(None if opaque(tuple(got)) else False, 'copy',
                    con + ':cue', 'another path', w)
        for x in evs(I, 'reversed', 'sorted'):
            if x.arg == cue:
                C.never(I, x.guard, 'copy', con + ':cue', 'the path in '
                        'another order', x.where)
        for x in evs(I, 'break'):
            if x.loops and x.loops[-1] == cue:
                C.never(I, x.guard, 'copy', con + ':cue',
                        'the path is cut', x.where)
    for x in evs(I, 'store', 'mut', 'delitem', 'setitem'):
        if x.target in (SELF, A(SELF, 'cue')):
            C.never(I, x.guard, 'copy', con + ':self', 'changes the '
                    'original', x.where)


def filtering(C):
    f = C.m.need_func(V + '.is_filtered')
    vf = A(SELF, 'visit_filter')
    I = C.run(f, boundary=[x for x in OPEN if 'is_filtered' not in x],
              selfcls=V)
    b, L = I.b, I.L
    want = b.and_(b.not_(L.truthy(A(SELF, 'extraneous'))),
                  L.truthy(A(PR, 'extraneous')))
    sel = FALSE
    found = True
    ats = {a for g, t in flat(I, I.rv, exits(I))
           for a in b.support_atoms(b.or_(g, L.truthy(t)))}
    look = None
    for a in ats:
        for x in subterms(a):
            if x[0] == 'item' and x[1] == vf:
                look = x
    if look is None:
        C.unk('filter', 'Visitor.is_filtered', 'the selector is looked up '
              'in an unknown way', where(f))
        return
    s = seq(I, look[2])
    C.check(s == [('all', A(SELF, 'cue')), ('one', A(PR, 'name'))] or (
        None if s is None or opaque(tuple(s)) else False), 'filter',
        'Visitor.is_filtered:path', 'not the path of the property',
        where(f), str(s)[:100])
    out = b.and_(b.not_(L.isnone(vf)), b.not_(L.truthy(look)))
    sane = b.or_(L.isnone(vf), L.truthy(vf))
    bools(C, I, f, b.or_(want, out), 'filter', 'Visitor.is_filtered',
          'a property is filtered', live=sane)


def path(C):
    for name in ('push', 'pop'):
        f = C.m.need_func(V + '.' + name)
        I = C.run(f, boundary=[x for x in OPEN if not x.endswith(
            '.' + name)], selfcls=V)
        b, L = I.b, I.L
        con = 'Visitor.' + name
        cue = A(SELF, 'cue')
        g = FALSE
        for e in evs(I, 'mut', 'delitem', 'setitem', 'store'):
            if e.target not in (cue, SELF):
                continue
            if name == 'push' and e.kind == 'mut' and \
                    e.name == 'append' and e.target == cue:
                C.check(terms(e.args[0], I) == [P('what')], 'path', con,
                        'another key', e.where)
                g = b.or_(g, e.guard)
            elif name == 'pop' and e.kind == 'mut' and e.name == 'pop' \
                    and e.target == cue:
                C.check(not e.args or terms(e.args[0], I) == [const(-1)],
                        'path', con, 'not the last key', e.where)
                g = b.or_(g, e.guard)
            else:
                C.unk('path', con, 'changed in an unknown way', e.where)
                g = TRUE
        C.implies(I, exits(I), g, 'path', con, 'the path is not changed',
                  where(f))
    f = C.m.need_func(V + '.field_selector')
    I = C.run(f, boundary=[x for x in OPEN if 'field_selector' not in x] +
              ['normalize.selector.FieldSelector.*'], selfcls=V)
    for g, t in flat(I, I.rv, exits(I)):
        ce = [e for e in evs(I, 'construct', 'call') if e.result == t]
        for e in ce:
            for x in terms(e.args[0], I) if e.args else ():
                s = seq(I, x)
                C.check(s == [('all', A(SELF, 'cue'))] or (
                    None if s is None or opaque(tuple(s)) else False),
                    'path', 'Visitor.field_selector', 'another path',
                    where(f), I.L.show(x)[:80])


# ---- the three uses

USES = {
    'visit': {'unpack': 'unpack', 'apply': 'apply', 'collect': 'aggregate',
              'reduce': 'reduce'},
    'cast': {'unpack': 'grok', 'apply': 'reverse', 'collect': 'collect',
             'reduce': 'produce'},
    'reflect': {'unpack': 'scantypes', 'apply': 'propinfo',
                'collect': 'itemtypes', 'reduce': 'typeinfo'},
}


def wiring(C):
    cm = ctor_map(C)
    ps = sig(C, V + '.__init__')
    vclass = A(CLS, 'Visitor')
    for use, table in sorted(USES.items()):
        f = C.m.need_func(VP + '.' + use)
        I = C.run(f, boundary=OPEN, selfcls=VP, types={})
        b, L = I.b, I.L
        w = where(f)
        made = {}
        for e in evs(I, 'call', 'construct'):
            if not (e.get('callee') in (vclass, A(SELF, 'Visitor'),
                                        ('class', V)) or
                    e.get('cls') == V or
                    e.get('callee') == ('attr', ('class', VP), 'Visitor')):
                continue
            a = bound(C, V + '.__init__', e.args, e.kws)
            if a is None or e.get('star'):
                C.unk('hooks', use, 'unknown arguments', e.where)
                continue
            made[e.result] = e
            C.check(any(t == P('**kwargs') for s in (e.get('starkw') or ())
                        for t in (terms(s, I) if s and isinstance(
                            s[0], tuple) else [s])) or None, 'hooks',
                    use + ':options', 'the options are not passed on',
                    e.where)
            got = {}
            for i, x in enumerate(a):
                if x is not None:
                    for n in cm.get(ps[i], ()):
                        got[n] = terms(x, I)
            for n, want in sorted(table.items()):
                if n not in got:
                    C.bad('hooks', use + ':' + n, 'no hook', e.where)
                    continue
                for t in got[n]:
                    ok = t[0] in ('attr', 'bound') and t[1] in (
                        CLS, SELF) and t[2].rpartition('.')[2] == want
                    C.check(ok or (None if opaque(t) else False), 'hooks',
                            use + ':' + n, 'another hook than ' + want,
                            e.where, L.show(t)[:60])
        for e in calls(I, 'map'):
            a = bound(C, VP + '.map', e.args, e.kws)
            if not a or len(a) != 3:
                C.unk('hooks', use + ':map', 'unknown arguments', e.where)
                continue
            for g, t in flat(I, a[0], e.guard):
                if use == 'cast' and t == P('visitor'):
                    C.never(I, b.and_(g, L.isnone(t)), 'hooks', use +
                            ':visitor', 'no visitor', e.where)
                else:
                    if use == 'cast':
                        C.never(I, b.and_(g, b.not_(L.isnone(
                            P('visitor')))), 'hooks', 'cast:visitor',
                            'the visitor given is not used', e.where)
                    C.check(t in made or (None if opaque(t) else False),
                            'hooks', use + ':visitor', 'another visitor',
                            e.where, L.show(t)[:60])
            judge(C, I, use, e, a)
        if not calls(I, 'map'):
            C.unk('hooks', use + ':map', 'not seen to be called')


def judge(C, I, use, e, a):
    """what is visited, and as what"""
    b, L = I.b, I.L
    X = P('X')
    for g, t in flat(I, a[1], e.guard):
        for g2, y in flat(I, a[2], g):
            if not L.sat(g2):
                continue
            if use == 'reflect':
                ist = L.isinst(X, ('builtin', 'type'))
                want = [(b.and_(g2, ist), NONE, X),
                        (b.and_(g2, b.not_(ist)), X, ('typeof', X))]
            elif use == 'visit':
                gv = L.truthy(VT)
                want = [(b.and_(g2, gv), VALUE, VT),
                        (b.and_(g2, b.not_(gv)), VALUE, ('typeof', VALUE))]
            else:
                want = [(g2, VALUE, VT)]
            for gg, v, ty in want:
                if L.sat(gg):
                    C.check((t, y) == (v, ty) or (None if opaque(
                        (t, y)) or opaque_guard(I, gg) else False),
                        'hooks', use + ':what', 'another value or type',
                        e.where, '%s, %s' % (L.show(t)[:50],
                                             L.show(y)[:50]))


RULES = {'C26': c26}
