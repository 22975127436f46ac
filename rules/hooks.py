"""C33 what the default hooks of a visit make, the ones of a cast take back"""
from .base import *
from .visit import OPEN, VP, expand

REC = ('class', 'normalize.record.Record')
COLL = ('class', 'normalize.coll.Collection')
PR = P('prop')


def hrun(C, name):
    """the analysis and the parameters (after the class) of a hook"""
    f = C.m.need_func(VP + '.' + name)
    a = f.node.args
    ps = [P(x.arg) for x in a.posonlyargs + a.args]
    if not any('staticmethod' in ast.dump(d) for d in f.node.decorator_list):
        ps = ps[1:]
    I = C.run(f, boundary=OPEN, selfcls=VP, types={})
    return f, I, ps


def c33(C):
    unpack(C)
    grok(C)
    single(C)
    members(C)
    reduce(C)
    produce(C)
    reflect(C)


def isa(I, ty, cls):
    return I.b.atom(('subcls', ty, cls))


def pair(C, I, f, con):
    """[(guard, getter, items)] of what is returned"""
    out = []
    for g, t in expand(I, I.rv, exits(I)):
        g = I.b.and_(g, exits(I))
        if not I.L.sat(g):
            continue
        if t[0] == 'tuple' and len(t) == 3:
            out.append((g, t[1], t[2]))
        else:
            C.unk(con, 'result', 'not a pair', where(f))
    return out


def read(C, I, t, ok, vals, rule, con, w):
    """what the getter returns for a property"""
    V = I.apply(t, [PR], TRUE)
    n = 0
    for g, x in flat(I, V):
        if not I.L.sat(g):
            continue
        n += 1
        good = ok(x)
        bad = x[0] == 'const' or x[0] in ('item', 'attr', 'dattr') and \
            mentions(x, vals) or x[0] == 'call' and (
                x[1][0] == 'attr' and x[1][1] == vals and
                x[1][2] in ('get', 'pop', 'setdefault') or
                x[1] == ('builtin', 'getattr') and len(x[2]) == 3) or \
            x[0] == 'param'
        C.check(good or (False if bad and not opaque(x) else None), rule,
                con, 'not the value of the property', w, I.L.show(x)[:80])
    if not n:
        C.unk(rule, con, 'not decided', w)


def tuples(t, ty):
    """the collection coll_to_tuples (or itertuples) is called for"""
    if t[0] != 'call' or t[1][0] not in ('attr', 'bound'):
        return None, None
    n = t[1][2].rpartition('.')[2]
    if n == 'itertuples' and not t[2]:
        return n, t[1][1]
    if n == 'coll_to_tuples' and len(t[2]) == 1 and not t[3] and \
            t[1][1] == ty:
        return n, t[2][0]
    return None, None


def unpack(C):
    f, I, (VAL, TY, VIS) = hrun(C, 'unpack')
    b, L = I.b, I.L
    w = where(f)
    coll, rec = isa(I, TY, COLL), isa(I, TY, REC)

    def ok(x):
        nm = A(PR, 'name')
        return x in (('dattr', VAL, nm), ('call', ('builtin', 'getattr'),
                                          (VAL, nm), ())) or \
            x[0] == 'call' and x[1][0] == 'attr' and \
            x[1][2] == '__get__' and (
                x[1][1] == PR and x[2][:1] == (VAL,) or
                x[1][1] == ('typeof', PR) and x[2][:2] == (PR, VAL))
    for g, get, items in pair(C, I, f, 'unpack'):
        if get == NONE:
            C.never(I, b.and_(g, rec), 'unpack', 'record', 'the properties '
                    'of a record are not visited', w)
        elif get[0] == 'closure':
            read(C, I, get, ok, VAL, 'unpack', 'property', w)
        else:
            C.unk('unpack', 'record', 'not decided', w)
        if items == NONE:
            C.never(I, b.and_(g, coll), 'unpack', 'collection', 'the items '
                    'of a collection are not visited', w)
        else:
            n, of = tuples(items, TY)
            C.check(of == VAL or (None if of is None or opaque(of)
                                  else False), 'unpack', 'items',
                    'not the items of the value', w, L.show(items)[:80])
            C.never(I, b.and_(g, b.not_(coll)), 'unpack', 'items:collection',
                    'what is not visited as a collection has items', w)
            if n == 'coll_to_tuples':
                kind(C, I, g, VAL, A(TY, 'colltype'), 'unpack',
                     'items:type', 'taken for a collection of this type '
                     'without being one', w)


def kind(C, I, g, x, ty, rule, con, msg, w):
    """g only if x is of this type"""
    b, L = I.b, I.L
    ats = [a for a in b.support_atoms(g) if a[0] == 'isinst' and
           a[1] == x]
    hit = [a for a in ats if a[2] == ty or isinstance(ty, str) and
           a[2][0] == 'attr' and a[2][2] == ty]
    if any(L.implies(g, b.atom(a)) for a in hit):
        C.ok(rule, con, w)
    else:
        C.check(None if any(a not in hit for a in ats) else False, rule, con,
                msg, w)


def grok(C):
    f, I, (VAL, TY, VIS) = hrun(C, 'grok')
    b, L = I.b, I.L
    w = where(f)
    coll, rec = isa(I, TY, COLL), isa(I, TY, REC)
    some = included(C, I)
    if some is None:
        C.unk('grok', 'record', 'not decided', w)
        return
    rec = b.and_(rec, some)
    HAS = L.in_(const('values'), VAL)
    SUB = ('item', VAL, const('values'))

    def ok(x):
        return x == ('item', VAL, A(PR, 'name'))
    for g, get, items in pair(C, I, f, 'grok'):
        if get == NONE:
            C.never(I, b.and_(g, rec), 'grok', 'record', 'the properties '
                    'of a record are not read', w)
        elif get[0] == 'closure':
            C.never(I, b.and_(g, b.not_(rec)), 'grok', 'record:included',
                    'properties are read although none is included', w)
            read(C, I, get, ok, VAL, 'grok', 'property', w)
            kind(C, I, g, VAL, 'grok_mapping_types', 'grok',
                 'record:type', 'properties are read of what is not a '
                 'mapping', w)
        else:
            C.unk('grok', 'record', 'not decided', w)
        if items == NONE:
            C.never(I, b.and_(g, coll), 'grok', 'collection', 'the items '
                    'of a collection are not read', w)
            continue
        n, of = tuples(items, TY)
        if n != 'coll_to_tuples' or opaque(of):
            C.unk('grok', 'items', 'not decided', w)
            continue
        C.never(I, b.and_(g, b.not_(coll)), 'grok', 'items:collection',
                'what is not a collection has items', w)
        kind(C, I, g, of, 'grok_coll_types', 'grok', 'items:type',
             'items are read of what is not a collection', w)
        if of == SUB:
            C.never(I, b.and_(g, b.not_(rec)), 'grok', 'items:own', 'a '
                    'collection without included properties is taken for '
                    'one with them', w)
        elif of == VAL:
            gr = b.and_(g, rec)
            ats = b.support_atoms(gr)
            C.check(not L.sat(b.and_(gr, HAS)) or (
                None if any(a[0] == 'raises' and mentions(a, SUB) or
                            opaque(a) for a in ats) else False), 'grok',
                    'items:values', 'the items are not taken from where '
                    'reduce puts them', w)
        elif of[0] == 'call' and of[1] == ('attr', VAL, 'get') and \
                of[2] in ((const('values'), VAL),):
            C.ok('grok', 'items:values', w)
        else:
            C.check(None if of[0] == 'call' or opaque(of) else False,
                    'grok', 'items', 'not the items of the value', w,
                    L.show(of)[:80])


def included(C, I):
    """is a property of the type not filtered out?"""
    b, L = I.b, I.L
    r = None
    for e in evs(I, 'call'):
        if method(e)[1] == 'is_filtered' and e.loops:
            x = I.quant(e.loops, b.not_(L.truthy(e.result)))
            if r not in (None, x):
                return None
            r = x
            dom = e.loops[-1]
            if dom[0] != 'attr' or dom[2] != 'properties':
                return None
    return r


def single(C):
    """apply and reverse: the value itself, nothing for an empty slot"""
    for name in ('apply', 'reverse'):
        f, I, ps = hrun(C, name)
        b, L = I.b, I.L
        w = where(f)
        x = ps[0]
        empty = b.or_(L.isinst(x, ('builtin', 'AttributeError')),
                      L.isinst(x, ('builtin', 'KeyError')))
        same = FALSE
        for g, t in flat(I, I.rv, exits(I)):
            if t == x:
                C.never(I, b.and_(g, empty), name, 'empty', 'an empty slot '
                        'is a value', w)
                same = b.or_(same, g)
            elif t == NONE:
                C.never(I, b.and_(g, b.not_(empty), b.not_(L.isnone(x))),
                        name, 'value', 'a value is lost', w)
                same = b.or_(same, b.and_(g, L.isnone(x)))
            else:
                C.check(None if opaque(t) or t[0] == 'call' else False,
                        name, 'value', 'another value', w, L.show(t)[:80])
                same = TRUE
        C.implies(I, b.and_(exits(I), b.not_(empty)), same, name, 'value',
                  'a value is lost', w)


def members(C):
    """aggregate puts the items together as they are, collect as what the
    collection holds"""
    for name, want in (('aggregate', False), ('collect', True)):
        f, I, ps = hrun(C, name)
        L = I.L
        w = where(f)
        for g, t in flat(I, I.rv, exits(I)):
            if t[0] != 'call' or t[1][0] not in ('attr', 'bound') or \
                    t[1][2].rpartition('.')[2] != 'tuples_to_coll':
                C.check(False if t in (NONE, ps[0]) else None, name, 'items',
                        'not a collection of the items', w, L.show(t)[:80])
                continue
            C.check(t[1][1] == ps[1] or (None if opaque(t[1][1]) else False),
                    name, 'type', 'another type', w)
            kw = {k[0]: k[1] for k in t[3] if isinstance(k[0], str)}
            C.check(t[2][:1] == (ps[0],) or (
                None if not t[2] or opaque(t[2]) or t[2][0][0] in (
                    'new', 'call') else False), name, 'items',
                'not the items', w)
            cv = t[2][1] if len(t[2]) > 1 else kw.get('coerce', const(True))
            C.check(cv == const(want) or (None if cv[0] != 'const'
                                          else bool(cv[2]) == want), name,
                    'coerce', 'the items are %s the item type' % (
                        'not of' if want else 'forced to be of'), w)


def named(C, I, t, src, val, rule, w, need):
    """the results by name of property, all of them"""
    b, L = I.b, I.L
    rest = []
    k = I.conts[t]
    el = ('elem', src)
    got = FALSE
    star = False
    for e in k.entries:
        if e.star:
            star = True
            continue
        if e.loops == (src,):
            ks = flat(I, e.key) if e.key and isinstance(
                e.key[0], tuple) else [(TRUE, e.key)]
            for g, kk in ks:
                C.check(kk == A(('item', el, const(0)), 'name') or (
                    None if kk is None or opaque(kk) else False), rule,
                    'name', 'not by the name of the property', w,
                    L.show(kk)[:60] if kk else '')
            for g, x in flat(I, e.val, e.guard):
                C.check(x == ('item', el, const(1)) or (
                    None if opaque(x) else False), rule, 'result',
                    'not what was mapped', w, L.show(x)[:60])
            got = b.or_(got, e.guard)
        else:
            rest.append(e)
    if star:
        C.unk(rule, 'each', 'not decided', w)
    else:
        C.implies(I, need, got, rule, 'each', 'a mapped property is left '
                  'out', w)
    return rest


def items_under(C, I, rest, val, rule, need, w):
    """the entry 'values'"""
    b, L = I.b, I.L
    got = FALSE
    for e in rest:
        ks = [x for g, x in flat(I, e.key)] if e.key and isinstance(
            e.key[0], tuple) else [e.key]
        if ks != [const('values')]:
            C.check(None if ks == [None] or any(opaque(k) for k in ks)
                    else False, rule, 'extra', 'something else is added', w)
            continue
        for g, x in flat(I, e.val, e.guard):
            C.check(x == val or (None if opaque(x) else False), rule,
                    'values', 'not the items', w, L.show(x)[:60])
        got = b.or_(got, e.guard)
    C.implies(I, need, got, rule, 'values', 'the items are left out', w)
    return got


def reduce(C):
    f, I, (MP, AG, TY, VIS) = hrun(C, 'reduce')
    b, L = I.b, I.L
    w = where(f)
    some = included(C, I)
    if some is None:
        C.unk('reduce', 'collection', 'not decided', w)
        return
    items = b.and_(isa(I, TY, COLL), b.not_(L.isnone(AG)))
    for g, t in flat(I, I.rv, exits(I)):
        g = b.and_(g, exits(I))
        if not L.sat(g):
            continue
        if t == AG:
            C.implies(I, g, isa(I, TY, COLL), 'reduce', 'collection',
                      'taken for a collection', w)
            C.never(I, b.and_(g, some), 'reduce', 'collection:some', 'the '
                    'properties of a collection are lost', w)
        elif t == NONE:
            C.never(I, b.and_(g, L.truthy(MP)), 'reduce', 'nothing',
                    'a record without values is nothing', w)
            C.never(I, b.and_(g, items, b.not_(some)), 'reduce', 'items',
                    'the items are lost', w)
        elif t in I.conts and I.conts[t].kind == 'dict':
            gi = b.and_(g, items)
            C.never(I, b.and_(gi, b.not_(some)), 'reduce',
                    'collection:none', 'a collection without included '
                    'properties is not only its items', w)
            rest = named(C, I, t, MP, AG, 'reduce', w,
                         b.and_(g, L.truthy(MP)))
            got = items_under(C, I, rest, AG, 'reduce', gi, w)
            C.never(I, b.and_(g, got, b.not_(isa(I, TY, COLL))), 'reduce',
                    'values:only', 'what is not a collection has items', w)
        else:
            C.check(None if opaque(t) or t[0] in ('call', 'new') else False,
                    'reduce', 'result', 'another result', w, L.show(t)[:80])
    # a property of that name is not overwritten
    C.check(any(exc_name(e).endswith('VisitorTooSimple') and L.sat(e.guard)
                for e in raises(I)), 'reduce', 'values:taken', 'a property '
            'named values is overwritten', w)


def produce(C):
    f, I, (MP, AG, TY, VIS) = hrun(C, 'produce')
    b, L = I.b, I.L
    w = where(f)
    coll = isa(I, TY, COLL)
    for g, t in flat(I, I.rv, exits(I)):
        g = b.and_(g, exits(I))
        if not L.sat(g):
            continue
        if t[0] == 'newof':
            t = t[3]
        if t[0] != 'call' or t[1] != TY:
            C.check(None if opaque(t) or t[0] == 'call' else False,
                    'produce', 'type', 'not of the type asked for', w,
                    L.show(t)[:80])
            continue
        if t[2]:
            C.unk('produce', 'arguments', 'not decided', w)
            continue
        direct = FALSE
        stars = []
        for k in t[3]:
            if k[0] == '**':
                stars += flat(I, k[1], g) if isinstance(
                    k[1][0], tuple) else flat(I, ((TRUE, k[1]),), g)
            elif k[0] == 'values':
                C.check(k[1] == AG or (None if opaque(k[1]) else False),
                        'produce', 'values', 'not the items', w)
                direct = g
            else:
                C.bad('produce', 'extra', 'something else is given', w,
                      str(k[0]))
        if not stars:
            C.never(I, b.and_(g, L.truthy(MP)), 'produce', 'each', 'the '
                    'properties are left out', w)
            C.implies(I, b.and_(g, coll, L.truthy(AG)), direct, 'produce',
                      'values', 'the items are left out', w)
        for gs, d in stars:
            if not L.sat(gs):
                continue
            if d not in I.conts:
                C.unk('produce', 'arguments', 'not decided', w)
                continue
            rest = named(C, I, d, MP, AG, 'produce', w,
                         b.and_(gs, L.truthy(MP)))
            if direct != FALSE and not rest:
                got = direct
            else:
                got = items_under(C, I, rest, AG, 'produce', b.and_(
                    gs, coll, L.truthy(AG)), w)
            C.never(I, b.and_(gs, got, b.not_(coll), L.isnone(AG)),
                    'produce', 'values:only', 'what is not a collection '
                    'is given items', w)


def cell(I, d, key):
    """[(guard, value)] of one key, [(guard)] is when it is there"""
    out = []
    for e in I.conts[d].entries:
        ks = [x for g, x in flat(I, e.key)] if e.key and isinstance(
            e.key[0], tuple) else [e.key]
        if e.star or ks == [None]:
            return None
        if ks == [const(key)]:
            out += flat(I, e.val, e.guard)
    return out


def told(C, I, d, key, need, wants, rule, w):
    """under `need` the key tells what is wanted: wants(guard, term) ->
    True/False/None"""
    b, L = I.b, I.L
    if d not in I.conts:
        C.unk(rule, key, 'not decided', w)
        return
    c = cell(I, d, key)
    if c is None:
        C.unk(rule, key, 'not decided', w)
        return
    C.implies(I, need, b.or_(FALSE, *[g for g, t in c]), rule, key,
              'not told', w)
    for g, t in c:
        g = b.and_(g, need)
        if L.sat(g):
            C.check(wants(g, t), rule, key + ':what', 'something else is '
                    'told', w, L.show(t)[:80])


def plain(x, *ok):
    return x in ok or (None if opaque(x) or x[0] == 'call' else False)


def listed(I, t, el, loop, g):
    """is the term a list of `el` for each member of `loop`?"""
    if t[0] == 'call' and t[1] == ('builtin', 'list') and len(t[2]) == 1:
        t = t[2][0]
    if t not in I.conts:
        return None if opaque(t) or t[0] == 'call' else False
    es = I.conts[t].entries
    if len(es) == 1 and es[0].star:
        xs = flat(I, es[0].val, es[0].guard)
        return listed(I, xs[0][1], el, loop, g) if len(xs) == 1 else None
    if len(es) != 1 or es[0].loops != (loop,):
        return None if any(e.star for e in es) else False
    xs = [x for gg, x in flat(I, es[0].val)]
    return xs == [el] and I.L.implies(g, es[0].guard) or (
        None if any(opaque(x) for x in xs) else False)


def reflect(C):
    NM = '__name__'
    # what a property is
    f, I, ps = hrun(C, 'propinfo')
    b, L = I.b, I.L
    w = where(f)
    v, p = ps[0], ps[1]
    ty = A(p, 'valuetype')
    tup = L.isinst(ty, ('builtin', 'tuple'))
    for g, t in flat(I, I.rv, exits(I)):
        told(C, I, t, 'name', b.and_(g, L.truthy(p)),
             lambda gg, x: plain(x, A(p, 'name')), 'propinfo', w)
        told(C, I, t, 'name', b.and_(g, b.not_(L.truthy(p))),
             lambda gg, x: plain(x, A(v, NM)), 'propinfo', w)
        one = b.and_(g, L.truthy(p), L.truthy(ty))
        told(C, I, t, 'type', b.and_(one, b.not_(tup)),
             lambda gg, x: plain(x, A(ty, NM)), 'propinfo', w)
        told(C, I, t, 'type', b.and_(one, tup), lambda gg, x: listed(
            I, x, A(('elem', ty), NM), ty, gg), 'propinfo', w)
    # the types of the items
    f, I, ps = hrun(C, 'itemtypes')
    b, L = I.b, I.L
    w = where(f)
    el = ('item', ('elem', ps[0]), const(1))
    for g, t in flat(I, I.rv, exits(I)):
        if t[0] == 'item' and t[2] == const(0):
            l = t[1]
            C.check(L.implies(g, L.eq(const(1), ('len', l))) or (
                None if any(mentions(a, l) and a[0] in ('lt', 'eq') and
                            mentions(a, ('len', l))
                            for a in b.support_atoms(g)) else False),
                    'itemtypes', 'one', 'only the first of several is told',
                    w)
            C.check(listed(I, l, el, ps[0], TRUE), 'itemtypes', 'each',
                    'not all are told', w)
        else:
            C.check(listed(I, t, el, ps[0], TRUE), 'itemtypes', 'each',
                    'not all are told', w)
    # what a type is
    f, I, ps = hrun(C, 'typeinfo')
    b, L = I.b, I.L
    w = where(f)
    pi, tp, ty = ps[:3]
    for g, t in flat(I, I.rv, exits(I)):
        told(C, I, t, 'name', g, lambda gg, x: plain(x, A(ty, NM)),
             'typeinfo', w)
        told(C, I, t, 'itemtype', b.and_(g, L.truthy(tp)),
             lambda gg, x: plain(x, tp), 'typeinfo', w)

        def by_name(gg, x):
            if x not in I.conts:
                return None
            named(C, I, x, pi, None, 'typeinfo', w, gg)
            return True
        told(C, I, t, 'properties', b.and_(g, L.truthy(pi)), by_name,
             'typeinfo', w)
    # what is read
    f, I, ps = hrun(C, 'scantypes')
    b, L = I.b, I.L
    w = where(f)
    ty = ps[1]
    coll, rec = isa(I, ty, COLL), isa(I, ty, REC)
    it = A(ty, 'itemtype')
    for g, get, items in pair(C, I, f, 'scantypes'):
        if get == NONE:
            C.never(I, b.and_(g, rec), 'scantypes', 'record', 'the '
                    'properties are not visited', w)
        elif get[0] == 'closure':
            read(C, I, get, lambda x: x == PR, ps[0], 'scantypes',
                 'property', w)
        if items == NONE:
            C.never(I, b.and_(g, coll), 'scantypes', 'collection', 'the item '
                    'types are not visited', w)
            continue
        if items not in I.conts:
            C.unk('scantypes', 'items', 'not decided', w)
            continue
        one = each = FALSE
        odd = False
        for e in I.conts[items].entries:
            for gg, x in flat(I, e.val, e.guard):
                if e.loops == (it,) and x[0] == 'tuple' and \
                        x[2:] == (('elem', it),):
                    each = b.or_(each, gg)
                elif not e.loops and x[0] == 'tuple' and x[2:] == (it,):
                    one = b.or_(one, gg)
                elif e.star or opaque(x):
                    odd = True
        tup = L.isinst(it, ('builtin', 'tuple'))
        if odd:
            C.unk('scantypes', 'items', 'not decided', w)
        else:
            C.implies(I, b.and_(g, coll, tup), each, 'scantypes',
                      'items:each', 'an item type is left out', w)
            C.implies(I, b.and_(g, coll, b.not_(tup)), one, 'scantypes',
                      'items:one', 'the item type is left out', w)


RULES = {'C33': c33}
