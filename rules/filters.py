"""C19: what a comparison looks at; C20: how comparisons are dispatched."""
import ast

from rules.base import *
from rules.diffs import (A, CUT, D, DO, FA, FB, FST, HOOKS, NOTH, OPT, calls,
                         entry_key, entry_kind, entry_val, gen_of, hook,
                         hrun, index_sets, opt, operands, present, results)

CF = A(SELF, 'compare_filter')
SEL = ['normalize.selector.*']


def c19(C):
    filtered(C)
    id_args(C)
    items(C)
    identity(C)
    with_hook(C)


def filtered(C):
    f, I = hrun(C, 'is_filtered')
    b, L = I.b, I.L
    prop, fs = [P(x.arg) for x in f.node.args.args][1:3]
    t = I.truth(I.rv)
    hidden = b.and_(b.not_(L.truthy(A(SELF, 'extraneous'))),
                    L.truthy(A(prop, 'extraneous')))
    hit = L.truthy(('item', CF, fs))
    ins = L.in_(fs, CF)
    on = b.or_(*[b.atom(x) for x in b.support_atoms(t) if x in (
        ('truthy', CF),)] + [b.not_(b.atom(x)) for x in b.support_atoms(t)
                             if x == ('isnone', CF)])
    if on == FALSE:
        on = L.truthy(CF)
    if ('in', fs, CF) in b.support_atoms(t):
        hit = ins
    C.implies(I, b.and_(t, I.entry_live), b.or_(hidden, b.and_(
        on, b.not_(hit))), 'filter', 'is_filtered:skip', 'a property which '
        'was not excluded is left out', where(f))
    C.implies(I, hidden, t, 'filter', 'is_filtered:extraneous', 'an '
              'extraneous property is compared unasked', where(f))
    C.implies(I, b.and_(on, b.not_(hit)), t, 'filter',
              'is_filtered:filter', 'a property outside of the filter is '
              'compared', where(f))
    for x in b.support_atoms(t):
        if mentions(x, CF) and not mentions(x, fs) and x[0] == 'truthy' \
                and x[1] != CF:
            C.check(None if opaque(x) else False, 'filter',
                    'is_filtered:where', 'the filter is not asked for the '
                    'place of the property', where(f), str(x)[:120])


def here(I, fs):
    """the part of the filter below the place fs: [(guard, term)]"""
    b, L = I.b, I.L
    e = b.or_(L.truthy(fs), FALSE)
    return [(e, ('item', CF, fs)), (b.not_(e), CF)]


def id_args(C):
    f, I = hrun(C, 'id_args')
    b, L = I.b, I.L
    ty, fs = [P(x.arg) for x in f.node.args.args][1:3]
    on = L.truthy(CF)
    for g, t in results(I):
        if t[0] == 'closure':
            # per key: expand the function returned
            k = P('the-key')
            v = I.apply(t, [k], g)
            rs = [(gg, x) for gg, x in flat(I, v, g)]
            C.implies(I, g, on, 'identity', 'id_args:each', 'a filter is '
                      'made up', where(f))
        else:
            k, rs = ('builtin', 'any'), [(g, t)]
        for gg, x in rs:
            one_id_args(C, I, f, gg, x, k, ty, fs, on)


def one_id_args(C, I, f, g, x, k, ty, fs, on):
    b, L = I.b, I.L
    con = 'id_args' + (':each' if k[0] == 'param' else '')
    if x not in I.conts or I.conts[x].kind != 'dict':
        C.unk('identity', con, 'not a dictionary built here', where(f))
        return
    got = {}
    for e in I.conts[x].entries:
        if e.star or e.key is None:
            C.unk('identity', con, 'opaque entries', where(f))
            return
        ks = e.key if isinstance(e.key[0], tuple) else ((TRUE, e.key),)
        for gk, key in ks:
            if key[0] != 'const':
                C.unk('identity', con, 'opaque key', where(f))
                return
            got.setdefault(key[2], []).extend(
                flat(I, e.val, b.and_(e.guard, gk, g)))
    for n in got:
        C.check(n in ('type_', 'selector'), 'identity', con + ':' + str(n),
                'no such argument', where(f))
    have = b.or_(*[gg for gg, _ in got.get('type_', ())])
    duck = L.truthy(A(SELF, 'duck_type'))
    C.implies(I, have, duck, 'identity', con + ':type', 'the type of the '
              'base is used for other types unasked', where(f))
    C.implies(I, b.and_(g, duck), have, 'identity', con + ':type', 'the '
              'type of the base is not used for duck typing', where(f))
    for gg, v in got.get('type_', ()):
        C.check(v == ty or (None if opaque(v) else False), 'identity',
                con + ':type', 'not the type given', where(f))
    have = b.or_(*[gg for gg, _ in got.get('selector', ())])
    C.implies(I, b.and_(g, on), have, 'identity', con + ':selector',
              'identities are not restricted to the filter', where(f))
    C.implies(I, have, on, 'identity', con + ':selector', 'a selector '
              'without a filter', where(f))
    for gg, v in got.get('selector', ()):
        want = [('item', w, k) for _, w in here(I, fs)]
        if v not in want:
            C.check(None if opaque(v) or v[0] == 'call' else False,
                    'identity', con + ':below', 'not the part of the filter '
                    'below the item', where(f), L.show(v)[:120])
            continue
        for (cond, _), w in zip(here(I, fs), want):
            if v == w:
                C.implies(I, gg, cond, 'identity', con + ':below', 'not the '
                          'part of the filter below the item', where(f))
    # one selector for all of the items only if the filter has one
    for cond, w in here(I, fs):
        hn = L.truthy(A(w, 'has_none'))
        q = b.and_(g, on, cond)
        if k[0] == 'param':
            C.never(I, b.and_(q, hn), 'identity', con + ':any', 'items are '
                    'looked up one by one in a filter for all items',
                    where(f))
        else:
            C.implies(I, q, hn, 'identity', con + ':any', 'one selector is '
                      'used for all items although the filter names some',
                      where(f))


def ida_of(t):
    """(call of options.id_args, key) for what is passed to record_id"""
    if t[0] != 'call':
        return None
    if t[1] == A(OPT, 'id_args'):
        return t, None
    if t[1][0] == 'call' and t[1][1] == A(OPT, 'id_args') and \
            len(t[2]) == 1 and not t[3]:
        return t[1], t[2][0]
    return None


def items(C):
    f = C.m.need_func(D + 'compare_collection_iter')
    a, o = operands(f)

    def live(I):
        b, L = I.b, I.L
        return b.and_(present(I), *[b.not_(L.is_(x, NOTH)) for x in (a, o)])
    I = C.run(f, boundary=CUT, live=live, types=FST)
    b, L = I.b, I.L
    n = 0
    seen = set()
    for e in evs(I, 'call'):
        if e.callee == A(OPT, 'id_args'):
            want = (('attr', ('typeof', a), 'itemtype'), FA)
            for i, w in enumerate(want):
                vs = {t for g, t in flat(I, e.args[i], e.guard)} if \
                    i < len(e.args) else {('unk',)}
                C.check(None if any(opaque(t) for t in vs) else vs == {w},
                        'items', 'id_args:%d' % i, 'not the %s' % (
                            'place of the collection' if i else
                            'item type of the base collection'), e.where,
                        str([L.show(t)[:60] for t in vs]))
        if e.callee != A(OPT, 'record_id'):
            continue
        n += 1
        own = [gen_of(x) for x in e.loops]
        own = own[-1] if own and own[-1] in (a, o) else None
        side = 'base' if own == a else 'other'
        for k in e.result[3] if e.result[0] == 'call' else ():
            if not (isinstance(k, tuple) and len(k) == 2):
                continue
            if k[0] != '**':
                C.unk('items', 'record_id:' + side, 'arguments are passed '
                      'one by one', e.where)
                continue
            for g, t in flat(I, ((e.guard, k[1]),)):
                r = ida_of(t)
                if r is None:
                    C.check(None, 'items', 'record_id:' + side,
                            'how items are identified is unknown', e.where)
                    continue
                ida, key = r
                seen.add(ida)
                cal = b.atom(('callable', ida))
                if key is None:
                    C.never(I, b.and_(g, cal), 'items', 'record_id:%s:one'
                            % side, 'the selector of the item is not used',
                            e.where)
                    continue
                C.implies(I, g, cal, 'items', 'record_id:%s:each' % side,
                          'no selectors for each item', e.where)
                ks = entry_kind(I, key, entry_key)
                C.check(None if None in ks or own is None else ks == {own},
                        'items', 'record_id:%s:key' % side, 'the selector '
                        'of another item is used', e.where)
    if not n:
        C.unk('items', 'record_id', 'items are identified in an unknown '
              'way', where(f))
    for own, side in ((a, 'base'), (o, 'other')):
        K = FALSE
        for r, g, v, e in index_sets(I, own):
            K = b.or_(K, g)
        if K == FALSE:
            C.unk('items', 'selected:' + side, 'items are collected in an '
                  'unknown way', where(f))
            continue
        ins = [x for x in b.support_atoms(K) if x[0] == 'in' and
               x[2] == A(OPT, 'compare_filter')]
        good = []
        for x in ins:
            el = x[1]
            ok = el[0] == 'bin' and el[1] == 'Add' and el[2] == FA
            kk = [s for s in subterms(el) if entry_key(s) is not None]
            if not kk and el[0] == 'bin':
                kk = [s for s in I.conts[el[3]].entries[0].val[0][1:]
                      ] if el[3] in I.conts else []
            if not ok or not kk:
                C.check(None if opaque(el) or not mentions(el, FB) else
                        False, 'items', 'selected:%s:place' % side,
                        'the filter is asked for another place', where(f),
                        L.show(el)[:100])
                continue
            if all(entry_key(s) == own for s in kk):
                good.append(x)
            else:
                C.bad('items', 'selected:%s:place' % side, 'the filter is '
                      'asked for the key of another item', where(f))
        G = b.or_(*[b.atom(x) for x in good])
        for ida in seen:
            cal = b.atom(('callable', ida))
            if cal not in (TRUE, FALSE):
                C.implies(I, b.and_(K, cal), G, 'items', 'selected:' + side,
                          'items which the filter leaves out are compared',
                          where(f))
                C.check(I.L.sat(b.and_(K, b.not_(cal), *[
                    b.not_(b.atom(x)) for x in ins])) if hasattr(
                        I.L, 'sat') else
                    b.and_(K, b.not_(cal), *[b.not_(b.atom(x)) for x in
                                             ins]) != FALSE,
                    'items', 'selected:%s:all' % side, 'items are looked up '
                    'in a filter which is for all items', where(f))
            s = L.truthy(('item', ida, const('selector')))
            inn = L.in_(const('selector'), ida)
            C.never(I, b.and_(K, b.not_(cal), inn, b.not_(s)), 'items',
                    'nothing:' + side, 'items are compared although the '
                    'filter selects nothing in them', where(f))


# ---- identity -------------------------------------------------------------

RID = 'normalize.identity.record_id'


def argmap(f, e):
    names = [x.arg for x in f.node.args.args]
    out = dict(zip(names, e.args))
    out.update((k, v) for k, v in e.kws.items() if k in names)
    return out


def starred(e):
    r = e.result
    return r[0] != 'call' or any(
        x[0] in ('star', '**') for x in r[2] + tuple(r[3]) if x)


def with_hook(C):
    """DiffOptions.record_id is the identity with this hook"""
    f = C.m.need_func(D + 'DiffOptions.record_id')
    I = C.run(f, selfcls=D + 'DiffOptions', boundary=[RID])
    own = [P(x.arg) for x in f.node.args.args]
    r = C.m.need_func(RID)
    names = [x.arg for x in r.node.args.args]
    want = dict(zip(names, own[1:4] + [A(SELF, 'normalize_object_slot')]))
    for g, t in flat(I, I.rv, exits(I)):
        if t[0] != 'call' or t[1] != ('func', RID):
            C.check(None if opaque(t) or t[0] in ('call', 'new') else False,
                    'hook', 'record_id', 'not the identity of the record',
                    where(f), I.L.show(t)[:80])
            continue
        got = dict(zip(names, t[2]))
        stars = [k for k, *v in t[3] if k in ('*', '**')]
        got.update({k[0]: k[1] for k in t[3] if len(k) == 2})
        for n in names:
            x = got.get(n)
            if x is not None and x[0] == "bound":
                x = A(x[1], x[2].rpartition(".")[2]) if isinstance(
                    x[2], str) else None
            C.check(None if x is None and stars or x is not None and opaque(x)
                    else x == want[n], 'hook', 'record_id:' + n, 'the %s is '
                    'not passed on' % n, where(f))


def identity(C):
    f = C.m.need_func(RID)
    names = [x.arg for x in f.node.args.args]
    ob, ty, sel, norm = [P(x) for x in names[:4]]
    COLL = ('class', 'normalize.coll.Collection')

    def case(selected, coll):
        def live(I):
            b, L = I.b, I.L
            s = L.truthy(sel)
            c = I.L.subcls(ty, COLL[1]) if hasattr(I.L, 'subcls') else TRUE
            return b.and_(
                b.not_(L.isnone(ty)),
                b.not_(L.isinst(ty, ('builtin', 'tuple'))),
                L.hasattr(ty, const('primary_key')), L.truthy(norm),
                s if selected else b.not_(s))
        return live
    for selected in (True, False):
        I = C.run(f, boundary=['normalize.selector.*', 'normalize.coll.*',
                               'normalize.record.*'],
                  live=case(selected, False))
        con = 'record_id:' + ('selected' if selected else 'all')
        key_of(C, I, f, con, ob, ty, sel, norm, selected)
    identity_values(C, f, ob, ty, sel, norm)
    # which type: the one given, unless none or several were given
    I = C.run(f, boundary=['normalize.selector.*', 'normalize.coll.*',
                           'normalize.record.*'])
    b, L = I.b, I.L
    given = b.and_(b.not_(L.isnone(ty)), b.not_(
        L.isinst(ty, ('builtin', 'tuple'))))
    n = 0
    for e in evs(I, 'call'):
        for k in e.loops:
            if k[0] == 'attr' and k[2] in ('primary_key',
                                           '_sorted_properties'):
                n += 1
                if k[1] == ty:
                    C.implies(I, e.guard, given, 'identity-type',
                              'record_id', 'the type given is not a type',
                              e.where)
                elif k[1] == ('typeof', ob):
                    C.never(I, b.and_(e.guard, given), 'identity-type',
                            'record_id', 'the type given is not used',
                            e.where)
    if not n:
        C.unk('identity-type', 'record_id', 'unknown loops', where(f))


def key_of(C, I, f, con, ob, ty, sel, norm, selected):
    b, L = I.b, I.L
    PK, ALL = A(ty, 'primary_key'), A(ty, '_sorted_properties')
    pkt = L.truthy(PK)
    isc = [b.atom(x) for x in {y for e in I.events for y in
                               b.support_atoms(e.guard)}
           if x[0] == 'subcls' and x[1] == ty and 'Collection' in str(x[2])]
    isc = b.or_(*isc) if isc else FALSE

    def chosen(dom):
        """('elem', dom) is selected"""
        return L.truthy(('item', sel, tup1(I, A(('elem', dom), 'name'))))
    out = raised(I)
    lists = {}
    for cid, c in I.conts.items():
        for e in c.entries:
            if e.loops and e.loops[-1] in (PK, ALL) and not e.star and \
                    c.kind in ('list', 'tuple', 'gen', 'set'):
                for g, v in flat(I, e.val, e.guard):
                    lists.setdefault(cid, []).append((g, v, e.loops[-1]))
    # the lists the result is made of
    reach, todo = set(), [t for g, t in flat(I, I.rv)]
    while todo:
        t = todo.pop()
        if t in I.conts and t not in reach:
            reach.add(t)
            todo += [v for e in I.conts[t].entries if e.star
                     for g, v in flat(I, e.val)]
    keys = {c: es for c, es in lists.items() if c in reach}
    if len(keys) != 1:
        C.unk('identity-key', con, 'no single list of key parts', where(f))
    for cid, es in keys.items():
        for dom in (PK, ALL):
            n = 'pk' if dom == PK else 'slots'
            G = b.or_(*[g for g, v, d in es if d == dom])
            mine = [b.atom(x) for x in b.support_atoms(G) if x[0] ==
                    'exists' and x[1] == PK]
            missing = b.or_(*mine) if mine and selected else FALSE
            if G == FALSE:
                C.bad('identity-key', '%s:%s' % (con, n), 'no part of the '
                      'identity comes from %s' % (
                          'the primary key' if dom == PK else 'the slots'),
                      where(f))
                continue
            noise = [b.not_(b.atom(x)) for x in b.support_atoms(G)
                     if x[0] == 'raises' or x[0] == 'exists' and
                     x[1] != PK]
            base = b.and_(I.entry_live, b.not_(out), *noise)
            if dom == PK:
                C.implies(I, G, b.and_(pkt, b.not_(missing)),
                          'identity-key', con + ':pk:when', 'the primary '
                          'key is used although a part of it is not '
                          'selected', where(f))
                want = b.and_(base, pkt, b.not_(missing))
            else:
                C.never(I, b.and_(G, pkt, b.not_(missing)), 'identity-key',
                        con + ':slots:when', 'the primary key is not used',
                        where(f))
                if selected:
                    C.implies(I, G, chosen(ALL), 'identity-key', con +
                              ':slots:selected', 'a slot which is not '
                              'selected is part of the identity', where(f))
                want = b.and_(base, b.or_(b.not_(pkt), missing),
                              b.not_(isc),
                              *[chosen(ALL)] if selected else [])
            C.implies(I, want, G, 'identity-key', '%s:%s:each' % (con, n),
                      'a %s is missing in the identity' % (
                          'primary key column' if dom == PK else 'slot'),
                      where(f))
            for g, v, d in es:
                if d == dom:
                    part(C, I, f, '%s:%s' % (con, n), g, v, dom, ob, ty,
                         sel, norm, selected)
    nested(C, I, f, con, ob, ty, sel, norm, selected, isc)


def identity_values(C, f, ob, ty, sel, norm):
    """a record in a slot is represented by its identity, and anything else
    by itself"""
    PK = A(ty, 'primary_key')
    p = ('elem', PK)
    vt = A(p, 'valuetype')
    names = [x.arg for x in f.node.args.args]

    def live(I):
        b, L = I.b, I.L
        return b.and_(
            b.not_(L.isinst(ty, ('builtin', 'tuple'))), b.not_(L.isnone(ty)),
            L.truthy(PK), b.not_(L.truthy(sel)), L.truthy(norm),
            L.hasattr(ty, const('primary_key')), L.truthy(vt),
            b.not_(L.isinst(vt, ('builtin', 'tuple'))))
    I = C.run(f, boundary=['normalize.selector.*', 'normalize.coll.*',
                           'normalize.record.*'], live=live)
    b, L = I.b, I.L
    isrec = I.subcls(vt, ('class', 'normalize.record.Record'))
    val = ('call', norm, (('dattr', ob, A(p, 'name')), p, ob), ())
    none = ('call', norm, (NONE, p, ob), ())
    con, w = 'value of a part', where(f)
    es = [e for e in evs(I, 'call') if e.callee == ('func', RID) and
          e.loops and e.loops[-1] == PK and not starred(e) and
          [t for g, t in flat(I, argmap(f, e).get(names[0], ()), e.guard)]
          == [val]]
    if not es:
        C.unk('identity-value', con, 'no nested identity', w)
    res = {e.result for e in es}
    hit = 0
    for cid, c in I.conts.items():
        for x in c.entries:
            if x.loops != (PK,) or x.star or c.kind != 'list':
                continue
            for g, v in flat(I, x.val, x.guard):
                if v in res:
                    hit += 1
                    C.implies(I, g, isrec, 'identity-value', con, 'what is '
                              'no record is taken for one', w)
                elif v == val:
                    hit += 1
                    C.never(I, b.and_(g, isrec, b.not_(b.or_(
                        L.is_(val, none), L.is_(none, val))), *[
                            L.truthy(r) for r in res]),
                        'identity-value', con, 'a record is not represented '
                        'by its identity', w)
    if es and not hit:
        C.unk('identity-value', con, 'the parts are not found', w)

    # what is no record at all
    def live2(I):
        b, L = I.b, I.L
        return b.and_(
            b.not_(L.isinst(ty, ('builtin', 'tuple'))), b.not_(L.isnone(ty)),
            b.not_(L.hasattr(ty, const('primary_key'))))
    I = C.run(f, boundary=['normalize.selector.*', 'normalize.coll.*',
                           'normalize.record.*'], live=live2)
    b, L = I.b, I.L
    for g, t in flat(I, I.rv, exits(I)):
        C.check(t == ob or (None if opaque(t) else False), 'identity-value',
                'plain value', 'it does not stand for itself', w)
        C.implies(I, g, L.truthy(A(ob, '__hash__')), 'identity-value',
                  'plain value', 'what cannot be hashed has an identity', w)
    for e in raises(I):
        C.never(I, b.and_(e.guard, L.truthy(A(ob, '__hash__'))),
                'identity-value', 'plain value', 'refused although it can '
                'be hashed', e.where)


def tup1(I, t):
    return ('tuple', (t,)) if False else ('tuple', t)


def part(C, I, f, con, g, v, dom, ob, ty, sel, norm, selected):
    """one part of the identity: the normalised slot value"""
    L = I.L
    p = ('elem', dom)
    raw = ('dattr', ob, A(p, 'name'))

    def value(t):
        if t == raw:
            return False           # not normalised
        if t[0] == 'call' and t[1] == norm:
            return t[2][1:] == (p, ob) and t[2][0] in (raw, NONE) and \
                not t[3]
        if t[0] == 'call' and t[1] == ('func', RID):
            return value(t[2][0])
        return None
    if opaque(v):
        C.unk('identity-part', con, 'a joined value', where(f))
        return
    r = value(v)
    if v == NONE:
        C.implies(I, g, I.b.not_(L.hasattr(ob, A(p, 'name'))),
                  'identity-part', con + ':none', 'the value is lost',
                  where(f))
        return
    C.check(r, 'identity-part', con, 'not the normalised value of the slot',
            where(f), L.show(v)[:160])


def nested(C, I, f, con, ob, ty, sel, norm, selected, isc):
    b, L = I.b, I.L
    PK, ALL = A(ty, 'primary_key'), A(ty, '_sorted_properties')
    names = [x.arg for x in f.node.args.args]
    n = 0
    for e in evs(I, 'call'):
        if e.callee != ('func', RID):
            continue
        av = argmap(f, e)
        if any(k not in av for k in names[:4]):
            if starred(e):
                C.unk('identity-nested', con, 'opaque arguments', e.where)
                continue
            for k in names[1:4]:
                av.setdefault(k, ((TRUE, NONE),))
        n += 1
        doms = [k for k in e.loops if k in (PK, ALL)]
        hooks = {t for g, t in flat(I, av[names[3]], e.guard)}
        C.check(None if any(opaque(t) for t in hooks) else hooks == {norm},
                'identity-nested', con + ':hook', 'parts of nested values '
                'are not normalised', e.where)
        if doms:
            p = ('elem', doms[-1])
            types = (A(p, 'valuetype'), ('elem', A(p, 'valuetype')))
            want = ('item', sel, A(p, 'name'))
            kind = 'slot'
        else:
            k = e.loops[-1] if e.loops else None
            if k is None:
                C.unk('identity-nested', con, 'unknown loop', e.where)
                continue
            types = (A(ty, 'itemtype'),)
            want = ('item', sel, ('item', ('elem', k), const(0)))
            kind = 'item'
            src = k
            own = ('call', A(ob, 'itertuples'), (), ())
            C.check(src in (own, ('call', A(ty, 'coll_to_tuples'), (ob,), ()))
                    or (False if any(x[0] == 'slice' for x in subterms(src))
                        else None), 'identity-nested', con + ':items',
                    'not the items of the collection', e.where)
            if src == own:
                C.implies(I, e.guard, L.hasattr(ob, const('itertuples')),
                          'identity-nested', con + ':items', 'items are '
                          'asked of what has none', e.where)
            for g, t in flat(I, av[names[0]], e.guard):
                C.check(t == ('item', ('elem', k), const(1)) or (
                    None if opaque(t) or t[0] == 'call' else False),
                    'identity-nested', con + ':item', 'not the item',
                    e.where)
            if selected:
                C.implies(I, e.guard, L.truthy(('item', sel, tup1(
                    I, ('item', ('elem', k), const(0))))),
                    'identity-nested', con + ':items:selected', 'an item '
                    'which is not selected is part of the identity',
                    e.where)
                C.implies(I, b.and_(L.truthy(('item', sel, tup1(
                    I, ('item', ('elem', k), const(0))))),
                    fixloop(I, e.guard, sel, k)), e.guard,
                    'identity-nested', con + ':items:all', 'an item which '
                    'is selected is not part of the identity', e.where)
        for g, t in flat(I, av[names[1]], e.guard):
            C.check(t in types or (None if opaque(t) else False),
                    'identity-nested', '%s:%s:type' % (con, kind),
                    'not the type of the value', e.where, L.show(t)[:80])
        for g, t in flat(I, av[names[2]], e.guard):
            if t == NONE or t == sel:
                C.check(not selected,
                        'identity-nested', '%s:%s:selector' % (con, kind),
                        'the selector is lost', e.where)
            else:
                C.check(t == want or (None if opaque(t) or t[0] == 'call'
                                      else False),
                        'identity-nested', '%s:%s:selector' % (con, kind),
                        'not the selector of the value', e.where,
                        L.show(t)[:80])
    if not n:
        C.unk('identity-nested', con, 'no nested identities', where(f))


def fixloop(I, g, sel, k):
    """g without what it says about the entry of the loop"""
    b = I.b
    out = g
    for x in list(b.support_atoms(g)):
        if mentions(x, ('elem', k)):
            v = list(b.support(b.atom(x)))[0]
            out = b.or_(b.restrict(out, v, True), b.restrict(out, v, False))
    return out


# ---- C20 ------------------------------------------------------------------

SPEC = {'compare_list_iter': (('builtin', 'list'), ('builtin', 'tuple')),
        'compare_dict_iter': (('builtin', 'dict'),),
        'compare_collection_iter': (('class', 'normalize.coll.Collection'),),
        'compare_record_iter': (('class', 'normalize.record.Record'),)}
BASE, OTHER = P('base'), P('other')


def c20(C):
    dispatch(C)
    entry(C)
    eager(C)
    json_diff(C)
    for n, target in (('diff', 'diff'), ('diff_iter', 'diff_iter')):
        f = C.m.need_func('normalize.record.Record.' + n)
        I = C.run(f, boundary=CUT, selfcls='normalize.record.Record')
        o = P(f.node.args.args[1].arg)
        for g, t in flat(I, I.rv, exits(I)):
            if t[0] == 'call' and t[1] == ('func', D + target):
                handed(C, I, f, t, (SELF, o), 'Record.' + n)
            else:
                C.check(None if opaque(t) or t[0] == 'call' else False,
                        'entry', 'Record.' + n, 'no comparison', where(f),
                        I.L.show(t)[:100])


def handed(C, I, f, t, want, con):
    """the call passes the operands and all of the options on"""
    C.check(t[2] == want or (None if opaque(t[2]) or any(
        x[0] == 'star' for x in t[2]) else False), 'entry',
        con + ':operands', 'not the objects given, in order', where(f),
        I.L.show(t)[:160])
    kw = f.node.args.kwarg
    if kw is None:
        C.unk('entry', con + ':options', 'no keyword options', where(f))
        return
    C.check(any(k == ('**', P('**' + kw.arg)) for k in t[3]) or (
        None if any(k and k[0] == '**' for k in t[3]) else False), 'entry',
        con + ':options', 'the options are not passed on', where(f),
        I.L.show(t)[:160])


def inside(I, r, v, depth=0):
    """guard under which the value r is (part of) the result v"""
    b = I.b
    if v == r or v == ('elem', r):
        return TRUE
    if depth > 6:
        return FALSE
    if v[0] == 'item' and v[1] in I.conts and v[2] == const(0):
        # the first one: nothing was put in before, or there is only one
        out, before = FALSE, FALSE
        one = I.L.eq(('len', v[1]), const(1))
        for e in I.conts[v[1]].entries:
            if e.loops or e.star:
                return FALSE
            for g, x in flat(I, e.val):
                out = b.or_(out, b.and_(
                    g, e.guard, b.or_(one, b.not_(before)),
                    inside(I, r, x, depth + 1)))
            before = b.or_(before, e.guard)
        return out
    if v[0] == 'call' and v[1][0] == 'builtin' and v[1][1] in ('iter',
                                                               'next'):
        return b.or_(*[inside(I, r, x, depth + 1) for x in v[2]])
    if v in I.conts:
        out = FALSE
        for e in I.conts[v].entries:
            for g, x in flat(I, e.val):
                out = b.or_(out, b.and_(g, e.guard,
                                        inside(I, r, x, depth + 1)))
        return out
    return FALSE


def dispatch(C):
    f = C.m.need_func(D + '_diff_iter')
    names = [x.arg for x in f.node.args.args]
    base, other, fa, fb, op = [P(x) for x in names[:5]]
    I = C.run(f, boundary=CUT, types={
        fa: 'normalize.selector.FieldSelector',
        fb: 'normalize.selector.FieldSelector'})
    b, L = I.b, I.L
    nob = L.is_(base, NOTH)
    got = {}
    for e in evs(I, 'call'):
        c = e.callee
        if c[0] != 'func' or c[1][len(D):] not in SPEC:
            if e.callee[0] in ('param', 'elem', 'item', 'unk', 'modvar'):
                got.setdefault(None, []).append(e)
            continue
        got.setdefault(c[1][len(D):], []).append(e)
    if got.pop(None, None):
        C.unk('dispatch', '_diff_iter', 'unknown comparison functions',
              where(f))
        return
    for n, types in SPEC.items():
        want = FALSE
        for ty in types:
            want = b.or_(want, b.ite(nob, L.isinst(other, ty),
                                     L.isinst(base, ty)))
        G = b.or_(*[e.guard for e in got.get(n, ())])
        C.implies(I, want, G, 'dispatch', n + ':missing', 'objects of the '
                  'type are not compared by it', where(f))
        C.implies(I, G, want, 'dispatch', n + ':other', 'objects of another '
                  'type are compared by it', where(f))
        for e in got.get(n, ()):
            fn = C.m.need_func(D + n)
            ps = [x.arg for x in fn.node.args.args]
            vals = dict(zip(ps, e.args))
            vals.update(e.kws)
            for q, w in zip(ps, (base, other, fa, fb, op)):
                v = vals.get(q)
                if v is None:
                    C.check(None if starred(e) else False, 'operands',
                            '%s:%s' % (n, q), 'the argument is left out',
                            e.where)
                    continue
                v = {t for g, t in flat(I, v, e.guard)}
                C.check(None if any(opaque(t) for t in v) else v == {w},
                        'operands', '%s:%s' % (n, q), 'not the operand',
                        e.where, str([L.show(t)[:60] for t in v]))
            for g, v in flat(I, I.rv, exits(I)):
                if opaque(v) or v[0] == 'call' and v != e.result:
                    if not v[0] == 'call' or v[1][0] != 'func':
                        C.unk('result', n, 'an unknown result', where(f))
                        continue
                C.implies(I, b.and_(g, e.guard), inside(I, e.result, v),
                          'result', n, 'the differences found are not '
                          'returned', e.where)


def new_of(I, t, qual):
    """the construct event of a fresh object of the class"""
    for e in evs(I, 'construct'):
        if e.result == t and e.cls == ('class', qual):
            return e
    return None


def entry(C):
    f = C.m.need_func(D + 'diff_iter')
    names = [x.arg for x in f.node.args.args]
    base, other, op = [P(x) for x in names[:3]]
    I = C.run(f, boundary=CUT)
    b, L = I.b, I.L
    kw = P('**' + f.node.args.kwarg.arg) if f.node.args.kwarg else None
    both = b.and_(b.not_(L.isnone(op)), L.truthy(kw)) if kw else FALSE
    out = b.or_(*[e.guard for e in raises(I) if exc_name(e) ==
                  'DiffOptionsException'])
    C.implies(I, both, out, 'entry', 'diff_iter:both', 'options given twice '
              'are not refused', where(f))
    C.implies(I, raised(I), both, 'entry', 'diff_iter:raise', 'valid '
              'options are refused', where(f))
    for g, t in flat(I, I.rv, exits(I)):
        if t[0] != 'call' or t[1] != ('func', D + '_diff_iter') or t[3] or \
                len(t[2]) != 5:
            C.check(None if opaque(t) or t[0] == 'call' else False,
                    'entry', 'diff_iter', 'no comparison', where(f),
                    L.show(t)[:100])
            continue
        C.check(t[2][:2] == (base, other) or (
            None if opaque(t[2][:2]) else False), 'entry',
            'diff_iter:operands', 'not the objects given, in order',
            where(f))
        for x in t[2][2:4]:
            e = new_of(I, x, 'normalize.selector.FieldSelector')
            ok = None
            if e is not None and len(e.args) == 1 and not e.kws:
                vs = [v for _, v in flat(I, e.args[0], g)]
                ok = all(v == ('tuple',) or v[0] == 'tuple' and len(v) == 1
                         or v == const(()) or v in I.conts and
                         not I.conts[v].entries for v in vs)
                if not ok and not all(v in I.conts or v[0] == 'tuple'
                                      for v in vs):
                    ok = None
            C.check(ok, 'entry', 'diff_iter:root', 'places do not start at '
                    'the objects compared', where(f))
        for gg, x in flat(I, ((g, t[2][4]),)):
            if x == op:
                C.never(I, b.and_(gg, L.isnone(op)), 'entry',
                        'diff_iter:options', 'no options', where(f))
                continue
            e = new_of(I, x, DO)
            if e is None:
                C.check(None if opaque(x) or x[0] == 'call' else False,
                        'entry', 'diff_iter:options', 'not the options '
                        'given', where(f))
                continue
            C.implies(I, gg, L.isnone(op), 'entry', 'diff_iter:options',
                      'the options given are not used', where(f))
            sk = e.get('starkw')
            ok = None
            if sk is not None:
                ok = kw in [v for V in sk for _, v in flat(I, V)]
            C.check(ok, 'entry', 'diff_iter:kwargs', 'the options given by '
                    'name are not used', where(f))


def eager(C):
    f = C.m.need_func(D + 'diff')
    I = C.run(f, boundary=CUT)
    b, L = I.b, I.L
    base, other = [P(x.arg) for x in f.node.args.args[:2]]
    for g, t in flat(I, I.rv, exits(I)):
        e = new_of(I, t, D + 'Diff')
        if e is None:
            C.check(None if opaque(t) or t[0] == 'call' else False, 'entry',
                    'diff', 'not a Diff', where(f), L.show(t)[:100])
            continue
        vals = dict(e.kws)
        if e.args:
            vals['values'] = e.args[0]
        for gg, x in flat(I, vals.get('values', ()), g):
            if x[0] == 'call' and x[1] == ('func', D + 'diff_iter'):
                handed(C, I, f, x, (base, other), 'diff')
            else:
                C.check(None if opaque(x) or x in I.conts or x[0] == 'call'
                        else False, 'entry', 'diff:items', 'not the '
                        'differences', where(f))
        C.check(bool(vals.get('values')), 'entry', 'diff:items', 'no '
                'differences', where(f))
        for n, w in (('base_type_name', base), ('other_type_name', other)):
            vs = [x for gg, x in flat(I, vals.get(n, ()), g)]
            C.check(bool(vs) and all(x == A(('typeof', w), '__name__') for x
                                     in vs) or (
                None if any(opaque(x) or x[0] == 'call' for x in vs) else
                False), 'entry', 'diff:' + n, 'not the type compared',
                where(f))


JREC = 'normalize.record.json.JsonRecord'
INFO = 'normalize.record.json.JsonDiffInfo'
RITER = 'normalize.record.Record.diff_iter'
JCUT = ['normalize.diff.*', 'normalize.selector.*', 'normalize.property.*',
        'normalize.record.Record.*']


def compares(C, I, f, t, o, con):
    """the term is a comparison of self with the other one, all options
    handed on -> was it recognised"""
    if t[0] == 'call' and t[1] in (('bound', SELF, RITER),
                                   ('attr', SELF, 'diff_iter')):
        handed(C, I, f, t, (o,), con)
    elif t[0] == 'call' and t[1] == ('func', D + 'diff_iter'):
        handed(C, I, f, t, (SELF, o), con)
    else:
        return False
    return True


def json_items(C, I, f, x, g, o, con):
    """the generator holds a JsonDiffInfo of every difference"""
    b, L = I.b, I.L
    if x not in I.conts:
        if not compares(C, I, f, x, o, con) or x[1][0] == 'func':
            C.check(None if opaque(x) or x[0] == 'call' else False, 'json',
                    con, 'not the differences', where(f), L.show(x)[:100])
        return
    whole_loop(C, I, lambda k: True, 'json', con + ':whole', 'the '
               'differences after some difference are left out')
    for e in I.conts[x].entries:
        if e.star:
            for gg, y in flat(I, e.val, e.guard):
                json_items(C, I, f, y, gg, o, con)
            continue
        if len(e.loops) != 1 or not compares(C, I, f, e.loops[0], o, con):
            C.unk('json', con, 'items of an unknown source', where(f))
            continue
        C.implies(I, b.and_(I.entry_live, g), e.guard, 'json', con + ':all',
                  'a difference is left out', where(f))
        it = ('elem', e.loops[0])
        for gg, y in flat(I, e.val, e.guard):
            n = new_of(I, y, INFO)
            if n is None:
                C.check(None if opaque(y) or y[0] == 'call' else False,
                        'json', con + ':kind', 'not a JsonDiffInfo',
                        where(f), L.show(y)[:100])
                continue
            vals = {k: [z for q, z in flat(I, v)] for k, v in n.kws.items()}
            for k, zs in vals.items():
                for z in zs:
                    C.check(z == A(it, k) or (None if opaque(z) or z[0] in (
                        'call', 'item') else False), 'json', con + ':' + k,
                        'not the %s of the difference' % k, n.where,
                        L.show(z)[:100])
            sk = [z for v in n.starkw or () for q, z in flat(I, (v,) if
                  isinstance(v[0], int) else v)]
            st = [z for z in sk if z[0] == 'call' and z[1] == A(
                it, '__getstate__') or z == A(it, '__dict__') or
                z[0] == 'call' and it in z[2] and z[1] == (
                    'builtin', 'vars')]
            if st:
                continue
            if sk or n.args:
                C.check(None if any(opaque(z) or mentions(z, it) for z in sk)
                        or n.args else False, 'json', con + ':state',
                        'not the state of the difference', n.where)
                continue
            for k in ('diff_type', 'base', 'other'):
                C.check(k in vals, 'json', con + ':' + k, 'without the %s '
                        'of the difference' % k, n.where)


def keyv(k):
    if not k:
        return ()
    return k if isinstance(k[0], tuple) else ((TRUE, k),)


def json_diff(C):
    m = C.m
    for name in ('diff_iter', 'diff'):
        con = 'JsonRecord.' + name
        f = m.need_func(JREC + '.' + name)
        I = C.run(f, boundary=JCUT, selfcls=JREC)
        L = I.L
        o = P(f.node.args.args[1].arg)
        C.implies(I, I.entry_live, exits(I), 'json', con + ':fails', 'the '
                  'comparison is refused', where(f))
        for g, t in flat(I, I.rv, exits(I)):
            if name == 'diff_iter':
                json_items(C, I, f, t, g, o, con)
                continue
            e = new_of(I, t, 'normalize.record.json.JsonDiff')
            if e is None:
                C.check(None if opaque(t) or t[0] == 'call' else False,
                        'json', con, 'not a JsonDiff', where(f),
                        L.show(t)[:100])
                continue
            vals = dict(e.kws)
            if 'values' not in vals:
                C.check(None if e.args or e.starkw or e.get('star') else
                        False, 'json', con + ':items', 'no differences',
                        where(f))
            for gg, x in flat(I, vals.get('values', ()), g):
                json_items(C, I, f, x, gg, o, con)
            for n, w in (('base_type_name', SELF), ('other_type_name', o)):
                vs = [x for gg, x in flat(I, vals.get(n, ()), g)]
                C.check(bool(vs) and all(
                    x == A(('typeof', w), '__name__') for x in vs) or (
                    None if e.starkw or any(opaque(x) or x[0] == 'call' for
                                            x in vs) else False),
                    'json', con + ':' + n, 'not the type compared',
                    where(f))
    f = m.need_func(INFO + '.json_data')
    I = C.run(f, boundary=JCUT, selfcls=INFO)
    L = I.L
    for g, t in flat(I, I.rv, exits(I)):
        if t not in I.conts or any(e.star for e in I.conts[t].entries):
            C.unk('json', 'JsonDiffInfo', 'form not visible', where(f))
            continue
        seen = set()
        for e in I.conts[t].entries:
            for gk, k in flat(I, keyv(e.key), e.guard):
                if k[0] != 'const':
                    C.unk('json', 'JsonDiffInfo', 'form not visible',
                          where(f))
                    continue
                seen.add(k[2])
                for gv, v in flat(I, e.val, gk):
                    C.check(mentions(v, A(SELF, k[2])) or mentions(
                        v, A(('typeof', SELF), k[2])) or (
                        None if opaque(v) else False), 'json',
                        'JsonDiffInfo:%s' % k[2], 'not the %s of the '
                        'difference' % k[2], where(f), L.show(v)[:100])
        for k in ('diff_type', 'base', 'other'):
            C.check(k in seen, 'json', 'JsonDiffInfo:' + k, 'the %s of the '
                    'difference is not written' % k, where(f))


RULES = {'C19': c19, 'C20': c20}
