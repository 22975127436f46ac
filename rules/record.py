"""C06 equality and identity, C07 copying, C08 construction, C09 class
declaration"""
from .base import *
from .elems import elements

REC = 'normalize.record.Record'
COLL = 'normalize.coll.Collection'
META = 'normalize.record.meta.RecordMeta'
RID = 'normalize.identity.record_id'
OTHER = P('other')
TS = ('typeof', SELF)
DICT = ('attr', SELF, '__dict__')


def own_defs(C, root, name, notunder=()):
    """(class, function) for each class at or below root defining NAME"""
    out = []
    for c in subclasses(C.m, root):
        if any(c.issub(C.m.need_class(x)) for x in notunder):
            continue
        a = c.attrs.get(name)
        if isinstance(a, Func):
            out.append((c, a))
    return out


def type_eq(I, a, b):
    return I.L.is_(('typeof', a), ('typeof', b))


def is_marker(I, t):
    """a private sentinel: a module variable or class of the package"""
    return t[0] in ('modvar', 'class', 'new') and t[0] != 'const'


# ---- C06 ------------------------------------------------------------------

def rec_eq(C, cls, f):
    rule = 'record-equality'
    con = short(f.qual)
    I = C.run(f, selfcls=cls.qual, boundary=['normalize.property.*',
                                              'normalize.identity.*',
                                              'normalize.diff.*'])
    b, L = I.b, I.L
    T = I.truth(I.rv)
    te = type_eq(I, OTHER, SELF)
    same = L.is_(SELF, OTHER)
    T = subst(I, T, lambda a: FALSE if b.atom(a) == same else None)
    if not C.implies(I, T, te, rule, con, 'records of different types '
                     'can compare equal', where(f)):
        return
    ex = [a for a in b.support_atoms(T) if a[0] == 'exists']
    canon = propnorm((TS, ('typeof', OTHER)))
    cond = FALSE
    E = te
    for a in ex:
        E = b.and_(E, b.not_(b.atom(a)))
        c = subst(I, a[2], lambda x: remap(I, x, canon, a[1]))
        if '_sorted_properties' in str(a[1]):
            # the domain is already without the extraneous ones
            c = b.and_(c, b.not_(L.truthy(A(PROP, 'extraneous'))))
        cond = b.or_(cond, c)
    if not ex or not (L.implies(T, E) and L.implies(E, T)):
        rest = [a for a in b.support_atoms(T)
                if a[0] != 'exists' and b.atom(a) != te]
        rest = [a for a in rest if not mentions(a, ('func', RID)) and
                a not in (('truthy', A(TS, 'primary_key')),)]
        if I.unsupported or any(opaque(a) or 'call' in str(a) or
                                a[0] in ('eq', 'len') for a in rest):
            C.unk(rule, con, 'equality is not a plain comparison of the '
                  'slots: %s' % L.showg(T)[:300], where(f))
        else:
            C.bad(rule, con, 'equality is not decided by the type and '
                  'the slots of every declared property', where(f),
                  L.showg(T)[:500])
        return
    ext = L.truthy(A(PROP, 'extraneous'))
    hs, ho = L.hasattr(SELF, NAME), L.hasattr(OTHER, NAME)
    e = L.eq(('dattr', OTHER, NAME), ('dattr', SELF, NAME))
    want = b.and_(b.not_(ext), b.or_(
        b.and_(hs, ho, b.not_(e)), b.and_(hs, b.not_(ho)),
        b.and_(ho, b.not_(hs))))
    ok1, ok2 = L.implies(cond, want), L.implies(want, cond)
    if not (ok1 and ok2) and any(
            opaque(x) or x[0] in ('exists',) for x in b.support_atoms(cond)):
        C.unk(rule, con, 'comparison outside the decided fragment', where(f))
        return
    C.check(ok1, rule, con + ':only-slots', 'records whose non-extraneous '
            'slots are all equal can compare unequal', where(f),
            L.showg(b.and_(cond, b.not_(want)))[:500])
    C.check(ok2, rule, con + ':every-slot', 'records which differ in a '
            'non-extraneous slot can compare equal', where(f),
            L.showg(b.and_(want, b.not_(cond)))[:500])


def remap(I, a, canon, key):
    """atom of a slot comparison -> canonical atom"""
    L, b = I.L, I.b
    k = a[0]
    if k in ('is', 'eq'):
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if is_marker(I, x) and y[0] in ('dattr', 'item', 'call'):
                return FALSE
    if k == 'isnone':
        return None
    c = canon(a)
    if k == 'truthy':
        # the domain of _sorted_properties is already without extraneous
        if c == ('truthy', A(PROP, 'extraneous')):
            if '_sorted_properties' in str(key):
                return FALSE
        return L.truthy(c[1])
    if k == 'hasattr':
        return L.hasattr(c[1], c[2])
    if k == 'eq':
        return L.eq(c[1], c[2])
    return None


def coll_eq(C, cls, f):
    rule = 'collection-equality'
    con = short(f.qual)
    I = C.run(f, selfcls=cls.qual)
    b, L = I.b, I.L
    T = I.truth(I.rv)
    pre = L.isinst(OTHER, TS)
    have = b.and_(L.hasattr(OTHER, const('itemtype')),
                  L.hasattr(OTHER, const('_values')))
    it = L.eq(A(OTHER, 'itemtype'), A(TS, 'itemtype'))
    it = b.or_(it, L.is_(A(OTHER, 'itemtype'), A(TS, 'itemtype')))
    vs = L.eq(A(OTHER, '_values'), A(SELF, '_values'))
    pre = b.and_(pre, have, b.not_(L.isnone(A(TS, 'itemtype'))))
    g = b.and_(pre, T)
    C.implies(I, g, it, rule, con + ':itemtype', 'collections of different '
              'item types can compare equal', where(f))
    C.implies(I, g, vs, rule, con + ':members', 'collections with '
              'different members can compare equal', where(f))
    C.implies(I, b.and_(pre, it, vs, b.not_(L.isnone(A(SELF, '_values')))),
              T, rule, con + ':equal', 'collections with the same item type '
              'and members can compare unequal', where(f))


def negation(C, cls, f, root):
    """!= is the negation of =="""
    rule = 'inequality-negates'
    con = short(cls.qual) + '.__ne__'
    eq = cls.lookup('__eq__')[1]
    if not isinstance(eq, Func):
        return
    I = C.run(f, selfcls=cls.qual, boundary=[eq.qual])
    b = I.b
    N = I.truth(I.rv)
    calls = [e for e in evs(I, 'call') if e.qual == eq.qual]
    J = None
    at = [a for a in b.support_atoms(N)]
    if calls:
        t = calls[0].result
        want = b.not_(I.L.truthy(t)) if t[0] != 'phi' else None
        if want is not None:
            C.check(N == want or I.L.implies(N, want) and
                    I.L.implies(want, N), rule, con,
                    '!= is not the negation of ==', where(f),
                    I.L.showg(N)[:300])
            return
    if len(at) == 1 and at[0][0] == 'eq':
        C.check(I.L.implies(N, b.not_(b.atom(at[0]))) and
                set(at[0][1:]) == {SELF, OTHER}, rule, con,
                '!= is not the negation of ==', where(f),
                I.L.showg(N)[:300])
        return
    # written out: compare with == run in the same way
    C.unk(rule, con, '!= does not delegate to ==', where(f))


def hash_(C):
    """records which are equal hash alike: the hash is that of the identity
    tuple, and the tuple has one entry per property, in a fixed order"""
    m = C.m
    for cls, f in own_defs(C, REC, '__hash__', (COLL,)):
        I = C.run(f, selfcls=cls.qual, boundary=[RID])
        rid = [e for e in evs(I, 'call') if e.qual == RID]
        rule, con = 'hash-of-identity', short(f.qual)
        bad = None
        for g, t in flat(I, I.rv):
            if opaque(t):
                continue
            calls = [x for x in subterms(t) if x[0] == 'call' and
                     x[1] == ('func', RID)]
            if not calls or any(x[2][:1] != (SELF,) for x in calls):
                bad = t
        if not rid:
            bad = bad or ('none',)
        C.check(bad is None, rule, con, 'the hash is not derived from the '
                'identity of the record', where(f), str(bad)[:200])
    f = m.need_func(RID)
    O = P('object_')
    T = ('typeof', O)
    I = C.run(f, boundary=[RID], args={
        'selector': NONE, 'normalize_object_slot': NONE, 'type_': T})
    b, L = I.b, I.L
    pre = L.hasattr(T, const('primary_key'))
    iscoll = L.isinst(O, ('class', COLL))
    canon = propnorm((T,))
    rule = 'identity-tuple'
    ret = flat(I, I.rv, pre)
    lists = {}
    for g, t in ret:
        src = t
        while src in I.conts:
            es = I.conts[src].entries
            inner = {x for e in es for _, x in flat(I, e.val)} \
                if es and all(e.star for e in es) else set()
            if len(inner) == 1:
                src = inner.pop()
            else:
                break
        lists.setdefault(src, FALSE)
        lists[src] = b.or_(lists[src], g)
    con = short(RID)
    n = 0
    for src, g in lists.items():
        if src == O:
            C.never(I, g, rule, con + ':object', 'a record is its own '
                    'identity', where(f))
            continue
        els = elements(I, src)
        loops = {}
        for e in evs(I, 'mut', 'setitem'):
            if e.target == src and e.kind == 'mut' and e.name == 'append':
                loops.setdefault(e.loops[:1], []).append(e)
        if not loops:
            # comprehension: a collection's members
            for gg, t in els:
                if opaque(t) or t[0] == 'elem':
                    continue
                ok = identity_of(I, canon(t), O)
                C.check(ok, rule, con + ':members', 'an identity entry is '
                        'not the identity of a member: %s' % L.show(t)[:120],
                        where(f))
            continue
        for ks, es in loops.items():
            n += 1
            dom = ks[0]
            A_ = b.or_(*[e.guard for e in es])
            kind = dom[2] if dom[0] == 'attr' and dom[1] == T else None
            if kind is None and L.implies(A_, iscoll) and not any(
                    x[0] == 'attr' and x[1] == T and
                    x[2] in ('primary_key', '_sorted_properties', 'properties')
                    for x in subterms(dom)):
                # a loop over a collection's members
                for e in es:
                    for gg, t in flat(I, e.args[0], e.guard):
                        if opaque(t):
                            continue
                        C.check(identity_of(I, canon(t), O), rule, con +
                                ':members', 'an identity entry is not the '
                                'identity of a member: %s' % L.show(t)[:120],
                                e.where)
                continue
            C.check(kind in ('primary_key', '_sorted_properties'), rule,
                    con + ':domain', 'the identity is not taken over the '
                    'primary key or the sorted comparable properties but %s'
                    % L.show(dom)[:100], where(f))
            for i, e in enumerate(es):
                for e2 in es[i + 1:]:
                    C.never(I, b.and_(e.guard, e2.guard), rule, con +
                            ':one-entry', 'a property contributes two '
                            'entries', e.where)
                for gg, t in flat(I, e.args[0], e.guard):
                    t2 = canon(t)
                    ok = t == NONE or identity_of(I, t2, O)
                    if not ok and opaque(t2):
                        C.unk(rule, con + ':entry', 'opaque entry', e.where)
                        continue
                    C.check(ok, rule, con + ':entry', 'an identity entry '
                            'does not come from the slot of its property: '
                            + L.show(t)[:120], e.where)
                    if t == NONE:
                        have = [x for x in b.support_atoms(gg)
                                if x[0] == 'hasattr' and x[1] == O]
                        h = FALSE
                        for x in have:
                            h = b.or_(h, b.atom(x))
                        nn = [b.atom(x) for x in b.support_atoms(gg)
                              if x[0] == 'isnone']
                        C.implies(I, gg, b.or_(b.not_(h), *nn), rule, con +
                                  ':none', 'a set slot contributes nothing '
                                  'to the identity', e.where)
            # no property of the loop is skipped on a path which returns
            loopg = FALSE
            for e in I.events:
                if e.loops[:1] == ks and e.kind in ('mut', 'raise'):
                    loopg = b.or_(loopg, e.guard)
            hashfail = [e for e in I.events if e.kind == 'handler']
            pk = L.truthy(A(T, 'primary_key'))
            entry = b.and_(pre, pk if kind == 'primary_key' else b.and_(
                b.not_(pk), b.not_(iscoll)))
            hf = [b.not_(b.or_(loopg))]
            C.implies(I, b.and_(entry, *[b.not_(x) for x in prior(I, ks)]),
                      loopg, rule, con + ':every-property', 'a property is '
                      'left out of the identity', where(f))
    C.check(n >= 1 or None, rule, con, 'no identity loop recognised',
            where(f))


def prior(I, ks):
    """exceptions of an earlier iteration end the loop: already excluded"""
    return []


def identity_of(I, t, O):
    """t is the slot of PROP or derived from it (or from a member)"""
    if t[0] == 'phi':
        return all(identity_of(I, x, O) for _, x in t[1])
    if t == ('dattr', O, NAME):
        return True
    if t[0] == 'call' and t[1] == ('func', RID) and t[2]:
        x = t[2][0]
        return x == ('dattr', O, NAME) or x[0] in ('item', 'elem')
    if t[0] in ('tuple', 'const'):
        return all(identity_of(I, x, O) for x in t[1:]) \
            if t[0] == 'tuple' else False
    return False


def c06(C):
    n = 0
    for cls, f in own_defs(C, REC, '__eq__', (COLL,)):
        rec_eq(C, cls, f)
        n += 1
    if not n:
        raise AnalysisBroken('no Record.__eq__')
    for cls, f in own_defs(C, COLL, '__eq__'):
        coll_eq(C, cls, f)
    for cls, f in own_defs(C, REC, '__ne__'):
        negation(C, cls, f, REC)
    hash_(C)
    declared_sorted(C)


# ---- C09 pieces used by C06 -------------------------------------------------

def meta_run(C):
    f = C.m.need_func(META + '.__new__')
    I = C.run(f, selfcls=META, boundary=['normalize.property.*'])
    return f, I


def attr_sets(I, name):
    at = P('attrs')
    out = []
    for e in evs(I, 'setitem'):
        if e.target == at and e.key == const(name):
            out.append(e)
    return out


def declared_sorted(C):
    f, I = meta_run(C)
    b, L = I.b, I.L
    rule = 'comparable-properties'
    con = 'RecordMeta.__new__'
    es = attr_sets(I, '_sorted_properties')
    if not es:
        C.unk(rule, con, 'no _sorted_properties declaration', where(f))
        return
    for e in es:
        for g, t in flat(I, e.value, e.guard):
            n = 0
            for gg, x in elements(I, t, TRUE):
                if opaque(x) or x[0] == 'elem' and x[1][0] not in (
                        'values', 'param', 'attr', 'item'):
                    C.unk(rule, con, 'contents not visible', e.where)
                    continue
                n += 1
                ext = L.truthy(A(x, 'extraneous'))
                C.never(I, b.and_(gg, ext), rule, con + ':extraneous',
                        'an extraneous property takes part in comparison',
                        e.where)
                src = entry_guard(I, x)
                if src is not None:
                    C.implies(I, b.and_(e.guard, src, b.not_(ext)), gg, rule,
                              con + ':complete', 'a property which is not '
                              'extraneous is left out of comparison',
                              e.where)
            C.check(n or None, rule, con, 'contents not visible', e.where)
    so = [e for e in evs(I, 'sorted')]
    for e in so:
        key = e.d.get('key')
        C.ok(rule, con + ':sorted', e.where)


def entry_guard(I, x):
    """guard under which the declaration collects property x"""
    out = None
    for e in evs(I, 'setitem'):
        for g, t in flat(I, e.value, e.guard):
            if t == x and e.target[0] == 'new' and e.key[0] == 'elem':
                out = g if out is None else I.b.or_(out, g)
    return out


# ---- C07 ------------------------------------------------------------------

def state_covers(I, t, g, skip):
    """formula: under g, term t (a state) holds every slot of the instance
    but those in skip; None when not visible"""
    b, L = I.b, I.L
    if t == DICT or t[0] == 'vars':
        return TRUE
    if t[0] == 'call' and t[1] == A(DICT, 'copy') or \
            t[0] == 'call' and t[1] in (('builtin', 'dict'),
                                        ('ext', 'copy.copy')) and \
            t[2] == (DICT,):
        return TRUE
    if t == NONE:
        return FALSE
    if t in I.conts:
        out = FALSE
        for e in I.conts[t].entries:
            for gg, x in flat(I, e.val, e.guard):
                if e.star and x == DICT:
                    out = b.or_(out, gg)
                elif x[0] == 'item' and x[1] == DICT and x[2] == (
                        'elem', DICT):
                    sk = [L.eq(const(s), ('elem', DICT)) for s in skip]
                    out = b.or_(out, gg, *sk)
                elif opaque(x):
                    return None
        return out
    return None


def c07(C):
    n = 0
    for cls, f in own_defs(C, REC, '__getstate__'):
        I = C.run(f, selfcls=cls.qual)
        rule, con = 'state-out', short(f.qual)
        for g, t in flat(I, I.rv):
            cov = state_covers(I, t, g, ())
            if cov is None:
                C.unk(rule, con, 'state %s' % I.L.show(t)[:100], where(f))
            else:
                C.implies(I, g, cov, rule, con, 'the state saved does not '
                          'hold every slot', where(f))
            n += 1
    for cls, f in own_defs(C, REC, '__setstate__'):
        state_in(C, cls, f)
    for name in ('__reduce__', '__reduce_ex__'):
        for cls, f in own_defs(C, REC, name):
            reduce_(C, cls, f)
    for name in ('__copy__', '__deepcopy__'):
        for cls, f in own_defs(C, REC, name):
            C.unk('copy-hook', short(f.qual), 'own copy protocol', where(f))
    C.check(n or None, 'state-out', 'Record', 'no __getstate__', '')
    generic_rebuild(C)


def state_in(C, cls, f):
    rule, con = 'state-in', short(f.qual)
    I = C.run(f, selfcls=cls.qual, boundary=['normalize.property.*'])
    b, L = I.b, I.L
    ps = [x for x in f.node.args.args][1:]
    S = P(ps[0].arg) if ps else None
    cov = FALSE
    for e in I.events:
        if e.kind == 'mut' and e.target == DICT and e.name == 'update' and \
                e.args and all(t == S for g, t in flat(I, e.args[0])):
            cov = b.or_(cov, e.guard)
        elif e.kind == 'store' and e.target == SELF and e.attr in (
                '__dict__', const('__dict__')):
            if all(t == S for g, t in flat(I, e.value)):
                cov = b.or_(cov, e.guard)
        elif e.kind == 'setitem' and e.target == DICT and \
                e.key == ('elem', S):
            if all(t == ('item', S, ('elem', S))
                   for g, t in flat(I, e.value)):
                cov = b.or_(cov, e.guard)
        elif e.kind == 'store' and e.target == SELF and \
                e.attr == ('elem', S):
            C.bad(rule, con + ':setattr', 'restoring goes through '
                  'attribute assignment, which read-only slots refuse',
                  e.where)
    ok = C.implies(I, TRUE, cov, rule, con, 'restoring does not put back '
                   'every slot of the saved state', where(f))
    C.never(I, raised(I), rule, con + ':total', 'restoring can fail',
            where(f))
    for e in I.events:
        if e.kind == 'mut' and e.target == DICT and e.name in (
                'pop', 'clear', 'popitem') or e.kind == 'delitem' and \
                e.target == DICT:
            C.check(e.d.get('name') == 'clear', rule, con + ':drop',
                    'restoring drops a slot', e.where)


def reduce_(C, cls, f):
    rule, con = 'reduce', short(f.qual)
    I = C.run(f, selfcls=cls.qual)
    b, L = I.b, I.L
    for g, t in flat(I, I.rv):
        if t[0] != 'tuple' or len(t) < 3:
            C.unk(rule, con, 'not a literal tuple', where(f))
            continue
        fn, args = t[1], t[2]
        skip = [x[2] for x in subterms(args)
                if x[0] == 'attr' and x[1] == SELF and isinstance(x[2], str)
                and x[2] != '__dict__']
        if len(t) > 3:
            cov = state_covers(I, t[3], g, skip)
            if cov is None:
                C.unk(rule, con, 'state not visible', where(f))
            else:
                C.implies(I, g, cov, rule, con + ':state', 'pickling or '
                          'copying loses slots of the instance', where(f))
        else:
            C.bad(rule, con + ':state', 'pickling or copying loses the '
                  'properties of the instance', where(f),
                  'returns %s' % L.show(t)[:200])
        # the class is rebuilt
        if mentions(t, TS) and any(x == TS for x in args[1:]
                                   if args[0] == 'tuple'):
            C.ok(rule, con + ':type', where(f))
            continue
        want = FALSE
        for a in b.support_atoms(g):
            if a[0] in ('is', 'eq') and TS in a[1:]:
                want = b.or_(want, b.atom(a))
        C.implies(I, g, want, rule, con + ':type', 'an instance of a '
                  'sub-class is rebuilt as the generic class', where(f))


def generic_rebuild(C):
    """the pickler of generic collections passes the members on"""
    c = C.m.classes.get('normalize.coll._GenericPickler')
    if c is None:
        return
    f = c.attrs.get('__call__')
    if not isinstance(f, Func):
        return
    rule, con = 'rebuild', short(f.qual)
    I = C.run(f, selfcls=c.qual)
    par = P([x.arg for x in f.node.args.args][1])
    for g, t in flat(I, I.rv):
        if opaque(t) or t[0] not in ('call', 'newof', 'new'):
            C.unk(rule, con, 'result not visible', where(f))
            continue
        C.check(mentions(t, par), rule, con, 'the members are not passed to '
                'the rebuilt collection', where(f), I.L.show(t)[:200])
    C.never(I, raised(I), rule, con + ':total', 'rebuilding fails',
            where(f))


# ---- C08 ------------------------------------------------------------------

def given_sources(I):
    return [P('init_dict'), P('**kwargs')]


def c08(C):
    f = C.m.need_func(REC + '.__init__')
    I = C.run(f, selfcls=REC, boundary=['normalize.property.*'])
    b, L = I.b, I.L
    con = short(f.qual)
    IN, KW = given_sources(I)
    pick = L.isinst(IN, ('class', 'normalize.record.OhPickle'))
    norm = b.not_(pick)
    ra = raised(I)
    # ambiguous
    C.implies(I, b.and_(norm, L.truthy(IN), L.truthy(KW)), ra,
              'ambiguous-construction', con, 'construction from both a '
              'mapping and keywords is not refused', where(f))
    cases = [(IN, b.and_(norm, L.truthy(IN), b.not_(L.truthy(KW)))),
             (KW, b.and_(norm, b.not_(L.truthy(IN))))]
    PROPS = A(TS, 'properties')
    calls = [e for e in evs(I, 'call') if e.callee[0] == 'attr' and
             e.callee[2] == 'init_prop']
    if not calls:
        calls = [e for e in evs(I, 'call')
                 if e.qual and e.qual.endswith('.init_prop')]
    if not calls:
        raise AnalysisBroken('Record.__init__ calls no init_prop')
    for G, pre in cases:
        nm = L.show(G)
        x = ('elem', G)
        prop = ('item', PROPS, x)
        known = b.and_(L.in_(x, PROPS), b.not_(L.isnone(prop)))
        acc, rej = FALSE, FALSE
        for e in calls:
            if e.callee[1] == prop:
                vals = [t for g, t in flat(I, e.args[1])] \
                    if len(e.args) > 1 else []
                tg = [t for g, t in flat(I, e.args[0])]
                good = vals == [('item', G, x)] and tg == [SELF]
                if not good and any(opaque(t) for t in vals):
                    C.unk('given-values', con, 'value', e.where)
                    continue
                C.check(good, 'given-values', con, 'a given value does not '
                        'go to its own property as it is: %s' %
                        [L.show(t)[:60] for t in vals], e.where)
                acc = b.or_(acc, e.guard)
        for e in raises(I):
            if exc_name(e) == 'PropertyNotKnown' and (
                    G in e.loops or mentions_guard(I, e.guard, x)):
                rej = b.or_(rej, e.guard)
        C.implies(I, b.and_(pre, known), acc, 'given-initialised',
                  con + ':' + nm, 'a given value is not stored through its '
                  'property', where(f))
        early = ra
        un = b.and_(pre, b.not_(L.in_(x, PROPS)))
        anyrej = rej
        for a in b.support_atoms(ra):
            pass
        C.implies(I, un, b.or_(rej, bulk_reject(I, G, PROPS)),
                  'unknown-refused', con + ':' + nm, 'an unknown name is '
                  'not refused', where(f))
        C.never(I, b.and_(acc, un), 'unknown-refused', con + ':' + nm +
                ':never-stored', 'an unknown name is initialised',
                where(f))
        eager(C, I, f, con, calls, G, pre, PROPS, nm)
    # nothing else writes a property slot
    for e in I.events:
        if e.kind == 'setitem' and e.target == DICT or \
                e.kind == 'mut' and e.target == DICT and e.name in (
                    'update', 'setdefault', '__setitem__'):
            C.bad('only-through-property', con, 'construction writes slots '
                  'around the property', e.where)
        if e.kind == 'store' and e.target == SELF and not isinstance(
                e.attr, str) and e.attr[0] != 'const':
            C.bad('only-through-property', con, 'construction assigns '
                  'attributes instead of initialising the property',
                  e.where)
    C.ok('only-through-property', con, where(f))
    chains(C)


def mentions_guard(I, g, x):
    return any(mentions(a, x) for a in I.b.support_atoms(g))


def bulk_reject(I, G, PROPS):
    """set(given) - set(properties) style rejection: opaque"""
    out = FALSE
    for e in raises(I):
        if exc_name(e) == 'PropertyNotKnown':
            for a in I.b.support_atoms(e.guard):
                if a[0] == 'truthy' and a[1][0] in ('bin', 'call') and \
                        mentions(a[1], PROPS):
                    out = TRUE
    return out


def keys_of(I, t, depth=0):
    """the mappings whose names a set holds; None when not visible"""
    if depth > 6:
        return None
    if t in I.conts:
        out = []
        for e in I.conts[t].entries:
            for g, x in flat(I, e.val, e.guard):
                if e.star:
                    r = keys_of(I, x, depth + 1)
                    if r is None:
                        return None
                    out += r
                elif x[0] == 'elem':
                    r = keys_of(I, x[1], depth + 1)
                    if r is None:
                        return None
                    out += r
                elif x[0] == 'item' and x[1][0] == 'elem' and \
                        x[1][1][0] == 'items':
                    out.append(x[1][1][1])
                else:
                    return None
        return out
    if t[0] == 'seq1':
        return keys_of(I, t[1], depth + 1)
    if t[0] == 'keys':
        return [t[1]]
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'keys':
        return [t[1][1]]
    if t[0] == 'call' and t[1][0] == 'builtin' and len(t[2]) == 1:
        return keys_of(I, t[2][0], depth + 1)
    if t[0] in ('param', 'attr'):
        return [t]
    return None


def eager(C, I, f, con, calls, G, pre, PROPS, nm):
    b, L = I.b, I.L
    EG = A(TS, 'eager_properties')
    cov = FALSE
    need = pre
    hit = False
    for e in calls:
        r = e.callee[1]
        if len(e.args) != 1 or r[0] != 'item' or r[1] != PROPS:
            continue
        x = r[2]
        if x[0] != 'elem':
            continue
        D = x[1]
        if D == EG:
            hit = True
            cov = b.or_(cov, b.or_(e.guard, L.in_(x, G)))
            C.never(I, b.and_(e.guard, L.in_(x, G), pre), 'given-wins',
                    con + ':' + nm, 'a given value is overwritten by the '
                    'default', e.where)
        elif D[0] == 'bin' and D[1] == 'Sub' and D[2] == EG or \
                D[0] == 'call' and D[1] == A(EG, 'difference'):
            out = D[3] if D[0] == 'bin' else D[2][0]
            taken = keys_of(I, out)
            if taken is None:
                C.unk('eager-initialised', con + ':' + nm,
                      'names to initialise not visible', e.where)
                return
            if G in taken:
                hit = True
                cov = b.or_(cov, e.guard)
            elif I.L.sat(b.and_(e.guard, pre)):
                C.bad('given-wins', con + ':' + nm, 'a given value is '
                      'overwritten by the default', e.where)
        elif D in I.conts or opaque(D):
            C.unk('eager-initialised', con + ':' + nm,
                  'names to initialise not visible', e.where)
            return
    if not hit:
        C.bad('eager-initialised', con + ':' + nm, 'properties with a '
              'default, or required ones, which are not given are not '
              'initialised', where(f))
        return
    # every known-named input reaches the loop
    ra = raised(I)
    C.implies(I, b.and_(need, b.not_(ra)), cov, 'eager-initialised', con +
              ':' + nm, 'a missing property with a default, or a required '
              'one, is not initialised', where(f))


def chains(C):
    """constructors of sub-classes end in the constructor of Record"""
    m = C.m
    for cls, f in own_defs(C, REC, '__init__'):
        if cls.qual == REC:
            continue
        I = C.run(f, selfcls=cls.qual, boundary=['normalize.*'])
        b, L = I.b, I.L
        con = short(f.qual)
        ups = [e for e in evs(I, 'call') if e.qual and
               e.qual.endswith('.__init__')]
        cov = FALSE
        for e in ups:
            cov = b.or_(cov, e.guard)
        ps = f.node.args.args
        pick = FALSE
        for a in ps[1:]:
            pick = b.or_(pick, L.isinst(
                P(a.arg), ('class', 'normalize.record.OhPickle')))
        C.implies(I, b.and_(b.not_(pick), b.not_(raised(I))), cov,
                  'super-constructor', con, 'a construction path does not '
                  'initialise the properties', where(f))


# ---- C09 ------------------------------------------------------------------

def c09(C):
    f, I = meta_run(C)
    b, L = I.b, I.L
    con = 'RecordMeta.__new__'
    at, bases = P('attrs'), P('bases')
    sets = attr_sets(I, 'properties')
    if not sets:
        raise AnalysisBroken('RecordMeta sets no properties')
    D = None
    for e in sets:
        for g, t in flat(I, e.value, e.guard):
            D = t
    end = FALSE
    for e in evs(I, 'call'):
        if e.callee[0] == 'attr' and e.callee[2] == '__new__':
            end = b.or_(end, e.guard)
    for nm in ('properties', 'primary_key', '_sorted_properties',
               'eager_properties'):
        g = FALSE
        for e in attr_sets(I, nm):
            g = b.or_(g, e.guard)
        C.implies(I, end, g, 'declares', con + ':' + nm, 'a class can be '
                  'created without its %s' % nm, where(f))
    x = ('elem', at)
    loc = ('item', at, x)
    isp = L.isinst(loc, ('class', 'normalize.property.Property'))
    base = ('elem', bases)
    bp = A(base, 'properties')
    inh_key = ('elem', bp)
    inh = ('item', bp, inh_key)
    lg, ig = FALSE, FALSE
    order = {}
    seq = 0
    ins = [e for e in I.events if e.kind == 'setitem' and e.target == D or
           e.kind == 'mut' and e.target == D]
    opaque_fill = False
    for e in ins:
        seq += 1
        if e.kind == 'mut':
            if e.name == 'update' and e.args:
                for g, t in flat(I, e.args[0], e.guard):
                    if t == bp:
                        ig = b.or_(ig, g)
                        order.setdefault('inh', seq)
                        C.bad('no-silent-clash', con, 'a property '
                              'inherited from two bases is silently '
                              'overwritten', e.where)
                    elif t in I.conts:
                        for gg, y in elements(I, t, g):
                            if y == loc:
                                lg = b.or_(lg, gg)
                                order.setdefault('loc', seq)
                    else:
                        opaque_fill = True
            elif e.name in ('pop', 'clear', 'popitem'):
                C.bad('complete', con + ':drop', 'declared properties are '
                      'dropped', e.where)
            continue
        for g, t in flat(I, e.value, e.guard):
            if t == loc and e.key == x:
                lg = b.or_(lg, g)
                order['loc'] = seq
            elif t == inh and e.key == inh_key:
                ig = b.or_(ig, g)
                order.setdefault('inh', seq)
                clash(C, I, e, g, D, inh_key, con)
            elif opaque(t):
                opaque_fill = True
    res = [L.eq(const(n), x) for n in ('properties', 'eager_properties')]
    notres = [b.not_(r) for r in res]
    ra = raised(I)
    dup = FALSE
    for e in raises(I):
        if exc_name(e) == 'MultipleInheritanceClash':
            dup = b.or_(dup, e.guard)
    if opaque_fill:
        C.unk('complete', con, 'properties collected in an opaque way',
              where(f))
    else:
        nodup = b.not_(b.or_(dup, *[b.atom(a) for a in b.support_atoms(lg)
                                    if a[0] == 'exists'] or [FALSE]))
        C.implies(I, b.and_(isp, nodup, *notres), lg, 'complete',
                  con + ':local', 'a property declared in the class body is '
                  'not one of its properties', where(f))
        # an inherited property is there under its own name
        cl = [b.atom(a) for a in b.support_atoms(ig) if a[0] == 'in']
        C.implies(I, b.and_(L.hasattr(base, const('properties')),
                            b.not_(dup), *[b.not_(c) for c in cl]), ig,
                  'complete', con + ':inherited', 'a property of a base '
                  'class is not inherited', where(f))
        if 'loc' in order and 'inh' in order:
            C.check(order['inh'] < order['loc'], 'override', con, 'an '
                    'inherited property replaces the one declared in the '
                    'class body', where(f))
    # reserved names
    rg = FALSE
    for e in raises(I):
        if exc_name(e) == 'ReservedPropertyName':
            rg = b.or_(rg, e.guard)
    rg2 = b.or_(raised(I), rg)
    for n in ('properties', 'eager_properties'):
        present = L.in_(const(n), at)
        g1 = b.and_(L.eq(const(n), x), b.not_(dup), *[
            b.not_(b.atom(a)) for a in b.support_atoms(rg)
            if a[0] == 'exists'])
        C.implies(I, g1, b.or_(rg, *[b.and_(present, raised(I))]),
                  'reserved', con + ':' + n,
                  'a class body can define the reserved name %r' % n,
                  where(f))
    # naming and binding of local properties
    fresh = b.not_(L.truthy(A(loc, 'bound')))
    ng = bg = FALSE
    for e in evs(I, 'call'):
        if e.callee == A(loc, 'set_name'):
            vals = [t for g, t in flat(I, e.args[0])]
            C.check(vals == [x], 'named', con + ':name', 'a property is '
                    'given a name other than its attribute', e.where)
            C.implies(I, e.guard, fresh, 'named', con + ':again',
                      'a property which belongs to another class is renamed',
                      e.where)
            ng = b.or_(ng, e.guard)
        if e.callee[0] == 'attr' and e.callee[2] == 'bind':
            if e.callee[1] == loc:
                bg = b.or_(bg, e.guard)
                C.implies(I, e.guard, fresh, 'bound', con + ':again',
                          'a property which belongs to another class is '
                          'bound to this one', e.where)
            elif mentions(e.callee[1], D) or mentions(e.callee[1], bases):
                asks = any(mentions(a, ('elem', D)) or
                           mentions(a, e.callee[1])
                           for a in b.support_atoms(e.guard)
                           if a[0] not in ('exists', 'first'))
                C.check(None if asks else False, 'bound', con +
                        ':inherited', 'an inherited property is bound to '
                        'the class which inherits it', e.where,
                        str(e.callee[1])[:120])
            vals = [t for g, t in flat(I, e.args[0])]
            C.check(all('__new__' in str(t) for t in vals), 'bound',
                    con + ':class', 'a property is bound to something '
                    'other than the new class', e.where)
    bound_atoms = [a for a in b.support_atoms(b.or_(ng, bg))
                   if a[0] == 'truthy' and a[1] == A(loc, 'bound')]
    exi = [b.not_(b.atom(a)) for a in b.support_atoms(b.or_(ng, bg))
           if a[0] == 'exists']
    C.implies(I, b.and_(isp, fresh, *(notres + exi)), ng, 'named', con,
              'a property of the class body is not told its name', where(f))
    C.implies(I, b.and_(isp, fresh, end, *(notres + exi)), bg, 'bound', con,
              'a property of the class body is not bound to its class',
              where(f))
    primary_key(C, I, f, con, D, at)
    # eager
    asked = [ev for ev in evs(I, 'call') if ev.callee[0] == 'attr' and
             ev.callee[2] == 'eager_init' or (ev.qual or '').endswith(
                 '.eager_init')]
    for e in attr_sets(I, 'eager_properties'):
        C.check(bool(asked), 'eager', con + ':asks', 'which properties are '
                'initialised eagerly is not asked of the properties',
                e.where)
        if not asked:
            break
        for g, t in flat(I, e.value, e.guard):
            els = elements(I, t, TRUE)
            n = 0
            seen = set()
            for gg, y in els:
                ini = [ev for ev in evs(I, 'call')
                       if ev.callee[0] == 'attr' and
                       ev.callee[2] == 'eager_init']
                pr = [ev for ev in ini
                      if y in (('elem', ev.callee[1][1]),) or
                      ev.callee[1][0] == 'item' and ev.callee[1][2] == y or
                      ev.callee[1] == y or
                      y == A(ev.callee[1], 'name')]
                if not pr:
                    if (opaque(y) or y[0] == 'elem') and \
                            'eager_properties' not in str(y):
                        C.unk('eager', con, 'contents not visible', e.where)
                    else:
                        C.bad('eager', con, 'a property is marked for '
                              'initialisation without asking it', e.where)
                    continue
                n += 1
                seen |= {ev.callee[1] for ev in pr}
                for ev in pr:
                    tr = L.truthy(ev.result)
                    C.implies(I, gg, tr, 'eager', con + ':only',
                              'a lazy or optional property is initialised '
                              'eagerly', e.where)
                    C.implies(I, b.and_(ev.guard, tr), gg, 'eager', con +
                              ':all', 'a property which asks for eager '
                              'initialisation is left out', e.where)
            C.check(n or None, 'eager', con, 'contents not visible', e.where)
            if n and not any(mentions(z, D) for z in seen):
                for z, nm in ((loc, 'local'), (inh, 'inherited')):
                    C.check(z in seen, 'eager', con + ':' + nm,
                            '%s properties are not asked whether they are '
                            'initialised eagerly' % nm, e.where)
    declared_sorted(C)


def clash(C, I, e, g, D, key, con):
    b, L = I.b, I.L
    ins = [a for a in b.support_atoms(g) if a[0] == 'in' and D in a]
    first = [a for a in b.support_atoms(g) if a[0] == 'first']
    h = g
    for a in first:
        h = b.and_(h, b.not_(b.atom(a)))
    if not ins:
        C.bad('no-silent-clash', con, 'a property inherited from two bases '
              'is silently overwritten', e.where)
        return
    h = b.and_(h, *[b.atom(a) for a in ins])
    if L.sat(h):
        rel = [a for a in b.support_atoms(h) if a[0] in ('is', 'eq') and
               any(mentions(z, D) for z in a[1:])]
        if rel and L.implies(h, b.or_(*[b.atom(a) for a in rel])):
            C.ok('no-silent-clash', con, e.where)
            return
        if any(opaque(a) for a in b.support_atoms(h)):
            C.unk('no-silent-clash', con, 'opaque clash test', e.where)
            return
        C.bad('no-silent-clash', con, 'a property inherited from two bases '
              'can be silently overwritten', e.where, L.showg(h)[:300])
    else:
        C.ok('no-silent-clash', con, e.where)


def primary_key(C, I, f, con, D, at):
    b, L = I.b, I.L
    PC = ('class', 'normalize.property.Property')
    raw = ('item', at, const('primary_key'))
    for e in attr_sets(I, 'primary_key'):
        for g, t in flat(I, e.value, e.guard):
            if t in (NONE,) or t[0] == 'const':
                C.bad('primary-key', con + ':tuple', 'the primary key is '
                      'not a tuple of properties', e.where)
                continue
            if opaque(t):
                C.unk('primary-key', con, 'contents not visible', e.where)
                continue
            cov = {}
            for gg, y in elements(I, t, TRUE):
                if opaque(y) or y == ('elem', t):
                    C.unk('primary-key', con, 'contents not visible',
                          e.where)
                    continue
                C.implies(I, gg, L.isinst(y, PC), 'primary-key', con +
                          ':properties', 'something which is not a '
                          'property gets into the primary key', e.where)
                own = y == ('item', D, ('elem', raw))
                if not own:
                    mem = [b.atom(a) for a in b.support_atoms(gg)
                           if a[0] == 'in' and a[1] == y]
                    C.implies(I, gg, b.or_(I.contains(y, ('values', D)), *mem),
                              'primary-key', con + ':declared', 'a property '
                              'of another class gets into the primary key',
                              e.where)
                cov[y] = gg
            if cov:
                allg = b.or_(*cov.values())
                rj = FALSE
                for ev in raises(I):
                    if raw in ev.loops:
                        rj = b.or_(rj, ev.guard)
                rj = b.or_(rj, raised(I, [ev for ev in raises(I)
                                          if raw not in ev.loops]))
                x = ('elem', raw)
                known = set()
                for y in cov:
                    known |= set(b.support_atoms(I.contains(
                        y, ('values', D))))
                pre = [b.not_(b.atom(a)) for a in b.support_atoms(
                    b.or_(allg, rj)) if a[0] == 'exists' and
                    a not in known]
                C.implies(I, b.and_(L.in_(const('primary_key'), at),
                                    L.truthy(raw),
                                    b.not_(L.isnone(raw)), *pre),
                          b.or_(allg, rj), 'primary-key', con + ':all',
                          'a declared key property is left out of the '
                          'primary key', e.where)


RULES = {'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09}
