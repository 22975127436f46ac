"""C01-C04: the typed, required, read-only and lazy slots of a record."""
from .base import *

PROP = 'normalize.property.Property'
NAME = A(SELF, 'name')
DICT = A(OBJ, '__dict__')
VT, CHECK, COERCE, REQ = (A(SELF, n) for n in (
    'valuetype', 'check', 'coerce', 'required'))
DEFAULT = A(SELF, 'default')


def prop_classes(C):
    out = subclasses(C.m, PROP)
    if len(out) < 10:
        raise AnalysisBroken('only %d property classes found' % len(out))
    return sorted(out, key=lambda c: c.qual)


class Write(object):
    def __init__(self, e, key, val):
        self.e, self.key, self.val = e, key, val


def is_dict_of(t, obj):
    if t == A(obj, '__dict__'):
        return True
    return t[0] == 'call' and t[1] == ('builtin', 'vars') and \
        t[2] == (obj,)


def slot_writes(I, obj=OBJ):
    out = []
    for e in I.events:
        if e.kind == 'setitem' and is_dict_of(e.target, obj):
            out.append(Write(e, e.key, e.value))
        elif e.kind == 'mut' and is_dict_of(e.target, obj):
            a = e.args
            if e.name in ('setdefault', '__setitem__') and len(a) == 2:
                for g, k in a[0]:
                    out.append(Write(e, k, a[1]))
            elif e.name == 'update' and a:
                for g, t in a[0]:
                    if t in I.conts:
                        for en in I.conts[t].entries:
                            out.append(Write(e, en.key, en.val))
                    else:
                        out.append(Write(e, None, a[0]))
        elif e.kind == 'store' and e.target == obj:
            k = e.attr
            if isinstance(k, str):
                k = const(k)
            out.append(Write(e, k, e.value))
        elif e.kind == 'call' and e.callee[0] in ('ext', 'attr') and \
                e.callee[-1] in ('__setattr__', 'object.__setattr__') and \
                len(e.args) == 3 and e.args[0] and \
                e.args[0][0][1] == obj:
            for g, k in e.args[1]:
                out.append(Write(e, k, e.args[2]))
    return out


def slot_deletes(I, obj=OBJ):
    out = []
    for e in I.events:
        if e.kind == 'delitem' and is_dict_of(e.target, obj):
            out.append(e)
        elif e.kind == 'mut' and is_dict_of(e.target, obj) and \
                e.name in ('pop', 'clear', 'popitem'):
            out.append(e)
        elif e.kind == 'delattr' and e.target == obj:
            out.append(e)
    return out


def entry(C, cls, name, **kw):
    o, a = cls.lookup(name)
    if not isinstance(a, Func):
        return None
    kw.setdefault('types', {})
    return C.run(a, selfcls=cls.qual, **kw)


def results_of(I, callee, argterm):
    """terms of the results of calls callee(argterm, ...)"""
    out = []
    for e in I.events:
        if e.kind == 'call' and e.callee == callee and e.args:
            for g, t in e.args[0]:
                if t == argterm:
                    out.append(e.result)
    return out


def accepted(I, t):
    """formula: the declared type and check accept t"""
    b, L = I.b, I.L
    typed = b.or_(b.not_(L.truthy(VT)), L.isinst(t, VT))
    rs = results_of(I, CHECK, t)
    if not rs:
        chk = L.truthy(('call', CHECK, (t,), ()))
    else:
        chk = b.or_(*[I.truthy(r) for r in rs])
    return typed, b.or_(b.not_(L.truthy(CHECK)), chk)


def write_value(I, w):
    """guarded alternatives of a written value under the write's guard"""
    return flat(I, w.val, w.e.guard)


# ------------------------------------------------------------------ C01
def c01(C):
    seen = set()
    visited = set()
    nw = 0
    for cls in prop_classes(C):
        for meth in ('init_prop', '__set__', '__get__', '__delete__'):
            I = entry(C, cls, meth)
            if I is None:
                continue
            visited |= I.visited
            for w in slot_writes(I):
                nw += 1
                cons = '%s.%s' % (short(cls.qual), meth)
                C.check(w.key == NAME, 'C01.own-slot', cons,
                        'a slot is written under a name which is not the '
                        "property's own", w.e.where)
                for g, t in write_value(I, w):
                    ty, ck = accepted(I, t)
                    C.implies(I, g, ty, 'C01.type-checked', cons,
                              'a value can reach the slot without being an '
                              'instance of the declared type: %s' %
                              I.L.show(t), w.e.where, (t,))
                    C.implies(I, g, ck, 'C01.check-applied', cons,
                              'a value can reach the slot without passing '
                              'the declared check: %s' % I.L.show(t),
                              w.e.where, (t,))
                # a rejected value leaves the slot as it was
                for r in raises(I):
                    if r.seq > w.e.seq and meth in ('__set__', 'init_prop',
                                                    '__get__'):
                        both = I.b.and_(r.guard, w.e.guard)
                        # a second store of the same accepted value is fine
                        C.never(I, both, 'C01.failed-assignment-keeps-slot',
                                cons, 'the slot is already overwritten when '
                                'the assignment is rejected', w.e.where)
            # coerce applies only to values which do not conform
            for e in I.events:
                if e.kind == 'call' and e.callee == COERCE and e.args:
                    for g, t in flat(I, e.args[0], e.guard):
                        C.implies(
                            I, g, I.b.not_(I.L.isinst(t, VT)),
                            'C01.coerce-only-nonconforming',
                            '%s.%s' % (short(cls.qual), meth),
                            'a value of the declared type is passed to the '
                            'coerce function', e.where, (t,))
            if meth == '__set__':
                # assignment is not silently dropped
                if cls.issub(C.m.need_class('normalize.property.ROProperty'
                                            )):
                    continue
                done = I.b.or_(*[w.e.guard for w in slot_writes(I)] +
                               [e.guard for e in slot_deletes(I)] + [FALSE])
                v1 = C.m.classes.get('normalize.property.V1Property')
                if v1 is not None and cls.issub(v1):
                    done = I.b.or_(done, I.L.isnone(VALUE), I.L.eq(
                        VALUE, A(SELF, 'v1_none')))
                C.implies(I, exits(I), done, 'C01.assignment-stores',
                          short(cls.qual), 'assigning an acceptable value '
                          'returns without storing it', where(I.entry))
            if meth in ('__set__', 'init_prop'):
                welcome(C, I, cls, meth)
            if meth in ('__set__', 'init_prop'):
                # what is stored is the value given, or its coercion
                for w in slot_writes(I):
                    for g, t in write_value(I, w):
                        if meth == 'init_prop':
                            continue
                        C.implies(
                            I, I.b.and_(g, I.L.isinst(VALUE, VT)),
                            TRUE if t == VALUE else FALSE,
                            'C01.conforming-value-kept',
                            '%s.%s' % (short(cls.qual), meth),
                            'a conforming value is replaced by another one',
                            w.e.where, (t,))
    if nw < 20:
        raise AnalysisBroken('only %d slot writes found' % nw)
    # the safe kinds install a checking setter
    for cls in prop_classes(C):
        safe = C.m.need_class('normalize.property.SafeProperty')
        if cls.issub(safe):
            o, a = cls.lookup('__set__')
            C.check(isinstance(a, Func), 'C01.safe-has-setter',
                    short(cls.qual), 'a safe property type has no __set__: '
                    'assignments bypass the type check',
                    '%s:%d' % (cls.module.rel, cls.node.lineno))
    wiring(C)
    # nobody else writes into instance dictionaries
    allowed = set(visited)
    for q in ('__setstate__', '__copy__', '__deepcopy__', '__reduce__',
              '__reduce_ex__'):
        for k in subclasses(C.m, 'normalize.record.Record'):
            o, a = k.lookup(q)
            if isinstance(a, Func):
                try:
                    allowed |= C.run(a, selfcls=k.qual).visited
                except RecursionError:
                    pass
    for q, f in sorted(C.m.funcs.items()):
        if q in allowed or f.cls is not None and not (
                f.cls.issub(C.m.need_class('normalize.record.Record')) or
                f.cls.issub(C.m.need_class(PROP))) and \
                f.module.name.startswith('normalize.empty'):
            continue
        for n in ast.walk(f.node):
            tgt = None
            if isinstance(n, ast.Subscript) and \
                    isinstance(n.ctx, ast.Store):
                tgt = n.value
            elif isinstance(n, ast.Call) and \
                    isinstance(n.func, ast.Attribute) and n.func.attr in (
                        'update', 'setdefault', '__setitem__'):
                tgt = n.func.value
            if tgt is None:
                continue
            d = isinstance(tgt, ast.Attribute) and tgt.attr == '__dict__' \
                or isinstance(tgt, ast.Call) and \
                isinstance(tgt.func, ast.Name) and tgt.func.id == 'vars'
            if d:
                C.bad('C01.who-may-write', short(q), 'an instance '
                      'dictionary is written outside the property '
                      'protocol', '%s:%d in %s' % (f.module.rel, n.lineno,
                                                   q))
    C.ok('C01.who-may-write', 'normalize')


def welcome(C, I, cls, meth):
    """acceptable values are accepted, the others are not dropped"""
    b, L = I.b, I.L
    cons = '%s.%s' % (short(cls.qual), meth)
    ro = cls.issub(C.m.need_class('normalize.property.ROProperty'))
    no = [L.is_(VALUE, ('class', 'normalize.property._Default'))]
    mk = none_marker(C)
    if mk:
        no.append(L.is_(VALUE, mk))
    given = b.not_(b.or_(*no))
    made = []
    for e in I.events:
        if e.kind == 'call' and e.callee == COERCE and e.args and any(
                t == VALUE for g, t in flat(I, e.args[0])):
            made.append(e.result)
    if not (ro and meth == '__set__'):
        for t in [VALUE] + made:
            ty, ck = accepted(I, t)
            ck = b.or_(b.not_(L.truthy(CHECK)), b.and_(*[
                I.truthy(x) for x in results_of(I, CHECK, t)] + [TRUE]))
            good = b.and_(given, ty, ck)
            if t == VALUE:
                good = b.and_(good, b.not_(b.and_(
                    L.isnone(VALUE), L.truthy(REQ), b.not_(L.truthy(VT)))))
            else:
                good = b.and_(good, b.not_(L.isinst(VALUE, VT)),
                              L.truthy(VT), *[b.not_(L.is_(t, x))
                                              for x in [mk] if x])
            for r in raises(I):
                g = b.and_(r.guard, good)
                for a in b.support_atoms(g):
                    if a[0] == 'raises':
                        g = b.and_(g, b.not_(b.atom(a)))
                if any(a[0] == 'in' and a[1] == const('ro')
                       for a in b.support_atoms(g)):
                    for a in b.support_atoms(g):
                        if a[0] == 'in' and a[1] == const('ro'):
                            g = b.and_(g, b.not_(b.atom(a)))
                C.never(I, g, 'C01.acceptable-accepted', cons, 'a value '
                        'which the declaration accepts%s is refused' % (
                            '' if t == VALUE else ' once converted'),
                        r.where, (t,))
    if meth != 'init_prop':
        return
    done = b.or_(*[w.e.guard for w in slot_writes(I)] + [FALSE])
    outs = list(made)
    for a in b.atoms:
        if isinstance(a, tuple):
            outs += [x for x in subterms(a) if x[0] == 'attr' and
                     x[2] == 'coerced' and x not in outs]
    if mk:
        given = b.and_(given, *[b.not_(L.is_(x, mk)) for x in outs])
    C.implies(I, b.and_(exits(I), given, b.not_(done)), b.or_(*[
        L.isnone(x) for x in outs] + [FALSE]), 'C01.not-dropped', cons,
        'a value which is given and not accepted is dropped silently',
        where(I.entry), tuple(outs))


def wiring(C):
    """the declaration's arguments are the ones enforced"""
    I = C.run(PROP + '.__init__', selfcls=PROP)
    got = {}
    for e in I.events:
        if e.kind == 'store' and e.target == SELF:
            got.setdefault(e.attr if isinstance(e.attr, str) else
                           e.attr[-1], []).append(e)
    ex = exits(I)
    for attr, par in (('valuetype', 'isa'), ('check', 'check'),
                      ('coerce', 'coerce')):
        es = got.get(attr, [])
        C.check(bool(es), 'C01.declaration-kept', attr,
                'the %s= argument of the declaration is not kept' % par,
                where(I.entry))
        last = {}
        for e in es:
            for g, t in flat(I, e.value, e.guard):
                if t == P(par):
                    continue
                if attr == 'coerce' and t == P('isa'):
                    C.implies(I, I.b.and_(g, ex), I.b.not_(I.L.truthy(
                        P('coerce'))), 'C01.declaration-kept', attr,
                        'the declared coerce function is ignored', e.where)
                    continue
                if t == NONE:
                    C.implies(I, I.b.and_(g, ex), I.b.not_(I.L.truthy(
                        P(par))), 'C01.declaration-kept', attr,
                        'the declared %s is dropped' % par, e.where)
                    continue
                C.unk('C01.declaration-kept', attr, 'stored value %s' %
                      I.L.show(t), e.where)


# ------------------------------------------------------------------ C02
def c02(C):
    lazy = C.m.need_class('normalize.property.LazyProperty')
    n = 0
    for cls in prop_classes(C):
        I = entry(C, cls, 'init_prop')
        b, L = I.b, I.L
        cons = short(cls.qual)
        wr = slot_writes(I)
        n += len(wr)
        done = b.or_(*[w.e.guard for w in wr] + [FALSE])
        allow = b.not_(L.truthy(REQ))
        if cls.issub(lazy):
            allow = b.or_(allow, *[
                L.is_(VALUE, ('class', 'normalize.property._Default'))])
        C.implies(I, exits(I), b.or_(done, allow), 'C02.required-present',
                  cons, 'construction completes without a value in a '
                  'required slot', where(I.entry))
        for meth in ('init_prop', '__set__', '__get__'):
            J = I if meth == 'init_prop' else entry(C, cls, meth)
            if J is None:
                continue
            for w in slot_writes(J):
                for g, t in write_value(J, w):
                    if t[0] == 'const' and t != NONE:
                        continue
                    C.implies(J, J.b.and_(g, J.L.isnone(t)), J.b.or_(
                        J.b.not_(J.L.truthy(REQ)), J.L.truthy(VT)),
                        'C02.required-not-none', '%s.%s' % (cons, meth),
                        'a required untyped slot accepts None', w.e.where,
                        (t,))
                    # the "not given" marker never becomes a value
                    no = [x for x in [none_marker(C)] if x]
                    for mk in no:
                        if t == mk:
                            C.never(J, g, 'C02.marker-not-stored',
                                    '%s.%s' % (cons, meth), 'the internal '
                                    '"no value" marker is stored in the '
                                    'slot', w.e.where)
        for meth in ('__set__', '__delete__'):
            J = entry(C, cls, meth)
            if J is None:
                continue
            for e in slot_deletes(J):
                C.implies(J, e.guard, J.b.not_(J.L.truthy(REQ)),
                          'C02.required-not-deleted', '%s.%s' %
                          (cons, meth), 'the value of a required slot is '
                          'removed', e.where)
            if meth == '__delete__' and not cls.issub(C.m.need_class(
                    'normalize.property.ROProperty')):
                dl = J.b.or_(*[e.guard for e in slot_deletes(J)] + [FALSE])
                C.implies(J, exits(J), dl, 'C02.delete-deletes', cons,
                          'deleting an optional slot returns without '
                          'removing the value', where(J.entry))
        # eager initialisation
        if not cls.issub(lazy):
            J = entry(C, cls, 'eager_init')
            r = J.truth(J.rv)
            mk = none_marker(C)
            want = J.L.truthy(REQ)
            C.implies(J, want, J.b.and_(r, TRUE), 'C02.eager', cons,
                      'a required slot is not initialised when omitted',
                      where(J.entry))
            if mk:
                C.implies(J, J.b.not_(J.L.is_(DEFAULT, mk)), r, 'C02.eager',
                          cons, 'a slot with a default is not initialised '
                          'when omitted', where(J.entry))
            # an omitted slot takes the declared default
            o, a = cls.lookup('init_prop')
            J = C.run(a, selfcls=cls.qual, args={
                'value': ('class', 'normalize.property._Default')}
                if 'normalize.property._Default' in C.m.classes else {})
            for w in slot_writes(J):
                for g, t in write_value(J, w):
                    C.check(from_default(t), 'C02.default-used', cons,
                            'an omitted slot is filled with something else '
                            'than the declared default: %s' % J.L.show(t),
                            w.e.where)
            J2 = J
            defaults(C, J, cons)
            for e in J2.events:
                if e.kind == 'call' and e.callee == DEFAULT:
                    m = J2.L.truthy(A(SELF, 'default_is_method'))
                    if e.args and e.args[0] and e.args[0][0][1] == OBJ:
                        C.implies(J2, e.guard, m, 'C02.default-used', cons,
                                  'a plain default function is passed the '
                                  'instance', e.where)
                    elif not e.args:
                        C.implies(J2, e.guard, J2.b.not_(m),
                                  'C02.default-used', cons, 'a default '
                                  'method is called without the instance',
                                  e.where)
        # reading an unset slot
        J = entry(C, cls, '__get__')
        present = J.L.in_(NAME, DICT)
        for e in J.events:
            if e.kind == 'return' and len(e.stack) == 1:
                for g, t in flat(J, e.value, e.guard):
                    if t == SELF:
                        C.implies(J, g, J.L.isnone(OBJ), 'C02.read', cons,
                                  'reading a slot returns the property '
                                  'object', e.where)
                    elif t == NONE and not cls.issub(
                            C.m.need_class('normalize.property.V1Property')):
                        C.never(J, g, 'C02.read', cons, 'reading an unset '
                                'slot returns None instead of raising',
                                e.where)
                    elif t == ('item', DICT, NAME):
                        C.ok('C02.read', cons, e.where)
                    C.implies(J, J.b.and_(g, present, J.b.not_(
                        J.L.isnone(OBJ))), TRUE if t == (
                            'item', DICT, NAME) else FALSE, 'C02.read',
                        cons, 'reading a set slot does not return the '
                        'stored value: %s' % J.L.show(t), e.where, (t,))
        for r in raises(J):
            C.never(J, J.b.and_(r.guard, present), 'C02.read', cons,
                    'reading a set slot raises', r.where)
            if not cls.issub(lazy):
                C.check(C.m.exc_issub(r.sym, ('builtin', 'AttributeError'))
                        is not False, 'C02.read', cons, 'reading an unset '
                        'slot raises something else than AttributeError',
                        r.where)
    if n < 10:
        raise AnalysisBroken('only %d slot initialisers found' % n)
    # wiring of the flag
    I = C.run(PROP + '.__init__', selfcls=PROP)
    es = [e for e in I.events if e.kind == 'store' and e.target == SELF and
          name_of(e.attr) in ('required', 'default')]
    got = set(name_of(e.attr) for e in es)
    for n in ('required', 'default'):
        C.check(n in got, 'C02.declaration-kept', n, 'the %s= argument of '
                'the declaration is not kept' % n, where(I.entry))
    for e in es:
        if name_of(e.attr) == 'required':
            v = I.truth(e.value)
            p = I.L.truthy(P('required'))
            C.implies(I, e.guard, I.b.ite(v, p, I.b.not_(p)),
                      'C02.declaration-kept', 'required',
                      'the required= flag enforced is not the declared one',
                      e.where)
        else:
            for g, t in flat(I, e.value, e.guard):
                C.check(t == P('default'), 'C02.declaration-kept',
                        'default', 'the default enforced is not the '
                        'declared one: %s' % I.L.show(t), e.where)


def defaults(C, I, cons):
    """a function given as default is called, anything else is the value"""
    b, L = I.b, I.L
    fn = b.atom(('callable', DEFAULT))

    def asked(g):
        return any(a[0] == 'hasattr' and a[1] == DEFAULT
                   for a in b.support_atoms(g))
    for e in I.events:
        if e.kind == 'call' and e.callee == DEFAULT and \
                not asked(e.guard):
            C.implies(I, e.guard, fn, 'C02.default-called', cons,
                      'a default which is no function is called', e.where)
        if e.kind == 'call' and e.callee == DEFAULT and not e.get('star'):
            for a in e.args:
                for g, t in flat(I, a, e.guard):
                    C.check(t == OBJ or (None if opaque(t) else False),
                            'C02.default-called', cons + ':record', 'a '
                            'default method is called with something else '
                            'than the record', e.where, L.show(t)[:80])
    for w in slot_writes(I):
        for g, t in write_value(I, w):
            if t != DEFAULT:
                continue
            if asked(g):
                continue
            C.implies(I, g, b.not_(fn), 'C02.default-called', cons,
                      'a function given as the default is taken for the '
                      'default value', w.e.where)


def name_of(a):
    return a if isinstance(a, str) else (a[2] if a[0] == 'const' else a[-1])


def none_marker(C):
    """the module-level 'no value' marker used as default of default="""
    f = C.m.method(PROP, '__init__')
    a = f.node.args
    names = [x.arg for x in a.args]
    d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    d.update((x.arg, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y)
    e = d.get('default')
    if isinstance(e, ast.Name):
        I = Interp(C.m)
        s = C.m.resolve(f.module, e.id)
        if s:
            return I.symval(s)
    return None


def from_default(t):
    if t == DEFAULT:
        return True
    if t[0] == 'call' and t[1] == DEFAULT:
        return True
    if t[0] == 'call' and t[1] in (COERCE,) and t[2]:
        return from_default(t[2][0])
    if t[0] == 'attr' and t[2] == 'coerced' and t[1][0] == 'excv':
        return from_default(t[1][1])
    return False


# ------------------------------------------------------------------ C03
def c03(C):
    ro = C.m.need_class('normalize.property.ROProperty')
    err = ('class', C.m.need_class(
        'normalize.exc.ReadOnlyAttributeError').qual)
    n = 0
    for cls in prop_classes(C):
        if not cls.issub(ro):
            continue
        n += 1
        for meth in ('__set__', '__delete__'):
            cons = '%s.%s' % (short(cls.qual), meth)
            o, a = cls.lookup(meth)
            if not isinstance(a, Func):
                C.bad('C03.has-guard', cons, 'a read-only property type '
                      'does not define %s: the slot is writable' % meth,
                      '%s:%d' % (cls.module.rel, cls.node.lineno))
                continue
            I = entry(C, cls, meth)
            C.never(I, exits(I), 'C03.never-returns', cons,
                    'modifying a read-only slot succeeds', where(a))
            for w in slot_writes(I) + slot_deletes(I):
                e = w.e if isinstance(w, Write) else w
                C.never(I, e.guard, 'C03.no-write', cons,
                        'a read-only slot is modified', e.where)
            for r in raises(I):
                C.check(C.m.exc_issub(r.sym, err), 'C03.error', cons,
                        'modifying a read-only slot raises %s' %
                        exc_name(r), r.where)
        # a set slot never changes through reading
        I = entry(C, cls, '__get__')
        for w in slot_writes(I):
            C.implies(I, w.e.guard, I.b.not_(I.L.in_(NAME, DICT)),
                      'C03.read-keeps', short(cls.qual),
                      'reading a read-only slot replaces the value it '
                      'already has', w.e.where)
    if n < 2:
        raise AnalysisBroken('only %d read-only property types' % n)


# ------------------------------------------------------------------ C04
def c04(C):
    lazy = C.m.need_class('normalize.property.LazyProperty')
    n = 0
    for cls in prop_classes(C):
        if not cls.issub(lazy):
            continue
        n += 1
        cons = short(cls.qual)
        dflt = ('class', 'normalize.property._Default')
        if dflt[1] not in C.m.classes:
            raise AnalysisBroken('no _Default marker')
        # construction neither computes nor stores
        o, a = cls.lookup('init_prop')
        I = C.run(a, selfcls=cls.qual, args={'value': dflt})
        for e in I.events:
            if e.kind == 'call' and e.callee == DEFAULT:
                C.never(I, e.guard, 'C04.not-at-construction', cons,
                        'the default of a lazy slot is computed during '
                        'construction', e.where)
        for w in slot_writes(I):
            C.never(I, w.e.guard, 'C04.not-at-construction', cons,
                    'a lazy slot is filled during construction', w.e.where)
        for r in raises(I):
            C.never(I, r.guard, 'C04.not-at-construction', cons,
                    'omitting a lazy slot is refused', r.where)
        J = entry(C, cls, 'eager_init')
        C.never(J, J.b.and_(exits(J), J.truth(J.rv)), 'C04.not-eager', cons,
                'a lazy slot is initialised eagerly', where(J.entry))
        # a value given at construction is kept
        K = C.run(a, selfcls=cls.qual)
        notd = K.b.not_(K.L.is_(VALUE, dflt))
        wr = K.b.or_(*[w.e.guard for w in slot_writes(K)] + [FALSE])
        mk = none_marker(C)
        opt = K.b.not_(K.L.is_(VALUE, mk)) if mk else TRUE
        C.implies(K, K.b.and_(exits(K), notd, opt,
                              K.b.not_(K.L.truthy(VT))), wr,
                  'C04.given-value-kept', cons, 'a value given for a lazy '
                  'slot is dropped', where(K.entry))
        # first read
        I = entry(C, cls, '__get__')
        b, L = I.b, I.L
        present = L.in_(NAME, DICT)
        ds = FALSE
        for e in I.events:
            if e.kind == 'call' and e.callee == DEFAULT:
                C.implies(I, e.guard, b.not_(present), 'C04.computed-once',
                          cons, 'the default of a lazy slot is computed '
                          'although the slot has a value', e.where)
                C.implies(I, e.guard, b.not_(L.isnone(OBJ)),
                          'C04.computed-once', cons, 'the default is '
                          'computed on class access', e.where)
                ds = b.or_(ds, e.guard)
        stored = b.or_(*[w.e.guard for w in slot_writes(I)] + [FALSE])
        C.implies(I, b.and_(ds, exits(I)), stored, 'C04.result-kept', cons,
                  'the computed value is returned without being kept: it '
                  'is computed again on the next read', where(I.entry))
        C.implies(I, b.and_(exits(I), b.not_(present), b.not_(
            L.isnone(OBJ))), stored, 'C04.first-read-fills', cons,
            'reading an empty lazy slot returns without filling it',
            where(I.entry))
        for w in slot_writes(I):
            C.implies(I, w.e.guard, b.not_(present), 'C04.computed-once',
                      cons, 'a lazy slot which has a value is overwritten '
                      'by a read', w.e.where)
            for g, t in write_value(I, w):
                C.check(from_default(t), 'C04.value', cons, 'a lazy slot '
                        'is filled with something else than its default: '
                        '%s' % L.show(t), w.e.where)
        # what the read returns is what was stored
        for e in I.events:
            if e.kind == 'return' and len(e.stack) == 1:
                for g, t in flat(I, e.value, b.and_(e.guard, b.not_(
                        present), b.not_(L.isnone(OBJ)))):
                    same = FALSE
                    for w in slot_writes(I):
                        for g2, t2 in write_value(I, w):
                            if t2 == t:
                                same = b.or_(same, g2)
                    C.implies(I, g, same, 'C04.read-equals-kept', cons,
                              'the first read returns something else than '
                              'the value kept: %s' % L.show(t), e.where,
                              (t,))
    if n < 3:
        raise AnalysisBroken('only %d lazy property types' % n)


RULES = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04}
