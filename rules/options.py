"""C32 a property keeps the options it is declared with, and a declaration
which cannot be meant is refused"""
from .base import *
from .declare import local
from .slots import prop_classes, PROP

INFO = PROP + '.func_info'
GENERIC = 'normalize.coll._make_generic'
UNSET = ('modvar', PROP.rpartition('.')[0], '_none')
KWS = P('**kwargs')
# option -> where it is kept, what it is when it is not given
KEPT = [('default', 'default', UNSET), ('required', 'required', FALSE),
        ('check', 'check', NONE), ('isa', 'valuetype', NONE),
        ('extraneous', 'extraneous', FALSE),
        ('empty_attr', 'empty_attr', UNSET), ('doc', '__doc__', NONE)]
# what tells types, and methods of types, from functions
NOFUNC = [('ext', 'inspect.' + x) for x in ('isclass', 'ismethoddescriptor')]
# whether they hold is all that matters of these
FLAGS = ('required', 'extraneous')
OWN = [('compare_as', 'compare_as'), ('json_name', '_json_name'),
       ('json_in', 'json_in'), ('json_out', 'json_out')]


def c32(C):
    for c in prop_classes(C):
        declared(C, c)
    naming(C)
    signature(C)
    made_types(C)


def given(f):
    return {a.arg for a in f.node.args.args[1:] + f.node.args.kwonlyargs}


class Decl(object):
    """the constructor of a property type, whatever it is called with"""

    def __init__(self, C, c):
        self.C, self.c = C, c
        self.f = f = c.lookup('__init__')[1]
        self.I = I = C.run(f, selfcls=c.qual, boundary=[INFO, GENERIC])
        self.b, self.L = I.b, I.L
        self.params = given(f)
        self.done = exits(I)
        self.w = where(f)

    def opt(self, n, default=NONE):
        """what is given for an option"""
        if n in self.params:
            return [(TRUE, P(n))]
        t = ('item', KWS, const(n))
        has = self.L.in_(const(n), KWS)
        if default == FALSE:
            default = const(False)
        return [(has, t), (self.b.not_(has), default)]

    def final(self, attr):
        return [(self.b.and_(g, self.done), t) for g, t in flat(
            self.I, self.I.load_attr(((TRUE, SELF),), attr), self.done)]

    def diff(self, t, u):
        b, L = self.b, self.L
        return b.and_(b.not_(L.is_(t, u)),
                      b.or_(L.truthy(t), L.truthy(u)))

    def differs(self, xs, ys, flag=False):
        """something kept is not what was given"""
        b, L = self.b, self.L
        out = FALSE
        for g, t in xs:
            for h, u in ys:
                k = b.and_(g, h)
                if k == FALSE or t == u:
                    continue
                if flag:
                    x, y = L.truthy(t), L.truthy(u)
                    d = b.or_(b.and_(x, b.not_(y)), b.and_(y, b.not_(x)))
                else:
                    d = self.diff(t, u)
                out = b.or_(out, b.and_(k, d))
        return out

    def unknown(self, xs, also=()):
        """a value put together in a way which is not followed"""
        return any(local(t) and t not in also for g, t in xs)

    def truth(self, xs, live=TRUE):
        b = self.b
        return b.or_(*[b.and_(g, live, self.L.truthy(t)) for g, t in xs])

    def kept(self, attr, want, msg, flag=False, but=FALSE, con=None):
        xs = self.final(attr)
        con = '%s: %s' % (con or attr, short(self.c.qual))
        if self.unknown(xs):
            self.C.unk('kept', con, 'made in another way', self.w)
            return
        d = self.b.and_(self.differs(xs, want, flag), self.b.not_(but))
        self.C.never(self.I, d, 'kept', con, msg, self.w)

    def never(self, g, con, msg, rule='refused'):
        self.C.never(self.I, g, rule, '%s: %s' % (con, short(self.c.qual)),
                     msg, self.w)

    def fails(self, name):
        return self.b.or_(*[e.guard for e in raises(self.I)
                            if exc_name(e) == name])


def declared(C, c):
    D = Decl(C, c)
    I, b, L = D.I, D.b, D.L
    q = {k.qual for k in c.mro if hasattr(k, 'qual')}
    has = lambda n: PROP.rpartition('.')[0] + '.' + n in q
    if D.done == FALSE or any(opaque_guard(I, e.guard) for e in raises(I)):
        C.unk('kept', short(c.qual), 'how it is made', D.w)
        return
    up = upgraded(D) if has('V1Property') else FALSE
    for n, attr, dflt in KEPT:
        if n == 'isa' and has('coll.CollectionProperty'):
            collection(D, has)
            continue
        if n == 'empty_attr' and has('V1Property'):
            continue
        want = D.opt(n, dflt)
        msg = '%s= is not kept' % n
        if n == 'default' and up != FALSE:
            D.kept(attr, [(TRUE, UNSET)], 'the legacy none is still the '
                   'default', but=b.not_(up), con='legacy default')
            D.kept(attr, want, msg, but=up)
            continue
        D.kept(attr, want, msg, n in FLAGS)
    for attr in 'name', 'class_':
        D.kept(attr, [(TRUE, NONE)], 'set before it is known')
    coercion(D)
    default(D)
    lazy(D, has)
    v1(D, has, up)
    diffas(D, has)
    if has('json.JsonProperty'):
        for n, attr in OWN[1:]:
            d = ('modvar', PROP.rpartition('.')[0] + '.json', '_default')
            D.kept(attr, D.opt(n, d if n == 'json_name' else NONE),
                   '%s= is not kept' % n)


def coercion(D):
    b, I = D.b, D.I
    isa = D.final('valuetype')
    want = D.opt('coerce')
    has = D.truth(want)
    D.kept('coerce', want, 'coerce= is not kept', but=b.not_(has))
    if not D.unknown(isa):
        D.kept('coerce', isa, 'what converts is not the type when nothing '
               'is given', but=has, con='coerce from isa')
    D.never(b.and_(D.done, has, b.not_(D.truth(isa))), 'CoerceWithoutType',
            'a conversion to no type is accepted')
    # what the type is when it is refused
    g = D.fails('CoerceWithoutType')
    D.never(b.and_(g, b.not_(has)), 'CoerceWithoutType', 'refused without a '
            'conversion')
    if 'isa' not in D.params:
        D.never(b.and_(g, D.truth(D.opt('isa'))), 'CoerceWithoutType',
                'refused with a type')


def info(t, i):
    """a part of what func_info tells of t"""
    return ('item', ('call', ('bound', SELF, INFO), (t,), ()), const(i))


def default(D):
    I, b, L = D.I, D.b, D.L
    calls = [e for e in evs(I, 'call') if e.callee == ('bound', SELF, INFO)]
    if not calls:
        D.C.unk('default', short(D.c.qual), 'func_info() is not called', D.w)
        return
    about = {}
    for e in calls:
        for g, t in flat(I, e.args[0]) if e.args else ():
            about[t] = e.result
    fs = D.final('default')
    kept = D.final('default_is_method')
    for g, t in fs:
        if t == UNSET:
            continue
        f = b.and_(g, b.atom(('callable', t)))
        if t not in about:
            D.never(f, 'default', 'what a function takes is not looked at',
                    'default')
            continue
        m, n = [('item', about[t], const(i)) for i in (0, 1)]
        m, k = L.truthy(m), L.truthy(n)
        want = b.or_(m, k)
        for h, v in kept:
            x = b.and_(f, h)
            y = L.truthy(v)
            D.never(b.and_(x, b.or_(b.and_(y, b.not_(want)),
                                    b.and_(want, b.not_(y)))),
                    'default_is_method', 'if the default is called with the '
                    'record is not what its arguments say', 'default')
        D.never(b.and_(f, m, k), 'default arguments', 'a method which takes '
                'arguments is accepted as default')
        for i in 2, 3:
            D.never(at(D, f, n, i), 'default arguments', 'a function which '
                    'takes arguments is accepted as default')
        r = D.fails('DefaultSignatureError')
        D.never(at(D, b.and_(r, b.atom(('callable', t)), b.or_(*[
            h for h, x in D.opt('default') if x == t])), n, 0),
                'default arguments', 'a default which takes no arguments is '
                'refused')
        # compatibility: lambda x: x.foo
        x = at(D, b.and_(f, b.not_(m)), n, 1)
        D.C.check(x != FALSE, 'default', 'compatible: ' + short(D.c.qual),
                  'functions of the record are refused as default', D.w)
        functions(D, x, t)


def functions(D, x, t):
    """what is called with the record although it does not ask for it is a
    function, no type and no bound method"""
    b, L = D.b, D.L
    con = 'compatible: ' + short(D.c.qual)
    call = lambda n: b.atom(('truthy', ('call', ('ext', 'inspect.' + n),
                                        (t,), ())))
    fn = b.or_(call('isfunction'), b.and_(call('isroutine'),
                                          b.not_(call('ismethod'))))
    odd = [a for a in b.support_atoms(x) if a[0] in ('truthy', 'isinst') and
           a[1] != t and t in subterms_of(a) and INFO not in str(a) and
           not (a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] in [
               ('ext', 'inspect.' + n) for n in (
                   'isfunction', 'isroutine', 'ismethod')]) and
           a[1] != A(t, '__hash__')]
    if odd:
        D.C.unk('default', con, 'what is called with the record', D.w)
        return
    D.never(b.and_(x, b.not_(fn)), 'compatible', 'a type or a bound method '
            'given as default is called with the record', 'default')


def lazy(D, has):
    if has('LazyProperty') and 'lazy' in D.params:
        b = D.b
        t = D.L.truthy(P('lazy'))
        D.never(b.and_(D.done, b.not_(t)), 'LazyIsFalse', 'lazy=False is '
                'accepted')
        D.never(b.and_(D.fails('LazyIsFalse'), t), 'LazyIsFalse', 'a lazy '
                'property is refused')


def upgraded(D):
    """the default is a legacy none"""
    b, L = D.b, D.L
    out = FALSE
    own = L.is_(UNSET, P('v1_none'))
    for g, t in D.opt('default', UNSET):
        if t != UNSET:
            out = b.or_(out, b.and_(
                own, g, b.not_(L.truthy(t)), L.truthy(A(t, '__hash__')),
                b.not_(b.atom(('callable', t)))))
    return out


def v1(D, has, up):
    if not has('V1Property') or 'v1_none' not in D.params:
        return
    b, L = D.b, D.L
    none = P('v1_none')
    own = L.is_(UNSET, none)
    d = D.opt('default', UNSET)
    D.kept('v1_none', [(up, x) for g, x in d if x != UNSET] + [
        (b.and_(own, b.not_(up)), NONE), (b.not_(own), none)],
        'the legacy none is not kept')
    D.kept('v1_upgraded', [(up, const(True)),
                           (b.not_(up), const(False))],
           'if the legacy none was the default is not kept', True)
    for g, x in D.opt('empty_attr', UNSET):
        if x == UNSET:
            D.kept('empty_attr', [(b.and_(g, up), UNSET),
                                  (b.and_(g, b.not_(up)), NONE)],
                   'the accessor of an empty slot is not that of the '
                   'version', con='no empty_attr')
        else:
            D.kept('empty_attr', [(g, x)], 'empty_attr= is not kept',
                   but=b.or_(L.is_(x, UNSET), L.is_(UNSET, x)))
    h = L.truthy(A(none, '__hash__'))
    D.never(b.and_(D.done, b.not_(h)), 'NoneMutable', 'a legacy none which '
            'can be changed is accepted')
    D.never(b.and_(D.fails('NoneMutable'), h), 'NoneMutable', 'a constant '
            'legacy none is refused')


def diffas(D, has):
    if not has('DiffasProperty') or 'compare_as' not in D.params:
        return
    I, b, L = D.I, D.b, D.L
    f = P('compare_as')
    D.kept('compare_as', [(TRUE, f)], 'compare_as= is not kept')
    res = [e.result for e in evs(I, 'call')
           if e.callee == ('bound', SELF, INFO) and e.args and
           [t for g, t in flat(I, e.args[0])] == [f]]
    if not res:
        D.C.unk('refused', 'CompareAsSignatureError: ' + short(D.c.qual),
                'func_info() is not called', D.w)
        return
    m, n = [('item', res[0], const(i)) for i in (0, 1)]
    for i in 2, 3:
        D.never(at(D, D.done, n, i), 'CompareAsSignatureError', 'a function '
                'of several arguments is accepted')
    for i in 0, 1:
        D.never(at(D, D.fails('CompareAsSignatureError'), n, i),
                'CompareAsSignatureError', 'a function of at most the value '
                'is refused')
    kept = []
    for g, t in D.final('compare_as_info'):
        if t[0] == 'tuple' and len(t) == 3:
            kept.append((g, t[1], t[2]))
        elif t == res[0]:
            kept.append((g, m, n))
        else:
            D.C.unk('kept', 'compare_as_info: ' + short(D.c.qual),
                    'made in another way', D.w)
            return
    # what is no function: types, and methods of types
    other, odd = [], False
    for g, x, y in kept:
        for h, u in pieces(b, x) + pieces(b, y):
            for a in b.support_atoms(b.and_(g, h)):
                if f not in subterms_of(a) or res[0] in subterms_of(a):
                    continue
                if a[0] == 'isinst' or a[0] == 'truthy' and \
                        a[1][0] == 'call' and a[1][1] in NOFUNC:
                    other.append(b.atom(a))
                else:
                    odd = True
    if odd:
        D.C.unk('kept', 'compare_as_info: ' + short(D.c.qual),
                'what is a function', D.w)
        return
    plain = b.not_(b.or_(*other))
    # a type or a method of one is called with the value, and nothing else
    con = 'what converts: ' + short(D.c.qual)
    for a, what in (('isinst', f, ('builtin', 'type')), 'a type'), (
            ('truthy', ('call', NOFUNC[1], (f,), ())), 'a method of a type'):
        a = b.atom(a)
        if a not in other and what == 'a type':
            a = b.atom(('truthy', ('call', NOFUNC[0], (f,), ())))
        if a not in other:
            D.C.bad('kept', con, '%s given to compare with is called like a '
                    'method of the record' % what, D.w)
            continue
        for g, x, y in kept:
            for h, u in pieces(b, x):
                D.C.never(I, b.and_(g, h, a, L.truthy(u)), 'kept', con,
                          '%s is called like a method of the record' % what,
                          D.w)
            for h, u in pieces(b, y):
                D.C.never(I, b.and_(g, h, a, b.not_(L.truthy(u))), 'kept',
                          con, '%s is called without the value' % what, D.w)
    for g, x, y in kept:
        for t, want, what in (x, m, 'if it is a method'), (
                y, n, 'what it takes'):
            for h, u in pieces(b, t):
                d = L.truthy(u), L.truthy(want)
                D.never(b.and_(g, h, plain, b.or_(
                    b.and_(d[0], b.not_(d[1])), b.and_(d[1], b.not_(d[0])))),
                    'compare_as_info', '%s is not kept' % what, 'kept')


def at(D, g, n, i):
    """what g says when n is the number i"""
    L = D.L

    def val(t):
        return const(i) if t == n else None

    def fn(a):
        if not any(x == n for x in subterms_of(a)):
            return None
        if a[0] == 'truthy':
            return L.truthy(rewrite(a[1], val))
        if a[0] in ('lt', 'eq', 'is'):
            return {'lt': L.lt, 'eq': L.eq, 'is': L.is_}[a[0]](
                rewrite(a[1], val), rewrite(a[2], val))
    return subst(D.I, g, fn)


def pieces(b, t):
    if t[0] == 'phi':
        return [(b.and_(g, h), u) for g, x in t[1] for h, u in pieces(b, x)]
    return [(TRUE, t)]


def collection(D, has):
    """which type the values of a collection property have"""
    I, b, L = D.I, D.b, D.L
    kind = [(n, k) for n, k in (('list', 'List'), ('dict', 'Dict'))
            if has('coll.%sProperty' % k)]
    isa = D.opt('isa')
    if kind:
        n, k = kind[0]
        of = [(b.not_(L.isnone(P(n + '_of'))), P(n + '_of'))] + [
            (b.and_(L.isnone(P(n + '_of')), g), t) for g, t in D.opt('of')]
        own = I.load_attr(((TRUE, SELF),), 'coll_type')
        in_ = L.in_(const('coll'), KWS)
        coll = [(in_, ('item', KWS, const('coll')))] + [
            (b.and_(b.not_(in_), g), t) for g, t in flat(I, own)]
        base = ('class', 'normalize.coll.%sCollection' % k)
        fit = b.or_(*[b.and_(g, I.subcls(t, base)) for g, t in coll])
        err = '%sPropertyMustDerive%sCollection' % (k, k)
        D.never(b.and_(D.done, b.not_(D.truth(of))), k + 'OfWhat',
                'accepted with no type of items')
        D.never(b.and_(D.fails(k + 'OfWhat'), D.truth(of)), k + 'OfWhat',
                'refused with a type of items')
        D.never(b.and_(D.done, b.not_(fit)), err, 'a collection of another '
                'kind is accepted')
        D.never(b.and_(D.fails(err), fit), err, 'a collection of the kind is '
                'refused')
    else:
        of, coll = D.opt('of'), D.opt('coll')
    yes = D.truth(isa)
    D.kept('valuetype', isa, 'isa= is not kept', but=b.not_(yes))
    none = b.and_(b.or_(*[b.and_(g, L.isnone(t)) for g, t in isa]),
                  b.or_(*[b.and_(g, L.isnone(t)) for g, t in coll]))
    D.never(b.and_(D.done, none), 'CollRequiredError', 'accepted with no '
            'type of collection')
    D.never(b.and_(D.fails('CollRequiredError'), b.not_(none)),
            'CollRequiredError', 'refused with a type of collection')
    # of a type which is made for it
    con = 'valuetype made: ' + short(D.c.qual)
    made = [e for e in evs(I, 'call') if e.callee == ('func', GENERIC)]
    got = [(g, t) for g, t in D.final('valuetype')
           if b.and_(g, b.not_(yes)) != FALSE]
    res = {e.result for e in made}
    D.C.check(bool(got) and all(t in res for g, t in got) or (
        None if not made else False), 'kept', con, 'a type which is not '
        'made of the options', D.w)
    for e in made:
        if len(e.args) != 2 or e.kws or e.star or e.starkw:
            D.C.unk('kept', con, 'made otherwise', e.where)
            continue
        for x, want, n in (e.args[0], of, 'of'), (e.args[1], coll, 'coll'):
            xs = flat(I, x, b.and_(e.guard, D.done))
            D.C.never(I, D.differs(xs, want), 'kept', '%s of %s' % (n, con),
                      'made of something other than %s=' % n, e.where)
    # what contradicts the type
    for g, t in isa:
        item = A(t, 'itemtype')
        clash = b.and_(g, L.truthy(t), b.or_(
            *[b.and_(h, L.truthy(u), b.not_(I.subcls(t, u)))
              for h, u in coll] +
            [b.and_(h, L.truthy(u), b.not_(I.subcls(u, item)))
             for h, u in of]))
        D.never(b.and_(D.done, clash), 'CollTypeMismatch', 'options which '
                'contradict each other are accepted')
    D.never(b.and_(D.fails('CollTypeMismatch'), b.not_(b.or_(*[
        b.and_(g, L.truthy(t), b.or_(
            *[b.and_(h, L.truthy(u), b.not_(I.subcls(t, u)))
              for h, u in coll] +
            [b.and_(h, L.truthy(u), b.not_(I.subcls(u, A(t, 'itemtype'))))
             for h, u in of])) for g, t in isa]))), 'CollTypeMismatch',
        'options which agree are refused')


# -- the name --------------------------------------------------------------
def naming(C):
    for c in prop_classes(C):
        r = c.lookup('set_name')
        if r and (c.name == 'Property' or 'set_name' in c.attrs):
            named(C, r[1], c)
    for c in prop_classes(C):
        if 'bind' in c.attrs:
            f = c.lookup('bind')[1]
            I = C.run(f, selfcls=c.qual)
            a = P(f.node.args.args[1].arg)
            for g, t in flat(I, I.load_attr(((TRUE, SELF),), 'class_'),
                             exits(I)):
                ok = t == a or t[0] == 'call' and a in subterms(t)
                C.check(ok or (None if local(t) else False), 'named', 'bind',
                        'the record type is not kept', where(f))
        if 'json_name' in c.attrs:
            jname(C, c)


def jname(C, c):
    f = c.lookup('json_name')[1]
    f = getattr(f, 'getter', None) or f
    if not hasattr(f, 'node'):
        return
    I = C.run(f, selfcls=c.qual)
    b, L = I.b, I.L
    mod = c.qual.rpartition('.')[0]
    own = A(SELF, '_json_name')
    unset = b.or_(L.is_(own, ('modvar', mod, '_default')))
    for g, t in flat(I, I.rv, exits(I)):
        if local(t):
            C.unk('named', 'json_name', 'made in another way', where(f))
        elif t == own:
            C.never(I, b.and_(g, unset), 'named', 'json_name', 'no name when '
                    'none is given', where(f))
        elif t == A(SELF, 'name'):
            C.never(I, b.and_(g, b.not_(unset)), 'named', 'json_name',
                    'the name given is not used', where(f))
        else:
            C.bad('named', 'json_name', 'neither the name given nor that of '
                  'the attribute', where(f))


def named(C, f, c):
    I = C.run(f, selfcls=c.qual)
    b, L = I.b, I.L
    a = P(f.node.args.args[1].arg)
    done = exits(I)
    for g, t in flat(I, I.load_attr(((TRUE, SELF),), 'name'), done):
        C.check(t == a or (None if local(t) else False), 'named', 'name',
                'the name is not that of the attribute', where(f))
    own = A(SELF, 'empty_attr')
    unset = L.is_(own, UNSET)
    made = FALSE
    for g, t in flat(I, I.load_attr(((TRUE, SELF),), 'empty_attr'), done):
        if t == own:
            C.never(I, b.and_(g, unset), 'named', 'empty_attr', 'the '
                    'accessor gets no name', where(f))
        else:
            C.never(I, b.and_(g, b.not_(unset)), 'named', 'empty_attr',
                    'the name given for the accessor is replaced', where(f))
            if t != NONE:
                made = b.or_(made, g)
                C.check(t == ('bin', 'Add', a, const('0')) or (
                    None if local(t) or t[0] in ('fmt', 'call') else False),
                    'named', 'empty_attr', 'it is not the name with 0',
                    where(f))
    # which names get no accessor
    last = ('item', a, const(-1))
    for g, t in flat(I, I.load_attr(((TRUE, SELF),), 'empty_attr'), done):
        if t == own:
            continue
        at = [x for x in b.support_atoms(g) if x != ('is',) and
              any(a == s for s in subterms_of(x))]
        for x in at:
            ds = [s for s in subterms_of(x) if s[0] == 'const' and
                  isinstance(s[2], str)]
            for s in ds:
                C.check(sorted(s[2]) == list('0123456789'), 'named', 'digits',
                        'some digits at the end of a name are no digits',
                        where(f))
            g1 = b.and_(g, b.atom(x)) if t != NONE else b.and_(
                g, b.not_(b.atom(x)))
            if x[0] == 'in' and x[1] == last and ds:
                C.never(I, g1, 'named', 'empty_attr', 'the accessor of a '
                        'name with a digit at the end' if t != NONE else
                        'no accessor for a plain name', where(f))


def subterms_of(x):
    out = []
    for s in x[1:]:
        if isinstance(s, tuple) and s and isinstance(s[0], str):
            out.append(s)
            out.extend(subterms(s))
    return out


# -- what a function takes -------------------------------------------------
def signature(C):
    f = C.m.need_func(INFO)
    w = where(f)
    I = C.run(f)
    b, L = I.b, I.L
    fn = P(f.node.args.args[1].arg)
    out = flat(I, I.rv, exits(I))
    C.check(all(t[0] == 'tuple' and len(t) == 3 for g, t in out) or None,
            'signature', 'result', 'not a pair', w)
    # where the arguments are read from
    calls = [e for e in evs(I, 'call') if e.callee[0] == 'ext' and
             e.callee[1].startswith('inspect.') and e.args and
             [t for g, t in flat(I, e.args[0])] == [fn]]
    for e in calls:
        n = e.callee[1].rpartition('.')[2]
        C.check(n not in ('getfullargspec', 'getargspec'), 'signature',
                'bound', '%s() counts what a bound method is called with, '
                'and fails for built-in types' % n, e.where)
        if n == 'signature':
            ok = [a for g, t in out for a in b.support_atoms(g)
                  if a[0] == 'raises' and a[1] == e.result and a[2] in [
                      ('builtin', x) for x in ('ValueError', 'Exception',
                                               'BaseException')]]
            C.check(bool(ok), 'signature', 'built-in', 'built-in types and '
                    'functions, which do not tell, are refused', e.where)
    ms = [a for a in I.conts if any(
        mentions(t, fn) for e in I.conts[a].entries
        for g, t in flat(I, e.val))]
    if len(ms) != 1:
        C.unk('signature', 'arguments', 'not found', w)
        return
    for e in I.conts[ms[0]].entries:
        if len(e.loops) != 1:
            C.unk('signature', 'arguments', 'how they are found', w)
            return
        for g, t in flat(I, e.val, e.guard):
            if t[0] != 'attr' or t[2] != 'name':
                C.unk('signature', 'arguments', 'not their names', w)
                return
            arg = t[1]
            kinds = {x[2][2] for x in atoms_about(b, g, A(arg, 'kind'))
                     if x[2][0] == 'attr'}
            req = [x for x in atoms_about(b, g, A(arg, 'default'))]
            C.check(len(req) == 1 or None, 'signature', 'required',
                    'no look at the default', w)
            for x in req:
                C.never(I, b.and_(g, b.not_(b.atom(x))), 'signature',
                        'required', 'an argument with a default counts', w)
            for x in atoms_about(b, g, A(arg, 'kind')):
                if x[2][0] == 'attr' and x[2][2] in (
                        'VAR_POSITIONAL', 'VAR_KEYWORD', 'KEYWORD_ONLY'):
                    C.never(I, b.and_(g, b.atom(x)), 'signature', 'kinds',
                            '%s arguments count' % x[2][2], w)
    return


def atoms_about(b, g, t):
    return [x for x in b.support_atoms(g) if len(x) > 2 and x[0] in (
        'is', 'eq', 'in') and x[1] == t or len(x) > 2 and x[0] in
        ('is', 'eq') and x[2] == t]


# -- types made of others --------------------------------------------------
def made_types(C):
    f = C.m.need_func('normalize.property.make_property_type')
    w = where(f)
    I = C.run(f)
    b, L = I.b, I.L
    opts = P('**' + f.node.args.kwarg.arg) if f.node.args.kwarg else None
    calls = [e for e in evs(I, 'call', 'construct')
             if e.d.get('callee') == ('builtin', 'type') and len(e.args) == 3]
    if not calls or opts is None:
        C.unk('made', 'type', 'not made of its name, bases and attributes', w)
        return
    res = {e.result for e in calls}
    C.check(all(t in res for g, t in flat(I, I.rv, exits(I))) or None,
            'made', 'type', 'not what is returned', w)
    base = P('base_type')
    seen = set()
    for e in calls:
        for g, t in flat(I, e.args[0], e.guard):
            C.check(t == P('name') or (None if local(t) else False), 'made',
                    'name', 'the name is not the one given', w)
        for g, t in flat(I, e.args[1], e.guard):
            if t == base:
                C.never(I, b.and_(g, b.not_(L.isinst(
                    base, ('builtin', 'tuple')))), 'made', 'bases',
                    'a type is given for the bases', w)
            elif t == ('tuple', base):
                C.never(I, b.and_(g, L.isinst(base, ('builtin', 'tuple'))),
                        'made', 'bases', 'a tuple is one of the bases', w)
            else:
                C.check(None if local(t) or t[0] == 'call' else False,
                        'made', 'bases', 'not the bases given', w)
        for g, t in flat(I, e.args[2], e.guard):
            attributes(C, I, g, t, opts, w, seen)


def attributes(C, I, g, t, opts, w, seen):
    b, L = I.b, I.L
    own = P('attrs')
    if t != own and t in I.conts:
        C.never(I, b.and_(g, L.truthy(own)), 'made', 'attrs', 'the '
                'attributes given are dropped', w) if not any(
            e.star for e in I.conts[t].entries) else None
    sets = {}
    for e in evs(I, 'setitem'):
        if e.target == t and e.key[0] == 'const':
            sets.setdefault(e.key[2], []).extend(flat(I, e.value, e.guard))
    for e in I.conts[t].entries if t in I.conts else ():
        if e.key and e.key[0] == 'const' and not sets.get(e.key[2]):
            sets[e.key[2]] = flat(I, e.val, e.guard)
    for n in 'default_kwargs', '__init__', '__trait__':
        C.implies(I, g, b.or_(*[h for h, u in sets.get(n, ())]), 'made', n,
                  'the new type has no %s' % n, w)
    for h, u in sets.get('default_kwargs', ()):
        C.check(u == opts or (None if local(u) else False), 'made',
                'default_kwargs', 'not the options given', w)
    name = P('trait_name')
    for h, u in sets.get('__trait__', ()):
        h = b.and_(h, g)
        if u == name:
            C.never(I, b.and_(h, b.not_(L.truthy(name))), 'made', 'trait',
                    'a type without a trait', w)
            continue
        C.never(I, b.and_(h, L.truthy(name)), 'made', 'trait', 'the name '
                'given for the trait is not used', w)
        # a name made up is never used twice
        vs = {s for s in subterms(u) if s[0] == 'modvar'}
        ch = [e for e in evs(I, 'globalstore')
              if any(e.name == v[2] and any(
                  x[0] == 'bin' and v in x for k, x in flat(I, e.value))
                  for v in vs)]
        if not vs and u[0] != 'const':
            C.unk('made', 'trait', 'how a name is made up', w)
            continue
        for e in ch:
            for k, x in flat(I, e.value, e.guard):
                C.check(const(0) not in x, 'made', 'trait', 'the name made '
                        'up for a trait never changes', e.where)
        C.implies(I, h, b.or_(*[e.guard for e in ch]), 'made', 'trait',
                  'the name made up for a trait is used twice', w)
    for h, u in sets.get('__init__', ()):
        if u[0] != 'closure':
            C.unk('made', 'options', 'what the constructor does', w)
            continue
        if u not in seen:
            seen.add(u)
            constructor(C, I, u, opts, w)


def constructor(C, I, fn, opts, w):
    b, L = I.b, I.L
    n = len(I.events)
    mine = P('**given')
    I.apply(fn, [SELF], TRUE, [], [mine])
    es = [e for e in I.events[n:]]
    sup = [e for e in es if e.kind == 'call' and '__init__' in str(
        e.callee) and e.starkw]
    if not sup:
        C.unk('made', 'options', 'no constructor is called', w)
        return
    each = ('elem', opts)
    for e in sup:
        over = [t for s in e.starkw for g, t in flat(I, s)]
        for t in over:
            if t == mine:
                break
            if t in I.conts and given_last(I, t, opts, mine) is not None:
                C.check(given_last(I, t, opts, mine), 'made', 'options',
                        'the options given do not replace those of the type',
                        e.where)
                return
        else:
            C.check(None if any(local(t) for t in over) else False, 'made',
                    'options', 'the options given are dropped', e.where)
            return
    sets = [e for e in es if e.kind == 'setitem' and e.target == mine]
    ok = [e for e in sets if e.key == each and
          [t for g, t in flat(I, e.value)] == [('item', opts, each)]]
    if any(e.kind == 'mut' and e.target == mine for e in es):
        C.unk('made', 'options', 'put together otherwise', w)
        return
    has = L.in_(each, mine)
    C.implies(I, b.not_(has), b.or_(*[e.guard for e in ok]), 'made',
              'options', 'an option of the type is dropped', w)
    for e in sets:
        C.never(I, b.and_(e.guard, L.in_(e.key, mine)), 'made', 'options',
                'an option which is given is replaced', e.where)


def given_last(I, t, opts, mine):
    """a new mapping of both -> the options given come last"""
    ks = [u for x in I.conts[t].entries if x.star
          for g, u in flat(I, x.val)]
    if opts in ks and mine in ks:
        return ks.index(opts) < ks.index(mine)


RULES = {'C32': c32}
