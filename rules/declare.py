"""C31 the behaviour of a property is determined by how it is declared: the
traits select its type, and the order in which types are mixed is of no
consequence"""
from .base import *
from .slots import prop_classes, PROP, is_dict_of, OBJ

META = 'normalize.property.meta.'
LOCAL = ('new', 'set', 'list', 'dict')


KW = P('kwargs')
TYPES = ('modvar', META[:-1], 'PROPERTY_TYPES')
DUCK = ('modvar', META[:-1], 'DUCKWARGS')
CREATE = META + 'create_property_type_from_traits'


def c31(C):
    mixes(C)
    selects(C)
    implied(C)
    registers(C)
    composed(C)


def kw(n):
    return ('item', KW, const(n))


# -- selection -------------------------------------------------------------
class Members(object):
    """which constants are in a collection at the end, given what it is made
    of and what is added and taken out"""

    def __init__(self, I, given=()):
        self.I, self.b, self.L = I, I.b, I.L
        self.memo, self.given = {}, given
        self.lost = set()

    def end(self, t, x, own=True, seen=()):
        """x is in t when the call ends; own=False: before the steps which
        depend on an earlier answer to this question"""
        I, b = self.I, self.b
        if t[0] == 'phi':
            return b.or_(*[b.and_(self.norm(g), self.end(u, x, own, seen))
                           for g, u in t[1]])
        if t[0] == 'tuple':
            return TRUE if x in t[1:] else FALSE
        if t not in I.conts:
            return self.L.in_(x, t)
        if t in seen:
            self.lost.add(t)
            return FALSE
        me = ('in', x, t)
        out = FALSE
        gone = [e for e in evs(I, 'mut') if e.target == t]
        for e in I.conts[t].entries:
            if not own and me in b.support_atoms(e.guard):
                continue
            g = self.norm(e.guard)
            for h, u in flat(I, e.val):
                h = b.and_(g, self.norm(h))
                if e.star:
                    h = b.and_(h, self.end(u, x, own, seen + (t,)))
                elif u[0] == 'const':
                    h = h if u == x else FALSE
                else:
                    self.lost.add(u)
                    h = FALSE
                out = b.or_(out, h)
        for e in gone:
            if e.name in ('add', 'update', 'append', 'extend', 'sort'):
                continue
            if e.name in ('remove', 'discard'):
                for h, u in flat(I, e.args[0], e.guard):
                    if u == x and (own or me not in b.support_atoms(h)):
                        out = b.and_(out, b.not_(self.norm(h)))
                    elif u[0] != 'const':
                        self.lost.add(u)
            else:
                self.lost.add(t)
        return out

    def norm(self, g):
        return subst(self.I, g, self.known)

    def known(self, a):
        if a in self.given:
            return TRUE
        if a[0] != 'in' or a[1][0] != 'const' or a[2] not in self.I.conts:
            return None
        if a not in self.memo:
            self.memo[a] = None
            self.memo[a] = self.end(a[2], a[1], False)
        return self.memo[a]


def selects(C):
    f = C.m.need_func(META + 'has')
    w = where(f)
    each = ('elem', KW)

    def live(I):
        """nothing is given by position, and every option is known"""
        k = I.L.in_(each, A(SELF, 'all_duckwargs'))
        return I.b.and_(k, I.b.not_(I.quant((KW,), I.b.not_(k))),
                        I.b.not_(I.L.truthy(P('args'))))
    I = C.run(f, boundary=[CREATE], live=live)
    b, L = I.b, I.L
    M = Members(I, [('in', each, A(SELF, 'all_duckwargs'))])
    ret = [(g, key_of(t), t) for g, t in flat(I, I.rv, exits(I))]
    done = b.or_(*[M.norm(g) for g, k, t in ret])
    if not ret or any(k is None for g, k, t in ret):
        C.unk('selects', 'type', 'no entry of PROPERTY_TYPES is returned', w)
        return

    def F(x):
        return b.or_(*[b.and_(M.norm(g), M.end(k, const(x)))
                       for g, k, t in ret])

    def T(x):
        x = const(x)
        return b.or_(L.in_(x, A(SELF, 'traits')), b.and_(
            L.in_(const('traits'), KW), L.in_(x, kw('traits'))))
    d = kw('default')
    none = b.and_(L.in_(const('default'), KW), b.not_(L.truthy(d)),
                  L.truthy(A(d, '__hash__')), b.not_(b.atom(('callable', d))))
    v1 = b.and_(none, b.not_(T('v1')))
    sur = b.or_(L.truthy(A(SELF, '__safe_unless_ro__')),
                *[L.in_(const(x), KW) for x in ('required', 'isa', 'check')])
    opt = b.and_(T('unsafe'), b.not_(T('safe')))

    def no(x, y):
        return b.and_(x, b.not_(y))

    def same(x, want, con, msg):
        got = F(x)
        if M.lost:
            C.unk('selects', con, 'traits of unknown origin', w)
            return
        C.never(I, b.and_(done, b.or_(no(got, want), no(want, got))),
                'selects', con, msg, w)
    same('safe', b.or_(T('safe'), v1, b.and_(
        sur, b.not_(opt), b.not_(T('ro')))), 'safe', 'a property is safe if '
        'and only if it is asked for, or there is something to check and it '
        'is neither read-only nor unsafe, or it has a legacy none')
    same('v1', b.or_(T('v1'), v1), 'v1', 'a property has a legacy none if '
         'and only if it is asked for or its default is an empty constant')
    same('unsafe', no(T('unsafe'), opt), 'unsafe', '"unsafe" selects no type')
    for x in ('ro', 'lazy', 'a trait'):
        same(x, T(x), x, 'the traits asked for are not those selected')


def implied(C):
    f = C.m.need_func(META + 'has')
    w = where(f)
    I = C.run(f, boundary=[CREATE])
    b, L = I.b, I.L
    each = ('elem', KW)
    cands = ('item', DUCK, each)
    cand = ('elem', cands)
    known = L.in_(each, A(SELF, 'all_duckwargs'))
    fits = L.isinst(('item', cand, const(1)), ('typeof', SELF))
    done = exits(I)
    ret = [(g, key_of(t), t) for g, t in flat(I, I.rv, done)]
    C.never(I, b.and_(done, L.truthy(P('args'))), 'refuses', 'positional',
            'options given by position', w)
    none = I.quant((KW,), b.and_(b.not_(known), b.not_(
        I.quant((cands,), fits))))
    C.never(I, b.and_(done, none), 'refuses', 'unknown', 'an option which no '
            'type of property knows', w)
    # the traits which are added, and where they come from
    boxes = {}
    for c, k in I.conts.items():
        ts = [(g, t) for e in k.entries for g, t in flat(I, e.val, e.guard)]
        if k.entries and k.kind != 'gen' and \
                all(cands in e.loops for e in k.entries) and \
                all(t == ('item', cand, const(0)) for g, t in ts):
            boxes[c] = b.or_(*[g for g, t in ts])
    used, adds = set(), 0
    for e in evs(I, 'mut'):
        if e.name not in ('update', 'add') or e.target in boxes or \
                KW not in e.loops:
            continue
        for g, t in [x for a in e.args for x in flat(I, a, e.guard)]:
            cs = [c for c in boxes if from_box(I, t, c)]
            used |= set(cs)
            adds += len(cs)
            if cs:
                C.never(I, b.and_(g, known), 'implied', 'needed', 'traits '
                        'are added for an option which is known', w)
                C.check(e.name == 'update', 'implied', 'traits', 'the traits '
                        'are not each added', w)
            for c in cs:
                C.never(I, b.and_(g, several(L, c)), 'refuses', 'ambiguous',
                        'an option which several types know', w)
    C.check(bool(adds) or None, 'implied', 'added', 'no traits are added', w)
    for c in sorted(used):
        C.never(I, b.and_(boxes[c], b.not_(fits)), 'implied', 'fits',
                'a type which is no kind of the declared one', w)
        C.implies(I, b.and_(b.not_(known), fits, done), boxes[c], 'implied',
                  'all', 'a type which knows the option is not considered',
                  w)
    # a type which checks what is assigned
    M = Members(I)
    keys = [(M.norm(g), k) for g, k, t in ret if k is not None]
    safe = I.quant((KW,), b.and_(b.not_(known), I.quant((cands,), b.and_(
        fits, L.truthy(A(('item', cand, const(1)), '__safe_unless_ro__'))))))
    got = {x: b.or_(*[b.and_(g, M.end(k, const(x))) for g, k in keys])
           for x in ('ro', 'safe')}
    opt = b.or_(*[M.norm(e.guard) for e in evs(I, 'mut')
                  if e.name in ('remove', 'discard')])
    if M.lost:
        C.unk('implied', 'safe', 'traits of unknown origin', w)
    else:
        C.implies(I, b.and_(b.or_(*[g for g, k in keys]), safe, b.not_(
            got['ro']), b.not_(opt)), got['safe'], 'implied', 'safe',
            'what is assigned to a property of a type which has to check it '
            'is not', w)
    # the type
    for g, k, t in ret:
        if k is None:
            C.unk('selects', 'type', 'no entry of PROPERTY_TYPES', w)
            continue
        C.never(I, b.and_(g, b.not_(L.isinst(('item', TYPES, k), (
            'typeof', SELF)))), 'refuses', 'mismatch', 'a type which is no '
            'kind of the declared one', w)
        made = [e for e in evs(I, 'call') if e.callee == ('func', CREATE) and
                [u for h, u in flat(I, e.args[0])] == [k]]
        C.implies(I, b.and_(g, b.not_(L.in_(k, TYPES))), b.or_(
            *[e.guard for e in made]), 'selects', 'made', 'a type which does '
            'not exist is not made', w)
        C.check(ordered(I, k), 'selects', 'order', 'the traits are not in '
                'the order of the table', w)


# -- the table of types ----------------------------------------------------
def parts(I, t, g=TRUE, loops=(), star=True, seen=()):
    """[(guard, loops, star, term)] what a collection is put together from"""
    if t not in I.conts or not star or t in seen:
        return [(g, loops, star, t)]
    out = []
    for e in I.conts[t].entries:
        for h, u in flat(I, e.val, I.b.and_(g, e.guard)):
            out += parts(I, u, h, e.loops or loops, e.star, seen + (t,))
    return out


def registers(C):
    f = C.m.need_func(META + 'MetaProperty.__new__')
    w = where(f)
    I = C.run(f, boundary=[META + 'has'])
    b, L = I.b, I.L
    names = [a.arg for a in f.node.args.args]
    bases, attrs = P(names[2]), P(names[3])
    base = ('elem', bases)
    done = exits(I)
    ret = [t for g, t in flat(I, I.rv, done)]
    new = [e for e in evs(I, 'call') if e.result in ret]
    C.check(bool(new) or None, 'registers', 'type', 'the new type is not '
            'what is returned', w)
    if not new:
        return
    at = lambda n: [e for e in evs(I, 'setitem') if e.target == attrs and
                    e.key == const(n)]
    held = {}
    for n in ('traits', 'all_duckwargs', '__new__'):
        g = b.or_(*[e.guard for e in at(n) if e.seq <= min(
            x.seq for x in new)])
        C.implies(I, done, g, 'registers', n, 'the type is made without', w)
        held[n] = [t for e in at(n) for h, t in flat(I, e.value)]
    # the key
    for key in held['traits']:
        C.never(I, b.and_(done, L.in_(key, TYPES)), 'registers', 'clash',
                'a type replaces another one with the same traits', w)
        stores = [e for e in evs(I, 'setitem') if e.target == TYPES]
        C.implies(I, done, b.or_(*[e.guard for e in stores]), 'registers',
                  'stored', 'a type cannot be found', w)
        for e in stores:
            for g, t in flat(I, e.value, e.guard):
                C.check(t in ret, 'registers', 'itself', 'another type is '
                        'found for these traits', w)
            C.check(e.key == key or e.key in [A(t, 'traits') for t in ret],
                    'registers', 'key', 'the type is not found by its '
                    'traits', w)
        C.check(ordered(I, key), 'registers', 'order', 'the traits are not '
                'in order', w)
        own = ('item', attrs, const('__trait__'))
        has = b.and_(L.in_(const('__trait__'), attrs), L.truthy(own))
        made_of(C, I, key, 'traits', [
            (own, False, has, ()), (A(base, 'traits'), True, L.hasattr(
                base, const('traits')), (bases,))], w)
    # the options which are known
    init = ('item', attrs, const('__init__'))
    args = [e.result for e in evs(I, 'call') if e.args and
            [t for g, t in flat(I, e.args[0])] == [init]]
    known = [('attr', r, 'args') for r in args]
    for t in held['all_duckwargs']:
        for k in known:
            made_of(C, I, t, 'all_duckwargs', [
                (k, True, b.and_(L.in_(const('__init__'), attrs),
                                 L.truthy(k)), ()),
                (A(base, 'all_duckwargs'), True, L.hasattr(
                    base, const('all_duckwargs')), (bases,))], w)
    adds = [e for e in evs(I, 'mut') if e.target[0] == 'item' and
            e.target[1] == DUCK]
    C.check(bool(adds) or None, 'registers', 'options', 'no options', w)
    for e in adds:
        k = e.target[2]
        C.check(k in [('elem', x) for x in known] or None if opaque(k)
                else k in [('elem', x) for x in known], 'registers',
                'option', 'the options are not those of the initializer', w)
        for g, t in flat(I, e.args[0], e.guard):
            C.check(t[0] == 'tuple' and len(t) == 3 and t[2] in ret and
                    t[1] in held['traits'] + [A(x, 'traits') for x in ret],
                    'registers', 'for', 'an option is said to select other '
                    'traits', w)
    if known and adds:
        tr = ('item', attrs, const('__trait__'))
        all_ = b.and_(done, L.in_(const('__trait__'), attrs), L.truthy(tr),
                      L.in_(const('__init__'), attrs), L.truthy(known[0]))
        got = b.or_(*[e.guard for e in adds])
        C.implies(I, all_, got, 'registers', 'options', 'an option selects '
                  'nothing', w)
        C.never(I, b.and_(got, b.not_(L.truthy(tr))), 'registers', 'no trait',
                'a type without a trait is selected', w)


    for t in held['__new__']:
        hook(C, I, t, ret, ('item', attrs, const('default_kwargs')), w)


def hook(C, I, fn, ret, own, w):
    """calling a type asks has() which type to make, with the options which
    the type supplies unless they are given"""
    if fn[0] != 'closure':
        C.unk('registers', 'hook', 'what a type is called with', w)
        return
    n = len(I.events)
    out = I.apply(fn, [P('a type')], TRUE, [P('*given')], [P('**given')])
    es = I.events[n:]
    calls = [e for e in es if e.kind == 'call' and
             e.callee == ('func', META + 'has')]
    C.check([t for g, t in flat(I, out)] == [e.result for e in calls] or
            None, 'registers', 'hook', 'a type is not selected', w)
    for e in calls:
        if len(e.args) != 4 or e.kws:
            C.unk('registers', 'hook', 'called otherwise', w)
            continue
        a = [[t for g, t in flat(I, x)] for x in e.args]
        C.check(a[1] == [P('a type')], 'registers', 'hook', 'the type is not '
                'the one called', w)
        C.check(a[2] == [P('*given')], 'registers', 'positional', 'positional'
                ' options are dropped', w)
        for d in a[3]:
            if d not in I.conts:
                C.unk('registers', 'defaults', 'not a new mapping', w)
                continue
            ks = [t for x in I.conts[d].entries if x.star
                  for g, t in flat(I, x.val)]
            mine = [i for i, t in enumerate(ks) if own in cell(I, t)]
            C.check(P('**given') in ks and bool(mine) and
                    max(mine) < ks.index(P('**given')) or (
                        None if any(opaque(t) for t in ks) else False),
                    'registers', 'defaults', 'the options given do not '
                    'replace those of the type', w)
        for t in a[0]:
            st = [u for x in evs(I, 'setitem') if t[0] == 'item' and
                  (x.target, x.key) == (t[1], t[2])
                  for g, u in flat(I, x.value)]
            C.check(t in ret or set(st) <= set(ret) and bool(st) or
                    (None if not st else False), 'registers', 'cell',
                    'the type which is called is not the new one', w)


def cell(I, t):
    """what may be in a place of a list display"""
    if t[0] == 'item' and t[1] in I.conts and t[2][0] == 'const':
        es = [x for x in I.conts[t[1]].entries if x.key is None]
        if isinstance(t[2][2], int) and t[2][2] < len(es):
            return [u for g, u in flat(I, es[t[2][2]].val)]
    return [t]


def made_of(C, I, t, con, want, w):
    """t is put together from all of `want`, and nothing else"""
    b = I.b
    ps = parts(I, t)
    for g, loops, star, u in ps:
        ok = any(u == x and star == s for x, s, h, ls in want)
        if u[0] in ('tuple',) and len(u) == 1:
            continue
        C.check(ok or (None if opaque(u) or u[0] in ('new', 'bin') else
                       False), 'registers', con, 'contains %s' %
                I.L.show(u), w)
    for x, s, h, ls in want:
        g = b.or_(*[g for g, loops, star, u in ps if u == x and star == s])
        if g == FALSE and any(u[0] in ('new', 'bin', 'call') or opaque(u)
                              for g2, l2, s2, u in ps):
            C.unk('registers', con, 'put together in another way', w)
            continue
        C.implies(I, b.and_(exits(I), h), g, 'registers', con,
                  '%s missing' % I.L.show(x), w)


def composed(C):
    f = C.m.need_func(CREATE)
    w = where(f)
    I = C.run(f)
    b, L = I.b, I.L
    want = P(f.node.args.args[0].arg)
    # what cannot be made is refused
    none = [e for e in raises(I) if exc_name(e) ==
            'PropertyTypeMixinNotPossible']
    gs = set()
    for e in none:
        for a in b.support_atoms(e.guard):
            if a[0] == 'truthy' and a[1][0] == 'bin' and a[1][1] == 'Sub' \
                    and any(u == want for g, l, s, u in parts(I, a[1][2])):
                gs.add(a)
    C.check(bool(gs) or None, 'composed', 'refused', 'traits of no type', w)
    for a in gs:
        C.never(I, b.and_(exits(I), b.atom(a)), 'composed', 'refused', 'a '
                'trait which no type has is dropped', w)
    # the types mixed are types of the table
    for e in evs(I, 'call', 'construct'):
        if e.d.get('callee') != ('builtin', 'type') or len(e.args) != 3:
            continue
        for g, t in flat(I, e.args[1], e.guard):
            C.check(t[0] == 'tuple' and len(t) == 3 or (
                None if t[0] in ('new', 'call') else False), 'composed',
                'two', 'not two types are mixed', w)
            for x in t[1:] if t[0] == 'tuple' else ():
                C.check(x[0] == 'item' and x[1] == TYPES or (
                    None if opaque(x) or x[0] in ('elem', 'call') else
                    False), 'composed', 'table', 'what is mixed is no type '
                    'of the table', w)
    # a candidate is not used once the search for it is over
    seen = 0
    for q in sorted(I.visited):
        g = C.m.funcs.get(q)
        if g is None or isinstance(g.node, ast.Lambda):
            continue
        for loop in ast.walk(g.node):
            if not isinstance(loop, ast.For) or loop.orelse:
                continue
            seen += 1
            for n, line in stale(g.node, loop):
                C.bad('composed', 'stale %s in %s' % (n, short(q)),
                      'the last candidate looked at is used after the search '
                      'for one', '%s:%d in %s' % (g.module.rel, line, q))
    for x in range(seen):
        C.ok('composed', 'search', w)


def stale(fn, loop):
    names = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
    pos, end = {}, [0]

    def number(x, n):
        for c in ast.iter_child_nodes(x):
            if isinstance(c, (ast.stmt, ast.ExceptHandler)):
                end[0] += 1
                pos[id(c)] = end[0]
                number(c, end[0])
            else:
                pos[id(c)] = n
                number(c, n)
        if x is loop:
            end.append(end[0])
    number(fn, 0)
    after = end[1]
    bound = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and
             n.id in names and isinstance(n.ctx, ast.Store) and
             pos[id(n)] > after]
    comps = [c for c in ast.walk(fn) if isinstance(c, (
        ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp,
        ast.Lambda))]
    inner = {id(n) for c in comps for n in ast.walk(c)}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in names and \
                isinstance(n.ctx, ast.Load) and pos[id(n)] > after and \
                id(n) not in inner and \
                not any(s.id == n.id and pos[id(s)] <= pos[id(n)]
                        for s in bound):
            yield n.id, n.lineno


def ordered(I, k):
    """k is made by sorting (None: unknown)"""
    todo, seen = [k], set()
    while todo:
        t = todo.pop()
        if t in seen or t not in I.conts:
            continue
        seen.add(t)
        if any(e.target == t and e.name == 'sort' for e in evs(I, 'mut')):
            return True
        for e in I.conts[t].entries:
            if e.star:
                todo += [u for h, u in flat(I, e.val)]
    for e in evs(I, 'sorted'):
        if e.arg in seen and not e.kws:
            return True
    return None if opaque(k) or k not in I.conts else False


def several(L, c):
    """there is more than one in c"""
    n, b = ('len', c), L.b
    return b.and_(L.lt(const(1), n), L.lt(const(0), n), L.truthy(c),
                  b.not_(L.lt(n, const(2))), b.not_(L.lt(n, const(1))),
                  b.not_(L.eq(n, const(0))), b.not_(L.eq(n, const(1))))


def from_box(I, t, c):
    """t is a member of the collection c"""
    seen = set()
    while t not in seen:
        seen.add(t)
        if t == c:
            return True
        if t[0] in ('item', 'elem', 'next', 'iter'):
            t = t[1]
        elif t[0] == 'call' and t[1][0] == 'attr':
            t = t[1][1]
        elif t in I.conts:
            us = [u for e in I.conts[t].entries for h, u in flat(I, e.val)]
            if len(us) == 1:
                t = us[0]
    return False


def key_of(t):
    """the key K of a call with PROPERTY_TYPES[K], else None"""
    if t[0] != 'call' or not t[2]:
        return None
    x = t[2][0]
    if x[0] == 'item' and x[1] == TYPES:
        return x[2]
    if x[0] == 'call' and x[1] == ('attr', TYPES, 'get') and x[2]:
        return x[2][0]
    return None


# -- composition -----------------------------------------------------------
def mro_of(a, b):
    """the order of resolution of `class X(a, b)`, or None"""
    seqs = [list(a.mro), list(b.mro), [a, b]]
    out = []
    while any(seqs):
        for s in seqs:
            if s and not any(s[0] in t[1:] for t in seqs):
                h = s[0]
                break
        else:
            return None
        out.append(h)
        seqs = [[x for x in t if x != h] for t in seqs]
    return out


def found(mro, name):
    for c in mro:
        if isinstance(c, Class) and name in c.attrs:
            return c
    return None


def traits_of(c):
    out = set()
    for k in c.mro:
        v = k.attrs.get('__trait__') if isinstance(k, Class) else None
        if isinstance(v, ast.Constant) and isinstance(v.value, str):
            out.add(v.value)
    return out


def pairs(C):
    """the pairs of property types which can be mixed both ways, with the
    methods for which the order decides whose definition is found first"""
    cs = prop_classes(C)
    base = C.m.need_class(PROP)
    for i, a in enumerate(cs):
        for b in cs[i + 1:]:
            if a.issub(b) or b.issub(a):
                continue
            ab, ba = mro_of(a, b), mro_of(b, a)
            if not ab or not ba:
                continue
            names = []
            for n in sorted({k for c in ab if isinstance(c, Class)
                             for k in c.attrs}):
                x, y = found(ab, n), found(ba, n)
                if x is y or n == '__init__' or \
                        not isinstance(x.attrs[n], Func) or \
                        not isinstance(y.attrs[n], Func):
                    continue
                names.append(n)
            if names:
                yield a, b, names


def mixes(C):
    todo = list(pairs(C))
    src, where_ = [], {}
    for i, (a, b, names) in enumerate(todo):
        for n, (x, y) in enumerate(((a, b), (b, a))):
            for c in (x, y):
                src.append('from %s import %s as %s' % (
                    c.module.name, c.name, c.qual.replace('.', '_')))
            src.append('class Mix%d_%d(%s, %s):\n    traits = %r' % (
                i, n, x.qual.replace('.', '_'), y.qual.replace('.', '_'),
                tuple(sorted(traits_of(x) | traits_of(y)))))
    m = Model(C.m.repo, extra={'mixes': '\n'.join(src) + '\n'})
    D = Check(m, C.pid, C.tier)
    seen = set()
    for i, (a, b, names) in enumerate(todo):
        for n in names:
            k = [m.classes['mixes.Mix%d_%d' % (i, x)] for x in (0, 1)]
            key = tuple(tuple(c.qual for c in x.mro[1:] if isinstance(
                c, Class) and n in c.attrs) for x in k)
            key = frozenset(key), tuple(sorted(traits_of(a) | traits_of(b)))
            if key in seen:
                continue
            seen.add(key)
            same(C, D, k, n, a, b)
    C.functions |= D.functions
    C.entries += D.entries
    C.unsupported |= D.unsupported


def same(C, D, k, name, a, b):
    con = '%s of %s and %s' % (name, a.name, b.name)
    f = [c.lookup(name)[1] for c in k]
    names = [PROP + '.fullname']
    I = D.run(f[0], boundary=names, selfcls=k[0].qual)
    J = D.run(f[1], boundary=names, selfcls=k[1].qual, like=I)
    tr = tuple(sorted(traits_of(a) | traits_of(b)))
    x, y = outcome(I, tr), outcome(J, tr)
    for key in sorted(set(x) | set(y), key=repr):
        g, h = x.get(key, FALSE), y.get(key, FALSE)
        d = I.b.or_(I.b.and_(g, I.b.not_(h)), I.b.and_(h, I.b.not_(g)))
        what = ' '.join([key[0]] + [t if isinstance(t, str) else
                                    I.L.show(t) for t in key[1:]])
        if local(key):
            if I.L.implies(TRUE, I.b.not_(d)):
                C.ok('mixed', con, where(f[0]))
            else:
                C.unk('mixed', con, 'a new object', where(f[0]))
            continue
        C.never(I, d, 'mixed', con, 'the order in which the types are mixed '
                'decides if %s%s' % (
                    what, '' if f[0] is f[1] else ' (%s or %s)' % (
                        short(f[0].qual), short(f[1].qual))), where(f[0]))


def local(t):
    if not isinstance(t, tuple) or not t:
        return False
    return t[0] in LOCAL or opaque(t) or any(local(x) for x in t[1:])


def outcome(I, traits):
    """what a call does: its results, its errors, what it writes"""
    b = I.b
    out = {}

    def known(a):
        if a[0] == 'in' and a[2][0] == 'attr' and a[2][2] == 'traits' and \
                a[1][0] == 'const' and \
                a[2][1] in (SELF, ('typeof', SELF)):
            return TRUE if a[1][2] in traits else FALSE

    def add(g, *key):
        g = subst(I, g, known)
        if g != FALSE:
            out[key] = b.or_(out.get(key, FALSE), g)
    for g, t in flat(I, I.rv, exits(I)):
        add(g, 'returns', t)
    for e in raises(I):
        add(e.guard, 'raises', exc_name(e) or str(e.sym))
    for e in evs(I, 'setitem', 'store'):
        for g, t in flat(I, e.value, e.guard):
            add(g, 'sets', e.target, e.d.get('key') or const(e.attr), t)
    for e in evs(I, 'delitem', 'delattr'):
        add(e.guard, 'deletes', e.target, e.d.get('key') or e.attr)
    for e in evs(I, 'mut'):
        add(e.guard, 'changes', e.target, e.name, tuple(
            tuple(t for g, t in flat(I, a)) for a in e.args))
    return out


RULES = {'C31': c31}
