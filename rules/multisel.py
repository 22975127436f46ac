"""C25 a MultiFieldSelector is the set of its selectors"""
from .base import *
from .selectors import FS, frun, made

MS = 'normalize.selector.MultiFieldSelector'
H = A(SELF, 'heads')
ALLT = ('builtin', 'all')
HN = ('item', H, NONE)
HE = ('elem', H)
HI = ('item', H, HE)
OBJ = P('obj')
INDEX = P('index')
TYPES = {('elem', SELF): FS, HN: MS, HI: MS}
OPEN = [FS + '.*'] + [MS + '.' + x for x in (
    'complete_mfs', '__iter__', '__init__', 'get', 'delete', '__getitem__',
    'patch', 'from_path')]


def mrun(C, name, **kw):
    f = C.m.need_func(MS + '.' + name)
    kw.setdefault('types', TYPES)
    return f, C.run(f, boundary=OPEN, selfcls=MS, **kw)


def c25(C):
    build(C)
    flags(C)
    iterate(C)
    getitem(C)
    contains(C)
    complete(C)
    get_list(C)
    get_dict(C)
    get_record(C)
    delete(C)
    patch(C)
    readonly(C)


def only(C, I, cases, rule, con, f, V=None, guard=TRUE):
    """in each case the result is one of the terms expected there"""
    b, L = I.b, I.L
    for name, g0, want in cases:
        n = 0
        for g, t in flat(I, I.rv if V is None else V, exits(I)
                         if V is None else guard):
            gg = b.and_(g, g0)
            if not L.sat(gg):
                continue
            n += 1
            r = want(t) if callable(want) else t in want
            if r is not True and (opaque(t) or opaque_guard(I, gg)):
                r = None
            C.check(r, rule, con + ':' + name, 'another result', where(f),
                    '%s when %s' % (L.show(t)[:80], L.showg(gg)[:200]))
        if not n:
            C.unk(rule, con + ':' + name, 'no result')


# ---- construction

def ctor_of(t):
    """argument of a constructed FieldSelector"""
    if t[0] in ('call',) and len(t[2]) == 1 and not t[3] and (
            t[1] in (('class', FS), ('attr', ('typeof', SELF),
                                     'FieldSelector'),
                     ('attr', SELF, 'FieldSelector'))):
        return t[2][0]
    if t[0] == 'newof':
        return ctor_of(t[3])
    return None


def build(C):
    f, I = mrun(C, '__init__', types={})
    b, L = I.b, I.L
    w = where(f)
    others = ('param', '*others')
    el = ('elem', others)
    # the table the heads are collected in
    tab = None
    fin = [e for e in evs(I, 'store') if e.target == SELF and
           e.attr == 'heads']
    entries = []
    for e in fin:
        for g, t in flat(I, e.value, e.guard):
            if t not in I.conts:
                C.unk('heads', 'table', 'built in an unknown way', e.where)
                return
            for en in I.conts[t].entries:
                entries.append((b.and_(g, en.guard), en))
    for g, en in entries:
        if len(en.loops) == 1 and en.key is not None:
            tab = en.loops[0]
    if tab is None:
        C.unk('heads', 'table', 'built in an unknown way', w)
        return
    cell = ('item', tab, ('elem', tab))
    for g, en in entries:
        if en.star or len(en.loops) > 1:
            C.unk('heads', 'table', 'not decided', w)
            continue
        ks = [t for gg, t in flat(I, en.key)] if en.key and isinstance(
            en.key[0], tuple) else [en.key]
        if not en.loops:
            # a table with a single complete entry
            only_all = ks == [NONE] and all(
                t == ALLT for gg, t in flat(I, en.val))
            C.check(only_all or None, 'heads', 'single', 'not decided', w)
            C.implies(I, g, b.or_(
                L.is_(('item', tab, NONE), ALLT),
                L.in_(ALLT, ('item', tab, NONE))), 'heads', 'single',
                'selectors are lost', w)
            continue
        C.check(ks == [('elem', tab)] or (
            None if any(opaque(k) for k in ks) else False), 'heads', 'key',
            'not the first element of the selectors', w)
        for gg, t in flat(I, en.val, g):
            has = L.in_(ALLT, cell)
            if t == ALLT:
                C.implies(I, gg, has, 'heads', 'all', 'a part is taken for '
                          'the whole', w)
            elif t[0] == 'new' and t[2] == MS or t[0] == 'newof':
                C.never(I, b.and_(gg, has), 'heads', 'part', 'the whole is '
                        'taken for a part', w)
                ev = [e for e in evs(I, 'construct') if e.result == t]
                st = [x for e in ev for s in (e.get('star') or ())
                      for g2, x in (flat(I, s) if s and isinstance(
                          s[0], tuple) else [(TRUE, s)])]
                C.check(st == [cell] or (
                    None if not st or any(opaque(x) for x in st) else
                    False), 'heads', 'tails', 'not all the tails', w,
                    str([L.show(x) for x in st])[:80])
            else:
                C.check(None, 'heads', 'value', 'not decided', w)
    # what is put in it
    ismf = L.isinst(el, ('class', MS))
    isfs = L.isinst(el, ('class', FS))
    cover = {}

    def base(p):
        """is it the path of this selector?"""
        if p[0] == 'attr' and p[2] == 'selectors':
            x = p[1]
            if x == el:
                return 'own'
            if ctor_of(x) == el:
                return 'made'
        return None
    bases = set()
    n = 0
    for e in evs(I, 'mut', 'setitem'):
        t = e.target
        if e.kind == 'mut' and t[0] == 'item' and t[1] == tab and \
                e.name in ('add', 'append') and len(e.args) == 1:
            key, V = t[2], e.args[0]
        elif e.kind == 'mut' and t == tab or e.kind == 'setitem' and (
                t == tab or t[0] == 'item' and t[1] == tab) or \
                e.kind == 'mut' and t[0] == 'item' and t[1] == tab:
            C.unk('put', 'table', 'changed in an unknown way', e.where)
            continue
        else:
            continue
        n += 1
        if not e.loops or e.loops[0] != others:
            C.check(None if not e.loops else False if
                    mentions(e.loops[0], others) else None, 'put', 'whole',
                    'not all selectors given', e.where)
            continue
        mf = A(el, 'heads')
        for g, v in flat(I, V, e.guard):
            if len(e.loops) == 2 and e.loops[1] == mf:
                ok = key == ('elem', mf) and v == ('item', mf, key)
                C.check(ok, 'put', 'multi', 'not the parts of the selector '
                        'given', e.where, L.show(v)[:80])
                C.implies(I, g, ismf, 'put', 'multi:kind', 'not decided',
                          e.where)
                cover['multi'] = b.or_(cover.get('multi', FALSE), g)
                continue
            if len(e.loops) != 1:
                C.unk('put', 'loops', 'not decided', e.where)
                continue
            # key
            p = None
            if key[0] == 'item' and key[2] == const(0) and base(key[1]):
                p = key[1]
            elif key != NONE:
                C.check(None if opaque(key) or not mentions(key, el)
                        else False, 'put', 'key', 'not the first '
                        'element', e.where, L.show(key)[:80])
                continue
            if p is None:
                if v != ALLT:
                    C.check(None if opaque(v) else False, 'put', 'empty',
                            'the empty selector is not the whole', e.where)
                kinds = [x for x in subguard(I, g, base)]
                if not kinds:
                    C.unk('put', 'empty:when', 'not decided', e.where)
                for q in kinds:
                    C.never(I, b.and_(g, L.truthy(q), isfs if base(
                        q) == 'own' else b.not_(isfs)), 'put', 'empty:when',
                            'a selector is taken for the whole', e.where)
                    k = ('empty', base(q))
                    cover[k] = b.or_(cover.get(k, FALSE), g)
                continue
            bases.add(p)
            one = b.not_(L.lt(const(1), ('len', p)))
            k = ('path', base(p))
            cover[k] = b.or_(cover.get(k, FALSE), g)
            if v == ALLT:
                C.implies(I, g, b.or_(one, L.eq(('len', p), const(1)),
                                      b.not_(L.truthy(
                                          ('slice', p, const(1), NONE,
                                           NONE)))),
                          'put', 'tail:all', 'a part is '
                          'taken for the whole', e.where)
            else:
                x = ctor_of(v)
                if x is None and v[0] == 'slice' and v[1][0] != 'attr':
                    x = v
                ok = x == ('slice', p, const(1), NONE, NONE)
                C.check(ok or (None if x is None or opaque(x) else False),
                        'put', 'tail', 'not the rest of the path', e.where,
                        L.show(v)[:80])
                C.never(I, b.and_(g, one, L.eq(('len', p), const(1)), b.not_(
                    L.truthy(('slice', p, const(1), NONE, NONE)))), 'put',
                    'tail:rest', 'the whole is taken for a part', e.where)
    if not n:
        C.unk('put', 'table', 'filled in an unknown way', w)
        return
    C.implies(I, ismf, cover.get('multi', FALSE), 'put', 'cover:multi',
              'a MultiFieldSelector given is ignored', w)
    for kind, g in (('own', b.and_(isfs, b.not_(ismf))),
                    ('made', b.not_(b.or_(isfs, ismf)))):
        got = b.or_(cover.get(('path', kind), FALSE),
                    cover.get(('empty', kind), FALSE))
        if kind == 'own' and got == FALSE:
            got = b.or_(cover.get(('path', 'made'), FALSE),
                        cover.get(('empty', 'made'), FALSE))
        C.implies(I, g, got, 'put', 'cover:' + kind, 'a selector given is '
                  'ignored', w)
    whole_loop(C, I, lambda d: mentions(d, others), 'put', 'end', 'not all '
               'selectors given')


def subguard(I, g, base):
    """paths whose emptiness a guard depends on"""
    out = []
    for a in I.b.support_atoms(g):
        for t in a[1:]:
            if isinstance(t, tuple) and t:
                for x in subterms(t):
                    if x and isinstance(x[0], str) and base(x) and \
                            x not in out:
                        out.append(x)
    return out


def flags(C):
    f, I = mrun(C, '__init__', types={})
    b, L = I.b, I.L
    w = where(f)
    fin = {}
    for e in evs(I, 'store'):
        if e.target == SELF and isinstance(e.attr, str) and not e.loops:
            fin[e.attr] = e
    if 'heads' not in fin:
        C.unk('flags', 'heads', 'not decided', w)
        return
    # the domain the keys come from
    doms = set()
    for g, t in flat(I, fin['heads'].value):
        for en in (I.conts[t].entries if t in I.conts else ()):
            doms |= set(en.loops)
        doms.add(t)
    fresh = [t for g, t in flat(I, fin['heads'].value) if t in I.conts and
             any(e.loops for e in I.conts[t].entries)]
    doms.add(H)

    def kinds(a):
        """what an existence atom says about the keys"""
        if a[0] == 'exists' and a[1] in doms:
            el = ('elem', a[1])
            for nm, T in (('int', ('builtin', 'int')),
                          ('str', ('builtin', 'str')),
                          ('none', NONE)):
                if nm == 'none':
                    fs = [L.isnone(el), L.is_(('typeof', el), (
                        'typeof', NONE)), L.is_(('typeof', el), (
                            'builtin', 'NoneType')), L.eq(el, NONE)]
                else:
                    fs = [L.isinst(el, T), L.is_(('typeof', el), T),
                          L.eq(('typeof', el), T)]
                for x in fs:
                    if a[2] == x:
                        return nm
            return 'other'
        if a[0] == 'in' and a[1] == NONE and a[2] in doms:
            return 'none'
        return None
    gs = []
    want = {'has_int': 'int', 'has_string': 'str', 'has_none': 'none'}
    for attr, kind in want.items():
        if attr not in fin:
            C.unk('flags', attr, 'not a plain attribute', w)
            continue
        e = fin[attr]
        yes = FALSE
        for g, t in flat(I, e.value, e.guard):
            yes = b.or_(yes, b.and_(g, L.truthy(t)))
        live = e.guard
        gs.append(yes)
        ats = b.support_atoms(yes)
        # the symbolic single complete entry
        odd = [a for a in ats if a[0] in ('is', 'in') and kinds(a) is None]
        for a in odd:
            v = list(b.support(b.atom(a)))[0]
            yes = b.restrict(yes, v, False)
        ats = b.support_atoms(yes)
        ks = {a: kinds(a) for a in ats}
        good = [a for a, k in ks.items() if k == kind]
        if not ats or any(k is None for k in ks.values()):
            C.check(None if ats or yes == FALSE and not fin else
                    False if yes in (TRUE, FALSE) else None, 'flags', attr,
                    'not decided', e.where, L.showg(yes)[:120])
            continue
        ok = bool(good)
        # under the guard of the store, the flag is its own atom
        G = FALSE
        for a in good:
            G = b.or_(G, b.atom(a))
        bad = [a for a, k in ks.items() if k not in ('none', kind)]
        res = L.implies(b.and_(yes, live), G) and not bad if good else False
        if res:
            # none may appear as the membership and the existence
            low = b.and_(live, G, b.not_(yes))
            for a in odd:
                v = list(b.support(b.atom(a)))[0]
                low = b.restrict(low, v, False)
            res = kind == 'none' or not L.sat(low)
        C.check(res or (None if opaque_guard(I, yes) else False), 'flags',
                attr, 'does not say which kinds of heads there are',
                e.where, L.showg(yes)[:120])
    rs = [e for e in raises(I) if exc_name(e) == 'ValueError']
    if not rs:
        C.check(None if raises(I) else False, 'flags', 'mixed', 'lists and '
                'names are mixed', w)
    at = {}
    R = raised(I)
    for g in gs + [R]:
        for a in b.support_atoms(g):
            k = kinds(a)
            if k in ('int', 'str', 'none'):
                at.setdefault(k, set()).add(b.atom(a))
    if 'complete' in fin:
        e = fin['complete']
        for g, t in flat(I, e.value, e.guard):
            yes = b.and_(g, L.truthy(t))
            ws = [a for a in b.support_atoms(yes) if a[0] == 'is' and
                  ALLT in a[1:] and any(x[0] == 'item' and x[2] == NONE
                                        for x in a[1:])]
            C.implies(I, yes, b.or_(FALSE, *[b.atom(a) for a in ws]),
                      'flags', 'complete', 'a part is taken for the whole',
                      e.where)
        no = FALSE
        for g, t in flat(I, e.value, e.guard):
            no = b.or_(no, b.and_(g, b.not_(L.truthy(t))))
        for a in b.support_atoms(no):
            if a[0] in ('is', 'in') and kinds(a) is None and not any(
                    isinstance(x, tuple) and x[:1] == ('item',) and
                    x[1] in fresh for x in a[1:]):
                v = list(b.support(b.atom(a)))[0]
                no = b.restrict(no, v, False)
        for t in fresh:
            if at.get('none'):
                C.never(I, b.and_(no, L.is_(ALLT, ('item', t, NONE)),
                                  L.in_(NONE, t), *[L.in_(NONE, d) for d
                                                    in doms],
                                  *[b.atom(('exists', d, x)) for d in doms
                                    for x in (L.isnone(('elem', d)), L.is_((
                                        'typeof', ('elem', d)), (
                                            'typeof', NONE)))],
                                  *at['none']), 'flags', 'complete:not',
                        'the whole is taken for a part', e.where)
    else:
        C.unk('flags', 'complete', 'not a plain attribute', w)
    if set(at) == {'int', 'str', 'none'}:
        low = b.and_(exits(I), *at['none'])
        low = b.and_(low, b.or_(b.and_(*at['int']), b.and_(*at['str'])))
        for a in b.support_atoms(low):
            # a table with a single complete entry is not mixed
            if a[0] in ('is', 'in') and kinds(a) is None:
                v = list(b.support(b.atom(a)))[0]
                low = b.restrict(low, v, False)
        C.never(I, low, 'flags', 'mixed', 'lists and names are mixed', w)
        C.implies(I, b.or_(FALSE, *[e.guard for e in rs]), b.and_(b.or_(
            *at['none']), b.or_(*(at['int'] | at['str']))), 'flags',
            'mixed:only', 'refused without need', w)
    else:
        C.unk('flags', 'mixed', 'not decided', w)


# ---- reading

def iterate(C):
    f, I = mrun(C, '__iter__', boundary_extra=()) if False else \
        mrun(C, '__iter__')
    b, L = I.b, I.L
    w = where(f)
    isall = L.is_(ALLT, HI)
    got = {True: FALSE, False: FALSE}
    gens = [t for g, t in flat(I, I.rv, exits(I))]
    for t in gens:
        if t not in I.conts:
            C.unk('iter', 'members', 'not decided', w)
            return
    for t in gens:
        for en in I.conts[t].entries:
            if en.star or not en.loops or en.loops[0] != H:
                C.check(None if en.star or not en.loops or not mentions(
                    en.loops[0], H) or en.loops[0][0] == 'new' else False,
                    'iter', 'heads', 'not all heads', w)
                continue
            for g, v in flat(I, en.val, en.guard):
                if len(en.loops) == 1:
                    x = ctor_of(v)
                    ks = single(I, x) if x is not None else None
                    ok = ks is not None and (
                        ks == HE or ks == NONE and L.implies(
                            g, L.isnone(HE)))
                    C.check(ok or (None if x is None or ks is None else
                                   False), 'iter', 'whole', 'not the head',
                            w, L.show(v)[:80])
                    C.implies(I, g, isall, 'iter', 'whole:when', 'the rest '
                              'of the selectors is lost', w)
                    got[True] = b.or_(got[True], g)
                elif len(en.loops) == 2 and en.loops[1] == HI:
                    sub = ('elem', HI)
                    ok = None
                    if ctor_of(v) is not None:
                        x = ctor_of(v)
                        ok = None if mentions(x, sub) else False
                    elif v[0] == 'bin' and v[1] == 'Add':
                        x = ctor_of(v[2])
                        ok = x is not None and single(I, x) == HE and \
                            v[3] == sub
                        if x is None:
                            ok = None
                    elif v[0] == 'call' and v[1][0] in ('bound', 'attr'):
                        r = v[1][1]
                        x = ctor_of(r)
                        ok = True if x is not None and \
                            single(I, x) == HE and v[2] == (sub,) else None
                    elif v in (sub, HE):
                        ok = False
                    C.check(ok, 'iter', 'part', 'not the head and the rest',
                            w, L.show(v)[:80])
                    got[False] = b.or_(got[False], g)
                else:
                    C.unk('iter', 'part', 'not decided', w)
    C.implies(I, isall, got[True], 'iter', 'whole:kept', 'selectors are '
              'left out', w)
    C.implies(I, b.not_(isall), got[False], 'iter', 'part:kept', 'selectors '
              'are left out', w)
    whole_loop(C, I, lambda d: mentions(d, H), 'iter', 'end', 'not all '
               'selectors')


def single(I, x):
    """the only element of a sequence term"""
    if x[0] == 'tuple' and len(x) == 2:
        return x[1]
    if x in I.conts and len(I.conts[x].entries) == 1 and not \
            I.conts[x].entries[0].star:
        vs = flat(I, I.conts[x].entries[0].val)
        return vs[0][1] if len(vs) == 1 else None
    return None


def is_complete(t):
    """a selector of everything"""
    if t[0] == 'call' and t[1][0] in ('bound', 'attr', 'func'):
        c = t[1]
        n = c[2] if c[0] != 'func' else c[1]
        if n.rpartition('.')[2] == 'complete_mfs':
            return True
    return None


def getitem(C):
    f, I = mrun(C, '__getitem__', types={})
    b, L = I.b, I.L
    comp = L.truthy(A(SELF, 'complete'))
    none = L.truthy(A(SELF, 'has_none'))
    ne = b.not_
    seq = b.or_(L.isinst(INDEX, ('class', FS)),
                L.isinst(INDEX, ('builtin', 'tuple')),
                L.isinst(INDEX, ('builtin', 'list')))
    any_ = L.is_(INDEX, ('builtin', 'any'))
    empty = ne(L.truthy(INDEX))
    rest = ('slice', INDEX, const(1), NONE, NONE)
    cases = [('complete', comp, lambda t: t == SELF or is_complete(t) or
              (None if opaque(t) else False)),
             ('empty', b.and_(ne(comp), seq, empty), {SELF})]

    def whole(t):
        return is_complete(t) or False
    i0 = ('item', INDEX, const(0))
    for nm, sel, key in (('list', none, NONE), ('head', ne(none), i0)):
        cell = ('item', H, key)
        inh = L.in_(key, H)
        al = L.is_(ALLT, cell)
        base = b.and_(ne(comp), seq, ne(empty), sel)
        one = L.lt(const(1), ('len', INDEX))
        more = b.and_(L.truthy(rest), one)
        end = b.and_(ne(L.truthy(rest)), ne(one), L.eq(
            ('len', INDEX), const(1)))
        cases += [
            ('%s:missing' % nm, b.and_(base, ne(inh)), {NONE}),
            ('%s:all' % nm, b.and_(base, inh, al), whole),
            ('%s:rest' % nm, b.and_(base, inh, ne(al), more),
             lambda t, cell=cell: sub(t, cell, rest)),
            ('%s:end' % nm, b.and_(base, inh, ne(al), end),
             lambda t, cell=cell: t == cell or sub(t, cell, rest)),
        ]
    for nm, sel, key in (('list1', none, NONE), ('head1', ne(none), INDEX)):
        cell = ('item', H, key)
        inh = L.in_(key, H)
        al = L.is_(ALLT, cell)
        base = b.and_(ne(comp), ne(seq), ne(any_), sel)
        if key != NONE:
            cases.append(('%s:missing' % nm, b.and_(base, ne(inh)), {NONE}))
        cases += [('%s:all' % nm, b.and_(base, inh, al), whole),
                  ('%s:part' % nm, b.and_(base, inh, ne(al)),
                   lambda t, cell=cell: t == cell or None
                   if opaque(t) else t == cell)]
    only(C, I, cases, 'getitem', 'get', f)
    C.never(I, b.and_(raised(I), ne(any_)), 'getitem', 'raise', 'refused',
            where(f))


def sub(t, cell, rest):
    if t == ('item', cell, rest):
        return True
    if t[0] == 'call' and t[1][0] in ('bound', 'attr') and \
            t[1][1] == cell and t[2] == (rest,):
        return True
    return None if opaque(t) else False


def contains(C):
    f, I = mrun(C, '__contains__', types={})
    b, L = I.b, I.L
    ne = b.not_
    comp = L.truthy(A(SELF, 'complete'))
    none = L.truthy(A(SELF, 'has_none'))
    name = b.or_(L.isinst(INDEX, ('builtin', 'str')),
                 L.isinst(INDEX, ('builtin', 'int')), L.isnone(INDEX))
    any_ = L.is_(INDEX, ('builtin', 'any'))
    empty = ne(L.truthy(INDEX))
    yes = no = FALSE
    for g, t in flat(I, I.rv, exits(I)):
        x = L.truthy(t)
        yes = b.or_(yes, b.and_(g, x))
        no = b.or_(no, b.and_(g, ne(x)))
    w = where(f)

    def both(g, want, con):
        C.implies(I, b.and_(yes, g), want, 'contains', con + ':true',
                  'found what is not selected', w)
        C.implies(I, b.and_(no, g), ne(want), 'contains', con + ':false',
                  'does not find what is selected', w)
    both(name, b.or_(none, L.in_(INDEX, H)), 'name')
    path = b.and_(ne(name), ne(any_))
    both(b.and_(path, empty), comp, 'empty')
    path = b.and_(path, ne(empty))
    rest = ('slice', INDEX, const(1), NONE, NONE)
    for con, sel, key in (('list', none, NONE),
                          ('head', ne(none), ('item', INDEX, const(0)))):
        subs = [a for a in set(b.support_atoms(yes)) |
                set(b.support_atoms(no)) if a[0] == 'in' and a[1] == rest]
        ok = [a for a in subs if a[2][0] == 'item' and
              a[2][1] in (SELF,) and a[2][2] == key or
              a[2][0] == 'call' and a[2][2] == (key,) and
              a[2][1][0] in ('bound', 'attr') and a[2][1][1] == SELF]
        base = b.and_(path, sel)
        inh = L.in_(key, H)
        C.never(I, b.and_(yes, base, ne(inh)), 'contains', con + ':head',
                'found below a missing head', w)
        if len(ok) != 1:
            wrong = [a for a in subs if not mentions(a[2], SELF)]
            C.unk('contains', con + ':rest', 'not decided', w)
            continue
        A1 = b.atom(ok[0])
        C.implies(I, b.and_(yes, base), A1, 'contains', con + ':true',
                  'found what is not selected', w)
        C.implies(I, b.and_(no, base, inh), ne(A1), 'contains',
                  con + ':false', 'does not find what is selected', w)


def complete(C):
    f, I = mrun(C, 'complete_mfs')
    for g, t in flat(I, I.rv, exits(I)):
        if t[0] != 'newof':
            continue
        a = t[3][2]
        ok = None
        if not a:
            ok = False
        elif len(a) == 1:
            x = a[0]
            ok = x == ('tuple',) or single(I, x) == NONE or (
                True if x in I.conts and not I.conts[x].entries else
                False if single(I, x) is not None else None)
        C.check(ok, 'complete', 'complete_mfs', 'does not select '
                'everything', where(f), I.L.show(t)[:80])


# ---- get

def picked(I, V, cell, src, guard):
    """verdicts for the value taken over: a deep copy of src where all of it
    is selected, else the selected part of it"""
    b, L = I.b, I.L
    out = []
    al = L.is_(ALLT, cell)
    srcs = src if isinstance(src, (list, tuple, set)) and src and \
        isinstance(next(iter(src)), tuple) else [src]
    for g, t in flat(I, V, guard):
        if not L.sat(g):
            continue
        if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in (
                'copy.deepcopy', 'copy.copy') and len(t[2]) >= 1:
            deep = t[1][1] == 'copy.deepcopy'
            out.append((deep and t[2][0] in srcs, 'copies something else '
                        'or shares parts of it', t))
            out.append((L.implies(g, al) or (
                None if opaque_guard(I, g) else False),
                'more than what is selected', t))
        elif t[0] == 'call' and t[1][0] in ('attr', 'bound') and \
                t[1][2].rpartition('.')[2] == 'get':
            out.append((t[1][1] == cell and t[2] and t[2][0] in srcs and
                        len(t[2]) == 1, 'not the selected part', t))
        elif t in srcs or shallow(I, t, srcs):
            out.append((False, 'shared with the object', t))
        elif t == NONE and any(a[0] == 'raises' for a in
                               b.support_atoms(g)):
            out.append((None, 'not decided', t))
        else:
            out.append((None if t[0] not in ('const', 'param', 'item',
                                             'elem') or opaque(t) else
                        False, 'something else', t))
    return out


def shallow(I, t, srcs):
    """another container with the same members?"""
    if t[0] == 'slice' and t[1] in srcs:
        return True
    if t[0] == 'call' and t[1][0] in ('attr', 'bound') and \
            t[1][1] in srcs and t[1][2].rpartition('.')[2] == 'copy':
        return True
    if t in I.conts and len(I.conts[t].entries) == 1:
        e = I.conts[t].entries[0]
        return e.star and [x for g, x in flat(I, e.val)] == list(srcs)
    return False


def judge(C, I, res, con, w):
    if not res:
        C.unk('get', con, 'nothing taken over', w)
    for ok, msg, t in res:
        C.check(ok, 'get', con, msg, w, I.L.show(t)[:100])


def getrun(C):
    f, I = mrun(C, 'get')
    b, L = I.b, I.L
    lst = b.or_(L.isinst(OBJ, ('builtin', 'list')), L.isinst(
        OBJ, ('class', 'normalize.coll.ListCollection')))
    dct = b.and_(b.not_(lst), b.or_(
        L.isinst(OBJ, ('builtin', 'dict')),
        L.isinst(OBJ, ('class', 'normalize.coll.DictCollection'))))
    none = L.truthy(A(SELF, 'has_none'))
    return f, I, lst, dct, none


def content(I, t, depth=0):
    """[(guard, loops, key, V)] of the object a result term is made of"""
    if depth > 5:
        return None
    if t[0] == 'newof':
        a, k = t[3][2], t[3][3]
        if len(a) == 1 and not k:
            return content(I, a[0], depth + 1)
        if not a and len(k) == 1 and k[0][0] in ('values', '**'):
            return content(I, k[0][1], depth + 1)
        return None
    if t[0] == 'call' and t[1][0] == 'typeof':
        if len(t[2]) == 1 and not t[3]:
            return content(I, t[2][0], depth + 1)
        return None
    if t == OBJ or t[0] == 'slice' and t[1] == OBJ or t == (
            'call', ('attr', OBJ, 'copy'), (), ()):
        return [(TRUE, 'shared', None, None)]
    if t not in I.conts:
        return None
    out = []
    for e in I.conts[t].entries:
        if e.star:
            for g, x in flat(I, e.val, e.guard):
                y = content(I, x, depth + 1)
                if y is None:
                    return None
                out += [(I.b.and_(g, gg), lo, k, V) for gg, lo, k, V in y]
        else:
            out.append((e.guard, e.loops, e.key, e.val))
    return out


def results(C, I, f, g0, con):
    """what the results are made of in this case"""
    b, L = I.b, I.L
    out = []
    I.alts = set()
    for g, t in flat(I, I.rv, exits(I)):
        gg = b.and_(g, g0)
        if not L.sat(gg):
            continue
        if t == OBJ or t == NONE:
            C.bad('get', con + ':result', 'not a copy', where(f))
            continue
        x = content(I, t)
        if x is None:
            C.unk('get', con + ':result', 'not decided', where(f))
            continue
        if any(lo == 'shared' for a, lo, k, V in x if L.sat(
                b.and_(gg, a))):
            C.bad('get', con + ':result', 'the members are shared with the '
                  'object', where(f))
            continue
        I.alts.add(gg)
        out += [(gg, b.and_(gg, a), lo, k, V) for a, lo, k, V in x
                if L.sat(b.and_(gg, a))]
    return out


def each(C, I, got, alts, need, con, msg, w):
    """every member which is needed is in the result, whichever it is"""
    b = I.b
    by = {a: FALSE for a in alts}
    for alt, g in got:
        by[alt] = b.or_(by.get(alt, FALSE), g)
    for alt, g in by.items():
        C.implies(I, b.and_(alt, need), g, 'get', con, msg, w)


def pairs(I, k, V):
    """(key, value) of an entry, which may be a pair"""
    if k is not None:
        ks = [t for g, t in flat(I, k)] if isinstance(k[0], tuple) else [k]
        return [(x, V) for x in ks]
    out = []
    for g, t in flat(I, V):
        if t[0] == 'tuple' and len(t) == 3:
            v = t[2]
            out.append((t[1], v[1] if v[0] == 'phi' else ((g, v),)))
        else:
            return None
    return out


def heads_loop(I, d):
    """is it a loop over the heads (or their items, sorted or not)?"""
    if d == H or d == ('items', H):
        return True
    return False


def get_list(C):
    f, I, lst, dct, none = getrun(C)
    b, L = I.b, I.L
    w = where(f)
    ok = b.and_(lst, b.not_(L.truthy(A(SELF, 'has_string'))))
    C.never(I, b.and_(exits(I), lst, L.truthy(A(SELF, 'has_string'))),
            'get', 'list:names', 'names looked up in a list', w)
    got = []
    for alt, g, lo, k, V in results(C, I, f, b.and_(ok, none), 'list:none'):
        if lo != (OBJ,):
            C.check(None if not lo or not mentions(lo[0], OBJ) or
                    len(lo) > 1 or lo[0][0] in ('range', 'call') else False,
                    'get', 'list:none:all', 'not all members', w)
            got.append((alt, TRUE))
            continue
        got.append((alt, g))
        judge(C, I, picked(I, V, HN, ('elem', OBJ), g), 'list:none:member',
              w)
    each(C, I, got, I.alts, TRUE, 'list:none:each',
         'a member is left out', w)
    got = []
    for alt, g, lo, k, V in results(C, I, f, b.and_(ok, b.not_(none)),
                               'list:index'):
        if len(lo) != 1 or not heads_loop(I, lo[0]):
            C.unk('get', 'list:index:all', 'not decided', w)
            got.append((alt, TRUE))
            continue
        got.append((alt, g))
        judge(C, I, picked(I, V, HI, ('item', OBJ, HE), g),
              'list:index:member', w)
    each(C, I, got, I.alts, TRUE, 'list:index:each',
         'an index is left out', w)
    whole_loop(C, I, lambda d: heads_loop(I, d), 'get', 'end',
               'not all members')
    whole_loop(C, I, lambda d: d == OBJ, 'get', 'end:members',
               'not all members', True)


def get_dict(C):
    f, I, lst, dct, none = getrun(C)
    b, L = I.b, I.L
    w = where(f)
    got = []
    for alt, g, lo, k, V in results(C, I, f, b.and_(dct, none), 'dict:none'):
        if lo != (OBJ,):
            C.unk('get', 'dict:none:all', 'not decided', w)
            got.append((alt, TRUE))
            continue
        got.append((alt, g))
        ps = pairs(I, k, V)
        if ps is None:
            C.unk('get', 'dict:none:member', 'not decided', w)
            continue
        for kk, v in ps:
            C.check(kk == ('elem', OBJ) or (None if opaque(kk) else False),
                    'get', 'dict:none:key', 'another key', w)
            judge(C, I, picked(I, v, HN, ('item', OBJ, ('elem', OBJ)), g),
                  'dict:none:member', w)
    each(C, I, got, I.alts, TRUE, 'dict:none:each',
         'a member is left out', w)
    got = []
    for alt, g, lo, k, V in results(C, I, f, b.and_(dct, b.not_(none)),
                               'dict:key'):
        if len(lo) != 1 or not heads_loop(I, lo[0]):
            C.unk('get', 'dict:key:all', 'not decided', w)
            got.append((alt, TRUE))
            continue
        got.append((alt, g))
        ps = pairs(I, k, V)
        if ps is None:
            C.unk('get', 'dict:key:member', 'not decided', w)
            continue
        for kk, v in ps:
            C.check(kk == HE or (None if opaque(kk) else False), 'get',
                    'dict:key:key', 'another key', w)
            # what is not there is left out
            asks = [a for a in b.support_atoms(g) if mentions(a, HE) and (
                a[0] in ('in', 'raises', 'truthy', 'isnone', 'is', 'eq')
                and mentions(a, OBJ))]
            C.check(L.implies(g, L.in_(HE, OBJ)) or (
                None if asks else False), 'get', 'dict:key:missing',
                'fails for a key which is not there', w)
            judge(C, I, picked(I, v, HI, ('item', OBJ, HE), g),
                  'dict:key:member', w)
    each(C, I, got, I.alts, L.in_(HE, OBJ), 'dict:key:each',
         'a member is left out', w)


def get_record(C):
    f, I, lst, dct, none = getrun(C)
    b, L = I.b, I.L
    w = where(f)
    rec = b.and_(b.not_(lst), b.not_(dct))
    hint = L.truthy(A(SELF, 'has_int'))
    C.never(I, b.and_(exits(I), rec, hint), 'get', 'record:index',
            'an index looked up in a record', w)
    allh = L.is_(ALLT, HN)
    C.never(I, b.and_(exits(I), rec, none, b.not_(allh)), 'get',
            'record:none', 'a list looked up in a record', w)
    for g, t in flat(I, I.rv, exits(I)):
        gg = b.and_(g, rec, none, allh)
        if L.sat(gg):
            judge(C, I, picked(I, ((gg, t),), HN, OBJ, TRUE),
                  'record:whole', w)
    names = b.and_(rec, b.not_(none), b.not_(hint))
    src = [('dattr', OBJ, HE)]
    val = src[0]
    got = []
    for alt, g, lo, k, V in results(C, I, f, names, 'record:name'):
        if len(lo) != 1 or not heads_loop(I, lo[0]):
            C.unk('get', 'record:name:all', 'not decided', w)
            got.append((alt, TRUE))
            continue
        got.append((alt, g))
        ps = pairs(I, k, V)
        if ps is None:
            C.unk('get', 'record:name:member', 'not decided', w)
            continue
        for kk, v in ps:
            C.check(kk == HE or (None if opaque(kk) else False), 'get',
                    'record:name:key', 'another attribute', w)
            judge(C, I, picked(I, v, HI, src, g), 'record:name:member', w)
    each(C, I, got, I.alts, b.and_(L.hasattr(OBJ, HE), b.not_(
        L.isnone(val))), 'record:name:each',
         'an attribute which is set is left out', w)


# ---- changes

def sel_calls(I, name, dom=None):
    """calls of a method of the selectors of self"""
    out = []
    for e in evs(I, 'call'):
        r, m = method(e)
        if m == name and r == ('elem', SELF) or m == name and r and \
                r[0] == 'item' and r[1][0] == 'elem':
            out.append(e)
    return out


def delete(C):
    f, I = mrun(C, 'delete')
    b, L = I.b, I.L
    w = where(f)
    force = L.truthy(P('force'))
    dels = sel_calls(I, 'delete')
    gets = sel_calls(I, 'get')
    if not dels:
        C.unk('delete', 'delete', 'not decided', w)
        return
    order = list(I.events)
    done = FALSE
    for e in dels:
        dom = e.loops[-1] if e.loops else None
        C.check([x for g, x in flat(I, e.args[0])] == [OBJ] if e.args
                else None, 'delete', 'object', 'another object', e.where)
        C.check(len(e.loops) == 1 or None, 'delete', 'each', 'not decided',
                e.where)
        done = b.or_(done, e.guard)
        # checked before
        for g2 in gets:
            C.check(order.index(g2) < order.index(e) and not shares(
                g2, e), 'delete', 'before', 'something is deleted '
                'before everything is checked', e.where)
    for e in gets:
        xs = [x for g, x in flat(I, e.args[0])] if e.args else []
        C.check(xs == [OBJ] or (None if not xs or any(opaque(x) for x in xs)
                                else False), 'delete', 'check:object',
                'another object is checked', e.where)
    calls = b.or_(*[e.guard for e in gets]) if gets else FALSE
    C.implies(I, b.not_(force), calls, 'delete', 'check', 'not checked '
              'before', w)
    C.implies(I, force, done, 'delete', 'force', 'nothing is deleted', w)
    okg = b.not_(raised(I))
    C.implies(I, okg, done, 'delete', 'all', 'nothing is deleted', w)
    # a failing check stops it
    stops(C, I, gets, 'delete', 'stop', 'deletes although something is '
          'missing')
    # from the end
    srt = evs(I, 'sorted')
    back = None
    for e in dels:
        if e.loops and e.loops[-1] == SELF and not srt and not any(
                en for k in I.conts.values() for en in k.entries):
            back = False
    for e in srt:
        r = e.kws.get('reverse')
        rv = [t for g, t in flat(I, r)] if r else []
        k = e.kws.get('key')
        back = rv == [const(True)] or (None if rv and rv != [const(False)]
                                       or k and negates(I, k) else False)
    C.check(back, 'delete', 'order', 'not deleted from the end', w)
    for e in srt:
        if back and e.kws.get('key'):
            plain = signed(I, e.kws['key'])
            C.check(not plain, 'delete', 'order:negative', 'indices from '
                    'the end are deleted the wrong way round', w)
    # what is not there any more does not stop it
    for e in dels:
        C.check(any(a[0] == 'raises' and a[1] in (
            e.get('result'), ('call', e.callee, (OBJ,), ()))
            for a in b.atoms) or (None if opaque(e.callee) else False),
            'delete', 'missing', 'stops at one which is not there any more',
            e.where)
    for e in evs(I, 'break', 'return'):
        if e.loops and any(e.loops == d.loops for d in dels) and (
                e.kind == 'break' or e.own):
            C.never(I, e.guard, 'delete', 'end', 'not all are deleted',
                    e.where)
    # a failing deletion does not stop the others
    for e in raises(I):
        if e.loops and any(e.loops == d.loops for d in dels) and any(
                a[0] == 'raises' and 'delete' in str(a[1][1])
                for a in b.support_atoms(e.guard)):
            C.never(I, e.guard, 'delete', 'others', 'stops at the first '
                    'which fails', e.where)


def shares(a, c):
    """are the two events in the same pass of a loop?"""
    return bool(set(a.lids) & set(c.lids))


def signed(I, k):
    """are indices ordered by this key with their sign?"""
    todo = []
    for g, t in flat(I, k):
        V = I.apply(t, [('elem', SELF)], TRUE)
        todo += [V] if V and isinstance(V[0], str) else [
            t for g, t in V or ()]
    els = (('elem', A(('elem', SELF), 'selectors')), ('elem', ('elem', SELF)))
    for t in todo:
        for e in I.conts[t].entries if t in I.conts else ():
            for g, v in flat(I, e.val, e.guard):
                if v in els and I.L.sat(I.b.and_(g, I.L.isinst(
                        v, ('builtin', 'int')))) and not any(
                            mentions(a, v) and a[0] not in (
                                'isinst', 'isnone', 'truthy')
                            for a in I.b.support_atoms(g)):
                    return True
    return False


def negates(I, k):
    """may the order by this key be the reverse one?"""
    fs = [t for g, t in flat(I, k)]
    vs = [I.apply(t, [('elem', SELF)], TRUE) for t in fs]
    for V in vs:
        for t in [V] if V and isinstance(V[0], str) else [
                t for g, t in V or ((TRUE, ('unk',)),)]:
            if opaque(t):
                return True
            todo = [t]
            for x in todo:
                for y in subterms(x):
                    if y in I.conts and y not in todo:
                        todo += [v for e in I.conts[y].entries
                                 for g, v in flat(I, e.val)]
                if opaque(x) or any(y and y[0] in ('neg', 'unary', 'bin')
                                    for y in subterms(x)):
                    return True
    return False


def stops(C, I, calls, rule, con, msg):
    """a failure of one of the calls is not swallowed"""
    b = I.b
    res = {e.get('result') for e in calls}
    for h in evs(I, 'handler'):
        ats = [a for a in b.support_atoms(h.guard)
               if a[0] == 'raises' and (a[1] in res or any(
                   a[1][:2] == ('call', e.callee) for e in calls))]
        if not ats:
            continue
        again = b.or_(FALSE, *[e.guard for e in raises(I)
                               if e.lids[:len(h.lids)] == h.lids])
        C.implies(I, b.and_(h.guard, b.or_(*[b.atom(a) for a in ats])),
                  again, rule, con, msg, h.where)


def patch(C):
    f, I = mrun(C, 'patch')
    b, L = I.b, I.L
    w = where(f)
    src, dst, cp = P('source'), P('target'), P('copy')
    gets = sel_calls(I, 'get')
    posts = sel_calls(I, 'post') + sel_calls(I, 'put')
    dels = sel_calls(I, 'delete')
    order = list(I.events)
    if not gets or not posts:
        C.unk('patch', 'patch', 'not decided', w)
        return
    for e in gets:
        C.check([x for g, x in flat(I, e.args[0])] == [src], 'patch',
                'source', 'read from another object', e.where)
        C.implies(I, b.not_(b.and_(raised(I), FALSE)), e.guard, 'patch',
                  'each', 'a selector is left out', e.where)
    first = min(order.index(e) for e in posts + dels)
    last = max(order.index(e) for e in gets)
    C.check(last < first and not any(
        shares(x, e) for x in gets for e in posts + dels), 'patch', 'before', 'changed before everything '
            'was read', w)
    got = [('call', e.callee, (src,), ()) for e in gets]
    got = {e.result for e in gets if e.get('result')} | set(got)
    for e in posts:
        ar = e.args
        C.check([x for g, x in flat(I, ar[0])] == [dst], 'patch', 'target',
                'changes another object', e.where)
        for g, v in flat(I, ar[1], e.guard):
            if v in got:
                C.never(I, b.and_(g, L.truthy(cp)), 'patch', 'copy',
                        'not copied', e.where)
            elif v[0] == 'call' and len(v[2]) == 1 and v[2][0] in got:
                if v[1] == cp:
                    C.implies(I, g, b.and_(L.truthy(cp), b.atom(
                        ('callable', cp))), 'patch', 'copy:fn',
                        'called without need', e.where)
                elif v[1] == ('ext', 'copy.deepcopy'):
                    C.implies(I, g, L.truthy(cp), 'patch', 'copy:deep',
                              'copied without need', e.where)
                else:
                    C.check(False if v[1] == ('ext', 'copy.copy') else None,
                            'patch', 'value', 'not the value read',
                            e.where, L.show(v)[:80])
            else:
                other = v[0] == 'call' and v[1] in (
                    cp, ('ext', 'copy.deepcopy')) and len(v[2]) == 1 and \
                    v[2][0][0] in ('elem', 'param') and not any(
                        y in got for y in subterms(v[2][0]))
                C.check(None if not other and (
                    v[0] in ('unk', 'phi', 'call') or opaque(v))
                        else False, 'patch', 'value', 'not the value read',
                        e.where, L.show(v)[:80])
    for e in dels:
        C.check([x for g, x in flat(I, e.args[0])] == [dst], 'patch',
                'target', 'deletes from another object', e.where)
    C.implies(I, b.not_(raised(I)), b.or_(*[e.guard for e in posts + dels]),
              'patch', 'all', 'a selected value is not set', w)
    # every selector is either set or deleted
    sent = FALSE
    for e in dels:
        sent = b.or_(sent, e.guard)
    miss = [a for g in gets for e in I.events for a in
            b.support_atoms(e.guard) if a[0] == 'raises' and
            a[1] in got and 'AttributeError' in str(a[2])]
    for a in set(miss):
        if a[2][-1].endswith('AttributeError') if isinstance(
                a[2], tuple) else False:
            C.never(I, b.and_(b.or_(*[e.guard for e in posts]), b.atom(a)),
                    'patch', 'missing', 'a missing value is set', w)
            C.implies(I, b.and_(exits(I), b.atom(a)), sent, 'patch',
                      'missing:deleted', 'a missing value is not deleted',
                      w)


def readonly(C):
    """no method changes the selector, and reading changes nothing"""
    cls = C.m.need_class(MS)
    for n, f in sorted(cls.attrs.items()):
        if not isinstance(f, Func) or f.kind in ('classmethod',
                                                 'staticmethod') or \
                n in ('__init__', '__setstate__'):
            continue
        f, I = mrun(C, n)
        k = 0
        roots = [SELF, H] + ([OBJ] if n == 'get' else []) + (
            [P('source')] if n == 'patch' else [])
        for e in evs(I, 'store', 'setitem', 'delitem', 'delattr', 'mut'):
            if e.target in roots or e.target in (HN, HI):
                k += 1
                C.never(I, e.guard, 'readonly', n, 'changes its operand',
                        e.where)
        if not k:
            C.ok('readonly', n, where(f))


RULES = {'C25': c25}
