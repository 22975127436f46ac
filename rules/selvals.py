"""C23 selectors are values"""
from .base import *
import ast
from .selectors import ALL, FS, SELS, frun, made, need

OTHER = P('other')


def params(f):
    return [a.arg for a in f.node.args.args][1:]


def seq(I, t, depth=0):
    """the parts a sequence is made of, in order: ('all', X) every element of
    X, ('one', x); None if not known"""
    if depth > 8:
        return None
    if t[0] == 'phi':
        return None
    if t in I.conts:
        out = []
        for e in I.conts[t].entries:
            if e.loops:
                return None
            vs = flat(I, e.val)
            if len(vs) != 1:
                return None
            x = vs[0][1]
            if e.star:
                y = seq(I, x, depth + 1)
                if y is None:
                    return None
                out += y
            else:
                out.append(('one', x))
        return tuple(out) if isinstance(out, tuple) else out
    if t[0] == 'tuple':
        return [('one', x) for x in t[1:]]
    if t[0] == 'slice' and t[2:] == (NONE, NONE, NONE):
        return seq(I, t[1], depth + 1)
    if t[0] == 'item' and t[2][0] == 'sl':
        if t[2] == ALL:
            return seq(I, t[1], depth + 1)
    if t[0] == 'call' and t[1][0] == 'builtin' and t[1][1] in (
            'list', 'tuple') and len(t[2]) == 1 and not t[3]:
        return seq(I, t[2][0], depth + 1)
    if t[0] == 'call' and t[1] in (('ext', 'copy.copy'),) and len(t[2]) == 1:
        return seq(I, t[2][0], depth + 1)
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'copy' and \
            not t[2]:
        return seq(I, t[1][1], depth + 1)
    if t[0] == 'bin' and t[1] == 'Add':
        x, y = seq(I, t[2], depth + 1), seq(I, t[3], depth + 1)
        return None if x is None or y is None else x + y
    if t[0] in ('newof', 'new'):
        return content(I, t, TRUE, depth + 1)
    if opaque(t):
        return None
    return [('all', t)]


def content(I, t, g, depth=0):
    """the path of a selector which was just made, what was appended to it
    afterwards included, where g holds"""
    a = made(t)
    if a is None:
        return None
    if not a:
        out = []
    elif len(a) == 1:
        x = a[0]
        out = [('all', SELS)] if x == SELF else seq(I, x, depth)
        if out is not None and out and out[0][0] == 'all' and \
                out[0][1] == OTHER:
            pass
    else:
        return None
    if out is None:
        return None
    own = ('attr', t, 'selectors')
    for e in evs(I, 'mut', 'store', 'setitem', 'delitem'):
        if e.target in (own, t) and not I.L.sat(I.b.and_(g, e.guard)):
            continue
        if e.target == own:
            if not I.L.implies(g, e.guard):
                return None
            if e.kind != 'mut' or e.loops:
                return None
            vs = flat(I, e.args[0], g) if len(e.args) == 1 else ()
            if len(vs) != 1:
                return None
            if e.name == 'append':
                out = out + [('one', vs[0][1])]
            elif e.name in ('extend', '+='):
                y = seq(I, vs[0][1], depth + 1)
                if y is None:
                    return None
                out = out + y
            else:
                return None
        elif e.target == t and e.kind == 'store':
            return None
    # a method of the new selector which is not looked into
    for e in evs(I, 'call'):
        r, m = method(e)
        if r == t and m not in ('extend', 'append'):
            return None
    return out


def changed(e):
    """what an event changes"""
    if e.kind == 'store':
        return e.target
    return e.target


def untouched(C, I, f, con, what=(SELF, OTHER), allow=()):
    """neither operand is changed"""
    n = 0
    for e in evs(I, 'store', 'setitem', 'delitem', 'delattr', 'mut'):
        t = e.target
        if t is None:
            continue
        for w in what:
            if t == w or t == A(w, 'selectors'):
                if (t, e.kind, e.get('name')) in allow:
                    continue
                n += 1
                C.never(I, e.guard, 'operands', con, 'changes its operand',
                        e.where, terms=(t,))
    for e in evs(I, 'call'):
        r, m = method(e)
        if r in what and m in ('extend', 'add_property', 'add_index',
                               'add_full_collection', '__init__',
                               '__iadd__'):
            if (r, 'call', m) in allow:
                continue
            n += 1
            C.never(I, e.guard, 'operands', con, 'changes its operand',
                    e.where)
    if not n:
        C.ok('operands', con, where(f))


def bools(C, I, f, want, rule, con, msg, live=TRUE):
    """the result is true exactly when `want` holds"""
    b, L = I.b, I.L
    yes = no = FALSE
    for g, t in flat(I, I.rv, b.and_(exits(I), live)):
        x = L.truthy(t)
        yes = b.or_(yes, b.and_(g, x))
        no = b.or_(no, b.and_(g, b.not_(x)))
    C.implies(I, yes, want, rule, con + ':true', msg + ' (true)', where(f))
    C.implies(I, no, b.not_(want), rule, con + ':false', msg + ' (false)',
              where(f))


def c23(C):
    init(C)
    add(C)
    item(C)
    grow(C)
    equality(C)
    order(C)
    starts(C)
    length(C)
    pickled(C)
    frozen(C)


def valid(I, el):
    L, b = I.L, I.b
    return b.or_(L.isinst(el, ('builtin', 'str')),
                 L.isinst(el, ('builtin', 'int')), L.isnone(el))


def init(C):
    """the path is a copy of the path given and every element is checked"""
    f, I = frun(C, '__init__')
    b, L = I.b, I.L
    EX = P('expr')
    ES = A(EX, 'selectors')
    out = exits(I)
    # final value of the path
    rest = out
    fin = []
    for e in reversed(evs(I, 'store', 'setitem', 'mut', 'delitem')):
        if e.kind == 'store' and e.target == SELF and e.attr == 'selectors':
            if e.loops:
                C.unk('init', 'path', 'stored in a loop', e.where)
                return
            for g, t in flat(I, e.value, b.and_(e.guard, rest)):
                fin.append((g, t, e.where))
            rest = b.and_(rest, b.not_(e.guard))
        elif e.target == SELS:
            C.unk('init', 'path', 'built in steps', e.where)
            return
    C.never(I, rest, 'init', 'set', 'a selector without path', where(f))
    given = L.truthy(EX)
    for g, t, w in fin:
        if not L.sat(g):
            continue
        s = seq(I, t)
        own = t in (ES, EX) or t[0] == 'attr'
        if not own and t not in I.conts and not (
                t[0] in ('slice', 'call') or
                t[0] == 'item' and t[2][0] == 'sl'):
            own = None
        C.check(False if own else True if own is False else None, 'fresh',
                'path', 'shares its path with what it is made from', w,
                L.show(t)[:100])
        if s is None:
            C.unk('init', 'path', 'not decided', w)
        elif s == []:
            C.never(I, b.and_(g, given), 'init', 'empty', 'the path given '
                    'is ignored', w)
        else:
            C.check(s in ([('all', ES)], [('all', EX)]), 'init', 'path',
                    'not the path given', w, str([L.show(x[1]) for x in s])
                    [:120])
    # every element is a text, a number or None
    for dom, g in ((ES, L.hasattr(EX, const('selectors'))),
                   (EX, b.not_(L.hasattr(EX, const('selectors'))))):
        bad = b.not_(valid(I, ('elem', dom)))
        bad = I.quant((dom,), b.and_(bad, L.truthy(('elem', dom))))
        C.implies(I, b.and_(out, b.and_(given, g)), b.not_(bad), 'valid',
                  'elements:' + ('copy' if dom == ES else 'list'),
                  'an element of another kind is accepted', where(f))
    for e in raises(I):
        if exc_name(e) == 'ValueError':
            for a in b.support_atoms(e.guard):
                if a[0] == 'exists' and a[1] in (EX, ES):
                    el = ('elem', a[1])
                    C.check(L.implies(a[2], b.not_(valid(I, el))) or
                            (None if opaque_guard(I, a[2]) else False),
                            'valid', 'refused', 'a valid element is refused',
                            e.where)
                elif a[0] in ('isinst', 'isnone') and a[1][0] == 'elem' and \
                        a[1][1] in (EX, ES):
                    C.never(I, b.and_(e.guard, valid(I, a[1])), 'valid',
                            'refused', 'a valid element is refused', e.where)


def add(C):
    f, I = frun(C, '__add__')
    b, L = I.b, I.L
    untouched(C, I, f, '__add__')
    text = L.isinst(OTHER, ('builtin', 'str'))
    num = L.isinst(OTHER, ('builtin', 'int'))
    isfs = L.isinst(OTHER, ('class', FS))
    for g, t in flat(I, I.rv, exits(I)):
        con = '__add__'
        if t in (SELF, OTHER):
            C.never(I, g, 'add', con + ':new', 'not a new selector',
                    where(f))
            continue
        if made(t) is None:
            C.check(None, 'add', con + ':new', 'not decided', where(f))
            continue
        s = content(I, t, g)
        if s is None or not s:
            C.check(None if s is None else False, 'add', con + ':path',
                    'the path is lost', where(f))
            continue
        C.check(s[0] == ('all', SELS), 'add', con + ':first', 'does not '
                'start with the path of the selector', where(f),
                str([L.show(x[1]) for x in s])[:120])
        tail = s[1:]
        if tail == [('one', OTHER)]:
            C.implies(I, g, b.or_(text, num), 'add', con + ':one',
                      'adds what is no path element as one', where(f))
        elif tail == [('all', A(OTHER, 'selectors'))]:
            C.implies(I, g, isfs, 'add', con + ':all', 'reads the path of '
                      'what is no selector', where(f))
        elif tail == [('all', OTHER)]:
            C.never(I, b.and_(g, b.or_(text, num)), 'add', con + ':all',
                    'a name is taken for a list', where(f))
        else:
            C.check(None if any(opaque(x[1]) for x in tail) else False,
                    'add', con + ':tail', 'not the path added', where(f),
                    str([L.show(x[1]) for x in tail])[:120])
    for nm, k in (('str', text), ('int', num), ('selector', isfs)):
        only = b.and_(k, *[b.not_(x) for x in (text, num, isfs) if x != k])
        C.never(I, b.and_(only, raised(I, [
            e for e in raises(I) if not any(
                a[0] in ('raises', 'setfails')
                for a in b.support_atoms(e.guard))])), 'add',
            '__add__:accept:' + nm, 'refused', where(f))


def item(C):
    f, I = frun(C, '__getitem__')
    b, L = I.b, I.L
    K = P('key')
    untouched(C, I, f, '__getitem__', (SELF,))
    sl = L.isinst(K, ('builtin', 'slice'))
    for g, t in flat(I, I.rv, exits(I)):
        a = made(t)
        if a is not None:
            C.implies(I, g, sl, 'item', 'slice', 'a selector for a single '
                      'position', where(f))
            x = a[0] if len(a) == 1 else None
            C.check(x == ('item', SELS, K) or (
                None if x is None or opaque(x) or
                x[0] not in ('item', 'attr', 'param', 'slice') else False),
                'item', 'slice:path', 'not the part of the path asked for',
                where(f), L.show(t)[:100])
        elif t == ('item', SELS, K):
            C.never(I, b.and_(g, sl), 'item', 'single', 'a slice is no '
                    'selector', where(f))
        else:
            C.check(None if opaque(t) or t[0] not in (
                'item', 'const', 'attr', 'param') else False, 'item',
                'single', 'not the element asked for', where(f),
                L.show(t)[:100])


def grow(C):
    """methods which extend the selector itself"""
    for name, kind, arg, ok in (
            ('add_property', 'append', 'prop', 'str'),
            ('add_index', 'append', 'index', 'int'),
            ('add_full_collection', 'append', None, None),
            ('extend', 'extend', 'other', None)):
        f, I = frun(C, name)
        b, L = I.b, I.L
        con = name
        if arg:
            arg2 = params(f)[0]
        out = exits(I)
        done = FALSE
        X = P(arg2) if arg else NONE
        untouched(C, I, f, con, (OTHER,) if arg == 'other' else ())
        known = True
        for e in evs(I, 'mut', 'store', 'setitem', 'delitem'):
            if e.target not in (SELF, SELS):
                continue
            V = None
            if e.kind == 'mut' and e.name in ('append', 'extend', '+=') and \
                    len(e.args) == 1 and not e.loops:
                V = e.args[0]
            elif e.kind == 'store' and e.attr == 'selectors' and not e.loops:
                V = e.value
            if V is None:
                C.unk('grow', con, 'not decided', e.where)
                known = False
                continue
            for g, t in flat(I, V, e.guard):
                if e.kind == 'store':
                    s = seq(I, t)
                    if t == SELS:
                        # result of an augmented assignment
                        continue
                    if s is not None and s[:1] != [('all', SELS)]:
                        C.bad('grow', con + ':before', 'the path so far is '
                              'lost', e.where)
                        continue
                    s = s[1:] if s else None
                elif e.name == 'append':
                    s = [('one', t)]
                else:
                    s = seq(I, t)
                want = [('all', A(OTHER, 'selectors'))] if \
                    arg == 'other' else [('one', X)]
                alt = [[('all', OTHER)]] if arg == 'other' else []
                C.check(None if s is None else s == want or s in alt,
                        'grow', con + ':what', 'appends something else',
                        e.where, L.show(t)[:100])
                C.never(I, b.and_(done, g), 'grow', con + ':once',
                        'appended twice', e.where)
                done = b.or_(done, g)
        if known:
            C.implies(I, out, done, 'grow', con + ':done', 'nothing is '
                      'appended', where(f))
        if ok:
            C.implies(I, b.and_(out, b.not_(L.isinst(X, (
                'builtin', ok)))), FALSE, 'grow', con + ':valid',
                'accepts any value', where(f))
            C.never(I, b.and_(raised(I), L.isinst(X, ('builtin', ok))),
                    'grow', con + ':accept', 'refuses a valid element',
                    where(f))
        if name == 'extend':
            for g, t in flat(I, I.rv, out):
                C.check(t == SELF or (None if opaque(t) else False), 'grow',
                        con + ':self', 'not the selector itself', where(f))


def equality(C):
    cls = C.m.need_class(FS)
    f, I = frun(C, '__eq__')
    b, L = I.b, I.L
    isfs = L.isinst(OTHER, ('class', FS))
    same = L.eq(SELS, A(OTHER, 'selectors'))
    untouched(C, I, f, '__eq__')
    bools(C, I, f, same, 'equal', '__eq__', 'not equality of the paths',
          isfs)
    C.never(I, b.and_(raised(I), isfs), 'equal', '__eq__:raise',
            'two selectors cannot be compared', where(f))
    if '__ne__' in cls.attrs:
        f, I = frun(C, '__ne__')
        b, L = I.b, I.L
        untouched(C, I, f, '__ne__')
        bools(C, I, f, b.not_(L.eq(SELS, A(OTHER, 'selectors'))), 'equal',
              '__ne__', 'not the negation of equality',
              L.isinst(OTHER, ('class', FS)))
    if '__hash__' not in cls.attrs:
        C.bad('equal', '__hash__', 'selectors cannot be hashed', where(f))
        return
    f, I = frun(C, '__hash__')
    for g, t in flat(I, I.rv, exits(I)):
        r = None
        if t[0] == 'const':
            r = True
        elif t[0] == 'call' and t[1] == ('builtin', 'hash') and \
                len(t[2]) == 1:
            s = seq(I, t[2][0])
            r = s == [('all', SELS)] or None
        if any(x == ('builtin', 'id') for x in subterms(t)) or any(
                x == SELF for x in ([t[2][0]] if t[0] == 'call' and
                                    len(t[2]) == 1 else [])):
            r = False
        C.check(r, 'equal', '__hash__', 'not a function of the path',
                where(f), I.L.show(t)[:100])
    C.never(I, raised(I), 'equal', '__hash__:raise', 'refused', where(f))


def pair(a, c):
    """do the terms stand for the same position of the two paths? returns
    (mine, theirs) in order or None"""
    OS = A(OTHER, 'selectors')

    def pos(t):
        if t[0] == 'item' and t[1] in (SELS, OS):
            return t[1], t[2]
        if t[0] == 'elem' and t[1] in (SELS, OS):
            return t[1], ('idx', t[1])
        return None
    x, y = pos(a), pos(c)
    if x and y and x[1] == y[1] and {x[0], y[0]} == {SELS, OS}:
        return x[0] == SELS
    if a[0] == 'item' and c[0] == 'item' and a[1] == c[1] and \
            a[1][0] == 'elem' and a[1][1][0] in ('zip', 'call'):
        return None
    return None


def order(C):
    """the order is that of the elements at the first difference, then that
    of the lengths"""
    cls = C.m.need_class(FS)
    names = [d for d in ('__lt__', '__le__', '__gt__', '__ge__')
             if d in cls.attrs]
    total = any('total_ordering' in ast.dump(d)
                for d in cls.node.decorator_list)
    C.check(total or len(names) == 4 or (None if cls.node.decorator_list
                                         else False), 'order', 'total',
            'some order comparisons are missing', where_cls(cls))
    if '__lt__' not in names:
        C.unk('order', '__lt__', 'defined in another way')
        return
    f, I = frun(C, '__lt__')
    b, L = I.b, I.L
    untouched(C, I, f, '__lt__')
    OS = A(OTHER, 'selectors')

    def order_atom(a):
        """+1: less when true, -1: less when false, None: another atom"""
        if a[0] != 'lt':
            return None
        x, y = a[1], a[2]
        if x == ('len', SELS) and y == ('len', OS):
            return 'len', 1
        if x == ('len', OS) and y == ('len', SELS):
            return 'len', -1
        p = pair(x, y)
        if p is not None:
            return 'el', 1 if p else -1
        return None
    for e in evs(I, 'return'):
        if len(e.stack) != 1:
            continue
        for g, t in flat(I, e.value, e.guard):
            tr = L.truthy(t)
            yes, no = b.and_(g, tr), b.and_(g, b.not_(tr))
            for gg, val in ((yes, True), (no, False)):
                if not L.sat(gg):
                    continue
                inloop = bool(e.loops) or any(
                    (order_atom(a) or ('',))[0] == 'el'
                    for a in b.support_atoms(gg))
                prs = []
                for a in b.support_atoms(gg):
                    o = order_atom(a)
                    if o and o[0] == ('el' if inloop else 'len'):
                        p = (a[1], a[2]) if o[1] == 1 else (a[2], a[1])
                        if p not in prs:
                            prs.append(p)
                con = '__lt__:%s:%s' % ('element' if inloop else 'length',
                                        val)
                if len(prs) != 1:
                    C.unk('order', con, 'not decided', e.where)
                    continue
                x, y = prs[0]
                less, more, eq = L.lt(x, y), L.lt(y, x), L.eq(x, y)
                C.implies(I, gg, b.or_(less, b.not_(b.or_(more, eq))) if val
                          else b.or_(b.not_(less), more, eq), 'order', con,
                          'not in the order of the first difference',
                          e.where)
                if inloop:
                    C.implies(I, gg, b.or_(less, more, b.not_(eq)), 'order',
                              '__lt__:first', 'decided at equal elements',
                              e.where) if val is False else None


def where_cls(c):
    return '%s:%d in %s' % (c.module.rel, c.node.lineno, c.qual)


def starts(C):
    f, I = frun(C, 'startswith')
    b, L = I.b, I.L
    K = P(params(f)[0])
    untouched(C, I, f, 'startswith', (SELF, K))
    multi = b.or_(L.isinst(K, ('class', FS)),
                  L.isinst(K, ('builtin', 'list')),
                  L.isinst(K, ('builtin', 'tuple')))
    yes = no = FALSE
    for g, t in flat(I, I.rv, exits(I)):
        x = L.truthy(t)
        yes = b.or_(yes, b.and_(g, x))
        no = b.or_(no, b.and_(g, b.not_(x)))
    longer = L.lt(('len', SELS), ('len', K))
    KS = A(K, 'selectors')
    longer2 = L.lt(('len', SELS), ('len', KS))
    whole = [a for a in b.support_atoms(yes) if a[0] == 'eq' and any(
        x[0] == 'slice' and x[1] == SELS for x in subterms(a)
        if isinstance(x, tuple) and x)]
    if whole:
        C.unk('starts', 'longer', 'compared as a whole', where(f))
    else:
        C.never(I, b.and_(yes, b.and_(multi, b.and_(longer, longer2))),
                'starts', 'longer', 'starts with what is longer', where(f))
    # some pair of elements differs
    diff = same = some = None
    for a in set(b.support_atoms(yes)) | set(b.support_atoms(no)):
        if a[0] == 'exists':
            d = a[1]
            el = [((('elem', d)), ('item', SELS, ('idx', d)))]
            if d[0] == 'range':
                el.append((('item', K, ('elem', d)),
                           ('item', SELS, ('elem', d))))
                el.append((('item', KS, ('elem', d)),
                           ('item', SELS, ('elem', d))))
            for x, y in el:
                if L.implies(a[2], b.not_(L.eq(x, y))) and L.implies(
                        b.not_(L.eq(x, y)), a[2]) and (
                        d in (K, KS) or d[0] == 'range'):
                    diff = a
                elif L.implies(a[2], L.eq(x, y)) and L.implies(
                        L.eq(x, y), a[2]):
                    some = a
    if some is not None and diff is None:
        C.bad('starts', 'elements:true', 'one equal element is enough',
              where(f))
    elif diff is None:
        # slices compared as a whole
        for a in set(b.support_atoms(yes)):
            if a[0] == 'eq' and multi != FALSE:
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if x[0] == 'slice' and x[1] == SELS and \
                            x[2] in (NONE, const(0)) and x[3] in (
                                ('len', K), ('len', KS)):
                        same = a
        C.unk('starts', 'elements', 'compared in an unknown way', where(f))
    else:
        D = b.atom(diff)
        C.never(I, b.and_(yes, b.and_(multi, D)), 'starts', 'elements:true',
                'starts with a path which differs', where(f))
        for a in b.support_atoms(no):
            if a[0] == 'eq' and a[1] != a[2] and all(
                    x[0] == 'elem' or x[0] == 'item' and
                    x[2][0] in ('elem', 'idx') for x in a[1:3]):
                D = b.or_(D, b.not_(b.atom(a)))
        C.implies(I, b.and_(no, multi), b.or_(D, longer, longer2), 'starts',
                  'elements:false', 'does not start with its own beginning',
                  where(f))
    first = L.eq(('item', SELS, const(0)), K)
    single = b.not_(multi)
    C.implies(I, b.and_(yes, single), b.and_(first, L.truthy(SELS)),
              'starts', 'single:true', 'the first element is another',
              where(f))
    C.implies(I, b.and_(no, single), b.or_(b.not_(first), b.not_(
        L.truthy(SELS))), 'starts', 'single:false', 'the first element is '
        'not recognised', where(f))


def length(C):
    f, I = frun(C, '__len__')
    for g, t in flat(I, I.rv, exits(I)):
        C.check(t == ('len', SELS) or (None if opaque(t) or t[0] not in (
            'const', 'len', 'bin') else False),
            'length', '__len__', 'not the length of the path', where(f),
            I.L.show(t)[:80])


def pickled(C):
    cls = C.m.need_class(FS)
    if '__getnewargs__' not in cls.attrs:
        return
    f, I = frun(C, '__getnewargs__')
    for g, t in flat(I, I.rv, exits(I)):
        s = seq(I, t)
        ok = None
        if s is not None and len(s) == 1 and s[0][0] == 'one':
            ok = seq(I, s[0][1]) == [('all', SELS)]
        C.check(ok, 'pickle', '__getnewargs__', 'not the path', where(f))


def frozen(C):
    """methods which do not extend the selector leave it alone"""
    cls = C.m.need_class(FS)
    for n, f in sorted(cls.attrs.items()):
        if n in ('__init__', 'add_property', 'add_index', 'extend',
                 'add_full_collection', '__add__', '__eq__', '__ne__',
                 '__lt__', '__getitem__', 'startswith', '__iadd__',
                 '__setstate__') or n.startswith('_') and \
                not n.startswith('__') or not isinstance(f, Func) or \
                f.kind in ('classmethod', 'staticmethod'):
            continue
        f, I = frun(C, n)
        untouched(C, I, f, n, (SELF,))


RULES = {'C23': c23}
