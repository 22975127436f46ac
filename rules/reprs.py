"""C34 repr() is the source which makes an equal object"""
import re

from .base import *
from .selectors import FS
from .multisel import MS

REC = 'normalize.record.Record'
LIST = 'normalize.coll.ListCollection'
DICT = 'normalize.coll.DictCollection'
D = A(SELF, '__dict__')
PROPS = A(('typeof', SELF), 'properties')


def pieces(t, depth=0):
    """the text as [str | ('s', term) | ('r', term) | ('join', sep, term)]"""
    if depth > 12:
        return None
    if t[0] == 'const':
        return [str(t[2])] if t[1] == 'str' else [('s', t)]
    if t[0] == 'bin' and t[1] == 'Add':
        a, c = pieces(t[2], depth + 1), pieces(t[3], depth + 1)
        return None if a is None or c is None else glue(a + c)
    if t[0] == 'call' and t[1] == ('builtin', 'repr') and len(t[2]) == 1:
        return [('r', t[2][0])]
    if t[0] == 'call' and t[1] == ('builtin', 'str') and len(t[2]) == 1:
        return pieces(t[2][0], depth + 1)
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'join' and \
            t[1][1][0] == 'const' and len(t[2]) == 1:
        return [('join', t[1][1][2], t[2][0])]
    if t[0] == 'fmt':
        fm, args = t[1], list(t[2:])
        if fm[0] != 'const' or fm[1] != 'str':
            out = []
            for x in t[1:]:
                p = pieces(x, depth + 1)
                if p is None:
                    return None
                out += p
            return glue(out)
        if len(args) == 1 and args[0][0] == 'new' and not re.search(
                r'%|\{', fm[2]):
            return [('join', fm[2], args[0])]
        for pat, conv in ((r'%[srd]', lambda m: m[1]),
                          (r'\{\d*(?:![rs])?\}', lambda m: 'r' if '!r' in m
                           else 's')):
            ms = re.findall(pat, fm[2])
            if ms and len(ms) == len(args):
                ps = re.split(pat, fm[2])
                if any('%' in p or '{' in p or '}' in p for p in ps):
                    return None
                if pat[0] != '%' and any(re.search(r'\d', m) and int(
                        re.findall(r'\d+', m)[0]) != i
                        for i, m in enumerate(ms)):
                    return None
                out = [ps[0]]
                for m, a, p in zip(ms, args, ps[1:]):
                    k = conv(m)
                    if k == 'r':
                        out.append(('r', a))
                    else:
                        x = pieces(a, depth + 1)
                        if x is None:
                            return None
                        out += x
                    out.append(p)
                return glue(out)
        # an f-string which begins with a text
        if not any(x[0] == 'const' and '%' in str(x[2]) for x in t[1:]):
            out = []
            for x in t[1:]:
                p = pieces(x, depth + 1)
                if p is None:
                    return None
                out += p
            return glue(out)
        return None
    return [('s', t)]


def glue(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '':
            out.append(p)
    return out


def known(ps):
    return ps is not None and not any(
        not isinstance(p, str) and opaque(p) for p in ps)


def c34(C):
    record(C)
    coll(C, LIST)
    coll(C, DICT)
    json(C)
    selector(C)
    multi(C)


NAMES = (A(('typeof', SELF), '__name__'),
         A(SELF, '__class__', '__name__'))


def run(C, cls, **kw):
    c = C.m.need_class(cls)
    own, f = c.lookup('__repr__')
    return f, C.run(f, selfcls=cls, **kw)


def whole(C, I, f, t, con, g):
    """name(…): what is between the brackets, or None"""
    ps = pieces(t)
    w = where(f)
    if not known(ps):
        C.unk('repr', con + ':form', 'not decided', w)
        return None
    ok = len(ps) >= 2 and not isinstance(ps[0], str) and \
        ps[0][0] == 's' and ps[0][1] in NAMES and \
        isinstance(ps[1], str) and ps[1].startswith('(') and \
        isinstance(ps[-1], str) and ps[-1].endswith(')')
    if not ok:
        odd = any(not isinstance(p, str) and p[1] not in NAMES and
                  p[0] == 's' and p[1][0] in ('call', 'item')
                  for p in ps[:1])
        C.check(None if odd else False, 'repr', con + ':form', 'not a '
                'call of the type', w, str(ps)[:100])
        return None
    C.ok('repr', con + ':form', w)
    if len(ps) == 2:
        return glue([ps[1][1:-1]])
    return glue([ps[1][1:]] + ps[2:-1] + [ps[-1][:-1]])


def record(C):
    f, I = run(C, REC)
    b, L = I.b, I.L
    w = where(f)
    con = 'Record'
    for g, t in flat(I, I.rv, exits(I)):
        if not L.sat(g):
            continue
        ins = whole(C, I, f, t, con, g)
        if ins is None:
            continue
        if len(ins) != 1 or isinstance(ins[0], str) or \
                ins[0][0] != 'join' or ins[0][2] not in I.conts:
            C.unk('repr', con + ':slots', 'not decided', w)
            continue
        C.check(ins[0][1].strip() == ',', 'repr', con + ':separator',
                'not separated by commas', w, repr(ins[0][1]))
        got = FALSE
        dom = None
        for e in I.conts[ins[0][2]].entries:
            if e.star or len(e.loops) != 1:
                C.unk('repr', con + ':slots', 'not decided', w)
                got = TRUE
                continue
            d = e.loops[0]
            el = ('elem', d)
            if d not in (PROPS, D):
                C.unk('repr', con + ':slots', 'not decided', w)
                got = TRUE
                continue
            dom = d
            there = L.in_(el, D) if d == PROPS else TRUE
            for gg, x in flat(I, e.val, e.guard):
                ps = pieces(x)
                if not known(ps):
                    C.unk('repr', con + ':slot', 'not decided', w)
                    continue
                v = ps[2] if len(ps) == 3 else None
                key = ps[0] if ps else None
                names = (el, A(('item', PROPS, el), 'name'))
                ok = len(ps) == 3 and ps[1] == '=' and key[0] == 's' and \
                    key[1] in names
                odd = any(not isinstance(p, str) and p[1][0] == 'call'
                          for p in ps)
                C.check(ok or (None if odd else False), 'repr', con +
                        ':name', 'not name=value', w, str(ps)[:100])
                if ok:
                    vals = [('item', D, n) for n in names] + [
                        ('dattr', SELF, n) for n in names]
                    C.check(not isinstance(v, str) and v[0] == 'r' and
                            v[1] in vals or (
                                None if not isinstance(v, str) and
                                v[1][0] == 'call' else False), 'repr',
                            con + ':value', 'not the source of the value',
                            w, str(v)[:100])
                got = b.or_(got, gg)
            C.implies(I, e.guard, there, 'repr', con + ':there', 'a slot '
                      'without a value is read', w)
        if dom is not None:
            there = L.in_(('elem', dom), D) if dom == PROPS else TRUE
            C.implies(I, there, got, 'repr', con + ':each', 'a value is '
                      'left out', w)
    whole_loop(C, I, lambda d: d in (PROPS, D), 'repr', con + ':end',
               'later slots are left out')


def coll(C, cls):
    f, I = run(C, cls, boundary=[REC + '.__repr__'])
    b, L = I.b, I.L
    w = where(f)
    con = short(cls)
    vals = A(SELF, '_values')
    for g, t in flat(I, I.rv, exits(I)):
        if not L.sat(g):
            continue
        if t[0] != 'call' or t[1][0] != 'attr' or t[1][2] != 'replace' or \
                len(t[2]) < 2 or t[2][0] != const('('):
            sup = t[0] == 'call' and t[1][-1:] and str(
                t[1][-1]).endswith('__repr__')
            C.check(False if sup else None, 'repr', con + ':items',
                    'the items are left out', w, L.show(t)[:80])
            continue
        base = t[1][1]
        C.check(t[2][2:3] == (const(1),) or any(
            k == ('count', const(1)) for k in t[3]) or (
                None if len(t[2]) > 2 or t[3] else False), 'repr', con +
            ':once', 'what is inside of the properties is changed too', w)
        ps = pieces(t[2][1])
        if not known(ps) or not ps or not isinstance(ps[0], str):
            C.unk('repr', con + ':items', 'not decided', w)
            continue
        empty = L.truthy(('call', ('attr', base, 'endswith'), (const(
            '()'),), ()))
        tail = ps[-1] if isinstance(ps[-1], str) else ''
        comma = tail.rstrip().endswith(',')
        if any(mentions(a, base) for a in b.support_atoms(g)) and \
                empty in (g, b.not_(g)) or g == TRUE:
            C.check(not L.sat(b.and_(g, empty if comma else b.not_(
                empty))), 'repr', con + ':comma', 'the properties are not '
                'separated from the items', w)
        mid = [p for p in ps if not isinstance(p, str)]
        text = ''.join(p if isinstance(p, str) else '\0' for p in ps)
        text = text.rstrip().rstrip(',').rstrip()
        if cls == DICT:
            C.check(mid in ([('r', vals)], [('s', vals)]) and
                    text == '(\0' or (
                None if len(mid) != 1 or mid[0][0] == 'join' or
                mid[0][1] in I.conts and
                I.conts[mid[0][1]].kind == 'dict' else False),
                'repr', con + ':items', 'not the items', w, str(ps)[:100])
            continue
        if mid in ([('r', vals)], [('s', vals)]):
            # repr() of the list itself
            C.check(text == '(\0', 'repr', con + ':items', 'not the items',
                    w)
            continue
        if len(mid) != 1 or mid[0][0] != 'join' or mid[0][2] not in I.conts:
            C.unk('repr', con + ':items', 'not decided', w)
            continue
        C.check(text == '([\0]' and mid[0][1].strip() == ',', 'repr', con +
                ':items', 'not a list', w, repr(text))
        for e in I.conts[mid[0][2]].entries:
            if e.star or len(e.loops) != 1 or e.loops[0] not in (
                    vals, SELF):
                C.unk('repr', con + ':items', 'not decided', w)
                continue
            for gg, x in flat(I, e.val, e.guard):
                p = pieces(x)
                C.check(p == [('r', ('elem', e.loops[0]))] or (
                    None if not known(p) else False), 'repr', con + ':item',
                    'not the source of the item', w, str(p)[:100])
            C.implies(I, TRUE, e.guard, 'repr', con + ':each', 'an item is '
                      'left out', w)
    whole_loop(C, I, lambda d: d in (vals, SELF), 'repr', con + ':end',
               'later items are left out', True)


def json(C):
    """collections whose first argument is JSON name the values"""
    for cls, br in (('normalize.record.json.JsonRecordList', '['),
                    ('normalize.record.json.JsonRecordDict', '{')):
        f, I = run(C, cls, boundary=[x + '.__repr__' for x in (
            REC, LIST, DICT, 'normalize.coll.Collection')])
        L = I.L
        w = where(f)
        con = short(cls)
        c = C.m.need_class(cls)
        own, init = c.lookup('__init__')
        ps = [x.arg for x in init.node.args.args][1:]
        if not ps or ps[0] == 'values':
            C.ok('repr', con + ':values', w)
            continue
        for g, t in flat(I, I.rv, exits(I)):
            if t[0] == 'call' and t[1][0] == 'attr' and \
                    t[1][2] == 'replace' and len(t[2]) >= 2 and all(
                        x[0] == 'const' for x in t[2]):
                a, r = t[2][0][2], t[2][1][2]
                C.check(a == br and r == 'values=' + br or
                        a == '(' + br and r == '(values=' + br, 'repr',
                        con + ':values', 'the items are given as something '
                        'else', w, '%r %r' % (a, r))
                C.check(t[2][2:3] == (const(1),) or (
                    None if len(t[2]) > 2 or t[3] else False), 'repr',
                    con + ':once', 'what is inside of the items is changed '
                    'too', w)
            else:
                C.check(False if t[0] == 'call' and str(t[1][-1]).endswith(
                    '__repr__') else None, 'repr', con + ':values',
                    'the items are given as JSON', w, L.show(t)[:80])


def selector(C):
    f, I = run(C, FS)
    w = where(f)
    for g, t in flat(I, I.rv, exits(I)):
        ins = whole(C, I, f, t, 'FieldSelector', g)
        if ins is not None:
            C.check(ins in ([('r', A(SELF, 'selectors'))],
                            [('s', A(SELF, 'selectors'))]) or (
                None if ins[:1] and isinstance(ins[0], str) and
                ins[0][:1] == '[' else False), 'repr',
                    'FieldSelector:path', 'not the path', w, str(ins)[:100])


def multi(C):
    f, I = run(C, MS, boundary=[MS + '.__iter__'])
    w = where(f)
    con = 'MultiFieldSelector'
    for g, t in flat(I, I.rv, exits(I)):
        ps = pieces(t)
        if not known(ps) or len(ps) != 2 or isinstance(ps[1], str) or \
                ps[1][0] != 'r' or ps[1][1] not in I.conts:
            C.unk('repr', con, 'not decided', w)
            continue
        C.check(ps[0] == con or (None if not isinstance(ps[0], str)
                                 else False), 'repr', con + ':form',
                'not a call of the type', w)
        k = ps[1][1]
        C.check(I.conts[k].kind == 'tuple' or (
            None if I.conts[k].kind == 'gen' else False), 'repr', con +
            ':arguments', 'not the arguments of a call', w)
        es = list(I.conts[k].entries)
        for n in range(3):
            if len(es) == 1 and es[0].star:
                xs = [x for gg, x in flat(I, es[0].val)]
                if len(xs) == 1 and xs[0] in I.conts:
                    es = list(I.conts[xs[0]].entries)
        for e in es:
            if e.star or e.loops != (SELF,):
                C.unk('repr', con + ':each', 'not decided', w)
                continue
            for gg, x in flat(I, e.val, e.guard):
                C.check(x == A(('elem', SELF), 'selectors') or (
                    None if opaque(x) or x[0] in ('call', 'new') else False),
                    'repr', con + ':selector', 'not the path', w,
                    I.L.show(x)[:80])
            C.implies(I, TRUE, e.guard, 'repr', con + ':each', 'a selector '
                      'is left out', w)


RULES = {'C34': c34}
