"""C24 the text of a selector reads back as the same selector"""
import ast
import re

from sa import rx
from .base import *
from .selectors import FS, SELS, frun, made

EL = ('elem', SELS)


def template(t):
    """a formatted text as a list of constant texts and terms"""
    if t[0] == 'const' and t[1] == 'str':
        return [t[2]]
    if t[0] == 'bin' and t[1] == 'Add':
        a, c = template(t[2]), template(t[3])
        return None if a is None or c is None else a + c
    if t[0] == 'fmt':
        fm, args = t[1], list(t[2:])
        if fm[0] == 'const' and fm[1] == 'str':
            s = fm[2]
            if args and s == '':
                return None
            ps = re.split(r'%[sd]', s)
            if len(ps) == len(args) + 1 and len(ps) > 1:
                if any('%' in p for p in ps):
                    return None
                out = [ps[0]]
                for a, p in zip(args, ps[1:]):
                    out += [a, p]
                return out
            ps = re.split(r'\{\d*\}', s)
            if len(ps) == len(args) + 1 and len(ps) > 1 and \
                    re.findall(r'\{(\d*)\}', s) in (
                        [''] * len(args),
                        [str(i) for i in range(len(args))]):
                if any('{' in p or '}' in p for p in ps):
                    return None
                out = [ps[0]]
                for a, p in zip(args, ps[1:]):
                    out += [a, p]
                return out
        # an f-string
        if all(x[0] == 'const' and x[1] == 'str' and '%' not in x[2]
               or x[0] != 'const' for x in t[1:]):
            return [x[2] if x[0] == 'const' else x for x in t[1:]]
        return None
    return [t]


def merged(parts):
    """(before, term, after) of a template with at most one term"""
    ts = [p for p in parts if not isinstance(p, str)]
    if len(ts) > 1:
        return None
    if not ts:
        return ''.join(parts), None, ''
    i = [k for k, p in enumerate(parts) if not isinstance(p, str)][0]
    return ''.join(parts[:i]), ts[0], ''.join(parts[i + 1:])


def escape(t, what):
    """the character map of a chain of replacements applied to `what`"""
    chain = []
    while t != what:
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'replace' and \
                len(t[2]) == 2 and not t[3] and all(
                    a[0] == 'const' and a[1] == 'str' for a in t[2]):
            chain.append((t[2][0][2], t[2][1][2]))
            t = t[1][1]
        elif t[0] == 'call' and t[1] == ('builtin', 'str') and \
                len(t[2]) == 1:
            t = t[2][0]
        else:
            return None
    chain.reverse()
    if any(len(a) != 1 for a, c in chain):
        return None

    def h(c):
        w = c
        for a, r in chain:
            w = w.replace(a, r)
        return w
    h.special = ''.join(a + r for a, r in chain)
    return h


def compiled(I, t):
    """(pattern, flags) of a constant compiled pattern term"""
    if t[0] == 'modvar':
        e = I.modvar_expr(t)
        if not isinstance(e, ast.Call) or not e.args:
            return None
        n = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(
            e.func, 'id', None)
        if n != 'compile':
            return None
        p = I.static_value(I.model.modules[t[1]], e.args[0])
        if p is None and isinstance(e.args[0], ast.Constant):
            p = ('const', 'str', e.args[0].value)
        if p is None or p[0] != 'const' or not isinstance(p[2], str):
            return None
        fl = 0
        fs = e.args[1:] + [k.value for k in e.keywords if k.arg == 'flags']
        for f in fs:
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute):
                    fl |= int(getattr(re, x.attr, 0))
                elif isinstance(x, ast.Constant):
                    return None
        return p[2], fl
    if t[0] == 'const' and t[1] == 'str':
        return t[2], 0
    if t[0] == 'call' and t[1] == ('ext', 're.compile') and \
            t[2] and t[2][0][0] == 'const' and not t[3]:
        fl = flags_of(t[2][1:])
        return None if fl is None else (t[2][0][2], fl)
    return None


def flags_of(ts):
    fl = 0
    for t in ts:
        for x in subterms(t):
            if x[0] == 'ext' and x[1].startswith('re.'):
                fl |= int(getattr(re, x[1][3:], 0))
            elif x[0] not in ('bin', 'ext'):
                return None
    return fl


def regex_call(I, t):
    """(method, (pattern, flags), text) of a call of a constant pattern"""
    if t[0] != 'call':
        return None
    c = t[1]
    if c[0] == 'ext' and c[1].startswith('re.') and len(t[2]) >= 2:
        p = compiled(I, t[2][0])
        fl = flags_of(t[2][2:]) if c[1] != 're.sub' else 0
        if p is None or fl is None or t[3]:
            return None
        return c[1][3:], (p[0], p[1] | fl), t[2][1]
    if c[0] == 'attr' and t[2]:
        p = compiled(I, c[1]) if c[1][0] != 'const' else None
        if p is None or len(t[2]) != 1 or t[3]:
            return None
        return c[2], p, t[2][0]
    return None


class Text(object):
    """what the elements of a path are formatted as"""

    def __init__(self, C):
        self.f, self.I = frun(C, 'path')
        I = self.I
        self.parts = None
        for g, t in flat(I, I.rv, exits(I)):
            if t[0] == 'fmt' and len(t) == 3 and t[1][0] == 'const' and \
                    t[2] in I.conts:
                self.parts = t[2]
                self.sep = t[1][2]
                self.guard = g
            elif t[0] == 'call' and t[1][0] == 'attr' and \
                    t[1][2] == 'join' and t[1][1][0] == 'const' and \
                    len(t[2]) == 1 and t[2][0] in I.conts:
                self.parts, self.sep = t[2][0], t[1][1][2]
                self.guard = g


def c24(C):
    T = Text(C)
    I, f = T.I, T.f
    b, L = I.b, I.L
    if T.parts is None:
        C.unk('text', 'path', 'built in an unknown way', where(f))
        return
    C.check(T.sep == '', 'text', 'separator', 'the elements are separated',
            where(f))
    C.implies(I, exits(I), T.guard, 'text', 'always', 'not always the text '
              'of the path', where(f))
    alts = []
    for e in I.conts[T.parts].entries:
        if e.loops != (SELS,) or e.star:
            C.check(None if e.star or not e.loops or not
                    mentions(e.loops[0], SELS) else False, 'text', 'whole',
                    'not the whole path is formatted', where(f),
                    str([L.show(x) for x in e.loops])[:100])
            return
        for g, t in flat(I, e.val, e.guard):
            alts.append((g, t))
    anyg = b.or_(*[g for g, t in alts]) if alts else FALSE
    C.implies(I, TRUE, anyg, 'text', 'each', 'an element is left out',
              where(f))
    whole_loop(C, I, lambda d: d == SELS, 'text', 'end',
               'not the whole path is formatted')
    scan = Scan(C)
    if scan.alts is None:
        C.unk('scan', 'from_path', 'read in an unknown way', where(scan.f))
        return
    try:
        agree(C, T, alts, scan)
    except rx.Unsupported as e:
        C.unk('scan', 'patterns', 'pattern not in the decided fragment: %s'
              % e, where(f))


class Scan(object):
    """how a text is read"""

    def __init__(self, C):
        self.f, self.I = frun(C, 'from_path')
        I = self.I
        self.alts = None
        conts = [k for k in I.conts if any(
            e.loops for e in I.conts[k].entries)]
        res = None
        for g, t in flat(I, I.rv, exits(I)):
            a = made(t)
            if a is None or len(a) != 1 or res not in (None, a[0]):
                return
            res = a[0]
        if res not in I.conts:
            return
        self.out = []
        dom = None
        for e in I.conts[res].entries:
            if len(e.loops) != 1 or e.star or dom not in (None, e.loops[0]):
                return
            dom = e.loops[0]
            self.out += flat(I, e.val, e.guard)
        if dom is None:
            return
        r = regex_call(I, dom)
        if r is None or r[0] != 'finditer' or r[2] != P('path'):
            return
        self.pattern = r[1]
        self.match = ('elem', dom)
        self.dom = dom
        whole_loop(C, I, lambda d: d == dom, 'scan', 'end',
                   'not the whole text is read')
        self.alts, self.fl = rx.alternatives(*r[1])

    def group(self, t):
        """the group a term reads, or None"""
        m = self.match
        if t[0] == 'call' and t[1] == ('attr', m, 'group') and \
                len(t[2]) == 1 and t[2][0][0] == 'const':
            return t[2][0][2]
        if t[0] == 'item' and t[2][0] == 'const' and t[1][0] == 'call' and \
                t[1][1] == ('attr', m, 'group') and len(t[1][2]) > 1 and \
                isinstance(t[2][2], int) and t[2][2] < len(t[1][2]) and \
                t[1][2][t[2][2]][0] == 'const':
            return t[1][2][t[2][2]][2]
        if t[0] == 'item' and t[1] == m and t[2][0] == 'const':
            return t[2][2]
        if t[0] == 'item' and t[2][0] == 'const' and t[1][0] == 'call' and \
                t[1][1] == ('attr', m, 'groupdict') and not t[1][2]:
            return t[2][2]
        return None


def agree(C, T, alts, S):
    I, f = T.I, T.f
    b, L = I.b, I.L
    isint = L.isinst(EL, ('builtin', 'int'))
    isnone = L.isnone(EL)
    isstr = L.isinst(EL, ('builtin', 'str'))
    # regular predicates on the name
    tests = {}
    for g, t in alts:
        for a in b.support_atoms(g):
            x = None
            if a[0] == 'truthy':
                x = a[1]
            elif a[0] == 'isnone':
                x = a[1]
            r = regex_call(I, x) if x is not None else None
            if r and r[2] == EL and r[0] in ('match', 'fullmatch', 'search'):
                tests[a] = (r[0], r[1], a[0] == 'truthy')
    # the alphabet
    ps = []
    for k, (p, fl), pos in tests.values():
        rx.preds(list(rx.parse(p, fl)[0]), rx.parse(p, fl)[1], ps)
    rx.preds(list(rx.parse(*S.pattern)[0]), S.fl, ps)
    hs = {}
    special = '\n-0123456789'
    for g, t in alts:
        tp = template(t)
        m = merged(tp) if tp is not None else None
        if m is None:
            C.unk('text', 'format', 'not decided: ' + L.show(t)[:80],
                  where(f))
            continue
        special += m[0] + m[2]
        hs[t] = (m, None)
        if m[1] is not None:
            h = escape(m[1], EL)
            if h is None:
                C.unk('text', 'format', 'not decided: ' + L.show(t)[:80],
                      where(f))
                del hs[t]
                continue
            special += h.special
            hs[t] = (m, h)
    sigma = rx.alphabet(ps, ''.join(sorted(set(special))))
    digits = [c for c in sigma if c in '0123456789']
    number = rx.language(list(rx.parse('-?[0-9]+')[0]), 0, sigma)
    every = rx.language(list(rx.parse('(?s:.)*', re.S)[0]) if False else
                        list(rx.parse('.*', re.S)[0]), re.S, sigma)
    classes = []
    for g, t in alts:
        if t not in hs:
            continue
        (pre, arg, post), h = hs[t]
        if L.sat(b.and_(g, isint)):
            if arg is None:
                C.bad('text', 'number', 'the number is lost', where(f))
            else:
                classes.append(('number', pre, rx.image(number, h, pre, post),
                                rx.image(number, h), post, h))
        if L.sat(b.and_(g, isnone)):
            if arg is None:
                w = pre + post
                z = rx.language([], 0, sigma)
                classes.append(('None', w, rx.image(z, str, w),
                                rx.image(z, str, w), '', None))
            else:
                C.unk('text', 'None', 'not decided', where(f))
        gs = b.and_(g, isstr, b.not_(isint), b.not_(isnone))
        if L.sat(gs):
            if arg is None:
                C.bad('text', 'name', 'the name is lost', where(f))
                continue
            lang, neg = every, False
            n = 0
            for a, (kind, p, pos) in tests.items():
                A1 = b.atom(a)
                if not pos:
                    A1 = b.not_(A1)
                if L.implies(gs, A1):
                    lang, neg = rx.matching(p[0], p[1], kind, sigma), False
                    n += 1
                elif L.implies(gs, b.not_(A1)):
                    lang, neg = rx.matching(p[0], p[1], kind, sigma), True
                    n += 1
            if n > 1 or any(a not in tests and mentions(a, EL) and
                            a[0] not in ('isinst', 'isnone')
                            for a in b.support_atoms(gs)):
                C.unk('text', 'name', 'the names it is used for are not '
                      'known', where(f))
                continue
            classes.append(('name %s' % ('plain' if pre == '.' else 'quoted'), pre,
                            rx.image(lang, h, pre, post, neg),
                            rx.image(lang, h, '', '', neg), post, h))
    seen = {k[0].split()[0] for k in classes}
    firsts = sorted({k[1][:1] for k in classes if k[1]})
    if any(not k[1] for k in classes):
        C.unk('scan', 'elements', 'an element starts in an unknown way',
              where(f))
        return
    toks = []
    for pre, gid, body, post in S.alts:
        toks.append((rx.language(pre + body + post, S.fl, sigma),
                     rx.literal(pre), gid,
                     rx.language(body, S.fl, sigma), rx.literal(post),
                     body, post))
    union = rx.NFA()
    union.final = set()
    for pre, gid, body, post in S.alts:
        z = union.new()
        union.add(0, None, z)
        union.final.add(rx.build(pre + body + post, S.fl, sigma, union, z))
    union = rx.Lang(union, sigma)
    w0 = where(S.f)
    for name, pre, full, body, post, h in classes:
        con = name
        x = rx.within(full, union)
        if x is not None:
            C.bad('scan', con + ':read', 'a text which is not read as one '
                  'element', w0, repr(x))
            continue
        C.ok('scan', con + ':read', w0)
        rest = rx.suffixed(full, firsts, True, sigma)
        longer = rx.suffixed(full, firsts, False, sigma)
        hit = None
        for i, (lang, lp, gid, inner, ls, items, tail) in enumerate(toks):
            if lp == pre and ls == post and gid is not None or \
                    name == 'None' and rx.within(full, lang) is None:
                if rx.within(full, lang) is None:
                    hit = i
                    break
            # an alternative which is tried before
            x = rx.common(rx.prefixed(lang, sigma), rest)
            if x is not None:
                C.bad('scan', con + ':order', 'read as another kind of '
                      'element', w0, repr(x))
        if hit is None:
            C.unk('scan', con + ':kind', 'not decided', w0)
            continue
        lang, lp, gid, inner, ls, items, tail = toks[hit]
        x = rx.common(longer, lang)
        short_ = rx.common(rx.suffixed(lang, sigma, False, sigma), full)
        if x is not None:
            C.bad('scan', con + ':end', 'read together with what follows',
                  w0, repr(x))
        elif short_ is None:
            C.ok('scan', con + ':end', w0)
        elif not tail and rx.tail_greedy(items):
            C.ok('scan', con + ':end', w0)
        else:
            C.check(False if rx.lazy(items) and not tail else None, 'scan',
                    con + ':end', 'only a part of it is read', w0,
                    repr(short_))
        value(C, S, name, gid, rx.common(body, rx.language([], 0, sigma))
              is not None, h, sigma)
    for k in ('number', 'None', 'name'):
        if k not in seen:
            C.unk('text', k, 'not decided', where(f))


def value(C, S, name, gid, empty, h, sigma):
    """what is made of the text in group gid"""
    I, f = S.I, S.f
    b, L = I.b, I.L
    w = where(f)
    cases = [True]
    if empty and name.startswith('name'):
        cases.append(False)
    for nonempty in cases:
        con = name + ('' if nonempty else ':empty')

        def fn(a):
            if a[0] in ('isnone', 'truthy'):
                x, inner = S.group(a[1]), a[1]
                if x is None and a[1][0] == 'call':
                    # a conversion of the group
                    for y in subterms(a[1]):
                        z = S.group(y) if y else None
                        if z is not None:
                            x = z
                    if x is not None and x != gid:
                        return None
                    if x is not None and a[0] == 'truthy' and \
                            a[1][1][0] == 'builtin' and \
                            a[1][1][1] == 'int':
                        return None
                if x is None:
                    return None
                if a[0] == 'isnone':
                    return FALSE if x == gid else TRUE
                if x != gid:
                    return FALSE
                return TRUE if nonempty else FALSE
            if a[0] == 'eq':
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if x == ('attr', S.match, 'lastgroup') and \
                            y[0] == 'const':
                        return TRUE if y[2] == gid else FALSE
            return None
        got = []
        for g, t in S.out:
            g = subst(I, g, fn)
            if L.sat(g):
                got.append((g, t))
        allg = b.or_(*[g for g, t in got]) if got else FALSE
        odd = [a for a in b.support_atoms(allg) if mentions(a, S.match) and
               # a number may be zero or not
               not (name == 'number' and a[0] == 'truthy' and
                    a[1][0] == 'call' and a[1][1] == ('builtin', 'int') and
                    len(a[1][2]) == 1 and S.group(a[1][2][0]) == gid) and
               not any(S.group(x) is not None for x in a[1:]
                       if isinstance(x, tuple) and x)]
        if odd and not L.implies(TRUE, allg):
            C.unk('value', con + ':kept', 'not decided', w)
            continue
        C.implies(I, TRUE, allg, 'value', con + ':kept', 'the element is '
                  'lost', w)
        for g, t in got:
            if name == 'None':
                C.check(t == NONE or (
                    False if t[0] == 'const' or S.group(t) is not None or
                    t[0] == 'call' and t[1] == ('builtin', 'int')
                    else None), 'value',
                        con, 'not read as None', w, L.show(t)[:80])
                continue
            if name == 'number':
                ok = t[0] == 'call' and t[1] == ('builtin', 'int') and \
                    len(t[2]) == 1 and S.group(t[2][0]) == gid
                known = t[0] == 'const' or S.group(t) is not None or \
                    t[0] == 'call' and t[1] == ('builtin', 'int') and \
                    len(t[2]) == 1 and S.group(t[2][0]) is not None
                C.check(ok or (False if known else None),
                        'value', con, 'not read as the number', w,
                        L.show(t)[:80])
                continue
            unescaped(C, S, con, t, gid, h, sigma, w)


def unescaped(C, S, con, t, gid, h, sigma, w):
    I = S.I
    if S.group(t) == gid:
        bad = [c for c in sigma if h(c) != c]
        if name_only(con, bad, sigma):
            C.ok('value', con, w)
        else:
            C.bad('value', con, 'what was escaped is not put back', w,
                  repr(bad)[:60])
        return
    if t[0] == 'const':
        C.bad('value', con, 'the name is lost', w)
        return
    if S.group(t) is not None:
        C.bad('value', con, 'read from another part', w)
        return
    # re.sub(pattern, replacement, group)
    p = rp = None
    if t[0] == 'call' and t[1] == ('ext', 're.sub') and len(t[2]) == 3 and \
            S.group(t[2][2]) == gid and not t[3]:
        p, rp = compiled(I, t[2][0]), t[2][1]
    elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'sub' and \
            len(t[2]) == 2 and S.group(t[2][1]) == gid:
        p, rp = compiled(I, t[1][1]), t[2][0]
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'replace' and \
            S.group(t[1][1]) == gid and len(t[2]) == 2 and not t[3] and all(
                x[:2] == ('const', 'str') for x in t[2]):
        bad = [c for c in sigma
               if h(c).replace(t[2][0][2], t[2][1][2]) != c]
        C.check(not bad, 'value', con, 'what was escaped is not put back', w,
                repr(bad)[:60])
        return
    if p is None:
        num = t[0] == 'call' and t[1] in (
            ('builtin', 'int'), ('builtin', 'float')) and con == 'name quoted'
        C.check(False if num else None, 'value', con, 'read as a number' if
                num else 'unescaped in an unknown way', w)
        return
    seq, fl = rx.parse(*p)
    seq = list(seq)
    ok = len(seq) == 2 and seq[0][0] is rx.sc.LITERAL and \
        seq[1][0] is rx.sc.SUBPATTERN and seq[1][1][0] == 1 and \
        len(list(seq[1][1][3])) == 1
    q = rx.pred(*list(seq[1][1][3])[0] + (fl,)) if ok else None
    if q is None:
        C.unk('value', con, 'unescaped in an unknown way', w)
        return
    esc = chr(seq[0][1])
    same = None
    if rp[0] == 'const' and rp[1] == 'str':
        same = rp[2] in ('\\1', '\\g<1>') or (
            False if '\\' not in rp[2] else None)
    elif rp[0] == 'closure':
        m = P('m')
        V = I.apply(rp, [m], TRUE)
        same = all(x in (('call', ('attr', m, 'group'), (const(1),), ()),
                         ('item', m, const(1)))
                   for g, x in flat(I, V)) or None
    if same is None:
        C.unk('value', con, 'unescaped in an unknown way', w)
        return
    bad = []
    for c in sigma:
        x = h(c)
        if len(x) == 1:
            if x == esc or x != c:
                bad.append(c)
        elif len(x) == 2 and x[0] == esc:
            if not (same and q(x[1]) and x[1] == c):
                bad.append(c)
        else:
            bad.append(c)
    C.check(not bad, 'value', con, 'what was escaped is not put back', w,
            repr(bad)[:60])


def name_only(con, bad, sigma):
    return not bad


RULES = {'C24': c24}
