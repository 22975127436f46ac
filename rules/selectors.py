"""C21 looking up by selector, C22 changing by selector, C23 selectors are
values, C24 selectors as text"""
from .base import *

S = 'normalize.selector.'
FS = S + 'FieldSelector'
FSE = ('class', 'normalize.exc.FieldSelectorException')
SELS = A(SELF, 'selectors')
OPEN = ['normalize.property.*', 'normalize.coll.*', 'normalize.record.*',
        FS + '.__init__']
ESC = ('KeyError', 'IndexError', 'AttributeError', 'LookupError')
ALL = ('sl', NONE, NONE, NONE)


def need(C, name):
    return C.m.need_func(FS + '.' + name)


def frun(C, name, **kw):
    f = need(C, name)
    I = C.run(f, boundary=OPEN, selfcls=FS, **kw)
    return f, I


def made(t):
    """arguments of a selector of the same class which was just made"""
    if t[0] == 'newof' and t[2] in (('typeof', SELF), ('class', FS)):
        return t[3][2]
    return None


def rest_of(I, t):
    """(path, start) when t is a new selector holding path[start:]"""
    a = made(t)
    if a is None and t[0] == 'new' and t[2] == FS:
        for e in evs(I, 'construct'):
            if e.result == t and len(e.args) == 1:
                x = [y for g, y in flat(I, e.args[0])]
                a = x if len(x) == 1 else None
    if a is None or len(a) != 1:
        return None
    x = a[0]
    while x[0] == 'call' and x[1][0] == 'builtin' and x[1][1] in (
            'list', 'tuple') and len(x[2]) == 1:
        x = x[2][0]
    if x[0] == 'slice' and x[3] == NONE and x[4] == NONE:
        return x[1], x[2]
    return None


def path_of(t):
    """is it (a leading part of) the path of the selector?"""
    if t == SELS:
        return 'all'
    if t[0] == 'slice' and t[1] == SELS and t[2] in (NONE, const(0)) and \
            t[4] == NONE:
        if t[3] == const(-1):
            return 'most'
        return 'part'
    return None


def cursors(I, rec):
    """terms which stand for the place reached so far"""
    out = {rec}
    for lv, V in I.lvs.items():
        if V and path_of(lv[1][1]) and any(
                t[0] in ('item', 'dattr') and len(t) > 2 and
                t[1] in (rec, lv) for g, t in V):
            out.add(lv)
    return out


def steps(C, I, f, rec, con, want):
    """each element of the path is looked up in what was reached before"""
    b, L = I.b, I.L
    cur = cursors(I, rec)
    reach = set(cur)
    n = 0
    # objects just put at the place which is due
    new = {}
    for e in evs(I, 'store', 'setitem', 'mut'):
        if e.target in cur and e.loops and path_of(e.loops[0]):
            k = e.attr if e.kind == 'store' else e.key if \
                e.kind == 'setitem' else ('elem', e.loops[0])
            V = e.args[-1] if e.kind == 'mut' and e.args else \
                e.value if e.kind != 'mut' else ()
            for g, x in flat(I, V):
                new.setdefault(x, set()).add(k)
    for lv in cur - {rec}:
        dom = lv[1][1]
        el = ('elem', dom)
        k = path_of(dom)
        C.check(k == want or (None if k == 'part' else False), 'steps', con +
                ':path', 'the path is not followed to its end', where(f),
                L.show(dom)[:100])
        for g, t in I.lvs[lv]:
            for gg, x in flat(I, ((g, t),)):
                n += 1
                if x in cur:
                    # the element is skipped
                    C.check(None if opaque_guard(I, gg) else False, 'steps',
                            con + ':skip', 'an element of the path is '
                            'skipped', where(f), L.showg(gg)[:160])
                    continue
                if x in new:
                    reach.add(x)
                    C.check(new[x] == {el} or None, 'steps', con + ':new',
                            'not the element of the path which is due',
                            where(f))
                    continue
                if x[0] in ('item', 'dattr') and x[1] in cur:
                    reach.add(x)
                    C.check(x[2] == el or (None if opaque(x[2]) else False),
                            'steps', con + ':key', 'not the element of the '
                            'path which is due', where(f), L.show(x)[:120])
                    if x[0] == 'dattr':
                        isint = L.isinst(el, ('builtin', 'int'))
                        st = b.atom(('isinst', x[1], ('builtin', 'str')))
                        C.implies(I, b.and_(gg, isint), st, 'steps', con +
                                  ':index', 'an index is looked up as an '
                                  'attribute', where(f))
                    continue
                C.check(None if opaque(x) or x[0] == 'call' else False,
                        'steps', con + ':from', 'the next element is not '
                        'looked up in what was reached', where(f),
                        L.show(x)[:120])
    return cur, reach, n


def escapes(C, I, f, con, cur):
    """a missing step is reported as a failure of the selector"""
    n = 0
    for e in I.events:
        if e.kind != 'escape':
            continue
        k = e.key
        if not isinstance(k, tuple):
            continue
        if k[0] in ('item', 'dattr', 'setattr', 'setitem', 'delitem',
                    'attr') and mentions_any(k[1], cur) and \
                len(k) > 2 and isinstance(k[2], tuple) and \
                mentions(k[2], SELS):
            n += 1
            C.never(I, e.guard, 'failures', con + ':' + e.exc, '%s is '
                    'raised for a path which does not exist' % e.exc,
                    e.where)
    if not n:
        C.ok('failures', con, where(f))
    for e in raises(I, caught=False):
        nm = exc_name(e)
        if nm in ('KeyError', 'IndexError', 'AttributeError', 'LookupError',
                  'TypeError', 'Exception'):
            C.never(I, e.guard, 'failures', con + ':' + nm, '%s is raised '
                    'for a path which does not exist' % nm, e.where)
    return n


def mentions_any(t, xs):
    return any(mentions(t, x) for x in xs)


def subcalls(I, name, cur, reach=()):
    """calls of the same operation with the rest of the path"""
    out = []
    for e in evs(I, 'call'):
        r, m = method(e)
        if m != name or r is None or not e.args:
            continue
        q = rest_of(I, r)
        if q is not None:
            out.append((e, q))
    return out


def members(C, I, f, con, name, cur, extra=()):
    """None: the rest of the path is applied to every member"""
    b, L = I.b, I.L
    found = []
    for e, (path, start) in subcalls(I, name, cur):
        if e.loops and e.loops[-1] in extra and e.loops[-1] not in cur and \
                any(x == ('elem', e.loops[-1]) for a in e.args
                    for g, x in flat(I, a)):
            C.bad('members', con + ':of', 'the members of something else '
                  'than the object reached', e.where,
                  L.show(e.loops[-1])[:80])
        if not e.loops or e.loops[-1] not in cur:
            continue
        dom = e.loops[-1]
        found.append(e)
        whole_loop(C, I, lambda k: k == dom, 'members', con + ':whole',
                   'the members after some member are left out', True)
        if path == SELS:
            ok = start == const(1) if name == 'put' else start == (
                'bin', 'Add', ('idx', e.loops[0]), const(1))
            C.check(ok or (None if opaque(start) else False), 'members',
                    con + ':rest', 'not the rest of the path', e.where,
                    L.show(start)[:100])
        else:
            C.check(None if opaque(path) else False, 'members', con +
                    ':rest', 'not the rest of the path', e.where,
                    L.show(path)[:100])
        want = [('elem', dom)] + list(extra)
        for i, w in enumerate(want):
            xs = [x for g, x in flat(I, e.args[i])] if i < len(
                e.args) else []
            gone = i >= len(e.args) and not e.kws and not e.get(
                'star') and not e.get('starkw')
            C.check(xs == [w] or (None if not xs and not gone or any(
                opaque(x) for x in xs) else False), 'members', '%s:arg%d' % (
                    con, i), 'not applied to the member itself' if not i
                else 'not the value given', e.where)
    C.check(bool(found) or None, 'members', con, 'no members', where(f))
    return found


def value_blind(C, I, con, val):
    """which place is written does not depend on the value written"""
    for e in evs(I, 'setitem', 'setattr'):
        at = [a for a in I.b.support_atoms(e.guard)
              if a[0] in ('isinst', 'hasattr', 'in', 'inrange', 'lt') and
              len(a) > 1 and a[1] == val]
        C.check(not at, 'put', con + ':where', 'where the value goes depends '
                'on the value', e.where,
                str([I.L.show(a)[:60] for a in at]))


def machine(I, lv):
    """the values a variable of a loop takes while some calls in it fail or
    succeed -> {(some failed, some succeeded): set of values}, or None"""
    b = I.b
    V = I.lvs.get(lv)
    if not V:
        return None
    dom = lv[1][1]
    memo = {}

    def value(t, st):
        if t == lv:
            return st
        if t[0] == 'const':
            return ('const', t[2])
        if t[0] in ('excv', 'new', 'newof'):
            return 'exc'
        return None

    def step(st, first, fail):
        k = (st, first, fail)
        if k in memo:
            return memo[k]

        def fn(a):
            v = None
            if a == ('first', dom):
                v = first
            elif a[0] == 'raises' and mentions(a, ('elem', dom)):
                v = fail
            elif a[0] == 'isnone' and a[1] == lv:
                v = st == ('const', None)
            elif a[0] == 'truthy' and a[1] == lv:
                v = st == 'exc' or st != 'exc' and bool(st[1])
            elif a[0] == 'first':
                return None
            return None if v is None else (TRUE if v else FALSE)
        out = set()
        for g, t in V:
            for gg, x in flat(I, ((g, t),)):
                if subst(I, gg, fn) != FALSE:
                    out.add(value(x, st))
        if len(out) > 1:
            out = {None}
        memo[k] = out
        return out
    res, todo, seen = {}, [], set()
    for fail in (True, False):
        for s in step(('const', None), True, fail):
            todo.append((s, fail, not fail))
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        s, f, o = x
        if s is None:
            return None
        res.setdefault((f, o), set()).add(s)
        for fail in (True, False):
            for n in step(s, False, fail):
                todo.append((n, f or fail, o or not fail))
    return res


def all_fail(C, I, f, con, found):
    """a lookup over members fails when all of them fail, and only then"""
    done = set()
    b, L = I.b, I.L
    for e in found:
        # decided by the condition alone
        dom = e.loops[-1]
        R = b.atom(('raises', e.result, FSE))
        ok = I.quant((dom,), b.not_(R))
        up = [r for r in raises(I) if len(r.loops) < len(e.loops) and
              r.exc == ('excv', e.result, FSE)]
        if up and all(L.implies(r.guard, b.not_(ok)) for r in up):
            C.ok('all-fail', con + ':some', e.where)
            some = I.quant((dom,), R)
            g = b.or_(*[r.guard for r in up])
            ctx = I.outer(e.guard, (dom,))
            x = L.implies(b.and_(ctx, some, b.not_(ok)), g)
            C.check(x or None, 'all-fail', con + ':all', 'not decided',
                    e.where)
            done.add(dom)
    for lv in list(I.lvs):
        for e in found:
            if e.loops[-1] in done:
                continue
            if lv[1][1] != e.loops[-1] or lv in done:
                continue
            # the variable whose value is raised afterwards
            V = I.lvs[lv] or ()
            ts = {x for g, t in V for gg, x in flat(I, ((g, t),))}
            ex = {x for x in ts if x[0] == 'excv' and x[1] == e.result}
            up = [r for r in raises(I) if len(r.loops) < len(e.loops)]
            if not ex or not any(x == r.exc for x in ex for r in up):
                continue
            m = machine(I, lv)
            if m is None or all(v == 'exc' for vs in m.values()
                                for v in vs):
                continue
            done.add(lv)
            for (fl, ok), vs in sorted(m.items()):
                fails = {v == 'exc' or bool(v[1]) for v in vs}
                want = fl and not ok
                C.check(fails == {want}, 'all-fail', con + (
                    ':some' if fl and ok else ':all' if fl else ':none'),
                    'fails although the path exists for some member'
                    if not want else 'does not fail although the path '
                    'exists for no member', e.where)
    if not done:
        for e in found:
            R = b.atom(('raises', e.result, FSE))
            ctx = I.outer(e.guard, e.loops[-1:])
            hs = [h for h in evs(I, 'handler') if h.loops == e.loops and
                  L.implies(h.guard, R)]
            if hs and not any(
                    L.sat(b.and_(r.guard, ctx)) for r in raises(I)
                    if r.loops[:len(e.loops) - 1] == e.loops[:-1] or
                    opaque(r.exc) or mentions(r.exc, e.result)):
                C.bad('all-fail', con + ':all', 'does not fail although the '
                      'path exists for no member', e.where)
                return
        C.unk('all-fail', con, 'failures are not raised afterwards',
              where(f))


def c21(C):
    lookup(C)
    or_none(C)


def lookup(C):
    f, I = frun(C, 'get', escapes=ESC)
    b, L = I.b, I.L
    con = 'get'
    rec = P(f.node.args.args[1].arg)
    cur, reach, n = steps(C, I, f, rec, con, 'all')
    if not n:
        C.unk('steps', con, 'the path is followed in an unknown way',
              where(f))
        return
    escapes(C, I, f, con, cur)
    found = members(C, I, f, con, 'get', cur)
    all_fail(C, I, f, con, found)
    for g, t in flat(I, I.rv, exits(I)):
        if t in reach:
            C.ok('result', con, where(f))
            continue
        if t in I.conts:
            collected(C, I, f, con, t, found)
            continue
        C.check(None if opaque(t) or t[0] == 'call' else False, 'result',
                con, 'not what the path leads to', where(f),
                L.show(t)[:120])


def collected(C, I, f, con, t, found):
    """what is returned for None has an entry for every member"""
    b, L = I.b, I.L
    by = {}
    for e in I.conts[t].entries:
        if e.star or not e.loops:
            C.unk('collected', con, 'filled in an unknown way', where(f))
            return
        by.setdefault(e.loops[-1], []).append(e)
    for s in found:
        dom = s.loops[-1]
        es = by.get(dom, [])
        put = FALSE
        for e in es:
            for g, x in flat(I, e.val, e.guard):
                C.never(I, b.and_(put, g), 'collected', con + ':twice',
                        'a member has more than one entry', where(f))
                put = b.or_(put, g)
                rz = [b.atom(a) for a in b.support_atoms(g) if
                      a[0] == 'raises' and a[1] == s.result]
                R = b.atom(('raises', s.result, FSE))
                if x == s.result:
                    C.implies(I, g, b.not_(R), 'collected', con + ':value',
                              'the value of a lookup which failed', where(f))
                elif x == NONE:
                    C.implies(I, g, R, 'collected', con + ':none',
                              'a member for which the path exists has None',
                              where(f))
                else:
                    old = x[0] == 'lv' and L.sat(g) and any(
                        y == s.result for gg, y in flat(
                            I, I.lvs.get(x) or ()))
                    C.check(False if old else None if opaque(x) or
                            x[0] == 'lv' else False, 'collected', con +
                            ':value', 'the value of the member before' if old
                            else 'not the value below the member', where(f),
                            L.show(x)[:120])
        C.implies(I, s.guard, put, 'collected', con + ':every', 'a member '
                  'has no entry', where(f))


def or_none(C):
    f, I = frun(C, 'get_or_none')
    f2 = need(C, 'get')
    I = C.run(f, boundary=OPEN + [FS + '.get'], selfcls=FS)
    b, L = I.b, I.L
    con = 'get_or_none'
    rec = P(f.node.args.args[1].arg)
    calls = [e for e in evs(I, 'call') if method(e) == (SELF, 'get')]
    if len(calls) != 1:
        C.unk('or-none', con, 'not by one lookup', where(f))
        return
    e = calls[0]
    C.check([x for g, x in flat(I, e.args[0])] == [rec], 'or-none', con +
            ':record', 'another object is looked into', e.where)
    R = b.atom(('raises', e.result, FSE))
    some = FALSE
    for g, t in flat(I, I.rv, exits(I)):
        if t == e.result:
            some = b.or_(some, g)
        elif t == NONE:
            C.implies(I, g, R, 'or-none', con + ':none', 'None although '
                      'the path exists', where(f))
        else:
            C.check(None if opaque(t) else False, 'or-none', con, 'neither '
                    'the value nor None', where(f), L.show(t)[:100])
    for e2 in evs(I, 'handler'):
        for g, x in flat(I, e2.value):
            C.check(x[0] == 'excv' and x[2] == FSE or (
                None if opaque(x) else False), 'or-none', con + ':catch',
                'other failures are hidden', e2.where, L.show(x)[:100])
    C.check(bool(evs(I, 'handler')), 'or-none', con + ':fail', 'fails like '
            'get', where(f))
    C.implies(I, b.and_(I.entry_live, b.not_(R)), some, 'or-none', con +
              ':value', 'not the value the path leads to', where(f))


# ---- C22 ------------------------------------------------------------------

FIRST = ('item', SELS, const(0))
LAST = ('item', SELS, const(-1))


def c22(C):
    put(C)
    delete(C)
    post(C)


def values_are(C, I, V, w, rule, con, msg, at):
    xs = [x for g, x in flat(I, V)]
    C.check(bool(xs) and all(x == w for x in xs) or (
        None if any(opaque(x) for x in xs) else False), rule, con, msg, at,
        ', '.join(I.L.show(x) for x in xs)[:120])


def put(C):
    f = need(C, 'put')
    I = C.run(f, boundary=OPEN, selfcls=FS, escapes=ESC)
    b, L = I.b, I.L
    con = 'put'
    rec, val = [P(x.arg) for x in f.node.args.args[1:3]]
    one = L.eq(('len', SELS), const(1))
    value_blind(C, I, con, val)
    none = L.isnone(FIRST)
    done = FALSE
    n = 0
    for e in evs(I, 'store', 'setitem'):
        k = e.key if e.kind == 'setitem' else e.attr
        if e.target in I.conts or not k:
            continue
        n += 1
        C.check(e.target == rec or (None if opaque(e.target) else False),
                'put', con + ':target', 'another object is changed', e.where,
                L.show(e.target)[:100])
        values_are(C, I, e.value, val, 'put', con + ':value', 'not the value '
                   'given', e.where)
        for gk, x in flat(I, (k,) if isinstance(k[0], int) else (
                (TRUE, k),) if isinstance(k[0], str) else k, e.guard):
            if x == ALL:
                C.implies(I, gk, none, 'put', con + ':all', 'all of the '
                          'items are replaced', e.where)
            else:
                C.check(x in (FIRST, LAST) or (None if opaque(x) else
                                               False), 'put', con + ':key',
                        'another place is changed', e.where,
                        L.show(x)[:100])
                C.implies(I, gk, b.not_(none), 'put', con + ':none', 'None '
                          'is taken for a key', e.where)
        if any(a == list(b.support_atoms(one))[0] for a in
               b.support_atoms(e.guard)):
            C.implies(I, e.guard, one, 'put', con + ':last', 'a place before '
                      'the end of the path is replaced', e.where)
        else:
            C.unk('put', con + ':last', 'not decided', e.where)
        done = b.or_(done, e.guard)
    cur = {rec}
    for e, (path, start) in subcalls(I, 'put', cur):
        n += 1
        done = b.or_(done, e.guard)
        C.check(path == SELS and start == const(1) or (
            None if opaque(path) or opaque(start) else False), 'put', con +
            ':rest', 'not the rest of the path', e.where)
        if len(e.args) < 2:
            C.unk('put', con + ':args', 'arguments', e.where)
            continue
        values_are(C, I, e.args[1], val, 'put', con + ':subvalue', 'not the '
                   'value given', e.where)
        for g, x in flat(I, e.args[0], e.guard):
            ok = x in (('item', rec, FIRST), ('dattr', rec, FIRST)) or \
                e.loops and x == ('elem', rec) and e.loops[-1] == rec
            C.check(ok or (None if opaque(x) else False), 'put', con +
                    ':sub', 'not in the object at the first place',
                    e.where, L.show(x)[:100])
    whole_loop(C, I, lambda k: k == rec, 'put', con + ':whole', 'the members '
               'after some member are left out', True)
    if not n:
        C.unk('put', con, 'in an unknown way', where(f))
        return
    C.implies(I, I.entry_live, b.or_(done, raised(I), *[
        e.guard for e in I.events if e.kind == 'escape']), 'put', con +
        ':done', 'nothing is changed', where(f))
    escapes(C, I, f, con, cur)


def delete(C):
    f = need(C, 'delete')
    I = C.run(f, boundary=OPEN, selfcls=FS, escapes=ESC)
    b, L = I.b, I.L
    con = 'delete'
    rec = P(f.node.args.args[1].arg)
    cur, reach, n = steps(C, I, f, rec, con, 'most')
    if not n:
        C.unk('steps', con, 'the path is followed in an unknown way',
              where(f))
        return
    escapes(C, I, f, con, reach)
    found = members(C, I, f, con, 'delete', cur)
    all_fail(C, I, f, con, found)
    ops = FALSE
    none = L.isnone(LAST)
    for e in evs(I, 'delitem', 'delattr', 'mut', 'setitem', 'store'):
        t = e.target
        if t in I.conts:
            continue
        if e.kind == 'mut' and e.name != 'clear':
            C.check(None, 'delete', con + ':op', 'unknown operation',
                    e.where)
            continue
        C.check(t in reach or (None if opaque(t) else False), 'delete', con +
                ':target', 'another object is changed', e.where,
                L.show(t)[:100])
        C.never(I, b.and_(e.guard, e.loops and TRUE or FALSE), 'delete',
                con + ':early', 'something is deleted on the way', e.where)
        ops = b.or_(ops, e.guard)
        if e.kind in ('mut', 'setitem'):
            C.implies(I, e.guard, none, 'delete', con + ':all', 'all of the '
                      'items are deleted', e.where)
            if e.kind == 'setitem':
                C.check(e.key == ALL, 'delete', con + ':key', 'an item is '
                        'replaced', e.where)
            continue
        if e.kind == 'store':
            C.bad('delete', con + ':key', 'an attribute is replaced',
                  e.where)
            continue
        k = e.key if e.kind == 'delitem' else e.attr
        C.check(k == LAST or (None if opaque(k) else False), 'delete', con +
                ':key', 'another place is deleted', e.where, L.show(k)[:100])
        if e.kind == 'delitem':
            C.implies(I, e.guard, b.not_(none), 'delete', con + ':none',
                      'None is taken for a key', e.where)
    if ops == FALSE:
        C.unk('delete', con, 'in an unknown way', where(f))
        return
    end = exits(I)
    here = b.and_(end, b.not_(b.or_(FALSE, *[
        q.guard for q in found])))
    hs = [L.hasattr(e.target, e.attr) for e in evs(I, 'delattr')
          if e.target not in I.conts]
    C.implies(I, b.and_(here, *hs), ops, 'delete', con + ':done', 'nothing is '
              'deleted', where(f))


def post(C):
    f = need(C, 'post')
    I = C.run(f, boundary=OPEN + [FS + '.put'], selfcls=FS, escapes=ESC)
    b, L = I.b, I.L
    con = 'post'
    rec, val = [P(x.arg) for x in f.node.args.args[1:3]]
    cur = cursors(I, rec)
    if len(cur) < 2:
        C.unk('steps', con, 'the path is followed in an unknown way',
              where(f))
        return
    cur, reach, n = steps(C, I, f, rec, con, 'most')
    value_blind(C, I, con, val)
    found = members(C, I, f, con, 'post', cur, (val,))
    for e in found:
        if len(e.loops) > 1 or e.loops[0] in cur:
            C.implies(I, e.guard, b.or_(FALSE, *[
                x.guard for x in evs(I, 'return') if x.loops and
                x.loops[0] == e.loops[0]]), 'members', con + ':ends',
                'goes on after all members', e.where)
    made_ = FALSE
    filled = FALSE
    for e in evs(I, 'store', 'setitem', 'mut'):
        t = e.target
        if t in I.conts or t[0] in ('new',):
            continue
        dom = e.loops[0] if e.loops else None
        el = ('elem', dom)
        if t not in cur or path_of(dom or NONE) is None:
            C.check(None if opaque(t) else False, 'vivify', con + ':target',
                    'another object is changed', e.where, L.show(t)[:100])
            continue
        if e.kind == 'mut' and e.name not in ('append', 'insert'):
            C.unk('vivify', con, 'unknown operation', e.where)
            continue
        if e.kind == 'store' or e.kind == 'setitem':
            k = e.attr if e.kind == 'store' else e.key
            k = k if isinstance(k, str) or isinstance(k[0], str) else [
                x for g, x in flat(I, k)][0]
            C.check(k == el or (None if opaque(k) else False), 'vivify',
                    con + ':place', 'another place is filled', e.where,
                    str(k)[:100])
        if e.kind == 'store':
            there = L.hasattr(t, el)
            C.implies(I, e.guard, b.not_(there), 'vivify', con + ':attr',
                      'a value which is there is replaced', e.where)
        elif e.kind == 'setitem':
            C.implies(I, e.guard, b.not_(L.in_(el, t)), 'vivify', con +
                      ':key', 'an item which is there is replaced', e.where)
        else:
            C.implies(I, e.guard, L.eq(el, ('len', t)), 'vivify', con +
                      ':end', 'an item is added at another place', e.where)
        V = e.value if e.kind != 'mut' else e.args[-1]
        for g, x in flat(I, V, e.guard):
            if x[0] != 'call':
                C.check(None if opaque(x) else False, 'vivify', con +
                        ':type', 'not a new object', e.where,
                        L.show(x)[:100])
                continue
            want = A(('typeof', t), 'itemtype') if e.kind != 'store' else \
                A(('item', A(('typeof', t), 'properties'), el), 'valuetype')
            C.check(x[1] == want or (None if opaque(x[1]) else False),
                    'vivify', con + ':type', 'not an object of the type '
                    'declared there', e.where, L.show(x[1])[:100])
            C.check(not x[2] or None, 'vivify', con + ':args', 'made from '
                    'something', e.where)
            for k in x[3]:
                kk = k if isinstance(k, tuple) and k[0] == '**' else None
                for gk, d in flat(I, ((g, kk[1]),) if kk else ((g, k),)):
                    if kk is None or d not in I.conts:
                        C.unk('vivify', con + ':value', 'made from '
                              'something', e.where)
                        filled = TRUE
                        continue
                    for en in I.conts[d].entries:
                        initial(C, I, con, en, val, dom, e, gk, x[1])
                        filled = b.or_(filled, b.and_(gk, en.guard))
            made_ = b.or_(made_, g)
    final(C, I, f, con, rec, reach, val, filled)
    for e in found:
        for x in evs(I, 'return'):
            if x.own and x.loops and x.loops[0] == e.loops[0]:
                for g, t in flat(I, x.value, x.guard):
                    C.check(t != const(1) or not L.implies(g, L.isnone(
                        ('elem', x.loops[0]))), 'count', con + ':members',
                        'one is returned whatever the number of members',
                        x.where)
    for g, t in flat(I, I.rv, exits(I)):
        if t == const(1):
            continue
        if t == const(0):
            C.unk('count', con, 'counted', where(f))
            continue
        if t[0] == 'call' and t[1] == ('builtin', 'sum'):
            xs = [x for e in (I.conts[t[2][0]].entries if t[2][0] in I.conts
                              else ()) for gg, x in flat(I, e.val)]
            C.check(bool(xs) and all(any(x == q.result for q in found)
                                     for x in xs) or (
                False if const(1) in xs or const(True) in xs else None),
                'count', con,
                    'not the number of values set', where(f))
            continue
        other = t[0] == 'call' and t[1][0] == 'builtin' and t[1][1] in (
            'max', 'min', 'any', 'all', 'bool', 'len') or t[0] == 'len'
        C.check(None if (opaque(t) or t[0] in ('bin', 'lv', 'call')) and
                not (other and not any(opaque(a) for a in t[1:] if a not in
                                       I.conts)) else False, 'count', con, 'not the number of values set',
                where(f), L.show(t)[:100])


def initial(C, I, con, en, val, dom, e, live, cls):
    """the value given is handed to the new object only at the end, and not
    as if it were a property of a collection"""
    b, L = I.b, I.L
    C.never(I, b.and_(en.guard, live, L.hasattr(cls, const('itemtype')),
                      b.not_(L.in_(LAST, A(cls, 'properties')))), 'vivify',
            con + ':collection', 'a collection is made from the value of an '
            'item, as if it were one of its properties', e.where)
    ks = en.key if en.key and isinstance(en.key[0], tuple) else (
        (TRUE, en.key),)
    for g, k in flat(I, ks, b.and_(en.guard, live)):
        C.check(k in (LAST, ('item', SELS, ('bin', 'Sub', ('len', SELS),
                                            const(1)))) or (
            None if opaque(k) else False), 'vivify', con + ':initial',
            'another attribute is set', e.where, L.show(k)[:100])
        C.implies(I, g, b.not_(L.isnone(LAST)), 'vivify', con + ':none',
                  'None is taken for a name', e.where)
        pos = FALSE
        other = False
        for a in b.support_atoms(g):
            if not mentions(a, ('idx', dom)):
                continue
            two = ('bin', 'Sub', ('len', SELS), const(2))
            if a == ('lt', ('idx', dom), two):
                pos = b.or_(pos, b.not_(b.atom(a)))
            elif a[0] == 'eq' and set(a[1:]) == {('idx', dom), two}:
                pos = b.or_(pos, b.atom(a))
            elif a[0] in ('lt', 'eq') and all(
                    x == ('idx', dom) or x[0] == 'bin' and
                    x[2] == ('len', SELS) and x[3][0] == 'const'
                    for x in a[1:]):
                pass
            else:
                other = True
        x = L.implies(g, pos)
        C.check(x or (None if other else False), 'vivify', con + ':when',
                'the value is given to an object which is not the last one '
                'of the path', e.where, L.showg(g)[:160])
    for g, x in flat(I, en.val):
        C.check(x == val or (None if opaque(x) else False), 'vivify', con +
                ':value', 'not the value given', e.where)


def final(C, I, f, con, rec, reach, val, filled):
    """the value is put in place, if no new object was made with it"""
    b, L = I.b, I.L
    done = FALSE
    for e in evs(I, 'call'):
        r, m = method(e)
        if m != 'put' or r is None:
            continue
        a = made(r)
        last = None
        if a is not None and len(a) == 1:
            x = a[0]
            if x in I.conts:
                xs = [y for en in I.conts[x].entries
                      for g, y in flat(I, en.val)]
                last = xs == [LAST] if not any(
                    en.star for en in I.conts[x].entries) else None
            elif x[0] == 'tuple':
                last = x[1:] == (LAST,)
            elif x[0] == 'slice':
                last = x[1] == SELS and x[2] == const(-1) and x[3] == NONE
        C.check(last, 'final', con + ':path', 'not put at the last place of '
                'the path', e.where)
        if len(e.args) == 2:
            values_are(C, I, e.args[1], val, 'final', con + ':value',
                       'not the value given', e.where)
            for g, x in flat(I, e.args[0]):
                C.check(x in reach or (None if opaque(x) else False),
                        'final', con + ':target', 'not put in the object '
                        'reached', e.where, L.show(x)[:100])
        done = b.or_(done, e.guard)
    one = FALSE
    for g, t in flat(I, I.rv, exits(I)):
        if t == const(1):
            one = b.or_(one, g)
    flags = []
    for lv, V in I.lvs.items():
        if V and path_of(lv[1][1]) and lv not in reach and all(
                t == lv or t[0] == 'const' for g, t in V) and any(
                t[0] == 'const' and t[2] is True for g, t in V):
            flags.append(lv)
    if L.implies(one, done):
        C.ok('final', con + ':done', where(f))
        return
    if done == FALSE:
        C.unk('final', con + ':done', 'in an unknown way', where(f))
        return
    if not flags:
        C.unk('final', con + ':done', 'not decided', where(f))
        return
    for lv in flags:
        for g, t in I.lvs[lv]:
            if t[0] == 'const' and t[2]:
                g = b.and_(g, b.not_(L.truthy(lv)))
                C.implies(I, g, filled, 'final', con + ':done', 'the value '
                          'is not put anywhere', where(f))
        C.implies(I, b.and_(filled, b.not_(L.truthy(lv))), b.or_(FALSE, *[
            g for g, t in I.lvs[lv] if t[0] == 'const' and t[2]]), 'final',
            con + ':once', 'the value is put again in the object made '
            'with it', where(f))


RULES = {'C21': c21, 'C22': c22}
