"""C16 record comparison, C17 collection comparison, C18 normalisation,
C19 filtering, C20 dispatch of diff"""
from .base import *
from .elems import elements

D = 'normalize.diff.'
NOTH = ('modvar', 'normalize.diff', '_nothing')
OPT = P('options')
FA, FB = P('fs_a'), P('fs_b')
DT = ('class', D + 'DiffTypes')
INFO = ('class', D + 'DiffInfo')
CUT = [D + x for x in (
    '_diff_iter', 'diff_iter', 'diff', 'compare_record_iter',
    'compare_collection_iter', 'compare_list_iter', 'compare_dict_iter',
    'collection_generator', '_fuzzy_match', '_nested_falsy',
    '_nested_empty', 'DiffOptions.*', 'DiffInfo.*', 'Diff.*')] + [
    'normalize.selector.*', 'normalize.record.*', 'normalize.property.*',
    'normalize.coll.*', 'normalize.identity.*']
FST = {FA: 'normalize.selector.FieldSelector',
       FB: 'normalize.selector.FieldSelector'}
VA, VB = P('the-base-value'), P('the-other-value')


def kinds_of(I, e):
    """[(guard, name)] of the diff type given to a DiffInfo"""
    v = e.kws.get('diff_type')
    if v is None:
        return []
    out = []
    for g, t in flat(I, v, e.guard):
        if t[0] == 'attr' and t[1] == DT:
            out.append((g, t[2]))
        else:
            out.append((g, t))
    return out


def path(I, t, g=TRUE, depth=0):
    """a selector expression as [(guard, [parts])]: base selector followed
    by the keys appended to it"""
    b = I.b
    if depth > 8:
        return [(g, None)]
    if t[0] == 'phi':
        out = []
        for gg, x in t[1]:
            out += path(I, x, b.and_(g, gg), depth + 1)
        return out
    if t[0] == 'bin' and t[1] == 'Add':
        out = []
        for gg, l in path(I, t[2], g, depth + 1):
            for g2, r in keys(I, t[3], gg, depth + 1):
                out.append((g2, None if l is None or r is None else l + r))
        return out
    if t[0] in OPAQUE:
        return [(g, None)]
    if t[0] == 'new' and t in I.conts:
        r = keys(I, t, g, depth + 1)
        return r
    return [(g, [t])]


def keys(I, t, g, depth):
    b = I.b
    if depth > 8:
        return [(g, None)]
    if t[0] == 'phi':
        out = []
        for gg, x in t[1]:
            out += keys(I, x, b.and_(g, gg), depth + 1)
        return out
    if t[0] == 'tuple':
        out = [(g, [])]
        for x in t[1:]:
            out = [(g2, p + [y]) for g1, p in out
                   for g2, y in flat(I, ((g1, x),))]
        return out
    if t[0] == 'new' and t in I.conts:
        out = [(g, [])]
        for e in I.conts[t].entries:
            out = [(g2, None if p is None or y is None else p + y)
                   for g1, p in out for gg, x in flat(I, e.val, e.guard)
                   for g2, y in (keys(I, x, b.and_(g1, gg), depth + 1)
                                 if e.star else [(b.and_(g1, gg), [x])])]
        return [(x, p) for x, p in out if x != FALSE]
    if t[0] in OPAQUE:
        return [(g, None)]
    return [(g, [t])]


def infos(I):
    """[(construct event, yielded guard)]"""
    out = []
    ys = evs(I, 'yield')
    for e in evs(I, 'construct'):
        if e.cls != INFO:
            continue
        g = FALSE
        for y in ys:
            for gg, t in flat(I, y.value, y.guard):
                if t == e.result:
                    g = I.b.or_(g, gg)
        out.append((e, g))
    return out


def present(I):
    b, L = I.b, I.L
    return b.and_(L.truthy(OPT), b.not_(L.isnone(OPT)),
                  b.not_(L.isnone(FA)))


def opt(I, n):
    return I.L.truthy(A(OPT, n))


# ---- C16 ------------------------------------------------------------------

def c16(C):
    m = C.m
    f = m.need_func(D + 'compare_record_iter')
    a, o = [P(x.arg) for x in f.node.args.args][:2]
    for who, absent in (('both', None), ('base only', o), ('other only', a)):
        record_case(C, f, a, o, absent, who)


def record_case(C, f, a, o, absent, who):
    con = 'compare_record_iter'

    def live(I):
        b, L = I.b, I.L
        return b.and_(present(I), *[
            L.is_(x, NOTH) if x == absent else b.not_(L.is_(x, NOTH))
            for x in (a, o)])
    I = C.run(f, boundary=CUT, live=live, types=FST)
    b, L = I.b, I.L
    own = o if absent == a else a
    pn = propnorm((('typeof', own),))
    slot = A(OPT, 'normalize_object_slot')

    def fn(t):
        if t[0] == 'call' and t[1] == slot and len(t[2]) == 3 and \
                not t[3] and t[2][1] == PROP:
            v, _, x = t[2]
            if x in (a, o) and (v == ('dattr', x, NAME) or v == NOTH or
                                v == ('attr', x, NAME)):
                return VA if x == a else VB
        if t[0] == 'call' and t[1] == A(OPT, 'items_equal') and \
                t[2] == (VB, VA):
            return ('call', t[1], (VA, VB), t[3])

    def canon(t):
        return rewrite(pn(t), fn)

    def cg(g):
        return canon_guard(I, g, canon)
    n = 0
    # what is looked at
    for e in evs(I, 'call'):
        if e.callee != slot:
            continue
        n += 1
        av = [[t for g, t in flat(I, v, e.guard)] for v in e.args]
        if len(av) != 3 or e.kws:
            C.unk('slot-value', con, 'call form', e.where)
            continue
        for g, v in flat(I, e.args[0], e.guard):
            v = canon(v)
            who_ = av[2]
            if len(who_) != 1 or who_[0] not in (a, o):
                C.check(None if any(opaque(x) for x in who_) else False,
                        'slot-value', con + ':owner', 'a slot is normalised '
                        'as the slot of another object', e.where)
                continue
            x = who_[0]
            has = L.hasattr(x, NAME)
            if v == NOTH:
                C.never(I, b.and_(cg(g), has), 'slot-value', con + ':set',
                        'a slot which is set is taken as not set', e.where)
            elif opaque(v):
                C.unk('slot-value', con, 'opaque', e.where)
            else:
                C.check(v == ('dattr', x, NAME) or v == ('attr', x, NAME),
                        'slot-value', con + ':value', 'the value compared '
                        'is not the slot of the property', e.where,
                        L.show(v)[:100])
        C.check([canon(t) for t in av[1]] == [PROP] or None, 'slot-value',
                con + ':prop', 'not the property of the slot', e.where)
    na, nb = L.is_(VA, NOTH), L.is_(VB, NOTH)
    eq = L.truthy(('call', A(OPT, 'items_equal'), (VA, VB), ()))
    filt = L.truthy(('call', A(OPT, 'is_filtered'),
                     (PROP, ('bin', 'Add', FA, NAME)), ()))
    out = {k: FALSE for k in ('ADDED', 'REMOVED', 'MODIFIED', 'NO_CHANGE')}
    seen = 0
    # recursion
    rec = FALSE
    for e in evs(I, 'call'):
        if e.callee != ('func', D + '_diff_iter'):
            continue
        g = cg(e.guard)
        rec = b.or_(rec, g)
        args = [[canon(t) for gg, t in flat(I, v, e.guard)] for v in e.args]
        names = [x.arg for x in C.m.need_func(D + '_diff_iter')
                 .node.args.args]
        for k, v in e.kws.items():
            while len(args) <= names.index(k):
                args.append([])
            args[names.index(k)] = [canon(t) for gg, t in flat(I, v)]
        for i, want, what in ((0, VA, 'base value'), (1, VB, 'other value'),
                              (4, OPT, 'options')):
            v = set(args[i]) if i < len(args) else set()
            C.check(None if any(opaque(x) for x in v) else v == {want},
                    'descend', con + ':' + what, 'the %s is not passed on'
                    % what, e.where, str([L.show(x)[:60] for x in v]))
        for i, fs in ((2, FA), (3, FB)):
            if i < len(e.args):
                location(C, I, e.args[i], e, fs, NAME, canon, con +
                         ':descend')
        C.never(I, b.and_(g, b.not_(na), b.not_(nb), b.not_(L.is_(
            ('typeof', VA), ('typeof', VB))), b.not_(opt(I, 'duck_type'))),
            'descend', con + ':types', 'values of different types are '
            'compared member by member', e.where)
    for e, yg in infos(I):
        if not e.loops:
            continue
        seen += 1
        C.implies(I, e.guard, yg, 'reported', con, 'a difference found is '
                  'not reported', e.where)
        for k, fs in (('base', FA), ('other', FB)):
            v = e.kws.get(k)
            if v is None:
                C.bad('location', con, 'no %s location' % k, e.where)
            else:
                location(C, I, v, e, fs, NAME, canon, con + ':' + k)
        for g, k in kinds_of(I, e):
            g = cg(b.and_(g, yg))
            if not isinstance(k, str):
                # the type found below this slot
                below = any(x[0] == 'new' for x in subterms(k)) or any(
                    x[0] == 'attr' and x[2] == 'diff_type'
                    for x in subterms(k))
                C.check(below or None, 'kind', con + ':below', 'unknown '
                        'kind of difference', e.where)
                C.implies(I, g, rec, 'kind', con + ':below', 'a difference '
                          'is reported without comparing', e.where)
                continue
            C.never(I, b.and_(g, filt), 'filter', con, 'a filtered '
                    'property is reported', e.where)
            if k == 'NO_CHANGE':
                C.implies(I, g, opt(I, 'unchanged'), 'kind', con +
                          ':NO_CHANGE', 'an unchanged slot is reported '
                          'without being asked for', e.where)
                C.never(I, b.and_(g, b.not_(rec), b.not_(eq)), 'kind', con +
                        ':NO_CHANGE', 'a changed slot is reported as '
                        'unchanged', e.where)
            elif k == 'ADDED':
                C.implies(I, g, b.and_(na, b.not_(nb)), 'kind', con +
                          ':ADDED', 'a slot is reported as added which is '
                          'set in the base', e.where)
            elif k == 'REMOVED':
                C.implies(I, g, b.and_(nb, b.not_(na)), 'kind', con +
                          ':REMOVED', 'a slot is reported as removed which '
                          'is set in the other', e.where)
            elif k == 'MODIFIED':
                C.implies(I, g, b.and_(b.not_(na), b.not_(nb)), 'kind',
                          con + ':MODIFIED', 'a slot set on one side only '
                          'is reported as modified', e.where)
                C.never(I, b.and_(g, b.not_(rec), eq), 'kind', con +
                        ':MODIFIED', 'a slot is reported as modified whose '
                        'values are equal', e.where)
            else:
                C.bad('kind', con, 'a slot is reported as ' + k, e.where)
            if k in out:
                out[k] = b.or_(out[k], g)
    C.never(I, b.and_(rec, filt), 'filter', con + ':descend', 'a filtered '
            'property is compared', where(f))
    whole_loop(C, I, lambda k: canon(('elem', k)) in (NAME, PROP),
               'complete', con + ':whole', 'the slots after some slot are '
               'not compared')
    # completeness
    if not seen or not n:
        C.unk('complete', con, 'differences are produced in an unknown way',
              where(f))
        return
    ra = cg(raised(I))
    allg = b.or_(rec, ra, *out.values())
    q = [b.not_(b.atom(x)) for x in b.support_atoms(allg)
         if x[0] in ('exists', 'raises')]
    pre = b.and_(live(I), b.not_(filt), b.not_(rec), b.not_(ra), *q)
    C.implies(I, b.and_(pre, na, b.not_(nb)), out['ADDED'], 'complete',
              con + ':added', 'a slot set only in the other is not '
              'reported', where(f))
    C.implies(I, b.and_(pre, nb, b.not_(na)), out['REMOVED'], 'complete',
              con + ':removed', 'a slot set only in the base is not '
              'reported', where(f))
    C.implies(I, b.and_(pre, b.not_(na), b.not_(nb), b.not_(eq)),
              out['MODIFIED'], 'complete', con + ':modified', 'slots with '
              'different values are not reported', where(f))
    C.implies(I, b.and_(pre, b.not_(na), b.not_(nb), eq, opt(
        I, 'unchanged')), out['NO_CHANGE'], 'complete', con + ':unchanged',
        'an unchanged slot is not reported although asked for', where(f))
    # nested comparison: its differences come out as they are
    for e in evs(I, 'call'):
        if e.callee != ('func', D + '_diff_iter'):
            continue
        apart(C, I, e, con)
        passed = FALSE
        for y in evs(I, 'yield', 'yieldfrom'):
            for g, t in flat(I, y.value, y.guard):
                if t in (('elem', e.result), e.result):
                    passed = b.or_(passed, cg(g))
        C.implies(I, b.and_(cg(e.guard), b.not_(na), b.not_(nb)), b.or_(
            passed, *[b.atom(x) for x in b.support_atoms(passed)
                      if x[0] == 'exists']), 'descend', con + ':passed',
            'the differences found below a slot are not reported', e.where)
        C.never(I, b.and_(passed, b.or_(na, nb)), 'descend', con + ':once',
                'what is found below a slot set on one side only is '
                'reported besides the slot', e.where)
    # values which have members are compared member by member
    members = FALSE
    for x in set(b.support_atoms(rec)):
        if x[0] == 'isinst' and x[1] in (VA, VB):
            members = b.or_(members, b.atom(x))
    same = L.is_(('typeof', VA), ('typeof', VB))
    C.implies(I, b.and_(live(I), b.not_(filt), b.not_(ra), *(q + [
        b.not_(na), b.not_(nb), b.or_(same, opt(I, 'duck_type')),
        members])), rec, 'descend', con +
        ':comparable', 'records or collections are not compared member by '
        'member', where(f))
    if absent is None:
        other = b.not_(L.is_(('typeof', a), ('typeof', o)))
        C.implies(I, b.and_(live(I), other, b.not_(opt(I, 'duck_type'))),
                  raised(I), 'types', con, 'records of different types are '
                  'compared', where(f))
        C.never(I, b.and_(live(I), raised(I, [
            e for e in raises(I) if exc_name(e) == 'TypeError']),
            b.not_(other)), 'types', con + ':same', 'records of the same '
            'type are not compared', where(f))


def location(C, I, v, e, fs, key, canon, con):
    b, L = I.b, I.L
    for g, t in flat(I, v, e.guard):
        for g2, p in path(I, t, g):
            if g2 == FALSE:
                continue
            if p is None or any(opaque(x) for x in p):
                C.unk('location', con, 'opaque location %s' % L.show(t)[:200], e.where)
                continue
            p = [canon(x) for x in p]
            C.check(p == [fs, key], 'location', con, 'the location reported '
                    'is not the context followed by the name of the slot',
                    e.where, str([L.show(x)[:50] for x in p]))


# ---- C17 ------------------------------------------------------------------

GEN = ('func', D + 'collection_generator')


def gen_of(t):
    """the collection whose generator is t, or None"""
    if t[0] == 'call' and t[1] == GEN and len(t[2]) == 1 and not t[3]:
        return t[2][0]
    return None


def entry_key(t):
    """X for 'the key of an entry of X'"""
    if t[0] == 'item' and t[1][0] == 'elem' and t[2] == const(0):
        return gen_of(t[1][1])
    return None


def entry_val(t):
    if t[0] == 'item' and t[1][0] == 'elem' and t[2] == const(1):
        return gen_of(t[1][1])
    return None


def entry_kind(I, t, what, depth=0):
    """{operands} whose entry key (value) t is; None in it: unknown.  What is
    stored in a mapping built here is looked up among what went in."""
    x = what(t)
    if x is not None:
        return {x}
    if depth > 5 or opaque(t) or not t:
        return {None}
    if t[0] == 'phi':
        out = set()
        for _, y in t[1]:
            out |= entry_kind(I, y, what, depth + 1)
        return out
    if t[0] == 'item' and t[1] in I.conts:
        out = set()
        for e in I.conts[t[1]].entries:
            if e.star:
                return {None}
            for _, y in flat(I, e.val):
                out |= entry_kind(I, y, what, depth + 1)
        return out or {None}
    if t[0] == 'elem' and t[1] in I.conts:
        out = set()
        for e in I.conts[t[1]].entries:
            if e.star:
                return {None}
            for _, y in flat(I, e.val):
                out |= entry_kind(I, y, what, depth + 1)
        return out or {None}
    return {None}


def exist_atoms(I, g, coll):
    return [x for x in I.b.support_atoms(g)
            if x[0] == 'exists' and gen_of(x[1]) == coll]


def fix(I, g, atoms, val):
    b = I.b
    for x in atoms:
        v = list(b.support(b.atom(x)))[0]
        g = b.restrict(g, v, val)
    return g


def c17(C):
    m = C.m
    for n in ('compare_list_iter', 'compare_dict_iter'):
        for duck in (False, True):
            simple_case(C, m.need_func(D + n), duck)
    f = m.need_func(D + 'compare_collection_iter')
    coll_case(C, f, 'recurse')
    coll_case(C, f, 'match')
    coll_case(C, f, 'one side')
    generator(C)


SIMPLE = [('func', D + 'compare_list_iter'),
          ('func', D + 'compare_dict_iter')]


def untyped(t):
    """the term without the types of things"""
    return rewrite(t, lambda x: ('const', 'type', '') if x[0] == 'typeof'
                   else None)


def operands(f):
    return [P(x.arg) for x in f.node.args.args][:2]


def blurred(x, norm):
    """what is left of the value does not tell it"""
    def cut(t):
        if t[0] == 'call' and t[1] in (
                ('builtin', 'id'), ('builtin', 'len'), ('builtin', 'type'),
                ('builtin', 'bool')) or t[0] in ('typeof', 'len'):
            return NONE
        return None
    if not any(mentions(x, n) for n in norm):
        return False
    y = rewrite(x, cut)
    return not opaque(x) and not any(mentions(y, n) for n in norm)


def simple_case(C, f, duck):
    a, o = operands(f)
    con = f.node.name + (':duck' if duck else '')

    def live(I):
        d = opt(I, 'duck_type')
        return I.b.and_(present(I), d if duck else I.b.not_(d))
    I = C.run(f, boundary=CUT, live=live, types=FST)
    b, L = I.b, I.L
    norm = []
    # every item takes part, as the normalised value of its own collection
    for e in evs(I, 'call'):
        if e.callee != A(OPT, 'normalize_item'):
            continue
        if len(e.args) < 2:
            C.check(None if e.kws or e.get('star') or e.get('starkw') else
                    False, 'item', con, 'an item is normalised without its '
                    'collection', e.where)
            continue
        norm.append(e.result)
        for g, v in flat(I, e.args[0], e.guard):
            k = entry_kind(I, v, entry_val)
            if None in k:
                C.unk('item', con, 'unknown item', e.where)
                continue
            for g2, w in flat(I, e.args[1], g):
                C.check(None if opaque(w) else w == (a if duck else
                                                     list(k)[0]),
                        'item', con + ':owner', 'an item is normalised as '
                        'the item of another collection', e.where)
    # values which can be hashed take part as they are
    for own in (a, o):
        for r, g, v, e in index_sets(I, own):
            for g2, t in flat(I, v, g):
                for g3, x in flat(I, ((g2, t[1] if t[0] == 'tuple' and
                                       len(t) == 3 else t),)):
                    if x in norm:
                        C.never(I, b.and_(g3, b.not_(L.truthy(A(
                            x, '__hash__')))), 'value', con + ':hash',
                            'a value without hash is used as it is', e.where)
                    elif x[0] == 'call' and x[1] == ('builtin', 'repr') and \
                            x[2][0] in norm:
                        C.never(I, b.and_(g3, L.truthy(A(
                            x[2][0], '__hash__'))), 'value', con + ':repr',
                            'the text of a value is compared instead of '
                            'the value', e.where)
                    else:
                        C.check(False if blurred(x, norm) else None, 'value',
                                con + ':kept', 'what takes part is not '
                                'determined by the value of the item',
                                e.where, L.show(x)[:80])
    by = marks(I, C, f, con, a, o)
    pairs_marked(C, I, f, con, a, o, by)

    def keep(I, at):
        # left out: items normalised to nothing, when empty slots are ignored
        b = I.b
        gone = b.or_(*[b.atom(x) for x in at if x[0] == 'is' and
                       NOTH in x[1:] and mentions(x, A(
                           OPT, 'normalize_item'))])
        return b.not_(b.and_(opt(I, 'ignore_empty_slots'), gone))
    considered(C, I, f, con, a, o, keep)


def index_sets(I, coll):
    """the sets the entries of a collection are put in:
    [(container, guard, value)]"""
    out = []
    for e in evs(I, 'mut', 'call'):
        r, n = method(e) if e.kind == 'call' else (e.get('target'),
                                                   e.get('name'))
        if n != 'add' or r is None or len(e.args) != 1:
            continue
        if len(e.loops) == 1 and gen_of(e.loops[0]) == coll:
            out.append((r, e.guard, e.args[0], e))
    return out


def marks(I, C, f, con, a, o):
    """differences reported from matched item sets"""
    b, L = I.b, I.L
    by = {}
    for e, yg in infos(I):
        C.implies(I, e.guard, yg, 'reported', con, 'a difference found is '
                  'not reported', e.where)
        for g, k in kinds_of(I, e):
            g = b.and_(g, yg)
            if not isinstance(k, str):
                C.unk('kind', con, 'unknown kind of difference', e.where)
                continue
            by.setdefault(k, []).append((g, e))
            places(C, I, e, g, k, con, a, o)
            if k == 'NO_CHANGE':
                C.implies(I, g, opt(I, 'unchanged'), 'gate', con +
                          ':NO_CHANGE', 'an unchanged item is reported '
                          'without being asked for', e.where)
            if k == 'MOVED':
                C.implies(I, g, opt(I, 'moved'), 'gate', con + ':MOVED',
                          'a moved item is reported without being asked '
                          'for', e.where)
                moved_key(C, I, e, g, con)
    only_one_side(C, I, f, con, a, o, by)
    return by


def moved_key(C, I, e, g, con):
    b, L = I.b, I.L
    for g1, t1 in flat(I, e.kws.get('base', ()), g):
        for g1, p1 in path(I, t1, g1):
            for g2, t2 in flat(I, e.kws.get('other', ()), g1):
                for g2, p2 in path(I, t2, g2):
                    if g2 == FALSE or not p1 or not p2 or len(p1) != 2 or \
                            len(p2) != 2:
                        continue
                    C.never(I, b.and_(g2, L.eq(p1[1], p2[1])), 'gate', con +
                            ':MOVED:same', 'an item is reported as moved '
                            'which is in the same place', e.where)


def places(C, I, e, g, k, con, a, o):
    """base is under the base context with a key of the base collection,
    other likewise; an item missing on one side is located by its
    collection there"""
    b = I.b
    got = {}
    for role, fs, own in (('base', FA, a), ('other', FB, o)):
        v = e.kws.get(role)
        c = con + ':%s:%s' % (k, role)
        if v is None:
            C.bad('location', c, 'no %s location' % role, e.where)
            continue
        bare = (k, role) in (('REMOVED', 'other'), ('ADDED', 'base'))
        for g1, t in flat(I, v, g):
            for g2, p in path(I, t, g1):
                if g2 == FALSE:
                    continue
                if p is None or not p or any(opaque(x) for x in p):
                    C.unk('location', c, 'opaque location', e.where)
                    continue
                C.check(p[0] == fs, 'location', c + ':context', 'the '
                        'location is not below the context of the %s '
                        'object' % role, e.where)
                if bare:
                    C.check(len(p) == 1, 'location', c, 'the location of a '
                            'missing item has a key', e.where)
                    continue
                if len(p) != 2:
                    C.bad('location', c, 'the location is not one key below '
                          'the collection', e.where)
                    continue
                ks = entry_kind(I, p[1], entry_key)
                got.setdefault(role, []).append((g2, p[1]))
                if k == 'MODIFIED' and ks and None not in ks:
                    C.ok('location', c, e.where)
                    continue
                ks2 = pair_side(I, p[1]) if None in ks else None
                if ks2 is not None:
                    C.check(ks2 == (0 if own == a else 1), 'location', c,
                            'the key is not one of the %s collection' % role,
                            e.where)
                    continue
                C.check(None if None in ks else ks == {own}, 'location', c,
                        'the key is not one of the %s collection' % role,
                        e.where, str([I.L.show(x) for x in ks if x]))
    if k == 'MODIFIED' and len(got) == 2:
        for g1, x in got['base']:
            for g2, y in got['other']:
                if b.and_(g1, g2) != FALSE:
                    kx = entry_kind(I, x, entry_key)
                    ky = entry_kind(I, y, entry_key)
                    C.check(x == y or (None if None in kx | ky else
                                       kx == {a} and ky == {o}),
                            'location', con + ':MODIFIED:pair', 'not the '
                            'same item on both sides', e.where)


def pair_side(I, t):
    """for a key found through a matched pair: 0 or 1, the side of the pair
    looked up in the index of ... ; None when unknown"""
    if t[0] != 'item' or t[1] not in I.conts:
        return None
    k = t[2]
    if k[0] == 'item' and k[1][0] == 'elem' and k[2] in (const(0), const(1)):
        side = k[2] == const(1)
        ks = set()
        for e in I.conts[t[1]].entries:
            for _, y in flat(I, e.val):
                ks |= entry_kind(I, y, entry_key)
        ps = [P(x.arg) for x in I.entry.node.args.args][:2]
        if ks == {ps[side]}:
            return int(side)
        if None not in ks:
            return -1
    return None


def only_one_side(C, I, f, con, a, o, by, extra=TRUE, may=()):
    b, L = I.b, I.L
    for k, own, oth in (('REMOVED', a, o), ('ADDED', o, a)):
        sets = index_sets(I, own)
        if not sets:
            C.unk('complete', con + ':' + k, 'items are collected in an '
                  'unknown way', where(f))
            continue
        K = FALSE
        for r, g, v, e in sets:
            K = b.or_(K, g)
        rep = FALSE
        for g, e in by.get(k, []):
            if len(e.loops) == 1 and gen_of(e.loops[0]) == own:
                rep = b.or_(rep, g)
            else:
                C.check(None, 'complete', con + ':' + k, 'reported from '
                        'another loop', e.where)
        xs = exist_atoms(I, rep, oth)
        # the item has no counterpart / is present
        both = fix(I, rep, xs, True)
        C.check(bool(xs) or rep == FALSE or (None if any(
            any(gen_of(y) == oth or y in I.conts for y in subterms(x)) or
            x[0] in ('exists', 'in') and mentions(x, oth)
            for x in b.support_atoms(rep) if not mentions(
                x, A(OPT, 'id_args'))) else False), 'complete', con + ':' +
                k + ':present', 'the other collection is not looked at',
                where(f))
        if xs:
            C.never(I, both, 'complete', con + ':' + k + ':present', 'an '
                    'item in both collections is reported as ' +
                    k.lower(), where(f))
        none = fix(I, rep, xs, False)
        qs = []
        for x in set(b.support_atoms(none)) | set(b.support_atoms(K)):
            if x[0] == 'in' and (x[2] in I.tampered or x[2] in I.conts and
                                 I.conts[x[2]].removed):
                qs.append(b.atom(x))      # not matched otherwise
            elif x[0] == 'raises' or x[0] == 'in' and x[2][0] in (
                    'new', 'bin') or x[0] == 'exists' and (
                    gen_of(x[1]) == oth or mentions(x[1], (
                        'func', D + '_fuzzy_match'))):
                qs.append(b.not_(b.atom(x)))
        C.implies(I, b.and_(I.entry_live, K, extra, *qs), none, 'complete',
                  con + ':' + k + ':missing', 'an item missing from the '
                  'other collection is not reported', where(f))
    if not may:
        once(C, I, f, con, a, by)
    # duplicates are counted
    for own in (a, o):
        for r, g, v, e in index_sets(I, own):
            for g2, t in flat(I, v, g):
                if t[0] != 'tuple' or len(t) != 3:
                    continue
                n = t[2]
                ns = [y for _, y in flat(I, ((TRUE, n),))]
                if any(n[0] == 'item' for n in ns):
                    ns = [n for n in ns if n[0] == 'item']
                for n in ns:
                    if n[0] != 'item':
                        C.check(None if n[0] != 'const' else False, 'count',
                                con, 'repeated items are not told apart',
                                e.where)
                        continue
                    bump = FALSE
                    for s in evs(I, 'setitem', 'mut'):
                        if s.target == n[1]:
                            bump = b.or_(bump, s.guard)
                    C.implies(I, g2, bump, 'count', con, 'repeated items '
                              'are not told apart', e.where)


def once(C, I, f, con, a, by):
    """every item of the base is reported in exactly one way"""
    b = I.b
    K = FALSE
    for r, g, v, e in index_sets(I, a):
        K = b.or_(K, g)
    R = {}
    for k in ('REMOVED', 'MODIFIED', 'NO_CHANGE'):
        R[k] = FALSE
        for g, e in by.get(k, []):
            if len(e.loops) == 1 and gen_of(e.loops[0]) == a:
                R[k] = b.or_(R[k], g)
            else:
                C.unk('partition', con, 'reported from another loop',
                      e.where)
                return
    pre = b.and_(I.entry_live, K, opt(I, 'unchanged'),
                 b.not_(opt(I, 'moved')))
    C.implies(I, pre, b.or_(*R.values()), 'partition', con + ':all', 'an '
              'item is reported neither as unchanged, modified nor removed',
              where(f))
    for x, y in (('REMOVED', 'NO_CHANGE'), ('MODIFIED', 'NO_CHANGE')):
        C.never(I, b.and_(pre, R[x], R[y]), 'partition', '%s:%s:%s' % (
            con, x, y), 'an item is reported in two ways', where(f))
    # an item which is removed has the same key as one which is: itself
    R['REMOVED'] = fix(I, R['REMOVED'], [
        x for x in b.support_atoms(R['REMOVED']) if x[0] == 'exists' and
        gen_of(x[1]) == a], True)
    C.never(I, b.and_(pre, R['REMOVED'], R['MODIFIED']), 'partition',
            con + ':REMOVED:MODIFIED', 'an item is reported in two ways',
            where(f))


def coll_case(C, f, mode):
    a, o = operands(f)
    for absent in ((None,) if mode != 'one side' else (a, o)):
        con = f.node.name + ':' + mode + (
            '' if absent is None else ':no ' + (
                'base' if absent == a else 'other'))

        def live(I):
            b, L = I.b, I.L
            r = opt(I, 'recurse')
            return b.and_(present(I), r if mode == 'recurse' else b.not_(r),
                          *[L.is_(x, NOTH) if x == absent else
                            b.not_(L.is_(x, NOTH)) for x in (a, o)])
        I = C.run(f, boundary=CUT, live=live, types=FST)
        coll_mode(C, I, f, con, mode, a, o, absent)


# what every collection is an instance of
EVERY = ('Iterable', 'Sized', 'Container', 'Collection', 'object',
         'KeyedCollection', 'Record')


def coll_mode(C, I, f, con, mode, a, o, absent):
    b, L = I.b, I.L
    own_t = ('typeof', o if absent == a else a)
    # simple collections are compared as lists or dicts, operands in place
    names = [x.arg for x in f.node.args.args]
    for e in evs(I, 'call'):
        c = e.callee
        if c not in SIMPLE:
            continue
        in_place(C, I, e, c[1], [a, o, FA, FB, OPT], con)
        passed_on(C, I, e, con + ':simple', e.guard)
    refusals(C, I, f, con, o if absent == a else a)
    # identities of the items of both collections
    for e in evs(I, 'call'):
        if e.callee != A(OPT, 'record_id') or not e.args:
            continue
        for g, v in flat(I, e.args[0], e.guard):
            ks = entry_kind(I, v, entry_val)
            loop = {gen_of(x) for x in e.loops}
            C.check(None if None in ks or None in loop else ks == loop,
                    'identity', con, 'not the identity of the item',
                    e.where)
        C.check(mentions(e.result, A(OPT, 'id_args')) or None, 'identity',
                con + ':args', 'identity without the options', e.where)

    def keep(I, at):
        out = [I.b.not_(opt(I, 'ignore_empty_items'))]
        for x in at:
            if x[0] == 'in' and x[2] == A(OPT, 'compare_filter') or \
                    x[0] == 'subcls':
                out.append(I.b.atom(x))
            if x[0] == 'isinst' and x[1] == A(own_t, 'itemtype'):
                out.append(I.b.not_(I.b.atom(x)))
            if x[0] == 'truthy' and x[1][0] == 'item' and \
                    mentions(x[1], A(OPT, 'id_args')):
                out.append(I.b.atom(x))
        return I.b.and_(*out)
    considered(C, I, f, con, *((a, o) if absent is None else
                               (o, o) if absent == a else (a, a)), keep)
    by = marks_coll(C, I, f, con, mode, a, o, absent)
    # descent
    D_, n = FALSE, 0
    for e in evs(I, 'call'):
        if e.callee != ('func', D + '_diff_iter'):
            continue
        n += 1
        descent(C, I, e, con, a, o, absent)
        passed_on(C, I, e, con, e.guard)
        if len(e.loops) == 1 and gen_of(e.loops[0]) in (a, o):
            D_ = b.or_(D_, e.guard)
    own, oth = (o, a) if absent == a else (a, o)
    K = FALSE
    for r, g, v, e in index_sets(I, own):
        K = b.or_(K, g)
    if not n or K == FALSE:
        C.check(None if K == FALSE or any(
            sum(1 for x in (a, o) if any(
                mentions(untyped(t), x) for v in e.args
                for g, t in flat(I, v))) == 2
            for e in evs(I, 'call') if e.callee not in SIMPLE) else False,
                'descend', con + ':all',
                'nothing is compared member by member', where(f))
        return
    if mode == 'one side':
        xs = [x for x in b.support_atoms(D_) if x[0] == 'exists']
        C.implies(I, b.and_(I.entry_live, K), fix(I, D_, xs, False),
                  'descend', con + ':all', 'not every item of a collection '
                  'missing on the other side is looked at', where(f))
    else:
        xs = [x for x in b.support_atoms(D_) if x[0] == 'exists']
        xb = [x for x in xs if gen_of(x[1]) == oth]
        ya = [x for x in b.support_atoms(D_) if x[0] == 'isinst' and
              x[2] in ('tuple', ('builtin', 'tuple')) and
              mentions(x[1], A(OPT, 'record_id'))]
        if not xb:
            C.check(False if D_ == FALSE and mode == 'recurse' else None,
                    'descend', con + ':all', 'how items are matched is '
                    'unknown', where(f))
            return
        full = fix(I, D_, xs, True)
        q = [b.atom(x) for x in b.support_atoms(full)
             if x[0] == 'isinst' and mentions(x[1], A(OPT, 'record_id')) or
             x[0] in ('isnone', 'truthy') and x[1][0] == 'lv' or
             x[0] == 'isinst' and x[1] in (a, o) and
             str(x[2][-1]).rpartition('.')[2] in EVERY]
        C.implies(I, b.and_(I.entry_live, fix(I, K, [
            x for x in b.support_atoms(K) if x[0] == 'exists'], True), *q),
            full, 'descend', con + ':all', 'items in both collections are '
            'not compared', where(f))
        C.never(I, fix(I, D_, xb, False), 'descend', con + ':common',
                'an item of one collection only is compared', where(f))


def pairs_marked(C, I, f, con, a, o, by):
    """pairs of items are reported as moved, or as unchanged, whenever this
    is asked for"""
    b, L = I.b, I.L
    mv, un = opt(I, 'moved'), opt(I, 'unchanged')
    K, calls_ = FALSE, {}
    for r, g, v, e in index_sets(I, a):
        K = b.or_(K, g)
    if not any(len(e.loops) == 1 and gen_of(e.loops[0]) == a
               for k in ('MOVED', 'NO_CHANGE') for g, e in by.get(k, [])) \
            and any(len(e.loops) == 1 and gen_of(e.loops[0]) == o for k in
                    ('MOVED', 'NO_CHANGE') for g, e in by.get(k, [])):
        a, o, K = o, a, FALSE
        for r, g, v, e in index_sets(I, a):
            K = b.or_(K, g)
    fz = {}
    for e in evs(I, 'call'):
        if e.callee == ('func', D + '_diff_iter') and len(e.loops) == 1 and \
                mentions(e.loops[0], ('func', D + '_fuzzy_match')):
            fz[e.loops[0]] = b.or_(fz.get(e.loops[0], FALSE), e.guard)
    for kind in ['same'] + sorted(fz, key=str):
        got = {}
        for k in ('MOVED', 'NO_CHANGE'):
            got[k] = FALSE
            for g, e in by.get(k, []):
                if len(e.loops) != 1:
                    C.unk('marked', con, 'reported from an unknown place',
                          e.where)
                    return
                if gen_of(e.loops[0]) == a if kind == 'same' else \
                        e.loops[0] == kind:
                    got[k] = b.or_(got[k], g)
        xs = [x for k in got for x in b.support_atoms(got[k])
              if x[0] == 'exists' and gen_of(x[1]) == o]
        if kind == 'same':
            if not xs:
                C.check(False if any(len(e.loops) == 1 and gen_of(
                    e.loops[0]) == a and not any(
                        x[0] == 'in' and x[2] in I.conts or x[0] == 'exists'
                        for x in b.support_atoms(g))
                    for k in got for g, e in by.get(k, [])) else None,
                        'marked', con, 'items are reported which are in one '
                        'collection only', where(f))
                continue
            B = b.and_(I.entry_live, K)
            for k, g in got.items():
                C.never(I, fix(I, g, xs, False), 'marked', con + ':' + k +
                        ':both', 'an item without partner is reported as ' +
                        k.lower(), where(f))
            got = {k: fix(I, g, xs, True) for k, g in got.items()}
        else:
            B = fz[kind]
        below = [x for k in got for x in b.support_atoms(got[k])
                 if x[0] == 'exists' and x[1][0] == 'call' and
                 x[1][1] == ('func', D + '_diff_iter')]
        if kind != 'same':
            untouched(C, I, f, con, got['NO_CHANGE'], below)
        M, N = got['MOVED'], fix(I, got['NO_CHANGE'], below, False)
        eqs = [x for x in b.support_atoms(M) if x[0] in ('eq', 'is') and
               NOTH not in x[1:]]
        differ = b.and_(*[b.not_(b.atom(x)) for x in eqs])
        c = con + ':' + ('same' if kind == 'same' else 'similar')
        if M == FALSE or eqs:
            C.implies(I, b.and_(B, mv, differ), M, 'marked', c + ':MOVED',
                      'an item in another place is not reported as moved',
                      where(f))
        else:
            C.unk('marked', c + ':MOVED', 'unknown when items count as '
                  'moved', where(f))
        C.implies(I, b.and_(B, un, b.not_(mv)), N, 'marked', c +
                  ':NO_CHANGE', 'an unchanged item is not reported',
                  where(f))
        if eqs:
            C.implies(I, b.and_(B, un, *[b.atom(x) for x in eqs]), N,
                      'marked', c + ':NO_CHANGE:moved', 'an item which was '
                      'not moved is not reported as unchanged', where(f))


def untouched(C, I, f, con, N, below):
    """a pair counts as unchanged unless something below it changed"""
    b = I.b
    same = A(DT, 'NO_CHANGE')
    c = con + ':similar:NO_CHANGE'
    if N == FALSE:
        return
    if not below:
        C.check(None if any(opaque(y) for x in b.support_atoms(N)
                            for y in x[1:] if isinstance(y, tuple)) or any(
            x[0] == 'lv' or mentions(x, ('func', D + '_diff_iter'))
            for x in b.support_atoms(N)) else False, 'marked', c + ':below',
            'a pair is reported as unchanged whatever was found below it',
            where(f))
        return
    C.never(I, fix(I, N, below, True), 'marked', c + ':below', 'a pair is '
            'reported as unchanged which has differences below', where(f))
    for x in below:
        q = x[2]
        at = [y for y in b.support_atoms(q) if y[0] in ('eq', 'is') and
              same in y[1:]]
        if len(at) != 1:
            C.check(True if q == TRUE else None, 'marked', c + ':counts',
                    'unknown which differences count', where(f))
            continue
        eq = b.atom(at[0])
        C.implies(I, b.and_(q, eq), FALSE, 'marked', c + ':counts',
                  'what did not change below a pair counts as a difference',
                  where(f))
        C.implies(I, b.not_(eq), q, 'marked', c + ':counts:all', 'what '
                  'changed below a pair does not count as a difference',
                  where(f))


def refusals(C, I, f, con, own):
    """which comparison a collection gets"""
    b, L = I.b, I.L
    it = A(('typeof', own), 'itemtype')
    several = b.atom(('isinst', it, ('builtin', 'tuple')))
    rec = b.atom(('subcls', it, ('class', 'normalize.record.Record')))
    dct, lst = [b.atom(('isinst', own, ('class', 'normalize.coll.' + x)))
                for x in ('DictCollection', 'ListCollection')]
    R = {}
    for e in raises(I):
        n = exc_name(e)
        R[n] = b.or_(R.get(n, FALSE), e.guard)
    S = {c: FALSE for c in SIMPLE}
    for e in evs(I, 'call'):
        if e.callee in S:
            S[e.callee] = b.or_(S[e.callee], e.guard)
    live = I.entry_live
    plain = b.and_(live, b.not_(several), b.not_(rec))
    known = set()
    for g in (several, rec, dct, lst, live):
        known |= set(b.support_atoms(g))
    for g in list(R.values()) + list(S.values()):
        for x in b.support_atoms(g):
            if x not in known and (mentions(x, it) or x[0] in (
                    'isinst', 'subcls') or any(
                    mentions(x, y) for y in SIMPLE)):
                C.unk('refused', con, 'the types are told apart in another '
                      'way', where(f))
                return
    for g, h, w, msg in (
            (b.and_(live, several), R.get('CollectionItemTypeUnsupported',
                                          FALSE), 'several',
             'a collection of several item types is not refused'),
            (b.and_(plain, dct), S[SIMPLE[1]], 'dict', 'a dict collection '
             'of simple items is not compared as a dict'),
            (b.and_(plain, b.not_(dct), lst), S[SIMPLE[0]], 'list', 'a list '
             'collection of simple items is not compared as a list'),
            (b.and_(plain, b.not_(dct), b.not_(lst)), R.get(
                'CollectionDiffUnsupported', FALSE), 'unsupported', 'a '
             'collection of simple items which can not be compared is not '
             'refused')):
        C.implies(I, g, h, 'refused', con + ':' + w, msg, where(f))
    for g, h, w, msg in (
            (R.get('CollectionItemTypeUnsupported', FALSE), several,
             'several', 'a collection of one item type is refused'),
            (R.get('CollectionDiffUnsupported', FALSE), b.and_(
                plain, b.not_(dct), b.not_(lst)), 'unsupported', 'a '
             'collection is refused which can be compared'),
            (S[SIMPLE[1]], b.and_(plain, dct), 'dict', 'compared as a dict '
             'which it is not'),
            (S[SIMPLE[0]], b.and_(plain, lst), 'list', 'compared as a list '
             'which it is not')):
        C.implies(I, b.and_(live, g), h, 'refused', con + ':only:' + w, msg,
                  where(f))


def in_place(C, I, e, qual, want, con):
    """a call passes on the operands in their places"""
    fn = C.m.need_func(qual)
    names = [x.arg for x in fn.node.args.args]
    vals = dict(zip(names, e.args))
    vals.update(e.kws)
    for n, w in zip(names, want):
        v = vals.get(n)
        if v is None:
            C.bad('operands', '%s:%s:%s' % (con, fn.node.name, n),
                  'the argument is left out', e.where)
            continue
        v = {t for g, t in flat(I, v, e.guard)}
        C.check(None if any(opaque(t) for t in v) else v == {w}, 'operands',
                '%s:%s:%s' % (con, fn.node.name, n), 'not the operand',
                e.where, str([I.L.show(t)[:60] for t in v]))


def apart(C, I, e, con):
    """what is said about two values themselves is not said once for each of
    the differences found below"""
    b = I.b
    own = {x.result for x in evs(I, 'construct') if x.cls == INFO}
    for y in evs(I, 'yield'):
        below = [x for x in y.loops
                 if x[0] == 'call' and x[1] == e.result[1]]
        if below and any(
                t in own for g1, t in flat(I, y.value, y.guard)):
            C.check(None if any(
                x[0] == 'unbroken' or
                b.restrict(y.guard, b.index[x], 0) == FALSE for x in b.support_atoms(y.guard)
                if x[0] in ('first', 'unbroken') and x[1] in below)
                else False,
                'repeat', con, 'a difference is reported again for each '
                'one found below it', y.where)


def passed_on(C, I, e, con, g):
    """the differences found by a nested comparison are yielded"""
    b = I.b
    p, free = FALSE, FALSE
    apart(C, I, e, con)
    for y in evs(I, 'yield', 'yieldfrom'):
        for gg, t in flat(I, y.value, y.guard):
            if t in (('elem', e.result), e.result):
                p = b.or_(p, gg)
            elif opaque(t):
                free = b.or_(free, gg)
    if p == FALSE and free != FALSE:
        C.unk('descend', con + ':passed', 'unknown values are yielded',
              e.where)
        return
    for gg, t in I.rv:
        if mentions(t, e.result):
            p = b.or_(p, gg)
    q = [b.not_(b.atom(x)) for x in b.support_atoms(p) if x[0] == 'raises']
    C.implies(I, b.and_(g, *q), p, 'descend', con + ':passed', 'the '
              'differences found below are not reported', e.where)


def descent(C, I, e, con, a, o, absent):
    b, L = I.b, I.L
    if len(e.args) != 5 or e.kws:
        fn = C.m.need_func(D + '_diff_iter')
        names = [x.arg for x in fn.node.args.args]
        vals = dict(zip(names, e.args))
        vals.update(e.kws)
        if set(vals) != set(names):
            C.check(False if set(names) - set(vals) and not e.get('star') and
                    not e.get('starkw') else None, 'descend', con +
                    ':operands', 'arguments of the comparison of members '
                    'are left out', e.where)
            return
        args = [vals[n] for n in names]
    else:
        args = e.args
    v = {t for g, t in flat(I, args[4], e.guard)}
    C.check(None if any(opaque(t) for t in v) else v == {OPT}, 'descend',
            con + ':options', 'the options are not passed on', e.where)
    got = []
    for i, own, fs in ((0, a, FA), (1, o, FB)):
        c = con + (':base' if i == 0 else ':other')
        for g, t in flat(I, args[i], e.guard):
            for g1, s in flat(I, args[i + 2], g):
                for g2, p in path(I, s, g1):
                    if g2 == FALSE:
                        continue
                    if p is None or any(opaque(x) for x in p) or not p:
                        C.unk('descend', c, 'opaque location', e.where)
                        continue
                    C.check(p[0] == fs, 'descend', c + ':context', 'the '
                            'location is not below the context of this '
                            'object', e.where)
                    if len(p) != 2:
                        C.check(False, 'descend', c + ':key', 'the location '
                                'is not one key below the collection',
                                e.where)
                        continue
                    if t == NOTH:
                        C.implies(I, g2, L.is_(own, NOTH), 'descend', c +
                                  ':missing', 'an item is taken as missing',
                                  e.where)
                        continue
                    direct = entry_kind(I, t, entry_val)
                    if t[0] == 'item':
                        C.check(t[1] == own, 'descend', c + ':item', 'the '
                                'item is taken from the other collection',
                                e.where, L.show(t)[:120])
                        C.check(t[2] == p[1], 'descend', c + ':same', 'the '
                                'location is not the one of the item',
                                e.where, L.show(p[1])[:120])
                        got.append((i, g2, p[1]))
                    elif None not in direct:
                        C.check(direct == {own}, 'descend', c + ':item',
                                'the item is taken from the other '
                                'collection', e.where)
                    else:
                        C.unk('descend', c, 'unknown item', e.where)
    for i, g, x in got:
        own = (a, o)[i]
        ks = entry_kind(I, x, entry_key)
        if ks == {own} or None in ks and pair_side(I, x) == i:
            C.ok('descend', con + ':side', e.where)
            continue
        if any(j != i and y == x and b.and_(g, h) != FALSE
               for j, h, y in got):
            C.ok('descend', con + ':side', e.where)
            continue
        C.check(None if None in ks and pair_side(I, x) is None else False,
                'descend', con + ':side', 'the key is not one of this '
                'collection', e.where)


def marks_coll(C, I, f, con, mode, a, o, absent):
    b, L = I.b, I.L
    by = {}
    for e, yg in infos(I):
        C.implies(I, e.guard, yg, 'reported', con, 'a difference found is '
                  'not reported', e.where)
        for g, k in kinds_of(I, e):
            g = b.and_(g, yg)
            if not isinstance(k, str):
                C.unk('kind', con, 'unknown kind of difference', e.where)
                continue
            by.setdefault(k, []).append((g, e))
            places(C, I, e, g, k, con, a, o)
            if k == 'NO_CHANGE':
                C.implies(I, g, opt(I, 'unchanged'), 'gate', con +
                          ':NO_CHANGE', 'an unchanged item is reported '
                          'without being asked for', e.where)
                below = [x for x in b.support_atoms(g) if x[0] == 'exists'
                         and x[1][0] == 'call' and
                         x[1][1] == ('func', D + '_diff_iter')]
                if below:
                    C.never(I, fix(I, g, below, True), 'gate', con +
                            ':NO_CHANGE:below', 'an item with differences '
                            'is reported as unchanged', e.where)
                elif len(e.loops) == 1 and gen_of(e.loops[0]) is None and \
                        not opaque_guard(I, g):
                    C.bad('gate', con + ':NO_CHANGE:below', 'an item with '
                          'differences is reported as unchanged', e.where)
            if k == 'MOVED':
                C.implies(I, g, opt(I, 'moved'), 'gate', con + ':MOVED',
                          'a moved item is reported without being asked '
                          'for', e.where)
                moved_key(C, I, e, g, con)
    if absent is None:
        only_one_side(C, I, f, con, a, o, by, may=('fuzzy',))
    if mode == 'match':
        pairs_marked(C, I, f, con, a, o, by)
    # items matched approximately are not reported as missing as well
    if mode == 'match':
        for e in evs(I, 'call'):
            if e.callee != ('func', D + '_fuzzy_match'):
                continue
            for i, arg in enumerate(e.args[:2]):
                for g, t in flat(I, arg, e.guard):
                    gone = any(
                        x.target == t and x.get('name') in (
                            'remove', 'discard', 'difference_update',
                            '__isub__') for x in evs(I, 'mut'))
                    if t in I.conts and I.conts[t].removed:
                        gone = True
                    kk = ('REMOVED', 'ADDED')[i]
                    if not gone:
                        gone = any(mentions(x, e.callee) for h, _ in
                                   by.get(kk, []) for x in
                                   b.support_atoms(h)) or None
                        if gone is None and all(
                                len(y.loops) == 1 and gen_of(y.loops[0])
                                in (a, o) for _, y in by.get(kk, [])):
                            gone = False
                    C.check(gone, 'matched', con + ':' + kk, 'an item '
                            'matched with another is reported as ' +
                            kk.lower() + ' as well', e.where)
    return by


def generator(C):
    m = C.m
    f = m.need_func(D + 'collection_generator')
    I = C.run(f, boundary=CUT)
    b, L = I.b, I.L
    c = P(f.node.args.args[0].arg)
    noth = L.is_(c, NOTH)
    con = f.node.name
    has = {n: L.hasattr(c, const(n)) for n in (
        'itertuples', 'keys', 'items', 'iteritems', '__getitem__')}
    for e in evs(I, 'yield'):
        if e.loops:
            C.check(not any(x[0] == 'unbroken'
                            for x in b.support_atoms(e.guard)), 'entries',
                    con + ':all', 'the items stop early', e.where)
        for g, t in flat(I, e.value, e.guard):
            if t[0] != 'tuple' or len(t) != 3 or not e.loops:
                C.check(None if t[0] in OPAQUE or t[0] == 'tuple' else
                        False, 'entries', con, 'not a pair', e.where)
                continue
            k, v = t[1:]
            el = e.loops[-1]
            dom = {('elem', c), ('elem', ('keys', c))}
            C.never(I, b.and_(g, noth), 'entries', con + ':nothing',
                    'a missing collection has entries', e.where)
            if v in dom and k == v:
                C.never(I, b.and_(g, b.or_(has['keys'],
                                           has['__getitem__'])),
                        'entries', con + ':set', 'items located by '
                        'themselves in a list or mapping', e.where)
            elif v in dom and k in (('idx', c), ('idx', ('keys', c))):
                C.never(I, b.and_(g, has['keys']), 'entries', con + ':list',
                        'the keys of a mapping are taken as items', e.where)
                C.ok('entries', con, e.where)
            elif v[0] == 'item' and v[1] == c:
                C.check(k == v[2], 'entries', con + ':pair', 'an item with '
                        'the key of another', e.where)
            elif k in dom and v in dom or v in (('idx', c),) or \
                    v in dom and k[0] == 'item' and k[1] == c:
                C.bad('entries', con + ':pair', 'not (key, item)', e.where)
            elif k[0] in ('item', 'elem', 'idx') and v[0] == 'item' and \
                    mentions(v, c):
                C.unk('entries', con, 'other entry', e.where)
            elif v in dom and k[0] in ('const', 'bin'):
                C.bad('entries', con + ':index', 'items located by '
                      'something which is not their index', e.where,
                      L.show(k)[:100])
            else:
                C.unk('entries', con, 'other entry', e.where)
    # none of them is left out
    full = {}
    for e in evs(I, 'yield'):
        if e.loops:
            x = e.loops[-1]
            full[x] = b.or_(full.get(x, FALSE), e.guard)
    for x, g in full.items():
        its = [a for a in b.support_atoms(g) if a[0] not in (
            'raises', 'first', 'unbroken') and (
                mentions(a, ('elem', x)) or mentions(a, ('idx', x)))]
        for a in its:
            v = b.index[a]
            C.check(b.restrict(g, v, 0) == b.restrict(g, v, 1) or (
                None if opaque(a) else False), 'entries', con + ':all',
                'an item is left out', '', L.show(a)[:80])
    for e in evs(I, 'return'):
        if len(e.stack) > 1:
            continue
        for g, t in flat(I, e.value, e.guard):
            if t[0] == 'call' and t[1] == ('attr', c, 'itertuples'):
                C.ok('entries', con + ':itertuples', e.where)
            elif t[0] != 'new':
                continue
            C.never(I, b.and_(g, b.not_(noth), has['itertuples'],
                              TRUE if t[0] == 'new' else FALSE), 'entries',
                    con + ':itertuples', 'the itertuples() of a collection '
                    'is not used', e.where)
    # what counts as empty
    f = m.need_func(D + '_nested_empty')
    x = P(f.node.args.args[0].arg)
    I = C.run(f, boundary=[f.qual])
    b, L = I.b, I.L
    tup = [a for a in b.support_atoms(I.truth(I.rv))
           if a[0] == 'isinst' and a[1] == x]
    rv = fix(I, I.truth(I.rv), tup, False)
    want = b.or_(L.is_(x, NOTH), L.isnone(x), L.eq(x, const('')))
    C.implies(I, rv, want, 'empty', '_nested_empty', 'a value is taken as '
              'empty which is neither not set, None nor the empty string',
              where(f))
    C.implies(I, want, rv, 'empty', '_nested_empty:all', 'an empty value '
              'is not taken as empty', where(f))
    # approximate matching uses every item once
    f = m.need_func(D + '_fuzzy_match')
    I = C.run(f, boundary=[D + '_nested_falsy'])
    b = I.b
    for e in evs(I, 'yield'):
        for g, t in flat(I, e.value, e.guard):
            if t[0] != 'tuple' or len(t) != 3:
                C.unk('once', '_fuzzy_match', 'not a pair', e.where)
                continue
            for i, x in enumerate(t[1:]):
                used, seen = FALSE, FALSE
                for y in evs(I, 'mut', 'setitem'):
                    a = [y.key] if y.kind == 'setitem' else list(y.args)
                    for v in a:
                        vs = flat(I, v, y.guard) if v and isinstance(
                            v[0], tuple) else [(y.guard, v)]
                        for h, z in vs:
                            if z != x or y.loops != e.loops or \
                                    y.get('name') == 'append' and \
                                    y.target not in I.conts:
                                continue
                            used = b.or_(used, h)
                            s = b.atom(('in', x, y.target))
                            if e.loops and y.target in I.conts:
                                # nothing is removed before the first round
                                for n in I.conts[y.target].entries:
                                    if n.star:
                                        for _, z0 in flat(I, n.val):
                                            s = b.or_(s, b.and_(b.atom((
                                                'first', e.loops[-1])),
                                                b.atom(('in', x, z0))))
                            if y.get('name') in ('remove', 'discard'):
                                seen = b.or_(seen, b.and_(h, s))
                            else:
                                seen = b.or_(seen, b.and_(h, b.not_(s)))
                con = '_fuzzy_match:' + ('base', 'other')[i]
                C.implies(I, g, used, 'once', con, 'an item may be matched '
                          'with several others', e.where)
                C.implies(I, b.and_(g, used), seen, 'once', con + ':free',
                          'an item already matched is matched again',
                          e.where)
        agreeing(C, I, e)
    best_first(C, I, f)


FALSY = ('func', D + '_nested_falsy')


def admin(I, x, loops):
    """an atom which says nothing about the contents of two identities"""
    if x[0] == 'first':
        return True
    if x[0] == 'in':
        return x[2] in I.conts or x[2][0] in ('param', 'new')
    if x[0] == 'truthy':
        return x[1] in I.conts or x[1][0] in ('param', 'new')
    if x[0] == 'exists':
        return x[1] in loops or all(
            admin(I, y, loops) for y in I.b.support_atoms(x[2]))
    return False


def agreeing(C, I, e):
    """only identities which agree in some part are taken for similar"""
    b = I.b
    con = '_fuzzy_match:agree'
    at = [x for x in b.support_atoms(e.guard) if
          not admin(I, x, e.loops)]
    memo = [x for x in at if x[0] == 'truthy' and x[1][0] == 'item' and any(
        y in I.conts for y in subterms(x[1]))]
    parts = [x for x in at if x[0] == 'exists' and any(
        y[0] == 'eq' for y in b.support_atoms(x[2]))]
    if not memo and not parts:
        C.check(None if at else False, 'similar', con, 'items are paired '
                'whose identities have nothing in common', e.where)
        return
    C.never(I, fix(I, e.guard, memo + parts, False), 'similar', con,
            'items are paired whose identities have nothing in common',
            e.where)
    for x in parts:
        fs = [y for y in b.support_atoms(x[2]) if y[0] == 'truthy' and
              mentions(y[1], FALSY)]
        eq = [y for y in b.support_atoms(x[2]) if y[0] == 'eq']
        if not fs:
            C.check(None if any(not (y[0] == 'eq') for y in
                                b.support_atoms(x[2])) else False,
                    'similar', con + ':empty', 'items are paired because '
                    'both have nothing in some part', e.where)
            continue
        C.never(I, fix(I, x[2], fs, True), 'similar', con + ':empty',
                'items are paired because both have nothing in some part',
                e.where)
        C.never(I, fix(I, x[2], eq, False), 'similar', con + ':equal',
                'parts which differ count as agreement', e.where)


def linear(t, z):
    """{position of z: factor} of a sum, or None"""
    if t[0] == 'item' and t[1] == z and t[2][0] == 'const':
        return {t[2][2]: 1}
    if t[0] == 'const' and t[1] in ('int', 'float'):
        return {}
    if t[0] == 'un' and t[1] in ('USub', '-'):
        r = linear(t[2], z)
        return r and {k: -v for k, v in r.items()}
    if t[0] == 'bin' and t[1] in ('Add', 'Sub'):
        x, y = linear(t[2], z), linear(t[3], z)
        if x is None or y is None:
            return None
        for k, v in y.items():
            x[k] = x.get(k, 0) + (v if t[1] == 'Add' else -v)
        return x
    return None


def best_first(C, I, f):
    """the pair which agrees most is taken first"""
    con = '_fuzzy_match:best'
    score = {}
    for c, k in sorted(I.conts.items(), key=str):
        es = [e for e in k.entries if not e.star]
        if c[2] == 'list' and len(es) == 4 == len(k.entries):
            for i, e in enumerate(es[:2]):
                n = any(y[0] == 'len' or y[:2] == ('call', (
                    'builtin', 'len')) for g, t in flat(I, e.val)
                        for y in subterms(rewrite(
                            t, lambda z: const(0) if z[0] == 'lv' else None)))
                score.setdefault(n, set()).add(i)
    ok = sorted(score) == [False, True] and all(
        len(x) == 1 for x in score.values())
    es = evs(I, 'sorted')
    if not ok or len(es) != 1 or 'key' not in es[0].kws:
        C.unk('similar', con, 'unknown order', where(f))
        return
    e = es[0]
    Z = P('the-pair')
    rev = {t for g, t in flat(I, e.kws['reverse'], e.guard)} \
        if 'reverse' in e.kws else {const(False)}
    for g, k in flat(I, e.kws['key'], e.guard):
        for h, t in flat(I, I.apply(k, [Z], g), g):
            w = linear(t, Z)
            if w is None or len(rev) != 1 or list(rev)[0][0] != 'const':
                C.unk('similar', con, 'unknown order', e.where)
                continue
            s = 1 if list(rev)[0][2] else -1
            m, n = [s * w.get(list(score[x])[0], 0) for x in (False, True)]
            C.check(m > 0 and n <= 0, 'similar', con, 'similar items are '
                    'not paired with the one which agrees most', e.where)


def considered(C, I, f, con, a, o, keep):
    """nothing is left out of the comparison without being asked for"""
    b = I.b
    if a != o:
        numbered(C, I, con, a, o)
    whole_loop(C, I, lambda k: gen_of(k) in (a, o), 'considered', con +
               ':whole', 'the items after some item are not compared')
    for own in (a, o):
        K = FALSE
        for r, g, v, e in index_sets(I, own):
            K = b.or_(K, g)
        if K == FALSE:
            C.unk('considered', con, 'items are collected in an unknown '
                  'way', where(f))
            continue
        at = set(b.support_atoms(K))
        q = [b.not_(b.atom(x)) for x in at if x[0] == 'raises']
        C.implies(I, b.and_(I.entry_live, keep(I, at), *q), K, 'considered',
                  '%s:%s' % (con, 'base' if own == a else 'other'),
                  'items are left out of the comparison', where(f))


def table(I, t):
    """is it a mapping made here?"""
    return t in I.conts or t[0] == 'new' and t[2] in (
        'Counter', 'defaultdict')


def number(C, I, con, side, e, g, pk, seq, used):
    b, L = I.b, I.L
    if seq[0] == 'const' and any(
            x[0] == 'in' and x[1] == pk and table(I, x[2])
            for x in b.support_atoms(g)):
        return          # the first one of its kind
    if seq[0] == 'const':
        C.bad('numbered', '%s:%s' % (con, side), 'equal items '
              'are not told apart', e.where)
        return
    if seq[0] != 'item' or not table(I, seq[1]):
        C.unk('numbered', '%s:%s' % (con, side), 'numbers are '
              'made in an unknown way', e.where)
        return
    C.check(seq[2] == pk or (None if opaque(seq[2]) or opaque(
        pk) or seq[2][0] == 'phi' else False), 'numbered',
        '%s:%s:of' % (con, side), 'the number of another '
        'identity', e.where)
    used.setdefault(seq[1], set()).add(side)
    up, odd = FALSE, False
    for w in evs(I, 'setitem'):
        if w.target != seq[1]:
            continue
        ks = w.key if w.key and isinstance(
            w.key[0], tuple) else ((TRUE, w.key),)
        for gk, k in flat(I, ks, w.guard):
            for gv, x in flat(I, w.value, gk):
                if x[0] == 'bin' and x[1] == 'Add' and (
                        'item', seq[1], k) in x[2:] and any(
                        y[0] == 'const' and y[1] == 'int' and
                        y[2] > 0 for y in x[2:]):
                    if k == pk and w.loops == e.loops:
                        up = b.or_(up, gv)
                elif x[0] == 'const' and x[1] == 'int' and x[2] > 0 and \
                        L.implies(gv, b.or_(b.not_(b.atom(
                            ('in', k, seq[1]))), *[
                                b.atom(z) for z in b.support_atoms(gv)
                                if z[0] == 'first'])):
                    if k == pk and w.loops == e.loops:
                        up = b.or_(up, gv)
                elif opaque(x) or x[0] in ('call', 'phi'):
                    odd = True
                else:
                    C.bad('numbered', '%s:%s:step' % (
                        con, side), 'the number of equal items '
                        'is not counted up', w.where,
                        L.show(x)[:100])
    if odd or any(w.target == seq[1] for w in evs(I, 'mut')):
        C.unk('numbered', '%s:%s:count' % (con, side),
              'counted in an unknown way', e.where)
        return
    C.implies(I, g, up, 'numbered', '%s:%s:count' % (con, side),
              'an item is not counted: the next equal item gets '
              'the same number', e.where)


def numbered(C, I, con, a, o):
    """equal items of one side are told apart by how many came before"""
    b, L = I.b, I.L
    used = {}
    for own in (a, o):
        side = 'base' if own == a else 'other'
        for r, g, v, e in index_sets(I, own):
            for gg, t in flat(I, v, g):
                if t[0] != 'tuple' or len(t) != 3:
                    C.unk('numbered', '%s:%s' % (con, side), 'not an '
                          'identity and a number', e.where)
                    continue
                for gp, pk in flat(I, ((gg, t[1]),)):
                    for gs, seq in flat(I, ((gp, t[2]),)):
                        number(C, I, con, side, e, gs, pk, seq, used)
    for x, sides in used.items():
        C.check(len(sides) == 1, 'numbered', con + ':fresh', 'items of both '
                'sides are numbered together', where(I.entry))


# ---- C18 ------------------------------------------------------------------

DO = D + 'DiffOptions'
HOOKS = [DO + '.' + x for x in (
    'items_equal', 'normalize_whitespace', 'normalize_unf', 'normalize_case',
    'value_is_empty', 'normalize_text', 'normalize_val', 'normalize_slot',
    'normalize_object_slot', 'normalize_item', 'record_id', 'id_args',
    'is_filtered')] + ['normalize.selector.*']
DEFAULTS = dict(
    ignore_ws=True, ignore_case=False, unicode_normal=True, unchanged=False,
    ignore_empty_slots=False, ignore_empty_items=False, duck_type=False,
    extraneous=False, compare_filter=None, fuzzy_match=True, moved=False,
    recurse=False)


def hook(m, name):
    c = m.need_class(DO)
    o, f = c.lookup(name)
    if f is None or not hasattr(f, 'node'):
        raise AnalysisBroken('no %s.%s' % (DO, name))
    return f


def hrun(C, name, **kw):
    f = hook(C.m, name)
    I = C.run(f, boundary=[h for h in HOOKS if h != f.qual], selfcls=DO,
              **kw)
    return f, I


def calls(I, t, name):
    """t is a call of the hook `name` of self -> its arguments by position"""
    if t[0] != 'call':
        return None
    c = t[1]
    if c == ('attr', SELF, name) or c[0] == 'bound' and c[1] == SELF and \
            c[2].rpartition('.')[2] == name:
        out = list(t[2])
        kw = dict((k, v) for k, v in t[3]) if t[3] else {}
        if not kw:
            return out
        f = I.model.need_class(DO).lookup(name)[1]
        ps = [x.arg for x in f.node.args.args][1:]
        while len(out) < len(ps) and ps[len(out)] in kw:
            out.append(kw.pop(ps[len(out)]))
        return None if kw else out
    return None


def results(I):
    def fn(t):
        if t[0] == 'attr' and t[2] == '_nothing' and t[1] in (
                SELF, ('typeof', SELF)):
            return NOTH
    return [(g, rewrite(t, fn)) for g, t in flat(I, I.rv, exits(I))]


def c18(C):
    options_stored(C)
    text(C)
    value(C)
    slot(C)
    item(C)
    f, I = hrun(C, 'items_equal')
    a, o = [P(x.arg) for x in f.node.args.args][1:3]
    b = I.b
    t = I.truth(I.rv)
    C.check(None if opaque_guard(I, t) else
            I.L.implies(t, I.L.eq(a, o)) and I.L.implies(I.L.eq(a, o), t),
            'equal', 'items_equal', 'values are not compared by equality',
            where(f), I.L.showg(t)[:200])


def options_stored(C):
    m = C.m
    f = m.need_func(DO + '.__init__')
    I = C.run(f, boundary=HOOKS, selfcls=DO)
    b, L = I.b, I.L
    args = f.node.args
    names = [x.arg for x in args.args][1:] + [x.arg for x in args.kwonlyargs]
    dflt = {}
    import ast as A_
    for x, d in zip(args.args[len(args.args) - len(args.defaults):],
                    args.defaults):
        dflt[x.arg] = d
    for x, d in zip(args.kwonlyargs, args.kw_defaults):
        dflt[x.arg] = d
    for n in DEFAULTS:
        if n not in names:
            C.unk('option', n, 'no such parameter', where(f))
            continue
        d = dflt.get(n)
        if isinstance(d, A_.Constant):
            C.check(d.value is DEFAULTS[n], 'option', n + ':default',
                    'the default of the option is not the documented one',
                    where(f))
        else:
            C.unk('option', n + ':default', 'no literal default', where(f))
        p = P(n)
        g = FALSE
        bad = False
        for e in evs(I, 'setattr', 'store'):
            tgt = e.get('obj', e.get('target'))
            if tgt != SELF or e.get('attr', e.get('name')) not in (
                    n, const(n)):
                continue
            for gg, t in flat(I, e.value, e.guard):
                if t == p or n == 'compare_filter':
                    g = b.or_(g, gg)
                    if n == 'compare_filter' and t != p:
                        mf = t[0] == 'new' and 'MultiFieldSelector' in \
                            str(t) or t[0] == 'call'
                        C.check(mf or None, 'option', n + ':built',
                                'not a selector', e.where)
                        C.never(I, b.and_(gg, L.isnone(p)), 'option', n +
                                ':none', 'a filter is made up', e.where)
                elif opaque(t):
                    g = b.or_(g, gg)
                    C.unk('option', n, 'opaque', e.where)
                else:
                    if t[0] == 'const' and t[1] == 'bool' and L.implies(
                            gg, L.truthy(p) if t[2] else b.not_(
                                L.truthy(p))):
                        g = b.or_(g, gg)
                        continue
                    bad = True
                    C.bad('option', n, 'the option is stored with another '
                          'value', e.where, L.show(t)[:100])
        if not bad:
            q = [b.not_(b.atom(x)) for x in b.support_atoms(g)
                 if x[0] == 'raises']
            C.implies(I, b.and_(b.not_(raised(I)), *q), g, 'option', n,
                      'the option is not stored', where(f))


def text(C):
    steps = (('normalize_whitespace', 'ignore_ws'),
             ('normalize_case', 'ignore_case'),
             ('normalize_unf', 'unicode_normal'))
    f, I = hrun(C, 'normalize_text')
    b, L = I.b, I.L
    v = P(f.node.args.args[1].arg)
    for g, t in results(I):
        x, seen = t, []
        while True:
            for h, o in steps:
                a = calls(I, x, h)
                if a is not None and len(a) == 1:
                    seen.append(h)
                    x = a[0]
                    break
            else:
                break
        if x != v:
            C.check(None if opaque(x) or x[0] == 'call' else False, 'text',
                    'normalize_text', 'not the text given', where(f),
                    L.show(t)[:150])
            continue
        for h, o in steps:
            on = L.truthy(A(SELF, o))
            if h in seen:
                C.implies(I, g, on, 'text', 'normalize_text:' + h, '%s is '
                          'applied without the option' % h, where(f))
            else:
                C.never(I, b.and_(g, on), 'text', 'normalize_text:' + h,
                        '%s is not applied although asked for' % h,
                        where(f))


    forms(C)


def forms(C):
    f, I = hrun(C, 'normalize_unf')
    b, L = I.b, I.L
    v = P(f.node.args.args[1].arg)
    isstr = L.isinst(v, ('builtin', 'str'))
    for g, t in results(I):
        if t == v:
            C.never(I, b.and_(g, isstr), 'text', 'normalize_unf:text',
                    'text is not brought into the normal form', where(f))
        elif t[0] == 'call' and t[1] == ('ext', 'unicodedata.normalize'):
            C.check(t[2] == (const('NFC'), v), 'text',
                    'normalize_unf:form', 'not the NFC form of the text',
                    where(f), L.show(t)[:120])
        else:
            C.check(None if opaque(t) or t[0] == 'call' else False, 'text',
                    'normalize_unf', 'not the text given', where(f),
                    L.show(t)[:120])
    f, I = hrun(C, 'normalize_case')
    v = P(f.node.args.args[1].arg)
    for g, t in results(I):
        C.check(t in [('call', A(v, n), (), ()) for n in (
            'upper', 'lower', 'casefold')] or (
            None if opaque(t) else False), 'text', 'normalize_case',
            'text which differs in case only is not made equal', where(f),
            I.L.show(t)[:120])
    f, I = hrun(C, 'normalize_whitespace')
    b, L = I.b, I.L
    v = P(f.node.args.args[1].arg)
    for g, t in results(I):
        if t[0] != 'fmt' or len(t) != 3 or t[1][0] != 'const':
            C.check(None if opaque(t) or t[0] == 'call' else False, 'text',
                    'normalize_whitespace', 'runs of white space are not '
                    'replaced', where(f), L.show(t)[:120])
            continue
        C.check(t[1][2] == ' ', 'text', 'normalize_whitespace:sep',
                'words are not separated by one space', where(f),
                repr(t[1][2]))
        src = t[2]
        nonempty = False
        if src in I.conts:
            es = I.conts[src].entries
            if len(es) != 1 or es[0].star or len(es[0].val) != 1:
                C.unk('text', 'normalize_whitespace:words', 'not one loop',
                      where(f))
                continue
            e = es[0]
            x = e.val[0][1]
            if x[0] != 'elem':
                C.unk('text', 'normalize_whitespace:words', 'not the words',
                      where(f), )
                continue
            src = x[1]
            got = b.and_(e.guard, b.not_(FALSE))
            full = b.or_(L.truthy(x), L.truthy(('len', x)))
            if L.implies(got, full) and got != TRUE:
                nonempty = True
            C.implies(I, b.and_(g, L.truthy(x)), got, 'text',
                      'normalize_whitespace:words', 'words are left out',
                      where(f), terms=[('unk',)] if e.guard != TRUE and
                      not any(mentions(a, x) for a in b.support_atoms(got))
                      else ())
        if src == ('call', A(v, 'split'), (), ()):
            C.ok('text', 'normalize_whitespace:split', where(f))
        elif src[0] == 'call' and src[1] == ('ext', 're.split') and len(
                src[2]) >= 2 and src[2][0][0] == 'const':
            C.check(src[2][1] == v, 'text', 'normalize_whitespace:of',
                    'not the words of the text', where(f))
            C.check(space_pattern(src[2][0][2]), 'text',
                    'normalize_whitespace:pattern', 'not every white space '
                    'separates words', where(f), repr(src[2][0][2]))
            C.check(nonempty or None, 'text', 'normalize_whitespace:ends',
                    'leading and trailing white space', where(f))
        else:
            C.unk('text', 'normalize_whitespace:split', 'another split',
                  where(f))


def space_pattern(p):
    """the constant pattern matches exactly the white space characters"""
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            from re import _parser as sp
        except ImportError:
            import sre_parse as sp
    try:
        q = list(sp.parse(p))
    except Exception:
        return False
    if len(q) == 1 and str(q[0][0]) == 'MAX_REPEAT':
        lo, hi, sub = q[0][1]
        if lo != 1 or hi < 2:
            return None
        q = list(sub)
    if len(q) != 1:
        return None
    if str(q[0][0]) != 'IN':
        return False if str(q[0][0]) == 'LITERAL' else None
    return [str(x[1]) for x in q[0][1]] == ['CATEGORY_SPACE'] or (
        None if any('CATEGORY' in str(x[1]) for x in q[0][1]) else False)


def value(C):
    f, I = hrun(C, 'normalize_val')
    b, L = I.b, I.L
    v = P(f.node.args.args[1].arg)
    isstr = L.isinst(v, ('builtin', 'str'))
    for g, t in results(I):
        ie = L.truthy(A(SELF, 'ignore_empty_slots'))

        def empty(x):
            return b.or_(*[b.atom(a) for a in b.support_atoms(g)
                           if a[0] == 'truthy' and
                           calls(I, a[1], 'value_is_empty') == [x]])
        if t == NOTH or t == A(SELF, '_nothing'):
            xs = [calls(I, a[1], 'value_is_empty') for a in
                  b.support_atoms(g) if a[0] == 'truthy']
            xs = [x[0] for x in xs if x]
            C.implies(I, g, b.or_(L.is_(v, NOTH), b.and_(ie, b.or_(*[
                empty(x) for x in xs]))), 'value', 'normalize_val:nothing',
                'a value is taken as not set', where(f))
            for x in xs:
                if x != v:
                    C.check(calls(I, x, 'normalize_text') == [v] or None,
                            'value', 'normalize_val:order', 'another value '
                            'is tested for emptiness', where(f))
            C.implies(I, b.and_(g, isstr), b.or_(L.is_(v, NOTH), *[
                empty(x) for x in xs if x != v]), 'value',
                'normalize_val:order', 'text is tested for emptiness before '
                'it is normalised', where(f))
            C.implies(I, b.and_(g, b.not_(isstr)), b.or_(
                L.is_(v, NOTH), *[empty(x) for x in xs if x == v]), 'value',
                'normalize_val:order', 'another value is tested for '
                'emptiness', where(f))
            continue
        if t == v:
            C.never(I, b.and_(g, isstr), 'value', 'normalize_val:text',
                    'text is not normalised', where(f))
        elif calls(I, t, 'normalize_text') == [v]:
            C.implies(I, g, isstr, 'value', 'normalize_val:text', 'a value '
                      'which is not text is normalised as text', where(f))
        else:
            C.check(None if opaque(t) or t[0] == 'call' else False, 'value',
                    'normalize_val', 'not the normalised value', where(f),
                    L.show(t)[:150])
            continue
        C.implies(I, b.and_(g, ie), b.or_(*[
            b.not_(b.atom(a)) for a in b.support_atoms(g)
            if a[0] == 'truthy' and calls(I, a[1], 'value_is_empty')
            == [t]]), 'value', 'normalize_val:empty', 'an empty value is '
            'taken as set although empty slots are ignored', where(f))
    f, I = hrun(C, 'value_is_empty')
    b, L = I.b, I.L
    v = P(f.node.args.args[1].arg)
    t = I.truth(I.rv)
    want = b.or_(L.isnone(v), b.and_(L.isinst(v, ('builtin', 'str')),
                                     b.not_(L.truthy(v))))
    eq = L.eq(v, const(''))
    want2 = b.or_(L.isnone(v), eq)
    ok = None
    for w in (want, want2):
        if L.implies(t, w) and L.implies(w, t):
            ok = True
    if ok is None and not opaque_guard(I, t) and all(
            mentions(x, v) for x in b.support_atoms(t)):
        ok = False if not L.implies(t, b.or_(want, want2)) or not \
            L.implies(b.and_(want, want2), t) else None
    C.check(ok, 'value', 'value_is_empty', 'what counts as empty is not '
            'None and the empty string', where(f), L.showg(t)[:200])


def slot(C):
    f, I = hrun(C, 'normalize_slot')
    v = P(f.node.args.args[1].arg)
    for g, t in results(I):
        C.check(None if opaque(t) else calls(I, t, 'normalize_val') == [v]
                or (None if t[0] == 'call' else False), 'slot',
                'normalize_slot', 'a slot value is not normalised',
                where(f), I.L.show(t)[:100])
    f, I = hrun(C, 'normalize_object_slot')
    b, L = I.b, I.L
    v, prop, obj = [P(x.arg) for x in f.node.args.args][1:4]
    own = L.hasattr(prop, const('compare_as'))
    ca = A(prop, 'compare_as')
    use = FALSE
    for g, t in results(I):
        a = calls(I, t, 'normalize_slot')
        if a is None or len(a) != 2:
            C.check(None if opaque(t) or t[0] == 'call' else False, 'slot',
                    'normalize_object_slot', 'the slot hook is not called',
                    where(f), L.show(t)[:120])
            continue
        C.check(a[1] == prop or (None if opaque(a[1]) else False), 'slot',
                'normalize_object_slot:prop', 'not the property of the slot',
                where(f))
        for gg, x in flat(I, ((g, a[0]),)):
            if x == v:
                C.never(I, b.and_(gg, own, b.not_(L.is_(v, NOTH))), 'slot',
                        'normalize_object_slot:compare_as', 'the compare_as '
                        'function of the property is not applied', where(f))
            elif x[0] == 'call' and (x[1] == ca or x[1][0] == 'bound' and
                                     x[1][1] == prop):
                C.never(I, b.and_(gg, L.is_(v, NOTH)), 'slot',
                        'normalize_object_slot:nothing', 'compare_as is '
                        'called for a slot which is not set', where(f))
                C.implies(I, gg, own, 'slot', 'normalize_object_slot:own',
                          'compare_as is called on a property without one',
                          where(f))
                star_args(C, I, f, x, gg, v, prop, obj)
            else:
                C.check(None if opaque(x) or x[0] == 'call' else False,
                        'slot', 'normalize_object_slot:value', 'another '
                        'value is compared', where(f), L.show(x)[:120])


def hi_atoms(I, g):
    return tuple(a for a in I.b.support_atoms(g) if a[0] == 'hasattr') or \
        ('none',)


def star_args(C, I, f, call, g, v, prop, obj):
    """compare_as gets the object when it is a method, and the value when it
    takes one"""
    b, L = I.b, I.L
    flat_args = [(g, [])]
    for x in call[2]:
        if x[0] == 'star' and x[1] in I.conts:
            for e in I.conts[x[1]].entries:
                if e.star:
                    C.unk('slot', 'normalize_object_slot:args', 'opaque',
                          where(f))
                    return
                nxt = []
                for gg, p in flat_args:
                    for g2, y in flat(I, e.val, b.and_(gg, e.guard)):
                        nxt.append((g2, p + [y]))
                    off = b.and_(gg, b.not_(e.guard))
                    if off != FALSE:
                        nxt.append((off, p))
                flat_args = [z for z in nxt if z[0] != FALSE]
        elif x[0] == 'star':
            C.unk('slot', 'normalize_object_slot:args', 'opaque', where(f))
            return
        else:
            flat_args = [(g2, p + [y]) for gg, p in flat_args
                         for g2, y in flat(I, ((gg, x),))]
    every = {a for gg, p in results(I) for a in b.support_atoms(gg)} | {
        a for gg, p in flat_args for a in b.support_atoms(gg)}
    for gg, p in flat_args:
        C.check(None if any(opaque(y) for y in p) else
                p in ([], [v], [obj], [obj, v]), 'slot',
                'normalize_object_slot:args', 'compare_as is not called '
                'with the object and the value', where(f),
                str([L.show(y)[:40] for y in p]))
        # the flags which decide: entries 0 and 1 of compare_as_info
        for i, y in ((0, obj), (1, v)):
            fl = [a for a in every if a[0] == 'truthy' and
                  a[1][0] == 'item' and a[1][2] == const(i) and
                  'compare_as_info' in str(a[1])]
            if not fl:
                continue
            on = b.or_(*[b.atom(a) for a in fl])
            hi = L.hasattr(prop, const('compare_as_info'))
            if mentions(hi_atoms(I, gg), const('compare_as_info')):
                # without the information: the value and no object
                on = b.and_(hi, on) if i == 0 else b.or_(b.not_(hi), on)
            if y in p:
                C.implies(I, gg, on, 'slot', 'normalize_object_slot:flag%d'
                          % i, 'an argument compare_as does not take',
                          where(f))
            else:
                C.never(I, b.and_(gg, on), 'slot',
                        'normalize_object_slot:flag%d' % i, 'an argument '
                        'compare_as takes is left out', where(f))


def item(C):
    f, I = hrun(C, 'normalize_item')
    b, L = I.b, I.L
    v, coll = [P(x.arg) for x in f.node.args.args][1:3]
    own = L.hasattr(coll, const('compare_item_as'))
    for g, t in results(I):
        a = calls(I, t, 'normalize_val')
        if a is None or len(a) != 1:
            C.check(None if opaque(t) or t[0] == 'call' and t[1] != A(
                coll, 'compare_item_as') else False, 'item',
                    'normalize_item', 'an item is not normalised', where(f),
                    L.show(t)[:100])
            continue
        for gg, x in flat(I, ((g, a[0]),)):
            if x == v:
                C.never(I, b.and_(gg, own, b.not_(L.is_(v, NOTH))), 'item',
                        'normalize_item:compare_item_as', 'the '
                        'compare_item_as function of the collection is not '
                        'applied', where(f))
            elif x[0] == 'call' and x[1] == A(coll, 'compare_item_as'):
                C.check(x[2] == (v,), 'item', 'normalize_item:value', 'not '
                        'the value', where(f))
                C.implies(I, gg, b.and_(own, b.not_(L.is_(v, NOTH))),
                          'item', 'normalize_item:gate', 'compare_item_as '
                          'is called without being there', where(f))
            else:
                C.check(None if opaque(x) or x[0] == 'call' else False,
                        'item', 'normalize_item:other', 'another value is '
                        'compared', where(f), L.show(x)[:100])


RULES = {'C16': c16, 'C17': c17, 'C18': c18}
