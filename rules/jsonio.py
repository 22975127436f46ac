"""C10 JSON in, C11 JSON out, C12 unknown keys, C13 conversion errors,
C14 uniform decoding"""
import ast

from .base import *
from .elems import elements

J = 'normalize.record.json.'
JREC = J + 'JsonRecord'
JP = ('class', 'normalize.property.json.JsonProperty')
RT, JS, KW = P('record_type'), P('json_struct'), P('kwargs')
RECORD, EXTRA = P('record'), P('extraneous')
JN = A(PROP, 'json_name')
CUT = ['normalize.property.*', 'normalize.selector.*',
       'normalize.record.Record*', 'normalize.coll.*', J + 'from_json',
       J + 'JsonRecord*']


def quiet(I, g, pred=lambda a: True):
    """assume no exception (of those selected) is raised on the way, and no
    earlier iteration ended the loop"""
    b = I.b
    return [b.not_(b.atom(a)) for a in b.support_atoms(g)
            if (a[0] == 'raises' or a[0] == 'exists') and pred(a)]


def strip_first(I, f):
    """a fact about an arbitrary iteration does not depend on which one it
    is: both values of the first-iteration marker are possible"""
    return f


# ---- C10 ------------------------------------------------------------------

def own_type(C):
    """a type which reads JSON itself is the one which reads it"""
    f = C.m.need_func(J + 'from_json')
    rt, js = (P(x.arg) for x in f.node.args.args[:2])
    ty = ('class', JREC)

    def live(I):
        b, L = I.b, I.L
        return b.and_(b.atom(('subcls', rt, ty)), b.not_(L.is_(rt, ty)))
    I = C.run(f, boundary=[x for x in CUT if x != J + 'from_json'] + [
        J + 'json_to_initkwargs', J + '_decode_and_parse_json'], live=live)
    b, L = I.b, I.L
    con = 'from_json:own'
    for g, t in flat(I, I.rv, exits(I)):
        ok = None
        if t[0] == 'call' and (t[1] == rt or t[1][0] == 'attr' and
                               t[1][1] == rt):
            # given the JSON, not what another reader made of it
            if t[1] != rt or not opaque(t):
                ok = bool(t[2]) and any(mentions(x, js) for x in t[2])
            if t[1] != rt:
                ok = ok or None
            if mentions(t, ('attr', rt, 'json_to_initkwargs')):
                ok = True
        elif t[0] == 'const' or t == js:
            ok = False
        if ok is False:
            C.never(I, g, 'own-type', con, 'a type which reads JSON itself '
                    'is filled in from outside', where(f), L.show(t)[:100])
        else:
            C.check(ok, 'own-type', con, 'read in an unknown way', where(f))
    for e in raises(I):
        if exc_name(e) and len(e.stack) == 1:
            C.never(I, b.and_(e.guard, *quiet(I, e.guard)), 'own-type', con,
                    'a type which reads JSON is refused', e.where)


def c10(C):
    m = C.m
    own_type(C)
    f = m.need_func(J + 'json_to_initkwargs')
    I = C.run(f, boundary=CUT)
    b, L = I.b, I.L
    con = 'json_to_initkwargs'
    canon = propnorm((RT,))
    for a in I.unsupported:
        pass
    pre = b.and_(b.not_(L.isnone(KW)), b.not_(L.isnone(JS)),
                 L.isinst(JS, ('builtin', 'dict')))
    isjp = L.isinst(PROP, JP)
    ks = [A(PROP, 'name'), NAME]
    given = L.in_(NAME, KW)
    sg = FALSE
    n = 0
    for e in evs(I, 'setitem'):
        if e.target != KW or canon(e.key) != NAME:
            continue
        n += 1
        g0 = canon_guard(I, e.guard, canon)
        sg = b.or_(sg, g0)
        C.never(I, b.and_(g0, pre, given), 'given-wins', con, 'a value '
                'given by keyword is replaced by the one in the JSON',
                e.where)
        C.never(I, b.and_(g0, isjp, L.isnone(JN)), 'json-name', con +
                ':hidden', 'a property without a JSON name is read from '
                'the JSON', e.where)
        for g, t in flat(I, e.value, e.guard):
            g = b.and_(canon_guard(I, g, canon), pre)
            t = canon(t)
            gj = b.and_(g, isjp)
            if L.sat(gj):
                item = ('item', JS, JN)
                ok = any(x[0] == 'call' and x[1] == A(PROP, 'from_json') and
                         x[2] == (item,) for x in subterms(t))
                if not ok and opaque(t):
                    C.unk('json-name', con + ':value', 'opaque value',
                          e.where)
                else:
                    C.check(ok, 'json-name', con + ':value', 'the value of '
                            'a JSON property is not its converted JSON '
                            'member', e.where, L.show(t)[:200])
            gp = b.and_(g, b.not_(isjp))
            if L.sat(gp):
                ok = any(x in (('item', JS, NAME),) for x in subterms(t))
                if not ok and opaque(t):
                    C.unk('plain-name', con + ':value', 'opaque value',
                          e.where)
                else:
                    C.check(ok, 'plain-name', con + ':value', 'the value of '
                            'a plain property is not the JSON member of its '
                            'name', e.where, L.show(t)[:200])
            for gg, own in ((gj, ('call', A(PROP, 'from_json'),
                                  (('item', JS, JN),), ())),
                            (gp, ('item', JS, NAME))):
                if L.sat(gg):
                    by_type(C, I, gg, t, own, con, e.where)
    if not n:
        if I.unsupported and not any(
                e.kind == 'setitem' and e.target == KW for e in I.events):
            C.unk('json-name', con, 'no recognised assignment', where(f))
            return
        raise AnalysisBroken('no property assignment in json_to_initkwargs')
    rg = FALSE
    for e in raises(I):
        if e.loops:
            rg = b.or_(rg, canon_guard(I, e.guard, canon))
    done = b.or_(sg, rg)
    q = quiet(I, done)
    C.implies(I, b.and_(pre, isjp, b.not_(L.isnone(JN)), L.in_(JN, JS),
                        b.not_(given), *q), done, 'json-name', con,
              'a JSON member named by a property is not read', where(f))
    C.implies(I, b.and_(pre, b.not_(isjp), L.in_(NAME, JS), b.not_(given),
                        *q), done, 'plain-name', con, 'a JSON member with '
              'the name of a plain property is not read', where(f))
    notdict = b.and_(b.not_(L.isnone(JS)), b.not_(L.isinst(
        JS, ('builtin', 'dict'))))
    C.implies(I, notdict, raised(I), 'refuses', con, 'JSON which is not an '
              'object is not refused', where(f))
    # the property's own conversion and name
    for cls in subclasses(m, JP[1]):
        for nm in ('from_json', 'json_name'):
            a = cls.attrs.get(nm)
            if isinstance(a, Func):
                prop_side(C, cls, nm, a)
    members(C)


def by_type(C, I, g, t, own, con, w):
    """a value is read by the declared type if that reads JSON; nothing
    else happens to it"""
    b, L = I.b, I.L
    VT = A(PROP, 'valuetype')
    reads = b.and_(L.truthy(VT), L.hasattr(VT, const('from_json')),
                   b.not_(L.isinst(VT, ('class', JREC))))
    does = b.and_(reads, L.truthy(A(VT, 'from_json')), b.not_(L.isnone(
        A(VT, 'from_json'))))
    con += ':by-type'
    if t == own:
        C.never(I, b.and_(g, does), 'by-type', con, 'a value whose type '
                'reads JSON is not read by it', w)
    elif t[0] == 'call' and own in t[2] and not t[3]:
        if t[1] == A(VT, 'from_json') and t[2] == (own,):
            C.implies(I, g, reads, 'by-type', con + ':can', 'a type which '
                      'does not read JSON is asked to', w)
        elif t[1] == ('func', J + 'from_json') and t[2] == (VT, own):
            C.never(I, b.and_(g, does), 'by-type', con + ':own', 'a value '
                    'is not read by its own type', w)
            C.implies(I, g, L.isinst(own, ('builtin', 'dict')), 'by-type',
                      con + ':dict', 'a value which is no object is read as '
                      'a record', w)
        else:
            C.check(None if opaque(t) else False, 'by-type', con, 'the value '
                    'is changed after its conversion', w, L.show(t)[:100])
    elif opaque(t) or mentions(t, own):
        C.unk('by-type', con, 'opaque', w)
    else:
        C.bad('by-type', con, 'the value of a property is lost', w,
              L.show(t)[:100])


def prop_side(C, cls, nm, f):
    I = C.run(f, selfcls=cls.qual)
    b, L = I.b, I.L
    con = short(f.qual)
    if nm == 'json_name':
        dft = None
        want = A(SELF, '_json_name')
        for g, t in flat(I, I.rv):
            if t == A(SELF, 'name'):
                at = [a for a in b.support_atoms(g) if a[0] in ('is', 'eq')
                      and want in a[1:]]
                C.implies(I, g, b.or_(*[b.atom(a) for a in at]) if at
                          else FALSE, 'name-option', con + ':default',
                          'a declared JSON name is ignored', where(f))
            elif t == want:
                at = [a for a in b.support_atoms(g) if a[0] in ('is', 'eq')
                      and want in a[1:]]
                C.implies(I, g, b.and_(*[b.not_(b.atom(a)) for a in at])
                          if at else FALSE, 'name-option', con + ':given',
                          'the default JSON name is not the attribute name',
                          where(f))
            elif opaque(t):
                C.unk('name-option', con, 'opaque', where(f))
            else:
                C.bad('name-option', con, 'the JSON name is neither the '
                      'declared one nor the attribute name', where(f),
                      L.show(t)[:100])
        return
    arg = P([x.arg for x in f.node.args.args][1])
    fn = A(SELF, 'json_in')
    for g, t in flat(I, I.rv):
        if t == ('call', fn, (arg,), ()):
            C.implies(I, g, L.truthy(fn), 'json-in', con + ':call',
                      'json_in is called when not declared', where(f))
        elif t == arg:
            C.never(I, b.and_(g, L.truthy(fn)), 'json-in', con + ':used',
                    'a declared json_in is not applied', where(f))
        elif opaque(t):
            C.unk('json-in', con, 'opaque', where(f))
        else:
            C.bad('json-in', con, 'the JSON value is replaced', where(f),
                  L.show(t)[:100])


def coll_readers(C):
    out = []
    for cls in subclasses(C.m, 'normalize.coll.Collection'):
        a = cls.attrs.get('json_to_initkwargs')
        if isinstance(a, Func) and cls.issub(C.m.need_class(JREC)):
            out.append((cls, a))
    return out


RECC = ('class', 'normalize.record.Record')


def member(C, I, g, y, it, src, con, w):
    """one member: kept if it is of the type, else read by the type"""
    b, L = I.b, I.L
    own = [x for x in subterms(y) if x[0] == 'item' and x[1] == src and
           x[2] == const(1)] + [src]
    own = own[0]
    is_it = L.isinst(own, it)
    reads = L.hasattr(it, const('from_json'))
    con += ':member'
    if y == own:
        C.implies(I, g, b.or_(is_it, *[b.not_(x) for x in (
            b.or_(reads, I.subcls(it, RECC)),)]), 'members', con +
            ':kept', 'a member which is not of the type is not converted', w)
    elif y[0] == 'call' and y[1] == A(it, 'from_json') and y[2] == (own,):
        C.never(I, b.and_(g, is_it), 'members', con + ':kept', 'a member '
                'of the type is converted again', w)
        C.implies(I, g, reads, 'members', con + ':can', 'a type which does '
                  'not read JSON is asked to', w)
    elif y == ('call', ('func', J + 'from_json'), (it, own), ()):
        C.never(I, b.and_(g, is_it), 'members', con + ':kept', 'a member '
                'of the type is converted again', w)
        C.never(I, b.and_(g, reads), 'members', con + ':own', 'a member is '
                'not read by its own type', w)
        C.implies(I, g, I.subcls(it, RECC), 'members', con + ':record',
                  'a type which is no record type is read as one', w)
    elif y[0] == 'call' and own in y[2] and not opaque(y):
        C.bad('members', con, 'a member is not read by its type', w,
              L.show(y)[:100])
    else:
        C.unk('members', con, 'unknown conversion', w)


def members(C):
    """JSON collections: every member of the array or object is converted
    and kept"""
    CL = ('typeof', SELF)
    for cls, f in coll_readers(C):
        I = C.run(f, selfcls=cls.qual, boundary=[
            q for q in CUT if q != J + 'JsonRecord*'])
        b, L = I.b, I.L
        con = short(f.qual)
        ps = [x.arg for x in f.node.args.args][1:]
        js, kw = P(ps[0]), P(ps[1])
        it = A(CL, 'itemtype')
        pre = b.and_(L.truthy(it), b.not_(L.in_(const('values'), kw)),
                     b.not_(L.isnone(js)))
        sets = [e for e in evs(I, 'setitem') if e.target == kw and
                e.key == const('values')]
        ok = FALSE
        given = b.and_(L.in_(const('values'), kw), b.not_(L.isnone(
            ('item', kw, const('values')))))
        for e in sets:
            ok = b.or_(ok, e.guard)
            C.never(I, b.and_(e.guard, given), 'members', con + ':given',
                    'the members given by keyword are replaced by those of '
                    'the JSON', e.where)
        ra = raised(I)
        C.implies(I, b.not_(L.truthy(it)), ra, 'refuses', con + ':untyped',
                  'a collection without member type is read', where(f))
        anyk = [a for a in b.support_atoms(ra) if a[0] == 'isinst' and
                a[1] == js]
        C.implies(I, b.and_(pre, *[b.not_(b.atom(a)) for a in anyk]), ra
                  if anyk else FALSE, 'refuses', con, 'JSON which is no '
                  'collection of the kind is not refused', where(f))
        C.implies(I, b.and_(pre, b.not_(raised(I)), *quiet(
            I, b.or_(raised(I), ok))), ok, 'members', con, 'the members '
            'are not passed to the constructor', where(f))
        # raw structure passed on, or every member
        for i, e in enumerate(sets):
            for g, t in flat(I, e.value, e.guard):
                later = FALSE
                for e2 in sets[i + 1:]:
                    later = b.or_(later, e2.guard)
                g = b.and_(g, b.not_(later), pre)
                if t == js:
                    C.never(I, b.and_(g, b.or_(L.hasattr(
                        it, const('from_json')), I.subcls(it, RECC))),
                        'members', con + ':converted', 'members of a type '
                        'which reads JSON are passed on as they are',
                        e.where)
                    continue
                if not L.sat(g):
                    continue
                if t not in I.conts:
                    if opaque(t):
                        C.unk('members', con, 'opaque', e.where)
                    elif not mentions(t, js):
                        C.bad('members', con + ':source', 'the members do '
                              'not come from the JSON', e.where,
                              L.show(t)[:100])
                    continue
                by = {}
                for en in I.conts[t].entries:
                    for gg, y in flat(I, en.val, en.guard):
                        src = [x for x in subterms(y) if x[0] == 'elem' and
                               mentions(x, js)]
                        if not src:
                            if L.sat(b.and_(gg, pre)) and not opaque(y):
                                C.bad('members', con + ':source', 'a member '
                                      'does not come from the JSON: ' +
                                      L.show(y)[:80], e.where)
                            continue
                        by.setdefault(src[0], FALSE)
                        by[src[0]] = b.or_(by[src[0]], gg)
                        member(C, I, gg, y, it, src[0], con, e.where)
                if not by:
                    if not I.unsupported:
                        C.bad('members', con + ':all', 'no member of the '
                              'JSON reaches the collection', e.where)
                    continue
                allg = b.or_(*by.values())
                rg = FALSE
                for ev in raises(I):
                    rg = b.or_(rg, ev.guard)
                C.implies(I, b.and_(g, b.not_(rg), *quiet(I, b.or_(
                    allg, rg))), allg, 'members', con + ':all', 'a member '
                    'of the JSON is dropped', e.where)


# ---- C11 ------------------------------------------------------------------

def c11(C):
    m = C.m
    f = m.need_func(J + 'to_json')
    con = 'to_json'
    TR = ('typeof', RECORD)
    canon = propnorm((TR,))
    I = C.run(f, boundary=CUT + ['normalize.record.*'] + dispatchers(C.m),
              types={RECORD: 'normalize.record.Record'},
              args={'prop': NONE})
    b, L = I.b, I.L
    COLLC = ('class', 'normalize.coll.Collection')
    pre = b.not_(L.isinst(RECORD, COLLC))
    xp = L.truthy(A(PROP, 'extraneous'))
    E = L.truthy(EXTRA)
    em = L.truthy(('call', A(PROP, 'slot_is_empty'), (RECORD,), ()))
    hj = L.hasattr(PROP, const('json_name'))
    jnn = L.isnone(JN)
    sg = FALSE
    n = 0
    cont = {t for g, t in flat(I, I.rv, pre) if t in I.conts}
    for e in evs(I, 'setitem'):
        if e.target not in cont or not e.loops:
            continue
        g0 = canon_guard(I, e.guard, canon)
        k = canon(e.key)
        n += 1
        if not L.sat(b.and_(g0, pre)):
            continue
        if k == JN:
            C.implies(I, b.and_(g0, pre), hj, 'out-name', con + ':name',
                      'a property without JSON mapping is written under a '
                      'JSON name', e.where)
        elif k == NAME:
            C.never(I, b.and_(g0, pre, hj), 'out-name', con + ':name',
                    'a property is not written under its JSON name',
                    e.where)
        elif opaque(k):
            C.unk('out-name', con + ':name', 'opaque key', e.where)
        else:
            C.bad('out-name', con + ':name', 'a property is written under '
                  'neither its JSON name nor its name', e.where,
                  L.show(k)[:100])
        for g, t in flat(I, e.value, e.guard):
            t = canon(t)
            from_slot = any(
                x[0] == 'call' and x[1] == A(PROP, '__get__') and
                x[2][:1] == (RECORD,) or x == ('dattr', RECORD, NAME) or
                x[0] == 'call' and x[1] == ('func', f.qual) and
                x[2][:1] == (RECORD,) and PROP in x[2]
                for x in subterms(t))
            passes = not (t[0] == 'call' and t[1] == ('func', f.qual)) or \
                EXTRA in t[2]
            if not from_slot and opaque(t):
                C.unk('out-value', con, 'opaque', e.where)
            else:
                C.check(from_slot, 'out-value', con, 'what is written is '
                        'not the converted slot', e.where, L.show(t)[:150])
                C.check(passes, 'extraneous', con + ':passed', 'the '
                        'extraneous option is not passed on', e.where)
        C.never(I, b.and_(g0, pre, b.not_(E), xp), 'extraneous', con,
                'an extraneous property is written without being asked for',
                e.where)
        C.never(I, b.and_(g0, pre, hj, jnn), 'out-name', con + ':hidden',
                'a property without a JSON name is written', e.where)
        sg = b.or_(sg, g0)
    if not n:
        C.unk('out-complete', con, 'the output is built in an unknown way',
              where(f))
    else:
        q = quiet(I, sg, lambda a: a[0] == 'exists' or
                  'AttributeError' in str(a[-1]))
        C.implies(I, b.and_(pre, b.not_(em), b.or_(E, b.not_(xp)),
                            b.or_(b.not_(hj), b.not_(jnn)),
                            b.not_(L.isnone(NAME)), *q), sg,
                  'out-complete', con, 'a set property is not written',
                  where(f))
    to_json_prop(C, f)
    to_json_coll(C, f)
    defaults(C, f)
    big_ints(C, f)
    dispatch(C)
    for cls in subclasses(m, JP[1]):
        a = cls.attrs.get('to_json')
        if isinstance(a, Func):
            json_out(C, cls, a)


def to_json_prop(C, f):
    """the single-property form"""
    con = 'to_json(prop)'
    PR = P('prop')
    I = C.run(f, boundary=CUT + ['normalize.record.*'] + dispatchers(C.m),
              types={RECORD: 'normalize.record.Record'})
    b, L = I.b, I.L
    pre = b.and_(L.truthy(PR), b.not_(L.isinst(PR, ('builtin', 'str'))),
                 b.not_(L.isnone(PR)))
    got = ('call', A(PR, '__get__'), (RECORD,), ())
    hook = b.and_(L.hasattr(PR, const('to_json')),
                  b.not_(L.isnone(A(PR, 'to_json'))))
    for g, t in flat(I, I.rv, pre):
        if not L.sat(g):
            continue
        if opaque(t):
            C.unk('out-value', con, 'opaque', where(f))
            continue
        C.check(mentions(t, got), 'out-value', con, 'the result is not the '
                'converted slot', where(f), L.show(t)[:150])
        if mentions(t, got) and not (t[0] == 'call' and
                                     t[1] == A(PR, 'to_json')):
            converts(C, I, g, t, 'out-value', con, where(f))
        if t[0] == 'call' and t[1] == A(PR, 'to_json'):
            C.check(any(x[0] in ('func', 'lambda', 'closure')
                        for x in t[2][2:] + tuple(
                            y[1] for y in t[3])) or None, 'out-value', con +
                    ':hook', 'the converter is not passed', where(f))
            for x in t[2][2:] + tuple(y[1] for y in t[3]):
                C.check(x != ('func', f.qual), 'out-value', con + ':own',
                        'a nested value is not converted by its own '
                        'json_data()', where(f))
            C.check(t[2][:1] == (got,) and EXTRA in t[2] + tuple(
                x[1] if isinstance(x, tuple) and len(x) > 1 else x
                for x in t[3]), 'out-value', con + ':hook', 'the conversion '
                'of the property does not get the slot and the extraneous '
                'option', where(f), L.show(t)[:150])
        else:
            C.never(I, b.and_(g, hook), 'out-value', con + ':hook', 'the '
                    'conversion of the property is not used', where(f))
            C.check(mentions(t, EXTRA) or t == got, 'extraneous', con +
                    ':passed', 'the extraneous option is not passed on',
                    where(f), L.show(t)[:100])


def to_json_coll(C, f):
    con = 'to_json(collection)'
    I = C.run(f, boundary=CUT + ['normalize.record.*'] + dispatchers(C.m),
              args={'prop': NONE})
    b, L = I.b, I.L
    cases = [
        ('list', L.isinst(RECORD, ('class', 'normalize.coll.Collection')),
         L.isinst(RECORD, ('class', 'normalize.coll.DictCollection'))),
        ('builtin', L.isinst(RECORD, ('builtin', 'list')), FALSE)]
    seen = 0
    for g, t in flat(I, I.rv):
        if t not in I.conts:
            continue
        # ordinary (non-slot) containers
        if any(e.kind == 'setitem' and e.target == t for e in I.events):
            continue
        full = FALSE
        for gg, y in elements(I, t):
            seen += 1
            full = b.or_(full, gg)
            if opaque(y):
                C.unk('out-members', con, 'opaque', where(f))
                continue
            C.check(mentions(y, RECORD), 'out-members', con, 'a member '
                    'written is not a member of the collection', where(f),
                    L.show(y)[:100])
            converts(C, I, gg, y, 'out-members', con, where(f))
            C.check(mentions(y, EXTRA) or ('elem', t) == y, 'extraneous',
                    con + ':passed', 'the extraneous option is not passed '
                    'on to members', where(f), L.show(y)[:100])
        # no member filtered out
        C.implies(I, g, full, 'out-members', con + ':all', 'a member is '
                  'left out', where(f))
    # a mapping is written member by member under its own keys
    el = ('elem', RECORD)
    own = ('item', RECORD, el)
    for g, t in flat(I, I.rv, L.isinst(RECORD, ('builtin', 'dict'))):
        if t not in I.conts or not L.sat(g):
            continue
        for e in I.conts[t].entries:
            if e.loops != (RECORD,) or e.star or e.key is None:
                continue
            C.check(e.key == el or (None if opaque(e.key) or
                                    e.key[0] == 'call' else False),
                    'out-members', con + ':key', 'a member of a mapping is '
                    'written under another key', where(f),
                    L.show(e.key)[:100])
            for gg, y in flat(I, e.val):
                z = rewrite(y, lambda x: const(0) if x == own else None)
                C.check(not mentions(z, el) and mentions(y, own) or (
                    None if opaque(y) else False), 'out-members', con +
                    ':value', 'a member of a mapping is written with '
                    'another value', where(f), L.show(y)[:100])
    C.check(seen or None, 'out-members', con, 'no container seen', where(f))
    # what JSON knows, and what is like its arrays, is not refused
    for k in ('dict', 'list', 'tuple', 'set', 'frozenset', 'str', 'int',
              'float', 'bool'):
        for e in raises(I):
            C.never(I, b.and_(e.guard, L.isinst(RECORD, ('builtin', k))),
                    'plain-values', con + ':' + k, 'a %s is refused on '
                    'output' % k, e.where)
    # plain values come out as they are; what cannot be written is refused
    ok = FALSE
    for g, t in flat(I, I.rv):
        if t == NONE:
            C.implies(I, g, L.isnone(RECORD), 'plain-values', con,
                      'a value is written as null', where(f))
    bool_ = b.and_(L.isinst(RECORD, ('builtin', 'str')))
    for g, t in flat(I, I.rv, bool_):
        if L.sat(g) and not opaque(t):
            C.check(t == RECORD, 'plain-values', con + ':str', 'a string is '
                    'changed on output', where(f), L.show(t)[:100])


def bound(C, t):
    """the arguments of a call of a function of the repository by name"""
    f = C.m.funcs.get(t[1][1])
    if f is None:
        return {}
    return dict(zip([a.arg for a in f.node.args.args], t[2]), **{
        x[0]: x[1] for x in t[3]})


def default_of(f, name):
    """the constant a parameter is by default: None if it is no constant"""
    a = f.node.args
    ps = a.args
    n = len(ps) - len(a.defaults)
    for i, p in enumerate(ps):
        if p.arg == name and i >= n:
            d = a.defaults[i - n]
            return d if isinstance(d, ast.Constant) else None
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if p.arg == name and d is not None:
            return d if isinstance(d, ast.Constant) else None
    return None


def defaults(C, f):
    """to_json writes extraneous properties unless told not to; json_data()
    only when asked.  A collection writes itself with the option given."""
    m = C.m

    def dflt(g, want):
        con = short(g.qual)
        if not any(a.arg == 'extraneous' for a in g.node.args.args +
                   g.node.args.kwonlyargs):
            return
        d = default_of(g, 'extraneous')
        C.check(None if d is None else bool(d.value) == want,
                'extraneous', con + ':default', 'extraneous properties are '
                '%s by default' % ('left out' if want else 'written'),
                where(g))
    dflt(f, True)
    for cls in subclasses(m, JREC):
        g = cls.attrs.get('json_data')
        if not isinstance(g, Func):
            continue
        dflt(g, False)
        if not cls.issub(m.need_class('normalize.coll.Collection')):
            continue
        con = short(g.qual)
        I = C.run(g, selfcls=cls.qual, boundary=CUT + [J + 'to_json'],
                  keep=[g.qual])
        for gg, t in flat(I, I.rv):
            if t[0] == 'call' and t[1] == ('func', f.qual):
                a = bound(C, t)
                C.check(a.get('record') == SELF, 'out-members', con +
                        ':self', 'a collection does not write itself',
                        where(g), I.L.show(t)[:100])
                C.check(a.get('extraneous') == P('extraneous'),
                        'extraneous', con + ':passed', 'the extraneous '
                        'option is not passed on', where(g),
                        I.L.show(t)[:100])
            elif opaque(t) or t in I.conts:
                C.unk('out-members', con + ':self', 'opaque', where(g))
            else:
                C.bad('out-members', con + ':self', 'a collection is not '
                      'written', where(g), I.L.show(t)[:100])


BIG = 2 ** 50


def big_ints(C, f):
    """integers too large for a reader with floating point numbers are
    written as text, all others as they are"""
    con = 'to_json(int)'
    cases = [(BIG + 1, 1), (-BIG - 1, 1), (BIG, 0), (-BIG, 0), (0, 0),
             (1, 0), (-1, 0), (10 ** 30, 1), (-10 ** 30, 1),
             (2 ** 49, 0), (-2 ** 49, 0)]
    I = C.run(f, boundary=CUT + ['normalize.record.*'] + dispatchers(C.m),
              args={'prop': NONE})
    b, L = I.b, I.L
    known = True
    rows = []
    isint = L.isinst(RECORD, ('builtin', 'int'))
    for g, t in flat(I, I.rv, b.and_(isint, *[b.not_(L.isinst(
            RECORD, ('class', q))) for q in (
                'normalize.coll.Collection', 'normalize.record.Record')])):
        if t == ('call', ('builtin', 'str'), (RECORD,), ()):
            rows.append((g, True))
        elif t == RECORD:
            rows.append((g, False))
        elif not L.sat(g):
            continue
        elif opaque(t):
            known = False
        else:
            C.bad('plain-values', con, 'an integer is changed on output',
                  where(f), L.show(t)[:100])
    for v, want in cases:
        for g, text in rows:
            r = number(I, g, v)
            if r is None:
                known = False
            elif r and text != bool(want):
                C.bad('plain-values', con + ':size', 'an integer %s is '
                      'written as %s' % (
                          'beyond 2**50' if want else 'within 2**50',
                          'text' if text else 'a number'), where(f),
                      L.showg(g)[:120])
                return
    C.check(True if known and rows else None, 'plain-values', con + ':size',
            'the size of integers is not decided', where(f))


def number(I, g, v):
    """a condition about the record, for the record being an integer: the
    truth for the interval point v, None if it is about something else"""
    b = I.b
    env = {}
    for a in b.support_atoms(g):
        r = fact(a, v)
        if r is None:
            return None
        env[a] = r
    lits = [b.atom(a) if r else b.not_(b.atom(a)) for a, r in env.items()]
    return I.L.sat(b.and_(g, *lits))


def arith(t, v):
    if t == RECORD:
        return v
    if t[0] == 'const' and isinstance(t[-1], int):
        return t[-1]
    if t[0] == 'call' and t[1] == ('builtin', 'abs') and len(t[2]) == 1:
        x = arith(t[2][0], v)
        return None if x is None else abs(x)
    if t[0] == 'un' and t[1] == 'USub':
        x = arith(t[2], v)
        return None if x is None else -x
    if t[0] == 'bin' and len(t) == 4:
        x, y = arith(t[2], v), arith(t[3], v)
        if x is None or y is None:
            return None
        if t[1] in ('Add', '+'):
            return x + y
        if t[1] in ('Sub', '-'):
            return x - y
        if t[1] in ('Mult', '*'):
            return x * y
        if t[1] in ('Pow', '**') and 0 <= y < 100:
            return x ** y
    return None


def fact(a, v):
    if a[0] == 'lt' and len(a) == 3:
        x, y = arith(a[1], v), arith(a[2], v)
        return None if x is None or y is None else x < y
    if a[0] == 'eq' and len(a) == 3:
        x, y = arith(a[1], v), arith(a[2], v)
        return None if x is None or y is None else x == y
    if a[0] == 'isinst' and a[1] == RECORD:
        return a[2] == ('builtin', 'int')
    if a[0] in ('isnone',) and a[1] == RECORD:
        return False
    if a[0] == 'truthy' and a[1] == RECORD:
        return bool(v)
    return None


def converts(C, I, g, t, rule, con, w):
    """nested values are converted by their own json_data() if they have
    one"""
    for x in subterms(t):
        if x[0] != 'call' or x[1][0] != 'func':
            continue
        q = x[1][1]
        a = bound(C, x)
        if a.get('extraneous') is not None:
            C.check(mentions(a['extraneous'], EXTRA), 'extraneous', con +
                    ':passed', 'the extraneous option is not what is '
                    'passed on', w, I.L.show(x)[:120])
        if q == J + 'to_json' and len(x[2]) < 3:
            ats = [a for a in I.b.support_atoms(g)
                   if mentions(a, const('json_data')) or opaque(a)]
            C.check(bool(ats), rule, con + ':own', 'a nested value is not '
                    'converted by its own json_data()', w,
                    I.L.show(t)[:120])
        elif q.startswith('normalize.') and q != J + 'to_json':
            f = C.m.funcs.get(q)
            if f is None:
                continue
            D = C.run(f, boundary=CUT + [J + 'to_json'])
            X = P([a.arg for a in f.node.args.args][0])
            C.check(any(e.callee == A(X, 'json_data')
                        for e in evs(D, 'call')) or None, rule, con +
                    ':own', 'a nested value is not converted by its own '
                    'json_data()', w)


def dispatchers(m):
    """the functions of the module which give a value to its own json_data()
    or else to to_json()"""
    out = []
    for q, f in m.funcs.items():
        if not q.startswith(J) or '.' in q[len(J):] or q == J + 'to_json':
            continue
        nodes = [f.node]
        for k in nodes:
            for n in ast.walk(k):
                g = m.funcs.get(J + n.id) if isinstance(n, ast.Name) else None
                if g is not None and g.qual not in VOCAB and \
                        g.node not in nodes:
                    nodes.append(g.node)
        own = any(isinstance(n, ast.Attribute) and n.attr == 'json_data'
                  for k in nodes for n in ast.walk(k))
        back = any(isinstance(n, ast.Name) and n.id == 'to_json'
                   for k in nodes for n in ast.walk(k))
        if own and back:
            out.append(q)
    return out


def dispatch(C):
    """json_data() of a type is used wherever it has one, with the extraneous
    option when it takes it"""
    q = (dispatchers(C.m) + [''])[0]
    f = C.m.funcs.get(q)
    if f is None:
        C.unk('dispatch', '_json_data', 'no such helper', '')
        return
    con = '_json_data'
    I = C.run(f, boundary=CUT + [J + 'to_json'])
    b, L = I.b, I.L
    X = P([x.arg for x in f.node.args.args][0])
    EX = P([x.arg for x in f.node.args.args][1])
    for g, t in flat(I, I.rv):
        if opaque(t):
            C.unk('dispatch', con, 'opaque', where(f))
            continue
        if t[0] != 'call' or not (t[1] == A(X, 'json_data') or
                                  t[1] == ('func', J + 'to_json') and
                                  t[2][:1] == (X,)):
            C.bad('dispatch', con, 'the value is not converted by its own '
                  'json_data or by to_json', where(f), L.show(t)[:150])
            continue
        if t[1][0] == 'func':
            C.check(EX in t[2] or EX in [x[1] for x in t[3]], 'dispatch',
                    con + ':extraneous', 'the extraneous option is not '
                    'passed on', where(f), L.show(t)[:120])
    EXC = const('extraneous')

    def tells(t):
        """the answer to: does the signature have 'extraneous'?  (or a
        cache of such answers)"""
        return mentions(t, EXC) or any(x in caches for x in subterms(t))
    spec = set()
    for a in {a for e in evs(I, 'call', 'setitem', 'return')
              for a in b.support_atoms(e.guard)} | {
            t for e in evs(I, 'setitem') for g, t in flat(I, e.value)} | {
            a for e in evs(I, 'setitem') for g, t in flat(I, e.value)
            for a in b.support_atoms(g)}:
        if mentions(a, EXC) and any(x[0] == 'call' and 'getfullargspec' in
                                    str(x[1][-1]) for x in subterms(a)):
            spec |= {x[2] for x in subterms(a) if x[0] == 'attr'}
            if any(x[0] == 'item' for x in subterms(a)):
                spec |= {'args', 'kwonlyargs'}
    if spec & {'args', 'kwonlyargs'}:
        C.check({'args', 'kwonlyargs'} <= spec, 'dispatch', con +
                ':parameters', 'an extraneous option which can only be '
                'given by %s is not seen' % (
                    'keyword' if 'args' in spec else 'position'), where(f))
    caches = set()
    for e in evs(I, 'setitem'):
        if e.target[0] == 'modvar' and any(
                mentions(t, EXC) or any(mentions(a, EXC)
                                        for a in b.support_atoms(g))
                for g, t in flat(I, e.value)):
            caches.add(e.target)
    for e in evs(I, 'call'):
        if e.callee != A(X, 'json_data'):
            continue
        tests = [b.atom(a) for a in b.support_atoms(e.guard) if tells(a)]
        given = EX in [t for v in list(e.args) + list(e.kws.values())
                       for g, t in flat(I, v)]
        if given:
            C.implies(I, e.guard, b.or_(*tests), 'dispatch', con +
                      ':accepts', 'json_data is given an option it may not '
                      'accept', e.where)
        elif e.args or e.kws:
            C.bad('dispatch', con + ':extraneous', 'the extraneous option '
                  'is not passed on', e.where)
        else:
            C.implies(I, e.guard, b.or_(*[b.not_(t) for t in tests]),
                      'dispatch', con + ':signature', 'json_data is called '
                      'without the extraneous option although it accepts '
                      'it', e.where)


def json_out(C, cls, f):
    I = C.run(f, selfcls=cls.qual, boundary=[J + 'to_json'])
    b, L = I.b, I.L
    con = short(f.qual)
    ps = [x.arg for x in f.node.args.args]
    val, ex = P(ps[1]), P(ps[2])
    fn = A(SELF, 'json_out')
    for g, t in flat(I, I.rv):
        if t == ('call', fn, (val,), ()):
            C.implies(I, g, L.truthy(fn), 'json-out', con + ':call',
                      'json_out is called when not declared', where(f))
            continue
        if opaque(t):
            C.unk('json-out', con, 'opaque', where(f))
            continue
        C.never(I, b.and_(g, L.truthy(fn)), 'json-out', con + ':used',
                'a declared json_out is not applied', where(f))
        C.check(t[0] == 'call' and val in t[2] and ex in t[2] + tuple(
            x[1] for x in t[3]), 'json-out', con + ':default', 'the value '
            'is not converted with the extraneous option', where(f),
            L.show(t)[:120])


# ---- C12 ------------------------------------------------------------------

UJ = 'unknown_json_keys'


def c12(C):
    m = C.m
    f = m.need_func(J + 'json_to_initkwargs')
    I = C.run(f, boundary=CUT)
    b, L = I.b, I.L
    con = 'json_to_initkwargs'
    canon = propnorm((RT,))
    pre = b.and_(b.not_(L.isnone(KW)), b.not_(L.isnone(JS)),
                 L.isinst(JS, ('builtin', 'dict')))
    isjp = L.isinst(PROP, JP)
    sets = [e for e in evs(I, 'setitem') if e.target == KW and
            e.key == const(UJ)]
    if not sets:
        if any(opaque(e.key) for e in evs(I, 'setitem')):
            C.unk('unknown-in', con, 'opaque', where(f))
        else:
            C.bad('unknown-in', con, 'unknown keys are not kept', where(f))
        return
    ELEM = ('elem', JS)
    bags, taken, excl = set(), [], []
    setg = FALSE
    for e in sets:
        setg = b.or_(setg, e.guard)
        for g, t in flat(I, e.value, e.guard):
            if t not in I.conts:
                C.unk('unknown-in', con, 'contents not visible', e.where)
                continue
            for en in I.conts[t].entries:
                for gg, y in flat(I, en.val, en.guard):
                    it = ('item', JS, ELEM)
                    if not mentions(y, it):
                        if opaque(y) or mentions(y, ELEM) or any(
                                x[0] == 'elem' and x[1][0] == 'new'
                                for x in subterms(y)):
                            C.unk('unknown-in', con, 'opaque', e.where)
                        else:
                            C.bad('unknown-in', con + ':value', 'an '
                                  'unknown member is not kept as it was',
                                  e.where, L.show(y)[:100])
                        continue
                    C.check(y == it or y[0] == 'call' and
                            y[2] == (it,), 'unknown-in', con + ':value',
                            'an unknown member is changed', e.where,
                            L.show(y)[:100])
                    C.check(y[0] == 'call' and 'deepcopy' in str(y[1]),
                            'unknown-in', con + ':copied', 'the unknown '
                            'members kept are those of the caller, not '
                            'copies', e.where)
                    if en.key is not None:
                        C.check(en.key == ELEM or None, 'unknown-in',
                                con + ':key', 'an unknown member is kept '
                                'under another key', e.where)
                    q = []
                    for a in b.support_atoms(gg):
                        if a[0] == 'in' and a[1] == ELEM and \
                                a[2] != JS and a[2] in I.conts:
                            c = I.conts[a[2]]
                            if c.removed:
                                bags.add(a[2])
                                q.append(b.atom(a))
                            else:
                                taken.append((a[2], e))
                                q.append(b.not_(b.atom(a)))
                        elif a[0] == 'exists' and a[1] != JS and any(
                                mentions(x, ELEM)
                                for x in b.support_atoms(a[2])):
                            q.append(b.not_(b.atom(a)))
                            for x in b.support_atoms(a[2]):
                                if x[0] == 'eq' and ELEM in x[1:]:
                                    k = x[1] if x[2] == ELEM else x[2]
                                    excl.append((a[2], k, e.where))
                        elif a[0] == 'truthy' and (
                                a[1] in I.conts or a[1] == ('seq1', JS)):
                            q.append(b.atom(a))
                        elif a[0] == 'in' and a[1] == ELEM and a[2] == JS:
                            q.append(b.atom(a))
                    C.implies(I, b.and_(e.guard, pre, *q), gg, 'unknown-in',
                              con + ':all', 'an unknown key is dropped',
                              e.where)
    ra = raised(I)
    some = [b.atom(a) for a in b.support_atoms(setg)
            if a[0] == 'truthy' and (a[1] in I.conts or a[1][0] in (
                'bin', 'seq1')) or
            a[0] == 'exists' and a[1] in (JS, ('seq1', JS))]
    q = quiet(I, b.or_(setg, ra), lambda a: a[0] != 'exists' or
              a[1] not in (JS, ('seq1', JS)))
    C.implies(I, b.and_(pre, b.not_(ra), *(q + some)), setg, 'unknown-in',
              con + ':kept', 'unknown keys are not kept', where(f))
    if not bags and not taken and not excl:
        C.unk('unknown-in', con + ':known', 'the selection of the unknown '
              'keys is not recognised', where(f))
        unknown_out(C)
        return
    rem = list(excl)    # (guard, key term, where): taken for known
    for bag in bags:
        full = FALSE
        for en in I.conts[bag].entries:
            for gg, y in flat(I, en.val, en.guard):
                if en.star and y in (JS, ('keys', JS), ('seq1', JS)) or \
                        y == ELEM:
                    full = b.or_(full, gg)
        C.implies(I, pre, full, 'unknown-in', con + ':start', 'not every '
                  'key is considered', where(f))
        for e in I.events:
            if e.kind == 'mut' and e.target == bag:
                if e.name == 'remove':
                    for g, t in flat(I, e.args[0], e.guard):
                        C.implies(I, g, b.atom(('in', t, bag)),
                                  'unknown-in', con + ':shared', 'two '
                                  'properties cannot read the same key',
                                  e.where)
                if e.name in ('discard', 'remove'):
                    rem += [(g, t, e.where)
                            for g, t in flat(I, e.args[0], e.guard)]
                elif e.name == 'difference_update':
                    for g, t in flat(I, e.args[0], e.guard):
                        rem += [(gg, x, e.where)
                                for gg, x in elements(I, t, g)]
                elif e.name in ('clear', 'pop'):
                    C.unk('unknown-in', con + ':known', e.name, e.where)
    for t, e in taken:
        rem += [(g, x, e.where) for g, x in elements(I, t)]
    own = FALSE
    for g, t, w in rem:
        g = subst(I, canon_guard(I, g, canon), lambda a: TRUE if a[0] ==
                  'eq' and ELEM in a[1:] else None)
        k = canon(t)
        if k == JN:
            own = b.or_(own, g)
            C.implies(I, b.and_(g, pre), isjp, 'unknown-in', con +
                      ':known', 'a key is taken for known because of a '
                      'JSON name the property does not have', w)
        elif k == NAME:
            own = b.or_(own, g)
            C.never(I, b.and_(g, pre, isjp), 'unknown-in', con + ':known',
                    'a key is taken for known although the property has '
                    'another JSON name', w)
        elif opaque(k) or k[0] == 'elem':
            C.unk('unknown-in', con + ':known', 'opaque', w)
        else:
            C.bad('unknown-in', con + ':known', 'a key which names no '
                  'property is dropped', w, L.show(k)[:100])
    ra = FALSE
    for e in raises(I):
        ra = b.or_(ra, canon_guard(I, e.guard, canon))
    q = quiet(I, b.or_(own, ra))
    for cond in (b.and_(isjp, b.not_(L.isnone(JN)), L.in_(JN, JS)),
                 b.and_(b.not_(isjp), L.in_(NAME, JS))):
        C.implies(I, b.and_(pre, cond, b.not_(ra), *q), own, 'unknown-in',
                  con + ':own', 'the key of a property is kept as unknown',
                  where(f))
    unknown_out(C)


def unknown_out(C):
    m = C.m
    n = 0
    for cls in subclasses(m, JREC):
        f = cls.attrs.get('json_data')
        if not isinstance(f, Func) or cls.issub(
                m.need_class('normalize.coll.Collection')):
            continue
        if cls.issub(m.need_class('normalize.diff.DiffInfo')):
            continue
        n += 1
        con = short(f.qual)
        I = C.run(f, selfcls=cls.qual, boundary=CUT + [
            J + 'to_json'] + dispatchers(m), keep=[f.qual])
        b, L = I.b, I.L
        U = A(SELF, UJ)
        props = A(('typeof', SELF), 'properties')
        pr = ('item', props, const(UJ))
        EX = P([x.arg for x in f.node.args.args][1])
        has = L.hasattr(SELF, const(UJ))
        want = b.and_(has, b.or_(L.truthy(EX), b.not_(L.truthy(
            A(pr, 'extraneous')))))
        rets = [t for g, t in flat(I, I.rv)]
        base = [t for t in rets if t[0] == 'call' and
                t[1] == ('func', J + 'to_json') and t[2][:1] == (SELF,)]
        if not base:
            C.check(None if any(opaque(t) or t in I.conts
                                for t in rets) else False,
                    'unknown-out', con + ':base', 'the properties are not '
                    'written', where(f))
            continue
        C.check(all(EX in t[2] or EX in [x[1] for x in t[3]] for t in base),
                'unknown-out', con + ':extraneous', 'the extraneous option '
                'is not passed on', where(f))
        jd = base[0]
        sg = FALSE
        k = ('elem', U)
        inj = None
        for e in evs(I, 'setitem'):
            if e.target != jd:
                continue
            conv = [x for x in subterms(e.key) if x == k]
            if not conv:
                continue
            inj = L.in_(e.key, jd)
            ats = [b.atom(a) for a in b.support_atoms(e.guard)
                   if a[0] in ('in', 'unk') and a[1:2] == (e.key,) or
                   a[0] == 'in' and e.key in a]
            sg = b.or_(sg, e.guard)
            for g, t in flat(I, e.value, e.guard):
                C.check(None if opaque(t) else mentions(
                    t, ('item', U, k)), 'unknown-out', con + ':value',
                    'what is written under an unknown key is not what was '
                    'kept', e.where, L.show(t)[:100])
                C.check(t != ('item', U, k), 'unknown-out', con + ':copy',
                        'what is written under an unknown key is the very '
                        'value which is kept, not converted', e.where)
                converts(C, I, g, t, 'unknown-out', con, e.where)
            # a key of a property is not overwritten
            C.never(I, b.and_(e.guard, inj), 'unknown-out', con +
                    ':shadow', 'an unknown key can overwrite a property',
                    e.where)
        for e in evs(I, 'mut'):
            if e.target == jd and e.name == 'setdefault' and any(
                    t == k for g, t in flat(I, e.args[0])):
                inj = FALSE
                sg = b.or_(sg, e.guard)
                for g, t in flat(I, e.args[1], e.guard):
                    C.check(None if opaque(t) else mentions(
                        t, ('item', U, k)), 'unknown-out', con + ':value',
                        'what is written under an unknown key is not what '
                        'was kept', e.where, L.show(t)[:100])
                    C.check(t != ('item', U, k), 'unknown-out', con +
                            ':copy', 'what is written under an unknown key '
                            'is the very value which is kept, not '
                            'converted', e.where)
            if e.target == jd and e.name == 'update':
                C.bad('unknown-out', con + ':shadow', 'unknown keys '
                      'overwrite properties', e.where)
        if inj is None:
            C.bad('unknown-out', con, 'unknown keys are not written back',
                  where(f))
            continue
        present = [b.not_(b.atom(a)) for a in b.support_atoms(sg)
                   if a[0] == 'in' or opaque(a) and not (
                       a[0] == 'truthy')]
        C.implies(I, b.and_(want, *present), sg, 'unknown-out', con,
                  'an unknown key is not written back', where(f))
        C.never(I, b.and_(sg, b.not_(L.truthy(EX)), L.truthy(
            A(pr, 'extraneous'))), 'unknown-out', con + ':gated', 'unknown '
            'keys are written without being asked for', where(f))
    C.check(n or None, 'unknown-out', 'JsonRecord', 'no json_data', '')


# ---- C13 ------------------------------------------------------------------

BOX = ('class', 'normalize.exc.JsonConversionError')


def c13(C):
    m = C.m
    ents = [(None, m.need_func(J + 'json_to_initkwargs'))]
    ents += [(c, f) for c, f in coll_readers(C)]
    for cls, f in ents:
        boxed(C, cls, f)
    C.check(len(ents) >= 3 or None, 'boxed', 'readers', 'readers missing',
            '')


def is_conv(e):
    if e.kind != 'call' or not e.loops:
        return False
    c = e.callee
    if c[0] == 'attr' and c[2] == 'from_json':
        return True
    if (e.get('qual') or '').endswith('.from_json'):
        return True
    return c == ('func', J + 'from_json')


def boxed(C, cls, f):
    kw = dict(selfcls=cls.qual) if cls else {}
    I = C.run(f, boundary=[q for q in CUT if q != J + 'JsonRecord*'], **kw)
    b, L = I.b, I.L
    con = short(f.qual)
    canon = propnorm((RT,))
    hs = [e for e in evs(I, 'handler')]
    conv = [e for e in I.events if is_conv(e)]
    if not conv:
        C.unk('boxed', con, 'no conversion recognised', where(f))
        return
    news = {e.result: e for e in evs(I, 'construct')}
    for e in conv:
        r = e.result
        catch = None
        for h in hs:
            for g, t in flat(I, h.value, h.guard):
                if t[0] == 'excv' and t[1] == r:
                    catch = (h, t) if catch is None or \
                        t[2] in (('builtin', 'Exception'),) else catch
        nm = L.show(canon(e.callee))[-40:].replace(' ', '')
        if catch is None:
            C.bad('boxed', con + ':' + nm, 'a failing conversion is not '
                  'reported with its location', e.where)
            continue
        h, ev = catch
        C.check('Exception' in str(ev[2]), 'boxed', con + ':' + nm +
                ':class', 'only %s of a failing conversion is reported '
                'with its location' % L.show(ev)[-30:], e.where)
    boxes = [e for e in evs(I, 'construct') if e.cls == BOX or
             e.cls[0] == 'class' and m_issub(C, e.cls, BOX)]
    for h in hs:
        if not h.loops or not any(
                t[0] == 'excv' and any(t[1] == e.result for e in conv)
                for g, t in flat(I, h.value)):
            continue
        rg = FALSE
        for e in raises(I):
            if e.loops == h.loops and e.sym is not None and m_issub(
                    C, e.sym, BOX):
                rg = b.or_(rg, e.guard)
        C.implies(I, h.guard, rg, 'boxed', con + ':raised', 'a failing '
                  'conversion is swallowed or changes its type', h.where)
    for e in boxes:
        if not e.loops:
            continue
        location(C, I, e, con, canon, conv, news)


def m_issub(C, a, b_):
    if a[0] != 'class' or a[1] not in C.m.classes:
        return False
    return C.m.classes[a[1]].issub(C.m.need_class(b_[1]))


def location(C, I, e, con, canon, conv, news):
    b, L = I.b, I.L
    fs = e.kws.get('error_fs')
    sub = e.kws.get('sub_exception')
    if fs is None or sub is None:
        C.check(False, 'location', con + ':fields', 'the location or the '
                'cause is not recorded', e.where)
        return
    excs = set()
    for g, t in flat(I, sub, e.guard):
        base = t
        if t[0] == 'attr' and t[2] == 'sub_exception':
            base = t[1]
            C.implies(I, g, L.hasattr(base, const('sub_exception')),
                      'location', con + ':cause', 'the cause is taken from '
                      'an exception which has none', e.where)
        elif base[0] == 'excv':
            C.never(I, b.and_(g, L.hasattr(base, const('sub_exception'))),
                    'location', con + ':cause', 'the cause of a nested '
                    'conversion error is lost', e.where)
        if base[0] != 'excv':
            C.check(None if opaque(t) else False, 'location', con +
                    ':cause', 'the cause is not the exception caught',
                    e.where, L.show(t)[:100])
            continue
        excs.add(base)
    for g, t in flat(I, fs, e.guard):
        n = news.get(t)
        if n is None or not n.args:
            C.unk('location', con + ':path', 'path not visible', e.where)
            continue
        els = []
        for gg, lt in flat(I, n.args[0], n.guard):
            els += elements(I, lt, gg)
        keys = {}
        nested = FALSE
        for gg, x in els:
            if x[0] == 'elem' and x[1][0] == 'attr' and \
                    x[1][2] in ('error_fs', 'selectors'):
                nested = b.or_(nested, gg)
            else:
                keys[canon(x)] = gg
        tg = (t, A(t, 'selectors'))
        nst = []
        for ev in evs(I, 'call', 'mut'):
            if ev.kind == 'call' and ev.args and method(ev)[0] in tg and \
                    method(ev)[1] in ('extend', '__iadd__') or \
                    ev.kind == 'mut' and ev.target in tg and \
                    ev.name in ('extend', '__iadd__'):
                for gg, x in flat(I, ev.args[0], ev.guard):
                    for y in subterms(x):
                        if y[0] == 'attr' and y[2] == 'error_fs':
                            nst.append((gg, y[1]))
        for ex in excs:
            src = [canon(x) for x in subterms(ex)
                   if x[0] == 'item' and (x[1] == JS or
                                          x[1][0] == 'elem')]
            good = set()
            for x in src:
                if x[1] == JS:
                    good.add(x[2])
                elif x[2] == const(1):
                    good.add(('item', x[1], const(0)))
            if good and ex[1] != ('undef',):
                C.check(any(k in good for k in keys), 'location', con +
                        ':key', 'the location reported is not the key of '
                        'the value which failed', e.where,
                        '%s, not %s' % ([L.show(k)[:60] for k in keys],
                                        [L.show(k)[:60] for k in good]))
            ng = b.or_(nested, *[gg for gg, x in nst if x == ex or
                                 x[0] == 'phi'])
            C.implies(I, b.and_(g, L.hasattr(ex, const('error_fs')),
                                b.not_(L.isnone(A(ex, 'error_fs'))),
                                excg(I, e, ex)), ng, 'location', con +
                      ':nested', 'the path inside the value is lost',
                      e.where)


def excg(I, e, ex):
    """guard: the exception caught is ex"""
    out = FALSE
    for h in evs(I, 'handler'):
        for g, t in flat(I, h.value, h.guard):
            if t == ex:
                out = I.b.or_(out, g)
    return out


# ---- C14 ------------------------------------------------------------------

def c14(C):
    m = C.m
    ents = []
    for cls in subclasses(m, JREC):
        a = cls.attrs.get('__init__')
        if isinstance(a, Func):
            ents.append((cls, a))
        a = cls.attrs.get('json_to_initkwargs')
        if isinstance(a, Func) and not cls.issub(m.need_class(
                'normalize.coll.Collection')):
            ents.append((cls, a))
    ents.append((None, m.need_func(J + 'from_json')))
    LOADS = ('ext', 'json.loads')
    for cls, f in ents:
        ps = [x.arg for x in f.node.args.args]
        D = P(ps[1])
        kw = dict(selfcls=cls.qual) if cls else {}
        I = C.run(f, boundary=['normalize.coll.*', 'normalize.record.Record*',
                               J + 'json_to_initkwargs',
                               J + 'JsonRecord*'],
                  **kw)
        b, L = I.b, I.L
        con = short(f.qual)
        hook = f.name == 'json_to_initkwargs'
        st = L.isinst(D, ('builtin', 'str'))
        by = b.or_(L.isinst(D, ('builtin', 'bytes')),
                   L.isinst(D, ('builtin', 'bytearray')))
        n = 0
        covered = FALSE
        for e in evs(I, 'call'):
            nm = e.callee[-1] if e.callee[0] in ('attr', 'func') else ''
            sink = nm.endswith('json_to_initkwargs') or \
                e.callee == P('record_type') or \
                (e.get('qual') or '').endswith('json_to_initkwargs')
            if not sink:
                continue
            if hook:
                if e.callee != ('func', J + 'json_to_initkwargs'):
                    n += 1
                    continue    # another class decodes it
                own = bound(C, ('call', e.callee, tuple(
                    flat(I, a)[0][1] for a in e.args), tuple(
                    (k, flat(I, v)[0][1]) for k, v in e.kws.items())))
                C.check(own.get('kwargs') == P(ps[2]), 'decoded', con +
                        ':keywords', 'the values given by keyword are lost',
                        e.where)
                C.check(own.get('record_type') in (
                    SELF, ('typeof', SELF)), 'decoded', con + ':type',
                    'the JSON is read for another type', e.where)
            for a in list(e.args) + list(e.kws.values()):
                for g, t in flat(I, a, e.guard):
                    if not mentions(t, D):
                        continue
                    n += 1
                    covered = b.or_(covered, g)
                    raw = t == D
                    isl = t[0] == 'call' and t[1][0] in ('ext', 'modattr',
                                                         'attr') and \
                        str(t[1][-1]).endswith('loads')
                    if raw:
                        C.never(I, b.and_(g, b.or_(st, by)), 'decoded', con,
                                'JSON text is used without being parsed',
                                e.where)
                    elif isl:
                        C.implies(I, g, b.or_(st, by), 'decoded', con +
                                  ':only', 'data which is not text is '
                                  'parsed as text', e.where)
                        arg = t[2][0]
                        if arg == D:
                            C.never(I, b.and_(g, by, b.not_(st)), 'decoded',
                                    con + ':bytes', 'bytes are not decoded',
                                    e.where) if False else C.ok(
                                        'decoded', con + ':str', e.where)
                        else:
                            ok = arg[0] == 'call' and arg[1] == A(
                                D, 'decode') or arg[0] == 'call' and \
                                arg[1] == ('builtin', 'str')
                            codec = [x for x in arg[2] if x[0] == 'const']
                            C.check(ok and all(
                                str(x[2]).lower().replace('_', '-') in (
                                    'utf-8', 'utf8') for x in codec[:1]),
                                'decoded', con + ':codec', 'bytes are not '
                                'decoded as UTF-8', e.where,
                                L.show(arg)[:100])
                    elif opaque(t):
                        C.unk('decoded', con, 'opaque', e.where)
        C.check(n or None, 'decoded', con, 'no conversion call seen',
                where(f))
        none = L.isnone(D)
        pick = L.isinst(D, ('class', 'normalize.record.OhPickle'))
        if n and cls is not None and not hook:
            null = [b.not_(b.atom(a)) for a in b.support_atoms(covered)
                    if a[0] == 'isnone']
            C.implies(I, b.and_(b.not_(none), b.not_(pick), b.not_(
                raised(I)), *null), covered, 'decoded', con + ':used',
                'the JSON given is ignored', where(f))


RULES = {'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14}
