"""C15 AutoJsonRecord: attributes stand for the unknown keys"""
import re
from re import _parser as sre

from .base import *
from .elems import elements
from .jsonio import dispatchers
from .seltext import compiled, template

J = 'normalize.record.json.'
AUTO = J + 'AutoJsonRecord'
U = A(SELF, 'unknown_json_keys')
CUT = ['normalize.property.*', 'normalize.record.Record*',
       'normalize.coll.*', J + 'JsonRecord*', J + 'to_json', J + 'json_to_initkwargs']
CT = ('typeof', SELF)


def params(f):
    return [P(a.arg) for a in f.node.args.args]


def c15(C):
    m = C.m
    for cls in subclasses(m, AUTO):
        for nm, fn in (('__getattr__', getter), ('__setattr__', setter),
                       ('__delattr__', deleter),
                       ('json_to_initkwargs', upgraded),
                       ('json_data', written)):
            f = cls.attrs.get(nm)
            if isinstance(f, Func):
                fn(C, cls, f)
        kinds(C, cls)
        keys(C, cls)
    declared(C)
    base = m.need_class(AUTO)
    for nm in ('__getattr__', '__setattr__', '__delattr__'):
        C.check(isinstance(base.attrs.get(nm), Func), 'attribute',
                'record.json.AutoJsonRecord.' + nm, 'attributes do not '
                'stand for the unknown keys', '')


def only(C, I, con, what):
    for e in raises(I):
        if exc_name(e) is None:
            continue
        C.check(exc_name(e) == 'AttributeError', 'attribute-error', con,
                '%s a missing attribute raises %s' % (what, exc_name(e)),
                e.where)


def getter(C, cls, f):
    I = C.run(f, selfcls=cls.qual, boundary=CUT + dispatchers(C.m))
    b, L = I.b, I.L
    con = short(f.qual)
    at = params(f)[1]
    decl = L.in_(at, A(CT, 'properties'))
    inU = L.in_(at, U)
    got = FALSE
    for g, t in flat(I, I.rv):
        if t == ('item', U, at):
            got = b.or_(got, g)
            C.implies(I, g, inU, 'attribute-error', con, 'reading a missing '
                      'attribute raises KeyError', where(f))
            C.never(I, b.and_(g, decl), 'attribute', con + ':declared',
                    'a declared property is read from the unknown keys',
                    where(f))
        elif t[0] == 'const':
            C.never(I, b.and_(g, decl), 'attribute', con + ':property',
                    'an unset declared property reads as a constant',
                    where(f))
            C.never(I, b.and_(g, b.not_(decl)), 'attribute', con, 'an '
                    'undeclared attribute reads as a constant', where(f))
        elif opaque(t):
            C.unk('attribute', con, 'opaque', where(f))
        else:
            C.never(I, b.and_(g, b.not_(decl)), 'attribute', con, 'an '
                    'undeclared attribute is not the unknown key of its '
                    'name', where(f))
    ra = raised(I)
    C.implies(I, b.and_(b.not_(decl), inU), b.and_(got, b.not_(ra)),
              'attribute', con + ':present', 'the attribute of an unknown '
              'key cannot be read', where(f))
    C.implies(I, b.and_(b.not_(decl), b.not_(inU)), ra, 'attribute-error',
              con + ':missing', 'reading a missing attribute does not '
              'raise AttributeError', where(f))
    only(C, I, con, 'reading')


def setter(C, cls, f):
    I = C.run(f, selfcls=cls.qual, boundary=CUT + dispatchers(C.m))
    b, L = I.b, I.L
    con = short(f.qual)
    at, val = params(f)[1:3]
    decl = L.in_(at, A(CT, 'properties'))
    done = FALSE
    for e in evs(I, 'setitem'):
        if e.target != U:
            continue
        ok = e.key == at and [t for g, t in flat(I, e.value)] == [val]
        C.check(ok, 'attribute', con + ':value', 'an attribute is not '
                'assigned the value given', e.where)
        C.never(I, b.and_(e.guard, decl), 'attribute', con + ':declared',
                'a declared property is assigned among the unknown keys',
                e.where)
        done = b.or_(done, e.guard)
    C.implies(I, b.not_(decl), done, 'attribute', con, 'an undeclared '
              'attribute is not assigned', where(f))
    passed = FALSE
    for e in evs(I, 'call'):
        r, n = method(e)
        a = [t for v in e.args for g, t in flat(I, v)]
        if n in ('__setattr__', '__set__') and a[-1:] == [val] and (
                n == '__set__' or at in a[:-1]):
            passed = b.or_(passed, e.guard)
    C.implies(I, decl, passed, 'attribute', con + ':property', 'a declared '
              'property is not assigned', where(f))


def deleter(C, cls, f):
    I = C.run(f, selfcls=cls.qual, boundary=CUT + dispatchers(C.m))
    b, L = I.b, I.L
    con = short(f.qual)
    at = params(f)[1]
    decl = L.in_(at, A(CT, 'properties'))
    inU = L.in_(at, U)
    done = FALSE
    for e in I.events:
        if e.kind == 'delitem' and e.target == U and e.key == at:
            C.implies(I, e.guard, inU, 'attribute-error', con, 'deleting a '
                      'missing attribute raises KeyError', e.where)
        elif e.kind == 'mut' and e.target == U and e.name == 'pop' and \
                [t for g, t in flat(I, e.args[0])] == [at]:
            C.check(len(e.args) > 1 or I.L.implies(e.guard, inU) or None,
                    'attribute-error', con, 'deleting a missing attribute '
                    'raises KeyError', e.where)
        else:
            continue
        C.never(I, b.and_(e.guard, decl), 'attribute', con + ':declared',
                'a declared property is deleted from the unknown keys',
                e.where)
        done = b.or_(done, e.guard)
    ra = raised(I)
    C.implies(I, b.and_(b.not_(decl), inU), b.and_(done, b.not_(ra)),
              'attribute', con, 'an undeclared attribute is not deleted',
              where(f))
    C.implies(I, b.and_(b.not_(decl), b.not_(inU)), ra, 'attribute-error',
              con + ':missing', 'deleting a missing attribute does not '
              'raise AttributeError', where(f))
    passed = FALSE
    for e in evs(I, 'call'):
        r, n = method(e)
        if n in ('__delattr__', '__delete__'):
            passed = b.or_(passed, e.guard)
    C.implies(I, decl, passed, 'attribute', con + ':property', 'a declared '
              'property is not deleted', where(f))
    only(C, I, con, 'deleting')


def upgraded(C, cls, f):
    cut = CUT + dispatchers(C.m) + [q for q in C.m.funcs if q.startswith(AUTO + '.') and
                 q.rpartition('.')[2] in ('convert_json_key_in',
                                          'auto_upgrade_any')]
    I = C.run(f, selfcls=cls.qual, boundary=cut)
    b, L = I.b, I.L
    con = short(f.qual)
    n = 0
    for e in evs(I, 'setitem'):
        if e.key != const('unknown_json_keys'):
            continue
        src = ('item', e.target, const('unknown_json_keys'))
        el = ('elem', src)
        for g, t in flat(I, e.value, e.guard):
            if t not in I.conts:
                C.unk('upgrade', con, 'contents not visible', e.where)
                continue
            full = FALSE
            for en in I.conts[t].entries:
                if en.key is None or en.star:
                    C.unk('upgrade', con, 'contents not visible', e.where)
                    continue
                n += 1
                full = b.or_(full, en.guard)
                for gk, k in flat(I, en.key if isinstance(en.key[0], tuple)
                                  else ((TRUE, en.key),)):
                    ok = mentions(k, el) and any(
                        x[0] == 'call' and str(x[1][-1]).endswith(
                            'convert_json_key_in') for x in subterms(k))
                    C.check(None if opaque(k) else ok, 'upgrade', con +
                            ':key', 'an unknown key is not converted on the '
                            'way in', e.where, L.show(k)[:100])
                for gv, y in flat(I, en.val, en.guard):
                    ok = mentions(y, ('item', src, el)) and any(
                        x[0] == 'call' and str(x[1][-1]).endswith(
                            'auto_upgrade_any') for x in subterms(y))
                    C.check(None if opaque(y) else ok, 'upgrade', con +
                            ':value', 'the value of an unknown key is not '
                            'upgraded', e.where, L.show(y)[:100])
            C.implies(I, e.guard, full, 'upgrade', con + ':all', 'an '
                      'unknown key is dropped', e.where)
    C.check(n or None, 'upgrade', con, 'no upgrade seen', where(f))


def written(C, cls, f):
    cut = CUT + dispatchers(C.m) + [q for q in C.m.funcs if q.startswith(AUTO + '.') and
                 q.endswith('convert_json_key_out')]
    I = C.run(f, selfcls=cls.qual, boundary=cut)
    con = short(f.qual)
    n = 0
    for e in I.events:
        if e.kind == 'setitem':
            key = e.key
        elif e.kind == 'mut' and e.name == 'setdefault':
            key = flat(I, e.args[0])[0][1]
        else:
            continue
        if not mentions(key, ('elem', U)):
            continue
        n += 1
        C.check(None if opaque(key) else any(
            x[0] == 'call' and str(x[1][-1]).endswith('convert_json_key_out')
            for x in subterms(key)), 'written', con, 'the key of an unknown '
            'member is not converted back on the way out', e.where,
            I.L.show(key)[:100])
        for x in subterms(key):
            if x[0] == 'call' and x[2] and str(x[1][-1]).endswith(
                    'convert_json_key_out'):
                src = x[2][-1]
                C.check(src == ('elem', U) or (
                    False if src == ('item', U, ('elem', U)) else None),
                    'written', con + ':key', 'the key is not made of the '
                    'key kept', e.where, I.L.show(key)[:100])
        for a in I.b.support_atoms(e.guard):
            if a[0] == 'in' and mentions(a[1], ('elem', U)):
                C.check(a[1] == key, 'written', con + ':shadow', 'the key '
                        'looked up is not the key written', e.where)
    C.check(n or None, 'written', con, 'no unknown key written', where(f))


def declared(C):
    """the unknown keys of an AutoJsonRecord are part of its ordinary output,
    are no JSON member themselves and are there from the start"""
    m = C.m
    for q, extr in ((J + 'JsonRecord', True), (AUTO, False)):
        cls = m.need_class(q)
        e = cls.attrs.get('unknown_json_keys')
        con = short(q) + '.unknown_json_keys'
        if e is None and q == AUTO:
            C.bad('declared', con, 'unknown keys are not part of the '
                  'ordinary output', '')
            continue
        if not isinstance(e, ast.Call) or any(
                k.arg is None for k in e.keywords):
            C.unk('declared', con, 'not a declaration', '')
            continue
        w = '%s:%d' % (cls.mod.rel if hasattr(cls, 'mod') else q, e.lineno)
        kw = {k.arg: k.value for k in e.keywords}

        def value(k, dft):
            v = kw.get(k)
            if v is None:
                return dft
            return v.value if isinstance(v, ast.Constant) else '?'
        v = value('extraneous', None)
        C.check(None if v == '?' else bool(v) == extr, 'declared', con +
                ':extraneous', 'unknown keys are %s ordinary output' % (
                    'part of the' if extr else 'missing in the'), w)
        C.check('json_name' in kw and (
            None if value('json_name', '') == '?' else
            value('json_name', '') is None), 'declared', con + ':name',
            'unknown keys are written as a JSON member of their own', w)
        if q != AUTO:
            continue
        d = kw.get('default')
        if d is None:
            C.bad('declared', con + ':default', 'an AutoJsonRecord made '
                  'without unknown keys has no attributes', w)
        elif isinstance(d, ast.Lambda):
            x = d.body
            ok = isinstance(x, ast.Dict) or isinstance(x, ast.Call) and \
                isinstance(x.func, ast.Name) and x.func.id == 'dict'
            C.check(True if ok else False if isinstance(x, (
                ast.Constant, ast.List, ast.Tuple)) else None, 'declared',
                con + ':default', 'the unknown keys are no mapping at first',
                w)
        elif isinstance(d, ast.Name) and d.id == 'dict':
            C.ok('declared', con + ':default', w)
        elif isinstance(d, (ast.Dict, ast.Constant)):
            C.bad('declared', con + ':default', 'all records share one '
                  'mapping of unknown keys', w)
        else:
            C.unk('declared', con + ':default', 'unknown default', w)


ASCII = [chr(i) for i in range(128)]


def shape(pat, flags):
    """a pattern as [(group or None, set of ASCII characters)]"""
    if flags & ~re.UNICODE:
        return None
    try:
        ps = list(sre.parse(pat))
    except re.error:
        return None
    out = []
    for op, av in ps:
        gid = None
        if op is sre.SUBPATTERN:
            gid, add, rem, sub = av
            if add or rem or len(sub) != 1:
                return None
            op, av = sub[0]
        if op is sre.LITERAL:
            out.append((gid, {chr(av)}))
        elif op is sre.IN:
            if not all(o in (sre.LITERAL, sre.RANGE, sre.CATEGORY,
                             sre.NEGATE) for o, a in av):
                return None
            cs = set()
            neg = False
            for o, a in av:
                if o is sre.LITERAL:
                    cs.add(chr(a))
                elif o is sre.RANGE:
                    cs |= {chr(i) for i in range(a[0], min(a[1], 127) + 1)}
                elif o is sre.NEGATE:
                    neg = True
                else:
                    k = {sre.CATEGORY_DIGIT: str.isdigit,
                         sre.CATEGORY_WORD:
                         lambda c: c.isalnum() or c == '_'}.get(a)
                    if k is None:
                        return None
                    cs |= {c for c in ASCII if k(c)}
            out.append((gid, set(ASCII) - cs if neg else cs))
        else:
            return None
    return out


def conversion(C, cls, nm):
    """('same',) | ('sub', pattern shape, replacement parts) | ('lost', ...) |
    None"""
    o, f = cls.lookup(nm)
    if not isinstance(f, Func):
        return None
    I = C.run(f, selfcls=cls.qual)
    key = params(f)[-1]
    rs = [t for g, t in flat(I, I.rv)]
    if any(t[0] in ('const', 'class', 'typeof') or t[0] == 'param' and t != key
           for t in rs):
        return ('lost', f)
    if len(rs) != 1:
        return None
    t = rs[0]
    if t == key:
        return ('same', f)
    if t[0] != 'call' or t[3]:
        return None
    if t[1] == ('ext', 're.sub') and len(t[2]) == 3:
        p, rep, src = compiled(I, t[2][0]), t[2][1], t[2][2]
    elif t[1][0] == 'attr' and t[1][2] == 'sub' and len(t[2]) == 2:
        p, rep, src = compiled(I, t[1][1]), t[2][0], t[2][1]
    else:
        return None
    if p is None:
        return None
    if src != key:
        return None if opaque(src) else ('lost', f)
    sh = shape(*p)
    if sh is None or rep[0] == 'const':
        return None
    M = P('match')
    vs = [x for g, x in flat(I, I.apply(rep, [M], TRUE))]
    if len(vs) != 1:
        return None
    tp = template(vs[0])
    if tp is None:
        return None
    parts = []
    for x in tp:
        if isinstance(x, str):
            if x:
                parts.append(x)
            continue
        fn = None
        if x[0] == 'call' and x[1][0] == 'attr' and x[1][2] in (
                'lower', 'upper') and not x[2]:
            fn, x = x[1][2], x[1][1]
        if x[0] == 'call' and x[1] == A(M, 'group') and len(x[2]) == 1 and \
                x[2][0][0] == 'const':
            parts.append((x[2][0][2], fn))
        elif x[0] == 'item' and x[1] == M and x[2][0] == 'const':
            parts.append((x[2][2], fn))
        else:
            return None
    return ('sub', f, sh, parts)


def image(sh, parts):
    """what a match is replaced with: [set of characters], and where each
    comes from"""
    by = {g: cs for g, cs in sh if g}
    out = []
    for p in parts:
        if isinstance(p, str):
            out += [(None, {c}) for c in p]
            continue
        g, fn = p
        if g not in by:
            return None
        cs = by[g]
        out.append((g, {getattr(c, fn)() for c in cs} if fn else cs))
    return out


def keys(C, cls):
    """the conversion of keys on the way out undoes the one on the way in"""
    con = short(cls.qual) + '.convert_json_key'
    i = conversion(C, cls, 'convert_json_key_in')
    o = conversion(C, cls, 'convert_json_key_out')
    for x in (i, o):
        if x and x[0] == 'lost':
            C.bad('keys', con, 'the key converted is lost', where(x[1]))
            return
    if i is None or o is None:
        C.unk('keys', con, 'unknown conversion', '')
        return
    w = where(o[1])
    if i[0] == 'same' or o[0] == 'same':
        C.check(i[0] == o[0], 'keys', con, 'keys are converted one way '
                'only', w)
        return
    a, z = image(i[2], i[3]), image(o[2], o[3])
    if a is None or z is None:
        C.bad('keys', con + ':groups', 'a key is rebuilt from a part which '
              'is not matched', w)
        return
    src, dst = [cs for g, cs in i[2]], [cs for g, cs in o[2]]
    C.check([cs for g, cs in a] == dst, 'keys', con + ':matches', 'what is '
            'made of a key on the way in is not what is converted back', w)
    C.check([cs for g, cs in z] == src, 'keys', con + ':back', 'a key is '
            'not converted back to what it was', where(i[1]))


def kinds(C, cls):
    """nested values become records of the same kind"""
    o, f = cls.lookup('auto_upgrade_any')
    if not isinstance(f, Func):
        C.unk('upgrade', short(cls.qual), 'no auto_upgrade_any', '')
        return
    I = C.run(f, selfcls=cls.qual, boundary=CUT + dispatchers(C.m))
    b, L = I.b, I.L
    con = short(cls.qual) + '.auto_upgrade'
    x = params(f)[1]
    isd, isl = (L.isinst(x, ('builtin', k)) for k in ('dict', 'list'))
    first = L.isinst(('item', x, const(0)), ('builtin', 'dict'))
    lot = b.and_(b.not_(isd), isl, L.truthy(x), first)
    same = (('class', cls.qual), CT)
    news = {e.result: e for e in evs(I, 'construct')}
    for g, t in flat(I, I.rv):
        ge = b.and_(g, isl, b.not_(isd), b.not_(L.truthy(x)))
        if any(mentions(a, ('item', x, const(0)))
               for a in b.support_atoms(ge)):
            C.bad('upgrade', con + ':empty', 'an empty list cannot be read',
                  where(f))
        if opaque(t):
            C.unk('upgrade', con, 'opaque', where(f))
        elif t == x:
            C.never(I, b.and_(g, isd), 'upgrade', con + ':dict', 'a nested '
                    'object is not upgraded', where(f))
            C.never(I, b.and_(g, lot), 'upgrade', con + ':list', 'a nested '
                    'list of objects is not upgraded', where(f))
        elif t in news or t[0] == 'call' and t[1] in same:
            c = news[t].cls if t in news else t[1]
            C.check(c in same, 'upgrade', con + ':kind', 'a nested object '
                    'becomes a record of another kind', where(f))
            C.implies(I, g, isd, 'upgrade', con + ':only', 'a value which '
                      'is no object is upgraded to a record', where(f))
            a = [y for v in news[t].args for gg, y in flat(I, v)] \
                if t in news else list(t[2])
            C.check(x in a, 'upgrade', con + ':members', 'the nested '
                    'object is not passed on', where(f))
        elif t[0] == 'call' and mentions(t, x):
            C.implies(I, g, b.and_(b.not_(isd), isl), 'upgrade', con +
                      ':only', 'a value which is no list is upgraded to a '
                      'list', where(f))
            k = [y for y in subterms(t[1]) if y[0] == 'class' and
                 y[1].startswith(J) or y == CT]
            C.check(all(y in same for y in k) if k else None, 'upgrade',
                    con + ':list-kind', 'the members of a nested list '
                    'become records of another kind', where(f))
        else:
            C.bad('upgrade', con, 'a nested value is replaced', where(f),
                  L.show(t)[:100])


RULES = {'C15': c15}
