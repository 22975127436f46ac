"""C27 errors are the ones they are said to be"""
import string

from .base import *

EX = 'normalize.exc'
SFE = EX + '.StringFormatException'
EV = 'normalize.empty.EmptyVal'


def c27(C):
    sites(C)
    indirect(C)
    formatting(C)
    hierarchy(C)
    crashing(C)
    conversions(C)


def const_str(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = const_str(e.left), const_str(e.right)
        return None if a is None or b is None else a + b
    return None


def fields(msg, out=None):
    """(root, path) of every field of a format; roots are names or
    positions.  None if it is no format"""
    out = [] if out is None else out
    auto = len([x for x in out if isinstance(x[0], int)])
    try:
        for lit, name, spec, conv in string.Formatter().parse(msg):
            if name is None:
                continue
            root = name
            for i, ch in enumerate(name):
                if ch in '.[':
                    root = name[:i]
                    break
            path = name[len(root):]
            if root == '':
                root, auto = auto, auto + 1
            elif root.isdigit():
                root = int(root)
            out.append((root, path))
            if spec and fields(spec, out) is None:
                return None
    except ValueError:
        return None
    return out


def message(m, cls):
    """the message of an exception class"""
    c, e = cls.lookup('message')
    if c is None or not isinstance(e, ast.AST):
        return None
    return const_str(e)


def structured(m, q):
    c = m.classes.get(q)
    base = m.need_class(SFE)
    if c is None or base not in c.mro:
        return None
    k, init = c.lookup('__init__')
    return c if k is base else None


def locals_of(f):
    out = set()
    for n in ast.walk(f):
        if isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            pass
    return out


def root(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def textual(e):
    """is the expression evidently a text?"""
    if isinstance(e, ast.Constant):
        return isinstance(e.value, str)
    if isinstance(e, ast.JoinedStr):
        return True
    if isinstance(e, ast.Attribute):
        return e.attr in ('__name__', '__module__', '__qualname__')
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
        return e.func.id in ('repr', 'str')
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
        return textual(e.left)
    return False


def given(C, con, w, cls, npos, names, more, values):
    """does the site give what the message needs?"""
    m = C.m
    msg = message(m, cls)
    if msg is None:
        C.unk('fields', con, 'no constant message', w)
        return
    fs = fields(msg)
    C.check(fs is not None, 'message', cls.name, 'is no format', w, msg[:80])
    for r, path in fs or ():
        if isinstance(r, int):
            ok = r < npos or (None if more else False)
        else:
            ok = r in names or (None if more else False)
        C.check(ok, 'fields', '%s:%s' % (con, r), 'the message of %s needs '
                'a value which is not given' % cls.name, w)
        v = values.get(r)
        if v is not None and path.startswith('.__'):
            C.check(not textual(v), 'fields', '%s:%s' % (con, r),
                    'the message of %s reads %s of a text' % (cls.name,
                                                              path), w)


    if npos:
        used = {r for r, p in fs or () if isinstance(r, int)}
        C.check(set(range(npos)) <= used, 'fields', con + ':lost', 'the '
                'text given does not get into the message of %s' % cls.name,
                w)


def sites(C):
    m = C.m
    n = 0
    for q, f in sorted(m.funcs.items()):
        node = f.node
        if isinstance(node, ast.Lambda):
            continue
        loc = locals_of(node)
        mod = f.module
        called = set()
        own = [x for x in ast.walk(node)]
        inner = {id(y) for x in own if isinstance(
            x, (ast.FunctionDef, ast.Lambda)) and x is not node
            for y in ast.walk(x)}
        for x in own:
            if id(x) in inner and '%s' in q:
                continue
            if isinstance(x, ast.Call):
                e = x.func
                called.add(id(e))
            elif isinstance(x, ast.Raise) and x.exc is not None and \
                    id(x.exc) not in called and isinstance(
                        x.exc, (ast.Name, ast.Attribute)):
                e = x.exc
            else:
                continue
            r = root(e)
            if r is None or r in loc:
                continue
            s = m.static(mod, e)
            if s is None:
                continue
            w = '%s:%d in %s' % (mod.rel, x.lineno, q)
            if s[0] == 'missing' and isinstance(e, ast.Attribute) and (
                    isinstance(x, ast.Raise) or s[1].startswith(EX + '.')):
                C.bad('exists', '%s:%s' % (short(q), ast.unparse(e)),
                      'there is no such exception', w)
                continue
            if isinstance(x, ast.Raise) and s[0] == 'module':
                C.bad('exists', '%s:%s' % (short(q), ast.unparse(e)),
                      'what is raised is no exception', w)
            if s[0] != 'class':
                continue
            cls = structured(m, s[1])
            if cls is None:
                continue
            n += 1
            C.functions.add(q)
            con = '%s:%s' % (short(q), cls.name)
            C.ok('exists', con, w)
            args = x.args if isinstance(x, ast.Call) else []
            kws = x.keywords if isinstance(x, ast.Call) else []
            vals = {k.arg: k.value for k in kws if k.arg}
            vals.update({i: a for i, a in enumerate(args)})
            given(C, con, w, cls, len([a for a in args if not isinstance(
                a, ast.Starred)]), {k.arg for k in kws if k.arg},
                any(k.arg is None for k in kws) or any(
                    isinstance(a, ast.Starred) for a in args), vals)
    if not n:
        C.unk('exists', 'sites', 'no place raises a structured exception')


def indirect(C):
    """errors of the placeholders, which are chosen by name"""
    m = C.m
    for q, f in sorted(m.funcs.items()):
        if not q.startswith(EV + '.'):
            continue
        I = C.run(f, selfcls=EV)
        for e in evs(I, 'construct'):
            if e.cls[0] != 'class':
                continue
            cls = structured(m, e.cls[1])
            if cls is None:
                continue
            con = '%s:%s' % (short(q), cls.name)
            C.ok('exists', con, e.where)
            given(C, con, e.where, cls, len(e.args), set(e.kws),
                  bool(e.star or e.starkw), {})


def formatting(C):
    """what the base class does with what it is given"""
    m = C.m
    f = m.need_func(SFE + '.__init__')
    I = C.run(f, selfcls=SFE)
    b, L = I.b, I.L
    w = where(f)
    args, kw = P('*args'), P('**kwargs')
    st = {}
    for e in evs(I, 'store'):
        if e.target == SELF:
            st.setdefault(e.attr, []).append(e)
    for n, want in (('args', args), ('kwargs', kw)):
        for e in st.get(n, ()):
            for g, t in flat(I, e.value, e.guard):
                C.check(t == want or (None if opaque(t) or t[0] not in (
                    'param', 'const', 'tuple', 'dict', 'list') or mentions(
                    t, want) else False), 'init', n,
                    'is not what was given', e.where, L.show(t)[:80])
        if n not in st:
            C.unk('init', n, 'not seen to be set')
        else:
            C.implies(I, exits(I), b.or_(*[e.guard for e in st[n]]),
                      'init', n, 'is not set', w)
    fmt = [e for e in evs(I, 'call') if method(e)[1] == 'format']
    for e in fmt:
        C.check(method(e)[0] in (A(SELF, 'message'), A(
            ('typeof', SELF), 'message')) or None, 'init',
                'format', 'another message', e.where)
        ok = not e.args and [t for s in e.star for t in (
            [x for g, x in flat(I, s)] if s and isinstance(s[0], tuple)
            else [s])] == [args] and [t for s in e.starkw for t in (
                [x for g, x in flat(I, s)] if s and isinstance(
                    s[0], tuple) else [s])] == [kw]
        C.check(ok or None, 'init', 'values', 'other values', e.where)
    for e in st.get('formatted', ()):
        for g, t in flat(I, e.value, e.guard):
            C.check(t in [x.result for x in fmt] or None, 'init',
                    'formatted', 'is not the message', e.where)
    want = {'IndexError': 'PositionalExceptionFormatError',
            'KeyError': 'KeywordExceptionFormatError'}
    for x in fmt:
        for ex, name in sorted(want.items()):
            g = b.atom(('raises', x.result, ('builtin', ex)))
            es = [e for e in raises(I) if exc_name(e) == name]
            g = b.and_(g, *[b.not_(b.atom(
                ('raises', x.result, ('builtin', o)))) for o in want
                if o != ex])
            C.implies(I, b.and_(x.guard, g), b.or_(FALSE, *[
                e.guard for e in es]), 'init', ex, 'a value which is missing '
                'is not reported', w)
    # the message, and the values, of an error
    f = m.need_func(SFE + '.__str__')
    I = C.run(f, selfcls=SFE)
    for g, t in flat(I, I.rv, exits(I)):
        C.check(t == A(SELF, 'formatted') or (None if opaque(t) or
                t[0] != 'attr' else False), 'text', 'str', 'is not the '
                'message', where(f), I.L.show(t)[:80])
    f = m.need_func(SFE + '.__getattr__')
    I = C.run(f, selfcls=SFE)
    n = f.node.args.args[1].arg
    cell = ('item', A(SELF, 'kwargs'), P(n))
    got = FALSE
    for g, t in flat(I, I.rv, exits(I)):
        C.check(t == cell or (None if opaque(t) else False), 'values',
                'attribute', 'not the value given', where(f),
                I.L.show(t)[:80])
    for e in raises(I):
        C.check(exc_name(e) == 'AttributeError', 'values', 'missing',
                'another error for an attribute which does not exist',
                e.where)
    C.check(bool(raises(I)) or None, 'values', 'missing', 'no error is '
            'seen', where(f))


# errors which are documented (by their names, and by the handlers which
# rely on it) to be kinds of built-in errors
KINDS = {'AttributeError': 'AttributeError', 'KeyError': 'KeyError',
         'IndexError': 'IndexError'}
RELIED = {
    # code which looks for an attribute or an item goes on when there is none
    'FieldSelectorAttributeError': ('FieldSelectorException',
                                    'AttributeError'),
    'FieldSelectorKeyError': ('FieldSelectorException', 'KeyError'),
    'ReadOnlyAttributeError': ('AttributeError',),
    'NoSuchAttribute': ('AttributeError',),
    'AttributeValueError': ('ValueError',),
    'ValueCheckError': ('ValueError',),
    'PropertyRequired': ('ValueError',),
    'CoercionError': ('TypeError',),
    'CoerceError': ('TypeError',),
    'CollectionCoerceError': ('TypeError',),
    'CollectionItemCoerceError': ('TypeError',),
    'BadAssignment': ('TypeError',),
    'CastTypeError': ('TypeError',),
    'NotCallable': ('TypeError',),
    'NotSubscriptable': ('TypeError',),
    'PropertyArgumentNotKnown': ('TypeError',),
    'TypeDefinitionError': ('TypeError',),
    'VisitorUnpackError': ('TypeError',),
}


def hierarchy(C):
    m = C.m
    base = m.need_class(SFE)
    for name, kinds in sorted(RELIED.items()):
        c = m.classes.get(EX + '.' + name)
        if c is None:
            C.unk('kind', name, 'not defined any more')
            continue
        w = '%s:%d' % (c.module.rel, c.node.lineno)
        C.check(base in c.mro, 'kind', name, 'is no structured exception', w)
        for k in kinds:
            kc = m.classes.get(EX + '.' + k)
            ext = [b_.rpartition('.')[2] if isinstance(b_, str) else str(b_)
                   for b_ in c.ext_bases()]
            C.check((kc in c.mro) if kc is not None else covered(ext, k),
                    'kind', name + ':' + k, 'is no %s any more' % k, w)
    # every message is a format
    for q, c in sorted(m.classes.items()):
        if q.startswith(EX + '.') and base in c.mro:
            e = c.attrs.get('message')
            msg = const_str(e) if isinstance(e, ast.AST) else None
            if msg is not None:
                C.check(fields(msg) is not None, 'message', c.name,
                        'is no format', '%s:%d' % (c.module.rel,
                                                   c.node.lineno))


def covered(ext, k):
    import builtins
    want = getattr(builtins, k)
    for n in ext:
        x = getattr(builtins, n, None)
        if isinstance(x, type) and issubclass(x, want):
            return True
    return False


def crashing(C):
    """nothing fails because it uses a name without a value, or calls a
    function of the library with arguments it does not take"""
    for q, f in sorted(C.m.funcs.items()):
        I = C.run(f, selfcls=f.cls.qual if f.cls else None,
                  boundary=['normalize.*'])
        tuples(C, I, f)


def tuples(C, I, f):
    """a text % x is no text if x is a tuple: x is not just any value"""
    if f.node.name.startswith('_') and not f.node.name.endswith('__'):
        return
    a = f.node.args
    some = {P(x.arg) for x in a.posonlyargs + a.args + a.kwonlyargs}
    if f.cls and a.args:
        some.discard(P(a.args[0].arg))
    if a.vararg:
        some.add(('elem', P('*' + a.vararg.arg)))
    if f.cls and f.cls.issub(C.m.need_class(SFE)):
        some.add(('elem', A(SELF, 'args')))
    for e in evs(I, 'format'):
        for g, t in flat(I, e.value, e.guard):
            used = any(c.callee[0] == 'attr' and c.callee[1] == t and
                       c.callee[2] not in dir(tuple) and c.seq < e.seq and
                       I.L.implies(g, c.guard) for c in evs(I, 'call'))
            if t in some and not used:
                C.never(I, I.b.and_(g, I.L.isinst(t, ('builtin', 'tuple'))),
                        'text', short(f.qual), 'there is no text, but an '
                        'error, if %s is a tuple' % I.L.show(t), e.where)


def conversions(C):
    """a conversion which fails, with whatever exception, is reported as the
    coercion error of the slot or of the collection, with the value and the
    exception"""
    for base, name, want, ops in (
            ('normalize.property.Property', 'type_safe_value',
             EX + '.CoerceError', ('coerce',)),
            ('normalize.coll.Collection', 'coerce_value',
             EX + '.CollectionItemCoerceError', ('coerceitem',))):
        C.m.need_class(base)
        C.m.need_class(want)
        for cls in subclasses(C.m, base):
            f = cls.attrs.get(name)
            if isinstance(f, Func):
                conversion(C, cls, f, want, ops)


def conversion(C, cls, f, want, ops):
    con = short(f.qual)
    w = where(f)
    I = C.run(f, selfcls=cls.qual)
    b, L = I.b, I.L
    me = ('param', f.node.args.args[0].arg)
    conv = [e for e in evs(I, 'call') if e.callee[0] == 'attr' and
            e.callee[1] in (me, SELF, ('typeof', SELF)) and e.callee[2] in ops]
    if not conv:
        C.unk('conversion', con, 'no conversion recognised', w)
        return
    val = P(f.node.args.args[1].arg)
    made = {e.result: e for e in evs(I, 'construct')}
    for e in conv:
        caught = []
        for h in evs(I, 'handler'):
            for g, t in flat(I, h.value, h.guard):
                if t[0] == 'excv' and t[1] == e.result:
                    caught.append((h, g, t))
        C.check(any(t[2] is None or t[2][1] in ('Exception', 'BaseException')
                    for h, g, t in caught), 'conversion', con + ':caught',
                'not every exception of a conversion is reported as %s' %
                want.rpartition('.')[2], e.where)
        for h, g, t in caught:
            if t[2] is not None and t[2][1] not in (
                    'Exception', 'BaseException'):
                continue
            rg = FALSE
            for r in raises(I):
                if r.sym is None:
                    if opaque(r.exc):
                        rg = b.or_(rg, r.guard)
                    continue
                if r.sym[0] != 'class' or r.sym[1] not in C.m.classes or \
                        not C.m.classes[r.sym[1]].issub(
                            C.m.need_class(want)):
                    continue
                rg = b.or_(rg, r.guard)
                n = made.get(r.exc)
                if n is None or n.get('starkw') or \
                        not L.sat(b.and_(r.guard, g)):
                    continue
                for k, x, what in (('passed', val, 'the value passed'),
                                   ('exc', t, 'the exception')):
                    if k in n.kws:
                        C.implies(I, b.and_(r.guard, g), b.or_(*[
                            gg for gg, u in flat(I, n.kws[k]) if u == x or
                            opaque(u)] or [FALSE]), 'conversion', con + ':' +
                            k, 'the error does not tell ' + what, r.where)
            C.implies(I, g, rg, 'conversion', con + ':raised', 'a failing '
                      'conversion is not reported as %s' %
                      want.rpartition('.')[2], h.where)


RULES = {'C27': c27}
