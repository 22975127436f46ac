"""Gated value-flow analysis of one entry point.

A single structured pass over the syntax tree (helpers are expanded at their
call sites through the resolved call graph) computes, for every variable and
heap location, the set of value terms it may hold, each under the guard (path
condition, a BDD) that selects it, and logs the effects -- stores, deletions,
mutations, calls, constructions, raises, returns, yields -- with the guard and
the loop nest under which they happen.  Loops are summarised once over a
symbolic element; nothing is executed."""
import ast
import builtins

from .bdd import FALSE, TRUE
from .logic import (FALSEC, Logic, NONE, SING, TRUEC, UNDEF, const)
from .model import Class, Func

MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'clear', 'pop',
            'popitem', 'remove', 'discard', 'sort', 'reverse', 'setdefault',
            'appendleft', 'popleft', 'extendleft', 'difference_update',
            'intersection_update', 'symmetric_difference_update',
            '__setitem__', '__delitem__', '__iadd__'}
COPY1 = {'list', 'sorted', 'tuple', 'set', 'frozenset', 'iter', 'reversed'}
NORAISE = {'isinstance', 'issubclass', 'hasattr', 'type', 'id', 'callable',
           'len', 'bool', 'repr', 'str', 'getattr', 'dict', 'list', 'tuple',
           'set', 'frozenset', 'any', 'all', 'sorted', 'enumerate', 'zip',
           'range', 'iter', 'reversed', 'super', 'vars'}


class Ev(object):
    __slots__ = ('kind', 'guard', 'loops', 'func', 'line', 'seq', 'd',
                 'stack', 'lids')

    def __init__(self, kind, guard, loops, func, line, seq, stack, d):
        self.kind, self.guard, self.loops = kind, guard, loops
        self.func, self.line, self.seq, self.d = func, line, seq, d
        self.stack = stack

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def get(self, n, default=None):
        return self.d.get(n, default)

    @property
    def where(self):
        return "%s:%d in %s" % (
            self.func.module.rel, self.line, self.func.qual)


class Env(object):
    def __init__(self, func, parent=None):
        self.func, self.parent, self.vars = func, parent, {}
        self.module = func.module
        self.cls = func.cls
        self.selfv = None

    def find(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e
            e = e.parent
        return None


class Frame(object):
    def __init__(self, env, gen=None):
        self.env, self.rets, self.loops = env, [], []
        self.gen = gen
        self.globals = set()
        self.nonlocals = set()


def steady(s, names):
    """does this statement stop the loop in every turn or in none?"""
    return isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and \
        isinstance(s.body[0], ast.Break) and not any(
            isinstance(x, (ast.Call, ast.Attribute, ast.Subscript,
                           ast.NamedExpr, ast.Yield, ast.YieldFrom)) or
            isinstance(x, ast.Name) and x.id in names
            for x in ast.walk(s.test))


def breaks(nodes, names=()):
    """do these statements stop the loop they are the body of?"""
    todo = list(nodes)
    while todo and steady(todo[0], names):
        del todo[0]
    if todo and isinstance(todo[-1], ast.Return):
        return True
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.For, ast.While, ast.AsyncFor)):
            todo.extend(n.orelse)
        elif isinstance(n, ast.stmt) and not isinstance(
                n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            for f in ('body', 'orelse', 'finalbody', 'cases'):
                todo.extend(getattr(n, f, ()))
            for h in getattr(n, 'handlers', ()):
                todo.extend(h.body)
    return False


class Ctl(object):
    def __init__(self):
        self.brk = self.cont = FALSE


class Try(object):
    def __init__(self, clauses):
        self.clauses = clauses            # list of list of exc symbols
        self.caught = [[] for _ in clauses]   # per clause (guard, excterm)


class Closure(object):
    def __init__(self, func, env, defaults, kwdefaults):
        self.func, self.env = func, env
        self.defaults, self.kwdefaults = defaults, kwdefaults


class Entry(object):
    """one content entry of a tracked container"""
    __slots__ = ('guard', 'key', 'val', 'loops', 'star', 'seq')

    def __init__(self, guard, key, val, loops, star=False, seq=0):
        self.guard, self.key, self.val = guard, key, val
        self.loops, self.star, self.seq = loops, star, seq


class Cont(object):
    def __init__(self, kind, loops):
        self.kind, self.loops, self.entries = kind, loops, []
        self.removed = False


class Interp(object):
    MAXALT = 24
    MAXDEPTH = 14

    def __init__(self, model, boundary=(), types=None, inline_ctor=(),
                 escapes=(), classattrs=None, opaque_mods=('normalize.exc',),
                 inline_only=None, like=None):
        self.model = model
        # the formulas of two analyses can be compared when they share these
        self.L = like.L if like else Logic(model)
        self.b = self.L.b
        self.L.class_of = self.class_of
        self.L.modvar_truthy = self.modvar_truthy
        self.L.modvar_isinst = self.modvar_isinst
        self.L.modvar_nonnull = self.modvar_nonnull
        self.boundary = set(boundary)
        self.types = dict(types or {})
        self.inline_ctor = set(inline_ctor)
        self.opaque_mods = opaque_mods
        self.classattrs = classattrs or self.meta_classattrs()
        self.live = TRUE
        self.loops = ()
        self.lids = ()
        self.nlids = 0
        self.events = []
        self.heap = {}
        self.hasfact = {}
        self.tampered = set()
        self.conts = {}
        self.closures = {}
        self.newid = 0
        self.handlers = []
        self.stack = []
        self.unsupported = []
        self.faults = []
        self.lvs = {}
        self.visited = set()
        self.curline = 0
        self.escapes = set(escapes)
        self.unrolling = 0
        self.modcache = {}
        self.steps = 0
        self.growing = {}
        self.shrinking = {}

    # ------------------------------------------------------------ utilities
    def meta_classattrs(self):
        """attribute names that a metaclass stores into class dictionaries"""
        out = set()
        for c in self.model.classes.values():
            if 'type' not in c.ext_bases():
                continue
            for n in ast.walk(c.node):
                if isinstance(n, ast.Subscript) and \
                        isinstance(n.ctx, ast.Store) and \
                        isinstance(n.slice, ast.Constant) and \
                        isinstance(n.slice.value, str):
                    out.add(n.slice.value)
        return out

    def note(self, what, node=None):
        self.unsupported.append(
            (what, self.stack[-1].env.func.qual if self.stack else '?',
             getattr(node, 'lineno', 0)))

    def fault(self, kind, what, g):
        """a definite NameError or TypeError of the code itself"""
        if g != FALSE:
            self.faults.append((kind, what, g, self.stack[-1].env.func,
                                self.curline, self.loops))

    def norm(self, alts):
        d = {}
        for g, t in alts:
            if g == FALSE:
                continue
            if t[0] == 'phi':
                for g2, t2 in t[1]:
                    gg = self.b.and_(g, g2)
                    if gg != FALSE:
                        d[t2] = self.b.or_(d.get(t2, FALSE), gg)
            else:
                d[t] = self.b.or_(d.get(t, FALSE), g)
        out = tuple((g, t) for t, g in d.items())
        if len(out) > self.MAXALT:
            self.note('value union too wide')
            ts = tuple(t for g, t in out)
            g = FALSE
            for gg, _ in out:
                g = self.b.or_(g, gg)
            return ((g, ('wide', tuple(sorted(ts, key=repr)))),)
        return out

    def one(self, t):
        if t[0] == 'phi':
            return self.restrict(t[1])
        return ((self.live, t),)

    def restrict(self, V, g=None):
        g = self.live if g is None else g
        if g == TRUE:
            return V
        return tuple((gg, t) for gg, t in
                     ((self.b.and_(x, g), t) for x, t in V) if gg != FALSE)

    def term(self, V):
        """embed a guarded value into a term"""
        V = self.restrict(V)
        if not V:
            return UNDEF
        if len(V) == 1:
            return V[0][1]
        ts = set(t for g, t in V)
        if len(ts) == 1:
            return V[0][1]
        return ('phi', tuple((self.b.drop(g, self.live), t) for g, t in V))

    def map(self, V, fn):
        """apply fn(term)->V-or-term to each alternative under its guard"""
        out = []
        live = self.live
        after = FALSE
        for g, t in self.restrict(V):
            self.live = self.b.and_(live, g)
            r = fn(t)
            if isinstance(r, tuple) and r and isinstance(r[0], str):
                r = self.one(r)
            out.extend((self.b.and_(self.live, gg), tt) for gg, tt in r)
            after = self.b.or_(after, self.live)
        self.live = after
        return self.norm(out)

    def truth(self, V):
        """BDD for the truthiness of V (meaningful where live)"""
        r = FALSE
        for g, t in self.restrict(V):
            r = self.b.or_(r, self.b.and_(g, self.truthy(t)))
        return r

    def truthy(self, t):
        if t[0] == 'new' and t in self.conts:
            c = self.conts[t]
            if c.kind in ('list', 'dict', 'set', 'frozenset', 'tuple'):
                r = FALSE
                for e in c.entries:
                    if e.star:
                        r = self.b.or_(r, self.b.and_(
                            e.guard, self.L.truthy(self.term0(e.val))))
                    else:
                        r = self.b.or_(r, self.quant(
                            e.loops[len(c.loops):], e.guard))
                if c.removed:
                    r = self.b.and_(r, self.b.atom(('truthy', t)))
                return self.b.or_(r, self.earlier(t, ('truthy', t)))
        c = self.class_of(t)
        if c:
            for n in ('__bool__', '__len__'):
                o, a = self.model.classes[c].lookup(n)
                if isinstance(a, Func) and a.qual not in self.boundary and \
                        not self.onstack(a) and len(self.stack) < 30:
                    sv = self.live
                    self.live = TRUE
                    ev = len(self.events)
                    V = self.inline(a, [self.one(t)], {}, None, None,
                                    quiet=True)
                    del self.events[ev:]
                    self.live = sv
                    r = FALSE
                    for g, x in V:
                        r = self.b.or_(r, self.b.and_(
                            g, self.truthy(x) if x[0] != 'attr' or
                            x[1] != t else self.L.truthy(x)))
                    return r
                if a is not None:
                    break
        return self.L.truthy(t)

    def term0(self, V):
        if isinstance(V, tuple) and V and isinstance(V[0], str):
            return V
        if len(V) == 1:
            return V[0][1]
        return ('phi', tuple(V))

    def boolV(self, bdd):
        l = self.live
        return self.norm(((self.b.and_(l, bdd), TRUEC),
                          (self.b.and_(l, self.b.not_(bdd)), FALSEC)))

    # ----------------------------------------------------------- quantifiers
    def loopatoms(self, key):
        return (('elem', key), ('idx', key))

    def depends(self, atom, key):
        return any(self.L.has(atom, x) for x in self.loopatoms(key)) or \
            (isinstance(atom, tuple) and atom[0] in ('first', 'unbroken') and
             atom[1] == key) or self.L.has(atom, ('lvkey', key))

    def quant(self, keys, cond):
        """exists key in keys: cond, canonicalised"""
        for key in reversed(keys):
            cond = self.quant1(key, cond)
        return cond

    def quant1(self, key, cond):
        b = self.b
        if cond in (TRUE, FALSE):
            if cond == FALSE:
                return FALSE
            return self.nonempty(key)
        for v in sorted(b.support(cond)):
            a = b.atoms[v]
            if a[0] in ('first', 'unbroken') and a[1] == key:
                cond = b.exists_var(cond, v)
        if cond == TRUE:
            return self.nonempty(key)
        outer = [v for v in sorted(b.support(cond))
                 if not self.depends(b.atoms[v], key)]
        return self._quant(key, cond, outer)

    def _quant(self, key, cond, outer):
        b = self.b
        if cond == FALSE:
            return FALSE
        if cond == TRUE:
            return self.nonempty(key)
        outer = [v for v in outer if v in b.support(cond)]
        if not outer:
            return b.atom(('exists', key, cond))
        v, rest = outer[0], outer[1:]
        lo = self._quant(key, b.restrict(cond, v, 0), rest)
        hi = self._quant(key, b.restrict(cond, v, 1), rest)
        return b.ite(b.mk(v, FALSE, TRUE), hi, lo)

    def nonempty(self, key):
        if key[0] == 'while':
            return TRUE
        if key[0] == 'again':
            key = key[1]
        if key[0] == 'zip':
            return self.b.and_(*[self.nonempty(k) for k in key[1:]])
        return self.L.truthy(key)

    # ---------------------------------------------------------------- events
    def log(self, kind, **d):
        if self.live == FALSE:
            return None
        fr = self.stack[-1]
        e = Ev(kind, self.live, self.loops, fr.env.func, self.curline,
               len(self.events), tuple(f.env.func.qual for f in self.stack),
               d)
        e.lids = self.lids
        self.events.append(e)
        return e

    def new(self, kind):
        self.newid += 1
        t = ('new', self.newid, kind)
        if kind in ('list', 'dict', 'set', 'gen', 'frozenset', 'tuple'):
            self.conts[t] = Cont(kind, self.loops)
        return t

    def put(self, cont, key, val, star=False, guard=None):
        c = self.conts[cont]
        g = self.live if guard is None else guard
        # dictionary with a constant key: strong update
        if c.kind == 'dict' and not star and key is not None:
            for e in c.entries:
                if not e.star and e.key == key and e.loops == self.loops:
                    e.val = self.norm(
                        [(self.b.and_(gg, self.b.not_(g)), t)
                         for gg, t in e.val] + list(self.restrict(val, g)))
                    e.guard = self.b.or_(e.guard, g)
                    return
        c.entries.append(Entry(g, key, val, self.loops, star,
                               len(self.events)))

    # ------------------------------------------------------------ exceptions
    def exc_of_value(self, t):
        """exception symbol for a raised value term"""
        if t[0] == 'new' and (t[2] in self.model.classes or
                              t[2].startswith('!')):
            return ('builtin', t[2][1:]) if t[2][0] == '!' else \
                ('class', t[2])
        if t[0] in ('class', 'builtin'):
            return t
        if t[0] == 'excv':
            return t[2]
        return None

    def do_raise(self, V, node):
        for g, t in self.restrict(V):
            sv = self.live
            self.live = self.b.and_(sv, g)
            if self.live != FALSE:
                sym = self.exc_of_value(t)
                if t[0] in ('class', 'builtin'):
                    # raise of a class instantiates it
                    pass
                caught = self.throw(self.live, sym, t)
                self.log('raise', exc=t, sym=sym, caught=caught)
            self.live = sv
        self.live = FALSE

    def throw(self, g, sym, t):
        """route an exception of class sym under guard g to handlers"""
        for ctx in reversed(self.handlers):
            for i, cl in enumerate(ctx.clauses):
                for s in cl:
                    r = None if sym is None else self.model.exc_issub(sym, s)
                    if s in (('builtin', 'BaseException'),
                             ('builtin', 'Exception')):
                        r = True
                    if r is True:
                        ctx.caught[i].append((g, t))
                        return True
                    if r is None or (r is False and sym is not None and
                                     t[0] == 'excv' and
                                     self.model.exc_issub(s, sym)):
                        # may or may not match
                        a = self.b.atom(('excmatch', t, s))
                        h = self.b.and_(g, a)
                        ctx.caught[i].append((h, t))
                        g = self.b.and_(g, self.b.not_(a))
        return False

    IMPL = {'attr': ('AttributeError',), 'item': ('KeyError', 'IndexError')}

    def may_raise(self, kind, key, conds):
        """an operation that may raise; conds: {excname: bdd or None}
        (None: a fresh opaque atom).  Reduces live by the caught part."""
        if self.live == FALSE:
            return
        g0 = self.live
        if not self.handlers and not self.escapes:
            return
        gone = FALSE
        if kind == 'call':
            cand = None
        else:
            cand = conds
        for ctx in reversed(self.handlers):
            stop = False
            for i, cl in enumerate(ctx.clauses):
                for s in cl:
                    if kind == 'call':
                        a = self.b.atom(('raises', key, s))
                        sym = s
                    else:
                        a = FALSE
                        for en, c in cand.items():
                            es = ('builtin', en)
                            if self.model.exc_issub(es, s) or \
                                    self.model.exc_issub(s, es) and \
                                    s[0] == 'builtin':
                                a = self.b.or_(a, c)
                        sym = None
                        for en, c in cand.items():
                            if c != FALSE:
                                sym = ('builtin', en)
                        if len(cand) > 1 and s[0] == 'builtin' and \
                                s[1] in cand:
                            sym = s
                    h = self.b.and_(g0, a, self.b.not_(gone))
                    if h == FALSE:
                        continue
                    ctx.caught[i].append((h, ('excv', key, sym)))
                    gone = self.b.or_(gone, h)
                    if s in (('builtin', 'Exception'),
                             ('builtin', 'BaseException')):
                        stop = True
            if stop:
                break
        else:
            if kind != 'call':
                for en in conds:
                    if en in self.escapes:
                        h = self.b.and_(g0, conds[en], self.b.not_(gone))
                        if h != FALSE:
                            sv, self.live = self.live, h
                            self.log('escape', exc=en, key=key)
                            self.live = sv
            elif 'call' in self.escapes:
                pass
        self.live = self.b.and_(g0, self.b.not_(gone))

    # ----------------------------------------------------------- term typing
    def class_of(self, t):
        k = t[0]
        if k == 'new':
            return t[2] if t[2] in self.model.classes else None
        r = self.types.get(t)
        if r:
            return r
        if k == 'modvar':
            e = self.modvar_expr(t)
            if isinstance(e, ast.Call):
                s = self.model.static(self.model.modules[t[1]], e.func)
                if s and s[0] == 'class' and \
                        'type' not in self.model.classes[s[1]].ext_bases():
                    return s[1]
        return None

    def modvar_expr(self, t):
        m = self.model.modules[t[1]]
        if t[2] in m.rebound:
            return None
        b = m.globals.get(t[2])
        return b[1] if b and b[0] == 'expr' else None

    def modvar_truthy(self, t):
        c = self.class_of(t)
        return bool(c) and not self.L.cls_sized(c)

    def modvar_nonnull(self, t):
        e = self.modvar_expr(t)
        return e is not None and not (
            isinstance(e, ast.Constant) and e.value is None)

    def modvar_isinst(self, t, spec):
        c = self.class_of(t)
        if c:
            return self.L.cls_issub(('class', c), spec)
        return None

    def typehint(self, t, q):
        self.types[t] = q

    # ------------------------------------------------------------ entry point
    def run(self, func, args=None, selfcls=None, selfterm=None, live=TRUE):
        """analyse func as an entry; args: {param: term or V}"""
        env = Env(func, None)
        self.live = live
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = dict(args or {})
        if func.cls is not None and func.kind != 'staticmethod' and names:
            q = selfcls or func.cls.qual
            first = names[0]
            if first not in args:
                st = selfterm or ('param', 'self')
                self.types.setdefault(st, q)
                if func.kind in ('classmethod', 'classproperty'):
                    args[first] = ('typeof', st)
                else:
                    args[first] = st
            env.selfv = args[first]
        for n in names + [x.arg for x in a.kwonlyargs]:
            v = args.get(n, ('param', n))
            env.vars[n] = v if self.isV(v) else ((TRUE, v),)
        if a.vararg:
            v = args.get(a.vararg.arg, ('param', '*' + a.vararg.arg))
            env.vars[a.vararg.arg] = ((TRUE, v),)
        if a.kwarg:
            v = args.get(a.kwarg.arg, ('param', '**' + a.kwarg.arg))
            env.vars[a.kwarg.arg] = ((TRUE, v),)
        gen = None
        fr = Frame(env)
        if func.is_gen:
            self.stack.append(fr)
            gen = fr.gen = self.new('gen')
            self.stack.pop()
        self.stack.append(fr)
        self.visited.add(func.qual)
        self.curline = func.node.lineno
        if isinstance(func.node, ast.Lambda):
            v = self.expr(func.node.body)
            fr.rets.append((self.live, v))
        else:
            self.block(func.node.body)
            if self.live != FALSE:
                self.log('return', value=((self.live, NONE),), implicit=True,
                         own=0)
                fr.rets.append((self.live, ((self.live, NONE),)))
        out = []
        for g, V in fr.rets:
            out.extend((self.b.and_(g, x), t) for x, t in V)
        self.env = env
        self.stack.pop()
        if gen:
            return ((TRUE, gen),)
        return self.norm(out)

    def apply(self, t, args, live, star=(), starkw=()):
        """what calling a function value seen in the entry gives, after the
        entry was analysed"""
        old = self.live
        self.live = live
        self.stack.append(Frame(self.env))
        v = self.call1(t, [self.one(x) for x in args], {},
                       [self.one(x) for x in star],
                       [self.one(x) for x in starkw], None)
        self.stack.pop()
        self.live = old
        return v

    @staticmethod
    def isV(v):
        return isinstance(v, tuple) and (not v or isinstance(v[0], tuple))

    # ------------------------------------------------------------- statements
    def block(self, stmts):
        for s in stmts:
            if self.live == FALSE:
                return
            self.stmt(s)

    def stmt(self, s):
        self.curline = s.lineno
        self.steps += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.note('statement %s' % type(s).__name__, s)
            return
        m(s)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        self.expr(s.value)

    def s_Return(self, s):
        v = self.expr(s.value) if s.value is not None else self.one(NONE)
        fr = self.stack[-1]
        self.curline = s.lineno
        self.log('return', value=self.restrict(v), implicit=False,
                 own=len(fr.loops))
        fr.rets.append((self.live, self.restrict(v)))
        self.live = FALSE

    def s_If(self, s):
        c = self.cond(s.test)
        live = self.live
        self.live = self.b.and_(live, c)
        self.block(s.body)
        l1 = self.live
        self.live = self.b.and_(live, self.b.not_(c))
        self.block(s.orelse)
        self.live = self.b.or_(l1, self.live)

    def cond(self, e):
        """truth of an expression as a BDD (short-circuit aware)"""
        if isinstance(e, ast.BoolOp):
            live0 = self.live
            isand = isinstance(e.op, ast.And)
            acc = TRUE if isand else FALSE
            lost = FALSE
            for x in e.values:
                before = self.live
                c = self.cond(x)
                lost = self.b.or_(lost, self.b.and_(
                    before, self.b.not_(self.live)))
                if isand:
                    acc = self.b.and_(acc, c)
                    self.live = self.b.and_(self.live, c)
                else:
                    acc = self.b.or_(acc, c)
                    self.live = self.b.and_(self.live, self.b.not_(c))
                if self.live == FALSE:
                    break
            self.live = self.b.and_(live0, self.b.not_(lost))
            return acc
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.b.not_(self.cond(e.operand))
        return self.truth(self.expr(e))

    def s_Assign(self, s):
        v = self.expr(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value), s)

    def setvar(self, name, v, env=None):
        fr = self.stack[-1]
        if env is None:
            env = fr.env
            if name in fr.globals:
                self.log('globalstore', name=name, value=v)
                return
            if name in fr.nonlocals and env.parent:
                env = env.parent.find(name) or env
        old = env.vars.get(name, ())
        ng = self.b.not_(self.live)
        env.vars[name] = self.norm(
            [(self.b.and_(g, ng), t) for g, t in old] +
            list(self.restrict(v)))

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, node)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            self.store_attr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            k = self.index(t.slice)
            self.store_item(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)
        else:
            self.note('assign target', node)

    def unpack(self, elts, v, node):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        parts = [[] for _ in elts]
        for g, t in self.restrict(v):
            items = self.exact_items(t)
            if items is not None and not star and len(items) == n:
                for i, x in enumerate(items):
                    for g2, t2 in x:
                        parts[i].append((self.b.and_(g, g2), t2))
            elif items is not None and len(star) == 1 and \
                    len(items) >= n - 1:
                k = star[0]
                tail = n - 1 - k
                mid = items[k:len(items) - tail]
                seq = items[:k] + [self.one(
                    ('tuple',) + tuple(self.term(m) for m in mid))] + \
                    (items[len(items) - tail:] if tail else [])
                for i, x in enumerate(seq):
                    for g2, t2 in x:
                        parts[i].append((self.b.and_(g, g2), t2))
            else:
                for i in range(n):
                    if star and i > star[0]:
                        r = ('item', t, const(i - n))
                    elif star and i == star[0]:
                        r = ('slice', t, const(i), const(i - n + 1)
                             if i < n - 1 else NONE, NONE)
                    else:
                        r = ('item', t, const(i))
                    parts[i].append((g, r))
        for e, p in zip(elts, parts):
            self.assign(e, self.norm(p), node)

    def exact_items(self, t):
        """list of V if t is a sequence whose items are known exactly"""
        if t[0] == 'tuple':
            return [self.one(x) for x in t[1:]]
        if t[0] == 'new' and t in self.conts:
            c = self.conts[t]
            if c.kind in ('list', 'tuple', 'gen') and not c.removed and all(
                    not e.star and e.loops == c.loops for e in c.entries) \
                    and all(self.b.and_(self.live, self.b.not_(e.guard))
                            == FALSE for e in c.entries):
                return [e.val for e in c.entries]
        if t[0] == 'modvar':
            e = self.modvar_expr(t)
            if isinstance(e, (ast.Tuple, ast.List)):
                v = self.modval(t)
                if v is not None and v[0] == 'tuple':
                    return [self.one(x) for x in v[1:]]
        if t[0] == 'zipt':
            return [self.one(x) for x in t[1:]]
        return None

    def modval(self, t):
        """abstract value of a module-level constant expression"""
        if t in self.modcache:
            return self.modcache[t]
        self.modcache[t] = None
        e = self.modvar_expr(t)
        r = self.static_value(self.model.modules[t[1]], e)
        self.modcache[t] = r
        return r

    def static_value(self, m, e):
        """term for a side-effect free module-level constant expression"""
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            xs = [self.static_value(m, x) for x in e.elts]
            if all(x is not None for x in xs):
                return ('tuple',) + tuple(xs)
            return None
        if isinstance(e, ast.Dict):
            xs = [self.static_value(m, x) if x is not None else None
                  for x in e.keys]
            if all(x is not None for x in xs):
                return ('tuple',) + tuple(xs)
            return None
        if isinstance(e, (ast.Name, ast.Attribute)):
            s = self.model.static(m, e)
            if s is None:
                return None
            if s[0] == 'modvar':
                r = self.modval(s)
                return r if r is not None and r[0] in (
                    'tuple', 'const') else s
            return s
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id in ('tuple', 'list', 'set', 'frozenset',
                              'sorted') and \
                len(e.args) == 1 and not e.keywords:
            x = e.args[0]
            if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and x.func.attr == 'keys':
                x = x.func.value
            r = self.static_value(m, x)
            return r if r is not None and r[0] == 'tuple' else None
        if isinstance(e, ast.Call) and not e.args and not e.keywords and \
                isinstance(e.func, ast.Name) and \
                e.func.id in ('tuple', 'frozenset'):
            return ('tuple',)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = (self.static_value(m, x) for x in (e.left, e.right))
            if a and b and a[0] == b[0] == 'tuple':
                return a + b[1:]
            if a and b and a[0] == b[0] == 'const' and a[1] == b[1]:
                return const(a[2] + b[2])
        return None

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, s)
            rhs = self.expr(s.value)
            for g, o in self.restrict(old):
                if o[0] == 'new' and o in self.conts and \
                        isinstance(s.op, (ast.Add, ast.BitOr)):
                    sv = self.live
                    self.live = self.b.and_(sv, g)
                    self.extend(o, rhs)
                    self.live = sv
                elif self.is_obj(o) and isinstance(
                        s.op, (ast.Add, ast.BitOr, ast.Sub, ast.BitAnd)):
                    sv = self.live
                    self.live = self.b.and_(sv, g)
                    self.log('mut', target=o, name='__iadd__', args=[rhs],
                             result=o, aug=True)
                    self.live = sv
            new = self.binop(type(s.op).__name__, old, rhs, aug=True)
            self.setvar(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            old = self.load_attr(o, t.attr)
            rhs = self.expr(s.value)
            self.store_attr(o, t.attr, self.binop(
                type(s.op).__name__, old, rhs, aug=True))
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            k = self.index(t.slice)
            old = self.load_item(o, k)
            rhs = self.expr(s.value)
            self.store_item(o, k, self.binop(
                type(s.op).__name__, old, rhs, aug=True))

    def is_obj(self, t):
        return t[0] in ('param', 'attr', 'item', 'elem')

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                pass
            elif isinstance(t, ast.Attribute):
                self.delete_attr(self.expr(t.value), t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value)
                k = self.index(t.slice)
                self.delete_item(o, k)
            elif isinstance(t, ast.Tuple):
                for x in t.elts:
                    self.s_Delete(ast.copy_location(
                        ast.Delete(targets=[x]), s))

    def s_Raise(self, s):
        if s.exc is None:
            cur = getattr(self, 'curexc', None)
            v = cur[-1] if cur else self.one(('excv', ('?',), None))
        else:
            v = self.expr(s.exc)
        if s.cause is not None:
            self.expr(s.cause)
        self.curline = s.lineno
        self.do_raise(v, s)

    def s_Assert(self, s):
        c = self.cond(s.test)
        live = self.live
        self.live = self.b.and_(live, self.b.not_(c))
        if self.live != FALSE:
            ct = self.throw(self.live, ('builtin', 'AssertionError'),
                            ('excv', ('assert', s.lineno),
                             ('builtin', 'AssertionError')))
            self.log('raise', exc=('builtin', 'AssertionError'),
                     sym=('builtin', 'AssertionError'), caught=ct,
                     isassert=True)
        self.live = self.b.and_(live, c)

    def s_Global(self, s):
        self.stack[-1].globals.update(s.names)

    def s_Nonlocal(self, s):
        self.stack[-1].nonlocals.update(s.names)

    def s_Import(self, s):
        m = self.stack[-1].env.module
        for k, b in self.model.import_bindings(m, s).items():
            r = self.model.binding(m, k, b)
            self.setvar(k, self.one(r or ('ext', k)))

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s):
        env = self.stack[-1].env
        f = Func(s, env.module, env.cls, env.func.qual + '.<locals>.' +
                 s.name, 'function', outer=env.func)
        v = self.closure(f, s.args)
        if s.decorator_list:
            self.note('decorated local function', s)
        self.setvar(s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def closure(self, f, a):
        env = self.stack[-1].env
        self.newid += 1
        t = ('closure', self.newid)
        dfl = [self.expr(x) for x in a.defaults]
        kd = [self.expr(x) if x is not None else None
              for x in a.kw_defaults]
        self.closures[t] = Closure(f, env, dfl, kd)
        return self.one(t)

    def s_ClassDef(self, s):
        self.note('local class', s)
        self.setvar(s.name, self.one(('localclass', s.name, s.lineno)))

    def s_With(self, s):
        supp = []
        for it in s.items:
            e = it.context_expr
            if isinstance(e, ast.Call):
                f = self.expr(e.func)
                if len(f) == 1 and f[0][1] == ('ext', 'contextlib.suppress'):
                    syms = []
                    for x in e.args:
                        syms.extend(self.exc_syms(self.expr(x)))
                    supp.append(syms)
                    continue
            v = self.expr(e)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, self.map(
                    v, lambda t: ('enter', t)), s)
        if supp:
            ctx = Try([x for x in supp])
            self.handlers.append(ctx)
            self.block(s.body)
            self.handlers.remove(ctx)
            for c in ctx.caught:
                for g, t in c:
                    self.live = self.b.or_(self.live, g)
        else:
            self.block(s.body)

    def exc_syms(self, V):
        out = []
        for g, t in V:
            if t[0] == 'tuple':
                for x in t[1:]:
                    out.append(x)
            elif t[0] == 'modvar':
                r = self.modval(t)
                if r is not None and r[0] == 'tuple':
                    out.extend(r[1:])
                else:
                    out.append(t)
            else:
                out.append(t)
        return out

    def s_Try(self, s):
        clauses = []
        for h in s.handlers:
            if h.type is None:
                clauses.append([('builtin', 'BaseException')])
            else:
                clauses.append(self.exc_syms(self.expr(h.type)))
        live0 = self.live
        ctx = Try(clauses)
        self.handlers.append(ctx)
        self.block(s.body)
        self.handlers.remove(ctx)
        self.block(s.orelse)
        out = self.live
        if not hasattr(self, 'curexc'):
            self.curexc = []
        for h, c in zip(s.handlers, ctx.caught):
            g = FALSE
            for gg, t in c:
                g = self.b.or_(g, gg)
            self.live = g
            if g == FALSE:
                continue
            v = self.norm(c)
            if h.name:
                self.setvar(h.name, v)
            self.curexc.append(v)
            self.curline = h.lineno
            self.log('handler', types=tuple(self.exc_syms_of(h, clauses,
                                                             s)), value=v)
            self.block(h.body)
            self.curexc.pop()
            out = self.b.or_(out, self.live)
        self.live = out
        if s.finalbody:
            after = self.live
            self.live = live0
            self.block(s.finalbody)
            self.live = self.b.and_(after, self.b.or_(
                self.live, self.b.not_(live0)))

    def exc_syms_of(self, h, clauses, s):
        return clauses[s.handlers.index(h)]

    s_TryStar = s_Try

    def s_Break(self, s):
        ctl = self.stack[-1].loops[-1]
        ctl.brk = self.b.or_(ctl.brk, self.live)
        self.log('break')
        self.live = FALSE

    def s_Continue(self, s):
        ctl = self.stack[-1].loops[-1]
        ctl.cont = self.b.or_(ctl.cont, self.live)
        self.live = FALSE

    def s_For(self, s):
        it = self.expr(s.iter)
        self.for_loop(it, lambda v: self.assign(s.target, v, s),
                      lambda: self.block(s.body), s.body, s.target,
                      s.orelse)

    def assigned(self, nodes):
        out = set()
        for n in nodes:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(
                        x.ctx, (ast.Store, ast.Del)):
                    out.add(x.id)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    out.add(x.name)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    out.add(x.name)
        return out

    def mutated(self, nodes):
        """names of containers a loop body adds to"""
        out = set()
        for n in nodes:
            for x in ast.walk(n):
                t = None
                if isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Attribute) and x.func.attr in MUTATORS:
                    t = x.func.value
                elif isinstance(x, ast.Subscript) and isinstance(
                        x.ctx, (ast.Store, ast.Del)):
                    t = x.value
                elif isinstance(x, ast.AugAssign):
                    t = x.target
                if isinstance(t, ast.Name):
                    out.add(t.id)
        return out

    def shrunk(self, nodes):
        """names of containers a loop body takes things out of"""
        out = set()
        for n in nodes:
            for x in ast.walk(n):
                t = None
                if isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Attribute) and x.func.attr in (
                        'remove', 'discard', 'pop', 'popitem', 'clear',
                        'popleft'):
                    t = x.func.value
                elif isinstance(x, ast.Subscript) and isinstance(
                        x.ctx, ast.Del):
                    t = x.value
                elif isinstance(x, ast.AugAssign) and isinstance(
                        x.op, ast.Sub):
                    t = x.target
                if isinstance(t, ast.Name):
                    out.add(t.id)
        return out

    def grow(self, nodes, lead):
        """containers whose contents at the start of an iteration include
        what earlier iterations added"""
        out = []
        fr = self.stack[-1]
        less = self.shrunk(nodes)
        for n in self.mutated(nodes):
            en = fr.env.find(n)
            if en is None:
                continue
            for g, t in en.vars[n]:
                for x in (t[1] if t[0] == 'phi' else ((g, t),)):
                    if x[1] in self.conts:
                        self.growing.setdefault(x[1], []).append(lead)
                        self.shrinking.setdefault(x[1], []).append(
                            lead if n in less else None)
                        out.append(x[1])
        return out

    def earlier(self, c, atom):
        """what earlier iterations may have put into container c"""
        ls = self.growing.get(c)
        if not ls:
            return FALSE
        b = self.b
        return b.and_(b.or_(*[b.not_(b.atom(('first', x))) for x in ls]),
                      b.atom(atom))

    def counters(self, body):
        """names incremented by 1 exactly once, unconditionally, per
        iteration of body"""
        cnt = {}
        for st in self.spine(body):
            n = self.incr_of(st)
            if n:
                cnt.setdefault(n, []).append(st)
        out = {}
        for n, sts in cnt.items():
            tot = 0
            for st in body:
                for x in ast.walk(st):
                    if isinstance(x, ast.Name) and x.id == n and \
                            isinstance(x.ctx, ast.Store):
                        tot += 1
            if tot != 1:
                continue
            if self.has_continue_before(body, sts[0]):
                continue
            out[n] = sts[0]
        return out

    @staticmethod
    def incr_of(st):
        if isinstance(st, ast.AugAssign) and isinstance(st.op, ast.Add) \
                and isinstance(st.target, ast.Name) and \
                isinstance(st.value, ast.Constant) and st.value.value == 1:
            return st.target.id
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                isinstance(st.targets[0], ast.Name) and \
                isinstance(st.value, ast.BinOp) and \
                isinstance(st.value.op, ast.Add):
            n = st.targets[0].id
            for a, b in ((st.value.left, st.value.right),
                         (st.value.right, st.value.left)):
                if isinstance(a, ast.Name) and a.id == n and \
                        isinstance(b, ast.Constant) and b.value == 1:
                    return n
        return None

    @classmethod
    def spine(cls, body):
        """the statements which every round that goes on executes"""
        for st in body:
            yield st
            if isinstance(st, ast.If) and st.orelse:
                if cls.leaves(st.body):
                    for x in cls.spine(st.orelse):
                        yield x
                elif cls.leaves(st.orelse):
                    for x in cls.spine(st.body):
                        yield x

    @classmethod
    def leaves(cls, body):
        """the loop is over at the end of these statements"""
        st = body[-1] if body else None
        if isinstance(st, (ast.Return, ast.Raise, ast.Break)):
            return not any(isinstance(n, ast.Continue) for x in body
                           for n in ast.walk(x))
        return isinstance(st, ast.If) and cls.leaves(st.body) and \
            cls.leaves(st.orelse)

    @staticmethod
    def has_continue_before(body, st):
        """is there a way to the next round which avoids the statement?"""
        stack = list(body)[::-1]
        while stack:
            n = stack.pop()
            if n is st:
                return False
            if isinstance(n, ast.Continue):
                return True
            if isinstance(n, (ast.For, ast.While, ast.FunctionDef)):
                # a continue in there belongs to the inner loop
                continue
            stack.extend(list(ast.iter_child_nodes(n))[::-1])
        return False

    def segments(self, it):
        """iteration plan for a guarded iterable: list of
        (guard, kind, keys, elemV); kind 'one' = exactly one iteration,
        'each' = symbolic loop over keys"""
        out = []
        for g, t in self.restrict(it):
            out.extend(self.segs(g, t))
        return out

    def segs(self, g, t, depth=0):
        b = self.b
        k = t[0]
        if k == 'tuple':
            return [(g, 'one', (), ((g, x),)) for x in t[1:]]
        if k == 'const':
            if t[1] in ('str', 'bytes') and len(t[2]) <= 8:
                return [(g, 'one', (), ((g, const(c)),)) for c in t[2]]
        if k == 'new' and t in self.conts:
            c = self.conts[t]
            out = []
            for e in c.entries:
                eg = b.and_(g, e.guard)
                if e.star:
                    for gg, x in self.restrict(e.val, eg):
                        if c.kind in ('set', 'frozenset'):
                            self.log('merged', arg=x)
                        for s in self.segs(gg, x, depth + 1):
                            if e.loops[len(c.loops):]:
                                s = (s[0], 'each',
                                     e.loops[len(c.loops):] + s[2], s[3])
                            out.append(s)
                    continue
                rel = e.loops[len(c.loops):] \
                    if e.loops[:len(c.loops)] == c.loops else e.loops
                v = e.val
                if c.kind == 'dict':
                    v = self.one(e.key) if e.key is not None else e.val
                out.append((eg, 'each' if rel else 'one', tuple(rel), v))
            if len(out) > 14:
                key = self.loopkey(t)
                return [(g, 'each', (key,), ((g, ('elem', key)),))]
            if c.removed and c.kind == 'set':
                # some members were taken out again
                out = [(b.and_(gg, g2, b.atom(('in', x, t))), kd, ks,
                        ((g2, x),)) for gg, kd, ks, v in out
                       for g2, x in v]
            return out
        if k == 'modvar':
            v = self.modval(t)
            if v is not None and v[0] == 'tuple' and len(v) <= 12:
                return [(g, 'one', (), ((g, x),)) for x in v[1:]]
        if k == 'items':
            d = t[1]
            if d[0] == 'new' and d in self.conts:
                c = self.conts[d]
                out = []
                for e in c.entries:
                    eg = b.and_(g, e.guard)
                    if e.star:
                        for gg, x in self.restrict(e.val, eg):
                            out.extend(self.segs(gg, ('items', x)))
                        continue
                    rel = e.loops[len(c.loops):]
                    kt = e.key or UNDEF
                    out.append((eg, 'each' if rel else 'one', tuple(rel),
                                tuple((gg, ('tuple', kt, x))
                                      for gg, x in e.val)))
                return out
            if d[0] == 'modvar':
                e = self.modvar_expr(d)
                if isinstance(e, ast.Dict) and len(e.keys) <= 12:
                    m = self.model.modules[d[1]]
                    ks = [self.static_value(m, x) for x in e.keys]
                    vs = [self.static_value(m, x) for x in e.values]
                    if all(ks) and all(vs):
                        return [(g, 'one', (), ((g, ('tuple', x, y)),))
                                for x, y in zip(ks, vs)]
            key = self.loopkey(d)
            return [(g, 'each', (key,), ((g, (
                'tuple', ('elem', key),
                ('item', d, ('elem', key)))),))]
        if k == 'values':
            d = t[1]
            r = self.segs(g, ('items', d))
            return [(gg, kd, ks, tuple((g2, x[2]) for g2, x in v))
                    for gg, kd, ks, v in r]
        if k == 'enumerate':
            inner = self.segs(g, t[1])
            out = []
            n = 0
            plain = all(s[1] == 'one' for s in inner)
            for gg, kd, ks, v in inner:
                if plain:
                    i = const(n + (t[2][2] if t[2][0] == 'const' and
                                   t[2][1] == 'int' else 0))
                elif len(ks) == 1 and t[2] == const(0) and \
                        len(inner) == 1:
                    i = ('idx', ks[0])
                else:
                    i = ('idx', t[1])
                    if t[2] != const(0):
                        i = ('bin', 'Add', i, t[2])
                out.append((gg, kd, ks, tuple(
                    (g2, ('tuple', i, x)) for g2, x in v)))
                n += 1
            return out
        if k == 'range':
            if t[1] == const(0) and t[2][0] == 'len':
                key = self.loopkey(self.iterkey(t[2][1]))
                return [(g, 'each', (key,), ((g, ('idx', key)),))]
            if t[1][0] == 'const' and t[2][0] == 'const' and \
                    0 <= t[2][2] - t[1][2] <= 8:
                return [(g, 'one', (), ((g, const(i)),))
                        for i in range(t[1][2], t[2][2])]
        if k == 'zip':
            parts = [self.segs(g, x) for x in t[1:]]
            if all(all(s[1] == 'one' for s in p) for p in parts):
                return [(b.and_(*[s[0] for s in row]), 'one', (),
                         ((g, ('tuple',) + tuple(
                             self.term0(s[3]) for s in row)),))
                        for row in zip(*parts)]
            if all(len(p) == 1 and len(p[0][2]) == 1 for p in parts):
                key = ('zip',) + tuple(p[0][2][0] for p in parts)
                if len(set(key[1:])) == 1:
                    key = key[1]
                return [(g, 'each', (key,), ((g, ('tuple',) + tuple(
                    self.term0(p[0][3]) for p in parts)),))]
        if k == 'seq1':     # order/copy wrappers: same elements
            return self.segs(g, t[1], depth + 1)
        if k == 'phi':
            out = []
            for gg, x in t[1]:
                out.extend(self.segs(b.and_(g, gg), x, depth + 1))
            return [s for s in out if s[0] != FALSE]
        if k == 'bin' and t[1] == 'BitOr' and self.isset(t):
            out = self.segs(g, t[2], depth + 1) + \
                self.segs(g, t[3], depth + 1)
            if t in self.tampered:
                out = [(b.and_(gg, g2, b.atom(('in', x, t))), kd, ks,
                        ((g2, x),)) for gg, kd, ks, v in out for g2, x in v]
            return out
        if k == 'bin' and t[1] in ('Sub', 'BitAnd') and \
                self.isset(t[3]):
            # set difference, intersection
            out = []
            for gg, kd, ks, v in self.segs(g, t[2], depth + 1):
                for g2, x in v:
                    a = self.contains(x, t[3])
                    if t[1] == 'Sub':
                        a = b.not_(a)
                    if t in self.tampered:
                        a = b.and_(a, b.atom(('in', x, t)))
                    out.append((b.and_(gg, g2, a), kd, ks, ((g2, x),)))
            return out
        if k == 'slice' and t[1][0] != 'new' and t[2] == NONE and \
                t[3] == NONE and t[4] == NONE:
            return self.segs(g, t[1], depth + 1)
        c = self.class_of(t)
        if c:
            o, a = self.model.classes[c].lookup('__iter__')
            if isinstance(a, Func) and a.qual not in self.boundary and \
                    not self.onstack(a):
                sv = self.live
                self.live = g
                v = self.inline(a, [((g, t),)], {}, None, None)
                self.live = sv
                out = []
                for gg, x in self.restrict(v, g):
                    out.extend(self.segs(gg, x, depth + 1))
                return out
        key = self.loopkey(self.iterkey(t))
        return [(g, 'each', (key,), ((g, ('elem', key)),))]

    def iterkey(self, t):
        while t[0] == 'seq1' or (t[0] == 'slice' and
                                 t[2:] == (NONE, NONE, NONE)):
            t = t[1]
        return t

    def loopkey(self, t):
        t = self.iterkey(t)
        n = 0
        k = t
        while k in self.loops:
            n += 1
            k = ('again', t, n)
        return k

    def for_loop(self, it, bind, run, bodynodes, target, orelse=(),
                 plan=None):
        fr = self.stack[-1]
        b = self.b
        start = self.live
        segs = plan if plan is not None else self.segments(it)
        brk_total = FALSE
        after_none = FALSE     # live where no segment ran at all
        self_live = self.live
        names = self.assigned(list(bodynodes) +
                              ([target] if target is not None else []))
        tn = self.assigned([target]) if target is not None else set()
        for g, kind, keys, ev in segs:
            g = b.and_(self.live, g)
            if g == FALSE:
                continue
            rest = b.and_(self.live, b.not_(g))
            if kind == 'one':
                ctl = Ctl()
                fr.loops.append(ctl)
                self.live = g
                bind(self.restrict(ev))
                run()
                fr.loops.pop()
                brk_total = b.or_(brk_total, ctl.brk)
                self.live = b.or_(self.live, ctl.cont, rest)
                continue
            # symbolic loop
            ocond = b.and_(self.live, g)
            env = fr.env
            saved = {n: env.vars[n] for n in names if n in env.vars}
            cnt = self.counters(bodynodes) if len(keys) == 1 else {}
            pre = b.and_(self.live, b.not_(FALSE))
            lead = keys[-1]
            made = {}
            g_in = g
            for n in names - tn:
                if n not in saved:
                    continue
                init = self.restrict(saved[n], g_in)
                if n in cnt and len(init) >= 1 and all(
                        t[0] == 'const' and t[1] == 'int'
                        for gg, t in init):
                    v = []
                    for gg, t in init:
                        i = ('idx', lead)
                        if t != const(0):
                            i = ('bin', 'Add', i, t)
                        v.append((gg, i))
                    env.vars[n] = self.norm(
                        [(b.and_(gg, b.not_(g_in)), t)
                         for gg, t in saved[n]] + v)
                    continue
                lv = ('lv', ('lvkey', lead), n, len(self.lvs))
                first = b.atom(('first', lead))
                self.lvs[lv] = None
                made[n] = lv
                env.vars[n] = self.norm(
                    [(b.and_(gg, b.or_(b.not_(g_in), first)), t)
                     for gg, t in saved[n]] +
                    [(b.and_(g_in, b.not_(first)), lv)])
            oloops = self.loops
            olids = self.lids
            self.nlids += 1
            self.lids = olids + (self.nlids,)
            self.loops = oloops + tuple(keys)
            ctl = Ctl()
            fr.loops.append(ctl)
            self.live = g_in
            brk = None
            nret = len(fr.rets)
            if breaks(bodynodes, names | self.mutated(bodynodes)):
                # a turn which an earlier one did not stop
                self.live = b.and_(g_in, b.atom(
                    ('unbroken', lead, self.nlids)))
                brk = b.index['unbroken', lead, self.nlids]
            bind(self.restrict(ev))
            grown = self.grow(bodynodes, lead)
            run()
            if brk is not None:
                # some turn, the first one of its kind
                fr.rets[nret:] = [(b.restrict(gg, brk, 1), self.norm([
                    (b.restrict(g1, brk, 1), t) for g1, t in v]))
                    for gg, v in fr.rets[nret:]]
                self.live = b.restrict(self.live, brk, 1)
                ctl.cont = b.restrict(ctl.cont, brk, 1)
                ctl.brk = b.restrict(ctl.brk, brk, 1)
                for n in names:
                    if n in env.vars:
                        env.vars[n] = self.norm(
                            [(b.restrict(gg, brk, 1), t)
                             for gg, t in env.vars[n]])
            for x in grown:
                self.growing[x].pop()
                self.shrinking[x].pop()
            fr.loops.pop()
            self.loops = oloops
            self.lids = olids
            end = b.or_(self.live, ctl.cont)
            left = b.and_(g_in, b.not_(b.or_(end, ctl.brk)))
            og = self.outer(g_in, keys)
            E_left = self.quant(keys, b.drop(left, self.outer(g_in, keys))) \
                if left != FALSE else FALSE
            E_brk = self.quant(keys, b.drop(ctl.brk, og)) \
                if ctl.brk != FALSE else FALSE
            # names which the turn that stops the loop has assigned
            always = set()
            if brk is not None and ctl.brk != FALSE:
                for n in names:
                    got = FALSE
                    for gg, t in env.vars.get(n, ()):
                        if (gg, t) not in saved.get(n, ()) and not (
                                t[0] == 'lv' and t[2] == n and
                                t[1][1] == lead):
                            got = b.or_(got, gg)
                    if b.and_(ctl.brk, b.not_(got)) == FALSE:
                        always.add(n)
            # names assigned in the body
            for n in names:
                Vb = env.vars.get(n, ())
                inits = saved.get(n, ())
                iset = set(inits)
                new = []
                asg = FALSE
                for gg, t in Vb:
                    if t[0] == 'lv' and t[2] == n and t[1][1] == lead:
                        self.lvs[t] = self.restrict(Vb, end)
                        continue
                    gi = b.and_(gg, g_in)
                    if gi == FALSE:
                        continue
                    changed = True
                    for ig, itm in inits:
                        if itm == t:
                            # carried from before unless newly assigned
                            f = b.atom(('first', lead))
                            x = b.and_(gi, b.not_(f))
                            vs = b.index.get(('first', lead))
                            if n not in tn and b.and_(
                                    b.restrict(gi, vs, 0)) == FALSE:
                                changed = False
                    if n in cnt and t[0] == 'idx':
                        changed = False
                    if not changed:
                        continue
                    e1 = b.and_(gi, ctl.brk) if brk is not None else FALSE
                    if e1 != FALSE:
                        # the turn which stops the loop is the last one
                        e = b.and_(self.quant(keys, b.drop(e1, og)), og)
                        new.append((b.and_(e, self.turn(e1, keys, t)), t))
                        asg = b.or_(asg, e)
                        gi = b.and_(gi, b.not_(ctl.brk))
                        if gi == FALSE:
                            continue
                    e = self.quant(keys, b.drop(gi, og))
                    e = b.and_(e, og)
                    if e1 != FALSE and n in always:
                        e = b.and_(e, b.not_(E_brk))
                    new.append((e, t))
                    asg = b.or_(asg, e)
                if n in made:
                    self.lvs[made[n]] = self.restrict(Vb, end)
                for l in [t for g0, t in Vb if t[0] == 'lv']:
                    if self.lvs.get(l) is None:
                        self.lvs[l] = self.restrict(Vb, end)
                keep = [(b.and_(gg, b.not_(b.and_(og, asg))), t)
                        for gg, t in inits]
                env.vars[n] = self.norm(keep + new)
            ng = b.and_(og, b.not_(E_left))
            brk_total = b.or_(brk_total, b.and_(ng, E_brk))
            self.live = b.or_(b.and_(ng, b.not_(E_brk)),
                              b.and_(rest, b.not_(og)))
        if orelse:
            self.block(orelse)
        self.live = b.or_(self.live, brk_total)

    def turn(self, g, keys, t):
        """what is true of the turn of a loop which term t is about"""
        b = self.b
        if not any(self.L.has(t, x) for k in keys
                   for x in self.loopatoms(k)):
            return TRUE
        for v in sorted(b.support(g), reverse=True):
            a = b.atoms[v]
            if a[0] in ('first', 'unbroken'):
                g = b.exists_var(g, v)
            elif any(self.L.has(a, ('lvkey', k)) for k in keys):
                return TRUE
        return g

    def outer(self, g, keys):
        """the part of guard g that does not talk about the loop element"""
        b = self.b
        for v in sorted(b.support(g), reverse=True):
            a = b.atoms[v]
            if any(self.depends(a, k) for k in keys):
                g = b.exists_var(g, v)
        return g

    def s_While(self, s):
        # counter idiom:  while i < len(x): ... i += 1
        fr = self.stack[-1]
        b = self.b
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(
                t.left, ast.Name) and isinstance(
                t.comparators[0], ast.Call) and isinstance(
                t.comparators[0].func, ast.Name) and \
                t.comparators[0].func.id == 'len' and \
                t.left.id in self.counters(s.body):
            n = t.left.id
            iv = self.restrict(self.load_name(n, s))
            if len(iv) == 1 and iv[0][1] == const(0):
                it = self.expr(t.comparators[0].args[0])
                plan = []
                for g, x in self.restrict(it):
                    for gg, kd, ks, v in self.segs(g, x):
                        if kd == 'each' and len(ks) == 1:
                            plan.append((gg, kd, ks,
                                         ((gg, ('idx', ks[0])),)))
                        else:
                            plan = None
                            break
                    if plan is None:
                        break
                if plan:
                    self.for_loop(it, lambda v: None,
                                  lambda: self.block(s.body), s.body, None,
                                  s.orelse, plan=plan)
                    return
        key = ('while', fr.env.func.qual, s.lineno)
        n = 0
        while key in self.loops:
            n += 1
            key = ('while', fr.env.func.qual, s.lineno, n)

        def run():
            c = self.cond(s.test)
            out = b.and_(self.live, b.not_(c))
            self.live = b.and_(self.live, c)
            self.block(s.body)
            self.whileout = out
        self.for_loop(None, lambda v: None, run, [s], None, (),
                      plan=[(self.live, 'each', (key,), ())])
        # leaving without break: the test is false
        c = self.cond(s.test)
        infinite = isinstance(s.test, ast.Constant) and s.test.value
        if not infinite:
            brk = [x for x in ast.walk(s) if isinstance(x, ast.Break)]
            if not brk:
                self.live = b.and_(self.live, b.not_(c))
        self.block(s.orelse)

    def s_Match(self, s):
        self.note('match statement', s)
        subj = self.expr(s.subject)
        live = self.live
        out = FALSE
        for i, c in enumerate(s.cases):
            a = self.b.atom(('match', s.lineno, i))
            self.live = self.b.and_(live, a)
            live = self.b.and_(live, self.b.not_(a))
            for x in ast.walk(c.pattern):
                nm = getattr(x, 'name', None)
                if isinstance(nm, str):
                    self.setvar(nm, self.one(('matchvar', s.lineno, nm)))
            self.block(c.body)
            out = self.b.or_(out, self.live)
        self.live = self.b.or_(out, live)

    # ------------------------------------------------------------ expressions
    def expr(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.note('expression %s' % type(e).__name__, e)
            return self.one(('unk', type(e).__name__, e.lineno,
                             e.col_offset))
        ln = self.curline
        if hasattr(e, 'lineno'):
            self.curline = e.lineno
        r = m(e)
        self.curline = ln
        return r

    def e_Constant(self, e):
        return self.one(const(e.value) if e.value is not Ellipsis
                        else ('builtin', 'Ellipsis'))

    def e_Name(self, e):
        return self.load_name(e.id, e)

    def load_name(self, n, e):
        fr = self.stack[-1]
        if n not in fr.globals:
            en = fr.env.find(n)
            if en is not None:
                v = self.restrict(en.vars[n])
                if en is fr.env:
                    cover = FALSE
                    for g, t in v:
                        if t != UNDEF:
                            cover = self.b.or_(cover, g)
                    self.fault('unbound', n, self.b.and_(
                        self.live, self.b.not_(cover)))
                if v:
                    return v
                return self.one(UNDEF)
        s = self.model.resolve(fr.env.module, n)
        if s is None:
            if n == '__class__' and fr.env.cls:
                return self.one(('class', fr.env.cls.qual))
            self.fault('undefined', n, self.live)
            return self.one(('unresolved', n))
        return self.one(self.symval(s))

    def symval(self, s):
        if s[0] == 'modvar':
            e = self.modvar_expr(s)
            if isinstance(e, ast.Constant):
                return const(e.value)
            if isinstance(e, (ast.Tuple,)):
                v = self.modval(s)
                if v is not None:
                    return v
            if isinstance(e, ast.Call):
                v = self.modval(s)
                if v is not None and v[0] == 'tuple':
                    return v
            if isinstance(e, ast.Lambda):
                if s not in self.modcache:
                    m = self.model.modules[s[1]]
                    f = Func(e, m, None, s[1] + '.' + s[2], 'function')
                    self.newid += 1
                    t = ('closure', self.newid)
                    en = Env(f)
                    self.closures[t] = Closure(f, en, [], [])
                    self.modcache[s] = t
                return self.modcache[s] or s
        if s == ('builtin', 'None'):
            return NONE
        return s

    def e_Attribute(self, e):
        return self.load_attr(self.expr(e.value), e.attr)

    def e_Subscript(self, e):
        o = self.expr(e.value)
        k = self.index(e.slice)
        return self.load_item(o, k)

    def index(self, s):
        return self.expr(s)

    def e_Slice(self, e):
        parts = [self.term(self.expr(x)) if x is not None else NONE
                 for x in (e.lower, e.upper, e.step)]
        return self.one(('sl',) + tuple(parts))

    def e_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            t = self.e_List(e)
            return t
        vs = [self.expr(x) for x in e.elts]
        return self.one(('tuple',) + tuple(self.term(v) for v in vs))

    def e_List(self, e, kind='list'):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                items.append((True, self.expr(x.value)))
            else:
                items.append((False, self.expr(x)))
        t = self.new(kind)
        for st, v in items:
            self.put(t, None, v, star=st)
        return self.one(t)

    def e_Set(self, e):
        return self.e_List(e, 'set')

    def e_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                items.append((None, self.expr(v)))
            else:
                kv = self.expr(k)
                items.append((kv, self.expr(v)))
        t = self.new('dict')
        for k, v in items:
            if k is None:
                self.put(t, None, v, star=True)
            else:
                self.put(t, self.term(k), v)
        return self.one(t)

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                t = self.term(self.expr(x.value))
                if x.conversion in (ord('r'), ord('a')):
                    t = ('call', ('builtin', 'repr' if x.conversion == ord(
                        'r') else 'ascii'), (t,), ())
                if x.format_spec is not None:
                    t = ('fmtspec', t, const(ast.dump(x.format_spec)))
                parts.append(t)
            else:
                parts.append(const(x.value))
        if all(p[0] == 'const' and p[1] == 'str' for p in parts):
            return self.one(const(''.join(p[2] for p in parts)))
        return self.one(('fmt',) + tuple(parts))

    def e_Starred(self, e):
        return self.expr(e.value)

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Await(self, e):
        return self.expr(e.value)

    def e_BoolOp(self, e):
        live0 = self.live
        isand = isinstance(e.op, ast.And)
        out = []
        lost = FALSE
        for i, x in enumerate(e.values):
            before = self.live
            v = self.expr(x)
            lost = self.b.or_(lost, self.b.and_(
                before, self.b.not_(self.live)))
            if i == len(e.values) - 1:
                out.extend(self.restrict(v))
                break
            stop = []
            go = FALSE
            for g, t in self.restrict(v):
                tr = self.truthy(t)
                keep = self.b.not_(tr) if isand else tr
                gg = self.b.and_(g, keep)
                if gg != FALSE:
                    stop.append((gg, t))
                go = self.b.or_(go, self.b.and_(g, self.b.not_(keep)))
            out.extend(stop)
            self.live = go
            if self.live == FALSE:
                break
        self.live = self.b.and_(live0, self.b.not_(lost))
        return self.norm(out)

    def e_IfExp(self, e):
        c = self.cond(e.test)
        live = self.live
        self.live = self.b.and_(live, c)
        v1 = self.expr(e.body) if self.live != FALSE else ()
        v1 = self.restrict(v1)
        l1 = self.live
        self.live = self.b.and_(live, self.b.not_(c))
        v2 = self.expr(e.orelse) if self.live != FALSE else ()
        v2 = self.restrict(v2)
        self.live = self.b.or_(l1, self.live)
        return self.norm(list(v1) + list(v2))

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return self.boolV(self.b.not_(self.cond(e.operand)))
        v = self.expr(e.operand)

        def f(t):
            if t[0] == 'const' and t[1] in ('int', 'float'):
                if isinstance(e.op, ast.USub):
                    return const(-t[2])
                if isinstance(e.op, ast.UAdd):
                    return t
            return ('un', type(e.op).__name__, t)
        return self.map(v, f)

    def e_BinOp(self, e):
        a = self.expr(e.left)
        b = self.expr(e.right)
        if isinstance(e.op, ast.Mod) and any(
                x[0] == 'const' and x[1] == 'str' for g, x in a):
            self.log('format', value=b)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, A, B, aug=False):
        def f(x):
            def h(y):
                return self.binop1(op, x, y, aug)
            return self.map(B, h)
        if len(A) * len(B) > 12:
            return self.one(('bin', op, self.term(A), self.term(B)))
        return self.map(A, f)

    DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'BitOr': '__or__',
              'BitAnd': '__and__', 'Mult': '__mul__', 'Mod': '__mod__'}

    def binop1(self, op, x, y, aug=False):
        if x[0] == 'const' and y[0] == 'const':
            try:
                if op == 'Add' and x[1] == y[1]:
                    return const(x[2] + y[2])
                if op == 'Sub':
                    return const(x[2] - y[2])
                if op == 'Mod' and x[1] == 'str':
                    return const(x[2] % y[2])
            except Exception:
                pass
        if op == 'Add' and x[0] == 'tuple' and y[0] == 'tuple':
            return x + y[1:]
        if op == 'Mod' and x[0] == 'const' and x[1] == 'str':
            return ('fmt', x) + (y[1:] if y[0] == 'tuple' else (y,))
        c = self.class_of(x)
        d = self.DUNDER.get(op)
        if c and d:
            o, a = self.model.classes[c].lookup(d)
            if isinstance(a, Func):
                if a.qual in self.boundary or self.onstack(a):
                    r = ('bin', op, x, self.pathval(y))
                    if d == '__add__':
                        self.types.setdefault(r, c)
                    self.log('call', callee=('bound', x, a.qual),
                             args=[self.one(y)], kws={}, result=r)
                    return r
                return self.inline(a, [self.one(x), self.one(y)], {}, None,
                                   None)
        if op in ('Add', 'BitOr') and (x in self.conts or y in self.conts) \
                and (x in self.conts or x[0] in ('tuple',) or
                     self.conts[y].kind in ('list', 'dict', 'set')):
            kind = self.conts[x].kind if x in self.conts else \
                self.conts[y].kind
            if kind != 'gen' and not (aug and x in self.conts):
                t = self.new(kind)
                for p in (x, y):
                    self.put(t, None, self.one(p), star=True)
                return t
            if aug:
                return x
        return ('bin', op, x, y)

    def pathval(self, y):
        """a fresh list display as an immutable tuple (for path terms)"""
        it = self.exact_items(y) if y[0] == 'new' else None
        if it is not None:
            return ('tuple',) + tuple(self.term(v) for v in it)
        return y

    def e_Compare(self, e):
        live0 = self.live
        left = self.expr(e.left)
        acc = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r)
            c = self.compare(op, left, right)
            acc = self.b.and_(acc, c)
            left = right
        return self.boolV(acc)

    def compare(self, op, A, B):
        r = FALSE
        b = self.b
        live = self.live
        after = FALSE
        RA, RB = self.restrict(A), self.restrict(B)
        for g1, x in RA:
            for g2, y in RB:
                g = b.and_(g1, g2)
                if g == FALSE:
                    continue
                self.live = g
                c = self.cmp1(op, x, y)
                after = b.or_(after, self.live)
                r = b.or_(r, b.and_(g, c))
        self.live = b.and_(live, after)
        return r

    def cmp1(self, op, x, y):
        L, b = self.L, self.b
        n = type(op).__name__
        if n == 'Is':
            return L.is_(self.canon(x), self.canon(y))
        if n == 'IsNot':
            return b.not_(L.is_(self.canon(x), self.canon(y)))
        if n in ('Eq', 'NotEq'):
            c = self.class_of(x)
            r = None
            if c:
                o, a = self.model.classes[c].lookup('__eq__')
                if isinstance(a, Func) and a.qual not in self.boundary and \
                        not self.onstack(a) and x != y:
                    r = self.truth(self.inline(
                        a, [self.one(x), self.one(y)], {}, None, None))
            if r is None:
                r = self.eq(x, y)
            return r if n == 'Eq' else b.not_(r)
        if n == 'In':
            return self.contains(x, y)
        if n == 'NotIn':
            return b.not_(self.contains(x, y))
        if n == 'Lt':
            return L.lt(x, y)
        if n == 'Gt':
            return L.lt(y, x)
        if n == 'LtE':
            return b.not_(L.lt(y, x))
        if n == 'GtE':
            return b.not_(L.lt(x, y))
        return b.atom(('cmp', n, x, y))

    def canon(self, t):
        return t

    def eq(self, x, y):
        for p, q in ((x, y), (y, x)):
            # comparison with an empty fresh literal list/dict/tuple
            if p[0] == 'new' and p in self.conts and \
                    not self.conts[p].entries and \
                    self.conts[p].kind in ('list', 'dict'):
                return self.b.atom(('eq', ('empty', self.conts[p].kind), q))
            if p[0] == 'new' and p in self.conts and \
                    self.conts[p].kind == 'list':
                it = self.exact_items(p)
                if it is not None:
                    p2 = ('tuple!list',) + tuple(self.term(v) for v in it)
                    if q[0] == 'new' and q in self.conts:
                        continue
                    return self.b.atom(('eq', p2, q))
        return self.L.eq(x, y)

    def isset(self, t):
        return t in self.conts and self.conts[t].kind == 'set' or \
            t[0] in ('keys',) or t[0] == 'call' and t[1] in (
                ('builtin', 'set'), ('builtin', 'frozenset')) or \
            t[0] == 'bin' and t[1] in ('Sub', 'BitAnd', 'BitOr') and \
            self.isset(t[2]) and self.isset(t[3])

    def contains(self, k, c):
        b = self.b
        if c[0] == 'phi':
            return b.or_(*[b.and_(g, self.contains(k, z)) for g, z in c[1]])
        c = self.iterkey(c)
        if c[0] == 'keys':
            c = c[1]
        h = self.hasfact.get((c, k))
        if h is not None:
            yes, no = h
            base = self.contains0(k, c)
            return b.or_(yes, b.and_(b.not_(no), base))
        return self.contains0(k, c)

    def contains0(self, k, c):
        b = self.b
        if c[0] == 'bin' and self.isset(c) and c not in self.tampered:
            x, y = self.contains(k, c[2]), self.contains(k, c[3])
            return b.or_(x, y) if c[1] == 'BitOr' else b.and_(
                x, y if c[1] == 'BitAnd' else b.not_(y))
        vals = c[0] == 'values' and c[1] in self.conts and \
            self.conts[c[1]].kind == 'dict' and not any(
                e.star for e in self.conts[c[1]].entries)
        if vals:
            c = c[1]
        if c[0] == 'new' and c in self.conts:
            cc = self.conts[c]
            r = FALSE
            for e in cc.entries:
                if e.star:
                    for g, x in e.val:
                        r = b.or_(r, b.and_(e.guard, g,
                                            self.contains(k, x)))
                    continue
                q = FALSE
                if cc.kind == 'dict' and not vals:
                    q = b.and_(e.guard, self.L.eq(k, e.key or UNDEF))
                else:
                    for g, x in e.val:
                        q = b.or_(q, b.and_(e.guard, g, self.L.eq(k, x)))
                r = b.or_(r, self.quant(e.loops[len(cc.loops):], q))
            if vals:
                # an entry may have been replaced
                return b.and_(r, b.atom(('in', k, c))) if cc.removed else r
            gone = [x for x in self.shrinking.get(c, ()) if x is not None]
            if cc.removed:
                r = b.and_(r, b.atom(('in', k, c)))
            elif gone:
                r = b.and_(r, b.or_(b.and_(*[
                    b.atom(('first', x)) for x in gone]),
                    b.atom(('in', k, c))))
            return b.or_(r, self.earlier(c, ('in', k, c)))
        if c[0] == 'modvar':
            v = self.modval(c)
            if v is not None and v[0] == 'tuple':
                return self.L.in_(k, v)
        cl = self.class_of(c)
        if cl:
            o, a = self.model.classes[cl].lookup('__contains__')
            if isinstance(a, Func) and a.qual not in self.boundary and \
                    not self.onstack(a):
                return self.truth(self.inline(
                    a, [self.one(c), self.one(k)], {}, None, None))
        return self.L.in_(k, c)

    def e_Lambda(self, e):
        env = self.stack[-1].env
        f = Func(e, env.module, env.cls, env.func.qual + '.<lambda:%d>' %
                 e.lineno, 'function', outer=env.func)
        return self.closure(f, e.args)

    def e_Yield(self, e):
        v = self.expr(e.value) if e.value is not None else self.one(NONE)
        fr = self.stack[-1]
        self.log('yield', value=self.restrict(v),
                 top=len(self.stack) == 1)
        if fr.gen:
            self.put(fr.gen, None, self.restrict(v))
        return self.one(('sent', e.lineno))

    def e_YieldFrom(self, e):
        v = self.expr(e.value)
        fr = self.stack[-1]
        self.log('yieldfrom', value=self.restrict(v),
                 top=len(self.stack) == 1)
        if fr.gen:
            self.put(fr.gen, None, self.restrict(v), star=True)
        return self.one(NONE)

    def comp(self, e, kind):
        fr = self.stack[-1]
        # the first iterable is evaluated eagerly
        t = self.new(kind)
        saved = dict(fr.env.vars)
        scope = set()
        for g in e.generators:
            scope |= self.assigned([g.target])

        def gen(i):
            if i == len(e.generators):
                if kind == 'dict':
                    k = self.expr(e.key)
                    v = self.expr(e.value)
                    for g, kt in self.restrict(k):
                        sv = self.live
                        self.live = self.b.and_(sv, g)
                        self.put(t, kt, self.restrict(v))
                        self.live = sv
                else:
                    v = self.expr(e.elt)
                    self.put(t, None, self.restrict(v))
                return
            g = e.generators[i]
            it = self.expr(g.iter)

            def run():
                for c in g.ifs:
                    x = self.cond(c)
                    # filtered-out iterations simply continue
                    fr.loops[-1].cont = self.b.or_(
                        fr.loops[-1].cont,
                        self.b.and_(self.live, self.b.not_(x)))
                    self.live = self.b.and_(self.live, x)
                if self.live != FALSE:
                    gen(i + 1)
            self.for_loop(it, lambda v: self.assign(g.target, v, e), run,
                          [], g.target)
        gen(0)
        for n in scope:
            if n in saved:
                fr.env.vars[n] = saved[n]
            else:
                fr.env.vars.pop(n, None)
        return self.one(t)

    def e_ListComp(self, e):
        return self.comp(e, 'list')

    def e_SetComp(self, e):
        return self.comp(e, 'set')

    def e_GeneratorExp(self, e):
        return self.comp(e, 'gen')

    def e_DictComp(self, e):
        return self.comp(e, 'dict')

    # ------------------------------------------------------- attribute access
    def load_attr(self, V, name):
        return self.map(V, lambda t: self.attr1(t, name))

    def attr1(self, t, name):
        k = t[0]
        m = self.model
        if k == 'module':
            s = m.member(t, name)
            if s is None or s[0] == 'missing':
                return ('missing', t[1] + '.' + name)
            return self.symval(s)
        if k == 'ext':
            return ('ext', t[1] + '.' + name)
        if k == 'phi':
            return self.map(t[1], lambda x: self.attr1(x, name))
        if name in m.class_aliases() and k in ('class', 'typeof', 'attr',
                                               'param'):
            return m.class_aliases()[name]
        if k == 'class':
            return self.class_attr(m.classes[t[1]], t, name, exact=True)
        if k == 'typeof':
            if (t, name) in self.heap:
                return self.heap_get((t, name), ('attr', t, name))
            c = self.class_of(t[1])
            if c:
                return self.class_attr(m.classes[c], t, name, exact=False)
            if name == '__name__':
                return ('attr', t, name)
            return ('attr', t, name)
        if k == 'super':
            return self.super_attr(t, name)
        if name == '__class__':
            return ('typeof', t)
        c = self.class_of(t)
        if name == '__dict__':
            return ('attr', t, '__dict__')
        if c:
            hk = (t, name)
            o, a = m.classes[c].lookup(name)
            if isinstance(a, Func) and hk not in self.heap:
                if a.kind == 'property':
                    if a.qual in self.boundary or self.onstack(a):
                        return ('attr', t, name)
                    return self.inline(a, [self.one(t)], {}, None, None)
                if a.kind == 'classproperty':
                    return ('attr', ('typeof', t), name)
                if a.kind == 'classmethod':
                    return ('bound', self.typeof(t), a.qual)
                if a.kind == 'staticmethod':
                    return ('func', a.qual)
                return ('bound', t, a.qual)
            if (a is not None or name in self.classattrs) and \
                    hk not in self.heap and \
                    m.classes[c].metaclass is not None or \
                    (a is not None and hk not in self.heap):
                if self.is_descriptor(m.classes[c], a):
                    return ('attr', t, name)
                if self.instance_assigned(m.classes[c], name):
                    return ('attr', t, name)
                if isinstance(a, tuple) and a[0] == 'class':
                    return a
                return ('attr', self.typeof(t), name)
            if a is None and hk not in self.heap and \
                    not (t[0] == 'new' and t in self.conts):
                return self.heap_get(hk, ('attr', t, name))
        if k == 'new' and t in self.conts:
            return ('attr', t, name)
        if (t, name) in self.heap:
            return self.heap_get((t, name), ('attr', t, name))
        h = self.L.hasattr(t, const(name))
        if self.handlers or 'AttributeError' in self.escapes:
            if k not in ('const', 'new') and t[0] != 'tuple':
                self.may_raise('attr', ('attr', t, name),
                               {'AttributeError': self.b.not_(h)})
        r = ('attr', t, name)
        if self.live == FALSE:
            return ()
        return r

    def instance_assigned(self, c, name):
        """is self.<name> stored by a method of the class (instance state)"""
        key = ('ia', c.qual, name)
        if key not in self.modcache:
            r = False
            for k in c.mro:
                if not isinstance(k, Class):
                    continue
                for f in k.attrs.values():
                    if isinstance(f, Func) and f.kind in (
                            'method', 'setter', 'property'):
                        ps = f.node.args.args
                        if not ps:
                            continue
                        for n in ast.walk(f.node):
                            if isinstance(n, ast.Attribute) and \
                                    isinstance(n.ctx, ast.Store) and \
                                    n.attr == name and isinstance(
                                        n.value, ast.Name) and \
                                    n.value.id == ps[0].arg:
                                r = True
            self.modcache[key] = r
        return self.modcache[key]

    def is_descriptor(self, c, a):
        """class attribute initialised with a descriptor (a Property)"""
        if isinstance(a, ast.Call):
            s = self.model.static(c.module, a.func)
            if s and s[0] == 'class':
                k = self.model.classes[s[1]]
                return k.lookup('__get__')[1] is not None
        return False

    def typeof(self, t):
        if t[0] == 'new' and t[2] in self.model.classes:
            return ('class', t[2])
        if t[0] == 'const':
            return ('builtin', t[1])
        return ('typeof', t)

    def class_attr(self, c, t, name, exact):
        if name == '__name__' and exact:
            return const(c.name)
        if (t, name) in self.heap:
            return self.heap_get((t, name), ('attr', t, name))
        o, a = c.lookup(name)
        if isinstance(a, Func):
            if a.kind == 'classmethod':
                return ('bound', t, a.qual)
            if a.kind == 'classproperty':
                if exact and a.qual not in self.boundary and \
                        not self.onstack(a):
                    return self.inline(a, [self.one(t)], {}, None, None)
                return ('attr', t, name)
            if a.kind == 'property':
                return ('attr', t, name)
            return ('func', a.qual)
        if isinstance(a, tuple) and a[0] == 'class':
            return a
        if a is not None and exact:
            v = self.static_value(o.module, a)
            if v is not None:
                return v
        if a is None and c.metaclass is not None:
            o2, a2 = c.metaclass.lookup(name)
            if isinstance(a2, Func):
                return ('bound', t, a2.qual)
        return ('attr', t, name)

    def super_attr(self, t, name):
        """t = ('super', after class qual, self term, start class qual)"""
        _, after, selft, startq = t
        mro = self.model.classes[startq].mro
        ac = self.model.classes.get(after)
        if ac not in mro:
            return ('badsuper', after, startq, name)
        for c in mro[mro.index(ac) + 1:]:
            if isinstance(c, Class) and name in c.attrs:
                a = c.attrs[name]
                if isinstance(a, Func):
                    if a.kind == 'property':
                        return self.inline(a, [self.one(selft)], {}, None,
                                           None)
                    if a.kind == 'classmethod':
                        st = selft
                        if st[0] not in ('class', 'typeof'):
                            st = self.typeof(st)
                        return ('bound', st, a.qual)
                    if a.kind == 'staticmethod':
                        return ('func', a.qual)
                    return ('bound', selft, a.qual)
                return ('attr', self.typeof(selft), name)
            if not isinstance(c, Class):
                k = getattr(builtins, c[1], None)
                if k is not None and hasattr(k, name):
                    return ('attr', ('superobj', c[1], selft), name)
        return ('attr', ('superobj', 'object', selft), name)

    def heap_get(self, hk, dflt):
        v = self.heap.get(hk)
        if v is None:
            return dflt
        out = list(self.restrict(v))
        cov = FALSE
        for g, t in v:
            cov = self.b.or_(cov, g)
        out.append((self.b.and_(self.live, self.b.not_(cov)), dflt))
        return self.norm(out)

    def heap_put(self, hk, V):
        old = self.heap.get(hk, ())
        ng = self.b.not_(self.live)
        self.heap[hk] = self.norm(
            [(self.b.and_(g, ng), t) for g, t in old] +
            list(self.restrict(V)))

    def store_attr(self, O, name, V):
        V = self.restrict(V)

        def f(t):
            c = self.class_of(t)
            if c:
                s = None
                for k in self.model.classes[c].mro:
                    if isinstance(k, Class) and name in k.setters:
                        s = k.setters[name]
                        break
                if s is not None and not self.onstack(s):
                    self.inline(s, [self.one(t), self.restrict(V)], {},
                                None, None)
                    return NONE
                o, a = self.model.classes[c].lookup('__setattr__')
                if isinstance(a, Func) and not self.onstack(a) and \
                        a.qual not in self.boundary:
                    self.inline(a, [self.one(t), self.one(const(name)),
                                    self.restrict(V)], {}, None, None)
                    return NONE
            self.log('store', target=t, attr=name, value=self.restrict(V))
            self.heap_put((t, name), V)
            return NONE
        live = self.live
        self.map(O, f)
        self.live = live

    def delete_attr(self, O, name):
        def f(t):
            self.log('delattr', target=t, attr=const(name))
            return NONE
        live = self.live
        self.map(O, f)
        self.live = live

    # ------------------------------------------------------------ item access
    def load_item(self, O, K):
        def f(t):
            def h(k):
                return self.item1(t, k)
            return self.map(K, h)
        return self.map(O, f)

    def is_slice(self, k):
        return k[0] == 'sl'

    def item1(self, t, k):
        b = self.b
        if t[0] == 'phi':
            return self.map(t[1], lambda x: self.item1(x, k))
        if k[0] == 'phi':
            return self.map(k[1], lambda x: self.item1(t, x))
        if self.is_slice(k):
            items = self.exact_items(t)
            if items is not None and all(
                    x == NONE or x[0] == 'const' for x in k[1:]):
                sl = slice(*[x[2] for x in k[1:]])
                if t[0] == 'tuple':
                    return ('tuple',) + t[1:][sl]
                r = self.new('list')
                for v in items[sl]:
                    self.put(r, None, v)
                return r
            c = self.class_of(t)
            if c:
                o, a = self.model.classes[c].lookup('__getitem__')
                if isinstance(a, Func) and a.qual not in self.boundary and \
                        not self.onstack(a):
                    return self.inline(a, [self.one(t), self.one(k)], {},
                                       None, None)
            if t[0] == 'const' and all(x[0] == 'const' for x in k[1:]):
                try:
                    return const(t[2][slice(*[x[2] for x in k[1:]])])
                except Exception:
                    pass
            if k[1:] == (NONE, NONE, NONE):
                r = self.new('list')
                self.put(r, None, self.one(t), star=True)
                return r
            r = ('slice', t) + k[1:]
            if c:
                self.types.setdefault(r, c)
            return r
        items = self.exact_items(t)
        if items is not None and k[0] == 'const' and k[1] == 'int':
            if -len(items) <= k[2] < len(items):
                return items[k[2]]
        if t[0] == 'const' and k[0] == 'const':
            try:
                return const(t[2][k[2]])
            except Exception:
                pass
        if k[0] == 'idx' and k[1] == self.iterkey(t):
            return ('elem', k[1])
        if t[0] == 'new' and t in self.conts:
            return self.cont_item(t, k)
        c = self.class_of(t)
        if c:
            o, a = self.model.classes[c].lookup('__getitem__')
            if isinstance(a, Func):
                if a.qual not in self.boundary and not self.onstack(a):
                    return self.inline(a, [self.one(t), self.one(k)], {},
                                       None, None)
                self.log('call', callee=('bound', t, a.qual),
                         args=[self.one(k)], kws={}, result=('item', t, k))
                return ('item', t, k)
        hk = (t, '[]', k)
        if hk in self.heap and any(
                x != ('item', t, k)
                for g, x in self.restrict(self.heap[hk])):
            return self.heap_get(hk, ('item', t, k))
        if t[0] in ('typeof', 'class', 'builtin', 'ext'):
            return ('item', t, k)
        if k != ('elem', t):
            inn = self.contains(k, t)
            self.may_raise('item', ('item', t, k), {
                'KeyError': b.not_(inn),
                'IndexError': b.not_(b.or_(
                    b.atom(('inrange', t, k)),
                    b.atom(('isinst', t, ('builtin', 'dict'))) if False
                    else FALSE))})
        if self.live == FALSE:
            return ()
        return ('item', t, k)

    def cont_item(self, t, k):
        c = self.conts[t]
        b = self.b
        out = []
        cov = FALSE
        hk = (t, '[]', k)
        if c.kind == 'dict':
            unknown = False
            for e in reversed(c.entries):
                if e.star:
                    for g, x in e.val:
                        if x in self.conts and x != t:
                            for g2, y in self.norm(
                                    self.as_V(self.cont_item(x, k))):
                                out.append((b.and_(self.live, g, g2), y))
                        else:
                            out.append((b.and_(
                                self.live, g, b.not_(cov)),
                                ('item', x, k)))
                            cov = b.or_(cov, b.and_(
                                e.guard, self.L.in_(k, x)))
                    continue
                if e.key == k:
                    gg = b.and_(self.live, e.guard, b.not_(cov))
                    out.extend(self.restrict(e.val, gg))
                    if e.loops == self.loops[:len(e.loops)]:
                        cov = b.or_(cov, gg)
                elif e.key is not None and (
                        (e.key[0] == 'const' and k[0] == 'const')):
                    continue
                else:
                    unknown = True
            rest = b.and_(self.live, b.not_(cov))
            if rest != FALSE:
                if self.handlers:
                    sv = self.live
                    if not unknown and not any(
                            e.star for e in c.entries):
                        self.may_raise('item', ('item', t, k), {
                            'KeyError': b.not_(self.contains(k, t))})
                    else:
                        self.may_raise('item', ('item', t, k), {
                            'KeyError': b.not_(b.atom(('in', k, t)))})
                    rest = b.and_(rest, self.live)
                if unknown:
                    out.append((rest, ('item', t, k)))
            if not out:
                return ('item', t, k)
            return self.norm(out)
        return ('item', t, k)

    def as_V(self, r):
        if isinstance(r, tuple) and r and isinstance(r[0], str):
            return self.one(r)
        return r

    def store_item(self, O, K, V):
        V = self.restrict(V)

        def f(t):
            def h(k):
                return self.setitem1(t, k, self.restrict(V))
            return self.map(K, h)
        live = self.live
        cov = self.b.or_(*[g for g, t in O]) if O else FALSE
        self.map(O, f)
        self.live = self.b.or_(self.live, self.b.and_(
            live, self.b.not_(cov)))

    def setitem1(self, t, k, V):
        c = self.class_of(t)
        if c:
            o, a = self.model.classes[c].lookup('__setitem__')
            if isinstance(a, Func) and a.qual not in self.boundary and \
                    not self.onstack(a):
                self.inline(a, [self.one(t), self.one(k), V], {}, None, None)
                return NONE
        if t not in self.conts and not self.is_slice(k) and t[0] in (
                'param', 'lv', 'elem', 'item', 'attr', 'dattr'):
            self.may_raise('item', ('setitem', t, k), {
                'IndexError': self.b.atom(('setfails', t, k))})
            V = self.restrict(V)
        self.log('setitem', target=t, key=k, value=V)
        if t[0] == 'attr' and t[2] == '__dict__' and k[0] == 'const' and \
                self.class_of(t[1]):
            a = self.model.classes[self.class_of(t[1])].lookup(k[2])[1]
            if a is None:
                self.heap_put((t[1], k[2]), V)
        if t in self.conts:
            if self.is_slice(k):
                self.put(t, None, V, star=True)
            else:
                self.put(t, k, V)
            if self.conts[t].kind != 'list':
                return NONE
        self.has_item(t, k, V)
        return NONE

    def has_item(self, t, k, V):
        self.heap_put((t, '[]', k), V)
        y, n = self.hasfact.get((t, k), (FALSE, FALSE))
        self.hasfact[(t, k)] = (self.b.or_(y, self.live),
                                self.b.and_(n, self.b.not_(self.live)))

    def delete_item(self, O, K):
        def f(t):
            def h(k):
                c = self.class_of(t)
                if c:
                    o, a = self.model.classes[c].lookup('__delitem__')
                    if isinstance(a, Func) and a.qual not in self.boundary \
                            and not self.onstack(a):
                        self.inline(a, [self.one(t), self.one(k)], {}, None,
                                    None)
                        return NONE
                b = self.b
                inn = self.contains(k, t)
                self.may_raise('item', ('delitem', t, k), {
                    'KeyError': b.not_(inn),
                    'IndexError': b.not_(b.atom(('inrange', t, k)))})
                self.log('delitem', target=t, key=k)
                if t in self.conts:
                    self.conts[t].removed = True
                y, n = self.hasfact.get((t, k), (FALSE, FALSE))
                self.hasfact[(t, k)] = (
                    b.and_(y, b.not_(self.live)), b.or_(n, self.live))
                return NONE
            return self.map(K, h)
        live = self.live
        self.map(O, f)
        # the caught part of a failing deletion must not fall through
        return

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        fn = e.func
        # zero-argument and two-argument super
        if isinstance(fn, ast.Name) and fn.id == 'super' and \
                self.stack[-1].env.find('super') is None:
            return self.super_call(e)
        F = self.expr(fn)
        args, star, kws, starkw = [], [], {}, []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value)
                done = False
                if len(v) == 1:
                    it = self.exact_items(v[0][1])
                    if it is not None and not star:
                        args.extend(it)
                        done = True
                if not done:
                    star.append(v)
            else:
                v = self.expr(a)
                if star:
                    star.append(self.one(('tuple', self.term(v))))
                else:
                    args.append(v)
        for k in e.keywords:
            v = self.expr(k.value)
            if k.arg is None:
                starkw.append(v)
            else:
                kws[k.arg] = v
        self.curline = e.lineno
        # exact ** expansion
        sk = []
        maybe = []
        for v in starkw:
            v = self.restrict(v)
            if len(v) == 1 and v[0][1] in self.conts:
                c = self.conts[v[0][1]]
                if c.kind == 'dict' and all(
                        not x.star and x.key is not None and
                        x.key[0] == 'const' and x.loops == c.loops
                        for x in c.entries):
                    opt = [x for x in c.entries if self.b.and_(
                        self.live, self.b.not_(x.guard)) != FALSE]
                    if len(opt) <= 2:
                        for x in c.entries:
                            if x in opt:
                                maybe.append(x)
                            elif not opt or x.key[2] not in [
                                    y.key[2] for y in opt]:
                                kws[x.key[2]] = x.val
                            else:
                                maybe.append(x)
                        continue
            sk.append(v)

        def make(t, kws):
            return self.call1(
                t, [self.restrict(a) for a in args],
                {k: self.restrict(v) for k, v in kws.items()},
                [self.restrict(s) for s in star],
                [self.restrict(s) for s in sk], e)

        def each(t, i, kws):
            # with and without the keywords a dictionary may have
            while i < len(maybe) and self.b.and_(
                    self.live, self.b.not_(maybe[i].guard)) == FALSE:
                kws = dict(kws, **{maybe[i].key[2]: maybe[i].val})
                i += 1
            if i == len(maybe) or self.live == FALSE:
                return make(t, kws)
            live, x = self.live, maybe[i]
            out = []
            after = FALSE
            for g, kk in (
                    (x.guard, dict(kws, **{x.key[2]: x.val})),
                    (self.b.not_(x.guard), kws)):
                self.live = self.b.and_(live, g)
                if self.live == FALSE:
                    continue
                r = each(t, i + 1, kk)
                if isinstance(r, tuple) and r and isinstance(r[0], str):
                    r = self.one(r)
                out.extend((self.b.and_(self.live, gg), tt)
                           for gg, tt in r)
                after = self.b.or_(after, self.live)
            self.live = after
            return self.norm(out)
        return self.map(F, lambda t: each(t, 0, kws))

    def super_call(self, e):
        fr = self.stack[-1]
        env = fr.env
        # zero-arg super inside nested function: find method env
        if len(e.args) == 2:
            C = self.term(self.expr(e.args[0]))
            S = self.term(self.expr(e.args[1]))
        elif not e.args:
            m = env
            while m is not None and m.selfv is None:
                m = m.parent
            if m is None or m.cls is None:
                return self.one(('unk', 'super', e.lineno, 0))
            C = ('class', m.cls.qual)
            ps = m.func.node.args
            first = (ps.posonlyargs + ps.args)[0].arg
            S = self.term(self.restrict(m.vars[first]))
        else:
            return self.one(('unk', 'super', e.lineno, 0))
        if C[0] != 'class':
            return self.one(('super?', C, S))
        q = None
        if S[0] == 'class':
            q = S[1]
        elif S[0] == 'typeof':
            q = self.class_of(S[1])
        else:
            q = self.class_of(S)
        if q is None:
            q = C[1]
            if S != ('param', 'self'):
                return self.one(('badsuper', C[1], S))
        self.log('super', cls=C, obj=S, start=q)
        return self.one(('super', C[1], S, q))

    def onstack(self, f):
        return any(fr.env.func.qual == f.qual for fr in self.stack)

    def call1(self, t, args, kws, star, starkw, node):
        k = t[0]
        m = self.model
        if self.live == FALSE:
            return ()
        if k == 'phi':
            return self.map(t[1], lambda x: self.call1(
                x, args, kws, star, starkw, node))
        if k == 'closure':
            c = self.closures[t]
            if self.onstack(c.func):
                return self.opaque(t, args, kws, star, starkw)
            self.arity(c.func, args, kws, star, starkw)
            return self.inline(c.func, args, kws, star, starkw, closure=c)
        if k == 'func':
            f = m.funcs.get(t[1])
            if f is None:
                return self.opaque(t, args, kws, star, starkw)
            return self.invoke(f, t, args, kws, star, starkw)
        if k == 'bound':
            f = m.funcs[t[2]]
            if f.kind in ('method', 'classmethod', 'property'):
                return self.invoke(f, t, [self.one(t[1])] + args, kws, star,
                                   starkw)
            return self.invoke(f, t, args, kws, star, starkw)
        if k == 'class':
            return self.construct(t, args, kws, star, starkw)
        if k == 'builtin':
            r = self.builtin(t[1], args, kws, star, starkw, node)
            if r is not None:
                return r
            kk = getattr(builtins, t[1], None)
            if isinstance(kk, type) and issubclass(kk, BaseException):
                return self.construct(t, args, kws, star, starkw)
            return self.opaque(t, args, kws, star, starkw)
        if k == 'ext':
            r = self.ext_call(t, args, kws, star, starkw)
            if r is not None:
                return r
            return self.opaque(t, args, kws, star, starkw)
        if k == 'attr':
            r = self.method(t[1], t[2], args, kws, star, starkw, node)
            if r is not None:
                return r
            return self.opaque(t, args, kws, star, starkw)
        if k == 'typeof':
            r = self.new_obj(t, args, kws, star, starkw)
            return r
        if k == 'partial':
            return self.call1(t[1], [self.one(x) for x in t[2]] + args,
                              dict([(n, self.one(v)) for n, v in t[3]],
                                   **kws), star, starkw, node)
        if k == 'getter':
            if args:
                if t[1] == 'attr':
                    return self.load_attr(args[0], t[2])
                return self.load_item(args[0], self.one(t[2]))
        return self.opaque(t, args, kws, star, starkw)

    def invoke(self, f, t, args, kws, star, starkw):
        self.arity(f, args, kws, star, starkw)
        if f.qual in self.boundary or self.onstack(f) or \
                len(self.stack) > self.MAXDEPTH or \
                f.module.name in self.opaque_mods:
            args, kws = self.positional(f, args, kws, star, starkw)
            if k_is_bound(t):
                return self.opaque(t, args[1:] if f.kind in (
                    'method', 'classmethod') else args, kws, star, starkw,
                    f)
            return self.opaque(t, args, kws, star, starkw, f)
        return self.inline(f, args, kws, star, starkw, callee=t)

    @staticmethod
    def positional(f, args, kws, star, starkw):
        """arguments given by name, at their places"""
        if star or not kws:
            return args, kws
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        args, kws = list(args), dict(kws)
        for n in names[len(args):]:
            if n not in kws:
                break
            args.append(kws.pop(n))
        return args, kws

    def arity(self, f, args, kws, star, starkw):
        """does the function take these arguments?"""
        if isinstance(f.node, ast.Lambda):
            deco = []
        else:
            deco = f.node.decorator_list
        for d in deco:
            if not (isinstance(d, ast.Name) and d.id in (
                    'staticmethod', 'classmethod', 'property')):
                return
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        byname = [x.arg for x in a.args + a.kwonlyargs]
        given = set(names[:len(args)])
        if len(args) > len(names) and a.vararg is None:
            self.fault('many', f.qual, self.live)
        for n in kws:
            if n in given and not star:
                self.fault('twice', '%s of %s' % (n, f.qual), self.live)
            elif n not in byname and a.kwarg is None:
                self.fault('unknown', '%s of %s' % (n, f.qual), self.live)
        if star or starkw:
            return
        need = names[:len(names) - len(a.defaults)] + [
            x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        for n in need:
            if n not in given and n not in kws:
                self.fault('missing', '%s of %s' % (n, f.qual), self.live)

    def opaque(self, t, args, kws, star, starkw, f=None):
        """unresolved / boundary call: a value-numbered result term"""
        combos = [((), self.live)]
        n = 1
        for a in args:
            n *= max(1, len(a))
        kwn = sorted(kws)
        for x in kwn:
            n *= max(1, len(kws[x]))
        extra = tuple(('star', self.term(s)) for s in star)
        extrakw = tuple(('**', self.term(s)) for s in starkw)
        vals = list(args) + [kws[x] for x in kwn]
        if n <= 8:
            for v in vals:
                nc = []
                for pre, g in combos:
                    for gg, x in v:
                        h = self.b.and_(g, gg)
                        if h != FALSE:
                            nc.append((pre + (x,), h))
                combos = nc
        else:
            combos = [(tuple(self.term(v) for v in vals), self.live)]
        out = []
        live0 = self.live
        after = FALSE
        for c, g in combos:
            self.live = g
            pa = tuple(self.pathval(x) for x in c[:len(args)]) + extra
            ka = tuple(zip(kwn, (self.pathval(x) for x in c[len(args):]))) \
                + extrakw
            r = ('call', t, pa, ka)
            self.log('call', callee=t, args=[self.one(x)
                                             for x in c[:len(args)]],
                     kws=dict(zip(kwn, [self.one(x)
                                        for x in c[len(args):]])),
                     star=star, starkw=starkw, result=r,
                     qual=f.qual if f else (
                         t[1] if t[0] in ('func', 'builtin', 'ext') else
                         t[2] if t[0] == 'bound' else None))
            if not (t[0] == 'builtin' and t[1] in NORAISE):
                self.may_raise('call', ('call', t, pa, ka), None)
            if self.live != FALSE:
                out.append((self.live, r))
                after = self.b.or_(after, self.live)
        self.live = after
        return self.norm(out)

    def construct(self, t, args, kws, star, starkw):
        q = t[1] if t[0] == 'class' else '!' + t[1]
        c = self.model.classes.get(q)
        r = self.new(q)
        self.log('construct', cls=t, args=args, kws=kws, star=star,
                 starkw=starkw, result=r)
        if c is not None and not isinstance(c.lookup('__new__')[1], Func) \
                and isinstance(c.lookup('__init__')[1], Func):
            self.arity(c.lookup('__init__')[1], [self.one(r)] + list(args),
                       kws, star, starkw)
        if c is not None and q in self.inline_ctor:
            o, a = c.lookup('__init__')
            if isinstance(a, Func):
                self.inline(a, [self.one(r)] + args, kws, star, starkw)
        elif c is not None:
            isexc = any(self.is_exc(b) for b in c.ext_bases())
            if not isexc:
                self.may_raise('call', ('ctor', t) + tuple(
                    self.term(a) for a in args), None)
        if self.live == FALSE:
            return ()
        return r

    @staticmethod
    def is_exc(n):
        k = getattr(builtins, n, None)
        return isinstance(k, type) and issubclass(k, BaseException)

    def new_obj(self, t, args, kws, star, starkw):
        """construction through type(x)(...) / cls(...)"""
        v = self.opaque(t, args, kws, star, starkw)
        out = []
        for g, r in v:
            sv, self.live = self.live, g
            self.newid += 1
            n = ('newof', self.newid, t, r)
            self.log('construct', cls=t, args=args, kws=kws, star=star,
                     starkw=starkw, result=n)
            c = self.class_of(t[1])
            if c:
                self.types[n] = c
            self.live = sv
            out.append((g, n))
        return self.norm(out)

    def inline(self, f, args, kws, star, starkw, closure=None, callee=None,
               quiet=False):
        """expand a resolved callee at its call site"""
        self.visited.add(f.qual)
        if len(self.stack) > 40:
            return self.opaque(('func', f.qual), args, kws, star or [],
                               starkw or [])
        env = Env(f, closure.env if closure else None)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        rest = []
        for i, v in enumerate(args):
            if i < len(names):
                bound[names[i]] = v
            else:
                rest.append(v)
        star = star or []
        starkw = starkw or []
        if star and not rest:
            # positional arguments of unknown number
            st = self.term(star[0])
            for j, n in enumerate(names[len(args):]):
                if n not in kws and len(names) - len(a.defaults) > \
                        names.index(n):
                    bound[n] = self.one(('item', st, const(j)))
        xkw = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for n, v in kws.items():
            if n in names or n in kwonly:
                bound[n] = v
            else:
                xkw[n] = v
        if closure:
            dv, kd = closure.defaults, closure.kwdefaults
        else:
            dv = [None] * len(a.defaults)
            kd = [None] * len(a.kw_defaults)
        allpos = names
        for i, n in enumerate(allpos):
            if n in bound:
                continue
            j = i - (len(allpos) - len(a.defaults))
            if j >= 0:
                v = dv[j] if closure else self.default_value(
                    f, a.defaults[j])
                if starkw:
                    # may come from an unknown ** mapping
                    st = self.term(starkw[0])
                    inn = self.contains(const(n), st)
                    alts = [(self.b.and_(g, self.b.not_(inn)), x)
                            for g, x in v]
                    alts.extend(self.from_kw(st, n, inn))
                    v = self.norm(alts)
                bound[n] = v
            else:
                if starkw:
                    bound[n] = self.norm(self.from_kw(
                        self.term(starkw[0]), n, TRUE))
                else:
                    bound[n] = self.one(UNDEF)
        for n, d, dd in zip(kwonly, a.kw_defaults, kd or [None] *
                            len(kwonly)):
            if n not in bound:
                bound[n] = dd if dd is not None else (
                    self.default_value(f, d) if d is not None
                    else self.one(UNDEF))
        env.vars.update(bound)
        fr = Frame(env)
        if f.cls is not None and names and f.kind != 'staticmethod' and \
                closure is None:
            env.selfv = self.term(bound[names[0]])
        if a.vararg:
            if star and not rest:
                env.vars[a.vararg.arg] = star[0]
            else:
                env.vars[a.vararg.arg] = self.one(
                    ('tuple',) + tuple(self.term(v) for v in rest))
        if a.kwarg:
            if starkw and not xkw and len(starkw) == 1:
                env.vars[a.kwarg.arg] = self.copy_of(starkw[0], 'dict')
            else:
                d = self.new('dict')
                for s in starkw:
                    self.put(d, None, s, star=True)
                for n, v in xkw.items():
                    self.put(d, const(n), v)
                env.vars[a.kwarg.arg] = self.one(d)
        ln = self.curline
        if not quiet:
            self.log('enter', callee=f.qual, bound=dict(bound), kwx=xkw,
                     starkw=starkw, star=star)
        live0 = self.live
        if f.is_gen:
            fr.gen = self.new('gen')
        self.stack.append(fr)
        if isinstance(f.node, ast.Lambda):
            v = self.expr(f.node.body)
            fr.rets.append((self.live, self.restrict(v)))
        else:
            self.block(f.node.body)
            if self.live != FALSE:
                fr.rets.append((self.live, ((self.live, NONE),)))
        self.stack.pop()
        self.curline = ln
        if fr.gen:
            # the body runs while the consumer iterates
            self.live = live0
            return self.one(fr.gen)
        out = []
        live = FALSE
        for g, V in fr.rets:
            live = self.b.or_(live, g)
            out.extend((self.b.and_(g, x), t) for x, t in V)
        self.live = live
        return self.norm(out)

    def from_kw(self, t, n, inn):
        """an argument taken from a ** mapping which has it"""
        g = self.b.and_(self.live, inn)
        if t in self.conts and g != FALSE:
            live, self.live = self.live, g
            hs, self.handlers = self.handlers, []
            v = self.as_V(self.cont_item(t, const(n)))
            self.live, self.handlers = live, hs
            return [(self.b.and_(g, h), x) for h, x in v]
        k = ('item', t, const(n))
        hk = (t, '[]', const(n))
        if hk in self.heap and g != FALSE:
            live, self.live = self.live, g
            v = self.as_V(self.heap_get(hk, k))
            self.live = live
            return [(self.b.and_(g, h), x) for h, x in v]
        return [(g, k)]

    def copy_of(self, V, kind):
        def f(t):
            return t
        return self.map(V, f)

    def default_value(self, f, d):
        """defaults are evaluated in the defining scope"""
        m = f.module
        if isinstance(d, ast.Constant):
            return self.one(const(d.value))
        fr = Frame(Env(Func(f.node, m, f.cls, f.qual, f.kind)))
        self.stack.append(fr)
        sv = self.live
        v = self.expr(d)
        self.live = sv
        self.stack.pop()
        return v

    # ------------------------------------------------------- builtin functions
    def builtin(self, n, args, kws, star, starkw, node):
        b, L = self.b, self.L
        if star or starkw:
            if n in ('dict',) and not star:
                t = self.new('dict')
                for a in args:
                    self.put(t, None, a, star=True)
                for s in starkw:
                    self.put(t, None, s, star=True)
                for k, v in kws.items():
                    self.put(t, const(k), v)
                return t
            return None
        if n == 'isinstance' and len(args) == 2:
            r = FALSE
            for g, t in args[0]:
                for g2, s in args[1]:
                    r = b.or_(r, b.and_(g, g2, L.isinst(
                        t, self.spec(s))))
            return self.boolV(r)
        if n == 'issubclass' and len(args) == 2:
            r = FALSE
            for g, t in args[0]:
                for g2, s in args[1]:
                    r = b.or_(r, b.and_(g, g2, self.subcls(
                        t, self.spec(s))))
            return self.boolV(r)
        if n == 'hasattr' and len(args) == 2:
            r = FALSE
            for g, t in args[0]:
                for g2, s in args[1]:
                    hk = (t, s[2]) if s[0] == 'const' else None
                    x = L.hasattr(t, s)
                    if hk in self.heap:
                        for g3, _ in self.heap[hk]:
                            x = b.or_(x, g3)
                    if t[0] in ('typeof', 'class') and s[0] == 'const':
                        c = self.model.classes.get(t[1]) if \
                            t[0] == 'class' else None
                        if c is None and t[0] == 'typeof' and \
                                self.class_of(t[1]):
                            c = self.model.classes[self.class_of(t[1])]
                        if c is not None and (
                                c.lookup(s[2])[1] is not None or (
                                    c.metaclass and
                                    s[2] in self.classattrs)):
                            x = TRUE
                    r = b.or_(r, b.and_(g, g2, x))
            return self.boolV(r)
        if n == 'callable' and len(args) == 1:
            r = FALSE
            for g, t in args[0]:
                if t[0] in ('func', 'closure', 'bound', 'class', 'builtin',
                            'typeof'):
                    c = TRUE
                elif t[0] in ('const', 'tuple') or t in self.conts:
                    c = FALSE
                else:
                    c = b.atom(('callable', t))
                r = b.or_(r, b.and_(g, c))
            return self.boolV(r)
        if n == 'getattr' and len(args) >= 2:
            nm = args[1]
            out = []
            live0 = self.live
            after = FALSE
            for g, s in nm:
                self.live = b.and_(live0, g)
                if s[0] == 'const' and isinstance(s[2], str):
                    if len(args) == 3:
                        sv = self.handlers
                        self.handlers = []
                        esc, self.escapes = self.escapes, set()
                        v = self.load_attr(args[0], s[2])
                        self.handlers = sv
                        self.escapes = esc
                        out.extend(self.with_default(
                            args[0], s, v, args[2]))
                    else:
                        out.extend(self.load_attr(args[0], s[2]))
                else:
                    def dyn(t, s=s):
                        h = L.hasattr(t, s)
                        r = ('dattr', t, s)
                        if len(args) == 3:
                            return self.norm(
                                [(b.and_(self.live, h), r)] +
                                [(b.and_(self.live, b.not_(h), gg), x)
                                 for gg, x in args[2]])
                        self.may_raise('attr', r, {
                            'AttributeError': b.not_(h)})
                        return r if self.live != FALSE else ()
                    out.extend(self.map(args[0], dyn))
                after = b.or_(after, self.live)
            self.live = after
            return self.norm(out)
        if n == 'setattr' and len(args) == 3:
            for g, s in args[1]:
                sv = self.live
                self.live = b.and_(sv, g)
                if s[0] == 'const' and isinstance(s[2], str):
                    self.store_attr(args[0], s[2], args[2])
                else:
                    for g2, t in args[0]:
                        sv2 = self.live
                        self.live = b.and_(sv2, g2)
                        self.may_raise('attr', ('setattr', t, s), {
                            'AttributeError': b.atom(
                                ('setfails', t, s))})
                        self.log('store', target=t, attr=s,
                                 value=self.restrict(args[2]))
                        self.live = b.and_(sv2, b.or_(
                            self.live, b.not_(g2)))
                self.live = b.and_(sv, b.or_(self.live, b.not_(g)))
            return NONE
        if n == 'delattr' and len(args) == 2:
            for g, s in args[1]:
                for g2, t in args[0]:
                    sv = self.live
                    self.live = b.and_(sv, g, g2)
                    self.may_raise('attr', ('delattr', t, s), {
                        'AttributeError': b.not_(L.hasattr(t, s))})
                    self.log('delattr', target=t, attr=s)
                    self.live = b.and_(sv, b.or_(self.live, b.not_(
                        b.and_(g, g2))))
            return NONE
        if n == 'type' and len(args) == 1:
            return self.map(args[0], self.typeof)
        if n == 'len' and len(args) == 1:
            def ln(t):
                it = self.exact_items(t)
                if it is not None:
                    return const(len(it))
                if t[0] == 'const' and isinstance(t[2], (str, bytes)):
                    return const(len(t[2]))
                c = self.class_of(t)
                if c:
                    o, a = self.model.classes[c].lookup('__len__')
                    if isinstance(a, Func) and not self.onstack(a) and \
                            a.qual not in self.boundary:
                        return self.inline(a, [self.one(t)], {}, None, None)
                return ('len', self.iterkey(t))
            return self.map(args[0], ln)
        if n == 'bool':
            if not args:
                return FALSEC
            return self.boolV(self.truth(args[0]))
        if n in ('any', 'all') and len(args) == 1:
            return self.boolV(self.anyall(n, args[0]))
        if n == 'dict':
            t = self.new('dict')
            if args:
                self.dict_update(t, args[0])
            for k, v in kws.items():
                self.put(t, const(k), v)
            return t
        if n in ('list', 'set', 'frozenset', 'tuple'):
            if not args:
                if n == 'tuple':
                    return ('tuple',)
                return self.new(n)

            def cp(t):
                if n == 'tuple':
                    it = self.exact_items(t)
                    if it is not None:
                        return ('tuple',) + tuple(self.term(v) for v in it)
                r = self.new(n)
                self.put(r, None, self.one(t), star=True)
                return r
            return self.map(args[0], cp)
        if n in ('sorted', 'reversed'):
            def cp2(t):
                if n == 'sorted':
                    kt = tuple(sorted((k, self.term(v))
                                      for k, v in kws.items()))
                    self.log('sorted', arg=t, kws=kws)
                else:
                    self.log('reversed', arg=t)
                r = self.new('list')
                self.put(r, None, self.one(t), star=True)
                return r
            return self.map(args[0], cp2)
        if n == 'iter' and len(args) == 1:
            return self.map(args[0], lambda t: t if t in self.conts else
                            ('seq1', t))
        if n == 'enumerate' and args:
            st = self.term(args[1]) if len(args) > 1 else (
                self.term(kws['start']) if 'start' in kws else const(0))
            return self.map(args[0], lambda t: ('enumerate', t, st))
        if n == 'zip' and len(args) >= 2:
            if all(len(a) == 1 for a in args):
                return ('zip',) + tuple(a[0][1] for a in args)
            return None
        if n == 'range':
            ts = [self.term(a) for a in args]
            if len(ts) == 1:
                return ('range', const(0), ts[0])
            if len(ts) == 2:
                return ('range', ts[0], ts[1])
            return None
        if n == 'vars' and len(args) == 1:
            return self.map(args[0], lambda t: ('attr', t, '__dict__'))
        if n in ('map', 'filter') and len(args) == 2:
            t = self.new('gen')
            fv = args[0]

            def run_one(v):
                self._mv = v

            def body():
                v = self._mv
                if n == 'map':
                    r = self.map(fv, lambda f: self.call1(
                        f, [v], {}, [], [], node))
                    self.put(t, None, self.restrict(r))
                else:
                    if len(fv) == 1 and fv[0][1] == NONE:
                        c = self.truth(v)
                    else:
                        r = self.map(fv, lambda f: self.call1(
                            f, [v], {}, [], [], node))
                        c = self.truth(r)
                    sv = self.live
                    self.live = b.and_(sv, c)
                    if self.live != FALSE:
                        self.put(t, None, self.restrict(v))
                    self.live = sv
            live = self.live
            self.for_loop(args[1], run_one, body, [], None)
            self.live = live
            return t
        if n == 'next' and args:
            def nx(t):
                if t in self.conts:
                    segs = self.segs(self.live, t)
                    out = []
                    hit = FALSE
                    for g, kd, ks, v in segs:
                        c = self.quant(ks, g) if ks else g
                        sel = b.and_(self.live, b.not_(hit), c)
                        for g2, x in v:
                            out.append((b.and_(sel, self.outer(g2, ks)
                                               if ks else g2), x))
                        hit = b.or_(hit, c)
                    if len(args) > 1:
                        for g2, x in args[1]:
                            out.append((b.and_(self.live, b.not_(hit), g2),
                                        x))
                    return self.norm(out)
                key = self.iterkey(t)
                if len(args) > 1:
                    ne = self.L.truthy(key)
                    return self.norm(
                        [(b.and_(self.live, ne), ('elem', key))] +
                        [(b.and_(self.live, b.not_(ne), g2), x)
                         for g2, x in args[1]])
                return ('elem', key)
            return self.map(args[0], nx)
        if n == 'property':
            return None
        if n in ('str', 'repr', 'int', 'float', 'abs', 'min', 'max', 'sum',
                 'id', 'hash', 'print', 'ord', 'chr', 'format', 'round',
                 'divmod', 'bytes'):
            if n == 'str' and len(args) == 1:
                if all(t[0] == 'const' and t[1] == 'str'
                       for g, t in args[0]):
                    return args[0]
            if n == 'sum' and args:
                # force the stream
                pass
            return None
        return None

    def with_default(self, O, s, v, dflt):
        """getattr with default: attribute where present, else default"""
        b = self.b
        out = []
        for g, t in self.restrict(O):
            h = self.L.hasattr(t, s)
            hk = (t, s[2])
            if hk in self.heap:
                for g3, _ in self.heap[hk]:
                    h = b.or_(h, g3)
            c = self.class_of(t)
            if c is None and t[0] == 'class':
                c = t[1]
            if c is None and t[0] == 'typeof':
                c = self.class_of(t[1])
            if c:
                o, a = self.model.classes[c].lookup(s[2])
                if isinstance(a, Func) and a.kind != 'property':
                    h = TRUE
                elif a is not None and not isinstance(a, Func) and \
                        not self.is_descriptor(self.model.classes[c], a):
                    h = TRUE
            if t[0] in ('closure', 'func', 'const', 'tuple') and \
                    s[0] == 'const':
                pass
            for g2, x in v:
                gg = b.and_(g, g2, h)
                if gg != FALSE:
                    out.append((gg, x))
            for g2, x in self.restrict(dflt):
                gg = b.and_(g, g2, b.not_(h))
                if gg != FALSE:
                    out.append((gg, x))
        return self.norm(out)

    def spec(self, s):
        """class spec for isinstance: expand containers of classes"""
        if s[0] == 'new' and s in self.conts:
            it = self.exact_items(s)
            if it is not None:
                return ('tuple',) + tuple(self.term(v) for v in it)
        if s[0] == 'modvar':
            v = self.modval(s)
            if v is not None:
                return v
        return s

    def subcls(self, t, s):
        b = self.b
        if s[0] == 'tuple':
            return b.or_(*[self.subcls(t, x) for x in s[1:]]) \
                if len(s) > 1 else FALSE
        if t[0] == 'phi':
            return b.or_(*[b.and_(g, self.subcls(x, s)) for g, x in t[1]])
        if s[0] in ('class', 'builtin', 'ext'):
            if t[0] in ('class', 'builtin', 'ext'):
                r = self.L.cls_issub(t, s)
                if r is not None:
                    return TRUE if r else FALSE
            if t[0] == 'typeof':
                return self.L.isinst(t[1], s)
        return b.atom(('subcls', t, s))

    def anyall(self, n, V):
        b = self.b
        r = FALSE
        for g, t in self.restrict(V):
            acc = FALSE
            for gg, kd, ks, v in self.segs(g, t):
                c = FALSE
                for g2, x in self.restrict(v, gg):
                    tr = self.truthy(x)
                    c = b.or_(c, b.and_(g2, tr if n == 'any'
                                        else b.not_(tr)))
                if ks:
                    og = self.outer(g, ks)
                    c = self.quant(ks, b.drop(c, og))
                acc = b.or_(acc, c)
            r = b.or_(r, b.and_(g, acc if n == 'any' else b.not_(acc)))
        return r

    def dict_update(self, t, V):
        """add the pairs/mapping V to tracked dict t"""
        for g, x in self.restrict(V):
            sv = self.live
            self.live = self.b.and_(sv, g)
            pairs = None
            if x in self.conts and self.conts[x].kind in ('gen', 'list'):
                c = self.conts[x]
                ok = True
                for e in c.entries:
                    if e.star:
                        ok = False
                    for g2, y in e.val:
                        if y[0] != 'tuple' or len(y) != 3:
                            ok = False
                if ok:
                    for e in c.entries:
                        for g2, y in e.val:
                            rel = e.loops[len(c.loops):]
                            ol = self.loops
                            self.loops = ol + tuple(rel)
                            self.put(t, y[1], ((self.b.and_(
                                self.live, e.guard, g2), y[2]),),
                                guard=self.b.and_(self.live, e.guard, g2))
                            self.loops = ol
                    pairs = True
            elif x[0] in ('items', 'enumerate', 'zip'):
                for gg, kd, ks, v in self.segs(self.live, x):
                    ol = self.loops
                    self.loops = ol + tuple(ks)
                    for g2, y in v:
                        if y[0] == 'tuple' and len(y) == 3:
                            self.put(t, y[1], ((g2, y[2]),),
                                     guard=self.b.and_(gg, g2))
                    self.loops = ol
                pairs = True
            if not pairs:
                self.put(t, None, self.one(x), star=True)
            self.live = sv

    def extend(self, t, V):
        self.put(t, None, self.restrict(V), star=True)

    # --------------------------------------------- methods on unknown receivers
    def method(self, o, name, args, kws, star, starkw, node):
        b, L = self.b, self.L
        if o[0] == 'superobj':
            return None
        if name == 'items' and not args:
            return ('items', self.unstar(o))
        if name == 'iteritems' and not args and o in self.conts:
            return ('items', o)
        if name == 'keys' and not args:
            o2 = self.unstar(o)
            if o2 in self.conts or o2[0] in ('modvar',):
                return ('seq1', o2)
            return ('seq1', o2)
        if name == 'values' and not args and o[0] != 'param':
            return ('values', self.unstar(o))
        if name == 'values' and not args:
            return ('values', self.unstar(o))
        if name == 'get' and 1 <= len(args) <= 2 and not star:
            dflt = args[1] if len(args) > 1 else self.one(NONE)

            def g1(k):
                inn = self.contains(k, o)
                live = self.live
                out = []
                self.live = b.and_(live, inn)
                if self.live != FALSE:
                    sv, self.handlers = self.handlers, []
                    es, self.escapes = self.escapes, set()
                    out.extend(self.load_item(self.one(o), self.one(k)))
                    self.handlers = sv
                    self.escapes = es
                self.live = b.and_(live, b.not_(inn))
                out.extend(self.restrict(dflt))
                self.live = live
                return self.norm(out)
            if o[0] == 'param' and self.types.get(o):
                return None
            return self.map(args[0], g1)
        if name == 'copy' and not args and (
                o in self.conts or o[0] in ('attr', 'item', 'param')):
            if o in self.conts:
                r = self.new(self.conts[o].kind)
                self.put(r, None, self.one(o), star=True)
                return r
        if name == 'union' and o in self.conts and not kws and \
                self.conts[o].kind == 'set':
            r = self.new('set')
            for V in [self.one(o)] + list(args):
                self.put(r, None, V, star=True)
            return r
        if name in ('intersection', 'union', 'difference') and \
                len(args) == 1:
            op = {'intersection': 'BitAnd', 'union': 'BitOr',
                  'difference': 'Sub'}[name]
            return self.map(args[0], lambda y: ('bin', op, o, y))
        if name == '__getitem__' and len(args) == 1:
            return self.load_item(self.one(o), args[0])
        if name == '__contains__' and len(args) == 1:
            r = FALSE
            for g, k in args[0]:
                r = b.or_(r, b.and_(g, self.contains(k, o)))
            return self.boolV(r)
        if name == '__setitem__' and len(args) == 2:
            self.store_item(self.one(o), args[0], args[1])
            return NONE
        if name == '__setattr__' and o[0] == 'superobj':
            return None
        if name in ('format', 'join', 'strip', 'replace', 'split', 'upper',
                    'lower', 'startswith', 'endswith', 'encode') and \
                o[0] == 'const':
            ts = tuple(self.term(a) for a in args)
            if all(t[0] == 'const' for t in ts) and not kws:
                try:
                    return const(getattr(o[2], name)(*[t[2] for t in ts]))
                except Exception:
                    pass
            if name == 'format':
                return ('fmt', o) + ts + tuple(
                    self.term(v) for k, v in sorted(kws.items()))
            if name == 'join' and ts:
                # force generator contents into the provenance
                return ('fmt', o) + ts
        if name in MUTATORS:
            r = self.mutate(o, name, args, kws, star, starkw)
            if r is not None:
                return r
        return None

    def unstar(self, o):
        """a fresh copy with a single star entry iterates like its source"""
        if o in self.conts:
            c = self.conts[o]
            if len(c.entries) == 1 and c.entries[0].star and \
                    not c.removed and len(c.entries[0].val) == 1:
                return c.entries[0].val[0][1]
        return o

    def mutate(self, o, name, args, kws, star, starkw):
        b = self.b
        res = ('call', ('attr', o, name),
               tuple(self.term(a) for a in args),
               tuple((k, self.term(v)) for k, v in sorted(kws.items())))
        live0 = self.live
        if name == 'setdefault' and args:
            dflt = args[1] if len(args) > 1 else self.one(NONE)

            def sd(k):
                inn = self.contains(k, o)
                live = self.live
                out = []
                self.live = b.and_(live, inn)
                if self.live != FALSE:
                    sv, self.handlers = self.handlers, []
                    out.extend(self.load_item(self.one(o), self.one(k)))
                    self.handlers = sv
                self.live = b.and_(live, b.not_(inn))
                if self.live != FALSE:
                    v = self.restrict(dflt)
                    self.setitem1(o, k, v)
                    out.extend(v)
                self.live = live
                return self.norm(out)
            return self.map(args[0], sd)
        if name == 'pop' and args and not star:
            # dict/list pop with key
            dflt = args[1] if len(args) > 1 else None

            def pp(k):
                inn = self.contains(k, o)
                live = self.live
                out = []
                if dflt is not None:
                    self.live = b.and_(live, inn)
                    if self.live != FALSE:
                        sv, self.handlers = self.handlers, []
                        es, self.escapes = self.escapes, set()
                        out.extend(self.load_item(self.one(o), self.one(k)))
                        self.handlers = sv
                        self.escapes = es
                        self.log('mut', target=o, name='pop', args=args,
                                 result=res)
                        self.forget(o, k)
                    self.live = b.and_(live, b.not_(inn))
                    out.extend(self.restrict(dflt))
                    self.live = live
                else:
                    out.extend(self.load_item(self.one(o), self.one(k)))
                    self.log('mut', target=o, name='pop', args=args,
                             result=res)
                    self.forget(o, k)
                return self.norm(out)
            return self.map(args[0], pp)
        if name in ('remove',) and args and o not in self.conts:
            for g, k in args[0]:
                self.may_raise('item', ('remove', o, k), {
                    'KeyError': b.not_(self.contains(k, o)),
                    'ValueError': b.not_(self.contains(k, o))})
        if o[0] == 'bin':
            self.tampered.add(o)
        self.log('mut', target=o, name=name, args=args, kws=kws, star=star,
                 starkw=starkw, result=res)
        if o in self.conts:
            c = self.conts[o]
            if name in ('append', 'add', 'appendleft') and args:
                self.put(o, None, args[0])
            elif name in ('extend', 'update', 'extendleft') and (
                    args or kws or starkw):
                if c.kind == 'dict':
                    if args:
                        self.dict_update(o, args[0])
                    for s in starkw:
                        self.put(o, None, s, star=True)
                    for k, v in kws.items():
                        self.put(o, const(k), v)
                elif args:
                    self.extend(o, args[0])
            elif name == 'insert' and len(args) == 2:
                self.put(o, None, args[1])
            elif name in ('remove', 'discard', 'popitem', 'clear', 'pop',
                          'popleft'):
                c.removed = True
                if args:
                    for g, k in args[0]:
                        y, n = self.hasfact.get((o, k), (FALSE, FALSE))
                        self.hasfact[(o, k)] = (
                            b.and_(y, b.not_(self.live)),
                            b.or_(n, b.and_(g, self.live)))
            if name in ('pop', 'popitem', 'popleft'):
                return res
            return NONE
        if name == 'update' and kws and not (args or star or starkw):
            for k, v in kws.items():
                self.has_item(o, const(k), v)
            return NONE
        if name in ('append', 'extend', 'add', 'insert', 'clear', 'sort',
                    'reverse', 'update', 'remove', 'discard'):
            return None_with(self, res, name)
        return res

    def forget(self, o, k):
        b = self.b
        if o in self.conts:
            self.conts[o].removed = self.conts[o].removed or \
                k[0] != 'const'
            # strong removal of a constant key
            for e in self.conts[o].entries:
                if not e.star and e.key == k:
                    e.guard = b.and_(e.guard, b.not_(self.live))
        y, n = self.hasfact.get((o, k), (FALSE, FALSE))
        self.hasfact[(o, k)] = (b.and_(y, b.not_(self.live)),
                                b.or_(n, self.live))

    def ext_call(self, t, args, kws, star, starkw):
        q = t[1]
        if q in ('copy.deepcopy', 'copy.copy'):
            name = q.split('.')[1]
            out = []
            if not args:
                return None
            def f(x):
                r = ('call', t, (x,), ())
                self.log('call', callee=t, args=[self.one(x)], kws={},
                         star=[], starkw=[], result=r, qual=q)
                return r
            return self.map(args[0], f)
        if q == 'functools.partial' and args and len(args[0]) == 1:
            return ('partial', args[0][0][1],
                    tuple(self.term(a) for a in args[1:]),
                    tuple(sorted((k, self.term(v))
                                 for k, v in kws.items())))
        if q == 'operator.attrgetter' and len(args) == 1:
            x = self.term(args[0])
            if x[0] == 'const' and '.' not in x[2]:
                return ('getter', 'attr', x[2])
        if q == 'operator.itemgetter' and len(args) == 1:
            return ('getter', 'item', self.term(args[0]))
        if q == 'itertools.chain':
            r = self.new('gen')
            for a in args:
                self.put(r, None, a, star=True)
            for s in star:
                for g, x in s:
                    sv, self.live = self.live, self.b.and_(self.live, g)
                    for gg, kd, ks, v in self.segs(self.live, x):
                        ol = self.loops
                        self.loops = ol + tuple(ks)
                        self.put(r, None, v, star=True, guard=gg)
                        self.loops = ol
                    self.live = sv
            return r
        if q == 'itertools.chain.from_iterable' and args:
            r = self.new('gen')
            for g, x in args[0]:
                for gg, kd, ks, v in self.segs(g, x):
                    ol = self.loops
                    self.loops = ol + tuple(ks)
                    self.put(r, None, v, star=True, guard=gg)
                    self.loops = ol
            return r
        if q in ('collections.OrderedDict',):
            return self.builtin('dict', args, kws, star, starkw, None)
        if q in ('collections.Counter', 'collections.defaultdict'):
            # reading an item may add it: the content stays symbolic
            return self.new(q.split('.')[1])
        if q == 'collections.deque':
            r = self.new('list')
            if q.endswith('deque') and args:
                self.put(r, None, args[0], star=True)
            return r
        return None


def k_is_bound(t):
    return t[0] == 'bound'


def None_with(interp, res, name):
    interp.may_raise('call', res, None)
    if interp.live == FALSE:
        return ()
    return NONE
