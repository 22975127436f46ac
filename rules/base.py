"""Obligations, findings and helpers shared by the rules."""
import ast
import os
import time

from sa.bdd import FALSE, TRUE
from sa.interp import Interp
from sa.logic import NONE, UNDEF, const
from sa.model import VOCAB, AnalysisBroken, Class, Func, Model

SELF = ('param', 'self')
OBJ = ('param', 'obj')
VALUE = ('param', 'value')
OPAQUE = ('unk', 'wide', 'undef', 'unresolved')


def P(n):
    return ('param', n)


def A(t, *names):
    for n in names:
        t = ('attr', t, n)
    return t


class Finding(object):
    def __init__(self, rule, construct, msg, where, detail=''):
        self.rule, self.construct = rule, construct
        self.msg, self.where, self.detail = msg, where, detail

    @property
    def key(self):
        return '%s|%s' % (self.rule, self.construct)


class Check(object):
    """one property: collects obligations over the current source"""

    def __init__(self, model, pid, tier):
        self.m, self.pid, self.tier = model, pid, tier
        self.findings = []
        self.obligations = []     # (rule, construct, where, verdict)
        self.undecided = []
        self.internal = []
        self.broken = []
        self.functions = set()
        self.entries = []
        self.unsupported = set()
        self.notes = []

    # -- running the analysis
    def interp(self, boundary=(), types=None, **kw):
        return Interp(self.m, boundary=self.quals(boundary), types=types,
                      **kw)

    def quals(self, pats):
        out = set()
        for p in pats:
            if p.endswith('*'):
                # a helper which came later is looked into
                out |= {q for q in self.m.funcs if q.startswith(p[:-1]) and
                        q in VOCAB}
            else:
                out.add(p)
        return out

    def run(self, func, boundary=(), types=None, args=None, selfcls=None,
            selfterm=None, keep=(), live=None, crash=True, **kw):
        """analyse one entry point -> the Interp, with .rv"""
        if isinstance(func, str):
            func = self.m.need_func(func)
        I = Interp(self.m, boundary=self.quals(boundary) - {func.qual} -
                   self.quals(keep) - self.raisers(), types=types, **kw)
        I.rv = I.run(func, args=args, selfcls=selfcls, selfterm=selfterm,
                     **({} if live is None else {
                         'live': live(I) if callable(live) else live}))
        I.entry, I.end_live, I.live = func, I.live, TRUE
        I.entry_live = TRUE if live is None else (
            live(I) if callable(live) else live)
        self.functions |= I.visited
        self.entries.append(func.qual + (
            ' [self: %s]' % selfcls.rpartition('.')[2] if selfcls else ''))
        for u in I.unsupported:
            self.unsupported.add('%s: %s' % (func.qual, u))
        if crash:
            self.crashes(I)
        return I

    def raisers(self):
        """functions which always raise: these are part of their callers"""
        if not hasattr(self.m, 'raisers'):
            self.m.raisers = {
                q for q, f in self.m.funcs.items()
                if not isinstance(f.node, ast.Lambda) and f.kind in (
                    'function', 'method', 'staticmethod', 'classmethod') and
                ends(f.node.body) and not f.name.startswith('__') and
                not any(c is not f.cls and f.cls in c.mro and
                        f.name in c.attrs for c in self.m.classes.values()
                        if f.cls is not None) and not any(isinstance(
                    x, (ast.Return, ast.Yield, ast.YieldFrom))
                    for x in ast.walk(f.node))}
        return self.m.raisers

    CRASH = {
        'unbound': 'reads %s, which has no value there',
        'undefined': 'uses %s, which is defined nowhere',
        'missing': 'calls without the required argument %s',
        'many': 'calls %s with too many arguments',
        'twice': 'gives twice the argument %s',
        'unknown': 'gives an argument which does not exist, %s'}

    def crashes(self, I):
        """paths which end in a NameError or a TypeError about arguments
        instead of doing what the property says"""
        b = I.b
        self.obligations.append(('crash', I.entry.qual, '', 'discharged'))
        for kind, what, g, f, line, loops in I.faults:
            g = b.and_(g, I.entry_live)
            if opaque_guard(I, g) or any(
                    y[0] in ('exists', 'first', 'lv', 'unbroken')
                    for x in b.support_atoms(g) for y in subterms(x)):
                continue
            self.never(I, g, 'crash', '%s:%s' % (f.qual, what), 'the code ' +
                       self.CRASH[kind] % what,
                       '%s:%d in %s' % (f.module.rel, line, f.qual))

    # -- verdicts
    def ok(self, rule, construct, where=''):
        self.obligations.append((rule, construct, where, 'discharged'))

    def bad(self, rule, construct, msg, where, detail=''):
        self.obligations.append((rule, construct, where, 'VIOLATED'))
        f = Finding(rule, construct, msg, where, detail)
        if f.key not in [x.key for x in self.findings]:
            self.findings.append(f)

    def failed(self, e):
        """a part of the rule could not be decided"""
        tb = e.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        fr = tb.tb_frame.f_code
        if isinstance(e, AnalysisBroken):
            self.broken.append(str(e))
            self.unk('anchors', str(e)[:80], 'vanished')
        else:
            self.internal.append(e)
            self.unk('internal', '%s:%s:%s' % (
                os.path.basename(fr.co_filename), fr.co_name,
                type(e).__name__), 'not decided')

    def unk(self, rule, construct, why, where=''):
        self.obligations.append((rule, construct, where, 'undecided'))
        self.undecided.append('%s | %s: %s' % (rule, construct, why))

    def check(self, cond, rule, construct, msg, where, detail=''):
        if cond is None:
            self.unk(rule, construct, msg, where)
        elif cond:
            self.ok(rule, construct, where)
        else:
            self.bad(rule, construct, msg, where, detail)
        return cond

    def implies(self, I, g, phi, rule, construct, msg, where, terms=()):
        """obligation: wherever g holds, phi holds"""
        if I.L.implies(g, phi):
            self.ok(rule, construct, where)
            return True
        bad = I.b.and_(g, I.b.not_(phi))
        if any(opaque(t) for t in terms) or opaque_guard(I, bad):
            self.unk(rule, construct, 'depends on a value outside the '
                     'analysed fragment', where)
            return None
        self.bad(rule, construct, msg, where,
                 'when ' + I.L.showg(bad)[:600])
        return False

    def never(self, I, g, rule, construct, msg, where, terms=()):
        return self.implies(I, g, FALSE, rule, construct, msg, where, terms)


def ends(body):
    """does a block always end in a raise statement?"""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and ends(s.body) and \
                ends(s.orelse):
            return True
    return False


def opaque(t):
    if isinstance(t, tuple):
        if t and t[0] in OPAQUE:
            return True
        return any(opaque(x) for x in t if isinstance(x, tuple))
    return False


def opaque_guard(I, g):
    return any(opaque(a) for a in I.b.support_atoms(g))


def subterms(t):
    yield t
    for x in t[1:] if isinstance(t[0], str) else t:
        if isinstance(x, tuple) and x:
            for y in subterms(x):
                yield y


def mentions(t, sub):
    return any(x == sub for x in subterms(t))


def alts(V):
    """flat (guard, term) alternatives; V is a guarded value"""
    return list(V)


def flat(I, V, live=TRUE):
    """alternatives of a guarded value with phi terms expanded"""
    out = []
    for g, t in V:
        g = I.b.and_(g, live)
        if g == FALSE:
            continue
        if t[0] == 'phi':
            out.extend(flat(I, t[1], g))
        else:
            out.append((g, t))
    return out


def evs(I, *kinds):
    """events of these kinds; of the returns those which leave the entry or
    a loop, not the ends of functions which were called"""
    return [e for e in I.events if e.kind in kinds and (
        e.kind != 'return' or len(e.stack) == 1 or e.own)]


def exits(I):
    """guard under which the entry returns normally"""
    g = FALSE
    for e in I.events:
        if e.kind == 'return' and len(e.stack) == 1:
            g = I.b.or_(g, e.guard)
    return g


def raises(I, sym=None, caught=False):
    return [e for e in I.events if e.kind == 'raise' and
            (caught is None or bool(e.caught) == caught) and
            (sym is None or e.sym == sym)]


def exc_name(e):
    s = e.sym
    if s is None:
        return None
    return s[1].rpartition('.')[2]


def call_of(I, callee, argpred=None):
    """call events whose callee term is `callee`"""
    out = []
    for e in I.events:
        if e.kind == 'call' and e.callee == callee:
            out.append(e)
    return out


def where(f):
    return '%s:%d in %s' % (f.module.rel, f.node.lineno, f.qual)


def short(q):
    return q[len('normalize.'):] if q.startswith('normalize.') else q


def subclasses(m, q):
    c = m.need_class(q)
    return [k for k in m.classes.values() if c in k.mro]


def raised(I, es=None):
    """guard under which the entry ends with an exception (a raise in some
    iteration of a loop included)"""
    b = I.b
    es = raises(I) if es is None else es
    out = FALSE
    by = {}
    for e in es:
        out = b.or_(out, e.guard)
        for n in range(1, len(e.loops) + 1):
            by.setdefault(e.loops[len(e.loops) - n:], []).append(e.guard)
    for ks, gs in by.items():
        g = b.or_(*gs)
        out = b.or_(out, I.quant(ks, g))
    return out


def subst(I, f, fn, memo=None):
    """rebuild a formula with every atom replaced by fn(atom) (a formula, or
    None to keep it)"""
    b = I.b
    out = f
    ats = list(b.support_atoms(f))
    memo = {}
    for a in ats:
        memo[a] = fn(a)

    # compose by Shannon expansion over the atoms of f
    def rec(g, rest):
        while rest and rest[0] not in set(b.support_atoms(g)):
            rest = rest[1:]
        if not rest:
            return g
        a, v = rest[0], b.support(b.atom(rest[0]))
        v = list(v)[0]
        hi = rec(b.restrict(g, v, True), rest[1:])
        lo = rec(b.restrict(g, v, False), rest[1:])
        x = memo[a]
        if x is None:
            x = b.atom(a)
        return b.ite(x, hi, lo)
    return rec(out, ats)


def rewrite(t, fn):
    """bottom-up term rewriting"""
    if not isinstance(t, tuple) or not t:
        return t
    if isinstance(t[0], str):
        t = (t[0],) + tuple(rewrite(x, fn) if isinstance(x, tuple) else x
                            for x in t[1:])
    else:
        t = tuple(rewrite(x, fn) if isinstance(x, tuple) else x for x in t)
    r = fn(t) if t and isinstance(t[0], str) else None
    return t if r is None else r


PROP, NAME = ('param', 'the-property'), ('param', 'the-name')


def propnorm(owner):
    """canonical names for 'a property of OWNER' and its name, however the
    loop over the declared properties is written"""
    def fn(t):
        if t[0] == 'elem' and t[1][0] == 'attr' and t[1][1] in owner:
            n = t[1][2]
            if n == 'properties' or n == 'eager_properties':
                return NAME
            if n in ('_sorted_properties', 'primary_key'):
                return PROP
        if t[0] == 'elem' and t[1][0] == 'values' and \
                t[1][1][0] == 'attr' and t[1][1][2] == 'properties':
            return PROP
        if t[0] == 'item' and t[2] == NAME and t[1][0] == 'attr' and \
                t[1][2] == 'properties':
            return PROP
        if t == ('attr', PROP, 'name'):
            return NAME
    return lambda t: rewrite(t, fn)


def method(e):
    """(receiver, name) of a method call event, else (None, name)"""
    c = e.callee
    if c[0] == 'bound':
        return c[1], c[2].rpartition('.')[2]
    if c[0] == 'attr':
        return c[1], c[2]
    if c[0] == 'func':
        return None, c[1].rpartition('.')[2]
    return None, c[-1] if isinstance(c[-1], str) else ''


def canon_guard(I, g, canon):
    b = I.b

    def fn(a):
        if a[0] in ('exists', 'first'):
            return None
        c = canon(a)
        if c == a:
            return None
        if c[0] == 'in':
            return I.L.in_(c[1], c[2])
        if c[0] == 'eq':
            return I.L.eq(c[1], c[2])
        if c[0] == 'truthy':
            return I.L.truthy(c[1])
        if c[0] == 'is':
            return I.L.is_(c[1], c[2])
        if c[0] == 'isnone':
            return I.L.isnone(c[1])
        return b.atom(c)
    return subst(I, g, fn)


def whole_loop(C, I, pred, rule, con, msg, apart=False):
    """no loop over the given domain is left before its end (and, apart:
    nor sees equal members as one)"""
    n = 0
    for e in evs(I, 'break', 'return'):
        if e.loops and pred(e.loops[-1]) and (
                e.kind == 'break' or e.own):
            n += 1
            C.never(I, e.guard, rule, con, msg, e.where)
    for e in evs(I, 'merged'):
        if apart and pred(e.arg):
            n += 1
            C.never(I, e.guard, rule, con, 'equal members are taken for one',
                    e.where)
    if not n:
        C.ok(rule, con, where(I.entry))
