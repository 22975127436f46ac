"""Helpers which came after the rules, put in place of their calls.

A statement which is a call of such a helper (``return h(x)``, ``y = h(x)``,
``h(x)``, ``yield from h(x)``) is replaced by the body of the helper, its own
names renamed.  Only where that is the same computation: helpers which close
over their names, call themselves, rebind globals, are decorated or overridden
stay calls (and the interpreter follows them as such).
"""
import ast
import copy
import itertools

from .norm import again

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPE = FN + (ast.Lambda, ast.ClassDef, ast.GeneratorExp)


def own(node):
    """the nodes of a function without those of functions within it"""
    stack = list(node.body)
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, FN + (ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(n))


def leaves(body):
    """nothing behind the body is ever reached from it"""
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    if isinstance(s, ast.If):
        return leaves(s.body) and leaves(s.orelse)
    if isinstance(s, ast.Try):
        return (leaves(s.orelse or s.body) and
                all(leaves(h.body) for h in s.handlers)) or \
            leaves(s.finalbody)
    if isinstance(s, ast.With):
        return False
    return False


def returns(body):
    return [n for s in body for n in own(_Wrap([s]))
            if isinstance(n, ast.Return)]


class _Wrap(object):
    def __init__(self, body):
        self.body = body


def put(body, make):
    """the body with its returns, all of them ends of it, made into
    statements by make(value); None when that is not possible"""
    out = []
    for i, s in enumerate(body):
        rest = body[i + 1:]
        if isinstance(s, ast.Return):
            return out + make(s.value, s)
        if isinstance(s, ast.Raise):
            return out + [s]
        if not returns([s]):
            out.append(s)
            continue
        if isinstance(s, ast.If):
            if rest and not leaves(s.body) and not leaves(s.orelse):
                return None
            x = s.body if leaves(s.body) else s.body + rest
            y = s.orelse if leaves(s.orelse) else s.orelse + rest
            x, y = put(x, make), put(y, make)
            if x is None or y is None:
                return None
            n = ast.copy_location(ast.If(s.test, x or [ast.copy_location(
                ast.Pass(), s)], y), s)
            return out + [n]
        if isinstance(s, ast.Try) and not rest and not s.finalbody and \
                not s.orelse:
            x = put(s.body, make)
            hs = []
            for h in s.handlers:
                y = put(h.body, make)
                if y is None:
                    return None
                hs.append(ast.copy_location(ast.ExceptHandler(
                    h.type, h.name, y or [ast.copy_location(
                        ast.Pass(), h)]), h))
            if x is None:
                return None
            return out + [ast.copy_location(ast.Try(x, hs, [], []), s)]
        return None
    return out + make(None, body[-1] if body else None)


class Local(object):
    """a function within another"""
    kind, cls = 'local', None

    def __init__(self, node, f):
        self.node, self.module, self.within = node, f.module, f
        self.name = node.name
        self.qual = f.qual + '.<locals>.' + node.name
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                          for n in own(node))


class Inliner(object):
    def __init__(self, model, known):
        self.m, self.known = model, known
        self.n = itertools.count()
        self.gone, self.did = set(), set()
        self.over = {}
        for c in model.classes.values():
            for x in c.attrs:
                self.over.setdefault(x, []).append(c)

    # -- what may be put in place
    def target(self, f, c):
        """the helper called and its arguments"""
        args = list(c.args)
        if isinstance(c.func, ast.Name):
            g = self.local(f, c)
            if g is not None:
                return g, args
            g = self.m.funcs.get(f.module.name + '.' + c.func.id)
            if g is None or g.cls is not None or g.kind != 'function':
                return None
            if any(isinstance(n, ast.Name) and n.id == c.func.id and
                   not isinstance(n.ctx, ast.Load) or
                   isinstance(n, ast.arg) and n.arg == c.func.id
                   for n in ast.walk(f.node)):
                return None
        elif isinstance(c.func, ast.Attribute) and isinstance(
                c.func.value, ast.Name) and f.cls is not None and \
                f.kind in ('method', 'classmethod') and \
                f.node.args.args and \
                c.func.value.id == f.node.args.args[0].arg:
            if any(isinstance(n, ast.Name) and n.id == c.func.value.id and
                   not isinstance(n.ctx, ast.Load)
                   for n in ast.walk(f.node)):
                return None
            k, g = f.cls.lookup(c.func.attr)
            if not hasattr(g, 'is_gen') or (
                    g.kind != f.kind and g.kind != 'staticmethod'):
                return None
            if len(self.over.get(c.func.attr, ())) != 1:
                return None
            if g.kind != 'staticmethod':
                args.insert(0, c.func.value)
        else:
            return None
        if g is f or g.qual in self.known or g.name.endswith('__') or \
                g.module is not f.module or not isinstance(
                    g.node, ast.FunctionDef):
            return None
        if len(g.node.decorator_list) > (g.kind in (
                'classmethod', 'staticmethod')):
            return None
        for n in own(g.node):
            if isinstance(n, SCOPE + (ast.Global, ast.Nonlocal,
                                      ast.NamedExpr, ast.Delete)):
                return None
            if isinstance(n, ast.Name) and n.id in (
                    'super', 'locals', '__class__', g.name):
                return None
            if isinstance(n, ast.Attribute) and n.attr == g.name:
                return None
        if self.renamed(g):
            return None
        return g, args

    def local(self, f, c):
        """a function within this one, of which this is the only use"""
        x = c.func.id
        uses = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and
                n.id == x]
        defs = [n for n in ast.walk(f.node) if isinstance(n, FN) and
                n.name == x]
        if len(uses) != 1 or len(defs) != 1 or not isinstance(
                defs[0], ast.FunctionDef) or defs[0].decorator_list or \
                uses[0] is not c.func or defs[0] not in list(own(f.node)):
            return None
        if any(n is c for n in ast.walk(defs[0])):
            return None
        for n in own(defs[0]):
            if isinstance(n, SCOPE + (ast.Global, ast.Nonlocal,
                                      ast.NamedExpr, ast.Delete)) or \
                    isinstance(n, ast.Name) and n.id in (
                        'super', 'locals', '__class__'):
                return None
        return Local(defs[0], f)

    def renamed(self, g):
        """may be one of the functions the rules know, by another name"""
        pre = g.qual[:-len(g.name)]
        n = len(g.node.args.args)
        for q in self.known:
            if q.startswith(pre) and '.' not in q[len(pre):] and \
                    q not in self.m.funcs and self.known[q] == n:
                return True
        return False

    def bind(self, f, g, c, args):
        """parameters to arguments, in order"""
        b = g.node.args
        if b.kwonlyargs or b.posonlyargs or b.vararg or b.kwarg:
            return None
        names = [x.arg for x in b.args]
        out = []
        if len(args) > len(names):
            return None
        for x, v in zip(names, args):
            if isinstance(v, ast.Starred):
                return None
            out.append((x, v))
        for k in c.keywords:
            if k.arg not in names or k.arg in dict(out):
                return None
            out.append((k.arg, k.value))
        have = dict(out)
        for x, d in zip(names[len(names) - len(b.defaults):], b.defaults):
            if x not in have:
                if not isinstance(d, ast.Constant):
                    return None
                out.append((x, d))
                have[x] = d
        return out if set(have) == set(names) else None

    def body(self, f, g, bound, at):
        stored = {n.id for n in ast.walk(g.node) if isinstance(n, ast.Name)
                  and not isinstance(n.ctx, ast.Load)} | {
            n.name for n in ast.walk(g.node)
            if isinstance(n, ast.ExceptHandler) and n.name} | {
            a.asname or a.name.split('.')[0] for n in ast.walk(g.node)
            if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        mine = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)
                and not isinstance(n.ctx, ast.Load)} | {
            n.arg for n in ast.walk(f.node) if isinstance(n, ast.arg)} | {
            n.name for n in ast.walk(f.node)
            if isinstance(n, ast.ExceptHandler) and n.name}
        free = {n.id for n in ast.walk(g.node) if isinstance(n, ast.Name)}
        free -= stored | {x for x, v in bound}
        if isinstance(f, Local):
            mine |= {n.id for n in ast.walk(f.within.node)
                     if isinstance(n, ast.Name) and
                     not isinstance(n.ctx, ast.Load)}
        if free & mine and g.kind != 'local':
            return None     # a global of that name is hidden by a local
        tag = '__%d' % next(self.n)
        pre, ren = [], {x: x + tag for x in stored}
        for x, v in bound:
            if isinstance(v, ast.Name) and x not in stored and (
                    v.id in mine):
                ren[x] = v.id
                continue
            ren[x] = x + tag
            pre.append(ast.copy_location(ast.Assign([ast.copy_location(
                ast.Name(x + tag, ast.Store()), at)],
                copy.deepcopy(v)), at))
        new = copy.deepcopy(g.node.body)
        if new and isinstance(new[0], ast.Expr) and isinstance(
                new[0].value, ast.Constant):
            new = new[1:]
        for s in new:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and n.id in ren:
                    n.id = ren[n.id]
                elif isinstance(n, ast.ExceptHandler) and n.name in ren:
                    n.name = ren[n.name]
                elif isinstance(n, ast.alias):
                    y = n.asname or n.name
                    if y in ren:
                        n.asname = ren[y]
        return pre, new

    def stmt(self, f, s, last):
        c = y = None
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Return, ast.Expr, ast.Assign)):
            c = v
            if isinstance(c, ast.YieldFrom) and isinstance(s, ast.Expr):
                c, y = c.value, True
        if not isinstance(c, ast.Call):
            return None
        t = self.target(f, c)
        if t is None:
            return None
        g, args = t
        if bool(y) != g.is_gen or f.is_gen and isinstance(s, ast.Return):
            return None
        if g.is_gen and isinstance(s, ast.Return):
            return None
        bound = self.bind(f, g, c, args)
        if bound is None:
            return None
        if (f.qual, g.qual) in self.did and any(
                isinstance(n, (ast.While, ast.Assert)) for n in own(g.node)):
            return None
        r = self.body(f, g, bound, s)
        if r is None:
            return None
        pre, new = r
        if y and returns(new) and not last:
            return None
        if isinstance(s, ast.Return):
            if not leaves(new):
                new.append(ast.copy_location(ast.Return(
                    ast.copy_location(ast.Constant(None), s)), s))
        elif not y:
            def make(v, at):
                at = at or s
                if isinstance(s, ast.Assign):
                    v = v or ast.copy_location(ast.Constant(None), at)
                    return [ast.copy_location(ast.Assign(
                        copy.deepcopy(s.targets), v), at)]
                if v is None or isinstance(v, (ast.Constant, ast.Name)):
                    return []
                return [ast.copy_location(ast.Expr(v), at)]
            new = put(new, make)
            if new is None:
                return None
        new = pre + new or [ast.copy_location(ast.Pass(), s)]
        for x in new:
            ast.fix_missing_locations(x)
        if g.kind == 'local':
            for n in ast.walk(f.node):
                for k in ('body', 'orelse', 'finalbody'):
                    v = getattr(n, k, None)
                    if isinstance(v, list) and g.node in v:
                        i = v.index(g.node)
                        v[i] = ast.copy_location(ast.Pass(), g.node)
        else:
            self.gone.add(g.qual)
        self.did.add((f.qual, g.qual))
        return new

    def block(self, f, body, last):
        done = False
        i = 0
        while i < len(body):
            s = body[i]
            end = last and i == len(body) - 1
            r = self.stmt(f, s, end)
            if r is not None:
                body[i:i + 1] = r
                i += len(r)
                done = True
                continue
            if not isinstance(s, FN + (ast.ClassDef,)):
                end = end and not isinstance(s, (ast.For, ast.While,
                                                 ast.Try))
                for k in ('body', 'orelse', 'finalbody'):
                    v = getattr(s, k, None)
                    if isinstance(v, list) and v:
                        done = self.block(f, v, end) or done
                for h in getattr(s, 'handlers', ()):
                    done = self.block(f, h.body, False) or done
            i += 1
        return done

    def func(self, f):
        if isinstance(f.node, ast.Lambda) or f.outer is not None:
            return
        for n in list(own(f.node)):
            if isinstance(n, ast.FunctionDef):
                k = Local(n, f)
                if self.block(k, n.body, True):
                    again(n)
        for i in range(4):
            if not self.block(f, f.node.body, True):
                break
            again(f.node)
