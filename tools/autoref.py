"""Rewritings which keep the behaviour, made systematically.

    python3 tools/autoref.py list
    python3 tools/autoref.py run [-t TRANSFORM] [-f FUNC] [-c IDS] [--tests]
    python3 tools/autoref.py bisect TRANSFORM ID    (which functions)
    python3 tools/autoref.py show TRANSFORM FUNC

Each transformation is applied to every function of the package at once (or to
one function) in a scratch copy; every check has to stay quiet on it.
"""
import argparse
import ast
import copy
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def parse(text):
    return ast.parse(text)


def name(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


def store(x):
    return ast.Name(x, ast.Store())


def is_simple(e):
    return isinstance(e, (ast.Name, ast.Constant))


def own_nodes(fn):
    """the nodes of a function without those of nested scopes"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, FN + (ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def all_names(fn):
    return {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)} | {
        n.arg for n in ast.walk(fn) if isinstance(n, ast.arg)} | {
        n.name for n in ast.walk(fn) if isinstance(
            n, FN + (ast.ClassDef, ast.ExceptHandler)) and n.name}


def fresh(fn, base):
    used = all_names(fn)
    i = 0
    while True:
        x = base if not i else '%s_%d' % (base, i)
        if x not in used:
            return x
        i += 1


def is_gen(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom))
               for n in own_nodes(fn))


def ends(body):
    """control never leaves the end of the body"""
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.If):
        return ends(s.body) and ends(s.orelse)
    return False


class Bodies(object):
    """applies fn_block(list of statements, function) to all blocks"""

    def __init__(self, block):
        self.block = block

    def __call__(self, fn):
        self.n = 0
        self.fn = fn
        fn.body = self.go(fn.body)
        return self.n

    def go(self, body):
        out = []
        for s in body:
            if not isinstance(s, FN + (ast.ClassDef,)):
                for k in ('body', 'orelse', 'finalbody'):
                    v = getattr(s, k, None)
                    if isinstance(v, list) and v:
                        setattr(s, k, self.go(v))
                for h in getattr(s, 'handlers', ()):
                    h.body = self.go(h.body)
            out.append(s)
        r = self.block(out, self.fn)
        if r is not None:
            self.n += r[0]
            return r[1]
        return out


def per_statement(rule):
    def block(body, fn):
        out, n = [], 0
        for s in body:
            r = rule(s, fn)
            if r is None:
                out.append(s)
            else:
                n += 1
                out.extend(r)
        return (n, out) if n else None
    return Bodies(block)


class Exprs(ast.NodeTransformer):
    def __init__(self, rule):
        self.rule = rule

    def __call__(self, fn):
        self.n = 0
        self.fn = fn
        fn.body = [self.visit(s) for s in fn.body]
        return self.n

    def visit_FunctionDef(self, node):
        return node

    visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

    def generic_visit(self, node):
        super(Exprs, self).generic_visit(node)
        if isinstance(node, (ast.expr,)):
            r = self.rule(node, self.fn)
            if r is not None:
                self.n += 1
                return r
        return node


# ------------------------------------------------------------ transformations
def t_rename(fn):
    """local variables get other names"""
    if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
           n.func.id in ('locals', 'vars', 'eval', 'exec')
           for n in ast.walk(fn)):
        return 0
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, FN + (ast.ClassDef, ast.Lambda)):
            inner = True
            break
    else:
        inner = False
    glob = set()
    loc = set()
    for n in own_nodes(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            loc.add(n.id)
    args = {n.arg for n in ast.walk(fn.args) if isinstance(n, ast.arg)}
    loc -= glob | args | {n.name for n in ast.walk(fn) if isinstance(
        n, FN + (ast.ClassDef, ast.ExceptHandler))}
    if inner:
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, FN + (ast.Lambda,)):
                loc -= {a.arg for a in ast.walk(n.args)
                        if isinstance(a, ast.arg)}
                loc -= {a.id for a in ast.walk(n) if isinstance(a, ast.Name)
                        and isinstance(a.ctx, ast.Store)}
    if not loc:
        return 0
    ren = {x: fresh(fn, 'v_' + x) for x in loc}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in ren:
            n.id = ren[n.id]
    return len(ren)


def s_invert_if(s, fn):
    if isinstance(s, ast.If) and s.orelse:
        t = s.test.operand if isinstance(s.test, ast.UnaryOp) and isinstance(
            s.test.op, ast.Not) else ast.UnaryOp(ast.Not(), s.test)
        return [ast.If(t, s.orelse, s.body)]


def s_invert_plain(s, fn):
    if isinstance(s, ast.If) and not s.orelse:
        return [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Pass()], s.body)]


def s_ifexp(s, fn):
    v = getattr(s, 'value', None)
    if isinstance(s, (ast.Return, ast.Assign)) and isinstance(v, ast.IfExp):
        if isinstance(s, ast.Assign) and not (
                len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
            return
        a, b = copy.copy(s), copy.copy(s)
        a.value, b.value = v.body, v.orelse
        return [ast.If(v.test, [a], [b])]


def b_to_ifexp(body, fn):
    out, n = [], 0
    i = 0
    while i < len(body):
        s = body[i]
        if isinstance(s, ast.If) and len(s.body) == 1:
            a = s.body[0]
            b = s.orelse[0] if len(s.orelse) == 1 else None
            nxt = body[i + 1] if i + 1 < len(body) else None
            if isinstance(a, ast.Return) and a.value is not None:
                if isinstance(b, ast.Return) and b.value is not None:
                    out.append(ast.Return(ast.IfExp(s.test, a.value,
                                                    b.value)))
                    n += 1
                    i += 1
                    continue
                if not s.orelse and isinstance(nxt, ast.Return) \
                        and nxt.value is not None:
                    out.append(ast.Return(ast.IfExp(s.test, a.value,
                                                    nxt.value)))
                    n += 1
                    i += 2
                    continue
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and \
                    len(a.targets) == 1 == len(b.targets) and isinstance(
                        a.targets[0], ast.Name) and ast.dump(
                            a.targets[0]) == ast.dump(b.targets[0]):
                out.append(ast.Assign(a.targets, ast.IfExp(
                    s.test, a.value, b.value)))
                n += 1
                i += 1
                continue
        out.append(s)
        i += 1
    return (n, out) if n else None


def s_nest_and(s, fn):
    if isinstance(s, ast.If) and not s.orelse and isinstance(
            s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
        body = s.body
        for v in reversed(s.test.values):
            body = [ast.If(v, body, [])]
        return body


def s_flat_and(s, fn):
    if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1:
        i = s.body[0]
        if isinstance(i, ast.If) and not i.orelse:
            return [ast.If(ast.BoolOp(ast.And(), [s.test, i.test]), i.body,
                           [])]


def b_unelse(body, fn):
    """if c: leave  else: rest  ->  if c: leave ; rest"""
    out, n = [], 0
    for s in body:
        if isinstance(s, ast.If) and s.orelse and ends(s.body):
            n += 1
            out.append(ast.If(s.test, s.body, []))
            out.extend(s.orelse)
        else:
            out.append(s)
    return (n, out) if n else None


def b_else(body, fn):
    """if c: leave ; rest  ->  if c: leave  else: rest"""
    n = 0
    out = list(body)
    for i in range(len(out) - 2, -1, -1):
        s = out[i]
        if isinstance(s, ast.If) and not s.orelse and ends(s.body):
            out = out[:i] + [ast.If(s.test, s.body, out[i + 1:])]
            n += 1
    return (n, out) if n else None


def s_return_temp(s, fn):
    if isinstance(s, ast.Return) and s.value is not None and \
            not is_simple(s.value):
        x = fresh(fn, 'result_')
        return [ast.Assign([store(x)], s.value), ast.Return(name(x))]


def s_test_temp(s, fn):
    if isinstance(s, ast.If) and not is_simple(s.test):
        x = fresh(fn, 'cond_')
        return [ast.Assign([store(x)], s.test),
                ast.If(name(x), s.body, s.orelse)]


def s_iter_temp(s, fn):
    if isinstance(s, ast.For) and not is_simple(s.iter):
        x = fresh(fn, 'seq_')
        return [ast.Assign([store(x)], s.iter),
                ast.For(s.target, name(x), s.body, s.orelse)]


def s_arg_temp(s, fn):
    """the first argument of a call statement gets a name (evaluated before
    only when the function called is a plain name or attribute of one)"""
    v = getattr(s, 'value', None)
    if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and isinstance(
            v, ast.Call) and v.args and not is_simple(v.args[0]) and \
            not isinstance(v.args[0], (ast.Starred, ast.GeneratorExp)) and \
            (isinstance(v.func, ast.Name) or isinstance(
                v.func, ast.Attribute) and isinstance(v.func.value,
                                                      ast.Name)):
        if isinstance(v.func, ast.Name) and v.func.id in ('super', 'locals'):
            return
        x = fresh(fn, 'arg_')
        c = ast.Call(v.func, [name(x)] + v.args[1:], v.keywords)
        s2 = copy.copy(s)
        s2.value = c
        return [ast.Assign([store(x)], v.args[0]), s2]


def e_demorgan(e, fn):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) and \
            isinstance(e.operand, ast.BoolOp):
        o = e.operand
        op = ast.And() if isinstance(o.op, ast.Or) else ast.Or()
        return ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in o.values])


def s_demorgan(s, fn):
    if isinstance(s, (ast.If, ast.While)) and isinstance(s.test, ast.BoolOp):
        o = s.test
        op = ast.And() if isinstance(o.op, ast.Or) else ast.Or()
        s2 = copy.copy(s)
        s2.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [
            v.operand if isinstance(v, ast.UnaryOp) and isinstance(
                v.op, ast.Not) else ast.UnaryOp(ast.Not(), v)
            for v in o.values]))
        return [s2]


def e_notin(e, fn):
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        o = e.ops[0]
        m = {ast.NotIn: ast.In, ast.IsNot: ast.Is, ast.NotEq: None}
        if type(o) in (ast.NotIn, ast.IsNot):
            return ast.UnaryOp(ast.Not(), ast.Compare(
                e.left, [m[type(o)]()], e.comparators))


def e_swapis(e, fn):
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(
            e.ops[0], (ast.Is, ast.IsNot)) and is_simple(e.comparators[0]):
        return ast.Compare(e.comparators[0], e.ops, [e.left])


def e_isinst(e, fn):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id in ('isinstance', 'issubclass') and isinstance(
                e.args[1], ast.Tuple) and is_simple(e.args[0]):
        return ast.BoolOp(ast.Or(), [ast.Call(e.func, [e.args[0], c], [])
                                     for c in e.args[1].elts])


def e_literals(e, fn):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
        if e.func.id == 'dict' and not e.args and all(
                k.arg for k in e.keywords):
            return ast.Dict([ast.Constant(k.arg) for k in e.keywords],
                            [k.value for k in e.keywords])
        if e.func.id == 'list' and not e.args and not e.keywords:
            return ast.List([], ast.Load())
        if e.func.id in ('tuple', 'set', 'list', 'dict', 'sorted', 'sum') \
                and len(e.args) == 1 and isinstance(
                    e.args[0], ast.GeneratorExp):
            g = e.args[0]
            return ast.Call(e.func, [ast.ListComp(g.elt, g.generators)],
                            e.keywords)
    if isinstance(e, ast.Dict) and not e.keys:
        return ast.Call(name('dict'), [], [])


def s_super(s, fn):
    n = 0
    for c in ast.walk(s):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and \
                c.func.id == 'super' and len(c.args) == 2 and isinstance(
                    c.args[1], ast.Name) and fn.args.args and \
                c.args[1].id == fn.args.args[0].arg:
            c.args = []
            n += 1
    return [s] if n else None


def t_super(fn):
    if any(isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.Lambda) + FN)
           and any(isinstance(c, ast.Name) and c.id == 'super'
                   for c in ast.walk(n)) for n in ast.walk(fn)
           if n is not fn):
        return 0
    n = 0
    for s in fn.body:
        if s_super(s, fn):
            n += 1
    return n


def s_comp_loop(s, fn):
    """x = [e for ...] / return tuple(e for ...)  as a loop"""
    v = getattr(s, 'value', None)
    if not isinstance(s, (ast.Return, ast.Assign)) or v is None:
        return
    if isinstance(s, ast.Assign) and not (
            len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
        return
    wrap = None
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
            v.func.id in ('tuple', 'list', 'set', 'dict', 'frozenset',
                          'any', 'all') \
            and len(v.args) == 1 and isinstance(
                v.args[0], (ast.GeneratorExp, ast.ListComp)) and \
            not v.keywords:
        wrap, v = v.func.id, v.args[0]
        if wrap == 'dict' and not (isinstance(v.elt, ast.Tuple) and
                                   len(v.elt.elts) == 2):
            return
    elif not isinstance(v, (ast.ListComp, ast.DictComp, ast.SetComp)):
        return
    acc = fresh(fn, 'acc_')
    # the variables of the comprehension must not shadow those of the function
    tv = set()
    for g in v.generators:
        for n in ast.walk(g.target):
            if isinstance(n, ast.Name):
                tv.add(n.id)
    ren = {x: fresh(fn, 'c_' + x) for x in tv}
    if any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp,
                          ast.DictComp, ast.SetComp)) for n in ast.walk(v)
           if n is not v):
        return
    v = copy.deepcopy(v)
    first = v.generators[0].iter
    for n in ast.walk(v):
        if isinstance(n, ast.Name) and n.id in ren:
            if any(n is m for m in ast.walk(first)):
                continue
            n.id = ren[n.id]
    if isinstance(v, ast.DictComp) or wrap == 'dict':
        k, e = (v.key, v.value) if isinstance(v, ast.DictComp) else v.elt.elts
        init = ast.Dict([], [])
        do = [ast.Assign([ast.Subscript(name(acc), k, ast.Store())], e)]
        fin = name(acc)
    elif wrap in ('any', 'all'):
        init = ast.Constant(wrap == 'all')
        t = v.elt if wrap == 'any' else ast.UnaryOp(ast.Not(), v.elt)
        if len(v.generators) > 1:
            return
        do = [ast.If(t, [ast.Assign([store(acc)],
                                    ast.Constant(wrap == 'any')),
                         ast.Break()], [])]
        fin = name(acc)
    elif isinstance(v, ast.SetComp) or wrap in ('set', 'frozenset'):
        init = ast.Call(name('set'), [], [])
        do = [ast.Expr(ast.Call(ast.Attribute(name(acc), 'add', ast.Load()),
                                [v.elt], []))]
        fin = name(acc) if wrap != 'frozenset' else ast.Call(
            name('frozenset'), [name(acc)], [])
    else:
        init = ast.List([], ast.Load())
        do = [ast.Expr(ast.Call(ast.Attribute(name(acc), 'append',
                                              ast.Load()), [v.elt], []))]
        fin = name(acc) if wrap in (None, 'list') else ast.Call(
            name(wrap), [name(acc)], [])
    body = do
    for g in reversed(v.generators):
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        body = [ast.For(g.target, g.iter, body, [])]
    s2 = copy.copy(s)
    s2.value = fin
    return [ast.Assign([store(acc)], init)] + body + [s2]


def b_loop_comp(body, fn):
    """x = [] ; for a in b: x.append(e)  as a comprehension"""
    out, n = [], 0
    i = 0
    while i < len(body):
        s = body[i]
        nx = body[i + 1] if i + 1 < len(body) else None
        if isinstance(s, ast.Assign) and isinstance(nx, ast.For) and \
                len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                and not nx.orelse and len(nx.body) == 1:
            x = s.targets[0].id
            v = s.value
            lst = isinstance(v, ast.List) and not v.elts or isinstance(
                v, ast.Call) and isinstance(v.func, ast.Name) and \
                v.func.id == 'list' and not v.args
            st = nx.body[0]
            ifs = []
            while isinstance(st, ast.If) and not st.orelse and \
                    len(st.body) == 1:
                ifs.append(st.test)
                st = st.body[0]
            if lst and isinstance(st, ast.Expr) and isinstance(
                    st.value, ast.Call) and isinstance(
                        st.value.func, ast.Attribute) and isinstance(
                            st.value.func.value, ast.Name) and \
                    st.value.func.value.id == x and \
                    st.value.func.attr == 'append' and not any(
                        isinstance(c, ast.Name) and c.id == x
                        for e in [nx.iter, st.value.args[0]] + ifs
                        for c in ast.walk(e)):
                out.append(ast.Assign(s.targets, ast.ListComp(
                    st.value.args[0],
                    [ast.comprehension(nx.target, nx.iter, ifs, 0)])))
                n += 1
                i += 2
                continue
        out.append(s)
        i += 1
    return (n, out) if n else None


def s_enumerate(s, fn):
    if isinstance(s, ast.For) and not (
            isinstance(s.iter, ast.Call) and isinstance(
                s.iter.func, ast.Name) and s.iter.func.id == 'enumerate'):
        x = fresh(fn, 'n_')
        return [ast.For(ast.Tuple([store(x), s.target], ast.Store()),
                        ast.Call(name('enumerate'), [s.iter], []), s.body,
                        s.orelse)]


def s_while(s, fn):
    """for as a while over the iterator"""
    if isinstance(s, ast.For) and not s.orelse and not any(
            isinstance(n, ast.Continue) for n in ast.walk(s)):
        it = fresh(fn, 'it_')
        return [
            ast.Assign([store(it)], ast.Call(name('iter'), [s.iter], [])),
            ast.While(ast.Constant(True), [
                ast.Try([ast.Assign([s.target], ast.Call(
                    name('next'), [name(it)], []))],
                    [ast.ExceptHandler(name('StopIteration'), None,
                                       [ast.Break()])], [], [])] + s.body,
                [])]


def s_split_assign(s, fn):
    if isinstance(s, ast.Assign) and len(s.targets) > 1 and isinstance(
            s.targets[0], ast.Name):
        return [ast.Assign([s.targets[0]], s.value)] + [
            ast.Assign([t], name(s.targets[0].id)) for t in s.targets[1:]]
    if isinstance(s, ast.Assign) and isinstance(
            s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and \
            len(s.value.elts) == len(s.targets[0].elts) and all(
                isinstance(t, ast.Name) for t in s.targets[0].elts):
        ts = {t.id for t in s.targets[0].elts}
        if not any(isinstance(n, ast.Name) and n.id in ts
                   for n in ast.walk(s.value)):
            return [ast.Assign([t], v) for t, v in zip(
                s.targets[0].elts, s.value.elts)]


def s_noop(s, fn):
    if isinstance(s, (ast.Return, ast.Assign, ast.For, ast.If, ast.Raise)):
        return [ast.Assign([store('_unused')], ast.Constant(None)), s]


def pure(e):
    return all(isinstance(n, (ast.Name, ast.Constant, ast.expr_context,
                              ast.Tuple, ast.List))
               for n in ast.walk(e))


def b_swap(body, fn):
    """neighbouring independent assignments change places"""
    out = list(body)
    n = 0
    i = 0
    while i + 1 < len(out):
        a, b = out[i], out[i + 1]
        if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and
               isinstance(x.targets[0], ast.Name) for x in (a, b)) and \
                (pure(a.value) or pure(b.value)) and \
                a.targets[0].id != b.targets[0].id:
            ra = {n.id for n in ast.walk(a.value) if isinstance(n, ast.Name)}
            rb = {n.id for n in ast.walk(b.value) if isinstance(n, ast.Name)}
            if a.targets[0].id not in rb and b.targets[0].id not in ra:
                out[i], out[i + 1] = b, a
                n += 1
                i += 2
                continue
        i += 1
    return (n, out) if n else None


def b_inline(body, fn):
    """a temporary used once, in the next statement, first of all"""
    out = list(body)
    n = 0
    i = 0
    if any(isinstance(x, FN + (ast.Lambda,)) for x in own_nodes(fn)):
        return None
    while i + 1 < len(out):
        a, b = out[i], out[i + 1]
        if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(
                a.targets[0], ast.Name):
            x = a.targets[0].id
            uses = [m for m in ast.walk(fn) if isinstance(m, ast.Name) and
                    m.id == x]
            place = b.value if isinstance(b, (ast.Return, ast.Expr,
                                              ast.Assign)) else \
                b.test if isinstance(b, ast.If) else \
                b.iter if isinstance(b, ast.For) else None
            if len(uses) == 2 and place is not None and not (
                    isinstance(b, ast.Assign) and not isinstance(
                        b.targets[0], ast.Name)):
                # x has to be the first thing evaluated
                e, ok = place, None
                par = None
                path = []
                while e is not None and ok is None:
                    if isinstance(e, ast.Name):
                        ok = e.id == x
                    elif isinstance(e, ast.Attribute):
                        path.append((e, 'value'))
                        e = e.value
                    elif isinstance(e, ast.Subscript):
                        path.append((e, 'value'))
                        e = e.value
                    elif isinstance(e, ast.UnaryOp):
                        path.append((e, 'operand'))
                        e = e.operand
                    elif isinstance(e, ast.Compare):
                        path.append((e, 'left'))
                        e = e.left
                    elif isinstance(e, ast.IfExp):
                        path.append((e, 'test'))
                        e = e.test
                    elif isinstance(e, ast.Call) and isinstance(
                            e.func, ast.Name) and e.args and e.func.id != x \
                            and not isinstance(e.args[0], ast.Starred):
                        path.append((e, 'args'))
                        e = e.args[0]
                    elif isinstance(e, ast.Call):
                        path.append((e, 'func'))
                        e = e.func
                    else:
                        ok = False
                if ok:
                    if not path:
                        for k in ('value', 'test', 'iter'):
                            if getattr(b, k, None) is place:
                                setattr(b, k, a.value)
                    else:
                        p, k = path[-1]
                        if k == 'args':
                            p.args[0] = a.value
                        else:
                            setattr(p, k, a.value)
                    del out[i]
                    n += 1
                    continue
        i += 1
    return (n, out) if n else None


def s_aug(s, fn):
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and \
            isinstance(s.value, ast.Constant) and isinstance(
                s.value.value, (int, str)):
        return [ast.Assign([s.target], ast.BinOp(
            name(s.target.id), s.op, s.value))]


def s_items(s, fn):
    """for k, v in d.items()  ->  for kv in d.items(): k, v = kv"""
    if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple):
        x = fresh(fn, 'pair_')
        return [ast.For(store(x), s.iter, [
            ast.Assign([s.target], name(x))] + s.body, s.orelse)]


def e_index(e, fn):
    return None


def t_bare_return(fn):
    if is_gen(fn) or ends(fn.body):
        return 0
    fn.body = fn.body + [ast.Return(ast.Constant(None))]
    return 1


def t_single_exit(fn):
    """returns in the arms of the last if are one return of a variable"""
    if is_gen(fn) or not fn.body:
        return 0
    s = fn.body[-1]
    x = fresh(fn, 'ret_')

    def arm(body):
        if not body:
            return None
        l = body[-1]
        if isinstance(l, ast.Return):
            return body[:-1] + [ast.Assign(
                [store(x)], l.value or ast.Constant(None))]
        if isinstance(l, ast.Raise):
            return body
        if isinstance(l, ast.If) and l.orelse:
            a, b = arm(l.body), arm(l.orelse)
            if a is None or b is None:
                return None
            return body[:-1] + [ast.If(l.test, a, b)]
        return None
    if not isinstance(s, ast.If) or not s.orelse:
        return 0
    r = arm(fn.body)
    if r is None:
        return 0
    fn.body = r + [ast.Return(name(x))]
    return 1


def s_local_global(s, fn):
    return None


def t_local_names(fn):
    """dotted names of modules get a local alias"""
    pats = {}
    for n in own_nodes(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            t = ast.unparse(n)
            if t.startswith('normalize.') and t.split('.')[-1][:1].isupper():
                pats.setdefault(t, []).append(n)
    if not pats or is_gen(fn):
        return 0
    return _alias(fn, pats)


def _alias(fn, pats):
    new = []
    ren = {}
    for t in sorted(pats):
        x = fresh(fn, t.split('.')[-1] + '_')
        ren[t] = x
        new.append(ast.Assign([store(x)], ast.parse(t).body[0].value))

    class R(ast.NodeTransformer):
        def visit_Attribute(self, node):
            t = ast.unparse(node)
            if t in ren and isinstance(node.ctx, ast.Load):
                return name(ren[t])
            return self.generic_visit(node)
    k = 1 if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(
        fn.body[0].value, ast.Constant) else 0
    rest = [R().visit(s) for s in fn.body[k:]]
    fn.body = fn.body[:k] + new + rest
    return len(new)


def s_wrap_try(s, fn):
    return None


def doc(fn):
    return fn.body[:1] if fn.body and isinstance(
        fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) \
        and isinstance(fn.body[0].value.value, str) else []


def t_extract_branch(fn):
    """the body of the first plain loop is a local function"""
    for i, s in enumerate(fn.body):
        if isinstance(s, ast.For) and not s.orelse and not any(
                isinstance(n, (ast.Yield, ast.YieldFrom, ast.Return,
                               ast.Break, ast.Continue, ast.Global,
                               ast.Nonlocal, ast.Call) + FN) and (
                    not isinstance(n, ast.Call) or isinstance(
                        n.func, ast.Name) and n.func.id in (
                            'locals', 'super'))
                for b in s.body for n in ast.walk(b)):
            assigned = {n.id for b in s.body for n in ast.walk(b)
                        if isinstance(n, ast.Name) and not isinstance(
                            n.ctx, ast.Load)}
            handlers = {n.name for b in s.body for n in ast.walk(b)
                        if isinstance(n, ast.ExceptHandler) and n.name}
            later = {n.id for t in fn.body[:i] + fn.body[i + 1:]
                     for n in ast.walk(t) if isinstance(n, ast.Name)}
            args = {a.arg for a in ast.walk(fn.args)
                    if isinstance(a, ast.arg)}
            if (assigned | handlers) & (later | args):
                continue
            tv = [n.id for n in ast.walk(s.target)
                  if isinstance(n, ast.Name)]
            if len(set(tv)) != len(tv) or set(tv) & assigned or not all(
                    isinstance(n, (ast.Name, ast.Tuple, ast.expr_context))
                    for n in ast.walk(s.target)):
                continue
            h = fresh(fn, 'each_')
            d = ast.FunctionDef(
                h, ast.arguments([], [ast.arg(x) for x in tv], None, [], [],
                                 None, []), s.body, [], None)
            if 'type_params' in ast.FunctionDef._fields:
                d.type_params = []
            loop = ast.For(s.target, s.iter, [ast.Expr(ast.Call(
                name(h), [name(x) for x in tv], []))], [])
            fn.body = fn.body[:i] + [d, loop] + fn.body[i + 1:]
            return 1
    return 0


TRANS = {
    'rename': t_rename,
    'invert-if': per_statement(s_invert_if),
    'invert-plain': per_statement(s_invert_plain),
    'ifexp-if': per_statement(s_ifexp),
    'if-ifexp': Bodies(b_to_ifexp),
    'nest-and': per_statement(s_nest_and),
    'flat-and': per_statement(s_flat_and),
    'unelse': Bodies(b_unelse),
    'else': Bodies(b_else),
    'return-temp': per_statement(s_return_temp),
    'test-temp': per_statement(s_test_temp),
    'iter-temp': per_statement(s_iter_temp),
    'arg-temp': per_statement(s_arg_temp),
    'demorgan': Exprs(e_demorgan),
    'demorgan-if': per_statement(s_demorgan),
    'not-in': Exprs(e_notin),
    'swap-is': Exprs(e_swapis),
    'isinstance-or': Exprs(e_isinst),
    'literals': Exprs(e_literals),
    'super': t_super,
    'comp-loop': per_statement(s_comp_loop),
    'loop-comp': Bodies(b_loop_comp),
    'enumerate': per_statement(s_enumerate),
    'while': per_statement(s_while),
    'split-assign': per_statement(s_split_assign),
    'noop': per_statement(s_noop),
    'swap': Bodies(b_swap),
    'inline': Bodies(b_inline),
    'aug': per_statement(s_aug),
    'pair': per_statement(s_items),
    'bare-return': t_bare_return,
    'single-exit': t_single_exit,
    'alias': t_local_names,
    'extract-loop': t_extract_branch,
}


# ---------------------------------------------------------------- second part
BAD_IN_HELPER = (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr,
                 ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                 ast.GeneratorExp)
COUNT = itertools.count()
NEW = []        # helper functions made for the module at hand


def local_names(fn):
    out = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            out.add(n.id)
        elif isinstance(n, FN) and n is not fn:
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in n.names}
    return out


def free(nodes, fn):
    loc = local_names(fn)
    out = []
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id in loc and n.id not in out \
                    and isinstance(n.ctx, ast.Load):
                out.append(n.id)
    return out


def helper(args, body):
    d = ast.FunctionDef(
        '_extracted_%d' % next(COUNT),
        ast.arguments([], [ast.arg(x) for x in args], None, [], [], None, []),
        body, [], None)
    if 'type_params' in ast.FunctionDef._fields:
        d.type_params = []
    NEW.append(d)
    return d.name


def liftable(nodes, more=()):
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, BAD_IN_HELPER + more) or isinstance(
                    n, ast.Name) and n.id in ('super', 'locals', '__class__',
                                              'vars', 'globals'):
                return False
            if isinstance(n, ast.Attribute) and n.attr.startswith('__') and \
                    not n.attr.endswith('__'):
                return False
    return True


def nested(fn):
    return getattr(fn, 'nested_', False) or any(
        isinstance(n, FN) and n is not fn for n in ast.walk(fn))


def s_extract_test(s, fn):
    if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and \
            liftable([s.test]) and not nested(fn):
        a = free([s.test], fn)
        h = helper(a, [ast.Return(s.test)])
        return [ast.If(ast.Call(name(h), [name(x) for x in a], []), s.body,
                       s.orelse)]


def s_extract_value(s, fn):
    v = getattr(s, 'value', None)
    if isinstance(s, (ast.Assign, ast.Return)) and isinstance(
            v, (ast.Call, ast.IfExp, ast.BoolOp, ast.BinOp, ast.Tuple)) and \
            liftable([v]) and not nested(fn) and not (
                isinstance(v, ast.BinOp) and isinstance(
                    v.right, ast.Constant)):
        a = free([v], fn)
        h = helper(a, [ast.Return(v)])
        s2 = copy.copy(s)
        s2.value = ast.Call(name(h), [name(x) for x in a], [])
        return [s2]


def s_extract_loop(s, fn):
    """the body of a for loop without output"""
    if isinstance(s, ast.For) and not nested(fn) and len(s.body) >= 1:
        r = _block(s.body, fn, s)
        if r:
            s2 = copy.copy(s)
            s2.body = r
            return [s2]


def s_extract_branch(s, fn):
    if isinstance(s, ast.If) and not nested(fn):
        r = _block(s.body, fn, s)
        if r:
            return [ast.If(s.test, r, s.orelse)]


def _block(body, fn, s):
    if not liftable(body, (ast.Return, ast.Break, ast.Continue, ast.Global,
                           ast.Nonlocal, ast.Import, ast.ImportFrom,
                           ast.Delete)) or len(body) == 1 and \
            not isinstance(body[0], (ast.For, ast.If, ast.Expr, ast.Try)):
        return None
    if all(isinstance(x, ast.Pass) for x in body):
        return None
    if len(body) == 1 and isinstance(body[0], ast.Raise):
        return None
    inside = {id(n) for b in body for n in ast.walk(b)}
    st = {n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name)
          and not isinstance(n.ctx, ast.Load)}
    other = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and
             id(n) not in inside}
    if st & other or st & {a.arg for a in ast.walk(fn.args)
                           if isinstance(a, ast.arg)}:
        return None
    a = [x for x in free(body, fn) if x not in st]
    # what is not always bound before cannot be passed
    if not set(a) <= sure(fn, s):
        return None
    h = helper(a, body)
    return [ast.Expr(ast.Call(name(h), [name(x) for x in a], []))]


def sure(fn, s, into=True):
    """names bound for certain where the statement stands"""
    out = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}

    def tgt(t):
        return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}

    def go(body, have):
        for x in body:
            if x is s:
                if isinstance(x, ast.For) and into:
                    have = have | tgt(x.target)
                return have
            for k in ('body', 'orelse', 'finalbody'):
                v = getattr(x, k, None)
                if isinstance(v, list) and v and not isinstance(
                        x, FN + (ast.ClassDef,)):
                    h = set(have)
                    if isinstance(x, ast.For) and k == 'body':
                        h |= tgt(x.target)
                    r = go(v, h)
                    if r is not None:
                        return r
            for hh in getattr(x, 'handlers', ()):
                r = go(hh.body, have | ({hh.name} if hh.name else set()))
                if r is not None:
                    return r
            if isinstance(x, ast.Assign):
                have = have | {t.id for t in x.targets
                               if isinstance(t, ast.Name)}
                for t in x.targets:
                    if isinstance(t, ast.Tuple):
                        have |= tgt(t)
            elif isinstance(x, ast.If) and x.orelse:
                def a(b):
                    return {t.id for y in b if isinstance(y, ast.Assign)
                            for t in y.targets if isinstance(t, ast.Name)}
                p = None if ends(x.body) else a(x.body)
                q = None if ends(x.orelse) else a(x.orelse)
                if p is None:
                    p = q or set()
                if q is None:
                    q = p
                have = have | (p & q)
        return None
    return go(fn.body, out) or set()


def t_extract_tail(fn):
    """the second half of the function is another function"""
    if nested(fn) or not liftable(fn.body[1:], (ast.Global, ast.Nonlocal)) \
            and not is_gen(fn):
        return 0
    gen = is_gen(fn)
    k = len(doc(fn))
    n = len(fn.body)
    if n - k < 2:
        return 0
    for i in range(k + (n - k) // 2, n):
        tail = fn.body[i:]
        if not tail:
            continue
        bad = [x for t in tail for x in ast.walk(t) if isinstance(
            x, (ast.Lambda, ast.NamedExpr) + FN) or isinstance(
                x, ast.Name) and x.id in ('super', 'locals', '__class__')
            or isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp,
                              ast.SetComp))]
        if bad:
            continue
        if gen and not any(isinstance(x, (ast.Yield, ast.YieldFrom))
                           for t in tail for x in ast.walk(t)):
            continue
        if gen and any(isinstance(x, ast.Return) for t in fn.body[:i]
                       for x in ast.walk(t)) and False:
            continue
        a = [x for x in free(tail, fn)]
        ok = sure(fn, fn.body[i], False)
        st = {m.id for t in tail for m in ast.walk(t) if isinstance(
            m, ast.Name) and not isinstance(m.ctx, ast.Load)} | {
                h.name for t in tail for h in ast.walk(t)
                if isinstance(h, ast.ExceptHandler) and h.name}
        head = {m.id for t in fn.body[:i] for m in ast.walk(t) if isinstance(
            m, ast.Name) and not isinstance(m.ctx, ast.Load)}
        a = [x for x in a if x in ok or x not in st or x in head]
        if not set(a) <= ok:
            continue
        if len(tail) == 1 and isinstance(tail[0], (ast.Return, ast.Raise,
                                                   ast.Expr)):
            continue
        h = helper(a, tail)
        c = ast.Call(name(h), [name(x) for x in a], [])
        fn.body = fn.body[:i] + [
            ast.Expr(ast.YieldFrom(c)) if gen else ast.Return(c)]
        return 1
    return 0


def b_continue(body, fn):
    return None


def s_continue(s, fn):
    """for ...: if c: body   ->   if not c: continue ; body"""
    if isinstance(s, ast.For) and isinstance(s.body[-1], ast.If) and \
            not s.body[-1].orelse and not ends(s.body[-1].body):
        i = s.body[-1]
        s2 = copy.copy(s)
        s2.body = s.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), i.test),
                                        [ast.Continue()], [])] + i.body
        return [s2]


def s_uncontinue(s, fn):
    """for ...: if c: continue ; body   ->   if not c: body"""
    if isinstance(s, ast.For):
        def go(body):
            for k, i in enumerate(body):
                if isinstance(i, ast.If) and not i.orelse and isinstance(
                        i.body[-1], ast.Continue) and body[k + 1:]:
                    rest = go(body[k + 1:])
                    if len(i.body) == 1:
                        return body[:k] + [ast.If(
                            ast.UnaryOp(ast.Not(), i.test), rest, [])]
                    return body[:k] + [ast.If(i.test, i.body[:-1], rest)]
            return body
        r = go(s.body)
        if r is not s.body:
            s2 = copy.copy(s)
            s2.body = r
            return [s2]


def s_unpack_temp(s, fn):
    if isinstance(s, ast.Assign) and isinstance(
            s.targets[0], ast.Tuple) and not isinstance(s.value, ast.Tuple):
        x = fresh(fn, 'got_')
        return [ast.Assign([store(x)], s.value),
                ast.Assign(s.targets, name(x))]


def s_setitem_update(s, fn):
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
            s.targets[0], ast.Subscript) and isinstance(
                s.targets[0].value, ast.Name) and isinstance(
                    s.targets[0].slice, ast.Constant) and isinstance(
                        s.targets[0].slice.value, str) and \
            s.targets[0].slice.value.isidentifier() and \
            'kw' in s.targets[0].value.id:
        return [ast.Expr(ast.Call(ast.Attribute(
            s.targets[0].value, 'update', ast.Load()), [], [
                ast.keyword(s.targets[0].slice.value, s.value)]))]


def t_append_aug(fn):
    lists = set()
    for n in own_nodes(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name):
            v = n.value
            (lists.add if isinstance(v, ast.List) or isinstance(
                v, ast.Call) and isinstance(v.func, ast.Name) and
                v.func.id == 'list' else lists.discard)(n.targets[0].id)
    if nested(fn):
        return 0

    def rule(s, fn):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr == 'append' and isinstance(
                    s.value.func.value, ast.Name) and \
                s.value.func.value.id in lists:
            return [ast.AugAssign(store(s.value.func.value.id), ast.Add(),
                                  ast.List(s.value.args, ast.Load()))]
    return per_statement(rule)(fn)


def s_raise_temp(s, fn):
    if isinstance(s, ast.Raise) and isinstance(s.exc, ast.Call) and \
            not s.cause:
        x = fresh(fn, 'error_')
        return [ast.Assign([store(x)], s.exc), ast.Raise(name(x), None)]


def s_yield_temp(s, fn):
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield) and \
            s.value.value is not None and not is_simple(s.value.value):
        x = fresh(fn, 'out_')
        return [ast.Assign([store(x)], s.value.value),
                ast.Expr(ast.Yield(name(x)))]


def s_yield_from(s, fn):
    if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and \
            isinstance(s.target, ast.Name):
        y = s.body[0]
        if isinstance(y, ast.Expr) and isinstance(y.value, ast.Yield) and \
                isinstance(y.value.value, ast.Name) and \
                y.value.value.id == s.target.id:
            return [ast.Expr(ast.YieldFrom(s.iter))]


def s_kw_dict(s, fn):
    v = getattr(s, 'value', None) if isinstance(
        s, (ast.Return, ast.Assign, ast.Expr)) else None
    if isinstance(v, ast.Call) and v.keywords and all(
            k.arg for k in v.keywords) and not (
                isinstance(v.func, ast.Name) and v.func.id in (
                    'dict', 'sorted', 'max', 'min')) and all(
                        is_simple(a) for a in v.args):
        x = fresh(fn, 'kw_')
        s2 = copy.copy(s)
        s2.value = ast.Call(v.func, v.args, [ast.keyword(None, name(x))])
        return [ast.Assign([store(x)], ast.Dict(
            [ast.Constant(k.arg) for k in v.keywords],
            [k.value for k in v.keywords])), s2]


def s_range_len(s, fn):
    if isinstance(s, ast.For) and not s.orelse:
        x, i = fresh(fn, 'seq_'), fresh(fn, 'i_')
        return [
            ast.Assign([store(x)], ast.Call(name('list'), [s.iter], [])),
            ast.For(store(i), ast.Call(name('range'), [ast.Call(
                name('len'), [name(x)], [])], []), [ast.Assign(
                    [s.target], ast.Subscript(name(x), name(i),
                                              ast.Load()))] + s.body, [])]


def s_range_item(s, fn):
    """for i in range(len(seq)): the item is seq[i] wherever it is used"""
    if isinstance(s, ast.For) and not s.orelse and isinstance(
            s.target, ast.Name) and not any(
                isinstance(n, FN + (ast.Lambda, ast.comprehension))
                for n in ast.walk(s)):
        v = s.target.id
        inside = {id(n) for n in ast.walk(s)}
        if any(isinstance(n, ast.Name) and n.id == v and (
                id(n) not in inside or n is not s.target and
                not isinstance(n.ctx, ast.Load)) for n in ast.walk(fn)):
            return
        x, i = fresh(fn, 'seq_'), fresh(fn, 'i_')

        class R(ast.NodeTransformer):
            def visit_Name(self, node):
                if node.id == v:
                    return ast.Subscript(name(x), name(i), ast.Load())
                return node
        return [
            ast.Assign([store(x)], ast.Call(name('list'), [s.iter], [])),
            ast.For(store(i), ast.Call(name('range'), [ast.Call(
                name('len'), [name(x)], [])], []),
                    [R().visit(b) for b in s.body], [])]


def s_while_index(s, fn):
    if isinstance(s, ast.For) and not s.orelse and not any(
            isinstance(n, ast.Continue) for n in ast.walk(s)):
        x, i = fresh(fn, 'seq_'), fresh(fn, 'i_')
        return [
            ast.Assign([store(x)], ast.Call(name('list'), [s.iter], [])),
            ast.Assign([store(i)], ast.Constant(0)),
            ast.While(ast.Compare(name(i), [ast.Lt()], [ast.Call(
                name('len'), [name(x)], [])]), [
                    ast.Assign([s.target], ast.Subscript(
                        name(x), name(i), ast.Load()))] + s.body + [
                            ast.AugAssign(store(i), ast.Add(),
                                          ast.Constant(1))], [])]


def s_while_pop(s, fn):
    if isinstance(s, ast.For) and not s.orelse:
        x = fresh(fn, 'todo_')
        return [
            ast.Assign([store(x)], ast.Call(name('list'), [s.iter], [])),
            ast.While(name(x), [ast.Assign([s.target], ast.Call(
                ast.Attribute(name(x), 'pop', ast.Load()),
                [ast.Constant(0)], []))] + s.body, [])]


def s_while_break(s, fn):
    if isinstance(s, ast.While) and not (isinstance(
            s.test, ast.Constant)) and not s.orelse:
        return [ast.While(ast.Constant(True), [ast.If(
            ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])] + s.body,
            [])]


def e_getattr(e, fn):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id == 'getattr' and len(e.args) == 3 and all(
                is_simple(a) for a in e.args[:2]) and isinstance(
                    e.args[2], ast.Constant):
        return ast.IfExp(
            ast.Call(name('hasattr'), e.args[:2], []),
            ast.Call(name('getattr'), e.args[:2], []), e.args[2])


def e_or(e, fn):
    if isinstance(e, ast.BoolOp) and len(e.values) == 2 and isinstance(
            e.values[0], ast.Name):
        a, b = e.values
        return ast.IfExp(a, a, b) if isinstance(e.op, ast.Or) else \
            ast.IfExp(a, b, a)


def e_get(e, fn):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
            e.func.attr in ('get', 'pop') and isinstance(
                e.func.value, ast.Name) and fn.args.kwarg and \
            e.func.value.id == fn.args.kwarg.arg and e.func.attr == 'get' \
            and all(is_simple(a) for a in e.args):
        d = e.func.value
        return ast.IfExp(
            ast.Compare(e.args[0], [ast.In()], [d]),
            ast.Subscript(d, e.args[0], ast.Load()),
            e.args[1] if len(e.args) > 1 else ast.Constant(None))


def e_bool(e, fn):
    return None


def s_bool(s, fn):
    if isinstance(s, ast.If) and not isinstance(s.test, (ast.Compare,)):
        return [ast.If(ast.Call(name('bool'), [s.test], []), s.body,
                       s.orelse)]


TRANS.update({
    'extract-test': per_statement(s_extract_test),
    'extract-value': per_statement(s_extract_value),
    'extract-body': per_statement(s_extract_loop),
    'extract-branch': per_statement(s_extract_branch),
    'extract-tail': t_extract_tail,
    'continue': per_statement(s_continue),
    'uncontinue': per_statement(s_uncontinue),
    'unpack-temp': per_statement(s_unpack_temp),
    'setitem-update': per_statement(s_setitem_update),
    'append-aug': t_append_aug,
    'raise-temp': per_statement(s_raise_temp),
    'yield-temp': per_statement(s_yield_temp),
    'yield-from': per_statement(s_yield_from),
    'kw-dict': per_statement(s_kw_dict),
    'range-len': per_statement(s_range_len),
    'range-item': per_statement(s_range_item),
    'while-index': per_statement(s_while_index),
    'while-pop': per_statement(s_while_pop),
    'while-break': per_statement(s_while_break),
    'getattr': Exprs(e_getattr),
    'or-ifexp': Exprs(e_or),
    'kwargs-get': Exprs(e_get),
    'bool': per_statement(s_bool),
})


# whole classes and modules
def m_impl(tree, sel, mod):
    """the body of a method (function) moves to another one it calls"""
    n = 0

    def split(fn, owner):
        a = fn.args
        if fn.decorator_list or a.kwonlyargs or a.posonlyargs or not fn.body:
            return None
        if len(fn.body) - len(doc(fn)) < 2 or fn.name == '__new__':
            return None
        if any(isinstance(x, ast.Name) and x.id in ('super', '__class__',
                                                    'locals')
               for x in ast.walk(fn)):
            return None
        new = copy.deepcopy(fn)
        base = fn.name.replace('__', '')
        new.name = '_do_' + base
        new.args.defaults = []
        call = [name(x.arg) for x in a.args]
        if owner:
            if not call:
                return None
            f = ast.Attribute(call[0], new.name, ast.Load())
            call = call[1:]
        else:
            f = name(new.name)
        if a.vararg:
            call.append(ast.Starred(name(a.vararg.arg), ast.Load()))
        kw = [ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else []
        fn.body = doc(fn) + [ast.Return(ast.Call(f, call, kw))]
        return new

    for x in list(tree.body):
        if isinstance(x, FN) and sel(mod + '.' + x.name):
            new = split(x, False)
            if new is not None:
                tree.body.insert(tree.body.index(x) + 1, new)
                n += 1
        elif isinstance(x, ast.ClassDef):
            for y in list(x.body):
                if isinstance(y, FN) and sel(mod + '.' + x.name + '.' +
                                             y.name):
                    new = split(y, True)
                    if new is not None:
                        new.name = '_do_%s_%s' % (
                            x.name.lower(), y.name.replace('__', ''))
                        y.body[-1].value.func.attr = new.name
                        x.body.insert(x.body.index(y) + 1, new)
                        n += 1
    return n


def m_method(tree, sel, mod):
    """functions made of parts of methods are methods"""
    n = 0
    for h in list(tree.body):
        if not isinstance(h, FN) or not h.name.startswith('_extracted_'):
            continue
        calls = []
        for c in tree.body:
            for y in (c.body if isinstance(c, ast.ClassDef) else ()):
                for z in (ast.walk(y) if isinstance(y, FN) else ()):
                    if isinstance(z, ast.Call) and isinstance(
                            z.func, ast.Name) and z.func.id == h.name:
                        calls.append((c, y, z))
        refs = sum(isinstance(z, ast.Name) and z.id == h.name
                   for z in ast.walk(tree))
        if len(calls) != 1 or refs != 1:
            continue
        c, y, z = calls[0]
        if not y.args.args or y.name == '__new__' or any(
                not isinstance(d, ast.Name) or d.id != 'classmethod'
                for d in y.decorator_list) or any(
                    isinstance(b, ast.Name) and b.id in ('dict', 'tuple',
                                                         'list')
                    for b in c.bases):
            continue
        me = y.args.args[0].arg
        k = [i for i, a in enumerate(z.args)
             if isinstance(a, ast.Name) and a.id == me]
        if not k:
            continue
        h.args.args.insert(0, h.args.args.pop(k[0]))
        z.args.pop(k[0])
        z.func = ast.Attribute(name(me), h.name, ast.Load())
        h.decorator_list = list(y.decorator_list)
        tree.body.remove(h)
        c.body.insert(c.body.index(y) + 1, h)
        n += 1
    return n


def m_order(tree, sel, mod):
    """methods are declared in another order"""
    n = 0
    for x in ast.walk(tree):
        if isinstance(x, ast.ClassDef):
            idx = [i for i, y in enumerate(x.body) if isinstance(y, FN) and
                   not y.decorator_list]
            used = {z.id for y in x.body for z in ast.walk(y)
                    if not isinstance(y, FN) and isinstance(z, ast.Name)}
            idx = [i for i in idx if x.body[i].name not in used]
            names = [x.body[i].name for i in idx]
            if len(set(names)) != len(names) or len(idx) < 2:
                continue
            fs = [x.body[i] for i in idx][::-1]
            for i, f in zip(idx, fs):
                x.body[i] = f
            n += len(idx)
    return n


def m_kwargs(tree, sel, mod):
    """arguments of functions of the module are given by keyword"""
    sig = {}
    for x in tree.body:
        if isinstance(x, FN) and not x.args.vararg and not x.decorator_list:
            sig[x.name] = [a.arg for a in x.args.args]
    n = 0
    for c in ast.walk(tree):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and \
                c.func.id in sig and c.args and not any(
                    isinstance(a, ast.Starred) for a in c.args):
            ps = sig[c.func.id]
            if len(c.args) > len(ps):
                continue
            c.keywords = [ast.keyword(p, a) for p, a in zip(ps, c.args)] + \
                c.keywords
            c.args = []
            n += 1
    return n


def m_static(tree, sel, mod):
    """from x import y: names of modules imported under another name"""
    n = 0
    for x in tree.body:
        if isinstance(x, ast.Import):
            pass
    return n


MODS = {'impl': m_impl, 'method': m_method, 'order': m_order, 'kwargs': m_kwargs}


def functions(tree, mod):
    out = []

    def walk(node, pre):
        for x in node.body:
            if isinstance(x, FN):
                out.append((pre + '.' + x.name, x))
                for y in ast.walk(x):
                    if y is not x and isinstance(y, FN):
                        y.nested_ = True
                        out.append((pre + '.' + x.name + '.' + y.name, y))
            elif isinstance(x, ast.ClassDef):
                walk(x, pre + '.' + x.name)
    walk(tree, mod)
    return out


def modules(root):
    for d, _, fs in os.walk(os.path.join(root, 'normalize')):
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                mod = os.path.relpath(p, root)[:-3].replace('/', '.')
                if mod.endswith('.__init__'):
                    mod = mod[:-9]
                yield p, mod


def apply(root, trans, sel):
    """number of sites; the names of the functions changed; several
    transformations, one after another, are written a+b"""
    n, names = 0, []
    for t in trans.split('+'):
        n, more = apply1(root, t, sel)
        names += more
    return n, sorted(set(names))


def apply1(root, trans, sel):
    n, names = 0, []
    for p, mod in modules(root):
        src = open(p).read()
        tree = ast.parse(src)
        k = 0
        if trans in MODS:
            k = MODS[trans](tree, sel, mod)
            if k:
                names.append(mod)
        else:
            del NEW[:]
            for q, fn in functions(tree, mod):
                if sel(q):
                    r = TRANS[trans](fn)
                    if r:
                        k += r
                        names.append(q)
            tree.body.extend(NEW)
        if k:
            ast.fix_missing_locations(tree)
            out = ast.unparse(tree)
            compile(out, p, 'exec')
            open(p, 'w').write(out + '\n')
            n += k
    return n, names


def ids():
    return ['C%02d' % i for i in range(1, 33)]


def check(root, cid):
    r = subprocess.run(
        ['/usr/bin/python3', '-W', 'ignore', VERIF + '/check.py', cid,
         '--tier', 'quick', '--repo', root, '--no-evidence', '-v'],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lines = [x for x in r.stdout.splitlines() if x.startswith('  ')
             and ' at normalize/' in x]
    und = [x for x in r.stdout.splitlines() if 'undecided' in x.lower()]
    return cid, r.returncode, lines or r.stdout.splitlines()[-2:], und


def scratch():
    d = tempfile.mkdtemp(prefix='ar', dir='/tmp')
    shutil.copytree(REPO + '/normalize', d + '/normalize')
    return d


def tests(root):
    d = tempfile.mkdtemp(prefix='art', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', REPO + '/.', d])
        shutil.rmtree(d + '/normalize')
        shutil.copytree(root + '/normalize', d + '/normalize')
        env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m',
                            'pytest', '-q', '-p', 'no:cacheprovider',
                            'tests'],
                           cwd=d, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        return r.stdout.splitlines()[-1:]
    finally:
        shutil.rmtree(d)


def run(trans, sel, cids, with_tests):
    d = scratch()
    try:
        n, names = apply(d, trans, sel)
        if not n:
            return 0, [], None
        t = tests(d) if with_tests else None
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda c: check(d, c), cids))
        return n, [r for r in res if r[1]], t
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('rest', nargs='*')
    ap.add_argument('-t')
    ap.add_argument('-f', default='')
    ap.add_argument('-c')
    ap.add_argument('--tests', action='store_true')
    a = ap.parse_args()
    every = list(TRANS) + list(MODS)
    if a.cmd == 'list':
        print(' '.join(every))
    elif a.cmd == 'run':
        for t in (a.t.split(',') if a.t else every):
            n, bad, ts = run(t, lambda q: a.f in q,
                             a.c.split(',') if a.c else ids(), a.tests)
            print('== %s: %d sites%s' % (t, n, ' tests: %s' % ts if ts
                                         else ''), flush=True)
            for cid, rc, lines, und in bad:
                for x in lines[:4]:
                    print('   %s=%d %s' % (cid, rc, x.strip()[:200]))
    elif a.cmd == 'bisect':
        t, cid = a.rest[:2]
        d = scratch()
        _, names = apply(d, t, lambda q: True)
        shutil.rmtree(d)
        if t in MODS:
            names = []
            for p, mod in modules(REPO):
                names += [q for q, _ in functions(ast.parse(
                    open(p).read()), mod)]

        def one(q):
            return q, run(t, lambda x: x == q, [cid], False)
        with ThreadPoolExecutor(6) as ex:
            for q, (n, bad, _) in ex.map(one, names):
                for cid, rc, lines, und in bad:
                    print('%s %s=%d %s' % (q, cid, rc,
                                           lines[0].strip()[:220]))
    elif a.cmd == 'show':
        t, q = a.rest[:2]
        d = scratch()
        _, names = apply(d, t, lambda x: x == q)
        for p, mod in modules(d):
            if (q + '.').startswith(mod + '.'):
                for qq, fn in functions(ast.parse(open(p).read()), mod):
                    if qq == q:
                        print(ast.unparse(fn))
        shutil.rmtree(d)


if __name__ == '__main__':
    main()
