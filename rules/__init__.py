import ast
import importlib
import os
import re


class Isolate(ast.NodeTransformer):
    """Each part of a rule is decided on its own: where one part meets a
    construct it cannot handle, that part is undecided and the others are
    still decided."""

    def wrap(self, s):
        h = ast.parse('try:\n    pass\nexcept Exception as exc_:\n'
                      '    C.failed(exc_)\n').body[0]
        h.body = [s]
        for n in ast.walk(h):
            if not hasattr(n, 'lineno'):
                n.lineno = n.end_lineno = s.lineno
                n.col_offset = n.end_col_offset = 0
        for n in ast.walk(h.handlers[0]):
            n.lineno = n.end_lineno = s.lineno
        return h

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, (ast.For, ast.If)):
                s.body = self.block(s.body)
                s.orelse = self.block(s.orelse)
            if isinstance(s, (ast.Expr, ast.For, ast.If)):
                s = self.wrap(s)
            out.append(s)
        return out


def isolated(m):
    path = m.__file__
    with open(path) as fh:
        tree = ast.parse(fh.read())
    keep = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and re.match(r'c\d+$', n.name):
            n.body = Isolate().block(n.body)
            keep.append(n)
    mod = ast.Module(body=keep, type_ignores=[])
    exec(compile(mod, path, 'exec'), m.__dict__)
    return {k: m.__dict__[f.__name__] for k, f in m.RULES.items()}


def all_rules():
    out = {}
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.endswith('.py') and f not in ('__init__.py', 'base.py'):
            m = importlib.import_module('rules.' + f[:-3])
            if hasattr(m, 'RULES'):
                out.update(isolated(m))
    return out
