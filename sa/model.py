"""Program model: every module of the package under analysis, parsed from
/repo's current working tree, with import, class (C3 MRO) and function
resolution.  Nothing of the analysed package is ever imported or executed."""
import ast
import builtins
import copy
import hashlib
import os

from .inline import Inliner
from .norm import norm

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       'vocab.txt')) as fh:
    # the functions which existed when the rules were written: what came
    # later is a part of the functions which use it
    VOCAB = {x.split()[0]: int(x.split()[1]) for x in fh if x.strip()}


class AnalysisBroken(Exception):
    """an anchor of the analysis is gone, or a module does not parse"""


class Func(object):
    def __init__(self, node, module, cls, qual, kind, outer=None):
        self.node, self.module, self.cls = node, module, cls
        self.qual, self.kind, self.outer = qual, kind, outer
        self.name = getattr(node, 'name', '<lambda>')
        self.is_gen = _is_gen(node)
        self.delegate = None    # the function whose body this one has

    @property
    def where(self):
        return "%s:%d (%s)" % (self.module.rel, self.node.lineno, self.qual)

    def __repr__(self):
        return "<Func %s>" % self.qual


class Class(object):
    def __init__(self, node, module, qual):
        self.node, self.module, self.qual = node, module, qual
        self.name = node.name
        self.attrs = {}      # name -> Func | ast expr
        self.setters = {}    # property name -> Func
        self.bases = []      # Class | ('ext', name)
        self.mro = None
        self.metaclass = None

    def __repr__(self):
        return "<Class %s>" % self.qual

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, Class) and name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def issub(self, other):
        return other in self.mro

    def ext_bases(self):
        return [c[1] for c in self.mro if not isinstance(c, Class)]


def _is_gen(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


class Module(object):
    def __init__(self, name, path, rel, src):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        self.ispkg = os.path.basename(path) == '__init__.py'
        self.tree = norm(ast.parse(src, path))
        self.globals = {}   # name -> binding tuple
        # the names which functions may bind again
        self.rebound = {x for n in ast.walk(self.tree)
                        if isinstance(n, ast.Global) for x in n.names}


class Model(object):
    def __init__(self, repo='/repo', package='normalize', extra=None):
        self.repo, self.package = repo, package
        self.modules, self.classes, self.funcs = {}, {}, {}
        root = os.path.join(repo, package)
        if not os.path.isdir(root):
            raise AnalysisBroken("no package directory %s" % root)
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, repo)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                with open(path, encoding='utf-8') as fh:
                    src = fh.read()
                self._add(name, path, rel, src)
        for name, src in (extra or {}).items():
            self._add(name, name + '.py', name + '.py', src)
        for m in list(self.modules.values()):
            self._collect(m)
        for c in list(self.classes.values()):
            self._bases(c)
        for c in list(self.classes.values()):
            self._mro(c)
        for f in sorted(self.funcs.values(), key=lambda f: f.qual):
            for i in range(4):
                if not self._undelegate(f):
                    break
        inl = Inliner(self, VOCAB)
        for f in sorted(self.funcs.values(), key=lambda f: f.qual):
            inl.func(f)
        self._absorb({f.delegate for f in self.funcs.values()
                      if f.delegate} | inl.gone)

    def _absorb(self, by):
        """functions which stand at the place of their calls, and nothing
        refers to"""
        if not by:
            return
        refs = set()
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute):
                    refs.add(n.attr)
                elif isinstance(n, ast.Name):
                    refs.add((m.name, n.id))
                elif isinstance(n, ast.ImportFrom):
                    refs.update(a.name for a in n.names)
                elif isinstance(n, ast.Constant) and isinstance(n.value,
                                                                str):
                    refs.add(n.value)
        for q in sorted(by):
            g = self.funcs[q]
            if g.name in refs or g.cls is None and (
                    g.module.name, g.name) in refs or \
                    g.cls is not None and any(
                        o is not g and o.name == g.name
                        for o in self.funcs.values()):
                continue
            del self.funcs[q]
            if g.cls is not None:
                g.cls.attrs.pop(g.name, None)

    def _undelegate(self, f):
        """def f(a, b): return _g(a, b)  is the body of _g"""
        if isinstance(f.node, ast.Lambda) or f.outer is not None:
            return False
        body = f.node.body
        doc = [s for s in body[:1] if isinstance(s, ast.Expr) and
               isinstance(s.value, ast.Constant)]
        body = body[len(doc):]
        if len(body) != 1 or not isinstance(body[0], ast.Return) or \
                not isinstance(body[0].value, ast.Call) or f.is_gen:
            return False
        c = body[0].value
        a = f.node.args
        if a.kwonlyargs or a.posonlyargs:
            return False
        mine = [x.arg for x in a.args]
        args = list(c.args)
        if isinstance(c.func, ast.Name):
            g = self.funcs.get(f.module.name + '.' + c.func.id)
            if g is None or g.cls is not None or g.kind != 'function':
                return False
        elif isinstance(c.func, ast.Attribute) and isinstance(
                c.func.value, ast.Name) and f.cls is not None and mine and \
                c.func.value.id == mine[0] and f.kind in (
                    'method', 'classmethod'):
            g = f.cls.attrs.get(c.func.attr)
            if not isinstance(g, Func) or g.kind != f.kind:
                return False
            if any(k is not f.cls and f.cls in (k.mro or ()) and
                   c.func.attr in k.attrs for k in self.classes.values()):
                return False
            args.insert(0, c.func.value)
        else:
            return False
        if g is f or g.qual in VOCAB or g.name.endswith('__') or \
                g.module is not f.module or not isinstance(
                    g.node, ast.FunctionDef):
            return False
        if [ast.dump(d) for d in g.node.decorator_list] != [
                ast.dump(d) for d in f.node.decorator_list]:
            return False
        b = g.node.args
        if b.kwonlyargs or b.posonlyargs:
            return False
        ren, used = {}, set()
        names = [x.arg for x in b.args]

        def plain(e):
            return isinstance(e, ast.Name) and e.id in mine and \
                e.id not in used
        for i, x in enumerate(args):
            if isinstance(x, ast.Starred):
                if i != len(args) - 1 or a.vararg is None or \
                        b.vararg is None or not isinstance(
                            x.value, ast.Name) or \
                        x.value.id != a.vararg.arg or i != len(names):
                    return False
                ren[b.vararg.arg] = a.vararg.arg
                continue
            if i >= len(names) or not plain(x):
                return False
            ren[names[i]] = x.id
            used.add(x.id)
        for k in c.keywords:
            if k.arg is None:
                if a.kwarg is None or b.kwarg is None or not isinstance(
                        k.value, ast.Name) or k.value.id != a.kwarg.arg:
                    return False
                ren[b.kwarg.arg] = a.kwarg.arg
                continue
            if k.arg not in names or k.arg in ren or not plain(k.value):
                return False
            ren[k.arg] = k.value.id
            used.add(k.value.id)
        if set(names) - set(ren) or (b.vararg and b.vararg.arg not in ren) \
                or (b.kwarg and b.kwarg.arg not in ren):
            return False
        every = {n.id for n in ast.walk(g.node) if isinstance(n, ast.Name)}
        if any(v != k and v in every and v not in ren
               for k, v in ren.items()):
            return False
        if any(k != v for k, v in ren.items()) and any(
                isinstance(n, (ast.Lambda, ast.FunctionDef)) and
                n is not g.node and {x.arg for x in ast.walk(n.args)
                                     if isinstance(x, ast.arg)} & set(ren)
                for n in ast.walk(g.node)):
            return False
        new = copy.deepcopy(g.node.body)
        for s in new:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and n.id in ren:
                    n.id = ren[n.id]
        if new and isinstance(new[0], ast.Expr) and isinstance(
                new[0].value, ast.Constant) and len(new) > 1:
            new = new[1:]
        f.node.body = doc + new
        f.is_gen = g.is_gen
        f.delegate = g.qual
        return True

    def _add(self, name, path, rel, src):
        try:
            self.modules[name] = Module(name, path, rel, src)
        except SyntaxError as e:
            raise AnalysisBroken("%s does not parse: %s" % (rel, e))

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]

    # -- collection
    def _collect(self, m):
        self._body(m, m.tree.body)

    def _body(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s, m, None, m.name + '.' + s.name, 'function')
                self.funcs[f.qual] = f
                m.globals[s.name] = ('func', f.qual)
            elif isinstance(s, ast.ClassDef):
                self._class(m, s, m.name + '.' + s.name)
                m.globals[s.name] = ('class', m.name + '.' + s.name)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for k, v in self.import_bindings(m, s).items():
                    m.globals[k] = v
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    self._gassign(m, t, s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                self._gassign(m, s.target, s.value)
            elif isinstance(s, ast.If):
                self._body(m, s.body)
                self._body(m, s.orelse)
            elif isinstance(s, ast.Try):
                for h in s.handlers:
                    self._body(m, h.body)
                self._body(m, s.body)
                self._body(m, s.orelse)
                self._body(m, s.finalbody)

    def _gassign(self, m, t, value):
        if isinstance(t, ast.Name):
            n = m.globals.get(t.id)
            if n and n[0] == 'expr' and n[1] is not value:
                m.globals[t.id] = ('multi', t.id)
            else:
                m.globals[t.id] = ('expr', value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                if isinstance(x, ast.Name):
                    m.globals[x.id] = ('multi', x.id)

    def import_bindings(self, m, s):
        out = {}
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    out[a.asname] = ('module', a.name)
                else:
                    out[a.name.split('.')[0]] = (
                        'module', a.name.split('.')[0])
        else:
            base = s.module or ''
            if s.level:
                parts = m.name.split('.')
                if not m.ispkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (s.level - 1)]
                base = '.'.join(parts + ([s.module] if s.module else []))
            for a in s.names:
                out[a.asname or a.name] = ('from', base, a.name)
        return out

    def _class(self, m, s, qual):
        c = Class(s, m, qual)
        self.classes[qual] = c
        self._cbody(c, s.body)

    def _cbody(self, c, body):
        m = c.module
        for x in body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = 'method'
                decs = [self._decname(d) for d in x.decorator_list]
                if x.name in ('__new__',):
                    kind = 'staticmethod'
                for d in decs:
                    if d in ('classmethod', 'staticmethod', 'property'):
                        kind = d
                    elif d in ('cached_property',):
                        kind = 'property'
                    elif d.endswith('classproperty'):
                        kind = 'classproperty'
                    elif d.endswith('.setter') or d.endswith('.deleter'):
                        kind = d.rsplit('.', 1)[1]
                f = Func(x, m, c, c.qual + '.' + x.name, kind)
                if kind in ('setter', 'deleter'):
                    f.qual += '.' + kind
                    if kind == 'setter':
                        c.setters[x.name] = f
                else:
                    c.attrs[x.name] = f
                self.funcs[f.qual] = f
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = x.value
            elif isinstance(x, ast.AnnAssign):
                if isinstance(x.target, ast.Name) and x.value is not None:
                    c.attrs[x.target.id] = x.value
            elif isinstance(x, ast.ClassDef):
                self._class(m, x, c.qual + '.' + x.name)
                c.attrs[x.name] = ('class', c.qual + '.' + x.name)
            elif isinstance(x, ast.If):
                self._cbody(c, x.body)
                self._cbody(c, x.orelse)

    @staticmethod
    def _decname(d):
        if isinstance(d, ast.Call):
            d = d.func
        if isinstance(d, ast.Name):
            return d.id
        if isinstance(d, ast.Attribute):
            b = d.value
            return (b.id + '.' + d.attr) if isinstance(b, ast.Name) else d.attr
        return ''

    # -- resolution of static names to canonical symbol terms
    def resolve(self, m, name, seen=None):
        """symbol for global `name` in module m: ('class', q) ('func', q)
        ('module', q) ('builtin', n) ('ext', dotted) ('modvar', mod, name)
        or None"""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        b = m.globals.get(name)
        if b is None:
            sub = m.name + '.' + name
            if m.ispkg and sub in self.modules:
                return ('module', sub)
            if hasattr(builtins, name):
                return ('builtin', name)
            return None
        return self.binding(m, name, b, seen)

    def class_aliases(self):
        """class attributes which only name a module level object: defined
        in one class of the program and assigned nowhere else"""
        if getattr(self, '_aliases', None) is None:
            out, seen = {}, {}
            for c in self.classes.values():
                for n, v in c.attrs.items():
                    seen.setdefault(n, []).append((c, v))
            stored = set()
            for mod in self.modules.values():
                for x in ast.walk(mod.tree):
                    if isinstance(x, ast.Attribute) and not isinstance(
                            x.ctx, ast.Load):
                        stored.add(x.attr)
            for n, vs in seen.items():
                if len(vs) == 1 and n not in stored and isinstance(
                        vs[0][1], ast.Name):
                    r = self.resolve(vs[0][0].module, vs[0][1].id)
                    if r and r[0] == 'modvar':
                        out[n] = r
            self._aliases = out
        return self._aliases

    def binding(self, m, name, b, seen=None):
        if b[0] in ('func', 'class'):
            return b
        if b[0] == 'module':
            return self.modsym(b[1])
        if b[0] == 'from':
            return self.from_symbol(b[1], b[2], seen)
        if b[0] == 'expr':
            e = b[1]
            if isinstance(e, ast.Name) and e.id != name:
                r = self.resolve(m, e.id, seen)
                if r and r[0] in ('class', 'func', 'builtin', 'ext',
                                  'module'):
                    return r
            elif isinstance(e, ast.Attribute):
                r = self.static(m, e)
                if r and r[0] in ('class', 'func', 'builtin', 'ext'):
                    return r
            return ('modvar', m.name, name)
        return ('modvar', m.name, name)

    def modsym(self, dotted):
        if dotted in self.modules:
            return ('module', dotted)
        if dotted.split('.')[0] == self.package:
            return ('missing', dotted)
        return ('ext', dotted)

    def from_symbol(self, base, name, seen=None):
        if base in self.modules:
            r = self.resolve(self.modules[base], name, seen)
            if r and not (r[0] == 'builtin' and
                          name not in self.modules[base].globals):
                return r
            if base + '.' + name in self.modules:
                return ('module', base + '.' + name)
            return ('missing', base + '.' + name)
        if base == 'builtins':
            return ('builtin', name)
        if base == '__future__':
            return ('ext', '__future__.' + name)
        return ('ext', base + '.' + name)

    def member(self, sym, attr):
        """symbol for sym.attr where sym is module-like/class"""
        if sym is None:
            return None
        if sym[0] == 'module':
            return self.from_symbol(sym[1], attr)
        if sym[0] == 'ext':
            if sym[1] == 'builtins':
                return ('builtin', attr)
            return ('ext', sym[1] + '.' + attr)
        if sym[0] == 'class':
            c = self.classes[sym[1]]
            if c.mro:
                o, a = c.lookup(attr)
                if isinstance(a, tuple) and a[0] == 'class':
                    return a
        return None

    def static(self, m, e):
        """resolve a Name/Attribute expression statically"""
        if isinstance(e, ast.Name):
            return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            return self.member(self.static(m, e.value), e.attr)
        return None

    def _bases(self, c):
        for b in c.node.bases:
            r = self.static(c.module, b)
            if r and r[0] == 'class':
                c.bases.append(self.classes[r[1]])
            elif r and r[0] in ('builtin', 'ext'):
                c.bases.append(('ext', r[1]))
            else:
                c.bases.append(('ext', ast.unparse(b)))
        for k in c.node.keywords:
            if k.arg == 'metaclass':
                r = self.static(c.module, k.value)
                if r and r[0] == 'class':
                    c.metaclass = self.classes[r[1]]

    def _mro(self, c):
        if c.mro is not None:
            return c.mro
        seqs = []
        for b in c.bases:
            if isinstance(b, Class):
                seqs.append(list(self._mro(b)))
            else:
                seqs.append(self._ext_mro(b))
        seqs.append(list(c.bases))
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise AnalysisBroken("no MRO for %s" % c.qual)
            out.append(h)
            seqs = [[x for x in t if x != h] for t in seqs]
            seqs = [t for t in seqs if t]
        c.mro = out
        if c.metaclass is None:
            for b in out:
                if isinstance(b, Class) and b.metaclass:
                    c.metaclass = b.metaclass
                    break
        return out

    @staticmethod
    def _ext_mro(b):
        k = getattr(builtins, b[1], None)
        if isinstance(k, type):
            return [('ext', x.__name__) for x in k.__mro__
                    if x is not object]
        return [b] if b[1] != 'object' else []

    # -- anchors
    def need_func(self, qual):
        f = self.funcs.get(qual)
        if f is None:
            # inherited through a class?
            cq, _, n = qual.rpartition('.')
            c = self.classes.get(cq)
            if c is not None:
                o, a = c.lookup(n)
                if isinstance(a, Func):
                    return a
            # re-exported / moved into another module of the package
            mq, _, n = qual.rpartition('.')
            if mq in self.modules:
                r = self.resolve(self.modules[mq], n)
                if r and r[0] == 'func':
                    return self.funcs[r[1]]
            raise AnalysisBroken("anchor function %s not found" % qual)
        return f

    def need_class(self, qual):
        c = self.classes.get(qual)
        if c is None:
            mq, _, n = qual.rpartition('.')
            if mq in self.modules:
                r = self.resolve(self.modules[mq], n)
                if r and r[0] == 'class':
                    return self.classes[r[1]]
            raise AnalysisBroken("anchor class %s not found" % qual)
        return c

    def method(self, cls_qual, name):
        c = self.need_class(cls_qual)
        o, a = c.lookup(name)
        if not isinstance(a, Func):
            raise AnalysisBroken("anchor method %s.%s not found" %
                                 (cls_qual, name))
        return a

    # -- exception hierarchy
    def exc_issub(self, a, b):
        """is exception symbol a a subclass of exception symbol b?
        True / False / None (unknown)"""
        if a == b:
            return True
        bn = _bexc(b)
        if a[0] == 'class':
            c = self.classes[a[1]]
            if b[0] == 'class':
                return self.classes[b[1]] in c.mro
            if bn:
                for x in c.ext_bases():
                    k = getattr(builtins, x, None)
                    if isinstance(k, type) and issubclass(k, bn):
                        return True
                return False
            return None
        an = _bexc(a)
        if an:
            if b[0] == 'class':
                return False
            if bn:
                return issubclass(an, bn)
        return None


def _bexc(s):
    if s[0] == 'builtin':
        k = getattr(builtins, s[1], None)
        if isinstance(k, type) and issubclass(k, BaseException):
            return k
    return None
