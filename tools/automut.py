"""automut.py gen|test|check: mechanical variants of the repository, to find
what the checks miss (a working aid; nothing here is run by a check).

gen   DIR            write the variants (name, file, function, patch)
test  DIR            run the repository's tests on each, keep the survivors
check DIR            run the checks which analyse the changed function
report DIR           list survivors no check reports
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
import warnings
from concurrent.futures import ThreadPoolExecutor

warnings.simplefilter('ignore')
R = '/repo/normalize'
PY = '/opt/venv/bin/python'


def files():
    for d, _, fs in os.walk(R):
        for f in sorted(fs):
            if f.endswith('.py'):
                yield os.path.relpath(os.path.join(d, f), R)


class Gen(object):
    def __init__(self, rel):
        self.rel = rel
        self.src = open(os.path.join(R, rel)).read()
        self.tree = ast.parse(self.src)
        self.lines = [0]
        for ln in self.src.encode().split(b'\n'):
            self.lines.append(self.lines[-1] + len(ln) + 1)
        self.out = []
        self.stack = []

    def pos(self, n):
        return (self.lines[n.lineno - 1] + n.col_offset,
                self.lines[n.end_lineno - 1] + n.end_col_offset)

    def sub(self, n, new, op):
        a, z = self.pos(n)
        b = self.src.encode()
        old = b[a:z].decode()
        if isinstance(n, ast.expr):
            new = '(' + new + ')'
        if ast.dump(ast.parse(old if isinstance(n, ast.stmt) else '(%s)' % old)) == ast.dump(ast.parse(new)) if not isinstance(n, ast.stmt) else old == new:
            return
        self.out.append(dict(file=self.rel, line=n.lineno, op=op,
                             func='.'.join(self.stack), old=old, new=new,
                             a=a, z=z))

    def run(self):
        self.block(self.tree)
        return self.out

    def block(self, n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                self.stack.append(c.name)
                self.block(c)
                self.stack.pop()
            else:
                if self.stack:
                    self.visit(c)
                self.block(c)

    def test(self, t):
        u = ast.unparse
        self.sub(t, 'not (%s)' % u(t), 'negate')
        if isinstance(t, (ast.Name, ast.Attribute)):
            self.sub(t, '%s is not None' % u(t), 'truth->notnone')

    def visit(self, n):
        u = ast.unparse
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            self.test(n.test)
        if isinstance(n, ast.comprehension):
            for i in n.ifs:
                self.test(i)
                self.sub(i, 'True', 'drop-if')
        if isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            self.sub(n, o.join('(%s)' % u(v) for v in n.values), 'and-or')
            for i in range(len(n.values)):
                r = [v for j, v in enumerate(n.values) if j != i]
                q = ' and ' if isinstance(n.op, ast.And) else ' or '
                self.sub(n, q.join('(%s)' % u(v) for v in r), 'drop-operand')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.sub(n, u(n.operand), 'drop-not')
            if isinstance(n.operand, (ast.Name, ast.Attribute)):
                self.sub(n, u(n.operand) + ' is None', 'not->none')
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = u(n.left), u(n.comparators[0])
            alt = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>'],
                   ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'],
                   ast.Is: ['is not', '=='], ast.IsNot: ['is', '!='],
                   ast.In: ['not in'], ast.NotIn: ['in']}[type(n.ops[0])]
            for o in alt:
                self.sub(n, '(%s) %s (%s)' % (l, o, r), 'compare ' + o)
            if r == 'None' and isinstance(n.ops[0], ast.Is):
                self.sub(n, 'not (%s)' % l, 'none->falsy')
            if r == 'None' and isinstance(n.ops[0], ast.IsNot):
                self.sub(n, l, 'notnone->truthy')
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete,
                          ast.Raise, ast.Continue, ast.Break)):
            doc = isinstance(n, ast.Expr) and isinstance(n.value,
                                                         ast.Constant)
            if not doc:
                self.sub(n, 'pass', 'drop-stmt')
        if isinstance(n, ast.Continue):
            self.sub(n, 'break', 'continue->break')
        if isinstance(n, ast.Break):
            self.sub(n, 'continue', 'break->continue')
        if isinstance(n, ast.Return) and n.value is not None:
            self.sub(n, 'return None', 'return-none')
            self.sub(n, 'pass', 'drop-return')
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                self.sub(n, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                self.sub(n, str(n.value + 1), 'int+1')
                self.sub(n, str(n.value - 1), 'int-1')
            elif isinstance(n.value, str) and n.value and \
                    len(n.value) < 12:
                self.sub(n, repr(n.value + 'x'), 'str')
        if isinstance(n, ast.Call):
            for i in range(len(n.args) - 1):
                if any(isinstance(x, ast.Starred) for x in n.args):
                    break
                a = [u(x) for x in n.args]
                a[i], a[i + 1] = a[i + 1], a[i]
                a += [u(k) for k in n.keywords]
                self.sub(n, '%s(%s)' % (u(n.func), ', '.join(a)), 'swap')
            for i in range(len(n.keywords)):
                a = [u(x) for x in n.args] + [
                    u(k) for j, k in enumerate(n.keywords) if j != i]
                self.sub(n, '%s(%s)' % (u(n.func), ', '.join(a)),
                         'drop-kw')
            if n.args and len(n.args) > 1:
                a = [u(x) for x in n.args[:-1]] + [u(k)
                                                   for k in n.keywords]
                self.sub(n, '%s(%s)' % (u(n.func), ', '.join(a)),
                         'drop-arg')
            if len(n.args) == 1 and not n.keywords and not isinstance(
                    n.args[0], (ast.Starred, ast.GeneratorExp)):
                self.sub(n, u(n.args[0]), 'unwrap')
            if isinstance(n.func, ast.Attribute) and not n.args and \
                    not n.keywords:
                self.sub(n, u(n.func.value), 'unmethod')
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            if isinstance(n.type, ast.Tuple):
                for i in range(len(n.type.elts)):
                    r = [u(x) for j, x in enumerate(n.type.elts) if j != i]
                    self.sub(n.type, ', '.join(r) + ',', 'drop-exc')
            elif u(n.type) != 'Exception':
                self.sub(n.type, 'Exception', 'widen-exc')
                self.sub(n.type, 'ZeroDivisionError', 'never-exc')
        if isinstance(n, ast.IfExp):
            self.sub(n, u(n.body), 'then')
            self.sub(n, u(n.orelse), 'else')
        if isinstance(n, ast.BinOp):
            self.sub(n, u(n.left), 'left')
            self.sub(n, u(n.right), 'right')
        if isinstance(n, ast.For):
            self.sub(n.iter, 'list(%s)[1:]' % u(n.iter), 'for-tail')
            self.sub(n.iter, 'list(%s)[:1]' % u(n.iter), 'for-head')
            self.sub(n.iter, 'reversed(list(%s))' % u(n.iter), 'for-rev')
        if isinstance(n, ast.comprehension):
            self.sub(n.iter, 'list(%s)[1:]' % u(n.iter), 'for-tail')
        if isinstance(n, (ast.If,)) and not n.orelse:
            pass


class More(Gen):
    """other kinds of slips: the wrong variable, a test of the value where
    none belongs, one member only, order, identity for equality"""
    kin = {}

    def block(self, n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                self.stack.append(c.name)
                old = getattr(self, 'kin', {})
                if isinstance(c, ast.FunctionDef):
                    self.kin = dict(old)
                    self.kinship(c)
                self.block(c)
                self.kin = old
                self.stack.pop()
            else:
                if self.stack:
                    self.visit(c)
                self.block(c)
        for f in ('body', 'orelse', 'finalbody'):
            self.seq(getattr(n, f, None))

    def kinship(self, f):
        groups = [[a.arg for a in f.args.args + f.args.kwonlyargs]]
        for x in ast.walk(f):
            if isinstance(x, ast.Tuple) and isinstance(x.ctx, ast.Store):
                groups.append([e.id for e in x.elts
                               if isinstance(e, ast.Name)])
        for g in groups:
            for i, a in enumerate(g):
                self.kin.setdefault(a, set()).update(
                    x for x in g[max(0, i - 1):i + 2] if x != a)

    def seq(self, b):
        if not isinstance(b, list) or not self.stack:
            return
        simple = (ast.Assign, ast.Expr, ast.AugAssign, ast.Delete)
        for x, y in zip(b, b[1:]):
            if isinstance(x, simple) and isinstance(y, simple) and not (
                    isinstance(x, ast.Expr) and isinstance(
                        x.value, ast.Constant)):
                a, z = self.pos(x)[0], self.pos(y)[1]
                ind = ' ' * x.col_offset
                self.out.append(dict(
                    file=self.rel, line=x.lineno, op='stmt-swap',
                    func='.'.join(self.stack), a=a, z=z,
                    old=ast.unparse(x) + ';' + ast.unparse(y),
                    new=ast.unparse(y) + '\n' + ind + ast.unparse(x)))

    def guard(self, n, test, op):
        a, z = self.pos(n)
        self.out.append(dict(
            file=self.rel, line=n.lineno, op=op, a=a, z=z,
            func='.'.join(self.stack), old=ast.unparse(n),
            new='if %s:\n%s%s' % (test, ' ' * (n.col_offset + 4),
                                  ast.unparse(n))))

    def visit(self, n):
        u = ast.unparse
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for k in sorted(self.kin.get(n.id, ())):
                self.sub(n, k, 'kin')
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], (ast.Subscript, ast.Attribute)):
            if not isinstance(n.value, ast.Constant) and len(
                    u(n.value)) < 60:
                self.guard(n, u(n.value), 'store-if-true')
                self.guard(n, '(%s) is not None' % u(n.value),
                           'store-if-some')
            if isinstance(n.targets[0], ast.Subscript):
                t = n.targets[0]
                self.guard(n, '(%s) not in (%s)' % (u(t.slice), u(t.value)),
                           'store-if-new')
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and \
                len(n.value.args) == 1 and isinstance(
                    n.value.func, ast.Attribute) and \
                n.value.func.attr in ('append', 'add'):
            self.guard(n, u(n.value.args[0]), 'add-if-true')
            self.guard(n, '(%s) not in (%s)' % (
                u(n.value.args[0]), u(n.value.func.value)), 'add-if-new')
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            a = [u(x) for x in n.args]
            if n.func.id == 'isinstance' and isinstance(
                    n.args[1], (ast.Name, ast.Attribute)):
                self.sub(n, 'type(%s) is (%s)' % tuple(a), 'exact')
            if n.func.id == 'issubclass' and isinstance(
                    n.args[1], (ast.Name, ast.Attribute)):
                self.sub(n, '(%s) is (%s)' % tuple(a), 'exact')
            if n.func.id == 'hasattr':
                self.sub(n, 'getattr(%s, %s, None)' % tuple(a), 'has->true')
                self.sub(n, 'getattr(%s, %s, None) is not None' % tuple(a),
                         'has->some')
            if n.func.id in ('all', 'any'):
                self.sub(n, '%s(%s)' % (
                    'any' if n.func.id == 'all' else 'all', a[0]), 'quant')
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr == 'get' and n.args:
                self.sub(n, '%s[%s]' % (u(n.func.value), u(n.args[0])),
                         'get->item')
            alt = {'extend': 'append', 'append': 'extend', 'keys': 'values',
                   'values': 'keys', 'update': 'setdefault'}
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = u(n.left), u(n.comparators[0])
            o = n.ops[0]
            if isinstance(o, ast.In) and not isinstance(
                    n.comparators[0], (ast.Tuple, ast.List)):
                self.sub(n, '(%s).get(%s)' % (r, l), 'in->true')
                self.sub(n, '(%s).get(%s) is not None' % (r, l), 'in->some')
            if isinstance(o, ast.NotIn) and not isinstance(
                    n.comparators[0], (ast.Tuple, ast.List)):
                self.sub(n, 'not (%s).get(%s)' % (r, l), 'in->true')
            if isinstance(o, ast.Eq):
                self.sub(n, '(%s) is (%s)' % (l, r), 'eq->is')
            if isinstance(o, ast.NotEq):
                self.sub(n, '(%s) is not (%s)' % (l, r), 'eq->is')
            if isinstance(o, (ast.Is, ast.IsNot)) and r != 'None':
                pass
        if isinstance(n, ast.For) and not any(isinstance(
                x, (ast.Break, ast.Return)) for x in n.body[-1:]):
            last = n.body[-1]
            a, z = self.pos(last)
            src = self.src.encode()[a:z].decode()
            self.out.append(dict(
                file=self.rel, line=last.lineno, op='first-only', a=a, z=z,
                func='.'.join(self.stack), old=src,
                new=src + '\n' + ' ' * last.col_offset + 'break'))
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Call):
            pass
        if isinstance(n, ast.BoolOp) and len(n.values) == 2:
            self.sub(n, u(n.values[1]) + (
                ' and ' if isinstance(n.op, ast.And) else ' or ') +
                '(%s)' % u(n.values[0]), 'flip')


def gen2(d):
    gen(d, More)


def gen(d, kind=Gen):
    out = []
    for rel in files():
        for m in kind(rel).run():
            m['id'] = len(out)
            out.append(m)
    json.dump(out, open(d + '/muts.json', 'w'), indent=0)
    print(len(out))


def tree(m, tests):
    d = tempfile.mkdtemp(prefix='amut', dir='/tmp/am')
    shutil.copytree(R, d + '/normalize',
                    ignore=shutil.ignore_patterns('__pycache__'))
    if tests:
        shutil.copytree('/repo/tests', d + '/tests',
                        ignore=shutil.ignore_patterns('__pycache__'))
        for x in os.listdir('/repo'):
            if os.path.isfile('/repo/' + x):
                shutil.copy('/repo/' + x, d)
    p = d + '/normalize/' + m['file']
    b = open(p, 'rb').read()
    b = b[:m['a']] + m['new'].encode() + b[m['z']:]
    open(p, 'wb').write(b)
    return d, b


def names(d):
    x = d + '/j.xml'
    r = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                        '--timeout=60', '--continue-on-collection-errors',
                        '-o', 'junit_family=xunit2', '--junitxml=' + x],
                       cwd=d, capture_output=True, text=True,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                                PYTHONHASHSEED='0', TZ='UTC',
                                PYTHONPATH=d), timeout=240)
    import xml.etree.ElementTree as E
    ok = set()
    for c in E.parse(x).getroot().iter('testcase'):
        if not any(k.tag in ('failure', 'error', 'skipped') for k in c):
            ok.add((c.get('classname'), c.get('name')))
    return ok


def test(d):
    ms = json.load(open(d + '/muts.json'))
    base, b = tree(dict(file='__init__.py', a=0, z=0, new=''), True)
    want = names(base)
    shutil.rmtree(base)
    print('baseline', len(want))

    def one(m):
        t, b = tree(m, True)
        try:
            try:
                compile(b, m['file'], 'exec')
            except SyntaxError:
                return None
            return want <= names(t)
        except Exception:
            return None
        finally:
            shutil.rmtree(t)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, ms))
    sv = [m for m, r in zip(ms, res) if r]
    json.dump(sv, open(d + '/survive.json', 'w'), indent=0)
    print(len(ms), 'variants', len(sv), 'survive')


def funcs():
    """function -> checks which analyse it"""
    sys.path.insert(0, os.environ.get('VCOPY', '/verif'))
    sys.setrecursionlimit(20000)
    from rules.base import Check
    from rules import all_rules
    from sa.model import Model
    m = Model('/repo')
    out = {}
    for pid, fn in all_rules().items():
        C = Check(m, pid, 'quick')
        fn(C)
        for q in C.functions | {e.split(' [')[0] for e in C.entries}:
            out.setdefault(q if isinstance(q, str) else q.qual,
                           set()).add(pid)
    return out, sorted(all_rules())


def qual(m):
    mod = m['file'][:-3].replace('/', '.')
    if mod.endswith('__init__'):
        mod = mod[:-9] if '.' in mod else ''
    return '.'.join(x for x in ('normalize', mod, m['func']) if x)


def check(d):
    sv = json.load(open(d + '/survive.json'))
    done = {}
    p = d + '/res.json'
    if os.path.exists(p):
        done = json.load(open(p))
    fm, every = funcs()

    def key(m):
        return '%s:%s:%s:%s:%s' % (
            m['file'], m['func'], m['old'], m['new'], m.get('a'))

    def one(m):
        q = qual(m)
        ids = set()
        while q and not ids:
            ids = fm.get(q, set())
            q = q.rpartition('.')[0]
        t, b = tree(m, False)
        hit = []
        try:
            for i in sorted(ids):
                r = subprocess.run(
                    ['python3', '-W', 'ignore', os.environ.get('VCOPY', '/verif') + '/check.py', i,
                     '--repo', t, '--no-evidence', '--tier', 'quick'],
                    capture_output=True, text=True, timeout=600)
                if r.returncode:
                    hit.append('%s:%d' % (i, r.returncode))
                if r.returncode == 1:
                    break
        finally:
            shutil.rmtree(t)
        return sorted(ids), hit
    todo = [m for m in sv if key(m) not in done]
    with ThreadPoolExecutor(8) as ex:
        for m, r in zip(todo, ex.map(one, todo)):
            done[key(m)] = r
            if len(done) % 50 == 0:
                json.dump(done, open(p, 'w'))
    json.dump(done, open(p, 'w'))
    n = sum(1 for m in sv if any(h.endswith(':1')
                                 for h in done[key(m)][1]))
    print(len(sv), 'survivors', n, 'reported')


def again(d):
    """check the unreported survivors in functions named argv[3] again, with
    the checks argv[4] (comma separated) only"""
    sv = json.load(open(d + '/survive.json'))
    p = d + '/res.json'
    done = json.load(open(p))

    def key(m):
        return '%s:%s:%s:%s:%s' % (
            m['file'], m['func'], m['old'], m['new'], m.get('a'))
    ids = sys.argv[4].split(',')

    def one(m):
        t, b = tree(m, False)
        hit = []
        try:
            for i in ids:
                r = subprocess.run(
                    ['python3', '-W', 'ignore', '/verif/check.py', i,
                     '--repo', t, '--no-evidence', '--tier', 'quick'],
                    capture_output=True, text=True, timeout=600)
                if r.returncode:
                    hit.append('%s:%d' % (i, r.returncode))
        finally:
            shutil.rmtree(t)
        return hit
    todo = [m for m in sv if sys.argv[3] in qual(m) and not any(
        h.endswith(':1') for h in done[key(m)][1])]
    n = 0
    with ThreadPoolExecutor(8) as ex:
        for m, r in zip(todo, ex.map(one, todo)):
            if any(h.endswith(':1') for h in r):
                n += 1
                done[key(m)] = [sorted(set(done[key(m)][0]) | set(ids)), r]
            elif r:
                print('?', r, m['line'])
    json.dump(done, open(p, 'w'))
    print(len(todo), 'left,', n, 'now reported')


def rebase(d, old):
    """survivors of an older tree, moved to the present one"""
    import difflib
    sv = json.load(open(d + '/survive.json'))
    out = []
    maps = {}
    for m in sv:
        if m['file'] not in maps:
            a = open(os.path.join(old, m['file']), 'rb').read()
            b = open(os.path.join(R, m['file']), 'rb').read()
            la, lb = a.splitlines(True), b.splitlines(True)
            sm = difflib.SequenceMatcher(None, la, lb, autojunk=False)
            oa, ob = [0], [0]
            for x in la:
                oa.append(oa[-1] + len(x))
            for x in lb:
                ob.append(ob[-1] + len(x))
            maps[m['file']] = [(oa[k.a], oa[k.a + k.size], ob[k.b] - oa[k.a],
                                k.b - k.a)
                               for k in sm.get_matching_blocks() if k.size]
        for a, z, o, ln in maps[m['file']]:
            if a <= m['a'] and m['z'] <= z:
                m['a'] += o
                m['z'] += o
                m['line'] += ln
                out.append(m)
                break
    json.dump(out, open(d + '/survive.json', 'w'), indent=0)
    print(len(sv), '->', len(out))


def report(d):
    sv = json.load(open(d + '/survive.json'))
    done = json.load(open(d + '/res.json'))
    for m in sv:
        k = '%s:%s:%s:%s' % (m['file'], m['func'], m['old'], m['new'])
        ids, hit = done[k]
        if any(h.endswith(':1') for h in hit):
            continue
        if len(sys.argv) > 3 and sys.argv[3] not in qual(m):
            continue
        print('%s:%d %s [%s] %s\n      %s\n   -> %s' % (
            m['file'], m['line'], m['func'], m['op'],
            ','.join(ids) + ' ' + ','.join(hit),
            ' '.join(m['old'].split())[:100],
            ' '.join(m['new'].split())[:100]))


if __name__ == '__main__':
    globals()[sys.argv[1]](sys.argv[2])
