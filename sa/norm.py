"""Loops written with next(), an index or pop() as the for loops they are.

Applied to the syntax tree of a module before anything else looks at it; the
line numbers stay those of the source.
"""
import ast
import copy

FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def _name(e, x=None):
    return isinstance(e, ast.Name) and (x is None or e.id == x)


def _call(e, f, n=None):
    return isinstance(e, ast.Call) and _name(e.func, f) and \
        not e.keywords and (n is None or len(e.args) == n)


def _true(e):
    return isinstance(e, ast.Constant) and e.value in (True, 1) and \
        e.value is not None


def _uses(fn, x):
    return [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == x]


def _only(fn, x, nodes):
    """x is used in these nodes only (and is no parameter)"""
    mine = {id(m) for n in nodes for m in ast.walk(n)
            if isinstance(m, ast.Name) and m.id == x}
    return all(id(n) in mine for n in _uses(fn, x)) and not any(
        isinstance(a, ast.arg) and a.arg == x for a in ast.walk(fn)) and \
        not any(isinstance(n, (ast.Global, ast.Nonlocal)) and x in n.names
                for n in ast.walk(fn))


def _stop(h):
    return _name(h.type, 'StopIteration') and h.name is None and \
        len(h.body) == 1 and isinstance(h.body[0], ast.Break)


def _assign(s):
    return isinstance(s, ast.Assign) and len(s.targets) == 1


def _made(fn, block, i, x, kind, uses):
    """x = kind(...) before statement i of the block, nothing between them
    uses x, and all of x in the function is such assignments and uses"""
    for k in range(i - 1, -1, -1):
        s = block[k]
        if _assign(s) and _name(s.targets[0], x):
            if not _call(s.value, kind, 1):
                return
            made = s
            break
        if any(_name(n, x) for n in ast.walk(s)):
            return
    else:
        return
    every = [n for n in ast.walk(fn) if _assign(n) and
             _name(n.targets[0], x)]
    if not all(n is made or _call(n.value, kind, 1) or
               id(n) in uses['done'] for n in every):
        return
    if any(_name(n, x) for n in ast.walk(made.value)):
        return
    ok = [n.targets[0] for n in every] + uses['places'](x)
    if not _only(fn, x, ok):
        return
    inside = {id(n) for n in ast.walk(block[i])}
    if any(id(n) in inside for n in every):
        return
    return made


def _next(fn, block, i, done):
    """while True: try: T = next(it) except StopIteration: break ..."""
    s = block[i]
    if not _true(s.test) or s.orelse or not s.body:
        return
    t = s.body[0]
    rest = s.body[1:]
    if isinstance(t, ast.Try) and t.body and _assign(t.body[0]) \
            and all(_assign(n) and not any(isinstance(
                m, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await))
                for m in ast.walk(n)) for n in t.body[1:]) and _call(t.body[0].value, 'next', 1) and _name(
                t.body[0].value.args[0]) and len(t.handlers) == 1 and \
            _stop(t.handlers[0]) and not t.finalbody:
        a = t.body[0]
        rest = t.body[1:] + list(t.orelse) + rest
    elif _assign(t) and _name(t.targets[0]) and _call(t.value, 'next', 2) \
            and _name(t.value.args[0]) and rest and isinstance(
                rest[0], ast.If) and not rest[0].orelse and \
            len(rest[0].body) == 1 and isinstance(
                rest[0].body[0], ast.Break) and isinstance(
                    rest[0].test, ast.Compare) and isinstance(
                        rest[0].test.ops[0], ast.Is) and ast.dump(
                            rest[0].test.comparators[0]) == ast.dump(
                                t.value.args[1]) and _name(
                                    rest[0].test.left, t.targets[0].id):
        a = t
        rest = rest[1:]
    else:
        return
    it = a.value.args[0].id
    made = _made(fn, block, i, it, 'iter', {
        'done': done, 'places': lambda x: _heads(fn, x)})
    if not made:
        return
    done.add(id(made))
    made.value = made.value.args[0]
    return a.targets[0], a.value.args[0], rest


def _heads(fn, x):
    """the uses of x by next() at the head of a loop, and in for loops"""
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.While) and n.body:
            t = n.body[0]
            if isinstance(t, ast.Try) and t.body:
                t = t.body[0]
            if _assign(t) and isinstance(t.value, ast.Call) and _name(
                    t.value.func, 'next') and t.value.args:
                out.append(t.value.args[0])
        elif isinstance(n, ast.For) and _name(n.iter, x):
            out.append(n.iter)
    return out


def _pops(fn, x):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.While) and _name(n.test, x) and n.body:
            t = n.body[0]
            if _assign(t) and isinstance(t.value, ast.Call) and isinstance(
                    t.value.func, ast.Attribute) and \
                    t.value.func.attr == 'pop':
                out += [n.test, t.value.func.value]
        elif isinstance(n, ast.For) and _name(n.iter, x):
            out.append(n.iter)
    return out


def _pop(fn, block, i, done):
    """todo = list(E) ; while todo: T = todo.pop(0) ..."""
    s = block[i]
    x = s.test
    if not _name(x) or s.orelse or not s.body:
        return
    a = s.body[0]
    if not (_assign(a) and isinstance(a.value, ast.Call) and isinstance(
            a.value.func, ast.Attribute) and a.value.func.attr == 'pop' and
            _name(a.value.func.value, x.id) and len(a.value.args) == 1 and
            isinstance(a.value.args[0], ast.Constant) and
            a.value.args[0].value == 0 and not a.value.keywords):
        return
    made = _made(fn, block, i, x.id, 'list', {
        'done': done, 'places': lambda n: _pops(fn, n)})
    if not made:
        return
    if made is block[i - 1] and _call(made.value.args[0], 'range') and \
            made.value.args[0].args and all(
                isinstance(n, ast.Constant) or _lenof(n)
                for n in made.value.args[0].args):
        x = copy.deepcopy(made.value.args[0])
    return a.targets[0], x, s.body[1:]


MUTATES = ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse',
           'clear', 'add', 'discard', 'update', 'popitem', '__setitem__',
           '__delitem__')


def _kept(body, x):
    """the sequence x is neither bound again nor changed in the body"""
    for s in body:
        for n in ast.walk(s):
            if _name(n, x) and not isinstance(n.ctx, ast.Load):
                return False
            if isinstance(n, (ast.Subscript, ast.Attribute)) and _name(
                    n.value, x) and not isinstance(n.ctx, ast.Load):
                return False
            if isinstance(n, ast.Attribute) and _name(n.value, x) and \
                    n.attr in MUTATES:
                return False
            if isinstance(n, ast.Call) and any(_name(y, x) for y in n.args) \
                    and not (isinstance(n.func, ast.Name) and n.func.id in (
                        'len', 'isinstance', 'list', 'tuple', 'enumerate',
                        'zip', 'bool')):
                return False
    return True


def _stores(body, x):
    return any(_name(n, x) and not isinstance(n.ctx, ast.Load)
               for s in body for n in ast.walk(s))


def _lenof(e):
    if _call(e, 'len', 1) and isinstance(e.args[0], ast.Name):
        return e.args[0]


def _item(s, seq, i):
    """T = seq[i]"""
    if _assign(s) and isinstance(s.value, ast.Subscript) and _name(
            s.value.value, seq) and _name(s.value.slice, i):
        return s.targets[0]


class _Items(ast.NodeTransformer):
    """seq[i] by a name"""

    def __init__(self, seq, i, x):
        self.seq, self.i, self.x, self.n = seq, i, x, 0

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if _name(node.value, self.seq) and _name(node.slice, self.i) and \
                isinstance(node.ctx, ast.Load):
            self.n += 1
            return ast.copy_location(ast.Name(self.x, ast.Load()), node)
        return node


def _taken(fn, loop, seq, i, rest):
    """the body with seq[i] taken first (rest may be changed)"""
    x = '%s_item_%d' % (seq, loop.lineno)
    if not _kept(rest, seq) or _stores(rest, i) or _uses(fn, x):
        return None
    if any(isinstance(n, FN + (ast.Lambda,)) for s in rest
           for n in ast.walk(s)):
        return None
    r = _Items(seq, i, x)
    for k, s in enumerate(rest):
        rest[k] = r.visit(copy.deepcopy(s))
    return ast.Name(x, ast.Store()) if r.n else None


def _numbered(fn, i, seq, t, rest, loop):
    """for i, t in enumerate(seq), or without i if nothing uses it"""
    inside = {id(n) for n in ast.walk(loop)}
    out = [n for n in _uses(fn, i) if id(n) not in inside]
    if any(isinstance(n.ctx, ast.Load) for n in out) and not all(
            _rebound(fn, n, i, loop) for n in out
            if isinstance(n.ctx, ast.Load)):
        return
    used = any(_name(n, i) for s in rest for n in ast.walk(s))
    if not used:
        return t, seq, rest
    return ast.Tuple([ast.Name(i, ast.Store()), t], ast.Store()), ast.Call(
        ast.Name('enumerate', ast.Load()), [seq], []), rest


def _rebound(fn, n, i, loop):
    """a use of the name in another loop over it"""
    for x in ast.walk(fn):
        if x is not loop and isinstance(x, (ast.For, ast.While)) and any(
                y is n for y in ast.walk(x)) and not any(
                    y is loop for y in ast.walk(x)):
            if isinstance(x, ast.For) and any(
                    _name(y, i) for y in ast.walk(x.target)):
                return True
            if isinstance(x, ast.While) and any(
                    isinstance(y, ast.AugAssign) and _name(y.target, i)
                    for y in x.body):
                return True
    return False


def _unnumber(fn, s):
    """for i, x in enumerate(y): the i is not used"""
    t = s.target
    if isinstance(s.iter, ast.Call) and _name(s.iter.func, 'enumerate') and \
            s.iter.args and isinstance(t, ast.Tuple) and len(t.elts) == 2 \
            and isinstance(t.elts[0], ast.Name) and all(
                isinstance(n.ctx, ast.Store)
                for n in _uses(fn, t.elts[0].id)):
        s.target, s.iter = t.elts[1], s.iter.args[0]
        return 1
    return 0


def _range(fn, s):
    """for i in range(len(seq)): T = seq[i] ..."""
    if s.orelse or not isinstance(s.target, ast.Name) or not s.body:
        return
    it = s.iter
    if not (_call(it, 'range', 1) or _call(it, 'range', 2) and isinstance(
            it.args[0], ast.Constant) and it.args[0].value == 0):
        return
    seq = _lenof(it.args[-1])
    if seq is None:
        return
    i = s.target.id
    t = _item(s.body[0], seq.id, i)
    rest = s.body[1:]
    if t is None:
        rest = list(s.body)
        t = _taken(fn, s, seq.id, i, rest)
    if t is None or not _kept(rest, seq.id) or _stores(rest, i) or any(
            _name(n, seq.id) or _name(n, i) for n in ast.walk(t)):
        return
    return _numbered(fn, i, seq, t, rest, s)


def _index(fn, block, k):
    """i = 0 ; while i < len(seq): T = seq[i] ... i += 1"""
    s = block[k]
    t = s.test
    if s.orelse or len(s.body) < 2 or not isinstance(t, ast.Compare) or \
            len(t.ops) != 1 or not isinstance(t.ops[0], (ast.Lt, ast.NotEq)) \
            or not isinstance(t.left, ast.Name):
        return
    i = t.left.id
    seq = _lenof(t.comparators[0])
    if seq is None:
        return
    last = s.body[-1]
    if not (isinstance(last, ast.AugAssign) and isinstance(
            last.op, ast.Add) and _name(last.target, i) and isinstance(
                last.value, ast.Constant) and last.value.value == 1):
        return
    x = _item(s.body[0], seq.id, i)
    rest = s.body[1:-1]
    if x is None:
        rest = s.body[:-1]
        x = _taken(fn, s, seq.id, i, rest)
    if x is None or not _kept(rest, seq.id) or _stores(rest, i) or any(
            _name(n, seq.id) or _name(n, i) for n in ast.walk(x)):
        return

    def again(body):
        for y in body:
            if isinstance(y, ast.Continue):
                return True
            if isinstance(y, (ast.For, ast.While) + FN):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                if again(getattr(y, f, ())):
                    return True
            if any(again(h.body) for h in getattr(y, 'handlers', ())):
                return True
        return False
    if again(rest):
        return
    for j in range(k - 1, -1, -1):
        b = block[j]
        if _assign(b) and _name(b.targets[0], i):
            if not (isinstance(b.value, ast.Constant) and
                    b.value.value == 0 and b.value.value is not False):
                return
            break
        if any(_name(n, i) for n in ast.walk(b)):
            return
    else:
        return
    return _numbered(fn, i, seq, x, rest, s)


def _lists(fn):
    """the names which are bound to new lists only"""
    out, bad = set(), {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    for n in ast.walk(fn):
        if _assign(n) and isinstance(n.targets[0], ast.Name):
            v = n.value
            if isinstance(v, (ast.List, ast.ListComp)) or isinstance(
                    v, ast.Call) and _name(v.func, 'list'):
                out.add(n.targets[0].id)
            else:
                bad.add(n.targets[0].id)
    mine = {id(n.targets[0]) for n in ast.walk(fn) if _assign(n)} | {
        id(n.target) for n in ast.walk(fn) if isinstance(n, ast.AugAssign)}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and \
                id(n) not in mine:
            bad.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            bad |= set(n.names)
    return out - bad


def _simple(fn):
    """statements with a plainer form"""
    k = 0
    lists = None
    for block in list(_blocks(fn)):
        i = 0
        while i < len(block):
            s = block[i]
            new = None
            if isinstance(s, ast.AugAssign) and isinstance(
                    s.op, ast.Add) and isinstance(
                        s.target, ast.Name) and isinstance(
                            s.value, ast.List) and not any(
                                isinstance(e, ast.Starred)
                                for e in s.value.elts):
                # xs += [a, b]
                if lists is None:
                    lists = _lists(fn)
                if s.target.id in lists:
                    new = [ast.Expr(ast.Call(ast.Attribute(
                        ast.Name(s.target.id, ast.Load()), 'append',
                        ast.Load()), [e], [])) for e in s.value.elts]
            elif isinstance(s, ast.Expr) and isinstance(
                    s.value, ast.Call) and isinstance(
                        s.value.func, ast.Attribute) and \
                    s.value.func.attr == 'update' and isinstance(
                        s.value.func.value, ast.Name) and \
                    not s.value.args and s.value.keywords and all(
                        w.arg for w in s.value.keywords) and \
                    s.value.func.value.id not in ('self', 'cls'):
                # d.update(x=a, y=b)
                new = [ast.Assign([ast.Subscript(
                    s.value.func.value, ast.Constant(w.arg), ast.Store())],
                    w.value) for w in s.value.keywords]
            if new is not None:
                k += 1
                block[i:i + 1] = [ast.copy_location(x, s) for x in new]
                i += len(new)
            else:
                i += 1
    return k


def _blocks(node):
    for n in ast.walk(node):
        for k in ('body', 'orelse', 'finalbody'):
            v = getattr(n, k, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                yield v


def _loops(fn):
    k = 0
    for _ in range(4):
        n = _pass(fn)
        k += n
        if not n:
            break
    return k


def _pass(fn):
    k = 0
    done = set()
    for block in list(_blocks(fn))[::-1]:
        for i, s in enumerate(block):
            if isinstance(s, ast.While):
                r = _next(fn, block, i, done) or _pop(
                    fn, block, i, done) or _index(fn, block, i)
            elif isinstance(s, ast.For):
                k += _unnumber(fn, s)
                r = _range(fn, s)
            else:
                continue
            if r:
                t, it, rest = r
                k += 1
                block[i] = ast.copy_location(ast.For(t, it, rest or [
                    ast.copy_location(ast.Pass(), s)], []), s)
                r = isinstance(s, ast.While) and _range(fn, block[i])
                if r:
                    t, it, rest = r
                    block[i] = ast.copy_location(ast.For(t, it, rest or [
                        ast.copy_location(ast.Pass(), s)], []), s)
    return k


def again(fn):
    if _simple(fn) + _loops(fn):
        ast.fix_missing_locations(fn)


def norm(tree):
    k = 0
    for n in ast.walk(tree):
        if isinstance(n, FN):
            k += _simple(n) + _loops(n)
    if k:
        ast.fix_missing_locations(tree)
    return tree
