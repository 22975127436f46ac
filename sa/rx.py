"""Regular languages of constant patterns: the syntax tree of a pattern (the
pattern is parsed, never matched against anything) as a finite automaton over
a partition of the characters which no predicate of the patterns involved
distinguishes any further."""
import re
import warnings
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    try:
        from re import _parser as sp, _constants as sc
    except ImportError:
        import sre_parse as sp
        import sre_constants as sc


class Unsupported(Exception):
    pass


def parse(pattern, flags=0):
    t = sp.parse(pattern, flags)
    fl = t.state.flags
    if fl & re.IGNORECASE:
        raise Unsupported('ignorecase')
    return t, fl


CATS = {
    sc.CATEGORY_DIGIT: lambda c, a: c.isdecimal() and (not a or c < '\x80'),
    sc.CATEGORY_SPACE: lambda c, a: c.isspace() and (not a or c < '\x80'),
    sc.CATEGORY_WORD: lambda c, a: (c.isalnum() or c == '_') and (
        not a or c < '\x80'),
}
CATS[sc.CATEGORY_NOT_DIGIT] = lambda c, a: not CATS[sc.CATEGORY_DIGIT](c, a)
CATS[sc.CATEGORY_NOT_SPACE] = lambda c, a: not CATS[sc.CATEGORY_SPACE](c, a)
CATS[sc.CATEGORY_NOT_WORD] = lambda c, a: not CATS[sc.CATEGORY_WORD](c, a)


def pred(op, av, fl):
    """the character predicate of a pattern node, as a function"""
    asc = bool(fl & re.ASCII)
    if op is sc.LITERAL:
        return lambda c: ord(c) == av
    if op is sc.NOT_LITERAL:
        return lambda c: ord(c) != av
    if op is sc.ANY:
        if fl & re.DOTALL:
            return lambda c: True
        return lambda c: c != '\n'
    if op is sc.IN:
        neg = bool(av) and av[0][0] is sc.NEGATE
        parts = []
        for o, a in av:
            if o is sc.NEGATE:
                continue
            if o is sc.LITERAL:
                parts.append(lambda c, a=a: ord(c) == a)
            elif o is sc.RANGE:
                parts.append(lambda c, a=a: a[0] <= ord(c) <= a[1])
            elif o is sc.CATEGORY and a in CATS:
                parts.append(lambda c, a=a: CATS[a](c, asc))
            else:
                raise Unsupported(str(o))
        return lambda c: any(p(c) for p in parts) != neg
    return None


def preds(items, fl, out):
    """all character predicates of a pattern"""
    for op, av in items:
        p = pred(op, av, fl)
        if p is not None:
            out.append(p)
        elif op is sc.SUBPATTERN:
            preds(av[3], fl, out)
        elif op is sc.BRANCH:
            for x in av[1]:
                preds(x, fl, out)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            preds(av[2], fl, out)
        elif op is sc.AT:
            pass
        else:
            raise Unsupported(str(op))
    return out


def alphabet(ps, special=''):
    """one representative per class of characters"""
    cells = {}
    for c in special:
        cells[('own', c)] = c
    for n in list(range(0x20, 0x7f)) + [9, 10, 13] + \
            list(range(0xa0, 0x3000)):
        c = chr(n)
        if c in special:
            continue
        k = tuple(bool(p(c)) for p in ps)
        cells.setdefault(k, c)
    return sorted(set(cells.values()))


class NFA(object):
    """edges: state -> [(set of characters or None for empty, state)]"""

    def __init__(self):
        self.edges = [[]]
        self.start = 0
        self.final = set()

    def new(self):
        self.edges.append([])
        return len(self.edges) - 1

    def add(self, a, cs, z):
        self.edges[a].append((cs, z))

    def closure(self, qs):
        todo, seen = list(qs), set(qs)
        while todo:
            q = todo.pop()
            for cs, z in self.edges[q]:
                if cs is None and z not in seen:
                    seen.add(z)
                    todo.append(z)
        return frozenset(seen)

    def step(self, qs, c):
        return self.closure({z for q in qs for cs, z in self.edges[q]
                             if cs is not None and c in cs})


class Lang(object):
    """a deterministic view of an NFA (subset construction on the fly)"""

    def __init__(self, nfa, sigma):
        self.n, self.sigma = nfa, sigma
        self.memo = {}
        self.start = nfa.closure({nfa.start})

    def step(self, q, c):
        r = self.memo.get((q, c))
        if r is None:
            r = self.memo[(q, c)] = self.n.step(q, c)
        return r

    def accepts(self, q):
        return bool(q & self.n.final)


def build(items, fl, sigma, nfa, a):
    """add the automaton of a pattern from state a -> its last state"""
    items = list(items)
    for i, (op, av) in enumerate(items):
        p = pred(op, av, fl)
        if p is not None:
            z = nfa.new()
            nfa.add(a, frozenset(c for c in sigma if p(c)), z)
            a = z
        elif op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported('flags')
            a = build(av[3], fl, sigma, nfa, a)
        elif op is sc.BRANCH:
            z = nfa.new()
            for x in av[1]:
                s = nfa.new()
                nfa.add(a, None, s)
                nfa.add(build(x, fl, sigma, nfa, s), None, z)
            a = z
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, x = av
            if lo > 20 or hi is not sc.MAXREPEAT and hi > 20:
                raise Unsupported('repeat')
            for k in range(lo):
                a = build(x, fl, sigma, nfa, a)
            if hi is sc.MAXREPEAT:
                s = nfa.new()
                nfa.add(a, None, s)
                nfa.add(build(x, fl, sigma, nfa, s), None, s)
                a = nfa.new()
                nfa.add(s, None, a)
            else:
                z = nfa.new()
                nfa.add(a, None, z)
                for k in range(hi - lo):
                    a = build(x, fl, sigma, nfa, a)
                    nfa.add(a, None, z)
                a = z
        elif op is sc.AT and av in (sc.AT_BEGINNING,
                                    sc.AT_BEGINNING_STRING) and i == 0:
            pass
        else:
            raise Unsupported('%s %s' % (op, av))
    return a


def language(items, fl, sigma):
    n = NFA()
    n.final = {build(items, fl, sigma, n, 0)}
    return Lang(n, sigma)


def matching(pattern, flags, kind, sigma):
    """the texts for which match / fullmatch succeeds"""
    t, fl = parse(pattern, flags)
    items = list(t)
    n = NFA()
    end = None
    if items and items[-1][0] is sc.AT:
        end = items.pop()[1]
    if items and items[0][0] is sc.AT and kind == 'search':
        kind = 'match'
    a = 0
    if kind == 'search':
        n.add(0, frozenset(sigma), 0)
    z = build(items, fl, sigma, n, a)
    n.final = {z}
    if end is sc.AT_END:
        if fl & re.MULTILINE:
            raise Unsupported('multiline')
        y = n.new()
        n.add(z, frozenset('\n') & frozenset(sigma), y)
        n.final.add(y)
        if kind == 'fullmatch':
            n.final = {z}
    elif end is sc.AT_END_STRING:
        pass
    elif end is not None:
        raise Unsupported(str(end))
    elif kind != 'fullmatch':
        y = n.new()
        n.add(z, None, y)
        n.add(y, frozenset(sigma), y)
        n.final = {y}
    return Lang(n, sigma)


def image(lang, h, before='', after='', negate=False):
    """before + h(word) + after for every word of the language (or of its
    complement); h maps a character to a text"""
    n = NFA()
    q = n.start

    def word(a, w):
        for c in w:
            z = n.new()
            n.add(a, frozenset(c), z)
            a = z
        return a
    q = word(q, before)
    ids = {}

    def sid(s):
        if s not in ids:
            ids[s] = n.new()
            todo.append(s)
        return ids[s]
    todo = []
    end = n.new()
    n.add(q, None, sid(lang.start))
    while todo:
        s = todo.pop()
        if lang.accepts(s) != negate:
            n.add(ids[s], None, end)
        for c in lang.sigma:
            z = lang.step(s, c)
            if not z and not negate:
                continue
            t = sid(z)
            w = h(c)
            if not w:
                n.add(ids[s], None, t)
                continue
            a = word(ids[s], w[:-1])
            n.add(a, frozenset(w[-1]), t)
    n.final = {word(end, after)}
    return Lang(n, lang.sigma)


def suffixed(lang, firsts, opt, sigma):
    """word + rest, where rest starts with one of `firsts` (or is empty when
    opt)"""
    n = NFA()
    n.edges = [list(x) for x in lang.n.edges]
    n.start = lang.n.start
    y = n.new()
    for f in lang.n.final:
        n.add(f, frozenset(firsts), y)
    n.add(y, frozenset(sigma), y)
    n.final = {y} | (set(lang.n.final) if opt else set())
    return Lang(n, sigma)


def find(a, b, test, limit=200000):
    """a shortest text for which test(accepted by a, accepted by b)"""
    start = (a.start, b.start)
    seen = {start: None}
    todo = [start]
    i = 0
    while i < len(todo):
        s = todo[i]
        i += 1
        if test(a.accepts(s[0]), b.accepts(s[1])):
            w = []
            while seen[s] is not None:
                s, c = seen[s]
                w.append(c)
            return ''.join(reversed(w))
        if i > limit:
            raise Unsupported('too many states')
        for c in a.sigma:
            z = (a.step(s[0], c), b.step(s[1], c))
            if z not in seen:
                seen[z] = (s, c)
                todo.append(z)
    return None


def within(a, b):
    """None if every text of a is in b, else a counterexample"""
    return find(a, b, lambda x, y: x and not y)


def common(a, b):
    return find(a, b, lambda x, y: x and y)


def prefixed(lang, sigma):
    """texts which start with a word of the language"""
    return suffixed(lang, sigma, True, sigma)


def alternatives(pattern, flags=0):
    """[(before, group, inside, after)] the ways a pattern can match, in the
    order they are tried; group: its name or number"""
    t, fl = parse(pattern, flags)
    names = {v: k for k, v in t.state.groupdict.items()}

    def has_group(items):
        for op, av in items:
            if op is sc.SUBPATTERN and (av[0] is not None or
                                        has_group(av[3])):
                return True
            if op is sc.BRANCH and any(has_group(x) for x in av[1]):
                return True
            if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and has_group(av[2]):
                raise Unsupported('repeated group')
        return False

    def expand(items):
        """lists of ('item', op, av) / ('group', id, items)"""
        outs = [[]]
        for op, av in items:
            if op is sc.SUBPATTERN:
                if av[1] or av[2]:
                    raise Unsupported('flags')
                if av[0] is not None:
                    if has_group(av[3]):
                        raise Unsupported('nested group')
                    new = [[('group', names.get(av[0], av[0]),
                             list(av[3]))]]
                elif has_group(av[3]):
                    new = expand(av[3])
                else:
                    new = [[('item', op, av)]]
            elif op is sc.BRANCH and has_group([(op, av)]):
                new = [y for x in av[1] for y in expand(x)]
            elif op is sc.BRANCH and len(outs) == 1 and not outs[0]:
                new = [y for x in av[1] for y in expand(x)]
            else:
                new = [[('item', op, av)]]
            outs = [o + y for o in outs for y in new]
            if len(outs) > 50:
                raise Unsupported('alternatives')
        return outs
    out = []
    for seq in expand(t):
        gs = [i for i, x in enumerate(seq) if x[0] == 'group']
        if len(gs) > 1:
            raise Unsupported('two groups')
        if not gs:
            out.append(([x[1:] for x in seq], None, [], []))
            continue
        i = gs[0]
        out.append(([x[1:] for x in seq[:i]], seq[i][1], seq[i][2],
                    [x[1:] for x in seq[i + 1:]]))
    return out, fl


def literal(items):
    """the text of a literal pattern, or None"""
    out = []
    for op, av in items:
        if op is not sc.LITERAL:
            return None
        out.append(chr(av))
    return ''.join(out)


def lazy(items):
    for op, av in items:
        if op is sc.MIN_REPEAT:
            return True
        if op is sc.SUBPATTERN and lazy(av[3]):
            return True
    return False


def tail_greedy(items):
    """does it end in one greedy repetition of a single character class?"""
    if not items:
        return False
    op, av = items[-1]
    return op is sc.MAX_REPEAT and len(av[2]) == 1 and \
        av[2][0][0] in (sc.IN, sc.ANY, sc.LITERAL, sc.NOT_LITERAL) and \
        av[1] is sc.MAXREPEAT
