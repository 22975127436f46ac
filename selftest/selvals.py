F = 'selector.py'
V = ['C23']
INIT = """            if any(
                e for e in expr_selectors if not (
                    isinstance(e, str) or isinstance(e, int) or e is None
                )
            ):
                raise ValueError(
                    "FieldSelectors can only contain ints/longs, "
                    "strings, and None"
                )
            # shallow copying via slice is faster than copy.copy()
            self.selectors = expr_selectors[:]
"""
LT = """        end = len(self.selectors)
        if len(self.selectors) > len(other.selectors):
            end = len(other.selectors)
        for i in range(end):
            self_selector = self.selectors[i]
            other_selector = other.selectors[i]
            if self_selector == other_selector:
                continue
"""
ADD = """        if isinstance(other, (str, int)):
            return type(self)(self.selectors + [other])
        elif isinstance(other, collections.abc.Iterable):
            return type(self)(self.selectors + list(other))
        elif isinstance(other, FieldSelector):
            return type(self)(self).extend(other)
"""
SW = """            return len(key_or_fs) <= len(self.selectors) and all(
                key_or_fs[i] == self.selectors[i] for i in range(
                    0, len(key_or_fs),
                )
            )
"""
MUTS = [
    ('init share', F, 'self.selectors = expr_selectors[:]',
     'self.selectors = expr_selectors', V, 'bad'),
    ('init share fs', F, """                expr_selectors = list(expr)
""", """                expr_selectors = expr
                expr = None
""", V, 'any'),
    ('init no check', F, INIT, """            self.selectors = expr_selectors[:]
""", V, 'bad'),
    ('init check only list', F, INIT, """            if not hasattr(expr, "selectors"):
    """ + INIT.replace('\n            ', '\n                ')[8:].replace("""                # shallow copying via slice is faster than copy.copy()
                self.sel""", """            self.sel"""), V, 'any'),
    ('init floats', F, 'isinstance(e, str) or isinstance(e, int) or e is None',
     'isinstance(e, (str, int, float)) or e is None', V, 'bad'),
    ('init no None', F, 'isinstance(e, str) or isinstance(e, int) or e is None',
     'isinstance(e, (str, int))', V, 'any'),
    ('init tail', F, 'self.selectors = expr_selectors[:]',
     'self.selectors = expr_selectors[1:]', V, 'bad'),
    ('init rev', F, 'self.selectors = expr_selectors[:]',
     'self.selectors = expr_selectors[::-1]', V, 'bad'),
    ('init list ok', F, 'self.selectors = expr_selectors[:]',
     'self.selectors = list(expr_selectors)', V, 'ok'),
    ('init loop ok', F, INIT, """            for e in expr_selectors:
                if not (isinstance(e, (str, int)) or e is None):
                    raise ValueError("bad")
            self.selectors = list(expr_selectors)
""", V, 'ok'),
    ('init helper ok', F, [(F, INIT, """            self._check(expr_selectors)
            self.selectors = expr_selectors[:]
"""), (F, """    def add_property(self""", """    @staticmethod
    def _check(elements):
        for e in elements:
            if e is None or isinstance(e, (int, str)):
                continue
            raise ValueError("bad")

    def add_property(self""")], None, V, 'ok'),
    ('init all ok', F, INIT, """            if not all(
                e is None or isinstance(e, (str, int)) for e in expr_selectors
            ):
                raise ValueError("bad")
            self.selectors = expr_selectors[:]
""", V, 'ok'),
    ('add extend self', F, 'return type(self)(self).extend(other)',
     'return self.extend(other)', V, 'bad'),
    ('add order', F, 'return type(self)(self.selectors + list(other))',
     'return type(self)(list(other) + self.selectors)', V, 'bad'),
    ('add str split', F, 'if isinstance(other, (str, int)):',
     'if isinstance(other, int):', V, 'bad'),
    ('add inplace', F, 'return type(self)(self.selectors + [other])',
     'self.selectors.append(other)\n            return type(self)(self)', V,
     'bad'),
    ('add drop', F, 'return type(self)(self).extend(other)',
     'return type(self)(self)', V, 'bad'),
    ('add other', F, 'return type(self)(self).extend(other)',
     'return type(self)(other).extend(self)', V, 'bad'),
    ('add ok', F, ADD, """        rv = type(self)(self)
        if isinstance(other, (str, int)):
            rv.selectors.append(other)
            return rv
        elif isinstance(other, FieldSelector):
            return rv.extend(other)
        elif isinstance(other, collections.abc.Iterable):
            rv.selectors.extend(other)
            return rv
""", V, 'ok'),
    ('add ok2', F, ADD, """        if isinstance(other, FieldSelector):
            return type(self)(self.selectors + other.selectors)
        elif isinstance(other, (str, int)):
            tail = [other]
            return type(self)(self.selectors + tail)
        elif isinstance(other, collections.abc.Iterable):
            return type(self)(list(self.selectors) + list(other))
""", V, 'ok'),
    ('slice list', F, 'return type(self)(self.selectors[key])',
     'return self.selectors[key]', V, 'bad'),
    ('item fs', F, '            return self.selectors[key]\n',
     '            return type(self)([self.selectors[key]])\n', V, 'bad'),
    ('item ok', F, """            return type(self)(self.selectors[key])
        else:
            return self.selectors[key]
""", """            part = self.selectors[key]
            return type(self)(part)
        return self.selectors[key]
""", V, 'ok'),
    ('extend copy', F, """        self.selectors.extend(other.selectors)
        return self ""","""        rv = type(self)(self)
        rv.selectors.extend(other.selectors)
        return rv ""","""["C23"]""" and V, 'bad'),
    ('extend append', F, 'self.selectors.extend(other.selectors)',
     'self.selectors.append(other.selectors)', V, 'bad'),
    ('extend swap', F, 'self.selectors.extend(other.selectors)',
     'other.selectors.extend(self.selectors)', V, 'bad'),
    ('extend none', F, """        self.selectors.extend(other.selectors)
        return self ""","""        self.selectors.extend(other.selectors)
        return other ""","""[]""" and V, 'bad'),
    ('extend ok', F, 'self.selectors.extend(other.selectors)',
     'self.selectors += other.selectors', V, 'ok'),
    ('extend ok2', F, 'self.selectors.extend(other.selectors)',
     'self.selectors = self.selectors + other.selectors', V, 'ok'),
    ('add_index nocheck', F, """        if not isinstance(index, int):
            raise ValueError("index must be an int or a long")
""", '', V, 'bad'),
    ('add_property append', F, 'self.selectors.append(prop)',
     'self.selectors.insert(0, prop)', V, 'any'),
    ('add_full', F, 'self.selectors.append(None)',
     'self.selectors.append(0)', V, 'bad'),
    ('add_full slice', F, 'self.selectors.append(None)',
     'self.selectors = self.selectors[:-1] + [None]', V, 'any'),
    ('eq type', F, 'return self.selectors == other.selectors',
     'return self.selectors[-1:] == other.selectors[-1:]', V, 'bad'),
    ('eq len', F, 'return self.selectors == other.selectors',
     'return self.selectors == other.selectors[:len(self.selectors)]', V,
     'bad'),
    ('ne', F, 'return self.selectors != other.selectors',
     'return len(self.selectors) != len(other.selectors)', V, 'bad'),
    ('ne ok', F, 'return self.selectors != other.selectors',
     'return not (self == other)', V, 'ok'),
    ('hash id', F, 'return hash(tuple(self.selectors))', 'return id(self)',
     V, 'bad'),
    ('hash none', F, """    def __hash__(self):
        return hash(tuple(self.selectors))

""", '', V, 'bad'),
    ('hash object', F, 'return hash(tuple(self.selectors))',
     'return object.__hash__(self)', V, 'any'),
    ('lt rev', F, 'return self_selector < other_selector',
     'return other_selector < self_selector', V, 'bad'),
    ('lt eq', F, """            if self_selector == other_selector:
                continue
""", '', V, 'bad'),
    ('lt len', F, 'return len(self.selectors) < len(other.selectors)',
     'return len(self.selectors) > len(other.selectors)', V, 'bad'),
    ('lt le', F, 'return len(self.selectors) < len(other.selectors)',
     'return len(self.selectors) <= len(other.selectors)', V, 'bad'),
    ('lt last', F, """            if self_selector == other_selector:
                continue
""", """            if self_selector == other_selector and i < end - 1:
                continue
""", V, 'bad'),
    ('lt ok zip', F, LT, """        for i, (self_selector, other_selector) in enumerate(
            zip(self.selectors, other.selectors)
        ):
            if self_selector == other_selector:
                continue
""", V, 'ok'),
    ('lt ok min', F, LT, """        for i in range(min(len(self.selectors), len(other.selectors))):
            self_selector = self.selectors[i]
            other_selector = other.selectors[i]
            if self_selector == other_selector:
                continue
""", V, 'ok'),
    ('no total', F, '@functools.total_ordering\n', '', V, 'bad'),
    ('sw len', F, 'return len(key_or_fs) <= len(self.selectors) and all(',
     'return all(', V, 'bad'),
    ('sw off', F, SW, SW.replace('0, len', '1, len'), V, 'any'),
    ('sw any', F, SW, SW.replace('all(', 'any('), V, 'bad'),
    ('sw strict', F, SW, SW.replace('<=', '<'), V, 'bad'),
    ('sw single', F,
     'return bool(self.selectors) and self.selectors[0] == key_or_fs',
     'return key_or_fs in self.selectors', V, 'bad'),
    ('sw single last', F,
     'return bool(self.selectors) and self.selectors[0] == key_or_fs',
     'return bool(self.selectors) and self.selectors[-1] == key_or_fs', V,
     'bad'),
    ('sw ok', F, SW, """            if len(key_or_fs) > len(self.selectors):
                return False
            for i in range(len(key_or_fs)):
                if key_or_fs[i] != self.selectors[i]:
                    return False
            return True
""", V, 'ok'),
    ('sw ok2', F, SW, """            n = len(key_or_fs)
            return n <= len(self.selectors) and not any(
                self.selectors[i] != key_or_fs[i] for i in range(n))
""", V, 'ok'),
    ('sw ok3', F, SW, """            if len(key_or_fs) > len(self.selectors):
                return False
            return all(self.selectors[i] == x
                       for i, x in enumerate(key_or_fs))
""", V, 'ok'),
    ('sw ok4', F, SW, """            head = self.selectors[:len(key_or_fs)]
            return head == list(key_or_fs)
""", V, 'ok'),
    ('len', F, 'return len(self.selectors)\n\n    def __getitem__',
     'return len(self.selectors) + 1\n\n    def __getitem__', V, 'bad'),
    ('put pops', F, "            selector = self.selectors[0]\n            sub",
     "            selector = self.selectors.pop(0)\n            sub", V,
     'bad'),
    ('getnew', F, 'return (tuple(self.selectors),)',
     'return (tuple(self.selectors[1:]),)', V, 'any'),
]
