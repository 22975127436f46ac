F = 'coll.py'
X = ['C30']
MUTS = []


def b(name, old, new, e='bad'):
    MUTS.append((name, F, old, new, X, e))


def k(name, old, new):
    b('ref-' + name, old, new, 'ok')


EXT = "        self._values.extend([self.coerce_value(item) for item in iterable])"
APP = "        self._values.append(self.coerce_value(item))"
INS = "        if i < 0:\n            i += len(self)\n        if i < 0:\n            i = 0\n        self[i:i] = (x,)"
POP = "        x = self[i]\n        del self[i]\n        return x"
IDX = "        for k in range(i, j):\n            if self[k] == x:\n                return k\n"
SET = "            self._values[key] = (self.coerce_value(item) for item in value)\n"
b('extend-gen', EXT, "        self._values.extend(self.coerce_value(item) for item in iterable)")
b('extend-loop', EXT, "        for item in iterable:\n            self.append(item)")
b('extend-map', EXT, "        self._values.extend(map(self.coerce_value, iterable))")
b('extend-front', EXT, "        self._values[0:0] = [self.coerce_value(item) for item in iterable]")
b('extend-filter', EXT, "        self._values.extend([self.coerce_value(item) for item in iterable if item is not None])")
b('extend-nothing', EXT, "        if not self._values:\n            self._values.extend([self.coerce_value(item) for item in iterable])")
k('extend-slice', EXT, "        n = len(self._values)\n        self._values[n:] = [self.coerce_value(item) for item in iterable]")
k('extend-iadd', EXT, "        coerced = []\n        for item in iterable:\n            coerced.append(self.coerce_value(item))\n        self._values += coerced")
k('extend-setitem', EXT, "        self[len(self):len(self)] = iterable")
b('append-once', APP, "        item = self.coerce_value(item)\n        if item not in self._values:\n            self._values.append(item)")
b('append-front', APP, "        self._values.insert(len(self) - 1, self.coerce_value(item))")
k('append-insert', APP, "        self._values.insert(len(self._values), self.coerce_value(item))")
k('append-ext', APP, "        self.extend([item])")
b('insert-clamp', "        if i < 0:\n            i = 0\n        self[i:i] = (x,)", "        self[i:i] = (x,)")
b('insert-neg', "        if i < 0:\n            i += len(self)\n        if i < 0:\n            i = 0\n        self[i:i]", "        if i < 0:\n            i += len(self) + 1\n        if i < 0:\n            i = 0\n        self[i:i]")
b('insert-replace', "self[i:i] = (x,)", "self[i:i + 1] = (x,)")
b('insert-twice', "self[i:i] = (x,)", "self[i:i] = (x, x)")
k('insert-list', INS, "        self._values.insert(i, self.coerce_value(x))")
k('insert-max', INS, "        if i < 0:\n            i = max(0, i + len(self))\n        self._values[i:i] = [self.coerce_value(x)]")
k('insert-plain', INS, "        self[i:i] = [x]")
b('pop-front', "def pop(self, i=-1):", "def pop(self, i=0):")
b('pop-last', "        x = self[i]\n        del self[i]\n", "        x = self[i]\n        del self[-1]\n")
b('pop-slice', "        x = self[i]\n        del self[i]\n", "        x = self[i]\n        del self[i:]\n")
b('pop-clamped', POP, "        if i < 0:\n            i += len(self)\n        x = self._values[i]\n        del self[i]\n        return x")
k('pop-list', POP, "        return self._values.pop(i)")
k('pop-values', POP, "        popped = self._values[i]\n        del self._values[i]\n        return popped")
b('index-noclamp', "            i += len_\n            if i < 0:\n                i = 0\n", "            i += len_\n")
b('index-j-noclamp', "        elif j > len_:\n            j = len_\n", "")
b('index-j-neg', "            j += len_\n            if j < 0:\n                j = 0\n", "            j += len_ - 1\n            if j < 0:\n                j = 0\n")
b('index-start1', "def index(self, x, i=0, j=None)", "def index(self, x, i=1, j=None)")
b('index-none', "        raise ValueError(\"%r is not in list\" % (x,))\n", "")
b('index-exc', "        raise ValueError(\"%r is not in list\" % (x,))", "        raise IndexError(\"%r is not in list\" % (x,))")
b('index-rev', "for k in range(i, j):", "for k in reversed(range(i, j)):")
b('index-next', "                return k\n        raise", "                return k + 1\n        raise")
b('index-in', "range(i, j):\n            if self[k] == x", "range(i, j):\n            if self[k] != x")
k('index-indices', "        if i < 0:\n            i += len_\n            if i < 0:\n                i = 0\n        if j is None:\n            j = len_\n        elif j < 0:\n            j += len_\n            if j < 0:\n                j = 0\n        elif j > len_:\n            j = len_\n        for k in range(i, j):", "        start, stop, _ = slice(i, j).indices(len_)\n        for k in range(start, stop):")
k('index-max', "        if i < 0:\n            i += len_\n            if i < 0:\n                i = 0\n", "        if i < 0:\n            i = max(i + len_, 0)\n")
k('index-min', "        elif j > len_:\n            j = len_\n", "        else:\n            j = min(j, len_)\n")
k('index-enum', IDX, "        for k, member in enumerate(self._values):\n            if i <= k < j and member == x:\n                return k\n")
k('index-values', IDX, "        values = self._values\n        for pos in range(i, j):\n            if values[pos] == x:\n                return pos\n")
b('remove-next', "del self[self.index(x)]", "del self[self.index(x) + 1]")
k('remove-list', "del self[self.index(x)]", "pos = self.index(x)\n        del self._values[pos]")
b('sort-args', "def sort(self, *a, **kw):\n        self._values.sort(*a, **kw)", "def sort(self, *a, **kw):\n        self._values.sort(*a)")
b('reverse-copy', "self._values.reverse()", "reversed(self._values)")
b('set-drop', SET, "            self._values[key] = [self.coerce_value(item) for item in value if item is not None]\n")
k('set-list', SET, "            self._values[key] = [self.coerce_value(item) for item in value]\n")
b('add-rev', "type(self)(self._values + other._values)", "type(self)(other._values + self._values)")
b('add-inplace', "        return type(self)(self._values + other._values)", "        self._values += other._values\n        return self")
b('add-self', "type(self)(self._values + other._values)", "type(self)(self._values + self._values)")
k('add-chain', "        return type(self)(self._values + other._values)", "        values = list(self._values)\n        values.extend(other._values)\n        return type(self)(values)")
b('count-index', "return self._values.count(value)", "return len(self._values)")
b('len-1', "return len(self._values)", "return len(self._values) - 1")
b('contains-raw', "return self.coerce_value(item) in self._values", "return item not in self._values")
b('dcontains-values', "        return item in self._values", "        return item in self.values()")
b('ditems-keys', "return iter(self._values.items())", "return iter(self._values)")
b('dvalues-keys', "return list(self._values.values())", "return list(self._values.keys())")
b('dkeys-filter', "return list(self._values.keys())", "return [k for k in self._values if k]")
b('iterkeys-v', "return (k for k, v in self.itertuples())", "return (v for k, v in self.itertuples())")
k('keys-list', "return list(self._values.keys())", "return list(self._values)")
k('values-comp', "return list(self._values.values())", "return [v for v in self._values.values()]")
k('values-comp2', "return list(self._values.values())", "return [self._values[k] for k in self._values]")
k('iterkeys-iter', "return (k for k, v in self.itertuples())", "return iter(self._values.keys())")
k('iter-yield', "return (v for k, v in self.itertuples())", "for k, v in self.itertuples():\n            yield v")
k('iter-iter', "        for x in self._values:\n            yield x\n", "        return iter(self._values)\n")
b('iter-rev', "        for x in self._values:\n            yield x\n", "        return reversed(self._values)\n")
b('iter-sorted', "        for x in self._values:\n            yield x\n", "        for x in sorted(self._values):\n            yield x\n")
b('num-sort', "            for v in coll:\n                yield i, v", "            for v in sorted(coll):\n                yield i, v")
b('dpop-get', "return self._values.pop(k)", "return self._values.get(k)")
b('dpop-noret', "return self._values.pop(k)", "self._values.pop(k)")
k('dpop-del', "return self._values.pop(k)", "v = self._values[k]\n        del self._values[k]\n        return v")
b('clear-nothing', "        self._values.clear()", "        dict(self._values).clear()")
b('update-swap', "            for k, v in iterable:\n                self[k] = self.coerce_value(v)", "            for k, v in iterable:\n                self[v] = self.coerce_value(k)")
b('update-nokw', "        for k, v in list(kw.items()):\n            self[k] = self.coerce_value(v)\n", "")
b('update-kwfirst', "        elif iterable is not None:\n            for k, v in iterable:\n                self[k] = self.coerce_value(v)\n        for k, v in list(kw.items()):\n            self[k] = self.coerce_value(v)\n", "        elif iterable is not None:\n            for k, v in iterable:\n                self[k] = self.coerce_value(v)\n        if iterable is None:\n            for k, v in list(kw.items()):\n                self[k] = self.coerce_value(v)\n")
b('update-keep', "                self[k] = self.coerce_value(iterable[k])", "                if k not in self:\n                    self[k] = self.coerce_value(iterable[k])")
k('update-simple', "            for k in list(iterable.keys()):\n                self[k] = self.coerce_value(iterable[k])", "            for key in iterable.keys():\n                self[key] = iterable[key]")
k('update-kw', "        for k, v in list(kw.items()):\n            self[k] = self.coerce_value(v)\n", "        for k in kw:\n            self[k] = kw[k]\n")
b('num-1', "            i = 0\n            for k in sorted(coll.keys()):", "            i = 1\n            for k in sorted(coll.keys()):")
b('num-2', "            i = 0\n            for v in coll:\n                yield i, v", "            i = 1\n            for v in coll:\n                yield i, v")
b('num-same', "                yield i, v\n                i += 1", "                yield i, v", 'bad')
b('num-rev', "for k in sorted(coll.keys()):", "for k in sorted(coll.keys(), reverse=True):")
b('dnum', "            i = 0\n            for v in coll:\n                yield (i, v)", "            i = 1\n            for v in coll:\n                yield (i, v)")
b('dpair-any', "                if isinstance(v, tuple) and len(v) == 2:", "                if isinstance(v, tuple):")
k('num-enum', "            i = 0\n            for v in coll:\n                yield i, v\n                i += 1", "            for i, v in enumerate(coll):\n                yield i, v")
k('num-enum2', "            i = 0\n            for k in sorted(coll.keys()):\n                yield (i, coll[k])\n                i += 1", "            for i, k in enumerate(sorted(coll)):\n                yield (i, coll[k])")
b('eq-values', "return self.itemtype == getattr(other, \"itemtype\", None) and \\\n            self._values", "return self._values")
b('eq-type', "            self._values == getattr(other, \"_values\", None)", "            len(self._values) == len(getattr(other, \"_values\", ()))")
b('ne-eq', "return not self.__eq__(other)", "return self.itemtype != getattr(other, 'itemtype', None)")
k('ne-op', "return not self.__eq__(other)", "return not (self == other)")
b('del-get', "    def __delitem__(self, key):\n        del self._values[key]", "    def __delitem__(self, key):\n        if key in self._values:\n            del self._values[key]", 'bad')
b('getitem-get', "    def __getitem__(self, key):\n        return self._values[key]", "    def __getitem__(self, key):\n        return self._values[key] if key in self._values else None", 'bad')
b('revert-pop', POP, "        if i < 0:\n            i += len(self)\n            if i < 0:\n                i = 0\n" + POP)
b('update-kw-head', "for k, v in list(kw.items()):", "for k, v in list(kw.items())[:1]:")
b('update-rev', "            for k, v in iterable:\n", "            for k, v in reversed(list(iterable)):\n")
b('contains-noconv', "return self.coerce_value(item) in self._values", "return item in self._values")
b('add-list', "        return type(self)(self._values + other._values)", "        return self._values + other._values")
b('add-noconv', "            other = type(self)(other)\n        return type(self)(self._v", "            pass\n        return type(self)(self._v")
b('values-none', "            stacklevel=2,\n        )\n        return self", "            stacklevel=2,\n        )\n        return None")
b('values-set', "        self[:] = value", "        self[1:] = value")
b('num-unsorted', "for k in sorted(coll.keys()):", "for k in coll.keys():")
k('num-sort2', "            for k in sorted(coll.keys()):", "            names = list(coll.keys())\n            names.sort()\n            for k in names:")
k('add-if', "        if not isinstance(other, type(self)) and \\\n                isinstance(other, self.colltype):\n            other = type(self)(other)\n        return type(self)(self._values + other._values)", "        if isinstance(other, self.colltype) and \\\n                not isinstance(other, type(self)):\n            added = type(self)(other)._values\n        else:\n            added = other._values\n        return type(self)(self._values + added)")

b('remove-every', '        del self[self.index(x)]',
  '        self._values = [y for y in self._values if y != x    ('b24 ix-j', 'coll.py',
     '        elif j < 0:\n            j += len_',
     '        elif i < 0:\n            j += len_',
     ["C30"], 'bad'),
    ('b24 ins1', 'coll.py',
     '        self[i:i] = (x,)',
     '        self[i:x] = (x,)',
     ["C30"], 'bad'),
    ('b24 ins3', 'coll.py',
     '        if i < 0:\n            i = 0\n        self',
     '        if x < 0:\n            i = 0\n        self',
     ["C30"], 'bad'),
    ('b24 ins4', 'coll.py',
     '        if i < 0:\n            i += len(self)\n        if',
     '        if x < 0:\n            i += len(self)\n        if',
     ["C30"], 'bad'),
    ('b24 add2', 'coll.py',
     'return type(self)(self._values + other._values)',
     'return type(self)(other._values + other._values)',
     ["C30"], 'bad'),
]')
