F = 'coll.py'
MUTS = [
 ('setdefault-like', F, "        if keys and callable(keys):\n            for k in list(iterable.keys()):\n                self[k] = self.coerce_value(iterable[k])", "        if keys and callable(keys):\n            self._values.update(iterable)", ['C05'], 'bad'),
 ('extend-raw-samecls', F, "        self._values.extend([self.coerce_value(item) for item in iterable])", "        if isinstance(iterable, ListCollection):\n            self._values.extend(iterable)\n        else:\n            self._values.extend(self.coerce_value(item) for item in iterable)", ['C05'], 'bad'),
 ('slice-raw', F, "self._values[key] = (self.coerce_value(item) for item in value)", "self._values[key] = value", ['C05'], 'bad'),
 ('insert-raw', F, "        self[i:i] = (x,)", "        self._values.insert(i, x)", ['C05'], 'bad'),
 ('ctor-drops-none', F, "            for v in coll:\n                yield i, v\n                i += 1", "            for v in coll:\n                if v is not None:\n                    yield i, v\n                    i += 1", ['C05'], 'bad'),
 ('coerce-falsy', F, "        if isinstance(v, cls.itemtype):\n            return v", "        if not v or isinstance(v, cls.itemtype):\n            return v", ['C05'], 'bad'),
 ('coerce-false', F, "    def tuples_to_coll(cls, generator, coerce=True):\n        tuples", "    def tuples_to_coll(cls, generator, coerce=False):\n        tuples", ['C05'], 'bad'),
 ('iadd-added', F, "    def count(self, value):", "    def __iadd__(self, other):\n        self._values += other\n        return self\n\n    def count(self, value):", ['C05'], 'bad'),
 ('ref-ctor-loop', F, "        tuples = cls.coerce_tuples(generator) if coerce else generator\n        return cls.colltype(v for k, v in tuples)", "        out = []\n        for k, v in generator:\n            if coerce:\n                v = cls.coerce_value(v)\n            out.append(v)\n        return cls.colltype(out)", ['C05'], 'ok'),
 ('ref-enumerate', F, "            i = 0\n            for v in coll:\n                yield i, v\n                i += 1", "            for i, v in enumerate(coll):\n                yield i, v", ['C05'], 'ok'),
 ('ref-extend-loop', F, "        self._values.extend([self.coerce_value(item) for item in iterable])", "        for item in iterable:\n            self.append(item)", ['C05'], 'ok'),
 ('ref-extend-map', F, "        self._values.extend([self.coerce_value(item) for item in iterable])", "        self._values.extend(map(self.coerce_value, iterable))", ['C05'], 'ok'),
 ('ref-extend-list', F, "        self._values.extend([self.coerce_value(item) for item in iterable])", "        coerced = [self.coerce_value(x) for x in iterable]\n        self._values += coerced", ['C05'], 'ok'),
 ('ref-insert', F, "        self[i:i] = (x,)", "        self._values.insert(i, self.coerce_value(x))", ['C05'], 'ok'),
 ('ref-coerce', F, "        if isinstance(v, cls.itemtype):\n            return v\n        else:\n            try:", "        if not isinstance(v, cls.itemtype):\n            try:\n                return cls.coerceitem(v)\n            except Exception as e:\n                raise exc.CollectionItemCoerceError(itemtype=cls.itemtype, colltype=cls, passed=v, exc=e)\n        return v\n        if True:\n            try:", ['C05'], 'ok'),
 ('dict-iterables-dropped', F, " or\n              (hasattr(coll, \"__iter__\") and callable(coll.__iter__)))", ")", ['C05'], 'bad'),
 ('dict-refuse-none', F, "                i += 1\n        elif coll:\n            raise exc.CollectionCoerceError(\n                passed=coll,\n                colltype=cls,\n            )\n", "                i += 1\n", ['C05'], 'bad'),
 ('list-refuse-none', F, "        elif not coll:\n            return\n        else:\n            raise exc.CollectionCoerceError(\n                passed=coll,\n                colltype=cls,\n            )\n", "", ['C05'], 'bad'),
 ('ref-refuse', F, "        elif coll:\n            raise exc", "        elif not coll:\n            return\n        else:\n            raise exc", ['C05'], 'ok'),
]
