F = 'selector.py'
V = ['C25']
DEL = """        for fs in sorted(
            self, reverse=True, key=lambda fs: [
                abs(x) if isinstance(x, int) else 0
                for x in fs.selectors
            ],
        ):
            try:
                fs.delete(obj)
            except FieldSelectorException:
                pass
"""
HEADS = """            if isinstance(other, MultiFieldSelector):
                for head, tail in other.heads.items():
                    heads[head].add(tail)
            elif isinstance(other, FieldSelector):
"""
PUT = """            chain = selector.selectors
            if chain:
                head = chain[0]
                tail = self.FieldSelector(chain[1:]) if len(chain) > 1 else all
                heads[head].add(tail)
            else:
                heads[None].add(all)
"""
ITER = """        for head, tail in self.heads.items():
            head_selector = self.FieldSelector((head,))
            if tail is all:
                if head is None:
                    yield self.FieldSelector((None,))
                else:
                    yield head_selector
            else:
                for x in tail:
                    yield head_selector + x
"""
GI = """            head_index = None if self.has_none else index[0]
            tail = index[1:]
            if self.complete:
                return self
            elif head_index not in self.heads:
                return None

            head = self.heads[head_index]
            if head is all:
                return type(self).complete_mfs()
            elif tail:
                return head[tail]
            else:
                return head
"""
PA = """        for fs in self:
            try:
                fs_val.append((fs, fs.get(source)))
            except AttributeError:
                fs_val.append((fs, _None))
            except FieldSelectorException:
                raise
"""
PB = """        for fs, val in fs_val:
            if val is _None:
                fs.delete(target)
            else:
                fs.post(target, val if not copy else copy(val))
"""
REC = """                for head, tail in self.heads.items():
                    val = getattr(obj, head, None)
                    if val is not None:
                        kwargs[head] = self._get(val, tail)
"""
MUTS = [
    # construction
    ('multi dropped', F, HEADS, """            if isinstance(other, MultiFieldSelector):
                continue
            elif isinstance(other, FieldSelector):
""", V, 'bad'),
    ('multi first only', F, "                    heads[head].add(tail)\n            elif",
     "                    heads[head].add(tail)\n                    break\n            elif", V, 'bad'),
    ('multi whole', F, "                    heads[head].add(tail)\n            elif",
     "                    heads[head].add(all)\n            elif", V, 'bad'),
    ('tail from 2', F, 'self.FieldSelector(chain[1:]) if len(chain) > 1',
     'self.FieldSelector(chain[2:]) if len(chain) > 1', V, 'bad'),
    ('tail all early', F, 'self.FieldSelector(chain[1:]) if len(chain) > 1',
     'self.FieldSelector(chain[1:]) if len(chain) > 2', V, 'bad'),
    ('last head', F, 'head = chain[0]', 'head = chain[-1]', V, 'bad'),
    ('any tail all', F, 'head, all if all in tail else MultiFieldSelector',
     'head, all if len(tail) == 1 else MultiFieldSelector', V, 'bad'),
    ('never all', F, 'head, all if all in tail else MultiFieldSelector(*tail)',
     'head, MultiFieldSelector(*tail) if len(tail) > 1 else all', V, 'bad'),
    ('own selectors ignored', F, '                selectors.append(other)\n',
     '                pass\n', V, 'bad'),
    ('empty ignored', F, """            else:
                heads[None].add(all)
""", "", V, 'bad'),
    ('stop at empty', F, """            else:
                heads[None].add(all)
""", """            else:
                heads[None].add(all)
                break
""", V, 'bad'),
    ('build: helper', F, [(PUT, """            self._put(heads, selector.selectors)
"""), ("""    def __str__(self):
        \"\"\"Stringification of a Multi""", """    def _put(self, table, chain):
        if chain:
            head = chain[0]
            tail = self.FieldSelector(chain[1:]) if len(chain) > 1 else all
            table[head].add(tail)
        else:
            table[None].add(all)

    def __str__(self):
        \"\"\"Stringification of a Multi""")], None, V, 'ok'),
    ('build: length test', F, PUT, """            chain = selector.selectors
            if not chain:
                heads[None].add(all)
                continue
            if len(chain) == 1:
                heads[chain[0]].add(all)
            else:
                heads[chain[0]].add(self.FieldSelector(chain[1:]))
""", V, 'ok'),
    ('build: one loop', F, [('''            elif isinstance(other, FieldSelector):
                selectors.append(other)
            else:
                selectors.append(self.FieldSelector(other))

        for selector in selectors:
            chain = selector.selectors
''', '''                continue
            if not isinstance(other, FieldSelector):
                other = self.FieldSelector(other)

            chain = other.selectors
''')], None, V, 'ok'),
    ('build: dict loop', F, """        self.heads = dict(
            (head, all if all in tail else MultiFieldSelector(*tail))
            for head, tail in heads.items()
        ) if None not in heads or heads[None] is not all else {None: all}
""", """        self.heads = {}
        for head, tails in heads.items():
            if all in tails:
                self.heads[head] = all
            else:
                self.heads[head] = MultiFieldSelector(*tails)
""", V, 'ok'),
    # flags
    ('flags swapped', F, 'self.has_int = int in head_types',
     'self.has_int = str in head_types', V, 'bad'),
    ('flag none', F, 'self.has_none = type(None) in head_types',
     'self.has_none = False', V, 'bad'),
    ('mixed int', F, 'if self.has_none and (self.has_int or self.has_string)',
     'if self.has_none and (self.has_int and self.has_string)', V, 'bad'),
    ('mixed off', F, 'if self.has_none and (self.has_int or self.has_string)',
     'if self.has_none and self.has_string', V, 'bad'),
    ('complete any', F, 'self.complete = self.has_none and self.heads[None] is all',
     'self.complete = self.has_none', V, 'bad'),
    ('complete never', F, 'self.complete = self.has_none and self.heads[None] is all',
     'self.complete = False', V, 'bad'),
    ('complete: none in', F, 'self.complete = self.has_none and self.heads[None] is all',
     'self.complete = self.heads.get(None) is all', V, 'ok'),
    ('flags: any', F, 'self.has_int = int in head_types',
     'self.has_int = any(isinstance(x, int) for x in self.heads)', V, 'ok'),
    ('flags: none in', F, 'self.has_none = type(None) in head_types',
     'self.has_none = None in self.heads', V, 'ok'),
    # iteration
    ('iter head lost', F, 'yield head_selector + x', 'yield x', V, 'bad'),
    ('iter rest lost', F, 'yield head_selector + x', 'yield head_selector', V, 'bad'),
    ('iter one', F, 'yield head_selector + x',
     'yield head_selector + x\n                    break', V, 'bad'),
    ('iter all lost', F, """                if head is None:
                    yield self.FieldSelector((None,))
                else:
                    yield head_selector
""", """                if head is not None:
                    yield head_selector
""", V, 'bad'),
    ('iter simple', F, ITER, """        for head, tail in self.heads.items():
            if tail is all:
                yield self.FieldSelector([head])
                continue
            for x in tail:
                yield self.FieldSelector([head]) + x
""", V, 'ok'),
    ('iter key loop', F, ITER, """        for head in self.heads:
            first = self.FieldSelector((head,))
            rest = self.heads[head]
            if rest is not all:
                for x in rest:
                    yield first + x
            else:
                yield first
""", V, 'ok'),
    # __getitem__
    ('gi none head', F, 'head_index = None if self.has_none else index[0]',
     'head_index = index[0]', V, 'bad'),
    ('gi missing self', F, """            elif head_index not in self.heads:
                return None
""", """            elif head_index not in self.heads:
                return self
""", V, 'bad'),
    ('gi all partial', F, """            if head is all:
                return type(self).complete_mfs()
""", """            if head is all:
                return self
""", V, 'bad'),
    ('gi tail ignored', F, """            elif tail:
                return head[tail]
            else:
                return head
""", """            else:
                return head
""", V, 'bad'),
    ('gi tail same', F, 'return head[tail]', 'return head[index]', V, 'bad'),
    ('gi tail 2', F, "            tail = index[1:]\n            if self.complete",
     "            tail = index[2:]\n            if self.complete", V, 'bad'),
    ('gi single none', F, """        tail = (
            self.heads[None] if self.has_none else
            self.heads.get(index, None)
        )
""", """        tail = self.heads.get(index, None)
""", V, 'bad'),
    ('gi single all', F, 'return type(self).complete_mfs() if tail == all else tail',
     'return tail', V, 'bad'),
    ('gi empty', F, """            if len(index) == 0:
                return self
            head_index""", """            if len(index) == 0:
                return None
            head_index""", V, 'bad'),
    ('gi: in', F, GI, """            key = None if self.has_none else index[0]
            if key in self.heads:
                sub = self.heads[key]
                if sub is all:
                    return type(self).complete_mfs()
                return sub[index[1:]] if len(index) > 1 else sub
            return None
""", V, 'ok'),
    # __contains__
    ('contains flip', F, 'return self.has_none or index in self.heads',
     'return index in self.heads', V, 'bad'),
    ('contains none', F, 'return self.has_none or index in self.heads',
     'return self.has_none and index in self.heads', V, 'bad'),
    # get
    ('get shared', F, '            return deepcopy(obj)\n        else:\n            return tail.get(obj)',
     '            return obj\n        else:\n            return tail.get(obj)', V, 'bad'),
    ('list self', F, "vals = list(self._get(x, tail) for x in obj)",
     "vals = list(self._get(x, tail) for x in obj[1:])", V, 'bad'),
    ('list filter', F, "vals = list(self._get(x, tail) for x in obj)",
     "vals = list(self._get(x, tail) for x in obj if x)", V, 'bad'),
    ('list none tail', F, "vals = list(self._get(x, tail) for x in obj)",
     "vals = list(self._get(x, all) for x in obj)", V, 'bad'),
    ('list raw', F, "vals = list(self._get(x, tail) for x in obj)",
     "vals = list(obj) if tail is all else list(self._get(x, tail) for x in obj)", V, 'bad'),
    ('list string', F, """            if self.has_string:
                raise TypeError(
                    "MultiFieldSelector has string in list collection context"
                )
""", "", V, 'bad'),
    ('dict whole', F, "(head, self._get(obj[head], tail)) for head, tail in\n                    self.heads.items() if head in obj",
     "(head, self._get(obj[head], all)) for head, tail in\n                    self.heads.items() if head in obj", V, 'bad'),
    ('dict falsy', F, "self.heads.items() if head in obj",
     "self.heads.items() if obj.get(head)", V, 'bad'),
    ('dict none key', F, "(k, self._get(v, tail)) for k, v in obj.items()",
     "(k, self._get(v, tail)) for k, v in obj.items() if v", V, 'bad'),
    ('dict none raw', F, "(k, self._get(v, tail)) for k, v in obj.items()",
     "(k, v) for k, v in obj.items()", V, 'bad'),
    ('record falsy', F, "                    if val is not None:\n                        kwargs[head]",
     "                    if val:\n                        kwargs[head]", V, 'bad'),
    ('record raw', F, 'kwargs[head] = self._get(val, tail)', 'kwargs[head] = val', V, 'bad'),
    ('record stop', F, REC, REC + "                    else:\n                        break\n", V, 'bad'),
    ('record self', F, 'return self._get(obj, all)', 'return obj', V, 'bad'),
    ('record int', F, "if self.has_int or (self.has_none and self.heads[None] is not all)",
     "if self.has_none and self.heads[None] is not all", V, 'bad'),
    ('list: loop', F, """                vals = list(self._get(x, tail) for x in obj)
""", """                vals = []
                for x in obj:
                    if tail is all:
                        vals.append(self._get(x, all))
                    else:
                        vals.append(tail.get(x))
""", V, 'ok'),
    ('list: index keys', F, """                vals = list(
                    self._get(obj[head], tail) for head, tail in
                    sorted(self.heads.items())
                )
""", """                vals = [
                    self._get(obj[i], self.heads[i])
                    for i in sorted(self.heads)
                ]
""", V, 'ok'),
    ('dict: loop', F, """                return ctor(
                    (head, self._get(obj[head], tail)) for head, tail in
                    self.heads.items() if head in obj
                )
""", """                found = []
                for head in self.heads:
                    if head not in obj:
                        continue
                    found.append((head, self._get(obj[head], self.heads[head])))
                return ctor(found)
""", V, 'ok'),
    ('record: comp', F, "                kwargs = dict()\n" + REC + "                return ctor(**kwargs)\n", """                wanted = {
                    head: getattr(obj, head, None) for head in self.heads
                }
                return ctor(**{
                    head: self._get(val, self.heads[head])
                    for head, val in wanted.items() if val is not None
                })
""", V, 'any'),
    # delete
    ('delete nocheck', F, "        if not force:\n            for fs in self:\n                try:\n                    fs.get(obj)",
     "        if force:\n            for fs in self:\n                try:\n                    fs.get(obj)", V, 'bad'),
    ('delete swallow', F, "                    fs.get(obj)\n                except FieldSelectorException:\n                    raise",
     "                    fs.get(obj)\n                except FieldSelectorException:\n                    pass", V, 'bad'),
    ('delete forward', F, 'self, reverse=True, key=lambda fs: [', 'self, key=lambda fs: [', V, 'bad'),
    ('delete unordered', F, DEL, """        for fs in self:
            try:
                fs.delete(obj)
            except FieldSelectorException:
                pass
""", V, 'bad'),
    ('delete stops', F, DEL, DEL.replace('pass', 'break'), V, 'bad'),
    ('delete raises', F, DEL, DEL.replace('pass', 'raise'), V, 'any'),
    ('delete interleaved', F, [("                    fs.get(obj)\n                except FieldSelectorException:\n                    raise",
     "                    fs.get(obj)\n                    fs.delete(obj)\n                except FieldSelectorException:\n                    raise")], None, V, 'bad'),
    ('delete: no try', F, "                try:\n                    fs.get(obj)\n                except FieldSelectorException:\n                    raise",
     "                fs.get(obj)", V, 'ok'),
    # patch
    ('patch direct', F, [(PA, ""), (PB, """        for fs in self:
            try:
                val = fs.get(source)
            except AttributeError:
                fs.delete(target)
            else:
                fs.post(target, val if not copy else copy(val))
""")], None, V, 'bad'),
    ('patch nocopy', F, 'fs.post(target, val if not copy else copy(val))',
     'fs.post(target, val)', V, 'bad'),
    ('patch keep', F, '                fs.delete(target)\n            else', '                pass\n            else', V, 'bad'),
    ('patch swap', F, 'fs_val.append((fs, fs.get(source)))', 'fs_val.append((fs, fs.get(target)))', V, 'bad'),
    ('patch source', F, 'fs.post(target, val if', 'fs.post(source, val if', V, 'bad'),
    ('patch shallow', F, "            copy = deepcopy\n", "            copy = _shallow\n", V, 'any'),
    ('patch missing skipped', F, '                fs_val.append((fs, _None))\n', '                pass\n', V, 'bad'),
    ('patch: put', F, 'fs.post(target, val if not copy else copy(val))',
     'v = copy(val) if copy else val\n                fs.post(target, v)', V, 'ok'),
    ('mut self', F, "            if self.has_none:\n                tail = self.heads[None]\n                vals",
     "            self.heads.pop(0, None)\n            if self.has_none:\n                tail = self.heads[None]\n                vals", V, 'bad'),
    ('mut obj', F, "                return self._get(obj, all)", "                obj.x = 1\n                return self._get(obj, all)", V, 'bad'),
    ('b4 dict missing', F, "                    self.heads.items() if head in obj\n", "                    self.heads.items()\n", V, 'bad'),
    ('b4 signed order', F, "                abs(x) if isinstance(x, int) else 0\n", "                x if isinstance(x, int) else 0\n", V, 'bad'),
    ('b4 stops at a missing one', F, "            try:\n                fs.delete(obj)\n            except FieldSelectorException:\n                pass", "            fs.delete(obj)", V, 'bad'),
    ('b4 abs by hand', F, "                abs(x) if isinstance(x, int) else 0\n", "                (x if x >= 0 else -x) if isinstance(x, int) else 0\n", V, 'ok'),
    ('b4 suppress', F, [("            try:\n                fs.delete(obj)\n            except FieldSelectorException:\n                pass", "            with suppress(FieldSelectorException):\n                fs.delete(obj)"), ("import re\n", "import re\nfrom contextlib import suppress\n")], None, V, 'ok'),
    ('b4 dict keyerror', F, """                return ctor(
                    (head, self._get(obj[head], tail)) for head, tail in
                    self.heads.items() if head in obj
                )
""", """                out = []
                for head, tail in self.heads.items():
                    try:
                        val = obj[head]
                    except KeyError:
                        continue
                    out.append((head, self._get(val, tail)))
                return ctor(out)
""", V, 'ok'),
    ('b24 patchc', 'selector.py',
     'val if not copy else copy(val)',
     'val if not copy else copy(fs)',
     ["C25"], 'bad'),
    ('b24 delobj', 'selector.py',
     '                    fs.get(obj)\n                except FieldSelectorException:\n                    raise\n\n        # delete',
     '                    fs.get(self)\n                except FieldSelectorException:\n                    raise\n\n        # delete',
     ["C25"], 'bad'),
]
