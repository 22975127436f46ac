F = 'selector.py'
G = ['C21']
P = ['C22']
GETKEY = """                try:
                    record = record[selector]
                except LookupError:
                    raise FieldSelectorKeyError(key=selector)
            else:
                if not hasattr(record, selector):
                    raise FieldSelectorAttributeError(name=selector)
                record = getattr(record, selector)
            i = i + 1
        return record
"""
LOOP = """                rv = []
                all_exc = None
                for r in record:
                    val = None
                    try:
                        val = sub_field_selector.get(r)
                        all_exc = False
                    except FieldSelectorException as e:
                        if all_exc is None:
                            all_exc = e
                    rv.append(val)
                if all_exc:
                    raise all_exc
                else:
                    return rv
"""
MUTS = [
 ('get-indexerror', F, GETKEY, GETKEY.replace("LookupError", "KeyError"), G, 'bad'),
 ('get-valueerror', F, GETKEY, GETKEY.replace("raise FieldSelectorKeyError(key=selector)", "raise KeyError(selector)"), G, 'bad'),
 ('get-noattr', F, GETKEY, GETKEY.replace("                if not hasattr(record, selector):\n                    raise FieldSelectorAttributeError(name=selector)\n", ""), G, 'bad'),
 ('get-nonefill', F, GETKEY, GETKEY.replace("                record = getattr(record, selector)\n            i", "                record = getattr(record, selector)\n                if record is None:\n                    return None\n            i"), G, 'bad'),
 ('get-skip', F, LOOP, LOOP.replace("                    rv.append(val)\n", "                    if val is not None:\n                        rv.append(val)\n"), G, 'bad'),
 ('get-skip2', F, LOOP, LOOP.replace("                        val = sub_field_selector.get(r)\n", "                        rv.append(sub_field_selector.get(r))\n").replace("                    rv.append(val)\n", ""), G, 'bad'),
 ('get-allexc', F, LOOP, LOOP.replace("                        all_exc = False\n", ""), G, 'bad'),
 ('get-lastexc', F, LOOP, LOOP.replace("                        if all_exc is None:\n                            all_exc = e\n", "                        all_exc = e\n"), G, 'bad'),
 ('get-neverexc', F, LOOP, LOOP.replace("                    val = None\n", "                    val = None\n                    all_exc = None\n"), G, 'bad'),
 ('get-rest', F, "                sub_field_selector = type(self)(self.selectors[i + 1:])\n                rv", "                sub_field_selector = type(self)(self.selectors[i:])\n                rv", G, 'bad'),
 ('get-break', F, LOOP, LOOP.replace("                            all_exc = e\n", "                            all_exc = e\n                        break\n"), G, 'bad'),
 ('get-skippath', F, "        for selector in self.selectors:\n", "        for selector in self.selectors[:-1]:\n", G, 'bad'),
 ('get-attrint', F, "    if isinstance(selector, int):\n        return True\n", "", G, 'bad'),
 ('get-noi', F, GETKEY, GETKEY.replace("            i = i + 1\n", ""), G, 'bad'),
 ('gon-broad', F, "            return self.get(record)\n        except FieldSelectorException:", "            return self.get(record)\n        except Exception:", G, 'bad'),
 ('gon-narrow', F, "            return self.get(record)\n        except FieldSelectorException:", "            return self.get(record)\n        except FieldSelectorKeyError:", G, 'bad'),
 ('gon-falsy', F, "            return self.get(record)\n        except FieldSelectorException:", "            return self.get(record) or None\n        except FieldSelectorException:", G, 'bad'),
 ('ref-get-enum', F, [(F, "        i = 0\n        for selector in self.selectors:\n            if selector is None:\n", "        for i, selector in enumerate(self.selectors):\n            if selector is None:\n"), (F, GETKEY, GETKEY.replace("            i = i + 1\n", ""))], None, G, 'ok'),
 ('ref-get-flags', F, LOOP, """                rv = []
                first = None
                found = False
                for r in record:
                    try:
                        rv.append(sub_field_selector.get(r))
                        found = True
                    except FieldSelectorException as e:
                        rv.append(None)
                        if first is None:
                            first = e
                if first is not None and not found:
                    raise first
                return rv
""", G, 'ok'),
 ('ref-get-else', F, LOOP, LOOP.replace("                        val = sub_field_selector.get(r)\n                        all_exc = False\n", "                        val = sub_field_selector.get(r)\n").replace("                            all_exc = e\n", "                            all_exc = e\n                    else:\n                        all_exc = False\n"), G, 'ok'),
 ('ref-get-attr', F, GETKEY, GETKEY.replace("""                if not hasattr(record, selector):
                    raise FieldSelectorAttributeError(name=selector)
                record = getattr(record, selector)
""", """                try:
                    record = getattr(record, selector)
                except AttributeError:
                    raise FieldSelectorAttributeError(name=selector)
"""), G, 'ok'),
 ('ref-get-helper', F, [(F, GETKEY, GETKEY.replace("""                try:
                    record = record[selector]
                except LookupError:
                    raise FieldSelectorKeyError(key=selector)
""", """                record = _index(record, selector)
""")), (F, "@functools.total_ordering\n", """def _index(record, selector):
    try:
        return record[selector]
    except LookupError:
        raise FieldSelectorKeyError(key=selector)


@functools.total_ordering
""")], None, G, 'ok'),
 ('ref-gon', F, """        try:
            return self.get(record)
        except FieldSelectorException:
            return None
""", """        rv = None
        try:
            rv = self.get(record)
        except FieldSelectorException:
            pass
        return rv
""", G, 'ok'),

 ('put-idx', F, """                try:
                    record[selector] = value
                except LookupError:
""", """                try:
                    record[selector] = value
                except KeyError:
""", P, 'bad'),
 ('put-last', F, "            sub_selector = type(self)(self.selectors[1:])\n            if selector is None:\n                for x in record:", "            sub_selector = type(self)(self.selectors[-1:])\n            if selector is None:\n                for x in record:", P, 'bad'),
 ('put-break', F, "                    sub_selector.put(x, value)\n", "                    sub_selector.put(x, value)\n                    break\n", P, 'bad'),
 ('put-noattr', F, """                    try:
                        sub_record = getattr(record, selector)
                    except AttributeError:
                        raise""", """                    try:
                        sub_record = getattr(record, selector)
                    except LookupError:
                        raise""", P, 'bad'),
 ('put-append', F, "                record[:] = value\n", "                record[len(record):] = value\n", P, 'bad'),
 ('put-getnone', F, "                        sub_record = getattr(record, selector)\n", "                        sub_record = getattr(record, selector)\n                        if sub_record is None:\n                            return\n", P, 'bad'),
 ('put-falsy', F, "                try:\n                    setattr(record, selector, value)\n", "                try:\n                    if value is not None:\n                        setattr(record, selector, value)\n", P, 'bad'),
 ('post-lost', F, "                    if kwarg:\n                        put_final = True\n                record = getattr", "                    put_final = True\n                record = getattr", P, 'bad'),
 ('post-lost2', F, "                        record.append(type(record).itemtype(**kwarg))\n                        if kwarg:\n                            put_final = True\n", "                        record.append(type(record).itemtype())\n                        if kwarg:\n                            put_final = True\n", P, 'bad'),
 ('post-lost3', F, "            kwarg = {}\n            if i >=", "            kwarg = {}\n            put_final = bool(put_final)\n            if i >=", P, 'ok'),
 ('post-over', F, "                if not hasattr(record, selector):\n                    prop =", "                if not getattr(record, selector, None):\n                    prop =", P, 'bad'),
 ('post-when', F, "if i >= len(self.selectors) - 2 and", "if i >= len(self.selectors) - 3 and", P, 'bad'),
 ('post-none', F, "if i >= len(self.selectors) - 2 and self.selectors[-1] is not None:", "if i >= len(self.selectors) - 2:", P, 'bad'),
 ('post-order', F, "                        if len(record) != selector:\n", "                        if len(record) > selector:\n", P, 'bad'),
 ('post-stay', F, "                        put_final = True\n                    record = record[selector]\n            else", "                        put_final = True\n            else", P, 'bad'),
 ('post-count', F, "return sum(sub_field_selector.post(r, value) for r in record)", "return len([sub_field_selector.post(r, value) for r in record])", P, 'any'),
 ('post-value', F, "return sum(sub_field_selector.post(r, value) for r in record)", "return sum(self.post(r, value) for r in record)", P, 'any'),
 ('post-rest', F, "                sub_field_selector = type(self)(self.selectors[i + 1:])\n                return sum", "                sub_field_selector = type(self)(self.selectors[i:])\n                return sum", P, 'bad'),
 ('del-prefix', F, "        to_delete = self.selectors[-1]\n", "        to_delete = self.selectors[0]\n", P, 'bad'),
 ('del-key', F, "                try:\n                    del record[to_delete]\n                except LookupError:", "                try:\n                    del record[to_delete]\n                except IndexError:", P, 'bad'),
 ('del-swallow', F, "                    raise FieldSelectorKeyError(key=to_delete)", "                    pass", P, 'bad'),
 ('del-notempty', F, "            if to_delete is None:\n", "            if not to_delete:\n", P, 'bad'),
 ('del-cond', F, "            if hasattr(record, to_delete):\n                delattr", "            if getattr(record, to_delete, None):\n                delattr", P, 'bad'),
 ('del-allexc', F, "                        sub_field_selector.delete(r)\n                        all_exc = False\n", "                        sub_field_selector.delete(r)\n", P, 'bad'),
 ('del-clearonly', F, "                if hasattr(record, \"clear\") and callable(record.clear):\n                    record.clear()\n                else:\n                    record[:] = ()", "                if hasattr(record, \"clear\") and callable(record.clear):\n                    record.clear()", P, 'bad'),
 ('del-escape', F, """                try:
                    record = record[selector]
                except LookupError:
                    raise FieldSelectorKeyError(key=selector)
            else:
                if not hasattr(record, selector):
                    raise FieldSelectorAttributeError(name=selector)
                record = getattr(record, selector)
            i = i + 1
        to_delete""", """                record = record[selector]
            else:
                if not hasattr(record, selector):
                    raise FieldSelectorAttributeError(name=selector)
                record = getattr(record, selector)
            i = i + 1
        to_delete""", P, 'bad'),
 ('ref-put-flat', F, """        else:
            selector = self.selectors[0]
            sub_selector = type(self)(self.selectors[1:])
            if selector is None:
                for x in record:
                    sub_selector.put(x, value)
            else:
""", """        else:
            selector, rest = self.selectors[0], self.selectors[1:]
            sub_selector = type(self)(rest)
            if selector is None:
                for x in record:
                    sub_selector.put(x, value)
                return
            else:
""", P, 'ok'),
 ('ref-put-target', F, """                try:
                    setattr(record, selector, value)
                except AttributeError:
""", """                attribute = selector
                try:
                    setattr(record, attribute, value)
                except AttributeError:
""", P, 'ok'),
 ('ref-post-enum', F, """            if i >= len(self.selectors) - 2 and self.selectors[-1] is not None:
                kwarg[self.selectors[-1]] = value
""", """            last = self.selectors[-1]
            if last is not None and i == len(self.selectors) - 2:
                kwarg = {last: value}
""", P, 'ok'),
 ('ref-post-sum', F, "                return sum(sub_field_selector.post(r, value) for r in record)\n", """                count = 0
                for r in record:
                    count += sub_field_selector.post(r, value)
                return count
""", P, 'ok'),
 ('ref-post-put', F, "            type(self)([self.selectors[-1]]).put(record, value)", "            type(self)(self.selectors[-1:]).put(record, value)", P, 'ok'),
 ('ref-post-item', F, """                        record.append(type(record).itemtype(**kwarg))
                        if kwarg:
                            put_final = True
                    else:
                        raise
                    record = record[selector]
""", """                        item = type(record).itemtype(**kwarg)
                        record.append(item)
                        put_final = bool(kwarg)
                    else:
                        raise
                    record = record[selector]
""", P, 'ok'),
 ('ref-del-last', F, "        to_delete = self.selectors[-1]\n        if _try_index(record, to_delete):\n            if to_delete is None:", "        *_, to_delete = self.selectors\n        if _try_index(record, to_delete):\n            if to_delete is None:", P, 'ok'),
 ('ref-del-clear', F, "                if hasattr(record, \"clear\") and callable(record.clear):\n                    record.clear()\n", "                clear = getattr(record, \"clear\", None)\n                if callable(clear):\n                    clear()\n", P, 'ok'),
    ('get stale', F, """                for r in record:
                    val = None
                    try:
""", """                val = None
                for r in record:
                    try:
""", ['C21'], 'bad'),
    ('get skip', F, """                            all_exc = e
                    rv.append(val)
""", """                            all_exc = e
                            continue
                    rv.append(val)
""", ['C21'], 'bad'),
    ('get some', F, """                        all_exc = False
                    except FieldSelectorException as e:
                        if all_exc is None:
                            all_exc = e
                    rv""", """                        all_exc = all_exc or False
                    except FieldSelectorException as e:
                        if all_exc is None:
                            all_exc = e
                    rv""", ['C21'], 'bad'),
    ('post counts members', F, "sum(sub_field_selector.post(r, value) for r in record)",
     "sum(1 for r in record if sub_field_selector.post(r, value))", ['C22'], 'bad'),
    ('b4 post-max', 'selector.py',
     '                return sum(sub_field_selector.post(r, value) for r in record)',
     '                return max([sub_field_selector.post(r, value) for r in record] or [0])',
     ['C22'], 'bad'),
    ('b4 post-one', 'selector.py',
     '                return sum(sub_field_selector.post(r, value) for r in record)',
     '                for r in record:\n                    sub_field_selector.post(r, value)\n                return 1',
     ['C22'], 'bad'),
    ('b4 post-len', 'selector.py',
     '                return sum(sub_field_selector.post(r, value) for r in record)',
     '                return len([sub_field_selector.post(r, value) for r in record])',
     ['C22'], 'bad'),
    ('b4 post-ok', 'selector.py',
     '                return sum(sub_field_selector.post(r, value) for r in record)',
     '                n = 0\n                for r in record:\n                    n += sub_field_selector.post(r, value)\n                return n',
     ['C22'], 'ok'),
    ('b4 put-set', 'selector.py',
     '                for x in record:\n                    sub_selector.put(x, value)',
     '                for x in set(record):\n                    sub_selector.put(x, value)',
     ['C22'], 'bad'),
    ('b4 del-set', 'selector.py',
     '                for r in record:\n                    try:\n                        sub_field_selector.delete(r)',
     '                for r in set(record):\n                    try:\n                        sub_field_selector.delete(r)',
     ['C22'], 'bad'),
    ('b4 post-set', 'selector.py',
     '                return sum(sub_field_selector.post(r, value) for r in record)',
     '                return sum(sub_field_selector.post(r, value) for r in set(record))',
     ['C22'], 'bad'),
    ('b23- del-flag', 'selector.py',
     '                        sub_field_selector.delete(r)\n                        all_exc = False\n',
     '                        all_exc = False\n                        sub_field_selector.delete(r)\n',
     C22, 'bad'),
    ('b24 putctx', 'selector.py',
     '            elif _try_index(record, selector):\n                try:\n                    record[selector] = value',
     '            elif _try_index(value, selector):\n                try:\n                    record[selector] = value',
     ["C22"], 'bad'),
    ('b24 postr', 'selector.py',
     'sub_field_selector.post(r, value) for r in record)',
     'sub_field_selector.post(r, value) for r in value)',
     ["C22"], 'bad'),
]
