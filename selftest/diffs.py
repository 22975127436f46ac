F = 'diff.py'
R = ['C16']
K = ['C17']
O = ['C18']
MUTS = [
 # ---- C16
 ('rec-type', F, "    if not options.duck_type and type(a) != type(b) and not (", "    if not options.duck_type and not isinstance(b, type(a)) and not (", R, 'bad'),
 ('rec-filter-arg', F, "options.is_filtered(prop, fs_a + propname)", "options.is_filtered(prop, fs_b + propname)", R, 'bad'),
 ('rec-nofilter', F, "        if options.is_filtered(prop, fs_a + propname):\n            continue\n", "", R, 'bad'),
 ('rec-owner', F, "            getattr(b, propname, _nothing), prop, b,\n", "            getattr(b, propname, _nothing), prop, a,\n", R, 'bad'),
 ('rec-default', F, "            getattr(a, propname, _nothing), prop, a,\n", "            getattr(a, propname, None), prop, a,\n", R, 'bad'),
 ('rec-both', F, "        if propval_a is _nothing and propval_b is _nothing:", "        if propval_a is _nothing or propval_b is _nothing:", R, 'bad'),
 ('rec-none', F, "        if propval_a is _nothing and propval_b is _nothing:", "        if propval_a in (_nothing, None) and propval_b in (_nothing, None):", R, 'bad'),
 ('rec-swap', F, """                    DiffTypes.ADDED if propval_a is _nothing else
                    DiffTypes.REMOVED
                ),
                base=""", """                    DiffTypes.ADDED if propval_b is _nothing else
                    DiffTypes.REMOVED
                ),
                base=""", R, 'bad'),
 ('rec-loc', F, """                diff_type=DiffTypes.MODIFIED,
                base=fs_a + [propname],
                other=fs_b + [propname],""", """                diff_type=DiffTypes.MODIFIED,
                base=fs_a + [propname],
                other=fs_a + [propname],""", R, 'bad'),
 ('rec-loc2', F, """        prop_fs_b = fs_b + [propname]
""", """        prop_fs_b = fs_a + [propname]
""", R, 'bad'),
 ('rec-loc3', F, """                diff_type=DiffTypes.MODIFIED,
                base=fs_a + [propname],
                other=fs_b + [propname],""", """                diff_type=DiffTypes.MODIFIED,
                base=fs_a,
                other=fs_b + [propname],""", R, 'bad'),
 ('rec-eq', F, "        elif not options.items_equal(propval_a, propval_b):", "        elif propval_a != propval_b:", R, 'bad'),
 ('rec-eq2', F, "        elif not options.items_equal(propval_a, propval_b):", "        elif not options.items_equal(propval_a, getattr(b, propname)):", R, 'bad'),
 ('rec-unch', F, "        elif options.unchanged:\n            yield DiffInfo(\n                diff_type=DiffTypes.NO_CHANGE,\n                base=fs_a + [propname],", "        else:\n            yield DiffInfo(\n                diff_type=DiffTypes.NO_CHANGE,\n                base=fs_a + [propname],", R, 'bad'),
 ('rec-nochange2', F, "                elif options.unchanged:\n                    net_diff = DiffTypes.NO_CHANGE", "                else:\n                    net_diff = DiffTypes.NO_CHANGE", R, 'bad'),
 ('rec-desc-args', F, "                propval_a, propval_b, prop_fs_a,\n                prop_fs_b, options,", "                propval_b, propval_a, prop_fs_a,\n                prop_fs_b, options,", R, 'bad'),
 ('rec-desc-opt', F, "                propval_a, propval_b, prop_fs_a,\n                prop_fs_b, options,", "                propval_a, propval_b, prop_fs_a,\n                prop_fs_b, DiffOptions(),", R, 'bad'),
 ('rec-desc-types', F, "            types_match or options.duck_type or (", "            types_match or one_side_nothing or options.duck_type or True or (", R, 'bad'),
 ('rec-comparable', F, "            isinstance(propval_a, COMPARABLE) or\n            isinstance(propval_b, COMPARABLE)", "            isinstance(propval_a, Record) or\n            isinstance(propval_b, Record)", R, 'ok?'),
 ('rec-passed', F, "                else:\n                    yield diff\n\n            if one_side_nothing:", "                elif diff.diff_type != DiffTypes.MOVED:\n                    yield diff\n\n            if one_side_nothing:", R, 'bad'),
 ('rec-eager', F, "    for propname in sorted(properties):", "    for propname in sorted(type(a).eager_properties):", R, 'bad'),
 ('rec-other-props', F, "        type(a).properties if a is not _nothing else type(b).properties\n", "        type(b).properties if a is not _nothing else type(b).properties\n", R, 'bad'),
 ('rec-skip-first', F, "    for propname in sorted(properties):\n", "    for propname in sorted(properties)[1:]:\n", R, 'bad'),
 ('rec-break', F, "        if options.is_filtered(prop, fs_a + propname):\n            continue\n", "        if options.is_filtered(prop, fs_a + propname):\n            break\n", R, 'bad'),
 # refactorings
 ('ref-items', F, "    for propname in sorted(properties):\n\n        prop = properties[propname]\n", "    for propname, prop in sorted(properties.items()):\n", R, 'ok'),
 ('ref-neq', F, """        elif not options.items_equal(propval_a, propval_b):
            yield DiffInfo(
                diff_type=DiffTypes.MODIFIED,
                base=fs_a + [propname],
                other=fs_b + [propname],
            )

        elif options.unchanged:
            yield DiffInfo(
                diff_type=DiffTypes.NO_CHANGE,
                base=fs_a + [propname],
                other=fs_b + [propname],
            )
""", """        else:
            same = options.items_equal(propval_a, propval_b)
            if same and not options.unchanged:
                continue
            yield DiffInfo(
                diff_type=(DiffTypes.NO_CHANGE if same else
                           DiffTypes.MODIFIED),
                base=prop_fs_a,
                other=prop_fs_b,
            )
""", R, 'ok'),
 ('ref-helper', F, [(F, """            yield DiffInfo(
                diff_type=DiffTypes.MODIFIED,
                base=fs_a + [propname],
                other=fs_b + [propname],
            )

        elif options.unchanged:""", """            yield _mark(DiffTypes.MODIFIED, fs_a, fs_b, propname)

        elif options.unchanged:"""), (F, "def compare_record_iter(a", """def _mark(kind, fs_a, fs_b, key):
    return DiffInfo(diff_type=kind, base=fs_a + [key], other=fs_b + [key])


def compare_record_iter(a""")], '', R, 'ok'),
 ('ref-values', F, [(F, """        propval_a = options.normalize_object_slot(
            getattr(a, propname, _nothing), prop, a,
        )
        propval_b = options.normalize_object_slot(
            getattr(b, propname, _nothing), prop, b,
        )
""", """        propval_a, propval_b = _slot_pair(options, prop, propname, a, b)
"""), (F, "def compare_record_iter(a", """def _slot_pair(options, prop, name, *objs):
    return [options.normalize_object_slot(getattr(x, name, _nothing), prop, x)
            for x in objs]


def compare_record_iter(a""")], '', R, 'ok'),
 ('ref-hasattr', F, """            getattr(a, propname, _nothing), prop, a,
""", """            getattr(a, propname) if hasattr(a, propname) else _nothing, prop, a,
""", R, 'ok'),
 ('ref-onesided', F, "        one_side_nothing = (propval_a is _nothing) != (propval_b is _nothing)\n", "        one_side_nothing = propval_a is _nothing or propval_b is _nothing\n", R, 'ok'),
 ('ref-loop', F, """            for diff in _diff_iter(
                propval_a, propval_b, prop_fs_a,
                prop_fs_b, options,
            ):
                if one_side_nothing:
                    if diff.diff_type != DiffTypes.NO_CHANGE:
                        diff_types_found.add(diff.diff_type)
                else:
                    yield diff
""", """            below = _diff_iter(propval_a, propval_b, prop_fs_a, prop_fs_b,
                               options)
            if one_side_nothing:
                diff_types_found = set(
                    d.diff_type for d in below
                    if d.diff_type != DiffTypes.NO_CHANGE)
            else:
                for diff in below:
                    yield diff
""", R, 'ok'),
 ('ref-yieldfrom', F, """            for diff in _diff_iter(
                propval_a, propval_b, prop_fs_a,
                prop_fs_b, options,
            ):
                if one_side_nothing:
                    if diff.diff_type != DiffTypes.NO_CHANGE:
                        diff_types_found.add(diff.diff_type)
                else:
                    yield diff
""", """            below = _diff_iter(propval_a, propval_b, prop_fs_a, prop_fs_b,
                               options)
            if one_side_nothing:
                for d in below:
                    if d.diff_type == DiffTypes.NO_CHANGE:
                        continue
                    diff_types_found.add(d.diff_type)
            else:
                yield from below
""", R, 'ok'),
 # ---- C17
 ('list-rem-other', F, """        if a_key in modified_idx:
            continue
        selector = fs_a + [a_key]
        yield DiffInfo(
            diff_type=DiffTypes.REMOVED,
            base=selector,
            other=fs_b,""", """        if a_key in modified_idx:
            continue
        selector = fs_a + [a_key]
        yield DiffInfo(
            diff_type=DiffTypes.REMOVED,
            base=selector,
            other=fs_b + [a_key],""", K, 'bad'),
 ('list-idx', F, "        a_key = indices['a'][v, seq]\n        if a_key in modified_idx:", "        a_key = indices['b'][v, seq]\n        if a_key in modified_idx:", K, 'bad'),
 ('list-unch-idx', F, "            a_idx = indices['a'][v, seq]\n            b_idx = indices['b'][v, seq]", "            a_idx = indices['a'][v, seq]\n            b_idx = indices['a'][v, seq]", K, 'bad'),
 ('list-seen', F, "                vals.add((v, seen[v]))\n                rev_key[(v, seen[v])] = i\n                seen[v] += 1", "                vals.add((v, seen[v]))\n                rev_key[(v, seen[v])] = i", K, 'bad'),
 ('list-moved', F, "            if options.moved and a_idx != b_idx:", "            if options.moved and a_idx is not None:", K, 'bad'),
 ('list-moved2', F, "            if options.moved and a_idx != b_idx:", "            if a_idx != b_idx:", K, 'bad'),
 ('list-unch', F, "            elif options.unchanged:\n                yield DiffInfo(\n                    diff_type=DiffTypes.NO_CHANGE,\n                    base=fs_a + [a_idx],", "            else:\n                yield DiffInfo(\n                    diff_type=DiffTypes.NO_CHANGE,\n                    base=fs_a + [a_idx],", K, 'bad'),
 ('list-mod-missing', F, """    for idx in modified_idx:
        yield DiffInfo(
            diff_type=DiffTypes.MODIFIED,
            base=fs_a + [idx],
            other=fs_b + [idx],
        )
""", "", K, 'bad'),
 ('list-owner', F, """            v = options.normalize_item(
                v, propval_a if options.duck_type else propval_x
            )
            if not v.__hash__:
                v = repr(v)
            if v is not _nothing or not options.ignore_empty_slots:
                vals.add((v, seen[v]))
                rev_key[(v, seen[v])] = i""", """            v = options.normalize_item(
                v, propval_x if options.duck_type else propval_a
            )
            if not v.__hash__:
                v = repr(v)
            if v is not _nothing or not options.ignore_empty_slots:
                vals.add((v, seen[v]))
                rev_key[(v, seen[v])] = i""", K, 'bad'),
 ('list-ignore', F, """            if v is not _nothing or not options.ignore_empty_slots:
                vals.add((v, seen[v]))
                rev_key[(v, seen[v])] = i""", """            if v is not _nothing and not options.ignore_empty_slots:
                vals.add((v, seen[v]))
                rev_key[(v, seen[v])] = i""", K, 'bad'),
 ('list-ignore2', F, """            if v is not _nothing or not options.ignore_empty_slots:
                vals.add((v, seen[v]))
                rev_key[(v, seen[v])] = i""", """            if v or not options.ignore_empty_slots:
                vals.add((v, seen[v]))
                rev_key[(v, seen[v])] = i""", K, 'bad'),
 ('dict-added', F, """        if b_key in modified_keys:
            continue
        selector = fs_b + [b_key]
        yield DiffInfo(
            diff_type=DiffTypes.ADDED,
            base=fs_a,""", """        if b_key in modified_keys:
            continue
        selector = fs_b + [b_key]
        yield DiffInfo(
            diff_type=DiffTypes.ADDED,
            base=fs_a + [b_key],""", K, 'bad'),
 ('dict-removed', F, "    removed_keys = set(rev_keys['a'][v, seq] for v, seq in removed)\n    added_keys = set(rev_keys['b'][v, seq] for v, seq in added)\n    modified_keys = set(removed_keys.intersection(added_keys))", "    removed_keys = set(rev_keys['a'][v, seq] for v, seq in removed)\n    added_keys = set(rev_keys['b'][v, seq] for v, seq in added)\n    modified_keys = set(removed_keys.union(added_keys))", K, 'bad'),
 ('dict-mod', F, "            base=fs_a + [key],\n            other=fs_b + [key],\n        )\n\n\nCOMPARE", "            base=fs_a + [key],\n            other=fs_b,\n        )\n\n\nCOMPARE", K, 'bad'),
 ('coll-rem', F, "                selector = fs_a + [a_key]\n                yield DiffInfo(\n                    diff_type=DiffTypes.REMOVED,", "                selector = fs_b + [a_key]\n                yield DiffInfo(\n                    diff_type=DiffTypes.REMOVED,", K, 'bad'),
 ('coll-fuzzy-keep', F, "                    removed.remove(a_pk_seq)\n                    added.remove(b_pk_seq)\n", "                    removed.remove(a_pk_seq)\n", K, 'bad'),
 ('coll-fuzzy-idx', F, "                    b_key = rev_keys['b'][b_pk_seq]\n                    b_val = propval_b[b_key]\n                    selector_a", "                    b_key = rev_keys['b'][b_pk_seq]\n                    b_val = propval_b[a_key]\n                    selector_a", K, 'bad'),
 ('coll-desc', F, "                    b_key = rev_keys['b'][pk, seq]\n                    b_val = propval_b[b_key]\n                if force", "                    b_key = rev_keys['b'][pk, seq]\n                    b_val = propval_b[a_key]\n                if force", K, 'bad'),
 ('coll-desc-sel', F, "                selector_b = fs_b + b_key\n                for diff in _diff_iter(\n                    a_val, b_val, selector_a, selector_b, options,\n                ):\n                    yield diff", "                selector_b = fs_b + a_key\n                for diff in _diff_iter(\n                    a_val, b_val, selector_a, selector_b, options,\n                ):\n                    yield diff", K, 'bad'),
 ('coll-nopass', F, "                        if diff.diff_type != DiffTypes.NO_CHANGE:\n                            any_diffs = True\n                        yield diff", "                        if diff.diff_type != DiffTypes.NO_CHANGE:\n                            any_diffs = True\n                            yield diff", K, 'bad'),
 ('coll-anydiff', F, "                    elif options.unchanged and not any_diffs:", "                    elif options.unchanged:", K, 'bad'),
 ('coll-moved', F, "                    if options.moved and a_key != b_key:\n                        yield DiffInfo(\n                            diff_type=DiffTypes.MOVED,\n                            base=fs_a + [a_key],\n                            other=fs_b + [b_key],", "                    if options.moved and a_key != b_key:\n                        yield DiffInfo(\n                            diff_type=DiffTypes.MOVED,\n                            base=fs_a + [b_key],\n                            other=fs_b + [a_key],", K, 'bad'),
 ('coll-empty', F, "            if options.ignore_empty_items and _nested_empty(pk):", "            if _nested_empty(pk):", K, 'bad'),
 ('coll-seen', F, "            rev_key[(pk, seen[pk])] = k\n            seen[pk] += 1\n", "            rev_key[(pk, seen[pk])] = k\n", K, 'bad'),
 ('coll-rec-removed', F, "        removed = set_a - set_b\n        added = set_b - set_a\n        for key in shared", "        removed = set_b - set_a\n        added = set_a - set_b\n        for key in shared", K, 'bad'),
 ('coll-rec-shared', F, "                diffs = _diff_iter(propval_a[key], propval_b[key],\n                                   fs_a + [key], fs_b + [key], options)", "                diffs = _diff_iter(propval_a[key], propval_b[key],\n                                   fs_a + [key], fs_a + [key], options)", K, 'bad'),
 ('coll-force', F, "            descendable = (removed | added) if force_descent else common", "            descendable = removed if force_descent else common", K, 'bad'),
 ('coll-common', F, "        common = values['a'].intersection(values['b'])", "        common = values['a'].union(values['b'])", K, 'bad'),
 ('coll-simple', F, "for diff in iter_func(propval_a, propval_b, fs_a, fs_b, options):", "for diff in iter_func(propval_a, propval_b, fs_a, fs_b):", K, 'bad'),
 ('coll-simple2', F, "for diff in iter_func(propval_a, propval_b, fs_a, fs_b, options):", "for diff in iter_func(propval_b, propval_a, fs_a, fs_b, options):", K, 'bad'),
 ('gen-key', F, "                yield (key, collection[key])", "                yield (collection[key], key)", K, 'bad'),
 ('gen-idx', F, "                yield (i, item)\n                i += 1", "                i += 1\n                yield (i, item)", K, 'bad'),
 ('gen-noinc', F, "                yield (i, item)\n                i += 1", "                yield (item, item)", K, 'bad'),
 ('gen-order', F, '    elif hasattr(collection, "keys"):', '    elif hasattr(collection, "key"):', K, 'bad'),
 ('empty-zero', F, "        return x is _nothing or x is None or x == ''", "        return x is _nothing or not x", K, 'bad'),
 ('fuzzy-dup', F, "            remaining_a.remove(a_pk_seq)\n            remaining_b.remove(b_pk_seq)\n", "            remaining_a.remove(a_pk_seq)\n", K, 'bad'),
 ('fuzzy-or', F, "        if a_pk_seq in remaining_a and b_pk_seq in remaining_b:\n            remaining_a.remove(a_pk_seq)\n            remaining_b.remove(b_pk_seq)\n", "        if a_pk_seq in remaining_a or b_pk_seq in remaining_b:\n            remaining_a.discard(a_pk_seq)\n            remaining_b.discard(b_pk_seq)\n", K, 'bad'),
 # refactorings
 ('ref-list-enum', F, """    propvals = dict(a=propval_a, b=propval_b)
    values = dict()
    indices = dict()
    for x in "a", "b":
        propval_x = propvals[x]
        vals = values[x] = set()
        rev_key = indices[x] = dict()
        seen = collections.Counter()
        for i, v in collection_generator(propval_x):
            v = options.normalize_item(
                v, propval_a if options.duck_type else propval_x
            )
            if not v.__hash__:
                v = repr(v)
            if v is not _nothing or not options.ignore_empty_slots:
                vals.add((v, seen[v]))
                rev_key[(v, seen[v])] = i
                seen[v] += 1
""", """    values = dict()
    indices = dict()
    for x, propval_x in (("a", propval_a), ("b", propval_b)):
        vals = set()
        rev_key = dict()
        seen = dict()
        for i, v in collection_generator(propval_x):
            owner = propval_a if options.duck_type else propval_x
            v = options.normalize_item(v, owner)
            if not v.__hash__:
                v = repr(v)
            if v is _nothing and options.ignore_empty_slots:
                continue
            entry = (v, seen.get(v, 0))
            vals.add(entry)
            rev_key[entry] = i
            seen[v] = seen.get(v, 0) + 1
        values[x] = vals
        indices[x] = rev_key
""", K, 'ok'),
 ('ref-list-helper', F, [(F, """    propvals = dict(a=propval_a, b=propval_b)
    values = dict()
    indices = dict()
    for x in "a", "b":
        propval_x = propvals[x]
        vals = values[x] = set()
        rev_key = indices[x] = dict()
        seen = collections.Counter()
        for i, v in collection_generator(propval_x):
            v = options.normalize_item(
                v, propval_a if options.duck_type else propval_x
            )
            if not v.__hash__:
                v = repr(v)
            if v is not _nothing or not options.ignore_empty_slots:
                vals.add((v, seen[v]))
                rev_key[(v, seen[v])] = i
                seen[v] += 1
""", """    values = dict()
    indices = dict()
    values['a'], indices['a'] = _index(propval_a, propval_a, options)
    values['b'], indices['b'] = _index(propval_b, propval_a, options)
"""), (F, "def compare_list_iter(", """def _index(coll, base, options):
    vals = set()
    keys = dict()
    seen = collections.Counter()
    for k, v in collection_generator(coll):
        v = options.normalize_item(v, base if options.duck_type else coll)
        if not v.__hash__:
            v = repr(v)
        if v is not _nothing or not options.ignore_empty_slots:
            vals.add((v, seen[v]))
            keys[(v, seen[v])] = k
            seen[v] += 1
    return vals, keys


def compare_list_iter(""")], '', K, 'ok'),
 ('ref-list-mod', F, """    removed_idx = set(indices['a'][v, seq] for v, seq in removed)
    added_idx = set(indices['b'][v, seq] for v, seq in added)
    modified_idx = set(removed_idx.intersection(added_idx))

    for v, seq in removed:
        a_key = indices['a'][v, seq]
        if a_key in modified_idx:
            continue
        selector = fs_a + [a_key]
        yield DiffInfo(
            diff_type=DiffTypes.REMOVED,
            base=selector,
            other=fs_b,
        )
""", """    removed_idx = set(indices['a'][entry] for entry in removed)
    added_idx = set(indices['b'][entry] for entry in added)
    modified_idx = removed_idx & added_idx

    for entry in removed:
        a_key = indices['a'][entry]
        if a_key not in added_idx:
            yield DiffInfo(
                diff_type=DiffTypes.REMOVED,
                base=fs_a + [a_key],
                other=fs_b,
            )
""", K, 'ok'),
 ('ref-coll-removed', F, """            for pk, seq in removed:
                a_key = rev_keys['a'][pk, seq]
                selector = fs_a + [a_key]
                yield DiffInfo(
                    diff_type=DiffTypes.REMOVED,
                    base=selector,
                    other=fs_b,
                )
""", """            for pk_seq in removed:
                yield DiffInfo(
                    diff_type=DiffTypes.REMOVED,
                    base=fs_a + [rev_keys['a'][pk_seq]],
                    other=fs_b,
                )
""", K, 'ok'),
 ('ref-coll-desc', F, """                if not force_descent or propval_a is not _nothing:
                    a_key = rev_keys['a'][pk, seq]
                    a_val = propval_a[a_key]
                if not force_descent or propval_b is not _nothing:
                    b_key = rev_keys['b'][pk, seq]
                    b_val = propval_b[b_key]
                if force_descent:
                    if propval_a is _nothing:
                        a_key = b_key
                        a_val = _nothing
                    else:
                        b_key = a_key
                        b_val = _nothing
""", """                if propval_a is _nothing:
                    b_key = rev_keys['b'][pk, seq]
                    a_key = b_key
                    a_val, b_val = _nothing, propval_b[b_key]
                elif propval_b is _nothing:
                    a_key = rev_keys['a'][pk, seq]
                    b_key = a_key
                    a_val, b_val = propval_a[a_key], _nothing
                else:
                    a_key = rev_keys['a'][pk, seq]
                    b_key = rev_keys['b'][pk, seq]
                    a_val, b_val = propval_a[a_key], propval_b[b_key]
""", K, 'ok'),
 ('ref-coll-fuzzy', F, """                for a_pk_seq, b_pk_seq in _fuzzy_match(removed, added):
                    removed.remove(a_pk_seq)
                    added.remove(b_pk_seq)
""", """                matches = list(_fuzzy_match(removed, added))
                removed -= set(x for x, y in matches)
                added -= set(y for x, y in matches)
                for a_pk_seq, b_pk_seq in matches:
""", K, 'ok'),
 ('ref-gen-enum', F, """            i = 0
            for item in collection:
                yield (i, item)
                i += 1
""", """            for i, item in enumerate(collection):
                yield i, item
""", K, 'ok'),
 ('ref-gen-keys', F, """            for key in list(collection.keys()):
                yield (key, collection[key])
""", """            for key in collection.keys():
                yield key, collection[key]
""", K, 'ok'),
 ('ref-empty', F, "        return x is _nothing or x is None or x == ''", "        return x in (None, '') or x is _nothing", K, 'ok'),
 ('ref-fuzzy', F, """        if a_pk_seq in remaining_a and b_pk_seq in remaining_b:
            remaining_a.remove(a_pk_seq)
            remaining_b.remove(b_pk_seq)
            yield a_pk_seq, b_pk_seq
""", """        if a_pk_seq not in remaining_a or b_pk_seq not in remaining_b:
            continue
        yield a_pk_seq, b_pk_seq
        remaining_a.discard(a_pk_seq)
        remaining_b.discard(b_pk_seq)
""", K, 'ok'),

 # ---- C18
 ('opt-swap', F, "        self.unchanged = unchanged\n        self.moved = moved\n", "        self.unchanged = moved\n        self.moved = unchanged\n", O, 'bad'),
 ('opt-default', F, "unicode_normal=True, unchanged=False,", "unicode_normal=False, unchanged=False,", O, 'bad'),
 ('opt-lost', F, "        self.recurse = recurse\n", "        self.recurse = False\n", O, 'bad'),
 ('opt-cond', F, "        self.recurse = recurse\n", "        self.recurse = recurse and not duck_type\n", O, 'bad'),
 ('opt-filter', F, "            self.compare_filter = compare_filter\n        else:", "            self.compare_filter = None\n        else:", O, 'bad'),
 ('text-skip', F, "        if self.unicode_normal:\n            value = self.normalize_unf(value)", "        elif self.unicode_normal:\n            value = self.normalize_unf(value)", O, 'bad'),
 ('text-gate', F, "        if self.ignore_case:\n            value = self.normalize_case(value)", "        if self.ignore_case and self.ignore_ws:\n            value = self.normalize_case(value)", O, 'bad'),
 ('text-nfd', F, "unicodedata.normalize('NFC', value)", "unicodedata.normalize('NFD', value)", O, 'bad'),
 ('ws-pat', F, "re.split(r'\\s+', value, flags=re.UNICODE)", "re.split(r'[ \\t]+', value, flags=re.UNICODE)", O, 'bad'),
 ('ws-sep', F, "            return u\" \".join(\n", "            return u\"\".join(\n", O, 'bad'),
 ('ws-drop', F, "                len(x)\n            )", "                len(x) > 1\n            )", O, 'bad'),
 ('val-order', F, "        if isinstance(value, str):\n            value = self.normalize_text(value)\n        if self.ignore_empty_slots and self.value_is_empty(value):\n            value = _nothing\n        return value", "        if self.ignore_empty_slots and self.value_is_empty(value):\n            return _nothing\n        if isinstance(value, str):\n            value = self.normalize_text(value)\n        return value", O, 'bad'),
 ('val-noopt', F, "        if self.ignore_empty_slots and self.value_is_empty(value):", "        if self.value_is_empty(value):", O, 'bad'),
 ('val-items', F, "        if self.ignore_empty_slots and self.value_is_empty(value):", "        if self.ignore_empty_items and self.value_is_empty(value):", O, 'bad'),
 ('empty-zero', F, "        return (not value and isinstance(value, (str, type(None))))", "        return not value", O, 'bad'),
 ('slot-raw', F, "        return self.normalize_val(value)\n\n    def normalize_object_slot", "        return value\n\n    def normalize_object_slot", O, 'bad'),
 ('slot-as', F, "        if value is not _nothing and hasattr(prop, \"compare_as\"):", "        if value and hasattr(prop, \"compare_as\"):", O, 'bad'),
 ('slot-flag', F, "            if method:\n                args.append(obj)\n            if nargs:\n", "            if method:\n                args.append(obj)\n            elif nargs:\n", O, 'bad'),
 ('slot-dflt', F, 'getattr(prop, "compare_as_info", (False, 1))', 'getattr(prop, "compare_as_info", (True, 1))', O, 'bad'),
 ('slot-none', F, '        if value is not _nothing and hasattr(prop, "compare_as"):', '        if hasattr(prop, "compare_as"):', O, 'bad'),
 ('item-as', F, '            value = coll.compare_item_as(value)\n        return self.normalize_val(value)', '            return coll.compare_item_as(value)\n        return self.normalize_val(value)', O, 'bad'),
 ('item-none', F, '        if value is not _nothing and hasattr(coll, "compare_item_as"):', '        if value is not None and hasattr(coll, "compare_item_as"):', O, 'bad'),
 ('eq-is', F, "        return a == b\n", "        return a is b or a == b\n", O, 'ok'),
 ('eq-str', F, "        return a == b\n", "        return str(a) == str(b)\n", O, 'bad'),
 ('r-val', F, "        if isinstance(value, str):\n            value = self.normalize_text(value)\n        if self.ignore_empty_slots and self.value_is_empty(value):\n            value = _nothing\n        return value", "        clean = self.normalize_text(value) if isinstance(value, str) else value\n        if not self.ignore_empty_slots:\n            return clean\n        return self._nothing if self.value_is_empty(clean) else clean", O, 'ok'),
 ('r-text2', F, [(F, "        if self.ignore_ws:\n            value = self.normalize_whitespace(value)\n        if self.ignore_case:", "        value = self._ws(value)\n        if self.ignore_case:"), (F, "    def normalize_text(self, value):", "    def _ws(self, value):\n        return self.normalize_whitespace(value) if self.ignore_ws else value\n\n    def normalize_text(self, value):")], '', O, 'ok'),
 ('r-empty', F, "        return (not value and isinstance(value, (str, type(None))))", "        return value is None or (isinstance(value, str) and not value)", O, 'ok'),
 ('r-empty2', F, "        return (not value and isinstance(value, (str, type(None))))", "        return value is None or value == ''", O, 'ok'),
 ('r-ws', F, "            return u\" \".join(\n                x for x in re.split(r'\\s+', value, flags=re.UNICODE) if\n                len(x)\n            )", "            words = []\n            for word in re.split(r'\\s+', value, flags=re.UNICODE):\n                if word:\n                    words.append(word)\n            return u\" \".join(words)", O, 'ok'),
 ('r-ws2', F, "            return u\" \".join(\n                x for x in re.split(r'\\s+', value, flags=re.UNICODE) if\n                len(x)\n            )", "            return u\" \".join(value.split())", O, 'ok'),
 ('r-slot', F, """            args = []
            if method:
                args.append(obj)
            if nargs:
                args.append(value)
            value = prop.compare_as(*args)""", """            value = prop.compare_as(
                *([obj] if method else []), *([value] if nargs else []))""", O, 'ok'),
 ('r-slot2', F, """            args = []
            if method:
                args.append(obj)
            if nargs:
                args.append(value)
            value = prop.compare_as(*args)""", """            if method:
                value = (prop.compare_as(obj, value) if nargs
                         else prop.compare_as(obj))
            elif nargs:
                value = prop.compare_as(value)
            else:
                value = prop.compare_as()""", O, 'ok'),

 ('r-nothing', F, "        if propval_a is _nothing and propval_b is _nothing:", "        if propval_a is options._nothing and propval_b is options._nothing:", R, 'ok'),

 ('n-one', F, "            rev_key[(pk, seen[pk])] = k\n            seen[pk] += 1\n", "            rev_key[(pk, seen[pk])] = k\n            seen[pk] = 1\n", K, 'bad'),
 ('n-gate', F, "            rev_key[(pk, seen[pk])] = k\n            seen[pk] += 1\n", "            rev_key[(pk, seen[pk])] = k\n            if compare_values:\n                seen[pk] += 1\n", K, 'bad'),
 ('n-shared', F, "    for x in \"a\", \"b\":\n        propval_x = propvals[x]\n        vals = values[x] = set()\n        rev_key = rev_keys[x] = dict()\n\n        seen = collections.Counter()\n", "    seen = collections.Counter()\n    for x in \"a\", \"b\":\n        propval_x = propvals[x]\n        vals = values[x] = set()\n        rev_key = rev_keys[x] = dict()\n\n", K, 'bad'),
 ('n-list', F, "                rev_key[(v, seen[v])] = i\n                seen[v] += 1\n", "                rev_key[(v, seen[v])] = i\n                seen[i] += 1\n", K, 'bad'),
 ('n-dict', F, "                rev_key[(v, seen[v])] = k\n                seen[v] += 1\n", "                rev_key[(v, seen[v])] = k\n", K, 'bad'),
 ('r-n', F, "            vals.add((pk, seen[pk]))\n            rev_key[(pk, seen[pk])] = k\n            seen[pk] += 1\n", "            nth = seen[pk]\n            seen[pk] = nth + 1\n            vals.add((pk, nth))\n            rev_key[pk, nth] = k\n", K, 'ok'),
 ('r-n2', F, "        seen = collections.Counter()\n\n        for k, v in collection_generator(propval_x):", "        seen = collections.defaultdict(int)\n\n        for k, v in collection_generator(propval_x):", K, 'ok'),
 ('r-n3', F, "            vals.add((pk, seen[pk]))\n            rev_key[(pk, seen[pk])] = k\n            seen[pk] += 1\n", "            nth = seen.get(pk, 0)\n            vals.add((pk, nth))\n            rev_key[pk, nth] = k\n            seen.update([pk])\n", K, 'ok'),
 ('onesided', F, "                if one_side_nothing:\n                    if diff.diff_type != DiffTypes.NO_CHANGE:\n                        diff_types_found.add(diff.diff_type)\n                else:\n", "                if one_side_nothing:\n                    if diff.diff_type != DiffTypes.NO_CHANGE:\n                        diff_types_found.add(diff.diff_type)\n                if options.unchanged or not one_side_nothing:\n", R, 'bad'),
]

MUTS += [
    ('coll-tuple-itemtype', 'diff.py',
     '        raise exc.CollectionItemTypeUnsupported()', '        pass',
     ['C17'], 'bad'),
    ('coll-unsupported', 'diff.py',
     '        if not iter_func:\n            raise exc.CollectionDiffUnsupported(',
     '        if False:\n            raise exc.CollectionDiffUnsupported(',
     ['C17'], 'bad'),
    ('coll-always-dict', 'diff.py',
     'compare_dict_iter if issubclass(coll_type, DictCollection) else',
     'compare_dict_iter if True else', ['C17'], 'bad'),
    ('coll-always-list', 'diff.py',
     'compare_list_iter if issubclass(coll_type, ListCollection) else\n            None',
     'compare_list_iter', ['C17'], 'bad'),
    ('coll-swapped-dispatch', 'diff.py', [
     ('compare_dict_iter if issubclass(coll_type, DictCollection) else',
      'compare_dict_iter if issubclass(coll_type, ListCollection) else'),
     ('compare_list_iter if issubclass(coll_type, ListCollection) else\n',
      'compare_list_iter if issubclass(coll_type, DictCollection) else\n')],
     None, ['C17'], 'bad'),
    ('recurse-no-options', 'diff.py',
     'fs_a + [key], fs_b + [key], options)\n\n',
     'fs_a + [key], fs_b + [key])\n\n', ['C17'], 'bad'),
    ('recurse-no-diffs', 'diff.py',
     '''                diffs = _diff_iter(propval_a[key], propval_b[key],
                                   fs_a + [key], fs_b + [key], options)

                for diff in diffs:
                    yield diff
''', '                pass\n', ['C17'], 'bad'),
    ('fuzzy-any-diffs-negated', 'diff.py',
     'if diff.diff_type != DiffTypes.NO_CHANGE:\n                            any',
     'if diff.diff_type == DiffTypes.NO_CHANGE:\n                            any',
     ['C17'], 'bad'),
    ('fuzzy-any-diffs-all', 'diff.py',
     '''                        if diff.diff_type != DiffTypes.NO_CHANGE:
                            any_diffs = True
                        yield diff''',
     '''                        any_diffs = True
                        yield diff''',
     ['C17'], 'bad'),
    ('fuzzy-any-diffs-stale', 'diff.py', [
     ('                    any_diffs = False\n', ''),
     ('                for a_pk_seq, b_pk_seq in _fuzzy_match(',
      '                any_diffs = False\n                for a_pk_seq, b_pk_seq in _fuzzy_match(')],
     None, ['C17'], 'bad'),
    ('fuzzy-any-diffs-sum', 'diff.py',
     '''                        if diff.diff_type != DiffTypes.NO_CHANGE:
                            any_diffs = True
                        yield diff''',
     '''                        any_diffs = any_diffs or (
                            diff.diff_type != DiffTypes.NO_CHANGE)
                        yield diff''',
     ['C17'], 'ok'),
    ('coll-dispatch-ifs', 'diff.py',
     '''        iter_func = (
            compare_dict_iter if issubclass(coll_type, DictCollection) else
            compare_list_iter if issubclass(coll_type, ListCollection) else
            None
        )
        if not iter_func:
            raise''',
     '''        if issubclass(coll_type, DictCollection):
            iter_func = compare_dict_iter
        elif issubclass(coll_type, ListCollection):
            iter_func = compare_list_iter
        else:
            raise''', ['C17'], 'ok'),
]

MUTS += [
    ('fuzzy-any-match', 'diff.py',
     '            if match:\n', '            if True:\n', ['C17'], 'bad'),
    ('fuzzy-any-match-seen', 'diff.py',
     '            if seen[a_pk, b_pk][0]:\n', '            if True:\n',
     ['C17'], 'bad'),
    ('fuzzy-match-empty', 'diff.py',
     '                    if not _nested_falsy(a_pk[i]):\n                        match += 1',
     '                    match += 1', ['C17'], 'bad'),
    ('fuzzy-match-worst', 'diff.py',
     '        reverse=True,\n    ):\n        if a_pk_seq', '    ):\n        if a_pk_seq',
     ['C17'], 'bad'),
    ('fuzzy-match-misses', 'diff.py',
     'key=lambda x: x[0] - x[1],', 'key=lambda x: x[1],', ['C17'], 'bad'),
    ('fuzzy-match-plus', 'diff.py',
     'key=lambda x: x[0] - x[1],', 'key=lambda x: x[0] + x[1],', ['C17'],
     'bad'),
    ('fuzzy-seq-lost', 'diff.py',
     '''                score = list(seen[a_pk, b_pk])
                scores.append(score + [a_pk_seq, b_pk_seq])''',
     '''                pass''', ['C17'], 'any'),
    ('fuzzy-key-neg', 'diff.py',
     '        key=lambda x: x[0] - x[1],\n        reverse=True,',
     '        key=lambda x: x[1] - x[0],', ['C17'], 'ok'),
]

MUTS += [
    ('b3-recurse-iter', 'diff.py',
     '            if (isinstance(propval_a, collections.abc.Iterable) and\n               isinstance(propval_b, collections.abc.Iterable)):',
     '            if (isinstance(propval_a, collections.abc.Sequence) and\n               isinstance(propval_b, collections.abc.Sequence)):', ['C17'], 'bad'),
    ('b3-list-hash', 'diff.py',
     '            if not v.__hash__:\n                v = repr(v)',
     '            if not v.__hash__:\n                v = id(v)', ['C17'], 'bad'),
    ('b3-list-hash2', 'diff.py',
     '            if not v.__hash__:\n                v = repr(v)',
     '            if not v.__hash__:\n                v = str(type(v))', ['C17'], 'bad'),
    ('b23- gen-break', 'diff.py',
     '                yield (item, item)\n',
     '                yield (item, item)\n                break\n',
     C17, 'bad'),
    ('b23- gen-if', 'diff.py',
     '                yield (item, item)\n',
     '                if item:\n                    yield (item, item)\n',
     C17, 'bad'),
    ('b23- gen-if3', 'diff.py',
     '                yield (key, collection[key])\n',
     '                if collection[key] is not None:\n                    yield (key, collection[key])\n',
     C17, 'bad'),
]
