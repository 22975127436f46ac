J = 'record/json.py'
F = 'diff.py'
ID = 'identity.py'
R = ['C19']
S = ['C20']
RI = 'record/__init__.py'
MUTS = [
 ('flt-extr', F, "        if not self.extraneous and prop.extraneous:\n            return True\n", "        if not self.extraneous and prop.extraneous:\n            return not self.compare_filter\n", R, 'bad'),
 ('flt-extr2', F, "        if not self.extraneous and prop.extraneous:", "        if not self.extraneous and prop.extraneous and not self.unchanged:", R, 'bad'),
 ('flt-neg', F, "        return self.compare_filter and not self.compare_filter[fs]", "        return self.compare_filter and self.extraneous and not self.compare_filter[fs]", R, 'bad'),
 ('flt-last', F, "        return self.compare_filter and not self.compare_filter[fs]", "        return self.compare_filter and not self.compare_filter[fs[-1:]]", R, 'bad'),
 ('ida-duck', F, "        if self.duck_type:\n            options['type_'] = type_", "        if type_:\n            options['type_'] = type_", R, 'bad'),
 ('ida-noduck', F, "        if self.duck_type:\n            options['type_'] = type_", "        if self.duck_type and not self.compare_filter:\n            options['type_'] = type_", R, 'bad'),
 ('ida-root', F, "            if len(fs):\n                coll_filter = self.compare_filter[fs]", "            if len(fs) > 1:\n                coll_filter = self.compare_filter[fs]", R, 'bad'),
 ('ida-none', F, "            if not coll_filter.has_none:", "            if coll_filter.has_none:", R, 'bad'),
 ('ida-none2', F, "            if not coll_filter.has_none:", "            if not self.compare_filter.has_none:", R, 'bad'),
 ('ida-any', F, "                    options['selector'] = coll_filter[k]", "                    options['selector'] = coll_filter[any]", R, 'bad'),
 ('ida-any2', F, "                options['selector'] = coll_filter[any]", "                options['selector'] = coll_filter", R, 'bad'),
 ('coll-fs', F, "    id_args = options.id_args(coll_type.itemtype, fs_a)", "    id_args = options.id_args(coll_type.itemtype, fs_b)", R, 'bad'),
 ('coll-type', F, "    id_args = options.id_args(coll_type.itemtype, fs_a)", "    id_args = options.id_args(coll_type, fs_a)", R, 'bad'),
 ('coll-skip', F, "                if fs_a + [k] not in options.compare_filter:\n                    continue\n", "                if not options.compare_filter:\n                    continue\n", R, 'bad'),
 ('coll-skip2', F, "                if fs_a + [k] not in options.compare_filter:\n                    continue\n", "                if fs_b + [k] not in options.compare_filter:\n                    continue\n", R, 'bad'),
 ('coll-skip3', F, "            if callable(id_args):\n                if fs_a + [k] not in options.compare_filter:\n                    continue\n", "            if options.compare_filter:\n                if fs_a + [k] not in options.compare_filter:\n                    continue\n", R, 'bad'),
 ('coll-exit', F, "    if not callable(id_args) and 'selector' in id_args and \\\n            not id_args['selector']:\n        # early exit shortcut\n        return\n", "", R, 'bad'),
 ('id-pk', ID, "    if selector and pk_cols and not all(\n        selector[(x.name,)] for x in pk_cols\n    ):", "    if selector and pk_cols and not any(\n        selector[(x.name,)] for x in pk_cols\n    ):", R, 'bad'),
 ('id-pk2', ID, "    if selector and pk_cols and not all(\n        selector[(x.name,)] for x in pk_cols\n    ):", "    if selector and pk_cols:", R, 'bad'),
 ('id-slots', ID, "            all_properties = tuple(\n                x for x in all_properties if selector[(x.name,)]\n            )", "            all_properties = tuple(all_properties)", R, 'bad'),
 ('id-hook', ID, "            val = normalize_object_slot(val, prop, object_)\n", "            val = normalize_object_slot(val, prop, type_)\n", R, 'bad'),
 ('id-hook2', ID, "                                   selector[prop.name] if selector else None,\n                                   normalize_object_slot)", "                                   selector[prop.name] if selector else None)", R, 'bad'),
 ('id-sel', ID, "                                   selector[prop.name] if selector else None,\n", "                                   selector,\n", R, 'bad'),
 ('id-sel2', ID, "                v, type_.itemtype, selector[k], normalize_object_slot,", "                v, type_.itemtype, None, normalize_object_slot,", R, 'bad'),
 ('id-sel3', ID, "            ) for k, v in gen if selector[(k,)]", "            ) for k, v in gen", R, 'bad'),
 ('id-skip', ID, "        else:\n            key_vals.append(val)\n", "        elif val is not _none:\n            key_vals.append(val)\n", R, 'bad'),
 ('id-raw', ID, "        if normalize_object_slot:\n            val = ", "        if normalize_object_slot and not pk_cols:\n            val = ", R, 'bad'),
 ('id-type', ID, "    if type_ is None or isinstance(type_, tuple):\n        type_ = type(object_)", "    if type_ is None or not isinstance(object_, type_):\n        type_ = type(object_)", R, 'bad'),
 ('id-type2', ID, "    if type_ is None or isinstance(type_, tuple):\n        type_ = type(object_)", "    type_ = type(object_)", R, 'bad'),
 ('r-flt', F, "        if not self.extraneous and prop.extraneous:\n            return True\n        return self.compare_filter and not self.compare_filter[fs]", "        hidden = prop.extraneous and not self.extraneous\n        if hidden or not self.compare_filter:\n            return hidden\n        return not self.compare_filter[fs]", R, 'ok'),
 ('r-ida', F, """            if not coll_filter.has_none:
                def _options(k):
                    options['selector'] = coll_filter[k]
                    return options

                return _options
            else:
                options['selector'] = coll_filter[any]
        return options""", """            if coll_filter.has_none:
                options['selector'] = coll_filter[any]
                return options
            return lambda k: dict(options, selector=coll_filter[k])
        return options""", R, 'ok'),
 ('r-ida2', F, """            if len(fs):
                coll_filter = self.compare_filter[fs]
            else:
                coll_filter = self.compare_filter
""", """            coll_filter = self.compare_filter
            if fs:
                coll_filter = coll_filter[fs]
""", R, 'ok'),
 ('r-ida3', F, "        options = dict()\n        if self.duck_type:\n            options['type_'] = type_\n", "        options = {'type_': type_} if self.duck_type else {}\n", R, 'ok'),
 ('r-coll', F, """            if callable(id_args):
                if fs_a + [k] not in options.compare_filter:
                    continue
            pk = options.record_id(
                v, **(id_args(k) if callable(id_args) else id_args))""", """            kwargs = id_args
            if callable(id_args):
                if not (fs_a + [k] in options.compare_filter):
                    continue
                kwargs = id_args(k)
            pk = options.record_id(v, **kwargs)""", R, 'ok'),
 ('r-id', ID, """            value_type_list = (
                prop.valuetype if isinstance(prop.valuetype, tuple) else
                (prop.valuetype,)
            )""", """            value_type_list = prop.valuetype
            if not isinstance(value_type_list, tuple):
                value_type_list = (value_type_list,)""", R, 'ok'),
 ('r-id2', ID, """        if selector:
            all_properties = tuple(
                x for x in all_properties if selector[(x.name,)]
            )
""", """        if selector:
            chosen = []
            for x in all_properties:
                if selector[(x.name,)]:
                    chosen.append(x)
            all_properties = tuple(chosen)
""", R, 'ok'),
 ('r-id3', ID, """        val = getattr(object_, prop.name, None)
        if normalize_object_slot:
            val = normalize_object_slot(val, prop, object_)
        _none = (
            normalize_object_slot(None, prop, object_) if
            normalize_object_slot else None
        )
""", """        def clean(x):
            if not normalize_object_slot:
                return x
            return normalize_object_slot(x, prop, object_)
        val = clean(getattr(object_, prop.name, None))
        _none = clean(None)
""", R, 'ok'),
 ('r-id4', ID, """        return tuple(
            record_id(
                v, type_.itemtype, selector[k], normalize_object_slot,
            ) for k, v in gen if selector[(k,)]
        ) if selector else tuple(
            record_id(v, type_.itemtype, None, normalize_object_slot) for
            k, v in gen
        )
""", """        ids = []
        for k, v in gen:
            if selector and not selector[(k,)]:
                continue
            ids.append(record_id(
                v, type_.itemtype, selector[k] if selector else None,
                normalize_object_slot))
        return tuple(ids)
""", R, 'ok'),
 ('r-id5', ID, """    if selector and pk_cols and not all(
        selector[(x.name,)] for x in pk_cols
    ):
        pk_cols = None
""", """    if selector and pk_cols:
        for x in pk_cols:
            if not selector[(x.name,)]:
                pk_cols = None
                break
""", R, 'ok'),

 ('d-table', F, "    tuple: compare_list_iter,\n", "", S, 'bad'),
 ('d-table2', F, "    Collection: compare_collection_iter,\n    Record: compare_record_iter,", "    Collection: compare_record_iter,\n    Record: compare_collection_iter,", S, 'bad'),
 ('d-exact', F, "        matches = (isinstance(base, type_union) if base is not _nothing else\n                   isinstance(other, type_union))", "        matches = (type(base) is type_union if base is not _nothing else\n                   isinstance(other, type_union))", S, 'bad'),
 ('d-none', F, "        matches = (isinstance(base, type_union) if base is not _nothing else\n                   isinstance(other, type_union))", "        matches = (isinstance(base, type_union) if base is not None else\n                   isinstance(other, type_union))", S, 'bad'),
 ('d-both', F, "        matches = (isinstance(base, type_union) if base is not _nothing else\n                   isinstance(other, type_union))", "        matches = isinstance(base, type_union)", S, 'bad'),
 ('d-swap', F, "func(base, other, fs_a, fs_b, options=options)", "func(base, other, fs_a, fs_a, options=options)", S, 'bad'),
 ('d-noopt', F, "func(base, other, fs_a, fs_b, options=options)", "func(base, other, fs_a, fs_b)", S, 'bad'),
 ('d-first', F, "        return chain(*generators)\n", "        return chain(*generators[:1])\n", S, 'bad'),
 ('d-last', F, "    if len(generators) == 1:\n        return generators[0]\n    else:\n        return chain(*generators)\n", "    return generators[-1]\n", S, 'bad'),
 ('d-break', F, "            generators.append(func(base, other, fs_a, fs_b, options=options))\n", "            generators.append(func(base, other, fs_a, fs_b, options=options))\n            break\n", S, 'bad'),
 ('e-opt', F, "    if options is None:\n        options = DiffOptions(**kwargs)\n    elif len(kwargs):", "    if options is None or kwargs:\n        options = DiffOptions(**kwargs)\n    elif len(kwargs):", S, 'bad'),
 ('e-raise', F, "    elif len(kwargs):\n        raise exc.DiffOptionsException()\n", "", S, 'bad'),
 ('e-kw', F, "        options = DiffOptions(**kwargs)\n", "        options = DiffOptions()\n", S, 'bad'),
 ('e-order', F, "    return _diff_iter(base, other, null_fs, null_fs, options)", "    return _diff_iter(other, base, null_fs, null_fs, options)", S, 'bad'),
 ('e-names', F, "                other_type_name=type(other).__name__)", "                other_type_name=type(base).__name__)", S, 'bad'),
 ('e-rec', RI, "        return diff(self, other, **kwargs)", "        return diff(other, self, **kwargs)", S, 'bad'),
 ('e-rec2', RI, "        return diff_iter(self, other, **kwargs)", "        return diff_iter(self, other)", S, 'bad'),
 ('r-disp', F, "        matches = (isinstance(base, type_union) if base is not _nothing else\n                   isinstance(other, type_union))\n        if matches:\n            generators.append(func(base, other, fs_a, fs_b, options=options))\n\n    if len(generators) == 1:\n        return generators[0]\n    else:\n        return chain(*generators)\n", "        one = other if base is _nothing else base\n        if not isinstance(one, type_union):\n            continue\n        generators.append(func(base, other, fs_a, fs_b, options))\n\n    return chain.from_iterable(generators)\n", S, 'ok'),
 ('r-disp2', F, "    generators = []\n\n    for type_union, func in COMPARE_FUNCTIONS.items():\n        matches = (isinstance(base, type_union) if base is not _nothing else\n                   isinstance(other, type_union))\n        if matches:\n            generators.append(func(base, other, fs_a, fs_b, options=options))\n\n    if len(generators) == 1:\n        return generators[0]\n    else:\n        return chain(*generators)\n", "    probe = base if base is not _nothing else other\n    for type_union in COMPARE_FUNCTIONS:\n        if isinstance(probe, type_union):\n            func = COMPARE_FUNCTIONS[type_union]\n            for found in func(base, other, fs_a, fs_b, options=options):\n                yield found\n", S, 'ok'),
 ('r-disp3', F, "    generators = []\n\n    for type_union, func in COMPARE_FUNCTIONS.items():\n        matches = (isinstance(base, type_union) if base is not _nothing else\n                   isinstance(other, type_union))\n        if matches:\n            generators.append(func(base, other, fs_a, fs_b, options=options))\n", "    probe = base if base is not _nothing else other\n    generators = [func(base, other, fs_a, fs_b, options=options)\n                  for type_union, func in COMPARE_FUNCTIONS.items()\n                  if isinstance(probe, type_union)]\n", S, 'ok'),
 ('r-entry', F, "    if options is None:\n        options = DiffOptions(**kwargs)\n    elif len(kwargs):\n        raise exc.DiffOptionsException()\n", "    if options is not None and kwargs:\n        raise exc.DiffOptionsException()\n    if options is None:\n        options = DiffOptions(**kwargs)\n", S, 'ok'),
 ('r-entry2', F, "    null_fs = FieldSelector(tuple())\n    return _diff_iter(base, other, null_fs, null_fs, options)", "    return _diff_iter(base, other, FieldSelector([]), FieldSelector([]), options)", S, 'ok'),
 ('r-eager', F, "    return Diff(diff_iter(base, other, **kwargs),\n                base_type_name=type(base).__name__,\n                other_type_name=type(other).__name__)", "    names = dict(base_type_name=type(base).__name__,\n                 other_type_name=type(other).__name__)\n    found = diff_iter(base, other, **kwargs)\n    return Diff(found, **names)", S, 'ok'),

 ('jd-noother', J, "            other_type_name=type(other).__name__,\n            values=self", "            other_type_name=type(self).__name__,\n            values=self", ['C20'], 'bad'),
 ('jd-nokw', J, "values=self.diff_iter(other, **kwargs)", "values=self.diff_iter(other)", ['C20'], 'bad'),
 ('jd-iter-nokw', J, "super(JsonRecord, self).diff_iter(other, **kwargs)", "super(JsonRecord, self).diff_iter(other)", ['C20'], 'bad'),
 ('jd-iter-skip', J, "            newargs = diff.__getstate__()\n", "            newargs = diff.__getstate__()\n            if not newargs['base']:\n                continue\n", ['C20'], 'bad'),
 ('jd-iter-break', J, "            yield JsonDiffInfo(**(newargs))\n", "            yield JsonDiffInfo(**(newargs))\n            if not diff.base:\n                break\n", ['C20'], 'bad'),
 ('jd-iter-plain', J, "            yield JsonDiffInfo(**(newargs))\n", "            yield diff\n", ['C20'], 'bad'),
 ('jd-info-swap', J, "            base=self.base.selectors,\n            other=self.other", "            base=self.base.selectors,\n            other=self.base", ['C20'], 'bad'),
 ('jd-info-none', J, "            diff_type=self.diff_type.canonical_name,\n            base", "            base", ['C20'], 'bad'),
 ('ref-jd-kw', J, """            newargs = diff.__getstate__()
            yield JsonDiffInfo(**(newargs))
""", """            yield JsonDiffInfo(
                diff_type=diff.diff_type, base=diff.base, other=diff.other,
            )
""", ['C20'], 'ok'),
 ('ref-jd-gen', J, """        for diff in super(JsonRecord, self).diff_iter(other, **kwargs):
            # TODO: object copy/upgrade constructor
            newargs = diff.__getstate__()
            yield JsonDiffInfo(**(newargs))
""", """        diffs = super(JsonRecord, self).diff_iter(other, **kwargs)
        return (JsonDiffInfo(**x.__getstate__()) for x in diffs)
""", ['C20'], 'ok'),
 ('ref-jd-list', J, """        return JsonDiff(
            base_type_name=type(self).__name__,
            other_type_name=type(other).__name__,
            values=self.diff_iter(other, **kwargs),
        )
""", """        names = dict(
            base_type_name=type(self).__name__,
            other_type_name=type(other).__name__,
        )
        items = list(self.diff_iter(other, **kwargs))
        return JsonDiff(values=items, **names)
""", ['C20'], 'ok'),
 ('ref-jd-info', J, """        return dict(
            diff_type=self.diff_type.canonical_name,
            base=self.base.selectors,
            other=self.other.selectors,
        )
""", """        out = {"diff_type": self.diff_type.canonical_name}
        for side in ("base", "other"):
            out[side] = getattr(self, side).selectors
        return out
""", ['C20'], 'ok'),
    ('rid-any-type', 'identity.py',
     "if issubclass(value_type, normalize.record.Record):",
     "if hasattr(val, 'primary_key'):", ['C19'], 'any'),
    ('rid-value-lost', 'identity.py',
     "            val_pk = val_pk or val\n", "            val_pk = val\n",
     ['C19'], 'bad'),
    ('rid-never-more', 'identity.py',
     "if not val_pk or pk_elements > set_elements:",
     "if val_pk and pk_elements > set_elements:", ['C19'], 'bad'),
    ('rid-crisis', 'identity.py', "    elif object_.__hash__:\n"
     "        return object_\n", "    elif type_:\n"
     "        return object_\n", ['C19'], 'bad'),
    ('rid-tail', 'identity.py', "            k, v in gen\n",
     "            k, v in list(gen)[1:]\n", ['C19'], 'bad'),
    ('rid-single', 'identity.py', '''            value_type_list = (
                prop.valuetype if isinstance(prop.valuetype, tuple) else
                (prop.valuetype,)
            )
''', '''            value_type_list = prop.valuetype
            if not isinstance(value_type_list, tuple):
                value_type_list = (value_type_list,)
''', ['C19'], 'ok'),
]
