V = ['C33']
F = 'visitor.py'
MUTS = [
    ('getattr', F, 'return prop.__get__(value)', 'return getattr(value, prop.name)', V, 'ok'),
    ('type get', F, 'return prop.__get__(value)', 'return type(prop).__get__(prop, value)', V, 'ok'),
    ('lambda', F, """            def propget(prop):
                return prop.__get__(value)
        else:
            propget = None
""", """            propget = lambda p: p.__get__(value, value_type)
        else:
            propget = None
""", V, 'ok'),
    ('reduce loop', F, """            reduced = dict((k.name, v) for k, v in mapped_props)
""", """            reduced = {}
            for prop, mapped in mapped_props:
                reduced[prop.name] = mapped
""", V, 'ok'),
    ('reduce early', F, """        if issubclass(value_type, Collection) and aggregated is not None:
            if all(visitor.is_filtered(prop) for prop in
                   list(value_type.properties.values())):
                reduced = aggregated
            else:
                if reduced.get("values", False):
                    raise exc.VisitorTooSimple(
                        fs=visitor.field_selector,
                        value_type_name=value_type.__name__,
                        visitor=type(self).__name__,
                    )
                else:
                    reduced['values'] = aggregated

        return reduced
""", """        if not issubclass(value_type, Collection) or aggregated is None:
            return reduced
        if not any(not visitor.is_filtered(prop) for prop in
                   value_type.properties.values()):
            return aggregated
        if reduced.get("values"):
            raise exc.VisitorTooSimple(
                fs=visitor.field_selector,
                value_type_name=value_type.__name__,
                visitor=type(self).__name__,
            )
        reduced['values'] = aggregated
        return reduced
""", V, 'ok'),
    ('produce kw', F, """        kwargs = {} if not mapped_props else dict(
            (k.name, v) for k, v in mapped_props
        )
        if issubclass(value_type, Collection):
            kwargs['values'] = aggregated
        return value_type(**kwargs)
""", """        kwargs = {}
        for prop, val in mapped_props or ():
            kwargs[prop.name] = val
        if issubclass(value_type, Collection):
            return value_type(values=aggregated, **kwargs)
        return value_type(**kwargs)
""", V, 'ok'),
    ('produce truthy', F, """        if issubclass(value_type, Collection):
            kwargs['values'] = aggregated
""", """        if aggregated:
            kwargs['values'] = aggregated
""", V, 'ok'),
    ('grok get', F, """            try:
                if "values" in value:
                    values = value['values']
            except TypeError:
                pass
""", """            values = value.get('values', value)
""", V, 'ok'),
    ('grok keyerror', F, """            try:
                if "values" in value:
                    values = value['values']
            except TypeError:
                pass
""", """            try:
                values = value['values']
            except (KeyError, TypeError):
                pass
""", V, 'ok'),
    ('grok isrec loop', F, """        is_record = issubclass(value_type, Record) and any(
            not visitor.is_filtered(prop) for prop in
            list(value_type.properties.values())
        )
""", """        is_record = False
        if issubclass(value_type, Record):
            for prop in value_type.properties.values():
                if not visitor.is_filtered(prop):
                    is_record = True
                    break
""", V, 'ok'),
    ('apply if', F, """        return (
            None if isinstance(value, (AttributeError, KeyError)) else
            value
        )

    @classmethod
    def aggregate""", """        if isinstance(value, AttributeError) or isinstance(value, KeyError):
            return
        return value

    @classmethod
    def aggregate""", V, 'ok'),
    ('aggregate positional', F, "coll_type.tuples_to_coll(mapped_coll_generator, coerce=False)", "coll_type.tuples_to_coll(mapped_coll_generator, False)", V, 'ok'),
    ('collect explicit', F, "return coll_type.tuples_to_coll(mapped_coll_generator)", "return coll_type.tuples_to_coll(\n            mapped_coll_generator, coerce=True,\n        )", V, 'ok'),
    ('itemtypes', F, """        rv = list(v for k, v in mapped_types)
        return rv[0] if len(rv) == 1 else rv
""", """        rv = []
        for _, info in mapped_types:
            rv.append(info)
        if len(rv) != 1:
            return rv
        return rv[0]
""", V, 'ok'),
    ('typeinfo', F, """        propspec = dict((prop.name, info) for prop, info in propinfo)
        ts = {'name': value_type.__name__}
""", """        propspec = {p.name: info for p, info in propinfo}
        ts = dict(name=value_type.__name__)
""", V, 'ok'),
    ('propinfo', F, """            if isinstance(prop.valuetype, tuple):
                rv['type'] = [typ.__name__ for typ in prop.valuetype]
            else:
                rv['type'] = prop.valuetype.__name__
""", """            vt = prop.valuetype
            rv['type'] = (
                list(map(lambda t: t.__name__, vt)) if isinstance(vt, tuple)
                else vt.__name__
            )
""", V, 'ok'),
    ('reduce prop names', F, "reduced = dict((k.name, v) for k, v in mapped_props)", "reduced = dict((k.json_name, v) for k, v in mapped_props)", V, 'bad'),
    ('produce names', F, """            (k.name, v) for k, v in mapped_props
        )
        if iss""", """            (k, v) for k, v in mapped_props
        )
        if iss""", V, 'bad'),
    ('grok values only dict', F, """                if "values" in value:
                    values""", """                if "values" in value and value["values"]:
                    values""", V, 'bad'),
    ('grok values any', F, "        if is_coll and is_record:\n            try", "        if is_coll:\n            try", V, 'bad'),
    ('items attr', F, "generator = value.itertuples()", "generator = value.values.itertuples()", V, 'any'),
    ('reverse falsy', F, """        squashes exceptions, just like apply.
        \"\"\"
        return (
            None if isinstance(value, (AttributeError, KeyError)) else
            value
        )
""", """        squashes exceptions, just like apply.
        \"\"\"
        return (
            None if isinstance(value, (AttributeError, KeyError)) else
            value or None
        )
""", V, 'bad'),
    ('produce type', F, "        return value_type(**kwargs)\n\n    # versions", "        return cls(**kwargs)\n\n    # versions", V, 'any'),
    ('unpack not record', F, "        if issubclass(value_type, Record):\n            def propget(prop):\n                return prop.__get__(value)", "        if issubclass(value_type, Record) and generator is None:\n            def propget(prop):\n                return prop.__get__(value)", V, 'bad'),
    ('b5 unpack-dict', 'visitor.py',
     '                return prop.__get__(value)',
     '                return value.__dict__[prop.name]',
     V, 'bad'),
    ('b5 apply-type', 'visitor.py',
     '            None if isinstance(value, (AttributeError, KeyError)) else\n            value\n        )\n\n    @classmethod\n    def aggregate',
     '            None if isinstance(value, Exception) else\n            value\n        )\n\n    @classmethod\n    def aggregate',
     V, 'bad'),
    ('b5 agg-coerce', 'visitor.py',
     'coll_type.tuples_to_coll(mapped_coll_generator, coerce=False)',
     'coll_type.tuples_to_coll(mapped_coll_generator)',
     V, 'bad'),
    ('b5 reduce-any', 'visitor.py',
     '            if all(visitor.is_filtered(prop) for prop in',
     '            if any(visitor.is_filtered(prop) for prop in',
     V, 'bad'),
    ('b5 reduce-jsonname', 'visitor.py',
     '            reduced = dict((k.name, v) for k, v in mapped_props)',
     '            reduced = dict((k.name, v) for k, v in mapped_props if v is not None)',
     V, 'bad'),
    ('b5 reduce-aggempty', 'visitor.py',
     '        if issubclass(value_type, Collection) and aggregated is not None:',
     '        if issubclass(value_type, Collection) and aggregated:',
     V, 'bad'),
    ('b5 reduce-over', 'visitor.py',
     '                if reduced.get("values", False):',
     '                if "values" in reduced and False:',
     V, 'bad'),
    ('b5 grok-isrec', 'visitor.py',
     '        is_record = issubclass(value_type, Record) and any(\n            not visitor',
     '        is_record = issubclass(value_type, Record) and all(\n            not visitor',
     V, 'bad'),
    ('b5 grok-values', 'visitor.py',
     '                if "values" in value:',
     '                if value.get("values"):',
     V, 'bad'),
    ('b5 grok-get', 'visitor.py',
     '                return value[prop.name]',
     '                return value.get(prop.name)',
     V, 'bad'),
    ('b5 grok-nofilter', 'visitor.py',
     '        if is_record and not isinstance(value, cls.grok_mapping_types):',
     '        if is_record and not is_coll and not isinstance(value, cls.grok_mapping_types):',
     V, 'bad'),
    ('b5 grok-colltypes', 'visitor.py',
     '            if not isinstance(values, cls.grok_coll_types):',
     '            if not isinstance(values, cls.grok_coll_types) and is_record:',
     V, 'bad'),
    ('b5 collect-coerce', 'visitor.py',
     '        return coll_type.tuples_to_coll(mapped_coll_generator)',
     '        return coll_type.tuples_to_coll(mapped_coll_generator, coerce=False)',
     V, 'bad'),
    ('b5 produce-drop', 'visitor.py',
     '            (k.name, v) for k, v in mapped_props\n        )\n        if iss',
     '            (k.name, v) for k, v in mapped_props if v is not None\n        )\n        if iss',
     V, 'bad'),
    ('b5 scan-item', 'visitor.py',
     '                    for vt in value_type.itemtype:\n                        yield (vt, vt)',
     '                    yield value_type.itemtype[0], value_type.itemtype[0]',
     V, 'bad'),
    ('b5 propinfo-tuple', 'visitor.py',
     "rv['type'] = [typ.__name__ for typ in prop.valuetype]",
     "rv['type'] = prop.valuetype[0].__name__",
     V, 'bad'),
    ('b5 itemtypes', 'visitor.py',
     '        return rv[0] if len(rv) == 1 else rv',
     '        return rv[0] if rv else rv',
     V, 'bad'),
    ('b5 typeinfo-empty', 'visitor.py',
     "        if type_parameters:\n            ts['itemtype']",
     "        if type_parameters and not propspec:\n            ts['itemtype']",
     V, 'bad'),
]
