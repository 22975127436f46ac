J = 'record/json.py'
JP = 'property/json.py'
BODY = """                        try:
                            kwargs[propname] = _json_to_value_initializer(
                                prop.from_json(
                                    json_struct[json_name]
                                ),
                                prop.valuetype,
                            )
                        except Exception as e:
                            raise _box_ingress_error(json_name, e)
                    unknown_keys.discard(json_name)
"""
UNK = """    if unknown_keys:
        kwargs["unknown_json_keys"] = dict(
            (k, deepcopy(json_struct[k])) for k in unknown_keys
        )
    return kwargs
"""
PLAIN = """        elif prop.name in json_struct:
            json_val = json_struct[prop.name]
            unknown_keys.discard(prop.name)
            if prop.name not in kwargs:
                proptype = prop.valuetype
                try:
                    kwargs[propname] = _json_to_value_initializer(
                        json_val, proptype,
                    )
                except Exception as e:
                    raise _box_ingress_error(prop.name, e)
"""
OUT = """                json_name = getattr(prop, "json_name", prop.name)
                try:
                    rv_dict[json_name] = to_json(record, extraneous, prop)
                except AttributeError:
                    pass
"""
OUTLOOP = """            if not extraneous and prop.extraneous:
                pass
            elif prop.slot_is_empty(record):
                pass
            elif not hasattr(prop, "json_name") or prop.json_name is not None:
                json_name = getattr(prop, "json_name", prop.name)
                try:
                    rv_dict[json_name] = to_json(record, extraneous, prop)
                except AttributeError:
                    pass
"""
JD = """                for k, v in self.unknown_json_keys.items():
                    if k not in jd:
                        jd[k] = _json_data(v, extraneous)
"""
BOX = """    error_fs = FieldSelector([context])
    if hasattr(exception, "error_fs"):
        error_fs.extend(exception.error_fs)
    if hasattr(exception, "sub_exception"):
        exception = exception.sub_exception
    return exc.JsonConversionError(
        error_fs=error_fs,
        sub_exception=exception,
    )
"""
LST = """                for i, x in cls.coll_to_tuples(json_struct):
                    try:
                        values.append(
                            x if isinstance(x, member_type) else
                            member_type.from_json(x)
                        )
                    except Exception as e:
                        raise _box_ingress_error(i, e)
"""
DEC = """    if isinstance(json_data, (bytes, bytearray)):
        return json.loads(json_data.decode('utf-8'))
    if isinstance(json_data, str):
        return json.loads(json_data)
            
    return json_data
"""
C10, C11, C12, C13, C14 = (['C1%d' % i] for i in range(5))
ALL = ['C10', 'C11', 'C12', 'C13', 'C14']
MUTS = [
 # ---- C10
 ('in-kw-overridden', J, 'if propname not in kwargs:', 'if True:', C10, 'bad'),
 ('in-name-not-json-name', J, 'json_name = prop.json_name\n            if json_name', 'json_name = prop.name\n            if json_name', C10, 'bad'),
 ('in-no-from-json', J, 'prop.from_json(\n                                    json_struct[json_name]\n                                )', 'json_struct[json_name]', C10, 'bad'),
 ('in-skip-falsy', J, 'if json_name in json_struct:\n', 'if json_struct.get(json_name):\n', C10, 'bad'),
 ('in-skip-none', J, 'if json_name in json_struct:\n', 'if json_struct.get(json_name) is not None:\n', C10, 'bad'),
 ('in-plain-none', J, 'elif prop.name in json_struct:\n', 'elif json_struct.get(prop.name) is not None:\n', C10, 'bad'),
 ('in-hidden-read', J, 'json_name = prop.json_name\n            if json_name', 'json_name = prop.json_name or prop.name\n            if json_name', C10, 'bad'),
 ('in-no-typecheck', J, '    if not isinstance(json_struct, dict):\n        raise', '    if not isinstance(json_struct, (dict, list)):\n        raise', C10, 'bad'),
 ('in-json-in-truthy', JP, 'return self.json_in(json_data) if self.json_in else json_data', 'return self.json_in(json_data) if self.json_in and json_data else json_data', C10, 'bad'),
 ('in-name-falsy', JP, 'return self.name if self._json_name is _default else self._json_name', 'return self._json_name if self._json_name and self._json_name is not _default else self.name', C10, 'bad'),
 ('in-list-drops', J, 'for i, x in cls.coll_to_tuples(json_struct):\n                    try:\n                        values.append(\n                            x if isinstance(x, member_type) else\n                            member_type', 'for i, x in cls.coll_to_tuples(json_struct):\n                    if x is None:\n                        continue\n                    try:\n                        values.append(\n                            x if isinstance(x, member_type) else\n                            member_type', C10, 'bad'),
 ('in-dict-wrong-value', J, "else:\n                kwargs['values'] = json_struct\n        return kwargs\n\n    def json_data(self, extraneous=False):\n        # this method intentionally does not call the superclass json_data,\n        # because this function returns a collection.\n        return to_json(self, extraneous)\n\n    def __repr__(self):\n        super_repr = super(JsonRecordDict", "else:\n                kwargs['values'] = {}\n        return kwargs\n\n    def json_data(self, extraneous=False):\n        # this method intentionally does not call the superclass json_data,\n        # because this function returns a collection.\n        return to_json(self, extraneous)\n\n    def __repr__(self):\n        super_repr = super(JsonRecordDict", C10, 'bad'),
 # ---- C11
 ('out-extraneous-dropped', J, 'if not extraneous and prop.extraneous:', 'if prop.extraneous:', C11, 'bad'),
 ('out-extraneous-kept', J, 'if not extraneous and prop.extraneous:', 'if not extraneous and prop.extraneous and prop.slot_is_empty(record):', C11, 'bad'),
 ('out-plain-skipped', J, 'elif not hasattr(prop, "json_name") or prop.json_name is not None:', 'elif getattr(prop, "json_name", None) is not None:', C11, 'bad'),
 ('out-hidden', J, 'elif not hasattr(prop, "json_name") or prop.json_name is not None:', 'else:', C11, 'bad'),
 ('out-name', J, 'json_name = getattr(prop, "json_name", prop.name)', 'json_name = prop.name', C11, 'bad'),
 ('out-not-passed', J, 'rv_dict[json_name] = to_json(record, extraneous, prop)', 'rv_dict[json_name] = to_json(record, prop=prop)', C11, 'bad'),
 ('out-list-not-passed', J, 'return list(_json_data(x, extraneous) for x in record)', 'return list(_json_data(x, True) for x in record)', C11, 'bad'),
 ('out-list-filter', J, 'return list(_json_data(x, extraneous) for x in record)', 'return list(_json_data(x, extraneous) for x in record if x is not None)', C11, 'bad'),
 ('out-prop-raw', J, 'return prop.to_json(val, extraneous, _json_data)', 'return _json_data(val, extraneous)', C11, 'bad'),
 ('out-prop-no-ext', J, 'return prop.to_json(val, extraneous, _json_data)', 'return prop.to_json(val, False, _json_data)', C11, 'bad'),
 ('out-json-out-truthy', JP, '        if self.json_out:\n', '        if self.json_out and propval:\n', C11, 'bad'),
 ('out-json-out-default', JP, 'return to_json_func(propval, extraneous)', 'return to_json_func(propval, True)', C11, 'bad'),
 ('out-sig', J, 'if tjte:\n                return x.json_data(extraneous=extraneous)', 'if True:\n                return x.json_data(extraneous=extraneous)', C11, 'bad'),
 ('out-skip-falsy', J, 'elif prop.slot_is_empty(record):', 'elif not getattr(record, propname, None):', C11, 'bad'),
 # ---- C12
 ('unk-alias', J, 'deepcopy(json_struct[k])', 'json_struct[k]', C12, 'bad'),
 ('unk-filter', J, 'for k in unknown_keys\n', 'for k in unknown_keys if json_struct[k] is not None\n', C12, 'bad'),
 ('unk-name-discard', J, '                    unknown_keys.discard(json_name)\n', '                    unknown_keys.discard(json_name)\n            unknown_keys.discard(propname)\n', C12, 'bad'),
 ('unk-no-discard', J, '                    unknown_keys.discard(json_name)\n', '                        unknown_keys.discard(json_name)\n', C12, 'bad'),
 ('unk-out-overwrite', J, JD, JD.replace('if k not in jd:', 'if True:'), C12, 'bad'),
 ('unk-out-falsy', J, JD, JD.replace('if k not in jd:', 'if k not in jd and v:'), C12, 'bad'),
 ('unk-out-ungated', J, 'if extraneous or not prop.extraneous:', 'if True:', C12, 'bad'),
 ('unk-out-gated', J, 'if extraneous or not prop.extraneous:', 'if extraneous:', C12, 'bad'),
 ('unk-out-raw-base', J, 'jd = to_json(self, extraneous)', 'jd = to_json(self)', C12, 'bad'),
 ('unk-auto', J, "jd[k] = _json_data(v, extraneous)\n        return jd\n\n    def __getattr__", "jd.setdefault(k, None)\n        return jd\n\n    def __getattr__", C12, 'bad'),
 ('unk-remove', J, 'unknown_keys.discard(json_name)', 'unknown_keys.remove(json_name)', C12, 'bad'),
 ('unk-out-tojson', J, JD, JD.replace('_json_data(v', 'to_json(v'), C12, 'bad'),
 ('out-list-tojson', J, 'return list(_json_data(x, extraneous) for x in record)', 'return list(to_json(x, extraneous) for x in record)', C11, 'bad'),
 ('out-prop-tojson', J, 'return prop.to_json(val, extraneous, _json_data)', 'return prop.to_json(val, extraneous, to_json)', C11, 'bad'),
 ('ref-rename-dispatch', J, [(J, 'def _json_data(x', 'def _dispatch(x')] + [(J, '_json_data(v, ex', '_dispatch(v, ex')]*4 + [(J, '_json_data(x, ex', '_dispatch(x, ex')]*2 + [(J, 'extraneous, _json_data)', 'extraneous, _dispatch)'), (J, '_json_data(val, ex', '_dispatch(val, ex')], None, ALL, 'ok'),
 # ---- C13
 ('box-valueerror', J, BODY, BODY.replace('except Exception as e', 'except ValueError as e'), C13, 'bad'),
 ('box-wrong-key', J, BODY, BODY.replace('_box_ingress_error(json_name, e)', '_box_ingress_error(propname, e)'), C13, 'bad'),
 ('box-plain-unboxed', J, PLAIN, PLAIN.replace('raise _box_ingress_error(prop.name, e)', 'raise'), C13, 'bad'),
 ('box-nested-lost', J, '        error_fs.extend(exception.error_fs)\n', '        pass\n', C13, 'bad'),
 ('box-cause-chain', J, '    if hasattr(exception, "sub_exception"):\n        exception = exception.sub_exception\n', '', C13, 'bad'),
 ('box-list-index', J, LST, LST.replace('_box_ingress_error(i, e)', '_box_ingress_error(len(values) + 1, e)'), C13, 'bad'),
 ('box-list-swallow', J, LST, LST.replace('raise _box_ingress_error(i, e)', 'continue'), C13, 'bad'),
 ('box-outside', J, LST, """                for i, x in cls.coll_to_tuples(json_struct):
                    v = (x if isinstance(x, member_type) else
                         member_type.from_json(x))
                    try:
                        values.append(v)
                    except Exception as e:
                        raise _box_ingress_error(i, e)
""", C13, 'bad'),
 # ---- C14
 ('dec-latin', J, "decode('utf-8')", "decode('latin-1')", C14, 'bad'),
 ('dec-nobytearray', J, '(bytes, bytearray)', 'bytes', C14, 'bad'),
 ('dec-list-skips', J, "        json_data = _decode_and_parse_json(json_data)\n        if json_data is not None:\n            kwargs = type(self).json_to_initkwargs(json_data, kwargs)\n        super(JsonRecordList", "        if json_data is not None:\n            kwargs = type(self).json_to_initkwargs(json_data, kwargs)\n        super(JsonRecordList", C14, 'bad'),
 ('dec-from-json', J, '    json_struct = _decode_and_parse_json(json_struct)\n    if issubclass', '    if issubclass', C14, 'bad'),
 ('dec-falsy', J, "        json_data = _decode_and_parse_json(json_data)\n        if json_data is not None:", "        json_data = _decode_and_parse_json(json_data)\n        if json_data:", C14, 'bad'),
 # ---- refactorings
 ('ref-in-continue', J, BODY, """                        try:
                            raw = json_struct[json_name]
                            converted = prop.from_json(raw)
                            value = _json_to_value_initializer(
                                converted, prop.valuetype)
                        except Exception as err:
                            raise _box_ingress_error(json_name, err)
                        kwargs[propname] = value
                    unknown_keys.discard(json_name)
""", ALL, 'ok'),
 ('ref-in-plain-helper', J, [(J, PLAIN, """        elif prop.name in json_struct:
            unknown_keys.discard(prop.name)
            if propname not in kwargs:
                kwargs[propname] = _plain(json_struct, prop)
"""), (J, 'def json_to_initkwargs(record_type', '''def _plain(struct, prop):
    try:
        return _json_to_value_initializer(struct[prop.name], prop.valuetype)
    except Exception as e:
        raise _box_ingress_error(prop.name, e)


def json_to_initkwargs(record_type''')], None, ALL, 'ok'),
 ('ref-unk-loop', J, UNK, """    if unknown_keys:
        kept = {}
        for k in unknown_keys:
            kept[k] = deepcopy(json_struct[k])
        kwargs["unknown_json_keys"] = kept
    return kwargs
""", ALL, 'ok'),
 ('ref-unk-comp', J, UNK, """    leftover = {k: deepcopy(json_struct[k]) for k in unknown_keys}
    if leftover:
        kwargs["unknown_json_keys"] = leftover
    return kwargs
""", ALL, 'ok'),
 ('ref-unk-known-set', J, [
   (J, 'unknown_keys = set(json_struct.keys())', 'known_keys = set()'),
   (J, '                    unknown_keys.discard(json_name)', '                    known_keys.add(json_name)'),
   (J, '            unknown_keys.discard(prop.name)', '            known_keys.add(prop.name)'),
   (J, UNK, """    unknown = {}
    for k, v in json_struct.items():
        if k not in known_keys:
            unknown[k] = deepcopy(v)
    if unknown:
        kwargs["unknown_json_keys"] = unknown
    return kwargs
""")], None, ALL, 'ok'),
 ('ref-unk-diff', J, [
   (J, 'unknown_keys = set(json_struct.keys())', 'known_keys = set()'),
   (J, '                    unknown_keys.discard(json_name)', '                    known_keys.add(json_name)'),
   (J, '            unknown_keys.discard(prop.name)', '            known_keys.add(prop.name)'),
   (J, UNK, """    unknown_keys = set(json_struct) - known_keys
    if unknown_keys:
        kwargs["unknown_json_keys"] = dict(
            (k, deepcopy(json_struct[k])) for k in unknown_keys
        )
    return kwargs
""")], None, ALL, 'ok'),
 ('ref-out-continue', J, OUTLOOP, """            if prop.extraneous and not extraneous:
                continue
            if prop.slot_is_empty(record):
                continue
            if hasattr(prop, "json_name"):
                if prop.json_name is None:
                    continue
                key = prop.json_name
            else:
                key = prop.name
            try:
                value = to_json(record, extraneous, prop)
            except AttributeError:
                continue
            rv_dict[key] = value
""", ALL, 'ok'),
 ('ref-out-name-default', J, OUTLOOP, """            if not extraneous and prop.extraneous:
                continue
            json_name = getattr(prop, "json_name", prop.name)
            if json_name is None or prop.slot_is_empty(record):
                continue
            try:
                rv_dict[json_name] = to_json(record, extraneous, prop)
            except AttributeError:
                pass
""", ALL, 'ok'),
 ('ref-out-listcomp', J, 'return list(_json_data(x, extraneous) for x in record)', 'return [_json_data(member, extraneous) for member in record]', ALL, 'ok'),
 ('ref-out-loop', J, 'return list(_json_data(x, extraneous) for x in record)', 'out = []\n            for member in record:\n                out.append(_json_data(member, extraneous))\n            return out', ALL, 'ok'),
 ('ref-out-dictcomp', J, """            return dict(
                (k, _json_data(v, extraneous)) for k, v in list(record.items())
            )""", """            return {key: _json_data(record[key], extraneous)
                    for key in record.keys()}""", ALL, 'ok'),
 ('ref-jd-continue', J, JD, """                unknown = self.unknown_json_keys
                for k in unknown:
                    if k in jd:
                        continue
                    jd[k] = _json_data(unknown[k], extraneous)
""", ALL, 'ok'),
 ('ref-jd-early', J, """        if hasattr(self, "unknown_json_keys"):
            prop = type(self).properties['unknown_json_keys']
            if extraneous or not prop.extraneous:
""" + JD + """        return jd

    def diff_iter""", """        if not hasattr(self, "unknown_json_keys"):
            return jd
        gate = type(self).properties['unknown_json_keys']
        if not extraneous and gate.extraneous:
            return jd
        for k, v in self.unknown_json_keys.items():
            if k not in jd:
                jd[k] = _json_data(v, extraneous)
        return jd

    def diff_iter""", ALL, 'ok'),
 ('ref-box-inline', J, BOX, """    path = [context]
    if hasattr(exception, "error_fs"):
        path.extend(exception.error_fs)
    cause = getattr(exception, "sub_exception", exception)
    return exc.JsonConversionError(
        error_fs=FieldSelector(path), sub_exception=cause,
    )
""", ALL, 'ok'),
 ('ref-box-add', J, BOX, """    error_fs = FieldSelector([context])
    if hasattr(exception, "error_fs"):
        error_fs = error_fs + exception.error_fs
    sub = exception
    if hasattr(exception, "sub_exception"):
        sub = exception.sub_exception
    return exc.JsonConversionError(error_fs=error_fs, sub_exception=sub)
""", ALL, 'ok'),
 ('ref-list-helper', J, [(J, LST, """                for i, x in cls.coll_to_tuples(json_struct):
                    values.append(_member(member_type, i, x))
"""), (J, 'class JsonRecordList(', '''def _member(member_type, where, x):
    if isinstance(x, member_type):
        return x
    try:
        return member_type.from_json(x)
    except Exception as e:
        raise _box_ingress_error(where, e)


class JsonRecordList(''')], None, ALL, 'ok'),
 ('ref-list-local', J, LST, """                for i, x in cls.coll_to_tuples(json_struct):
                    try:
                        if not isinstance(x, member_type):
                            x = member_type.from_json(x)
                        values.append(x)
                    except Exception as e:
                        raise _box_ingress_error(i, e)
""", ALL, 'ok'),
 ('ref-dec-nested', J, DEC, """    if isinstance(json_data, (bytes, bytearray)):
        json_data = json_data.decode('utf-8')
    if isinstance(json_data, str):
        json_data = json.loads(json_data)
    return json_data
""", ALL, 'ok'),
 ('ref-dec-elif', J, DEC, """    if isinstance(json_data, str):
        text = json_data
    elif isinstance(json_data, bytes) or isinstance(json_data, bytearray):
        text = str(json_data, 'utf-8')
    else:
        return json_data
    return json.loads(text)
""", ALL, 'ok'),
 ('ref-from-json', J, """        init_kwargs = json_to_initkwargs(record_type, json_struct)
        instance = record_type(**init_kwargs)
        return instance
""", """        return record_type(**json_to_initkwargs(record_type, json_struct))
""", ALL, 'ok'),
 ('ref-prop-json-in', JP, 'return self.json_in(json_data) if self.json_in else json_data', 'if not self.json_in:\n            return json_data\n        return self.json_in(json_data)', ALL, 'ok'),

 ('ref-big-range', J, 'return str(record) if abs(record) > 2**50 else record', 'if record > 2**50 or record < -(2**50):\n            return str(record)\n        return record', ALL, 'ok'),
 ('ref-big-chain', J, 'return str(record) if abs(record) > 2**50 else record', 'return record if -2**50 <= record <= 1125899906842624 else str(record)', ALL, 'ok'),
 ('big-signed', J, 'abs(record) > 2**50', 'record > 2**50', C11, 'bad'),
 ('big-ge', J, 'abs(record) > 2**50', 'abs(record) >= 2**50', C11, 'bad'),
 ('big-53', J, 'abs(record) > 2**50', 'abs(record) > 2**53', C11, 'bad'),
 ('ref-params', J, "tjte = 'extraneous' in argspec.args + argspec.kwonlyargs", "tjte = ('extraneous' in argspec.args or\n                    'extraneous' in argspec.kwonlyargs)", ALL, 'ok'),
 ('ref-by-type-getattr', J, """        elif hasattr(proptype, "from_json"):
            return proptype.from_json(json_val)
""", """        reader = getattr(proptype, "from_json", None)
        if reader is not None:
            return reader(json_val)
""", ALL, 'ok'),
 ('ref-by-type-or', J, "    if proptype:\n        if isinstance(proptype, JsonRecord):\n            return json_val\n        elif", "    if proptype and not isinstance(proptype, JsonRecord):\n        if", ALL, 'ok'),
 ('by-type-dict-only', J, 'elif hasattr(proptype, "from_json"):', 'elif hasattr(proptype, "from_json") and isinstance(json_val, dict):', C10, 'bad'),
 ('by-type-falsy', J, '    if proptype:\n', '    if proptype and json_val:\n', C10, 'bad'),
 ('members-kept-list', J, [(J, "x if isinstance(x, member_type) else\n                            member_type.from_json(x)", "member_type.from_json(x)")], None, C10, 'bad'),
 ('members-raw-records', J, [(J, 'elif issubclass(member_type, Record):', 'elif issubclass(member_type, JsonRecord):')], None, C10, 'bad'),
 ('ref-members-conv', J, """                for k, x in cls.coll_to_tuples(json_struct):
                    try:
                        values[k] = (
                            x if isinstance(x, member_type) else
                            member_type.from_json(x)
                        )
                    except""", """                for k, x in cls.coll_to_tuples(json_struct):
                    try:
                        if not isinstance(x, member_type):
                            x = member_type.from_json(x)
                        values[k] = x
                    except""", ALL, 'ok'),
 ('coll-default', J, [(J, 'def json_data(self, extraneous=False):\n        # this', 'def json_data(self, extraneous=True):\n        # this')], None, C11, 'bad'),
 ('coll-drops-option', J, "# because this function returns a collection.\n        return to_json(self, extraneous)", "# because this function returns a collection.\n        return to_json(self)", C11, 'bad'),
 ('hook-no-kwargs', J, 'return json_to_initkwargs(self, json_data, kwargs)', 'return json_to_initkwargs(self, json_data)', ['C14'], 'bad'),
 ('hook-no-decode', J, '        json_data = _decode_and_parse_json(json_data)\n        return json', '        return json', ['C14'], 'bad'),
    ('out j-out-set', 'record/json.py',
     '(list, tuple, set, frozenset)',
     '(list, tuple, set)',
     ['C10', 'C11', 'C12'], 'bad'),
    ('out j-out-float', 'record/json.py',
     '(str, int, float, decimal.Decimal, type(None))',
     '(str, decimal.Decimal, type(None))',
     ['C10', 'C11', 'C12'], 'bad'),
    ('out j-jd-raw', 'record/json.py',
     '                    if k not in jd:\n                        jd[k] = _json_data(v, extraneous)\n        return jd\n\n    def diff_iter',
     '                    if k not in jd:\n                        jd[k] = v\n        return jd\n\n    def diff_iter',
     ['C10', 'C11', 'C12'], 'bad'),
    ('out j-jd-rawset', 'record/json.py',
     '                    if k not in jd:\n                        jd[k] = _json_data(v, extraneous)\n        return jd\n\n    def diff_iter',
     '                    jd.setdefault(k, v)\n        return jd\n\n    def diff_iter',
     ['C10', 'C11', 'C12'], 'bad'),
    ('out j-list-values', 'record/json.py',
     "        if kwargs.get('values', None) is None:\n            kwargs['values'] = values = []",
     "        if not kwargs.get('values', None):\n            kwargs['values'] = values = []",
     ['C10', 'C11', 'C12'], 'bad'),
    ('out j-list-values-get-ok', 'record/json.py',
     "        if kwargs.get('values', None) is None:\n            kwargs['values'] = values = []",
     "        if 'values' not in kwargs or kwargs['values'] is None:\n            kwargs['values'] = values = []",
     ['C10', 'C11', 'C12'], 'ok'),
    ('out j-dict-values', 'record/json.py',
     "        if kwargs.get('values', None) is None:\n            kwargs['values'] = values = {}",
     "        if not kwargs.get('values', None):\n            kwargs['values'] = values = {}",
     ['C10', 'C11', 'C12'], 'bad'),
    ('b23- json-jr', 'record/json.py',
     'issubclass(record_type, JsonRecord)',
     'record_type is JsonRecord',
     C10, 'bad'),
    ('b23- jr2', 'record/json.py',
     '        return record_type(json_struct)\n',
     '        return record_type(**json_to_initkwargs(record_type, json_struct))\n',
     C10, 'bad'),
    ('b23- jr3-ok', 'record/json.py',
     '        return record_type(json_struct)\n',
     '        return record_type.from_json(json_struct)\n',
     C10, 'ok'),
    ('b23- jr4', 'record/json.py',
     '    if issubclass(record_type, JsonRecord):\n        return',
     '    if JsonRecord in record_type.__bases__:\n        return',
     C10, 'bad'),
    ('b24 dictk', 'record/json.py',
     '            (k, _json_data(v, extraneous)) for k, v in record.items()',
     '            (v, _json_data(v, extraneous)) for k, v in record.items()',
     ["C11"], 'bad'),
    ('b24 dictv', 'record/json.py',
     '            (k, _json_data(v, extraneous)) for k, v in record.items()',
     '            (k, _json_data(k, extraneous)) for k, v in record.items()',
     ["C11"], 'bad'),
    ('b24 jl2', 'record/json.py',
     '                            x if isinstance(x, member_type) else\n                            member_type.from_json(x)',
     '                            x if isinstance(i, member_type) else\n                            member_type.from_json(x)',
     ["C10"], 'bad'),
]
