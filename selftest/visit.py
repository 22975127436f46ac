F = 'visitor.py'
V = ['C26']
TRY = """            try:
                value = get_value(prop)
            except AttributeError as ae:
                value = ae
            except KeyError as ke:
                value = ke
            except Exception as e:
"""
KEEP = """                if mapped is None and rv.ignore_none:
                    pass
                elif mapped == "" and rv.ignore_empty_string:
                    pass
                else:
                    yield prop, mapped
            rv.pop(name)
"""
LOOP = """        for name, prop in record_type.properties.items():
            if rv.is_filtered(prop):
                continue

            rv.push(name)
"""
COLL = """            rv.push(key)
            mapped = cls.map(rv, value, coll_type.itemtype)
            rv.pop(key)
            if mapped is None and visitor.ignore_none:
                pass
            elif mapped == "" and visitor.ignore_empty_string:
                pass
            else:
                yield key, mapped
"""
FILT = """        return (not self.extraneous and prop.extraneous) or (
            self.visit_filter and not self.visit_filter[self.cue + [prop.name]]
        )
"""
COPY = """        for x in self.cue:
            doppel.push(x)
"""
UNI = """                # XXX - this test here should probably be a per-visitor
                # hook, as it only really applies to 'visit', not 'grok'
                if isinstance(value, value_type):
                    matching_record_types.append(value_type)
"""
MATCH = """                try:
                    mapped = cls.map(visitor, value, value_type)
                except TypeError:
                    pass
                else:
                    if mapped:
                        break
        else:
"""
NOMATCH = """                try:
                    mapped = cls.map(visitor, value, value_type)
                except TypeError:
                    pass
                else:
                    # this could also be the wrong thing when mapping
                    # over types.
                    if mapped:
                        break
"""
VF = """        if visit_filter is None:
            visit_filter = filter
        if isinstance(visit_filter, (MultiFieldSelector, type(None))):
            self.visit_filter = visit_filter
        else:
            self.visit_filter = MultiFieldSelector(*visit_filter)
"""
MP = """        if isinstance(value_type, tuple):
            mapped = cls.map_type_union(
                visitor, value, value_type, prop,
            )
        elif issubclass(value_type, Record):
            mapped = cls.map(visitor, value, value_type)
        else:
            mapped = visitor.apply(value, prop, visitor)

        return mapped
"""
MAP = """        if coll:
            coll_map_generator = cls.map_collection(
                visitor, coll, value_type,
            )
            mapped_coll = visitor.collect(
                coll_map_generator, value_type, visitor,
            )
        else:
            mapped_coll = None
"""
MAP2 = """        mapped_props = None
        if props:
            mapped_props = cls.map_record(visitor, props, value_type)
        elif mapped_coll is None:
            return visitor.apply(value, None, visitor)

        return visitor.reduce(
            mapped_props, mapped_coll, value_type, visitor,
        )
"""
MUTS = [
    # the slots
    ('empty-tuple', F, TRY, """            try:
                value = get_value(prop)
            except (AttributeError, KeyError) as e:
                value = e
            except Exception as e:
""", V, 'ok'),
    ('nokeyerror', F, """            except KeyError as ke:
                value = ke
            except Exception as e:
""", "            except Exception as e:\n", V, 'bad'),
    ('empty-skip', F, """            except AttributeError as ae:
                value = ae
""", """            except AttributeError as ae:
                rv.pop(name)
                continue
""", V, 'bad'),
    ('empty-skip-ok', F, """            except AttributeError as ae:
                value = ae
""", """            except AttributeError as ae:
                if not rv.apply_empty_slots:
                    rv.pop(name)
                    continue
                value = ae
""", V, 'ok'),
    ('empty-skip-nopop', F, """            except AttributeError as ae:
                value = ae
""", """            except AttributeError as ae:
                if not rv.apply_empty_slots:
                    continue
                value = ae
""", V, 'bad'),
    ('empty-always', F, """            if visitor.apply_empty_slots or not isinstance(
                value, (KeyError, AttributeError),
            ):
""", """            if visitor.apply_empty_slots or not isinstance(
                value, KeyError,
            ):
""", V, 'bad'),
    ('empty-inverted', F, """            if visitor.apply_empty_slots or not isinstance(
""", """            if not visitor.apply_empty_slots or not isinstance(
""", V, 'bad'),
    ('empty-rv', F, """            if visitor.apply_empty_slots or not isinstance(
""", """            if rv.apply_empty_slots or not isinstance(
""", V, 'ok'),
    ('empty-value-none', F, """                value = ae
""", """                value = None
""", V, 'bad'),
    ('filter-none', F, LOOP, """        for name, prop in record_type.properties.items():
            if prop.extraneous:
                continue

            rv.push(name)
""", V, 'bad'),
    ('filter-after', F, LOOP, """        for name, prop in record_type.properties.items():
            rv.push(name)
            if rv.is_filtered(prop):
                rv.pop(name)
                continue
""", V, 'bad'),
    ('filter-visitor', F, "            if rv.is_filtered(prop):\n",
     "            if visitor.is_filtered(prop):\n", V, 'ok'),
    ('filter-get-first', F, LOOP, """        for name, prop in record_type.properties.items():
            get_value(prop)
            if rv.is_filtered(prop):
                continue

            rv.push(name)
""", V, 'bad'),
    ('values-loop', F, LOOP, """        for prop in record_type.properties.values():
            name = prop.name
            if rv.is_filtered(prop):
                continue

            rv.push(name)
""", V, 'ok'),
    ('push-none', F, "            rv.push(name)\n            try:", "            try:", V, 'bad'),
    ('push-value', F, "            rv.push(name)\n            try:",
     "            rv.push(prop)\n            try:", V, 'bad'),
    ('push-visitor', F, [(F, "            rv.push(name)\n            try:",
     "            visitor.push(name)\n            try:"),
     (F, KEEP, KEEP.replace('rv.pop', 'visitor.pop'))], None, V, 'bad'),
    ('nocopy', F, "        rv = visitor.copy()  # expensive?\n",
     "        rv = visitor\n", V, 'bad'),
    ('pop-inside', F, KEEP, KEEP.replace("""            rv.pop(name)
""", """                rv.pop(name)
"""), V, 'bad'),
    ('pop-before-map', F, """                mapped = cls.map_prop(rv, value, prop)
""", """                rv.pop(name)
                mapped = cls.map_prop(rv, value, prop)
                rv.push(name)
""", V, 'bad'),
    ('pop-first', F, [(F, KEEP, KEEP.replace("            rv.pop(name)\n", "")),
     (F, """            if visitor.apply_empty_slots or not isinstance(
                value, (KeyError, AttributeError),
            ):
                mapped = cls.map_prop(rv, value, prop)
""", """            present = visitor.apply_empty_slots or not isinstance(
                value, (KeyError, AttributeError),
            )
            if present:
                mapped = cls.map_prop(rv, value, prop)
            rv.pop(name)
            if present:
""")], None, V, 'ok'),
    ('map-visitor', F, "                mapped = cls.map_prop(rv, value, prop)\n",
     "                mapped = cls.map_prop(visitor, value, prop)\n", V,
     'bad'),
    ('keep-falsy', F, KEEP, KEEP.replace(
        'if mapped is None and rv.ignore_none',
        'if not mapped and rv.ignore_none'), V, 'bad'),
    ('keep-both', F, KEEP, KEEP.replace(
        'elif mapped == "" and rv.ignore_empty_string',
        'elif mapped == "" and rv.ignore_none'), V, 'bad'),
    ('keep-none-always', F, KEEP, KEEP.replace(
        'if mapped is None and rv.ignore_none',
        'if mapped is None'), V, 'bad'),
    ('keep-positive', F, KEEP, """                if not (
                    (mapped is None and rv.ignore_none) or
                    (mapped == "" and rv.ignore_empty_string)
                ):
                    yield prop, mapped
            rv.pop(name)
""", V, 'ok'),
    ('keep-continue', F, KEEP, """                if mapped is None and rv.ignore_none:
                    rv.pop(name)
                    continue
                if mapped == "" and rv.ignore_empty_string:
                    rv.pop(name)
                    continue
                yield prop, mapped
            rv.pop(name)
""", V, 'ok'),
    ('keep-continue-nopop', F, KEEP, """                if mapped is None and rv.ignore_none:
                    continue
                if mapped == "" and rv.ignore_empty_string:
                    rv.pop(name)
                    continue
                yield prop, mapped
            rv.pop(name)
""", V, 'bad'),
    ('keep-helper', F, [(F, KEEP, """                if rv.keeps(mapped):
                    yield prop, mapped
            rv.pop(name)
"""), (F, "    def push(self, what):\n", """    def keeps(self, mapped):
        if mapped is None and self.ignore_none:
            return False
        return not (mapped == "" and self.ignore_empty_string)

    def push(self, what):
""")], None, V, 'ok'),
    ('keep-helper-bad', F, [(F, KEEP, """                if rv.keeps(mapped):
                    yield prop, mapped
            rv.pop(name)
"""), (F, "    def push(self, what):\n", """    def keeps(self, mapped):
        if mapped is None:
            return not self.ignore_none
        return mapped or not self.ignore_empty_string

    def push(self, what):
""")], None, V, 'bad'),
    ('keep-classmethod', F, [(F, KEEP, """                if not cls._ignored(rv, mapped):
                    yield prop, mapped
            rv.pop(name)
"""), (F, COLL, COLL.replace("""            if mapped is None and visitor.ignore_none:
                pass
            elif mapped == "" and visitor.ignore_empty_string:
                pass
            else:
""", """            if not cls._ignored(visitor, mapped):
""")), (F, "    # methods-in-common\n", """    @staticmethod
    def _ignored(visitor, mapped):
        if mapped is None:
            return visitor.ignore_none
        elif mapped == "":
            return visitor.ignore_empty_string
        return False

    # methods-in-common
""")], None, V, 'ok'),
    ('yield-name', F, "                    yield prop, mapped\n",
     "                    yield name, mapped\n", V, 'bad'),
    ('yield-value', F, "                    yield prop, mapped\n",
     "                    yield prop, value\n", V, 'bad'),
    ('stop-none', F, KEEP, KEEP.replace("""rv.ignore_none:
                    pass
""", """rv.ignore_none:
                    return
"""), V, 'bad'),
    ('break-empty', F, KEEP, KEEP.replace("""            rv.pop(name)
""", """            else:
                break
            rv.pop(name)
"""), V, 'bad'),
    # the items
    ('coll-visitor-map', F, COLL, COLL.replace('cls.map(rv', 'cls.map(visitor'), V, 'bad'),
    ('coll-nopush', F, COLL, COLL.replace("            rv.push(key)\n", "").replace("            rv.pop(key)\n", ""), V, 'bad'),
    ('coll-order', F, COLL, """            mapped = cls.map(rv, value, coll_type.itemtype)
            rv.push(key)
            rv.pop(key)
            if mapped is None and visitor.ignore_none:
                pass
            elif mapped == "" and visitor.ignore_empty_string:
                pass
            else:
                yield key, mapped
""", V, 'bad'),
    ('coll-type', F, COLL, COLL.replace('coll_type.itemtype', 'type(value)'), V, 'bad'),
    ('coll-falsy', F, COLL, COLL.replace('mapped == "" and', 'not mapped and'), V, 'bad'),
    ('coll-rv', F, COLL, COLL.replace('visitor.ignore', 'rv.ignore'), V, 'ok'),
    ('coll-helper', F, [(F, COLL, """            mapped = cls.map_item(rv, key, value, coll_type.itemtype)
            if mapped is None and visitor.ignore_none:
                continue
            if mapped == "" and visitor.ignore_empty_string:
                continue
            yield key, mapped
"""), (F, "    # methods-in-common\n", """    @classmethod
    def map_item(cls, visitor, key, value, itemtype):
        visitor.push(key)
        mapped = cls.map(visitor, value, itemtype)
        visitor.pop(key)
        return mapped

    # methods-in-common
""")], None, V, 'ok'),
    ('coll-skip-none', F, COLL, """            if value is None:
                continue
""" + COLL, V, 'bad'),
    ('coll-finally', F, COLL, COLL.replace("""            mapped = cls.map(rv, value, coll_type.itemtype)
            rv.pop(key)
""", """            try:
                mapped = cls.map(rv, value, coll_type.itemtype)
            finally:
                rv.pop(key)
"""), V, 'ok'),
    # dispatch
    ('map-coll-empty', F, MAP, MAP.replace('        if coll:', '        if coll and value:'), V, 'bad'),
    ('map-notnone', F, [(F, MAP, MAP.replace('        if coll:', '        if coll is not None:')),
     (F, MAP2, MAP2.replace('        if props:', '        if props is not None:'))], None, V, 'ok'),
    ('map-props-none', F, MAP2, """        mapped_props = None
        if props:
            mapped_props = cls.map_record(visitor, props, value_type)
        elif not mapped_coll:
            return visitor.apply(value, None, visitor)

        return visitor.reduce(
            mapped_props, mapped_coll, value_type, visitor,
        )
""", V, 'bad'),
    ('map-coll-wins', F, MAP2, MAP2.replace('        if props:', '        if props and mapped_coll is None:'), V, 'bad'),
    ('map-noreduce', F, MAP2, MAP2.replace("""        return visitor.reduce(
""", """        if mapped_props is None:
            return mapped_coll

        return visitor.reduce(
"""), V, 'bad'),
    ('map-stop-falls', F, "            return unpacked.return_value\n",
     "            return unpacked.return_value or value\n", V, 'bad'),
    ('map-apply-type', F, MAP2, MAP2.replace('visitor.apply(value, None, visitor)', 'visitor.apply(value, value_type, visitor)'), V, 'bad'),
    ('map-flat', F, MAP2, """        if not props and mapped_coll is None:
            return visitor.apply(value, None, visitor)
        mapped_props = (
            cls.map_record(visitor, props, value_type) if props else None
        )
        return visitor.reduce(
            mapped_props, mapped_coll, value_type, visitor,
        )
""", V, 'ok'),
    ('map-collect-type', F, MAP, MAP.replace('coll_map_generator, value_type, visitor', 'coll_map_generator, type(value), visitor'), V, 'bad'),
    ('mp-exc', F, "        if isinstance(value, (AttributeError, KeyError)):\n            return visitor.apply(value, prop, visitor)\n", "", V, 'bad'),
    ('mp-exc-one', F, "        if isinstance(value, (AttributeError, KeyError)):\n            return visitor.apply(value, prop, visitor)\n", "        if isinstance(value, AttributeError):\n            return visitor.apply(value, prop, visitor)\n", V, 'bad'),
    ('mp-type', F, "        value_type = prop.valuetype or type(value)\n", "        value_type = type(value)\n", V, 'bad'),
    ('mp-type-only', F, "        value_type = prop.valuetype or type(value)\n", "        value_type = prop.valuetype or object\n", V, 'bad'),
    ('mp-instance', F, MP, MP.replace("        elif issubclass(value_type, Record):\n", "        elif isinstance(value, Record):\n"), V, 'bad'),
    ('mp-none', F, MP, MP.replace("            mapped = visitor.apply(value, prop, visitor)\n", "            mapped = visitor.apply(value, None, visitor)\n"), V, 'bad'),
    ('mp-swap', F, MP, """        if not isinstance(value_type, tuple):
            if issubclass(value_type, Record):
                return cls.map(visitor, value, value_type)
            return visitor.apply(value, prop, visitor)
        return cls.map_type_union(
            visitor, value, value_type, prop,
        )
""", V, 'ok'),
    # unions
    ('uni-any', F, UNI, "                matching_record_types.append(value_type)\n", V, 'bad'),
    ('uni-notype', F, MATCH, MATCH.replace("""                except TypeError:
                    pass
                else:
                    if mapped:
                        break
""", """                except TypeError:
                    break
                else:
                    if mapped:
                        break
"""), V, 'bad'),
    ('uni-noexc', F, NOMATCH, """                mapped = cls.map(visitor, value, value_type)
                if mapped:
                    break
""", V, 'bad'),
    ('uni-first', F, NOMATCH, NOMATCH.replace("""                    if mapped:
                        break
""", """                    break
"""), V, 'bad'),
    ('uni-nofallback', F, """            if not mapped:
                mapped = visitor.apply(value, prop, visitor)

        return mapped
""", """        return mapped
""", V, 'bad'),
    ('uni-comp', F, """        record_types = []
        matching_record_types = []

        for value_type in type_tuple:
            if issubclass(value_type, Record):
                record_types.append(value_type)
""" + UNI, """        record_types = [t for t in type_tuple if issubclass(t, Record)]
        matching_record_types = [
            t for t in record_types if isinstance(value, t)
        ]
""", V, 'ok'),
    ('uni-nonrecords', F, """            if issubclass(value_type, Record):
                record_types.append(value_type)
""", """            record_types.append(value_type)
            if issubclass(value_type, Record):
""", V, 'bad'),
    # the visitor
    ('opt-swap', F, """        self.ignore_empty_string = ignore_empty_string
        self.ignore_none = ignore_none
""", """        self.ignore_empty_string = ignore_none
        self.ignore_none = ignore_none
""", V, 'bad'),
    ('opt-or', F, "        self.extraneous = extraneous\n", "        self.extraneous = extraneous or apply_empty_slots\n", V, 'any'),
    ('vf-noalias', F, VF, VF.replace("""        if visit_filter is None:
            visit_filter = filter
""", ""), V, 'bad'),
    ('vf-falsy', F, VF, VF.replace("if visit_filter is None:", "if not visit_filter:"), V, 'any'),
    ('vf-one', F, VF, VF.replace("MultiFieldSelector(*visit_filter)", "MultiFieldSelector(visit_filter)"), V, 'any'),
    ('vf-flat', F, VF, """        if visit_filter is None:
            visit_filter = filter
        if visit_filter is not None and not isinstance(
            visit_filter, MultiFieldSelector,
        ):
            visit_filter = MultiFieldSelector(*visit_filter)
        self.visit_filter = visit_filter
""", V, 'ok'),
    ('filt-or', F, FILT, FILT.replace('not self.extraneous and', 'not self.extraneous or'), V, 'bad'),
    ('filt-and', F, FILT, FILT.replace(') or (', ') and ('), V, 'bad'),
    ('filt-name', F, FILT, FILT.replace('self.cue + [prop.name]', '[prop.name]'), V, 'bad'),
    ('filt-nonempty', F, FILT, FILT.replace('self.visit_filter and not', 'self.visit_filter and self.cue and not'), V, 'bad'),
    ('filt-if', F, FILT, """        if prop.extraneous and not self.extraneous:
            return True
        if self.visit_filter is None:
            return False
        return not self.visit_filter[self.cue + [prop.name]]
""", V, 'ok'),
    ('filt-if-bad', F, FILT, """        if prop.extraneous:
            return not self.extraneous
        if self.visit_filter is None:
            return False
        return not self.visit_filter[self.cue + [prop.name]]
""", V, 'bad'),
    ('copy-shared', F, COPY, "        doppel.cue = self.cue\n", V, 'bad'),
    ('copy-list', F, COPY, "        doppel.cue = list(self.cue)\n", V, 'ok'),
    ('copy-extend', F, COPY, "        doppel.cue.extend(self.cue)\n", V, 'ok'),
    ('copy-nocue', F, COPY, "", V, 'bad'),
    ('copy-reversed', F, COPY, COPY.replace('self.cue', 'reversed(self.cue)'), V, 'bad'),
    ('copy-slice', F, COPY, COPY.replace('self.cue', 'self.cue[:]'), V, 'ok'),
    ('copy-tail', F, COPY, COPY.replace('self.cue', 'self.cue[1:]'), V, 'bad'),
    ('copy-noignore', F, "            ignore_none=self.ignore_none,\n", "", V, 'bad'),
    ('copy-nofilter', F, "            visit_filter=self.visit_filter,\n", "", V, 'bad'),
    ('copy-filter-alias', F, "            visit_filter=self.visit_filter,\n", "            filter=self.visit_filter,\n", V, 'ok'),
    ('copy-hooks', F, "            self.unpack, self.apply, self.collect, self.reduce,\n            apply_empty",
     "            self.unpack, self.apply, self.reduce, self.collect,\n            apply_empty", V, 'bad'),
    ('copy-kw', F, "            self.unpack, self.apply, self.collect, self.reduce,\n            apply_empty",
     "            unpack_func=self.unpack, apply_func=self.apply,\n            collect_func=self.collect, reduce_func=self.reduce,\n            apply_empty", V, 'ok'),
    ('copy-swap', F, "            extraneous=self.extraneous,\n            ignore_empty_string=self.ignore_empty_string,\n",
     "            extraneous=self.apply_empty_slots,\n            ignore_empty_string=self.ignore_empty_string,\n", V, 'bad'),
    ('pop-zero', F, "        return self.cue.pop()\n", "        return self.cue.pop(0)\n", V, 'bad'),
    ('pop-none', F, "        return self.cue.pop()\n", "        return self.cue[-1]\n", V, 'bad'),
    ('push-front', F, "        self.cue.append(what)\n", "        self.cue.insert(0, what)\n", V, 'any'),
    ('push-truthy', F, "        self.cue.append(what)\n", "        if what:\n            self.cue.append(what)\n", V, 'bad'),
    ('fs-tail', F, "        return FieldSelector(self.cue)\n", "        return FieldSelector(self.cue[1:])\n", V, 'bad'),
    # wiring
    ('visit-collect', F, "            cls.unpack, cls.apply, cls.aggregate, cls.reduce,\n", "            cls.unpack, cls.apply, cls.collect, cls.reduce,\n", V, 'bad'),
    ('cast-aggregate', F, "                cls.grok, cls.reverse, cls.collect, cls.produce,\n", "                cls.grok, cls.reverse, cls.aggregate, cls.produce,\n", V, 'bad'),
    ('cast-apply', F, "                cls.grok, cls.reverse, cls.collect, cls.produce,\n", "                cls.grok, cls.apply, cls.collect, cls.produce,\n", V, 'bad'),
    ('reflect-apply', F, "            cls.scantypes, cls.propinfo, cls.itemtypes,\n", "            cls.scantypes, cls.apply, cls.itemtypes,\n", V, 'bad'),
    ('visit-kw', F, "            cls.unpack, cls.apply, cls.aggregate, cls.reduce,\n", "            unpack_func=cls.unpack, apply_func=cls.apply,\n            collect_func=cls.aggregate, reduce_func=cls.reduce,\n", V, 'ok'),
    ('visit-type', F, "        if not value_type:\n            value_type = type(value)\n", "        value_type = type(value)\n        if True:\n", V, 'bad'),
    ('reflect-value', F, "            value = X\n", "            value = None\n", V, 'bad'),
    ('cast-ignore-visitor', F, "        if visitor is None:\n            visitor = cls.Visitor(", "        if True:\n            visitor = cls.Visitor(", V, 'bad'),
    # rewritten
    ('read-helper', F, [(F, """            try:
                value = get_value(prop)
            except AttributeError as ae:
                value = ae
            except KeyError as ke:
                value = ke
            except Exception as e:
""", """            try:
                value = cls._read(get_value, prop)
            except Exception as e:
"""), (F, "    # methods-in-common\n", """    @staticmethod
    def _read(get_value, prop):
        try:
            return get_value(prop)
        except (AttributeError, KeyError) as e:
            return e

    # methods-in-common
""")], None, V, 'ok'),
    ('read-helper-bad', F, [(F, """            try:
                value = get_value(prop)
            except AttributeError as ae:
                value = ae
            except KeyError as ke:
                value = ke
            except Exception as e:
""", """            try:
                value = cls._read(get_value, prop)
            except Exception as e:
"""), (F, "    # methods-in-common\n", """    @staticmethod
    def _read(get_value, prop):
        try:
            return get_value(prop)
        except AttributeError as e:
            return e

    # methods-in-common
""")], None, V, 'bad'),
    ('slot-helper', F, [(F, """                mapped = cls.map_prop(rv, value, prop)
""" + KEEP, """                mapped = cls.map_prop(rv, value, prop)
                if not rv.ignored(mapped):
                    yield prop, mapped
            rv.pop(name)
"""), (F, COLL, """            rv.push(key)
            mapped = cls.map(rv, value, coll_type.itemtype)
            rv.pop(key)
            if not rv.ignored(mapped):
                yield key, mapped
"""), (F, "    @property\n    def field_selector(self):\n", """    def ignored(self, mapped):
        return (mapped is None and self.ignore_none) or (
            mapped == "" and self.ignore_empty_string
        )

    @property
    def field_selector(self):
""")], None, V, 'ok'),
    ('props-direct', F, MP, """        if isinstance(value_type, tuple):
            return cls.map_type_union(visitor, value, value_type, prop)
        if issubclass(value_type, Record):
            return cls.map(visitor, value, value_type)
        return visitor.apply(value, prop, visitor)
""", V, 'ok'),
    ('props-valuetype-if', F, "        value_type = prop.valuetype or type(value)\n", """        value_type = prop.valuetype
        if value_type is None:
            value_type = type(value)
""", V, 'ok'),
    ('filt-split', F, FILT, """        hidden = not self.extraneous and prop.extraneous
        if hidden:
            return hidden
        if not self.visit_filter:
            return False
        path = self.cue + [prop.name]
        return not self.visit_filter[path]
""", V, 'ok'),
    ('filt-copy', F, FILT, """        if prop.extraneous and not self.extraneous:
            return True
        path = list(self.cue)
        path.append(prop.name)
        return bool(
            self.visit_filter is not None and not self.visit_filter[path]
        )
""", V, 'ok'),
    ('copy-opts', F, """            apply_empty_slots=self.apply_empty_slots,
            extraneous=self.extraneous,
            ignore_empty_string=self.ignore_empty_string,
            ignore_none=self.ignore_none,
            visit_filter=self.visit_filter,
        )
""", """            **self.options()
        )
""", V, 'any'),
    ('copy-opts-dict', F, [(F, """        doppel = type(self)(
""", """        options = dict(
            apply_empty_slots=self.apply_empty_slots,
            extraneous=self.extraneous,
            ignore_empty_string=self.ignore_empty_string,
            ignore_none=self.ignore_none,
            visit_filter=self.visit_filter,
        )
        doppel = type(self)(
"""), (F, """self.reduce,
            apply_empty_slots=self.apply_empty_slots,
            extraneous=self.extraneous,
            ignore_empty_string=self.ignore_empty_string,
            ignore_none=self.ignore_none,
            visit_filter=self.visit_filter,
        )
""", """self.reduce,
            **options
        )
""")], None, V, 'ok'),
    ('union-helper', F, [(F, """            for value_type in matching_record_types:
""" + MATCH, """            mapped = cls.first_mapped(
                visitor, value, matching_record_types,
            )
        else:
"""), (F, """            for value_type in record_types:
""" + NOMATCH, """            mapped = cls.first_mapped(visitor, value, record_types)
"""), (F, "    # methods-in-common\n", """    @classmethod
    def first_mapped(cls, visitor, value, types):
        mapped = None
        for value_type in types:
            try:
                mapped = cls.map(visitor, value, value_type)
            except TypeError:
                continue
            if mapped:
                break
        return mapped

    # methods-in-common
""")], None, V, 'ok'),
    ('union-helper-bad', F, [(F, """            for value_type in matching_record_types:
""" + MATCH, """            mapped = cls.first_mapped(
                visitor, value, matching_record_types,
            )
        else:
"""), (F, """            for value_type in record_types:
""" + NOMATCH, """            mapped = cls.first_mapped(visitor, value, record_types)
"""), (F, "    # methods-in-common\n", """    @classmethod
    def first_mapped(cls, visitor, value, types):
        mapped = None
        try:
            for value_type in types:
                mapped = cls.map(visitor, value, value_type)
                if mapped:
                    break
        except TypeError:
            pass
        return mapped

    # methods-in-common
""")], None, V, 'bad'),
    ('map-stop-split', F, "        if isinstance(unpacked, tuple):\n", """        if unpacked is None:
            unpacked = (None, None)
        if isinstance(unpacked, tuple):
""", V, 'ok'),
    ('map-helper', F, [(F, MAP, """        mapped_coll = cls.gather(visitor, coll, value_type)
"""), (F, "    # methods-in-common\n", """    @classmethod
    def gather(cls, visitor, coll, value_type):
        if not coll:
            return None
        return visitor.collect(
            cls.map_collection(visitor, coll, value_type),
            value_type, visitor,
        )

    # methods-in-common
""")], None, V, 'ok'),
    ('b5 stop-class', 'visitor.py',
     '        if unpacked == cls.StopVisiting or isinstance(\n            unpacked, cls.StopVisiting\n        ):',
     '        if isinstance(unpacked, cls.StopVisiting):',
     V, 'bad'),
    ('b5 mr-valcatch', 'visitor.py',
     '            except Exception as e:\n                rv.pop(name)',
     '            except ValueError as e:\n                rv.pop(name)',
     V, 'bad'),
    ('b5 mtu-reverse', 'visitor.py',
     '            for value_type in record_types:\n                try',
     '            for value_type in reversed(record_types):\n                try',
     V, 'bad'),
    ('b5 mtu-applynone', 'visitor.py',
     '            if not mapped:\n                mapped = visitor.apply',
     '            if mapped is None:\n                mapped = visitor.apply',
     V, 'bad'),
    ('b5 copy-type', 'visitor.py',
     '        doppel = type(self)(',
     '        doppel = Visitor(',
     V, 'bad'),
]
