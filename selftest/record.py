R = 'record/__init__.py'
M = 'record/meta.py'
ID = 'identity.py'
CO = 'coll.py'
EQ = """        if type(self) != type(other):
            return False
        for propname, prop in type(self).properties.items():
            if not prop.extraneous:
                if getattr(self, propname, _Unset) != getattr(
                    other, propname, _Unset
                ):
                    return False
        return True
"""
MISS = """        missing = type(self).eager_properties - set(init_dict.keys())

        for propname in missing:
            meta_prop = type(self).properties[propname]
            meta_prop.init_prop(self)
"""
LOOP = """        for prop, val in init_dict.items():
            meta_prop = type(self).properties.get(prop, None)
            if meta_prop is None:
                raise exc.PropertyNotKnown(
                    propname=prop,
                    recordtype=type(self),
                    typename=type(self).__name__,
                )
            meta_prop.init_prop(self, val)
"""
INH = """                for propname, prop in base.properties.items():
                    if propname in properties:
                        raise exc.MultipleInheritanceClash(
                            prop=prop,
                            typename=name,
                        )
                    else:
                        properties[propname] = prop
"""
ALL = ['C06', 'C07', 'C08', 'C09']
MUTS = [
 ('eq-subclass', R, "        if type(self) != type(other):\n            return False\n", "        if not isinstance(other, type(self)):\n            return False\n", ['C06'], 'bad'),
 ('eq-none', R, [(R, "getattr(self, propname, _Unset)", "getattr(self, propname, None)"), (R, "other, propname, _Unset", "other, propname, None")], None, ['C06'], 'bad'),
 ('eq-dict', R, EQ, EQ.replace("getattr(self, propname, _Unset)", "self.__dict__.get(propname, _Unset)").replace("getattr(\n                    other, propname, _Unset\n                )", "other.__dict__.get(propname, _Unset)"), ['C06'], 'bad'),
 ('eq-lazy-skip', R, "            if not prop.extraneous:\n", "            if not prop.extraneous and not prop.slot_is_empty(self):\n", ['C06'], 'bad'),
 ('eq-pk', R, "        for propname, prop in type(self).properties.items():\n            if not prop.extraneous:", "        if type(self).primary_key:\n            return self.__pk__ == other.__pk__\n        for propname, prop in type(self).properties.items():\n            if not prop.extraneous:", ['C06'], 'bad'),
 ('eq-ext', R, "            if not prop.extraneous:\n", "            if True:\n", ['C06'], 'bad'),
 ('eq-ne', R, "        return not self.__eq__(other)", "        return self.__dict__ != other.__dict__", ['C06'], 'bad'),
 ('ceq-values', CO, "            self._values == getattr(other, \"_values\", None)", "            len(self) == len(other)", ['C06'], 'bad'),
 ('ceq-type', CO, "        return self.itemtype == getattr(other, \"itemtype\", None) and \\\n            self._values", "        return self._values", ['C06'], 'bad'),
 ('rid-empty', ID, "        else:\n            key_vals.append(val)\n", "        elif val is not None:\n            key_vals.append(val)\n", ['C06'], 'bad'),
 ('rid-ext', M, "sorted(\n            list(x for x in list(properties.values()) if not x.extraneous),", "sorted(\n            list(x for x in list(properties.values())),", ['C06', 'C09'], 'bad'),
 ('rid-dict', ID, "            val = getattr", "            val = getattr", ['C06'], 'ok') if 0 else
 ('rid-name', ID, "        val = getattr(object_, prop.name, None)", "        val = getattr(object_, prop.name, None) or None", ['C06'], 'bad'),
 ('ref-eq-all', R, EQ, """        return type(self) == type(other) and all(
            getattr(self, n, _Unset) == getattr(other, n, _Unset)
            for n, p in type(self).properties.items() if not p.extraneous
        )
""", ALL, 'ok'),
 ('ref-eq-sorted', R, EQ, """        if type(self) is not type(other):
            return False
        for prop in type(self)._sorted_properties:
            mine = getattr(self, prop.name, _Unset)
            theirs = getattr(other, prop.name, _Unset)
            if mine != theirs:
                return False
        return True
""", ALL, 'ok'),
 ('ref-eq-self', R, EQ, "        if self is other:\n            return True\n" + EQ, ALL, 'ok'),
 ('ref-eq-helper', R, EQ, """        if type(self) != type(other):
            return False
        return self._same_slots(other)

    def _same_slots(self, other):
        for propname in type(self).properties:
            prop = type(self).properties[propname]
            if prop.extraneous:
                continue
            if getattr(self, propname, _Unset) == getattr(other, propname, _Unset):
                continue
            return False
        return True
""", ALL, 'ok'),
 ('ref-ne', R, "        return not self.__eq__(other)", "        return not (self == other)", ALL, 'ok'),
 ('ref-rid', ID, "        if val is not _none and prop.valuetype:", "        use = val is not _none and bool(prop.valuetype)\n        if use:", ALL, 'ok'),
 ('ref-rid-helper', ID, "    return tuple(key_vals)\n", "    rv = tuple(key_vals)\n    return rv\n", ALL, 'ok'),
 ('state-partial', R, "        return self.__dict__\n", "        return dict((k, v) for k, v in self.__dict__.items() if v is not None)\n", ['C07'], 'bad'),
 ('state-props', R, "        return self.__dict__\n", "        return dict((k, self.__dict__[k]) for k in type(self).properties if k in self.__dict__)\n", ['C07'], 'bad'),
 ('setstate-none', R, "        self.__dict__.update(instance_dict)", "        for k, v in instance_dict.items():\n            setattr(self, k, v)", ['C07'], 'bad'),
 ('reduce-lose', CO, "(_GenericPickler(generic_key), (self._values,), state)", "(_GenericPickler(generic_key), (self._values,))", ['C07'], 'bad'),
 ('reduce-sub', CO, "        if GENERIC_TYPES.get(generic_key) is not type(self):", "        if generic_key not in GENERIC_TYPES:", ['C07'], 'bad'),
 ('ref-state', R, "        return self.__dict__\n", "        return dict(self.__dict__)\n", ALL, 'ok'),
 ('ref-setstate', R, "        self.__dict__.update(instance_dict)", "        for k, v in instance_dict.items():\n            self.__dict__[k] = v", ALL, 'ok'),
 ('ref-setstate2', R, "        self.__dict__.update(instance_dict)", "        vars(self).update(instance_dict)", ALL, 'ok'),
 ('ref-reduce', CO, "            (k, v) for k, v in self.__getstate__().items() if k != \"_values\"", "            item for item in self.__getstate__().items() if item[0] != '_values'", ALL, 'ok'),
 ('ctor-none-skip', R, "            meta_prop.init_prop(self, val)\n", "            if val is not None:\n                meta_prop.init_prop(self, val)\n", ['C08'], 'bad'),
 ('ctor-unknown-none', R, "            if meta_prop is None:\n", "            if meta_prop is None and val is None:\n                continue\n            if meta_prop is None:\n", ['C08'], 'bad'),
 ('ctor-setattr', R, "            meta_prop.init_prop(self, val)\n", "            setattr(self, prop, val)\n", ['C08'], 'bad'),
 ('ctor-ambiguous', R, "        if init_dict and kwargs:\n            raise exc.AmbiguousConstruction()\n", "        if init_dict and kwargs:\n            init_dict = dict(init_dict, **kwargs)\n", ['C08'], 'bad'),
 ('ctor-early', R, MISS, "        if not init_dict:\n            return\n" + MISS, ['C08'], 'bad'),
 ('ctor-wrongset', R, "eager_properties - set(init_dict.keys())", "eager_properties - set(type(self).properties)", ['C08'], 'bad'),
 ('ctor-nomiss', R, MISS, "", ['C08'], 'bad'),
 ('ctor-coll', CO, "        super(Collection, self).__init__(**kwargs)\n", "        if kwargs:\n            super(Collection, self).__init__(**kwargs)\n", ['C08'], 'bad'),
 ('ref-miss', R, MISS, """        for propname in type(self).eager_properties:
            if propname not in init_dict:
                type(self).properties[propname].init_prop(self)
""", ALL, 'ok'),
 ('ref-miss2', R, MISS, """        for propname in type(self).eager_properties.difference(init_dict):
            type(self).properties[propname].init_prop(self)
""", ALL, 'ok'),
 ('ref-loop', R, LOOP, """        properties = type(self).properties
        for name in init_dict:
            if name not in properties:
                raise exc.PropertyNotKnown(
                    propname=name,
                    recordtype=type(self),
                    typename=type(self).__name__,
                )
            properties[name].init_prop(self, init_dict[name])
""", ALL, 'ok'),
 ('ref-loop-try', R, LOOP, """        for prop, val in init_dict.items():
            try:
                meta_prop = type(self).properties[prop]
            except KeyError:
                raise exc.PropertyNotKnown(
                    propname=prop,
                    recordtype=type(self),
                    typename=type(self).__name__,
                )
            meta_prop.init_prop(self, val)
""", ALL, 'ok'),
 ('ref-order', R, "        if init_dict and kwargs:\n            raise exc.AmbiguousConstruction()\n        if not init_dict:\n            init_dict = kwargs\n", "        if init_dict:\n            if kwargs:\n                raise exc.AmbiguousConstruction()\n            given = init_dict\n        else:\n            given = kwargs\n        init_dict = given\n", ALL, 'ok'),
 ('meta-clash', M, INH, "                properties.update(base.properties)\n", ['C09'], 'bad'),
 ('meta-clash2', M, "                    if propname in properties:\n", "                    if propname in properties and prop.required:\n", ['C09'], 'bad'),
 ('meta-bound', M, "                properties[attrname] = attrval\n                if not attrval.bound:\n", "                if not attrval.bound:\n                    properties[attrname] = attrval\n", ['C09'], 'bad'),
 ('meta-reserved', M, "frozenset(('properties', 'eager_properties'))", "frozenset(('properties',))", ['C09'], 'bad'),
 ('meta-eager-bases', M, """            k for k, v in properties.items() if v.eager_init()
        )""", """            k for k, v in properties.items() if v.eager_init()
        ) | frozenset(k for b in bases for k in getattr(
            b, 'eager_properties', ()))""", ['C09'], 'bad'),
 ('meta-eager-bases2', M, """            k for k, v in properties.items() if v.eager_init()
        )""", """            k for k, v in properties.items() if v.eager_init()
        ).union(*(getattr(b, 'eager_properties', ()) for b in bases))""", ['C09'], 'bad'),
 ('meta-eager', M, "k for k, v in properties.items() if v.eager_init()", "k for k, v in local_props.items() if v.eager_init()", ['C09'], 'bad'),
 ('meta-eager-req', M, "if v.eager_init()", "if v.required", ['C09'], 'bad'),
 ('meta-pk', M, "                    if not isinstance(prop, Property) or (\n                        prop not in all_properties\n                    ):", "                    if not isinstance(prop, Property):", ['C09'], 'bad'),
 ('meta-pk-skip', M, "                    good_props.append(prop)\n", "                    if not prop.extraneous:\n                        good_props.append(prop)\n", ['C09'], 'bad'),
 ('meta-bind', M, "        for propname, prop in local_props.items():\n            prop.bind(self)\n", "        for propname, prop in local_props.items():\n            if prop.name in self.properties and prop.required:\n                prop.bind(self)\n", ['C09'], 'bad'),
 ('ref-inh', M, INH, """                for propname in base.properties:
                    prop = base.properties[propname]
                    if propname not in properties:
                        properties[propname] = prop
                        continue
                    raise exc.MultipleInheritanceClash(
                        prop=prop,
                        typename=name,
                    )
""", ALL, 'ok'),
 ('ref-reserved', M, "            if attrname in frozenset(('properties', 'eager_properties')):", "            if attrname == 'properties' or attrname == 'eager_properties':", ALL, 'ok'),
 ('ref-eager', M, "frozenset(\n            k for k, v in properties.items() if v.eager_init()\n        )", "frozenset(\n            [v.name for v in properties.values() if v.eager_init()]\n        )", ALL, 'ok'),
 ('ref-sorted', M, "list(x for x in list(properties.values()) if not x.extraneous)", "[p for p in properties.values() if not p.extraneous]", ALL, 'ok'),
 ('ref-bind', M, "        for propname, prop in local_props.items():\n            prop.bind(self)\n", "        for prop in local_props.values():\n            prop.bind(self)\n", ALL, 'ok'),
]
