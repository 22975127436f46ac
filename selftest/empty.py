E = 'empty.py'
P = 'property/__init__.py'
M = 'record/meta.py'
V = ['C28']
MUTS = [
    # one object per set of types
    ('not-kept', E, """    if typetuple not in EMPTY_VALS:
        EMPTY_VALS[typetuple] = EmptyVal(typetuple)
    return EMPTY_VALS[typetuple]
""", """    if typetuple not in EMPTY_VALS:
        return EmptyVal(typetuple)
    return EMPTY_VALS[typetuple]
""", V, 'bad'),
    ('always-new', E, """    if typetuple not in EMPTY_VALS:
        EMPTY_VALS[typetuple] = EmptyVal(typetuple)
""", """    EMPTY_VALS[typetuple] = EmptyVal(typetuple)
""", V, 'bad'),
    ('try-key', E, """    if typetuple not in EMPTY_VALS:
        EMPTY_VALS[typetuple] = EmptyVal(typetuple)
    return EMPTY_VALS[typetuple]
""", """    try:
        return EMPTY_VALS[typetuple]
    except KeyError:
        EMPTY_VALS[typetuple] = EmptyVal(typetuple)
    return EMPTY_VALS[typetuple]
""", V, 'ok'),
    ('made-first', E, """    if typetuple not in EMPTY_VALS:
        EMPTY_VALS[typetuple] = EmptyVal(typetuple)
    return EMPTY_VALS[typetuple]
""", """    if typetuple in EMPTY_VALS:
        return EMPTY_VALS[typetuple]
    val = EmptyVal(typetuple)
    EMPTY_VALS[typetuple] = val
    return val
""", V, 'ok'),
    ('any-not-first', E, """    if any in typetuple:
        typetuple = any
""", """    if typetuple[0] is any:
        typetuple = any
""", V, 'any'),
    ('any-only', E, """    if any in typetuple:
        typetuple = any
""", """    if typetuple == (any,):
        typetuple = any
""", V, 'bad'),
    ('no-any', E, """    if any in typetuple:
        typetuple = any
""", "", V, 'bad'),
    ('not-tupled', E, "type_ if isinstance(type_, tuple) else (type_,)",
     "type_", V, 'bad'),
    ('if-tuple', E, "    typetuple = type_ if isinstance(type_, tuple) else (type_,)\n",
     "    typetuple = type_\n    if not isinstance(typetuple, tuple):\n"
     "        typetuple = (typetuple,)\n", V, 'ok'),
    ('key-type', E, "        EMPTY_VALS[typetuple] = EmptyVal(typetuple)",
     "        EMPTY_VALS[typetuple] = EmptyVal(type_)", V, 'bad'),
    # every type
    ('first-of-tuple', E, """            for type_ in entry:
                if type_ not in seen:
                    seen.add(type_)
                    yield type_
""", """            for type_ in entry:
                if type_ not in seen:
                    seen.add(type_)
                    yield type_
                    break
""", V, 'bad'),
    ('no-seen-break', E, """                if type_ not in seen:
                    seen.add(type_)
                    yield type_
        else""", """                if type_ in seen:
                    break
                seen.add(type_)
                yield type_
        else""", V, 'bad'),
    ('seen-continue', E, """                if type_ not in seen:
                    seen.add(type_)
                    yield type_
        else""", """                if type_ in seen:
                    continue
                seen.add(type_)
                yield type_
        else""", V, 'ok'),
    ('tuples-only', E, """        else:
            if entry not in seen:
                seen.add(entry)
                yield entry
""", "", V, 'bad'),
    ('tuple-whole', E, """            for type_ in entry:
                if type_ not in seen:
                    seen.add(type_)
                    yield type_
        else:
            if""", """            yield entry
        else:
            if""", V, 'bad'),
    # attributes
    ('any-attr', E, """        if self._typetuple is any:
            return self
        if attr_name not in""", """        if attr_name not in""", V, 'bad'),
    ('first-type', E, """                else:
                    attrs_found.append(prop)

""", """                else:
                    attrs_found.append(prop)
                    break

""", V, 'bad'),
    ('no-dynamic', E, """                    if _supplies(type_, '__getattr__'):
                        attrs_found.append(None)
""", """                    pass
""", V, 'bad'),
    ('own-dynamic', E, "_supplies(type_, '__getattr__')",
     "'__getattr__' in type_.__dict__", V, 'bad'),
    ('own-item', E, "_supplies(type_, '__getitem__')",
     "'__getitem__' in type_.__dict__", V, 'bad'),
    ('own-call', E, "_supplies(type_, \"__call__\")",
     "'__call__' in vars(type_)", V, 'bad'),
    ('hasattr-getattr', E, "_supplies(type_, '__getattr__')",
     "hasattr(type_, '__getattr__')", V, 'ok'),
    ('all-types', E, "            if not attrs_found:\n",
     "            if len(attrs_found) < len(self._typetuple):\n", V, 'any'),
    ('none-type', E, """getattr(attr, "valuetype", False) or any for""",
     """getattr(attr, "valuetype", any) for""", V, 'bad'),
    ('type-lost', E, """getattr(attr, "valuetype", False) or any for""",
     """any for""", V, 'bad'),
    ('no-cache', E, """                self._attrs[attr_name] = placeholder(
                    tuple(
                        itertypes(
                            getattr(attr, "valuetype", False) or any for
                            attr in attrs_found
                        )
                    )
                )
        return self._attrs[attr_name]
""", """                return placeholder(
                    tuple(
                        itertypes(
                            getattr(attr, "valuetype", False) or any for
                            attr in attrs_found
                        )
                    )
                )
        return self._attrs[attr_name]
""", V, 'ok'),
    ('returns-self', E, "        return self._attrs[attr_name]\n",
     "        return self\n", V, 'bad'),
    ('early', E, "            elif attrs_found:\n                self._attrs",
     "            else:\n                self._attrs", V, 'ok'),
    ('which-exc', E, "\"NoSuchAttribute\",", "\"BadAssignment\",", V, 'bad'),
    ('loop-types', E, """                self._attrs[attr_name] = placeholder(
                    tuple(
                        itertypes(
                            getattr(attr, "valuetype", False) or any for
                            attr in attrs_found
                        )
                    )
                )
""", """                found = []
                for attr in attrs_found:
                    vt = getattr(attr, "valuetype", None)
                    found.append(vt if vt else any)
                self._attrs[attr_name] = placeholder(
                    tuple(itertypes(found))
                )
""", V, 'ok'),
    # members
    ('any-item', E, """        if self._typetuple is any:
            return self
        if isinstance(item, slice)""", """        if isinstance(item, slice)""",
     V, 'bad'),
    ('slice-typed', E, """        if isinstance(item, slice):
            return self
        elif self""", """        if self""", V, 'any'),
    ('int-only', E, "        if isinstance(item, slice):",
     "        if not isinstance(item, int):", V, 'bad'),
    ('no-coll', E, """                if is_coll:
                    coll_types.append(type_.itemtype)
                elif""", """                if""", V, 'bad'),
    ('coll-any', E, "coll_types.append(type_.itemtype)",
     "coll_types.append(any)", V, 'bad'),
    ('coll-self', E, "coll_types.append(type_.itemtype)",
     "coll_types.append(type_)", V, 'bad'),
    ('no-error-item', E, """            if not coll_types:
                raise self._exc("NotSubscriptable")
            elif coll_types:""", """            if coll_types:""", V, 'bad'),
    ('coll-only', E, """                elif _supplies(type_, '__getitem__'):
                    coll_types.append(any)
""", "", V, 'bad'),
    ('listcomp', E, """            coll_types = []
            for type_ in self._typetuple:
                is_coll = issubclass(type_, normalize.coll.Collection)
                if is_coll:
                    coll_types.append(type_.itemtype)
                elif _supplies(type_, '__getitem__'):
                    coll_types.append(any)
""", """            coll_types = [
                type_.itemtype if issubclass(
                    type_, normalize.coll.Collection
                ) else any for type_ in self._typetuple if issubclass(
                    type_, normalize.coll.Collection
                ) or _supplies(type_, '__getitem__')
            ]
""", V, 'ok'),
    # calls
    ('any-call', E, """        if self._typetuple is any:
            return self
        for type_""", """        for type_""", V, 'bad'),
    ('call-self', E, "                return placeholder(any)\n",
     "                return self\n", V, 'bad'),
    ('call-first', E, """                return placeholder(any)
        raise""", """                return placeholder(any)
            break
        raise""", V, 'bad'),
    ('call-all', E, """        for type_ in self._typetuple:
            if _supplies(type_, "__call__"):
                return placeholder(any)
        raise self._exc('NotCallable')
""", """        if not all(_supplies(t, "__call__") for t in self._typetuple):
            raise self._exc('NotCallable')
        return placeholder(any)
""", V, 'any'),
    ('call-any', E, """        for type_ in self._typetuple:
            if _supplies(type_, "__call__"):
                return placeholder(any)
        raise self._exc('NotCallable')
""", """        if not any(_supplies(t, "__call__") for t in self._typetuple):
            raise self._exc('NotCallable')
        return placeholder(any)
""", V, 'ok'),
    # assignment
    ('assignable', E, """        else:
            raise self._exc("BadAssignment")

    def __setitem__""", """        elif self._typetuple is not any:
            raise self._exc("BadAssignment")

    def __setitem__""", V, 'bad'),
    ('item-any', E, """    def __setitem__(self, item, value):
        raise""", """    def __setitem__(self, item, value):
        if self._typetuple is any:
            return
        raise""", V, 'bad'),
    ('own-missing', E, 'in ("_typetuple", "_attrs", "_member_type")',
     'in ("_typetuple", "_attrs")', V, 'bad'),
    ('own-more', E, 'in ("_typetuple", "_attrs", "_member_type")',
     'in ("_typetuple", "_attrs", "_member_type", "name")', V, 'bad'),
    ('own-prefix', E, 'in ("_typetuple", "_attrs", "_member_type")',
     '.startswith("_")', V, 'any'),
    # false
    ('true', E, "        return False\n", "        return True\n", V, 'bad'),
    ('any-true', E, "        return False\n",
     "        return self._typetuple is any\n", V, 'any'),
    ('no-bool', E, """    def __bool__(self):
        return False
""", """    def __len__(self):
        return 0
""", V, 'any'),
    # the accessor
    ('aux-swallows', P, """            return self.prop.__get__(obj)
        except AttributeError:""", """            return self.prop.__get__(obj)
        except Exception:""", V, 'bad'),
    ('aux-keyerror', P, """            return self.prop.__get__(obj)
        except AttributeError:""", """            return self.prop.__get__(obj)
        except KeyError:""", V, 'bad'),
    ('aux-any', P, "return empty.placeholder(self.valuetype)",
     "return empty.placeholder(any)", V, 'bad'),
    ('aux-false', P, """        try:
            return self.prop.__get__(obj)
        except AttributeError:
            return empty""", """        try:
            value = self.prop.__get__(obj)
            if value:
                return value
            return empty.placeholder(self.valuetype)
        except AttributeError:
            return empty""", V, 'bad'),
    ('aux-else', P, """        try:
            return self.prop.__get__(obj)
        except AttributeError:
            return empty.placeholder(self.valuetype)
""", """        try:
            value = self.prop.__get__(obj)
        except AttributeError:
            value = empty.placeholder(self.valuetype)
        return value
""", V, 'ok'),
    ('vt-none', P, "self.valuetype = prop.valuetype or any",
     "self.valuetype = prop.valuetype", V, 'bad'),
    ('vt-any', P, "self.valuetype = prop.valuetype or any",
     "self.valuetype = any", V, 'bad'),
    ('vt-ifexp', P, "self.valuetype = prop.valuetype or any",
     "self.valuetype = prop.valuetype if prop.valuetype else any", V, 'ok'),
    ('offered-off', P, "        if self.empty_attr is not None:\n",
     "        if self.empty_attr is None:\n", V, 'bad'),
    ('never-offered', P, """        if self.empty_attr is not None:
            return ((self.empty_attr, EmptyAuxProp(self)), )
        else:
            return ()""", """        return ()""", V, 'bad'),
    ('offered-name', P, "((self.empty_attr, EmptyAuxProp(self)), )",
     "((self.name, EmptyAuxProp(self)), )", V, 'bad'),
    ('offered-list', P, """            return ((self.empty_attr, EmptyAuxProp(self)), )
        else:
            return ()""", """            return [(self.empty_attr, EmptyAuxProp(self))]
        return []""", V, 'ok'),
    ('digit', P, "if name[-1] not in \"0123456789\" else None",
     "if name[0] not in \"0123456789\" else None", V, 'bad'),
    ('digit-neg', P, "if name[-1] not in \"0123456789\" else None",
     "if name[-1] in \"0123456789\" else None", V, 'bad'),
    ('digit-nine', P, "if name[-1] not in \"0123456789\" else None",
     "if name[-1] not in \"012345678\" else None", V, 'bad'),
    ('isdigit', P, "if name[-1] not in \"0123456789\" else None",
     "if not name[-1].isdigit() else None", V, 'any'),
    ('given-lost', P, """        if self.empty_attr is _none:
            self.empty_attr = (
                (name + "0") if name[-1] not in "0123456789" else None
            )
""", """        self.empty_attr = (
            (name + "0") if name[-1] not in "0123456789" else None
        )
""", V, 'bad'),
    ('other-suffix', P, '(name + "0")', '(name + "_0")', V, 'bad'),
    ('named-once', P, """    def set_name(self, name):
        self.name = name
""", """    def set_name(self, name):
        if self.name is None:
            self.name = name
""", V, 'bad'),
    # what is declared stays
    ('replaced', M, """            if aux_name not in properties:
                attrs.setdefault(aux_name, aux_prop)
""", """            attrs[aux_name] = aux_prop
""", V, 'bad'),
    ('replaced-cond', M, """            if aux_name not in properties:
                attrs.setdefault(aux_name, aux_prop)
""", """            if aux_name not in properties:
                attrs[aux_name] = aux_prop
""", V, 'bad'),
    ('not-in', M, """            if aux_name not in properties:
                attrs.setdefault(aux_name, aux_prop)
""", """            if aux_name not in attrs and aux_name not in properties:
                attrs[aux_name] = aux_prop
""", V, 'ok'),
    ('inherited-prop', M, """            if aux_name not in properties:
                attrs.setdefault(aux_name, aux_prop)
""", """            attrs.setdefault(aux_name, aux_prop)
""", V, 'bad'),
    # empty slots
    ('empty-neg', P, "        return self.name not in obj.__dict__\n",
     "        return self.name in obj.__dict__\n", V, 'bad'),
    ('empty-value', P, "        return self.name not in obj.__dict__\n",
     "        return not obj.__dict__.get(self.name)\n", V, 'bad'),
    ('v1-empty', P, """        if self.v1_upgraded:
            return False
        return super(V1Property, self).slot_is_empty(obj)
""", """        return super(V1Property, self).slot_is_empty(obj)
""", V, 'bad'),
    ('v1-true', P, """        if self.v1_upgraded:
            return False
        return super(V1""", """        if self.v1_upgraded:
            return True
        return super(V1""", V, 'bad'),
    ('told e-typelist', 'empty.py',
     '"any" if self._typetuple is any else ",".join(',
     '"any" if not self._typetuple else ",".join(',
     ['C28'], 'bad'),
    ('told e-typelist-eq-ok', 'empty.py',
     '"any" if self._typetuple is any else ",".join(',
     '"any" if self._typetuple == any else ",".join(',
     ['C28'], 'ok'),
]
