P = 'property/__init__.py'
C = 'property/coll.py'
J = 'property/json.py'
K = ['C32']
MUTS = [
    ('required-lost', P, "        self.required = required\n",
     "        self.required = False\n", K, 'bad'),
    ('required-default', P, "required=False, default=_none",
     "required=None, default=_none", K, 'ok'),
    ('required-on', P, "required=False, default=_none",
     "required=True, default=_none", K, 'bad'),
    ('required-bool', P, "        self.required = required\n",
     "        self.required = bool(required)\n", K, 'ok'),
    ('check-late', P, """        self.check = check
        self.valuetype = isa""", """        self.valuetype = isa
        if isa or check:
            self.check = check
        else:
            self.check = None""", K, 'ok'),
    ('check-typed', P, """        self.check = check
        self.valuetype = isa""", """        self.valuetype = isa
        self.check = check if isa else None""", K, 'bad'),
    ('coerce-isa-first', P, "self.coerce = coerce or isa",
     "self.coerce = isa or coerce", K, 'bad'),
    ('coerce-if', P, "        self.coerce = coerce or isa\n",
     """        if coerce:
            self.coerce = coerce
        else:
            self.coerce = isa
""", K, 'ok'),
    ('coerce-lost', P, "self.coerce = coerce or isa",
     "self.coerce = coerce", K, 'bad'),
    ('coerce-none', P, "        if self.coerce and not self.valuetype:\n",
     "        if coerce and self.check and not self.valuetype:\n", K, 'bad'),
    ('coerce-none-same', P,
     "        if self.coerce and not self.valuetype:\n",
     "        if coerce and not isa:\n", K, 'ok'),
    ('extraneous-doc', P, "        self.extraneous = extraneous\n",
     "        self.extraneous = extraneous or doc is not None\n", K, 'bad'),
    ('empty-attr', P, "        self.empty_attr = empty_attr\n",
     "        self.empty_attr = empty_attr or None\n", K, 'any'),
    ('empty-attr-unset', P, "        self.empty_attr = empty_attr\n",
     "        self.empty_attr = _none if required else empty_attr\n", K,
     'bad'),
    ('default-falsy', P, "        self.default = default\n",
     "        self.default = default or _none\n", K, 'bad'),
    ('default-method', P, "            self.default_is_method = is_method\n",
     "            self.default_is_method = is_method or nargs == 0\n", K,
     'bad'),
    ('default-method-unset', P,
     "            self.default_is_method = is_method\n",
     "            if is_method:\n"
     "                self.default_is_method = is_method\n", K, 'any'),
    ('default-two', P, "if not is_method and nargs == 1 and \\",
     "if not is_method and nargs <= 2 and \\", K, 'bad'),
    ('default-method-args', P, "if not is_method and nargs == 1 and \\",
     "if nargs == 1 and \\", K, 'bad'),
    ('default-strict', P, "if not is_method and nargs == 1 and \\",
     "if not is_method and nargs == 5 and \\", K, 'bad'),
    ('default-helper', P, [("""        self.required = required
        self.check""", """        self._options(required, check)
        self.check"""), ("    def func_info(", """    def _options(self, required, check):
        self.required = required

    def func_info("""), ], None, K, 'ok'),
    ('info-any-arg', P, "            arg.name for arg in args.values() if "
     "arg.default is arg.empty and\n",
     "            arg.name for arg in args.values() if\n", K, 'any'),
    ('info-kwonly', P,
     "arg.kind in (arg.POSITIONAL_ONLY, arg.POSITIONAL_OR_KEYWORD)",
     "arg.kind != arg.VAR_KEYWORD", K, 'any'),
    ('info-self', P, 'is_method = required[:1] == ["self"]',
     'is_method = "self" in required', K, 'any'),
    ('lazy-false', P, "        if not lazy:\n            raise exc.LazyIsFa",
     "        if lazy is None:\n            raise exc.LazyIsFa", K, 'bad'),
    ('lazy-kwargs', P, "        super(LazyProperty, self).__init__(**kwargs)",
     "        kwargs.pop('check', None)\n"
     "        super(LazyProperty, self).__init__(**kwargs)", K, 'bad'),
    ('v1-default-kept', P, "            del kwargs['default']\n", "", K,
     'bad'),
    ('v1-pop', P, """            v1_none = kwargs['default']
            del kwargs['default']
""", "            v1_none = kwargs.pop('default')\n", K, 'ok'),
    ('v1-always', P, "        if v1_none is _none and 'default' in kwargs",
     "        if 'default' in kwargs", K, 'bad'),
    ('v1-none-lost', P, "None if v1_none is _none else v1_none",
     "v1_none if self.v1_upgraded else None", K, 'bad'),
    ('v1-empty', P, "if self.empty_attr is _none and not self.v1_upgraded:",
     "if self.empty_attr is _none:", K, 'bad'),
    ('v1-empty-always', P,
     "if self.empty_attr is _none and not self.v1_upgraded:",
     "if not self.v1_upgraded:", K, 'bad'),
    ('v1-mutable', P, "        if not v1_none.__hash__:\n"
     "            raise exc.NoneMutable(passed=v1_none)\n", "", K, 'bad'),
    ('diffas-many', P, "        if nargs > 1:\n            raise exc.Comp",
     "        if nargs > 2:\n            raise exc.Comp", K, 'bad'),
    ('diffas-many-same', P, "        if nargs > 1:\n            raise exc.Comp",
     "        if not nargs <= 1:\n            raise exc.Comp", K, 'ok'),
    ('diffas-many-2', P, "        if nargs > 1:\n            raise exc.Comp",
     "        if nargs >= 2:\n            raise exc.Comp", K, 'ok'),
    ('diffas-none', P, "        if nargs > 1:\n            raise exc.Comp",
     "        if nargs != 1:\n            raise exc.Comp", K, 'bad'),
    ('diffas-swap', P, "self.compare_as_info = is_method, nargs",
     "self.compare_as_info = nargs, is_method", K, 'bad'),
    ('diffas-isclass', P, "isinstance(compare_as, type)",
     "inspect.isclass(compare_as)", K, 'ok'),
    ('diffas-no-type', P, "if isinstance(compare_as, type) or inspect",
     "if inspect", K, 'bad'),
    ('default-function', P, '''inspect.isroutine(default) and \\
                        not inspect.ismethod(default):''',
     "inspect.isfunction(default):", K, 'ok'),
    ('default-type', P, '''inspect.isroutine(default) and \\
                        not inspect.ismethod(default):''',
     "not inspect.ismethod(default):", K, 'bad'),
    ('info-no-catch', P, "        except ValueError:\n",
     "        except TypeError:\n", K, 'bad'),
    ('info-catch-all', P, "        except ValueError:\n",
     "        except Exception:\n", K, 'ok'),
    ('diffas-order', P, """        super(DiffasProperty, self).__init__(**kwargs)
        self.compare_as = compare_as
""", """        self.compare_as = compare_as
        super(DiffasProperty, self).__init__(**kwargs)
""", K, 'ok'),
    ('name-digit', P, 'name[-1] not in "0123456789"',
     'name[-1] not in "123456789"', K, 'bad'),
    ('name-digit-flip', P, 'name[-1] not in "0123456789"',
     'name[-1] in "0123456789"', K, 'bad'),
    ('name-digit-if', P, """            self.empty_attr = (
                (name + "0") if name[-1] not in "0123456789" else None
            )""", """            self.empty_attr = None
            if name[-1] not in "9876543210":
                self.empty_attr = name + "0\"""", K, 'ok'),
    ('name-always', P, "        if self.empty_attr is _none:\n"
     "            self.empty_attr = (\n",
     "        if self.empty_attr is not None:\n"
     "            self.empty_attr = (\n", K, 'bad'),
    ('name-suffix', P, '(name + "0")', '(name + "1")', K, 'bad'),
    ('bind-lost', P, "self.class_ = weakref.ref(class_)",
     "self.class_ = self.class_ or weakref.ref(class_)", K, 'any'),
    ('made-replaces', P, """            if arg not in kwargs:
                kwargs[arg] = val
""", """            kwargs[arg] = val
""", K, 'bad'),
    ('made-falsy', P, """            if arg not in kwargs:
                kwargs[arg] = val
""", """            if val and arg not in kwargs:
                kwargs[arg] = val
""", K, 'bad'),
    ('made-dict', P, """        for arg, val in default_kwargs.items():
            if arg not in kwargs:
                kwargs[arg] = val
        return super(self_type[0], self).__init__(**kwargs)
""", """        options = dict(default_kwargs)
        options.update(kwargs)
        return super(self_type[0], self).__init__(**options)
""", K, 'ok'),
    ('made-dict-swap', P, """        for arg, val in default_kwargs.items():
            if arg not in kwargs:
                kwargs[arg] = val
        return super(self_type[0], self).__init__(**kwargs)
""", """        options = dict(kwargs)
        options.update(default_kwargs)
        return super(self_type[0], self).__init__(**options)
""", K, 'bad'),
    ('made-trait-once', P, "        trait_num += 1\n", "", K, 'bad'),
    ('made-trait-zero', P, "        trait_num += 1\n",
     "        trait_num += 0\n", K, 'bad'),
    ('made-trait-given', P, "    if not trait_name:\n",
     "    if not trait_name or attrs is None:\n", K, 'ok'),
    ('made-trait-other', P, "    if not trait_name:\n",
     "    if trait_name is None or attrs:\n", K, 'bad'),
    ('made-no-kwargs', P,
     "    attrs['default_kwargs'] = default_kwargs\n", "", K, 'bad'),
    ('made-attrs', P, """    if not attrs:
        attrs = {}
    bases""", """    attrs = {}
    bases""", K, 'bad'),
    ('made-attrs-copy', P, """    if not attrs:
        attrs = {}
    bases""", """    attrs = dict(attrs or {})
    bases""", K, 'ok'),
    ('made-bases', P,
     "base_type if isinstance(base_type, tuple) else (base_type,)",
     "(base_type,)", K, 'bad'),
    ('coll-isa', C, "        if isa is None and coll is None:\n",
     "        if isa is None and of is None:\n", K, 'bad'),
    ('coll-clash-and', C, """            if (coll and not issubclass(isa, coll)) or \\
""", """            if (coll and not issubclass(isa, coll)) and \\
""", K, 'bad'),
    ('coll-clash-item', C, "(of and not issubclass(of, isa.itemtype))",
     "(of and not issubclass(isa.itemtype, of))", K, 'bad'),
    ('coll-clash-split', C, """            if (coll and not issubclass(isa, coll)) or \\
                    (of and not issubclass(of, isa.itemtype)):
                raise exc.CollTypeMismatch()
""", """            if coll and not issubclass(isa, coll):
                raise exc.CollTypeMismatch()
            if of and not issubclass(of, isa.itemtype):
                raise exc.CollTypeMismatch()
""", K, 'ok'),
    ('coll-generic-swap', C, "_make_generic(of, coll)",
     "_make_generic(coll, of)", K, 'bad'),
    ('coll-isa-lost', C, "        super(CollectionProperty, self).__init__("
     "isa=isa, **kwargs)", "        super(CollectionProperty, self)"
     ".__init__(isa=coll or isa, **kwargs)", K, 'bad'),
    ('coll-opts-lost', C, "        super(CollectionProperty, self).__init__("
     "isa=isa, **kwargs)", "        super(CollectionProperty, self)"
     ".__init__(isa=isa)", K, 'bad'),
    ('list-of', C, '            list_of = kwargs.pop("of", None)',
     '            list_of = kwargs.get("of")', K, 'any'),
    ('list-of-always', C, '        if list_of is None:\n', '        if "of" '
     'in kwargs:\n', K, 'bad'),
    ('list-coll', C, [("        colltype = kwargs.pop('coll', self.coll_type)"
     "\n        if not issubclass(colltype, List",
     "        colltype = self.coll_type\n        kwargs.pop('coll', None)"
     "\n        if not issubclass(colltype, List")], None, K, 'bad'),
    ('list-any-coll', C, """        if not issubclass(colltype, ListCollection):
            raise exc.ListPropertyMustDeriveListCollection(
                got=colltype.__name__,
            )
""", "", K, 'bad'),
    ('dict-kind', C, "        if not issubclass(colltype, DictCollection):",
     "        if issubclass(colltype, ListCollection):", K, 'bad'),
    ('dict-nothing', C, "        if not dict_of:\n",
     "        if dict_of is False:\n", K, 'bad'),
    ('dict-opts', C, "            of=dict_of, coll=colltype, **kwargs\n",
     "            of=dict_of, coll=DictCollection, **kwargs\n", K, 'bad'),
    ('dict-vars', C, """        super(DictProperty, self).__init__(
            of=dict_of, coll=colltype, **kwargs
        )
""", """        kwargs.update(of=dict_of, coll=colltype)
        super(DictProperty, self).__init__(**kwargs)
""", K, 'ok'),
    ('json-in-out', J, "        self.json_in = json_in\n",
     "        self.json_in = json_in or json_out\n", K, 'bad'),
    ('json-name-falsy', J,
     "return self.name if self._json_name is _default else self._json_name",
     "return self._json_name or self.name", K, 'bad'),
    ('json-name-if', J,
     "return self.name if self._json_name is _default else self._json_name",
     """if self._json_name is not _default:
            return self._json_name
        return self.name""", K, 'ok'),
    ('json-kwargs', J, "        super(JsonProperty, self).__init__(**kwargs)",
     "        super(JsonProperty, self).__init__(\n            **{k: v for "
     "k, v in kwargs.items() if v is not None}\n        )", K, 'any'),
]
