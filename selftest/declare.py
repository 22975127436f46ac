F = 'property/meta.py'
P = 'property/__init__.py'
C = 'property/coll.py'
K = ['C31']
MUTS = [
    ('ro-set-lost', P, """        if "ro" in self.traits:
            # the order""", """        if "ro" in ():
            # the order""", K, 'bad'),
    ('ro-del-lost', P, """        if "ro" in self.traits:
            raise exc.ReadOnlyAttributeError(attrname=self.fullname)
        if self""", """        if self""", K, 'bad'),
    ('ro-other-error', P, """        if "ro" in self.traits:
            raise exc.ReadOnlyAttributeError(attrname=self.fullname)
        if self""", """        if "ro" in self.traits:
            raise exc.PropertyRequired(prop=self)
        if self""", K, 'bad'),
    ('v1-set-direct', P, "            super().__set__(obj, value)\n",
     "            obj.__dict__[self.name] = self.type_safe_value(value)\n",
     K, 'bad'),
    ('lazy-empty', P, """        if self.v1_upgraded:
            return False
        return super(V1Property, self).slot_is_empty(obj)""",
     """        if self.v1_upgraded:
            return False
        return self.name not in obj.__dict__""", K, 'any'),
    ('ro-first', P, """        if "ro" in self.traits:
            # the order in which the types are mixed does not matter
            raise exc.ReadOnlyAttributeError(attrname=self.fullname)
        obj.__dict__[self.name] = self.type_safe_value(value)""",
     """        if "ro" not in self.traits:
            obj.__dict__[self.name] = self.type_safe_value(value)
            return
        error = exc.ReadOnlyAttributeError(attrname=self.fullname)
        raise error""", K, 'ok'),
    ('positional', F, "    if args:\n        raise", "    if len(args) > 1:"
     "\n        raise", K, 'bad'),
    ('traits-ignored', F, "set(kwargs.pop('traits', tuple()))",
     "set()\n    kwargs.pop('traits', None)", K, 'bad'),
    ('no-isa', F, '("required", "isa", "check")', '("required", "check")', K,
     'bad'),
    ('any-all', F, "__ or any(\n", "__ or all(\n", K, 'bad'),
    ('class-safe', F, "self.__safe_unless_ro__ or any(", "any(", K, 'bad'),
    ('known-args', F, "if argname not in self.all_duckwargs:",
     "if argname not in self.duckwargs:", K, 'bad'),
    ('any-type', F, """                if isinstance(proptype, type(self)):
                    implies_traits.add(traits)
""", """                if True:
                    implies_traits.add(traits)
""", K, 'bad'),
    ('duck-safe', F, """                    if proptype.__safe_unless_ro__:
                        safe_unless_ro = True
""", "", K, 'bad'),
    ('ambiguous', F, "if len(implies_traits) > 1:",
     "if len(implies_traits) > 2:", K, 'bad'),
    ('unknown-kept', F, "elif not implies_traits:",
     "elif not implies_traits and argname != 'doc':", K, 'bad'),
    ('added-one', F, "extra_traits.update(list(implies_traits)[0])",
     "extra_traits.add(list(implies_traits)[0])", K, 'bad'),
    ('added-next', F, "extra_traits.update(list(implies_traits)[0])",
     "extra_traits.update(next(iter(implies_traits)))", K, 'ok'),
    ('added-loop', F, "extra_traits.update(list(implies_traits)[0])",
     "for x in list(implies_traits)[0]:\n"
     "                    extra_traits.add(x)", K, 'any'),
    ('self-traits', F, "set(self.traits) | extra_traits",
     "set(extra_traits)", K, 'bad'),
    ('union', F, "set(self.traits) | extra_traits",
     "set(self.traits).union(extra_traits)", K, 'ok'),
    ('unsafe-any', F, 'if "unsafe" in all_traits and "safe" not in '
     'all_traits:', 'if "unsafe" in all_traits:', K, 'bad'),
    ('unsafe-then-safe', F, """        all_traits.remove("unsafe")
    elif "ro\"""", """        all_traits.remove("unsafe")
    if "ro\"""", K, 'bad'),
    ('ro-safe', F, 'elif "ro" not in all_traits and safe_unless_ro:',
     'elif safe_unless_ro:', K, 'bad'),
    ('always-safe', F, 'elif "ro" not in all_traits and safe_unless_ro:',
     'elif "ro" not in all_traits:', K, 'bad'),
    ('v1-any', F, "if 'default' in kwargs and looks_like_v1_none(",
     "if 'default' in kwargs and not (", K, 'bad'),
    ('v1-hash', F, "return not value and value.__hash__ and not",
     "return not value and not", K, 'bad'),
    ('v1-callable', F, "value.__hash__ and not callable(value)",
     "value.__hash__", K, 'bad'),
    ('v1-unsafe', F, """            if 'safe' not in all_traits:
                all_traits.add("safe")
""", "", K, 'bad'),
    ('v1-add', F, """            if 'safe' not in all_traits:
                all_traits.add("safe")
""", """            all_traits.add("safe")
""", K, 'ok'),
    ('v1-asked', F, """    if "v1" not in all_traits:
        if 'default'""", """    if True:
        if 'default'""", K, 'bad'),
    ('v1-flat', F, """    if "v1" not in all_traits:
        if 'default' in kwargs and looks_like_v1_none(kwargs['default']):
            all_traits.add("v1")
            if 'safe' not in all_traits:
                all_traits.add("safe")
""", """    legacy = 'default' in kwargs and looks_like_v1_none(kwargs['default'])
    if legacy and "v1" not in all_traits:
        all_traits |= {"v1", "safe"}
""", K, 'ok'),
    ('unsorted', F, "trait_set_key = tuple(sorted(all_traits))",
     "trait_set_key = tuple(all_traits)", K, 'bad'),
    ('reverse', F, "trait_set_key = tuple(sorted(all_traits))",
     "trait_set_key = tuple(sorted(all_traits, reverse=True))", K, 'bad'),
    ('sort-list', F, "trait_set_key = tuple(sorted(all_traits))",
     "key = list(all_traits)\n    key.sort()\n"
     "    trait_set_key = tuple(key)", K, 'ok'),
    ('not-made', F, """    if trait_set_key not in PROPERTY_TYPES:
        create""", """    if not trait_set_key:
        create""", K, 'bad'),
    ('mismatch', F, "if not isinstance(property_type, type(self)):",
     "if not isinstance(property_type, MetaProperty):", K, 'bad'),
    ('wrong-type', F, "super(selfie, self).__new__(property_type)",
     "super(selfie, self).__new__(self)", K, 'any'),
    ('helper', F, """    if "unsafe" in all_traits and "safe" not in all_traits:
        all_traits.remove("unsafe")
    elif "ro" not in all_traits and safe_unless_ro:
        all_traits.add("safe")
""", """    if "safe" not in all_traits:
        if "unsafe" in all_traits:
            all_traits.discard("unsafe")
        elif safe_unless_ro and "ro" not in all_traits:
            all_traits.add("safe")
""", K, 'ok'),
    ('own-trait', F, """        if trait:
            traits.add(trait)
""", "", K, 'bad'),
    ('base-traits', F, "traits.update(base.traits)", "traits = set(base.traits)", K, 'bad'),
    ('first-base', F, "        for base in bases:\n", "        for base in bases[:1]:\n", K, 'bad'),
    ('base-args', F, "all_duckwargs.update(base.all_duckwargs)", "all_duckwargs.update(base.duckwargs)", K, 'bad'),
    ('own-args', F, "all_duckwargs = set(duckwargs)", "all_duckwargs = set()", K, 'bad'),
    ('clash', F, "        if traits in PROPERTY_TYPES:\n", "        if trait and traits in PROPERTY_TYPES:\n", K, 'bad'),
    ('unsorted-meta', F, "traits = tuple(sorted(traits))", "traits = tuple(traits)", K, 'bad'),
    ('not-stored', F, "        PROPERTY_TYPES[self.traits] = self\n", "        if trait:\n            PROPERTY_TYPES[self.traits] = self\n", K, 'bad'),
    ('other-key', F, "        PROPERTY_TYPES[self.traits] = self\n", "        PROPERTY_TYPES[(trait,)] = self\n", K, 'bad'),
    ('key-var', F, "        PROPERTY_TYPES[self.traits] = self\n", "        PROPERTY_TYPES[traits] = self\n", K, 'ok'),
    ('duck-no-trait', F, """        if trait:
            for kwarg""", """        if traits:
            for kwarg""", K, 'bad'),
    ('duck-trait-only', F, "DUCKWARGS[kwarg].add((traits, self))", "DUCKWARGS[kwarg].add(((trait,), self))", K, 'bad'),
    ('duck-all', F, "            for kwarg in duckwargs:", "            for kwarg in all_duckwargs:", K, 'bad'),
    ('selfie-late', F, "        selfie[0] = self\n", "        selfie[0] = bases[0]\n", K, 'bad'),
    ('defaults-win', F, """            mixed_kwargs = dict(selfie[1])
            mixed_kwargs.update(kwargs)
""", """            mixed_kwargs = dict(kwargs)
            mixed_kwargs.update(selfie[1])
""", K, 'bad'),
    ('defaults-lost', F, """            mixed_kwargs = dict(selfie[1])
            mixed_kwargs.update(kwargs)
""", """            mixed_kwargs = dict(kwargs)
""", K, 'bad'),
    ('defaults-star', F, """            mixed_kwargs = dict(selfie[1])
            mixed_kwargs.update(kwargs)
""", """            mixed_kwargs = dict(selfie[1], **kwargs)
""", K, 'ok'),
    ('args-dropped', F, "return has(selfie[0], self, args, mixed_kwargs)", "return has(selfie[0], self, (), mixed_kwargs)", K, 'bad'),
    ('selfie-type', F, "return has(selfie[0], self, args, mixed_kwargs)", "return has(selfie[0], selfie[0], args, mixed_kwargs)", K, 'bad'),
    ('mix-other', F, "                other_type = PROPERTY_TYPES[mix_in]", "                other_type = PROPERTY_TYPES[other]", K, 'bad'),
    ('missing-kept', F, "    if missing_traits:\n", "    if len(missing_traits) > 1:\n", K, 'any'),
    ('missing-none', F, "    missing_traits = wanted_traits - traits_available\n    if missing_traits:\n", "    missing_traits = wanted_traits - traits_available\n    if missing_traits and not stock_types:\n", K, 'bad'),
    ('three-types', F, "(base_type, other_type), {}", "(base_type, other_type, Property), {}", K, 'any'),
    ('setdefault', F, """        if trait:
            for kwarg in duckwargs:
                DUCKWARGS[kwarg].add((traits, self))
""", """        entry = (self.traits, self)
        for kwarg in duckwargs:
            if not trait:
                break
            DUCKWARGS[kwarg].add(entry)
""", K, 'ok'),
    ('getattr-base', F, """            if hasattr(base, "traits"):
                traits.update(base.traits)
""", """            traits.update(getattr(base, "traits", ()))
""", K, 'ok'),
]
