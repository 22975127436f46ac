F = 'property/__init__.py'
S = 'selector.py'
X = 'exc.py'
V = ['C27']
MUTS = [
    ('kw-renamed', F, """                    raise exc.ValueCoercionError(
                        prop=self,
                        passed=value,
""", """                    raise exc.ValueCoercionError(
                        prop=self,
                        value=value,
""", V, 'bad'),
    ('kw-dropped', F, """            raise exc.ValueCheckError(
                prop=self,
                passed=value,
            )
""", """            raise exc.ValueCheckError(
                prop=self,
            )
""", V, 'bad'),
    ('no-args', F, "            raise exc.PropertyRequired(prop=self)\n        if",
     "            raise exc.PropertyRequired\n        if", V, 'bad'),
    ('typo', F, "            raise exc.PropertyRequired(prop=self)\n        if",
     "            raise exc.PropertyIsRequired(prop=self)\n        if", V,
     'bad'),
    ('extra', F, "            raise exc.PropertyRequired(prop=self)\n        if",
     "            raise exc.PropertyRequired(prop=self, value=value)\n        if",
     V, 'ok'),
    ('message-field', X, '    message = "Could not find property specified by name: {name}"\n',
     '    message = "Could not find property {name} of {record}"\n', V, 'bad'),
    ('message-broken', X, '    message = "Could not find property specified by name: {name}"\n',
     '    message = "Could not find property specified by name: {name"\n', V, 'bad'),
    ('message-reworded', X, '    message = "Could not find property specified by name: {name}"\n',
     '    message = "No property is called {name}"\n', V, 'ok'),
    ('kind', X, "class FieldSelectorKeyError(FieldSelectorException, KeyError):",
     "class FieldSelectorKeyError(FieldSelectorException):", V, 'bad'),
    ('kind-base', X, "class CoercionError(StringFormatException, TypeError):",
     "class CoercionError(StringFormatException):", V, 'bad'),
    ('kind-order', X, "class FieldSelectorKeyError(FieldSelectorException, KeyError):",
     "class FieldSelectorKeyError(FieldSelectorException, IndexError, KeyError):", V, 'ok'),
    ('empty-name', 'empty.py', '"NoSuchAttribute",\n                    attribute=attr_name,',
     '"NoSuchAttribute",\n                    name=attr_name,', V, 'bad'),
    ('empty-noargs', 'empty.py', '            typenames=self._typelist(),\n            **kwargs)',
     '            types=self._typelist(),\n            **kwargs)', V, 'bad'),
    ('text-of-text', F, """                        func=default,
                        module=default.__module__,
                        nargs=nargs,
""", """                        func=default.__name__,
                        module=default.__module__,
                        nargs=nargs,
""", V, 'ok'),
    ('kwargs-dict', F, """            raise exc.ValueCheckError(
                prop=self,
                passed=value,
            )
""", """            info = dict(prop=self, passed=value)
            raise exc.ValueCheckError(**info)
""", V, 'ok'),
    ('local-alias', F, """            raise exc.ValueCheckError(
                prop=self,
                passed=value,
            )
""", """            failed = exc.ValueCheckError
            raise failed(prop=self, passed=value)
""", V, 'ok'),
    ('str-args', X, "        return self.formatted\n", "        return self.message\n", V, 'bad'),
    ('getattr-none', X, "            return self.kwargs[attrname]\n", "            return self.kwargs.get(attrname)\n", V, 'bad'),
    ('getattr-keyerror', X, """            raise AttributeError(
                "no such attribute""", """            raise KeyError(
                "no such attribute""", V, 'bad'),
    ('args-lost', X, "        self.args = args\n", "        self.args = ()\n", V, 'bad'),
    ('format-index', X, "        except IndexError:\n", "        except LookupError:\n", V, 'any'),
    ('format-keyerror', X, """        except KeyError as e:
            raise KeywordExceptionFormatError(
                typename=type(self).__name__,
                missing=e.args[0],
                passed=repr(list(kwargs.keys())),
            )
""", "", V, 'bad'),
    ('positional-lost', S, 'raise FieldSelectorKeyError(key=selector)', 'raise FieldSelectorKeyError("no such key", key=selector)', V, 'bad'),
]

MUTS += [
    ('crash-unbound', 'selector.py',
     '''                    except LookupError:
                        raise FieldSelectorException(
                            "Could not find Record specified by index: %s." %
                            selector
                        )
                else:
                    try:
                        sub_record = getattr(record, selector)''',
     '''                    except LookupError:
                        pass
                else:
                    try:
                        sub_record = getattr(record, selector)''',
     ['C22', 'C27'], 'bad'),
    ('crash-typo', 'selector.py',
     '                sub_selector.put(sub_record, value)',
     '                sub_selector.put(subrecord, value)', ['C27'], 'bad'),
    ('crash-arity', 'selector.py',
     '                    sub_selector.put(x, value)',
     '                    sub_selector.put(x)', ['C27'], 'bad'),
    ('crash-raiser-helper', 'selector.py', [
     ('''                    except LookupError:
                        raise FieldSelectorException(
                            "Could not find Record specified by index: %s." %
                            selector
                        )
                else:
                    try:
                        sub_record = getattr(record, selector)''',
      '''                    except LookupError:
                        self._lost(selector)
                else:
                    try:
                        sub_record = getattr(record, selector)'''),
     ('    def put(self, record, value):\n',
      '''    def _lost(self, selector):
        raise FieldSelectorException(
            "Could not find Record specified by index: %s." % selector)

    def put(self, record, value):
''')], None, ['C21', 'C22', 'C24', 'C27'], 'ok'),
    ('crash-raiser-helper2', 'selector.py', [
     ('''                    except LookupError:
                        raise FieldSelectorException(
                            "Could not find Record specified by index: %s." %
                            selector
                        )
                else:
                    try:
                        sub_record = getattr(record, selector)''',
      '''                    except LookupError:
                        _lost("index", selector)
                else:
                    try:
                        sub_record = getattr(record, selector)'''),
     ('class FieldSelector(object):\n',
      '''def _lost(kind, selector):
    """say so"""
    if kind == "index":
        raise FieldSelectorException(
            "Could not find Record specified by index: %s." % selector)
    else:
        raise FieldSelectorException(
            "Could not find Record specified by property: %s." % selector)


class FieldSelector(object):
''')], None, ['C21', 'C22', 'C24', 'C27'], 'ok'),
    ('crash-flag', 'selector.py', [
     ('''                    except LookupError:
                        raise FieldSelectorException(
                            "Could not find Record specified by index: %s." %
                            selector
                        )
                else:
                    try:
                        sub_record = getattr(record, selector)
                    except AttributeError:
                        raise FieldSelectorException(
                            "Could not find Record specified by property "
                            "name: %s." % selector
                        )
''',
      '''                        found = True
                    except LookupError:
                        found = False
                else:
                    try:
                        sub_record = getattr(record, selector)
                        found = True
                    except AttributeError:
                        found = False
                if not found:
                    raise FieldSelectorException(
                        "Could not find Record specified by: %s." % selector)
''')], None, ['C21', 'C22', 'C24', 'C27'], 'ok'),
]

CI = """            except Exception as e:
                raise exc.CollectionItemCoerceError"""
PC = """                raise exc.CoerceError(
                    prop=self,
                    passed=value"""
MUTS += [
    ('conv-narrow-item', 'coll.py', CI, CI.replace('Exception as', '(TypeError, ValueError) as'), ['C27'], 'bad'),
    ('conv-item-passed', 'coll.py', """                    passed=v,
                    exc=e,""", """                    passed=cls,
                    exc=e,""", ['C27'], 'bad'),
    ('conv-narrow-slot', 'property/__init__.py', """            except Exception as e:
                raise exc.CoerceError(""", """            except ValueError as e:
                raise exc.CoerceError(""", ['C27'], 'bad'),
    ('conv-slot-passed', 'property/__init__.py', PC, PC.replace('passed=value', 'passed=e'), ['C27'], 'bad'),
    ('conv-slot-other', 'property/__init__.py', PC, """                if self.required:
                    raise exc.PropertyRequired(prop=self)
""" + PC, ['C27'], 'bad'),
    ('conv-ref-kw', 'coll.py', CI + "(\n                    itemtype=cls.itemtype,", """            except Exception as err:
                e = err
                raise exc.CollectionItemCoerceError(
                    itemtype=cls.itemtype,""", ['C27', 'C05'], 'ok'),
    ('text tuple-index', 'coll.py',
     '"%r is not in list" % (x,)',
     '"%r is not in list" % x',
     ['C27'], 'bad'),
    ('text tuple-index2-ok', 'coll.py',
     '"%r is not in list" % (x,)',
     '"%s is not in list" % repr(x)',
     ['C27'], 'ok'),
    ('text tuple-index3-ok', 'coll.py',
     '"%r is not in list" % (x,)',
     '"{!r} is not in list".format(x)',
     ['C27'], 'ok'),
    ('text tuple-repr', 'exc.py',
     'tuple(repr(x) for x in self.args)',
     'tuple("%r" % x for x in self.args)',
     ['C27'], 'bad'),
    ('text tuple-kw-ok', 'exc.py',
     'tuple("%s=%r" % (k, v) for k, v in self.kwargs.items())',
     'tuple("%s=%r" % x for x in self.kwargs.items())',
     ['C27'], 'ok'),
    ('text tuple-date', 'property/types.py',
     'date/datetime" % (not_a_datetime,)',
     'date/datetime" % not_a_datetime',
     ['C27'], 'bad'),
]
