F = 'property/__init__.py'
A = ['C01', 'C02', 'C03', 'C04']
MUTS = [
 ('check-before-coerce', F, "        if self.check and not self.check(value):", "        if self.check and new_value is None and not self.check(value):", ['C01'], 'bad'),
 ('none-skips-check', F, "        if self.check and not self.check(value):", "        if self.check and value is not None and not self.check(value):", ['C01'], 'bad'),
 ('coerced-unchecked', F, "            if not isinstance(new_value, self.valuetype):\n                if _none_ok and new_value is None and not self.required:", "            if not isinstance(new_value, self.valuetype):\n                if new_value is None and not self.required:\n                    return None\n                if _none_ok and new_value is None and not self.required:", ['C01'], 'bad'),
 ('lazy-unchecked', F, "obj.__dict__[self.name] = self.type_safe_value(value)\n\n        return super(Lazy", "obj.__dict__[self.name] = value\n\n        return super(Lazy", ['C01'], 'bad'),
 ('early-return', F, "        if value is None and self.required and not self.valuetype:", "        if isinstance(value, str) and not value:\n            return value\n        if value is None and self.required and not self.valuetype:", ['C01'], 'bad'),
 ('init-required-lost', F, "        if new_value is _none:\n            if self.required:", "        if new_value is _none:\n            if self.required and value is not None:", ['C02'], 'bad'),
 ('coerce-none-req', F, "if _none_ok and new_value is None and not self.required:", "if _none_ok and new_value is None:", ['C02'], 'ok'),
 ('delete-req', F, "        if self.required:\n            raise exc.PropertyRequired(prop=self)\n        if self.name not in", "        if self.required and self.check:\n            raise exc.PropertyRequired(prop=self)\n        if self.name not in", ['C02'], 'bad'),
 ('v1-delete', F, "                if self.required or self.name in obj.__dict__:\n                    self.__delete__(obj)", "                obj.__dict__.pop(self.name, None)", ['C02'], 'bad'),
 ('eager', F, "return self.required or self.default is not _none", "return self.default is not _none", ['C02'], 'bad'),
 ('eager2', F, "return self.required or self.default is not _none", "return self.required or bool(self.default)", ['C02'], 'bad'),
 ('ro-equal-set', F, '        """Raises ``ReadOnlyAttributeError``"""\n        raise exc.ReadOnlyAttributeError(attrname=self.fullname)\n\n    def __del', '        if self.name not in obj.__dict__:\n            obj.__dict__[self.name] = value\n            return\n        raise exc.ReadOnlyAttributeError(attrname=self.fullname)\n\n    def __del', ['C03'], 'bad'),
 ('lazy-none-recomputed', F, "        if self.name not in obj.__dict__:\n            value = self.get_default(obj)", "        if obj.__dict__.get(self.name) is None:\n            value = self.get_default(obj)", ['C04'], 'bad'),
 ('lazy-none-not-stored', F, "            obj.__dict__[self.name] = self.type_safe_value(value)\n\n", "            value = self.type_safe_value(value)\n            if value is None:\n                return value\n            obj.__dict__[self.name] = value\n\n", ['C04'], 'bad'),
 ('ref-helper', F, "        obj.__dict__[self.name] = self.type_safe_value(value)\n\n    def __delete__", "        self._put(obj, self.type_safe_value(value))\n\n    def _put(self, obj, v):\n        obj.__dict__[self.name] = v\n\n    def __delete__", A, 'ok'),
 ('ref-nested', F, "        if self.check and not self.check(value):\n            raise exc.ValueCheckError(\n                prop=self,\n                passed=value,\n            )\n        return value", "        if not self.check or self.check(value):\n            return value\n        raise exc.ValueCheckError(prop=self, passed=value)", A, 'ok'),
 ('ref-elif', F, "            if not isinstance(new_value, self.valuetype):\n                if _none_ok and new_value is None and not self.required:", "            conforming = isinstance(new_value, self.valuetype)\n            if not conforming:\n                if _none_ok and new_value is None and not self.required:", A, 'ok'),
 ('ref-try', F, "        if self.name not in obj.__dict__:\n            return self.attribute_error_hook()\n        return obj.__dict__[self.name]", "        try:\n            return obj.__dict__[self.name]\n        except KeyError:\n            return self.attribute_error_hook()", A, 'ok'),
 ('ref-vars', F, "            obj.__dict__[self.name] = new_value\n", "            slots = vars(obj)\n            slots[self.name] = new_value\n", A, 'ok'),
 ('ref-init-return', F, "        if new_value is _none:\n            if self.required:\n                raise exc.PropertyRequired(prop=self)\n        else:\n            obj", "        if new_value is _none:\n            if not self.required:\n                return\n            raise exc.PropertyRequired(prop=self)\n        if True:\n            obj", A, 'ok'),
    ('acc p-required-falsy', 'property/__init__.py',
     '        if value is None and self.required and not self.valuetype:',
     '        if not value and self.required and not self.valuetype:',
     ['C01', 'C02'], 'bad'),
    ('acc p-required-vt', 'property/__init__.py',
     '        if value is None and self.required and not self.valuetype:',
     '        if value is None and self.required:',
     ['C01', 'C02'], 'bad'),
    ('acc p-none-ok', 'property/__init__.py',
     '                if _none_ok and new_value is None and not self.required:',
     '                if _none_ok and not new_value and not self.required:',
     ['C01', 'C02'], 'bad'),
    ('acc p-default-noncall', 'property/__init__.py',
     '        if callable(self.default):\n            if self.default_is_method:',
     '        if inspect.isroutine(self.default):\n            if self.default_is_method:',
     ['C01', 'C02'], 'bad'),
    ('acc p-default-has-ok', 'property/__init__.py',
     '        if callable(self.default):\n            if self.default_is_method:',
     "        if hasattr(self.default, '__call__'):\n            if self.default_is_method:",
     ['C01', 'C02'], 'ok'),
    ('acc p-conv-none', 'property/__init__.py',
     '            if not isinstance(new_value, self.valuetype):',
     '            if not new_value or not isinstance(new_value, self.valuetype):',
     ['C01', 'C02'], 'bad'),
    ('acc p-check-pass', 'property/__init__.py',
     '            raise exc.ValueCheckError(\n                prop=self,\n                passed=value,\n            )\n        return value',
     '            if _none_ok and not self.required:\n                return _none\n            raise exc.ValueCheckError(\n                prop=self,\n                passed=value,\n            )\n        return value',
     ['C01', 'C02'], 'bad'),
    ('acc p-lazy-drop', 'property/__init__.py',
     '        if value is _Default:\n            return\n',
     '        if value is _Default or not value and not self.required:\n            return\n',
     ['C01', 'C02'], 'bad'),
    ('b24 defobj', 'property/__init__.py',
     '            value = self.get_default(obj)',
     '            value = self.get_default(self)',
     ["C02"], 'bad'),
]
