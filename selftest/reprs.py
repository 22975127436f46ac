V = ['C34']
R = 'record/__init__.py'
C = 'coll.py'
J = 'record/json.py'
S = 'selector.py'
LOOP = """        for propname in sorted(type(self).properties):
            if propname not in self.__dict__:
                continue
            else:
                values.append("%s=%r" % (propname, self.__dict__[propname]))
"""
MUTS = [
    ('falsy left out', R, "            if propname not in self.__dict__:\n                continue", "            if not self.__dict__.get(propname):\n                continue", V, 'bad'),
    ('none left out', R, "            if propname not in self.__dict__:\n                continue", "            if self.__dict__.get(propname) is None:\n                continue", V, 'bad'),
    ('extraneous left out', R, "            if propname not in self.__dict__:\n                continue", "            if propname not in self.__dict__ or type(self).properties[propname].extraneous:\n                continue", V, 'bad'),
    ('str', R, '"%s=%r" % (propname,', '"%s=%s" % (propname,', V, 'bad'),
    ('getattr', R, """            if propname not in self.__dict__:
                continue
            else:
                values.append("%s=%r" % (propname, self.__dict__[propname]))
""", """            val = getattr(self, propname, _Unset)
            if val is not _Unset:
                values.append("%s=%r" % (propname, val))
""", V, 'bad'),
    ('colon', R, '"%s=%r" % (propname,', '"%s: %r" % (propname,', V, 'bad'),
    ('angle', R, 'return "%s(%s)" % (typename, ", ".join(values))', 'return "<%s %s>" % (typename, ", ".join(values))', V, 'bad'),
    ('sep', R, 'return "%s(%s)" % (typename, ", ".join(values))', 'return "%s(%s)" % (typename, " ".join(values))', V, 'bad'),
    ('first three', R, LOOP, LOOP + "            if len(values) > 20:\n                break\n", V, 'bad'),
    ('fstring', R, LOOP, """        for propname in sorted(type(self).properties):
            if propname in self.__dict__:
                values.append(f"{propname}={self.__dict__[propname]!r}")
""", V, 'ok'),
    ('format', R, 'values.append("%s=%r" % (propname, self.__dict__[propname]))', 'values.append("{}={!r}".format(propname, self.__dict__[propname]))', V, 'ok'),
    ('add', R, 'values.append("%s=%r" % (propname, self.__dict__[propname]))', 'values.append(propname + "=" + repr(self.__dict__[propname]))', V, 'ok'),
    ('comp', R, "        values = list()\n" + LOOP, """        slots = self.__dict__
        values = [
            "%s=%r" % (name, slots[name])
            for name in sorted(type(self).properties) if name in slots
        ]
""", V, 'ok'),
    ('whole add', R, 'return "%s(%s)" % (typename, ", ".join(values))', 'return typename + "(" + ", ".join(values) + ")"', V, 'ok'),
    ('whole f', R, 'return "%s(%s)" % (typename, ", ".join(values))', 'args = ", ".join(values)\n        return f"{typename}({args})"', V, 'ok'),
    ('filter', R, LOOP, """        for propname in filter(self.__dict__.__contains__, sorted(type(self).properties)):
            values.append("%s=%r" % (propname, self.__dict__[propname]))
""", V, 'ok'),
    ('list str', C, '", ".join(repr(x) for x in self._values)', '", ".join(str(x) for x in self._values)', V, 'bad'),
    ('list filter', C, '", ".join(repr(x) for x in self._values)', '", ".join(repr(x) for x in self._values if x is not None)', V, 'bad'),
    ('list set', C, '", ".join(repr(x) for x in self._values)', '", ".join(repr(x) for x in set(self._values))', V, 'bad'),
    ('list once', C, 'return property_info.replace("(", "(" + list_info + optional_comma, 1)', 'return property_info.replace("(", "(" + list_info + optional_comma)', V, 'bad'),
    ('list comma', C, """        list_info = "[%s]" % ", ".join(repr(x) for x in self._values)
        optional_comma = "" if property_info.endswith("()") else ", "
""", """        list_info = "[%s]" % ", ".join(repr(x) for x in self._values)
        optional_comma = "" if property_info.endswith(")") else ", "
""", V, 'any'),
    ('list no comma', C, """        list_info = "[%s]" % ", ".join(repr(x) for x in self._values)
        optional_comma = "" if property_info.endswith("()") else ", "
""", """        list_info = "[%s]" % ", ".join(repr(x) for x in self._values)
        optional_comma = ""
""", V, 'bad'),
    ('list always comma', C, """        list_info = "[%s]" % ", ".join(repr(x) for x in self._values)
        optional_comma = "" if property_info.endswith("()") else ", "
""", """        list_info = "[%s]" % ", ".join(repr(x) for x in self._values)
        optional_comma = ", "
""", V, 'any'),
    ('list repr', C, 'list_info = "[%s]" % ", ".join(repr(x) for x in self._values)', 'list_info = repr(self._values)', V, 'ok'),
    ('list map', C, 'list_info = "[%s]" % ", ".join(repr(x) for x in self._values)', 'list_info = "[" + ", ".join(map(repr, self._values)) + "]"', V, 'ok'),
    ('list self', C, '", ".join(repr(x) for x in self._values)', '", ".join(repr(x) for x in self)', V, 'ok'),
    ('dict keys', C, "dict_info = repr(self._values)", "dict_info = repr(list(self._values))", V, 'bad'),
    ('dict str', C, "dict_info = repr(self._values)", "dict_info = str(self._values)", V, 'ok'),
    ('dict f', C, "dict_info = repr(self._values)", "dict_info = '%r' % (self._values,)", V, 'ok'),
    ('json once', J, 'return super_repr.replace("[", "values=[", 1)', 'return super_repr.replace("[", "values=[")', V, 'bad'),
    ('json none', J, 'return super_repr.replace("[", "values=[", 1)', 'return super_repr', V, 'bad'),
    ('json name', J, 'return super_repr.replace("{", "values={", 1)', 'return super_repr.replace("{", "json_data={", 1)', V, 'bad'),
    ('json bracket', J, 'return super_repr.replace("[", "values=[", 1)', 'return super_repr.replace("([", "(values=[", 1)', V, 'ok'),
    ('fs path', S, 'return "%s(%r)" % (self.__class__.__name__, self.selectors)', 'return "%s(%r)" % (self.__class__.__name__, self.path)', V, 'bad'),
    ('fs str', S, 'return "%s(%r)" % (self.__class__.__name__, self.selectors)', 'return "%s(%s)" % (self.__class__.__name__, self.path)', V, 'bad'),
    ('fs f', S, 'return "%s(%r)" % (self.__class__.__name__, self.selectors)', 'return f"{type(self).__name__}({self.selectors!r})"', V, 'ok'),
    ('mfs heads', S, '(tuple(x.selectors for x in self),)', '(tuple(x.selectors[:1] for x in self),)', V, 'bad'),
    ('mfs list', S, '"MultiFieldSelector%r" % (tuple(x.selectors for x in self),)', '"MultiFieldSelector%r" % ([x.selectors for x in self],)', V, 'bad'),
    ('mfs comp', S, '"MultiFieldSelector%r" % (tuple(x.selectors for x in self),)', '"MultiFieldSelector" + repr(tuple([fs.selectors for fs in self]))', V, 'ok'),
]
