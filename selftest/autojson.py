J = 'record/json.py'
I = ['C15']
GET = """            try:
                return self.unknown_json_keys[attr]
            except KeyError:
                raise AttributeError(attr)
"""
DEL = """            try:
                del self.unknown_json_keys[attr]
            except KeyError:
                raise AttributeError(attr)
"""
UPG = """            kwargs['unknown_json_keys'] = {
                cls.convert_json_key_in(k): cls.auto_upgrade_any(v) for
                k, v in list(kwargs['unknown_json_keys'].items())
            }
"""
JDA = """                for k, v in self.unknown_json_keys.items():
                    k = type(self).convert_json_key_out(k)
                    if k not in jd:
                        jd[k] = _json_data(v, extraneous)
"""
MUTS = [
 ('get-keyerror', J, GET, '            return self.unknown_json_keys[attr]\n', I, 'bad'),
 ('get-none', J, GET, '            return self.unknown_json_keys.get(attr)\n', I, 'bad'),
 ('get-first', J, """        if attr in type(self).properties:
            return type(self).properties[attr].__get__(self)
        else:
""" + GET, """        if attr in self.unknown_json_keys:
            return self.unknown_json_keys[attr]
        return type(self).properties[attr].__get__(self)
""", I, 'bad'),
 ('set-all', J, """            super(AutoJsonRecord, self).__setattr__(attr, value)
        else:
""", """            super(AutoJsonRecord, self).__setattr__(attr, value)
        elif value is not None:
""", I, 'bad'),
 ('set-convert', J, 'self.unknown_json_keys[attr] = value', 'self.unknown_json_keys[type(self).convert_json_key_out(attr)] = value', I, 'bad'),
 ('del-silent', J, DEL, '            self.unknown_json_keys.pop(attr, None)\n', I, 'bad'),
 ('del-keyerror', J, DEL, '            del self.unknown_json_keys[attr]\n', I, 'bad'),
 ('upg-key', J, UPG, UPG.replace('cls.convert_json_key_in(k)', 'k'), I, 'bad'),
 ('upg-value', J, UPG, UPG.replace('cls.auto_upgrade_any(v)', 'v'), I, 'bad'),
 ('upg-drop', J, UPG, UPG.replace('.items())\n', '.items()) if v is not None\n'), I, 'bad'),
 ('out-key', J, JDA, JDA.replace("type(self).convert_json_key_out(k)", 'k'), I, 'bad'),
 ('out-shadow', J, JDA, """                for k, v in self.unknown_json_keys.items():
                    if k not in jd:
                        k = type(self).convert_json_key_out(k)
                        jd[k] = _json_data(v, extraneous)
""", I, 'bad'),
 ('nc-kind', J, 'return NCAutoJsonRecord(thing)', 'return AutoJsonRecord(thing)', I, 'bad'),
 ('nc-list-kind', J, 'return list_of(NCAutoJsonRecord)(thing)', 'return list_of(AutoJsonRecord)(thing)', I, 'bad'),
 ('nc-removed', J, """    @classmethod
    def auto_upgrade_dict(cls, thing):
        return NCAutoJsonRecord(thing)

""", '', I, 'bad'),
 ('any-empty', J, "        if isinstance(thing, dict):\n            return cls.auto", "        if isinstance(thing, dict) and thing:\n            return cls.auto", I, 'bad'),
 ('ref-get', J, GET, """            unknown = self.unknown_json_keys
            if attr in unknown:
                return unknown[attr]
            raise AttributeError(attr)
""", I, 'ok'),
 ('ref-del', J, DEL, """            if attr not in self.unknown_json_keys:
                raise AttributeError(attr)
            del self.unknown_json_keys[attr]
""", I, 'ok'),
 ('ref-kind', J, 'return NCAutoJsonRecord(thing)', 'record = cls(thing)\n        return record', I, 'ok'),
 ('ref-upg', J, UPG, """            upgraded = {}
            for k, v in kwargs['unknown_json_keys'].items():
                upgraded[cls.convert_json_key_in(k)] = \\
                    cls.auto_upgrade_any(v)
            kwargs['unknown_json_keys'] = upgraded
""", I, 'ok'),
 ('ref-set', J, """            super(AutoJsonRecord, self).__setattr__(attr, value)
        else:
            self.unknown_json_keys[attr] = value
""", """            object.__setattr__(self, attr, value)
            return
        unknown = self.unknown_json_keys
        unknown[attr] = value
""", I, 'ok'),
 ('ref-out', J, JDA, """                to_key = type(self).convert_json_key_out
                for k, v in self.unknown_json_keys.items():
                    json_key = to_key(k)
                    if json_key in jd:
                        continue
                    jd[json_key] = _json_data(v, extraneous)
""", I + ['C12'], 'ok'),

 ('ref-key-fstring', J, 'lambda m: "%s_%s" % (m.group(1), m.group(2).lower())', "lambda m: f'{m.group(1)}_{m.group(2).lower()}'", ['C15'], 'ok'),
 ('ref-key-add', J, 'lambda m: "%s%s" % (m.group(1), m.group(2).upper())', "lambda found: found.group(1) + found.group(2).upper()", ['C15'], 'ok'),
 ('ref-key-index', J, 'lambda m: "%s%s" % (m.group(1), m.group(2).upper())', "lambda m: m[1] + m[2].upper()", ['C15'], 'ok'),
 ('ref-key-09', J, "r'([a-z\\d])_([a-z])'", "r'([a-z0-9])_([a-z])'", ['C15'], 'ok'),
 ('key-out-digit', J, "r'([a-z\\d])_([a-z])'", "r'([a-z])_([a-z])'", ['C15'], 'bad'),
 ('key-in-digit', J, "r'([a-z\\d])([A-Z])'", "r'([a-z])([A-Z])'", ['C15'], 'bad'),
 ('key-out-keeps', J, 'm.group(2).upper()', 'm.group(2)', ['C15'], 'bad'),
 ('key-out-more', J, "r'([a-z\\d])_([a-z])'", "r'([a-z\\d])_([a-z\\d])'", ['C15'], 'bad'),
 ('nc-out-inherited', J, """        return key

    @classmethod
    def convert_json_key_out(cls, key):
        return key
""", """        return key
""", ['C15'], 'bad'),
 ('empty-list', J, 'if len(thing) and isinstance(thing[0], dict):\n            return list_of(Auto', 'if isinstance(thing[0], dict):\n            return list_of(Auto', ['C15'], 'bad'),
 ('ref-empty-list', J, 'if len(thing) and isinstance(thing[0], dict):\n            return list_of(Auto', 'if thing and isinstance(thing[0], dict):\n            return list_of(Auto', ['C15'], 'ok'),
 ('decl-shared', J, 'default=lambda: {},', 'default={},', ['C15'], 'bad'),
 ('ref-decl-dict', J, 'default=lambda: {},', 'default=dict,', ['C15'], 'ok'),
 ('decl-extraneous', J, 'json_name=None, extraneous=False, default', 'json_name=None, extraneous=True, default', ['C15'], 'bad'),
    ('b24 ckout', 'record/json.py',
     'k = type(self).convert_json_key_out(k)',
     'k = type(self).convert_json_key_out(v)',
     ["C15"], 'bad'),
    ('b24 ncout', 'record/json.py',
     '    def convert_json_key_out(cls, key):\n        return key',
     '    def convert_json_key_out(cls, key):\n        return cls',
     ["C15"], 'bad'),
]
