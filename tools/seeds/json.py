J = 'record/json.py'
D = 'diff.py'
S = 'selector.py'
SEEDS = [
 dict(id='json-empty-object-type', property='C10',
  edits=[(J, '        elif hasattr(proptype, "from_json"):\n',
          '        elif json_val and hasattr(proptype, "from_json"):\n')],
  needs='a property whose type overrides from_json, and an empty object in '
        'the JSON',
  breaks='the value is not read by the type of the property',
  demo='''
from normalize import JsonRecord, JsonProperty, Record, Property

class Box(JsonRecord):
    origin = Property(isa=str)

    @classmethod
    def from_json(cls, json_data):
        return cls(json_data, origin="json")

class Doc(JsonRecord):
    box = Property(isa=Box)

assert Doc({"box": {"x": 1}}).box.origin == "json"
assert Doc({"box": {}}).box.origin == "json"
'''),
 dict(id='json-member-reread', property='C10',
  edits=[(J, '''                        values[k] = (
                            x if isinstance(x, member_type) else
                            member_type.from_json(x)
                        )
''', '''                        values[k] = member_type.from_json(x)
''')],
  needs='a JSON dictionary collection made from records',
  breaks='members which are records already are read as JSON again',
  demo='''
from normalize import JsonRecord, Property
from normalize.record.json import JsonRecordDict

class Item(JsonRecord):
    name = Property(isa=str)

    def __init__(self, json_data=None, **kwargs):
        if isinstance(json_data, Item):
            raise TypeError("not JSON")
        super(Item, self).__init__(json_data, **kwargs)

class Items(JsonRecordDict):
    itemtype = Item

it = Item(name="x")
d = Items({"a": it, "b": {"name": "y"}})
assert d["a"] is it and d["b"].name == "y"
'''),
 dict(id='json-negative-big', property='C11',
  edits=[(J, 'return str(record) if abs(record) > 2**50 else record',
          'return str(record) if record > 2**50 else record')],
  needs='a negative integer below -2**50',
  breaks='it is written as a number, which JavaScript readers round',
  demo='''
from normalize.record.json import to_json
assert to_json(2 ** 60) == str(2 ** 60)
assert to_json(-2 ** 60) == str(-2 ** 60)
assert to_json(-2 ** 50) == -2 ** 50
'''),
 dict(id='json-hook-text', property='C14',
  edits=[(J, '''        json_data = _decode_and_parse_json(json_data)
        return json_to_initkwargs(self, json_data, kwargs)
''', '''        return json_to_initkwargs(self, json_data, kwargs)
''')],
  needs='the class method json_to_initkwargs called with text',
  breaks='the text is refused',
  demo='''
from normalize import JsonRecord, Property

class R(JsonRecord):
    a = Property(isa=int)

for js in ({"a": 1}, '{"a": 1}', b'{"a": 1}'):
    assert R.json_to_initkwargs(js, {}) == {"a": 1}, js
'''),
 dict(id='auto-key-digit', property='C15',
  edits=[(J, r"""            r'([a-z\d])_([a-z])',""", r"""            r'([a-z])_([a-z])',""")],
  needs='a key with a digit before a capital',
  breaks='it is not converted back on the way out',
  demo='''
from normalize.record.json import AutoJsonRecord
d = {"fooBar": 1, "page2Size": 2, "x": {"line1Text": "a"}}
assert AutoJsonRecord(d).json_data() == d
'''),
 dict(id='auto-empty-list', property='C15',
  edits=[(J, '''    @classmethod
    def auto_upgrade_list(cls, thing):
        if len(thing) and isinstance(thing[0], dict):
            return list_of(AutoJsonRecord)(thing)
''', '''    @classmethod
    def auto_upgrade_list(cls, thing):
        if isinstance(next(iter(thing), {}), dict):
            return list_of(AutoJsonRecord)(thing)
''')],
  needs='an empty list in the JSON',
  breaks='the list becomes a collection of records',
  demo='''
from normalize.record.json import AutoJsonRecord
a = AutoJsonRecord({"l": [], "m": [1], "n": [{"x": 1}]})
assert a.l == [] and type(a.l) is list
assert a.m == [1] and a.n[0].x == 1
'''),
 dict(id='diff-moved-unchanged', property='C17',
  edits=[(D, '''                        yield diff

                    if options.moved and a_key != b_key:
''', '''                        yield diff

                    if options.moved and a_key != b_key and not any_diffs:
''')],
  needs='moved=True, and records of a list paired fuzzily which both moved '
        'and changed',
  breaks='the move is not reported',
  demo='''
from normalize import Record, Property, ListProperty
from normalize.diff import DiffTypes

class P(Record):
    name = Property(isa=str)
    a = Property(isa=str)
    b = Property(isa=str)
    c = Property(isa=str)

class L(Record):
    ps = ListProperty(of=P)

x = L(ps=[P(name="x", a="1", b="2", c="3"), P(name="y", a="4", b="5", c="6")])
y = L(ps=[P(name="y", a="4", b="5", c="6"), P(name="x", a="1", b="2", c="9")])
got = {(d.diff_type, d.base.path, d.other.path) for d in
       x.diff_iter(y, moved=True)}
assert (DiffTypes.MOVED, ".ps[1]", ".ps[0]") in got, got
assert (DiffTypes.MODIFIED, ".ps[0].c", ".ps[1].c") in got, got
assert (DiffTypes.MOVED, ".ps[0]", ".ps[1]") in got, got
'''),
]
