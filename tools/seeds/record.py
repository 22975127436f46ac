F = 'record/__init__.py'
M = 'record/meta.py'
J = 'record/json.py'
I = 'identity.py'
SEEDS = [
 dict(id='eq-subclass', property='C06',
  edits=[(F, "        if type(self) != type(other):\n            return False\n", "        if not isinstance(other, type(self)):\n            return False\n")],
  needs='a record compared with one of a sub-class which adds properties',
  breaks='a record equals a record of another class (but not the other way around)',
  demo='''
from normalize import Record, Property

class A(Record):
    x = Property()

class B(A):
    y = Property()

assert not A(x=1).__eq__(B(x=1, y=2))
assert B(x=1, y=2) != A(x=1)
assert A(x=1) == A(x=1)
'''),
 dict(id='pickle-known-only', property='C07',
  edits=[(F, "        self.__dict__.update(instance_dict)\n", "        for k, v in instance_dict.items():\n            if k in type(self).properties or v is not None:\n                self.__dict__[k] = v\n            else:\n                self.__dict__.setdefault(k)\n            if k.startswith('_'):\n                del self.__dict__[k]\n")],
  needs='a record whose property name starts with an underscore',
  breaks='slots of private properties are lost by pickling and copying',
  demo='''
import copy
from normalize import Record, Property

class A(Record):
    _x = Property()
    y = Property()

a = A(_x=1, y=2)
b = copy.copy(a)
assert b._x == 1 and b.y == 2
'''),
 dict(id='init-unknown-none', property='C08',
  edits=[(F, "            if meta_prop is None:\n                raise", "            if meta_prop is None and val is None:\n                continue\n            if meta_prop is None:\n                raise")],
  needs='an unknown constructor argument holding None',
  breaks='an unknown name is silently accepted',
  demo='''
from normalize import Record, Property
import normalize.exc as exc

class A(Record):
    x = Property()

try:
    A(x=1, z=None)
except exc.PropertyNotKnown:
    pass
else:
    raise AssertionError("accepted")
'''),
 dict(id='meta-eager-inherited', property='C09',
  edits=[(M, "            k for k, v in properties.items() if v.eager_init()\n        )\n", "            k for k, v in properties.items() if v.eager_init()\n        ).union(*(getattr(b, 'eager_properties', ()) for b in bases))\n")],
  needs='a sub-class which redeclares a property of the base without its default',
  breaks='the redeclared property is still initialised eagerly',
  demo='''
from normalize import Record, Property

class A(Record):
    x = Property(default=1)

class B(A):
    x = Property()

assert A.eager_properties == frozenset(["x"])
assert B.eager_properties == frozenset(), B.eager_properties
'''),
 dict(id='json-name-given', property='C10',
  edits=[(J, "                    if propname not in kwargs:\n                        try:", "                    if propname not in kwargs and json_name not in kwargs:\n                        try:")],
  needs='a keyword argument for a property whose name is the JSON name of another property',
  breaks='the other property is not read from the JSON',
  demo='''
from normalize.record.json import JsonRecord
from normalize import JsonProperty

class A(JsonRecord):
    x = JsonProperty(json_name="y")
    y = JsonProperty(json_name="z")

a = A({"y": 1, "z": 2}, y=5)
assert a.y == 5
assert a.x == 1, a
'''),
 dict(id='json-out-hidden', property='C11',
  edits=[(J, "            elif not hasattr(prop, \"json_name\") or prop.json_name is not None:\n", "            elif getattr(prop, \"json_name\", prop.name):\n")],
  needs='a property whose JSON name is the empty string',
  breaks='a property with a (falsy) JSON name is not written',
  demo='''
from normalize.record.json import JsonRecord
from normalize import JsonProperty

class A(JsonRecord):
    x = JsonProperty(json_name="")

assert A({"": 1}).x == 1
assert A({"": 1}).json_data() == {"": 1}
'''),
 dict(id='unknown-shallow', property='C12',
  edits=[(J, "            (k, deepcopy(json_struct[k])) for k in unknown_keys\n", "            (k, dict(json_struct[k]) if type(json_struct[k]) is dict else deepcopy(json_struct[k])) for k in unknown_keys\n")],
  needs='an unknown key holding an object which holds another object, which the caller changes afterwards',
  breaks='unknown keys share structure with the input',
  demo='''
from normalize.record.json import JsonRecord

class A(JsonRecord):
    pass

src = {"u": {"v": {"w": 1}}}
a = A(src)
src["u"]["v"]["w"] = 2
assert a.unknown_json_keys == {"u": {"v": {"w": 1}}}, a.unknown_json_keys
'''),
 dict(id='json-error-name', property='C13',
  edits=[(J, "                            raise _box_ingress_error(json_name, e)", "                            raise _box_ingress_error(propname, e)")],
  needs='a failing conversion of a property with another JSON name',
  breaks='the path of the error names the property, not the JSON key',
  demo='''
from normalize.record.json import JsonRecord
from normalize import JsonProperty
import normalize.exc as exc

class A(JsonRecord):
    x = JsonProperty(json_name="X", json_in=lambda v: int(v))

try:
    A({"X": "no"})
except exc.JsonConversionError as e:
    assert e.error_fs[0] == "X", e.error_fs
else:
    raise AssertionError
'''),
 dict(id='json-empty-ignored', property='C14',
  edits=[(J, "        if json_data is not None:\n            kwargs = type(self).json_to_initkwargs(json_data, kwargs)\n        super(JsonRecordDict", "        if json_data:\n            kwargs = type(self).json_to_initkwargs(json_data, kwargs)\n        super(JsonRecordDict")],
  needs='an empty list as the document of a JSON dictionary of records',
  breaks='the document is ignored and not refused',
  demo='''
from normalize.record.json import JsonRecord, JsonRecordDict

class A(JsonRecord):
    pass

class D(JsonRecordDict):
    itemtype = A

for data in ([], "[]", b"[]", 0):
    try:
        D(data)
    except Exception:
        pass
    else:
        raise AssertionError(data)
'''),
 dict(id='eq-unset-none', property='C06',
  edits=[(F, "                if getattr(self, propname, _Unset) != getattr(\n                    other, propname, _Unset\n                ):", "                if getattr(self, propname, _Unset) != getattr(\n                    other, propname, getattr(self, propname, _Unset)\n                ):")],
  needs='a slot set on the left and unset on the right side',
  breaks='a record equals one with fewer slots set',
  demo='''
from normalize import Record, Property

class A(Record):
    x = Property()
    y = Property()

assert A(x=1, y=2) != A(x=1)
assert A(x=1) != A(x=1, y=2)
'''),
 dict(id='auto-nc-list', property='C15',
  edits=[(J, "            return list_of(NCAutoJsonRecord)(thing)", "            return list_of(AutoJsonRecord)(thing)")],
  needs='a key in camel case in an object in a list in a record which keeps such keys',
  breaks='the objects of the list are records of another kind',
  demo='''
from normalize.record.json import NCAutoJsonRecord

a = NCAutoJsonRecord({"xs": [{"fooBar": 1}]})
assert isinstance(a.xs[0], NCAutoJsonRecord)
assert a.xs[0].fooBar == 1
'''),
]
