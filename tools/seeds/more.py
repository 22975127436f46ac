P = 'property/__init__.py'
J = 'record/json.py'
S = 'subtype.py'
M = 'record/meta.py'
SEEDS = [
 dict(id='subtype-metaclass-coerce', property='C29',
  edits=[(S, '            return typcls(name, of, where, coerce)',
          '            return typcls(name, of, where)')],
  needs='a subtype with a coerce function of a type which has a metaclass of its own, eg a Record',
  breaks='the coerce function of the subtype is lost',
  demo='''
from normalize import Record, Property
from normalize.subtype import subtype

class Point(Record):
    x = Property(isa=int)

Positive = subtype("Positive", of=Point, where=lambda p: p.x > 0,
                   coerce=lambda v: Point(x=v))
assert Positive(3) == Point(x=3)
'''),
 dict(id='required-false-refused', property='C01',
  edits=[(P, '        if value is None and self.required and not self.valuetype:',
          '        if not value and self.required and not self.valuetype:')],
  needs='a false value for a required property without a type',
  breaks='0 and empty values are refused',
  demo='''
from normalize import Record, Property

class R(Record):
    n = Property(required=True)

for v in (0, "", False, []):
    assert R(n=v).n == v
'''),
 dict(id='coerced-false-dropped', property='C01',
  edits=[(P, '                if _none_ok and new_value is None and not self.required:',
          '                if _none_ok and not new_value and not self.required:')],
  needs='a conversion which gives a false value of another type, at construction',
  breaks='the value given is dropped silently instead of being refused',
  demo='''
from normalize import Record, Property
import normalize.exc as exc

class R(Record):
    n = Property(isa=int, coerce=lambda s: s.strip())

try:
    R(n="  ")
except exc.CoercionError:
    pass
else:
    raise SystemExit("dropped")
'''),
 dict(id='default-type-kept', property='C02',
  edits=[(P, '''        if callable(self.default):
            if self.default_is_method:
''', '''        if inspect.isroutine(self.default):
            if self.default_is_method:
''')],
  needs='a type, or another callable which is no function, as the default',
  breaks='the type is the value instead of what it makes',
  demo='''
from normalize import Record, Property

class Seq(object):
    def __call__(self):
        return 7

class R(Record):
    n = Property(default=Seq())

assert R().n == 7, R().n
'''),
 dict(id='json-empty-members', property='C10',
  edits=[(J, '''        if kwargs.get('values', None) is None:
            kwargs['values'] = values = {}
''', '''        if not kwargs.get('values'):
            kwargs['values'] = values = {}
''')],
  needs='an empty mapping of members given by keyword along with JSON',
  breaks='the members of the JSON replace those which are given',
  demo='''
from normalize import Property, JsonRecord
from normalize.record.json import JsonRecordDict

class Item(JsonRecord):
    id = Property(isa=str)

class Items(JsonRecordDict):
    itemtype = Item

assert len(Items({"a": {"id": "1"}}, values={})) == 0
'''),
 dict(id='inherited-rebound', property='C09',
  edits=[(M, '''        for propname, prop in local_props.items():
            prop.bind(self)
''', '''        for prop in properties.values():
            prop.bind(self)
''')],
  needs='an error about an inherited property after a sub-class was made',
  breaks='the property of the base is bound to the last class which inherits it',
  demo='''
from normalize import Record, Property

class Base(Record):
    n = Property(isa=int)

before = Base.n.fullname

class Sub(Base):
    pass

assert Base.n.fullname == before == "Base.n", Base.n.fullname
'''),
 dict(id='empty-any-text', property='C28',
  edits=[('empty.py', '"any" if self._typetuple is any else ",".join(',
          '"any" if not self._typetuple else ",".join(')],
  needs='the text of a placeholder for anything',
  breaks='it raises a TypeError',
  demo='''
from normalize import Record, Property

class R(Record):
    n = Property()

assert "any" in repr(R().n0) and "any" in str(R().n0)
'''),
]
