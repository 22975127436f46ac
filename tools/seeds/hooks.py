F = 'visitor.py'
R = 'record/__init__.py'
J = 'record/json.py'
C = 'coll.py'
SEEDS = [
 dict(id='cast-empty-items', property='C33',
  edits=[(F, '''                if "values" in value:
                    values = value['values']
''', '''                if value.get("values"):
                    values = value['values']
''')],
  needs='a collection with properties which holds nothing, cast back from what a visit made of it',
  breaks='the names of the properties are taken for the items',
  demo='''
from normalize import Record, Property
from normalize.coll import ListCollection
from normalize.visitor import VisitorPattern

class Item(Record):
    id = Property(isa=str)

class Items(ListCollection):
    itemtype = Item
    owner = Property(isa=str)

xs = Items([], owner="me")
dumped = VisitorPattern.visit(xs)
assert dumped == {"owner": "me", "values": []}, dumped
back = VisitorPattern.cast(Items, dumped)
assert len(back) == 0 and back.owner == "me", back
'''),
 dict(id='visit-empty-collection', property='C33',
  edits=[(F, '''        if issubclass(value_type, Collection) and aggregated is not None:
''', '''        if issubclass(value_type, Collection) and aggregated:
''')],
  needs='an empty collection in a record',
  breaks='a visit gives an empty dict instead of an empty list',
  demo='''
from normalize import Record, Property, ListProperty
from normalize.visitor import VisitorPattern

class Item(Record):
    id = Property(isa=str)

class Box(Record):
    items = ListProperty(of=Item)

got = VisitorPattern.visit(Box(items=[]))
assert got == {"items": []}, got
'''),
 dict(id='apply-exception-value', property='C33',
  edits=[(F, '''            None if isinstance(value, (AttributeError, KeyError)) else
            value
        )

    @classmethod
    def aggregate(''', '''            None if isinstance(value, Exception) else
            value
        )

    @classmethod
    def aggregate(''')],
  needs='a property which holds an exception',
  breaks='it is taken for an empty slot',
  demo='''
from normalize import Record, Property
from normalize.visitor import VisitorPattern

class Job(Record):
    error = Property(isa=Exception)
    id = Property(isa=int)

err = ValueError("no")
got = VisitorPattern.visit(Job(id=1, error=err))
assert got == {"id": 1, "error": err}, got
'''),
 dict(id='reflect-first-type', property='C33',
  edits=[(F, '''                    for vt in value_type.itemtype:
                        yield (vt, vt)
''', '''                    for vt in value_type.itemtype[:1]:
                        yield (vt, vt)
''')],
  needs='a collection of several types, reflected',
  breaks='only the first type is told',
  demo='''
from normalize import Record, Property
from normalize.coll import ListCollection
from normalize.visitor import VisitorPattern

class A(Record):
    id = Property(isa=str)

class B(Record):
    no = Property(isa=int)

class Mixed(ListCollection):
    itemtype = (A, B)

get, items = VisitorPattern.scantypes(None, Mixed, None)
assert [x for x, y in items] == [A, B]
'''),
 dict(id='repr-lazy-computed', property='C34',
  edits=[(R, '''            if propname not in self.__dict__:
                continue
            else:
                values.append("%s=%r" % (propname, self.__dict__[propname]))
''', '''            value = getattr(self, propname, _Unset)
            if value is _Unset:
                continue
            else:
                values.append("%s=%r" % (propname, value))
''')],
  needs='a record with a lazy property, printed',
  breaks='printing it computes (and stores) the value',
  demo='''
from normalize import Record
from normalize.property import LazyProperty

calls = []

class A(Record):
    x = LazyProperty(default=lambda: calls.append(1) or 5)

a = A()
assert repr(a) == "A()", repr(a)
assert not calls
'''),
 dict(id='repr-nested-brackets', property='C34',
  edits=[(J, '''        return super_repr.replace("[", "values=[", 1)
''', '''        return super_repr.replace("[", "values=[")
''')],
  needs='a JSON list whose items hold lists',
  breaks='the source is not valid',
  demo='''
from normalize import Property
from normalize.record.json import JsonRecord, JsonRecordList

class A(JsonRecord):
    tags = Property(isa=list)

class As(JsonRecordList):
    itemtype = A

xs = As(values=[A(tags=["a", "b"])])
assert eval(repr(xs)) == xs
'''),
]
