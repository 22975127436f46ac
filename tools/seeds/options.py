P = 'property/__init__.py'
C = 'property/coll.py'
SEEDS = [
 dict(id='type-default-falsy', property='C32',
  edits=[(P, """            if arg not in kwargs:
                kwargs[arg] = val
""", """            if val and arg not in kwargs:
                kwargs[arg] = val
""")],
  needs='a type made by make_property_type with an option which is false in itself but is no default of Property: default=0, default="", json_name=""',
  breaks='the option of the type is dropped: the property has no default',
  demo='''
from normalize import Record
from normalize.property import make_property_type

Count = make_property_type("Count", isa=int, default=0, trait_name="count")
Named = make_property_type("Named", json_name="", trait_name="named0")

class A(Record):
    n = Count()
    m = Count(default=3)

a = A()
assert a.n == 0 and a.m == 3
'''),
 dict(id='coll-of-sideways', property='C32',
  edits=[(C, "                    (of and not issubclass(of, isa.itemtype)):\n",
          "                    (of and not issubclass(isa.itemtype, of)):\n")],
  needs='both a concrete type of collection and a type of items are given, and one of the types of items derives from the other',
  breaks='a narrower type of items is refused and a wider one is accepted, although the collection can hold no such items',
  demo='''
from normalize import Record, RecordList, Property
from normalize.coll import list_of
from normalize.property.coll import CollectionProperty
import normalize.exc as exc

class Base(Record):
    a = Property(isa=int)

class Sub(Base):
    b = Property(isa=int)

Bases, Subs = list_of(Base), list_of(Sub)
CollectionProperty(isa=Bases, of=Sub)
CollectionProperty(isa=Subs, of=Sub)
try:
    CollectionProperty(isa=Subs, of=Base)
except exc.CollTypeMismatch:
    pass
else:
    raise AssertionError("a list of Sub cannot hold every Base")
'''),
 dict(id='list-of-record-coll', property='C32',
  edits=[(C, """        colltype = kwargs.pop('coll', self.coll_type)
        if not issubclass(colltype, ListCollection):
""", """        colltype = kwargs.pop('coll', None) or self.coll_type
        if not issubclass(colltype, self.coll_type) and \\
                not issubclass(self.coll_type, colltype):
""")],
  needs='a list property of a type which has its own type of collection (JsonListProperty), and coll= is another list type',
  breaks='a list type which fits is refused, and the base of all collections is accepted',
  demo='''
from normalize import Record, Property
from normalize.coll import ListCollection, Collection
from normalize.property.coll import ListProperty
from normalize.property.json import JsonListProperty
import normalize.exc as exc

class Item(Record):
    a = Property(isa=int)

class Plain(ListCollection):
    pass

p = JsonListProperty(of=Item, coll=Plain)
assert issubclass(p.valuetype, Plain), p.valuetype
for t in ListProperty, JsonListProperty:
    try:
        t(of=Item, coll=Collection)
    except exc.ListPropertyMustDeriveListCollection:
        continue
    raise AssertionError(t)
'''),
 dict(id='v1-none-given-default', property='C32',
  edits=[(P, """        if v1_none is _none and 'default' in kwargs and \\
           looks_like_v1_none""", """        if v1_none in (_none, None) and 'default' in kwargs and \\
           looks_like_v1_none""")],
  needs='a legacy property with an explicit v1_none=None and an empty constant as default',
  breaks='the default is taken for the legacy none: the slot is not set, and None is not what an unset slot gives',
  demo='''
from normalize import Record, V1Property
from normalize.property import V1Property

class A(Record):
    a = V1Property(isa=int, default=0, v1_none=None)
    b = V1Property(isa=int, default=0)

a = A()
assert a.__dict__.get("a") == 0, a.__dict__
assert A.properties["a"].v1_none is None
assert A.properties["b"].v1_none == 0
a.a = None
assert a.a is None, a.a
'''),
]
