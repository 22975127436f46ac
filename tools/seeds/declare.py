F = 'property/meta.py'
P = 'property/__init__.py'
SEEDS = [
 dict(id='duck-type-unsafe', property='C31',
  edits=[(F, """                    if proptype.__safe_unless_ro__:
                        safe_unless_ro = True
""", "")],
  needs='a collection property declared through its option (Property(list_of=...)) instead of by the name of its type, and a later assignment of a wrong value',
  breaks='the property is not safe: whatever is assigned is stored unconverted',
  demo='''
from normalize import Record, Property, RecordList
import normalize.exc as exc

class Item(Record):
    name = Property(isa=str)

class A(Record):
    items = Property(list_of=Item)

a = A(items=[{"name": "x"}])
a.items = [{"name": "y"}]
assert isinstance(a.items, RecordList), type(a.items)
assert isinstance(a.items[0], Item)
try:
    a.items = 17
except exc.CoercionError:
    pass
else:
    raise AssertionError("assigned %r" % (a.items,))
'''),
 dict(id='ambiguous-first', property='C31',
  edits=[(F, "            if len(implies_traits) > 1:\n",
          "            if len(implies_traits) > len(extra_traits) + 1:\n")],
  needs='an option which two types of property know, together with another trait in the same declaration',
  breaks='one of the types is taken, instead of refusing the declaration as ambiguous',
  demo='''
from normalize import Property
from normalize.property import SafeProperty
import normalize.exc as exc

class Metres(SafeProperty):
    __trait__ = "metres"
    def __init__(self, scale=None, **kwargs):
        super(Metres, self).__init__(**kwargs)

class Feet(SafeProperty):
    __trait__ = "feet"
    def __init__(self, scale=None, **kwargs):
        super(Feet, self).__init__(**kwargs)

for traits in ([], ["safe"]):
    try:
        p = Property(scale=2, traits=traits)
    except exc.AmbiguousPropertyTraitArg:
        pass
    else:
        raise AssertionError("%s for traits=%r" % (type(p), traits))
'''),
 dict(id='v1-lazy-empty', property='C31',
  edits=[(P, """        if self.v1_upgraded:
            return False
        return super(""", """        if self.v1_upgraded or self.name not in obj.__dict__:
            return not self.v1_upgraded
        return super(""")],
  needs='a lazy JSON property with a legacy none, declared after an eager JSON property with a legacy none, so that the new type is mixed from that one',
  breaks='the lazy value is left out of the JSON form; it is not if the declarations are made in the other order',
  demo='''
from normalize import Property
from normalize.record.json import JsonRecord

class A(JsonRecord):
    a = Property(json_name="A", v1_none="", isa=str)

class B(JsonRecord):
    b = Property(json_name="B", v1_none="", isa=str, lazy=True,
                 default=lambda: "x")

assert B().json_data() == {"B": "x"}, B().json_data()
'''),
 dict(id='no-trait-options', property='C31',
  edits=[(F, """        if trait:
            for kwarg in duckwargs:
                DUCKWARGS""", """        if traits:
            for kwarg in duckwargs:
                DUCKWARGS""")],
  needs='a convenience subclass of a property type without a trait of its own that redefines __init__, and later a plain Property() with one of those options',
  breaks='a later plain declaration is refused as ambiguous, or takes traits it did not ask for',
  demo='''
from normalize import Record, Property
from normalize.property.json import JsonProperty

class Named(JsonProperty):
    def __init__(self, json_name=None, **kwargs):
        super(Named, self).__init__(json_name=json_name, **kwargs)
'''.replace('class Named', '''try:
    pass
finally:
    pass

from normalize.property import ROProperty, LazyProperty

class ROLabel(ROProperty, JsonProperty):
    def __init__(self, json_name=None, label=None, **kwargs):
        super(ROLabel, self).__init__(json_name=json_name, **kwargs)

class A(Record):
    x = Property(json_name="X", isa=int)

assert "ro" not in A.x.traits, A.x.traits
a = A(x=1)
a.x = 2
assert a.x == 2

class Unused''').split('class Unused')[0]),
]
