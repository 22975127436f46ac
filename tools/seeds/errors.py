X = 'exc.py'
V = 'visitor.py'
E_ = 'empty.py'
P = 'property/__init__.py'
T = 'subtype.py'
SEEDS = [
 dict(id='err-grok-field', property='C27',
  edits=[(X, '''        u"{val} found where I'm expecting to unpack a "
        u"{record_type_name} collection at {field_selector}"
''', '''        u"{values} found where I'm expecting to unpack a "
        u"{record_type_name} collection at {field_selector}"
''')],
  needs='a collection read from something which is no list',
  breaks='the message refers to a value which is not given, so that another '
         'error is raised',
  demo='''
from normalize import Record, Property, ListProperty
from normalize import exc
from normalize.visitor import VisitorPattern

class A(Record):
    x = Property(isa=int)

class B(Record):
    items = ListProperty(of=A)

try:
    VisitorPattern.cast(B, {"items": 17})
except exc.VisitorGrokCollectionError as e:
    assert "17" in str(e), str(e)
else:
    raise AssertionError("no error")
'''),
 dict(id='err-unhashable-key', property='C27',
  edits=[('identity.py', '''                    typename=type_.__name__,
                )
            key_vals''', '''                    type_name=type_.__name__,
                )
            key_vals''')],
  needs='a primary key whose value cannot be hashed',
  breaks='the error is raised without a field which its message needs, so '
         'that another error comes out',
  demo='''
from normalize import Record, Property
from normalize import exc

class A(Record):
    x = Property(isa=dict)
    primary_key = [x]

try:
    hash(A(x={1: 2}))
except exc.KeyHashError as e:
    assert "A" in str(e), str(e)
else:
    raise AssertionError("no error")
'''),
 dict(id='empty-falsy-value', property='C28',
  edits=[(P, '''        try:
            return self.prop.__get__(obj)
        except AttributeError:
            return empty.placeholder(self.valuetype)
''', '''        try:
            value = self.prop.__get__(obj)
        except AttributeError:
            value = None
        if value is None:
            value = empty.placeholder(self.valuetype)
        return value
''')],
  needs='a slot which holds None',
  breaks='a placeholder is given although there is a value',
  demo='''
from normalize import Record, Property

class A(Record):
    x = Property()

assert A(x=None).x0 is None
assert not A().x0 and A().x0 is not None
'''),
 dict(id='empty-union-first', property='C28',
  edits=[(E_, '''                is_coll = issubclass(type_, normalize.coll.Collection)
                if is_coll:
                    coll_types.append(type_.itemtype)
''', '''                is_coll = issubclass(type_, normalize.coll.Collection)
                if is_coll:
                    coll_types = [type_.itemtype]
                    break
''')],
  needs='a property which may be one of two collections',
  breaks='the items of the second one are taken for those of the first',
  demo='''
from normalize import Record, Property
from normalize.coll import list_of

class A(Record):
    x = Property(isa=int)

class B(Record):
    y = Property(isa=int)

class C(Record):
    c = Property(isa=(list_of(A), list_of(B)))

c = C()
assert not c.c0[0].x
assert not c.c0[0].y
'''),
 dict(id='empty-accessor-type', property='C28',
  edits=[(P, '''            self.empty_attr = (
                (name + "0") if name[-1] not in "0123456789" else None
            )
''', '''            self.empty_attr = (
                (name + "0") if not name[-1:].isnumeric() or
                name.endswith("0") else None
            )
''')],
  needs='a property whose name ends in 0',
  breaks='it gets an accessor ...00',
  demo='''
from normalize import Record, Property

class A(Record):
    x10 = Property(isa=int)

assert not hasattr(A(), "x100")
'''),
 dict(id='subtype-where-error', property='C29',
  edits=[(T, '''        except:
            ok = False
''', '''        except (TypeError, ValueError):
            ok = False
''')],
  needs='a condition which fails with another error',
  breaks='the error of the condition gets out of isinstance()',
  demo='''
from normalize.subtype import subtype

Even = subtype("Even", of=dict, where=lambda d: d["n"] % 2 == 0)
assert isinstance({"n": 2}, Even)
assert not isinstance({"n": 1}, Even)
assert not isinstance({}, Even)
'''),
]
SEEDS.append(
 dict(id='err-conversion-kind', property='C27',
  edits=[('coll.py', '''            except Exception as e:
                raise exc.CollectionItemCoerceError(''', '''            except (TypeError, ValueError) as e:
                raise exc.CollectionItemCoerceError(''')],
  needs='a member whose conversion raises something else than a TypeError or '
        'a ValueError',
  breaks='the error of the conversion leaves the collection as it is and '
         'nothing says which value could not be converted',
  demo='''
from normalize import Record, Property
from normalize.coll import ListCollection
from normalize import exc

class A(Record):
    x = Property(isa=int)

class AList(ListCollection):
    itemtype = A
    coerceitem = staticmethod(lambda v: A(x=v["x"]))

try:
    AList([{"y": 1}])
except exc.CollectionItemCoerceError as e:
    assert isinstance(e.exc, KeyError)
    assert e.passed == {"y": 1}
else:
    raise AssertionError
'''))
