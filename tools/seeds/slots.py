F = 'property/__init__.py'
SEEDS = [
 dict(id='subtype-coerce-shortcut', property='C01',
  edits=[(F, """                # unless the coerce method returned None
                new_value = e.coerced
""", """                # unless the coerce method returned None
                if e.coerced is not None:
                    return e.coerced
                new_value = None
""")],
  needs='a subtype-typed property whose coerce function returns a non-None value that still fails the subtype test',
  breaks='the value which the subtype refused is stored in the slot instead of raising',
  demo='''
from normalize import Record, Property
from normalize.subtype import subtype
import normalize.exc as exc
Even = subtype("Even", of=int, where=lambda x: x % 2 == 0, coerce=int)

class R(Record):
    n = Property(isa=Even, check=lambda x: x < 100)

assert R(n="42").n == 42
for bad in ("43", "200"):
    try:
        r = R(n=bad)
    except (exc.CoercionError, exc.ValueCheckError, ValueError):
        pass
    else:
        raise AssertionError("slot holds %r" % (r.n,))
'''),
 dict(id='lazy-none-unchecked', property='C01',
  edits=[(F, """            value = self.get_default(obj)
            obj.__dict__[self.name] = self.type_safe_value(value)
""", """            value = self.get_default(obj)
            if value is not None:
                value = self.type_safe_value(value)
            obj.__dict__[self.name] = value
""")],
  needs='a typed lazy property whose default method computes None',
  breaks='None is stored in a slot whose declared type does not accept it',
  demo='''
from normalize import Record, Property
import normalize.exc as exc

class R(Record):
    a = Property()
    n = Property(isa=str, coerce=lambda x: "(%r)" % (x,), lazy=True, default=lambda self: self.a)
    k = Property(lazy=True, default=lambda self: self.a, check=lambda x: x is not None)

assert R(a="x").n == "x"
assert R(a=1).n == "(1)"
assert isinstance(R(a=None).n, str), R(a=None).n
try:
    v = R(a=None).k
except exc.ValueCheckError:
    pass
else:
    raise AssertionError(v)
'''),
 dict(id='required-none-coerce', property='C02',
  edits=[(F, """                if _none_ok and new_value is None and not self.required:
""", """                if _none_ok and new_value is None:
"""), (F, """            if self.required:
                raise exc.PropertyRequired(prop=self)
        else:
            obj.__dict__[self.name] = new_value
""", """            if self.required and value is _none:
                raise exc.PropertyRequired(prop=self)
        else:
            obj.__dict__[self.name] = new_value
""")],
  needs='a required typed property given a value its coerce function turns into None (two edits which are each harmless alone)',
  breaks='construction succeeds and the required slot is empty',
  demo='''
from normalize import Record, Property

class R(Record):
    n = Property(isa=int, coerce=lambda x: int(x) if x else None, required=True)
    m = Property(isa=int, coerce=lambda x: int(x) if x else None)

assert R(n="4").n == 4
assert R(n=1, m="").n == 1
try:
    r = R(n="")
except Exception:
    pass
else:
    raise AssertionError("required slot empty: %r" % r.__dict__)
'''),
 dict(id='ro-lazy-prime', property='C03',
  edits=[(F, """class ROLazyProperty(LazyProperty, ROProperty):
""", """class ROLazyProperty(LazyProperty, ROProperty):
    def __set__(self, obj, value):
        \"\"\"The value may be primed before it is first computed\"\"\"
        if self.name in obj.__dict__:
            return super(ROLazyProperty, self).__set__(obj, value)
        obj.__dict__[self.name] = self.type_safe_value(value)

""")],
  needs='assignment to a read-only lazy property before its first read',
  breaks='the assignment succeeds although the property is read-only',
  demo='''
from normalize import Record, Property
import normalize.exc as exc

class R(Record):
    a = Property()
    n = Property(traits=["ro"], lazy=True, default=lambda self: self.a)

r = R(a=1)
for i in range(2):
    try:
        r.n = 5
    except exc.ReadOnlyAttributeError:
        pass
    else:
        raise AssertionError("assigned")
    assert r.n == 1
'''),
 dict(id='lazy-none-recomputed', property='C04',
  edits=[(F, """            value = self.get_default(obj)
            obj.__dict__[self.name] = self.type_safe_value(value)

        return""", """            value = self.type_safe_value(self.get_default(obj))
            if value is None and not self.required:
                # nothing to remember
                return value
            obj.__dict__[self.name] = value

        return""")],
  needs='a lazy property whose default computes None, read twice',
  breaks='the default is computed again on every read and the slot stays unset',
  demo='''
from normalize import Record, Property
calls = []

class R(Record):
    n = Property(lazy=True, default=lambda self: calls.append(1))
    z = Property(isa=int, lazy=True, default=lambda self: calls.append(1) or 0)

r = R()
assert not calls
assert r.z == 0 and r.z == 0 and len(calls) == 1
del calls[:]
assert r.n is None and r.n is None
assert len(calls) == 1, len(calls)
'''),
 dict(id='dict-update-raw', property='C05',
  edits=[('coll.py', """            for k in list(iterable.keys()):
                self[k] = self.coerce_value(iterable[k])
        elif iterable is not None:
""", """            if isinstance(iterable, DictCollection):
                # members are already the right type
                self._values.update(iterable._values)
            else:
                for k in list(iterable.keys()):
                    self[k] = self.coerce_value(iterable[k])
        elif iterable is not None:
""")],
  needs='update() of a dict collection from a dict collection with another item type',
  breaks='foreign members are put into the collection unconverted',
  demo='''
from normalize import Record, Property
from normalize.coll import dict_of

class A(Record):
    n = Property()

class B(Record):
    n = Property()

x = dict_of(A)({"p": A(n=1)})
x.update({"q": {"n": 3}} if False else {"q": A(n=3)})
assert all(isinstance(v, A) for v in x.values())
y = dict_of(B)({"r": B(n=2)})
try:
    x.update(y)
except Exception:
    pass
assert all(isinstance(v, A) for v in x.values()), x
'''),
 dict(id='list-add-raw', property='C05',
  edits=[('coll.py', """            other = type(self)(other)
        return type(self)(self._values + other._values)
""", """            other = type(self)(other)
        rv = type(self)(self._values)
        rv._values.extend(other._values)
        return rv
""")],
  needs='adding a list collection of another item type to a list collection',
  breaks='the sum holds members of the other type',
  demo='''
from normalize import Record, Property
from normalize.coll import list_of

class A(Record):
    n = Property()

class B(Record):
    n = Property()

class AL(list_of(A)):
    extra = Property()

x = AL([A(n=i) for i in range(4)])
assert len(x + [A(n=5)]) == 5
try:
    y = x + list_of(B)([B(n=1)])
except Exception:
    pass
else:
    assert all(isinstance(v, A) for v in y), list(y)
'''),
]
