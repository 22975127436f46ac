F = 'selector.py'
SEEDS = [
 dict(id='delete-falsy', property='C22',
  edits=[(F, '''            if hasattr(record, to_delete):
                delattr(record, to_delete)
''', '''            if getattr(record, to_delete, None):
                delattr(record, to_delete)
''')],
  needs='an attribute which is set to a false value',
  breaks='the attribute is not deleted',
  demo='''
from normalize import Record, Property
from normalize.selector import FieldSelector

class A(Record):
    x = Property()

for v in (1, 0, ""):
    a = A(x=v)
    FieldSelector(["x"]).delete(a)
    assert not hasattr(a, "x"), v
'''),
 dict(id='post-falsy-final', property='C22',
  edits=[(F, "                    setattr(record, selector, prop.valuetype(**kwarg))\n                    if kwarg:\n",
          "                    setattr(record, selector, prop.valuetype(**kwarg))\n                    if kwarg or i:\n")],
  needs='post() of three levels of which the upper two do not exist yet',
  breaks='the value is not set',
  demo='''
from normalize import Record, Property
from normalize.selector import FieldSelector

class A(Record):
    x = Property()

class B(Record):
    a = Property(isa=A, default=lambda: A())

class C(Record):
    b = Property(isa=B)

class D(Record):
    c = Property(isa=C)

d = D(c=C())
assert FieldSelector(["c", "b", "a", "x"]).post(d, 5) == 1
assert d.c.b.a.x == 5
'''),
 dict(id='lt-reflexive', property='C23',
  edits=[(F, "return len(self.selectors) < len(other.selectors)", "return len(self.selectors) <= len(other.selectors)")],
  needs='two equal selectors which are compared',
  breaks='a selector is less than an equal one',
  demo='''
from normalize.selector import FieldSelector

a, b = FieldSelector(["x", 1]), FieldSelector(["x", 1])
assert not a < b and not b < a
assert FieldSelector(["x"]) < a
'''),
 dict(id='mfs-subsumed', property='C25',
  edits=[(F, "            (head, all if all in tail else MultiFieldSelector(*tail))\n",
             "            (head, all if tail == {all} else\n             MultiFieldSelector(*(x for x in tail if x is not all)))\n")],
  needs='a selector of a whole field along with one of a part of it',
  breaks='the whole field is no longer selected',
  demo='''
from normalize.selector import FieldSelector, MultiFieldSelector

m = MultiFieldSelector(["a"], ["a", "b"])
assert FieldSelector(["a", "c"]) in m
assert [x.selectors for x in m] == [["a"]]
'''),
 dict(id='mfs-get-shared', property='C25',
  edits=[(F, """        if tail is all:
            return deepcopy(obj)
""", """        if tail is all and isinstance(obj, (list, dict)):
            return obj[:] if isinstance(obj, list) else obj.copy()
        elif tail is all:
            return deepcopy(obj)
""")],
  needs='get() of a whole list of mutable members, one of which is changed later',
  breaks='the filtered copy shares the members with the object',
  demo='''
from normalize.selector import MultiFieldSelector

d = {"a": [{"x": 1}], "b": 2}
c = MultiFieldSelector(["a"]).get(d)
c["a"][0]["x"] = 5
assert d == {"a": [{"x": 1}], "b": 2}, d
'''),
 dict(id='mfs-patch-order', property='C25',
  edits=[(F, """            try:
                fs_val.append((fs, fs.get(source)))
            except AttributeError:
                fs_val.append((fs, _None))
""", """            try:
                val = fs.get(source)
                if val is not fs.get_or_none(target):
                    fs_val.append((fs, val))
            except AttributeError:
                fs_val.append((fs, _None))
""")],
  needs='patch() of a field set to None in the source and missing in the target',
  breaks='a field which is None in the source is not set in the target',
  demo='''
from normalize import Record, Property
from normalize.selector import MultiFieldSelector

class A(Record):
    x = Property()
    y = Property()

a, b = A(y=1), A(x=None, y=2)
MultiFieldSelector(["x"], ["y"]).patch(a, b)
assert a.y == 2
assert a.x is None
'''),
 dict(id='mfs-lookup-end', property='C25',
  edits=[(F, """            if head is all:
                return type(self).complete_mfs()
            elif tail:
""", """            if head is all:
                return type(self).complete_mfs() if not tail else self
            elif tail:
""")],
  needs='looking up a path below a field which is selected as a whole',
  breaks='the selector found selects other fields',
  demo='''
from normalize.selector import FieldSelector, MultiFieldSelector

m = MultiFieldSelector(["a"], ["b", "c"])
assert m[("a", "x")].complete
assert ("a", "x") in m
'''),
]
