F = 'visitor.py'
SEEDS = [
 dict(id='visit-copy-option', property='C26',
  edits=[(F, "            ignore_empty_string=self.ignore_empty_string,\n            ignore_none=self.ignore_none,\n            visit_filter=self.visit_filter,\n",
          "            ignore_none=self.ignore_none,\n            visit_filter=self.visit_filter,\n")],
  needs='an empty text, visited with ignore_empty_string',
  breaks='the option gets lost when the visitor is copied',
  demo='''
from normalize import Record, Property
from normalize.visitor import VisitorPattern

class A(Record):
    x = Property(isa=str)
    y = Property(isa=str)

class B(Record):
    a = Property(isa=A)

got = VisitorPattern.visit(B(a=A(x="", y="1")), ignore_empty_string=True)
assert got == {"a": {"y": "1"}}, got
'''),
 dict(id='visit-empty-text', property='C26',
  edits=[(F, '''                elif mapped == "" and rv.ignore_empty_string:
''', '''                elif not mapped and rv.ignore_empty_string:
''')],
  needs='a number zero, visited with ignore_empty_string',
  breaks='it is left out',
  demo='''
from normalize import Record, Property
from normalize.visitor import VisitorPattern

class A(Record):
    x = Property(isa=int)
    y = Property(isa=str)

got = VisitorPattern.visit(A(x=0, y=""), ignore_empty_string=True)
assert got == {"x": 0}, got
'''),
 dict(id='visit-union-protest', property='C26',
  edits=[(F, '''                try:
                    mapped = cls.map(visitor, value, value_type)
                except TypeError:
                    pass
                else:
                    # this could''', '''                try:
                    mapped = cls.map(visitor, value, value_type)
                except TypeError:
                    break
                else:
                    # this could''')],
  needs='a union of record types, the first of which protests',
  breaks='the other types of the union are not tried',
  demo='''
from normalize import Record, Property
from normalize.visitor import VisitorPattern

class A(Record):
    x = Property(isa=int)

class B(Record):
    y = Property(isa=int)

class H(Record):
    v = Property(isa=(A, B))

class Picky(VisitorPattern):
    @classmethod
    def grok(cls, value, value_type, visitor):
        if value_type is A and "x" not in value:
            raise TypeError("not an A")
        return super(Picky, cls).grok(value, value_type, visitor)

got = Picky.cast(H, {"v": {"y": 1}})
assert got.v == B(y=1), got
'''),
 dict(id='visit-filter-extraneous', property='C26',
  edits=[(F, '''        return (not self.extraneous and prop.extraneous) or (
            self.visit_filter and not self.visit_filter[self.cue + [prop.name]]
        )
''', '''        if self.visit_filter:
            return not self.visit_filter[self.cue + [prop.name]]
        return not self.extraneous and prop.extraneous
''')],
  needs='an extraneous property which a filter selects',
  breaks='it is visited without being asked for',
  demo='''
from normalize import Record, Property
from normalize.selector import MultiFieldSelector
from normalize.visitor import VisitorPattern

class A(Record):
    x = Property()
    y = Property(extraneous=True)

class H(Record):
    a = Property(isa=A)

h = H(a=A(x=1, y=2))
got = VisitorPattern.visit(h, filter=MultiFieldSelector(["a"]))
assert got == {"a": {"x": 1}}, got
'''),
]
