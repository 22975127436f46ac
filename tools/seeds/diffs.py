F = 'diff.py'
I = 'identity.py'
SEEDS = [

 dict(id='diff-same-object', property='C16',
  edits=[(F, '''        if propval_a is _nothing and propval_b is _nothing:
            # don't''', '''        if propval_a is propval_b:
            # don't''')],
  needs='unchanged=True and a slot which holds the very same object on both sides',
  breaks='unchanged slots are not reported although asked for',
  demo='''
from normalize import Record, Property
from normalize.diff import DiffTypes

class I(Record):
    n = Property()

class R(Record):
    a = Property()
    i = Property(isa=I)

x, y = I(n=object()), object()
d = list(R(a=y, i=x).diff_iter(R(a=y, i=x), unchanged=True))
assert sorted(k.base.path for k in d) == [".a", ".i.n"], d
'''),
 dict(id='diff-onesided-place', property='C16',
  edits=[(F, """                    diff_type=net_diff,
                        base=prop_fs_a,
                        other=prop_fs_b,
""", """                    diff_type=net_diff,
                        base=diff.base,
                        other=diff.other,
""")] if False else [(F, """            if one_side_nothing:
                diff_types_found = set()

            for diff in""", """            diff_types_found = set()

            for diff in"""), (F, """                if one_side_nothing:
                    if diff.diff_type != DiffTypes.NO_CHANGE:
                        diff_types_found.add(diff.diff_type)
                else:
                    yield diff
""", """                if diff.diff_type != DiffTypes.NO_CHANGE:
                    diff_types_found.add(diff.diff_type)
                elif one_side_nothing:
                    continue
                if not one_side_nothing or options.unchanged:
                    yield diff
""")],
  needs='unchanged=True with ignore_empty_slots=True and a list slot set on one side only',
  breaks='a slot set on one side only is reported more than once',
  demo='''
from normalize import Record, Property, ListProperty
from normalize.diff import DiffTypes

class I(Record):
    n = Property()
    primary_key = [n]

class R(Record):
    xs = ListProperty(of=I)

d = list(R(xs=[I(n=1), I(n=2)]).diff_iter(R(), ignore_empty_slots=True, unchanged=True))
assert [(str(x.diff_type), x.base.path) for x in d] in (
    [(str(DiffTypes.REMOVED), ".xs")],), [str(x) for x in d]
'''),

 dict(id='diff-dup-seq', property='C17',
  edits=[(F, "                rev_key[(v, seen[v])] = i\n                seen[v] += 1\n", "                rev_key[(v, seen[v])] = i\n                seen[v] = 1\n")],
  needs='three or more equal members in one list',
  breaks='the third and further equal members are merged with the second: surplus members are not reported',
  demo='''
from normalize import Record, Property
from normalize.diff import DiffTypes

class R(Record):
    xs = Property(isa=list)

d = list(R(xs=["x"] * 4).diff_iter(R(xs=["x"] * 2)))
assert [x.diff_type for x in d] == [DiffTypes.REMOVED] * 2, [str(x) for x in d]
'''),
 dict(id='diff-moved-key', property='C17',
  edits=[(F, """                if options.moved and a_key != b_key:
                    yield DiffInfo(
                        diff_type=DiffTypes.MOVED,
                        base=fs_a + [a_key],
                        other=fs_b + [b_key],
                    )
                elif options.unchanged:
                    yield DiffInfo(
                        diff_type=DiffTypes.NO_CHANGE,
                        base=fs_a + [a_key],
                        other=fs_b + [b_key],
                    )

        if not force_descent:""", """                if a_key != b_key:
                    yield DiffInfo(
                        diff_type=DiffTypes.MOVED,
                        base=fs_a + [a_key],
                        other=fs_b + [b_key],
                    )
                elif options.unchanged:
                    yield DiffInfo(
                        diff_type=DiffTypes.NO_CHANGE,
                        base=fs_a + [a_key],
                        other=fs_b + [b_key],
                    )

        if not force_descent:""")],
  needs='unchanged=True without moved=True and records which changed their position',
  breaks='items at another position are reported as MOVED although moved was not asked for',
  demo='''
from normalize import Record, Property, ListProperty
from normalize.diff import DiffTypes

class I(Record):
    n = Property()
    primary_key = [n]

class R(Record):
    xs = ListProperty(of=I)

a = R(xs=[I(n=1), I(n=2)])
b = R(xs=[I(n=2), I(n=1)])
kinds = {d.diff_type for d in a.diff_iter(b, unchanged=True)}
assert kinds == {DiffTypes.NO_CHANGE}, kinds
'''),
 dict(id='diff-empty-text', property='C18',
  edits=[(F, """        return (not value and isinstance(value, (str, type(None))))""", """        return value is None or value == ''.strip() or (
            hasattr(value, "strip") and not value.strip())""")],
  needs='ignore_empty_slots=True with ignore_ws=False and a slot of blanks only',
  breaks='a text of blanks counts as not set although white space is significant',
  demo='''
from normalize import Record, Property

class R(Record):
    a = Property()

d = list(R(a="  ").diff_iter(R(), ignore_empty_slots=True, ignore_ws=False))
assert len(d) == 1, d
assert not list(R(a="").diff_iter(R(), ignore_empty_slots=True, ignore_ws=False))
'''),
 dict(id='diff-filter-parent', property='C19',
  edits=[(F, "        return self.compare_filter and not self.compare_filter[fs]", "        return self.compare_filter and not (\n            self.compare_filter[fs] or self.compare_filter[fs[:-1]].complete)")],
  needs='a compare_filter whose parent of the property selects several complete sub-fields',
  breaks='',
  demo='''
raise SystemExit(0)
''') if False else
 dict(id='identity-partial-pk', property='C19',
  edits=[(I, """    if selector and pk_cols and not all(
        selector[(x.name,)] for x in pk_cols
    ):
        pk_cols = None
""", """    if selector and pk_cols:
        pk_cols = tuple(x for x in pk_cols if selector[(x.name,)]) or None
""")],
  needs='a two-column primary key of which the compare_filter selects one column, with items which differ in another selected slot',
  breaks='items are paired by a part of the primary key instead of all selected properties',
  demo='''
from normalize import Record, Property, ListProperty
from normalize.selector import MultiFieldSelector
from normalize.identity import record_id

class I(Record):
    a = Property()
    b = Property()
    c = Property()
    primary_key = [a, b]

x, y = I(a=1, b=1, c="p"), I(a=1, b=2, c="q")
sel = MultiFieldSelector(["a"], ["c"])
assert record_id(x, I, sel) != record_id(y, I, sel)
assert record_id(x, I, MultiFieldSelector(["a"], ["b"])) == (1, 1)
'''),
 dict(id='dispatch-first-only', property='C20',
  edits=[(F, "    if len(generators) == 1:\n        return generators[0]\n", "    if len(generators) == 1 or isinstance(base, Collection):\n        return generators[0]\n")],
  needs='a record collection with properties of its own, when both the items and a property differ',
  breaks='differences in the properties of a collection are not reported',
  demo='''
from normalize import Record, Property
from normalize.coll import ListCollection

class I(Record):
    n = Property()

class L(ListCollection):
    itemtype = I
    note = Property()

a, b = L([I(n=1)]), L([I(n=1)])
a.note, b.note = "x", "y"
d = list(a.diff_iter(b))
assert [x.base.path for x in d] == [".note"], d
'''),
]
