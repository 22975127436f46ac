F = 'coll.py'
HEAD = '''
from normalize import Record, Property, ListProperty
from normalize.coll import ListCollection, DictCollection, list_of, dict_of

class Item(Record):
    name = Property(isa=str)
    size = Property(isa=int)
    primary_key = [name]

Items = list_of(Item)
Map = dict_of(Item)

def items(*names):
    return Items([Item(name=n) for n in names])

def names(c):
    return [x.name for x in c]
'''
SEEDS = [
 dict(id='list-pop-equal', property='C30',
  edits=[(F, '        x = self[i]\n        del self[i]\n        return x',
          '        x = self[i]\n        self.remove(x)\n        return x')],
  needs='a collection with equal members, and pop() of a later one',
  breaks='another member than the one popped is taken out',
  demo=HEAD + '''
c = items("a", "b", "a", "c")
assert c.pop(2).name == "a"
assert names(c) == ["a", "b", "c"], names(c)
'''),
 dict(id='list-insert-far', property='C30',
  edits=[(F, '''            i += len(self)
        if i < 0:
            i = 0
        self[i:i]''', '''            i += len(self)
        self[i:i]''')],
  needs='insert() at a negative index before the first member',
  breaks='the item is not put first',
  demo=HEAD + '''
c = items("a", "b", "c")
c.insert(-5, Item(name="x"))
assert names(c) == ["x", "a", "b", "c"], names(c)
'''),
 dict(id='list-index-far', property='C30',
  edits=[(F, '''            i += len_
            if i < 0:
                i = 0
''', '''            i += len_
''')],
  needs='index() with a start before the first member',
  breaks='a negative position is given',
  demo=HEAD + '''
c = items("a", "b", "c")
assert c.index(Item(name="c"), -5) == 2
assert c.index(Item(name="b"), -2) == 1
'''),
 dict(id='list-add-alias', property='C30',
  edits=[(F, '''        return type(self)(self._values + other._values)''',
          '''        values = self._values
        values += other._values
        return type(self)(values)''')],
  needs='use of the left operand after adding two collections',
  breaks='the left operand gets the members of the other as well',
  demo=HEAD + '''
a, b = items("a"), items("b")
assert names(a + b) == ["a", "b"]
assert names(a) == ["a"], names(a)
'''),
 dict(id='list-mapping-order', property='C30',
  edits=[(F, 'for k in sorted(coll.keys()):',
          'for k in sorted(coll.keys(), key=str):')],
  needs='a list collection made from a mapping with more than ten integer '
        'keys',
  breaks='members are in the order of the text of their keys',
  demo=HEAD + '''
c = Items(dict((i, Item(name="n", size=i)) for i in range(12)))
assert [x.size for x in c] == list(range(12)), [x.size for x in c]
'''),
 dict(id='dict-update-first-wins', property='C30',
  edits=[(F, '''        for k, v in list(kw.items()):
            self[k] = self.coerce_value(v)
''', '''        for k, v in list(kw.items()):
            if iterable is None or k not in self:
                self[k] = self.coerce_value(v)
''')],
  needs='update() with a mapping and a keyword for a key which is there',
  breaks='the keyword is ignored',
  demo=HEAD + '''
m = Map({"a": Item(name="a", size=1)})
m.update(a=Item(name="a", size=2))
assert m["a"].size == 2
m.update({"b": Item(name="b")}, a=Item(name="a", size=3))
assert m["a"].size == 3, m["a"].size
'''),
 dict(id='dict-pair-any', property='C30',
  edits=[(F, '''                if isinstance(v, tuple) and len(v) == 2:''',
          '''                if isinstance(v, (list, tuple)) and len(v) == 2:''')],
  needs='a dictionary of lists made from an iterator over lists of two',
  breaks='a member is taken for a pair of key and value',
  demo='''
from normalize.coll import dict_of, list_of
M = dict_of(list_of(str))
m = M(iter([["ab", "cd"]]))
assert list(m.keys()) == [0], list(m.keys())
assert list(m[0]) == ["ab", "cd"]
'''),
 dict(id='coll-eq-length', property='C30',
  edits=[(F, '''        return self.itemtype == getattr(other, "itemtype", None) and \\
            self._values == getattr(other, "_values", None)''',
 '''        values = getattr(other, "_values", None)
        return self.itemtype == getattr(other, "itemtype", None) and \\
            (self._values is values or values is not None and
             len(values) == len(self._values) and
             all(k in values for k in self._values))''')],
  needs='two list collections of the same members in another order, or '
        'dictionaries of the same keys',
  breaks='they are said to be equal',
  demo=HEAD + '''
assert items("a", "b") == items("a", "b")
assert items("a", "b") != items("b", "a")
assert Map({"a": Item(name="x")}) != Map({"a": Item(name="y")})
'''),
]
