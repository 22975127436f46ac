From 4d3408ba687e2bc71cb345c6895174539e7915b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 01/37] fix: ListCollection.insert() inserts the item itself,
 not its elements

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index feb95fb..e80ac3e 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -375,7 +375,7 @@ class ListCollection(KeyedCollection):
             i += len(self)
         if i < 0:
             i = 0
-        self[i:i] = x
+        self[i:i] = (x,)
 
     def pop(self, i=-1):
         if i < 0:
-- 
2.43.0


From f555e8b587256e977294292aacbb959245d645ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 02/37] fix: JsonRecordDict.__repr__ names its own class in
 super()

---
 normalize/record/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index f571c84..2d89f0a 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -497,7 +497,7 @@ class JsonRecordDict(RecordDict, JsonRecord):
         return to_json(self, extraneous)
 
     def __repr__(self):
-        super_repr = super(JsonRecordList, self).__repr__()
+        super_repr = super(JsonRecordDict, self).__repr__()
         return super_repr.replace("{", "values={", 1)
 
 
-- 
2.43.0


From a3c4ff125eea1182acc10416b83cd3c943435a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 03/37] fix: V1Property.slot_is_empty calls super() on the
 property, not the object

---
 normalize/property/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 6828f8b..88c9fca 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -454,7 +454,7 @@ class V1Property(SafeProperty):
     def slot_is_empty(self, obj):
         if self.v1_upgraded:
             return False
-        return super(V1Property, obj).slot_is_empty(obj)
+        return super(V1Property, self).slot_is_empty(obj)
 
     def attribute_error_hook(self):
         return self.v1_none
-- 
2.43.0


From df86af8c946c93aa1090a755c7d9b9cef24745be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 04/37] fix: define the NoneMutable and
 AmbiguousPropertyTraitArg exceptions raised by Property

---
 normalize/exc.py           | 13 +++++++++++++
 normalize/property/meta.py |  4 ++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index 16a1fa9..35e2ae5 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -132,6 +132,13 @@ class AmbiguousConstruction(UsageException):
     message = "only init_dict or kwargs may be specified"
 
 
+class AmbiguousPropertyTraitArg(PropertyTypeDefinitionError):
+    message = (
+        "property argument {trait_arg!r} is accepted by more than one "
+        "property type; pass traits= with one of: {could_be}"
+    )
+
+
 class BadAssignment(EmptyAttributeError, TypeError):
     message = (
         "Can't assign to the empty placeholder for ({typenames})"
@@ -332,6 +339,12 @@ class PositionalExceptionFormatError(StringFormatExceptionError):
     )
 
 
+class NoneMutable(PropertyDefinitionError):
+    message = (
+        "v1_none={passed!r} is mutable; it would be shared by all instances"
+    )
+
+
 class PropertiesNotKnown(RecordDefinitionError):
     message = (
         "{proplist} cannot be interpreted as a sequence of Properties "
diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index f424f20..262bf0b 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -71,8 +71,8 @@ def has(selfie, self, args, kwargs):
             if len(implies_traits) > 1:
                 raise exc.AmbiguousPropertyTraitArg(
                     trait_arg=argname,
-                    could_be=" ".join(
-                        sorted(x.__name__ for x in implies_traits)
+                    could_be=", ".join(
+                        sorted("+".join(sorted(x)) for x in implies_traits)
                     ),
                     matched_traits=implies_traits,
                 )
-- 
2.43.0


From 34371d44b5d6d5c4539cc60436c3585eeaf6b5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 05/37] fix: VisitorUnpackError is raised with the collection
 type's name

---
 normalize/exc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index 35e2ae5..6669cfd 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -504,5 +504,5 @@ class VisitorTooSimple(VisitorException):
 class VisitorUnpackError(VisitorException, TypeError):
     message = (
         "Can't unpack collection at {context.field_selector}; expected "
-        "{colltype.__name__}, got {passed!r}"
+        "{colltype}, got {passed!r}"
     )
-- 
2.43.0


From 7be702b486513a0cf31542573ef8f1e88b02b233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 06/37] fix: FieldSelector.post() passes the value to the items
 of a collection

---
 normalize/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 45d9ae2..f8906dd 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -255,7 +255,7 @@ class FieldSelector(object):
         for selector in self.selectors[:-1]:
             if selector is None:
                 sub_field_selector = type(self)(self.selectors[i + 1:])
-                return sum(sub_field_selector.post(r) for r in record)
+                return sum(sub_field_selector.post(r, value) for r in record)
 
             # supports the case where an item is created by setting
             # a single required field value
-- 
2.43.0


From 918e9749687162cdb21c720cce4a124cf754fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 07/37] fix: FieldSelector reports a missing dictionary key or
 index as FieldSelectorException

---
 normalize/selector.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index f8906dd..fad3550 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -160,7 +160,7 @@ class FieldSelector(object):
             elif _try_index(record, selector):
                 try:
                     record = record[selector]
-                except IndexError:
+                except LookupError:
                     raise FieldSelectorKeyError(key=selector)
             else:
                 if not hasattr(record, selector):
@@ -221,7 +221,7 @@ class FieldSelector(object):
                 if _try_index(record, selector):
                     try:
                         sub_record = record[selector]
-                    except IndexError:
+                    except LookupError:
                         raise FieldSelectorException(
                             "Could not find Record specified by index: %s." %
                             selector
@@ -337,7 +337,7 @@ class FieldSelector(object):
             elif _try_index(record, selector):
                 try:
                     record = record[selector]
-                except IndexError:
+                except LookupError:
                     raise FieldSelectorKeyError(key=selector)
             else:
                 if not hasattr(record, selector):
@@ -353,7 +353,10 @@ class FieldSelector(object):
                 else:
                     record[:] = ()
             else:
-                del record[to_delete]
+                try:
+                    del record[to_delete]
+                except LookupError:
+                    raise FieldSelectorKeyError(key=to_delete)
         else:
             if hasattr(record, to_delete):
                 delattr(record, to_delete)
-- 
2.43.0


From 3419b45a5b6c843911a16788df70d77d106bbb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 08/37] fix: equal FieldSelectors have equal hashes

---
 normalize/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index fad3550..7badf3c 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -371,7 +371,7 @@ class FieldSelector(object):
         return self.selectors == other.selectors
 
     def __hash__(self):
-        return super(FieldSelector, self).__hash__()
+        return hash(tuple(self.selectors))
 
     def __ne__(self, other):
         """
-- 
2.43.0


From ea29c843c230547c859f9f5467209b7af1f37952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 09/37] fix: selector paths with negative indices, quotes,
 newlines or empty keys parse back

---
 normalize/selector.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 7badf3c..7163461 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -507,7 +507,7 @@ def _fmt_selector_path(selector):
         return "[%d]" % selector
     elif selector is None:
         return "[*]"
-    elif not re.match(r'^[a-zA-Z_]\w*$', selector):
+    elif not re.match(r'^[a-zA-Z_]\w*\Z', selector):
         return u"['%s']" % selector.replace("\\", "\\\\").replace("'", "\\'")
     else:
         return ".%s" % selector
@@ -516,9 +516,9 @@ def _fmt_selector_path(selector):
 _PATH_TOK = re.compile(
     r'''\.(?P<attr>\w+)|
         \[(?:
-            (?P<idx>\d+)|
+            (?P<idx>-?\d+)|
             (?P<wild>\*)|
-            '(?P<key>(?:[^']+|\\')*)'
+            '(?P<key>(?:[^'\\]|\\.)*)'
         )\]''',
     re.X,
 )
@@ -534,7 +534,7 @@ def _scan_selector_path(path):
         else:
             text_item = m.group('attr')
 
-        if text_item:
+        if text_item is not None:
             fs.append(text_item)
         else:
             idx_item = m.group('idx')
@@ -923,9 +923,9 @@ class MultiFieldSelector(object):
 _MFS_PATH_TOK = re.compile(
     r'''\.(?P<attr>\w+)|
         \[(?:
-            (?P<idx>\d+)|
+            (?P<idx>-?\d+)|
             (?P<wild>\*)|
-            '(?P<key>(?:[^']+|\\')*)'
+            '(?P<key>(?:[^'\\]|\\.)*)'
         )\]|
         (?P<branch>[()|])
         ''',
@@ -948,9 +948,9 @@ def _scan_mfs_path(path):
                     mfs.append(fs)
                 fs = list(stack[-1])
             else:
-                if not popping:
+                if not popping and fs:
                     mfs.append(fs)
-                    popping = True
+                popping = True
                 fs = stack.pop()
         else:
             popping = False
@@ -961,7 +961,7 @@ def _scan_mfs_path(path):
         else:
             text_item = m.group('attr')
 
-        if text_item:
+        if text_item is not None:
             fs.append(text_item)
         else:
             idx_item = m.group('idx')
-- 
2.43.0


From 2429d3646924894a164bcb78305ac05fa77c7b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 10/37] fix: subscripting a MultiFieldSelector over all items
 returns the items' sub-selector

---
 normalize/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 7163461..44ce62c 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -721,7 +721,7 @@ class MultiFieldSelector(object):
                 return self  # XXX wat
 
         tail = (
-            self.heads[None] if self.complete else
+            self.heads[None] if self.has_none else
             self.heads.get(index, None)
         )
         return type(self).complete_mfs() if tail == all else tail
-- 
2.43.0


From 2ead740f52bb62c2a172ee2acbd7b50e47eced09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 11/37] fix: FieldSelector.post() through an unknown property
 raises FieldSelectorException

---
 normalize/selector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 44ce62c..749b3ad 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -285,7 +285,9 @@ class FieldSelector(object):
                         put_final = True
             else:
                 if not hasattr(record, selector):
-                    prop = type(record).properties[selector]
+                    prop = getattr(type(record), "properties", {}).get(selector)
+                    if prop is None:
+                        raise FieldSelectorAttributeError(name=selector)
                     if not prop.valuetype:
                         raise FieldSelectorException(
                             "Must specify default= or isa= to auto-vivify "
-- 
2.43.0


From c3122386b0ba85edcdf15c796b528b3a49708694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 12/37] fix: MultiFieldSelector.delete() of several indices
 removes the items selected

---
 normalize/selector.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 749b3ad..b578d7c 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -866,7 +866,13 @@ class MultiFieldSelector(object):
                 except FieldSelectorException:
                     raise
 
-        for fs in self:
+        # delete items from the end, so that remaining indices stay valid
+        for fs in sorted(
+            self, reverse=True, key=lambda fs: [
+                abs(x) if isinstance(x, int) else 0
+                for x in fs.selectors
+            ],
+        ):
             try:
                 fs.delete(obj)
             except FieldSelectorException:
-- 
2.43.0


From dd9b5b3f6d6fd93bbcbac170a87aabad7dca070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 13/37] fix: deleting an unset slot raises AttributeError, and
 V1 properties accept None while unset

---
 normalize/property/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 88c9fca..633a18e 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -417,6 +417,8 @@ class SafeProperty(Property):
         it is false"""
         if self.required:
             raise exc.PropertyRequired(prop=self)
+        if self.name not in obj.__dict__:
+            raise AttributeError(self.fullname)
         del obj.__dict__[self.name]
 
 
@@ -466,7 +468,8 @@ class V1Property(SafeProperty):
             super().__set__(obj, value)
         except exc.CoercionError:
             if value is None or value == self.v1_none:
-                self.__delete__(obj)
+                if self.required or self.name in obj.__dict__:
+                    self.__delete__(obj)
             else:
                 raise
 
-- 
2.43.0


From 903ac4bb5309c30e020a173b31acb8184193a647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 14/37] fix: ListCollection numbers the values of a mapping 0,
 1, 2, ...

---
 normalize/coll.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/normalize/coll.py b/normalize/coll.py
index e80ac3e..f7bc462 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -322,6 +322,7 @@ class ListCollection(KeyedCollection):
             i = 0
             for k in sorted(coll.keys()):
                 yield (i, coll[k])
+                i += 1
         elif isinstance(coll, (collections.abc.Sequence, types.GeneratorType)) or (
             hasattr(coll, "next") and callable(coll.next)
         ) or (
-- 
2.43.0


From 81f7749f98c3f37090b2d728db73b13ae3dff13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 15/37] fix: sub-classes of generic collections keep their type
 and properties when pickled

---
 normalize/coll.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index f7bc462..cff2dac 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -18,6 +18,7 @@
 from __future__ import absolute_import
 
 import collections
+import copyreg
 import sys
 import types
 
@@ -470,7 +471,15 @@ class _Generic(Collection):
     things."""
     def __reduce__(self):
         """helper method for pickling"""
-        return (_GenericPickler(type(self).generic_key), (self._values,))
+        generic_key = type(self).generic_key
+        if GENERIC_TYPES.get(generic_key) is not type(self):
+            # a named sub-class; pickle can find it
+            return (
+                copyreg.__newobj__,
+                (type(self),) + self.__getnewargs__(),
+                self.__getstate__(),
+            )
+        return (_GenericPickler(generic_key), (self._values,))
 
 
 def _make_generic(of, coll):
-- 
2.43.0


From 47f1756f506b4cb14234520782c33a40e1de83cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 16/37] fix: two properties may read the same JSON key

---
 normalize/record/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 2d89f0a..f426c33 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -99,10 +99,10 @@ def json_to_initkwargs(record_type, json_struct, kwargs=None):
                             )
                         except Exception as e:
                             raise _box_ingress_error(json_name, e)
-                    unknown_keys.remove(json_name)
+                    unknown_keys.discard(json_name)
         elif prop.name in json_struct:
             json_val = json_struct[prop.name]
-            unknown_keys.remove(prop.name)
+            unknown_keys.discard(prop.name)
             if prop.name not in kwargs:
                 proptype = prop.valuetype
                 try:
-- 
2.43.0


From b66cabca91b10199caff27d6585b710010065aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 17/37] fix: AutoJsonRecord attributes can be assigned, deleted
 and tested for

---
 normalize/record/json.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index f426c33..d54238e 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -586,19 +586,25 @@ class AutoJsonRecord(JsonRecord):
         if attr in type(self).properties:
             return type(self).properties[attr].__get__(self)
         else:
-            return self.unknown_json_keys[attr]
+            try:
+                return self.unknown_json_keys[attr]
+            except KeyError:
+                raise AttributeError(attr)
 
     def __setattr__(self, attr, value):
         if attr in type(self).properties:
-            return type(self).properties[attr].__set__(self)
+            super(AutoJsonRecord, self).__setattr__(attr, value)
         else:
-            self.unknown_json_keys[attr]
+            self.unknown_json_keys[attr] = value
 
-    def __delattr__(self, attr, value):
+    def __delattr__(self, attr):
         if attr in type(self).properties:
-            return type(self).properties[attr].__del__(self)
+            super(AutoJsonRecord, self).__delattr__(attr)
         else:
-            del self.unknown_json_keys[attr]
+            try:
+                del self.unknown_json_keys[attr]
+            except KeyError:
+                raise AttributeError(attr)
 
 
 class NCAutoJsonRecord(AutoJsonRecord):
-- 
2.43.0


From 192a7009d0c21ab52738595adbd6ce83d8b2303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 18/37] fix: unknown JSON keys of nested records survive
 json_data()

---
 normalize/record/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index d54238e..1549c5b 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -332,7 +332,7 @@ class JsonRecord(Record):
             if extraneous or not prop.extraneous:
                 for k, v in self.unknown_json_keys.items():
                     if k not in jd:
-                        jd[k] = to_json(v, extraneous)
+                        jd[k] = _json_data(v, extraneous)
         return jd
 
     def diff_iter(self, other, **kwargs):
@@ -579,7 +579,7 @@ class AutoJsonRecord(JsonRecord):
                 for k, v in self.unknown_json_keys.items():
                     k = type(self).convert_json_key_out(k)
                     if k not in jd:
-                        jd[k] = to_json(v, extraneous)
+                        jd[k] = _json_data(v, extraneous)
         return jd
 
     def __getattr__(self, attr):
-- 
2.43.0


From e7bc52e0420aa5c463cc9d6c9b87cd13c82fc04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 19/37] fix: extraneous= is only passed to json_data() methods
 which accept it

---
 normalize/record/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 1549c5b..3daf4ad 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -179,7 +179,7 @@ def _json_data(x, extraneous):
         has_json_data[type(x)] = htj
         if htj:
             argspec = inspect.getfullargspec(x.json_data)
-            tjte = 'extraneous' in argspec.args or argspec.kwonlyargs
+            tjte = 'extraneous' in argspec.args + argspec.kwonlyargs
             json_data_takes_extraneous[type(x)] = tjte
             if tjte:
                 return x.json_data(extraneous=extraneous)
-- 
2.43.0


From 84b5933e778dd6bb11e9ddc83e99584beb87c531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 20/37] fix: pickling or copying a generic collection keeps its
 own properties

---
 normalize/coll.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index cff2dac..510756a 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -479,7 +479,10 @@ class _Generic(Collection):
                 (type(self),) + self.__getnewargs__(),
                 self.__getstate__(),
             )
-        return (_GenericPickler(generic_key), (self._values,))
+        state = dict(
+            (k, v) for k, v in self.__getstate__().items() if k != "_values"
+        )
+        return (_GenericPickler(generic_key), (self._values,), state)
 
 
 def _make_generic(of, coll):
-- 
2.43.0


From 42dddace2c60b7f137b6fcb352e889c5108eb779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 21/37] fix: FieldSelector.post continues in the item it
 creates under a missing key

---
 normalize/selector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/normalize/selector.py b/normalize/selector.py
index b578d7c..a7a7f6c 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -283,6 +283,7 @@ class FieldSelector(object):
                     record[selector] = type(record).itemtype(**kwarg)
                     if kwarg:
                         put_final = True
+                    record = record[selector]
             else:
                 if not hasattr(record, selector):
                     prop = getattr(type(record), "properties", {}).get(selector)
-- 
2.43.0


From c6d9e18d2f4fca81802d3dc5109465bd8b7baac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 22/37] fix: FieldSelector.startswith is False for a selector
 longer than the invocant

---
 normalize/selector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index a7a7f6c..7c957fb 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -478,13 +478,13 @@ class FieldSelector(object):
                 that passed.
         """
         if isinstance(key_or_fs, (FieldSelector, list, tuple)):
-            return all(
+            return len(key_or_fs) <= len(self.selectors) and all(
                 key_or_fs[i] == self.selectors[i] for i in range(
                     0, len(key_or_fs),
                 )
             )
         else:
-            return self.selectors[0] == key_or_fs
+            return bool(self.selectors) and self.selectors[0] == key_or_fs
 
     @property
     def path(self):
-- 
2.43.0


From b27b7d364d4efe9e0abf24b5fec3d20d270a4856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 23/37] fix: visitors with apply_empty_slots apply empty slots
 of record types instead of descending into the exception

---
 normalize/visitor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 2e42d87..38f25df 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -692,6 +692,10 @@ class VisitorPattern(object):
     def map_prop(cls, visitor, value, prop):
         mapped = None
 
+        # an empty slot (apply_empty_slots): nothing to descend into
+        if isinstance(value, (AttributeError, KeyError)):
+            return visitor.apply(value, prop, visitor)
+
         # XXX - this fallback here is type-unsafe, and exists only for
         # those who don't declare their isa= for complex object types.
         value_type = prop.valuetype or type(value)
-- 
2.43.0


From b5701a3d813207b6102bf2a40f987d578abbea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 24/37] fix: say what is wrong in a FieldSelectorException

The places which raise it pass the text, which was dropped in favour of
'(uncustomized exception!)'.
---
 normalize/exc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index 6669cfd..21c62f6 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -92,7 +92,7 @@ class FeatureNotImplementedException(StringFormatException):
 
 
 class FieldSelectorException(StringFormatException):
-    pass
+    message = "{0}"
 
 
 class PropertyDefinitionError(StringFormatException):
-- 
2.43.0


From d9bb21db6581bc8dba74c360ccee6bd4f6d0af01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 25/37] fix: mix in the property type which was picked

The last type looked at was used instead, so that composing a type from
three or more parts could fail with a KeyError or PropertyTypeClash.
---
 normalize/property/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 262bf0b..a031605 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -198,7 +198,7 @@ def create_property_type_from_traits(trait_set):
 
             if mix_in:
                 base_type = PROPERTY_TYPES[base]
-                other_type = PROPERTY_TYPES[other]
+                other_type = PROPERTY_TYPES[mix_in]
                 new_name = _merge_camel_case_names(
                     base_type.__name__, other_type.__name__,
                 )
-- 
2.43.0


From 9744cab4b3b6f49f82198bcd8a3ccb11ba27b02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 26/37] fix: placeholders respect special methods which a type
 inherits

A placeholder for, eg, an OrderedDict could not be subscripted, as
__getitem__ is inherited from dict.
---
 normalize/empty.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/normalize/empty.py b/normalize/empty.py
index c631ef7..01e64b3 100644
--- a/normalize/empty.py
+++ b/normalize/empty.py
@@ -16,6 +16,12 @@ def placeholder(type_):
     return EMPTY_VALS[typetuple]
 
 
+def _supplies(type_, method):
+    # looks only at the class and its bases: the metaclass (which always has,
+    # eg, '__call__') doesn't matter
+    return any(base.__dict__.get(method, False) for base in type_.__mro__)
+
+
 def itertypes(iterable):
     """Iterates over an iterable containing either type objects or tuples of
     type objects and yields once for every type object found."""
@@ -64,7 +70,7 @@ class EmptyVal(object):
             for type_ in self._typetuple:
                 prop = getattr(type_, attr_name, None)
                 if prop is None:
-                    if '__getattr__' in type_.__dict__:
+                    if _supplies(type_, '__getattr__'):
                         attrs_found.append(None)
                 else:
                     attrs_found.append(prop)
@@ -98,7 +104,7 @@ class EmptyVal(object):
         if self._typetuple is any:
             return self
         for type_ in self._typetuple:
-            if type_.__dict__.get("__call__", False):
+            if _supplies(type_, "__call__"):
                 return placeholder(any)
         raise self._exc('NotCallable')
 
@@ -113,7 +119,7 @@ class EmptyVal(object):
                 is_coll = issubclass(type_, normalize.coll.Collection)
                 if is_coll:
                     coll_types.append(type_.itemtype)
-                elif '__getitem__' in type_.__dict__:
+                elif _supplies(type_, '__getitem__'):
                     coll_types.append(any)
 
             if not coll_types:
-- 
2.43.0


From 065413f87a71961dca377b1ad25d645a0e6ceb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:53 +0000
Subject: [PATCH 27/37] fix: don't replace declared attributes with 'foo0'
 accessors

With properties 'foo' and 'foo0', the descriptor of 'foo0' was lost, and
with it the type check of assignments.
---
 normalize/record/meta.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/record/meta.py b/normalize/record/meta.py
index 398ba4e..6d9f865 100644
--- a/normalize/record/meta.py
+++ b/normalize/record/meta.py
@@ -80,7 +80,10 @@ class RecordMeta(type):
                     good_props.append(prop)
             return tuple(good_props)
 
-        attrs.update(aux_props)
+        # an attribute which is declared is not to be replaced
+        for aux_name, aux_prop in aux_props.items():
+            if aux_name not in properties:
+                attrs.setdefault(aux_name, aux_prop)
         attrs['primary_key'] = coerce_prop_list('primary_key')
         attrs['properties'] = properties
         attrs['_sorted_properties'] = sorted(
-- 
2.43.0


From 0a9ef6f8659d90e7380ffc4ebc078cca8c6116e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 28/37] fix: let post() create collections along the path

---
 normalize/selector.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/normalize/selector.py b/normalize/selector.py
index 7c957fb..c8dbe69 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -263,6 +263,13 @@ class FieldSelector(object):
             if i >= len(self.selectors) - 2 and self.selectors[-1] is not None:
                 kwarg[self.selectors[-1]] = value
 
+            def initkwargs(type_):
+                # items of a collection are not passed by keyword
+                return {
+                    k: v for k, v in kwarg.items()
+                    if not hasattr(type_, "itemtype") or k in type_.properties
+                }
+
             if _try_index(record, selector):
                 try:
                     record = record[selector]
@@ -273,6 +280,7 @@ class FieldSelector(object):
                                 "FieldSelector set out of order: "
                                 "[%d]" % selector
                             )
+                        kwarg = initkwargs(type(record).itemtype)
                         record.append(type(record).itemtype(**kwarg))
                         if kwarg:
                             put_final = True
@@ -280,6 +288,7 @@ class FieldSelector(object):
                         raise
                     record = record[selector]
                 except KeyError:
+                    kwarg = initkwargs(type(record).itemtype)
                     record[selector] = type(record).itemtype(**kwarg)
                     if kwarg:
                         put_final = True
@@ -294,6 +303,7 @@ class FieldSelector(object):
                             "Must specify default= or isa= to auto-vivify "
                             "%s" % prop
                         )
+                    kwarg = initkwargs(prop.valuetype)
                     setattr(record, selector, prop.valuetype(**kwarg))
                     if kwarg:
                         put_final = True
-- 
2.43.0


From eb6d63062ef395e0062b2dccb47b5439ff0e9d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 29/37] fix: index() raises ValueError for an end beyond the
 list

---
 normalize/coll.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/normalize/coll.py b/normalize/coll.py
index 510756a..b2790e1 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -367,6 +367,8 @@ class ListCollection(KeyedCollection):
             j += len_
             if j < 0:
                 j = 0
+        elif j > len_:
+            j = len_
         for k in range(i, j):
             if self[k] == x:
                 return k
-- 
2.43.0


From 4102c6abb07d2161062d5f792376754d229a378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 30/37] fix: pop() of an index out of range raises IndexError

---
 normalize/coll.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index b2790e1..28972d1 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -382,10 +382,6 @@ class ListCollection(KeyedCollection):
         self[i:i] = (x,)
 
     def pop(self, i=-1):
-        if i < 0:
-            i += len(self)
-            if i < 0:
-                i = 0
         x = self[i]
         del self[i]
         return x
-- 
2.43.0


From 06833fbc668c53bd15596118f7b1fecd3d71de4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 31/37] fix: extend() a list collection by itself terminates

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 28972d1..6f8aaea 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -350,7 +350,7 @@ class ListCollection(KeyedCollection):
         """Adds new values to the end of the collection, coercing items.
         """
         # perhaps: self[len(self):len(self)] = iterable
-        self._values.extend(self.coerce_value(item) for item in iterable)
+        self._values.extend([self.coerce_value(item) for item in iterable])
 
     def count(self, value):
         return self._values.count(value)
-- 
2.43.0


From 7f029e8f0c1625812e25c2c77529aae6ea3789eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 32/37] fix: dict collections refuse or take in all of what
 they are given

---
 normalize/coll.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 6f8aaea..0e90eba 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -222,7 +222,7 @@ class DictCollection(KeyedCollection):
                 passed=coll,
                 colltype=cls,
             )
-        if isinstance(coll, collections.abc.Mapping):
+        if isinstance(coll, (collections.abc.Mapping, DictCollection)):
             for k, v in coll.items():
                 yield k, v
         elif isinstance(coll, collections.abc.Sequence):
@@ -231,7 +231,8 @@ class DictCollection(KeyedCollection):
                 yield (i, v)
                 i += 1
         elif ((hasattr(coll, "next") and callable(coll.next)) or
-              (hasattr(coll, "__next__") and callable(coll.__next__))):
+              (hasattr(coll, "__next__") and callable(coll.__next__)) or
+              (hasattr(coll, "__iter__") and callable(coll.__iter__))):
             i = 0
             for v in coll:
                 if isinstance(v, tuple) and len(v) == 2:
@@ -239,6 +240,11 @@ class DictCollection(KeyedCollection):
                 else:
                     yield (i, v)
                 i += 1
+        elif coll:
+            raise exc.CollectionCoerceError(
+                passed=coll,
+                colltype=cls,
+            )
 
     def itertuples(self):
         return iter(self._values.items())
-- 
2.43.0


From 53c4f7e7d451d993580ef957cd723d1d919b7c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 33/37] fix: read-only properties stay read-only when mixed
 with safe types

---
 normalize/property/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 633a18e..d949cca 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -410,11 +410,16 @@ class SafeProperty(Property):
     def __set__(self, obj, value):
         """This setter checks the type of the value before allowing it to be
         set."""
+        if "ro" in self.traits:
+            # the order in which the types are mixed does not matter
+            raise exc.ReadOnlyAttributeError(attrname=self.fullname)
         obj.__dict__[self.name] = self.type_safe_value(value)
 
     def __delete__(self, obj):
         """Checks the property's ``required`` setting, and allows the delete if
         it is false"""
+        if "ro" in self.traits:
+            raise exc.ReadOnlyAttributeError(attrname=self.fullname)
         if self.required:
             raise exc.PropertyRequired(prop=self)
         if self.name not in obj.__dict__:
-- 
2.43.0


From 51f856f15b9aabe9070c64d50e007f2438378438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 34/37] fix: legacy none of collection properties can be
 assigned whatever was declared before

---
 normalize/property/coll.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/normalize/property/coll.py b/normalize/property/coll.py
index 17ab598..84c1821 100644
--- a/normalize/property/coll.py
+++ b/normalize/property/coll.py
@@ -61,10 +61,7 @@ class CollectionProperty(Property):
 
 
 class SafeCollectionProperty(CollectionProperty, SafeProperty):
-    def __set__(self, obj, value):
-        super(SafeCollectionProperty, self).__set__(
-            obj, self.type_safe_value(value),
-        )
+    pass
 
 
 class ListProperty(CollectionProperty):
-- 
2.43.0


From 4924d2fdcc30ea1c4c31ed17fabd3345194ae92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 35/37] fix: defaults which are types, bound methods or
 built-in functions

---
 normalize/property/__init__.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index d949cca..ff4c86b 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -122,7 +122,9 @@ class Property(metaclass=MetaProperty):
         if callable(default):
             is_method, nargs = self.func_info(default)
             if nargs:
-                if not is_method and nargs == 1:
+                if not is_method and nargs == 1 and \
+                        inspect.isroutine(default) and \
+                        not inspect.ismethod(default):
                     # backwards compatibility; default=lambda x: x.foo was
                     # permitted previously.
                     stacklevel = 1
@@ -157,18 +159,18 @@ class Property(metaclass=MetaProperty):
         self.extraneous = extraneous
 
     def func_info(self, func):
-        args = inspect.getfullargspec(func)
-        is_method = False
-        if not args.args:
-            required_args = 0
-        else:
-            required_args = len(args.args)
-            if args.defaults:
-                required_args -= len(args.defaults)
-            if required_args and args.args[0] == "self":
-                is_method = True
-                required_args -= 1
-        return is_method, required_args
+        try:
+            # leaves out what a bound method or a type is called with anyway
+            args = inspect.signature(func, follow_wrapped=False).parameters
+        except ValueError:
+            # built-in types and functions may not tell
+            return False, 0
+        required = [
+            arg.name for arg in args.values() if arg.default is arg.empty and
+            arg.kind in (arg.POSITIONAL_ONLY, arg.POSITIONAL_OR_KEYWORD)
+        ]
+        is_method = required[:1] == ["self"]
+        return is_method, len(required) - is_method
 
     @property
     def bound(self):
-- 
2.43.0


From 4eb7771ce7ad8d72f58f717e7bc8f2ca4f70406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 36/37] fix: types and methods of types given as compare_as are
 called with the value

---
 normalize/property/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index ff4c86b..4bc0324 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -493,6 +493,11 @@ class DiffasProperty(Property):
         super(DiffasProperty, self).__init__(**kwargs)
         self.compare_as = compare_as
         is_method, nargs = self.func_info(compare_as)
+        if isinstance(compare_as, type) or inspect.ismethoddescriptor(
+            compare_as
+        ):
+            # eg. tuple or str.lower: these convert the value
+            is_method, nargs = False, nargs or 1
         self.compare_as_info = is_method, nargs
         if nargs > 1:
             raise exc.CompareAsSignatureError(
-- 
2.43.0


From b32690d7f27a6c31dd15a2c376400e94252688ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:28 +0000
Subject: [PATCH 37/37] fix: errors about tuples are the ones they are meant to
 be

'...%r' % x raises a TypeError of its own if x is a tuple: index() and
remove() of list collections, dates and the repr() of exceptions.
---
 normalize/coll.py           | 2 +-
 normalize/exc.py            | 2 +-
 normalize/property/types.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 0e90eba..fd61757 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -378,7 +378,7 @@ class ListCollection(KeyedCollection):
         for k in range(i, j):
             if self[k] == x:
                 return k
-        raise ValueError("%r is not in list" % x)
+        raise ValueError("%r is not in list" % (x,))
 
     def insert(self, i, x):
         if i < 0:
diff --git a/normalize/exc.py b/normalize/exc.py
index 21c62f6..13393bd 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -68,7 +68,7 @@ class StringFormatException(NormalizeError):
         return "%s%s(%s)" % (
             "exc." if self.__module__.endswith(".exc") else "",
             type(self).__name__, ", ".join(
-                tuple("%r" % x for x in self.args) +
+                tuple(repr(x) for x in self.args) +
                 tuple("%s=%r" % (k, v) for k, v in self.kwargs.items())
             )
         )
diff --git a/normalize/property/types.py b/normalize/property/types.py
index 3d81890..277a19c 100644
--- a/normalize/property/types.py
+++ b/normalize/property/types.py
@@ -109,7 +109,7 @@ def coerce_datetime(not_a_datetime):
         return parse_datetime(not_a_datetime)
     else:
         raise ValueError(
-            "Cannot coerce %r to a date/datetime" % not_a_datetime
+            "Cannot coerce %r to a date/datetime" % (not_a_datetime,)
         )
 
 
-- 
2.43.0

