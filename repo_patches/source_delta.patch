From f16231cb3c679db656c36dff4f9c17be0c7584f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:08 +0000
Subject: [PATCH 001/103] fix: a rejected assignment no longer leaves a
 superseded derived value readable

---
 ngoschema/protocols/object_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 022d9c1..889f174 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -97,9 +97,10 @@ class PropertyDescriptor:
                 raise AttributeError("'%s' is read only" % key)
             obj._set_data(key, value)
             if not obj._lazyLoading:
-                obj._itemsInputs[key] = obj._items_inputs_evaluate(key)
+                inputs = obj._items_inputs_evaluate(key)
                 iopts = {'validate': False} if key in obj._notValidated else {}
                 obj._set_dataValidated(key, obj._items_evaluate(key, **iopts))
+                obj._itemsInputs[key] = inputs  # only once evaluated, otherwise a rejected value hides the outdated one
                 if self.fset:
                     self.fset(obj, obj._dataValidated[key])
         except Exception as er:
-- 
2.43.0


From c31416d935a2761bbf3c6436d71d75f23e5823f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 002/103] fix: reading through a negated alias negates the
 value

---
 ngoschema/protocols/object_protocol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 889f174..aaeb85d 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -295,7 +295,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             if name not in self._propertiesAllowed:
                 return MutableMapping.__getattribute__(self, name)
                 return self.__dict__[name]
-        op = lambda x: neg(x) if name in self._aliasesNegated else x
+        negated = name in self._aliasesNegated  # before name is replaced by the name it stands for
+        op = lambda x: neg(x) if negated and x is not None else x
         name = self._aliasesNegated.get(name, name)
         name = self._aliases.get(name, name)
         raw = self._propertiesTranslation.get(name, name)
@@ -397,7 +398,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         desc = self._relationshipsDescriptor.get(key)
         if desc:
             return desc.__get__(self)
-        op = lambda x: neg(x) if key in self._aliasesNegated else x
+        negated = key in self._aliasesNegated  # before key is replaced by the name it stands for
+        op = lambda x: neg(x) if negated and x is not None else x
         key = self._aliasesNegated.get(key, key)
         key = self._aliases.get(key, key)
         raw, trans = self._properties_raw_trans(key)
-- 
2.43.0


From 017c7f49df16ce61da3838d58483615abc93fd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 003/103] fix: a relative canonical path keeps its elements
 after the leading dot

---
 ngoschema/protocols/object_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index aaeb85d..bfc3548 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -50,7 +50,7 @@ def split_cname(cname):
         n, indices = parts[0], parts[1:]
         return [n] + [int(i.strip(']')) for i in indices]
     cns = sum([split_part(part) for part in cname.split('.')], [])
-    return cns.pop(0) if cns and not cns[0] else cns
+    return cns[1:] if cns and not cns[0] else cns
 
 
 class PropertyDescriptor:
-- 
2.43.0


From e11c4317b88fd1d224b761b2f2f0438905275159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 004/103] fix: paths with array indices and parent steps are
 followed

---
 ngoschema/protocols/object_protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index bfc3548..9bf9411 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -389,7 +389,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             cur = self
             try:
                 for p in parts:
-                    cur = cur[p] if not hasattr(cur, p) else getattr(cur, p)
+                    cur = cur[p] if not p or isinstance(p, int) or not hasattr(cur, p) else getattr(cur, p)
                     if cur is None:
                         return
                 return cur
@@ -420,7 +420,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             cur = self
             try:
                 for p in parts[:-1]:
-                    cur = cur[p] if not hasattr(cur, p) else getattr(cur, p)
+                    cur = cur[p] if not p or isinstance(p, int) or not hasattr(cur, p) else getattr(cur, p)
                     if cur is None:
                         return
                 cur[parts[-1]] = value
-- 
2.43.0


From abe64a43dd4b4a19f0fe55958513a5a2f68bd43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 005/103] fix: pattern and additional properties are typed on
 assignment

---
 ngoschema/protocols/object_protocol.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 9bf9411..e6d1530 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -433,8 +433,11 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             return desc.__set__(self, op(value))
         if not self._propertiesAdditional:
             raise KeyError(key)
-        v = op(value)
-        self._data[key] = self._dataAdditional[key] = self._dataValidated[key] = v
+        # stored and, unless loading is lazy, evaluated according to its type as any other item
+        self._data[key] = v = op(value)
+        self._items_touch(key)
+        CollectionProtocol.__setitem__(self, key, v)
+        self._dataAdditional[key] = self._dataValidated[key]
 
     def __delitem__(self, key):
         for trans, raw in self._propertiesTranslation.items():
-- 
2.43.0


From 63faa2aeeb0bc64128cf32d33e82f69c078b1f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 006/103] fix: pattern properties are accepted when additional
 properties are not

---
 ngoschema/protocols/object_protocol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index e6d1530..a4b4e88 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -280,7 +280,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         if alias:
             cls.__properties_raw_trans[name] = (alias, name)
             return alias, name
-        if cls._propertiesAdditional:
+        if cls._propertiesAdditional or any(reg.search(name) for reg, _ in cls._propertiesPattern):
             trans = clean_js_name(name)
             cls.__properties_raw_trans[name] = (name, trans)
             return name, trans
@@ -303,7 +303,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         desc = self._propertiesDescriptor.get(raw) or self._relationshipsDescriptor.get(raw)
         if desc:
             return op(desc.__get__(self))
-        if self._propertiesAdditional and name in self._data:
+        if name in self._data:
             self._itemsInputs[raw] = self._items_inputs_evaluate(name)
             self._dataAdditional[raw] = v = op(self[name])
             return v
@@ -431,7 +431,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         desc = self._propertiesDescriptor.get(raw) or self._relationshipsDescriptor.get(raw)
         if desc:
             return desc.__set__(self, op(value))
-        if not self._propertiesAdditional:
+        if raw is None:
             raise KeyError(key)
         # stored and, unless loading is lazy, evaluated according to its type as any other item
         self._data[key] = v = op(value)
-- 
2.43.0


From e573e138bfe5f3f0668d6cef35946532cf85eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 007/103] fix: a deleted property can be set again

---
 ngoschema/protocols/object_protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index a4b4e88..2f05550 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -95,6 +95,7 @@ class PropertyDescriptor:
             key = self.pname
             if key in obj._readOnly:
                 raise AttributeError("'%s' is read only" % key)
+            obj._data.setdefault(key)  # the property might have been deleted
             obj._set_data(key, value)
             if not obj._lazyLoading:
                 inputs = obj._items_inputs_evaluate(key)
-- 
2.43.0


From 880753ec53a572b6bfe5f657fa1bbc82982290bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 008/103] fix: a required property can not be deleted as an
 item either

---
 ngoschema/protocols/object_protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 2f05550..e2e3c04 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -446,6 +446,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 delattr(self, trans)
                 break
         else:
+            if key in self._required:
+                raise AttributeError('%s is a required argument.' % key)
             del self._data[key]
             del self._itemsInputs[key]
             del self._dataValidated[key]
-- 
2.43.0


From 19fd6871cf76d219ce5e42382549941487f8f480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:29 +0000
Subject: [PATCH 009/103] fix: no_readOnly does not alter the excludes of the
 caller nor of later serializations

---
 ngoschema/types/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 0b233c7..ea958c2 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -89,7 +89,7 @@ class ObjectSerializer(CollectionSerializer, ObjectDeserializer):
         no_defaults = opts.get('no_defaults', self._noDefaults)
         no_readOnly = opts.get('no_readOnly', self._noReadOnly)
         if no_readOnly:
-            excludes += list(self._readOnly)
+            excludes = list(excludes) + list(self._readOnly)
         for k in all_ordered:
             if k in self._required:
                 yield k
-- 
2.43.0


From 7c12caf0658acb9ea754249d14df4fc8e1d6f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:29 +0000
Subject: [PATCH 010/103] fix: required properties can be excluded from
 serialization

---
 ngoschema/types/object.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index ea958c2..7a7389a 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -91,9 +91,9 @@ class ObjectSerializer(CollectionSerializer, ObjectDeserializer):
         if no_readOnly:
             excludes = list(excludes) + list(self._readOnly)
         for k in all_ordered:
-            if k in self._required:
-                yield k
-            elif ObjectSerializer._is_included(k, value, excludes=excludes, only=only, no_defaults=no_defaults):
+            # required keys are printed whatever their value, as long as they are selected
+            if ObjectSerializer._is_included(k, value, excludes=excludes, only=only,
+                                             no_defaults=no_defaults and k not in self._required):
                 yield k
 
     @staticmethod
-- 
2.43.0


From 2051495a24f136f2e93c65dd61ddfe751b50ce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:28 +0000
Subject: [PATCH 011/103] fix: no_defaults serialization of a lazy object
 evaluates what the default depends on

---
 ngoschema/types/object.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 7a7389a..202974e 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -249,6 +249,10 @@ class Object(Collection, ObjectSerializer):
                 v = value[k]
                 if t._has_default(t):
                     d = t.default(context=context, raw_literals=True)
+                    # the default might depend on properties not evaluated yet (lazy loading)
+                    if hasattr(value, '_items_inputs_evaluate') and t.is_primitive() and not t._rawLiterals:
+                        for i in t._inputs(t, d):
+                            value.get(i)
                     d = t(d, context=context)
                     v = neg(v) if k in self._aliasesNegated else v
                     #if t.is_primitive():
-- 
2.43.0


From 9815abe52eb12fa69efb13e8bf8e2de9add2e858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:09 +0000
Subject: [PATCH 012/103] fix: an enumeration rejects indices out of its range
 and values that are neither texts nor indices

---
 ngoschema/types/type.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/type.py b/ngoschema/types/type.py
index 9ba2485..2b84490 100644
--- a/ngoschema/types/type.py
+++ b/ngoschema/types/type.py
@@ -102,6 +102,7 @@ class Enum(Primitive):
         from .numerics import Integer
         from .strings import String
         enum = self._enum
+        s = None
         if String.check(value):
             s = String.convert(value, **opts)
             if s in enum:
@@ -110,10 +111,10 @@ class Enum(Primitive):
             i = Integer.convert(value)
             if i in enum:
                 return i
-            if i > len(enum):
+            if not 0 <= i < len(enum):
                 raise ConversionError('Index %i exceeds enum size of %r' % (i, enum))
             return enum[i]
 
-        if not s:
+        if s == '':
             return self._enum[0]
         raise ConversionError('Impossible to convert %s to enum %r' % (value, enum))
-- 
2.43.0


From ad873082807ad98285c555840cb0e9d32aa69cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:09 +0000
Subject: [PATCH 013/103] fix: values that are not dates or times are reported
 as invalid values

---
 ngoschema/types/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index 532600b..078edb6 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -60,7 +60,7 @@ class Date(Primitive):
                     return a.date()
                 except Exception:
                     pass
-        raise InvalidValue("{0} is not detected as a date: {1}".format(value))
+        raise InvalidValue("{0} is not detected as a date.".format(value))
 
     @staticmethod
     def _serialize(self, value, **opts):
@@ -100,7 +100,7 @@ class Time(Primitive):
                 return a.time()
             except Exception:
                 pass
-        raise InvalidValue("{0} is not detected as a time: {1}".format(value))
+        raise InvalidValue("{0} is not detected as a time.".format(value))
 
     @staticmethod
     def _serialize(self, value, **opts):
-- 
2.43.0


From 2f4368b183f9ee38efab6d4acd5eacf433b64e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:34 +0000
Subject: [PATCH 014/103] fix: names looked up in a class are not taken for
 those of its subclasses

---
 ngoschema/protocols/object_protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index e2e3c04..61712c3 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -261,8 +261,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     __properties_raw_trans = None
     @classmethod
     def _properties_raw_trans(cls, name):
-        if cls.__properties_raw_trans is None:
-            cls.__properties_raw_trans = {}
+        if '_ObjectProtocol__properties_raw_trans' not in cls.__dict__:
+            cls.__properties_raw_trans = {}  # not shared with the bases
         cached = cls.__properties_raw_trans.get(name)
         if cached:
             return cached
-- 
2.43.0


From ee3b966545982bc058df7c74d1eeb8b2848d7315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:34 +0000
Subject: [PATCH 015/103] fix: building a class does not alter the schema it is
 given

---
 ngoschema/protocols/object_protocol.py | 4 ++--
 ngoschema/protocols/type_protocol.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 61712c3..46e5f78 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -716,8 +716,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         if extra_schema_properties:
             local_properties.update({k: type_builder.build(f'{id}/properties/{k}', sch)
                                      for k, sch in extra_schema_properties.items()})
-            schema.setdefault('properties', {})
-            schema['properties'].update(extra_schema_properties)
+            # the schema given might be used by other classes
+            schema = dict(schema, properties=dict(schema.get('properties', {}), **extra_schema_properties))
 
         # create descriptors
         # go through local properties and create descriptors
diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index cb6c1c9..dbf76fd 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -166,7 +166,7 @@ class SchemaMetaclass(type):
 
     def __new__(cls, clsname, bases, attrs):
         from ..managers.type_builder import type_builder
-        schema = attrs.get('_schema', {})
+        schema = dict(attrs.get('_schema', {}))
         id = attrs.get('_id')
         if not schema and id:
             schema = resolve_uri(id)
-- 
2.43.0


From c0656b7d863912d4eb19e57a5ecc7feea61258a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:34 +0000
Subject: [PATCH 016/103] fix: a class with bases also extends the schemas its
 own schema extends

---
 ngoschema/protocols/type_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index dbf76fd..950768b 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -171,7 +171,8 @@ class SchemaMetaclass(type):
         if not schema and id:
             schema = resolve_uri(id)
         elif bases:
-            schema['extends'] = [b._id for b in bases if hasattr(b, '_id')]
+            extends = [b._id for b in bases if hasattr(b, '_id')]
+            schema['extends'] = extends + [e for e in schema.get('extends', []) if e not in extends]
         schema.setdefault('type', 'object')
         id = id or clsname
         # remove previous entry in registry
-- 
2.43.0


From c00b7a3e2c6dc5ca7f08c9935bc75764e09ed8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:34 +0000
Subject: [PATCH 017/103] fix: a class redefined under the same name has its
 own properties

---
 ngoschema/protocols/type_protocol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index 950768b..0f428c8 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -178,6 +178,10 @@ class SchemaMetaclass(type):
         # remove previous entry in registry
         if id in type_builder._registry:
             del type_builder._registry[id]
+        # and those of its items, that would otherwise be taken for the ones of the new class
+        items = tuple(f'{id}/{k}/' for k in ('properties', 'patternProperties')) + (f'{id}/additionalProperties',)
+        for k in [k for k in type_builder._registry if k.startswith(items)]:
+            del type_builder._registry[k]
         attrs['_clsname'] = clsname
         return type_builder.build(id, schema, bases, attrs=attrs)
 
-- 
2.43.0


From 05091c4390138b572237cdd8598cb6e265f934ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:53 +0000
Subject: [PATCH 018/103] fix: templates can refer to the items of an array by
 index

---
 ngoschema/protocols/object_protocol.py | 4 ++--
 ngoschema/utils/jinja2.py              | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 46e5f78..4022434 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -384,7 +384,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     def __getitem__(self, key):
         if not key:
             return self._parent
-        if '.' in key:
+        if '.' in key or (key.endswith(']') and key not in self._data):
             parts = split_cname(key)
             # case: canonical name such as a[0][1].b[0].c
             cur = self
@@ -416,7 +416,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
 
     def __setitem__(self, key, value):
         op = lambda x: neg(x) if key in self._aliasesNegated else x
-        if '.' in key:
+        if '.' in key or (key.endswith(']') and key not in self._data):
             parts = split_cname(key) # case: canonical name such as a[0][1].b[0].c
             cur = self
             try:
diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index eddeea3..11cf4bc 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -81,7 +81,7 @@ def get_jinja2_variables(source, remove_this=True):
         if processing:
             if t.type == 'variable_end' or t.value == '|':
                 processing=False
-                vars.append(''.join(var))
+                vars.append(''.join(str(v) for v in var))
                 var = []
                 continue
             if t.type == 'integer' and var[-1] == '.':
-- 
2.43.0


From bf3add0ecaf6feb269b45540eb6481b66cca5da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:09 +0000
Subject: [PATCH 019/103] fix: a value derived from an array follows the
 changes of its items

---
 ngoschema/protocols/collection_protocol.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index aa57d40..9d70794 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -100,17 +100,21 @@ class CollectionProtocol(Collection):
     def _items_inputs_evaluate(self, item):
         ret = {}
         t = self._items_type(self, item)
+        def snapshot(v):
+            # arrays are changed in place
+            return list(v) if isinstance(v, CollectionProtocol) and v.is_array_primitive() else v
+
         # treat dependencies
         for k in self._dependencies.get(item, []):
             try:
-                ret[k] = self[k]
+                ret[k] = snapshot(self[k])
             except Exception as er:
                 self._logger.error(er, exc_info=True)
         # treat data
         if t.is_primitive() and not t._rawLiterals:
             for k in t._inputs(t, self._data[item]):
                 try:
-                    ret[k] = self[k]
+                    ret[k] = snapshot(self[k])
                 except Exception as er:
                     self._logger.error(er, exc_info=True)
         return ret
-- 
2.43.0


From 636e0b4f936a25572187fe373110b9a56d8dc820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:09 +0000
Subject: [PATCH 020/103] fix: objects holding equal values are equal

---
 ngoschema/protocols/collection_protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 9d70794..3fc262c 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -219,6 +219,8 @@ class CollectionProtocol(Collection):
             return False
         if len(self) != len(other):
             return False
+        if self.is_object():
+            return all(k in other and self[k] == other[k] for k in self)
         for i, v in enumerate(other):
             if self[i] != v:
                 return False
-- 
2.43.0


From c40c2c20f36d12bc08ad7cba1c9b5bfbf96980fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:10 +0000
Subject: [PATCH 021/103] fix: a rejected insertion leaves the array unchanged,
 and items are inserted at the position of a list

---
 ngoschema/protocols/array_protocol.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index a58cf6a..b4c1f21 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -73,12 +73,19 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
         return len(self._data)
 
     def insert(self, item, value):
+        # same position as in a list
+        item = max(0, item + len(self)) if item < 0 else min(item, len(self))
         self._itemsInputs.insert(item, {})
         self._dataValidated.insert(item, None)
         self._data.insert(item, value)
+        CollectionProtocol._touch(self)
         if not self._lazyLoading:
-            self._itemsInputs[item] = self._items_inputs_evaluate(item)
-            self._set_dataValidated(item, self._items_evaluate(item))
+            try:
+                self._itemsInputs[item] = self._items_inputs_evaluate(item)
+                self._set_dataValidated(item, self._items_evaluate(item))
+            except Exception:
+                del self._itemsInputs[item], self._dataValidated[item], self._data[item]
+                raise
         elif isinstance(value, TypeProtocol):
             value.set_context(self._context)
         self._validate(self, value, items=False)
-- 
2.43.0


From c7030f76ed0debb16736e936139e08ed0bd6970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:10 +0000
Subject: [PATCH 022/103] fix: items assigned in a lazy array are the ones
 read, and a rejected item does not replace the previous one

---
 ngoschema/protocols/array_protocol.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index b4c1f21..68bd1e8 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -72,6 +72,23 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
     def __len__(self):
         return len(self._data)
 
+    def __setitem__(self, item, value):
+        if isinstance(item, slice):
+            raise TypeError('items are assigned one by one.')
+        orig = self._data[item]
+        self._data[item] = value
+        if self._lazyLoading:
+            self._items_touch(item)
+            return
+        try:
+            inputs, evaluated = self._items_inputs_evaluate(item), self._items_evaluate(item)
+        except Exception:
+            self._data[item] = orig
+            raise
+        self._items_touch(item)
+        self._itemsInputs[item] = inputs
+        self._set_dataValidated(item, evaluated)
+
     def insert(self, item, value):
         # same position as in a list
         item = max(0, item + len(self)) if item < 0 else min(item, len(self))
-- 
2.43.0


From 3d92d5080410bebb9cf65d384ce7d860034616d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:10 +0000
Subject: [PATCH 023/103] fix: slices of arrays can be read

---
 ngoschema/protocols/array_protocol.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index 68bd1e8..505d8ca 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -72,6 +72,11 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
     def __len__(self):
         return len(self._data)
 
+    def __getitem__(self, item):
+        if isinstance(item, slice):
+            return [self[i] for i in range(*item.indices(len(self)))]
+        return CollectionProtocol.__getitem__(self, item)
+
     def __setitem__(self, item, value):
         if isinstance(item, slice):
             raise TypeError('items are assigned one by one.')
-- 
2.43.0


From 8039e0ec868dbedeea1961bf9efea2e22dd48316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 024/103] fix: a derived value follows every property its
 template uses, whatever the template

---
 ngoschema/utils/jinja2.py | 46 ++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index 11cf4bc..c42bd96 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -16,7 +16,8 @@ from builtins import str
 
 import inflection
 import jinja2
-import jinja2.parser
+import jinja2.meta
+import jinja2.nodes
 from slugify import slugify as _slugify
 
 from .utils import GenericClassRegistry
@@ -70,27 +71,32 @@ class TemplatedString(object):
 def get_jinja2_variables(source, remove_this=True):
     """return the list of variables in jinja2 source (no filters)"""
     env = default_jinja2_env()
-    parser = jinja2.parser.Parser(env, source)
+    tree = env.parse(source)
+    undeclared = jinja2.meta.find_undeclared_variables(tree)
     vars = []
-    var = []
-    processing = False
-    for t in parser.stream:
-        if t.type == 'variable_begin':
-            processing = True
-            continue
-        if processing:
-            if t.type == 'variable_end' or t.value == '|':
-                processing=False
-                vars.append(''.join(str(v) for v in var))
-                var = []
-                continue
-            if t.type == 'integer' and var[-1] == '.':
-                var.pop(-1)
-                var.append(f'[{t.value}]')
-            else:
-                var.append(t.value)
+
+    def path(node):
+        if isinstance(node, jinja2.nodes.Name):
+            return node.name if node.name in undeclared else None
+        if isinstance(node, jinja2.nodes.Getattr):
+            root, step = path(node.node), f'.{node.attr}'
+        elif isinstance(node, jinja2.nodes.Getitem) and isinstance(node.arg, jinja2.nodes.Const):
+            root, step = path(node.node), f'[{node.arg.value}]' if isinstance(node.arg.value, int) else f'.{node.arg.value}'
+        else:
+            return None
+        return root and root + step
+
+    def visit(node):
+        p = path(node)
+        if p:
+            vars.append(p)
+        else:
+            for n in node.iter_child_nodes():
+                visit(n)
+
+    visit(tree)
     return vars if not remove_this \
-        else [v.replace('this.', '').replace('self.', '') for v in vars]
+        else [re.sub(r'^(this|self)\.', '', v) for v in vars]
 
 # ADDITIONAL FILTERS FROM INFLECTION
 
-- 
2.43.0


From 7b4b6511b01a9412aed7e2bc8c260f0c86812d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 025/103] fix: an expression follows the array items and the
 properties of this it uses

---
 ngoschema/protocols/object_protocol.py | 2 +-
 ngoschema/types/strings.py             | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 4022434..e9ce4e5 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -199,7 +199,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                     v = value.get(k)
                     if v is None and t.has_default():
                         v = t.default(raw_literals=True, **opts)
-                    inputs = [i.split('.')[0] for i in t._inputs(t, v)] if v else []
+                    inputs = [re.split(r'[.\[]', i)[0] for i in t._inputs(t, v)] if v else []
                     if inputs:
                         dependencies[k].update([i for i in inputs if i in self._properties])
         return self._deserializer.call_order(value, dependencies=dependencies, **opts)
diff --git a/ngoschema/types/strings.py b/ngoschema/types/strings.py
index 0807a58..ae8ca70 100644
--- a/ngoschema/types/strings.py
+++ b/ngoschema/types/strings.py
@@ -41,7 +41,7 @@ class String(Primitive):
 
 
 class Expr(String):
-    _expr_regex = re.compile(r"[a-zA-Z_]+[\w\.]*")
+    _expr_regex = re.compile(r"[a-zA-Z_]+\w*(?:\.\w+|\[\d+\])*")
 
     @staticmethod
     def _check(self, value, **opts):
@@ -59,7 +59,8 @@ class Expr(String):
 
     @staticmethod
     def _inputs(self, value, **opts):
-        return set(Expr._expr_regex.findall(str(value))).difference(builtins.__dict__)
+        inputs = [re.sub(r'^this\.', '', i) for i in Expr._expr_regex.findall(str(value))]
+        return set(inputs).difference(builtins.__dict__)
 
 
 class Pattern(String):
-- 
2.43.0


From e7034ebf38dceee246038a3a8a4aad65244b13ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:01 +0000
Subject: [PATCH 026/103] fix: a derived value follows the changes inside the
 arrays and objects it uses

---
 ngoschema/protocols/collection_protocol.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 3fc262c..3e2d018 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -101,8 +101,12 @@ class CollectionProtocol(Collection):
         ret = {}
         t = self._items_type(self, item)
         def snapshot(v):
-            # arrays are changed in place
-            return list(v) if isinstance(v, CollectionProtocol) and v.is_array_primitive() else v
+            # collections are changed in place
+            if isinstance(v, CollectionProtocol):
+                if v.is_object():
+                    return dict(v._data)
+                return [dict(i._data) if isinstance(i, CollectionProtocol) and i.is_object() else i for i in v]
+            return v
 
         # treat dependencies
         for k in self._dependencies.get(item, []):
-- 
2.43.0


From b2560c5a03fab73ec2e084f377b1232c7f68e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:33 +0000
Subject: [PATCH 027/103] fix: an object inserted in a lazy array still
 evaluates its own derived values

---
 ngoschema/protocols/array_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index 505d8ca..bc0204f 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -109,7 +109,7 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
                 del self._itemsInputs[item], self._dataValidated[item], self._data[item]
                 raise
         elif isinstance(value, TypeProtocol):
-            value.set_context(self._context)
+            value.set_context(value._create_context(value, context=self._context))
         self._validate(self, value, items=False)
 
     def _str_list(self):
-- 
2.43.0


From cffca1c42d99011c429ec2d543ae3841ddf9b389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:30 +0000
Subject: [PATCH 028/103] fix: the defaults of a child object are evaluated in
 its own context when serializing

---
 ngoschema/types/object.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 202974e..06f15b2 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -243,12 +243,18 @@ class Object(Collection, ObjectSerializer):
     def _print_order(self, value, **opts):
         no_defaults = opts.pop('no_defaults', self._noDefaults)
         context = opts.pop('context', self._context)
+        # the defaults of an object are evaluated in its own context, not in the one of its parent
+        context = getattr(value, '_context', context)
         for k in ObjectSerializer._print_order(self, value, no_defaults=no_defaults, **opts):
             if no_defaults:
                 t = self._items_type(self, k)
                 v = value[k]
                 if t._has_default(t):
                     d = t.default(context=context, raw_literals=True)
+                    if opts.get('raw_literals'):
+                        if v != d:
+                            yield k
+                        continue
                     # the default might depend on properties not evaluated yet (lazy loading)
                     if hasattr(value, '_items_inputs_evaluate') and t.is_primitive() and not t._rawLiterals:
                         for i in t._inputs(t, d):
-- 
2.43.0


From fa31288081e2a4953e59875bfbd84088bd0484ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:43 +0000
Subject: [PATCH 029/103] fix: an expression follows its inputs even when they
 are named like builtins

---
 ngoschema/protocols/collection_protocol.py | 4 ++++
 ngoschema/types/strings.py                 | 3 +--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 3e2d018..64bc017 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -2,6 +2,7 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
+import builtins
 import logging
 from abc import abstractmethod
 from operator import neg
@@ -117,6 +118,9 @@ class CollectionProtocol(Collection):
         # treat data
         if t.is_primitive() and not t._rawLiterals:
             for k in t._inputs(t, self._data[item]):
+                # builtins used in expressions, unless a property has the same name
+                if k in builtins.__dict__ and k not in getattr(self, '_properties', {}):
+                    continue
                 try:
                     ret[k] = snapshot(self[k])
                 except Exception as er:
diff --git a/ngoschema/types/strings.py b/ngoschema/types/strings.py
index ae8ca70..9106ab8 100644
--- a/ngoschema/types/strings.py
+++ b/ngoschema/types/strings.py
@@ -2,7 +2,6 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
-import builtins
 import numbers
 import decimal
 import logging
@@ -60,7 +59,7 @@ class Expr(String):
     @staticmethod
     def _inputs(self, value, **opts):
         inputs = [re.sub(r'^this\.', '', i) for i in Expr._expr_regex.findall(str(value))]
-        return set(inputs).difference(builtins.__dict__)
+        return set(inputs)
 
 
 class Pattern(String):
-- 
2.43.0


From cefea74443e0b484196b0661b79acf7b6e783bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:04 +0000
Subject: [PATCH 030/103] fix: a getter or setter defined in a subclass applies
 to inherited properties

---
 ngoschema/protocols/object_protocol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index e9ce4e5..7d463f5 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -735,10 +735,10 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 ptype._schema.get('description'))
         # remaining descriptors are properties defined in other bases with local getter/setter/deleter definitions
         for pname, pfun in descriptor_funs.items():
-            ptrans = clean_js_name(pname)
             for b in pbases:
-                if hasattr(b, ptrans) and isinstance(b, PropertyDescriptor):
-                    d = copy.copy(getattr(b.trans))
+                d = b._propertiesDescriptor.get(pname)
+                if d:
+                    d = copy.copy(d)
                     for k, v in pfun.items():
                         if v is not None:
                             setattr(d, f'f{k}', v)
-- 
2.43.0


From cb5f249e0701868ca4ba5f680299ca7fef5b0764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:07 +0000
Subject: [PATCH 031/103] fix: query criteria on an attribute named like an
 operator

---
 ngoschema/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index c40a1a9..93b8418 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -57,7 +57,7 @@ def _comparable(obj):
 def _sort_criteria(criteria):
     elts = criteria.split('__')
     ops = []
-    for e in reversed(elts):
+    for e in reversed(elts[1:]):  # the first element is always an attribute
         if e not in _operators and not e.startswith('@'):
             break
         ops.insert(0, e)
-- 
2.43.0


From d0748670195ef817e831f4838ca529d43ccde381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:07 +0000
Subject: [PATCH 032/103] fix: case-insensitive query operators compare text,
 not patterns

---
 ngoschema/query.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 93b8418..4833342 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -95,13 +95,13 @@ def _apply_ops_test(ops, negate, a, b):
         if op == 'endswith':
             return a.endswith(b)
         if op == 'ieq':
-            return re.match('^%s$' % b, a, re.IGNORECASE)
+            return a.lower() == b.lower()
         if op == 'istartswith':
-            return re.match('^%s' % b, a, re.IGNORECASE)
+            return a.lower().startswith(b.lower())
         if op == 'iendswith':
-            return re.match('%s$' % b, a, re.IGNORECASE)
+            return a.lower().endswith(b.lower())
         if op == 'icontains':
-            return re.search('%s' % b, a, re.IGNORECASE)
+            return b.lower() in a.lower()
         if op == 'regex':
             return re.match(b, a)
 
-- 
2.43.0


From dc7f659898c649e46702463a4f8e20d8da46de05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:07 +0000
Subject: [PATCH 033/103] fix: query filters treat every object alike, an
 absent attribute fails its criteria only

---
 ngoschema/query.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 4833342..40dd682 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -135,21 +135,18 @@ class Filter(object):
         for k, v2 in self.attrs_value.items():
             ks, ops, ops_negate = self.attrs_ops[k]
             o = get_descendant(obj, ks)
+            while ops and o is not None and utils.is_mapping(o):
+                # check if it s not a child
+                o2 = get_descendant(o, [ops[0]])
+                if o2 is None:
+                    break
+                o, ops = o2, ops[1:]
             if o is None:
-                # breaking the look we never go in the for/ELSE statement where
-                # an object is potentially yielded
+                # an absent attribute satisfies no criteria
+                if self.anyOf:
+                    continue
                 test = False
                 break
-            elif ops and utils.is_mapping(o):
-                # check if it s not a child
-                for op in ops:
-                    o2 = get_descendant(o, op)
-                    if o2:
-                        o = o2
-                        ks.append(ops.pop(0))
-                    else:
-                        test = False
-                        break
             ops = ops or ['eq']
             v = _comparable(o)
             test2 = bool(_apply_ops_test(ops, ops_negate, v, v2))
-- 
2.43.0


From 00c4d46853174472f353a5376ce4627a8b6b7bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:07 +0000
Subject: [PATCH 034/103] fix: query criteria on a size or an item compare it
 to the value given

---
 ngoschema/query.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 40dd682..36e6445 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -147,7 +147,8 @@ class Filter(object):
                     continue
                 test = False
                 break
-            ops = ops or ['eq']
+            if not ops or ops[-1] == 'size' or ops[-1].startswith('@'):
+                ops = ops + ['eq']
             v = _comparable(o)
             test2 = bool(_apply_ops_test(ops, ops_negate, v, v2))
             test = (test or test2) if self.anyOf else (test and test2)
-- 
2.43.0


From 08bfe38afb0799deb4ec2abdf009cd7871b2214e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:30 +0000
Subject: [PATCH 035/103] fix: get_descendant does not stop at an empty or
 null-like child

---
 ngoschema/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 41b55db..e7dcd6f 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -671,7 +671,7 @@ def get_descendant(obj, key_list):
     except Exception as er:
         child = None
     return get_descendant(child, key_list[1:]) \
-        if child and len(key_list) > 1 else child
+        if child is not None and len(key_list) > 1 else child
 
 
 def topological_sort(data):
-- 
2.43.0


From 7a4d5467a0b5cb5397dd7d79f9c51e314742a61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:31 +0000
Subject: [PATCH 036/103] fix: ordering, reversing, last and union of query
 results

---
 ngoschema/query.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 36e6445..82ab43d 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -407,9 +407,9 @@ class Query(object):
                 from .utils.utils import split_path
                 ks = split_path(ob) if isinstance(ob, str) else ob
                 self._result_cache = sorted(self._result_cache,
-                                            lambda x: get_descendant(x, ks))
+                                            key=lambda x: get_descendant(x, ks))
             if self._reverse:
-                self._result_cache = reversed(self._result_cache)
+                self._result_cache = self._result_cache[::-1]
         return self._result_cache
 
     def __getitem__(self, k):
@@ -434,7 +434,7 @@ class Query(object):
         return False
 
     def union(self, *others):
-        res = self.result_cache
+        res = list(self.result_cache)
         for o in others:
             res += o.result_cache
         return Query(res, self._distinct, self._order_by)
@@ -481,14 +481,12 @@ class Query(object):
 
     def last(self):
         try:
-            return self[-1]
+            return self.result_cache[-1]
         except IndexError:
             return None
 
     def reverse(self):
-        ret = self._chain()
-        ret._iterable = reversed(self.result_cache)
-        return ret
+        return Query(self.result_cache[::-1], self._distinct)
 
     def count(self):
         return len(self)
-- 
2.43.0


From d9f0c0e01f6510cec0a465b5e8a6daa11c45919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:31 +0000
Subject: [PATCH 037/103] fix: a query over an iterator can be evaluated and
 refined more than once

---
 ngoschema/query.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 82ab43d..1473457 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -225,7 +225,13 @@ class Query(object):
         self._reverse = reverse
 
     def _chain(self):
-        return Query(self._iterable, self._distinct, self._order_by, self._reverse)
+        return Query(self._source(), self._distinct, self._order_by, self._reverse)
+
+    def _source(self):
+        # an iterator is only read once: it is kept to be read again
+        if hasattr(self._iterable, '__next__'):
+            self._iterable = list(self._iterable)
+        return self._iterable
 
     @staticmethod
     def _filter_or_exclude(iterable,
@@ -340,7 +346,7 @@ class Query(object):
                distinct=None,
                **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._iterable, *attrs,
+                (x for x in Query._filter_or_exclude(self._source(), *attrs,
                                                     distinct=distinct or self._distinct,
                                                     **attrs_value)),
                 order_by=order_by or self._order_by,
@@ -354,7 +360,7 @@ class Query(object):
                 distinct=None,
                 **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._iterable, *attrs,
+                (x for x in Query._filter_or_exclude(self._source(), *attrs,
                                                     negate=True,
                                                     distinct=distinct or self._distinct,
                                                     **attrs_value)),
@@ -369,7 +375,7 @@ class Query(object):
                distinct=None,
                **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._iterable, *attrs,
+                (x for x in Query._filter_or_exclude(self._source(), *attrs,
                                                     any_of=True,
                                                     distinct=distinct or self._distinct,
                                                     **attrs_value)),
@@ -384,7 +390,7 @@ class Query(object):
                 distinct=None,
                 **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._iterable, *attrs,
+                (x for x in Query._filter_or_exclude(self._source(), *attrs,
                                                     any_of=True,
                                                     negate=True,
                                                     distinct=distinct or self._distinct,
@@ -400,7 +406,7 @@ class Query(object):
     @property
     def result_cache(self):
         if self._result_cache is None:
-            self._result_cache = list(self._iterable)
+            self._result_cache = list(self._source())
 
             ob = self._order_by
             if ob:
@@ -454,7 +460,7 @@ class Query(object):
         return Query(res, self._distinct, self._order_by)
 
     def get(self, *attrs, **attrs_value):
-        ret = list(Query._filter_or_exclude(self._iterable,
+        ret = list(Query._filter_or_exclude(self._source(),
                                         *attrs,
                                         distinct=self._distinct,
                                         **attrs_value))
@@ -468,7 +474,7 @@ class Query(object):
 
     def next(self, *attrs, **attrs_value):
         return next(
-                Query._filter_or_exclude(self._iterable,
+                Query._filter_or_exclude(self._source(),
                                          *attrs,
                                          distinct=self._distinct,
                                          **attrs_value))
@@ -495,7 +501,7 @@ class Query(object):
         return len(self) == 0
 
     def order_by(self, order_by, reverse=False):
-        return Query(self._iterable, self._distinct, order_by, reverse=reverse)
+        return Query(self._source(), self._distinct, order_by, reverse=reverse)
 
     def all(self):
         """
-- 
2.43.0


From b5bba09726b53c0da742ac247e32af537fa7f17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:08 +0000
Subject: [PATCH 038/103] fix: set operations keep the order of the query

---
 ngoschema/query.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 1473457..75de512 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -443,21 +443,21 @@ class Query(object):
         res = list(self.result_cache)
         for o in others:
             res += o.result_cache
-        return Query(res, self._distinct, self._order_by)
+        return Query(res, self._distinct, self._order_by, bool(self._order_by) and self._reverse)
 
     def intersection(self, *others):
         res = self.result_cache
         for o in others:
             ores = o.result_cache
             res = [r for r in res if r in ores]
-        return Query(res, self._distinct, self._order_by)
+        return Query(res, self._distinct)
 
     def difference(self, *others):
         res = self.result_cache
         for o in others:
             ores = o.result_cache
             res = [r for r in res if r not in ores]
-        return Query(res, self._distinct, self._order_by)
+        return Query(res, self._distinct)
 
     def get(self, *attrs, **attrs_value):
         ret = list(Query._filter_or_exclude(self._source(),
-- 
2.43.0


From b974dc802eab654b51e06bf941b507dafff4d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:08 +0000
Subject: [PATCH 039/103] fix: distinct queries return each object once,
 whatever the objects

---
 ngoschema/query.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 75de512..12bc236 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -259,7 +259,7 @@ class Query(object):
                            negate=negate,
                            any_of=any_of,
                            **attrs_value)
-        seen = set()
+        seen = []  # objects are not always hashable
         for obj in iterable:
             if not obj: # todo change to is None??
                 continue
@@ -267,7 +267,7 @@ class Query(object):
                 if distinct:
                     comparable = _comparable(obj)
                     if comparable not in seen:
-                        seen.add(comparable)
+                        seen.append(comparable)
                     else:
                         continue
                 yield obj
@@ -407,6 +407,12 @@ class Query(object):
     def result_cache(self):
         if self._result_cache is None:
             self._result_cache = list(self._source())
+            if self._distinct:
+                distinct = []
+                for o in self._result_cache:
+                    if o not in distinct:
+                        distinct.append(o)
+                self._result_cache = distinct
 
             ob = self._order_by
             if ob:
-- 
2.43.0


From 62cd77ea1e0d78c8925f56f4214d4b79dde29c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:08 +0000
Subject: [PATCH 040/103] fix: a query refined with reverse=False is not
 reversed

---
 ngoschema/query.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 12bc236..6c38e37 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -350,7 +350,7 @@ class Query(object):
                                                     distinct=distinct or self._distinct,
                                                     **attrs_value)),
                 order_by=order_by or self._order_by,
-                reverse=reverse or self._reverse,
+                reverse=self._reverse if reverse is None else reverse,
                 distinct=distinct or self._distinct)
 
     def exclude(self,
@@ -365,7 +365,7 @@ class Query(object):
                                                     distinct=distinct or self._distinct,
                                                     **attrs_value)),
                 order_by=order_by or self._order_by,
-                reverse=reverse or self._reverse,
+                reverse=self._reverse if reverse is None else reverse,
                 distinct=distinct or self._distinct)
 
     def filter_any_of(self,
@@ -380,7 +380,7 @@ class Query(object):
                                                     distinct=distinct or self._distinct,
                                                     **attrs_value)),
                 order_by=order_by or self._order_by,
-                reverse=reverse or self._reverse,
+                reverse=self._reverse if reverse is None else reverse,
                 distinct=distinct or self._distinct)
 
     def exclude_any_of(self,
@@ -396,7 +396,7 @@ class Query(object):
                                                     distinct=distinct or self._distinct,
                                                     **attrs_value)),
                 order_by=order_by or self._order_by,
-                reverse=reverse or self._reverse,
+                reverse=self._reverse if reverse is None else reverse,
                 distinct=distinct or self._distinct)
 
     def __iter__(self):
-- 
2.43.0


From 4345dd947458b1b54f3eaee0d5271650aa0e80d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:28 +0000
Subject: [PATCH 041/103] fix: a query whose evaluation fails does not read as
 empty afterwards

---
 ngoschema/query.py | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 6c38e37..8ef5af6 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -207,6 +207,18 @@ def search_object_non_rec(obj, path, *attrs, **attrs_value):
             p_cur, cur = p_par, cur._parent
 
 
+class _Filtered(object):
+    """ objects filtered from an iterable, every time they are iterated """
+
+    def __init__(self, iterable, *attrs, **opts):
+        self._iterable = iterable
+        self._attrs = attrs
+        self._opts = opts
+
+    def __iter__(self):
+        return Query._filter_or_exclude(self._iterable, *self._attrs, **self._opts)
+
+
 class Query(object):
 
     def __init__(self, iterable, distinct=False, order_by=False, reverse=False):
@@ -346,9 +358,9 @@ class Query(object):
                distinct=None,
                **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._source(), *attrs,
-                                                    distinct=distinct or self._distinct,
-                                                    **attrs_value)),
+                _Filtered(self._source(), *attrs,
+                          distinct=distinct or self._distinct,
+                          **attrs_value),
                 order_by=order_by or self._order_by,
                 reverse=self._reverse if reverse is None else reverse,
                 distinct=distinct or self._distinct)
@@ -360,10 +372,10 @@ class Query(object):
                 distinct=None,
                 **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._source(), *attrs,
-                                                    negate=True,
-                                                    distinct=distinct or self._distinct,
-                                                    **attrs_value)),
+                _Filtered(self._source(), *attrs,
+                          negate=True,
+                          distinct=distinct or self._distinct,
+                          **attrs_value),
                 order_by=order_by or self._order_by,
                 reverse=self._reverse if reverse is None else reverse,
                 distinct=distinct or self._distinct)
@@ -375,10 +387,10 @@ class Query(object):
                distinct=None,
                **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._source(), *attrs,
-                                                    any_of=True,
-                                                    distinct=distinct or self._distinct,
-                                                    **attrs_value)),
+                _Filtered(self._source(), *attrs,
+                          any_of=True,
+                          distinct=distinct or self._distinct,
+                          **attrs_value),
                 order_by=order_by or self._order_by,
                 reverse=self._reverse if reverse is None else reverse,
                 distinct=distinct or self._distinct)
@@ -390,11 +402,11 @@ class Query(object):
                 distinct=None,
                 **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._source(), *attrs,
-                                                    any_of=True,
-                                                    negate=True,
-                                                    distinct=distinct or self._distinct,
-                                                    **attrs_value)),
+                _Filtered(self._source(), *attrs,
+                          any_of=True,
+                          negate=True,
+                          distinct=distinct or self._distinct,
+                          **attrs_value),
                 order_by=order_by or self._order_by,
                 reverse=self._reverse if reverse is None else reverse,
                 distinct=distinct or self._distinct)
-- 
2.43.0


From 1d0e4609835d38692bef8e91230fbe2d31a10e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:26 +0000
Subject: [PATCH 042/103] fix: symbols are looked up in the builtins of any
 python interpreter

---
 ngoschema/types/symbols.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/symbols.py b/ngoschema/types/symbols.py
index 9eedeef..00c7d2f 100644
--- a/ngoschema/types/symbols.py
+++ b/ngoschema/types/symbols.py
@@ -2,6 +2,7 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
+import builtins
 import logging
 import importlib
 import inspect
@@ -25,7 +26,7 @@ class Symbol(Primitive):
     """
     DOT = re.compile(r"\.")
     _pyType = None
-    _builtins = importlib.__builtins__
+    _builtins = vars(builtins)
 
     @staticmethod
     def _convert(self, value, **opts):
-- 
2.43.0


From 95566e40e1300569c303c83179ef9662e4b0c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 043/103] fix: a value can be committed to a memory repository
 of a single object

---
 ngoschema/repositories/memory_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/repositories/memory_repository.py b/ngoschema/repositories/memory_repository.py
index 4b6435f..aa4da4e 100644
--- a/ngoschema/repositories/memory_repository.py
+++ b/ngoschema/repositories/memory_repository.py
@@ -49,5 +49,5 @@ class MemoryRepository(with_metaclass(SchemaMetaclass, Repository)):
             else:
                 self._content.append(value)
         else:
-            self._content = self._content(value)
+            self._content = value
         return self._content
-- 
2.43.0


From 48be88a9682fd900067c28bb91a606a058373aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:35 +0000
Subject: [PATCH 044/103] fix: 0, False and the empty string are defaults like
 others

---
 ngoschema/types/type.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/type.py b/ngoschema/types/type.py
index 2b84490..70640ff 100644
--- a/ngoschema/types/type.py
+++ b/ngoschema/types/type.py
@@ -39,6 +39,11 @@ class Primitive(Type):
     def is_primitive(cls):
         return True
 
+    @staticmethod
+    def _has_default(self, value=None, **opts):
+        # 0, False and the empty string are defaults
+        return (self._default if value is None else value) is not None
+
     def __init__(self, **opts):
         Type.__init__(self, **opts)
         self._rawLiterals = self._schema.get('rawLiterals', self._rawLiterals)
@@ -88,7 +93,7 @@ class Enum(Primitive):
     def __init__(self, **opts):
         Primitive.__init__(self, **opts)
         self._enum = self._schema.get('enum', [])
-        if self._enum and not self._default:
+        if self._enum and self._default is None:
             self._default = self._enum[0]
 
     @staticmethod
-- 
2.43.0


From 17a506d82aadf20de3956cea415dee731020d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:35 +0000
Subject: [PATCH 045/103] fix: an empty array given to a property is not
 replaced by its default

---
 ngoschema/protocols/collection_protocol.py | 2 +-
 ngoschema/protocols/type_protocol.py       | 4 ++--
 ngoschema/types/array.py                   | 6 ++++--
 ngoschema/types/collection.py              | 2 +-
 ngoschema/types/object.py                  | 4 ++--
 5 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 64bc017..06f55b8 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -41,7 +41,7 @@ class CollectionProtocol(Collection):
         #Collection.__init__(self, **opts)
         if value is None:
             # to allow initialization by keywords
-            value = opts
+            value = opts or self._default
             opts = {}
         self._data = self._deserialize(self, value, items=False, evaluate=False, **opts)  #, convert=False, **opts)
         # touch allocates storage for data, need to call _create_context again
diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index 0f428c8..fa6b25d 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -95,7 +95,7 @@ class TypeProtocol(Serializer):
 
     @staticmethod
     def _has_default(self, value=None, **opts):
-        return bool(value or self._default)
+        return bool(self._default if value is None else value)
 
     @classmethod
     def has_default(cls, value=None, **opts):
@@ -103,7 +103,7 @@ class TypeProtocol(Serializer):
 
     @classmethod
     def default(cls, value=None, evaluate=False, raw_literals=True, **opts):
-        return cls._deserialize(cls, value or cls._default, raw_literals=raw_literals, **opts)
+        return cls._deserialize(cls, cls._default if value is None else value, raw_literals=raw_literals, **opts)
 
     @classmethod
     def is_primitive(cls):
diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 6a9ab6e..06e1694 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -41,7 +41,9 @@ class ArrayDeserializer(CollectionDeserializer):
         value = CollectionDeserializer._deserialize(self, value, **opts)
         #split_string = self._splitString if split_string is None else split_string
         #str_del = self._strDelimiter if str_del is None else str_del
-        if String.check(value):
+        if String.check(value) and not value:
+            value = []
+        elif String.check(value):
             split_string = opts.get('split_string', self._splitString)
             str_del = opts.get('strDelimiter', self._strDelimiter)
             value = [s.strip() for s in value.split(str_del)] if split_string else [value]
@@ -158,7 +160,7 @@ class Array(Collection, ArraySerializer):
         return True
 
     def default(self, value=None, **opts):
-        value = value or self._default
+        value = self._default if value is None else value
         ret = [None] * len(value)
         for k, t in self._items_types(self, value):
             ret[k] = t.default(value[k], **opts) if t.has_default(value[k]) else None
diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 59e667a..3c52d2d 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -74,7 +74,7 @@ class Collection(Type, CollectionSerializer):
 
     @staticmethod
     def _deserialize(self, value, evaluate=True, items=False, **opts):
-        ret = self._deserializer._deserialize(self, value or self._default, items=items, evaluate=False, **opts)
+        ret = self._deserializer._deserialize(self, self._default if value is None else value, items=items, evaluate=False, **opts)
         #ret = self._collType(ret)
         if items:
             for k, t in self._items_types(self, value):
diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 06f15b2..101ba32 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -189,7 +189,7 @@ class Object(Collection, ObjectSerializer):
         return sch_repr
 
     def default(self, value=None, **opts):
-        ret = self._collType(value or self._default)
+        ret = self._collType(self._default if value is None else value)
         for k in list(self._propertiesWithDefault):
             t = self._items_type(self, k)
             v = ret.get(k)
@@ -203,7 +203,7 @@ class Object(Collection, ObjectSerializer):
 
     @staticmethod
     def _deserialize(self, value, items=True, evaluate=True, raw_literals=False, **opts):
-        value = self._collType(value or self._default)
+        value = self._collType(self._default if value is None else value)
         #value = ObjectDeserializer._deserialize(self, value, items=False, evaluate=evaluate, **opts)
         value.update({k: self._items_type(self, k).default(raw_literals=True, evaluate=evaluate, **opts)
                       for k in self._propertiesWithDefault if k not in value})
-- 
2.43.0


From 6e422d39eee13b808e28bb788042866291e9e609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:03 +0000
Subject: [PATCH 046/103] fix: a failing foreign key resolution names the keys
 of a composite identity

---
 ngoschema/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index 3e33711..60b47f4 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -80,7 +80,7 @@ class Session(with_metaclass(SchemaMetaclass)):
             if keys in repo:
                 return repo.resolve_fkey(keys)
         else:
-            raise Exception("Impossible to resolve '%s'" % keys)
+            raise Exception("Impossible to resolve '%s'" % (keys, ))
 
     def query(self, *attrs, order_by=False, **attrs_value):
         """
-- 
2.43.0


From 118d1d6b2407f995dad7545f765fcf209af76c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:48 +0000
Subject: [PATCH 047/103] fix: an array type called with 0 or an empty array
 keeps it

---
 ngoschema/types/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 06e1694..8653bfa 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -119,7 +119,7 @@ class Array(Collection, ArraySerializer):
         Collection.__init__(self, **opts)
 
     def __call__(self, value=None, *values, **opts):
-        value = value or list(values)  # to allow initialization by varargs
+        value = list(values) if value is None else value  # to allow initialization by varargs
         opts['context'] = opts['context'] if 'context' in opts else self._create_context(self, **opts)
         return Type.__call__(self, value, **opts)
 
-- 
2.43.0


From 09f07f0f1f20f10fde1b6a28448fb598a9eed52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:24 +0000
Subject: [PATCH 048/103] fix: 0, False and the empty string are defaults of
 untyped values too

---
 ngoschema/protocols/type_protocol.py | 3 ++-
 ngoschema/types/collection.py        | 4 ++++
 ngoschema/types/type.py              | 5 -----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index fa6b25d..ec21ef6 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -95,7 +95,8 @@ class TypeProtocol(Serializer):
 
     @staticmethod
     def _has_default(self, value=None, **opts):
-        return bool(self._default if value is None else value)
+        # 0, False and the empty string are defaults
+        return (self._default if value is None else value) is not None
 
     @classmethod
     def has_default(cls, value=None, **opts):
diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 3c52d2d..e54cf98 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -61,6 +61,10 @@ class Collection(Type, CollectionSerializer):
         Type.__init__(self, **opts)
         self._items = items or self._items
 
+    @staticmethod
+    def _has_default(self, value=None, **opts):
+        return bool(self._default if value is None else value)
+
     @staticmethod
     def _check(self, value, items=False, **opts):
         value = self._deserializer._check(self, value, **opts)
diff --git a/ngoschema/types/type.py b/ngoschema/types/type.py
index 70640ff..42a415c 100644
--- a/ngoschema/types/type.py
+++ b/ngoschema/types/type.py
@@ -39,11 +39,6 @@ class Primitive(Type):
     def is_primitive(cls):
         return True
 
-    @staticmethod
-    def _has_default(self, value=None, **opts):
-        # 0, False and the empty string are defaults
-        return (self._default if value is None else value) is not None
-
     def __init__(self, **opts):
         Type.__init__(self, **opts)
         self._rawLiterals = self._schema.get('rawLiterals', self._rawLiterals)
-- 
2.43.0


From 8823a5d505f9eb46a495ea29f23a1392937a6891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:35 +0000
Subject: [PATCH 049/103] fix: the default of an object property is not ignored

---
 ngoschema/protocols/object_protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 7d463f5..061193e 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -783,6 +783,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         attrs['_mroType'] = pbases
         if 'lazyLoading' in schema:
             attrs['_lazyLoading'] = schema['lazyLoading']
+        if schema.get('default') is not None:
+            attrs['_default'] = schema['default']
         # add inner definitions
         for k, d in defs.items():
             attrs[k] = d
-- 
2.43.0


From 9ca9967051e1087010975054f8b75847cc00f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:13 +0000
Subject: [PATCH 050/103] fix: a property with an enumeration can be given a
 default by a class attribute

---
 ngoschema/protocols/type_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index ec21ef6..aff397d 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -67,7 +67,8 @@ class TypeProtocol(Serializer):
                 assert hasattr(fc, '_proxyUri')
             extra_bases += (ForeignKey, )
         if 'type' in schema:
-            extra_bases += (type_builder.get_type(schema['type']), )
+            ty = type_builder.get_type(schema['type'])
+            extra_bases += (ty, ) if ty not in extra_bases else ()
         # filter bases to remove duplicates
         extra_bases = tuple(b for b in extra_bases if not issubclass(b, bases))
         if not bases and not extra_bases:
-- 
2.43.0


From 54a2c750da30d411f979faf4f946f1a5cb7d69f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:14 +0000
Subject: [PATCH 051/103] fix: the time zone of a datetime given as text is not
 dropped, None and dates can be serialized with a format

---
 ngoschema/types/datetime.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index 078edb6..1bdb5f5 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -15,12 +15,13 @@ from .. import settings
 def _dt_serialize(cls, value, **opts):
     format = opts.get('format') or cls._schema.get('format')
     format = settings.DATETIME_FORMATS.get(format, format)
-    if format:
+    if format and value is not None:
         if '%' in format:
             return value.strftime(format)
-        else:
-            return value.format(format)
-    return value.isoformat() if value else None
+        if isinstance(value, datetime.time):
+            value = datetime.datetime.combine(datetime.date(1, 1, 1), value)
+        return arrow.get(value).format(format)
+    return value.isoformat() if value is not None else None
 
 
 @register_type('date')
@@ -138,7 +139,7 @@ class Datetime(Date, Time):
                 a_d = arrow.get(value, settings.DATE_FORMATS + settings.ALT_DATE_FORMATS)
                 a_t = arrow.get(value, settings.ALT_TIME_FORMATS)
                 dt = datetime.datetime.combine(a_d.date(), a_t.time())
-                return arrow.get(dt)
+                return arrow.Arrow.fromdatetime(dt, a_t.tzinfo)
         except Exception as er:
             raise InvalidValue("{0} is not detected as a datetime: {1}".format(value, str(er)))
 
-- 
2.43.0


From 182c6b4282f28e3af3f22f4fef9d0748b0474c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:14 +0000
Subject: [PATCH 052/103] fix: a serialized datetime can be read again, what is
 not a datetime is rejected

---
 ngoschema/types/datetime.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index 1bdb5f5..528bd1c 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -127,7 +127,7 @@ class Datetime(Date, Time):
             return value
         if isinstance(value, arrow.Arrow):
             return value
-        if isinstance(value, datetime.datetime):
+        if isinstance(value, (datetime.datetime, datetime.date)):
             return arrow.get(value)
         try:
             if String.check(value, **opts):
@@ -136,12 +136,16 @@ class Datetime(Date, Time):
                     return arrow.utcnow()
                 if value in settings.DATE_TODAY_STRINGS:
                     return arrow.get(arrow.utcnow().date())
+                if 'T' in value:
+                    # as serialized
+                    return arrow.get(value)
                 a_d = arrow.get(value, settings.DATE_FORMATS + settings.ALT_DATE_FORMATS)
                 a_t = arrow.get(value, settings.ALT_TIME_FORMATS)
                 dt = datetime.datetime.combine(a_d.date(), a_t.time())
                 return arrow.Arrow.fromdatetime(dt, a_t.tzinfo)
         except Exception as er:
             raise InvalidValue("{0} is not detected as a datetime: {1}".format(value, str(er)))
+        raise InvalidValue("{0} is not detected as a datetime.".format(value))
 
     @staticmethod
     def _serialize(self, value, **opts):
-- 
2.43.0


From 2d5bdbe6119cb015db4398c66c8ad615b1f71ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:14 +0000
Subject: [PATCH 053/103] fix: a datetime given for a date or a time is
 rejected as an invalid value

---
 ngoschema/types/datetime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index 528bd1c..9eca169 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -42,7 +42,8 @@ class Date(Primitive):
         if value is None:
             return value
         if isinstance(value, (arrow.Arrow, datetime.datetime)):
-            assert value.time() == datetime.time(0, 0), value.time()
+            if value.time() != datetime.time(0, 0):
+                raise InvalidValue("{0} is not detected as a date.".format(value))
             return value.date()
         if isinstance(value, datetime.date):
             return value
@@ -88,7 +89,8 @@ class Time(Primitive):
         if isinstance(value, datetime.time):
             return value
         if isinstance(value, (datetime.datetime, arrow.Arrow)):
-            assert value.date() == datetime.date(1, 1, 1)
+            if value.date() != datetime.date(1, 1, 1):
+                raise InvalidValue("{0} is not detected as a time.".format(value))
             return value.time()
         if String.check(value, **opts):
             value = String.convert(value, **opts)
-- 
2.43.0


From d4e5b9a41954c066770fe16ce1b83b00a010c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:16 +0000
Subject: [PATCH 054/103] fix: what is serialized with a declared date format
 can be read again

---
 ngoschema/types/datetime.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index 9eca169..7f41c55 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -24,6 +24,17 @@ def _dt_serialize(cls, value, **opts):
     return value.isoformat() if value is not None else None
 
 
+def _dt_deserialize(cls, value):
+    # read what has been serialized with the declared format
+    format = cls._schema.get('format')
+    format = settings.DATETIME_FORMATS.get(format, format)
+    if format:
+        try:
+            return arrow.get(datetime.datetime.strptime(value, format) if '%' in format else arrow.get(value, format))
+        except Exception:
+            pass
+
+
 @register_type('date')
 class Date(Primitive):
     """
@@ -51,6 +62,9 @@ class Date(Primitive):
             value = String.convert(value, **opts)
             if value in settings.DATE_TODAY_STRINGS + settings.DATETIME_NOW_STRINGS:
                 return arrow.utcnow().date()
+            a = _dt_deserialize(self, value)
+            if a is not None:
+                return a.date()
             try:
                 a = arrow.get(value, settings.DATE_FORMATS)
                 assert a.time() == datetime.time(0, 0), a.time()
@@ -97,6 +111,9 @@ class Time(Primitive):
             if value in settings.DATETIME_NOW_STRINGS + settings.DATE_TODAY_STRINGS:
                 a = arrow.utcnow()
                 return a.time()
+            a = _dt_deserialize(self, value)
+            if a is not None:
+                return a.time()
             try:
                 a = arrow.get(value, settings.ALT_TIME_FORMATS)
                 assert a.date() == datetime.date(1, 1, 1)
@@ -138,6 +155,9 @@ class Datetime(Date, Time):
                     return arrow.utcnow()
                 if value in settings.DATE_TODAY_STRINGS:
                     return arrow.get(arrow.utcnow().date())
+                a = _dt_deserialize(self, value)
+                if a is not None:
+                    return a
                 if 'T' in value:
                     # as serialized
                     return arrow.get(value)
-- 
2.43.0


From f44103776f4d0c73cde625431f00415a0b9054f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:38 +0000
Subject: [PATCH 055/103] fix: symbols whose value is falsy can be imported

---
 ngoschema/types/symbols.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ngoschema/types/symbols.py b/ngoschema/types/symbols.py
index 00c7d2f..44ad9c7 100644
--- a/ngoschema/types/symbols.py
+++ b/ngoschema/types/symbols.py
@@ -42,9 +42,7 @@ class Symbol(Primitive):
                     for a in typed[pos + 1:].split("."):
                         if not a:
                             continue
-                        ret = getattr(ret, a, None)
-                        if not ret:
-                            raise ConversionError("%s is not an importable object" % value)
+                        ret = getattr(ret, a)
                     typed = ret
                     break
                 except Exception as er:
-- 
2.43.0


From 7e15c58c3fa7f1c5e5266f8a45fc0b51ddfffba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:38 +0000
Subject: [PATCH 056/103] fix: an empty text is converted to a path, the url of
 a file to the path of this file

---
 ngoschema/types/uri.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ngoschema/types/uri.py b/ngoschema/types/uri.py
index cdc7acc..886f84e 100644
--- a/ngoschema/types/uri.py
+++ b/ngoschema/types/uri.py
@@ -141,14 +141,15 @@ class Path(Uri):
         """
         typed = value
         if isinstance(typed, urllib.parse.ParseResult):
-            typed = pathlib.Path(urllib.parse.unquote(typed.geturl()))
-        elif typed:
+            # the url of a file is the one of a path
+            typed = pathlib.Path(urllib.parse.unquote(typed.path if typed.scheme == 'file' else typed.geturl()))
+        elif typed is not None:
             # cast to str to make sure the path is converted
             typed = pathlib.Path(String.convert(str(typed), **opts))
         expand_user = opts.get('expand_user', self._expandUser)
-        if expand_user:
+        if expand_user and typed is not None:
             typed = typed.expanduser()
-        if resolve:
+        if resolve and typed is not None:
             typed = typed.resolve()
         return typed
 
-- 
2.43.0


From 895745338bfd8ba905b1b3be1a6b5a2585e16b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 057/103] fix: instances know their parent instance, their
 canonical name follows the names of their parents

---
 ngoschema/contexts/instance_context.py | 5 +++--
 ngoschema/models/instances.py          | 6 ++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ngoschema/contexts/instance_context.py b/ngoschema/contexts/instance_context.py
index f8c52d0..b1d1edf 100644
--- a/ngoschema/contexts/instance_context.py
+++ b/ngoschema/contexts/instance_context.py
@@ -11,7 +11,8 @@ class InstanceContext(ObjectProtocolContext):
     def set_context(self, context, **opts):
         from ..models.instances import Instance
         ObjectProtocolContext.set_context(self, context, **opts)
-        self._parentInstance = next((m for m in self._context.maps
-                                      if isinstance(m, Instance) and m is not self), None)
+        # set directly, as instances declare a (read only) property with the same name
+        self.__dict__['_parentInstance'] = next((m for m in self._context.maps
+                                                 if isinstance(m, Instance) and m is not self), None)
         if '_parentInstance' in self._properties:
             self._set_dataValidated('_parentInstance', self._parentInstance)
diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index ca2e648..fd8fc74 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -34,6 +34,12 @@ class Instance(with_metaclass(SchemaMetaclass, InstanceContext)):
     def get_canonicalName(self):
         return self._canonicalName
 
+    def _is_outdated(self, item):
+        # the canonical name also depends on the names of the parents
+        if item == 'canonicalName' and self._dataValidated.get(item) != self._canonicalName:
+            return True
+        return ObjectProtocol._is_outdated(self, item)
+
     def get_parentInstance(self):
         return self._parentInstance  # set in context
 
-- 
2.43.0


From 6ee789da14751b9be03ed3129dd6994f40d54a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 058/103] fix: an existing object placed in another one gets it
 as parent, a copy is not a child of the original

---
 ngoschema/protocols/collection_protocol.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 06f55b8..e6d957f 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -142,11 +142,25 @@ class CollectionProtocol(Collection):
             elif isinstance(t, _True):
                 return v
             else:
-                return v if isinstance(t, type) and isinstance(v, t) else t(v, **opts)
+                if isinstance(t, type) and isinstance(v, t):
+                    self._items_adopt(v)
+                    return v
+                return t(v, **opts)
         except Exception as er:
             self._logger.error(er, exc_info=True)
             raise er
 
+    def _items_adopt(self, value):
+        # an existing collection without parent belongs to the one in which it is placed
+        if not isinstance(value, CollectionProtocol) or getattr(value, '_parent', None) is not None:
+            return
+        if any(m is value for m in self._context.maps):
+            return
+        value.set_context(value._create_context(value, context=self._context))
+        if value.is_array():
+            for v in value._dataValidated:
+                value._items_adopt(v)
+
     def items_serialize(self, item, **opts):
         v = self[item]
         t = self._items_type(self, item)
@@ -216,7 +230,10 @@ class CollectionProtocol(Collection):
         return self._serializer._serialize(self, self, deserialize=deserialize, **opts)
 
     def copy(self):
-        return self.create(self._data, context=self._context)
+        # the original is not in the context of its copy
+        context = self._context.__class__(*[m for m in self._context.maps if m is not self])
+        context._session = getattr(self._context, '_session', None)
+        return self.create(self._data, context=context)
 
     def __eq__(self, other):
         if other is None:
-- 
2.43.0


From a893dfb961957cfae4e0bea9843d68452c62e8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 059/103] fix: canonical names are resolved relatively to the
 object, the representation of an instance does not recurse in its parents

---
 ngoschema/protocols/object_protocol.py | 27 +++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 061193e..9989849 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -324,7 +324,6 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                                 name, self.__class__.__name__))
 
     def resolve_cname_path(self, cname):
-        from ..models.instances import Instance
         # use generators because of 'null' which might lead to different paths
         def _resolve_cname_path(cn, cur, cur_cn, cur_path):
             # empty path, yield current path and doc
@@ -336,24 +335,29 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                     if cn2 == cn:
                         yield cur, cn, cur_path
                     for k, v in cur.items():
-                        if Object.check(v) or Array.check(v, split_string=False):
+                        # the context of an instance (parents) is not below it
+                        if k[0] == '_':
+                            continue
+                        if Object.check(v) or isinstance(v, (Array, list)):
                             for _ in _resolve_cname_path(cn, v, cn2, cur_path + [k]):
                                 yield _
-            if Array.check(cur, split_string=False):
+            if isinstance(cur, (Array, list)):
                 for i, v in enumerate(cur):
                     for _ in _resolve_cname_path(cn, v, cur_cn, cur_path + [i]):
                         yield _
 
-        cname = [self.name] if isinstance(self, Instance) else []
-        cname += [e.split(':')[-1] for e in cname]
+        if not cname:
+            return []
+        # the canonical name is relative to this object
+        cname = [self.get(ATTRIBUTE_NAME_FIELD) or '<anonymous>'] + list(cname)
+        cname = [e.rsplit(':')[-1] for e in cname]
         cur = self
         cur_cn = []
         # first search without last element, as last one might not be a named object
         # but the name of an attribute
         for d, c, p in _resolve_cname_path(cname[:-1], cur, cur_cn, []):
-            if cname[-1] in d or (d.get(ATTRIBUTE_NAME_FIELD) or '<anonymous>').rsplit(':')[-1] == cname[-1]:
-                p.append(cname[-1])
-                return p
+            if cname[-1] in d:
+                return p + [cname[-1]]
             # we can continue the search from last point. we remove the last element of the
             # canonical name which is going to be read again
             for d2, c2, p2 in _resolve_cname_path(cname, d, c[:-1], p):
@@ -362,7 +366,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
 
     #@assert_arg(1, Tuple, strDelimiter='.')
     def resolve_cname(self, cname):
-        cname = cname if Array.check(cname) else cname.split('.')
+        cname = cname.split('.') if isinstance(cname, six.string_types) else cname
         cur, path = self, self.resolve_cname_path(cname)
         for p in path:
             cur = cur[p]
@@ -484,7 +488,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     def __repr__(self):
         if self._repr is None:
             m = settings.PPRINT_MAX_EL
-            ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=True))
+            # the context (parents) leads back to this object
+            ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=True, excludes=[k for k in self._notSerialized if k[0] == '_']))
             hidden = max(0, len(ks) - m)
             a = ['%s=%s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
             a += ['+%i...' % hidden] if hidden else []
@@ -494,7 +499,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     def __str__(self):
         if self._str is None:
             m = settings.PPRINT_MAX_EL
-            ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=False))
+            ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=False, excludes=[k for k in self._notSerialized if k[0] == '_']))
             hidden = max(0, len(ks) - m)
             a = ['%s: %s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
             a += ['+%i...' % hidden] if hidden else []
-- 
2.43.0


From d1fcbb65254301671ad21e429a4ec65db5d9e7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 060/103] fix: canonical names are resolved in the repositories
 of a session, without stale cache

---
 ngoschema/session.py           | 10 +++-------
 ngoschema/types/foreign_key.py |  2 +-
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index 60b47f4..5636946 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -40,7 +40,6 @@ class Session(with_metaclass(SchemaMetaclass)):
     _id = "https://numengo.org/ngoschema#/$defs/session/$defs/Session"
 
     def __init__(self, **kwargs):
-        self._resolve_cname = functools.lru_cache(1024)(self._resolve_cname_cached)
         ObjectProtocol.__init__(self, value=kwargs)
         self._new = {}  # InstanceState->object, strong refs object
         self._deleted = {}  # same
@@ -61,16 +60,13 @@ class Session(with_metaclass(SchemaMetaclass)):
         return r(session=self)
 
     def resolve_cname(self, cname):
-        return self._resolve_cname(cname)
-
-    def _resolve_cname_cached(self, cname):
         from .models.instances import Entity
         cns = cname.split('.')
         rn = cns[0]
         cn = cns[1:]
-        for repo in [r for r in self._repos if issubclass(r.instanceClass, Entity)]:
-            if rn in repo:
-                v = repo.resolve_fkey(rn)
+        for repo in [r for r in self.repositories if issubclass(r.instanceClass, Entity)]:
+            if (rn, ) in repo:
+                v = repo.resolve_fkey((rn, ))
                 return v if not cn else v.resolve_cname(cn)
         raise Exception("Impossible to resolve '%s'" % cname)
 
diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index 9819e9a..74f6ef4 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -198,7 +198,7 @@ class CanonicalName(ForeignKey):
     def _resolve(self, cname, session=None, **opts):
         from ..models.instances import Instance
         session = session or scoped_session(session_maker())()
-        fc_repos = [r for r in session._repos if issubclass(r.instanceClass, Instance)]
+        fc_repos = [r for r in session.repositories if issubclass(r.instanceClass, Instance)]
         root = cname[0]
         ns = cname[1:]
         for r in fc_repos:
-- 
2.43.0


From 07f2103890de78ea050e60b1c262c3573ae78077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:46 +0000
Subject: [PATCH 061/103] fix: a collection no longer held by its parent
 belongs to the one in which it is placed

---
 ngoschema/protocols/array_protocol.py      |  2 +-
 ngoschema/protocols/collection_protocol.py | 33 ++++++++++++++++++----
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index bc0204f..c094ddd 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -109,7 +109,7 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
                 del self._itemsInputs[item], self._dataValidated[item], self._data[item]
                 raise
         elif isinstance(value, TypeProtocol):
-            value.set_context(value._create_context(value, context=self._context))
+            self._items_adopt(value)
         self._validate(self, value, items=False)
 
     def _str_list(self):
diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index e6d957f..b7bdb57 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -150,16 +150,37 @@ class CollectionProtocol(Collection):
             self._logger.error(er, exc_info=True)
             raise er
 
+    def _items_values(self):
+        return list(self._data.values() if self.is_object() else self._data)
+
+    def _items_hold(self, value):
+        return any(v is value or (isinstance(v, CollectionProtocol) and v.is_array() and v._items_hold(value))
+                   for v in self._items_values())
+
+    def _context_parent(self):
+        return next((m for m in self._context.maps
+                     if m is not self and isinstance(m, CollectionProtocol) and m.is_object()), None)
+
     def _items_adopt(self, value):
-        # an existing collection without parent belongs to the one in which it is placed
-        if not isinstance(value, CollectionProtocol) or getattr(value, '_parent', None) is not None:
+        # an existing collection belongs to the one in which it is placed, unless it still is in another one
+        if not isinstance(value, CollectionProtocol):
             return
-        if any(m is value for m in self._context.maps):
+        parent = value._context_parent()
+        if parent is not None and parent._items_hold(value):
             return
+        ancestor = self
+        while ancestor is not None:
+            if ancestor is value:
+                return
+            ancestor = ancestor._context_parent()
+        self._items_set_context(value)
+
+    def _items_set_context(self, value):
         value.set_context(value._create_context(value, context=self._context))
-        if value.is_array():
-            for v in value._dataValidated:
-                value._items_adopt(v)
+        parent = value if value.is_object() else value._context_parent()
+        for v in value._items_values():
+            if isinstance(v, CollectionProtocol) and (v.is_array() or v._context_parent() is parent):
+                value._items_set_context(v)
 
     def items_serialize(self, item, **opts):
         v = self[item]
-- 
2.43.0


From 853b41cd356318a2ab2ccec2e42c4431ad46ffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:23 +0000
Subject: [PATCH 062/103] fix: the text of an instance follows the names of its
 parents

---
 ngoschema/models/instances.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index fd8fc74..f94ee93 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -24,11 +24,10 @@ class Instance(with_metaclass(SchemaMetaclass, InstanceContext)):
     _id = "https://numengo.org/ngoschema#/$defs/instances/$defs/Instance"
 
     def __str__(self):
-        if self._str is None:
-            cn = self._canonicalName
-            a = ([cn] if cn else []) + [f'{k}={str(self._dataValidated[k] or self._data[k])}' for k in self._required]
-            self._str = '<%s %s>' % (self.qualname(), ' '.join(a))
-        return self._str
+        # not cached, as it also depends on the names of the parents
+        cn = self._canonicalName
+        a = ([cn] if cn else []) + [f'{k}={str(self._dataValidated[k] or self._data[k])}' for k in self._required]
+        return '<%s %s>' % (self.qualname(), ' '.join(a))
 
     @depend_on_prop('name')
     def get_canonicalName(self):
-- 
2.43.0


From 8ebe1416b9d59768b91161976d762f4408dca488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:57 +0000
Subject: [PATCH 063/103] fix: resolution of a document registered again or
 removed is not stale, load a schema identified by its title, index of an
 array in a fragment

---
 ngoschema/loaders/schemas.py        | 2 +-
 ngoschema/resolvers/uri_resolver.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/loaders/schemas.py b/ngoschema/loaders/schemas.py
index 9fd191b..c5f2f2f 100644
--- a/ngoschema/loaders/schemas.py
+++ b/ngoschema/loaders/schemas.py
@@ -38,7 +38,7 @@ def load_schema(schema, schemas_store=None):
     :type schemas_store: dict
     """
     from ngoschema.resolvers.uri_resolver import UriResolver
-    uri = _id_of(schema).rstrip('#')
+    uri = (_id_of(schema) or '').rstrip('#')
     if not uri and "title" in schema:
         uri = inflection.parameterize(six.text_type(schema["title"]), "_")
     if not uri:
diff --git a/ngoschema/resolvers/uri_resolver.py b/ngoschema/resolvers/uri_resolver.py
index 1486102..5c98f10 100644
--- a/ngoschema/resolvers/uri_resolver.py
+++ b/ngoschema/resolvers/uri_resolver.py
@@ -41,7 +41,6 @@ def domain_uri(name, domain=None):
     return "%s%s#" % (domain, clean_for_uri(name))
 
 
-@functools.lru_cache(128)
 def resolve_doc(uri_id, remote=False):
     uri, frag = urldefrag(uri_id)
     ret = UriResolver._doc_store.get(uri)
@@ -62,6 +61,8 @@ def resolve_fragment(doc, fragment):
         try:
             part = part.replace(u"~1", u"/").replace(u"~0", u"~")
             if is_sequence(doc):
+                if not part.isdigit():  # an index does not count from the end
+                    raise KeyError(part)
                 part = int(part)
             doc = doc[part]
         except:
-- 
2.43.0


From acbfe9fdff3967b94b0181c9d3541bc74d10a8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:04 +0000
Subject: [PATCH 064/103] fix: relative url of a folder of the base

---
 ngoschema/resolvers/uri_resolver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ngoschema/resolvers/uri_resolver.py b/ngoschema/resolvers/uri_resolver.py
index 5c98f10..307acca 100644
--- a/ngoschema/resolvers/uri_resolver.py
+++ b/ngoschema/resolvers/uri_resolver.py
@@ -87,7 +87,11 @@ def relative_url(target, base):
         raise ValueError('target and base netlocs do not match')
     base_dir = '.' + posixpath.dirname(base.path)
     target = '.' + target.path
-    return posixpath.relpath(target, start=base_dir)
+    rel = posixpath.relpath(target, start=base_dir)
+    if rel.split('/')[-1] in ('.', '..') and posixpath.basename(target).strip('.'):
+        # one of the folders of the base, named so that the slash of a folder is not added
+        rel = posixpath.join(rel, '..', posixpath.basename(target))
+    return rel
 
 
 class UriResolver(RefResolver):
-- 
2.43.0


From 5481e63adca2d1ee127142bbdcd93d75aded6561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:46 +0000
Subject: [PATCH 065/103] fix: canonical names of documents whose uris start
 the same, of sub namespaces and of namespaces added later

---
 ngoschema/managers/namespace_manager.py | 36 ++++++++++++-------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index e420217..6d16efb 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -34,8 +34,6 @@ class NamespaceManager(Registry):
     _builder_ns = {}
 
     def __init__(self, *parents, **local):
-        self._get_id_cname = lru_cache(1024)(self._get_id_cname_cached)
-        self._get_cname_id = lru_cache(1024)(self._get_cname_id_cached)
         self._local = dict(local)
         self._local.setdefault('', self._current_ns_uri)
         self._registry = ChainMap(self._local, *parents)
@@ -46,7 +44,7 @@ class NamespaceManager(Registry):
         self._local[NamespaceManager._uri_to_cname(uri) if name is None else name] = uri
 
     def set_current(self, name):
-        ns_names = sorted([k for k in self._registry.keys() if name.startswith(k)])
+        ns_names = sorted([k for k in self._registry.keys() if not k or (name + '.').startswith(k + '.')])
         assert ns_names, name
         cname = ns_names[-1]
         self._current_ns = cname
@@ -61,22 +59,24 @@ class NamespaceManager(Registry):
         return self._current_ns_uri
 
     def _find_ns_by_cname(self, cname):
-        reg = ChainMap(self._registry, self._builder_ns)
-        ns_names = sorted([c for c, u in reg.items() if cname.startswith(c+'.') or c == cname], reverse=True)
+        # the most qualified namespace, of which the ones registered here come first
+        reg = ChainMap(self._registry, self._builder_ns, NamespaceManager.available_namespaces())
+        ns_names = [c for c in reg.keys() if cname.startswith(c+'.') or c == cname]
         if ns_names:
-            cn = ns_names[0]
+            cn = max(ns_names, key=len)
             return cn, reg[cn]
-        for u in UriResolver._doc_store.keys():
-            c = NamespaceManager._uri_to_cname(u)
-            if cname.startswith(c+'.') or c == cname:
-                return c, u
         return None, None
 
     def _find_ns_by_uri(self, uri):
         reg = ChainMap(self._registry, self._builder_ns)
-        ns_names = sorted([c for c, u in reg.items() if uri.startswith(u)], reverse=True)
+        def is_in(u):
+            # in the document or the fragment, not in one whose name starts the same
+            u = u.rstrip('#')
+            rest = uri[len(u):]
+            return uri.startswith(u) and (not rest or rest[0] == '#' or ('#' in u and rest[0] == '/'))
+        ns_names = sorted([(len(u.rstrip('#')), c) for c, u in reg.items() if is_in(u)], reverse=True)
         if ns_names:
-            cn = ns_names[0]
+            cn = ns_names[0][1]
             return cn, reg[cn]
         uri_ns = uri.split('#')[0] if '#' in uri else uri
         if uri_ns in UriResolver._doc_store.keys():
@@ -93,14 +93,14 @@ class NamespaceManager(Registry):
     def get_id_cname(self, ref, relative=False):
         rcn = self._current_ns
         cname = self._get_id_cname(ref, rcn)
-        if relative and rcn and cname.startswith(rcn):
+        if relative and rcn and (cname + '.').startswith(rcn + '.'):
             local_cn = cname[len(rcn):].split('.')
             if local_cn and not local_cn[0]:
                 return '.'.join(local_cn[1:])
             return rcn
         return cname
 
-    def _get_id_cname_cached(self, ref, current_ns):
+    def _get_id_cname(self, ref, current_ns):
         ns_cn, ns_uri = self._find_ns_by_uri(ref)
         #ns = ChainMap(self._registry, NamespaceManager.builder_namespaces(), NamespaceManager.available_namespaces())
         #ns_names = sorted([k for k, uri in ns.items() if ref.startswith(uri)], reverse=True)
@@ -109,7 +109,7 @@ class NamespaceManager(Registry):
         cn = ns_cn or current_ns
         frag = ref[len(ns_uri):] if ns_uri and ref.startswith(ns_uri) else ref
         #ns_uri, frag = urldefrag(ref)
-        if frag:
+        if frag.strip('#'):
             f_cn = NamespaceManager._fragment_to_cname(frag.strip('#'))
             return f'{ns_cn}.{f_cn}' if ns_cn else f_cn
         return ns_cn
@@ -128,7 +128,7 @@ class NamespaceManager(Registry):
             id = id[len(u.strip('#')):]
         return id
 
-    def _get_cname_id_cached(self, cname, current_ns):
+    def _get_cname_id(self, cname, current_ns):
         #ns = ChainMap(self._registry, NamespaceManager.builder_namespaces(), NamespaceManager.available_namespaces())
         # iterate on namespace sorted from the longest to get the most qualified
         #ns_names = sorted([k for k, uri in ns.items() if cname.startswith(k+'.') or k == cname], reverse=True)
@@ -176,7 +176,7 @@ class NamespaceManager(Registry):
                 elif not p[0].isdigit():
                     cn.append(p.replace('-', '_'))
         ns_name = '.'.join(cn)
-        return ns_name + NamespaceManager._fragment_to_cname(u.fragment) if u.fragment else ns_name
+        return '.'.join(filter(None, [ns_name, NamespaceManager._fragment_to_cname(u.fragment)]))
 
     @staticmethod
     def register_ns(uri, cname=None):
@@ -208,7 +208,7 @@ class NamespaceManager(Registry):
         return OrderedDict([(k, ns[k]) for k in sorted(nsk)])
 
     def get_cname_definitions(self, cname):
-        ns_uri = self.get_id_cname(cname)
+        ns_uri = self._get_cname_id(cname, self._current_ns)
         doc = resolve_uri(ns_uri)
         defs = {}
         for tag in ['$defs', 'definitions']:
-- 
2.43.0


From c3239ee5960181e40c48fb38c35b9e68d25bd2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:57 +0000
Subject: [PATCH 066/103] fix: the canonical name of a document whose namespace
 is registered with an empty fragment

---
 ngoschema/managers/namespace_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index 6d16efb..7de2ccd 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -107,7 +107,8 @@ class NamespaceManager(Registry):
         #ns_uri = ns.get(ns_names[0]) if ns_names else urldefrag(ref)[0]
         #ns_cn = ns_names[0] if ns_names else Uri.convert(ref).path.replace('/', '.')
         cn = ns_cn or current_ns
-        frag = ref[len(ns_uri):] if ns_uri and ref.startswith(ns_uri) else ref
+        ns_uri = (ns_uri or '').rstrip('#')
+        frag = ref[len(ns_uri):] if ref.startswith(ns_uri) else ref
         #ns_uri, frag = urldefrag(ref)
         if frag.strip('#'):
             f_cn = NamespaceManager._fragment_to_cname(frag.strip('#'))
-- 
2.43.0


From f15a94ae46ebb2be9c38c6af12df90056f7b0aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:01 +0000
Subject: [PATCH 067/103] fix: definitions which refer to each other can be
 loaded in any order, and after a load which failed

A type based on one on construction is built once the latter is, a
proxy of an alias has the type of what it refers to, keywords beside a
reference extend what it refers to, and a build which fails leaves
nothing behind.
---
 ngoschema/managers/type_builder.py | 62 ++++++++++++++++++++++--------
 ngoschema/protocols/type_proxy.py  | 17 ++++++--
 2 files changed, 60 insertions(+), 19 deletions(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 4ed9fbc..6bc0e7c 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -33,6 +33,7 @@ class TypeBuilder(GenericClassRegistry):
     _registry = {}
     _type_registry = {}
     _on_construction = {}
+    _built = []
 
     def register_type(self, type):
         """Decorator to register a protocol based class """
@@ -74,35 +75,64 @@ class TypeBuilder(GenericClassRegistry):
             #return TypeProxy.build(id)()
         if schema is None:
             schema = resolve_uri(id)
+        if self._is_to_wait(id, schema):
+            return TypeProxy.build(id, schema)
         if schema is True:
             return _True()
         if schema is False:
             return _False()
         attrs = attrs or {}
+        nb_built = len(self._built)
         self._on_construction[id] = (schema, bases, attrs)
-        if '$ref' in schema:
-            schema = schema.copy()
-            ref = schema.pop('$ref')
-            cls = self.load(scope(ref, id))
-            if schema:
-                cls = cls.extend_type(id, **schema)
-        elif 'object' in schema.get('type', ''):
-            cls = ObjectProtocol.build(id, schema, bases, attrs)
-        elif 'array' in schema.get('type', ''):
-            cls = ArrayProtocol.build(id, schema, bases, attrs)
-        else:
-            cls = TypeProtocol.build(id, schema, bases, attrs)()
-        self._on_construction.pop(id)
-        self._registry[id] = cls
+        try:
+            if '$ref' in schema:
+                schema = schema.copy()
+                ref = schema.pop('$ref')
+                cls = self.load(scope(ref, id))
+                if schema and cls.is_object():
+                    cls = ObjectProtocol.build(id, dict(schema, extends=[cls._id] + list(schema.get('extends', []))), bases, attrs)
+                elif schema and isinstance(cls, type):
+                    cls = TypeProtocol.build(id, schema, (cls, ))
+                elif schema:
+                    cls = TypeProtocol.build(id, schema, (type(cls), ))()
+            elif 'object' in schema.get('type', ''):
+                cls = ObjectProtocol.build(id, schema, bases, attrs)
+            elif 'array' in schema.get('type', ''):
+                cls = ArrayProtocol.build(id, schema, bases, attrs)
+            else:
+                cls = TypeProtocol.build(id, schema, bases, attrs)()
+        except Exception:
+            # forget what was built on the way as it may refer to what could not be built
+            for i in self._built[nb_built:]:
+                self._registry.pop(i, None)
+            del self._built[nb_built:]
+            raise
+        finally:
+            self._on_construction.pop(id, None)
+        if not getattr(cls, '_proxyUri', None):
+            self._registry[id] = cls
+            self._built.append(id)
+            if not self._on_construction:
+                self._built.clear()
         NamespaceManager.register_ns(id)
         return cls
 
+    def _is_to_wait(self, id, schema):
+        """if a type is based on one on construction"""
+        if not isinstance(schema, Mapping) or not self._on_construction:
+            return False
+        extends = [scope(e, id) for e in schema.get('extends', [])]
+        if '$ref' in schema and len(schema) > 1:
+            extends.append(scope(schema['$ref'], id))
+        return any(e in self._on_construction or (e not in self._registry and self._is_to_wait(e, resolve_uri(e)))
+                   for e in extends)
+
     def load(self, id):
         from ..protocols import TypeProxy
         if id not in self._registry:
             if id in self._on_construction:
                 return TypeProxy.build(id)
-            self._registry[id] = self.build(id)
+            return self.build(id)
         return self._registry[id]
 
     def check_schema(self, schema):
@@ -110,7 +140,7 @@ class TypeBuilder(GenericClassRegistry):
         for error in default_meta_validator.iter_errors(schema):
             raise SchemaError.create_from(error)
 
-    def schema_mro(id, schema=None):
+    def schema_mro(self, id, schema=None):
         schema = schema or resolve_uri(id)
         def _schema_mro(id, sch):
             for e in sch.get('extends', []):
diff --git a/ngoschema/protocols/type_proxy.py b/ngoschema/protocols/type_proxy.py
index a3cebaa..bc953e0 100644
--- a/ngoschema/protocols/type_proxy.py
+++ b/ngoschema/protocols/type_proxy.py
@@ -14,10 +14,16 @@ class TypeProxy(TypeProtocol):
         from ..managers.type_builder import type_builder
         from .object_protocol import ObjectProtocol
         from .array_protocol import ArrayProtocol
-        sch, bases, attrs = type_builder._on_construction[uri]
+        from ..resolvers.uri_resolver import resolve_uri, scope
+        sch, bases, attrs = type_builder._on_construction.get(uri, (schema, (), {}))
         schema = schema or sch
+        # the type is the one of what it refers to
+        typed, typed_uri = schema, uri
+        while 'type' not in typed and ('$ref' in typed or typed.get('extends')):
+            typed_uri = scope(typed['$ref'] if '$ref' in typed else typed['extends'][0], typed_uri)
+            typed = resolve_uri(typed_uri)
         clsname = attrs.get('_clsname') or default_ns_manager.get_id_cname(uri)
-        protocol = {'object': ObjectProtocol, 'array': ArrayProtocol}.get(sch['type'], TypeProtocol)
+        protocol = {'object': ObjectProtocol, 'array': ArrayProtocol}.get(typed.get('type'), TypeProtocol)
         #bases += (protocol, TypeProxy) if not issubclass(protocol, bases) else ()
         bases += (protocol, ) if not issubclass(protocol, bases) else ()
         attrs = {k: v for k, v in attrs.items() if not k.startswith('__')}
@@ -33,7 +39,12 @@ class TypeProxy(TypeProtocol):
     @classmethod
     def proxy_type(cls):
         from ..managers.type_builder import type_builder
-        return type_builder.get(cls._proxyUri)
+        uri = cls._proxyUri
+        if not type_builder.contains(uri) and uri not in type_builder._on_construction:
+            # what it had to wait for has been built since
+            t = type_builder.build(uri, cls._schema)
+            return None if getattr(t, '_proxyUri', None) else t
+        return type_builder.get(uri)
 
     @classmethod
     def check(cls, value, **opts):
-- 
2.43.0


From a9ce0ab88468db21c92d6191c7b490cd5e9f2722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:19 +0000
Subject: [PATCH 068/103] fix: items of an array whose type is a proxy are
 those of the type it stands for

---
 ngoschema/types/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 8653bfa..09d60c7 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -126,7 +126,8 @@ class Array(Collection, ArraySerializer):
     @staticmethod
     def _items_types(self, value, **opts):
         value = self._items[:len(value)] if self._itemsIsList else [self._items] * len(value)
-        return [(i, v) for i, v in enumerate(value)]
+        # what proxies stand for
+        return [(i, v.proxy_type() if getattr(v, '_proxyUri', None) else v) for i, v in enumerate(value)]
 
     @staticmethod
     def _items_type(self, item):
-- 
2.43.0


From 76bb27c5a428dd3e4a441c7c08ae73646012e62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:55 +0000
Subject: [PATCH 069/103] fix: what a getter gives is serialized whether or not
 it was read before

---
 ngoschema/types/object.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 101ba32..e9da0d3 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -90,10 +90,15 @@ class ObjectSerializer(CollectionSerializer, ObjectDeserializer):
         no_readOnly = opts.get('no_readOnly', self._noReadOnly)
         if no_readOnly:
             excludes = list(excludes) + list(self._readOnly)
+        descriptors = getattr(value, '_propertiesDescriptor', {})
         for k in all_ordered:
+            if not ObjectSerializer._is_included(k, value, excludes=excludes, only=only):
+                continue
+            # what a getter gives is not in the data until it is read
+            if no_defaults and getattr(descriptors.get(k), 'fget', None):
+                value.get(k)
             # required keys are printed whatever their value, as long as they are selected
-            if ObjectSerializer._is_included(k, value, excludes=excludes, only=only,
-                                             no_defaults=no_defaults and k not in self._required):
+            if ObjectSerializer._is_included(k, value, no_defaults=no_defaults and k not in self._required):
                 yield k
 
     @staticmethod
-- 
2.43.0


From 8dedab2107de355d48ecfffbf049d952a8b6dfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:30 +0000
Subject: [PATCH 070/103] fix: the pointer of a foreign key resolves the key it
 holds

---
 ngoschema/protocols/object_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 9989849..eccfbe8 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -630,7 +630,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 for kbp, bp in bps.items():
                     local_relationships[kbp] = rl = relationship_builder.build(f'{id}/relationships/{kbp}', bp, attrs=ra)
                     #local_relationships[rn] = rl = RelationshipBuilder.build(f'{id}/relationships/{rn}', rs, attrs=ra)
-                    local_relationships_descriptor[kbp] = RelationshipDescriptor(kbp, rl)
+                    local_relationships_descriptor[kbp] = RelationshipDescriptor(k, rl)
 
         # add some magic on methods defined in class
         # exception handling, argument conversion/validation, dependencies, etc...
-- 
2.43.0


From f72ee01c07921ea54ffdc17b2c948816983616c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:30 +0000
Subject: [PATCH 071/103] fix: a foreign key refers by default to the primary
 keys of its foreign class

---
 ngoschema/protocols/type_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index aff397d..e2e80d0 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -59,7 +59,7 @@ class TypeProtocol(Serializer):
                 fc = type_builder.load(fs)
                 attrs['_foreignClass'] = fc
                 #attrs['_foreignKeys'] = fks = schema.get('foreignKey', {}).get('foreignKeys', fc._primaryKeys)
-                attrs['_foreignKeys'] = fks = schema.get('foreignKey', {}).get('foreignKeys', getattr(fc._schema, 'primaryKeys', ['id']))
+                attrs['_foreignKeys'] = fks = schema.get('foreignKey', {}).get('foreignKeys') or getattr(fc, '_primaryKeys', None) or ['id']
                 attrs['_foreignKeysType'] = [fc._items_type(fc, k) for k in fks]
             except Exception as er:
                 # certainly a proxy type inf fc item fk type evaluation
-- 
2.43.0


From 8b3ae187aec4d644a760bf710e3641a19ae70396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:30 +0000
Subject: [PATCH 072/103] fix: foreign keys are whole keys of entities of the
 foreign class, and resolve in the session given

---
 ngoschema/types/foreign_key.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index 74f6ef4..938bb12 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -6,7 +6,7 @@ from collections import OrderedDict, defaultdict, Mapping, Sequence
 import re
 
 from .. import settings
-from ..exceptions import InvalidValue
+from ..exceptions import InvalidValue, ConversionError
 from ..decorators import assert_arg
 from ngoschema.resolvers.uri_resolver import resolve_uri
 from ..session import Session, scoped_session, session_maker
@@ -72,6 +72,8 @@ class ForeignKey(Ref):
             try:
                 fs = scope(fs, self._id)
                 fc = type_builder.load(fs)
+                # a proxy is replaced when the foreign class is needed
+                self._foreignClass = fc
                 self.set_foreignClass(fc)
             except Exception as er:
                 self._logger.error(er, exc_info=True)
@@ -95,7 +97,10 @@ class ForeignKey(Ref):
         from ..protocols.type_proxy import TypeProxy
         fc, fs = self._foreignClass, self._foreignSchema
         if fc and issubclass(fc, TypeProxy):
-            self._foreignClass = fc.proxy_type()
+            # might still be under construction
+            fc = fc.proxy_type()
+            if fc:
+                ForeignKey.set_foreignClass(self, fc)
         if not fc and fs:
             ForeignKey.set_foreignSchema(self, self._foreignSchema)
         return self._foreignClass
@@ -105,16 +110,23 @@ class ForeignKey(Ref):
         if value is None:
             return None
         fc = foreign_class or ForeignKey.get_foreignClass(self)
+        fkt = self._foreignKeysType
         if fc and isinstance(value, fc):
             value = [getattr(value, k) for k in self._foreignKeys]
+        elif getattr(value, '_hasPk', False):
+            raise ConversionError('%r is not an entity of %s' % (type(value), fc))
         elif Integer.check(value):
             if value < 0:
                 return None
             value = [value]
+        elif len(fkt) == 1 and String.check(value):
+            # the delimiter can be part of the key
+            value = [value]
         else:
             value = Array.deserialize(value, split_string=True, **opts)
+        if len(value) != len(fkt):
+            raise ConversionError('Impossible to convert %r to the foreign keys %s' % (value, list(self._foreignKeys)))
         opts['raw_literals'] = False
-        fkt = self._foreignKeysType
         return fkt[0]._convert(fkt[0], value[0], **opts) if len(fkt)==1 else tuple(t._convert(t, v, **opts) for t, v in zip(fkt, value))
         #return tuple(t._convert(t, v, **opts) for t, v in zip(self._foreignKeysType, value))
 
@@ -134,12 +146,12 @@ class ForeignKey(Ref):
 
     @staticmethod
     def _evaluate(self, value, validate=True, resolve=False, context=None, **opts):
-        ctx = TypeProtocol._create_context(self, context)
+        ctx = TypeProtocol._create_context(self, context=context)
         value = self._convert(self, value, context=ctx, **opts)
         if validate:
             self._validate(self, value, resolve=False, context=ctx)  # resolve False to avoid double resolution
         if resolve:
-            return self._resolve(self, value, context=ctx)
+            return self._resolve(self, value, context=ctx, **opts)
         return value
 
     @staticmethod
@@ -150,16 +162,15 @@ class ForeignKey(Ref):
         return value
 
     @staticmethod
-    @assert_arg(1, Tuple, strDelimiter=',')
     def _resolve(self, key, session=None, **opts):
         session = session or scoped_session(session_maker())()
-        ric = [r.instanceClass for r in session.repositories]
-        fc_repos = [r for r in session.repositories if issubclass(r.instanceClass, self._foreignClass)]
+        fc = ForeignKey.get_foreignClass(self)
+        key = tuple(key) if len(self._foreignKeysType) > 1 else (key, )
+        fc_repos = [r for r in session.repositories if issubclass(r.instanceClass, fc)]
         for r in fc_repos:
             # change resolve_fkey to use resolve??
-            v = r.resolve_fkey(key)
-            if v is not None:
-                return v
+            if key in r:
+                return r.resolve_fkey(key)
         raise InvalidValue('impossible to resolve foreign key %s' % repr(key))
 
 
-- 
2.43.0


From 6c5ee55572c7b5a5de2b8588c1d20abfd4b2cbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:29 +0000
Subject: [PATCH 073/103] fix: a context sees the maps added to it after it was
 first read

---
 ngoschema/utils/utils.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index e7dcd6f..a0d8ddd 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -95,18 +95,16 @@ class ReadOnlyChainMap(Mapping):
     def __str__(self):
         return str(self.merged)
 
-    _maps_flattened = None
     @property
     def maps_flattened(self):
-        if self._maps_flattened is None:
-            mf = []
-            for m in self._maps:
-                if isinstance(m, ReadOnlyChainMap):
-                    mf.extend(m.maps_flattened)
-                else:
-                    mf.append(m)
-            self._maps_flattened = mf
-        return self._maps_flattened
+        # maps can be added later to the context or to one it is made of
+        mf = []
+        for m in self._maps:
+            if isinstance(m, ReadOnlyChainMap):
+                mf.extend(m.maps_flattened)
+            else:
+                mf.append(m)
+        return mf
 
     @property
     def merged(self):
-- 
2.43.0


From b48a39d26cd32cf8f3fe6957b7aa8a7827557cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:29 +0000
Subject: [PATCH 074/103] fix: instances of a context can be searched in
 reverse order

---
 ngoschema/utils/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index a0d8ddd..7a0ade0 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -146,9 +146,8 @@ class Context(ReadOnlyChainMap):
         self._maps.append(mapping)
 
     def find_instance(self, cls, default=None, exclude=None, reverse=False):
-        gen = (m for m in self.maps if isinstance(m, cls) and m is not exclude)
-        if reverse:
-            gen = reversed(gen)
+        maps = reversed(self.maps) if reverse else self.maps
+        gen = (m for m in maps if isinstance(m, cls) and m is not exclude)
         return next(gen, default)
 
     def __hash__(self):
-- 
2.43.0


From 3b1343ec303b06d1bd0d473192308b93483a89f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:29 +0000
Subject: [PATCH 075/103] fix: a key already unregistered in an attached
 registry can be unregistered

---
 ngoschema/utils/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 7a0ade0..562008c 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -233,7 +233,9 @@ class Registry(Mapping):
     def unregister(self, key):
         del self._registry[key]
         for pr in self._parent_registries:
-            Registry.unregister(pr, key)
+            # it might have been unregistered there already
+            if key in pr._registry:
+                Registry.unregister(pr, key)
 
 
 class WeakRegistry(Registry):
-- 
2.43.0


From 1a3cb344f68e19dca14c3de85f4c900cd095fdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:29 +0000
Subject: [PATCH 076/103] fix: registry of weak references returns what it
 refers to

---
 ngoschema/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 562008c..d0e9480 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -245,8 +245,8 @@ class WeakRegistry(Registry):
         self._registry = weakref.WeakValueDictionary()
 
     def __getitem__(self, key):
-        # callv weak reference
-        return self._registry[key]()
+        # the weak reference is already resolved
+        return self._registry[key]
 
 
 class GenericClassRegistry(Registry):
-- 
2.43.0


From f94f1df704dde897c16f3ab1dff6e0b66d28261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:29 +0000
Subject: [PATCH 077/103] fix: class registry returns the default given

---
 ngoschema/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index d0e9480..508074c 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -266,7 +266,7 @@ class GenericClassRegistry(Registry):
         return f
 
     def get(self, id, default=None):
-        return self._registry.get(id)
+        return self._registry.get(id, default)
 
     def contains(self, id):
         return id in self._registry
-- 
2.43.0


From aacc2678e5653b1e6640fac80bb50540595acec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:05 +0000
Subject: [PATCH 078/103] fix: entities nested in a serialized one are replaced
 by their serialized keys when asked

---
 ngoschema/models/instances.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index f94ee93..0d485c3 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -99,18 +99,22 @@ class Entity(with_metaclass(SchemaMetaclass, EntityContext)):
         use_identity_keys = opts.get('use_identity_keys', False)
         use_entity_keys = opts.get('use_entity_keys', False)
         add_identity_keys = opts.get('add_identity_keys', False)
+        def identity_keys():
+            kopts = {k: v for k, v in opts.items() if k not in ('only', 'excludes')}
+            return [(k, value.items_serialize(k, **kopts)) for k in value._primaryKeys]
+
         if value and not root_entity:
             if use_identity_keys:
-                ik = value.identityKeys
+                ik = [v for k, v in identity_keys()]
                 return ik[0] if len(ik) == 1 else ik
             if use_entity_keys:
-                keys = self.primaryKeys
-                assert len(keys) == 1, keys
-                return {(keys[0] if keys[0] != '$id' else '$ref'): self.identityKeys[0]}
+                ik = identity_keys()
+                assert len(ik) == 1, ik
+                k, v = ik[0]
+                return {(k if k != '$id' else '$ref'): v}
         data = ObjectProtocol._serialize(self, value, **opts)
         if add_identity_keys:
-            for k in self._primaryKeys:
-                pk = value[k]
-                if pk is not None:
-                    data[k] = value[k]
+            for k, v in identity_keys():
+                if v is not None:
+                    data[k] = v
         return data
-- 
2.43.0


From 1d35fac21023e6dae6cd9ca5ec3728b4335c7d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:40 +0000
Subject: [PATCH 079/103] fix: canonical name of an instance follows its name
 when it is derived from other properties

---
 ngoschema/models/instances.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index 0d485c3..969a9ba 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -16,6 +16,7 @@ from .. import settings
 from ..decorators import memoized_property, depend_on_prop
 from ..protocols import SchemaMetaclass, ObjectProtocol, ArrayProtocol, Context
 from ..contexts import InstanceContext, EntityContext
+from ..types.strings import Pattern, Expr
 
 ATTRIBUTE_NAME_FIELD = settings.ATTRIBUTE_NAME_FIELD
 
@@ -46,7 +47,12 @@ class Instance(with_metaclass(SchemaMetaclass, InstanceContext)):
     def _canonicalName(self):
         # one that does not trigger lazyloading
         pi = self._parentInstance
-        n = self._dataValidated.get('name') or self._data.get('name')
+        n = self._data.get('name')
+        if Pattern.check(n) or Expr.check(n):
+            # depends on other properties
+            n = self['name']
+        else:
+            n = self._dataValidated.get('name') or n
         return f'{pi._canonicalName}.{n}' if pi is not None else n
 
 
-- 
2.43.0


From 657a1c8647d7923a7161f28af04c08771f955d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:55 +0000
Subject: [PATCH 080/103] fix: decorated methods of empty collections convert
 their argument too

---
 ngoschema/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 80bd467..9530a75 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -137,7 +137,7 @@ def assert_arg(arg, typ, **schema):
             if not assert_args:
                 return wrapped(*args, **kwargs)
 
-            arg_i2 = arg_i if not instance and arg_i is not None else arg_i - 1
+            arg_i2 = arg_i if instance is None or arg_i is None else arg_i - 1
             args = list(args)
             try:
                 if arg_s in kwargs:
-- 
2.43.0


From ed9036ab63f69cdd993f54fb2ecc3ea91b6e75ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:11 +0000
Subject: [PATCH 081/103] fix: array arguments of decorated functions and
 methods: second argument omitted or of one element

---
 ngoschema/decorators.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 9530a75..aea9bf6 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -44,16 +44,20 @@ def take_arrays(narg1=0, narg2=-1, flatten=False):
 
         @wrapt.decorator
         def wrapper(method, instance, args, kwargs):
+            has_arg2 = narg2 != -1 and narg2 < len(args)
             # case first argument is an array
-            if type(args[narg1]) in (list, set, tuple):
+            if narg1 < len(args) and type(args[narg1]) in (list, set, tuple):
                 ret = []
                 new_args = list(args)
                 # only first argument is an array
-                if (narg2 == -1 or not type(args[narg2]) in (list, set, tuple)
+                if (not has_arg2 or not type(args[narg2]) in (list, set, tuple)
                         or len(args[narg2]) == 1):
+                    # the only element of the second is used with each
+                    if has_arg2 and type(args[narg2]) in (list, set, tuple):
+                        new_args[narg2] = next(iter(args[narg2]))
                     for v in args[narg1]:
                         new_args[narg1] = v
-                        ret.append(wrapped(*new_args, **kwargs))
+                        ret.append(method(*new_args, **kwargs))
                 # both are list
                 else:
                     # same size - call with zipped values
@@ -61,7 +65,7 @@ def take_arrays(narg1=0, narg2=-1, flatten=False):
                         for v1, v2 in zip(args[narg1], args[narg2]):
                             new_args[narg1] = v1
                             new_args[narg2] = v2
-                            ret.append(wrapped(*new_args, **kwargs))
+                            ret.append(method(*new_args, **kwargs))
                     # different size
                     else:
                         raise InvalidValue(
@@ -69,7 +73,7 @@ def take_arrays(narg1=0, narg2=-1, flatten=False):
                             (narg1, narg2))
             else:
                 # if the first one is not a string, ignore and call func
-                return wrapped(*args, **kwargs)
+                return method(*args, **kwargs)
             if flatten:
                 return [item for sublist in ret for item in sublist]
             return ret
-- 
2.43.0


From 5b4cb23b2180f90da20f989a8eff2e72bc7cf28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:11 +0000
Subject: [PATCH 082/103] fix: logging decorator usable on functions called
 without positional argument

---
 ngoschema/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index aea9bf6..7deb603 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -199,7 +199,7 @@ def log_exceptions(method, instance, args, kwargs):
     SHOULDN T BE USED FOR __init__, use log_init instead
     """
     # special case happening for getters/setters
-    if instance is None:
+    if instance is None and args:
         instance = args[0]
     try:
         if hasattr(instance, "_logger"):
-- 
2.43.0


From b6f6af60dc3c481c8319969ea788844fdac598cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:55 +0000
Subject: [PATCH 083/103] fix: invalid arguments of decorated functions raise
 the validation error of the library

---
 ngoschema/decorators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 7deb603..d565d11 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -19,9 +19,8 @@ from wrapt import decorator
 
 from pprint import pformat
 from pyrsistent import pmap
-from python_jsonschema_objects.validators import ValidationError
 
-from .exceptions import InvalidValue
+from .exceptions import InvalidValue, ValidationError
 
 # about decorators and why using wrapt
 # https://hynek.me/articles/decorators/
-- 
2.43.0


From 8db69e41faf9a9f41e3ac209055cae4315335ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:33 +0000
Subject: [PATCH 084/103] fix: memoized methods overridden in a subclass,
 called on a copy or through a kept bound method

---
 ngoschema/decorators.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index d565d11..e2fbda9 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -336,8 +336,16 @@ class memoized_property(object):
 
 def memoized_method(*lru_args, **lru_kwargs):
     def decorator(func):
+        # attribute of the instance with the cache, proper to the function as
+        # it can be overridden in a subclass
+        cache_name = '_memoized_%s_%i' % (func.__name__, id(func))
+
         @functools.wraps(func)
         def wrapped_func(self, *args, **kwargs):
+            self_weak, cached_method = self.__dict__.get(cache_name, (None, None))
+            # the cache of another instance might have been copied with its attributes
+            if self_weak is not None and self_weak() is self:
+                return cached_method(*args, **kwargs)
             # We're storing the wrapped method inside the instance. If we had
             # a strong reference to self the instance would never die.
             self_weak = weakref.ref(self)
@@ -346,7 +354,7 @@ def memoized_method(*lru_args, **lru_kwargs):
             def cached_method(*args, **kwargs):
                 return func(self_weak(), *args, **kwargs)
             # can t use setattr as it conflicts with __setattr__ of protocol base
-            object.__setattr__(self, func.__name__, cached_method)
+            object.__setattr__(self, cache_name, (self_weak, cached_method))
             return cached_method(*args, **kwargs)
         return wrapped_func
     return decorator
-- 
2.43.0


From ca84add4a99b7e9944ecbf9694dcf1ff35c2ae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:30 +0000
Subject: [PATCH 085/103] fix: separator of flattened dictionaries is used at
 every level

---
 ngoschema/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 508074c..1e3ae5f 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -473,7 +473,7 @@ def nested_dict_iter(nested, separator='.'):
     """
     for key, value in nested.items():
         if isinstance(value, collections.Mapping):
-            for inner_key, inner_value in nested_dict_iter(value):
+            for inner_key, inner_value in nested_dict_iter(value, separator):
                 yield f'{key}{separator}{inner_key}', inner_value
         else:
             yield key, value
-- 
2.43.0


From 63d63e6c41a9acf47bc3724f1b49802805bef722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:30 +0000
Subject: [PATCH 086/103] fix: no empty page after grouping in full pages

---
 ngoschema/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 1e3ae5f..f6b5a19 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -512,7 +512,8 @@ def grouper( page_size, iterable ):
         if len(page) == page_size:
             yield page
             page= []
-    yield page
+    if page:
+        yield page
 
 
 @contextlib.contextmanager
-- 
2.43.0


From 835539b6d3bbe0dc6df14e4abd2d42dcba2fd362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:30 +0000
Subject: [PATCH 087/103] fix: a casted instance gets its class back after an
 exception

---
 ngoschema/utils/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index f6b5a19..62d4fc3 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -523,8 +523,10 @@ def casted_as(instance, cls):
     if cls not in instance_cls.__mro__:
         raise AttributeError("'%s' is not a parent of '%s'" % (cls, instance))
     instance.__class__ = cls
-    yield instance
-    instance.__class__ = instance_cls
+    try:
+        yield instance
+    finally:
+        instance.__class__ = instance_cls
 
 
 def class_casted_as(cls, other):
-- 
2.43.0


From a215cff2003a75c5fd9b12e9d670c3a4ba719456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:30 +0000
Subject: [PATCH 088/103] fix: dependencies given to topological sort are left
 as they are

---
 ngoschema/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 62d4fc3..a306878 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -682,8 +682,8 @@ def topological_sort(data):
     from functools import reduce
     if not data:
         return {}
-    for k, v in data.items():
-        v.discard(k) # Ignore self dependencies
+    # work on a copy and ignore self dependencies
+    data = {k: set(v) - {k} for k, v in data.items()}
     extra_items_in_deps = reduce(set.union, data.values()) - set(data.keys())
     data.update({item: set() for item in extra_items_in_deps})
     while True:
-- 
2.43.0


From e045fa40f81d9709190c9d3d5078aca3dd794dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:30 +0000
Subject: [PATCH 089/103] fix: path with an index designates the element of the
 sequence

---
 ngoschema/utils/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index a306878..3343b83 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -652,9 +652,12 @@ def split_path(path):
     """ return a path as a list of attributes and key, index"""
     paths = []
     for part in path.split('.'):
-        for key in part.split('['):
+        for i, key in enumerate(part.split('[')):
             key = key.strip('[]')
-            paths.append(int(key) if is_integer(key) else key)
+            if i and key.lstrip('-').isdigit():
+                key = int(key)
+            if key or i or '[' not in part:
+                paths.append(key)
     return paths
 
 
-- 
2.43.0


From ee19ed7709841377f2f81051bff0504e400caeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:30 +0000
Subject: [PATCH 090/103] fix: collection filtered on keys to keep or to
 exclude

---
 ngoschema/utils/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 3343b83..6762c73 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -448,14 +448,14 @@ def filter_collection(data,
 
     def _filter_keys(container, keys, keep=True):
         if is_mapping(container):
-            for k in keys.intersection(container.keys()):
-                if not keep:
+            for k in list(container.keys()):
+                if (k in keys) != keep:
                     container.pop(k)
                 elif recursive:
-                    _filter_keys(container[k], keys, keep, recursive)
+                    _filter_keys(container[k], keys, keep)
         elif is_sequence(container):
             for v in container:
-                _filter_keys(v, keys, keep, recursive)
+                _filter_keys(v, keys, keep)
         return container
 
     if only or but:
-- 
2.43.0


From 1682593964aadfb71fe87ff58ab8fa9c7e77c150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:28 +0000
Subject: [PATCH 091/103] fix: text is left as it is when there is nothing to
 replace

---
 ngoschema/utils/str_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/utils/str_utils.py b/ngoschema/utils/str_utils.py
index b040d99..935b8a3 100644
--- a/ngoschema/utils/str_utils.py
+++ b/ngoschema/utils/str_utils.py
@@ -158,6 +158,8 @@ def multiple_replace(string, key_values):
     :type key_values: dict
     :rtype: str
     """
+    if not key_values:
+        return string
     return _multiple_replacer(key_values)(string)
 
 
-- 
2.43.0


From 5d8ce45b5b1e536c082ef6bc3865eda66f1c5976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:11 +0000
Subject: [PATCH 092/103] fix: scoped session already present: arguments
 refused with the documented error, configuration accepted

---
 ngoschema/session.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index 5636946..863fa4b 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -8,9 +8,11 @@ licence: GNU GPLv3
 from __future__ import print_function
 from __future__ import unicode_literals
 
+import logging
 import weakref
 import functools
 
+from sqlalchemy import exc as sa_exc
 from sqlalchemy.util import ScopedRegistry, ThreadLocalRegistry
 
 from . import utils
@@ -19,6 +21,8 @@ from .protocols import ObjectProtocol, ArrayProtocol, SchemaMetaclass, with_meta
 from .types import Tuple, Array
 from .query import Query
 
+logger = logging.getLogger(__name__)
+
 _sessions = weakref.WeakValueDictionary()
 
 _new_sessionid = utils.threadsafe_counter()
@@ -342,7 +346,7 @@ class scoped_session(object):
         """
 
         if self.registry.has():
-            self._logger.warning(
+            logger.warning(
                 "At least one scoped session is already present. "
                 " configure() can not affect sessions that have "
                 "already been created."
-- 
2.43.0


From 0ca6c26aa640d521402be53187cc452372df3cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:25 +0000
Subject: [PATCH 093/103] fix: collections can be serialized by a type made on
 the fly

---
 ngoschema/types/array.py      | 2 +-
 ngoschema/types/collection.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 09d60c7..bc31176 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -169,7 +169,7 @@ class Array(Collection, ArraySerializer):
 
     @staticmethod
     def _null(self, value, **opts):
-        return self._collType([None for k in self.call_order(value, **opts)])
+        return self._collType([None for k in self._call_order(self, value, **opts)])
 
     @staticmethod
     def _check(self, value, split_string=True, **opts):
diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index e54cf98..08b91f5 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -121,7 +121,7 @@ class Collection(Type, CollectionSerializer):
         opts.setdefault('no_defaults', True)
         ret = value = self._serializer._serialize(self, value, only=only, **opts)
         if items:
-            ret = self.null(value, only=only, **opts)
+            ret = self._null(self, value, only=only, **opts)
             for k, t in self._items_types(self, ret):
                 if self._is_included(k, value, only=only, **opts):
                     v = value[k]
-- 
2.43.0


From 8daf38b3aa9ee040ecd76d530afaff5ab4bad157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:25 +0000
Subject: [PATCH 094/103] fix: empty objects converted by a type made on the
 fly stay empty

---
 ngoschema/types/object.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index e9da0d3..6819b6c 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -150,7 +150,8 @@ class Object(Collection, ObjectSerializer):
         self._items_type_cache = {}
 
     def __call__(self, value=None, **opts):
-        value = value or opts  # to allow initialization by keywords
+        if value is None:
+            value = {k: v for k, v in opts.items() if k != 'context'}  # to allow initialization by keywords
         opts['context'] = opts['context'] if 'context' in opts else self._create_context(self, **opts)
         return Type.__call__(self, value, **opts)
 
-- 
2.43.0


From d16ca0b1525389de2ec572f628aab012e5c4f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:38 +0000
Subject: [PATCH 095/103] fix: data naming its class is left as it is when it
 is loaded

---
 ngoschema/protocols/object_protocol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index eccfbe8..0832f36 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -160,7 +160,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         from ..managers import type_builder
         data = args[0] if args else kwargs
         if isinstance(data, Mapping) and data.get('$schema'):
-            s_id = Id.convert(scope(data.pop('$schema'), cls._id), **kwargs)
+            # data is left as it is, to be loaded again
+            s_id = Id.convert(scope(data['$schema'], cls._id), **kwargs)
             if s_id != cls._id:
                 cls = type_builder.load(s_id)
                 return cls(*args, **kwargs)
@@ -184,6 +185,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         from ..managers.type_builder import type_builder
         #value = self._collType(value)
         if value.get('$schema'):
+            value = self._collType(value)
             s_id = Id.convert(scope(value.pop('$schema'), self._id), **opts)
             if s_id != self._id:
                 self = type_builder.load(s_id)
-- 
2.43.0


From f2cda09d3559d965e97783e67f6a811fa94c1eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:53 +0000
Subject: [PATCH 096/103] fix: an object of the class named by its data is
 initialized once

---
 ngoschema/protocols/object_protocol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 0832f36..0d8c6d1 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -163,8 +163,9 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             # data is left as it is, to be loaded again
             s_id = Id.convert(scope(data['$schema'], cls._id), **kwargs)
             if s_id != cls._id:
-                cls = type_builder.load(s_id)
-                return cls(*args, **kwargs)
+                t = type_builder.load(s_id)
+                # an object of a subclass is then initialized by python
+                return t.__new__(t, *args, **kwargs) if issubclass(t, cls) else t(*args, **kwargs)
         return super(ObjectProtocol, cls).__new__(cls)
 
     @staticmethod
-- 
2.43.0


From e3510fae9a77b6d192e0131d61d9fe9f001225af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:46 +0000
Subject: [PATCH 097/103] fix: an object of another class than the declared one
 is refused

---
 ngoschema/protocols/collection_protocol.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index b7bdb57..ffcd1b1 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -7,7 +7,7 @@ import logging
 from abc import abstractmethod
 from operator import neg
 
-from ..exceptions import InvalidValue, InvalidOperation
+from ..exceptions import InvalidValue, InvalidOperation, ConversionError
 from ..decorators import assert_arg
 from ..managers.type_builder import DefaultValidator
 from ..managers.namespace_manager import default_ns_manager, clean_js_name
@@ -145,7 +145,11 @@ class CollectionProtocol(Collection):
                 if isinstance(t, type) and isinstance(v, t):
                     self._items_adopt(v)
                     return v
-                return t(v, **opts)
+                value = t(v, **opts)
+                # data can name another class, any of them when the declared one has no property
+                if isinstance(t, type) and getattr(t, '_properties', None) and not isinstance(value, t):
+                    raise ConversionError('%s is not an object of %s' % (value._id, t._id))
+                return value
         except Exception as er:
             self._logger.error(er, exc_info=True)
             raise er
-- 
2.43.0


From 5464aaf15d44a3d5fb670a5bf7ed2cf5a9d5c88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:05 +0000
Subject: [PATCH 098/103] fix: objects of derived classes are checked,
 validated and converted by their own class

---
 ngoschema/protocols/object_protocol.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 0d8c6d1..55e75de 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -168,10 +168,16 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 return t.__new__(t, *args, **kwargs) if issubclass(t, cls) else t(*args, **kwargs)
         return super(ObjectProtocol, cls).__new__(cls)
 
+    @staticmethod
+    def _own_class(self, value):
+        # an object of a subclass has items of its own
+        return value.__class__ if isinstance(self, type) and isinstance(value, self) else self
+
     @staticmethod
     def _check(self, value, **opts):
         if not isinstance(value, Mapping):
             raise TypeError('%s if not of type mapping.' % value)
+        self = self._own_class(self, value)
         value = self._collType(value)
         keys = set(value)
         for k1, k2 in ChainMap(self._propertiesTranslation, self._aliases, self._aliasesNegated).items():
@@ -190,7 +196,11 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             s_id = Id.convert(scope(value.pop('$schema'), self._id), **opts)
             if s_id != self._id:
                 self = type_builder.load(s_id)
-        return CollectionProtocol._convert(self, value, **opts)
+        return CollectionProtocol._convert(self._own_class(self, value), value, **opts)
+
+    @staticmethod
+    def _validate(self, value, **opts):
+        return CollectionProtocol._validate(self._own_class(self, value), value, **opts)
 
     @staticmethod
     def _call_order(self, value, items=True, **opts):
-- 
2.43.0


From 39d0b69dda3a8c6f9f5855e2f6dde2411920d370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:52 +0000
Subject: [PATCH 099/103] fix: deleter is called however the property is
 deleted

---
 ngoschema/protocols/object_protocol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 55e75de..5a99425 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -463,6 +463,9 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 delattr(self, trans)
                 break
         else:
+            desc = self._propertiesDescriptor.get(key)
+            if desc:
+                return desc.__delete__(self)
             if key in self._required:
                 raise AttributeError('%s is a required argument.' % key)
             del self._data[key]
-- 
2.43.0


From 94ab5f26e90a0e97c0ac289bcf0a77c21c3a8f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:07 +0000
Subject: [PATCH 100/103] fix: a property is removed by any of its names and
 paths

---
 ngoschema/protocols/object_protocol.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 5a99425..195ba3e 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -457,7 +457,28 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         CollectionProtocol.__setitem__(self, key, v)
         self._dataAdditional[key] = self._dataValidated[key]
 
+    def __delattr__(self, name):
+        if name.startswith('_') or hasattr(self.__class__, name):
+            return super(ObjectProtocol, self).__delattr__(name)
+        try:
+            del self[name]
+        except KeyError:
+            raise AttributeError("'{0}' has not been set to {1}".format(
+                                name, self.__class__.__name__))
+
     def __delitem__(self, key):
+        if '.' in key or (key.endswith(']') and key not in self._data):
+            parts = split_cname(key)  # case: canonical name such as a[0][1].b[0].c
+            cur = self
+            try:
+                for p in parts[:-1]:
+                    cur = cur[p] if not p or isinstance(p, int) or not hasattr(cur, p) else getattr(cur, p)
+                del cur[parts[-1]]
+                return
+            except (KeyError, IndexError, TypeError):
+                raise KeyError(key)
+        key = self._aliasesNegated.get(key, key)
+        key = self._aliases.get(key, key)
         for trans, raw in self._propertiesTranslation.items():
             if key in (trans, raw):
                 delattr(self, trans)
-- 
2.43.0


From c6be4c26304883dbdac4f4bb8b1d46eae37f20f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:15 +0000
Subject: [PATCH 101/103] fix: expanding a definition leaves the documents of
 its bases as they are

---
 ngoschema/managers/type_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 6bc0e7c..53aca8f 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -161,7 +161,8 @@ class TypeBuilder(GenericClassRegistry):
             apply_through_collection(schema, _scope_refs)
 
         schema = copy.deepcopy(schema or resolve_uri(id))
-        mro = self.schema_mro(id, schema)
+        # documents are left as they are
+        mro = copy.deepcopy(self.schema_mro(id, schema))
         scope_refs(id, schema)
         for i, s in mro.items():
             scope_refs(i, s)
-- 
2.43.0


From 17d12a552ffbde7179628e64d8c098d6d8d4ad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:51 +0000
Subject: [PATCH 102/103] fix: foreign keys are serialized as the keys they
 hold

---
 ngoschema/types/foreign_key.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index 938bb12..a375ab4 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -139,9 +139,12 @@ class ForeignKey(Ref):
 
     @staticmethod
     def _serialize(self, value, **opts):
-        fkt = self._foreignKeysType
-        return fkt[0]._convert(fkt[0], value, **opts) if len(fkt)==1 else tuple(t._convert(t, v, **opts)\
-                                                                                  for t, v in zip(fkt, value))
+        if value is None:
+            return None
+        # the keys are serialized as they are in their entity
+        keys = [t._serialize(t, t._convert(t, v, **opts), **opts)
+                for t, v in zip(self._foreignKeysType, value if len(self._foreignKeysType) > 1 else (value, ))]
+        return keys[0] if len(keys) == 1 else tuple(keys)
         #return tuple(t._convert(t, v, **opts) for t, v in zip(self._foreignKeysType, value)) if value is not None else None
 
     @staticmethod
-- 
2.43.0


From f7a799b70e0cc43973cd96b84afdb39919eefddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:41 +0000
Subject: [PATCH 103/103] fix: values derived from nested collections follow
 changes at any depth

---
 ngoschema/protocols/collection_protocol.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index ffcd1b1..5497b91 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -101,12 +101,19 @@ class CollectionProtocol(Collection):
     def _items_inputs_evaluate(self, item):
         ret = {}
         t = self._items_type(self, item)
-        def snapshot(v):
-            # collections are changed in place
+        def snapshot(v, holders=()):
+            # collections are changed in place, at any depth
+            if any(v is h for h in holders):
+                return v
+            holders += (v, )
             if isinstance(v, CollectionProtocol):
                 if v.is_object():
-                    return dict(v._data)
-                return [dict(i._data) if isinstance(i, CollectionProtocol) and i.is_object() else i for i in v]
+                    return {k: snapshot(i, holders) for k, i in v._data.items()}
+                return [snapshot(i, holders) for i in v]
+            if type(v) is list:
+                return [snapshot(i, holders) for i in v]
+            if isinstance(v, dict):
+                return {k: snapshot(i, holders) for k, i in v.items()}
             return v
 
         # treat dependencies
-- 
2.43.0

