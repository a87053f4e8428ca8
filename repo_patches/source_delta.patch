From e3f4e254bba884e2f356c992daf6e23402e56c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:44 +0000
Subject: [PATCH 01/62] fix: adding a list or dict to a tracked list or dict no
 longer recurses forever

---
 jsonclasses/jsonclassify.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index e226dc8..a128967 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -803,11 +803,11 @@ def __odict_will_change__(self: JObject, odict: OwnedDict) -> None:
 
 def __odict_add__(self, odict: OwnedDict, key: str, val: Any) -> None:
     if isinstance(val, dict):
-        odict[key] = to_owned_dict(self, val,
-                                   concat_keypath(odict.keypath, key))
+        dict.__setitem__(odict, key, to_owned_dict(
+            self, val, concat_keypath(odict.keypath, key)))
     if isinstance(val, list):
-        odict[key] = to_owned_list(self, val,
-                                   concat_keypath(odict.keypath, key))
+        dict.__setitem__(odict, key, to_owned_list(
+            self, val, concat_keypath(odict.keypath, key)))
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
@@ -866,11 +866,11 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
                     raise ValueError('a referenced object must have a valid primary key')
                 rlist.insert(idx, val._id)
     if isinstance(val, dict):
-        olist[idx] = to_owned_dict(self, val,
-                                   concat_keypath(olist.keypath, idx))
+        list.__setitem__(olist, idx, to_owned_dict(
+            self, val, concat_keypath(olist.keypath, idx)))
     if isinstance(val, list):
-        olist[idx] = to_owned_list(self, val,
-                                   concat_keypath(olist.keypath, idx))
+        list.__setitem__(olist, idx, to_owned_list(
+            self, val, concat_keypath(olist.keypath, idx)))
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
-- 
2.43.0


From 5b08c16d7559656eafee6605074c134fcbbfc18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:07 +0000
Subject: [PATCH 02/62] fix: tracked dict setdefault reports a one argument
 call and returns the stored value

---
 jsonclasses/odict.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/odict.py b/jsonclasses/odict.py
index aa941bc..0c81368 100644
--- a/jsonclasses/odict.py
+++ b/jsonclasses/odict.py
@@ -77,7 +77,7 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
     def setdefault(self, *args) -> _VT:
         will_set = False
         len_args = len(args)
-        if len_args == 2:
+        if 1 <= len_args <= 2:
             try:
                 self[args[0]]
             except KeyError:
@@ -86,8 +86,8 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
             self.owner.__odict_will_change__(self)
         retval = super().setdefault(*args)
         if will_set:
-            self.owner.__odict_add__(self, args[0], args[1])
-        return retval
+            self.owner.__odict_add__(self, args[0], retval)
+        return self[args[0]]
 
     def update(self, *args, **kwargs: _VT) -> None:
         len_args = len(args)
-- 
2.43.0


From 77fe3b02af2d15f46d51243c229a4463b4c3ffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:07 +0000
Subject: [PATCH 03/62] fix: tracked dict update and |= keep the pairs of a
 one-shot iterator

---
 jsonclasses/odict.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/odict.py b/jsonclasses/odict.py
index 0c81368..8b9889c 100644
--- a/jsonclasses/odict.py
+++ b/jsonclasses/odict.py
@@ -100,10 +100,10 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
         elif isinstance(args[0], Iterable):
             new_dict = dict(args[0], **kwargs)
         else:
-            new_dict = {}
+            return super().update(*args, **kwargs)
         items_to_del = [i[1] for i in self.items() if i[0] in new_dict.keys()]
         self.owner.__odict_will_change__(self)
-        super().update(*args, **kwargs)
+        super().update(new_dict)
         for v in items_to_del:
             self.owner.__odict_del__(self, v)
         for k, v in new_dict.items():
@@ -136,7 +136,7 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
         new_dict = dict(rhs)
         items_to_del = [i[1] for i in self.items() if i[0] in new_dict.keys()]
         self.owner.__odict_will_change__(self)
-        retval = super().__ior__(rhs)
+        retval = super().__ior__(new_dict)
         for v in items_to_del:
             self.owner.__odict_del__(self, v)
         for k, v in new_dict.items():
-- 
2.43.0


From 0ab755766ec6e1c2ded8c0433c58e3ce6b0add34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:07 +0000
Subject: [PATCH 04/62] fix: tracked list extend, += and slice assignment
 accept any iterable

---
 jsonclasses/olist.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index 456e1b3..da384d0 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -52,6 +52,7 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         self.owner.__olist_add__(self, len(self) - 1, value)
 
     def extend(self, values: Iterable[_T]) -> None:
+        values = list(values)
         curlen = len(self)
         if len(values) > 0:
             self.owner.__olist_will_change__(self)
@@ -99,6 +100,7 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         return super().__add__(x)
 
     def __iadd__(self, x: Iterable[_T]) -> OwnedList[_T]:
+        x = list(x)
         if len(x) > 0:
             self.owner.__olist_will_change__(self)
         curlen = len(self)
@@ -153,11 +155,12 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
             if start < 0:
                 start = len_self + start
             start = min(max(0, start), len_self)
+            items = list(args[1])
             self.owner.__olist_will_change__(self)
-            super().__setitem__(*args)
+            super().__setitem__(slc, items)
             for item in remove_list:
                 self.owner.__olist_del__(self, item)
-            for item in args[1]:
+            for item in items:
                 self.owner.__olist_add__(self, start, item)
                 start += step
         else:
-- 
2.43.0


From 5eee57e3d04a84467f1da4b21b0bf55fdc1e8b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:21 +0000
Subject: [PATCH 05/62] fix: tracked list insert and slice assignment report
 the real index for negative positions

---
 jsonclasses/olist.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index da384d0..72113a0 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -65,7 +65,7 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         curlen = len(self)
         self.owner.__olist_will_change__(self)
         super().insert(index, value)
-        idx = min(curlen, index)
+        idx = min(curlen, index if index >= 0 else max(0, curlen + index))
         self.owner.__olist_add__(self, idx, value)
 
     def remove(self, value: _T) -> None:
@@ -150,11 +150,7 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         elif isinstance(args[0], slice):
             slc: slice = args[0]
             remove_list = self[slc]
-            start = slc.start or 0
-            step = slc.step or 1
-            if start < 0:
-                start = len_self + start
-            start = min(max(0, start), len_self)
+            start, _, step = slc.indices(len_self)
             items = list(args[1])
             self.owner.__olist_will_change__(self)
             super().__setitem__(slc, items)
-- 
2.43.0


From 4525722b32dcb82bc7a2ca7830d36278edf55601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:39 +0000
Subject: [PATCH 06/62] fix: hasprefix on a list compares only the leading
 items

---
 jsonclasses/modifiers/hasprefix_modifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/hasprefix_modifier.py b/jsonclasses/modifiers/hasprefix_modifier.py
index bc2ed94..22ff304 100644
--- a/jsonclasses/modifiers/hasprefix_modifier.py
+++ b/jsonclasses/modifiers/hasprefix_modifier.py
@@ -15,7 +15,8 @@ class HasPrefixModifier(Modifier):
 
     def validate(self, ctx: Ctx) -> None:
         if isinstance(ctx.val, list):
-            if not ctx.val[:len(ctx.val)] == self.resolve_param(self.prefix, ctx):
+            prefix = self.resolve_param(self.prefix, ctx)
+            if not ctx.val[:len(prefix)] == prefix:
                 ctx.raise_vexc('prefix is not found')
         elif type(ctx.val) is str:
             if not ctx.val.startswith(self.resolve_param(self.prefix, ctx)):
-- 
2.43.0


From 0926ab87ecf5fbe149aae2abf985e5c9f4fba26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:40 +0000
Subject: [PATCH 07/62] fix: an empty list is a suffix of every list in
 hassuffix and issuffixof

---
 jsonclasses/modifiers/hassuffix_modifier.py  | 3 ++-
 jsonclasses/modifiers/issuffixof_modifier.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/hassuffix_modifier.py b/jsonclasses/modifiers/hassuffix_modifier.py
index db23f28..d66eff7 100644
--- a/jsonclasses/modifiers/hassuffix_modifier.py
+++ b/jsonclasses/modifiers/hassuffix_modifier.py
@@ -15,7 +15,8 @@ class HasSuffixModifier(Modifier):
 
     def validate(self, ctx: Ctx) -> None:
         if isinstance(ctx.val, list):
-            if not ctx.val[-len(self.resolve_param(self.suffix, ctx)):] == self.resolve_param(self.suffix, ctx):
+            suffix = self.resolve_param(self.suffix, ctx)
+            if suffix and not ctx.val[-len(suffix):] == suffix:
                 ctx.raise_vexc('suffix is not found')
         elif type(ctx.val) is str:
             if not ctx.val.endswith(self.resolve_param(self.suffix, ctx)):
diff --git a/jsonclasses/modifiers/issuffixof_modifier.py b/jsonclasses/modifiers/issuffixof_modifier.py
index d496d41..a549eed 100644
--- a/jsonclasses/modifiers/issuffixof_modifier.py
+++ b/jsonclasses/modifiers/issuffixof_modifier.py
@@ -15,7 +15,7 @@ class IsSuffixOfModifier(Modifier):
 
     def validate(self, ctx: Ctx) -> None:
         if isinstance(ctx.val, list):
-            if not self.resolve_param(self.suffix, ctx)[-len(ctx.val):] == ctx.val:
+            if ctx.val and not self.resolve_param(self.suffix, ctx)[-len(ctx.val):] == ctx.val:
                 ctx.raise_vexc('suffix is not found')
         elif type(ctx.val) is str:
             if not self.resolve_param(self.suffix, ctx).endswith(ctx.val):
-- 
2.43.0


From 248dc6954a6b8168bb57bb89e20c8ed860366eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:40 +0000
Subject: [PATCH 08/62] fix: oneisvalid calls the given callables

---
 jsonclasses/modifiers/oneisvalid_modifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/oneisvalid_modifier.py b/jsonclasses/modifiers/oneisvalid_modifier.py
index fc55979..8fbf1cf 100644
--- a/jsonclasses/modifiers/oneisvalid_modifier.py
+++ b/jsonclasses/modifiers/oneisvalid_modifier.py
@@ -34,9 +34,9 @@ class OneIsValidModifier(Modifier):
             else:
                 params_len = len(signature(item).parameters)
                 if params_len == 1:
-                    result = callable(ctx.val)
+                    result = item(ctx.val)
                 elif params_len == 2:
-                    result = callable(ctx.val, ctx)
+                    result = item(ctx.val, ctx)
                 if result is None:
                     return
                 if result is True:
-- 
2.43.0


From 3fdf1dbb71c2aea912f2982950747af31648620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:20 +0000
Subject: [PATCH 09/62] fix: hexcolor rejects text after the six hex digits

---
 jsonclasses/modifiers/hexcolor_modifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/hexcolor_modifier.py b/jsonclasses/modifiers/hexcolor_modifier.py
index 8751d34..fe95ec4 100644
--- a/jsonclasses/modifiers/hexcolor_modifier.py
+++ b/jsonclasses/modifiers/hexcolor_modifier.py
@@ -1,7 +1,7 @@
 """module for hexcolor modifier."""
 from __future__ import annotations
 from typing import Any, cast, TYPE_CHECKING
-from re import compile, match
+from re import compile, fullmatch
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -20,5 +20,5 @@ class HexColorModifier(Modifier):
         return ctx.val
 
     def validate(self, ctx: Ctx) -> None:
-        if isinstance(ctx.val, str) and match(hex_color_regex, ctx.val) is None:
+        if isinstance(ctx.val, str) and fullmatch(hex_color_regex, ctx.val) is None:
             ctx.raise_vexc('value is not hex color string')
\ No newline at end of file
-- 
2.43.0


From 580671cda56f35c113c1a1e4e4eef8d5a5286cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:20 +0000
Subject: [PATCH 10/62] fix: email rejects text after the address

---
 jsonclasses/modifiers/email_modifier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/modifiers/email_modifier.py b/jsonclasses/modifiers/email_modifier.py
index 7def333..a11ef30 100644
--- a/jsonclasses/modifiers/email_modifier.py
+++ b/jsonclasses/modifiers/email_modifier.py
@@ -1,17 +1,17 @@
 """module for email modifier."""
 from __future__ import annotations
 from typing import TYPE_CHECKING
-from re import compile, match
+from re import compile, fullmatch
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
 
 
-email_regex = compile(r'\b[A-Za-z0-9._%+-]+@[A-Za-z0-9.-]+\.[A-Z|a-z]{2,}\b')
+email_regex = compile(r'\b[A-Za-z0-9._%+-]+@[A-Za-z0-9.-]+\.[A-Za-z]{2,}(?:\.[A-Za-z0-9-]+)*')
 
 class EmailModifier(Modifier):
     """Email modifier raises if value is not valid email."""
 
     def validate(self, ctx: Ctx) -> None:
-        if isinstance(ctx.val, str) and match(email_regex, ctx.val) is None:
+        if isinstance(ctx.val, str) and fullmatch(email_regex, ctx.val) is None:
             ctx.raise_vexc('value is not email string')
-- 
2.43.0


From 0202e618ee8080527df6cf71aee8667db9e7cfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:20 +0000
Subject: [PATCH 11/62] fix: url rejects a trailing newline

---
 jsonclasses/modifiers/url_modifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/url_modifier.py b/jsonclasses/modifiers/url_modifier.py
index 8326996..61aa071 100644
--- a/jsonclasses/modifiers/url_modifier.py
+++ b/jsonclasses/modifiers/url_modifier.py
@@ -1,7 +1,7 @@
 """module for match modifier."""
 from __future__ import annotations
 from typing import TYPE_CHECKING
-from re import compile, match, IGNORECASE
+from re import compile, fullmatch, IGNORECASE
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -20,5 +20,5 @@ class UrlModifier(Modifier):
     """URL modifier raises if value is not valid url."""
 
     def validate(self, ctx: Ctx) -> None:
-        if isinstance(ctx.val, str) and match(url_regex, ctx.val) is None:
+        if isinstance(ctx.val, str) and fullmatch(url_regex, ctx.val) is None:
             ctx.raise_vexc('value is not valid url string')
-- 
2.43.0


From 498f7a0a0653285009401a3fdc7ac42f7ed88936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:43 +0000
Subject: [PATCH 12/62] fix: prepend accepts a number on a string as append
 does

---
 jsonclasses/modifiers/prepend_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/prepend_modifier.py b/jsonclasses/modifiers/prepend_modifier.py
index a9496fa..60a387b 100644
--- a/jsonclasses/modifiers/prepend_modifier.py
+++ b/jsonclasses/modifiers/prepend_modifier.py
@@ -17,6 +17,6 @@ class PrependModifier(Modifier):
         if isinstance(ctx.val, list):
             return [self.resolve_param(self.item, ctx)] + ctx.val
         elif type(ctx.val) is str:
-            return self.resolve_param(self.item, ctx) + ctx.val
+            return str(self.resolve_param(self.item, ctx)) + ctx.val
         else:
             return ctx.val
-- 
2.43.0


From 7a137c8966cd907446338f999649cf74c9c3206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:11 +0000
Subject: [PATCH 13/62] fix: validating a value that is no object in an object
 field reports a validation error

---
 jsonclasses/modifiers/instanceof_modifier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index b5526ba..ee5aa56 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -29,16 +29,16 @@ class InstanceOfModifier(Modifier):
         # only validate if there is a value
         if ctx.val is None:
             return
+        cls = cast(type, ctx.fdef.inst_cls)
+        if not isinstance(ctx.val, cls):
+            ctx.raise_vexc(f'value is not instance of {cls.__name__}')
         # only validate an instance once in the circular referenced map
         if ctx.mgraph.has(ctx.val):
             return
         ctx.mgraph.put(ctx.val)
-        cls = cast(type, ctx.fdef.inst_cls)
         all_fields = ctx.ctxcfg.all_fields
         if all_fields is None:
             all_fields = cls.cdef.jconf.validate_all_fields
-        if not isinstance(ctx.val, cls):
-            ctx.raise_vexc(f'value is not instance of {cls.__name__}')
         only_validate_modified = not ctx.val.is_new
         modified_fields = []
         if only_validate_modified:
-- 
2.43.0


From d1da56c42a4ea487fba15f7f1a8d1292d8f0b360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:58 +0000
Subject: [PATCH 14/62] fix: assigning values that are no objects of the linked
 class to a link field is left to validation

---
 jsonclasses/jsonclassify.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index a128967..54001ed 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -751,13 +751,13 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                 if isjsonobject(value):
                     self.__original_setattr__(rname, value._id)
             elif field.fdef.ftype == FType.LIST:
-                if value is None:
+                if not isinstance(value, list):
                     olist = to_owned_list(self, [], rname)
                     self.__original_setattr__(rname, olist)
                 else:
                     keys = []
                     for item in value:
-                        if item is not None:
+                        if isjsonobject(item):
                             keys.append(item._id)
                     olist = to_owned_list(self, keys, rname)
                     self.__original_setattr__(rname, olist)
@@ -861,7 +861,7 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
             rkes = cdef.jconf.ref_name_strategy
             rk = rkes(field)
             rlist = getattr(self, rk)
-            if len(rlist) != len(olist):
+            if isjsonobject(val) and len(rlist) != len(olist):
                 if val._id is None:
                     raise ValueError('a referenced object must have a valid primary key')
                 rlist.insert(idx, val._id)
@@ -905,7 +905,7 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
             rk = rkes(field)
             rlist = getattr(self, rk)
             if len(rlist) != len(olist):
-                if val is not None and val._id in rlist:
+                if isjsonobject(val) and val._id in rlist:
                     rlist.remove(val._id)
     # record modified
     if not self.is_new:
@@ -931,6 +931,8 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
         if not isinstance(value, list):
             return
         items = list(value)
+    # values of other types are left for validation to report
+    items = [item for item in items if isinstance(item, field.foreign_class)]
     for item in items:
         self._add_unlinked_object(field.name, item)
         other_field = field.foreign_field
@@ -963,6 +965,8 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
         if not isinstance(value, list):
             return
         items = value
+    # values of other types are left for validation to report
+    items = [item for item in items if isinstance(item, field.foreign_class)]
     for item in items:
         self._del_unlinked_object(field.name, item)
         other_field = field.foreign_field
-- 
2.43.0


From c6785bc738d1e18a832eb6b2f814de721b191711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:28 +0000
Subject: [PATCH 15/62] fix: write rules of a linked field also apply to its
 reference key

---
 jsonclasses/modifiers/instanceof_modifier.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index ee5aa56..d23d63d 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -90,6 +90,15 @@ class InstanceOfModifier(Modifier):
             field_value = ctx.val.get(field.name)
         return field_value
 
+    def _can_write_key(self, field: JField, dest: JObject) -> bool:
+        if field.fdef.write_rule == WriteRule.NO_WRITE:
+            return False
+        if field.fdef.write_rule == WriteRule.WRITE_ONCE:
+            if getattr(dest, field.name) is not None:
+                return False
+            return not getattr(dest, field.ref_name)
+        return True
+
     # pylint: disable=arguments-differ, too-many-locals, too-many-branches
     def transform(self, ctx: Ctx) -> Any:
         from ..types import Types
@@ -143,7 +152,7 @@ class InstanceOfModifier(Modifier):
                     if fdef.ftype == FType.LIST:
                         if fdef.collection_nullability == Nullability.NONNULL:
                             nonnull_ref_lists.append(field.name)
-                    if fdef.fstore == FStore.LOCAL_KEY:
+                    if fdef.fstore == FStore.LOCAL_KEY and self._can_write_key(field, dest):
                         tsfm = dest.__class__.cdef.jconf.ref_name_strategy
                         refname = tsfm(field)
                         if ctx.val.get(refname) is not None:
@@ -164,6 +173,9 @@ class InstanceOfModifier(Modifier):
                 cfv = getattr(dest, field.name)
                 if (cfv is not None) and (not isinstance(cfv, Types)):
                     allow_write_field = False
+                if field.fdef.fstore == FStore.LOCAL_KEY:
+                    if not self._can_write_key(field, dest):
+                        allow_write_field = False
             if field.fdef.write_rule == WriteRule.WRITE_NONNULL:
                 if field_value is None:
                     allow_write_field = False
-- 
2.43.0


From b92891ed0a704be602c16949fe6ed1bd19d5f56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:28 +0000
Subject: [PATCH 16/62] fix: a repeated object in an input does not reset its
 protected fields to their defaults

---
 jsonclasses/modifiers/instanceof_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index d23d63d..af24055 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -180,7 +180,7 @@ class InstanceOfModifier(Modifier):
                 if field_value is None:
                     allow_write_field = False
             if not allow_write_field:
-                if ctx.ctxcfg.fill_dest_blanks:
+                if ctx.ctxcfg.fill_dest_blanks and not soft_apply_mode:
                     if field.fdef.fstore != FStore.CALCULATED:
                         self._fill_default_value(field, dest, ctx)
                 continue
-- 
2.43.0


From e4b2313d67649f0aa96a541614d2f2567bfc52c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:46 +0000
Subject: [PATCH 17/62] fix: key path input does not write into readonly and
 written writeonce fields

---
 jsonclasses/jsonclassify.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 54001ed..02d8f6b 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -4,7 +4,7 @@ from typing import Any, Callable, Optional, Union, cast
 from inspect import signature, getmro
 from .jobject import JObject
 from .ctx import Ctx, CtxCfg
-from .fdef import FDef, FStore, FType
+from .fdef import FDef, FStore, FType, WriteRule
 from .types import Types
 from .modifiers.instanceof_modifier import InstanceOfModifier
 from .jfield import JField
@@ -82,6 +82,10 @@ def _keypath_set(self: JObject, kwargs: dict[str, Any]) -> None:
         items = keypath_split(key)
         dest = getattr(self, items[0])
         fdef = self.__class__.cdef.field_named(items[0]).types.fdef
+        if fdef.write_rule == WriteRule.NO_WRITE:
+            continue
+        if fdef.write_rule == WriteRule.WRITE_ONCE and dest is not None:
+            continue
         used_items = [items[0]]
         self._set_to_container(dest, items[1:], value, fdef, used_items)
 
-- 
2.43.0


From 90b73a76df4a529342e229bc943d8d59dee31932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:34 +0000
Subject: [PATCH 18/62] fix: the reference key of a writeonly linked field is
 not part of the output

---
 jsonclasses/modifiers/instanceof_modifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index af24055..fc573b2 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -219,7 +219,8 @@ class InstanceOfModifier(Modifier):
                         if len(ctx.keypathr) > 1:
                             key = ctx.keypathr[-2]
                             isrf = field.foreign_field.name == key
-            if fd.fstore == FStore.LOCAL_KEY:
+            if fd.fstore == FStore.LOCAL_KEY and \
+                    (fd.read_rule != ReadRule.NO_READ or ignore_writeonly):
                 if val.is_partial:
                     if field.name not in val._partial_picks:
                         continue
-- 
2.43.0


From da085fc3ca88fab7be2416eebd3e92013551f294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:28 +0000
Subject: [PATCH 19/62] fix: fields of nested objects are handled with their
 own object as owner and parent

---
 jsonclasses/ctx.py                           |  7 +++++++
 jsonclasses/modifiers/instanceof_modifier.py | 18 ++++++++----------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/jsonclasses/ctx.py b/jsonclasses/ctx.py
index f418242..6f7c7e6 100644
--- a/jsonclasses/ctx.py
+++ b/jsonclasses/ctx.py
@@ -163,6 +163,13 @@ class Ctx(NamedTuple):
                    operator=self.operator, mgraph=self.mgraph,
                    idchain=self.idchain, passin=self.passin)
 
+    def entered(self: Ctx, obj: JObject) -> Ctx:
+        """The context in which the fields of obj are handled."""
+        return self._replace(owner=obj, parent=obj, holder=obj,
+                             keypatho=[], fkeypatho=[],
+                             keypathp=[], fkeypathp=[],
+                             keypathh=[], fkeypathh=[])
+
     def nextv(self: Ctx, val: Any, key: str | int, fdef: FDef) -> Ctx:
         ekey = self.owner.__class__.cdef.jconf.output_key_strategy(key)
         return Ctx(root=self.root, owner=self.owner, parent=self.parent,
diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index fc573b2..c8f23ae 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -36,6 +36,7 @@ class InstanceOfModifier(Modifier):
         if ctx.mgraph.has(ctx.val):
             return
         ctx.mgraph.put(ctx.val)
+        ctx = ctx.entered(ctx.val)
         all_fields = ctx.ctxcfg.all_fields
         if all_fields is None:
             all_fields = cls.cdef.jconf.validate_all_fields
@@ -53,10 +54,7 @@ class InstanceOfModifier(Modifier):
                 if only_validate_modified and fname not in modified_fields:
                     continue
             try:
-                if field.fdef.ftype == FType.INSTANCE:
-                    fval_ctx = ctx.nexto(fval, fname, ffdef)
-                else:
-                    fval_ctx = ctx.nextvo(fval, fname, ffdef, ctx.original or val)
+                fval_ctx = ctx.nextv(fval, fname, ffdef)
                 field.types.modifier.validate(fval_ctx)
             except ValidationException as exception:
                 if all_fields:
@@ -77,7 +75,7 @@ class InstanceOfModifier(Modifier):
         if field.default is not None:
             setattr(dest, field.name, field.default)
         else:
-            dctx = ctx.default(ctx.original, field.name, field.fdef)
+            dctx = ctx.default(dest, field.name, field.fdef)
             tsfmd = field.types.modifier.transform(dctx)
             setattr(dest, field.name, tsfmd)
 
@@ -143,6 +141,7 @@ class InstanceOfModifier(Modifier):
         if strictness:
             self._strictness_check(ctx, dest)
         # fill values
+        ctx = ctx.entered(dest)
         dict_keys = list(ctx.val.keys())
         nonnull_ref_lists: list[str] = []
         for field in dest.__class__.cdef.fields:
@@ -184,7 +183,7 @@ class InstanceOfModifier(Modifier):
                     if field.fdef.fstore != FStore.CALCULATED:
                         self._fill_default_value(field, dest, ctx)
                 continue
-            fctx = ctx.nextvo(field_value, field.name, field.fdef, dest)
+            fctx = ctx.nextv(field_value, field.name, field.fdef)
             tsfmd = field.types.modifier.transform(fctx)
             if field.fdef.fstore != FStore.CALCULATED:
                 setattr(dest, field.name, tsfmd)
@@ -198,6 +197,7 @@ class InstanceOfModifier(Modifier):
         if ctx.val is None:
             return None
         val = cast(JObject, ctx.val)
+        ctx = ctx.entered(val)
         retval = {}
         clschain = ctx.idchain
         cls_name = val.__class__.cdef.name
@@ -240,10 +240,7 @@ class InstanceOfModifier(Modifier):
             if val.is_partial:
                 if field.name not in val._partial_picks:
                     continue
-            if field.fdef.ftype == FType.INSTANCE:
-                ictx = ctx.nextoc(fval, field.name, field.fdef, cls_name)
-            else:
-                ictx = ctx.nextvc(fval, field.name, field.fdef, cls_name)
+            ictx = ctx.nextvc(fval, field.name, field.fdef, cls_name)
             field_value = field.types.modifier.tojson(ictx)
             if output_null or (field_value is not None):
                 retval[jf_name] = field_value
@@ -258,6 +255,7 @@ class InstanceOfModifier(Modifier):
         if exist_item is not None:  # Don't do twice for an object
             return value
         ctx.mgraph.put(value)
+        ctx = ctx.entered(value)
         should_update = False
         if value.is_modified or value.is_new:
             should_update = True
-- 
2.43.0


From 74a990f841c626863c3ee3713ed44ef3362e6d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:28 +0000
Subject: [PATCH 20/62] fix: a required list of local keys without keys is
 reported instead of passing

---
 jsonclasses/modifiers/required_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/required_modifier.py b/jsonclasses/modifiers/required_modifier.py
index caf7467..6c51eec 100644
--- a/jsonclasses/modifiers/required_modifier.py
+++ b/jsonclasses/modifiers/required_modifier.py
@@ -36,7 +36,7 @@ class RequiredModifier(Modifier):
                         local_key_value = getattr(ctx.holder, local_key)
                     except AttributeError:
                         ctx.raise_vexc('value required')
-                    if local_key_value is None:
+                    if local_key_value is None or local_key_value == []:
                         ctx.raise_vexc('value required')
             return
         if ctx.val is None:
-- 
2.43.0


From 0b01f8a8ea0d22395e3c08f3838c785f6b216701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:28 +0000
Subject: [PATCH 21/62] fix: modified objects inside embedded fields of a
 persisted object are validated and saved

---
 jsonclasses/fdef.py                          | 5 ++---
 jsonclasses/modifiers/instanceof_modifier.py | 4 +++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/fdef.py b/jsonclasses/fdef.py
index a99c6a1..ee36116 100644
--- a/jsonclasses/fdef.py
+++ b/jsonclasses/fdef.py
@@ -556,9 +556,8 @@ class FDef:
         self._resolve_if_needed()
         if self.ftype == FType.INSTANCE:
             return True
-        if self.ftype == FType.LIST:
-            if self.item_types.fdef.ftype == FType.INSTANCE:
-                return True
+        if self.ftype == FType.LIST or self.ftype == FType.DICT:
+            return self.item_types.fdef.is_inst
         return False
 
     @property
diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index c8f23ae..112ab47 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -52,7 +52,9 @@ class InstanceOfModifier(Modifier):
             fval = getattr(ctx.val, fname)
             if field.fdef.fstore == FStore.EMBEDDED:
                 if only_validate_modified and fname not in modified_fields:
-                    continue
+                    # objects inside the field track their own modifications
+                    if fval is None or not ffdef.is_inst:
+                        continue
             try:
                 fval_ctx = ctx.nextv(fval, fname, ffdef)
                 field.types.modifier.validate(fval_ctx)
-- 
2.43.0


From 671a77b3c7d83526bedd46477878aadd6bc99705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:59 +0000
Subject: [PATCH 22/62] fix: the class setting validate_all_fields also applies
 to the rules of one field

---
 jsonclasses/modifiers/chained_modifier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/chained_modifier.py b/jsonclasses/modifiers/chained_modifier.py
index 21b469c..70be412 100644
--- a/jsonclasses/modifiers/chained_modifier.py
+++ b/jsonclasses/modifiers/chained_modifier.py
@@ -83,12 +83,15 @@ class ChainedModifier(Modifier):
 
     def validate(self, ctx: Ctx) -> None:
         ctor = VMsgCollector()
+        all_fields = ctx.ctxcfg.all_fields
+        if all_fields is None and isjsonobject(ctx.owner):
+            all_fields = ctx.cdefowner.jconf.validate_all_fields
         for modifier in self._nvs:
             try:
                 modifier.validate(ctx)
             except ValidationException as exception:
                 ctor.receive(exception.keypath_messages)
-                if not ctx.ctxcfg.all_fields:
+                if not all_fields:
                     break
         if ctor.has_msgs:
             ctx.raise_mvexc(ctor.messages)
-- 
2.43.0


From 32d10ff0be9608f3221684c389af1a97c13d971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:31 +0000
Subject: [PATCH 23/62] fix: removing from a tracked list reports the removed
 element, not an equal one

---
 jsonclasses/olist.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index 72113a0..c9f09c4 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -69,8 +69,10 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         self.owner.__olist_add__(self, idx, value)
 
     def remove(self, value: _T) -> None:
+        idx = self.index(value)
+        value = self[idx]
         self.owner.__olist_will_change__(self)
-        super().remove(value)
+        super().__delitem__(idx)
         self.owner.__olist_del__(self, value)
 
     def sort(self, **kwargs) -> None:  # TODO: fix argument type hint
-- 
2.43.0


From 4a4a26f49f03670ff959df756b4daf24b15e0fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:53 +0000
Subject: [PATCH 24/62] fix: marking visited objects does not confuse different
 objects with one primary key

---
 jsonclasses/mgraph.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/jsonclasses/mgraph.py b/jsonclasses/mgraph.py
index ecbd0c9..02681f8 100644
--- a/jsonclasses/mgraph.py
+++ b/jsonclasses/mgraph.py
@@ -12,11 +12,10 @@ class MarkClassTable:
         self._memory_id_table = {}
 
     def put(self, object: JObject) -> None:
+        memory_id = hex(id(object))
+        self._memory_id_table[memory_id] = object
         pk = object._id
-        if pk is None:
-            memory_id = hex(id(object))
-            self._memory_id_table[memory_id] = object
-        else:
+        if pk is not None:
             self.putp(pk, object)
 
     def putp(self, pk: Union[str, int], object: JObject) -> None:
@@ -26,20 +25,12 @@ class MarkClassTable:
         self._primary_key_table[str(pk)] = object
 
     def has(self, object: JObject) -> bool:
-        pk = object._id
-        if pk is not None:
-            if self._primary_key_table.get(str(pk)) is not None:
-                return True
         memory_id = hex(id(object))
         if self._memory_id_table.get(memory_id) is not None:
             return True
         return False
 
     def get(self, object: JObject) -> Optional[JObject]:
-        pk = object._id
-        if pk is not None:
-            if self._primary_key_table.get(str(pk)) is not None:
-                return self._primary_key_table.get(str(pk))
         memory_id = hex(id(object))
         if self._memory_id_table.get(memory_id) is not None:
             return self._memory_id_table.get(memory_id)
-- 
2.43.0


From 637b15398ac6c39784c1356cf4894261bae9ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:53 +0000
Subject: [PATCH 25/62] fix: assigning and linking compare objects by identity,
 not by value

---
 jsonclasses/jsonclassify.py | 21 ++++++++++++---------
 jsonclasses/outils.py       | 23 +++++++++++++++++++++++
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 02d8f6b..c40c134 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -13,7 +13,8 @@ from .ograph import OGraph
 from .odict import OwnedDict
 from .olist import OwnedList
 from .outils import (
-    to_owned_dict, to_owned_list, unowned_copy_dict, unowned_copy_list
+    to_owned_dict, to_owned_list, unowned_copy_dict, unowned_copy_list,
+    same_value, index_of
 )
 from .keypath import (
     concat_keypath, initial_keypath, single_key_args, compound_key_args,
@@ -527,7 +528,7 @@ def _add_unlinked_object(self: JObject,
     """Add an object into unlinked objects pool."""
     if not self._unlinked_objects.get(field_name):
         self._unlinked_objects[field_name] = []
-    if obj not in self._unlinked_objects[field_name]:
+    if index_of(self._unlinked_objects[field_name], obj) is None:
         self._unlinked_objects[field_name].append(obj)
 
 
@@ -537,8 +538,9 @@ def _del_unlinked_object(self: JObject,
     """Remove an object from unlinked objects pool."""
     if not self._unlinked_objects.get(field_name):
         self._unlinked_objects[field_name] = []
-    if obj in self._unlinked_objects[field_name]:
-        self._unlinked_objects[field_name].remove(obj)
+    idx = index_of(self._unlinked_objects[field_name], obj)
+    if idx is not None:
+        del self._unlinked_objects[field_name][idx]
 
 
 def _clear_unlinked_object(self: JObject) -> None:
@@ -727,7 +729,7 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                 ctx = Ctx.rootctxp(self, name, None, value)
                 field.fdef.setter.modifier.transform(ctx)
             return
-    if hasattr(self, name) and value == getattr(self, name):
+    if hasattr(self, name) and same_value(value, getattr(self, name)):
         return
     # track modified and previous value
     if not self.is_new:
@@ -954,8 +956,9 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
         elif other_field.fdef.ftype == FType.LIST:
             other_list = getattr(item, other_field.name)
             if isinstance(other_list, list):
-                if self in other_list:
-                    other_list.remove(self)
+                idx = index_of(other_list, self)
+                if idx is not None:
+                    del other_list[idx]
                     item._add_unlinked_object(other_field.name, self)
 
 
@@ -977,7 +980,7 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
         if other_field is None:
             return
         if other_field.fdef.ftype == FType.INSTANCE:
-            if getattr(item, other_field.name) != self:
+            if getattr(item, other_field.name) is not self:
                 setattr(item, other_field.name, self)
                 item._del_unlinked_object(other_field.name, self)
         elif other_field.fdef.ftype == FType.LIST:
@@ -985,7 +988,7 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
                 setattr(item, other_field.name, [self])
                 item._del_unlinked_object(other_field.name, self)
             else:
-                if self not in getattr(item, other_field.name):
+                if index_of(getattr(item, other_field.name), self) is None:
                     getattr(item, other_field.name).append(self)
                     item._del_unlinked_object(other_field.name, self)
         self.__link_graph__(item)
diff --git a/jsonclasses/outils.py b/jsonclasses/outils.py
index 72804a6..0e46a8f 100644
--- a/jsonclasses/outils.py
+++ b/jsonclasses/outils.py
@@ -5,6 +5,7 @@ from typing import TypeVar, Any
 from .odict import OwnedDict, DictOwner
 from .olist import OwnedList, ListOwner
 from .keypath import concat_keypath
+from .isjsonclass import isjsonobject
 
 KT = TypeVar('KT')
 VT = TypeVar('VT')
@@ -67,3 +68,25 @@ def unowned_copy_list(any_list: list[T]) -> list[T]:
         else:
             retval.append(v)
     return retval
+
+
+def same_value(a: Any, b: Any) -> bool:
+    """Whether assigning one value over the other changes nothing. Objects are
+    compared by identity: equal objects are still different objects.
+    """
+    if a is b:
+        return True
+    if isjsonobject(a) or isjsonobject(b):
+        return False
+    if isinstance(a, list) and isinstance(b, list):
+        return len(a) == len(b) and all(
+            same_value(x, y) for x, y in zip(a, b))
+    if isinstance(a, dict) and isinstance(b, dict):
+        return len(a) == len(b) and all(
+            k in b and same_value(v, b[k]) for k, v in a.items())
+    return a == b
+
+
+def index_of(items: list, obj: Any) -> int | None:
+    """The index of this very object in the list."""
+    return next((i for i, v in enumerate(items) if v is obj), None)
-- 
2.43.0


From 2114edfe76721b7a2ec092269d11288bb7872e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:58 +0000
Subject: [PATCH 26/62] fix: removing a link marks a persisted object on the
 other side as modified, and no new one

---
 jsonclasses/jsonclassify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index c40c134..d54a02c 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -951,7 +951,9 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
                 if of.fdef.fstore == FStore.LOCAL_KEY:
                     tsfm = item.__class__.cdef.jconf.ref_name_strategy
                     item.__original_setattr__(tsfm(other_field), None)
-                    item._modified_fields.add(other_field.name)
+                    if not item.is_new:
+                        setattr(item, '_is_modified', True)
+                        item._modified_fields.add(other_field.name)
                 item._add_unlinked_object(other_field.name, self)
         elif other_field.fdef.ftype == FType.LIST:
             other_list = getattr(item, other_field.name)
-- 
2.43.0


From cdf999bcecbe718d45b09066cd111c940adc0f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:18 +0000
Subject: [PATCH 27/62] fix: persisted_modified_fields works after a change
 inside a nested list or dict

---
 jsonclasses/jsonclassify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index d54a02c..a515144 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -305,7 +305,8 @@ def persisted_modified_fields(self: JObject) -> tuple[str]:
     retval: list[str] = []
     cdef = self.__class__.cdef
     for name in self._modified_fields:
-        if cdef.field_named(name).fdef.fstore != FStore.TEMP:
+        fdef = cdef.field_named(initial_keypath(name)).fdef
+        if fdef.fstore != FStore.TEMP:
             retval.append(name)
     return tuple(retval)
 
-- 
2.43.0


From 6f2edc6ab295916956c9067980e82c8962fad2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:18 +0000
Subject: [PATCH 28/62] fix: complete keeps the set of modified fields a set

---
 jsonclasses/jsonclassify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index a515144..8d9db1e 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -390,7 +390,7 @@ def complete(self: JObject) -> JObject:
         saved_is_modified = self._is_modified
         self._orm_complete()
         self._is_modified = saved_is_modified
-        self._modified_fields = saved_modified_fields
+        self._modified_fields = set(saved_modified_fields)
     return self
 
 
-- 
2.43.0


From 9586aaf9a7d0be8f6fc5f4fc15c9a73a193e9a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:18 +0000
Subject: [PATCH 29/62] fix: reset marks the object as unmodified in every case

---
 jsonclasses/jsonclassify.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 8d9db1e..442aeae 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -334,11 +334,11 @@ def reset(self: JObject) -> None:
         raise JSONClassResetNotEnabledError()
     if self.is_new:
         raise JSONClassResetError()
-    for k, v in self.previous_values.items():
+    for k, v in list(self.previous_values.items()):
         setattr(self, k, v)
-        self._modified_fields = set()
-        self._is_modified = False
-        self._previous_values = {}
+    self._modified_fields = set()
+    self._is_modified = False
+    self._previous_values = {}
 
 
 def save(self: JObject,
-- 
2.43.0


From ef6c237f6095b579658a51428a1a4f305d9859f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:22 +0000
Subject: [PATCH 30/62] fix: pick and omit no longer fail, and omit leaves the
 class definition alone

---
 jsonclasses/jsonclassify.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 442aeae..46be42d 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -176,7 +176,7 @@ def pick(self: JObject, picks: list[str]) -> None:
     Partial picks some items that from JSON Class to return, it will work when
     convert this JSON Class object to JSON dict.
     """
-    self.is_partial = True
+    self._is_partial = True
     self._partial_picks = picks
 
 
@@ -185,11 +185,11 @@ def omit(self: JObject, omits: list[str]) -> None:
     Partial omits some items that from JSON Class to return, it will work when
     convert this JSON Class object to JSON dict.
     """
-    self.is_partial = True
+    self._is_partial = True
     if hasattr(self, '_partial_picks'):
-        picks = self._partial_picks
+        picks = list(self._partial_picks)
     else:
-        picks = self.cdef._field_names
+        picks = list(self.cdef._field_names)
     for o in omits:
         picks.remove(o)
     self._partial_picks = picks
-- 
2.43.0


From 98eb95b8b2dfed2a76308ab7003e7c07d617a875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:44 +0000
Subject: [PATCH 31/62] fix: new objects record no previous values for changed
 lists and dicts

---
 jsonclasses/jsonclassify.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 46be42d..aff0bea 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -793,6 +793,8 @@ def __getattribute__(self: JObject, name: str, default: Any = None) -> Any:
 
 def __odict_will_change__(self: JObject, odict: OwnedDict) -> None:
     # record previous value
+    if self.is_new:
+        return
     name = initial_keypath(odict.keypath)
     field = self.__class__.cdef.field_named(name)
     if self.__class__.cdef.jconf.reset_all_fields or \
@@ -830,6 +832,8 @@ def __odict_del__(self, odict: OwnedDict, val: Any) -> None:
 
 def __olist_will_change__(self, olist: OwnedList) -> None:
     # record previous value
+    if self.is_new:
+        return
     name = initial_keypath(olist.keypath)
     try:
         field = self.__class__.cdef.field_named(name)
-- 
2.43.0


From 9aa694b0e22a779be6cd3998760b8db2cc43cec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:44 +0000
Subject: [PATCH 32/62] fix: previous values are copies for lists and dicts of
 any field, not the tracked containers

---
 jsonclasses/jsonclassify.py | 19 ++++---------------
 jsonclasses/outils.py       |  8 ++++++++
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index aff0bea..593b48b 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -13,8 +13,7 @@ from .ograph import OGraph
 from .odict import OwnedDict
 from .olist import OwnedList
 from .outils import (
-    to_owned_dict, to_owned_list, unowned_copy_dict, unowned_copy_list,
-    same_value, index_of
+    to_owned_dict, to_owned_list, unowned_copy, same_value, index_of
 )
 from .keypath import (
     concat_keypath, initial_keypath, single_key_args, compound_key_args,
@@ -739,7 +738,7 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
         if self.__class__.cdef.jconf.reset_all_fields or \
                 field.fdef.has_reset_modifier:
             if name not in self.previous_values:
-                self.previous_values[name] = getattr(self, name)
+                self.previous_values[name] = unowned_copy(getattr(self, name))
     # make list and dict assignments owned and monitored
     if isinstance(value, list):
         value = to_owned_list(self, value, name)
@@ -802,12 +801,7 @@ def __odict_will_change__(self: JObject, odict: OwnedDict) -> None:
         if field.fdef.has_linked:
             return
         if name not in self.previous_values:
-            if field.fdef.ftype == FType.DICT:
-                self.previous_values[name] = unowned_copy_dict(
-                    getattr(self, name))
-            if field.fdef.ftype == FType.LIST:
-                self.previous_values[name] = unowned_copy_list(
-                    getattr(self, name))
+            self.previous_values[name] = unowned_copy(getattr(self, name))
 
 
 def __odict_add__(self, odict: OwnedDict, key: str, val: Any) -> None:
@@ -846,12 +840,7 @@ def __olist_will_change__(self, olist: OwnedList) -> None:
         if field.fdef.has_linked:
             return
         if name not in self.previous_values:
-            if field.fdef.ftype == FType.DICT:
-                self.previous_values[name] = unowned_copy_dict(
-                    getattr(self, name))
-            if field.fdef.ftype == FType.LIST:
-                self.previous_values[name] = unowned_copy_list(
-                    getattr(self, name))
+            self.previous_values[name] = unowned_copy(getattr(self, name))
 
 
 def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
diff --git a/jsonclasses/outils.py b/jsonclasses/outils.py
index 0e46a8f..5890f27 100644
--- a/jsonclasses/outils.py
+++ b/jsonclasses/outils.py
@@ -70,6 +70,14 @@ def unowned_copy_list(any_list: list[T]) -> list[T]:
     return retval
 
 
+def unowned_copy(value: Any) -> Any:
+    if isinstance(value, dict):
+        return unowned_copy_dict(value)
+    if isinstance(value, list):
+        return unowned_copy_list(value)
+    return value
+
+
 def same_value(a: Any, b: Any) -> bool:
     """Whether assigning one value over the other changes nothing. Objects are
     compared by identity: equal objects are still different objects.
-- 
2.43.0


From 83f38891868900e8d29f4c7954ff7705ce7adbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:25 +0000
Subject: [PATCH 33/62] fix: an assigned list of reference keys stays tracked,
 and reset restores reference keys

---
 jsonclasses/jsonclassify.py | 58 ++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 593b48b..8fd71b8 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -674,6 +674,21 @@ def __is_private_attr__(name: str) -> bool:
     return name.startswith('_')
 
 
+def _record_previous_value(self: JObject, field: JField) -> None:
+    """Record the value of the field, and of its reference key, to reset to."""
+    if self.is_new:
+        return
+    if not (self.__class__.cdef.jconf.reset_all_fields or
+            field.fdef.has_reset_modifier):
+        return
+    names = [field.name]
+    if field.fdef.fstore == FStore.LOCAL_KEY:
+        names.append(self.__class__.cdef.jconf.ref_name_strategy(field))
+    for name in names:
+        if name not in self.previous_values:
+            self.previous_values[name] = unowned_copy(getattr(self, name))
+
+
 def __setattr__(self: JObject, name: str, value: Any) -> None:
     # use original setattr for private fields
     if __is_private_attr__(name):
@@ -685,33 +700,27 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
             return
         field_name = self._local_key_map[name]
         field = self.__class__.cdef.field_named(field_name)
+        _record_previous_value(self, field)
         if field.fdef.ftype == FType.INSTANCE:
-            if value is None:
-                self.__original_setattr__(name, value)
-                setattr(self, field_name, None)
-            else:
-                # temporarily set to none if key is modified
-                # in the future, may query object from graph
-                self.__original_setattr__(name, value)
-                setattr(self, field_name, None)
+            # temporarily set to none if key is modified
+            # in the future, may query object from graph
+            setattr(self, field_name, None)
         elif field.fdef.ftype == FType.LIST:
-            olist = to_owned_list(self, value or [], name)
-            self.__original_setattr__(name, olist)
-            if (value is None) or (value is []):
-                setattr(self, field_name, [])
-            else:
-                new_list = []
-                curvals = getattr(self, field_name)
-                if curvals is None:
-                    curvals = []
-                for item in value:
-                    existitem = next((v for v in curvals if v._id == item), None)
-                    if existitem is not None:
-                        new_list.append(existitem)
-                setattr(self, field_name, new_list)
+            new_list = []
+            for item in value or []:
+                existitem = next((v for v in getattr(self, field_name) or []
+                                  if v._id == item), None)
+                if existitem is not None:
+                    new_list.append(existitem)
+            setattr(self, field_name, new_list)
+            if value is None or isinstance(value, list):
+                value = to_owned_list(self, value or [], name)
+        # the linked field above also sets the key, set the key after it
+        self.__original_setattr__(name, value)
         if not self.is_new:
             setattr(self, '_is_modified', True)
             self._modified_fields.add(field_name)
+        return
     # use original setattr for non JSON class fields
     try:
         field = self.__class__.cdef.field_named(name)
@@ -735,10 +744,7 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
     if not self.is_new:
         setattr(self, '_is_modified', True)
         self._modified_fields.add(name)
-        if self.__class__.cdef.jconf.reset_all_fields or \
-                field.fdef.has_reset_modifier:
-            if name not in self.previous_values:
-                self.previous_values[name] = unowned_copy(getattr(self, name))
+        _record_previous_value(self, field)
     # make list and dict assignments owned and monitored
     if isinstance(value, list):
         value = to_owned_list(self, value, name)
-- 
2.43.0


From 0ed37cb05a2fed8385e0794be64093a5c99eb749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:28 +0000
Subject: [PATCH 34/62] fix: a link removed from the other side can be reset

---
 jsonclasses/jsonclassify.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 8fd71b8..6cecaaf 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -946,6 +946,7 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
             return
         if other_field.fdef.ftype == FType.INSTANCE:
             if getattr(item, other_field.name) is self:
+                _record_previous_value(item, other_field)
                 item.__original_setattr__(other_field.name, None)
                 of = other_field
                 if of.fdef.fstore == FStore.LOCAL_KEY:
-- 
2.43.0


From d09023f8250ce086a9aaff11828120fc97545940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:26 +0000
Subject: [PATCH 35/62] fix: the previous primary key of a modified object is
 known without reset_all_fields

---
 jsonclasses/modifiers/primary_modifier.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonclasses/modifiers/primary_modifier.py b/jsonclasses/modifiers/primary_modifier.py
index 3480b2b..017fe8c 100644
--- a/jsonclasses/modifiers/primary_modifier.py
+++ b/jsonclasses/modifiers/primary_modifier.py
@@ -8,3 +8,4 @@ class PrimaryModifier(Modifier):
 
     def define(self, fdef: FDef) -> None:
         fdef._primary = True
+        fdef._has_reset_modifier = True  # a changed key is still looked up
-- 
2.43.0


From b2b023657b35d67ece8f430e1f574a27eb4cb232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:59 +0000
Subject: [PATCH 36/62] fix: lists of reference keys follow item assignment,
 sorting and additions to partly loaded lists

---
 jsonclasses/jsonclassify.py | 39 ++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 6cecaaf..b2cfcb2 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -867,7 +867,7 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
             rkes = cdef.jconf.ref_name_strategy
             rk = rkes(field)
             rlist = getattr(self, rk)
-            if isjsonobject(val) and len(rlist) != len(olist):
+            if isjsonobject(val) and val._id not in rlist:
                 if val._id is None:
                     raise ValueError('a referenced object must have a valid primary key')
                 rlist.insert(idx, val._id)
@@ -891,13 +891,11 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
             self._modified_fields.add(fname)
             self._is_modified = True
         flist = getattr(self, fname)
-        if isinstance(flist, list):
-            if len(flist) != len(olist):
-                # TODO: reorder flist here
-                # TODO: replace the underneath implementation
-                match = next((v for v in flist if v._id == val), "PLACEHOLDER")
-                if match != "PLACEHOLDER":
-                    flist.remove(match)
+        if isinstance(flist, list) and val not in olist:
+            match = next((i for i, v in enumerate(flist)
+                          if isjsonobject(v) and v._id == val), None)
+            if match is not None:
+                del flist[match]
         return
     try:
         field = cdef.field_named(olist.keypath)
@@ -906,12 +904,11 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
     if field and field.fdef.is_ref:
         self.__unlink_field__(field, [val])
         if field.fdef.fstore == FStore.LOCAL_KEY:
-            ## TODO: replace the underneath implementation
             rkes = cdef.jconf.ref_name_strategy
             rk = rkes(field)
             rlist = getattr(self, rk)
-            if len(rlist) != len(olist):
-                if isjsonobject(val) and val._id in rlist:
+            if isjsonobject(val) and val._id in rlist:
+                if index_of(olist, val) is None:
                     rlist.remove(val._id)
     # record modified
     if not self.is_new:
@@ -920,11 +917,27 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
 
 
 def __olist_sor__(self, olist: OwnedList) -> None:
-    # TODO: sort local keys here
+    name = self._local_key_map.get(olist.keypath, olist.keypath)
+    cdef = self.__class__.cdef
+    if name in cdef._field_names:
+        field = cdef.field_named(name)
+        if field.fdef.fstore == FStore.LOCAL_KEY:
+            # keep the linked objects and their keys in one order
+            objs = getattr(self, name)
+            keys = getattr(self, cdef.jconf.ref_name_strategy(field))
+            if olist is keys:
+                if isinstance(objs, list):
+                    list.sort(objs, key=lambda o: keys.index(o._id)
+                              if o._id in keys else len(keys))
+            else:
+                ordered = iter([o._id for o in objs if o._id in keys])
+                ids = [o._id for o in objs]
+                list.__setitem__(keys, slice(None), [
+                    next(ordered) if k in ids else k for k in keys])
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
-        self._modified_fields.add(olist.keypath)
+        self._modified_fields.add(name)
 
 
 def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
-- 
2.43.0


From 2bd843c34ff698041aeb9430e3cafb88868be3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:46 +0000
Subject: [PATCH 37/62] fix: callable checkers of canc, canu, canw and canr are
 called instead of raising

---
 jsonclasses/modifiers/cancu_modifier.py | 10 +++++-----
 jsonclasses/modifiers/canr_modifier.py  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/jsonclasses/modifiers/cancu_modifier.py b/jsonclasses/modifiers/cancu_modifier.py
index 9c336ae..71745c0 100644
--- a/jsonclasses/modifiers/cancu_modifier.py
+++ b/jsonclasses/modifiers/cancu_modifier.py
@@ -21,15 +21,15 @@ class CanCUModifier(Modifier):
         if ctx.operator is None:
             ctx.raise_vexc('operator not present')
         if callable(self.checker):
-            params_len = len(signature(self.op_callable).parameters)
+            params_len = len(signature(self.checker).parameters)
             if params_len == 1:
-                result = self.op_callable(ctx.operator)
+                result = self.checker(ctx.operator)
             elif params_len == 2:
-                result = self.op_callable(ctx.operator, ctx.owner)
+                result = self.checker(ctx.operator, ctx.owner)
             elif params_len == 3:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val)
             elif params_len == 4:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val, ctx)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val, ctx)
             if result is None:
                 return
             if result is True:
diff --git a/jsonclasses/modifiers/canr_modifier.py b/jsonclasses/modifiers/canr_modifier.py
index 77dc639..44b4c38 100644
--- a/jsonclasses/modifiers/canr_modifier.py
+++ b/jsonclasses/modifiers/canr_modifier.py
@@ -22,15 +22,15 @@ class CanRModifier(Modifier):
         if ctx.operator is None:
             return None
         if callable(self.checker):
-            params_len = len(signature(self.op_callable).parameters)
+            params_len = len(signature(self.checker).parameters)
             if params_len == 1:
-                result = self.op_callable(ctx.operator)
+                result = self.checker(ctx.operator)
             elif params_len == 2:
-                result = self.op_callable(ctx.operator, ctx.owner)
+                result = self.checker(ctx.operator, ctx.owner)
             elif params_len == 3:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val)
             elif params_len == 4:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val, ctx)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val, ctx)
             if result is None:
                 return ctx.val
             if result is True:
-- 
2.43.0


From 58b7aea5c8d6e39cb892d43895818c0fcb8b153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:20 +0000
Subject: [PATCH 38/62] fix: different objects without primary key are not the
 same object for isobj and isthis

---
 jsonclasses/modifiers/isobj_modifier.py  | 4 +++-
 jsonclasses/modifiers/isthis_modifier.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/isobj_modifier.py b/jsonclasses/modifiers/isobj_modifier.py
index f0d35f4..2412969 100644
--- a/jsonclasses/modifiers/isobj_modifier.py
+++ b/jsonclasses/modifiers/isobj_modifier.py
@@ -36,6 +36,8 @@ class IsObjModifier(Modifier):
         else:
             that_cls = that.cls
             that_id = that.id
-        if that_cls == this_cls and that_id == this_id:
+        if this is that:
+            return
+        if that_cls == this_cls and this_id is not None and that_id == this_id:
             return
         ctx.raise_vexc('objects are not equal')
diff --git a/jsonclasses/modifiers/isthis_modifier.py b/jsonclasses/modifiers/isthis_modifier.py
index 22b42c6..14516a8 100644
--- a/jsonclasses/modifiers/isthis_modifier.py
+++ b/jsonclasses/modifiers/isthis_modifier.py
@@ -15,6 +15,6 @@ class IsThisModifier(Modifier):
         if ctx.val is ctx.owner:
             return None
         if ctx.val.__class__ == ctx.owner.__class__:
-            if ctx.val._id == ctx.owner._id:
+            if ctx.val._id is not None and ctx.val._id == ctx.owner._id:
                 return None
         ctx.raise_vexc('value is not this')
-- 
2.43.0


From bbd00fe792fc7c08658db98e82dcea5b722e22a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:00 +0000
Subject: [PATCH 39/62] fix: canr also hides the reference key of a linked
 field

---
 jsonclasses/modifiers/canr_modifier.py       | 18 ++++++++++--------
 jsonclasses/modifiers/instanceof_modifier.py |  5 +++++
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/jsonclasses/modifiers/canr_modifier.py b/jsonclasses/modifiers/canr_modifier.py
index 44b4c38..84f820a 100644
--- a/jsonclasses/modifiers/canr_modifier.py
+++ b/jsonclasses/modifiers/canr_modifier.py
@@ -18,9 +18,11 @@ class CanRModifier(Modifier):
         self.checker = checker
 
     def tojson(self, ctx: Ctx) -> Any:
-        super().tojson(ctx)
+        return ctx.val if self.permits(ctx) else None
+
+    def permits(self, ctx: Ctx) -> bool:
         if ctx.operator is None:
-            return None
+            return False
         if callable(self.checker):
             params_len = len(signature(self.checker).parameters)
             if params_len == 1:
@@ -32,18 +34,18 @@ class CanRModifier(Modifier):
             elif params_len == 4:
                 result = self.checker(ctx.operator, ctx.owner, ctx.val, ctx)
             if result is None:
-                return ctx.val
+                return True
             if result is True:
-                return ctx.val
+                return True
             if result is False:
-                return None
+                return False
             if isinstance(result, str):
-                return None
+                return False
             raise ValueError('invalid modifier')
         else:
             transformed = self.checker.modifier.transform(ctx)
             try:
                 self.checker.modifier.validate(ctx.nval(transformed))
-                return ctx.val
+                return True
             except ValidationException:
-                return None
+                return False
diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 112ab47..ec77eac 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -8,6 +8,7 @@ from ..fdef import (
 )
 from ..excs import ValidationException
 from .modifier import Modifier
+from .canr_modifier import CanRModifier
 from ..keypath import concat_keypath, initial_keypaths
 if TYPE_CHECKING:
     from ..jobject import JObject
@@ -229,6 +230,10 @@ class InstanceOfModifier(Modifier):
                 rk = val.__class__.cdef.jconf.ref_name_strategy(field)
                 jrk = val.__class__.cdef.jconf.output_key_strategy(rk)
                 valatk = getattr(val, rk)
+                kctx = ctx.nextvc(fval, field.name, field.fdef, cls_name)
+                if not all(v.permits(kctx) for v in field.types.modifier.vs
+                           if isinstance(v, CanRModifier)):
+                    valatk = None
                 if output_null or (valatk is not None):
                     retval[jrk] = valatk
             if fd.fstore == FStore.LOCAL_KEY and (isrf or no_key_refs):
-- 
2.43.0


From 08a5226eb9fbce35ea475a2e1a0fd1d81400b422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:05 +0000
Subject: [PATCH 40/62] fix: asop accepts transformers with three arguments as
 documented

---
 jsonclasses/jsonclassify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index b2cfcb2..cc78892 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -250,6 +250,9 @@ def opby(self: JObject, operator: Any) -> JObject:
                     setattr(self, fidname, transformer(operator)._id)
                 elif params_len == 2:
                     setattr(self, fidname, transformer(operator, self)._id)
+                elif params_len == 3:
+                    ctx = Ctx.rootctx(self, CtxCfg())
+                    setattr(self, fidname, transformer(operator, self, ctx)._id)
             else:
                 setattr(self, fidname, operator._id)
     return self
-- 
2.43.0


From ac450f95e723e433cb7823fedd293f28de5bece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:29 +0000
Subject: [PATCH 41/62] fix: save() saves every unlinked object, each once

---
 jsonclasses/jsonclassify.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index cc78892..934d873 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -358,9 +358,11 @@ def save(self: JObject,
         self.validate(all_fields=validate_all_fields)
     self._set_on_save()
     self._database_write()
-    for _, lst in self.unlinked_objects.items():
-        for item in lst:
-            lst.remove(item)
+    for lst in list(self.unlinked_objects.values()):
+        while lst:
+            item = lst.pop(0)
+            for others in item.unlinked_objects.values():
+                others[:] = [other for other in others if other is not self]
             item.save(validate_all_fields=validate_all_fields,
                       skip_validation=skip_validation)
     return self
-- 
2.43.0


From b93f7d61e73af91d2d84607a7532643bfd3f9fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:10 +0000
Subject: [PATCH 42/62] fix: enum fields with value input accept names where
 allowed and refuse unknown values

---
 jsonclasses/modifiers/enum_modifier.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/modifiers/enum_modifier.py b/jsonclasses/modifiers/enum_modifier.py
index 2e35866..5e30041 100644
--- a/jsonclasses/modifiers/enum_modifier.py
+++ b/jsonclasses/modifiers/enum_modifier.py
@@ -41,7 +41,7 @@ class EnumModifier(Modifier):
                 return enum_class(ctx.val)
             except ValueError:
                 pass
-        elif isinstance(ctx.val, str):
+        if isinstance(ctx.val, str):
             if enum_input.__contains__(EnumInput.NAME):
                 try:
                     return enum_class[ctx.val]
@@ -52,9 +52,7 @@ class EnumModifier(Modifier):
                     return enum_class[ctx.val.upper()]
                 except KeyError:
                     pass
-            ctx.raise_vexc('unknown enum value')
-        else:
-            ctx.raise_vexc('unknown enum value')
+        ctx.raise_vexc('unknown enum value')
 
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
-- 
2.43.0


From fa892906f05a976fca82a783a57586e773a0b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:27 +0000
Subject: [PATCH 43/62] fix: defining a json enum twice raises the documented
 exception

---
 jsonclasses/cgraph.py | 3 +--
 jsonclasses/excs.py   | 6 ++++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/cgraph.py b/jsonclasses/cgraph.py
index a261cab..393544a 100644
--- a/jsonclasses/cgraph.py
+++ b/jsonclasses/cgraph.py
@@ -143,8 +143,7 @@ class CGraph:
         """
         exist_def = self._enum_map.get(enum_class.__name__)
         if exist_def:
-            raise JSONClassTypedDictRedefinitionException(enum_class,
-                                                          exist_def.cls)
+            raise JSONClassRedefinitionException(enum_class, exist_def, self)
         self._enum_map[enum_class.__name__] = enum_class
 
     def fetch_enum(self: CGraph, ec_or_name: type[Enum] | str) -> type[Enum]:
diff --git a/jsonclasses/excs.py b/jsonclasses/excs.py
index b6f4415..2a9c91a 100644
--- a/jsonclasses/excs.py
+++ b/jsonclasses/excs.py
@@ -44,7 +44,8 @@ class JSONClassRedefinitionException(Exception):
     exists before in the same graph.
     """
 
-    def __init__(self, new_class: type, exist_class: type[JObject]) -> None:
+    def __init__(self, new_class: type, exist_class: type[JObject],
+                 graph: Any = None) -> None:
         """Create an exception that notifies the user that a class with
         duplicated name is defined twice.
 
@@ -61,7 +62,8 @@ class JSONClassRedefinitionException(Exception):
         assert new_module is not None
         new_file = new_module.__file__
         new_line = getsourcelines(new_class)[1]
-        graph = exist_class.cdef.jconf.cgraph
+        if graph is None:
+            graph = exist_class.cdef.jconf.cgraph
         message = (f'jsonclass name conflict in graph `{graph}`: '
                    f'exist `{name}` defined at '
                    f'`{original_file}:{original_line}`, '
-- 
2.43.0


From 6b6e622802b34042769fdb34cbe5aa28d7849c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:54 +0000
Subject: [PATCH 44/62] fix: datetime output is UTC with milliseconds for every
 datetime

---
 jsonclasses/modifiers/datetime_modifier.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/datetime_modifier.py b/jsonclasses/modifiers/datetime_modifier.py
index 6752e62..0bf2473 100644
--- a/jsonclasses/modifiers/datetime_modifier.py
+++ b/jsonclasses/modifiers/datetime_modifier.py
@@ -34,4 +34,9 @@ class DatetimeModifier(TypeModifier):
             return ctx.val
 
     def tojson(self, ctx: Ctx) -> Any:
-        return None if ctx.val is None else ctx.val.isoformat()[:23] + 'Z'
+        if ctx.val is None:
+            return None
+        val = ctx.val
+        if val.tzinfo is not None:
+            val = val.astimezone(timezone.utc).replace(tzinfo=None)
+        return val.isoformat(timespec='milliseconds') + 'Z'
-- 
2.43.0


From 6dd4f3fc00aed08b1446a897100f1c784df96996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:57 +0000
Subject: [PATCH 45/62] fix: the UTC offset of a datetime string is not dropped

---
 jsonclasses/modifiers/datetime_modifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/datetime_modifier.py b/jsonclasses/modifiers/datetime_modifier.py
index 0bf2473..0af2699 100644
--- a/jsonclasses/modifiers/datetime_modifier.py
+++ b/jsonclasses/modifiers/datetime_modifier.py
@@ -22,8 +22,10 @@ class DatetimeModifier(TypeModifier):
         elif isinstance(ctx.val, str):
             try:
                 retval = datetime.fromisoformat(ctx.val.replace('Z', ''))
+                if retval.tzinfo is not None:
+                    return retval.astimezone(timezone.utc)
                 return retval.replace(tzinfo=timezone.utc)
-            except ValueError:
+            except (ValueError, OverflowError):
                 ctx.raise_vexc('wrong datetime format')
         elif type(ctx.val) is date:
             retval = datetime(ctx.val.year,
-- 
2.43.0


From 43b1b40dd82f7e7faf498f77ea9dd168117f210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:35 +0000
Subject: [PATCH 46/62] fix: before and after compare dates and datetimes with
 and without time zone

---
 jsonclasses/modifiers/after_modifier.py  | 22 +++++++---------------
 jsonclasses/modifiers/before_modifier.py |  9 ++++-----
 jsonclasses/outils.py                    | 12 ++++++++++++
 3 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/jsonclasses/modifiers/after_modifier.py b/jsonclasses/modifiers/after_modifier.py
index 39bbe56..54d8263 100644
--- a/jsonclasses/modifiers/after_modifier.py
+++ b/jsonclasses/modifiers/after_modifier.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from typing import Callable, TYPE_CHECKING
 from datetime import date, datetime
 from .modifier import Modifier
+from ..outils import utc_datetime
 if TYPE_CHECKING:
     from ..ctx import Ctx
     from ..types import Types
@@ -19,18 +20,9 @@ class AfterModifier(Modifier):
             return
         value = ctx.val
         point = self.resolve_param(self.point, ctx)
-        if type(value) is date and type(point) is date:
-            if value <= point:
-                ctx.raise_vexc('value is too early')
-        if type(value) is datetime and type(point) is datetime:
-            if value <= point:
-                ctx.raise_vexc('value is too early')
-        else:
-            value = value
-            point = point
-            if type(value) is date:
-                value = datetime.combine(value, datetime.min.time())
-            if type(point) is date:
-                point = datetime.combine(point, datetime.min.time())
-            if value <= point:
-                ctx.raise_vexc('value is too early')
+        if point is None:
+            return
+        value = utc_datetime(value)
+        point = utc_datetime(point)
+        if value <= point:
+            ctx.raise_vexc('value is too early')
diff --git a/jsonclasses/modifiers/before_modifier.py b/jsonclasses/modifiers/before_modifier.py
index 2ed8c69..d3c8733 100644
--- a/jsonclasses/modifiers/before_modifier.py
+++ b/jsonclasses/modifiers/before_modifier.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from typing import Callable, Union, TYPE_CHECKING
 from datetime import date, datetime
 from .modifier import Modifier
+from ..outils import utc_datetime
 if TYPE_CHECKING:
     from ..ctx import Ctx
     from ..types import Types
@@ -18,11 +19,9 @@ class BeforeModifier(Modifier):
             return
         value = ctx.val
         point = self.resolve_param(self.point, ctx)
-        if type(value) is date:
-            value = datetime.combine(ctx.val, datetime.min.time())
-        if type(point) is date:
-            point = datetime.combine(self.resolve_param(self.point, ctx), datetime.min.time())
         if point is None:
-            return ctx.val
+            return
+        value = utc_datetime(value)
+        point = utc_datetime(point)
         if value >= point:
             ctx.raise_vexc('value is too late')
diff --git a/jsonclasses/outils.py b/jsonclasses/outils.py
index 5890f27..39329d9 100644
--- a/jsonclasses/outils.py
+++ b/jsonclasses/outils.py
@@ -1,6 +1,7 @@
 """This module contains utility methods for working with owned collections.
 """
 from __future__ import annotations
+from datetime import date, datetime, time, timezone
 from typing import TypeVar, Any
 from .odict import OwnedDict, DictOwner
 from .olist import OwnedList, ListOwner
@@ -98,3 +99,14 @@ def same_value(a: Any, b: Any) -> bool:
 def index_of(items: list, obj: Any) -> int | None:
     """The index of this very object in the list."""
     return next((i for i, v in enumerate(items) if v is obj), None)
+
+
+def utc_datetime(value: date | datetime) -> datetime:
+    """The point in time that a date or datetime means. A date is its midnight
+    and a datetime without time zone is in UTC.
+    """
+    if type(value) is date:
+        value = datetime.combine(value, time.min)
+    if value.tzinfo is None:
+        value = value.replace(tzinfo=timezone.utc)
+    return value
-- 
2.43.0


From d2c244fd515002edfa956857b18c12ccb484eeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:44 +0000
Subject: [PATCH 47/62] fix: tsupdated defaults to UTC like its later values
 and umininterval accepts a missing value

---
 jsonclasses/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/types.py b/jsonclasses/types.py
index c80d2ac..f027bed 100644
--- a/jsonclasses/types.py
+++ b/jsonclasses/types.py
@@ -1305,7 +1305,7 @@ class Types:
         """This modifier adds a default current time and a set on save.
         """
         return Types(self,
-                     DefaultModifier(datetime.now),
+                     DefaultModifier(lambda: datetime.now(timezone.utc)),
                      PreserializeModifier(),
                      SetOnSaveModifier(lambda: datetime.now(timezone.utc)))
 
@@ -1313,7 +1313,7 @@ class Types:
         """This modifier compares old and new value against the time interval.
         """
         def compare_callable(old: datetime, new: datetime):
-            if new >= old + interval:
+            if old is None or new is None or new >= old + interval:
                 return None
             return 'time interval too short'
         return Types(self,
-- 
2.43.0


From 3cd884ac8e1bac5c92c057d2da8b13d4dd9e328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:39 +0000
Subject: [PATCH 48/62] fix: union fields read input as the first type it is
 valid for

---
 jsonclasses/modifiers/union_modifier.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/modifiers/union_modifier.py b/jsonclasses/modifiers/union_modifier.py
index 6c16b05..e94ba13 100644
--- a/jsonclasses/modifiers/union_modifier.py
+++ b/jsonclasses/modifiers/union_modifier.py
@@ -2,6 +2,7 @@
 from __future__ import annotations
 from typing import TYPE_CHECKING, Any
 from ..excs import ValidationException
+from ..mgraph import MGraph
 from .modifier import Modifier
 from ..rtypes import rtypes
 from ..fdef import FDef, FType
@@ -23,14 +24,22 @@ class UnionModifier(Modifier):
     def transform(self, ctx: Ctx) -> Any:
         if ctx.val is None:
             return None
+        results = []
         for types in ctx.fdef.raw_union_types:
             if types.fdef._cdef is None:
                 types.fdef._cdef = ctx.owner.__class__.cdef
+            newctx = ctx.alterfdef(types.fdef)
             try:
-                return types.modifier.transform(ctx.alterfdef(types.fdef))
-            except:
+                results.append(types.modifier.transform(newctx))
+            except Exception:
                 continue
-        return ctx.val
+            try:
+                types.modifier.validate(
+                    newctx.nval(results[-1])._replace(mgraph=MGraph()))
+                return results[-1]
+            except ValidationException:
+                continue
+        return results[0] if results else ctx.val
 
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
-- 
2.43.0


From 2a90eb11aefa24682b12970beee0a826f094ac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:39 +0000
Subject: [PATCH 49/62] fix: output contains a copy of the list of reference
 keys, not the object's own

---
 jsonclasses/modifiers/instanceof_modifier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index ec77eac..3de55f0 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -230,6 +230,8 @@ class InstanceOfModifier(Modifier):
                 rk = val.__class__.cdef.jconf.ref_name_strategy(field)
                 jrk = val.__class__.cdef.jconf.output_key_strategy(rk)
                 valatk = getattr(val, rk)
+                if isinstance(valatk, list):
+                    valatk = list(valatk)
                 kctx = ctx.nextvc(fval, field.name, field.fdef, cls_name)
                 if not all(v.permits(kctx) for v in field.types.modifier.vs
                            if isinstance(v, CanRModifier)):
-- 
2.43.0


From ea0e65bf7a11d8fa8e19e487d0a3b3c036b68ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:01 +0000
Subject: [PATCH 50/62] fix: output of any fields is a copy, not the object's
 own list or dict

---
 jsonclasses/modifiers/any_modifier.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsonclasses/modifiers/any_modifier.py b/jsonclasses/modifiers/any_modifier.py
index a212e25..bc220b9 100644
--- a/jsonclasses/modifiers/any_modifier.py
+++ b/jsonclasses/modifiers/any_modifier.py
@@ -1,7 +1,10 @@
 """module for alnum modifier."""
 from __future__ import annotations
+from typing import Any, TYPE_CHECKING
 from ..fdef import FDef, FType
 from .modifier import Modifier
+if TYPE_CHECKING:
+    from ..ctx import Ctx
 
 
 class AnyModifier(Modifier):
@@ -9,3 +12,7 @@ class AnyModifier(Modifier):
 
     def define(self, fdef: FDef) -> None:
         fdef._ftype = FType.ANY
+
+    def tojson(self, ctx: Ctx) -> Any:
+        from ..outils import unowned_copy
+        return unowned_copy(ctx.val)
-- 
2.43.0


From 8717553eab1d9fd71eba90581136334aab52d001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:45 +0000
Subject: [PATCH 51/62] fix: string annotations may nest dicts, unions and
 lists in each other

---
 jsonclasses/rtypes.py | 35 +++++------------------------------
 1 file changed, 5 insertions(+), 30 deletions(-)

diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index d23e43e..7048c1b 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -7,7 +7,7 @@ from typing import (
 )
 from datetime import date, datetime
 from enum import Enum
-from re import match, split
+from re import match
 from .excs import UnresolvedTypeNameException
 if TYPE_CHECKING:
     from .types import Types
@@ -45,7 +45,7 @@ def apply_link_specifier(types: Types, specifier: str) -> Types:
     else:
         raise TypeError(f"wrong format of link specifier '{specifier}'")
 
-def union_split(arg: str) -> list[str]:
+def union_split(arg: str, separator: str = '|') -> list[str]:
     result = ['']
     depth = 0
     for c in arg:
@@ -56,7 +56,7 @@ def union_split(arg: str) -> list[str]:
             case ']':
                 depth -= 1
                 result[-1] += c
-            case '|':
+            case _ if c == separator:
                 if depth < 1:
                     result.append('')
                 else:
@@ -65,30 +65,6 @@ def union_split(arg: str) -> list[str]:
                 result[-1] += c
     return [r.strip() for r in result]
 
-def merge_back_dicts(args: list[str]) -> list[str]:
-    """This method is used for union arguments parsing. When union contains
-    dict, dict is separated wrongly by split method. This function merge
-    dicts back.
-
-    Args:
-        args (list[str]): A list of string tokens.
-
-    Returns:
-        list[str]: The renovated string tokens.
-    """
-    retval = []
-    do_not_push_next = False
-    for idx, arg in enumerate(args):
-        if do_not_push_next:
-            do_not_push_next = False
-            continue
-        if match('^[Dd]ict\\[', arg):
-            retval.append(arg + ', ' + args[idx + 1])
-            do_not_push_next = True
-        else:
-            retval.append(arg)
-    return retval
-
 def str_to_types(anytypes: str, opt: bool = False) -> Types:
     """
     Convert user specified string described types to types.
@@ -123,8 +99,7 @@ def str_to_types(anytypes: str, opt: bool = False) -> Types:
                 match_data = match('^Union\\[(.*)\\]', anytypes)
                 assert match_data is not None
                 all_item_types = match_data.group(1)
-                types_to_build_union = split(", *", all_item_types)
-                types_to_build_union = merge_back_dicts(types_to_build_union)
+                types_to_build_union = union_split(all_item_types, ',')
                 results = []
                 for t in types_to_build_union:
                     results.append(str_to_types(t, True))
@@ -142,7 +117,7 @@ def str_to_types(anytypes: str, opt: bool = False) -> Types:
                 list_type = types.listof(str_to_types(item_type))
                 return list_type if opt else list_type.required
             elif match('^[Dd]ict\\[', anytypes):
-                match_data = match('[Dd]ict\\[.+, *(.*)\\]', anytypes)
+                match_data = match('[Dd]ict\\[[^,]+, *(.*)\\]', anytypes)
                 assert match_data is not None
                 item_type = match_data.group(1)
                 dict_type = types.dictof(str_to_types(item_type))
-- 
2.43.0


From 0e7e49540a6d9c1a7b5d72ce0bf24f97ce03574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:50 +0000
Subject: [PATCH 52/62] fix: annotations of the form X | Y work without being
 strings

---
 jsonclasses/rtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index 7048c1b..ac5678a 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -7,6 +7,7 @@ from typing import (
 )
 from datetime import date, datetime
 from enum import Enum
+from types import UnionType
 from re import match
 from .excs import UnresolvedTypeNameException
 if TYPE_CHECKING:
@@ -180,7 +181,7 @@ def to_types(anytypes: Any, opt: bool = False) -> Types:
     elif get_origin(anytypes) is dict:
         dict_type = types.dictof(get_args(anytypes)[1])
         return dict_type if opt else dict_type.required
-    elif get_origin(anytypes) == Union:
+    elif get_origin(anytypes) in (Union, UnionType):
         required: bool = True
         types_to_build_union: list[Any] = []
         args = get_args(anytypes)
-- 
2.43.0


From ab595af2c447016bb14f8746f3cf62d3828e3e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:54 +0000
Subject: [PATCH 53/62] fix: optional forward references and unions with None
 are optional

---
 jsonclasses/rtypes.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index ac5678a..a6f4484 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -101,6 +101,11 @@ def str_to_types(anytypes: str, opt: bool = False) -> Types:
                 assert match_data is not None
                 all_item_types = match_data.group(1)
                 types_to_build_union = union_split(all_item_types, ',')
+                if 'None' in types_to_build_union:
+                    types_to_build_union.remove('None')
+                    opt = True
+                if len(types_to_build_union) == 1:
+                    return str_to_types(types_to_build_union[0], opt)
                 results = []
                 for t in types_to_build_union:
                     results.append(str_to_types(t, True))
@@ -160,7 +165,7 @@ def to_types(anytypes: Any, opt: bool = False) -> Types:
     """
     from .types import types
     if isinstance(anytypes, str):
-        return str_to_types(anytypes)
+        return str_to_types(anytypes, opt)
     elif anytypes is str:
         return types.str if opt else types.str.required
     elif anytypes is int:
@@ -213,7 +218,7 @@ def to_types(anytypes: Any, opt: bool = False) -> Types:
         instance_type = types.objof(anytypes)
         return instance_type if opt else instance_type.required
     elif isinstance(anytypes, ForwardRef):
-        return str_to_types(anytypes.__forward_arg__)
+        return str_to_types(anytypes.__forward_arg__, opt)
     else:
         raise ValueError(f'{anytypes} is not a valid JSON Class type.')
 
-- 
2.43.0


From a1ab71a9e465a618dc4ad4d3793cb8eb7ac6f3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:32 +0000
Subject: [PATCH 54/62] fix: class and enum names in unions of string
 annotations are resolved

---
 jsonclasses/fdef.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/fdef.py b/jsonclasses/fdef.py
index ee36116..0444f0e 100644
--- a/jsonclasses/fdef.py
+++ b/jsonclasses/fdef.py
@@ -323,7 +323,15 @@ class FDef:
         """The raw union types of this union field.
         """
         self._resolve_if_needed()
-        return self._raw_union_types
+        if self._raw_union_types is None or self._cdef is None:
+            return self._raw_union_types
+        if self._resolved_union_types is None:
+            self._resolved_union_types = [
+                rnamedtypes(t, self.cdef.jconf.cgraph, self.cdef.name)
+                for t in self._raw_union_types]
+            for types in self._resolved_union_types:
+                types.fdef._cdef = self.cdef
+        return self._resolved_union_types
 
     # subtypes
 
-- 
2.43.0


From c0b60659db297e093b5c82bb10eb479666dedbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:45 +0000
Subject: [PATCH 55/62] fix: types used by several classes belong to each of
 them

---
 jsonclasses/cdef.py  |  2 +-
 jsonclasses/fdef.py  |  9 ++++-----
 jsonclasses/types.py | 16 +++++++++++++++-
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/jsonclasses/cdef.py b/jsonclasses/cdef.py
index 27da2c8..fa440f1 100644
--- a/jsonclasses/cdef.py
+++ b/jsonclasses/cdef.py
@@ -73,7 +73,7 @@ class CDef:
             else:
                 types = rtypes(field.type)
                 default = field.default
-            types.fdef._cdef = self
+            types = types._bound(self)
             jfield = JField(cdef=self, name=name, default=default, types=types)
             self._camelized_field_names.append(jfield.json_name)
             self._list_fields.append(jfield)
diff --git a/jsonclasses/fdef.py b/jsonclasses/fdef.py
index 0444f0e..4bf68cb 100644
--- a/jsonclasses/fdef.py
+++ b/jsonclasses/fdef.py
@@ -327,10 +327,9 @@ class FDef:
             return self._raw_union_types
         if self._resolved_union_types is None:
             self._resolved_union_types = [
-                rnamedtypes(t, self.cdef.jconf.cgraph, self.cdef.name)
+                rnamedtypes(t._bound(self.cdef), self.cdef.jconf.cgraph,
+                            self.cdef.name)
                 for t in self._raw_union_types]
-            for types in self._resolved_union_types:
-                types.fdef._cdef = self.cdef
         return self._resolved_union_types
 
     # subtypes
@@ -352,8 +351,8 @@ class FDef:
             return cast(Types, None)
         if self._resolved_item_types is not None:
             return self._resolved_item_types
-        self._resolved_item_types = rtypes(self.raw_item_types)
-        self._resolved_item_types.fdef._cdef = self.cdef
+        self._resolved_item_types = rtypes(self.raw_item_types)._bound(
+            self.cdef)
         self._resolved_item_types = rnamedtypes(
             self._resolved_item_types,
             self.cdef.jconf.cgraph,
diff --git a/jsonclasses/types.py b/jsonclasses/types.py
index f027bed..66955f1 100644
--- a/jsonclasses/types.py
+++ b/jsonclasses/types.py
@@ -4,7 +4,7 @@ from ast import Call
 from typing import Callable, Any, Optional
 from datetime import date, datetime, timedelta, timezone
 from enum import Enum
-from copy import deepcopy
+from copy import copy, deepcopy
 from .jobject import JObject
 from .fdef import FDef
 from .modifiers import (BoolModifier, ChainedModifier, FValModifier, FObjModifier,
@@ -96,6 +96,20 @@ class Types:
                 arg.define(self.fdef)
             self.modifier = modifier
 
+    def _bound(self, cdef: Any) -> Types:
+        """A copy of this types which belongs to the class definition. Types
+        may be used by several classes.
+        """
+        types = Types()
+        types.modifier = self.modifier
+        types.fdef = copy(self.fdef)
+        types.fdef._cdef = cdef
+        types.fdef._enum_class = None
+        types.fdef._inst_cls = None
+        types.fdef._resolved_item_types = None
+        types.fdef._resolved_union_types = None
+        return types
+
     @property
     def invalid(self) -> Types:
         """Fields marked with invalid will never be valid, thus these fields
-- 
2.43.0


From df7068d2f344ac5726389a4e9bc2264ab36202cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:28 +0000
Subject: [PATCH 56/62] fix: key paths accept JSON names and treat unknown
 names as other unknown keys

---
 jsonclasses/jsonclassify.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 934d873..dcfb674 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -80,8 +80,13 @@ def _set(self: JObject,
 def _keypath_set(self: JObject, kwargs: dict[str, Any]) -> None:
     for key, value in kwargs.items():
         items = keypath_split(key)
-        dest = getattr(self, items[0])
-        fdef = self.__class__.cdef.field_named(items[0]).types.fdef
+        field = next((f for f in self.__class__.cdef.fields
+                      if items and items[0] in (f.name, f.json_name)), None)
+        if field is None:
+            self._set({key: value}, fill_blanks=False)
+            continue
+        dest = getattr(self, field.name)
+        fdef = field.types.fdef
         if fdef.write_rule == WriteRule.NO_WRITE:
             continue
         if fdef.write_rule == WriteRule.WRITE_ONCE and dest is not None:
-- 
2.43.0


From cf8819ae609d0acd210c3e6550589481006b8315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:33 +0000
Subject: [PATCH 57/62] fix: key path input of items is read as the item type
 says

---
 jsonclasses/jsonclassify.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index dcfb674..cc4203d 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -95,6 +95,14 @@ def _keypath_set(self: JObject, kwargs: dict[str, Any]) -> None:
         self._set_to_container(dest, items[1:], value, fdef, used_items)
 
 
+def _input_item(self: JObject, key: str, value: Any, fdef: FDef) -> Any:
+    """Transform the input of a list item or a dict item."""
+    ctxcfg = CtxCfg(fill_dest_blanks=False, all_fields=False)
+    ctx = Ctx.rootctx(self, ctxcfg)
+    types = fdef.item_types
+    return types.modifier.transform(ctx.colval(value, key, types.fdef, self))
+
+
 def _set_to_container(self: JObject,
                       dest: Any,
                       items: list[str],
@@ -112,7 +120,7 @@ def _set_to_container(self: JObject,
         if dest is None:
             raise ValueError(f"value in {'.'.join(used_items)} is None")
         if len(items) == 1:
-            dest[int(items[0])] = value
+            dest[int(items[0])] = self._input_item(items[0], value, fdef)
         else:
             fdef = fdef.item_types.fdef
             self._set_to_container(dest[int(items[0])], items[1:], value, fdef, used_items + [items[0]])
@@ -120,7 +128,7 @@ def _set_to_container(self: JObject,
         if dest is None:
             raise ValueError(f"value in {'.'.join(used_items)} is None")
         if len(items) == 1:
-            dest[items[0]] = value
+            dest[items[0]] = self._input_item(items[0], value, fdef)
         else:
             fdef = fdef.item_types.fdef
             self._set_to_container(dest[items[0]], items[1:], value, fdef, used_items + [items[0]])
@@ -1073,6 +1081,7 @@ def jsonclassify(class_: type) -> type[JObject]:
     class_._set = _set
     class_._keypath_set = _keypath_set
     class_._set_to_container = _set_to_container
+    class_._input_item = _input_item
     class_._orm_complete = _orm_complete
     class_._data_dict = _data_dict
     class_._mark_new = _mark_new
-- 
2.43.0


From 70fdb8a6ff71e4acec9123bc6e9b275cab0cd575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 58/62] fix: deriving types does not copy the class definition

---
 jsonclasses/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/types.py b/jsonclasses/types.py
index 66955f1..6ff10ff 100644
--- a/jsonclasses/types.py
+++ b/jsonclasses/types.py
@@ -89,7 +89,8 @@ class Types:
             self.fdef = FDef()
             self.modifier = ChainedModifier()
         else:
-            self.fdef = deepcopy(original.fdef)
+            cdef = original.fdef._cdef
+            self.fdef = deepcopy(original.fdef, {id(cdef): cdef})
             modifier = original.modifier
             for arg in args:
                 modifier = modifier.append(arg)
-- 
2.43.0


From 8a05c1f85b16e3792dbd871af9ade4c852b40dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:49 +0000
Subject: [PATCH 59/62] fix: assigning an equal value of another type is a
 change

---
 jsonclasses/outils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/outils.py b/jsonclasses/outils.py
index 39329d9..2f9f692 100644
--- a/jsonclasses/outils.py
+++ b/jsonclasses/outils.py
@@ -93,7 +93,7 @@ def same_value(a: Any, b: Any) -> bool:
     if isinstance(a, dict) and isinstance(b, dict):
         return len(a) == len(b) and all(
             k in b and same_value(v, b[k]) for k, v in a.items())
-    return a == b
+    return type(a) is type(b) and a == b
 
 
 def index_of(items: list, obj: Any) -> int | None:
-- 
2.43.0


From b30f39a7e76903287d5ab8b60eb96716a469433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:04 +0000
Subject: [PATCH 60/62] fix: fetching linked objects or missing fields modifies
 no object

---
 jsonclasses/jsonclassify.py | 41 +++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index cc4203d..15b4959 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -403,14 +403,33 @@ def complete(self: JObject) -> JObject:
     """Fetch missing field values from the underlying ORM.
     """
     if self.is_partial:
-        saved_modified_fields = list(self._modified_fields)
-        saved_is_modified = self._is_modified
+        saved = _tracking_state(self)
         self._orm_complete()
-        self._is_modified = saved_is_modified
-        self._modified_fields = set(saved_modified_fields)
+        _set_tracking_state(self, saved)
     return self
 
 
+def _tracking_state(self: JObject) -> tuple:
+    return (self._is_modified, set(self._modified_fields),
+            dict(self._previous_values))
+
+
+def _set_tracking_state(self: JObject, state: tuple) -> None:
+    self._is_modified, self._modified_fields, self._previous_values = state
+
+
+def _assign_fetched(self: JObject, field: JField, result: Any) -> None:
+    """Assign what is fetched to the field. This modifies neither this object
+    nor the fetched ones.
+    """
+    objects = result if isinstance(result, list) else [result]
+    objects = [self] + [obj for obj in objects if isjsonobject(obj)]
+    saved = [_tracking_state(obj) for obj in objects]
+    setattr(self, field.name, result)
+    for obj, state in zip(objects, saved):
+        _set_tracking_state(obj, state)
+
+
 def include(self: JObject, field_name: str) -> JObject:
     """Fetch objects on reference field.
     """
@@ -419,42 +438,38 @@ def include(self: JObject, field_name: str) -> JObject:
         cls = cast(ORMObject, field.fdef.inst_cls)
     elif field.fdef.ftype == FType.LIST:
         cls = field.fdef.item_types.fdef.inst_cls
-    modified_fields = self.modified_fields
-    is_modified = self.is_modified
     if field.fdef.fstore == FStore.LOCAL_KEY:
         if field.fdef.ftype == FType.INSTANCE:
             rkes = self.__class__.cdef.jconf.ref_name_strategy
             ridname = rkes(field)
             rid = getattr(self, ridname)
             result = cls.id(rid).exec()
-            setattr(self, field.name, result)
+            _assign_fetched(self, field, result)
         elif field.fdef.ftype == FType.LIST:
             rkes = self.__class__.cdef.jconf.ref_name_strategy
             ridname = rkes(field)
             rids = getattr(self, ridname)
             result = cls.ids(rids).exec()
-            setattr(self, field.name, result)
+            _assign_fetched(self, field, result)
     elif field.fdef.fstore == FStore.FOREIGN_KEY:
         if field.fdef.use_join_table:
             ffield = field.foreign_field
             rkes = cls.cdef.jconf.ref_name_strategy
             idref = rkes(ffield)
             result = cls.find(**{idref: [self._id]}).exec()
-            setattr(self, field.name, result)
+            _assign_fetched(self, field, result)
         elif field.fdef.ftype == FType.INSTANCE:
             ffield = field.foreign_field
             rkes = cls.cdef.jconf.ref_name_strategy
             idref = rkes(ffield)
             result = cls.one(**{idref: self._id}).exec()
-            setattr(self, field.name, result)
+            _assign_fetched(self, field, result)
         elif field.fdef.ftype == FType.LIST:
             ffield = field.foreign_field
             rkes = cls.cdef.jconf.ref_name_strategy
             idref = rkes(ffield)
             result = cls.find(**{idref: [self._id]}).exec()
-            setattr(self, field.name, result)
-    setattr(self, '_modified_fields', set(modified_fields))
-    setattr(self, '_is_modified', is_modified)
+            _assign_fetched(self, field, result)
     return self
 
 def _orm_complete(self: JObject) -> JObject:
-- 
2.43.0


From 4d6ad6e57f7d3ce64e21110b36bca34ee8375266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:31 +0000
Subject: [PATCH 61/62] fix: random strings may be longer than their alphabet
 and repeat characters

---
 jsonclasses/modifiers/random_alnumpuncs_modifier.py | 4 ++--
 jsonclasses/modifiers/random_alnums_modifier.py     | 4 ++--
 jsonclasses/modifiers/random_digits_modifier.py     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/modifiers/random_alnumpuncs_modifier.py b/jsonclasses/modifiers/random_alnumpuncs_modifier.py
index 068d9eb..0add636 100644
--- a/jsonclasses/modifiers/random_alnumpuncs_modifier.py
+++ b/jsonclasses/modifiers/random_alnumpuncs_modifier.py
@@ -1,7 +1,7 @@
 """module for random alnumpuncs modifier."""
 from __future__ import annotations
 from typing import Any, TYPE_CHECKING, Callable
-from random import sample
+from random import choices
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -20,4 +20,4 @@ class RandomAlnumpuncsModifier(Modifier):
         punctuation = r"""!"#$%&'()*+,-./:;<=>?@[\]^_`{|}~"""
         digits = '0123456789'
         ascii_letters = ascii_lowercase + ascii_uppercase
-        return ''.join(sample(punctuation+ascii_letters+digits, self.resolve_param(self.length, ctx)))
+        return ''.join(choices(punctuation+ascii_letters+digits, k=self.resolve_param(self.length, ctx)))
diff --git a/jsonclasses/modifiers/random_alnums_modifier.py b/jsonclasses/modifiers/random_alnums_modifier.py
index 3606493..7827130 100644
--- a/jsonclasses/modifiers/random_alnums_modifier.py
+++ b/jsonclasses/modifiers/random_alnums_modifier.py
@@ -1,7 +1,7 @@
 """module for random alnums modifier."""
 from __future__ import annotations
 from typing import Any, TYPE_CHECKING, Callable
-from random import sample
+from random import choices
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -19,4 +19,4 @@ class RandomAlnumsModifier(Modifier):
         ascii_uppercase = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
         digits = '0123456789'
         ascii_letters = ascii_lowercase + ascii_uppercase
-        return ''.join(sample(ascii_letters+digits, self.resolve_param(self.length, ctx)))
+        return ''.join(choices(ascii_letters+digits, k=self.resolve_param(self.length, ctx)))
diff --git a/jsonclasses/modifiers/random_digits_modifier.py b/jsonclasses/modifiers/random_digits_modifier.py
index e3f2c90..1141e89 100644
--- a/jsonclasses/modifiers/random_digits_modifier.py
+++ b/jsonclasses/modifiers/random_digits_modifier.py
@@ -1,7 +1,7 @@
 """module for random digits modifier."""
 from __future__ import annotations
 from typing import Any, TYPE_CHECKING, Callable
-from random import sample
+from random import choices
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -16,4 +16,4 @@ class RandomDigitsModifier(Modifier):
 
     def transform(self, ctx: Ctx) -> Any:
         digits = '0123456789'
-        return ''.join(sample(digits, self.resolve_param(self.length, ctx)))
+        return ''.join(choices(digits, k=self.resolve_param(self.length, ctx)))
-- 
2.43.0


From 0091844c30d37afea6f3f7293cecacc254304db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:27 +0000
Subject: [PATCH 62/62] fix: a class name in isobjof is looked up in the graph
 of each object

---
 jsonclasses/modifiers/isobjof_modifier.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/modifiers/isobjof_modifier.py b/jsonclasses/modifiers/isobjof_modifier.py
index ea9caee..e1321d7 100644
--- a/jsonclasses/modifiers/isobjof_modifier.py
+++ b/jsonclasses/modifiers/isobjof_modifier.py
@@ -15,7 +15,8 @@ class IsObjOfModifier(Modifier):
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
             ctx.raise_vexc('none is not object of a class')
-        if type(self.cls) is str:
-            self.cls = ctx.owner.__class__.cdef.jconf.cgraph.fetch(self.cls).cls
-        if not isinstance(ctx.val, self.cls):
-            ctx.raise_vexc(f'value is not instance of {self.cls.__name__}')
+        cls = self.cls
+        if type(cls) is str:
+            cls = ctx.owner.__class__.cdef.jconf.cgraph.fetch(cls).cls
+        if not isinstance(ctx.val, cls):
+            ctx.raise_vexc(f'value is not instance of {cls.__name__}')
-- 
2.43.0

