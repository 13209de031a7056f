From 19f60e60db14c400584c3b728ef47e65bd5102cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 01/65] fix: try the members of a Union in the order of that
 very Union

get_union_params was cached by equality, but Union[int, str] equals
Union[str, int], so the second one seen during a call was tried in the order of
the first.
---
 jsons/_compatibility_impl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 2e4bdbd..b13795d 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -49,8 +49,9 @@ def tuple_with_ellipsis(tup: type) -> bool:
     return use_el
 
 
-@cached
 def get_union_params(un: type) -> list:
+    # Do not cache this: unions that only differ in the order of their
+    # parameters are equal, but they must be tried in their own order.
     # Python3.5: Unions have __union_params__
     # Python3.7: Unions have __args__
     return getattr(un, '__union_params__', getattr(un, '__args__', None))
-- 
2.43.0


From 8f024d6c78a678aa8ac309300142457674d2f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 02/65] fix: do not remove the stored keys from the given dict
 when loading it

Loading a dict with hashed keys emptied its '-keys' section, so the same source
could not be loaded a second time.
---
 jsons/deserializers/default_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 1bf7a5d..47cc507 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -46,7 +46,8 @@ def _load_hashed_keys(
                                        'the form Dict[<type>, <type>] to '
                                        'deserialize a dict with hashed keys.',
                                        obj, cls)
-        result = {**obj}
+        # Copy the stored keys as well; the given obj must remain untouched.
+        result = {**obj, '-keys': {**obj['-keys']}}
         key_type = cls_args[0]
         for key in stored_keys:
             # Get the original (unhashed) key and load it.
-- 
2.43.0


From 6848100e10b3abb0fccdda66c829d2f1269be300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 03/65] fix: keep every entry of a dict that has hashed keys

Keys with equal hashes overwrote each other, a stripped null left its key behind
in '-keys' (which then failed to load), a key transformer was applied to keys
that are no strings, and unhashed keys next to hashed ones were not loaded.
---
 jsons/deserializers/default_dict.py | 34 ++++++++++++++++++-----------
 jsons/serializers/default_dict.py   | 25 ++++++++++++---------
 2 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 47cc507..012eba5 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -23,20 +23,21 @@ def default_dict_deserializer(
     """
     cls_args = get_args(cls)
 
-    obj_, keys_were_hashed = _load_hashed_keys(
+    obj_, hashed_keys = _load_hashed_keys(
         obj, cls, cls_args, key_transformer=key_transformer, **kwargs)
 
-    return _deserialize(obj_, cls_args, key_transformer, keys_were_hashed, kwargs)
+    return _deserialize(obj_, cls_args, key_transformer, hashed_keys, kwargs)
 
 
 def _load_hashed_keys(
         obj: dict,
         cls: type,
         cls_args: tuple,
-        **kwargs) -> Tuple[dict, bool]:
+        **kwargs) -> Tuple[dict, set]:
     # Load any hashed keys and return a copy of the given obj if any hashed
-    # keys are unpacked.
+    # keys are unpacked, along with the set of keys that were unpacked.
     result = obj
+    loaded_keys = set()
 
     stored_keys = set(obj.get('-keys', set()))
     if stored_keys:
@@ -53,6 +54,7 @@ def _load_hashed_keys(
             # Get the original (unhashed) key and load it.
             original_key = result['-keys'][key]
             loaded_key = load(original_key, cls=key_type, **kwargs)
+            loaded_keys.add(loaded_key)
 
             # Replace the hashed key by the loaded key entirely.
             result[loaded_key] = result[key]
@@ -60,28 +62,34 @@ def _load_hashed_keys(
             del result[key]
 
         del result['-keys']
-    return result, len(stored_keys) > 0
+    return result, loaded_keys
 
 
 def _deserialize(
         obj: dict,
         cls_args: tuple,
         key_transformer: Callable[[str], str],
-        keys_were_hashed: bool,
+        hashed_keys: set,
         kwargs: dict) -> dict:
     key_transformer = key_transformer or (lambda key: key)
-    key_func = key_transformer
     kwargs_ = {**kwargs, 'key_transformer': key_transformer}
+    kwargs_k = None
 
     if len(cls_args) == 2:
         cls_k, cls_v = cls_args
         kwargs_['cls'] = cls_v
-        if not keys_were_hashed:
-            # In case of cls is something like Dict[<key>, <value>], we need to
-            # ensure that the keys in the result are <key>. If the keys were
-            # hashed though, they have been loaded already.
-            kwargs_k = {**kwargs, 'cls': cls_k}
-            key_func = lambda key: load(key_transformer(key), **kwargs_k)
+        # In case of cls is something like Dict[<key>, <value>], we need to
+        # ensure that the keys in the result are <key>.
+        kwargs_k = {**kwargs, 'cls': cls_k}
+
+    def key_func(key: object) -> object:
+        if key in hashed_keys:
+            # If the keys were hashed though, they have been loaded already.
+            return key
+        if isinstance(key, str):
+            key = key_transformer(key)
+        return load(key, **kwargs_k) if kwargs_k else key
+
     return {
         key_func(key): load(obj[key], **kwargs_)
         for key in obj
diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 3f04af1..18e8075 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -37,15 +37,6 @@ def default_dict_serializer(
         obj_ = obj[key]
         cls_ = types.get(key, None)
 
-        # If key is not a valid json type, use the hash as key and store the
-        # original key in a separate section.
-        dict_and_key = _store_and_hash(result, key,
-                                       key_transformer=key_transformer,
-                                       strip_nulls=strip_nulls, strict=strict,
-                                       types=types, **kwargs)
-        if dict_and_key:
-            result, key = dict_and_key
-
         dumped_elem = dump(obj_,
                            cls=cls_,
                            key_transformer=key_transformer,
@@ -53,7 +44,17 @@ def default_dict_serializer(
                            strict=strict,
                            **kwargs)
         if not (strip_nulls and dumped_elem is None):
-            if key_transformer:
+            # If key is not a valid json type, use the hash as key and store
+            # the original key in a separate section.
+            dict_and_key = _store_and_hash(result, key, obj,
+                                           key_transformer=key_transformer,
+                                           strip_nulls=strip_nulls,
+                                           strict=strict,
+                                           types=types, **kwargs)
+            if dict_and_key:
+                result, key = dict_and_key
+
+            if key_transformer and isinstance(key, str):
                 key = key_transformer(key)
             result[key] = dumped_elem
     return result
@@ -62,6 +63,7 @@ def default_dict_serializer(
 def _store_and_hash(
         obj: dict,
         key: object,
+        source: dict,
         **kwargs
 ) -> Optional[Tuple[dict, int]]:
     # Store the given key in the given dict under a special section if that
@@ -76,6 +78,9 @@ def _store_and_hash(
             key_hash = hash(key)
             obj_ = {**obj}
             obj_.setdefault('-keys', {})
+            while key_hash in obj_ or key_hash in source:
+                # Different keys may have equal hashes.
+                key_hash += 1
             obj_['-keys'][key_hash] = dumped_key
             result = obj_, key_hash
     return result
-- 
2.43.0


From 6f25bac236dd5a170d72e124abbf9ecd6b156df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 04/65] fix: dump the minutes of a negative offset correctly

The modulo of a negative number made e.g. -03:20 come out as -03:40.
---
 jsons/_datetime_impl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 575d9a6..fae0a1c 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -86,9 +86,9 @@ def _timedelta_offset_str(tdelta: timedelta) -> str:
     :return: the offset for ``tdelta``.
     """
     offset_s = tdelta.total_seconds()
-    offset_h = int(offset_s / 3600)
-    offset_m = int((offset_s / 60) % 60)
-    offset_t = time(abs(offset_h), abs(offset_m))
+    offset_h = int(abs(offset_s) / 3600)
+    offset_m = int((abs(offset_s) / 60) % 60)
+    offset_t = time(offset_h, offset_m)
     operator = '+' if offset_s > 0 else '-'
     offset = offset_t.strftime('{}%H:%M'.format(operator))
     return offset
-- 
2.43.0


From 0281365beee0ea0925656c6e3189cb1724ae89cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 05/65] fix: dump years before 1000 with four digits

On Linux, strftime does not pad %Y, so date(1, 2, 3) was dumped as '1-02-03',
which is not RFC3339 and could not be loaded again.
---
 jsons/_datetime_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index fae0a1c..72b279c 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -20,6 +20,9 @@ def to_str(
     offset = get_offset_str(dt, fork_inst)
     if not strip_microseconds and getattr(dt, 'microsecond', None):
         pattern += '.%f'
+    if '%Y' in pattern:
+        # Not every platform pads the year, but RFC3339 requires 4 digits.
+        pattern = pattern.replace('%Y', '{:04d}'.format(dt.year))
     return dt.strftime("{}{}".format(pattern, offset))
 
 
-- 
2.43.0


From 460f45e1603fb2fba5686f29859c32b17c11bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 06/65] fix: dump a datetime without tzinfo with the local
 offset

Every timezone instance has an attribute utc that is timezone.utc, so +00:00 was
always used, although such datetimes are documented to be local times.
---
 jsons/_datetime_impl.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 72b279c..f5865e3 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -71,8 +71,12 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
         fork_inst._warn('The use of datetimes without timezone is dangerous '
                         'and can lead to undesired results.',
                         'datetime-without-tz')
-        tzone = datetime.now(timezone.utc).astimezone().tzinfo
-        if tzone is timezone.utc or tzone.utc is timezone.utc:
+        try:
+            tzone = obj.astimezone().tzinfo
+        except (OverflowError, ValueError):
+            # The local offset cannot be determined at the edges of time.
+            tzone = datetime.now(timezone.utc).astimezone().tzinfo
+        if not tzone.utcoffset(None):
             return '+00:00'
     offset = 'Z'
     if tzone.tzname(None) not in ('UTC', 'UTC+00:00'):
-- 
2.43.0


From 0ea9ccecd7b4fc6e7ad5ee2c9c1ecb27fb4f3b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 07/65] fix: load a time with microseconds

Such times were dumped with a fraction that the deserializer did not accept.
---
 jsons/deserializers/default_time.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_time.py b/jsons/deserializers/default_time.py
index 988d1f3..0dd8c21 100644
--- a/jsons/deserializers/default_time.py
+++ b/jsons/deserializers/default_time.py
@@ -13,4 +13,7 @@ def default_time_deserializer(obj: str,
     :param kwargs: not used.
     :return: a ``datetime.time`` instance.
     """
-    return get_datetime_inst(obj, RFC3339_TIME_PATTERN).time()
+    pattern = RFC3339_TIME_PATTERN
+    if '.' in obj:
+        pattern += '.%f'
+    return get_datetime_inst(obj, pattern).time()
-- 
2.43.0


From 41effcb228d165c456bbd0258e49804e6559b948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 08/65] fix: load objects with a -meta section that holds no
 class info

A dump with Verbosity.WITH_DUMP_TIME could not be loaded: a bare KeyError was
raised. A malformed -meta section now raises a DeserializationError.
---
 jsons/_common_impl.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 7e17359..180f8b4 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -11,7 +11,11 @@ from typing import Callable, Optional, Tuple, TypeVar, Any
 
 from jsons._cache import cached
 from jsons._compatibility_impl import get_union_params
-from jsons.exceptions import UnknownClassError
+from jsons.exceptions import (
+    DeserializationError,
+    JsonsError,
+    UnknownClassError
+)
 
 NoneType = type(None)
 JSON_KEYS = (str, int, float, bool, NoneType)
@@ -121,9 +125,20 @@ def get_cls_and_meta(
         json_obj: object,
         fork_inst: type) -> Tuple[Optional[type], Optional[dict]]:
     if isinstance(json_obj, dict) and META_ATTR in json_obj:
-        cls_str = json_obj[META_ATTR]['classes']['/']
-        cls = get_cls_from_str(cls_str, json_obj, fork_inst)
-        return cls, json_obj[META_ATTR]
+        meta = json_obj[META_ATTR]
+        cls = None
+        try:
+            # There may be no class info at all (e.g. only a dump time).
+            cls_str = meta.get('classes', {}).get('/', None)
+            if cls_str:
+                cls = get_cls_from_str(cls_str, json_obj, fork_inst)
+        except JsonsError:
+            raise
+        except Exception as err:
+            raise DeserializationError(
+                'Invalid {} section: {}'.format(META_ATTR, err),
+                json_obj, None) from err
+        return cls, meta
     return None, None
 
 
-- 
2.43.0


From 93071b0b6384dbcf122a11a4430d8056981a538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 09/65] fix: raise a DeserializationError if bytes or a string
 cannot be decoded

loadb raised a bare UnicodeDecodeError on invalid bytes, and loads a bare
RecursionError or ValueError on JSON that is nested too deeply or that holds an
integer with too many digits.
---
 jsons/_load_impl.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 724cdf2..32c7ec0 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -151,6 +151,11 @@ def loads(
     except JSONDecodeError as err:
         raise DecodeError('Could not load a dict; the given string is not '
                           'valid JSON.', str_, cls, err) from err
+    except (RecursionError, ValueError) as err:
+        # E.g. too deeply nested or an integer with too many digits.
+        raise DeserializationError('Could not load a dict; the given string '
+                                   'cannot be decoded. {}'.format(err),
+                                   str_, cls) from err
     else:
         return load(obj, cls, *args, **kwargs)
 
@@ -181,7 +186,11 @@ def loadb(
         raise DeserializationError('loadb accepts bytes only, "{}" was given'
                                    .format(type(bytes_)), bytes_, cls)
     jdkwargs = jdkwargs or {}
-    str_ = bytes_.decode(encoding=encoding)
+    try:
+        str_ = bytes_.decode(encoding=encoding)
+    except UnicodeDecodeError as err:
+        raise DeserializationError('Could not decode the given bytes. {}'
+                                   .format(err), bytes_, cls) from err
     return loads(str_, cls, jdkwargs=jdkwargs, *args, **kwargs)
 
 
-- 
2.43.0


From 267673b40a76ef0fc3c10568c1a4ff8e6016dabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 10/65] fix: give a fork its own validators and announced
 classes

They were shared with the parent, so setting a validator on a fork also
validated loads that did not use that fork.
---
 jsons/_fork_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/_fork_impl.py b/jsons/_fork_impl.py
index 6fd22b1..a8cb91c 100644
--- a/jsons/_fork_impl.py
+++ b/jsons/_fork_impl.py
@@ -32,6 +32,9 @@ def fork(
     result._classes_deserializers = fork_inst._classes_deserializers.copy()
     result._serializers = fork_inst._serializers.copy()
     result._deserializers = fork_inst._deserializers.copy()
+    result._validators = fork_inst._validators.copy()
+    result._classes_validators = fork_inst._classes_validators.copy()
+    result._announced_classes = fork_inst._announced_classes.copy()
     result._fork_counter = 0
     result._suppress_warnings = fork_inst._suppress_warnings
     result._suppressed_warnings = fork_inst._suppressed_warnings.copy()
-- 
2.43.0


From 6e3704dd2c96f845c4c33ec1b0a04cdfc893ac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 11/65] fix: let (de)serializers, validators and announcements
 take effect at once

The lookups are cached and the cache was only cleared at the end of an initial
dump or load, so e.g. get_serializer or a load that returns its input as is
could leave a stale entry behind that hid a later registration. Also publish the
function before the class that refers to it, as another thread may be looking.
---
 jsons/_cache.py       | 11 +++++++++--
 jsons/_extra_impl.py  |  2 --
 jsons/_lizers_impl.py |  8 +++++---
 jsons/_validation.py  |  3 ++-
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/jsons/_cache.py b/jsons/_cache.py
index 0978e24..a56404f 100644
--- a/jsons/_cache.py
+++ b/jsons/_cache.py
@@ -14,15 +14,21 @@ class _Wrapper:
     for a single point from which cache can be cleared.
     """
     instances = deque([])
+    generation = object()
 
     def __init__(self, wrapped):
         self.wrapped = wrapped
         self.instances.append(self)
 
     @lru_cache(typed=True)
-    def __call__(self, *args, **kwargs):
+    def _call(self, generation, *args, **kwargs):
         return self.wrapped(*args, **kwargs)
 
+    def __call__(self, *args, **kwargs):
+        # A result that another thread is still computing while the cache is
+        # cleared, must not be used after that.
+        return self._call(_Wrapper.generation, *args, **kwargs)
+
 
 def cached(decorated: Callable):
     """
@@ -42,5 +48,6 @@ def clear():
     Clear all cache of functions that were cached using ``cached``.
     :return: None.
     """
+    _Wrapper.generation = object()
     for w in _Wrapper.instances:
-        w.__call__.cache_clear()
+        w._call.cache_clear()
diff --git a/jsons/_extra_impl.py b/jsons/_extra_impl.py
index fa2e038..07594d3 100644
--- a/jsons/_extra_impl.py
+++ b/jsons/_extra_impl.py
@@ -6,7 +6,6 @@ jsons.
 """
 from typing import Optional
 
-from jsons._cache import cached
 from jsons._common_impl import StateHolder, get_class_name
 
 
@@ -35,7 +34,6 @@ def suppress_warning(
     fork_inst._suppressed_warnings |= {code}
 
 
-@cached
 def announce_class(
         cls: type,
         cls_name: Optional[str] = None,
diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 749a3dc..2cd02a7 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -6,7 +6,7 @@ deserializers.
 """
 from typing import Optional, Dict, Sequence, Union
 
-from jsons._cache import cached
+from jsons._cache import cached, clear
 from jsons._common_impl import StateHolder, get_class_name
 from jsons._compatibility_impl import get_naked_class
 
@@ -39,11 +39,12 @@ def set_serializer(
             set_serializer(func, cls_, high_prio, fork_inst)
     elif cls:
         index = 0 if high_prio else len(fork_inst._classes_serializers)
-        fork_inst._classes_serializers.insert(index, cls)
         cls_name = get_class_name(cls, fully_qualified=True)
         fork_inst._serializers[cls_name.lower()] = func
+        fork_inst._classes_serializers.insert(index, cls)
     else:
         fork_inst._serializers['nonetype'] = func
+    clear()
 
 
 def set_deserializer(
@@ -75,11 +76,12 @@ def set_deserializer(
             set_deserializer(func, cls_, high_prio, fork_inst)
     elif cls:
         index = 0 if high_prio else len(fork_inst._classes_deserializers)
-        fork_inst._classes_deserializers.insert(index, cls)
         cls_name = get_class_name(cls, fully_qualified=True)
         fork_inst._deserializers[cls_name.lower()] = func
+        fork_inst._classes_deserializers.insert(index, cls)
     else:
         fork_inst._deserializers['nonetype'] = func
+    clear()
 
 
 @cached
diff --git a/jsons/_validation.py b/jsons/_validation.py
index 6512e46..c2e8b57 100644
--- a/jsons/_validation.py
+++ b/jsons/_validation.py
@@ -5,7 +5,7 @@ This module contains functionality for validating objects.
 """
 from typing import Union, Sequence, Callable
 
-from jsons._cache import cached
+from jsons._cache import cached, clear
 from jsons._common_impl import StateHolder, get_class_name
 from jsons._lizers_impl import _get_lizer
 from jsons.exceptions import ValidationError
@@ -33,6 +33,7 @@ def set_validator(
         cls_name = get_class_name(cls, fully_qualified=True)
         fork_inst._validators[cls_name.lower()] = func
         fork_inst._classes_validators.append(cls)
+        clear()
 
 
 @cached
-- 
2.43.0


From 7929bebde3967acc598e47bff6695e0459699cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 12/65] fix: dump attributes that share a name with one of
 JsonSerializable

An attribute named e.g. json, load, dump or fork was silently left out of the
dump of any object, even if its class does not inherit from JsonSerializable.
---
 jsons/serializers/default_object.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 92cc570..d1c0d32 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -230,7 +230,9 @@ def _filter_attributes(
         strip_attr: tuple) -> Dict[str, Optional[type]]:
     # Filter the given attributes with the given preferences.
     strip_attr = strip_attr + _ABC_ATTRS
-    excluded_elems = dir(JsonSerializable)
+    # The attributes of JsonSerializable are only special to its subclasses.
+    excluded_elems = (dir(JsonSerializable)
+                      if issubclass(cls, StateHolder) else ())
     props, other_cls_vars = _get_class_props(cls)
 
     return {attr: type_ for attr, type_ in attributes.items()
@@ -239,7 +241,6 @@ def _filter_attributes(
             and not (strip_properties and attr in props)
             and not (strip_class_variables and attr in other_cls_vars)
             and attr not in strip_attr
-            and attr != 'json'
             and not inspect.ismethod(getattr(cls, attr, None))
             and not isfunction(getattr(cls, attr, None))
             and attr not in excluded_elems
-- 
2.43.0


From 124541728ba406f81c95d6a4bd62d3e21bf63c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 13/65] fix: use an attr_getter only for an attribute that has
 no value yet

Every attr_getter was called and set once more after the instance was created.
This overrode values that were present in the source and failed on instances of
frozen classes.
---
 jsons/deserializers/default_object.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index cb41e84..e8806d5 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -41,7 +41,8 @@ def default_object_deserializer(
     remaining_attrs = _get_remaining_args(obj, cls, constructor_args,
                                           strict, kwargs['fork_inst'])
     instance = cls(**constructor_args)
-    _set_remaining_attrs(instance, remaining_attrs, **kwargs)
+    _set_remaining_attrs(instance, remaining_attrs,
+                         {*constructor_args, *remaining_attrs}, **kwargs)
     return instance
 
 
@@ -143,6 +144,7 @@ def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
 
 def _set_remaining_attrs(instance,
                          remaining_attrs,
+                         known_attrs,
                          attr_getters,
                          **kwargs):
     # Set any remaining attributes on the newly created instance.
@@ -168,7 +170,8 @@ def _set_remaining_attrs(instance,
         except AttributeError:
             pass  # This is raised when a @property does not have a setter.
     for attr_name, getter in attr_getters.items():
-        setattr(instance, attr_name, getter())
+        if attr_name not in known_attrs:
+            setattr(instance, attr_name, getter())
 
 
 def _check_and_transform_keys(obj: dict,
-- 
2.43.0


From 711eb1d2077ee57dde9bd645fc84745216952d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 14/65] fix: only ignore the attribute that failed to be dumped

In non-strict mode every attribute after a failing one was left out as well, and
an exception without arguments caused an IndexError.
---
 jsons/serializers/default_object.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index d1c0d32..249ea59 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -130,15 +130,16 @@ def _do_serialize(
                                      **kwargs)
             _store_cls_info(dumped_elem, attr, kwargs)
         except Exception as err:
+            reason = err.args[0] if err.args else repr(err)
             if strict:
-                raise SerializationError(message=err.args[0]) from err
+                raise SerializationError(message=reason) from err
             else:
                 fork_inst._warn('Failed to dump attribute "{}" of object of '
                                 'type "{}". Reason: {}. Ignoring the '
                                 'attribute.'
-                                .format(attr, get_class_name(cls), err.args[0]),
+                                .format(attr_name, get_class_name(cls), reason),
                                 'attribute-not-serialized')
-                break
+                continue
 
         if make_attributes_public:
             attr_name = attr_name.lstrip('_')
-- 
2.43.0


From 66373b886b5a9a35b0c2d597c4219ed2a8be1a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 15/65] fix: pass the key_transformer to the elements of a
 tuple and check its length

The key_transformer was consumed by the deserializer of tuples, and a list with
too few elements was accepted as e.g. a Tuple[int, str].
---
 jsons/deserializers/default_tuple.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 2f51905..1c0ed79 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -6,7 +6,7 @@ from jsons._common_impl import NoneType
 from jsons._compatibility_impl import (get_type_hints, get_union_params,
                                        tuple_with_ellipsis)
 from jsons._load_impl import load
-from jsons.exceptions import UnfulfilledArgumentError
+from jsons.exceptions import DeserializationError, UnfulfilledArgumentError
 
 
 def default_tuple_deserializer(obj: list,
@@ -24,11 +24,16 @@ def default_tuple_deserializer(obj: list,
     """
     if hasattr(cls, '_fields'):
         return default_namedtuple_deserializer(obj, cls, key_transformer=key_transformer, **kwargs)
+    kwargs['key_transformer'] = key_transformer
     cls_args = get_args(cls)
     if cls_args:
         tuple_types = getattr(cls, '__tuple_params__', cls_args)
         if tuple_with_ellipsis(cls):
             tuple_types = [tuple_types[0]] * len(obj)
+        if len(obj) != len(tuple_types):
+            raise DeserializationError(
+                'Expected {} elements for {}, got {}'
+                .format(len(tuple_types), cls, len(obj)), obj, cls)
         list_ = [load(value, tuple_types[i], **kwargs)
                  for i, value in enumerate(obj)]
     else:
-- 
2.43.0


From 5652bce06ad28554c964ecf611bb5a830110c3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 16/65] fix: let the decorators map keyword arguments and *args

Arguments that were passed by keyword reached the decorated function without
being loaded or dumped, and more positional arguments than named parameters
caused an IndexError.
---
 jsons/decorators.py | 62 +++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 0a4e987..4f210af 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -136,28 +136,39 @@ def _get_async_wrapper(
     return _async_wrapper
 
 
-def _get_params_sig(args, func):
-    sig = signature(func)
-    params = sig.parameters
-    param_names = [param_name for param_name in params]
-    result = [(args[i], params[param_names[i]]) for i in range(len(args))]
-    return result
-
-
-def _map_args(args, decorated, fork_inst, mapper, mapper_kwargs):
-    params_sig = _get_params_sig(args, decorated)
-    new_args = []
-    for arg, sig in params_sig:
-        if sig.name in ('self', 'cls') and hasattr(arg, decorated.__name__):
-            # `decorated` is a method and arg is either `self` or `cls`.
-            new_arg = arg
-        else:
-            cls = sig.annotation if sig.annotation != Parameter.empty else None
-            new_arg = mapper(arg, cls=cls, fork_inst=fork_inst,
-                             **mapper_kwargs)
-
-        new_args.append(new_arg)
-    return new_args
+def _get_params_sig(args, kwargs, func):
+    # Pair every argument with the parameter that it is bound to (or None).
+    params = signature(func).parameters.values()
+    positional = [p for p in params if p.kind in
+                  (Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD)]
+    by_name = {p.name: p for p in params if p.kind in
+               (Parameter.POSITIONAL_OR_KEYWORD, Parameter.KEYWORD_ONLY)}
+    by_kind = {p.kind: p for p in params}
+    args_sig = [(arg, positional[i] if i < len(positional)
+                 else by_kind.get(Parameter.VAR_POSITIONAL))
+                for i, arg in enumerate(args)]
+    kwargs_sig = {
+        name: (kwargs[name],
+               by_name.get(name, by_kind.get(Parameter.VAR_KEYWORD)))
+        for name in kwargs
+    }
+    return args_sig, kwargs_sig
+
+
+def _map_args(args, kwargs, decorated, fork_inst, mapper, mapper_kwargs):
+    def _map_arg(arg, sig):
+        if sig is None or (sig.name in ('self', 'cls')
+                           and hasattr(arg, decorated.__name__)):
+            # `decorated` is a method and arg is either `self` or `cls` or
+            # `decorated` does not accept arg and will raise.
+            return arg
+        cls = sig.annotation if sig.annotation != Parameter.empty else None
+        return mapper(arg, cls=cls, fork_inst=fork_inst, **mapper_kwargs)
+
+    args_sig, kwargs_sig = _get_params_sig(args, kwargs, decorated)
+    new_args = [_map_arg(*arg_sig) for arg_sig in args_sig]
+    new_kwargs = {name: _map_arg(*kwargs_sig[name]) for name in kwargs_sig}
+    return new_args, new_kwargs
 
 
 def _map_returnvalue(returnvalue, decorated, fork_inst, mapper, mapper_kwargs):
@@ -168,10 +179,11 @@ def _map_returnvalue(returnvalue, decorated, fork_inst, mapper, mapper_kwargs):
 
 
 def _run_decorated(decorated, mapper, fork_inst, args, kwargs, mapper_kwargs):
-    new_args = args
+    new_args, new_kwargs = args, kwargs
     if mapper:
-        new_args = _map_args(args, decorated, fork_inst, mapper, mapper_kwargs)
-    result = decorated(*new_args, **kwargs)
+        new_args, new_kwargs = _map_args(args, kwargs, decorated, fork_inst,
+                                         mapper, mapper_kwargs)
+    result = decorated(*new_args, **new_kwargs)
     return result
 
 
-- 
2.43.0


From 085d2f5d3d8aeb55cf08c54b598c44e923d29fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 17/65] fix: let JsonSerializable.with_dump use the serializers
 of its own fork

The dump method it sets ignored serializers that were set on the class, unlike
the regular dump method and with_load.
---
 jsons/classes/json_serializable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/classes/json_serializable.py b/jsons/classes/json_serializable.py
index 4e84d70..da9125a 100644
--- a/jsons/classes/json_serializable.py
+++ b/jsons/classes/json_serializable.py
@@ -52,7 +52,8 @@ class JsonSerializable(StateHolder):
         """
 
         def _wrapper(inst, **kwargs_):
-            return dump(inst, **{**kwargs_, **kwargs})
+            return dump(inst, **{'fork_inst': inst.__class__,
+                                 **kwargs_, **kwargs})
 
         type_ = cls.fork() if fork else cls
         type_.dump = _wrapper
-- 
2.43.0


From cda5378f097a62e54aabebff9de4ea215f4083c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 18/65] fix: do not cast elements to the type of the first one
 in a strict dump

In strict mode without a cls, every element of a list or tuple was dumped as if
it were of the type of the first: [1, 2.5] became [1, 2] and [1, 'a'] failed. A
deque, or a tuple with tuple as its cls, could not be dumped in strict mode.
---
 jsons/_compatibility_impl.py          | 3 ++-
 jsons/serializers/default_iterable.py | 7 ++++---
 jsons/serializers/default_list.py     | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index b13795d..bbe73d6 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -45,7 +45,8 @@ def tuple_with_ellipsis(tup: type) -> bool:
     # Python3.7: Tuples have __args__
     use_el = getattr(tup, '__tuple_use_ellipsis__', None)
     if use_el is None:
-        use_el = tup.__args__[-1] is ...
+        args = getattr(tup, '__args__', None)
+        use_el = bool(args) and args[-1] is ...
     return use_el
 
 
diff --git a/jsons/serializers/default_iterable.py b/jsons/serializers/default_iterable.py
index c765f07..5574525 100644
--- a/jsons/serializers/default_iterable.py
+++ b/jsons/serializers/default_iterable.py
@@ -2,7 +2,7 @@ from collections.abc import Iterable
 from multiprocessing import Process
 from typing import Tuple, Optional
 
-from typish import get_args, get_type
+from typish import get_args
 
 from jsons._dump_impl import dump
 from jsons._multitasking import multi_task
@@ -76,6 +76,7 @@ def _do_dump(obj_cls_tuple: Tuple[object, type], *args, **kwargs):
 def _determine_cls(obj: Iterable, cls: Optional[type]) -> Optional[type]:
     cls_ = cls
     if not cls and hasattr(obj, '__getitem__') and len(obj) > 0:
-        obj_with_only_one_elem = obj.__getitem__(slice(0, 1))
-        cls_ = get_type(obj_with_only_one_elem)
+        elem_type = type(next(iter(obj)))
+        if all(isinstance(elem, elem_type) for elem in obj):
+            cls_ = Tuple[elem_type]
     return cls_
diff --git a/jsons/serializers/default_list.py b/jsons/serializers/default_list.py
index fbf6128..4071a6d 100644
--- a/jsons/serializers/default_list.py
+++ b/jsons/serializers/default_list.py
@@ -41,7 +41,7 @@ def default_list_serializer(
     if cls_args:
         inner_type = cls_args[0]
         serializer = get_serializer(inner_type, fork_inst)
-    elif strict:
+    elif strict and all(isinstance(elem, type(obj[0])) for elem in obj):
         inner_type = type(obj[0])
         serializer = get_serializer(inner_type, fork_inst)
 
-- 
2.43.0


From da54bc94c53e9301245d90b21ff3f29ecb6365a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 19/65] fix: report the failures of tasks when loading or
 dumping in parallel

An error in a task was lost and left a 0 in the result. Now it is raised (or
warned about, with warn_on_fail) like it is without tasks. Also, an empty list
caused a ZeroDivisionError and the fork_inst and task_type were not passed on.
---
 jsons/_multitasking.py                | 43 +++++++++++++++++++++++----
 jsons/deserializers/default_list.py   | 33 +++++++++++++++-----
 jsons/exceptions.py                   | 11 +++++++
 jsons/serializers/default_iterable.py |  7 ++++-
 4 files changed, 79 insertions(+), 15 deletions(-)

diff --git a/jsons/_multitasking.py b/jsons/_multitasking.py
index b11ad1e..e4b3c23 100644
--- a/jsons/_multitasking.py
+++ b/jsons/_multitasking.py
@@ -4,10 +4,12 @@ PRIVATE MODULE: do not import (from) it directly.
 Functionality for processing iterables in parallel.
 """
 from multiprocessing import Process, Manager
-from typing import List, Callable, Union
+from typing import List, Callable, Optional, Tuple, Union
 
 from typish import Something
 
+from jsons.exceptions import DeserializationError, JsonsError
+
 Subscriptable = Something['__getitem__': Callable[[int], object]]
 
 
@@ -17,7 +19,21 @@ def multi_task(
         tasks: int,
         task_type: type,
         *args,
-        **kwargs):
+        **kwargs) -> List[Tuple[object, Optional[Exception]]]:
+    """
+    Call ``func`` upon every element of ``obj``, divided over the given number
+    of tasks.
+    :param func: the function that is to be called with each element.
+    :param obj: the elements.
+    :param tasks: the number of tasks.
+    :param task_type: the type of the tasks (e.g. Thread or Process).
+    :param args: any extra arguments for ``func``.
+    :param kwargs: any keyword arguments for ``func``.
+    :return: for every element the result of ``func`` and the error it raised.
+    """
+    if not len(obj):
+        return []
+    kwargs['task_type'] = task_type
     result = _get_list_to_fill(obj, task_type)
     tasks_instances = _start_tasks(tasks=tasks, task_type=task_type, func=func,
                                    list_to_fill=result, obj=obj, args=args,
@@ -25,12 +41,13 @@ def multi_task(
     for task in tasks_instances:
         task.join()
 
-    return list(result)
+    return result[:]
 
 
 def _get_list_to_fill(obj: list, task_type: type) -> Union[list, Manager]:
     # Return a list or manager that contains enough spots to fill.
-    result = [0] * len(obj)
+    not_done = (None, JsonsError('A task ended before it was done.'))
+    result = [not_done] * len(obj)
     if issubclass(task_type, Process):
         manager = Manager()
         result = manager.list(result)
@@ -78,5 +95,19 @@ def _fill(
         kwargs):
     # Fill the given list with results from func.
     for i_ in range(start, end):
-        loaded = func(obj[i_], tasks=tasks, *args, **kwargs)
-        list_to_fill[i_] = loaded
+        try:
+            loaded = func(obj[i_], tasks=tasks, *args, **kwargs)
+            list_to_fill[i_] = loaded, None
+        except Exception as err:
+            _set_error(list_to_fill, i_, err)
+
+
+def _set_error(list_to_fill: list, index: int, err: Exception):
+    try:
+        list_to_fill[index] = None, err
+    except Exception:
+        # Not every error can be sent to another process.
+        new_err = JsonsError(str(err))
+        if isinstance(err, DeserializationError):
+            new_err = DeserializationError(err.message, None, None)
+        list_to_fill[index] = None, new_err
diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index 6f3a880..d00cb42 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -41,7 +41,16 @@ def default_list_deserializer(
     if tasks == 1:
         result = _do_load(obj, cls_, warn_on_fail, fork_inst, kwargs_)
     elif tasks > 1:
-        result = multi_task(load, obj, tasks, task_type, cls_, **kwargs_)
+        result = []
+        loaded_elems = multi_task(load, obj, tasks, task_type, cls_,
+                                  fork_inst=fork_inst, **kwargs_)
+        for index, (loaded_elem, err) in enumerate(loaded_elems):
+            if not err:
+                result.append(loaded_elem)
+            elif isinstance(err, DeserializationError):
+                _handle_error(index, err, warn_on_fail, fork_inst)
+            else:
+                raise err
     else:
         raise JsonsError('Invalid number of tasks: {}'.format(tasks))
     return result
@@ -58,12 +67,20 @@ def _do_load(
         try:
             result.append(load(elem, cls=cls, tasks=1, fork_inst=fork_inst, **kwargs))
         except DeserializationError as err:
-            new_msg = ('Could not deserialize element at index %s. %s' %
-                       (index, err.message))
-            if warn_on_fail:
-                fork_inst._warn(new_msg, 'element-not-deserialized')
-            else:
-                new_err = DeserializationError(new_msg, err.source, err.target)
-                raise new_err from err
+            _handle_error(index, err, warn_on_fail, fork_inst)
 
     return result
+
+
+def _handle_error(
+        index: int,
+        err: DeserializationError,
+        warn_on_fail: bool,
+        fork_inst: Type[StateHolder]) -> None:
+    new_msg = ('Could not deserialize element at index %s. %s' %
+               (index, err.message))
+    if warn_on_fail:
+        fork_inst._warn(new_msg, 'element-not-deserialized')
+    else:
+        new_err = DeserializationError(new_msg, err.source, err.target)
+        raise new_err from err
diff --git a/jsons/exceptions.py b/jsons/exceptions.py
index fae7459..b4a6cf3 100644
--- a/jsons/exceptions.py
+++ b/jsons/exceptions.py
@@ -22,6 +22,17 @@ class JsonsError(Exception):
     def message(self):
         return self._message
 
+    def __reduce__(self):
+        # Allow errors to be pickled (e.g. to be sent to another process),
+        # regardless of the signature of their constructors.
+        return _create_error, (type(self), self.args, self.__dict__)
+
+
+def _create_error(cls: type, args: tuple, attributes: dict) -> JsonsError:
+    result = cls.__new__(cls, *args)
+    result.__dict__.update(attributes)
+    return result
+
 
 class ValidationError(JsonsError):
     """
diff --git a/jsons/serializers/default_iterable.py b/jsons/serializers/default_iterable.py
index 5574525..bad892e 100644
--- a/jsons/serializers/default_iterable.py
+++ b/jsons/serializers/default_iterable.py
@@ -44,7 +44,12 @@ def default_iterable_serializer(
                   for i, elem in enumerate(obj)]
     else:
         zipped_objs = list(zip(obj, subclasses))
-        result = multi_task(_do_dump, zipped_objs, tasks, task_type, **kwargs_)
+        result = []
+        for dumped, err in multi_task(_do_dump, zipped_objs, tasks, task_type,
+                                      **kwargs_):
+            if err:
+                raise err
+            result.append(dumped)
 
     return result
 
-- 
2.43.0


From fca6cddf8c78a3b35d578fce890fa36a91e5c2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 20/65] fix: load a NewType of a primitive

The instance check failed with a TypeError, as a NewType is not a class.
---
 jsons/deserializers/default_primitive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsons/deserializers/default_primitive.py b/jsons/deserializers/default_primitive.py
index 82c6f23..611e432 100644
--- a/jsons/deserializers/default_primitive.py
+++ b/jsons/deserializers/default_primitive.py
@@ -14,6 +14,7 @@ def default_primitive_deserializer(obj: object,
     :return: ``obj``.
     """
     result = obj
+    cls = getattr(cls, '__supertype__', cls)  # In case of a NewType.
     if obj is not None and not isinstance(obj, cls):
         try:
             result = cls(obj)
-- 
2.43.0


From a1a9e06d5190abcd7dd6ebf45ffd0e18cf3c7d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 21/65] fix: load named tuples with missing keys or with a None
 that is allowed

A dict that lacked a key other than the last ones failed, even if that field has
a default value. A default value was loaded as if it were a JSON value. None was
refused for fields of type Any or without any type.
---
 jsons/deserializers/default_tuple.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 1c0ed79..ff92a7f 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -2,9 +2,8 @@ from typing import Callable, Optional, Union
 
 from typish import get_args
 
-from jsons._common_impl import NoneType
-from jsons._compatibility_impl import (get_type_hints, get_union_params,
-                                       tuple_with_ellipsis)
+from jsons._common_impl import can_match_with_none
+from jsons._compatibility_impl import get_type_hints, tuple_with_ellipsis
 from jsons._load_impl import load
 from jsons.exceptions import DeserializationError, UnfulfilledArgumentError
 
@@ -63,13 +62,17 @@ def default_namedtuple_deserializer(
 
     args = []
     for index, field_name in enumerate(cls._fields):
-        if index < len(obj):
-            if is_dict:
-                field = tfm_obj[field_name]
-            else:
-                field = obj[index]
+        missing = False
+        if is_dict and field_name in tfm_obj:
+            field = tfm_obj[field_name]
+        elif not is_dict and index < len(obj):
+            field = obj[index]
+        elif field_name in cls._field_defaults:
+            args.append(cls._field_defaults[field_name])
+            continue
         else:
-            field = cls._field_defaults.get(field_name, None)
+            field = None
+            missing = True
 
         # _field_types has been deprecated in favor of __annotations__ in Python 3.8
         if hasattr(cls, '__annotations__'):
@@ -81,7 +84,7 @@ def default_namedtuple_deserializer(
 
         if field is None:
             hint = field_types.get(field_name)
-            if NoneType not in (get_union_params(hint) or []):
+            if not can_match_with_none(hint) or (missing and hint is None):
                 # The value 'None' is not permitted here.
                 msg = ('No value present in {} for argument "{}"'
                        .format(obj, field_name))
-- 
2.43.0


From 19c67446b1cd65fa94ff64bcefa30fa8bf204be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 22/65] fix: dump a timezone when its type is known

The offset was dumped as if it were a timezone, so timezone attributes with a
type hint were left out of the dump with a warning (or failed in strict mode).
---
 jsons/serializers/default_timezone.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_timezone.py b/jsons/serializers/default_timezone.py
index cd565b1..568dbb7 100644
--- a/jsons/serializers/default_timezone.py
+++ b/jsons/serializers/default_timezone.py
@@ -1,13 +1,17 @@
 from datetime import timezone
+from typing import Optional
 
 from jsons._dump_impl import dump
 
 
-def default_timezone_serializer(obj: timezone, **kwargs) -> dict:
+def default_timezone_serializer(obj: timezone,
+                                cls: Optional[type] = None,
+                                **kwargs) -> dict:
     """
     Serialize the given timezone instance to a dict holding the total
     seconds.
     :param obj: the timezone instance that is to be serialized.
+    :param cls: not used.
     :param kwargs: not used.
     :return: ``timezone`` as a dict.
     """
-- 
2.43.0


From 7e04f09339afb062a4b14dd06acc85af9409a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 23/65] fix: accept a list of names for strip_attr

---
 jsons/serializers/default_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 249ea59..47f6778 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -166,7 +166,7 @@ def _normalize_strip_attr(strip_attr) -> tuple:
     if (not isinstance(strip_attr, MutableSequence)
             and not isinstance(strip_attr, tuple)):
         strip_attr = (strip_attr,)
-    return strip_attr
+    return tuple(strip_attr)
 
 
 @cached
-- 
2.43.0


From 4a570b6d0d9d0e99cfa91b1e24c0d604fc204ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 24/65] fix: do not strip instance attributes as class
 variables

---
 jsons/serializers/default_object.py | 34 ++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 47f6778..72b5e88 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -1,6 +1,7 @@
 import inspect
 from datetime import datetime, timezone
 from inspect import isfunction
+from types import MemberDescriptorType
 from typing import Optional, Callable, Union, MutableSequence, Tuple, Dict
 
 from typish import get_type, get_mro
@@ -60,13 +61,13 @@ def default_object_serializer(
     strip_attr = _normalize_strip_attr(strip_attr)
     if cls and strict:
         attributes = _get_attributes_from_class(
-            cls, strip_privates, strip_properties, strip_class_variables,
-            strip_attr, strict)
+            cls, strip_privates, strip_properties, strip_attr, strict)
     else:
         attributes = _get_attributes_from_object(
-            obj, strip_privates, strip_properties, strip_class_variables,
-            strip_attr, strict)
+            obj, strip_privates, strip_properties, strip_attr, strict)
         cls = obj.__class__
+    if strip_class_variables:
+        attributes = _strip_class_variables(obj, cls, attributes)
 
     verbose = Verbosity.from_value(verbose)
     kwargs_ = {
@@ -174,21 +175,18 @@ def _get_attributes_from_class(
         cls: type,
         strip_privates: bool,
         strip_properties: bool,
-        strip_class_variables: bool,
         strip_attr: tuple,
         strict: bool) -> Dict[str, Optional[type]]:
     # Get the attributes that are known in the class.
     attributes_and_types = _get_attributes_and_types(cls, strict)
     return _filter_attributes(cls, attributes_and_types, strip_privates,
-                              strip_properties, strip_class_variables,
-                              strip_attr)
+                              strip_properties, strip_attr)
 
 
 def _get_attributes_from_object(
         obj: object,
         strip_privates: bool,
         strip_properties: bool,
-        strip_class_variables: bool,
         strip_attr: tuple,
         strict: bool) -> Dict[str, Optional[type]]:
     # Get the attributes that are known in the object.
@@ -197,8 +195,20 @@ def _get_attributes_from_object(
     attributes = {attr: attributes_and_types.get(attr, None)
                   for attr in dir(obj)}
     return _filter_attributes(cls, attributes, strip_privates,
-                              strip_properties, strip_class_variables,
-                              strip_attr)
+                              strip_properties, strip_attr)
+
+
+def _strip_class_variables(
+        obj: object,
+        cls: type,
+        attributes: Dict[str, Optional[type]]) -> Dict[str, Optional[type]]:
+    # Leave out the class variables. An attribute of the instance is no class
+    # variable, even if the class holds its default value or its slot.
+    _, class_vars = _get_class_props(cls)
+    return {attr: attributes[attr] for attr in attributes
+            if attr not in class_vars
+            or attr in getattr(obj, '__dict__', {})
+            or isinstance(getattr(cls, attr, None), MemberDescriptorType)}
 
 
 @cached
@@ -227,20 +237,18 @@ def _filter_attributes(
         attributes: Dict[str, Optional[type]],
         strip_privates: bool,
         strip_properties: bool,
-        strip_class_variables: bool,
         strip_attr: tuple) -> Dict[str, Optional[type]]:
     # Filter the given attributes with the given preferences.
     strip_attr = strip_attr + _ABC_ATTRS
     # The attributes of JsonSerializable are only special to its subclasses.
     excluded_elems = (dir(JsonSerializable)
                       if issubclass(cls, StateHolder) else ())
-    props, other_cls_vars = _get_class_props(cls)
+    props, _ = _get_class_props(cls)
 
     return {attr: type_ for attr, type_ in attributes.items()
             if not attr.startswith('__')
             and not (strip_privates and attr.startswith('_'))
             and not (strip_properties and attr in props)
-            and not (strip_class_variables and attr in other_cls_vars)
             and attr not in strip_attr
             and not inspect.ismethod(getattr(cls, attr, None))
             and not isfunction(getattr(cls, attr, None))
-- 
2.43.0


From dd9ec857dd4c2072e0780d3286e5825323d522b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 25/65] fix: dump a subclass instance in a strict list as what
 it is

---
 jsons/serializers/default_iterable.py | 2 +-
 jsons/serializers/default_list.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_iterable.py b/jsons/serializers/default_iterable.py
index bad892e..77086fb 100644
--- a/jsons/serializers/default_iterable.py
+++ b/jsons/serializers/default_iterable.py
@@ -82,6 +82,6 @@ def _determine_cls(obj: Iterable, cls: Optional[type]) -> Optional[type]:
     cls_ = cls
     if not cls and hasattr(obj, '__getitem__') and len(obj) > 0:
         elem_type = type(next(iter(obj)))
-        if all(isinstance(elem, elem_type) for elem in obj):
+        if all(type(elem) is elem_type for elem in obj):
             cls_ = Tuple[elem_type]
     return cls_
diff --git a/jsons/serializers/default_list.py b/jsons/serializers/default_list.py
index 4071a6d..99f7c70 100644
--- a/jsons/serializers/default_list.py
+++ b/jsons/serializers/default_list.py
@@ -41,7 +41,7 @@ def default_list_serializer(
     if cls_args:
         inner_type = cls_args[0]
         serializer = get_serializer(inner_type, fork_inst)
-    elif strict and all(isinstance(elem, type(obj[0])) for elem in obj):
+    elif strict and all(type(elem) is type(obj[0]) for elem in obj):
         inner_type = type(obj[0])
         serializer = get_serializer(inner_type, fork_inst)
 
-- 
2.43.0


From 0c5886881407850f0fd517f75f43f8ad189b23de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 26/65] fix: load any iterable source with multiple tasks, not
 just sequences

---
 jsons/deserializers/default_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index d00cb42..9bac826 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -42,7 +42,7 @@ def default_list_deserializer(
         result = _do_load(obj, cls_, warn_on_fail, fork_inst, kwargs_)
     elif tasks > 1:
         result = []
-        loaded_elems = multi_task(load, obj, tasks, task_type, cls_,
+        loaded_elems = multi_task(load, list(obj), tasks, task_type, cls_,
                                   fork_inst=fork_inst, **kwargs_)
         for index, (loaded_elem, err) in enumerate(loaded_elems):
             if not err:
-- 
2.43.0


From 9350509cb1fa9940caa51f1e792dca25ed53f381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 27/65] fix: let a registration of another thread take effect
 at once

---
 jsons/_fork_impl.py   |  4 ++--
 jsons/_lizers_impl.py | 28 +++++++++++++++++-----------
 jsons/_validation.py  |  2 +-
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/jsons/_fork_impl.py b/jsons/_fork_impl.py
index a8cb91c..23f9d53 100644
--- a/jsons/_fork_impl.py
+++ b/jsons/_fork_impl.py
@@ -28,10 +28,10 @@ def fork(
             fork_inst._fork_counter
         )
     result = type(class_name, (fork_inst,), {})
-    result._classes_serializers = fork_inst._classes_serializers.copy()
-    result._classes_deserializers = fork_inst._classes_deserializers.copy()
     result._serializers = fork_inst._serializers.copy()
     result._deserializers = fork_inst._deserializers.copy()
+    result._classes_serializers = fork_inst._classes_serializers.copy()
+    result._classes_deserializers = fork_inst._classes_deserializers.copy()
     result._validators = fork_inst._validators.copy()
     result._classes_validators = fork_inst._classes_validators.copy()
     result._announced_classes = fork_inst._announced_classes.copy()
diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 2cd02a7..0b05c12 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -40,8 +40,9 @@ def set_serializer(
     elif cls:
         index = 0 if high_prio else len(fork_inst._classes_serializers)
         cls_name = get_class_name(cls, fully_qualified=True)
-        fork_inst._serializers[cls_name.lower()] = func
+        # A class takes effect once it has a function, so that must be last.
         fork_inst._classes_serializers.insert(index, cls)
+        fork_inst._serializers[cls_name.lower()] = func
     else:
         fork_inst._serializers['nonetype'] = func
     clear()
@@ -77,8 +78,9 @@ def set_deserializer(
     elif cls:
         index = 0 if high_prio else len(fork_inst._classes_deserializers)
         cls_name = get_class_name(cls, fully_qualified=True)
-        fork_inst._deserializers[cls_name.lower()] = func
+        # A class takes effect once it has a function, so that must be last.
         fork_inst._classes_deserializers.insert(index, cls)
+        fork_inst._deserializers[cls_name.lower()] = func
     else:
         fork_inst._deserializers['nonetype'] = func
     clear()
@@ -121,8 +123,12 @@ def _get_lizer(
         fork_inst: type,
         recursive: bool = False) -> callable:
     cls_name = get_class_name(cls, str.lower, fully_qualified=True)
-    lizer = (lizers.get(cls_name, None)
-             or _get_lizer_by_parents(cls, lizers, classes_lizers, fork_inst))
+    lizer = lizers.get(cls_name, None)
+    if not lizer:
+        parents_lizer = _get_lizer_by_parents(cls, lizers, classes_lizers,
+                                              fork_inst)
+        # Another thread may have registered cls itself in the meantime.
+        lizer = lizers.get(cls_name, None) or parents_lizer
     if not lizer and not recursive and hasattr(cls, '__supertype__'):
         return _get_lizer(cls.__supertype__, lizers,
                           classes_lizers, fork_inst, True)
@@ -134,12 +140,12 @@ def _get_lizer_by_parents(
         lizers: Dict[str, callable],
         classes_lizers: list,
         fork_inst: type) -> callable:
-    result = None
-    parents = _get_parents(cls, classes_lizers)
-    if parents:
-        pname = get_class_name(parents[0], str.lower, fully_qualified=True)
-        result = lizers[pname]
-    return result
+    for parent in _get_parents(cls, classes_lizers):
+        pname = get_class_name(parent, str.lower, fully_qualified=True)
+        # Another thread may be about to register a function for the parent.
+        if pname in lizers:
+            return lizers[pname]
+    return None
 
 
 def _get_parents(cls: type, lizers: list) -> list:
@@ -152,7 +158,7 @@ def _get_parents(cls: type, lizers: list) -> list:
     """
     parents = []
     naked_cls = get_naked_class(cls)
-    for cls_ in lizers:
+    for cls_ in list(lizers):
         try:
             if issubclass(naked_cls, cls_):
                 parents.append(cls_)
diff --git a/jsons/_validation.py b/jsons/_validation.py
index c2e8b57..638229e 100644
--- a/jsons/_validation.py
+++ b/jsons/_validation.py
@@ -31,8 +31,8 @@ def set_validator(
             set_validator(func, cls=cls_, fork_inst=fork_inst)
     else:
         cls_name = get_class_name(cls, fully_qualified=True)
-        fork_inst._validators[cls_name.lower()] = func
         fork_inst._classes_validators.append(cls)
+        fork_inst._validators[cls_name.lower()] = func
         clear()
 
 
-- 
2.43.0


From 055e35de1518a0d0d15ec0d9d0353cce7038da17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 28/65] fix: load rejects a -meta section that names a Union
 instead of trying its members forever

---
 jsons/_common_impl.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 180f8b4..aaefa92 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -7,10 +7,10 @@ throughout `jsons`.
 import builtins
 import warnings
 from importlib import import_module
-from typing import Callable, Optional, Tuple, TypeVar, Any
+from typing import Callable, Optional, Tuple, TypeVar, Any, Union
 
 from jsons._cache import cached
-from jsons._compatibility_impl import get_union_params
+from jsons._compatibility_impl import get_naked_class, get_union_params
 from jsons.exceptions import (
     DeserializationError,
     JsonsError,
@@ -132,6 +132,9 @@ def get_cls_and_meta(
             cls_str = meta.get('classes', {}).get('/', None)
             if cls_str:
                 cls = get_cls_from_str(cls_str, json_obj, fork_inst)
+            if get_naked_class(cls) is Union:
+                # No value can be a Union itself.
+                raise ValueError('{} is no class'.format(cls_str))
         except JsonsError:
             raise
         except Exception as err:
-- 
2.43.0


From 02509d52e26631bb0805c5d153517269355db066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 29/65] fix: load reports a value that is too deeply nested to
 be printed as a DeserializationError

---
 jsons/_load_impl.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 32c7ec0..d097aef 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -116,7 +116,7 @@ def _do_load(json_obj: object,
         clear()
         if isinstance(err, JsonsError):
             raise
-        message = 'Could not deserialize value "{}" into "{}". {}'.format(json_obj, cls_name, err)
+        message = 'Could not deserialize value "{}" into "{}". {}'.format(_to_text(json_obj), cls_name, err)
         raise DeserializationError(message, json_obj, cls) from err
     else:
         if initial:
@@ -125,6 +125,13 @@ def _do_load(json_obj: object,
         return result
 
 
+def _to_text(json_obj: object) -> str:
+    try:
+        return str(json_obj)
+    except RecursionError:
+        return '...'  # It is too deeply nested to be printed.
+
+
 def loads(
         str_: str,
         cls: Optional[Type[T]] = None,
-- 
2.43.0


From e5239f7554307626e9a02db0a85071faf9fe1217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 30/65] fix: load None into a class whose name contains union
 or optional raises a JsonsError

---
 jsons/_common_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index aaefa92..7dbf584 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -151,7 +151,7 @@ def can_match_with_none(cls: type):
     if not result:
         cls_name = get_class_name(cls).lower()
         result = (('union' in cls_name or 'optional' in cls_name)
-                  and NoneType in get_union_params(cls))
+                  and NoneType in (get_union_params(cls) or ()))
     return result
 
 
-- 
2.43.0


From 3b4522d21b54d56a0c40c7815f127b0bed300b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 31/65] fix: dict keys that are members of an IntEnum or a str
 Enum are dumped as enums

---
 jsons/serializers/default_dict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 18e8075..e69c0ac 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -1,3 +1,4 @@
+from enum import Enum
 from typing import Callable, Dict, Optional, Tuple
 
 from jsons._common_impl import JSON_KEYS
@@ -87,4 +88,5 @@ def _store_and_hash(
 
 
 def _is_valid_json_key(key: object) -> bool:
-    return any(issubclass(type(key), json_key) for json_key in JSON_KEYS)
+    # The members of e.g. an IntEnum are ints, but they are dumped as enums.
+    return isinstance(key, JSON_KEYS) and not isinstance(key, Enum)
-- 
2.43.0


From e2cd56f08bbb710cc1a3a08163c9c2c08e292317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 32/65] fix: a NewType or subclass of str is loaded from any
 string, also one that looks like a date-time

---
 jsons/deserializers/default_string.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_string.py b/jsons/deserializers/default_string.py
index b20733e..0977a95 100644
--- a/jsons/deserializers/default_string.py
+++ b/jsons/deserializers/default_string.py
@@ -17,9 +17,11 @@ def default_string_deserializer(obj: str,
     :param kwargs: any keyword arguments.
     :return: the deserialized obj.
     """
-    target_is_str = cls is str and not kwargs.get('_inferred_cls')
+    cls_ = getattr(cls, '__supertype__', cls)  # In case of a NewType.
+    target_is_str = (isinstance(cls_, type) and issubclass(cls_, str)
+                     and not kwargs.get('_inferred_cls'))
     if target_is_str:
-        return str(obj)
+        return cls_(obj)
     try:
         result = load(obj, datetime, **kwargs)
     except DeserializationError:
-- 
2.43.0


From 9c6a94b00e3a325bc99af96787d672b3755f186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 33/65] fix: keys like __dict__ and __class__ in a source do
 not overwrite the internals of the loaded object

---
 jsons/deserializers/default_object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index e8806d5..762d9ac 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -150,6 +150,8 @@ def _set_remaining_attrs(instance,
     # Set any remaining attributes on the newly created instance.
     attr_getters = attr_getters or {}
     for attr_name in remaining_attrs:
+        if attr_name.startswith('__') and attr_name.endswith('__'):
+            continue  # E.g. __class__ or __dict__, these are no attributes.
         annotations = get_type_hints(instance.__class__)
         attr_type = annotations.get(attr_name)
 
-- 
2.43.0


From f5bf31e95eef756748864b499bf181164ed74db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 34/65] fix: a strict load of a named tuple rejects unknown
 keys

---
 jsons/deserializers/default_tuple.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index ff92a7f..8718bc0 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -2,10 +2,14 @@ from typing import Callable, Optional, Union
 
 from typish import get_args
 
-from jsons._common_impl import can_match_with_none
+from jsons._common_impl import META_ATTR, can_match_with_none, get_class_name
 from jsons._compatibility_impl import get_type_hints, tuple_with_ellipsis
 from jsons._load_impl import load
-from jsons.exceptions import DeserializationError, UnfulfilledArgumentError
+from jsons.exceptions import (
+    DeserializationError,
+    SignatureMismatchError,
+    UnfulfilledArgumentError
+)
 
 
 def default_tuple_deserializer(obj: list,
@@ -59,6 +63,8 @@ def default_namedtuple_deserializer(
 
     if is_dict:
         tfm_obj = {key_tfr(k): v for k, v in obj.items()}
+        if kwargs.get('strict'):
+            _check_for_unexpected_keys(tfm_obj, cls)
 
     args = []
     for index, field_name in enumerate(cls._fields):
@@ -94,3 +100,11 @@ def default_namedtuple_deserializer(
         args.append(loaded_field)
     inst = cls(*args)
     return inst
+
+
+def _check_for_unexpected_keys(obj: dict, cls: type) -> None:
+    for key in obj:
+        if key not in cls._fields and key != META_ATTR:
+            err_msg = ('Type "{}" does not expect "{}".'
+                       .format(get_class_name(cls), key))
+            raise SignatureMismatchError(err_msg, key, obj, cls)
-- 
2.43.0


From 47af0ea16b27a3b6da4a9af1a77e2e5cf51a23da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 35/65] fix: a NewType of any type (class, Enum, Optional,
 container, ...) is loaded and dumped as that type

---
 jsons/_common_impl.py                  |  7 ++++++-
 jsons/_compatibility_impl.py           |  7 +++++++
 jsons/_lizers_impl.py                  | 19 +++++++++++++++----
 jsons/_load_impl.py                    |  7 ++++---
 jsons/serializers/default_iterable.py  |  3 ++-
 jsons/serializers/default_list.py      |  3 ++-
 jsons/serializers/default_object.py    |  3 ++-
 jsons/serializers/default_primitive.py |  3 ++-
 jsons/serializers/default_tuple.py     |  8 ++++----
 jsons/serializers/default_union.py     |  3 ++-
 10 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 7dbf584..4227418 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -10,7 +10,11 @@ from importlib import import_module
 from typing import Callable, Optional, Tuple, TypeVar, Any, Union
 
 from jsons._cache import cached
-from jsons._compatibility_impl import get_naked_class, get_union_params
+from jsons._compatibility_impl import (
+    get_naked_class,
+    get_supertype,
+    get_union_params
+)
 from jsons.exceptions import (
     DeserializationError,
     JsonsError,
@@ -147,6 +151,7 @@ def get_cls_and_meta(
 
 def can_match_with_none(cls: type):
     # Return True if cls allows None; None is a valid value with the given cls.
+    cls = get_supertype(cls)
     result = cls in (Any, object, None, NoneType)
     if not result:
         cls_name = get_class_name(cls).lower()
diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index bbe73d6..84bdb41 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -58,6 +58,13 @@ def get_union_params(un: type) -> list:
     return getattr(un, '__union_params__', getattr(un, '__args__', None))
 
 
+def get_supertype(cls: type) -> type:
+    # Return the type that a NewType stands for; any other type as it is.
+    while hasattr(cls, '__supertype__'):
+        cls = cls.__supertype__
+    return cls
+
+
 @cached
 def get_naked_class(cls: type) -> type:
     # Python3.5: typing classes have __extra__
diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 0b05c12..a9ff8db 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -116,12 +116,23 @@ def get_deserializer(
     return deserializer
 
 
+def get_loadable_class(cls: type, fork_inst: type) -> type:
+    """
+    Return the type that a deserializer is to be called with: a ``NewType``
+    without a deserializer of its own is loaded as the type it stands for.
+    """
+    while (hasattr(cls, '__supertype__')
+           and get_class_name(cls, str.lower, fully_qualified=True)
+           not in fork_inst._deserializers):
+        cls = cls.__supertype__
+    return cls
+
+
 def _get_lizer(
         cls: type,
         lizers: Dict[str, callable],
         classes_lizers: list,
-        fork_inst: type,
-        recursive: bool = False) -> callable:
+        fork_inst: type) -> callable:
     cls_name = get_class_name(cls, str.lower, fully_qualified=True)
     lizer = lizers.get(cls_name, None)
     if not lizer:
@@ -129,9 +140,9 @@ def _get_lizer(
                                               fork_inst)
         # Another thread may have registered cls itself in the meantime.
         lizer = lizers.get(cls_name, None) or parents_lizer
-    if not lizer and not recursive and hasattr(cls, '__supertype__'):
+    if not lizer and hasattr(cls, '__supertype__'):
         return _get_lizer(cls.__supertype__, lizers,
-                          classes_lizers, fork_inst, True)
+                          classes_lizers, fork_inst)
     return lizer
 
 
diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index d097aef..72400a9 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -18,7 +18,7 @@ from jsons._common_impl import (
     T,
     can_match_with_none
 )
-from jsons._lizers_impl import get_deserializer
+from jsons._lizers_impl import get_deserializer, get_loadable_class
 from jsons._validation import validate
 from jsons.exceptions import DeserializationError, JsonsError, DecodeError
 
@@ -74,7 +74,7 @@ def load(
     :return: an instance of ``cls`` if given, a dict otherwise.
     """
     _check_for_none(json_obj, cls)
-    if _should_skip(json_obj, cls, strict):
+    if _should_skip(json_obj, get_loadable_class(cls, fork_inst), strict):
         validate(json_obj, cls, fork_inst)
         return json_obj
     if isinstance(cls, str):
@@ -110,7 +110,8 @@ def _do_load(json_obj: object,
     if deserializer is None:
         raise DeserializationError('No deserializer for type "{}"'.format(cls_name), json_obj, cls)
     try:
-        result = deserializer(json_obj, cls, **kwargs)
+        loadable_cls = get_loadable_class(cls, kwargs['fork_inst'])
+        result = deserializer(json_obj, loadable_cls, **kwargs)
         validate(result, cls, kwargs['fork_inst'])
     except Exception as err:
         clear()
diff --git a/jsons/serializers/default_iterable.py b/jsons/serializers/default_iterable.py
index 77086fb..0fe30e1 100644
--- a/jsons/serializers/default_iterable.py
+++ b/jsons/serializers/default_iterable.py
@@ -4,6 +4,7 @@ from typing import Tuple, Optional
 
 from typish import get_args
 
+from jsons._compatibility_impl import get_supertype
 from jsons._dump_impl import dump
 from jsons._multitasking import multi_task
 from jsons.exceptions import SerializationError
@@ -34,7 +35,7 @@ def default_iterable_serializer(
     kwargs_ = {**kwargs, 'strict': strict}
     kwargs_.pop('_store_cls', None)
     if strict:
-        cls_ = _determine_cls(obj, cls)
+        cls_ = _determine_cls(obj, get_supertype(cls))
         subclasses = _get_subclasses(obj, cls_)
     else:
         subclasses = _get_subclasses(obj, None)
diff --git a/jsons/serializers/default_list.py b/jsons/serializers/default_list.py
index 99f7c70..1019327 100644
--- a/jsons/serializers/default_list.py
+++ b/jsons/serializers/default_list.py
@@ -4,6 +4,7 @@ from typish import get_args
 
 from jsons import get_serializer
 from jsons._common_impl import StateHolder
+from jsons._compatibility_impl import get_supertype
 from jsons._dump_impl import dump
 
 
@@ -37,7 +38,7 @@ def default_list_serializer(
     inner_type = None
     serializer = dump
 
-    cls_args = get_args(cls)
+    cls_args = get_args(get_supertype(cls))
     if cls_args:
         inner_type = cls_args[0]
         serializer = get_serializer(inner_type, fork_inst)
diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 72b5e88..decff44 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -9,7 +9,7 @@ from typish import get_type, get_mro
 from jsons import get_serializer, announce_class
 from jsons._cache import cached
 from jsons._common_impl import get_class_name, META_ATTR, StateHolder
-from jsons._compatibility_impl import get_type_hints
+from jsons._compatibility_impl import get_supertype, get_type_hints
 from jsons._datetime_impl import to_str
 from jsons.classes import JsonSerializable
 from jsons.classes.verbosity import Verbosity
@@ -58,6 +58,7 @@ def default_object_serializer(
     :return: a Python dict holding the values
     of ``obj``.
     """
+    cls = get_supertype(cls)
     strip_attr = _normalize_strip_attr(strip_attr)
     if cls and strict:
         attributes = _get_attributes_from_class(
diff --git a/jsons/serializers/default_primitive.py b/jsons/serializers/default_primitive.py
index 93725e1..ce46778 100644
--- a/jsons/serializers/default_primitive.py
+++ b/jsons/serializers/default_primitive.py
@@ -1,5 +1,6 @@
 from typing import Optional, Any, NewType
 
+from jsons._compatibility_impl import get_supertype
 from jsons.exceptions import SerializationError
 
 
@@ -16,7 +17,7 @@ def default_primitive_serializer(obj: object,
 
     cls_ = cls
     if _is_newtype(cls):
-        cls_ = cls.__supertype__
+        cls_ = get_supertype(cls)
 
     if cls_ and obj is not None and not isinstance(obj, cls_):
         try:
diff --git a/jsons/serializers/default_tuple.py b/jsons/serializers/default_tuple.py
index 5b12961..af6ab92 100644
--- a/jsons/serializers/default_tuple.py
+++ b/jsons/serializers/default_tuple.py
@@ -2,7 +2,7 @@ from typing import Union, Optional, Tuple
 
 from typish import get_args
 
-from jsons._compatibility_impl import tuple_with_ellipsis
+from jsons._compatibility_impl import get_supertype, tuple_with_ellipsis
 from jsons._dump_impl import dump
 from jsons.serializers.default_iterable import default_iterable_serializer
 
@@ -21,9 +21,9 @@ def default_tuple_serializer(obj: tuple,
     if hasattr(obj, '_fields'):
         return default_namedtuple_serializer(obj, **kwargs)
 
-    cls_ = cls
-    if cls and tuple_with_ellipsis(cls):
-        cls_ = Tuple[(get_args(cls)[0],) * len(obj)]
+    cls_ = get_supertype(cls)
+    if cls_ and tuple_with_ellipsis(cls_):
+        cls_ = Tuple[(get_args(cls_)[0],) * len(obj)]
 
     return default_iterable_serializer(obj, cls_, **kwargs)
 
diff --git a/jsons/serializers/default_union.py b/jsons/serializers/default_union.py
index f0cddd7..5b008be 100644
--- a/jsons/serializers/default_union.py
+++ b/jsons/serializers/default_union.py
@@ -1,7 +1,7 @@
 from typing import Union
 
 from jsons._common_impl import get_class_name, NoneType
-from jsons._compatibility_impl import get_union_params
+from jsons._compatibility_impl import get_supertype, get_union_params
 from jsons._dump_impl import dump
 from jsons.exceptions import JsonsError, SerializationError
 
@@ -17,6 +17,7 @@ def default_union_serializer(obj: object, cls: Union, **kwargs) -> object:
     :return: An object of the first type of the Union that could be
     serialized successfully.
     """
+    cls = get_supertype(cls)
     sub_types = get_union_params(cls)
 
     # Cater for Optional[...]/Union[None, ...] first to avoid blindly
-- 
2.43.0


From a2a5a9d4457290d7adffab89889f89e0bb17a649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 36/65] fix: dict[K, V] (a parameterized builtin dict) can be
 loaded

---
 jsons/deserializers/default_mapping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_mapping.py b/jsons/deserializers/default_mapping.py
index cec2d4b..c3438e7 100644
--- a/jsons/deserializers/default_mapping.py
+++ b/jsons/deserializers/default_mapping.py
@@ -1,8 +1,9 @@
 from collections.abc import Mapping
 from typing import Mapping as MappingType
 
-from typish import get_args, get_origin
+from typish import get_args
 
+from jsons._compatibility_impl import get_naked_class
 from jsons.deserializers.default_dict import default_dict_deserializer
 
 
@@ -22,6 +23,6 @@ def default_mapping_deserializer(obj: dict, cls: type, **kwargs) -> Mapping:
     dict_ = default_dict_deserializer(obj, cls_, **kwargs)
     result = dict_
     # Strip any generics from cls to allow for an instance check.
-    if not isinstance(result, get_origin(cls)):
+    if not isinstance(result, get_naked_class(cls)):
         result = cls(dict_)
     return result
-- 
2.43.0


From 178c161ea2b1a5be9d57c4d5540adf4580d3d26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 37/65] fix: a parameterized mapping is loaded with its own
 type arguments (Unions that differ in order were mixed up)

---
 jsons/deserializers/default_mapping.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/jsons/deserializers/default_mapping.py b/jsons/deserializers/default_mapping.py
index c3438e7..c7da029 100644
--- a/jsons/deserializers/default_mapping.py
+++ b/jsons/deserializers/default_mapping.py
@@ -1,7 +1,4 @@
 from collections.abc import Mapping
-from typing import Mapping as MappingType
-
-from typish import get_args
 
 from jsons._compatibility_impl import get_naked_class
 from jsons.deserializers.default_dict import default_dict_deserializer
@@ -16,11 +13,7 @@ def default_mapping_deserializer(obj: dict, cls: type, **kwargs) -> Mapping:
     :param kwargs: any keyword arguments.
     :return: a deserialized set instance.
     """
-    cls_ = Mapping
-    cls_args = get_args(cls)
-    if cls_args:
-        cls_ = MappingType[cls_args]
-    dict_ = default_dict_deserializer(obj, cls_, **kwargs)
+    dict_ = default_dict_deserializer(obj, cls, **kwargs)
     result = dict_
     # Strip any generics from cls to allow for an instance check.
     if not isinstance(result, get_naked_class(cls)):
-- 
2.43.0


From 3f4cbe53643f0d7178275ceff3c029043318d543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:40 +0000
Subject: [PATCH 38/65] fix: iterables and defaultdicts are loaded with their
 own type arguments (Unions that differ in order were mixed up)

---
 jsons/deserializers/default_defaultdict.py | 9 ++++-----
 jsons/deserializers/default_iterable.py    | 8 ++------
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/jsons/deserializers/default_defaultdict.py b/jsons/deserializers/default_defaultdict.py
index 2ad860e..f148718 100644
--- a/jsons/deserializers/default_defaultdict.py
+++ b/jsons/deserializers/default_defaultdict.py
@@ -1,9 +1,9 @@
 from collections import defaultdict
-from typing import Optional, Callable, Dict
+from typing import Optional, Callable
 
 from typish import get_args
 
-from jsons._load_impl import load
+from jsons.deserializers.default_dict import default_dict_deserializer
 
 
 def default_defaultdict_deserializer(
@@ -23,10 +23,9 @@ def default_defaultdict_deserializer(
     """
     args = get_args(cls)
     default_factory = None
-    cls_ = Dict
     if args:
         key, value = get_args(cls)
-        cls_ = Dict[key, value]
         default_factory = value
-    loaded = load(obj, cls_, key_transformer=key_transformer, **kwargs)
+    loaded = default_dict_deserializer(
+        obj, cls, key_transformer=key_transformer, **kwargs)
     return defaultdict(default_factory, loaded)
diff --git a/jsons/deserializers/default_iterable.py b/jsons/deserializers/default_iterable.py
index 24cc0b5..6ff4363 100644
--- a/jsons/deserializers/default_iterable.py
+++ b/jsons/deserializers/default_iterable.py
@@ -1,5 +1,4 @@
-from collections.abc import Mapping, Iterable
-from typing import Iterable as IterableType
+from collections.abc import Iterable
 
 from jsons._compatibility_impl import get_naked_class
 from jsons.deserializers.default_list import default_list_deserializer
@@ -19,10 +18,7 @@ def default_iterable_deserializer(
     :param kwargs: Any keyword arguments.
     :return: A deserialized ``Iterable`` (e.g. ``set``) instance.
     """
-    cls_ = Mapping
-    if hasattr(cls, '__args__'):
-        cls_ = IterableType[cls.__args__]
-    list_ = default_list_deserializer(obj, cls_, **kwargs)
+    list_ = default_list_deserializer(obj, cls, **kwargs)
     result = list_
     naked_cls = get_naked_class(cls)
     if not isinstance(result, naked_cls):
-- 
2.43.0


From f0a96f88490d619bbf39afc5cede2b97fd9e938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:55 +0000
Subject: [PATCH 39/65] fix: values of attributes and containers that are typed
 Any are dumped by what they are

---
 jsons/__init__.py                | 14 +++++++++++++-
 jsons/serializers/default_any.py | 18 ++++++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)
 create mode 100644 jsons/serializers/default_any.py

diff --git a/jsons/__init__.py b/jsons/__init__.py
index 128f8f0..4ef1058 100644
--- a/jsons/__init__.py
+++ b/jsons/__init__.py
@@ -90,7 +90,16 @@ from datetime import datetime, date, time, timezone, timedelta
 from decimal import Decimal
 from enum import Enum, IntEnum
 from pathlib import PurePath
-from typing import Union, List, Tuple, Iterable, Optional, DefaultDict, Dict
+from typing import (
+    Any,
+    Union,
+    List,
+    Tuple,
+    Iterable,
+    Optional,
+    DefaultDict,
+    Dict
+)
 from uuid import UUID
 
 from jsons._common_impl import NoneType
@@ -162,6 +171,7 @@ from jsons.exceptions import (
     UnfulfilledArgumentError,
     InvalidDecorationError
 )
+from jsons.serializers.default_any import default_any_serializer
 from jsons.serializers.default_complex import default_complex_serializer
 from jsons.serializers.default_date import default_date_serializer
 from jsons.serializers.default_datetime import default_datetime_serializer
@@ -237,6 +247,7 @@ __all__ = [
     default_iterable_serializer.__name__,
     default_list_serializer.__name__,
     default_enum_serializer.__name__,
+    default_any_serializer.__name__,
     default_complex_serializer.__name__,
     default_datetime_serializer.__name__,
     default_date_serializer.__name__,
@@ -287,6 +298,7 @@ set_serializer(default_dict_serializer, Mapping, False)
 set_serializer(default_list_serializer, (list, List))
 set_serializer(default_iterable_serializer, Iterable, False)
 set_serializer(default_object_serializer, object, False)
+set_serializer(default_any_serializer, Any, False)
 set_serializer(default_uuid_serializer, UUID)
 set_serializer(default_decimal_serializer, Decimal)
 set_serializer(default_union_serializer, (Union, Optional))
diff --git a/jsons/serializers/default_any.py b/jsons/serializers/default_any.py
new file mode 100644
index 0000000..30a772c
--- /dev/null
+++ b/jsons/serializers/default_any.py
@@ -0,0 +1,18 @@
+from typing import Optional
+
+from jsons._dump_impl import dump
+
+
+def default_any_serializer(obj: object,
+                           cls: Optional[type] = None,
+                           **kwargs) -> object:
+    """
+    Serialize the given ``obj`` according to its own type; ``Any`` tells
+    nothing about it.
+    :param obj: the object that is to be serialized.
+    :param cls: not used.
+    :param kwargs: any keyword arguments that may be passed on in the
+    serialization process.
+    :return: ``obj`` serialized.
+    """
+    return dump(obj, **kwargs)
-- 
2.43.0


From 29ee3b965c99fdaf707636de6e4f4d92a30584ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:59 +0000
Subject: [PATCH 40/65] fix: -meta types of siblings or parents with a common
 name prefix are not applied to attributes

---
 jsons/deserializers/default_object.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 762d9ac..fcbb3f2 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -135,6 +135,7 @@ def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
         new_hints = {
             _remove_prefix(cls_key, key): meta_hints[key]
             for key in meta_hints
+            if key == cls_key or key.startswith(cls_key + '/')
         }
     cls_ = determine_precedence(cls=cls, cls_from_meta=cls_from_meta,
                                 cls_from_type=None, inferred_cls=True)
-- 
2.43.0


From 7290927c1286f99533f0f5fe1fc7a905af6b57d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:03 +0000
Subject: [PATCH 41/65] fix: the -meta section of objects inside lists of an
 object with -meta is not ignored

---
 jsons/_load_impl.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 72400a9..67b878d 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -98,6 +98,11 @@ def load(
         '_inferred_cls': cls is not original_cls,
     }
 
+    if meta_hints:
+        # What json_obj tells about itself is more specific than what is told
+        # by the object around it.
+        kwargs_['meta_hints'] = meta_hints
+
     return _do_load(json_obj, deserializer, cls, initial, **kwargs_)
 
 
-- 
2.43.0


From b590d9c7d5ea7648a27cfb5a543d3c49fa118068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 42/65] fix: objects in dicts and named tuples keep their class
 in verbose dumps

---
 jsons/serializers/default_dict.py   | 5 +++++
 jsons/serializers/default_object.py | 2 +-
 jsons/serializers/default_tuple.py  | 4 ++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index e69c0ac..9c9c8cf 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -34,6 +34,11 @@ def default_dict_serializer(
     """
     result = dict()
     types = types or dict()
+
+    # The meta kwarg store_cls is filtered out, because the elements of a dict
+    # should have their own -meta attribute.
+    kwargs.pop('_store_cls', None)
+
     for key in obj:
         obj_ = obj[key]
         cls_ = types.get(key, None)
diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index decff44..7cfe0c6 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -306,7 +306,7 @@ def _fill_collection_of_types(
     # class names. All of the -cls attributes are removed in the process.
     cls_name_ = _get_class_name_and_strip_cls(cls_name_, obj_)
     for attr in obj_:
-        if attr != META_ATTR and isinstance(obj_[attr], dict):
+        if isinstance(obj_[attr], dict) and '-cls' in obj_[attr]:
             attr_class = _fill_collection_of_types(obj_[attr],
                                                    None,
                                                    prefix + attr + '/',
diff --git a/jsons/serializers/default_tuple.py b/jsons/serializers/default_tuple.py
index af6ab92..a997309 100644
--- a/jsons/serializers/default_tuple.py
+++ b/jsons/serializers/default_tuple.py
@@ -36,6 +36,10 @@ def default_namedtuple_serializer(obj: tuple, **kwargs) -> dict:
     process.
     :return: a dict of which all elements are serialized.
     """
+    # The meta kwarg store_cls is filtered out, because the fields should have
+    # their own -meta attribute.
+    kwargs.pop('_store_cls', None)
+
     result = {field_name: dump(getattr(obj, field_name), **kwargs)
               for field_name in obj._fields}
     return result
-- 
2.43.0


From 2025a0f52c8ee41368930187f2b0e8262c0d9094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 43/65] fix: types from -meta take precedence over the element
 types of dicts and tuples, like with lists

---
 jsons/deserializers/default_dict.py  | 2 ++
 jsons/deserializers/default_tuple.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 012eba5..dafc652 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -78,6 +78,8 @@ def _deserialize(
     if len(cls_args) == 2:
         cls_k, cls_v = cls_args
         kwargs_['cls'] = cls_v
+        # Mark the cls as 'inferred', like that of the elements of a list.
+        kwargs_['_inferred_cls'] = True
         # In case of cls is something like Dict[<key>, <value>], we need to
         # ensure that the keys in the result are <key>.
         kwargs_k = {**kwargs, 'cls': cls_k}
diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 8718bc0..12987ae 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -37,6 +37,8 @@ def default_tuple_deserializer(obj: list,
             raise DeserializationError(
                 'Expected {} elements for {}, got {}'
                 .format(len(tuple_types), cls, len(obj)), obj, cls)
+        # Mark the cls as 'inferred', like that of the elements of a list.
+        kwargs['_inferred_cls'] = True
         list_ = [load(value, tuple_types[i], **kwargs)
                  for i, value in enumerate(obj)]
     else:
@@ -60,6 +62,8 @@ def default_namedtuple_deserializer(
     """
     is_dict = isinstance(obj, dict)
     key_tfr = key_transformer or (lambda key: key)
+    # Mark the types as 'inferred', like those of the elements of a list.
+    kwargs = {**kwargs, '_inferred_cls': True}
 
     if is_dict:
         tfm_obj = {key_tfr(k): v for k, v in obj.items()}
-- 
2.43.0


From 4e9bc1336ec87e64d88d406cab7e61b575e3ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 44/65] fix: verbose dumps of dict attributes only name types
 that can be found and loaded

---
 jsons/serializers/default_object.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 7cfe0c6..642435a 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -1,10 +1,11 @@
 import inspect
+import sys
 from datetime import datetime, timezone
 from inspect import isfunction
 from types import MemberDescriptorType
 from typing import Optional, Callable, Union, MutableSequence, Tuple, Dict
 
-from typish import get_type, get_mro
+from typish import get_args, get_mro, get_type
 
 from jsons import get_serializer, announce_class
 from jsons._cache import cached
@@ -326,12 +327,25 @@ def _get_class_name_and_strip_cls(cls_name: Optional[str], obj: dict) -> str:
 
 def _store_cls_info(result: object, original_obj: dict, kwargs):
     if kwargs.get('_store_cls', None) and isinstance(result, dict):
-        cls = get_type(original_obj)
+        cls = original_obj.__class__
+        if cls is dict:
+            cls = get_type(original_obj)  # This may be something like Dict.
         if cls.__module__ == 'typing':
             cls_name = repr(cls)
+            if not all(_can_be_found(arg) for arg in get_args(cls)):
+                return  # Its elements have their own type information.
         else:
             cls_name = get_class_name(cls, fully_qualified=True)
-        result['-cls'] = cls_name
+        if cls is not dict:
+            result['-cls'] = cls_name
+
+
+def _can_be_found(cls: type) -> bool:
+    # Whether the class can be loaded and be found by the name that typing
+    # gives it.
+    module = sys.modules.get(cls.__module__)
+    return (cls is not object and isinstance(cls, type)
+            and getattr(module, cls.__qualname__, None) is cls)
 
 
 @cached
-- 
2.43.0


From cc1c222888eb18afe5446694649419619bc0a500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:19 +0000
Subject: [PATCH 45/65] fix: the -meta section survives a key transformer upon
 loading

---
 jsons/deserializers/default_object.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index fcbb3f2..0b3092f 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -181,14 +181,26 @@ def _check_and_transform_keys(obj: dict,
                               key_transformer: Optional[Callable[[str], str]],
                               **kwargs) -> Tuple[dict, dict]:
     if key_transformer:
-        obj = {key_transformer(key): obj[key] for key in obj}
+        meta_hints = kwargs.get('meta_hints') or {}
+        obj = {key if key == META_ATTR else key_transformer(key): obj[key]
+               for key in obj}
         kwargs = {
             **kwargs,
-            'key_transformer': key_transformer
+            'key_transformer': key_transformer,
+            'meta_hints': {_transform_hint(key, key_transformer):
+                           meta_hints[key] for key in meta_hints}
         }
     return obj, kwargs
 
 
+def _transform_hint(key: str, key_transformer: Callable[[str], str]) -> str:
+    # A key like '/attr/sub' is relative to the object: transform 'attr' only.
+    attr_name, slash, rest = key[1:].partition('/')
+    if attr_name:
+        key = '/{}{}{}'.format(key_transformer(attr_name), slash, rest)
+    return key
+
+
 def _get_remaining_args(obj: dict,
                         cls: type,
                         constructor_args: dict,
-- 
2.43.0


From 6d0c316c79ced5fa580076fa2c6de1ca0c21426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 46/65] fix: a key transformer is applied to the fields of
 named tuples upon dumping

---
 jsons/serializers/default_tuple.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/jsons/serializers/default_tuple.py b/jsons/serializers/default_tuple.py
index a997309..caab801 100644
--- a/jsons/serializers/default_tuple.py
+++ b/jsons/serializers/default_tuple.py
@@ -1,4 +1,4 @@
-from typing import Union, Optional, Tuple
+from typing import Callable, Optional, Tuple, Union
 
 from typish import get_args
 
@@ -28,18 +28,28 @@ def default_tuple_serializer(obj: tuple,
     return default_iterable_serializer(obj, cls_, **kwargs)
 
 
-def default_namedtuple_serializer(obj: tuple, **kwargs) -> dict:
+def default_namedtuple_serializer(
+        obj: tuple,
+        *,
+        key_transformer: Optional[Callable[[str], str]] = None,
+        **kwargs) -> dict:
     """
     Serialize the given ``obj`` to a dict of serialized objects.
     :param obj: the named tuple that is to be serialized.
+    :param key_transformer: a function that will be applied to all keys in the
+    resulting dict.
     :param kwargs: any keyword arguments that may be given to the serialization
     process.
     :return: a dict of which all elements are serialized.
     """
+    key_tfr = key_transformer or (lambda key: key)
+
     # The meta kwarg store_cls is filtered out, because the fields should have
     # their own -meta attribute.
     kwargs.pop('_store_cls', None)
 
-    result = {field_name: dump(getattr(obj, field_name), **kwargs)
+    result = {key_tfr(field_name): dump(getattr(obj, field_name),
+                                        key_transformer=key_transformer,
+                                        **kwargs)
               for field_name in obj._fields}
     return result
-- 
2.43.0


From 8db3e9e40c6eb0681e2f911452a7ebd2680cc7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 47/65] fix: the case transformers accept empty strings and
 underscores

---
 jsons/_key_transformers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsons/_key_transformers.py b/jsons/_key_transformers.py
index 9c74ab6..f35d2ba 100644
--- a/jsons/_key_transformers.py
+++ b/jsons/_key_transformers.py
@@ -17,7 +17,7 @@ def camelcase(str_: str) -> str:
     splitted = str_.split('_')
     if len(splitted) > 1:
         str_ = ''.join([x.title() for x in splitted])
-    return str_[0].lower() + str_[1:]
+    return str_[:1].lower() + str_[1:]
 
 
 def snakecase(str_: str) -> str:
@@ -27,7 +27,7 @@ def snakecase(str_: str) -> str:
     :return: a string in snake_case.
     """
     str_ = str_.replace('-', '_')
-    str_ = str_[0].lower() + str_[1:]
+    str_ = str_[:1].lower() + str_[1:]
     return re.sub(r'([a-z])([A-Z])', '\\1_\\2', str_).lower()
 
 
@@ -38,7 +38,7 @@ def pascalcase(str_: str) -> str:
     :return: a string in PascalCase.
     """
     camelcase_str = camelcase(str_)
-    return camelcase_str[0].upper() + camelcase_str[1:]
+    return camelcase_str[:1].upper() + camelcase_str[1:]
 
 
 def lispcase(str_: str) -> str:
-- 
2.43.0


From 3b1c4e78fb8c5486875d3d3be949589646cbd4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:30 +0000
Subject: [PATCH 48/65] fix: a validator for str is not asked about a datetime
 that was inferred from a str

---
 jsons/_load_impl.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 67b878d..ebbd91e 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -117,7 +117,8 @@ def _do_load(json_obj: object,
     try:
         loadable_cls = get_loadable_class(cls, kwargs['fork_inst'])
         result = deserializer(json_obj, loadable_cls, **kwargs)
-        validate(result, cls, kwargs['fork_inst'])
+        if not _is_converted(result, cls, kwargs['_inferred_cls']):
+            validate(result, cls, kwargs['fork_inst'])
     except Exception as err:
         clear()
         if isinstance(err, JsonsError):
@@ -131,6 +132,13 @@ def _do_load(json_obj: object,
         return result
 
 
+def _is_converted(result: object, cls: type, inferred_cls: bool) -> bool:
+    # Whether the JSON type that was inferred is not the type of the result
+    # (e.g. a datetime from a str), it was validated as what it is already.
+    return (inferred_cls and cls in VALID_TYPES
+            and not isinstance(result, cls))
+
+
 def _to_text(json_obj: object) -> str:
     try:
         return str(json_obj)
-- 
2.43.0


From a8ef498d3792eeacf45cdb6aee2edc010ae34c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:34 +0000
Subject: [PATCH 49/65] fix: dumping with a Union prefers the types that the
 value is an instance of

---
 jsons/serializers/default_union.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/jsons/serializers/default_union.py b/jsons/serializers/default_union.py
index 5b008be..2f8eabb 100644
--- a/jsons/serializers/default_union.py
+++ b/jsons/serializers/default_union.py
@@ -1,7 +1,11 @@
-from typing import Union
+from typing import Any, Union
 
 from jsons._common_impl import get_class_name, NoneType
-from jsons._compatibility_impl import get_supertype, get_union_params
+from jsons._compatibility_impl import (
+    get_naked_class,
+    get_supertype,
+    get_union_params
+)
 from jsons._dump_impl import dump
 from jsons.exceptions import JsonsError, SerializationError
 
@@ -9,7 +13,8 @@ from jsons.exceptions import JsonsError, SerializationError
 def default_union_serializer(obj: object, cls: Union, **kwargs) -> object:
     """
     Serialize an object to any matching type of the given union. The first
-    successful serialization is returned.
+    successful serialization is returned, where the types that ``obj`` is an
+    instance of are tried first.
     :param obj: The object that is to be serialized.
     :param cls: The Union type with a generic (e.g. Union[str, int]).
     :param kwargs: Any keyword arguments that are passed through the
@@ -25,7 +30,9 @@ def default_union_serializer(obj: object, cls: Union, **kwargs) -> object:
     if obj is None and NoneType in sub_types:
         return obj
 
-    for sub_type in sub_types:
+    # Prefer the types that obj is an instance of; to any other class, almost
+    # every object can be serialized somehow.
+    for sub_type in sorted(sub_types, key=lambda t: _get_distance(obj, t)):
         try:
             return dump(obj, sub_type, **kwargs)
         except JsonsError:
@@ -36,3 +43,13 @@ def default_union_serializer(obj: object, cls: Union, **kwargs) -> object:
         err_msg = ('Could not match the object of type "{}" to any type of '
                    'the Union: {}'.format(type(obj), args_msg))
         raise SerializationError(err_msg)
+
+
+def _get_distance(obj: object, cls: type) -> int:
+    # The smaller, the better cls fits obj.
+    cls_ = get_naked_class(get_supertype(cls))
+    if cls_ is type(obj):
+        return 0
+    if cls_ is not Any and isinstance(cls_, type) and isinstance(obj, cls_):
+        return 1
+    return 2
-- 
2.43.0


From f797bcbe958706bc1906692eb027dcc5abe9d675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:05 +0000
Subject: [PATCH 50/65] fix: the offset of a dumped datetime is its own
 utcoffset

---
 jsons/_datetime_impl.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index f5865e3..90b14c2 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -65,25 +65,27 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
     :param obj: the datetime instance.
     :return: the offset for ``obj``.
     """
-    tzone = obj.tzinfo
-    if not tzone:
+    tdelta = obj.utcoffset()
+    if tdelta is None:
         # datetimes without tzinfo are treated as local times.
         fork_inst._warn('The use of datetimes without timezone is dangerous '
                         'and can lead to undesired results.',
                         'datetime-without-tz')
-        try:
-            tzone = obj.astimezone().tzinfo
-        except (OverflowError, ValueError):
-            # The local offset cannot be determined at the edges of time.
-            tzone = datetime.now(timezone.utc).astimezone().tzinfo
-        if not tzone.utcoffset(None):
-            return '+00:00'
-    offset = 'Z'
-    if tzone.tzname(None) not in ('UTC', 'UTC+00:00'):
-        tdelta = tzone.utcoffset(None) or \
-                 getattr(tzone, 'adjusted_offset', tzone.utcoffset(obj))
-        offset = _timedelta_offset_str(tdelta)
-    return offset
+        return _timedelta_offset_str(_get_local_offset(obj))
+    return _timedelta_offset_str(tdelta) if tdelta else 'Z'
+
+
+def _get_local_offset(obj: datetime) -> timedelta:
+    """
+    Return the offset of the local time at the moment of the given datetime.
+    :param obj: a datetime instance without timezone.
+    :return: the offset as a timedelta.
+    """
+    try:
+        return obj - obj.astimezone(timezone.utc).replace(tzinfo=None)
+    except (OverflowError, ValueError):
+        # The local offset cannot be determined at the edges of time.
+        return datetime.now(timezone.utc).astimezone().utcoffset()
 
 
 def _timedelta_offset_str(tdelta: timedelta) -> str:
@@ -96,7 +98,7 @@ def _timedelta_offset_str(tdelta: timedelta) -> str:
     offset_h = int(abs(offset_s) / 3600)
     offset_m = int((abs(offset_s) / 60) % 60)
     offset_t = time(offset_h, offset_m)
-    operator = '+' if offset_s > 0 else '-'
+    operator = '+' if offset_s >= 0 else '-'
     offset = offset_t.strftime('{}%H:%M'.format(operator))
     return offset
 
-- 
2.43.0


From 164c16db07850448b2235fbbb8505a562b3d9cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 51/65] fix: the hints of a constructor are found if the class
 has a metaclass

---
 jsons/_compatibility_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 84bdb41..83f36be 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -90,7 +90,7 @@ def get_type_hints(callable_: callable, fallback_ns=None):
             context_dict = sys.modules[fallback_ns].__dict__
             result = typing.get_type_hints(callable_, globalns=context_dict)
 
-    if sys.version_info.minor >= 10 and type(callable_) is type:
+    if sys.version_info.minor >= 10 and isinstance(callable_, type):
         annotations_from_init = typing.get_type_hints(callable_.__init__)
         if 'return' in annotations_from_init:
             # Python3.10: 'return' is a key that holds the returning type.
-- 
2.43.0


From 8a679b5c935abd2ac2b6a0fc922bc72bed246f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:11 +0000
Subject: [PATCH 52/65] fix: strict dump of a Dict[K, V] dumps the values as V

---
 jsons/serializers/default_dict.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 9c9c8cf..cb0cc6b 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -1,7 +1,10 @@
 from enum import Enum
 from typing import Callable, Dict, Optional, Tuple
 
+from typish import get_args
+
 from jsons._common_impl import JSON_KEYS
+from jsons._compatibility_impl import get_supertype
 from jsons._dump_impl import dump
 
 
@@ -35,13 +38,17 @@ def default_dict_serializer(
     result = dict()
     types = types or dict()
 
+    # In strict mode, the values of e.g. Dict[str, Parent] are dumped as Parent.
+    cls_args = get_args(get_supertype(cls)) if strict else ()
+    cls_v = cls_args[1] if len(cls_args) == 2 else None
+
     # The meta kwarg store_cls is filtered out, because the elements of a dict
     # should have their own -meta attribute.
     kwargs.pop('_store_cls', None)
 
     for key in obj:
         obj_ = obj[key]
-        cls_ = types.get(key, None)
+        cls_ = types.get(key, cls_v)
 
         dumped_elem = dump(obj_,
                            cls=cls_,
-- 
2.43.0


From 6a91d72a726b11288138403c6450366d47f08e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 53/65] fix: strict dump of attrs classes with private or
 unannotated attributes

---
 jsons/serializers/default_object.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 642435a..9ffcc5b 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -219,7 +219,7 @@ def _get_attributes_and_types(cls: type,
     if '__slots__' in cls.__dict__:
         attributes = {attr: None for attr in cls.__slots__}
     elif hasattr(cls, '__annotations__'):
-        attributes = get_type_hints(cls)
+        attributes = _get_annotated_attributes(cls)
     elif strict:
         hints = get_type_hints(cls.__init__)
         attributes = {k: hints[k] for k in hints if k != 'self'}
@@ -234,6 +234,17 @@ def _get_attributes_and_types(cls: type,
     return attributes
 
 
+def _get_annotated_attributes(cls: type) -> Dict[str, Optional[type]]:
+    attributes = get_type_hints(cls)
+    # The constructor of an attrs class has other names for private attributes
+    # and its attributes do not need to be annotated.
+    for elem in getattr(cls, '__attrs_attrs__', ()):
+        init_name = getattr(elem, 'alias', None) or elem.name.lstrip('_')
+        type_ = attributes.pop(init_name, None)
+        attributes.setdefault(elem.name, type_)
+    return attributes
+
+
 def _filter_attributes(
         cls: type,
         attributes: Dict[str, Optional[type]],
-- 
2.43.0


From 3d20a4ab3032f401aac13c14e2b800fbdf7ddee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:17 +0000
Subject: [PATCH 54/65] fix: inner classes are recognized without their source
 code

---
 jsons/serializers/default_object.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 9ffcc5b..3bee561 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -363,7 +363,10 @@ def _can_be_found(cls: type) -> bool:
 def _is_innerclass(attr: str, cls: type) -> bool:
     attr_obj = getattr(cls, attr, None)
     return (isinstance(attr_obj, type)
-            and inspect.getsource(attr_obj) in inspect.getsource(cls))
+            and any(attr_obj.__module__ == cls_or_elder.__module__
+                    and attr_obj.__qualname__.startswith(
+                        cls_or_elder.__qualname__ + '.')
+                    for cls_or_elder in get_mro(cls)))
 
 
 _ABC_ATTRS = ('_abc_registry', '_abc_cache', '_abc_negative_cache',
-- 
2.43.0


From d9168e40672cd05322335d641f41e98ad484a4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 55/65] fix: decorating a classmethod object raises an
 InvalidDecorationError

---
 jsons/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 4f210af..dd55733 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -188,7 +188,7 @@ def _run_decorated(decorated, mapper, fork_inst, args, kwargs, mapper_kwargs):
 
 
 def _validate_decoration(decorated, fork_inst):
-    if isinstance(decorated, staticmethod):
+    if isinstance(decorated, (staticmethod, classmethod)):
         fork_inst._warn('You cannot decorate a static- or classmethod. '
                         'You can still obtain the desired behavior by '
                         'decorating your method first and then place '
-- 
2.43.0


From d99854df402de2d23d65658cdcc48c304ada06b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:40 +0000
Subject: [PATCH 56/65] fix: stacked decorators keep the annotations of the
 decorated function

---
 jsons/decorators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index dd55733..51adfd6 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -2,6 +2,7 @@
 This module contains decorators that facilitate the `jsons` functions in an
 alternative fashion.
 """
+from functools import wraps
 from inspect import signature, Parameter, isawaitable, iscoroutinefunction
 
 from jsons import JsonSerializable, dump, load, loads, loadb, dumps, dumpb
@@ -105,6 +106,7 @@ def _get_wrapper(
         fork_inst,
         mapper,
         mapper_kwargs):
+    @wraps(decorated)
     def _wrapper(*args, **kwargs):
         result = _run_decorated(decorated, mapper if parameters else None,
                                 fork_inst, args, kwargs, mapper_kwargs)
@@ -123,6 +125,7 @@ def _get_async_wrapper(
         fork_inst,
         mapper,
         mapper_kwargs):
+    @wraps(decorated)
     async def _async_wrapper(*args, **kwargs):
         result = _run_decorated(decorated, mapper if parameters else None,
                                 fork_inst, args, kwargs, mapper_kwargs)
-- 
2.43.0


From ff610c2cec5c0e54338bb2cefe09c51ce4331ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 57/65] fix: self is not mapped if a private method is
 decorated

---
 jsons/decorators.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 51adfd6..c54fe63 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -161,7 +161,8 @@ def _get_params_sig(args, kwargs, func):
 def _map_args(args, kwargs, decorated, fork_inst, mapper, mapper_kwargs):
     def _map_arg(arg, sig):
         if sig is None or (sig.name in ('self', 'cls')
-                           and hasattr(arg, decorated.__name__)):
+                           and (hasattr(arg, decorated.__name__)
+                                or _is_private_method(decorated))):
             # `decorated` is a method and arg is either `self` or `cls` or
             # `decorated` does not accept arg and will raise.
             return arg
@@ -174,6 +175,13 @@ def _map_args(args, kwargs, decorated, fork_inst, mapper, mapper_kwargs):
     return new_args, new_kwargs
 
 
+def _is_private_method(func):
+    # The name of e.g. `__method` in a class is mangled.
+    owner = func.__qualname__.rpartition('.')[0]
+    return (func.__name__.startswith('__') and owner
+            and not owner.endswith('<locals>'))
+
+
 def _map_returnvalue(returnvalue, decorated, fork_inst, mapper, mapper_kwargs):
     return_annotation = signature(decorated).return_annotation
     cls = return_annotation if return_annotation != Parameter.empty else None
-- 
2.43.0


From a2c446967a498f93d4fc6fedc7d1338e2b9f2712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 58/65] fix: decorated functions may have postponed annotations

---
 jsons/decorators.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index c54fe63..29aed2a 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -4,6 +4,7 @@ alternative fashion.
 """
 from functools import wraps
 from inspect import signature, Parameter, isawaitable, iscoroutinefunction
+from typing import get_type_hints
 
 from jsons import JsonSerializable, dump, load, loads, loadb, dumps, dumpb
 from jsons.exceptions import InvalidDecorationError
@@ -166,7 +167,7 @@ def _map_args(args, kwargs, decorated, fork_inst, mapper, mapper_kwargs):
             # `decorated` is a method and arg is either `self` or `cls` or
             # `decorated` does not accept arg and will raise.
             return arg
-        cls = sig.annotation if sig.annotation != Parameter.empty else None
+        cls = _get_hint(decorated, sig.name, sig.annotation)
         return mapper(arg, cls=cls, fork_inst=fork_inst, **mapper_kwargs)
 
     args_sig, kwargs_sig = _get_params_sig(args, kwargs, decorated)
@@ -182,9 +183,19 @@ def _is_private_method(func):
             and not owner.endswith('<locals>'))
 
 
+def _get_hint(func, name, annotation):
+    if annotation is Parameter.empty or annotation is None:
+        return None
+    try:
+        # The annotation may be (or contain) a str that refers to a type.
+        return get_type_hints(func).get(name, annotation)
+    except (AttributeError, NameError, TypeError):
+        return annotation
+
+
 def _map_returnvalue(returnvalue, decorated, fork_inst, mapper, mapper_kwargs):
     return_annotation = signature(decorated).return_annotation
-    cls = return_annotation if return_annotation != Parameter.empty else None
+    cls = _get_hint(decorated, 'return', return_annotation)
     result = mapper(returnvalue, cls=cls, fork_inst=fork_inst, **mapper_kwargs)
     return result
 
-- 
2.43.0


From 3e271fd8caf1af58b5e5df2a1b22b313c98962f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 59/65] fix: an offset with anything but hours and minutes is
 no part of a datetime

---
 jsons/_datetime_impl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 90b14c2..9878f1d 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -3,6 +3,7 @@ PRIVATE MODULE: do not import (from) it directly.
 
 This module contains functionality for ``datetime`` related stuff.
 """
+import re
 from datetime import datetime, timezone, timedelta, time, date
 from typing import Union
 
@@ -10,6 +11,7 @@ RFC3339_DATE_PATTERN = '%Y-%m-%d'
 RFC3339_TIME_PATTERN = '%H:%M:%S'
 RFC3339_DATETIME_PATTERN = '{}T{}'.format(
     RFC3339_DATE_PATTERN, RFC3339_TIME_PATTERN)
+_OFFSET_PATTERN = re.compile(r'(\d{1,2}):([0-5]?\d)')
 
 
 def to_str(
@@ -127,7 +129,10 @@ def _datetime_offset_inst(obj: str, pattern: str) -> datetime:
     naive_tim_str, offset = tim_str.split(splitter)
     naive_dattim_str = '{}T{}'.format(dat_str, naive_tim_str)
     dattim_obj = datetime.strptime(naive_dattim_str, pattern)
-    hrs_str, mins_str = offset.split(':')
+    offset_match = _OFFSET_PATTERN.fullmatch(offset)
+    if not offset_match:
+        raise ValueError('invalid offset: {!r}'.format(offset))
+    hrs_str, mins_str = offset_match.groups()
     hrs = int(hrs_str) * factor
     mins = int(mins_str) * factor
     tz = timezone(offset=timedelta(hours=hrs, minutes=mins))
-- 
2.43.0


From 2aa266f785a039a43862fe1358e171a801c708ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 60/65] fix: loaded keys that equal other hashed keys do not
 replace their values

---
 jsons/deserializers/default_dict.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index dafc652..2c2380c 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -47,21 +47,20 @@ def _load_hashed_keys(
                                        'the form Dict[<type>, <type>] to '
                                        'deserialize a dict with hashed keys.',
                                        obj, cls)
-        # Copy the stored keys as well; the given obj must remain untouched.
-        result = {**obj, '-keys': {**obj['-keys']}}
+        # Copy the given obj; it must remain untouched.
+        result = {key: obj[key] for key in obj if key != '-keys'}
         key_type = cls_args[0]
+        loaded = {}
         for key in stored_keys:
-            # Get the original (unhashed) key and load it.
-            original_key = result['-keys'][key]
+            # Get the original (unhashed) key, load it and replace the hashed
+            # key by the loaded key entirely.
+            original_key = obj['-keys'][key]
             loaded_key = load(original_key, cls=key_type, **kwargs)
             loaded_keys.add(loaded_key)
+            loaded[loaded_key] = result.pop(key)
 
-            # Replace the hashed key by the loaded key entirely.
-            result[loaded_key] = result[key]
-            del result['-keys'][key]
-            del result[key]
-
-        del result['-keys']
+        # The loaded keys may be equal to (other) hashed keys, so add them last.
+        result.update(loaded)
     return result, loaded_keys
 
 
-- 
2.43.0


From a1011ca0bcb2cd83c5a924aa4226d20198c7ba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:05 +0000
Subject: [PATCH 61/65] fix: hashed keys are not mixed up with keys that are
 dumped as numbers

---
 jsons/serializers/default_dict.py | 60 +++++++++++++++----------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index cb0cc6b..3fc8326 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -1,5 +1,5 @@
 from enum import Enum
-from typing import Callable, Dict, Optional, Tuple
+from typing import Callable, Dict, List, Optional, Tuple
 
 from typish import get_args
 
@@ -36,6 +36,7 @@ def default_dict_serializer(
     :return: a dict of which all elements are serialized.
     """
     result = dict()
+    to_store = []
     types = types or dict()
 
     # In strict mode, the values of e.g. Dict[str, Parent] are dumped as Parent.
@@ -59,44 +60,43 @@ def default_dict_serializer(
         if not (strip_nulls and dumped_elem is None):
             # If key is not a valid json type, use the hash as key and store
             # the original key in a separate section.
-            dict_and_key = _store_and_hash(result, key, obj,
-                                           key_transformer=key_transformer,
-                                           strip_nulls=strip_nulls,
-                                           strict=strict,
-                                           types=types, **kwargs)
-            if dict_and_key:
-                result, key = dict_and_key
+            if not _is_valid_json_key(key):
+                # First try to dump the key, that might be enough already.
+                hash_ = hash(key)
+                key = dump(key,
+                           key_transformer=key_transformer,
+                           strip_nulls=strip_nulls,
+                           strict=strict,
+                           types=types,
+                           **kwargs)
+                if not _is_valid_json_key(key):
+                    # Apparently, this was not enough; it is not "jsonable".
+                    to_store.append((hash_, key, dumped_elem))
+                    continue
 
             if key_transformer and isinstance(key, str):
                 key = key_transformer(key)
             result[key] = dumped_elem
+
+    if to_store:
+        _store_and_hash(result, to_store)
     return result
 
 
 def _store_and_hash(
         obj: dict,
-        key: object,
-        source: dict,
-        **kwargs
-) -> Optional[Tuple[dict, int]]:
-    # Store the given key in the given dict under a special section if that
-    # key is not a valid json key. Return a hash of that key.
-    result = None
-    if not _is_valid_json_key(key):
-        # First try to dump the key, that might be enough already.
-        dumped_key = dump(key, **kwargs)
-        result = obj, dumped_key
-        if not _is_valid_json_key(dumped_key):
-            # Apparently, this was not enough; the key is still not "jsonable".
-            key_hash = hash(key)
-            obj_ = {**obj}
-            obj_.setdefault('-keys', {})
-            while key_hash in obj_ or key_hash in source:
-                # Different keys may have equal hashes.
-                key_hash += 1
-            obj_['-keys'][key_hash] = dumped_key
-            result = obj_, key_hash
-    return result
+        to_store: List[Tuple[int, object, object]]) -> None:
+    # Store the given keys in the given dict under a special section and store
+    # their values under the hashes of the keys.
+    keys = {}
+    for key_hash, dumped_key, dumped_elem in to_store:
+        while key_hash in obj or str(key_hash) in obj:
+            # Different keys may have equal hashes. The hash becomes a str as
+            # soon as it is in a text.
+            key_hash += 1
+        keys[key_hash] = dumped_key
+        obj[key_hash] = dumped_elem
+    obj['-keys'] = keys
 
 
 def _is_valid_json_key(key: object) -> bool:
-- 
2.43.0


From c843812e3c8740740698425710f77b35831ff404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:37 +0000
Subject: [PATCH 62/65] fix: the options of a load reach the parts of complex
 numbers and time zones

---
 jsons/deserializers/default_complex.py  | 7 +++----
 jsons/deserializers/default_timezone.py | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/jsons/deserializers/default_complex.py b/jsons/deserializers/default_complex.py
index ae4a861..e12a3f4 100644
--- a/jsons/deserializers/default_complex.py
+++ b/jsons/deserializers/default_complex.py
@@ -11,13 +11,12 @@ def default_complex_deserializer(obj: Dict[str, float],
     Deserialize a dictionary with 'real' and 'imag' keys to a complex number.
     :param obj: the dict that is to be deserialized.
     :param cls: not used.
-    :param kwargs: not used.
+    :param kwargs: any keyword arguments.
     :return: an instance of ``complex``.
     """
     try:
-        clean_obj = load({'real': obj['real'], 'imag': obj['imag']},
-                         cls=Dict[str, float])
-        return complex(clean_obj['real'], clean_obj['imag'])
+        return complex(load(obj['real'], float, **kwargs),
+                       load(obj['imag'], float, **kwargs))
     except KeyError as err:
         raise AttributeError("Cannot deserialize {} to a complex number, "
                              "does not contain key '{}'"
diff --git a/jsons/deserializers/default_timezone.py b/jsons/deserializers/default_timezone.py
index 213e1c0..a142197 100644
--- a/jsons/deserializers/default_timezone.py
+++ b/jsons/deserializers/default_timezone.py
@@ -10,7 +10,7 @@ def default_timezone_deserializer(obj: dict,
     Deserialize a dict to a timezone instance.
     :param obj: the dict that is to be deserialized.
     :param cls: not used.
-    :param kwargs: not used.
+    :param kwargs: any keyword arguments.
     :return: a ``datetime.timezone`` instance.
     """
-    return timezone(load(obj['offset'], timedelta), obj['name'])
+    return timezone(load(obj['offset'], timedelta, **kwargs), obj['name'])
-- 
2.43.0


From 91d42be492453fcca218c0545c71b08035bd5155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:40 +0000
Subject: [PATCH 63/65] fix: the key transformer reaches the deserializers of
 keys

---
 jsons/deserializers/default_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 2c2380c..48c26c4 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -81,7 +81,7 @@ def _deserialize(
         kwargs_['_inferred_cls'] = True
         # In case of cls is something like Dict[<key>, <value>], we need to
         # ensure that the keys in the result are <key>.
-        kwargs_k = {**kwargs, 'cls': cls_k}
+        kwargs_k = {**kwargs, 'key_transformer': key_transformer, 'cls': cls_k}
 
     def key_func(key: object) -> object:
         if key in hashed_keys:
-- 
2.43.0


From 260b48ddc9491db33347633ed14e61a96b56c19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:20 +0000
Subject: [PATCH 64/65] fix: dumping does not alter the cached type hints

---
 jsons/serializers/default_object.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 3bee561..4e4a19e 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -235,7 +235,8 @@ def _get_attributes_and_types(cls: type,
 
 
 def _get_annotated_attributes(cls: type) -> Dict[str, Optional[type]]:
-    attributes = get_type_hints(cls)
+    # Copy the hints: they are cached and must remain as they are.
+    attributes = {**get_type_hints(cls)}
     # The constructor of an attrs class has other names for private attributes
     # and its attributes do not need to be annotated.
     for elem in getattr(cls, '__attrs_attrs__', ()):
-- 
2.43.0


From e32a6980ed8ea06972e13bf3c998cf8298bc84d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:41 +0000
Subject: [PATCH 65/65] fix: a default value with an unusual comparison is
 recognised

---
 jsons/deserializers/default_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 0b3092f..d7de583 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -98,7 +98,7 @@ def _get_value_for_attr(
         # There exists an attr_getter for this argument.
         attr_getter = attr_getters.pop(sig_key)
         result = sig_key, attr_getter()
-    elif sig.default != inspect.Parameter.empty:
+    elif sig.default is not inspect.Parameter.empty:
         # There is a default value for this argument.
         result = sig_key, sig.default
     elif sig.kind in (inspect.Parameter.VAR_POSITIONAL,
-- 
2.43.0

