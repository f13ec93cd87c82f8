From 63d7273a4c34dc9748880043c620af279e31206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 01/57] fix: load defaultdicts whose keys are not strings

---
 skops/io/_general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 07cdfd5..4812634 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -116,7 +116,7 @@ class DefaultDictNode(Node):
         }
 
     def _construct(self):
-        instance = defaultdict(**self.children["main"].construct())
+        instance = defaultdict(None, self.children["main"].construct())
         instance.default_factory = self.children["default_factory"].construct()
         return instance
 
-- 
2.43.0


From 8b1227582c8ef90f868bee0ecc42c57cddd4fad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 02/57] fix: honour the caller's trusted list for defaultdict
 nodes

---
 skops/io/_general.py | 2 +-
 skops/io/_sklearn.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 4812634..fc7a880 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -105,7 +105,7 @@ class DefaultDictNode(Node):
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
-        self.trusted = ["collections.defaultdict"]
+        self.trusted = self._get_trusted(trusted, [defaultdict])
         self.children = {
             "main": get_tree(state["content"]["main"], load_context, trusted=trusted),
             "default_factory": get_tree(
diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index 3baee2b..6bff91c 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -290,9 +290,10 @@ class _DictWithDeprecatedKeysNode(Node):
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
-        self.trusted = [
-            get_module(_DictWithDeprecatedKeysNode) + "._DictWithDeprecatedKeys"
-        ]
+        self.trusted = self._get_trusted(
+            trusted,
+            [get_module(_DictWithDeprecatedKeysNode) + "._DictWithDeprecatedKeys"],
+        )
         self.children = {
             "main": get_tree(state["content"]["main"], load_context, trusted=trusted),
             "_deprecated_key_to_new_key": get_tree(
-- 
2.43.0


From 15da4a202aff7339e150059829fd2b904b2fe0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 03/57] fix: persist dict keys which are not unique or not
 recoverable as json keys

---
 skops/io/_general.py | 56 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 12 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index fc7a880..6a24db6 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -43,20 +43,45 @@ def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__loader__": "DictNode",
     }
 
-    key_types = get_state([type(key) for key in obj.keys()], save_context)
-    content = {}
-    for key, value in obj.items():
-        if isinstance(value, property):
-            continue
-        if np.isscalar(key) and hasattr(key, "item"):
-            # convert numpy value to python object
-            key = key.item()  # type: ignore
-        content[key] = get_state(value, save_context)
-    res["content"] = content
-    res["key_types"] = key_types
+    json_keys = _get_json_keys(obj)
+    if json_keys is None:
+        # The keys cannot be recovered from the keys of a json object, so store
+        # them as objects of their own. Values are in the same order as keys.
+        res["keys"] = get_state(list(obj.keys()), save_context)
+        json_keys = list(range(len(obj)))
+    else:
+        res["key_types"] = get_state([type(key) for key in obj.keys()], save_context)
+    res["content"] = {
+        key: get_state(value, save_context)
+        for key, value in zip(json_keys, obj.values())
+    }
     return res
 
 
+def _get_json_keys(obj: Any) -> list[Any] | None:
+    """Keys to use for a json object, or None if those would be ambiguous.
+
+    All keys of a json object are strings, therefore different keys may become
+    the same (e.g. 1 and "1"), and some types cannot be recreated from the
+    string.
+    """
+    keys = []
+    for key in obj.keys():
+        if isinstance(
+            key, (np.integer, np.floating, np.str_)
+        ) and not isinstance(key, np.timedelta64):
+            # convert numpy value to python object
+            key = key.item()
+        if type(key) not in (str, int, float):
+            return None
+        keys.append(key)
+    if len({key if isinstance(key, str) else json.dumps(key) for key in keys}) < len(
+        keys
+    ):
+        return None
+    return keys
+
+
 class DictNode(Node):
     def __init__(
         self,
@@ -66,8 +91,9 @@ class DictNode(Node):
     ) -> None:
         super().__init__(state, load_context, trusted)
         self.trusted = self._get_trusted(trusted, [dict, "collections.OrderedDict"])
+        keys = "keys" if "keys" in state else "key_types"
         self.children = {
-            "key_types": get_tree(state["key_types"], load_context, trusted=trusted),
+            keys: get_tree(state[keys], load_context, trusted=trusted),
             "content": {
                 key: get_tree(value, load_context, trusted=trusted)
                 for key, value in state["content"].items()
@@ -76,6 +102,12 @@ class DictNode(Node):
 
     def _construct(self):
         content = gettype(self.module_name, self.class_name)()
+        if "keys" in self.children:
+            keys = self.children["keys"].construct()
+            for key, val in zip(keys, self.children["content"].values()):
+                content[key] = val.construct()
+            return content
+
         key_types = self.children["key_types"].construct()
         for k_type, (key, val) in zip(key_types, self.children["content"].items()):
             content[k_type(key)] = val.construct()
-- 
2.43.0


From 623f441c772f11a951a9a92e3d6ea9d0ac7571da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:36 +0000
Subject: [PATCH 04/57] fix: recreate object arrays with the shape they were
 saved with

---
 skops/io/_numpy.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index f87c8d9..35ec8ca 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -25,8 +25,11 @@ def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         # allow_pickle=False, therefore we convert them to a list and
         # recursively call get_state on it.
         if obj.dtype == object:
-            obj_serialized = get_state(obj.tolist(), save_context)
-            res["content"] = obj_serialized["content"]
+            if obj.ndim == 0:
+                res["content"] = [get_state(obj.item(), save_context)]
+            else:
+                obj_serialized = get_state(obj.tolist(), save_context)
+                res["content"] = obj_serialized["content"]
             res["type"] = "json"
             res["shape"] = get_state(obj.shape, save_context)
         else:
@@ -96,16 +99,16 @@ class NdArrayNode(Node):
             shape = self.children["shape"].construct()
             tmp = [o.construct() for o in self.children["content"]]
 
-            # TODO: this is a hack to get the correct shape of the array. We
-            # should find _a better way_ to do this.
-            if len(shape) == 1:
-                content = np.ndarray(shape=len(tmp), dtype="O")
-                for i, v in enumerate(tmp):
-                    content[i] = v
-            else:
-                content = np.array(tmp, dtype="O")
+            # The content is nested as deep as the array has dimensions. Don't
+            # leave it to numpy to guess the shape, as the cells of the array
+            # can be sequences too.
+            for _ in shape[1:]:
+                tmp = [cell for row in tmp for cell in row]
+            content = np.ndarray(shape=len(tmp), dtype="O")
+            for i, v in enumerate(tmp):
+                content[i] = v
 
-            return content
+            return content.reshape(shape)
 
         raise ValueError(f"Unknown type for a numpy object: {self.type}.")
 
-- 
2.43.0


From 3e61aaf25ad28cbbf7aae6bd008d305b1911cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:36 +0000
Subject: [PATCH 05/57] fix: keep the fill value and hard mask of masked arrays

---
 skops/io/_numpy.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 35ec8ca..31da0cb 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -121,8 +121,13 @@ def maskedarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]
         "content": {
             "data": get_state(obj.data, save_context),
             "mask": get_state(obj.mask, save_context),
+            "hard_mask": get_state(bool(obj.hardmask), save_context),
         },
     }
+    # None means that the default value of the dtype is used. The fill_value
+    # property is not used here because reading it modifies the array.
+    if obj._fill_value is not None:
+        res["content"]["fill_value"] = get_state(obj._fill_value, save_context)
     return res
 
 
@@ -139,11 +144,22 @@ class MaskedArrayNode(Node):
             "data": get_tree(state["content"]["data"], load_context, trusted=trusted),
             "mask": get_tree(state["content"]["mask"], load_context, trusted=trusted),
         }
+        for key in ("fill_value", "hard_mask"):
+            # not stored by older versions of skops
+            if key in state["content"]:
+                self.children[key] = get_tree(
+                    state["content"][key], load_context, trusted=trusted
+                )
 
     def _construct(self):
         data = self.children["data"].construct()
         mask = self.children["mask"].construct()
-        return np.ma.MaskedArray(data, mask)
+        kwargs = {
+            key: self.children[key].construct()
+            for key in ("fill_value", "hard_mask")
+            if key in self.children
+        }
+        return gettype(self.module_name, self.class_name)(data, mask, **kwargs)
 
 
 def random_state_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-- 
2.43.0


From 77eafde93342e17411a1125710b432d734704686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 06/57] fix: keep the shape of subarray dtypes

---
 skops/io/_numpy.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 31da0cb..d5ac611 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -246,13 +246,18 @@ class RandomGeneratorNode(Node):
 def dtype_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # we use numpy's internal save mechanism to store the dtype by
     # saving/loading an empty array with that dtype.
-    tmp: np.typing.NDArray = np.ndarray(0, dtype=obj)
     res = {
         "__class__": "dtype",
         "__module__": "numpy",
         "__loader__": "DTypeNode",
-        "content": get_state(tmp, save_context),
     }
+    if obj.subdtype is not None:
+        # numpy merges the shape of such a dtype into the shape of the array,
+        # except if it is the dtype of a field
+        res["field"] = "f0"
+        obj = np.dtype([("f0", obj)])
+    tmp: np.typing.NDArray = np.ndarray(0, dtype=obj)
+    res["content"] = get_state(tmp, save_context)
     return res
 
 
@@ -267,13 +272,15 @@ class DTypeNode(Node):
         self.children = {
             "content": get_tree(state["content"], load_context, trusted=trusted)
         }
+        self.field = state.get("field")
         # TODO: what should we trust?
         self.trusted = self._get_trusted(trusted, [])
 
     def _construct(self):
         # we use numpy's internal save mechanism to store the dtype by
         # saving/loading an empty array with that dtype.
-        return self.children["content"].construct().dtype
+        dtype = self.children["content"].construct().dtype
+        return dtype if self.field is None else dtype[self.field]
 
 
 # tuples of type and function that gets the state of that type
-- 
2.43.0


From a72277f51ce8d4f45beb2960b50ffe2a041eb598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 07/57] fix: don't merge NaNs contained in sets when loading

---
 skops/io/_general.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 6a24db6..92ed18b 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -602,7 +602,9 @@ class JsonNode(Node):
         return set()
 
     def _construct(self):
-        return json.loads(self.content)
+        # parse_constant: by default, json uses the same NaN object each time,
+        # which makes sets and dicts treat different NaNs as being equal
+        return json.loads(self.content, parse_constant=float)
 
     def format(self) -> str:
         """Representation of the node's content.
-- 
2.43.0


From 4cbb25e5745022d9ff8d75cc2485082b100da045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 08/57] fix: keep the type of numpy bytes scalars, refuse
 strings numpy truncates

---
 skops/io/_numpy.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index d5ac611..ca47af2 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -20,6 +20,10 @@ def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__loader__": "NdArrayNode",
     }
 
+    if isinstance(obj, (np.str_, np.bytes_)) and np.asarray(obj)[()] != obj:
+        # trailing NUL characters are lost when saving with numpy
+        raise UnsupportedTypeException(obj)
+
     try:
         # If the dtype is object, np.save should not work with
         # allow_pickle=False, therefore we convert them to a list and
@@ -90,7 +94,10 @@ class NdArrayNode(Node):
         if self.type == "numpy":
             content = np.load(self.children["content"], allow_pickle=False)
             if f"{self.module_name}.{self.class_name}" != "numpy.ndarray":
-                content = gettype(self.module_name, self.class_name)(content)
+                # use the scalar, not the buffer, of a bytes array to avoid
+                # padding
+                arg = content[()] if content.dtype.kind == "S" else content
+                content = gettype(self.module_name, self.class_name)(arg)
             return content
 
         if self.type == "json":
@@ -286,6 +293,8 @@ class DTypeNode(Node):
 # tuples of type and function that gets the state of that type
 GET_STATE_DISPATCH_FUNCTIONS = [
     (np.generic, ndarray_get_state),
+    # also a subclass of bytes, which would take precedence
+    (np.bytes_, ndarray_get_state),
     (np.ndarray, ndarray_get_state),
     (np.ma.MaskedArray, maskedarray_get_state),
     (np.ufunc, function_get_state),
-- 
2.43.0


From f7a53b5c0b141cb15b726315ebfa489ef6443f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:52 +0000
Subject: [PATCH 09/57] fix: only create bit generators when loading random
 generators

---
 skops/io/_numpy.py        | 16 +++++++++++++---
 skops/io/old/_numpy_v0.py |  5 +++--
 skops/io/old/_numpy_v1.py |  5 ++---
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index ca47af2..adfddcf 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -200,6 +200,18 @@ class RandomStateNode(Node):
         return random_state
 
 
+def get_bit_generator_cls(name: str) -> Any:
+    """Get one of numpy's bit generator classes.
+
+    The name is part of the persisted state and not audited, therefore nothing
+    else from the numpy.random module is allowed.
+    """
+    cls = gettype("numpy.random", name)
+    if not (isinstance(cls, type) and issubclass(cls, np.random.BitGenerator)):
+        raise TypeError(f"{name} is not a numpy bit generator")
+    return cls
+
+
 def random_generator_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     bit_generator_state = get_state(obj.bit_generator.state, save_context)
     seed_seq_state = get_state(obj.bit_generator.seed_seq.state, save_context)
@@ -240,9 +252,7 @@ class RandomGeneratorNode(Node):
         seed_seq = seed_seq_cls(**seed_seq_state)
 
         bit_generator_state = self.children["bit_generator_state"].construct()
-        bit_generator_cls = gettype(
-            "numpy.random", bit_generator_state["bit_generator"]
-        )
+        bit_generator_cls = get_bit_generator_cls(bit_generator_state["bit_generator"])
         bit_generator = bit_generator_cls(seed_seq)
         bit_generator.state = bit_generator_state
 
diff --git a/skops/io/old/_numpy_v0.py b/skops/io/old/_numpy_v0.py
index 356f67d..fc64b90 100644
--- a/skops/io/old/_numpy_v0.py
+++ b/skops/io/old/_numpy_v0.py
@@ -5,6 +5,7 @@ from typing import Any, Optional, Sequence
 import numpy as np
 
 from skops.io._audit import Node
+from skops.io._numpy import get_bit_generator_cls
 from skops.io._utils import LoadContext, gettype
 
 PROTOCOL = 0
@@ -23,8 +24,8 @@ class RandomGeneratorNode(Node):
 
     def _construct(self):
         # first restore the state of the bit generator
-        bit_generator = gettype(
-            "numpy.random", self.children["bit_generator_state"]["bit_generator"]
+        bit_generator = get_bit_generator_cls(
+            self.children["bit_generator_state"]["bit_generator"]
         )()
         bit_generator.state = self.children["bit_generator_state"]
 
diff --git a/skops/io/old/_numpy_v1.py b/skops/io/old/_numpy_v1.py
index 7e4b2b3..6a44f13 100644
--- a/skops/io/old/_numpy_v1.py
+++ b/skops/io/old/_numpy_v1.py
@@ -5,6 +5,7 @@ from typing import Any, Optional, Sequence
 import numpy as np
 
 from skops.io._audit import Node, get_tree
+from skops.io._numpy import get_bit_generator_cls
 from skops.io._utils import LoadContext, gettype
 
 PROTOCOL = 1
@@ -28,9 +29,7 @@ class RandomGeneratorNode(Node):
     def _construct(self):
         # first restore the state of the bit generator
         bit_generator_state = self.children["bit_generator_state"].construct()
-        bit_generator_cls = gettype(
-            "numpy.random", bit_generator_state["bit_generator"]
-        )
+        bit_generator_cls = get_bit_generator_cls(bit_generator_state["bit_generator"])
         bit_generator = bit_generator_cls()
         bit_generator.state = bit_generator_state
 
-- 
2.43.0


From f33f8974a798ea23d6dc417572b27edbf6de5642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 10/57] fix: load random states which use another bit generator
 than MT19937

---
 skops/io/_numpy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index adfddcf..9c70fcb 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -195,8 +195,10 @@ class RandomStateNode(Node):
         self.trusted = self._get_trusted(trusted, [np.random.RandomState])
 
     def _construct(self):
-        random_state = gettype(self.module_name, self.class_name)()
-        random_state.set_state(self.children["content"].construct())
+        state = self.children["content"].construct()
+        bit_generator = get_bit_generator_cls(state["bit_generator"])()
+        random_state = gettype(self.module_name, self.class_name)(bit_generator)
+        random_state.set_state(state)
         return random_state
 
 
-- 
2.43.0


From d5127a9be50fb28dc85e11a6fff9ed78930332ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:40 +0000
Subject: [PATCH 11/57] fix: refuse objects whose reduce output is not covered
 by their state

---
 skops/io/_general.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 92ed18b..22a4b57 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -425,10 +425,14 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # the ones for which we can get/set attributes through
     # __getstate__/__setstate__ or reading/writing to __dict__.
 
-    # We first check if the object can be serialized using json.
-    try:
+    # We first check if the object can be serialized using json. Subclasses are
+    # excluded because json would turn them into their base class.
+    if type(obj) in (str, int, float, bool, type(None)):
         # if we can simply use json, then we're done.
         obj_str = json.dumps(obj)
+        if isinstance(obj, str) and json.loads(obj_str) != obj:
+            # json merges surrogate pairs
+            raise UnsupportedTypeException(obj)
         return {
             "__class__": "str",
             "__module__": "builtins",
@@ -436,8 +440,6 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
             "content": obj_str,
             "is_json": True,
         }
-    except Exception:
-        pass
 
     # Then we check if the output of __reduce__ is of the form
     # (constructor, (constructor_args,))
@@ -445,6 +447,10 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # safe to call it with the specified arguments.
 
     reduce_output = obj.__reduce__()
+    if isinstance(reduce_output, tuple):
+        # trailing items which are None don't carry information
+        while reduce_output and reduce_output[-1] is None:
+            reduce_output = reduce_output[:-1]
     if len(reduce_output) == 2 and reduce_output[0] is type(obj):
         return {
             "__class__": type(obj).__name__,
@@ -453,7 +459,10 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
             "content": get_state(reduce_output[1], save_context),
         }
 
-    # Otherwise we recover the object from the __dict__ or __getstate__
+    # Otherwise we recover the object from the __dict__ or __getstate__. This
+    # doesn't work if arguments of the constructor or items are needed on top.
+    if not _is_recoverable_from_state(obj):
+        raise UnsupportedTypeException(obj)
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
@@ -476,6 +485,19 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     return res
 
 
+def _is_recoverable_from_state(obj: Any) -> bool:
+    """Whether nothing but the type and the state define the object"""
+    reduced = obj.__reduce_ex__(2)
+    if isinstance(reduced, str):
+        # global variable of that name
+        return False
+    args = reduced[1]
+    if args and args[0] is type(obj):
+        args = args[1:]
+    items = [item for it in reduced[3:5] if it is not None for item in it]
+    return not args and not items
+
+
 class ConstructorFromReduceNode(Node):
     def __init__(
         self,
-- 
2.43.0


From 5c44e0f5eb37bbcba10fedb3af45597496d8bae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:44 +0000
Subject: [PATCH 12/57] fix: refuse slices whose parts json cannot represent

---
 skops/io/_general.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 22a4b57..1c4a5d1 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -383,6 +383,10 @@ class TypeNode(Node):
 
 
 def slice_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    for value in (obj.start, obj.stop, obj.step):
+        if type(value) not in (int, float, str, bool, type(None)):
+            raise UnsupportedTypeException(value)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
-- 
2.43.0


From 21212f8a8aece6732d15c8cf76d87990a27243a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:44 +0000
Subject: [PATCH 13/57] fix: refuse methodcallers with keyword arguments

---
 skops/io/_general.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 1c4a5d1..9efa6f8 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -700,7 +700,10 @@ class BytearrayNode(BytesNode):
 
 
 def operator_func_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-    _, attrs = obj.__reduce__()
+    constructor, attrs = obj.__reduce__()
+    if constructor is not type(obj):
+        # methodcaller with keyword arguments
+        raise UnsupportedTypeException(obj)
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": "operator",
-- 
2.43.0


From c0384f482e473fc823c646e8a7a592065f5a2b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:44 +0000
Subject: [PATCH 14/57] fix: refuse subclasses of partial, bytes and bytearray
 instead of loading the base class

---
 skops/io/_general.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 9efa6f8..1b7ad09 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -305,9 +305,13 @@ class FunctionNode(Node):
 
 
 def partial_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) is not partial:
+        # would be loaded as partial
+        raise UnsupportedTypeException(obj)
+
     _, _, (func, args, kwds, namespace) = obj.__reduce__()
     res = {
-        "__class__": "partial",  # don't allow any subclass
+        "__class__": "partial",
         "__module__": get_module(type(obj)),
         "__loader__": "PartialNode",
         "content": {
@@ -642,6 +646,10 @@ class JsonNode(Node):
 
 
 def bytes_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) not in (bytes, bytearray):
+        # would be loaded as bytes or bytearray
+        raise UnsupportedTypeException(obj)
+
     f_name = f"{uuid.uuid4()}.bin"
     save_context.zip_file.writestr(f_name, obj)
     res = {
-- 
2.43.0


From 108d671a141063acf2fa88d36990426a1bcb2d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:44 +0000
Subject: [PATCH 15/57] fix: refuse tuple subclasses which would be loaded as
 plain tuples

---
 skops/io/_general.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 1b7ad09..593cba8 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -224,6 +224,10 @@ def tuple_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__module__": get_module(type(obj)),
         "__loader__": "TupleNode",
     }
+    if type(obj) is not tuple and not TupleNode.isnamedtuple(type(obj)):
+        # would be loaded as a plain tuple
+        raise UnsupportedTypeException(obj)
+
     content = tuple(get_state(value, save_context) for value in obj)
     res["content"] = content
     return res
@@ -255,7 +259,8 @@ class TupleNode(Node):
             return cls(*content)
         return content
 
-    def isnamedtuple(self, t) -> bool:
+    @staticmethod
+    def isnamedtuple(t) -> bool:
         # This is needed since namedtuples need to have the args when
         # initialized.
         b = t.__bases__
-- 
2.43.0


From e05b9476f7c9804d15058d09741960ab5b29a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 16/57] fix: don't memoize the constructor of a ReduceNode
 under an id of the loading process

---
 skops/io/_sklearn.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index 6bff91c..6f17bbd 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -165,7 +165,6 @@ class ReduceNode(Node):
                 {
                     "__class__": constructor.__name__,
                     "__module__": get_module(constructor),
-                    "__id__": id(constructor),
                 },
                 load_context,
                 trusted=trusted,
-- 
2.43.0


From f67ddc58bd6ff737c70063e820193908696d0d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 17/57] fix: refuse bound methods which cannot be recovered by
 name

---
 skops/io/_general.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 593cba8..e0bba3a 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -576,6 +576,9 @@ def method_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # dependent on a specific instance of an object.
     # It stores the state of the object the method is bound to,
     # and prepares both to be persisted.
+    if getattr(obj.__self__, obj.__func__.__name__, None) != obj:
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(obj),
-- 
2.43.0


From ad3e84139d1c7a17d9f66ab49d7cb51f79a2bca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 18/57] fix: recreate ndarray subclasses as views, refuse those
 with attributes

---
 skops/io/_numpy.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 9c70fcb..1bae06e 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -20,6 +20,13 @@ def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__loader__": "NdArrayNode",
     }
 
+    if isinstance(obj, np.ndarray) and (
+        getattr(obj, "__dict__", None)
+        or (obj.dtype == object and type(obj) is not np.ndarray)
+    ):
+        # the attributes, or the type, would be lost
+        raise UnsupportedTypeException(obj)
+
     if isinstance(obj, (np.str_, np.bytes_)) and np.asarray(obj)[()] != obj:
         # trailing NUL characters are lost when saving with numpy
         raise UnsupportedTypeException(obj)
@@ -94,10 +101,12 @@ class NdArrayNode(Node):
         if self.type == "numpy":
             content = np.load(self.children["content"], allow_pickle=False)
             if f"{self.module_name}.{self.class_name}" != "numpy.ndarray":
+                cls = gettype(self.module_name, self.class_name)
+                if issubclass(cls, np.ndarray):
+                    return content.view(cls)
                 # use the scalar, not the buffer, of a bytes array to avoid
                 # padding
-                arg = content[()] if content.dtype.kind == "S" else content
-                content = gettype(self.module_name, self.class_name)(arg)
+                content = cls(content[()] if content.dtype.kind == "S" else content)
             return content
 
         if self.type == "json":
-- 
2.43.0


From 670aebe9ebb094aa741f17e567726da4e42780b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 19/57] fix: refuse subclasses of numpy and scipy types whose
 type or attributes are lost

---
 skops/io/_numpy.py | 11 +++++++++++
 skops/io/_scipy.py |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 1bae06e..a7698fa 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -130,6 +130,9 @@ class NdArrayNode(Node):
 
 
 def maskedarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) is not np.ma.MaskedArray:
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
@@ -179,6 +182,10 @@ class MaskedArrayNode(Node):
 
 
 def random_state_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if getattr(obj, "__dict__", None):
+        # the attributes of the subclass would be lost
+        raise UnsupportedTypeException(obj)
+
     content = get_state(obj.get_state(legacy=False), save_context)
     res = {
         "__class__": obj.__class__.__name__,
@@ -224,6 +231,10 @@ def get_bit_generator_cls(name: str) -> Any:
 
 
 def random_generator_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if getattr(obj, "__dict__", None):
+        # the attributes of the subclass would be lost
+        raise UnsupportedTypeException(obj)
+
     bit_generator_state = get_state(obj.bit_generator.state, save_context)
     seed_seq_state = get_state(obj.bit_generator.seed_seq.state, save_context)
     res = {
diff --git a/skops/io/_scipy.py b/skops/io/_scipy.py
index e482a1a..14cdf13 100644
--- a/skops/io/_scipy.py
+++ b/skops/io/_scipy.py
@@ -8,9 +8,14 @@ from scipy.sparse import load_npz, save_npz, spmatrix
 from ._audit import Node
 from ._protocol import PROTOCOL
 from ._utils import LoadContext, SaveContext, get_module
+from .exceptions import UnsupportedTypeException
 
 
 def sparse_matrix_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if not type(obj).__module__.startswith("scipy.sparse."):
+        # load_npz only creates scipy's own classes
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
-- 
2.43.0


From 7111d0a154651b6d68d907634bff291f51e6d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 20/57] fix: keep the attributes of subclasses of list, set and
 dict, refuse subclasses of defaultdict

---
 skops/io/_general.py | 65 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 8 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index e0bba3a..daa683b 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -4,7 +4,7 @@ import io
 import json
 import operator
 import uuid
-from collections import defaultdict
+from collections import OrderedDict, defaultdict
 from functools import partial
 from reprlib import Repr
 from types import FunctionType, MethodType
@@ -36,6 +36,33 @@ arepr = Repr()
 arepr.maxstring = 24
 
 
+def _add_attributes(
+    res: dict[str, Any], obj: Any, save_context: SaveContext
+) -> dict[str, Any]:
+    # Instances of subclasses of the builtin containers can have attributes on
+    # top of their content.
+    if type(obj) in (dict, list, set, OrderedDict):
+        return res
+
+    reduced = obj.__reduce_ex__(2)
+    attrs = reduced[2] if len(reduced) > 2 else None
+    if attrs:
+        if not isinstance(attrs, dict):
+            raise UnsupportedTypeException(obj)
+        res["attrs"] = get_state(attrs, save_context)
+    return res
+
+
+def _set_attributes(instance: Any, node: Node) -> Any:
+    if "attrs" in node.children:
+        attrs = node.children["attrs"].construct()  # type: ignore
+        if hasattr(instance, "__setstate__"):
+            instance.__setstate__(attrs)
+        else:
+            instance.__dict__.update(attrs)
+    return instance
+
+
 def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     res = {
         "__class__": obj.__class__.__name__,
@@ -55,7 +82,7 @@ def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         key: get_state(value, save_context)
         for key, value in zip(json_keys, obj.values())
     }
-    return res
+    return _add_attributes(res, obj, save_context)
 
 
 def _get_json_keys(obj: Any) -> list[Any] | None:
@@ -99,6 +126,10 @@ class DictNode(Node):
                 for key, value in state["content"].items()
             },
         }
+        if "attrs" in state:
+            self.children["attrs"] = get_tree(
+                state["attrs"], load_context, trusted=trusted
+            )
 
     def _construct(self):
         content = gettype(self.module_name, self.class_name)()
@@ -106,15 +137,19 @@ class DictNode(Node):
             keys = self.children["keys"].construct()
             for key, val in zip(keys, self.children["content"].values()):
                 content[key] = val.construct()
-            return content
+            return _set_attributes(content, self)
 
         key_types = self.children["key_types"].construct()
         for k_type, (key, val) in zip(key_types, self.children["content"].items()):
             content[k_type(key)] = val.construct()
-        return content
+        return _set_attributes(content, self)
 
 
 def defaultdict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) is not defaultdict:
+        # would be loaded as defaultdict
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
@@ -162,7 +197,7 @@ def list_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     content = [get_state(value, save_context) for value in obj]
 
     res["content"] = content
-    return res
+    return _add_attributes(res, obj, save_context)
 
 
 class ListNode(Node):
@@ -180,10 +215,17 @@ class ListNode(Node):
                 for value in state["content"]
             ]
         }
+        if "attrs" in state:
+            self.children["attrs"] = get_tree(
+                state["attrs"], load_context, trusted=trusted
+            )
 
     def _construct(self):
         content_type = gettype(self.module_name, self.class_name)
-        return content_type([item.construct() for item in self.children["content"]])
+        content = content_type(
+            [item.construct() for item in self.children["content"]]
+        )
+        return _set_attributes(content, self)
 
 
 def set_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
@@ -194,7 +236,7 @@ def set_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     }
     content = [get_state(value, save_context) for value in obj]
     res["content"] = content
-    return res
+    return _add_attributes(res, obj, save_context)
 
 
 class SetNode(Node):
@@ -212,10 +254,17 @@ class SetNode(Node):
                 for value in state["content"]
             ]
         }
+        if "attrs" in state:
+            self.children["attrs"] = get_tree(
+                state["attrs"], load_context, trusted=trusted
+            )
 
     def _construct(self):
         content_type = gettype(self.module_name, self.class_name)
-        return content_type([item.construct() for item in self.children["content"]])
+        content = content_type(
+            [item.construct() for item in self.children["content"]]
+        )
+        return _set_attributes(content, self)
 
 
 def tuple_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-- 
2.43.0


From d61e25d28aa028e11dbea206535eb3475401b0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:26 +0000
Subject: [PATCH 21/57] fix: refuse types and functions whose name refers to
 another object of the module

---
 skops/io/_general.py |  7 +++++++
 skops/io/_utils.py   | 12 ++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index daa683b..63ae34c 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -26,6 +26,7 @@ from ._utils import (
     LoadContext,
     SaveContext,
     _import_obj,
+    check_name,
     get_module,
     get_state,
     gettype,
@@ -44,6 +45,7 @@ def _add_attributes(
     if type(obj) in (dict, list, set, OrderedDict):
         return res
 
+    check_name(type(obj))
     reduced = obj.__reduce_ex__(2)
     attrs = reduced[2] if len(reduced) > 2 else None
     if attrs:
@@ -276,6 +278,7 @@ def tuple_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     if type(obj) is not tuple and not TupleNode.isnamedtuple(type(obj)):
         # would be loaded as a plain tuple
         raise UnsupportedTypeException(obj)
+    check_name(type(obj))
 
     content = tuple(get_state(value, save_context) for value in obj)
     res["content"] = content
@@ -322,6 +325,7 @@ class TupleNode(Node):
 
 
 def function_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    check_name(obj)
     res = {
         "__class__": obj.__name__,
         "__module__": get_module(obj),
@@ -411,6 +415,7 @@ class PartialNode(Node):
 def type_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # To serialize a type, we first need to set the metadata to tell that it's
     # a type, then store the type's info itself in the content field.
+    check_name(obj)
     res = {
         "__class__": obj.__name__,
         "__module__": get_module(obj),
@@ -503,6 +508,8 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
             "is_json": True,
         }
 
+    check_name(type(obj))
+
     # Then we check if the output of __reduce__ is of the form
     # (constructor, (constructor_args,))
     # If the constructor is the same as the object's type, then we consider it
diff --git a/skops/io/_utils.py b/skops/io/_utils.py
index a3519ab..f296ae5 100644
--- a/skops/io/_utils.py
+++ b/skops/io/_utils.py
@@ -10,6 +10,7 @@ from typing import Any, Type
 from zipfile import ZipFile
 
 from ._protocol import PROTOCOL
+from .exceptions import UnsupportedTypeException
 
 
 # The following two functions are copied from cpython's pickle.py file.
@@ -90,6 +91,17 @@ def get_module(obj: Any) -> str:
     return whichmodule(obj, obj.__name__)
 
 
+def check_name(obj: Any) -> None:
+    """Raise if the name of a type or function refers to something else
+
+    This is the case e.g. for nested classes or functions if their module has
+    an attribute of the same name.
+    """
+    module = sys.modules.get(get_module(obj))
+    if getattr(module, obj.__name__, obj) is not obj:
+        raise UnsupportedTypeException(obj)
+
+
 @dataclass(frozen=True)
 class SaveContext:
     """Context required for saving the objects
-- 
2.43.0


From b774c00aa9deead0d9495c800f9fb167a0e2dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 22/57] fix: refuse objects whose reduce state is not their
 __getstate__

---
 skops/io/_general.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 63ae34c..22bdf41 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -515,7 +515,8 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # If the constructor is the same as the object's type, then we consider it
     # safe to call it with the specified arguments.
 
-    reduce_output = obj.__reduce__()
+    # the highest protocol has the most complete output, e.g. the fold of times
+    reduce_output = obj.__reduce_ex__(4)
     if isinstance(reduce_output, tuple):
         # trailing items which are None don't carry information
         while reduce_output and reduce_output[-1] is None:
@@ -538,14 +539,11 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__loader__": "ObjectNode",
     }
 
-    # __getstate__ takes priority over __dict__, and if non exist, we only save
-    # the type of the object, and loading would mean instantiating the object.
-    if hasattr(obj, "__getstate__"):
-        attrs = obj.__getstate__()
-    elif hasattr(obj, "__dict__"):
-        attrs = obj.__dict__
-    else:
+    # If there is neither, we only save the type of the object, and loading would
+    # mean instantiating the object.
+    if not hasattr(obj, "__getstate__") and not hasattr(obj, "__dict__"):
         return res
+    attrs = _state_of(obj)
 
     content = get_state(attrs, save_context)
     # it's sufficient to store the "content" because we know that this dict can
@@ -564,7 +562,22 @@ def _is_recoverable_from_state(obj: Any) -> bool:
     if args and args[0] is type(obj):
         args = args[1:]
     items = [item for it in reduced[3:5] if it is not None for item in it]
-    return not args and not items
+    if args or items:
+        return False
+    # __reduce__ may define another state than the one we're going to persist
+    state = reduced[2] if len(reduced) > 2 else None
+    return state is None or _outline(state) == _outline(_state_of(obj))
+
+
+def _state_of(obj: Any) -> Any:
+    # __getstate__ takes priority over __dict__
+    if hasattr(obj, "__getstate__"):
+        return obj.__getstate__()
+    return getattr(obj, "__dict__", None)
+
+
+def _outline(state: Any) -> tuple[type, Any]:
+    return type(state), list(state) if isinstance(state, dict) else None
 
 
 class ConstructorFromReduceNode(Node):
-- 
2.43.0


From 64f6ac727c4a4ad57ffebfe67d6c299bd451bf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 23/57] fix: don't visit shared nodes more than once when
 auditing

---
 skops/io/_audit.py          | 46 ++++++++++++++++++++-----------------
 skops/io/_general.py        | 10 --------
 skops/io/old/_general_v0.py | 24 +++++++++----------
 3 files changed, 37 insertions(+), 43 deletions(-)

diff --git a/skops/io/_audit.py b/skops/io/_audit.py
index ac93662..14b62d2 100644
--- a/skops/io/_audit.py
+++ b/skops/io/_audit.py
@@ -217,18 +217,19 @@ class Node:
         unsafe_set : set
             A set of unsafe types.
         """
-        if hasattr(self, "_computing_unsafe_set"):
-            # this means we're already computing this node's unsafe set, so we
-            # return an empty set and let the computation of the parent node
-            # continue. This is to avoid infinite recursion.
-            return set()
-
-        with temp_setattr(self, _computing_unsafe_set=True):
-            res = set()
-            if not self.is_self_safe():
-                res.add(self.module_name + "." + self.class_name)
-
-            for child in self.children.values():
+        # Nodes can be shared and even contain themselves, don't visit them more
+        # than once.
+        unsafe: set[str] = set()
+        visited: set[int] = set()
+        to_visit: list[Any] = [self]
+        while to_visit:
+            node = to_visit.pop()
+            if id(node) in visited:
+                continue
+            visited.add(id(node))
+
+            unsafe.update(node._get_own_unsafe_set())
+            for child in node.children.values():
                 if child is None:
                     continue
 
@@ -236,23 +237,20 @@ class Node:
                 # other than ListNode and DictNode, children are all of type Node.
                 if isinstance(child, list):
                     # iterate through the list
-                    for value in child:
-                        res.update(value.get_unsafe_set())
+                    to_visit.extend(child)
                 elif isinstance(child, dict):
                     # iterate through the values of the dict only
                     # TODO: should we check the types of the keys?
-                    for value in child.values():
-                        res.update(value.get_unsafe_set())
+                    to_visit.extend(child.values())
                 elif isinstance(child, Node):
-                    # delegate to the child Node
-                    res.update(child.get_unsafe_set())
+                    to_visit.append(child)
                 elif type(child) is type:
                     # the if condition bellow is not merged with the previous
                     # one because if the above condition is True, the following
                     # conditions about BytesIO, etc should be ignored.
-                    if not check_type(get_module(child), child.__name__, self.trusted):
+                    if not check_type(get_module(child), child.__name__, node.trusted):
                         # if the child is a type, we check its safety
-                        res.add(get_module(child) + "." + child.__name__)
+                        unsafe.add(get_module(child) + "." + child.__name__)
                 elif isinstance(child, (io.BytesIO, str)):
                     # We trust BytesIO objects, which are read by other
                     # libraries such as numpy, scipy. We trust str but have to
@@ -266,7 +264,13 @@ class Node:
                         " for us to fix the issue."
                     )
 
-        return res
+        return unsafe
+
+    def _get_own_unsafe_set(self) -> set[str]:
+        """Get the unsafe types of this node, excluding those of its children."""
+        if self.is_self_safe():
+            return set()
+        return {f"{self.module_name}.{self.class_name}"}
 
     def format(self) -> str:
         """Representation of the node's content."""
diff --git a/skops/io/_general.py b/skops/io/_general.py
index 22bdf41..980192d 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -351,16 +351,6 @@ class FunctionNode(Node):
     def _construct(self):
         return gettype(self.module_name, self.class_name)
 
-    def _get_function_name(self) -> str:
-        return f"{self.module_name}.{self.class_name}"
-
-    def get_unsafe_set(self) -> set[str]:
-        fn_name = self._get_function_name()
-        if (self.trusted is True) or (fn_name in self.trusted):
-            return set()
-
-        return {fn_name}
-
 
 def partial_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     if type(obj) is not partial:
diff --git a/skops/io/old/_general_v0.py b/skops/io/old/_general_v0.py
index 4078227..3829c93 100644
--- a/skops/io/old/_general_v0.py
+++ b/skops/io/old/_general_v0.py
@@ -19,26 +19,26 @@ class FunctionNode(Node):
         super().__init__(state, load_context, trusted)
         # TODO: what do we trust?
         self.trusted = self._get_trusted(trusted, default=SCIPY_UFUNC_TYPE_NAMES)
-        self.children: dict = {"content": state["content"]}
+        self.children = {}
+        self.content = state["content"]
 
     def _construct(self):
         return _import_obj(
-            self.children["content"]["module_path"],
-            self.children["content"]["function"],
+            self.content["module_path"],
+            self.content["function"],
         )
 
     def _get_function_name(self) -> str:  # pragma: no cover
-        return (
-            self.children["content"]["module_path"]
-            + "."
-            + self.children["content"]["function"]
-        )
+        return self.content["module_path"] + "." + self.content["function"]
+
+    def is_self_safe(self) -> bool:
+        return self._get_function_name() in self.trusted
 
-    def get_unsafe_set(self) -> set[str]:  # pragma: no cover
-        if (self.trusted is True) or (self._get_function_name() in self.trusted):
-            return set()
+    def _get_own_unsafe_set(self) -> set[str]:  # pragma: no cover
+        return set() if self.is_self_safe() else {self._get_function_name()}
 
-        return {self._get_function_name()}
+    def format(self) -> str:
+        return self._get_function_name()
 
 
 NODE_TYPE_MAPPING = {
-- 
2.43.0


From 65d0dd6ac04890b2f01076be94cc2ae5aa5fb386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 24/57] fix: use the audited name when loading operator
 functions

---
 skops/io/_general.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 980192d..8d9391c 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -800,7 +800,8 @@ class OperatorFuncNode(Node):
         self.children["attrs"] = get_tree(state["attrs"], load_context, trusted=trusted)
 
     def _construct(self):
-        op = getattr(operator, self.class_name)
+        # resolve the name that was audited, including its module
+        op = gettype(self.module_name, self.class_name)
         attrs = self.children["attrs"].construct()
         return op(*attrs)
 
-- 
2.43.0


From 95099331e2dff311de473d24c8df6ea0f11d7120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 25/57] fix: refuse partial nodes which were audited under
 another name

---
 skops/io/_general.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 8d9391c..0f4521a 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -396,7 +396,10 @@ class PartialNode(Node):
         args = self.children["args"].construct()
         kwds = self.children["kwds"].construct()
         namespace = self.children["namespace"].construct()
-        instance = partial(func, *args, **kwds)  # always use partial, not a subclass
+        if gettype(self.module_name, self.class_name) is not partial:
+            # always use partial, not a subclass
+            raise UnsupportedTypeException(f"{self.module_name}.{self.class_name}")
+        instance = partial(func, *args, **kwds)
         # partial always has __setstate__
         instance.__setstate__((func, args, kwds, namespace))  # type: ignore
         return instance
-- 
2.43.0


From 7c7c2017553493ac9fb316aab73f1a5fb68280e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 26/57] fix: audit the method a bound method node refers to

---
 skops/io/_general.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 0f4521a..11d08ee 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -663,14 +663,30 @@ class MethodNode(Node):
         super().__init__(state, load_context, trusted)
         self.children = {
             "obj": get_tree(state["content"]["obj"], load_context, trusted=trusted),
-            "func": state["content"]["func"],
         }
+        self.func = state["content"]["func"]
         # TODO: what do we trust?
         self.trusted = self._get_trusted(trusted, [])
 
+    def _get_method_name(self) -> str:
+        obj = self.children["obj"]
+        return f"{obj.module_name}.{obj.class_name}.{self.func}"  # type: ignore
+
+    def is_self_safe(self) -> bool:
+        return super().is_self_safe() and self._get_method_name() in self.trusted
+
+    def _get_own_unsafe_set(self) -> set[str]:
+        unsafe = super()._get_own_unsafe_set()
+        if self._get_method_name() not in self.trusted:
+            unsafe.add(self._get_method_name())
+        return unsafe
+
     def _construct(self):
         loaded_obj = self.children["obj"].construct()
-        method = getattr(loaded_obj, self.children["func"])
+        method = getattr(loaded_obj, self.func)
+        if not isinstance(method, MethodType) or method.__self__ is not loaded_obj:
+            # not every attribute is a method, e.g. __class__
+            raise UnsupportedTypeException(self._get_method_name())
         return method
 
 
-- 
2.43.0


From 533056411d00bb2822f77586c3339182c7d48e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 27/57] fix: audit the names of slice and json nodes

---
 skops/io/_general.py | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 11d08ee..f3979d3 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -465,19 +465,16 @@ class SliceNode(Node):
     ) -> None:
         super().__init__(state, load_context, trusted)
         self.trusted = self._get_trusted(trusted, [slice])
-        self.children = {
-            "start": state["content"]["start"],
-            "stop": state["content"]["stop"],
-            "step": state["content"]["step"],
-        }
+        self.children = {}
+        self.content = state["content"]
 
     def _construct(self):
         return slice(
-            self.children["start"], self.children["stop"], self.children["step"]
+            self.content["start"], self.content["stop"], self.content["step"]
         )
 
-    def get_unsafe_set(self):
-        return set()
+    def format(self) -> str:
+        return f"slice({', '.join(repr(value) for value in self.content.values())})"
 
 
 def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
@@ -706,17 +703,6 @@ class JsonNode(Node):
         self.children = {}
         self.trusted = self._get_trusted(trusted, PRIMITIVE_TYPE_NAMES)
 
-    def is_safe(self) -> bool:
-        # JsonNode is always considered safe.
-        # TODO: should we consider a JsonNode always safe?
-        return True
-
-    def is_self_safe(self) -> bool:
-        return True
-
-    def get_unsafe_set(self) -> set[str]:
-        return set()
-
     def _construct(self):
         # parse_constant: by default, json uses the same NaN object each time,
         # which makes sets and dicts treat different NaNs as being equal
-- 
2.43.0


From a57070931b257db79f0d59900b6cf1065de33578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 28/57] fix: don't import the loss class before the audit

---
 skops/io/_sklearn.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index 6f17bbd..b59149c 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -153,18 +153,25 @@ class ReduceNode(Node):
         self,
         state: dict[str, Any],
         load_context: LoadContext,
-        constructor: Type[Any],
+        constructor: Optional[Type[Any]] = None,
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
         reduce = state["__reduce__"]
+        if constructor is None:
+            # the type of the object itself, must not be imported at this point
+            constructor_name = state["__class__"]
+            constructor_module = state["__module__"]
+        else:
+            constructor_name = constructor.__name__
+            constructor_module = get_module(constructor)
         self.children = {
             "attrs": get_tree(state["content"], load_context, trusted=trusted),
             "args": get_tree(reduce["args"], load_context, trusted=trusted),
             "constructor": TypeNode(
                 {
-                    "__class__": constructor.__name__,
-                    "__module__": get_module(constructor),
+                    "__class__": constructor_name,
+                    "__module__": constructor_module,
                 },
                 load_context,
                 trusted=trusted,
@@ -251,12 +258,7 @@ class LossNode(ReduceNode):
         self.trusted = self._get_trusted(
             trusted, [get_module(x) + "." + x.__name__ for x in ALLOWED_LOSSES]
         )
-        super().__init__(
-            state,
-            load_context,
-            constructor=gettype(state["__module__"], state["__class__"]),
-            trusted=self.trusted,
-        )
+        super().__init__(state, load_context, trusted=self.trusted)
 
 
 # TODO: remove once support for sklearn<1.2 is dropped.
-- 
2.43.0


From 0326ef6498ce462a4aa946629cc8f7dbbcb7de05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:06 +0000
Subject: [PATCH 29/57] fix: visualize data whose keys are named like the
 artificial key_types node

---
 skops/io/_visualize.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 3c3c2c3..8cdd7ff 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -8,7 +8,14 @@ from typing import Any, Callable, Iterator, Literal, Optional, Sequence
 from zipfile import ZipFile
 
 from ._audit import VALID_NODE_CHILD_TYPES, Node, get_tree
-from ._general import BytearrayNode, BytesNode, FunctionNode, JsonNode, ListNode
+from ._general import (
+    BytearrayNode,
+    BytesNode,
+    DictNode,
+    FunctionNode,
+    JsonNode,
+    ListNode,
+)
 from ._numpy import NdArrayNode
 from ._scipy import SparseMatrixNode
 from ._utils import LoadContext
@@ -223,8 +230,7 @@ def walk_tree(
         The current node to visit. Children are visited recursively.
 
     node_name: str (default="root")
-        The key to the current node. If "key_types" is encountered, it is
-        skipped.
+        The key to the current node.
 
     level: int (default=0)
         The current level of nesting.
@@ -238,16 +244,9 @@ def walk_tree(
         A dataclass containing the aforementioned information.
 
     """
-    # key_types is not helpful, as it is artificially added by skops to
-    # circumvent the fact that json only allows keys to be strings. It is not
-    # useful to the user and adds a lot of noise, thus skip key_types.
-    if node_name == "key_types":
-        if isinstance(node, ListNode) and node.is_safe():
-            return
-        raise ValueError(
-            "An invalid 'key_types' node was encountered, please report the issue "
-            "here: https://github.com/skops-dev/skops/issues"
-        )
+    if node is None:
+        # e.g. an object without attributes
+        return
 
     if isinstance(node, dict):
         num_nodes = len(node)
@@ -299,8 +298,18 @@ def walk_tree(
     if isinstance(node, SKIPPED_TYPES):
         return
 
+    children = node.children
+    if isinstance(node, DictNode):
+        # key_types is not helpful, as it is artificially added by skops to
+        # circumvent the fact that json only allows keys to be strings. It is not
+        # useful to the user and adds a lot of noise, thus skip key_types, except
+        # if there is more to it than the types of the keys.
+        key_types = children.get("key_types")
+        if isinstance(key_types, ListNode) and key_types.is_safe():
+            children = {k: v for k, v in children.items() if k != "key_types"}
+
     yield from walk_tree(
-        node.children,
+        children,
         node_name=node_name,
         level=level + 1,
     )
-- 
2.43.0


From 2b640849bbc1b50ccdd5d894673f2813ed963986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:06 +0000
Subject: [PATCH 30/57] fix: visualize trusted nodes below untrusted nodes

---
 skops/io/_visualize.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 8cdd7ff..a26f4ef 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import io
 import json
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from pathlib import Path
 from typing import Any, Callable, Iterator, Literal, Optional, Sequence
 from zipfile import ZipFile
@@ -126,13 +126,11 @@ def _traverse_tree(nodes_iter, show, **kwargs):
     yield node, label, 0, True  # node, label, level, is_first_node
 
     prev_level = node.level  # should be 0
+    # whether the nodes on the path from the root to the current node are visible
+    path = [True]
 
     for node in nodes_iter:
-        visible = _check_visibility(node.is_self_safe, node.is_safe, show=show)
-        if not visible:
-            continue
-
-        level_diff = prev_level - node.level
+        level_diff = len(path) - 1 - node.level
         if level_diff < -1:
             # this would mean it is a "(great-)grandchild" node
             raise ValueError(
@@ -141,6 +139,15 @@ def _traverse_tree(nodes_iter, show, **kwargs):
                 "report the issue here: https://github.com/skops-dev/skops/issues"
             )
 
+        visible = _check_visibility(node.is_self_safe, node.is_safe, show=show)
+        path = path[: node.level] + [visible]
+        if not visible:
+            continue
+
+        # nodes whose parent is not visible move up in the tree
+        node = replace(node, level=sum(path) - 1)
+        level_diff = prev_level - node.level
+
         label = _get_node_label(node, **kwargs)
         yield node, label, level_diff, False
         prev_level = node.level
-- 
2.43.0


From 69b09154198dea8560f8012b34a3a5fbfba62034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:06 +0000
Subject: [PATCH 31/57] fix: don't interpret names and values as markup when
 visualizing

---
 skops/io/_visualize.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index a26f4ef..44d5eaf 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -153,6 +153,19 @@ def _traverse_tree(nodes_iter, show, **kwargs):
         prev_level = node.level
 
 
+def _make_printable(nodes_iter: Iterator[NodeInfo]) -> Iterator[NodeInfo]:
+    """Escape characters, e.g. line breaks, which would garble the output."""
+
+    def escape(text: str) -> str:
+        return "".join(
+            char if char.isprintable() else char.encode("unicode_escape").decode()
+            for char in text
+        )
+
+    for node in nodes_iter:
+        yield replace(node, key=escape(node.key), val=escape(node.val))
+
+
 def pretty_print_tree(
     nodes_iter: Iterator[NodeInfo],
     show: Literal["all", "untrusted", "trusted"],
@@ -160,21 +173,29 @@ def pretty_print_tree(
 ) -> None:
     try:
         from rich.console import Console
+        from rich.markup import escape
+        from rich.text import Text
         from rich.tree import Tree
 
         console = Console()
+        nodes_iter = (
+            replace(node, key=escape(node.key), val=escape(node.val))
+            for node in _make_printable(nodes_iter)
+        )
 
         for node, label, level_diff, is_first_node in _traverse_tree(
             nodes_iter, show, **kwargs
         ):
             if is_first_node:
-                tree = Tree(f"{node.key}: {label}", guide_style="gray50")
+                text = Text.from_markup(f"{node.key}: {label}", emoji=False)
+                tree = Tree(text, guide_style="gray50")
                 trees = {0: tree}
                 continue
 
             parent_level = node.level - 1
             parent_tree = trees[parent_level]
-            current_tree = parent_tree.add(f"{node.key}: {label}")
+            text = Text.from_markup(f"{node.key}: {label}", emoji=False)
+            current_tree = parent_tree.add(text)
             trees[node.level] = current_tree
 
         console.print(tree)
@@ -182,7 +203,7 @@ def pretty_print_tree(
     except ImportError:
         prefix = ""
         for node, label, level_diff, is_first_node in _traverse_tree(
-            nodes_iter, show, **kwargs
+            _make_printable(nodes_iter), show, **kwargs
         ):
             if is_first_node:
                 print(f"{node.key}: {label}")
-- 
2.43.0


From a742332ac4931191d944ff829d2f42eec0e09421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:47 +0000
Subject: [PATCH 32/57] fix: only load arrays from the members of array nodes

---
 skops/io/_numpy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index a7698fa..57db05d 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -99,7 +99,10 @@ class NdArrayNode(Node):
     def _construct(self):
         # Dealing with a regular numpy array, where dtype != object
         if self.type == "numpy":
-            content = np.load(self.children["content"], allow_pickle=False)
+            # unlike np.load, this doesn't return a NpzFile for zip files
+            content = np.lib.format.read_array(
+                self.children["content"], allow_pickle=False
+            )
             if f"{self.module_name}.{self.class_name}" != "numpy.ndarray":
                 cls = gettype(self.module_name, self.class_name)
                 if issubclass(cls, np.ndarray):
-- 
2.43.0


From 942790de0ddf27f895f52a5d991768bd651d9fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 33/57] fix: only report the names of bound method nodes which
 are not trusted

---
 skops/io/_general.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index f3979d3..a1b8568 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -673,7 +673,9 @@ class MethodNode(Node):
         return super().is_self_safe() and self._get_method_name() in self.trusted
 
     def _get_own_unsafe_set(self) -> set[str]:
-        unsafe = super()._get_own_unsafe_set()
+        unsafe = set()
+        if not super().is_self_safe():
+            unsafe.add(f"{self.module_name}.{self.class_name}")
         if self._get_method_name() not in self.trusted:
             unsafe.add(self._get_method_name())
         return unsafe
-- 
2.43.0


From b753b9c84fa4f1845feed1daff178e65d946f026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:33 +0000
Subject: [PATCH 34/57] fix: visualize the untrusted cells of object arrays

---
 skops/io/_visualize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 44d5eaf..34335ec 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -324,7 +324,10 @@ def walk_tree(
     # otherwise something nefarious could be hidden inside (however, if there
     # is, the node should be marked as unsafe)
     if isinstance(node, SKIPPED_TYPES):
-        return
+        # the cells of object arrays, on the other hand, can be anything
+        is_object_array = isinstance(node, NdArrayNode) and node.type == "json"
+        if not is_object_array or node.is_safe():
+            return
 
     children = node.children
     if isinstance(node, DictNode):
-- 
2.43.0


From da8afb58431a349b49b37fe965b1e6d366d51ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:49 +0000
Subject: [PATCH 35/57] fix: don't hang on random generators with a huge
 entropy pool

---
 skops/io/_numpy.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 57db05d..70a7be7 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -249,6 +249,11 @@ def random_generator_get_state(obj: Any, save_context: SaveContext) -> dict[str,
     return res
 
 
+# The time for creating a SeedSequence grows quadratically with its pool size, 4
+# is the default.
+MAX_POOL_SIZE = 4096
+
+
 class RandomGeneratorNode(Node):
     def __init__(
         self,
@@ -274,6 +279,8 @@ class RandomGeneratorNode(Node):
             "SeedSequence",
         )
         seed_seq_state = self.children["seed_seq_state"].construct()
+        if seed_seq_state.get("pool_size", 0) > MAX_POOL_SIZE:
+            raise ValueError("The pool size of the seed sequence is too large")
         seed_seq = seed_seq_cls(**seed_seq_state)
 
         bit_generator_state = self.children["bit_generator_state"].construct()
-- 
2.43.0


From 514090433fe1331617050c5c76f2fab75e0e32eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:06 +0000
Subject: [PATCH 36/57] fix: refuse dict keys and slices with surrogate pairs,
 which json merges

---
 skops/io/_general.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index a1b8568..831cc61 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -87,6 +87,11 @@ def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     return _add_attributes(res, obj, save_context)
 
 
+def _is_changed_by_json(text: str) -> bool:
+    # json merges surrogate pairs
+    return not text.isascii() and json.loads(json.dumps(text)) != text
+
+
 def _get_json_keys(obj: Any) -> list[Any] | None:
     """Keys to use for a json object, or None if those would be ambiguous.
 
@@ -103,6 +108,8 @@ def _get_json_keys(obj: Any) -> list[Any] | None:
             key = key.item()
         if type(key) not in (str, int, float):
             return None
+        if isinstance(key, str) and _is_changed_by_json(key):
+            return None
         keys.append(key)
     if len({key if isinstance(key, str) else json.dumps(key) for key in keys}) < len(
         keys
@@ -442,6 +449,8 @@ def slice_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     for value in (obj.start, obj.stop, obj.step):
         if type(value) not in (int, float, str, bool, type(None)):
             raise UnsupportedTypeException(value)
+        if isinstance(value, str) and _is_changed_by_json(value):
+            raise UnsupportedTypeException(value)
 
     res = {
         "__class__": obj.__class__.__name__,
@@ -486,10 +495,9 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # excluded because json would turn them into their base class.
     if type(obj) in (str, int, float, bool, type(None)):
         # if we can simply use json, then we're done.
-        obj_str = json.dumps(obj)
-        if isinstance(obj, str) and json.loads(obj_str) != obj:
-            # json merges surrogate pairs
+        if isinstance(obj, str) and _is_changed_by_json(obj):
             raise UnsupportedTypeException(obj)
+        obj_str = json.dumps(obj)
         return {
             "__class__": "str",
             "__module__": "builtins",
-- 
2.43.0


From 60b6f96a586bef5426c7bbcfc211fda06897b63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:09 +0000
Subject: [PATCH 37/57] fix: write valid json for slices with nan or infinity

---
 skops/io/_general.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 831cc61..b9d118b 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import io
 import json
+import math
 import operator
 import uuid
 from collections import OrderedDict, defaultdict
@@ -452,14 +453,20 @@ def slice_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         if isinstance(value, str) and _is_changed_by_json(value):
             raise UnsupportedTypeException(value)
 
+    def get_content(value):
+        if isinstance(value, float) and not math.isfinite(value):
+            # cannot be part of a json file
+            return get_state(value, save_context)
+        return value
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
         "__loader__": "SliceNode",
         "content": {
-            "start": obj.start,
-            "stop": obj.stop,
-            "step": obj.step,
+            "start": get_content(obj.start),
+            "stop": get_content(obj.stop),
+            "step": get_content(obj.step),
         },
     }
     return res
@@ -474,16 +481,31 @@ class SliceNode(Node):
     ) -> None:
         super().__init__(state, load_context, trusted)
         self.trusted = self._get_trusted(trusted, [slice])
-        self.children = {}
-        self.content = state["content"]
+        self.children = {
+            key: get_tree(value, load_context, trusted=trusted)
+            for key, value in state["content"].items()
+            if isinstance(value, dict)
+        }
+        self.content = {**state["content"], **self.children}
 
     def _construct(self):
         return slice(
-            self.content["start"], self.content["stop"], self.content["step"]
+            *(
+                value.construct() if isinstance(value, Node) else value
+                for value in (
+                    self.content["start"],
+                    self.content["stop"],
+                    self.content["step"],
+                )
+            )
         )
 
     def format(self) -> str:
-        return f"slice({', '.join(repr(value) for value in self.content.values())})"
+        values = (
+            value.format() if isinstance(value, Node) else repr(value)
+            for value in self.content.values()
+        )
+        return f"slice({', '.join(values)})"
 
 
 def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-- 
2.43.0


From c93e732adf915b329cf59bd88e6af26b321899ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:18 +0000
Subject: [PATCH 38/57] fix: only restore dtypes from arrays

---
 skops/io/_numpy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 70a7be7..ed83a8f 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -328,7 +328,10 @@ class DTypeNode(Node):
     def _construct(self):
         # we use numpy's internal save mechanism to store the dtype by
         # saving/loading an empty array with that dtype.
-        dtype = self.children["content"].construct().dtype
+        content = self.children["content"].construct()
+        if not isinstance(content, np.ndarray):
+            raise TypeError(f"Expected an array with a dtype, got {type(content)}.")
+        dtype = content.dtype
         return dtype if self.field is None else dtype[self.field]
 
 
-- 
2.43.0


From c0c1ea215058adaa265849d3a93e6224e2212045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 39/57] fix: keep escaped slashes at the ends of section names
 and the unit separator

---
 skops/card/_model_card.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index c635f0a..46a9526 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -70,10 +70,9 @@ def split_subsection_names(key: str) -> list[str]:
         The individual (sub)sections.
 
     """
-    placeholder = "\x1f"  # unit separator control character (ASCII control char 31)
-    key = key.replace("\\/", placeholder)
-    parts = (part.strip() for part in key.split("/"))
-    return [part.replace(placeholder, "/") for part in parts]
+    # split on slashes that are not escaped
+    parts = (part.strip() for part in re.split(r"(?<!\\)/", key))
+    return [part.replace("\\/", "/") for part in parts]
 
 
 @dataclass
-- 
2.43.0


From 3f1797fc01d7b8b84ff11b53113dd813dc6e96d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 40/57] fix: don't list the subsections of folded sections in
 the table of contents

---
 skops/card/_model_card.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 46a9526..480ea4c 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -1272,7 +1272,7 @@ class Card:
             title = val.title
             yield title, level
 
-            if val.subsections:
+            if val.subsections and not val.folded:
                 yield from self._iterate_key_section_content(
                     val.subsections,
                     level=level + 1,
-- 
2.43.0


From f1673991fff4eecfa8bbf04a675d8f730d5bca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 41/57] fix: use the title of each plot as its default alt text

---
 skops/card/_model_card.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 480ea4c..49580a4 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -859,11 +859,10 @@ class Card:
         description = description or ""
         for section_name, plot_path in kwargs.items():
             title = split_subsection_names(section_name)[-1]
-            alt_text = alt_text or title
             section = PlotSection(
                 title=title,
                 content=description,
-                alt_text=alt_text,
+                alt_text=alt_text or title,
                 path=plot_path,
                 folded=folded,
             )
-- 
2.43.0


From 87fb752fee759923f2bc1ebd3991b65a5017b630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 42/57] fix: use the last part of the path as title of a table

---
 skops/card/_model_card.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 49580a4..3a982e3 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -928,8 +928,9 @@ class Card:
         """
         description = description or ""
         for key, val in kwargs.items():
+            title = split_subsection_names(key)[-1]
             section = TableSection(
-                title=key, content=description, table=val, folded=folded
+                title=title, content=description, table=val, folded=folded
             )
             self._add_single(key, section)
         return self
-- 
2.43.0


From 9b8d3a13b93678abab119ca072631ad6df7dccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 43/57] fix: keep line breaks, pipes and the names of columns
 in markdown tables

---
 skops/card/_model_card.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 3a982e3..3784fe8 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -11,7 +11,7 @@ from functools import cached_property
 from hashlib import sha256
 from pathlib import Path
 from reprlib import Repr
-from typing import Any, Iterator, List, Literal, Optional, Sequence
+from typing import Any, Iterable, Iterator, List, Literal, Optional, Sequence
 
 import joblib
 from prettytable import PrettyTable, TableStyle
@@ -199,15 +199,7 @@ class TableSection(Section):
             raise ValueError("Trying to add table with no columns")
 
     def format(self) -> str:
-        table = PrettyTable()
-        table.set_style(TableStyle.MARKDOWN)
-        for key, values in self.table.items():
-            # replace \n with <br /> (html new line tag) so that line breaks are
-            # not converted into new rows with PrettyTable.
-            values = [str(value).replace("\n", "<br />") for value in values]
-            table.add_column(key, values)
-
-        table = table.get_string()
+        table = _format_table(self.table.items())
 
         val = wrap_as_details(table, folded=self.folded)
 
@@ -226,6 +218,25 @@ class TableSection(Section):
         return f"{self.__class__.__name__}({nrows}x{ncols})"
 
 
+def _format_table(columns: Iterable[tuple[Any, Sequence[Any]]]) -> str:
+    """Format the columns, given by their names and values, as markdown table"""
+
+    def format_cell(value: Any) -> str:
+        # replace \n with <br /> (html new line tag) so that line breaks are not
+        # converted into new rows, and escape | so that it does not end the cell
+        text = re.sub("\r\n|\r|\n", "<br />", str(value))
+        return text.replace("|", "\\|")
+
+    table = PrettyTable()
+    table.set_style(TableStyle.MARKDOWN)
+    for key, values in columns:
+        values = [format_cell(value) for value in values]
+        # for tables without rows, PrettyTable takes the name's length as width,
+        # but the delimiter row needs at least 3 characters
+        table.add_column(format_cell(key).center(3), values)
+    return table.get_string()
+
+
 def _load_model(model: Any, trusted=False) -> Any:
     """Return a model instance.
 
-- 
2.43.0


From d941bb7a8a29a250ddcc43f1ad48f4fa6722e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 44/57] fix: restore the indentation if an element could not be
 converted

---
 skops/card/_markup.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 2e42a25..078bf8b 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -71,8 +71,10 @@ class Markdown:
     def _indented(self, *, spaces: int):
         """Temporarily increment indentation by one"""
         self._indent_trace.append(spaces)
-        yield
-        self._indent_trace.pop(-1)
+        try:
+            yield
+        finally:
+            self._indent_trace.pop(-1)
 
     def _get_indent(self, *, incr: int = 0) -> str:
         """Get current indentation, optionally incremented"""
-- 
2.43.0


From 272bb8dc56351cb2b1d7e26f5ca54b546c49ee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 45/57] fix: do not modify the figures of the parsed document

---
 skops/card/_markup.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 078bf8b..35e2e61 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -171,9 +171,8 @@ class Markdown:
         if body_type != "Plain":
             raise ValueError(f"Cannot deal with figure of type '{body_type}'")
 
-        plain_fig = body["c"][0]["c"]
-        plain_fig[2][1] = "fig:"
-        return self._image(plain_fig)
+        attr, fig_caption, (dest, _) = body["c"][0]["c"]
+        return self._image((attr, fig_caption, (dest, "fig:")))
 
     @staticmethod
     def _code_block(item: tuple[tuple[int, list[str], list[str]], str]) -> str:
-- 
2.43.0


From 59e5fb77efa24626fedcd6cac9d4ded5e356d4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 46/57] fix: add one section per header of a parsed document

---
 skops/card/_parser.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/skops/card/_parser.py b/skops/card/_parser.py
index 35a0ad4..9e3179d 100644
--- a/skops/card/_parser.py
+++ b/skops/card/_parser.py
@@ -59,12 +59,19 @@ class PandocParser:
             raise ValueError(f"Markup of type {markup_type} is not supported (yet)")
 
     def _add_section(
-        self, section_name: str, card: Card, section_trace: list[str]
+        self, section_name: str, card: Card, section_trace: list[tuple[int, Section]]
     ) -> Section:
         # Add a new section to the card, which can be a subsection, and return
-        # it.
-        section_name = "/".join(section_trace)
-        cur_section = card._add_single(section_name, "")
+        # it. The section is not added by its path because the titles are taken
+        # verbatim, e.g. a slash is part of the title.
+        sections = section_trace[-1][1].subsections if section_trace else card._data
+        cur_section = Section(title=section_name, content="")
+        # there can be several headers of the same name
+        key, count = section_name, 1
+        while key in sections:
+            count += 1
+            key = f"{section_name} ({count})"
+        sections[key] = cur_section
         return cur_section
 
     def _add_content(self, content: str, section: Section | None) -> None:
@@ -86,9 +93,7 @@ class PandocParser:
             # should we require each Formattable to have an update method?
             raise ValueError(f"Could not modify content of {section.content}")
 
-    def _parse_header(
-        self, item: PandocItem, section_trace: list[str]
-    ) -> tuple[str, int]:
+    def _parse_header(self, item: PandocItem) -> tuple[str, int]:
         # Headers are the only type of item that needs to be handled
         # differently. This is because we structure the underlying model card
         # data as a tree with nodes corresponding to headers. To assign the
@@ -119,7 +124,8 @@ class PandocParser:
             model card.
         """
         section: Section | None = None
-        section_trace: list[str] = []
+        # the sections that contain the current one and their levels
+        section_trace: list[tuple[int, Section]] = []
         card = Card(None, template=None)
 
         # Parsing the flat structure, not recursively as in pandocfilters. After
@@ -128,10 +134,12 @@ class PandocParser:
         # nodes.
         for item in json.loads(self.source)["blocks"]:
             if item["t"] == "Header":
-                content, level = self._parse_header(item, section_trace=section_trace)
+                content, level = self._parse_header(item)
                 res = self._post_process(content)
-                section_trace = section_trace[: level - 1] + [res]
+                while section_trace and section_trace[-1][0] >= level:
+                    section_trace.pop()
                 section = self._add_section(res, card=card, section_trace=section_trace)
+                section_trace.append((level, section))
             else:
                 res = self._post_process(self.mapping(item))
                 self._add_content(res, section=section)
-- 
2.43.0


From 425f8f8d68c16383ab2db44f7d255d73b881b9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 47/57] fix: keep all cells of the tables of a parsed document

---
 skops/card/_markup.py | 56 +++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 35e2e61..8a09597 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -3,11 +3,10 @@
 from __future__ import annotations
 
 import sys
-from collections.abc import Mapping
 from contextlib import contextmanager
-from typing import Any, Sequence
+from typing import Any
 
-from skops.card._model_card import TableSection
+from skops.card._model_card import _format_table
 
 if sys.version_info.minor >= 9:
     from typing import TypedDict
@@ -192,9 +191,8 @@ class Markdown:
 
     def _table_cols_old(self, items) -> list[str]:
         columns = []
-        for (content,) in items:
-            column = self.__call__(content)
-            columns.append(column)
+        for content in items:
+            columns.append("\n".join(self.__call__(part) for part in content))
         return columns
 
     def _table_cols_new(self, items) -> list[str]:  # pragma: no cover
@@ -202,7 +200,7 @@ class Markdown:
         fn = self.__call__
         for item in items:
             _, alignment, _, _, content = item
-            column = "".join(fn(part) for part in content)
+            column = "\n".join(fn(part) for part in content)
             columns.append(column)
         return columns
 
@@ -211,11 +209,7 @@ class Markdown:
         for row_items in items:
             row = []
             for col_row_item in row_items:
-                if not col_row_item:
-                    content = ""
-                else:
-                    content = col_row_item[0]
-                row.append(self.__call__(content))
+                row.append("\n".join(self.__call__(part) for part in col_row_item))
             body.append(row)
         return body
 
@@ -226,7 +220,7 @@ class Markdown:
             row = []
             for col_row_item in row_items:
                 _, alignment, _, _, content = col_row_item
-                row.append("".join(fn(part) for part in content))
+                row.append("\n".join(fn(part) for part in content))
             body.append(row)
         return body
 
@@ -240,15 +234,19 @@ class Markdown:
     def _table_new(self, item) -> tuple[list[str], list[list[str]]]:  # pragma: no cover
         # pandoc >= 2.10
         # attr capt specs thead tbody tfoot
-        _, _, _, thead, tbody, _ = item
-        # header
-        (_, thead_bodies) = thead
-        (attr, thead_body) = thead_bodies[0]  # multiple headers?
-        columns = self._table_cols_new(thead_body)
-        # rows
-        # attr rhc hd bd
-        _, _, _, trows = tbody[0]  # multiple groups of rows?
-        body = self._table_body_new(trows)
+        _, _, specs, thead, tbody, tfoot = item
+        # header, which can be missing, markdown allows for a single row
+        (_, trows) = thead
+        columns = [""] * len(specs)
+        if trows:
+            (attr, thead_body), *trows = trows
+            columns = self._table_cols_new(thead_body)
+        # groups of rows
+        for _, _, hd, bd in tbody:
+            # attr rhc hd bd
+            trows = trows + hd + bd
+        (_, foot_rows) = tfoot
+        body = self._table_body_new(trows + foot_rows)
         return columns, body
 
     def _table(self, item) -> str:
@@ -259,16 +257,10 @@ class Markdown:
             # pandoc < 2.5
             columns, body = self._table_old(item)
 
-        table: Mapping[str, Sequence[Any]]
-        if not body:
-            table = {key: [] for key in columns}
-        else:
-            # body is row oriented, transpose to column oriented
-            data_transposed = zip(*body)
-            table = {key: val for key, val in zip(columns, data_transposed)}
-
-        res = TableSection(title="", content="", table=table).format()
-        return res
+        # body is row oriented, transpose to column oriented; this is not a dict
+        # because several columns can have the same name
+        data_transposed = zip(*body) if body else [() for _ in columns]
+        return _format_table(zip(columns, data_transposed))
 
     def _parse_div(self, item) -> str:
         # note that in markdown, we basically just use the raw html
-- 
2.43.0


From 08df20d3614e20671fdfacf8ad1d3dcec3d7b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 48/57] fix: use a fence which does not end inside the code

---
 skops/card/_markup.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 8a09597..4f4dc65 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import re
 import sys
 from contextlib import contextmanager
 from typing import Any
@@ -177,10 +178,12 @@ class Markdown:
     def _code_block(item: tuple[tuple[int, list[str], list[str]], str]) -> str:
         # a codeblock consists of: (id, classes, namevals) contents
         (_, classes, _), content = item
-        block_start = "```"
+        # the fence has to be longer than those inside the code
+        fences = re.findall("`{3,}", content)
+        block_end = "`" * max([3] + [len(fence) + 1 for fence in fences])
+        block_start = block_end
         if classes:
             block_start += ", ".join(classes)
-        block_end = "```"
         content = "\n".join((block_start, content, block_end))
         return content
 
-- 
2.43.0


From d6e7a2ae307e3d0bc70e90f5c6aaba07aa85578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 49/57] fix: keep the outline if a text looks like a header

---
 skops/card/_markup.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 4f4dc65..5a07eec 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -85,9 +85,15 @@ class Markdown:
     def _space(value) -> str:
         return " "
 
+    @staticmethod
+    def _escape_headers(text: str) -> str:
+        # escape lines of a text that would turn it, or the line before, into a
+        # header
+        return re.sub(r"(?m)^([ ]*)(?=#{1,6}(\s|$)|(-+|=+)[ ]*$)", r"\1\\", text)
+
     def _plain(self, value) -> str:
         parts = [self.__call__(subitem) for subitem in value]
-        return "".join(parts)
+        return self._escape_headers("".join(parts))
 
     @staticmethod
     def _str(value) -> str:
@@ -139,11 +145,12 @@ class Markdown:
 
     def _para(self, value: list[dict[str, str]]) -> str:
         content = self._make_content(value)
-        return content
+        return self._escape_headers(content)
 
     def _header(self, value: tuple[int, Any, list[dict[str, str]]]) -> str:
         level, _, content_parts = value
-        section_name = self._make_content(content_parts)
+        # the header must not span several lines
+        section_name = self._make_content(content_parts).replace("\n", " ")
         return section_name
 
     def _image(self, value) -> str:
-- 
2.43.0


From e64f1b67ca45b08dd7a089e42aa7ff51703ed469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 50/57] fix: indent code blocks in lists

---
 skops/card/_markup.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 5a07eec..6af5e3e 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -308,7 +308,14 @@ class Markdown:
 
     def _make_list_item(self, items: str, list_marker: str):
         # helper function used for bullet and ordered lists
-        parts = [self.__call__(subitem) for subitem in items]
+        parts = []
+        for subitem in items:
+            part = self.__call__(subitem)
+            if isinstance(subitem, dict) and subitem["t"] == "CodeBlock":
+                # code that is not indented is not part of the list item
+                indent = self._get_indent(incr=self._indent_trace[-1])
+                part = (indent if parts else "") + part.replace("\n", "\n" + indent)
+            parts.append(part)
         content = "\n".join(parts)
         return f"{self._get_indent()}{list_marker} {content}"
 
-- 
2.43.0


From c26cf080f8aea8d3a57be330145339e14ba84238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 51/57] fix: keep the outline if a text looks like a fence or a
 div holds code

---
 skops/card/_markup.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 6af5e3e..940098e 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -88,8 +88,13 @@ class Markdown:
     @staticmethod
     def _escape_headers(text: str) -> str:
         # escape lines of a text that would turn it, or the line before, into a
-        # header
-        return re.sub(r"(?m)^([ ]*)(?=#{1,6}(\s|$)|(-+|=+)[ ]*$)", r"\1\\", text)
+        # header, or that would start a block of code, which hides headers
+        text = re.sub(r"(?m)^([ ]*)(?=#{1,6}(\s|$)|(-+|=+)[ ]*$)", r"\1\\", text)
+        return re.sub(
+            r"(?m)^([ ]*)(`{3,}(?=[^`\n]*$)|~{3,})",
+            lambda match: match[1] + "".join("\\" + char for char in match[2]),
+            text,
+        )
 
     def _plain(self, value) -> str:
         parts = [self.__call__(subitem) for subitem in value]
@@ -179,7 +184,8 @@ class Markdown:
             raise ValueError(f"Cannot deal with figure of type '{body_type}'")
 
         attr, fig_caption, (dest, _) = body["c"][0]["c"]
-        return self._image((attr, fig_caption, (dest, "fig:")))
+        content = self._image((attr, fig_caption, (dest, "fig:")))
+        return self._escape_headers(content)
 
     @staticmethod
     def _code_block(item: tuple[tuple[int, list[str], list[str]], str]) -> str:
@@ -297,7 +303,12 @@ class Markdown:
         middle = []
         for content in contents:
             with self._indented(spaces=2):
-                middle.append(self.__call__(content))
+                part = self.__call__(content)
+            if content["t"] not in ("Plain", "RawBlock", "Div"):
+                if content["t"] != "Para" or len(contents) > 1:
+                    # e.g. the fences of code need lines of their own
+                    part = f"\n\n{part}\n\n"
+            middle.append(part)
         end = "</div>"
         return "".join([start] + middle + [end])
 
-- 
2.43.0


From b1e25f6830a4f753df741571f19e970aa4e14734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 52/57] fix: don't convert a pickle file into itself

---
 skops/cli/_convert.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skops/cli/_convert.py b/skops/cli/_convert.py
index 7d630c1..9f0e6bd 100644
--- a/skops/cli/_convert.py
+++ b/skops/cli/_convert.py
@@ -32,6 +32,12 @@ def _convert_file(
     """
     model_name = pathlib.Path(input_file).stem
 
+    if os.path.exists(output_file) and os.path.samefile(input_file, output_file):
+        raise ValueError(
+            f"The output file {output_file} is the input file. Please choose another"
+            " output file."
+        )
+
     logger.debug(f"Converting {model_name}")
 
     with open(input_file, "rb") as f:
-- 
2.43.0


From 563c33bf104b8044d0ceb031a435b336da51521f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 53/57] fix: replace the destination of an update atomically,
 wherever it is

---
 skops/cli/_update.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/skops/cli/_update.py b/skops/cli/_update.py
index e3edecc..bd8b63d 100644
--- a/skops/cli/_update.py
+++ b/skops/cli/_update.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import argparse
 import json
 import logging
-import shutil
+import os
 import tempfile
 import zipfile
 from pathlib import Path
@@ -13,6 +13,12 @@ from skops.io import dump, get_untrusted_types, load
 from skops.io._protocol import PROTOCOL
 
 
+def _same_path(file: str | Path, other: str | Path) -> bool:
+    """Whether both paths denote the same entry of a directory"""
+    file, other = Path(file), Path(other)
+    return file.name == other.name and file.parent.resolve() == other.parent.resolve()
+
+
 def _update_file(
     input_file: str | Path,
     output_file: str | Path | None = None,
@@ -48,6 +54,12 @@ def _update_file(
                 " file."
             )
 
+    elif output_file is not None and _same_path(input_file, output_file):
+        raise ValueError(
+            "The output file is the input file. Please use the `inplace` flag to"
+            " overwrite the input file."
+        )
+
     input_model = load(input_file, trusted=get_untrusted_types(file=input_file))
     with zipfile.ZipFile(input_file, "r") as zip_file:
         input_file_schema = json.loads(zip_file.read("schema.json"))
@@ -74,10 +86,12 @@ def _update_file(
         )
         return None
 
-    with tempfile.TemporaryDirectory() as tmp_dir:
-        tmp_output_file = Path(tmp_dir) / f"{output_file}.tmp"
+    # Write to the directory of the output file, because a file can only be replaced
+    # atomically by one of the same file system.
+    with tempfile.TemporaryDirectory(dir=Path(output_file).parent) as tmp_dir:
+        tmp_output_file = Path(tmp_dir) / "updated.skops"
         dump(input_model, tmp_output_file)
-        shutil.move(str(tmp_output_file), str(output_file))
+        os.replace(tmp_output_file, output_file)
     logger.info(f"Updated skops file written to {output_file}")
 
 
-- 
2.43.0


From e9727850c3852120b8cbb16869454c4cbebd0efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 54/57] fix: persist np.matrix, whose only attribute is set on
 each view

---
 skops/io/_numpy.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index ed83a8f..8f750d3 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -13,6 +13,18 @@ from ._utils import LoadContext, SaveContext, get_module, get_state, gettype
 from .exceptions import UnsupportedTypeException
 
 
+def _has_lost_attributes(obj: np.ndarray) -> bool:
+    # Whether there are attributes which are not those that a view, which is how
+    # subclasses of ndarray are loaded, has anyway, as is the case for np.matrix.
+    attrs = getattr(obj, "__dict__", None)
+    if not attrs:
+        return False
+    new_attrs = vars(np.asarray(obj).view(type(obj)))
+    return attrs.keys() != new_attrs.keys() or any(
+        new_attrs[key] is not val for key, val in attrs.items()
+    )
+
+
 def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     res = {
         "__class__": obj.__class__.__name__,
@@ -21,8 +33,8 @@ def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     }
 
     if isinstance(obj, np.ndarray) and (
-        getattr(obj, "__dict__", None)
-        or (obj.dtype == object and type(obj) is not np.ndarray)
+        (obj.dtype == object and type(obj) is not np.ndarray)
+        or _has_lost_attributes(obj)
     ):
         # the attributes, or the type, would be lost
         raise UnsupportedTypeException(obj)
-- 
2.43.0


From 1cf3e00a8764a5a27eae6833f34a1b9269d5b8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:08 +0000
Subject: [PATCH 55/57] fix: keep the order of the axes of arrays which are not
 contiguous

---
 skops/io/_numpy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 8f750d3..0346eee 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -57,7 +57,12 @@ def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
             res["shape"] = get_state(obj.shape, save_context)
         else:
             data_buffer = io.BytesIO()
-            np.save(data_buffer, obj, allow_pickle=False)
+            arr = obj
+            if not obj.flags.forc:
+                # numpy saves views which are not contiguous in C order. Keep the
+                # order of the axes, as results of BLAS depend on it.
+                arr = obj.copy(order="K")
+            np.save(data_buffer, arr, allow_pickle=False)
             # Memoize the object and then check if it's file name (containing
             # the object id) already exists. If it does, there is no need to
             # save the object again. Memoizitation is necessary since for
-- 
2.43.0


From b152910280ef1c5c8b101bc6a91742f8807d8241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 56/57] fix: save the figure of the permutation importances,
 not the current one

---
 skops/card/_model_card.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 3784fe8..f069ef1 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -1027,7 +1027,7 @@ class Card:
                 " different filename for the plot."
             )
         sorted_importances_idx = permutation_importances.importances_mean.argsort()
-        _, ax = plt.subplots()
+        fig, ax = plt.subplots()
         boxplot(
             ax,
             x=permutation_importances.importances[sorted_importances_idx].T,
@@ -1036,7 +1036,7 @@ class Card:
         )
         ax.set_title(plot_name)
         ax.set_xlabel("Decrease in Score")
-        plt.savefig(plot_file)
+        fig.savefig(plot_file)
         self.add_plot(description=description, alt_text=None, **{plot_name: plot_file})
 
         return self
-- 
2.43.0


From 77e4c7ee7baf19e4a7c5f0fb89fe1652363a5c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 57/57] fix: check the nodes of a tree before restoring it

---
 skops/io/_sklearn.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index b59149c..edf5af9 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from typing import Any, Optional, Sequence, Type
 
+import numpy as np
 from sklearn.cluster import Birch
 from sklearn.tree._tree import Tree
 
@@ -224,6 +225,19 @@ class TreeNode(ReduceNode):
         self.trusted = self._get_trusted(trusted, [get_module(Tree) + ".Tree"])
         super().__init__(state, load_context, constructor=Tree, trusted=self.trusted)
 
+    def _construct(self):
+        # Tree.__setstate__ accesses the length of the nodes before validating
+        # them, and never validates their count.
+        attrs = self.children["attrs"].construct()
+        if isinstance(attrs, dict) and "nodes" in attrs:
+            shape = np.shape(attrs["nodes"])
+            if shape != (attrs.get("node_count"),):
+                raise ValueError(
+                    f"Expected a tree with {attrs.get('node_count')} nodes, got nodes "
+                    f"of shape {shape}"
+                )
+        return super()._construct()
+
 
 def loss_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     reduce = obj.__reduce__()
-- 
2.43.0

