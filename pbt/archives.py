"""Forged and mutated skops archives as JSON specs, and their assembly."""
from __future__ import annotations

import copy
import io
import json
import pickle
import re
import zipfile

import numpy as np

from . import objs
from .core import Skip

from skops.io._protocol import PROTOCOL as PROTO

# ---------------------------------------------------------------------------
# assembly


class _Evil:
    def __reduce__(self):
        import pbtcan_pickle

        return (pbtcan_pickle.fn_evil, ())


def member_bytes(m) -> bytes:
    kind = m[0]
    if kind == "raw":
        return bytes.fromhex(m[1])
    buf = io.BytesIO()
    if kind == "npy":
        np.save(buf, objs.fill(objs.mk_dtype(m[1]), m[2], m[3]), allow_pickle=False)
    elif kind == "npypickle":
        # an object array whose pickle payload calls a canary
        arr = np.empty(1, dtype=object)
        arr[0] = 1
        np.save(buf, arr, allow_pickle=True)
        head = buf.getvalue()[: -len(_pickled_tail(buf.getvalue()))]
        return head + b"cpbtcan_pickle\nfn_evil\n(tR."
    elif kind == "pickle":
        return b"cpbtcan_pickle\nfn_evil\n(tR."
    elif kind == "npz":
        arrs = {f"a{i}": objs.fill(objs.mk_dtype(d), s, k) for i, (d, s, k) in enumerate(m[1])}
        np.savez(buf, **arrs)
    elif kind == "sparse":
        import scipy.sparse as sp

        sp.save_npz(buf, objs.build(m[1]))
    elif kind == "npzfmt":
        # forged npz with a chosen 'format' entry
        np.savez(buf, format=np.array(m[1].encode()), shape=np.array([2, 2]), data=np.ones(2), indices=np.array([0, 1]),
                 indptr=np.array([0, 1, 2]), row=np.array([0, 1]), col=np.array([0, 1]), offsets=np.array([0]))
    elif kind == "npyhead":
        # the header of an npy file with a chosen dtype / expression, followed by a pickle
        head = m[1].encode() + b"\n"
        head = head[:-1] + b" " * (-(len(head) + 10) % 64) + b"\n"
        return b"\x93NUMPY\x01\x00" + len(head).to_bytes(2, "little") + head + EVIL_PICKLE
    elif kind == "npzparts":
        # a sparse archive in which some of the arrays are pickled objects
        evil = member_bytes(["npypickle"])
        arrs = dict(format=np.array(m[1].encode()), shape=np.array([2, 2]), data=np.ones(2), indices=np.array([0, 1]), indptr=np.array([0, 1, 2]))
        with zipfile.ZipFile(buf, "w") as z:
            for name, arr in arrs.items():
                one = io.BytesIO()
                np.save(one, arr)
                z.writestr(name + ".npy", evil if name in m[2] else one.getvalue())
            for name in m[2]:
                if name not in arrs:
                    z.writestr(name, evil)
    else:
        raise ValueError(kind)
    return buf.getvalue()


EVIL_PICKLE = b"cpbtcan_pickle\nfn_evil\n(tR."


def _pickled_tail(b):
    n = int.from_bytes(b[8:10], "little")
    return b[10 + n:]


def zip_bytes(schema, members, compression=zipfile.ZIP_STORED, extra=(), first=()):
    buf = io.BytesIO()

    def add(name, m):
        info = zipfile.ZipInfo(name, date_time=(2020, 1, 1, 0, 0, 0))
        info.compress_type = compression
        z.writestr(info, m)

    with zipfile.ZipFile(buf, "w", compression=compression) as z:
        for name, m in first:
            add(name, m)
        for name, m in members.items():
            add(name, member_bytes(m) if isinstance(m, list) else m)
        for name, m in extra:
            add(name, m)
        if schema is not None:
            add("schema.json", schema if isinstance(schema, (str, bytes)) else json.dumps(schema))
    return buf.getvalue()


# ---------------------------------------------------------------------------
# normalisation of real archives


def read(data: bytes):
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        return json.loads(z.read("schema.json")), {n: z.read(n) for n in z.namelist() if n != "schema.json"}


def nodes(schema):
    """All state dicts in document order (pre-order), with their path."""
    out = []

    def rec(x, path):
        if isinstance(x, dict):
            if isinstance(x.get("__loader__"), str):
                out.append((path, x))
            for k, v in x.items():
                if isinstance(v, (dict, list)):
                    rec(v, path + (k,))
        elif isinstance(x, list):
            for i, v in enumerate(x):
                if isinstance(v, (dict, list)):
                    rec(v, path + (i,))

    rec(schema, ())
    return out


def dicts(schema):
    """Every dict (nodes and plain ones) with its path."""
    out = []

    def rec(x, path):
        if isinstance(x, dict):
            out.append((path, x))
            for k, v in x.items():
                rec(v, path + (k,))
        elif isinstance(x, list):
            for i, v in enumerate(x):
                rec(v, path + (i,))

    rec(schema, ())
    return out


def normalise(schema, members=None):
    """Rename ids and member files in order of appearance; -> (schema, members, idmap)."""
    schema = copy.deepcopy(schema)
    ids, files = {}, {}
    for _, st in nodes(schema):
        if "__id__" in st:
            st["__id__"] = ids.setdefault(st["__id__"], len(ids) + 1)
        if isinstance(st.get("file"), str):
            f = st["file"]
            st["file"] = files.setdefault(f, f"m{len(files)}.{f.rpartition('.')[2]}")
    mem = None
    if members is not None:
        mem = {files.get(k, "unreferenced:" + k): v for k, v in members.items()}
    return schema, mem


# ---------------------------------------------------------------------------
# the names an archive contains, found syntactically (no skops code)


def names_of(schema):
    """Fully qualified names the archive mentions in any name position."""
    out = set()
    for _, st in nodes(schema):
        m, c = st.get("__module__"), st.get("__class__")
        if isinstance(m, str) and isinstance(c, str):
            out.add(f"{m}.{c}")
        content = st.get("content")
        if isinstance(content, dict):
            mp, fn = content.get("module_path"), content.get("function")
            if isinstance(mp, str) and isinstance(fn, str):
                out.add(f"{mp}.{fn}")
            fn, ob = content.get("func"), content.get("obj")
            if isinstance(fn, str) and isinstance(ob, dict):
                m, c = ob.get("__module__"), ob.get("__class__")
                if isinstance(m, str) and isinstance(c, str):
                    out.add(f"{m}.{c}.{fn}")
    return out


def modules_of(schema, names=None):
    """Every module an archive names, and prefixes of it."""
    out = set()
    for n in names_of(schema) if names is None else names:
        parts = n.split(".")
        for i in range(1, len(parts)):
            out.add(".".join(parts[:i]))
    for m in {m for _, st in nodes(schema) if isinstance(m := st.get("__module__"), str)}:
        if m:
            parts = m.split(".")
            for i in range(1, len(parts) + 1):
                out.add(".".join(parts[:i]))
    return out


# ---------------------------------------------------------------------------
# grammar

CAN_MODS = ["pbtcan_a", "pbtcan_b.sub", "pbtcan_a", "pbtcan", "pbtcan_c._impl", "pbtcan_c._x.y", "pbtcan_pre", "pbtcan_pre.sub"]
CAN_NAMES = ["Evil", "fn_evil", "attrgetter", "partial", "dict", "list", "int", "str", "sqrt", "LogisticRegression", "ndarray", "Tree",
             "method", "MT19937", "RandomState", "Generator", "float64", "spmatrix", "dtype", "CyPinballLoss", "MaskedArray", "slice",
             "bytes", "set", "tuple", "Other"]
DECOYS = [("operator", "attrgetter"), ("operator", "methodcaller"), ("operator", "length_hint"), ("operator", "call"), ("builtins", "eval"), ("builtins", "exec"),
          ("builtins", "getattr"), ("builtins", "open"), ("builtins", "type"), ("builtins", "object"), ("builtins", "compile"),
          ("builtins", "__import__"), ("os", "system"), ("os", "getcwd"), ("os", "listdir"), ("subprocess", "Popen"),
          ("functools", "partial"), ("functools", "reduce"), ("numpy", "load"), ("numpy", "fromfile"), ("numpy", "loadtxt"), ("numpy", "memmap"),
          ("numpy", "frompyfunc"), ("numpy", "array"), ("numpy", "save"), ("numpy.random", "seed"), ("numpy.random", "rand"), ("numpy.random", "default_rng"),
          ("numpy.random", "get_state"), ("sklearn.utils", "all_estimators"), ("sklearn", "set_config"), ("sklearn.base", "clone"),
          ("sklearn.base", "BaseEstimator"), ("sklearn.utils", "Bunch"), ("sklearn.utils._bunch", "Bunch"),
          ("numpy.random._pickle", "__randomstate_ctor"), ("numpy.random.bit_generator", "SeedSequence"), ("numpy.ctypeslib", "load_library"),
          ("scipy.sparse", "load_npz"), ("scipy.io", "loadmat"), ("scipy.special", "errstate"), ("scipy.special", "logsumexp"), ("importlib", "import_module"), ("types", "FunctionType"), ("types", "CodeType"),
          ("pickle", "loads"), ("joblib", "load"), ("collections", "Counter"), ("collections", "namedtuple"), ("decimal", "Decimal"), ("pathlib", "PosixPath"),
          ("datetime", "date"), ("io", "FileIO"), ("ctypes", "CDLL"), ("logging", "FileHandler"), ("sklearn.datasets", "load_iris"),
          ("sklearn.tree._tree", "TreeBuilder"), ("sklearn.tree._tree", "BestFirstTreeBuilder"), ("skops.io._audit", "Node"), ("skops.io", "loads")]
NEAR = [("numpy", "sqrt "), ("numpy.", "ndarray"), ("Numpy", "ndarray"), ("numpy", "Ndarray"), ("builtins", "Dict"), ("builtin", "dict"), ("", "dict"),
        ("builtins.dict", "fromkeys"), ("numpy.ndarray", "tofile"), ("sklearn.linear_model", "LogisticRegression"), ("builtins.int", "from_bytes"),
        ("sklearn.linear_model._logistic.LogisticRegression", "fit"), ("collections", "OrderedDict.fromkeys"), ("__builtin__", "int")]

OK = {
    "DictNode": [("builtins", "dict"), ("builtins", "dict"), ("collections", "OrderedDict")],
    "DefaultDictNode": [("collections", "defaultdict")], "ListNode": [("builtins", "list")], "SetNode": [("builtins", "set")],
    "TupleNode": [("builtins", "tuple")], "BytesNode": [("builtins", "bytes")], "BytearrayNode": [("builtins", "bytearray")],
    "SliceNode": [("builtins", "slice")],
    "FunctionNode": [("numpy", "sqrt"), ("numpy", "add"), ("scipy.special._ufuncs", "expit"), ("scipy.special", "expit")],
    "MethodNode": [("sklearn.linear_model._logistic", "method"), ("builtins", "method")], "PartialNode": [("functools", "partial")],
    "TypeNode": [("builtins", "int"), ("builtins", "str"), ("builtins", "float"), ("builtins", "list"), ("numpy", "float64"), ("builtins", "map"), ("numpy", "int64"), ("numpy", "str_")],
    "ConstructorFromReduceNode": [("datetime", "date"), ("decimal", "Decimal")],
    "ObjectNode": [("sklearn.linear_model._logistic", "LogisticRegression"), ("sklearn.preprocessing._data", "StandardScaler"),
                   ("sklearn.pipeline", "Pipeline"), ("sklearn.preprocessing._function_transformer", "FunctionTransformer")],
    "JsonNode": [("builtins", "str")],
    "OperatorFuncNode": [("operator", "attrgetter"), ("operator", "itemgetter"), ("operator", "methodcaller")],
    "NdArrayNode": [("numpy", "ndarray"), ("numpy", "ndarray"), ("numpy", "float64"), ("numpy", "int64"), ("numpy", "object_"), ("numpy", "str_")],
    "MaskedArrayNode": [("numpy.ma.core", "MaskedArray"), ("numpy.ma", "MaskedArray")],
    "DTypeNode": [("numpy", "dtype")], "RandomStateNode": [("numpy.random.mtrand", "RandomState")],
    "RandomGeneratorNode": [("numpy.random._generator", "Generator")],
    "SparseMatrixNode": [("scipy.sparse._csr", "csr_matrix"), ("scipy.sparse._matrix", "spmatrix")],
    "TreeNode": [("sklearn.tree._tree", "Tree")],
    "LossNode": [("sklearn.linear_model._sgd_fast", "Hinge"), ("sklearn.linear_model._sgd_fast", "Huber"), ("_loss", "CyPinballLoss"), ("_loss", "CyHalfSquaredError")],
    "QuantileForestNode": [("quantile_forest._quantile_forest_fast", "QuantileForest")],
    "CachedNode": [("builtins", "dict"), ("builtins", "list")],
    "_DictWithDeprecatedKeysNode": [("sklearn.covariance._graph_lasso", "_DictWithDeprecatedKeys"), ("skops.io._sklearn", "_DictWithDeprecatedKeys")],
    "NopeNode": [("builtins", "dict")],
}
LOADERS = sorted(OK)
# members every archive may refer to (written only when referenced)
MEMBERS = {
    "a.npy": ["npy", "<f8", [2, 3], 1], "b.npy": ["npy", "<i8", [], 2], "c.npy": ["npy", "U3", [2], 3], "s.npy": ["npy", "S3", [], 4],
    "v.npy": ["npy", {"fields": [["a", "<f8", []], ["b", "U2", []]], "align": False}, [3], 5], "z.npy": ["npy", "?", [0], 6],
    "p.npy": ["npypickle"], "p.pkl": ["pickle"], "t.npz": ["npz", [["<f8", [2], 1], ["<i4", [1], 2]]],
    "csr.npz": ["sparse", ["sparse", "csr", "matrix", "<f8", [3, 2], 7, "plain"]],
    "dia.npz": ["sparse", ["sparse", "dia", "array", "<f8", [3, 3], 8, "plain"]],
    "evil.npz": ["npzfmt", "load"], "dok.npz": ["npzfmt", "dok"], "x.bin": ["raw", "00ff41"], "../up.bin": ["raw", "4142"], "/tmp/abs.bin": ["raw", "43"],
    "p0.npy": ["npyhead", "{'descr': '|O', 'fortran_order': False, 'shape': (), }"],
    "pv.npy": ["npyhead", "{'descr': [('a', '|O'), ('b', '<f8')], 'fortran_order': False, 'shape': (), }"],
    "pv1.npy": ["npyhead", "{'descr': [('a', '|O')], 'fortran_order': False, 'shape': (1,), }"],
    "ps.npy": ["npyhead", "{'descr': ('|O', (2,)), 'fortran_order': True, 'shape': (1,), }"],
    "eval.npy": ["npyhead", "{'descr': __import__('pbtcan_pickle').fn_evil(), 'fortran_order': False, 'shape': (1,), }"],
    "pfmt.npz": ["npzparts", "csr", ["format"]], "pdata.npz": ["npzparts", "csr", ["data"]], "pind.npz": ["npzparts", "csc", ["indices", "indptr"]],
    "pshape.npz": ["npzparts", "bsr", ["shape"]], "pall.npz": ["npzparts", "csr", ["format", "shape", "data", "indices", "indptr"]],
    "pextra.npz": ["npzparts", "csr", ["arr_0.npy", "_is_array.npy"]],
    "schema.bin": ["raw", ""], "sub/dir.npy": ["npy", "<f4", [2], 9],
}
HOSTILE_FILES = ["p.npy", "p0.npy", "pv.npy", "pv1.npy", "ps.npy", "eval.npy", "p.pkl", "pfmt.npz", "pdata.npz", "pind.npz", "pshape.npz", "pall.npz", "pextra.npz",
                 "evil.npz", "x.bin"]
RAW_RNG = {  # json-able generator states
    "PCG64": lambda: json_state("PCG64"), "MT19937": lambda: json_state("MT19937"),
}


def json_state(name):
    st = getattr(np.random, name)(5).state

    def conv(x):
        if isinstance(x, dict):
            return {k: conv(v) for k, v in x.items()}
        if isinstance(x, np.ndarray):
            return x.tolist()
        return int(x) if isinstance(x, (int, np.integer)) else x

    return conv(st)


class Grammar:
    """Strategies of schema states.  p_bad: chance that a name is not the proper one."""

    def __init__(self, p_bad=25, loaders=None):
        from hypothesis import strategies as st

        self.st = st
        self.p_bad = p_bad
        self.any_name = st.one_of(
            st.tuples(st.sampled_from(CAN_MODS), st.sampled_from(CAN_NAMES)), st.tuples(st.sampled_from(CAN_MODS), st.sampled_from(CAN_NAMES)),
            st.sampled_from(DECOYS), st.sampled_from(NEAR), st.sampled_from([n for v in OK.values() for n in v]))
        self.node = st.composite(lambda draw, depth=3, want=None: self.draw_node(draw, depth, want))
        self.root = self.node()

    def draw_name(self, draw, loader):
        st = self.st
        if draw(st.integers(0, 99)) < self.p_bad:
            return draw(self.any_name)
        return draw(st.sampled_from(OK[loader]))

    def base(self, draw, loader):
        m, c = self.draw_name(draw, loader)
        s = {"__class__": c, "__module__": m, "__loader__": loader}
        r = draw(self.st.integers(0, 19))
        if r < 6:
            s["__id__"] = r + 1
        elif r == 6:
            s["__id__"] = draw(self.st.sampled_from([0, "x", 2**64, 1.0, True]))
        return s

    def draw_node(self, draw, depth, want=None):
        st = self.st
        it = draw(st.integers(0, 39))
        if want is None or it == 0:
            if depth <= 0:
                loader = draw(st.sampled_from(["JsonNode", "JsonNode", "TypeNode", "FunctionNode", "NdArrayNode", "BytesNode", "ObjectNode", "SliceNode", "OperatorFuncNode", "LossNode", "SparseMatrixNode", "CachedNode"]))
            else:
                loader = draw(st.sampled_from(LOADERS + ["DictNode", "ListNode", "ObjectNode", "ObjectNode", "OperatorFuncNode", "MethodNode", "PartialNode", "FunctionNode", "TypeNode"]))
        elif isinstance(want, str):
            loader = want
        else:
            loader = draw(st.sampled_from(list(want)))
        return self.make(draw, loader, depth - 1)

    CALL = ("FunctionNode", "FunctionNode", "TypeNode", "PartialNode", "OperatorFuncNode", "MethodNode", "ObjectNode")

    def json(self, draw, text=None):
        s = self.base(draw, "JsonNode")
        if text is None:
            text = draw(self.st.sampled_from(["1", "null", '"a"', "true", "1.5", "NaN", '"real"', '"__class__"', '"__init__.__globals__"', '"danger"', "[1, 2]",
                                              '{"a": 1}', '"echo"', "0", "2", '"x"',
                                              "__import__('pbtcan_pickle').fn_evil()", "[__import__('pbtcan_pickle').fn_evil()]", "!!python/object/apply:pbtcan_pickle.fn_evil []"]))
        s.update(content=text, is_json=True)
        return s

    def seq(self, draw, loader, depth, lo=0, hi=3, items=None):
        s = self.base(draw, loader)
        if items is None:
            items = [self.draw_node(draw, depth) for _ in range(draw(self.st.integers(lo, hi)))]
        s["content"] = items
        if draw(self.st.integers(0, 24)) == 0:
            s["attrs"] = self.mapping(draw, depth)
        return s

    def mapping(self, draw, depth, keys=None, vals=None):
        st = self.st
        s = self.base(draw, "DictNode")
        if keys is None:
            keys = draw(st.lists(st.sampled_from(["a", "b", "1", "coef_", "key_types", "func", "steps", "dtype", "n"]), max_size=3, unique=True))
        if vals is None:
            vals = [self.draw_node(draw, depth) for _ in keys]
        if draw(st.integers(0, 9)) == 0:
            s["keys"] = self.seq(draw, "ListNode", depth, items=[self.draw_node(draw, depth - 1, ("JsonNode", "TypeNode", "TupleNode", "FunctionNode")) for _ in keys])
        else:
            if draw(st.integers(0, 7)) == 0:
                kts = [self.draw_node(draw, 1, ("TypeNode", "FunctionNode", "OperatorFuncNode", "PartialNode")) for _ in keys]
            else:
                kts = [{"__class__": "str", "__module__": "builtins", "__loader__": "TypeNode"} for _ in keys]
            s["key_types"] = {"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "content": kts}
        s["content"] = dict(zip(keys, vals))
        return s

    def make(self, draw, loader, depth):
        st = self.st
        if loader == "JsonNode":
            return self.json(draw)
        if loader in ("ListNode", "SetNode", "TupleNode"):
            return self.seq(draw, loader, depth)
        if loader == "DictNode":
            return self.mapping(draw, depth)
        s = self.base(draw, loader)
        if loader in ("DefaultDictNode", "_DictWithDeprecatedKeysNode"):
            s["content"] = {"main": self.mapping(draw, depth), "default_factory": self.draw_node(draw, depth, self.CALL),
                            "_deprecated_key_to_new_key": self.mapping(draw, 0)}
        elif loader in ("BytesNode", "BytearrayNode"):
            s["file"] = draw(st.sampled_from(["x.bin", "../up.bin", "/tmp/abs.bin", "p.pkl", "schema.json", "missing.bin", "a.npy"]))
        elif loader == "SliceNode":
            v = st.sampled_from([None, 1, -2, "a", 1.5])
            s["content"] = {k: self.draw_node(draw, depth) if draw(st.integers(0, 5)) == 0 else draw(v) for k in ("start", "stop", "step")}
        elif loader == "FunctionNode":
            if draw(st.integers(0, 3)) == 0:
                m, c = self.draw_name(draw, loader)
                s["content"] = {"module_path": m, "function": c}
        elif loader == "MethodNode":
            s["content"] = {"obj": self.draw_node(draw, depth, ("ObjectNode", "ObjectNode", "NdArrayNode", "DictNode", "RandomGeneratorNode", "OperatorFuncNode", "PartialNode")),
                            "func": draw(st.sampled_from(["danger", "other", "prop", "fit", "predict", "__class__", "__init__", "tofile", "get_params",
                                                          "__reduce__", "bit_generator", "__dict__", "Evil.danger"]))}
        elif loader == "PartialNode":
            s["content"] = {"func": self.draw_node(draw, depth, self.CALL), "args": self.seq(draw, "TupleNode", depth, hi=2),
                            "kwds": self.mapping(draw, 0, keys=draw(st.lists(st.sampled_from(["a", "out"]), max_size=1))),
                            "namespace": self.json(draw, "null") if draw(st.booleans()) else self.mapping(draw, 0)}
        elif loader == "ConstructorFromReduceNode":
            s["content"] = self.seq(draw, "TupleNode", depth) if draw(st.integers(0, 5)) else self.draw_node(draw, depth)
        elif loader == "ObjectNode":
            if draw(st.integers(0, 6)):
                s["content"] = self.mapping(draw, depth) if draw(st.integers(0, 5)) else self.draw_node(draw, depth)
        elif loader == "OperatorFuncNode":
            s["attrs"] = self.seq(draw, "TupleNode", depth, items=[self.json(draw) for _ in range(draw(st.integers(0, 2)))]) if draw(st.integers(0, 3)) else self.seq(draw, "TupleNode", depth)
        elif loader == "NdArrayNode":
            if draw(st.integers(0, 2)):
                s.update(type="numpy", file=draw(st.sampled_from(["a.npy", "b.npy", "c.npy", "s.npy", "v.npy", "z.npy", "p.npy", "p.pkl", "t.npz", "csr.npz", "x.bin", "missing.npy", "sub/dir.npy"] + HOSTILE_FILES)))
            else:
                items = [self.draw_node(draw, depth) for _ in range(draw(st.integers(0, 2)))]
                s.update(type="json", content=items, shape=self.seq(draw, "TupleNode", 0, items=[self.json(draw, str(len(items)))]))
        elif loader == "MaskedArrayNode":
            s["content"] = {"data": self.draw_node(draw, depth, ("NdArrayNode",)), "mask": self.draw_node(draw, depth, ("NdArrayNode", "JsonNode"))}
            if draw(st.booleans()):
                s["content"]["fill_value"] = self.draw_node(draw, depth, ("NdArrayNode", "JsonNode"))
            if draw(st.booleans()):
                s["content"]["hard_mask"] = self.draw_node(draw, depth, ("JsonNode", "TypeNode"))
        elif loader == "DTypeNode":
            s["content"] = self.draw_node(draw, depth, ("NdArrayNode", "ObjectNode"))
            if draw(st.booleans()):
                s["field"] = draw(st.sampled_from(["f0", "a", 0, None, "__class__"]))
        elif loader in ("RandomStateNode", "RandomGeneratorNode"):
            names = ["MT19937", "PCG64", "PCG64", "seed", "rand", "default_rng", "get_state", "RandomState", "Generator", "BitGenerator", "SeedSequence", "test", "mtrand", "Evil", "random_sample", "bytes"]
            bg = draw(st.sampled_from(names))
            raw = json_state(bg if bg in ("MT19937", "PCG64") else "PCG64")
            raw["bit_generator"] = bg
            if loader == "RandomStateNode":
                raw.setdefault("has_gauss", 0)
                raw.setdefault("gauss", 0.0)
                s["content"] = self.json(draw, json.dumps(raw))
                if draw(st.integers(0, 5)) == 0:
                    s["content"] = self.draw_node(draw, depth)
            else:
                how = draw(st.integers(0, 3))
                if how == 0:
                    s["content"] = {"bit_generator": raw, "seed_seq": {}}
                else:
                    seq = draw(st.sampled_from(['{"entropy": 1, "spawn_key": [], "pool_size": 4, "n_children_spawned": 0}', "{}", '{"entropy": 1}', '{"eval": 1}', "[]"]))
                    s["content"] = {"bit_generator": self.json(draw, json.dumps(raw)), "seed_seq": self.json(draw, seq)}
        elif loader == "SparseMatrixNode":
            s.update(type=draw(st.sampled_from(["scipy", "scipy", "scipy", "numpy"])),
                     file=draw(st.sampled_from(["csr.npz", "dia.npz", "evil.npz", "dok.npz", "t.npz", "a.npy", "p.npy", "p.pkl", "missing.npz"] + HOSTILE_FILES)))
        elif loader in ("TreeNode", "LossNode", "QuantileForestNode"):
            if loader == "TreeNode" and draw(st.booleans()):
                args = self.seq(draw, "TupleNode", 0, items=[self.json(draw, "1"), {"__class__": "ndarray", "__module__": "numpy", "__loader__": "NdArrayNode", "type": "numpy", "file": "m1.npy"}, self.json(draw, "1")])
            else:
                args = self.seq(draw, "TupleNode", depth, items=[self.json(draw, x) for x in draw(st.sampled_from([[], ["1.0"], ["0.5"], ["1", "2"]]))]) if draw(st.integers(0, 3)) else self.draw_node(draw, depth)
            s["__reduce__"] = {"args": args}
            if draw(st.integers(0, 5)) == 0:
                m, c = draw(self.any_name)
                s["__reduce__"]["constructor"] = {"__class__": c, "__module__": m, "__loader__": "TypeNode"}
            s["content"] = self.mapping(draw, 0) if draw(st.integers(0, 3)) else self.draw_node(draw, depth)
        return s


EXTRA_MEMBERS = {"m1.npy": ["npy", "<i8", [1], 11]}


def schema_with_header(schema, protocol):
    s = dict(schema)
    s["protocol"] = protocol
    s["_skops_version"] = "0.11.0"
    return s


_member_cache = {}


def members_for(schema):
    out = {}
    for _, st in nodes(schema):
        f = st.get("file")
        if isinstance(f, str) and f != "schema.json":
            m = MEMBERS.get(f) or EXTRA_MEMBERS.get(f)
            if m is not None:
                if f not in _member_cache:
                    _member_cache[f] = member_bytes(m)
                out[f] = _member_cache[f]
    return out


# ---------------------------------------------------------------------------
# mutated real dumps

_corpus = None


def corpus():
    """Normalised schemas + members of real dumps: name -> (schema, members)."""
    global _corpus
    if _corpus is None:
        from . import corpus as c

        _corpus = c.build()
    return _corpus


def corpus_names():
    from . import corpus as c

    return c.NAMES


def edit_strategy(values=None):
    """One edit of a schema: [op, selector, ...]."""
    from hypothesis import strategies as st

    g = Grammar(p_bad=50)
    sel = st.integers(0, 400)
    anyname = g.any_name.map(list)
    junk = st.sampled_from([None, 0, 1, -1, 2**63, 1.5, "", "x", True, [], {}, [1], {"a": 1}, "NaN", [[]], "schema.json", "../x"])
    return st.one_of(
        st.tuples(st.just("name"), sel, anyname),
        st.tuples(st.just("name"), sel, anyname),
        st.tuples(st.just("loader"), sel, st.sampled_from(LOADERS)),
        st.tuples(st.just("module"), sel, anyname.map(lambda n: n[0])),
        st.tuples(st.just("class"), sel, anyname.map(lambda n: n[1])),
        st.tuples(st.just("replace"), sel, g.node(2)),
        st.tuples(st.just("insert"), sel, st.sampled_from(["attrs", "keys", "key_types", "content", "constructor", "cls", "extra", "fill_value", "namespace"]), g.node(1)),
        st.tuples(st.just("file"), sel, st.sampled_from(HOSTILE_FILES)),
        st.tuples(st.just("id"), sel, sel),
        st.tuples(st.just("copyover"), sel, sel),
        st.tuples(st.just("del"), sel, st.integers(0, 8)),
        st.tuples(st.just("set"), sel, st.integers(0, 8), junk),
        st.tuples(st.just("wrap"), sel, st.integers(1, 4)),
    ).map(list)


def apply_edits(schema, edits):
    s = pickle.loads(pickle.dumps(schema))
    for e in edits:
        ns = nodes(s)
        if not ns:
            break
        path, nd = ns[e[1] % len(ns)]
        op = e[0]
        if op == "name":
            nd["__module__"], nd["__class__"] = e[2]
        elif op == "module":
            nd["__module__"] = e[2]
        elif op == "class":
            nd["__class__"] = e[2]
        elif op == "loader":
            nd["__loader__"] = e[2]
        elif op == "file":
            nd["file"] = e[2]
            nd.setdefault("type", "numpy")
        elif op == "insert":
            nd[e[2]] = copy.deepcopy(e[3])
        elif op == "id":
            other = ns[e[2] % len(ns)][1]
            if "__id__" in other:
                nd["__id__"] = other["__id__"]
        elif op in ("replace", "copyover", "wrap"):
            if op == "replace":
                new = copy.deepcopy(e[2])
            elif op == "copyover":
                new = copy.deepcopy(ns[e[2] % len(ns)][1])
            else:
                new = copy.deepcopy(nd)
                for _ in range(e[2]):
                    new = {"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "content": [new]}
            keep = {k: nd[k] for k in ("protocol", "_skops_version") if k in nd}
            nd.clear()
            nd.update(new)
            if not path:
                nd.update(keep)
        elif op in ("del", "set"):
            ds = dicts(nd)
            d = ds[e[2] % len(ds)][1] if e[2] < len(ds) else nd
            keys = [k for k in d if k not in ("protocol", "_skops_version")]
            if keys:
                k = keys[(e[2] * 7 + e[1]) % len(keys)]
                if op == "del":
                    del d[k]
                else:
                    d[k] = copy.deepcopy(e[3])
    return s


def _strip(x, prefix):
    """A node without ids (they belong to another archive), with its members renamed."""
    if isinstance(x, dict):
        out = {k: _strip(v, prefix) for k, v in x.items() if k not in ("__id__", "protocol", "_skops_version")}
        if isinstance(out.get("file"), str):
            out["file"] = prefix + out["file"]
        return out
    if isinstance(x, list):
        return [_strip(v, prefix) for v in x]
    return x


_grafts = None


def graft_tables():
    """(slots, donors): one place for every (parent loader, position) and one node for every loader, plus odd values."""
    global _grafts
    if _grafts is None:
        from . import corpus as c

        slots, dons, seen = {}, [], set()
        for n in corpus_names():
            if corpus()[n] is None:
                continue
            sch = corpus()[n][0]
            by_path = {p: s for p, s in nodes(sch)}
            for i, (path, s) in enumerate(nodes(sch)):
                key = ()
                for j in range(len(path) - 1, -1, -1):
                    if path[:j] in by_path:
                        par = by_path[path[:j]]
                        rel = tuple(q if isinstance(q, str) and par["__loader__"] not in ("DictNode",) else "*" if isinstance(q, str) else min(q, 2) for q in path[j:])
                        if par["__loader__"] == "DictNode" and path[j] != "content":
                            rel = path[j:j + 1] + ("*",) * (len(path) - j - 1)
                        if par["__loader__"] == "DictNode" and path[j] == "content" and j >= 1:
                            # attributes and states: the name matters
                            rel = path[j:] if n in ("rng", "tree", "sgd", "gbc", "masked", "objarr") else rel
                        key = (par["__loader__"], rel)
                        break
                slots.setdefault(key, (n, i))
                k = (s["__loader__"], s["__class__"] if s["__loader__"] not in ("JsonNode", "TypeNode", "FunctionNode", "ObjectNode", "ConstructorFromReduceNode") else "")
                if k not in seen:
                    seen.add(k)
                    dons.append((n, i))
        dons += [(n, 0) for n in c.donors()]
        _grafts = sorted(slots.values()), dons
    return _grafts


def graft(n, i, dn, di):
    """Corpus archive n with its i-th node replaced by the di-th node of dn."""
    from . import corpus as c

    base, mem = corpus()[n]
    don, dmem = (corpus() if dn in corpus() else c.donors())[dn]
    s = pickle.loads(pickle.dumps(base))
    path, nd = nodes(s)[i]
    new = _strip(nodes(don)[di][1], "g_")
    keep = {k: nd[k] for k in ("protocol", "_skops_version") if k in nd}
    nd.clear()
    nd.update(new)
    nd.update(keep)
    used = json.dumps(new)
    return s, {**mem, **{"g_" + k: v for k, v in dmem.items() if "g_" + k in used}}


def graft_cases(stride=1, offset=0):
    """Every slot x every donor (or every stride-th of them)."""
    sl, dn = graft_tables()
    out = []
    for i, (n, k) in enumerate(sl):
        for j, (d, q) in enumerate(dn):
            if (i + j * (len(sl) // 2 + 1) + offset) % stride == 0:
                out.append(["graft", n, k, d, q, PROTO])
    return out


def corrupt_protocol(schema, p):
    s = dict(schema)
    s["protocol"] = p
    return s


def realise(spec):
    """spec -> (schema, members: name->bytes, archive bytes)"""
    kind = spec[0]
    if kind == "forged":
        schema = schema_with_header(spec[1], spec[2])
        mem = members_for(schema)
    elif kind == "mut":
        if corpus()[spec[1]] is None:
            raise Skip()
        base, mem = corpus()[spec[1]]
        schema = apply_edits(base, spec[2])
        if isinstance(schema, dict):
            schema["protocol"] = spec[3]
        mem = {**members_for(schema), **mem}
    elif kind == "graft":
        if corpus()[spec[1]] is None:
            raise Skip()
        schema, mem = graft(*spec[1:5])
        schema["protocol"] = spec[5]
        mem = {**members_for(schema), **mem}
    elif kind == "big":
        schema, mem = big(spec[1], spec[2], spec[4])
        schema["protocol"] = PROTO
        return schema, mem, zip_bytes(schema, mem, compression=spec[3])
    else:
        raise ValueError(kind)
    return schema, mem, zip_bytes(schema, mem)


# ---------------------------------------------------------------------------
# large archives: what is only done beyond some size

BIG = [["bytes", 2**16 - 1], ["bytes", 2**16 + 1], ["bytes", 2**20 + 1], ["bytes", 2**23 + 1], ["bytearray", 2**16 + 1], ["bytearray", 2**22 + 1], ["array", 2**13 + 1], ["array", 2**17 + 1],
       ["array", 2**20 + 1], ["text", 2**16 + 1], ["text", 2**20 + 1], ["textarray", 2**14], ["sparse", 20000], ["sparse", 300000], ["list", 300], ["list", 1100], ["list", 5000], ["dict", 1100],
       ["dict", 4000], ["objarr", 1100], ["objarr", 3000], ["arrays", 70], ["arrays", 400], ["binaries", 300], ["deep", 60], ["deep", 110], ["names", 12], ["names", 130], ["names", 500], ["longname", 5000],
       ["model", 20], ["types", 400], ["shared", 500], ["partials", 40]]


def _big_object(kind, n):
    import scipy.sparse as sp

    if kind in ("bytes", "bytearray"):
        return {"bytes": bytes, "bytearray": bytearray}[kind](i * 37 % 251 for i in range(256)) * (n // 256) + b"x" * (n % 256)
    if kind == "array":
        return np.arange(n) * 0.5
    if kind == "text":
        return "ab\u00e9\n" * (n // 4) + "x" * (n % 4)
    if kind == "textarray":
        return np.array([f"t{i}" for i in range(n)])
    if kind == "sparse":
        return sp.csr_matrix((np.arange(n) + 0.5, (np.arange(n), np.arange(n) % 7)), shape=(n, 7))
    if kind == "list":
        return [i if i % 3 else f"s{i}" for i in range(n)]
    if kind == "dict":
        return {f"k{i}" if i % 2 else i: i for i in range(n)}
    if kind == "objarr":
        a = np.empty(n, dtype=object)
        a[:] = [f"s{i}" if i % 2 else None for i in range(n)]
        return a
    if kind == "arrays":
        return [np.full(3, i) for i in range(n)]
    if kind == "binaries":
        return [b"%d" % i for i in range(n)]
    if kind == "deep":
        x = [1]
        for i in range(n):
            x = [x] if i % 2 else {"k": x}
        return x
    if kind == "model":
        from sklearn.ensemble import RandomForestClassifier

        return RandomForestClassifier(n_estimators=n, max_depth=3, random_state=0).fit(np.random.RandomState(0).rand(60, 5), np.arange(60) % 3)
    if kind == "types":
        return [[int, float, str, np.float64][i % 4] for i in range(n)]
    if kind == "shared":
        a = np.arange(4)
        return [a] * n
    from functools import partial

    x = np.sqrt
    for i in range(n):
        x = [partial(np.add, i), x]
    return x


_bigs = {}


def big(kind, n, tail):
    if (kind, n) not in _bigs:
        if kind in ("names", "longname"):
            cls = [f"C{i:04}" for i in range(n)] if kind == "names" else ["C" * n, "D" * n]
            items = [{"__class__": c, "__module__": "pbtcan_big" if i % 2 else "pbtcan_big.sub", "__loader__": "ObjectNode", "__id__": i} for i, c in enumerate(cls)]
            _bigs[kind, n] = {"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "content": items}, {}
        else:
            from skops.io import dumps

            schema, mem = read(dumps(_big_object(kind, n)))
            _bigs[kind, n] = schema, mem
    schema, mem = _bigs[kind, n]
    schema = {k: v for k, v in schema.items() if k not in ("protocol", "_skops_version")}
    if tail is not None:
        evil = {"__class__": tail[1], "__module__": tail[0], "__loader__": tail[2] if len(tail) > 2 else "ObjectNode"}
        schema = {"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "content": [schema, evil]}
    return schema_with_header(schema, PROTO), mem


def big_cases(tier, tails=(None, ["pbtcan_a", "Evil"], ["pbtcan_b.sub", "fn_evil", "FunctionNode"])):
    out = []
    slow = (["list", 5000], ["dict", 4000], ["objarr", 3000], ["bytes", 2**23 + 1], ["names", 500], ["deep", 110])
    for i, (kind, n) in enumerate(BIG):
        if tier == "quick" and [kind, n] in slow:
            continue
        comps = [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA]
        for j, tail in enumerate(tails):
            for c in comps if tier != "quick" else [comps[(i + j) % 4]]:
                if c == zipfile.ZIP_LZMA and n > 2**21 and tier == "quick":
                    continue
                out.append(["big", kind, n, c, tail])
    return out


def archive_strategy(p_bad=25, mut=True):
    from hypothesis import strategies as st

    proto = st.sampled_from([PROTO, PROTO, PROTO, PROTO, 0, 1, 3, 9])
    forged = st.builds(lambda r, p: ["forged", r, p], Grammar(p_bad).root, proto)
    if not mut:
        return forged
    mutated = st.builds(lambda n, e, p: ["mut", n, e, p], st.sampled_from(corpus_names()), st.lists(edit_strategy(), min_size=0, max_size=3), proto)
    return st.one_of(forged, forged, mutated)


# ---------------------------------------------------------------------------
# trusted lists

def trust_strategy():
    from hypothesis import strategies as st

    return st.builds(
        lambda mode, k, near, form, dup: {"mode": mode, "k": k, "near": near, "form": form, "dup": dup},
        st.sampled_from(["none", "empty", "all", "all", "all-1", "all-1", "all-1", "all-2", "some"]),
        st.integers(0, 1000), st.lists(st.tuples(st.sampled_from(NEAR_KINDS), st.integers(0, 50)).map(list), max_size=2),
        st.sampled_from(["list", "list", "tuple"]), st.booleans())


def loader_positions(per=2):
    """(corpus name, node index) such that every loader that occurs is covered `per` times."""
    seen = {}
    out = []
    for n in corpus_names():
        if corpus()[n] is None:
            continue
        for i, (_, s) in enumerate(nodes(corpus()[n][0])):
            c = seen.setdefault(s["__loader__"], set())
            if len(c) < per and (n not in c):
                c.add(n)
                out.append((n, i))
    return out


NEAR_HOSTILE = [["pbtcan_a", "Evil"], ["pbtcan_b.sub", "fn_evil"], ["pbtcan_c._impl", "Evil"], ["pbtcan_c._x.y", "Evil"], ["pbtcan_pre.sub", "Loaded"]]
NEAR_KINDS = ["prefix", "suffix", "parent", "last", "case", "extend", "inner", "member", "nosub", "nopkg", "sibling", "module", "lower", "strip", "colon",
              "wild", "wildmod", "any", "pkgwild", "space", "private", "nounder", "repr"]


def near_miss(name, how):
    """A name that is not `name`, but that a sloppy comparison could take for it."""
    mod, _, cls = name.rpartition(".")
    parts = mod.split(".")
    public = ".".join(q for q in parts if not q.startswith("_"))
    out = {"prefix": "x" + name, "suffix": name + "x", "parent": mod, "last": cls, "case": name.swapcase(), "extend": name + ".x",
           "inner": mod + "._private." + cls, "member": name + ".danger", "nosub": ".".join(parts[:-1] + [cls]), "nopkg": ".".join(parts[1:] + [cls]),
           "sibling": mod + ".Other", "module": parts[0], "lower": name.lower(), "strip": name[:-1], "colon": mod + ":" + cls, "wild": mod + ".*",
           "wildmod": parts[0] + ".*", "any": "*", "pkgwild": parts[0] + ".", "space": " " + name + " ", "private": ".".join(parts + ["_" + cls]),
           "nounder": public + "." + cls, "repr": f"<class '{name}'>"}[how]
    return out if out != name else name + "~"


def trusted_list(t, names):
    """names: all candidate names (sorted list) -> trusted argument (list/tuple/None)"""
    names = sorted(names)
    if t["mode"] == "none" and not t["near"]:
        return None
    if t["mode"] in ("none", "empty"):
        out = []
    elif t["mode"] == "all":
        out = list(names)
    elif t["mode"] in ("all-1", "all-2"):
        out = list(names)
        for j in range(int(t["mode"][-1])):
            if out:
                out.pop((t["k"] + 7 * j) % len(out))
    else:
        out = [n for i, n in enumerate(names) if (t["k"] >> (i % 10)) & 1]
    missing = [n for n in names if n not in out] or names
    for how, i in t["near"]:
        if missing:
            cand = near_miss(missing[i % len(missing)], how)
            out.append(cand)
    if t["dup"]:
        out = out[::-1] + out[:2]
    return tuple(out) if t["form"] == "tuple" else out


def pad(data, size):
    """The same archive with a comment that makes it `size` bytes long."""
    n = size - len(data)
    if not 0 < n < 65536 or data[-22:-18] != b"PK\x05\x06" or data[-2:] != b"\0\0":
        return data
    return data[:-2] + n.to_bytes(2, "little") + b" " * n


def member_cases(tier):
    """(corpus name, edits): every kind of node that owns a member x every hostile member x every class its loader may accept."""
    quick = tier == "quick"
    types = sorted({f"{t.__module__}.{t.__name__}" for t in np.sctypeDict.values()} | {f"numpy.{n}" for n in np.sctypeDict if isinstance(n, str)})
    names = [None, ["numpy", "ndarray"], ["numpy", "matrix"], ["numpy", "recarray"], ["numpy", "memmap"], ["numpy.ma.core", "MaskedArray"], ["numpy", "dtype"], ["builtins", "bytes"]]
    names += [t.rsplit(".", 1) for t in types]
    seen = {}
    out = []
    for n in corpus_names():
        if corpus()[n] is None:
            continue
        ns = nodes(corpus()[n][0])
        for i, (path, s) in enumerate(ns):
            if "file" not in s:
                continue
            owner = next((q for p, q in reversed(ns[:i]) if p == path[:len(p)]), {})
            key = (s["__loader__"], s["__class__"] if s["__loader__"] != "SparseMatrixNode" else "", owner.get("__loader__"))
            if seen.setdefault(key, 0) >= (1 if quick else 3):
                continue
            seen[key] += 1
            for j, f in enumerate(HOSTILE_FILES):
                for k, nm in enumerate(names):
                    if quick and nm is not None and owner and owner.get("__loader__") not in (None, "ListNode", "DictNode") and (j + k) % 7:
                        continue
                    for p in (PROTO, 0, 1):
                        if p != PROTO and (quick and (j + k) % 5):
                            continue
                        e = [["file", i, f]]
                        if nm is not None:
                            e.append(["name", i, list(nm)])
                        if k % 9 == 8:
                            e.append(["loader", i, ["SparseMatrixNode", "NdArrayNode", "BytesNode"][j % 3]])
                        out.append(["mut", n, e, p])
    return out
