"""C11 - nothing outside the documented families is trusted by default."""
from __future__ import annotations

import importlib
import json
import sys

from .. import archives as A
from .. import canary, families, sec
from ..core import Ctx, Skip, Sub, Violation

RULE = (
    "A case is a (loader, name position, protocol) slot filled with a name, without a trusted list; in the batch subs one case is one slot with a batch of several "
    "hundred names taken from all loaded modules plus near misses of accepted names. Non-trivial: the name is outside the families (it has to be reported and "
    "refused), or it is accepted (it has to resolve to a family member)"
)
ASSUMPTIONS = [
    "protocol-0 FunctionNode: __module__/__class__ give the type of the function object and are never used by the loader; not a name position",
    "the bit generator of a random state is a string inside audited JSON content; names outside numpy's bit generators have to be refused by load (not reported)",
]

STR_T = {"__class__": "str", "__module__": "builtins", "__loader__": "TypeNode"}


def js(text):
    return {"__class__": "str", "__module__": "builtins", "__loader__": "JsonNode", "content": text, "is_json": True}


def lst(items, loader="ListNode", cls="list"):
    return {"__class__": cls, "__module__": "builtins", "__loader__": loader, "content": items}


def dct(content):
    return {"__class__": "dict", "__module__": "builtins", "__loader__": "DictNode", "content": content, "key_types": lst([STR_T for _ in content])}


def arr():
    return {"__class__": "ndarray", "__module__": "numpy", "__loader__": "NdArrayNode", "type": "numpy", "file": "a.npy"}


def rest(loader):
    """The remainder of a proper state of that loader."""
    tup = lst([], "TupleNode", "tuple")
    return {
        "DictNode": {"content": {}, "key_types": lst([])}, "DefaultDictNode": {"content": {"main": dct({}), "default_factory": js("null")}},
        "ListNode": {"content": []}, "SetNode": {"content": []}, "TupleNode": {"content": []}, "BytesNode": {"file": "x.bin"}, "BytearrayNode": {"file": "x.bin"},
        "SliceNode": {"content": {"start": None, "stop": None, "step": None}}, "FunctionNode": {}, "TypeNode": {},
        "MethodNode": {"content": {"obj": dct({}), "func": "keys"}},
        "PartialNode": {"content": {"func": STR_T, "args": tup, "kwds": dct({}), "namespace": js("null")}},
        "ConstructorFromReduceNode": {"content": tup}, "ObjectNode": {"content": dct({})}, "JsonNode": {"content": "1", "is_json": True},
        "OperatorFuncNode": {"attrs": lst([js('"real"')], "TupleNode", "tuple")}, "NdArrayNode": {"type": "numpy", "file": "a.npy"},
        "NdArrayNode/json": {"type": "json", "content": [js("1")], "shape": lst([js("1")], "TupleNode", "tuple")},
        "MaskedArrayNode": {"content": {"data": arr(), "mask": arr()}}, "DTypeNode": {"content": arr()},
        "RandomStateNode": {"content": js(json.dumps({**A.json_state("MT19937"), "has_gauss": 0, "gauss": 0.0}))},
        "RandomGeneratorNode": {"content": {"bit_generator": js(json.dumps(A.json_state("PCG64"))), "seed_seq": js("{}")}},
        "SparseMatrixNode": {"type": "scipy", "file": "csr.npz"}, "TreeNode": {"__reduce__": {"args": tup}, "content": dct({})},
        "LossNode": {"__reduce__": {"args": tup}, "content": dct({})}, "QuantileForestNode": {"__reduce__": {"args": tup}, "content": dct({})},
        "_DictWithDeprecatedKeysNode": {"content": {"main": dct({}), "_deprecated_key_to_new_key": dct({})}}, "CachedNode": {},
        "ObjectNode/bare": {}, "SliceNode/vals": {"content": {"start": 1, "stop": "x", "step": None}},
    }[loader]


SLOTS = ["DictNode", "DefaultDictNode", "ListNode", "SetNode", "TupleNode", "BytesNode", "BytearrayNode", "SliceNode", "FunctionNode", "TypeNode", "MethodNode",
         "PartialNode", "ConstructorFromReduceNode", "ObjectNode", "JsonNode", "OperatorFuncNode", "NdArrayNode", "NdArrayNode/json", "MaskedArrayNode", "DTypeNode",
         "RandomStateNode", "RandomGeneratorNode", "SparseMatrixNode", "TreeNode", "LossNode", "QuantileForestNode", "_DictWithDeprecatedKeysNode", "ObjectNode/bare",
         "SliceNode/vals", "content"]
_rests = {}


def state(slot, proto, m, c):
    if slot == "content":
        return {"__class__": "ufunc", "__module__": "numpy", "__loader__": "FunctionNode", "content": {"module_path": m, "function": c}}
    loader = slot.partition("/")[0]
    if slot not in _rests:
        _rests[slot] = json.dumps(rest(slot))
    s = {"__class__": c, "__module__": m, "__loader__": loader, **json.loads(_rests[slot])}
    if loader == "RandomGeneratorNode" and proto == 0:
        s["content"] = {"bit_generator": A.json_state("PCG64"), "seed_seq": {}}
    return s


def slots(proto):
    out = []
    for s in SLOTS:
        if s == "content" and proto != 0:
            continue
        if s == "FunctionNode" and proto == 0:
            continue
        if s == "RandomGeneratorNode" and proto == 0:
            continue  # cannot be audited at all (known finding of C08)
        out.append(s)
    return out


def archive(states, proto):
    schema = A.schema_with_header(lst(states), proto)
    return schema, A.zip_bytes(schema, A.members_for(schema))


def audit(states, proto):
    import skops.io as sio

    schema, data = archive(states, proto)
    try:
        return schema, data, "ok", sio.get_untrusted_types(data=data)
    except Exception as e:
        return schema, data, "raise", e


# ---------------------------------------------------------------------------
# candidate names

_cands = None
EXTRA_MODULES = ["numpy.lib.format", "numpy.lib.npyio", "numpy.ctypeslib", "numpy.f2py", "numpy.testing", "scipy.io", "scipy.special", "scipy.sparse", "scipy.sparse.linalg",
                 "sklearn.utils", "sklearn.datasets", "sklearn.linear_model._sgd_fast", "sklearn._loss._loss", "sklearn.tree._tree", "sklearn.tree._splitter",
                 "sklearn.utils._testing", "sklearn.experimental", "sklearn.inspection", "operator", "builtins", "os", "subprocess", "shutil", "functools", "itertools",
                 "pickle", "codecs", "types", "importlib", "runpy", "code", "ctypes", "pydoc", "timeit", "trace", "cProfile", "webbrowser", "numpy.random", "numpy.core",
                 "numpy.ma", "numpy.ma.core", "pandas", "joblib", "multiprocessing", "socket", "tempfile", "glob", "logging", "collections", "distutils", "pty"]


def import_all():
    """Import every module of the libraries the families come from."""
    import contextlib
    import io
    import pkgutil

    import numpy
    import scipy
    import sklearn

    skip = (".tests", "conftest", "__main__", ".setup", ".f2py", "_precompute", "_build_utils", "_pyinstaller", "array_api_compat", "cversions")
    with contextlib.redirect_stdout(io.StringIO()):
        for pkg in (numpy, scipy, sklearn):
            for m in pkgutil.walk_packages(pkg.__path__, pkg.__name__ + ".", onerror=lambda n: None):
                if m.name not in sys.modules and not any(x in m.name for x in skip):
                    try:
                        importlib.import_module(m.name)
                    except Exception:
                        pass


def candidates():
    global _cands
    if _cands is None:
        sec.setup()
        for m in EXTRA_MODULES:
            try:
                importlib.import_module(m)
            except Exception:
                pass
        import_all()
        names = set()
        for mn, m in sorted(sys.modules.items()):
            if m is None or mn.startswith(("pbt", "hypothesis", "_pytest", "__main")):
                continue
            for a in list(getattr(m, "__dict__", {})):
                if isinstance(a, str):
                    names.add((mn, a))
        names = sorted(names)
        seen, base = set(), []
        for mn, a in names:
            base.append((mn, a))
        acc = default_lists()
        near = set()
        for n in acc[:: max(1, len(acc) // 400)]:
            for how in ("prefix", "suffix", "parent", "last", "case", "extend", "inner", "member"):
                mod, _, c = A.near_miss(n, how).rpartition(".")
                near.add((mod, c))
            mod, _, c = n.rpartition(".")
            near |= {(mod, c + " "), (" " + mod, c), (mod + ".", c), (mod, ""), ("", n), (mod, "__init__"), (mod + "." + c, "__class__"), (mod, c + ".__class__")}
        near |= {(m, c) for m in A.CAN_MODS for c in A.CAN_NAMES} | set(A.DECOYS) | set(A.NEAR)
        acc_pairs = {tuple(n.rpartition(".")[::2]) for n in acc}
        _cands = base + sorted(near) + sorted(acc_pairs)
    return _cands


def core_names():
    acc = default_lists()
    return [tuple(n.rpartition(".")[::2]) for n in acc] + A.DECOYS + A.NEAR


_lists = None


def default_lists():
    global _lists
    if _lists is None:
        _lists = _default_lists()
    return _lists


def _default_lists():
    """The names skops' node classes say they trust by default (if they still keep such lists)."""
    import io
    import zipfile

    out = set()
    try:
        from skops.io._audit import get_tree
        from skops.io._utils import LoadContext
    except ImportError:
        return []
    for proto in (0, 1, 2):
        for slot in slots(proto):
            if slot in ("CachedNode",):
                continue
            try:
                schema, data = archive([state(slot, proto, "x", "y")], proto)
                with zipfile.ZipFile(io.BytesIO(data)) as z:
                    node = get_tree(schema, LoadContext(src=z, protocol=proto), trusted=None)
                    out |= {n for n in node.children["content"][0].trusted if isinstance(n, str)}
            except Exception:
                continue
    return sorted(out)


def resolves(m, c):
    """Does module m's attribute c belong to the families? (imports m)"""
    if m.startswith("pbtcan"):
        return False, "a canary"
    try:
        mod = sys.modules.get(m) or importlib.import_module(m)
        obj = getattr(mod, c)
    except Exception as e:
        return False, f"does not resolve: {e!r}"
    return families.is_family(obj), repr(obj)


# ---------------------------------------------------------------------------


def eval_batch(spec, ctx: Ctx):
    proto, slot, lo, n = spec
    names = candidates()[lo::n]
    names = list(dict.fromkeys(names + core_names()))
    _, _, how, U = audit([state(slot, proto, m, c) for m, c in names], proto)
    if how != "ok":
        # one bad state spoils the batch: bisect by hand
        if isinstance(U, TypeError) and "find loader" in str(U):
            ctx.trivial()
            ctx.label("loader not available")
            return
        raise Violation(f"audit of well-formed {slot} nodes raises {U!r}", names=names[:5])
    U = set(U)
    accepted = [(m, c) for m, c in names if f"{m}.{c}" not in U]
    ctx.units = len(names)
    ctx.label(slot)
    for m, c in accepted:
        ok, what = resolves(m, c)
        if not ok:
            raise Violation(f"protocol {proto} {slot} accepts {m}.{c} without a trusted list: {what}", replay_names=[m, c])


def batch_cases(tier):
    out = []
    for p in (2, 0, 1, 3):
        for k, s in enumerate(slots(p)):
            if tier == "quick":
                if p == 2 and s in ("FunctionNode", "ObjectNode", "TypeNode", "OperatorFuncNode", "NdArrayNode", "LossNode", "TreeNode", "SparseMatrixNode") or s == "content":
                    out += [[p, s, i, 12] for i in range(12)]
                elif p == 2:
                    out += [[p, s, (k * 5 + i) % 12, 12] for i in (0, 4, 8)]
                else:
                    out.append([p, s, (k * 5 + p) % 12, 12])
            else:
                out += [[p, s, i, 16] for i in range(16)]
    return out


def eval_one(spec, ctx: Ctx):
    import skops.io as sio

    proto, slot, m, c, wrap = spec
    if slot not in slots(proto):
        raise Skip()
    st = state(slot, proto, m, c)
    if wrap == "root":
        schema = A.schema_with_header(st, proto)
    elif wrap == "dict":
        schema = A.schema_with_header(dct({"k": st}), proto)
    elif wrap == "key":
        d = dct({"k": js("1")})
        d["key_types"]["content"] = [st]
        schema = A.schema_with_header(d, proto)
    elif wrap == "attrs":
        e = {"__class__": "LogisticRegression", "__module__": "sklearn.linear_model._logistic", "__loader__": "ObjectNode", "content": dct({"coef_": st})}
        schema = A.schema_with_header(e, proto)
    else:
        schema = A.schema_with_header(lst([lst([st, st])]), proto)
    data = A.zip_bytes(schema, A.members_for(schema))
    how, U, *_ = sec.run_guarded(lambda: sio.get_untrusted_types(data=data))
    if how != "ok":
        if isinstance(U, TypeError) and "find loader" in str(U):
            raise Skip()
        raise Violation(f"audit of a well-formed {slot} node raises {U!r}")
    fam, what = resolves(m, c)
    fqn = f"{m}.{c}"
    how, r, ledger, events, calls = sec.run_guarded(lambda: sio.loads(data))
    if not fam:
        ctx.label("outside")
        if fqn not in U:
            raise Violation(f"protocol {proto} {slot} ({wrap}): {fqn} is not reported; it is {what}", U=U)
        if how == "ok":
            raise Violation(f"protocol {proto} {slot} ({wrap}): {fqn} is loaded without trusted; it is {what}")
        if ledger:
            raise Violation(f"protocol {proto} {slot} ({wrap}): {ledger[0]}")
    else:
        ctx.label("family", "accepted" if fqn not in U else "reported")
        ctx.trivial(fqn in U)
        if U and how == "ok":
            raise Violation(f"{U} reported but loads succeeds")


def one_strategy():
    from hypothesis import strategies as st

    cands = [list(x) for x in candidates()]
    acc = [list(n.rpartition(".")[::2]) for n in default_lists()] or [["builtins", "list"]]
    anyname = st.one_of(
        st.sampled_from(cands), st.tuples(st.sampled_from(A.CAN_MODS), st.sampled_from(A.CAN_NAMES)).map(list), st.sampled_from([list(x) for x in A.DECOYS]),
        st.tuples(st.sampled_from(acc), st.sampled_from(cands)).map(lambda p: [p[0][0], p[1][1]]),   # trusted module, other attribute
        st.tuples(st.sampled_from(acc), st.sampled_from(cands)).map(lambda p: [p[1][0], p[0][1]]),   # trusted class name, other module
        st.sampled_from(acc).flatmap(lambda a: st.sampled_from([[a[0], a[1].lower()], [a[0] + "_", a[1]], [a[0].split(".")[0], a[1]], [a[0] + "." + a[1], "mro"],
                                                                [a[0], a[1] + "\u200b"], ["x." + a[0], a[1]], [a[0][1:], a[1]], [a[0], a[1][:-1]], ["", a[0] + "." + a[1]][:2]])))
    return st.tuples(st.sampled_from([2, 2, 2, 0, 0, 1, 3]), st.sampled_from(SLOTS), anyname, st.sampled_from(["root", "dict", "list", "attrs", "key"])).map(
        lambda t: [t[0], t[1], t[2][0], t[2][1], t[3]])


METHODS = ["fit", "predict", "keys", "__class__", "__init__", "__reduce__", "__getattribute__", "tofile", "set_params", "get_params", "mro", "fromkeys", "__subclasses__",
           "pop", "update", "dump", "ctypes", "astype", "fill", "__setstate__", "danger", "_repr_html_", "__dict__", "", "a.b"]
HOLDERS = [("dict", lambda: dct({})), ("array", arr), ("list", lambda: lst([])), ("estimator", lambda: state("ObjectNode", 2, "sklearn.linear_model._logistic", "LogisticRegression")),
           ("type", lambda: dict(STR_T)), ("function", lambda: state("FunctionNode", 2, "numpy", "sqrt")), ("json", lambda: js('"x"')),
           ("rng", lambda: state("RandomStateNode", 2, "numpy.random.mtrand", "RandomState"))]


def method_cases(tier):
    return [[p, h, f, cls] for p in (0, 1, 2) for h in range(len(HOLDERS)) for f in METHODS
            for cls in (["builtins", "method"], ["sklearn.linear_model._logistic", "LogisticRegression"], ["builtins", "list"], ["numpy", "ndarray"])]


def eval_method(spec, ctx):
    """No method of anything is in the families."""
    import skops.io as sio

    p, h, f, cls = spec
    if p == 0 and HOLDERS[h][0] == "function":
        raise Skip()
    obj = HOLDERS[h][1]()
    st = {"__class__": cls[1], "__module__": cls[0], "__loader__": "MethodNode", "content": {"obj": obj, "func": f}}
    _, data, how, U = audit([st], p)
    if how != "ok":
        raise Violation(f"audit of a method node raises {U!r}")
    want = f"{obj['__module__']}.{obj['__class__']}.{f}"
    if not any(n.rpartition(".")[2] == f or n.endswith("." + f) for n in U):
        raise Violation(f"method {want} is not reported: {U}")
    how, r, *_ = sec.run_guarded(lambda: sio.loads(data))
    if how == "ok":
        raise Violation(f"method {want} is loaded without trusted: {r!r:.200}")


def bitgen_cases(tier):
    import numpy as np

    names = sorted(a for a in dir(np.random))
    names += ["Evil", "", "mtrand.RandomState", "bit_generator.BitGenerator", "__class__", "SeedSequence", "_pickle", "RandomState", "MT19937 "]
    return [[p, k, n] for p in (0, 1, 2) for k in ("RandomStateNode", "RandomGeneratorNode") for n in names]


def eval_bitgen(spec, ctx):
    """A random state's bit generator is one of numpy's bit generators or the load fails."""
    import numpy as np
    import skops.io as sio

    p, kind, name = spec
    raw = {**A.json_state("MT19937" if kind == "RandomStateNode" else "PCG64"), "bit_generator": name}
    if kind == "RandomStateNode":
        st = {"__class__": "RandomState", "__module__": "numpy.random.mtrand", "__loader__": kind, "content": js(json.dumps({**raw, "has_gauss": 0, "gauss": 0.0}))}
    else:
        st = {"__class__": "Generator", "__module__": "numpy.random._generator", "__loader__": kind, "content": {"bit_generator": js(json.dumps(raw)), "seed_seq": js("{}")}}
        if p == 0:
            st["content"] = {"bit_generator": raw, "seed_seq": {}}
    obj = getattr(np.random, name, None)
    good = isinstance(obj, type) and issubclass(obj, np.random.BitGenerator)
    _, data = archive([st], p)
    before = sec.state_guard()
    how, r, ledger, events, calls = sec.run_guarded(lambda: sio.loads(data))
    ctx.trivial(good)
    if sec.state_guard() != before:
        raise Violation(f"loading a {kind} with bit generator {name!r} changed global state")
    if not good:
        if how == "ok":
            raise Violation(f"{kind} accepts {name!r} as bit generator: {r!r}")
        for callee, _a in calls:
            if obj is not None and callee is obj and callable(obj) and not families.is_family(obj):
                raise Violation(f"{kind} called numpy.random.{name}")


def child_cases(tier):
    """Every node of every corpus dump renamed to an untrusted name, ids removed so that every node is visited."""
    hostile = [["pbtcan_a", "Evil"], ["operator", "methodcaller"], ["builtins", "eval"], ["numpy", "load"]]
    out = []
    for n in A.corpus_names():
        if A.corpus()[n] is None:
            continue
        k = len(A.nodes(A.corpus()[n][0]))
        step = max(1, k // 200) if tier == "quick" else 1
        for i in range(0, k, step):
            for p in (2, 1) if tier != "quick" else (2,):
                out.append([n, i, p, hostile[i % 4]])
    return out


def eval_child(spec, ctx):
    import skops.io as sio

    n, i, p, h = spec
    if A.corpus()[n] is None:
        raise Skip()
    schema, mem = A.corpus()[n]
    schema = json.loads(json.dumps(schema))
    ns = A.nodes(schema)
    for _, st in ns:
        st.pop("__id__", None)
    if i >= len(ns):
        raise Skip()
    nd = ns[i][1]
    if nd["__loader__"] == "RandomGeneratorNode" and p == 0:
        raise Skip()
    nd["__module__"], nd["__class__"] = h
    schema["protocol"] = p
    data = A.zip_bytes(schema, mem)
    ctx.label(nd["__loader__"])
    how, U, *_ = sec.run_guarded(lambda: sio.get_untrusted_types(data=data))
    fqn = ".".join(h)
    if how != "ok":
        raise Violation(f"audit raises {U!r} after renaming a {nd['__loader__']} of {n} to {fqn}")
    if fqn not in U:
        raise Violation(f"{fqn} as {nd['__loader__']} of {n} is not reported: {U}", path=ns[i][0])
    how, r, *_ = sec.run_guarded(lambda: sio.loads(data))
    if how == "ok":
        raise Violation(f"{fqn} as {nd['__loader__']} of {n} is loaded without trusted")


def subs(tier):
    return [
        Sub("batch", eval_batch, cases=batch_cases, n=(0, 0), setup=sec.setup, timeout=120),
        Sub("names", eval_one, strategy=one_strategy, n=(10000, 400000), setup=sec.setup, timeout=60),
        Sub("methods", eval_method, cases=method_cases, n=(0, 0), setup=sec.setup, timeout=60),
        Sub("bitgen", eval_bitgen, cases=bitgen_cases, n=(0, 0), setup=sec.setup, timeout=60),
        Sub("children", eval_child, cases=child_cases, n=(0, 0), setup=sec.setup, timeout=60),
    ]
