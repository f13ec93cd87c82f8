"""C19 - malformed archives fail cleanly."""
from __future__ import annotations

import itertools
import json
import os
import random
import resource
import sys
import time
import warnings
import zipfile

import numpy as np

from .. import archives as A
from .. import families, sec
from ..core import Ctx, Skip, Sub, Violation

RULE = (
    "A case is a corruption of a real dump (bytes of the zip, text of schema.json, bytes of a member, set of members, up to 6 schema edits: type changes, nodes of other archives, dropped keys, "
    "cross-wired or repeated ids, cycles, wrong members, nesting) given to get_untrusted_types, loads (trusting the names of the intact dump) and visualize. "
    "Non-trivial: the corruption changed the archive and it is still read at least as far as its schema"
)
LIMIT = 10.0


def setup():
    sec.setup()
    A.corpus()
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


_trust = {}


def trusted_of(name):
    if name not in _trust:
        import skops.io as sio

        if A.corpus()[name] is None:
            raise Skip()
        schema, mem = A.corpus()[name]
        _trust[name] = [n for n in sio.get_untrusted_types(data=A.zip_bytes(schema, mem)) if n not in sec.NEVER]
    return _trust[name]


def mutate_bytes(data, ops):
    b = bytearray(data)
    for op, pos, val in ops:
        if not b:
            break
        i = int(pos * len(b)) % len(b)
        if op == "flip":
            b[i] ^= 1 << (val % 8)
        elif op == "set":
            b[i] = val % 256
        elif op == "trunc":
            del b[i:]
        elif op == "head":
            del b[: i]
        elif op == "cut":
            del b[i:i + val]
        elif op == "dup":
            b[i:i] = b[i:i + val]
        elif op == "ins":
            b[i:i] = bytes([val % 256]) * (val % 9 + 1)
        elif op == "end":  # counted from the end: the zip directory
            b[-1 - (i % min(len(b), 80))] = val % 256
        elif op == "num":  # 4 bytes little endian
            b[i:i + 4] = (val * 2654435761 % 2**32).to_bytes(4, "little")
    return bytes(b)


HUGE = [10**6, 2**31 - 1, 2**31, 2**62, 2**63, 2**64, 10**30, -1, -2**63, 0, 1e308, 1e400 if False else 1.5]


def value_edit(text, k, j):
    """Change one JSON scalar of a json node's content."""
    try:
        v = json.loads(text)
    except Exception:
        return "{" + text
    spots = []

    def rec(x, path):
        if isinstance(x, dict):
            for kk, vv in x.items():
                rec(vv, path + [kk])
        elif isinstance(x, list):
            for i, vv in enumerate(x):
                rec(vv, path + [i])
        else:
            spots.append(path)

    rec(v, [])
    new = (HUGE + [None, "x", [], {}, True, "1" * 5000, [[]] * 3])[j % 19]
    if not spots:
        return json.dumps(new)
    p = spots[k % len(spots)]
    if not p:
        return json.dumps(new)
    t = v
    for s in p[:-1]:
        t = t[s]
    t[p[-1]] = new
    return json.dumps(v)


def deep(kind, n):
    o = '{"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "content": ['
    c = "]}"
    leaf = '{"__class__": "str", "__module__": "builtins", "__loader__": "JsonNode", "content": "1", "is_json": true}'
    if kind == "dict":
        o = '{"__class__": "dict", "__module__": "builtins", "__loader__": "DictNode", "key_types": {"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "content": [{"__class__": "str", "__module__": "builtins", "__loader__": "TypeNode"}]}, "content": {"a": '
        c = "}}"
    elif kind == "attrs":
        o = '{"__class__": "LogisticRegression", "__module__": "sklearn.linear_model._logistic", "__loader__": "ObjectNode", "content": '
        c = "}"
    elif kind == "masked":
        o = '{"__class__": "MaskedArray", "__module__": "numpy.ma.core", "__loader__": "MaskedArrayNode", "content": {"mask": ' + leaf + ', "data": '
        c = "}}"
    elif kind == "objarr":
        o = '{"__class__": "ndarray", "__module__": "numpy", "__loader__": "NdArrayNode", "type": "json", "shape": ' + \
            '{"__class__": "tuple", "__module__": "builtins", "__loader__": "TupleNode", "content": []}, "content": ['
    elif kind == "json":
        leaf = '{"__class__": "str", "__module__": "builtins", "__loader__": "JsonNode", "is_json": true, "content": "%s1%s"}' % ("[" * n, "]" * n)
        o = c = ""
    elif kind == "jsonobj":
        leaf = '{"__class__": "str", "__module__": "builtins", "__loader__": "JsonNode", "is_json": true, "content": "%s1%s"}' % ('{\\"a\\":' * n, "}" * n)
        o = c = ""
    elif kind == "raw":
        o, c, leaf = "[", "]", "1"
    elif kind == "ids":
        # shared nodes: linear in size, every level refers to the next one twice
        n = min(n, 10)
        text = leaf
        for i in range(n):
            text = '{"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "__id__": %d, "content": [%s, {"__id__": %d}]}' % (i + 1, text, i or 99)
        return text[:-1] + ', "protocol": 2, "_skops_version": "0"}'
    text = o * n + leaf + c * n
    if kind == "raw":
        return text
    return text[:-1] + ', "protocol": 2, "_skops_version": "0"}'


def cyc(kind):
    """Nodes which contain themselves."""
    me = {"__id__": 1, "__loader__": "ListNode", "__class__": "list", "__module__": "builtins"}
    tup = {"__class__": "tuple", "__module__": "builtins", "__loader__": "TupleNode", "content": [me, me]}
    base = {"__id__": 1, "__class__": "list", "__module__": "builtins", "__loader__": "ListNode"}
    st = {"__class__": "str", "__module__": "builtins", "__loader__": "TypeNode"}
    kt = {"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "content": [st, st]}
    d = {"__id__": 1, "__class__": "dict", "__module__": "builtins", "__loader__": "DictNode", "content": {"a": me, "b": me}, "key_types": kt}
    out = {
        "list": {**base, "content": [me, me, me]},
        "tuple": {**base, "__loader__": "TupleNode", "__class__": "tuple", "content": [me, me]},
        "set": {**base, "__loader__": "SetNode", "__class__": "set", "content": [me]},
        "dict": d, "keys": {**d, "key_types": me}, "keys2": {**d, "keys": me},
        "ddict": {**base, "__loader__": "DefaultDictNode", "__class__": "defaultdict", "__module__": "collections", "content": {"main": me, "default_factory": me}},
        "obj": {**base, "__loader__": "ObjectNode", "__class__": "LogisticRegression", "__module__": "sklearn.linear_model._logistic", "content": me},
        "partial": {**base, "__loader__": "PartialNode", "__class__": "partial", "__module__": "functools", "content": {k: me for k in ("func", "args", "kwds", "namespace")}},
        "reduce": {**base, "__loader__": "ConstructorFromReduceNode", "__class__": "list", "content": me},
        "method": {**base, "__loader__": "MethodNode", "__class__": "method", "content": {"obj": me, "func": "append"}},
        "objarr": {**base, "__loader__": "NdArrayNode", "__class__": "ndarray", "__module__": "numpy", "type": "json", "content": [me, me], "shape": me},
        "masked": {**base, "__loader__": "MaskedArrayNode", "__class__": "MaskedArray", "__module__": "numpy.ma.core", "content": {"data": me, "mask": me}},
        "dtype": {**base, "__loader__": "DTypeNode", "__class__": "dtype", "__module__": "numpy", "content": me},
        "rs": {**base, "__loader__": "RandomStateNode", "__class__": "RandomState", "__module__": "numpy.random.mtrand", "content": me},
        "rg": {**base, "__loader__": "RandomGeneratorNode", "__class__": "Generator", "__module__": "numpy.random._generator", "content": {"bit_generator": me, "seed_seq": me}},
        "tree": {**base, "__loader__": "TreeNode", "__class__": "Tree", "__module__": "sklearn.tree._tree", "__reduce__": {"args": me}, "content": me},
        "loss": {**base, "__loader__": "LossNode", "__class__": "Hinge", "__module__": "sklearn.linear_model._sgd_fast", "__reduce__": {"args": me}, "content": me},
        "op": {**base, "__loader__": "OperatorFuncNode", "__class__": "itemgetter", "__module__": "operator", "attrs": me},
        "indirect": {**base, "content": [tup, {**d, "__id__": 2, "content": {"a": {**me, "__id__": 2}, "b": me}}]},
        "attrs": {**base, "content": [], "attrs": me},
    }
    s = out[kind]
    return {**s, "protocol": 2, "_skops_version": "0"}


CYC = ["list", "tuple", "set", "dict", "keys", "keys2", "ddict", "obj", "partial", "reduce", "method", "objarr", "masked", "dtype", "rs", "rg", "tree", "loss", "op", "indirect", "attrs"]
CYC_T = ["functools.partial", "builtins.list", "builtins.method", "builtins.list.append", "numpy.dtype", "operator.itemgetter"]


def realise(spec):
    """-> (bytes, trusted, changed)"""
    kind, name = spec[0], spec[1]
    if kind == "deep":
        return A.zip_bytes(deep(name, spec[2]), {}), ["functools.partial"], True
    if kind == "cycle":
        return A.zip_bytes(cyc(name), {}), CYC_T, True
    if kind == "raw":
        return bytes.fromhex(name), [], True
    if kind == "renamed":
        m, c = name.rpartition(".")[::2]
        nd = {"__class__": c, "__module__": m, "__loader__": spec[2], "content": {"__class__": "dict", "__module__": "builtins", "__loader__": "DictNode", "content": {}, "key_types": {"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "content": []}}}
        return A.zip_bytes(A.schema_with_header(nd, A.PROTO), {}), [name], True
    T = trusted_of(name)
    schema, mem = A.corpus()[name]
    if kind == "graft":
        s, mem, data = A.realise(spec)
        T = [n for n in T + sorted(A.names_of(s)) if n not in sec.NEVER]
        return data, sorted(set(T)), True
    if kind == "bytes":
        data = A.zip_bytes(schema, mem, [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA][spec[2]])
        return mutate_bytes(data, spec[3]), T, True
    if kind == "text":
        text = json.dumps(schema).encode()
        if spec[2] == "utf16":
            text = text.decode().encode("utf-16")
        elif spec[2] == "bom":
            text = b"\xef\xbb\xbf" + text
        return A.zip_bytes(mutate_bytes(text, spec[3]), mem), T, True
    if kind == "members":
        mem = dict(mem)
        first, extra = [], []
        for op, i, ops in spec[2]:
            names = sorted(mem)
            if not names:
                break
            n = names[i % len(names)]
            m = names[(i // 7) % len(names)]
            if op == "mutate":
                mem[n] = mutate_bytes(mem[n], ops)
            elif op == "drop":
                del mem[n]
            elif op == "swap":
                mem[n], mem[m] = mem[m], mem[n]
            elif op == "empty":
                mem[n] = b""
            elif op == "extra":
                extra.append((["x.npy", "../evil", "/abs", "dir/", "schema.json", "a\x00b", "é", ""][i % 8], b"123"))
            elif op == "twice":
                extra.append((n, mem[m]))
            elif op == "schema-first":
                first.append(("schema.json", b'{"__class__": "x"}'))
            elif op == "replace":
                mem[n] = A.member_bytes(list(A.MEMBERS.values())[i % len(A.MEMBERS)])
        import warnings

        warnings.simplefilter("ignore")
        return A.zip_bytes(schema, mem, extra=extra, first=first), T, True
    if kind == "values":
        s = json.loads(json.dumps(schema))
        js = [nd for _, nd in A.nodes(s) if isinstance(nd.get("content"), str)]
        for i, k, j in spec[2]:
            if js:
                nd = js[i % len(js)]
                nd["content"] = value_edit(nd["content"], k, j)
        return A.zip_bytes(s, mem), T, True
    if kind == "schema":
        s = A.apply_edits(schema, spec[2])
        if isinstance(s, dict) and spec[3] is not None:
            s["protocol"] = spec[3]
        return A.zip_bytes(s, {**A.members_for(s), **mem}), T, s != schema
    raise ValueError(kind)


def python_state():
    import decimal
    import gc
    import socket
    import threading

    import numpy as np

    mask = os.umask(0o22)
    os.umask(mask)
    return (random.getstate(), sys.getrecursionlimit(), sys.stdout, list(sys.meta_path), len(sys.path_hooks), np.geterr(), np.geterrcall(), np.get_printoptions(), decimal.getcontext().prec, gc.isenabled(),
            gc.get_threshold(), sys.getswitchinterval(), sys.excepthook, sys.stderr, sys.stdin, socket.getdefaulttimeout(), threading.active_count(), mask, sys.getprofile(), list(sys.argv), sys.flags,
            sys.dont_write_bytecode, sys.get_int_max_str_digits(), list(warnings.filters), warnings.showwarning)


_exists = {}


def harmless(data, T):
    """The other names of the verdict that resolve to nothing at all."""
    import importlib.util

    import skops.io as sio

    try:
        U = sio.get_untrusted_types(data=data)
    except Exception:
        return []
    out = []
    for n in set(U) - set(T):
        if n not in _exists:
            top = n.split(".")[0]
            mod = n.rpartition(".")[0]
            if mod in sys.modules:
                _exists[n] = families.lookup(n)[0] or hasattr(sys.modules[mod], n.rpartition(".")[2])
            elif top in sys.modules:
                # a package that is known, with no such module or attribute
                _exists[n] = n not in KNOWN_MISSING
            else:
                try:
                    _exists[n] = bool(top) and importlib.util.find_spec(top) is not None
                except Exception:
                    _exists[n] = True
        if not _exists[n] and n not in sec.NEVER and not n.startswith("pbtcan"):
            out.append(n)
    return sorted(out)


MISSING = [["nomod", "X"], ["nomod.sub", "X"], ["sklearn.nomod", "LogisticRegression"], ["sklearn.linear_model._logistic", "Missing"], ["numpy", "missing_"], ["", "X"], ["nomod", ""], ["builtins", "nope"],
           ["sklearn.linear_model._logistic.LogisticRegression", "Inner"], ["..", "x"], [".rel", "x"], ["no mod", "x y"], ["nomod\u00e9", "\u65e5"], ["scipy.sparse._nope", "csr_matrix"], ["n" * 3000, "x"]]
KNOWN_MISSING = {".".join(n) for n in MISSING}


def ordinary(e):
    return isinstance(e, Exception)


def cpu_time(fn):
    t = time.process_time()
    try:
        fn()
    except Exception:
        pass
    return time.process_time() - t


def evaluate(spec, ctx: Ctx):
    import skops.io as sio

    data, T, changed = realise(spec)
    path = None
    which = len(data) % 3
    ops = [("get_untrusted_types", lambda: sio.get_untrusted_types(data=data)), ("loads", lambda: sio.loads(data, trusted=T)),
           ("visualize", lambda: sec.quiet_visualize(data, show=("all", "untrusted", "trusted")[which], trusted=T))]
    if (spec[0] == "graft" or len(data) > 8000) and len(data) % 4:
        del ops[2]  # slow for large archives; done for some of them
    elif spec[0] == "schema" and len(data) % 3:
        ops[2] = ("visualize", lambda: sio.visualize(data, sink=lambda nodes, *a, **k: list(itertools.islice(nodes, 150)), trusted=T))
    if which == 0:
        path = sec.write_archive(data)
        ops += [("get_untrusted_types(file)", lambda: sio.get_untrusted_types(file=path)), ("load", lambda: sio.load(path, trusted=T)),
                ("visualize(file)", lambda: sec.quiet_visualize(path, trusted=T))]
    more = harmless(data, T)
    if more:
        # also past the audit, where it is certain that nothing of that name exists
        ops.append(("loads (all names)", lambda: sio.loads(data, trusted=T + more)))
        ctx.label("missing-names")
    got = 0
    for what, fn in ops:
        before, pybefore, listing = sec.state_guard(), python_state(), sorted(os.listdir("."))
        t = time.process_time()
        try:
            how, res, ledger, events, calls = sec.run_guarded(fn)
        except BaseException as e:
            if type(e).__name__ == "_Stop" or isinstance(e, KeyboardInterrupt):
                raise
            raise Violation(f"{what} raised {e!r}, which is no ordinary exception")
        t = time.process_time() - t
        if t > LIMIT and not events:
            # the guards slow it down, too: once more without them, as they had nothing to prevent
            t = cpu_time(fn)
        if t > LIMIT:
            raise Violation(f"{what} took {t:.1f} s of CPU for an archive of {len(data)} bytes")
        if sec.state_guard() != before:
            a = sec.state_guard()
            raise Violation(f"{what} changed process-wide state: {[n for n, x, y in zip(('cwd', 'environ', 'sys.path', 'numpy random state'), a, before) if x != y]}")
        if python_state() != pybefore:
            raise Violation(f"{what} changed interpreter state")
        if sorted(os.listdir(".")) != listing:
            raise Violation(f"{what} created or removed files: {set(os.listdir('.')) ^ set(listing)}")
        for ev, arg in events:
            if ev == "import":
                continue
            if ev == "open":
                p = arg.strip("b'\"")
                if (path and p == path) or p.endswith(sec._LIB) or p.isdigit():
                    continue
                raise Violation(f"{what} opened {arg}")
            raise Violation(f"{what} triggered {ev} {arg}")
        ctx.label(f"{what.partition('(')[0]}:{how if how == 'ok' else type(res).__name__}")
        if how == "ok" or type(res).__name__ not in ("BadZipFile", "JSONDecodeError"):
            got += 1
    ctx.label(spec[0])
    ctx.trivial(not got or not changed)


def byte_ops(n):
    from hypothesis import strategies as st

    return st.lists(st.tuples(st.sampled_from(["flip", "flip", "set", "trunc", "head", "cut", "dup", "ins", "end", "end", "num"]),
                              st.floats(0, 0.9999, allow_nan=False).map(lambda f: round(f, 6)), st.integers(0, 300)).map(list), min_size=1, max_size=n)


def s_bytes():
    from hypothesis import strategies as st

    return st.one_of(
        st.builds(lambda n, c, o: ["bytes", n, c, o], st.sampled_from(A.corpus_names()), st.sampled_from([0, 0, 1, 1, 2, 3]), byte_ops(4)),
        st.builds(lambda n, e, o: ["text", n, e, o], st.sampled_from(A.corpus_names()), st.sampled_from(["", "", "", "utf16", "bom"]), byte_ops(3)),
        st.builds(lambda b: ["raw", b.hex()], st.binary(max_size=60)))


def s_members():
    from hypothesis import strategies as st

    small = st.lists(st.tuples(st.sampled_from(["flip", "set", "trunc", "cut", "dup", "ins", "num"]),
                               st.one_of(st.floats(0, 0.3), st.floats(0, 0.9999)).map(lambda f: round(f, 6)), st.integers(0, 300)).map(list), min_size=1, max_size=4)
    op = st.tuples(st.sampled_from(["mutate"] * 6 + ["drop", "swap", "empty", "extra", "twice", "schema-first", "replace"]), st.integers(0, 200), small).map(list)
    names = [n for n in A.corpus_names() if n in ("arrays", "masked", "npscalars", "dtypes", "sparse", "bytes", "shared", "logreg", "tree", "gbc", "hgb", "sgd", "rng", "partial", "knn", "objects")]
    return st.builds(lambda n, o: ["members", n, o], st.sampled_from(names), st.lists(op, min_size=1, max_size=3))


def junk_edit():
    from hypothesis import strategies as st

    sel = st.integers(0, 400)
    junk = st.sampled_from([None, 0, 1, -1, 2**63, 1.5, "", "x", True, [], {}, [1], {"a": 1}, "NaN", [[]], "schema.json", "../x", "a.npy", "csr.npz", "builtins", [None], {"__loader__": "ListNode"},
                            {"__loader__": "ListNode", "__class__": "list", "__module__": "builtins", "content": []}, "é", "\ud800", 10**30])
    return st.one_of(st.tuples(st.just("set"), sel, st.integers(0, 12), junk), st.tuples(st.just("set"), sel, st.integers(0, 12), junk), st.tuples(st.just("del"), sel, st.integers(0, 12)),
                     st.tuples(st.just("id"), sel, sel), st.tuples(st.just("copyover"), sel, sel), st.tuples(st.just("wrap"), sel, st.integers(1, 60)),
                     st.tuples(st.just("loader"), sel, st.sampled_from(A.LOADERS)), st.tuples(st.just("name"), sel, st.sampled_from(MISSING)), A.edit_strategy()).map(list)


def s_schema():
    from hypothesis import strategies as st

    return st.builds(lambda n, e, p: ["schema", n, e, p], st.sampled_from(A.corpus_names()), st.lists(junk_edit(), min_size=1, max_size=6),
                     st.sampled_from([None] * 8 + [0, 1, -1, "2", 1.5, [], 10**9, True]))


def s_values():
    from hypothesis import strategies as st

    names = [n for n in A.corpus_names() if n not in ("arrays", "bytes", "sparse")]
    return st.builds(lambda n, e: ["values", n, e], st.sampled_from(names), st.lists(st.tuples(st.integers(0, 300), st.integers(0, 30), st.integers(0, 18)).map(list), min_size=1, max_size=3))


# names which moved, were removed or are deprecated
OLD_NAMES = ["numpy.core._multiarray_umath.exp", "numpy.core.numeric.ndarray", "numpy.core.multiarray.ndarray", "numpy.core.umath.sqrt", "numpy.core.fromnumeric.mean", "numpy.bool8", "numpy.float_", "numpy.matlib.rand",
             "scipy.sparse.csr.csr_matrix", "scipy.sparse.data.isspmatrix", "scipy.special.basic.gamma", "scipy.misc.face", "sklearn.externals.joblib.load", "sklearn.linear_model.logistic.LogisticRegression",
             "sklearn.tree.tree.DecisionTreeClassifier", "sklearn.ensemble.forest.RandomForestClassifier", "sklearn.neighbors._dist_metrics.EuclideanDistance", "sklearn.metrics._dist_metrics.EuclideanDistance",
             "sklearn.utils.deprecation.deprecated", "pandas.core.index.Index", "pandas.util.testing.assert_frame_equal", "collections.Mapping", "distutils.version.LooseVersion", "imp.reload", "asyncio.coroutine"]


def special_cases(tier):
    out = [["cycle", k, 0] for k in CYC]
    out += [["renamed", n, l] for n in OLD_NAMES for l in ("FunctionNode", "TypeNode", "ObjectNode")]
    for kind in ("list", "dict", "attrs", "masked", "objarr", "json", "jsonobj", "raw", "ids"):
        for n in (1, 50, 200, 330, 500, 990, 1001, 3000, 20000) + ((100000,) if tier != "quick" else ()):
            out.append(["deep", kind, n])
    # every byte of a small archive / every truncation
    for n in ("scalars", "bytes", "arrays") if tier == "quick" else A.corpus_names():
        k = 40 if tier == "quick" else 400
        for i in range(k):
            out.append(["bytes", n, 0, [["trunc", round(i / k, 5), 0]]])
            out.append(["bytes", n, 1, [["set", round(i / k, 5), 255]]])
    # every scalar of the rng / tree / estimator states set to every odd value
    for n in ("rng", "tree", "gbc", "slice", "hgb", "masked", "objarr", "sgd", "dtypes"):
        if n in A.corpus_names() and A.corpus()[n] is not None:
            js = sum(isinstance(nd.get("content"), str) for _, nd in A.nodes(A.corpus()[n][0]))
            step = max(1, js // 6) if tier == "quick" else 1
            for i in range(0, js, step):
                for k in range(8 if n == "rng" else 3):
                    for j in range(19):
                        if tier != "quick" or n == "rng" or (i + j) % 3 == 0:
                            out.append(["values", n, [[i, k, j]]])
    return out


MAX_ROWS = 100000


def evaluate_shared(spec, ctx: Ctx):
    """Chains of containers which refer to the next one several times by id."""
    import skops.io as sio

    kind, depth, what = spec
    leaf = {"__class__": "str", "__module__": "builtins", "__loader__": "JsonNode", "content": "1", "is_json": True}
    node, last = leaf, None
    st_ = {"__class__": "str", "__module__": "builtins", "__loader__": "TypeNode"}
    kt = {"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "content": [st_, st_]}
    for i in range(1, depth + 1):
        stub = {"__id__": i - 1} if i > 1 else leaf
        base = {"__class__": kind, "__module__": "builtins", "__id__": i}
        if kind == "dict":
            node = {**base, "__loader__": "DictNode", "content": {"a": node, "b": stub}, "key_types": kt}
        else:
            node = {**base, "__loader__": "ListNode" if kind == "list" else "TupleNode", "content": [node, stub]}
    data = A.zip_bytes({**node, "protocol": A.PROTO, "_skops_version": "0"}, {})
    t = time.process_time()
    if what == "visualize":
        rows = 0

        def sink(nodes, show, **kw):
            nonlocal rows
            for _ in nodes:
                rows += 1
                if rows > MAX_ROWS:
                    return

        sio.visualize(data, sink=sink)
        ctx.trivial(rows < 2)
        if rows > MAX_ROWS:
            raise Violation(f"visualize yields more than {MAX_ROWS} rows for an archive with {depth + 1} nodes")
    elif what == "load":
        sio.loads(data)
    else:
        if sio.get_untrusted_types(data=data):
            raise Violation("untrusted types")
    t = time.process_time() - t
    if t > LIMIT:
        raise Violation(f"{what} took {t:.1f} s for an archive with {depth + 1} nodes")


def shared_cases(tier):
    out = [[k, d, w] for k in ("list", "tuple", "dict") for d in (1, 2, 5, 12, 40, 150) for w in ("load", "audit")]
    return out + [[k, d, "visualize"] for k in ("list", "tuple", "dict") for d in (1, 2, 5, 12)]


def graft_cases(tier):
    return A.graft_cases()


def missing_cases(tier):
    """Nodes of every loader with names of nothing."""
    return [["schema", n, [["name", i, m]], None] for n, i in A.loader_positions(2 if tier == "quick" else 8) for m in MISSING]


def subs(tier):
    return [
        Sub("missing", evaluate, cases=missing_cases, n=(0, 0), setup=setup, timeout=90),
        Sub("graft", evaluate, cases=graft_cases, n=(0, 0), setup=setup, timeout=90),
        Sub("special", evaluate, cases=special_cases, n=(0, 0), setup=setup, timeout=90),
        Sub("schema", evaluate, strategy=s_schema, n=(4000, 200000), setup=setup, timeout=90),
        Sub("values", evaluate, strategy=s_values, n=(2000, 100000), setup=setup, timeout=90),
        Sub("members", evaluate, strategy=s_members, n=(2000, 100000), setup=setup, timeout=90),
        Sub("bytes", evaluate, strategy=s_bytes, n=(2500, 100000), setup=setup, timeout=90),
        Sub("shared", evaluate_shared, cases=shared_cases, n=(0, 0), setup=setup, timeout=90),
    ]
