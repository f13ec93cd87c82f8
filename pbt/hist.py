"""Operations whose result must only depend on their arguments, run in forked processes.

An operation is a JSON list.  `World` holds what lives in one process: objects
which are used again, cards (by slot), the scratch directory.  `World.run(op)`
gives the result as text, free of object ids and uuids.
"""
from __future__ import annotations

import hashlib
import io
import os
import pickle
import random
import re
import signal
import sys
import threading
import types
import warnings

import numpy as np

from . import archives as A
from . import corpus, scratch, zoo

# --------------------------------------------------------------------------
# fingerprint of a value

NAMED = (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, np.ufunc, type(np.sum), types.MethodDescriptorType, types.WrapperDescriptorType)


def fp(x):
    out, seen, keep = [], {}, []

    def go(x, d):
        if d > 150:
            out.append("...")
            return
        if x is None or x is Ellipsis or x is NotImplemented or isinstance(x, bool):
            out.append(repr(x))
            return
        t = type(x)
        if t in (int, str, bytes, complex):
            out.append(repr(x))
            return
        if t is float:
            out.append(x.hex())
            return
        if isinstance(x, NAMED):
            out.append("ref " + str(getattr(x, "__module__", "")) + "." + str(getattr(x, "__qualname__", getattr(x, "__name__", "?"))))
            return
        if id(x) in seen:
            out.append("see %d" % seen[id(x)])
            return
        seen[id(x)] = len(seen)
        keep.append(x)
        out.append("(" + t.__module__ + "." + t.__qualname__)
        if t in (list, tuple):
            for y in x:
                go(y, d + 1)
        elif t in (set, frozenset):
            out.append(repr(sorted(map(fp, x))))
        elif t is dict:
            for k, v in x.items():
                go(k, d + 1)
                out.append(":")
                go(v, d + 1)
        elif isinstance(x, np.ma.MaskedArray):
            go(np.asarray(x.data), d + 1)
            go(np.asarray(x.mask), d + 1)
        elif isinstance(x, (np.ndarray, np.generic)):
            out.append(f"{x.dtype.str} {x.dtype.descr if x.dtype.names else ''} {x.shape}")
            if x.dtype.hasobject:
                go(x.tolist(), d + 1)
            else:
                out.append(repr(x.tolist()) if x.size < 50 else hashlib.sha1(x.tobytes()).hexdigest())
        elif isinstance(x, np.dtype):
            out.append(repr(x))
        elif isinstance(x, np.random.RandomState):
            go(x.get_state(legacy=False), d + 1)  # its reduce output holds a seed sequence from the entropy of the system
        elif isinstance(x, np.random.Generator):
            go(x.bit_generator.state, d + 1)
        elif isinstance(x, np.random.BitGenerator):
            go(x.state, d + 1)
        else:
            try:
                r = x.__reduce_ex__(4)
            except Exception as e:
                out.append("irreducible " + type(e).__name__)
                r = None
            if isinstance(r, str):
                out.append(r)
            elif r is not None:
                for y in r[:3]:
                    go(y, d + 1)
                for y in r[3:5]:
                    go(None if y is None else list(y), d + 1)
        out.append(")")

    go(x, 0)
    return " ".join(out)


def wreck(x, depth=0, seen=None):
    """Modify everything mutable in a value: nothing else may notice."""
    seen = set() if seen is None else seen
    if depth > 6 or id(x) in seen or isinstance(x, NAMED):
        return
    seen.add(id(x))
    try:
        if isinstance(x, np.ndarray):
            if x.dtype.kind in "iufb" and x.flags.writeable:
                x[...] = 0
        elif isinstance(x, np.random.RandomState):
            x.rand()
        elif isinstance(x, np.random.Generator):
            x.random()
        elif isinstance(x, dict):
            for v in list(x.values()):
                wreck(v, depth + 1, seen)
            x["wrecked"] = 1
        elif isinstance(x, list):
            for v in x:
                wreck(v, depth + 1, seen)
            x.append("wrecked")
        elif isinstance(x, set):
            x.add("wrecked")
        elif isinstance(x, (tuple, frozenset)):
            for v in x:
                wreck(v, depth + 1, seen)
        elif hasattr(x, "__dict__"):
            for v in list(vars(x).values()):
                wreck(v, depth + 1, seen)
            vars(x)["wrecked_"] = 1
    except Exception:
        pass


# --------------------------------------------------------------------------
# pools

def refused():
    return {
        "lambda": lambda: (lambda: 0), "gen": lambda: (i for i in ()), "in list": lambda: [np.arange(3), {"a": [1, (i for i in ())]}], "module": lambda: os, "lock": lambda: [[1, 2], threading.Lock()],
        "birch": lambda: __import__("sklearn.cluster").cluster.Birch(), "surrogate": lambda: {"a\ud800": object()},
    }


def extra_objects():
    from sklearn.ensemble import RandomForestClassifier
    from sklearn.feature_selection import SelectKBest, f_regression
    from sklearn.model_selection import GridSearchCV
    from sklearn.linear_model import Ridge
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.svm import SVC

    rs = np.random.RandomState(3)
    X, y = rs.randn(20, 3), np.arange(20) % 2
    yield "forest", lambda: RandomForestClassifier(n_estimators=2, max_depth=2, random_state=0).fit(X, y)
    yield "search", lambda: GridSearchCV(Ridge(), {"alpha": [1, 2.0]}, cv=2)
    yield "select", lambda: SelectKBest(f_regression, k=1).fit(X, y)
    yield "knn", lambda: KNeighborsClassifier(2).fit(X, y)
    yield "svc", lambda: SVC(probability=False, random_state=np.random.RandomState(4)).fit(X, y)
    yield "plain", lambda: zoo.Plain(a=zoo.Plain(b=[1]), c={"x": np.arange(2)})
    yield "nested", lambda: [[[[1, [2, {"a": (3, [4])}]]]]]
    yield "same", lambda: (lambda a: [a, a, {"k": a}])([1, 2])
    yield "ints", lambda: list(range(200))
    yield "strs", lambda: {str(i): "v%d" % i for i in range(60)}
    yield "arrs", lambda: [np.arange(i) for i in range(12)]
    yield "counts", lambda: {i: float(i) for i in range(-5, 5)}


def twin_objects():
    """Objects which are alike: same names, equal values, same text."""
    import cmath
    import functools
    import math
    import operator

    import scipy.linalg
    import scipy.sparse as sp
    import scipy.special
    from sklearn.linear_model import LogisticRegression
    from sklearn.preprocessing import StandardScaler

    from . import twins

    big = np.zeros(3000)
    big2 = np.zeros(3000)
    big2[1500] = 1
    yield lambda: [np.log1p, np.expm1, np.exp2]
    yield lambda: [scipy.special.log1p, scipy.special.expm1, scipy.special.exp2]
    yield lambda: {"f": np.linalg.norm, "g": np.sqrt, "h": zoo.idy}
    yield lambda: {"f": scipy.linalg.norm, "g": math.sqrt, "h": twins.idy}
    yield lambda: {"f": scipy.linalg.norm, "g": cmath.sqrt, "h": twins.sqrt}
    yield lambda: [zoo.Plain(a=1), zoo.Plain, zoo.NT2(1, 2)]
    yield lambda: [twins.Plain(a=1), twins.Plain, twins.NT2(1, 2)]
    yield lambda: zoo.Plain(a=1).method
    yield lambda: twins.Plain(a=1).method
    yield lambda: zoo.Plain(a=2).method
    yield lambda: twins.LogisticRegression(C=0.5)
    yield lambda: twins.StandardScaler(mean_=np.zeros(2))
    yield lambda: StandardScaler().fit(np.zeros((2, 2)))
    yield lambda: StandardScaler().fit(np.eye(2))
    yield lambda: LogisticRegression(C=0.5, class_weight={0: 1.0, 1: 2})
    yield lambda: LogisticRegression(C=0.5, class_weight={0: 1, 1: 2.0})
    yield lambda: [1, 0, {1: 0}, (1, 0)]
    yield lambda: [True, False, {True: False}, (True, False)]
    yield lambda: [1.0, 0.0, {1.0: 0.0}, (1.0, 0.0)]
    yield lambda: [1.0, -0.0, {1.0: -0.0}, (1.0, -0.0)]
    yield lambda: [np.float64(1), np.float64(0), {np.float64(1): np.int64(0)}, (np.int64(1), np.int8(0))]
    yield lambda: ["1", "0", {"1": "0"}, ("1", "0")]
    yield lambda: [b"1", b"0", {"1": b"0"}, (b"1", bytearray(b"0"))]
    yield lambda: {"x": big}
    yield lambda: {"x": big2}
    yield lambda: {"x": big.reshape(60, 50)}
    yield lambda: {"x": np.asfortranarray(big.reshape(60, 50))}
    yield lambda: {"x": big.astype("f4")}
    yield lambda: {"x": big.astype(">f8")}
    yield lambda: [sp.csr_matrix(np.eye(3)), sp.csc_matrix(np.eye(3))]
    yield lambda: [sp.csc_matrix(np.eye(3)), sp.csr_array(np.eye(3))]
    yield lambda: functools.partial(np.add, 1)
    yield lambda: functools.partial(np.add, 1.0)
    yield lambda: functools.partial(np.subtract, 1)
    yield lambda: [operator.itemgetter(1), operator.attrgetter("a"), operator.methodcaller("a")]
    yield lambda: [operator.itemgetter("a"), operator.attrgetter("b"), operator.methodcaller("a", 1)]
    yield lambda: np.random.RandomState(5)
    yield lambda: np.random.RandomState(6)
    yield lambda: np.random.Generator(np.random.PCG64(5))
    yield lambda: np.random.Generator(np.random.PCG64(6))
    yield lambda: np.random.Generator(np.random.Philox(5))
    yield lambda: np.ma.MaskedArray([1.0, 2.0], mask=[0, 1])
    yield lambda: np.ma.MaskedArray([1.0, 2.0], mask=[1, 0])
    yield lambda: [np.dtype("f8"), np.dtype("i4")]
    yield lambda: [np.dtype("f4"), np.dtype(">i4")]


TWINS = 45
FIRST_TWIN = len(corpus.NAMES) + 12
NOBJ = FIRST_TWIN + TWINS
REFUSED = 7


def maker(i):
    """i-th object of the pool, built anew."""
    n = len(corpus.NAMES)
    if i < n:
        return lambda: corpus.objects()[corpus.NAMES[i]]
    i -= n
    ex = [f for _, f in extra_objects()] + list(twin_objects())
    if i < len(ex):
        return ex[i]
    return list(refused().values())[(i - len(ex)) % REFUSED]


def _pipe():
    from sklearn.linear_model import LogisticRegression
    from sklearn.pipeline import Pipeline
    from sklearn.preprocessing import StandardScaler

    return Pipeline([("s", StandardScaler()), ("c", LogisticRegression())])


MUTABLE = [list, dict, lambda: np.zeros((2, 3)), lambda: np.zeros(1500), lambda: np.random.RandomState(0), lambda: zoo.Plain(), lambda: models()[3](), _pipe, lambda: np.zeros(3, dtype=object)]


def build_archives():
    """Raw dumps, renumbered dumps, other protocols, damaged ones."""
    from skops.io import dumps

    out = []
    warnings.simplefilter("ignore")
    raw = {}
    for i in range(NOBJ):
        try:
            raw[i] = dumps(maker(i)())
        except Exception:
            raw[i] = b"PK"
        out.append(raw[i])
    rnd = random.Random(11)
    names = list(raw)
    for k in range(60):
        try:
            schema, mem = A.normalise(*A.read(raw[names[k % len(names)]]))
        except Exception:
            out.append(b"")
            continue
        how = k % 6
        if how == 1:
            schema["protocol"] = rnd.choice([0, 1, 5, -1])
        elif how >= 2:
            edits = []
            for _ in range(rnd.randint(1, 3)):
                op = rnd.choice(["id", "copyover", "wrap", "del", "loader", "set"])
                e = [op, rnd.randint(0, 60)]
                e.append({"loader": rnd.choice(["ListNode", "DictNode", "ObjectNode", "JsonNode", "NdArrayNode", "Nope", "TypeNode"]), "wrap": rnd.randint(1, 3)}.get(op, rnd.randint(0, 60)))
                if op == "set":
                    e.append(rnd.choice([None, 1, "x", [], {}]))
                edits.append(e)
            schema = A.apply_edits(schema, edits)
        out.append(A.zip_bytes(schema, mem))
    out += [b"", b"garbage", raw[0][: len(raw[0]) // 2], raw[5][:-10]]
    return out


ARCHIVES = []

DOCS = [
    "# Title\n\ntext *emph*\n\n## Sub\n\n- a\n- b\n    - c\n\n## Other\n\n| a | b |\n|---|---|\n| 1 | 2 |\n",
    "---\nlicense: mit\ntags: [a, b]\n---\n\n# A\n\n```python\nx = 1\n```\n\n# B\n\n> quote\n\n1. one\n2. two\n   ```\n   code\n   ```\n",
    "# A\n\n![alt](fig.png \"fig:\")\n\n[link](http://x.y/z)\n\n<details>\n<summary>s</summary>\n\nhidden\n\n</details>\n",
    "# X\n\n$$x$$\n\n# Y\n\ntext\n",
    "# N\n\n- i\n  - j\n\n    para\n\n- k\n\n***\n",
]

ASTS = [
    {"pandoc-api-version": [1, 23, 1], "meta": {}, "blocks": [{"t": "Header", "c": [1, ["a", [], []], [{"t": "Str", "c": "A"}]]}, {"t": "BulletList", "c": [[{"t": "Plain", "c": [{"t": "Str", "c": "x"}]},
     {"t": "BulletList", "c": [[{"t": "Plain", "c": [{"t": "Str", "c": "y"}]}]]}]]}]},
    {"pandoc-api-version": [1, 23, 1], "meta": {}, "blocks": [{"t": "Header", "c": [1, ["a", [], []], [{"t": "Str", "c": "A"}]]}, {"t": "BulletList", "c": [[{"t": "Plain", "c": [{"t": "Math", "c": ["x"]}]}]]}]},
    {"pandoc-api-version": [1, 23, 1], "meta": {}, "blocks": [{"t": "Header", "c": [2, ["b", [], []], [{"t": "Str", "c": "B"}]]}, {"t": "OrderedList", "c": [[1, {"t": "Decimal"}, {"t": "Period"}],
     [[{"t": "Para", "c": [{"t": "Str", "c": "one"}]}, {"t": "CodeBlock", "c": [["", ["py"], []], "a\nb"]}]]]}]},
    {"pandoc-api-version": [1, 23, 1], "meta": {}, "blocks": [{"t": "Header", "c": [1, ["c", [], []], [{"t": "Str", "c": "C"}]]}, {"t": "Para", "c": [{"t": "Strong", "c": [{"t": "Str", "c": "s"}]}, {"t": "Space"},
     {"t": "Emph", "c": [{"t": "Str", "c": "e"}]}]}, {"t": "BlockQuote", "c": [{"t": "Para", "c": [{"t": "Str", "c": "q"}]}]}]},
]

TEMPLATES = {"none": lambda: None, "skops": lambda: "skops", "dict": lambda: {"A": "a", "A/B": "ab", "C": "c"}, "empty": lambda: {}}
TABLES = [lambda: {"a": [1, 2], "b": ["x", "y|z"]}, lambda: {"c": []}, lambda: __import__("pandas").DataFrame({"p": [1.5], "q": ["r"]})]


def models():
    from sklearn.linear_model import LogisticRegression
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import StandardScaler
    from sklearn.tree import DecisionTreeRegressor

    return [lambda: LogisticRegression(C=0.5), lambda: make_pipeline(StandardScaler(), LogisticRegression()), lambda: DecisionTreeRegressor(max_depth=2), lambda: LogisticRegression()]


IDS = re.compile(r"(sk-container-id-|sk-estimator-id-)\d+")
UUID = re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}")
ADDR = re.compile(r"0x[0-9a-f]{6,}")


def clean(text, *paths):
    for p in paths:
        text = text.replace(p, "<DIR>")
    return ADDR.sub("0x", UUID.sub("<uuid>", IDS.sub(r"\1#", text)))


# --------------------------------------------------------------------------

class World:
    def __init__(self, root, archives):
        self.root = root
        self.archives = archives
        self.live = {}
        self.cards = {}
        self.own = set()
        self.local = threading.local()
        self.lock = threading.Lock()

    def keep(self, key, make):
        with self.lock:
            if key not in self.live:
                self.live[key] = make()
            return self.live[key]

    def run(self, op):
        try:
            return self.do(op)
        except RecursionError:
            return "raise RecursionError"
        except Exception as e:
            return "raise %s: %s" % (type(e).__name__, clean(str(e), self.root))

    def place(self, name, data, size):
        """A file which is replaced by others of the same name, size and time."""
        p = os.path.join(self.root, "%d-%s" % (getattr(self.local, "i", 0), name))
        with open(p + "~", "wb") as f:
            # what follows a pickle is ignored
            text = name.endswith((".pkl", ".md"))
            f.write(data.ljust(size, b"\n") if text else A.pad(data, size))
        os.utime(p + "~", ns=(10**18, 10**18))
        os.replace(p + "~", p)
        return p

    def set_state(self, i, v):
        """The live object `i` with a state that depends on `v` only."""
        x = self.keep(("mut", i), MUTABLE[i])
        if isinstance(x, list):
            x[:] = [v, [v], {"k": v}]
        elif isinstance(x, dict):
            x.clear()
            x.update({"a": v, "b": [v] * v})
        elif isinstance(x, np.ndarray):
            x[...] = v
        elif isinstance(x, np.random.RandomState):
            x.seed(v)
        elif isinstance(x, zoo.Plain):
            x.__dict__.clear()
            x.a, x.b = v, np.arange(v)
        elif hasattr(x, "steps"):
            x.set_params(c__C=v + 1, s__with_mean=bool(v % 2))
        else:
            x.set_params(C=v + 1)
            x.coef_ = np.full((1, 2), v)
        return x

    def do(self, op):
        import skops.io as sio

        k = op[0]
        if k == "mut":
            x = self.set_state(op[1], op[2])
            data = sio.dumps(x)
            schema, mem = A.normalise(*A.read(data))
            y = sio.loads(data, trusted=sio.get_untrusted_types(data=data))
            return repr(schema) + repr(sorted((n, hashlib.sha1(b).hexdigest()) for n, b in mem.items())) + fp(y)
        if k == "slot":
            # other archives in the same file
            p = self.place("slot%d.skops" % op[1], self.archives[op[2] % len(self.archives)], 30000)
            T = sio.get_untrusted_types(file=p)
            rows = []
            if op[3]:
                sio.visualize(p, sink=lambda nodes, show, **kw: rows.extend((n.level, n.key, n.val, n.is_safe) for n in nodes))
            out = repr(T) + repr(rows)
            T = [t for t in T if not t.startswith(("os.", "posix.", "subprocess.", "builtins.e", "shutil."))]
            # one list whose items are replaced
            if not hasattr(self.local, "trusted"):
                self.local.trusted = []
            self.local.trusted[:] = T[op[4]:]
            x = sio.load(p, trusted=self.local.trusted)
            out += fp(x)
            wreck(x)
            return out
        if k == "parseslot":
            from skops.card import parse_modelcard

            text = DOCS[op[1] % len(DOCS)].encode()
            return clean(parse_modelcard(self.place("doc.md", text, 400)).render(), self.root)
        if k == "nest":
            return self.nest(*op[1:])
        if k in ("dumps", "dump", "dumpfile"):
            i, live = op[1], op[2]
            obj = self.keep(("obj", i), maker(i)) if live else maker(i)()
            kw = {"compression": op[3]} if op[3] is not None else {}
            if k == "dumps":
                data = sio.dumps(obj, **kw)
            elif k == "dump":
                f = io.BytesIO()
                sio.dump(obj, f, **kw)
                data = f.getvalue()
            else:
                p = os.path.join(self.root, "d%d-%d.skops" % (threading.get_ident() % 100003, i))
                sio.dump(obj, p, **kw)
                with open(p, "rb") as f:
                    data = f.read()
            schema, mem = A.normalise(*A.read(data))
            return repr(schema) + repr(sorted((n, hashlib.sha1(b).hexdigest()) for n, b in mem.items()))
        if k == "untrusted":
            data = self.archives[op[1] % len(self.archives)]
            if op[2]:
                T = sio.get_untrusted_types(file=self.file(op[1]))
            else:
                T = sio.get_untrusted_types(data=data)
            r = repr(T)
            T.append("wrecked.Type")
            return r
        if k == "loads":
            data = self.archives[op[1] % len(self.archives)]
            how = op[2]
            T = None
            if how != "none":
                T = sio.get_untrusted_types(data=data)
                if how == "less" and T:
                    T = T[1:]
                T = [t for t in T if not t.startswith(("os.", "posix.", "subprocess.", "builtins.e", "shutil."))]
            x = sio.load(self.file(op[1]), trusted=T) if op[3] else sio.loads(data, trusted=T)
            r = fp(x)
            wreck(x)
            if T:
                T.append("wrecked.Type")
            return r
        if k == "vis":
            rows = []
            data = self.archives[op[1] % len(self.archives)]

            def sink(nodes, show, **kw):
                for n in nodes:
                    rows.append((n.level, n.key, n.val, n.is_self_safe, n.is_safe, n.is_last))
                rows.append(sorted(kw.items(), key=repr))

            sio.visualize(data, show=op[2], sink=sink)
            return repr(rows)
        if k == "show":
            import contextlib

            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                sio.visualize(self.archives[op[1] % len(self.archives)], show=op[2])
            return buf.getvalue()
        if k == "md":
            import copy

            from skops.card._markup import Markdown
            from skops.card._parser import PandocParser
            import json

            ast = ASTS[op[1] % len(ASTS)]
            if op[2]:
                return clean(PandocParser(json.dumps(ast)).generate().render(), self.root)
            m = Markdown()
            return repr([m(b) for b in copy.deepcopy(ast["blocks"])])
        if k == "parse":
            from skops.card import parse_modelcard

            p = os.path.join(self.root, "doc%d.md" % (op[1] % len(DOCS)))
            with self.lock:
                if not os.path.exists(p):
                    with open(p, "w") as f:
                        f.write(DOCS[op[1] % len(DOCS)])
            return clean(parse_modelcard(p).render(), self.root)
        if k == "card":
            return self.card(op[1], op[2])
        raise ValueError(op)

    def nest(self, kind, i, inner):
        """A call during another one."""
        import skops.io as sio

        got = []
        inner = list(inner or [])

        def run():
            if len(got) < len(inner):
                got.append(self.run(inner[len(got)]))

        obj = [zoo.Calls(1), maker(i)(), zoo.Calls(2), {"z": zoo.Calls(3)}]
        try:
            if kind == "dumps":
                zoo.Calls.local.fn = run
            data = sio.dumps(obj)
            schema, mem = A.normalise(*A.read(data))
            out = repr(schema) + repr(sorted((n, hashlib.sha1(b).hexdigest()) for n, b in mem.items()))
            zoo.Calls.local.fn = None
            T = sio.get_untrusted_types(data=data)
            if kind == "loads":
                zoo.Calls.local.fn = run
            out += fp(sio.loads(data, trusted=T))
            zoo.Calls.local.fn = None
            rows = []

            def sink(nodes, show, **kw):
                for n in nodes:
                    if kind == "vis":
                        run()
                    rows.append((n.level, n.key, n.val, n.is_self_safe, n.is_safe, n.is_last))

            sio.visualize(data, sink=sink)
            out += repr(rows)
        finally:
            zoo.Calls.local.fn = None
        return out + "\0" + "\0".join(got)

    def file(self, i):
        i %= len(self.archives)
        p = os.path.join(self.root, "a%d.skops" % i)
        with self.lock:
            if not os.path.exists(p):
                with open(p, "wb") as f:
                    f.write(self.archives[i])
        return p

    def card(self, slot, op):
        from skops.card import Card

        k = op[0]
        if k == "new":
            t = TEMPLATES[op[1]]
            template = self.keep(("tpl", op[1]), t) if op[4] else t()
            ms = models()
            m = ms[op[2] % len(ms)]
            model = self.keep(("mod", op[2] % len(ms)), m) if op[4] else m()
            self.own.discard(slot)
            if not op[4] and not op[5]:
                self.own.add(slot)
            kw = {}
            if op[5]:
                # other models in the same file
                import pickle as pk

                import skops.io as sio

                name = "model%d" % slot
                if op[5] == "skops":
                    model = self.place(name + ".skops", sio.dumps(model), 6000)
                    kw = {"model_format": "skops"}
                elif op[5] == "auto":
                    model = self.place(name + ".auto", sio.dumps(model), 6000)
                else:
                    model = self.place(name + ".pkl", pk.dumps(model), 6000)
                    kw = {"model_format": "pickle"}
            self.cards[slot] = Card(model, model_diagram=op[3], template=template, **kw)
        elif slot not in self.cards:
            return "no card"
        c = self.cards[slot]
        out = ""
        if k == "add":
            c.add(folded=op[3], **{op[1]: op[2]})
        elif k == "plot":
            c.add_plot(**{op[1]: op[2]})
        elif k == "table":
            t = self.keep(("tab", op[2] % 3), TABLES[op[2] % 3])
            c.add_table(**{op[1]: t})
        elif k == "metrics":
            if op[1]:
                c.add_metrics(op[1], **dict(op[2]))
            else:
                c.add_metrics(**dict(op[2]))
        elif k == "params":
            # only if no other card has the model
            if slot not in self.own:
                return "shared"
            c.model.set_params(**{next(p for p in ("C", "max_depth", "logisticregression__C") if p in c.model.get_params()): op[1]})
        elif k == "hyper":
            c.add_hyperparams()
        elif k == "diagram":
            c.add_model_plot()
        elif k == "perm":
            from sklearn.utils import Bunch

            rs = np.random.RandomState(op[1])
            imp = rs.rand(2 + op[1], 3)
            pi = Bunch(importances=imp, importances_mean=imp.mean(1), importances_std=imp.std(1))
            f = os.path.join(self.root, "p%d-%d.%s" % (slot, op[1], op[2]))
            c.add_permutation_importances(pi, np.array(["u%d" % i for i in range(len(imp))]), plot_file=f, plot_name="Importances %d" % op[1], overwrite=True)
            with open(f, "rb") as f:
                out = hashlib.sha1(f.read()).hexdigest()
        elif k == "delete":
            c.delete(op[1])
        elif k == "set":
            s = c.select(op[1])
            setattr(s, op[2], op[3])
        elif k == "sub":
            out = repr(list(c.select(op[1]).subsections))
        elif k == "save":
            d = os.path.join(self.root, "s%d" % slot)
            os.makedirs(d, exist_ok=True)
            c.save(os.path.join(d, "README.md"))
            with open(os.path.join(d, "README.md"), encoding="utf-8") as f:
                out = f.read()
        return clean(out + c.render() + "\n----\n" + c.get_toc() + "\n----\n" + repr(c), self.root)


# --------------------------------------------------------------------------
# processes

def forked(fn, timeout=90):
    """fn() -> picklable, in a forked process; ('ok', r) | ('died', what)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if not pid:
        code = 4
        try:
            os.close(r)
            signal.alarm(timeout)
            warnings.simplefilter("ignore")
            try:
                res = ("ok", fn())
            except BaseException as e:
                import traceback

                res = ("error", traceback.format_exc())
            data = pickle.dumps(res)
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        c = os.read(r, 1 << 20)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if st:
        return "died", "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit %d" % os.WEXITSTATUS(st)
    return pickle.loads(b"".join(chunks))


def sequence(ops):
    """Results of a sequence of operations in a process which did nothing before."""
    def fn():
        with scratch.case_dir() as root:
            w = World(root, ARCHIVES)
            return [w.run(op) for op in ops]

    return forked(fn)


# --------------------------------------------------------------------------
# threads

class Sched:
    """Runs one thread at a time, moving to a random other one at random lines of skops."""

    TOOL = 4

    def __init__(self, n, seed, p, prefix):
        self.rnd = random.Random(seed)
        self.p = p
        self.prefix = prefix
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.ids = {}
        self.lock = threading.Lock()
        self.switches = 0
        self.stalls = 0

    def line(self, code, lineno):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        with self.lock:
            if self.rnd.random() >= self.p:
                return
            nxt = self.rnd.choice(sorted(self.alive))
            if nxt == me:
                return
            self.switches += 1
            self.sems[nxt].release()
        if not self.sems[me].acquire(timeout=0.3):
            # the other one waits for a lock this one holds
            self.stalls += 1
            if self.stalls > 20:
                self.p = 0

    def start(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "pbt")
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        m.set_events(self.TOOL, m.events.LINE)

    def stop(self):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.free_tool_id(self.TOOL)

    def body(self, i, fn):
        def run():
            self.ids[threading.get_ident()] = i
            self.sems[i].acquire(timeout=20)
            try:
                fn()
            finally:
                with self.lock:
                    self.ids.pop(threading.get_ident(), None)
                    self.alive.discard(i)
                    if self.alive:
                        self.sems[self.rnd.choice(sorted(self.alive))].release()

        return run


def threaded(lists, seed, mode, p=0.05):
    """Results of the operation lists, each in its own thread."""
    def fn():
        import skops

        with scratch.case_dir() as root:
            w = World(root, ARCHIVES)
            results = [[] for _ in lists]
            info = {}

            def job(i):
                def go():
                    for op in lists[i]:
                        results[i].append(w.run(op))

                return go

            if mode == "coop":
                s = Sched(len(lists), seed, p, os.path.dirname(skops.__file__))
                ts = [threading.Thread(target=s.body(i, job(i))) for i in range(len(lists))]
                s.start()
                for t in ts:
                    t.start()
                s.sems[0].release()
                for t in ts:
                    t.join()
                s.stop()
                info = {"switches": s.switches, "stalls": s.stalls}
            else:
                sys.setswitchinterval(1e-6)
                bar = threading.Barrier(len(lists))

                def wrap(f):
                    def go():
                        bar.wait()
                        f()

                    return go

                ts = [threading.Thread(target=wrap(job(i))) for i in range(len(lists))]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
            return results, info

    return forked(fn)
