"""C06 - the sharing structure of the object graph is preserved."""
from __future__ import annotations

import collections
import functools
import io
import zipfile

import numpy as np
import scipy.sparse as sp

from ..cmp import diff
from ..core import Ctx, Skip, Sub, Violation

RULE = (
    "A case is a generated DAG of mutable objects (containers and subclasses, bytearrays, arrays and views, object arrays, sparse matrices, random generators, estimators, "
    "objects whose state is made of temporaries), every node referring to earlier ones directly, inside tuples, partials, bound methods or object arrays. Identities of all "
    "corresponding sub-objects must be in bijection, contents equal, arrays stored once. Non-trivial: some mutable object is referenced twice or two equal ones exist"
)
MAX_VISITS = 2500
WEIGHT = {"wide": 300, "wideobj": 100, "npscalars": 20, "temp": 8, "tslots": 5, "est": 8, "tree": 20, "rs": 5, "gen": 5}


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def method(self):
        pass


class L(list):
    pass


class D(dict):
    pass


class St(set):
    pass


class Temp:
    """Its state consists of fresh temporaries in every call."""

    def __init__(self, n, refs):
        self.n, self.refs = n, refs

    def __getstate__(self):
        return {"n": [self.n] * 3, "b": bytearray(b"%d" % self.n), "a": np.full(3, self.n, dtype="i8"), "d": {"k": {"n": self.n}}, "refs": list(self.refs), "s": sp.csr_matrix([[self.n, 1]])}

    def __setstate__(self, st):
        if [st["n"], bytes(st["b"]), st["a"].tolist(), st["d"], st["s"].toarray().tolist()] != [[st["n"][0]] * 3, b"%d" % st["n"][0], [st["n"][0]] * 3, {"k": {"n": st["n"][0]}}, [[st["n"][0], 1]]]:
            raise Violation(f"contents of temporaries are mixed up: {st}")
        self.n, self.refs = st["n"][0], st["refs"]


class TempSlots:
    __slots__ = ("n", "refs")

    def __init__(self, n, refs):
        self.n, self.refs = n, refs

    def __getstate__(self):
        return ([self.n], np.array([self.n, "x"], dtype=object), tuple(self.refs), np.ma.MaskedArray([self.n, 2], mask=[0, 1]))

    def __setstate__(self, st):
        if st[1].tolist() != [st[0][0], "x"] or st[3].data.tolist() != [st[0][0], 2]:
            raise Violation(f"contents of temporaries are mixed up: {st}")
        self.n, self.refs = st[0][0], list(st[2])


class Reduced:
    def __init__(self, n, refs):
        self.n, self.refs = n, refs

    def __reduce__(self):
        return Reduced, (np.int64(self.n), list(self.refs))


NEEDS = {"bytearray", "arr", "arrF", "view", "ro", "sparse", "coo", "sparray", "rs", "gen", "masked", "emptyarr", "dup"}


class Graph:
    def __init__(self, spec):
        self.objs = []      # node objects
        self.arrays = {}    # id -> (object, marker content)
        self.visits = []
        self.spec = spec
        for i, (kind, seed, refs) in enumerate(spec):
            self.visits.append(WEIGHT.get(kind, 1))
            self.i = i
            o = self.make(kind, seed, refs)
            self.objs.append(o)
            if sum(self.visits) > 12 * MAX_VISITS:
                raise Skip()

    def ref(self, r):
        """An int refers to an earlier node, lists wrap references in something immutable."""
        if isinstance(r, int):
            if not self.objs:
                return None
            j = len(self.objs) - 1 - r % len(self.objs)
            self.visits[self.i] += self.visits[j]
            return self.objs[j]
        how, sub = r
        if how == "v":
            return [None, True, 1.5, "s", sub][sub % 5]
        vals = [self.ref(x) for x in sub]
        if how == "t":
            return tuple(vals)
        if how == "p":
            return functools.partial(np.add, *vals)
        if how == "k":
            return functools.partial(dict, **{f"k{i}": v for i, v in enumerate(vals)})
        if how == "m":
            o = Obj(x=vals)
            return o.method
        if how == "l":
            return list(vals)
        raise ValueError(how)

    def unique(self, n=4):
        """Contents which occur in no other array of the graph."""
        return np.arange(n) + 1000 * (self.i + 1)

    def array(self, a):
        self.arrays[id(a)] = a
        return a

    def make(self, kind, seed, refs):
        i = self.i
        if kind in NEEDS:
            if kind == "dup":  # equal to an earlier one, but distinct
                refs = []
                bas = [o for o in self.objs if isinstance(o, bytearray)]
                return bytearray(bas[seed % len(bas)]) if bas else bytearray(b"dup")
            if kind == "bytearray":
                return bytearray(b"x" * (seed % 3))
            if kind == "arr":
                return self.array(self.unique().astype(["i8", "f4", ">i4", "c16"][seed % 4]))
            if kind == "arrF":
                return self.array(np.asfortranarray(self.unique(6).reshape(2, 3).astype("f8")))
            if kind == "view":  # distinct arrays which share memory
                bases = [a for a in self.arrays.values() if isinstance(a, np.ndarray) and a.ndim == 1 and a.dtype != object]
                v = bases[seed % len(bases)][:] if bases else self.unique()
                return v
            if kind == "ro":
                a = self.unique()
                a.flags.writeable = False
                return self.array(a)
            if kind == "sparse":
                return self.array([sp.csr_matrix, sp.csc_matrix, sp.bsr_matrix, sp.dia_matrix][seed % 4](self.unique().reshape(2, 2)))
            if kind == "coo":
                return self.array(sp.coo_matrix(self.unique().reshape(2, 2)))
            if kind == "sparray":
                a = sp.csr_array(self.unique().reshape(2, 2))
                self.array(a.data)  # persisted as an object with attributes
                return a
            if kind == "rs":
                return np.random.RandomState(seed % 3)
            if kind == "gen":
                return np.random.Generator([np.random.PCG64, np.random.MT19937, np.random.Philox][seed % 3](seed % 2))
            if kind == "masked":
                return np.ma.MaskedArray([1.0, 2.0], mask=[0, seed % 2])
            if kind == "emptyarr":
                return np.zeros((0, seed % 3))
        vals = [self.ref(r) for r in refs]
        if kind == "list":
            return list(vals)
        if kind == "lsub":
            x = L(vals[1:])
            if vals:
                x.attr = vals[0]
            return x
        if kind == "set":
            return {v for v in vals if isinstance(v, (int, str, float, type(None)))} | {seed}
        if kind == "ssub":
            x = St([seed])
            x.attr = vals
            return x
        if kind == "dict":
            return {f"k{j}": v for j, v in enumerate(vals)}
        if kind == "idict":
            return {j: v for j, v in enumerate(vals)}
        if kind == "tdict":
            return {(j, "t"): v for j, v in enumerate(vals)}
        if kind == "dsub":
            x = D({np.int64(j): v for j, v in enumerate(vals)})
            x.attr = vals[:1]
            return x
        if kind == "odict":
            return collections.OrderedDict((f"k{j}", v) for j, v in enumerate(vals))
        if kind == "ddict":
            return collections.defaultdict(list, {f"k{j}": v for j, v in enumerate(vals)})
        if kind == "obj":
            return Obj(**{f"a{j}": v for j, v in enumerate(vals)})
        if kind == "temp":
            return Temp(i + seed * 1000, vals)
        if kind == "tslots":
            return TempSlots(i + seed * 1000, vals)
        if kind == "reduced":
            return Reduced(i, vals)
        if kind == "objarr":
            a = np.empty(len(vals), dtype=object)
            for j, v in enumerate(vals):
                a[j] = v
            return a
        if kind == "objarr2":
            n = max(1, len(vals) // 2)
            a = np.empty((2, n), dtype=object)
            for j, v in enumerate(vals[: 2 * n]):
                a.flat[j] = v
            return a
        if kind == "partial":
            return functools.partial(np.add, *vals)
        if kind == "wide":  # plenty of short-lived temporaries around
            return [Temp(j + i * 10000, vals[:1]) for j in range(10 + seed % 20)]
        if kind == "wideobj":
            a = np.empty(20 + seed % 60, dtype=object)
            for j in range(len(a)):
                a[j] = [j, (i, j)] if j % 3 else {"j": j, "v": vals[j % len(vals)] if vals else i}
            return a
        if kind == "npscalars":
            return [np.float64(j + i) for j in range(20)] + [np.dtype("f4"), np.dtype("i2")]
        if kind == "ufuncs":
            return [np.int16(3), np.dtype([("a", "i4")]), slice(1, 2), *vals]
        if kind == "pipe":
            from sklearn.pipeline import Pipeline

            from sklearn.preprocessing import FunctionTransformer

            return Pipeline([(f"s{j}", v if not isinstance(v, (int, str, float)) else FunctionTransformer()) for j, v in enumerate(vals)])
        if kind == "est":
            from sklearn.linear_model import LogisticRegression, Ridge
            from sklearn.ensemble import BaggingClassifier
            from sklearn.preprocessing import FunctionTransformer

            cls = [LogisticRegression, Ridge, FunctionTransformer, BaggingClassifier][seed % 4]
            e = cls()
            names = sorted(e.get_params(deep=False))
            for j, v in enumerate(vals):
                setattr(e, (names + ["coef_", "extra_"])[(seed + j) % (len(names) + 2)], v)
            return e
        if kind == "genpair":
            bg = np.random.PCG64(seed)
            return [np.random.Generator(bg), np.random.Generator(bg)]
        if kind == "tree":
            return tree(seed % 2)
        raise ValueError(kind)


_trees = {}


def tree(seed):
    import copy

    if seed not in _trees:
        from sklearn.tree import DecisionTreeClassifier

        X = np.arange(12.0).reshape(6, 2)
        _trees[seed] = DecisionTreeClassifier(max_depth=1 + seed).fit(X, [0, 1, 0, 1, 0, 1])
    t = copy.deepcopy(_trees[seed])
    return t


def members(data):
    out = []
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        for n in z.namelist():
            if n.endswith(".npy"):
                try:
                    out.append((n, np.load(io.BytesIO(z.read(n)))))
                except Exception:
                    pass
            elif n.endswith(".npz"):
                try:
                    out.append((n, sp.load_npz(io.BytesIO(z.read(n)))))
                except Exception:
                    pass
    return out


def same_array(a, b):
    if sp.issparse(a) or sp.issparse(b):
        return sp.issparse(a) and sp.issparse(b) and a.format == b.format and a.shape == b.shape and (a.toarray() == b.toarray()).all()
    return a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())


def evaluate(spec, ctx: Ctx):
    import skops.io as sio

    g = Graph(spec)
    if not g.objs:
        raise Skip()
    # the last node first: what is reachable from it; then everything
    root = [g.objs[-1], *g.objs[::-1]]
    if len(spec) < 40 and sum(g.visits) > 2 * MAX_VISITS:
        raise Skip()
    try:
        data = sio.dumps(root)
    except RecursionError:
        raise Skip()
    except Exception as e:
        raise Violation(f"dumps raises {e!r}")
    T = sio.get_untrusted_types(data=data)
    try:
        y = sio.loads(data, trusted=T)
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"loads raises {e!r}")
    d = diff(root, y, ident=True)
    if d:
        raise Violation(d)
    if y[0] is not y[1]:
        raise Violation("root[0] is root[1] no longer")
    # arrays are stored once
    mem = members(data)
    views = sum(s[0] == "view" for s in spec)
    for a in g.arrays.values():
        n = sum(same_array(a, m) for _, m in mem)
        if n == 0:
            raise Violation(f"array {a!r} is not stored")
        if n > 1 and not views:
            raise Violation(f"array {a!r} is stored {n} times")
    if views:
        total = len({id(o) for o in g.objs if isinstance(o, np.ndarray) and o.dtype != object and not isinstance(o, np.ma.MaskedArray)})
        if len(spec) == sum(s[0] in ("arr", "view", "list", "dict", "bytearray", "ro", "obj") for s in spec):
            n = sum(isinstance(m, np.ndarray) for _, m in mem)
            if n != total:
                raise Violation(f"{total} distinct arrays, {n} members")
    # the second cycle gives the same partition
    if len(data) < 20000:
        data2 = sio.dumps(y)
        z = sio.loads(data2, trusted=T)
        d = diff(root, z, ident=True)
        if d:
            raise Violation("after two cycles: " + d)
        # loaded masked arrays have an explicit fill_value
        with zipfile.ZipFile(io.BytesIO(data)) as z1, zipfile.ZipFile(io.BytesIO(data2)) as z2:
            if len(z1.namelist()) != len(z2.namelist()) and not {"masked", "tslots"} & {s[0] for s in spec}:
                raise Violation(f"the first dump has {len(z1.namelist())} members, the second {len(z2.namelist())}")
    ctx.label(*{s[0] for s in spec})
    shared = sum(g.visits) > len(spec)
    ctx.label("shared" if shared else "plain")
    ctx.trivial(len(spec) < 2)


KINDS = ["list", "list", "dict", "idict", "tdict", "odict", "ddict", "lsub", "ssub", "dsub", "set", "obj", "obj", "temp", "tslots", "reduced", "objarr", "objarr2", "partial",
         "est", "est", "pipe", "tree", "arr", "arr", "arrF", "view", "ro", "sparse", "coo", "sparray", "rs", "gen", "masked", "emptyarr", "bytearray", "bytearray", "dup"]
HEAVY = ["wide", "wideobj", "npscalars", "ufuncs", "temp", "tslots"]


def ref_strategy(st):
    i = st.integers(0, 12)
    near = st.integers(0, 2)
    leaf = st.one_of(i, i, near, near, st.integers(0, 9).map(lambda v: ["v", v]))
    return st.recursive(leaf, lambda c: st.tuples(st.sampled_from(["t", "t", "p", "k", "m", "l"]), st.lists(c, max_size=3)).map(list), max_leaves=3)


def strategy(kinds, lo, hi):
    def s():
        from hypothesis import strategies as st

        node = st.tuples(st.sampled_from(kinds), st.integers(0, 30), st.lists(ref_strategy(st), max_size=4)).map(list)
        return st.lists(node, min_size=lo, max_size=hi)

    return s


def catalogue(tier):
    """Every kind shared twice below every kind."""
    out = []
    for k in sorted(set(KINDS + HEAVY)):
        for p in sorted(set(KINDS + HEAVY) - NEEDS):
            for refs in ([0, 0], [["t", [0]], ["t", [0, 0]]]):
                out.append([["arr", 0, []], [k, 1, [0]], [k, 1, [1]], [p, 2, refs + [1]], [p, 3, [1, ["v", 3]]], ["list", 0, [0, 1]]] if "wide" not in (k, p) else [["arr", 0, []], [k, 1, [0]], [p, 2, refs]])
    return out


def pressure_cases(tier):
    """Thousands of temporaries."""
    out = []
    for n in (50, 300) if tier == "quick" else (50, 300, 1000, 3000):
        for k in ("temp", "tslots", "reduced", "obj", "npscalars", "wideobj"):
            m = n if k not in ("npscalars", "wideobj") else n // 15
            out.append([["arr", 0, []], ["bytearray", 1, []]] + [[k, j, [j + 1, j]] if k != "temp" and k != "tslots" else [k, j % 30, [m + 5 + j]] for j in range(m)]
                       if k in ("temp", "tslots") else [["arr", 0, []]] + [[k, j % 30, []] for j in range(m)])
    return out


def subs(tier):
    return [
        Sub("catalogue", evaluate, cases=catalogue, n=(0, 0)),
        Sub("pressure", evaluate, cases=pressure_cases, n=(0, 0)),
        Sub("graphs", evaluate, strategy=strategy(KINDS, 2, 14), n=(3000, 80000)),
        Sub("temporaries", evaluate, strategy=strategy(KINDS + HEAVY * 4, 2, 9), n=(800, 20000)),
    ]
