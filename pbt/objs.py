"""Object specs: JSON-able descriptions of Python values, their builder, and
Hypothesis strategies that produce them by construction.

A spec is a list whose head names the kind.  `build(spec)` is deterministic.
`["ref", i]` refers to the i-th `["def", i, spec]` already built (aliasing).
"""
from __future__ import annotations

import collections
import functools
import operator

import numpy as np
import scipy.sparse as sp
import scipy.special

# --------------------------------------------------------------------------
# deterministic array filling


def mk_dtype(d):
    """dtype spec: str | {"fields": [[name, dtype, subshape]], "align": bool}"""
    if isinstance(d, str):
        return np.dtype(d)
    if "sub" in d:
        return np.dtype((mk_dtype(d["sub"]), tuple(d["shape"])))
    items = []
    for name, sub, shape in d["fields"]:
        items.append((name, mk_dtype(sub), tuple(shape)) if shape else (name, mk_dtype(sub)))
    return np.dtype(items, align=bool(d.get("align")))


_SPECIAL = [0.0, -0.0, 1.0, -1.0, float("nan"), float("inf"), float("-inf"), 5e-324, 1e300, 0.1, 1 / 3]


def fill(dtype, shape, seed):
    shape = tuple(shape)
    rs = np.random.RandomState(seed % (2**31))
    if dtype.subdtype is not None:
        base, sub = dtype.subdtype
        return fill(base, shape + sub, seed)
    a = np.zeros(shape, dtype=dtype)
    if a.size == 0:
        return a
    if dtype.names:
        for i, n in enumerate(dtype.names):
            ft = dtype.fields[n][0]
            a[n] = fill(ft, shape, seed + 7 * i + 1)
        return a
    k = dtype.kind
    n = a.size
    if k == "b":
        vals = rs.randint(0, 2, n).astype(bool)
    elif k in "iu":
        info = np.iinfo(dtype)
        raw = np.frombuffer(rs.bytes(n * dtype.itemsize), dtype=dtype.newbyteorder("=")).copy()
        raw[rs.randint(0, 6, n) == 0] = info.max
        raw[rs.randint(0, 6, n) == 0] = info.min
        vals = raw
    elif k in "fc":
        vals = np.array([_SPECIAL[i] for i in rs.randint(0, len(_SPECIAL), n)])
        rnd = rs.randn(n) * 10.0 ** rs.randint(-6, 7, n)
        vals = np.where(rs.randint(0, 2, n) == 0, vals, rnd)
        if k == "c":
            vals = vals + 1j * rs.randn(n)
        with np.errstate(all="ignore"):
            vals = vals.astype(dtype)
    elif k in "mM":
        vals = rs.randint(-(2**40), 2**40, n).astype("i8").view(f"{k}8[{np.datetime_data(dtype)[0]}]" if np.datetime_data(dtype)[0] != "generic" else f"{k}8")
        if rs.randint(0, 3) == 0:
            vals = vals.copy()
            vals[0] = np.array("NaT", dtype=vals.dtype)
    elif k == "S":
        w = dtype.itemsize
        vals = np.array([rs.bytes(rs.randint(0, w + 1)) for _ in range(n)], dtype=dtype) if w else a.ravel()
    elif k == "U":
        w = dtype.itemsize // 4
        alpha = "aZ09 \t\n\x00é\u2028中\U0001f600'\"\\{}/"
        vals = np.array(["".join(alpha[j] for j in rs.randint(0, len(alpha), rs.randint(0, w + 1))) for _ in range(n)], dtype=dtype) if w else a.ravel()
    elif k == "V":
        vals = np.frombuffer(rs.bytes(n * dtype.itemsize), dtype=dtype) if dtype.itemsize else a.ravel()
    else:
        raise ValueError(k)
    a[...] = vals.reshape(shape)
    return a


def lay(a, layout):
    """Same values, other memory layouts."""
    if layout == "C":
        return np.array(a, order="C")
    if layout == "F":
        return np.array(a, order="F")
    if layout == "T" and a.ndim >= 2:
        return np.array(a.T, order="C").T
    if layout == "strided" and a.ndim >= 1:
        big = np.zeros(tuple(2 * s + 1 for s in a.shape), dtype=a.dtype)
        view = big[tuple(slice(1, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if layout == "neg" and a.ndim >= 1:
        rev = tuple(slice(None, None, -1) for _ in a.shape)
        return np.array(a[rev])[rev]
    if layout == "ro":
        b = np.array(a, order="C")
        b.flags.writeable = False
        return b
    return np.array(a, order="C")


UFUNCS = ["add", "sqrt", "exp", "log1p", "maximum", "matmul", "logical_and", "isnan", "divmod", "absolute"]
SP_UFUNCS = ["expit", "erf", "gammaln", "xlogy", "logit", "psi", "ndtr"]
TYPES = {"int": int, "float": float, "str": str, "bool": bool, "list": list, "dict": dict, "set": set, "tuple": tuple,
         "np.float64": np.float64, "np.int8": np.int8, "np.ndarray": np.ndarray, "bytes": bytes, "complex": complex,
         "OrderedDict": collections.OrderedDict, "np.bool_": np.bool_, "np.str_": np.str_, "object": object,
         "np.complex128": np.complex128, "type": type, "csr_matrix": sp.csr_matrix}
NP_NUM = {"i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f2", "f4", "f8"}
BITGENS = ["MT19937", "PCG64", "PCG64DXSM", "Philox", "SFC64"]
SPARSE = ["csr", "csc", "coo", "bsr", "dia"]


class Builder:
    def __init__(self):
        self.defs = {}

    def __call__(self, s):
        return getattr(self, "k_" + s[0])(*s[1:])

    # scalars
    def k_none(self):
        return None

    def k_bool(self, b):
        return bool(b)

    def k_int(self, s):
        return int(s)

    def k_bigint(self, digits):
        return 10**digits

    def k_float(self, h):
        return float.fromhex(h)

    def k_str(self, s):
        return s[:1] + s[1:]

    def k_ustr(self, code_points):  # surrogate pairs do not survive in JSON specs
        return "".join(map(chr, code_points))

    def k_bytes(self, h):
        return bytes.fromhex(h)

    def k_bytearray(self, h):
        return bytearray(bytes.fromhex(h))

    def k_complex(self, a, b):
        return complex(float.fromhex(a), float.fromhex(b))

    def k_slice(self, a, b, c):
        return slice(self(a), self(b), self(c))

    # numpy
    def k_arr(self, d, shape, layout, seed):
        return lay(fill(mk_dtype(d), shape, seed), layout)

    def k_npscalar(self, d, seed):
        return fill(mk_dtype(d), (1,), seed)[0]

    def k_npnum(self, d, v):
        with np.errstate(all="ignore"):
            if d[0] in "fg":
                return np.dtype(d).type(float.fromhex(v))
            return np.dtype(d).type(int(v))

    def k_npcplx(self, d, a, b):
        with np.errstate(all="ignore"):
            return np.dtype(d).type(complex(float.fromhex(a), float.fromhex(b)))

    def k_dtype(self, d):
        return mk_dtype(d)

    def k_masked(self, d, shape, seed, maskkind, fillv, hard):
        dt = mk_dtype(d)
        a = fill(dt, shape, seed)
        rs = np.random.RandomState((seed + 13) % (2**31))
        if maskkind == "nomask":
            m = np.ma.nomask
        elif maskkind == "full":
            m = np.ones(a.shape, bool)
        elif maskkind == "none":
            m = np.zeros(a.shape, bool)
        else:
            m = rs.randint(0, 2, a.shape).astype(bool)
        x = np.ma.MaskedArray(a, mask=m, hard_mask=bool(hard))
        if fillv:
            x.fill_value = fill(dt, (1,), seed + 99)[0]
        return x

    def k_npstr(self, v):
        return np.str_(v)

    def k_npbytes(self, h):
        return np.bytes_(bytes.fromhex(h))

    def k_strarr(self, cells):
        return np.array(cells, dtype=np.dtypes.StringDType())

    def k_objarr(self, shape, cells, layout="C"):
        a = np.empty(int(np.prod(shape)), dtype=object)
        for i in range(a.size):
            a[i] = self(cells[i % len(cells)])
        a = a.reshape(shape)
        if layout == "F":
            a = np.array(a, order="F")
        elif layout == "T":
            a = np.array(a.T, order="C").T if a.ndim > 1 else a
        return a

    def k_rng(self, kind, bitgen, seed, ops):
        if kind == "RandomState":
            if bitgen == "MT19937":
                r = np.random.RandomState(seed)
            else:
                r = np.random.RandomState(getattr(np.random, bitgen)(seed))
        else:
            r = np.random.Generator(getattr(np.random, bitgen)(seed))
        for op in ops:
            if op == "normal":
                r.standard_normal() if kind != "RandomState" else r.randn()
            elif op == "int32":
                r.integers(0, 10, dtype=np.int32) if kind != "RandomState" else r.randint(0, 10)
            elif op == "spawn":
                if kind != "RandomState":
                    r = r.spawn(2)[1]
            elif op == "jump":
                if kind != "RandomState" and hasattr(r.bit_generator, "jumped"):
                    r.bit_generator.state = r.bit_generator.jumped(2).state
            else:
                r.random(3) if kind != "RandomState" else r.rand(3)
        return r

    def k_rngseq(self, bitgen, entropy, key, pool, ops):
        ss = np.random.SeedSequence(entropy if len(entropy) > 1 else entropy[0], spawn_key=tuple(key), pool_size=pool)
        r = np.random.Generator(getattr(np.random, bitgen)(ss))
        for op in ops:
            if op == "spawn":
                r.spawn(1)
            else:
                r.standard_normal()
        return r

    def k_coo1d(self, d, n, seed):
        a = fill(mk_dtype(d), (n,), seed)
        return sp.coo_array(a)

    def k_sparse(self, fmt, kind, d, shape, seed, variant):
        dt = mk_dtype(d)
        rs = np.random.RandomState(seed % (2**31))
        m, n = shape
        dense = fill(dt, (m, n), seed) if m and n else np.zeros((m, n), dt)
        mask = rs.randint(0, 3, (m, n)) == 0
        dense = np.where(mask, dense, np.zeros((), dt)).astype(dt)
        rows, cols = np.nonzero(mask)
        data = dense[rows, cols] if len(rows) else np.zeros(0, dt)
        mod = sp
        suf = "array" if kind == "array" else "matrix"
        cls = getattr(mod, f"{fmt}_{suf}")
        if fmt == "dia":
            offs = sorted({int(rs.randint(-m + 1 if m else 0, n if n else 1)) for _ in range(3)}) if m and n else [0]
            dd = fill(dt, (len(offs), max(n, 1)), seed + 5)
            return cls((dd, np.array(offs)), shape=(m, n))
        if variant == "dups" and fmt == "coo" and len(rows):
            rows, cols, data = (np.concatenate([x, x]) for x in (rows, cols, data))
            return cls((data, (rows, cols)), shape=(m, n))
        if variant == "unsorted" and fmt == "coo" and len(rows):
            p = rs.permutation(len(rows))
            return cls((data[p], (rows[p], cols[p])), shape=(m, n))
        base = getattr(sp, f"coo_{suf}")((data, (rows, cols)), shape=(m, n))
        if fmt == "bsr":
            bs = (2 if m and m % 2 == 0 else 1, 3 if n and n % 3 == 0 else 1) if variant == "blocks" else (1, 1)
            return base.tobsr(blocksize=bs) if m and n else cls((m, n), dtype=dt)
        x = base.asformat(fmt)
        if variant == "unsorted" and fmt in ("csr", "csc") and x.nnz:
            ptr = x.indptr
            for i in range(len(ptr) - 1):
                x.indices[ptr[i]:ptr[i + 1]] = x.indices[ptr[i]:ptr[i + 1]][::-1].copy()
                x.data[ptr[i]:ptr[i + 1]] = x.data[ptr[i]:ptr[i + 1]][::-1].copy()
            x.has_sorted_indices = False
        if variant == "zeros" and fmt in ("csr", "csc") and x.nnz:
            x.data[0] = 0
        return x

    # callables and types
    def k_ufunc(self, n):
        return getattr(np, n)

    def k_spufunc(self, n):
        return getattr(scipy.special, n)

    def k_type(self, n):
        return TYPES[n]

    def k_estclass(self, mod, n):
        import importlib

        return getattr(importlib.import_module(mod), n)

    def k_partial(self, f, args, kw, attrs):
        p = functools.partial(self(f), *[self(a) for a in args], **{k: self(v) for k, v in kw})
        for k, v in attrs:
            setattr(p, k, self(v))
        return p

    def k_attrgetter(self, names):
        return operator.attrgetter(*names)

    def k_itemgetter(self, items):
        return operator.itemgetter(*[self(i) for i in items])

    def k_methodcaller(self, name, args, kw):
        return operator.methodcaller(name, *[self(a) for a in args], **{k: self(v) for k, v in kw})

    # containers
    def k_list(self, xs):
        return [self(x) for x in xs]

    def k_tuple(self, xs):
        return tuple([self(x) for x in xs])

    def k_set(self, xs):
        return {self(x) for x in xs}

    def k_dict(self, items):
        return {self(k): self(v) for k, v in items}

    def k_odict(self, items):
        return collections.OrderedDict((self(k), self(v)) for k, v in items)

    def k_ddict(self, factory, items):
        d = collections.defaultdict(self(factory) if factory else None)
        for k, v in items:
            d[self(k)] = self(v)
        return d

    def k_big(self, kind, n):
        return big(kind, n)

    def k_def(self, i, s):
        x = self(s)
        self.defs[i] = x
        return x

    def k_ref(self, i):
        return self.defs.get(i)

    def k_est(self, name, params):
        import sklearn.base  # noqa
        from . import ests

        return ests.make(name, {k: self(v) for k, v in params})


def build(spec):
    return Builder()(spec)


# --------------------------------------------------------------------------
# large values: what is only done beyond some size

BIG_SUPPORTED = [
    [k, n] for k, ns in {
        "ints": [70, 300, 1100], "strs": [70, 1100], "floats": [70, 1100], "mixed": [300, 1100], "tuple": [70, 300, 1100], "set": [70, 1100], "strset": [300], "ragged": [70],
        "intdict": [20, 70, 300, 1100], "negdict": [70, 300], "strdict": [20, 70, 300, 1100], "floatdict": [70, 300], "npdict": [70, 300], "np32dict": [70], "mixdict": [70, 300, 1100],
        "odict": [70, 300], "ddict": [70, 300], "longkey": [300, 70000], "text": [300, 4100, 70000], "unitext": [300, 70000], "manylines": [3000], "bytes": [255, 256, 65535, 65537, 2**20 + 1],
        "bytearray": [257, 65537], "bigint": [30, 300, 4000], "deeplist": [30, 100], "deepdict": [30, 100], "array": [1023, 8193, 131073], "farray": [300], "bigendian": [8193], "boolarray": [65537],
        "uarray": [1025], "sarray": [4097], "structarray": [1025], "wide": [40], "objarr": [70, 300, 1100], "objarr2": [40], "masked": [1025], "csr": [3000], "coo": [3000], "dia": [300], "bsr": [300],
        "scalars": [70, 300], "bytescalar": [5000], "strscalar": [5000], "arrays": [70, 300], "binaries": [300], "rs": [100000], "gen": [100000], "spawn": [40], "dtype": [70, 300], "partialargs": [70, 300],
        "itemget": [70, 300], "attrget": [40], "types": [300], "slices": [300], "shared": [300], "zerod": [300], "empties": [300]}.items() for n in ns]
BIG_OBJECTS = [["untrusted", n] for n in (2, 6, 11, 25, 60)] + [["attrs", 70], ["attrs", 300], ["model", 20]]


def untrusted_types(n):
    """Classes of the standard library that are not trusted by default."""
    import argparse
    import datetime
    import decimal
    import email.message
    import fractions
    import ipaddress
    import json
    import logging.handlers
    import pathlib
    import uuid
    import xml.dom.minidom

    out = []
    for m in (datetime, decimal, fractions, uuid, ipaddress, argparse, json, pathlib, email.message, xml.dom.minidom, logging.handlers):
        for k, v in sorted(vars(m).items()):
            if isinstance(v, type) and v.__module__ == m.__name__ and not k.startswith("_") and not issubclass(v, BaseException) and v not in out:
                out.append(v)
    return out[:: max(1, len(out) // n)][:n]


def big(kind, n):
    perm = [i * 7919 % 10007 for i in range(n)]  # not in order, all different
    if kind == "ints":
        return [i if i % 5 else 2**70 + i for i in perm]
    if kind == "strs":
        return [f"s{i}\u00e9" for i in perm]
    if kind == "floats":
        return [[0.0, -0.0, i / 3, float("inf"), 1e300 * i][i % 5] for i in perm]
    if kind == "mixed":
        return [[i, f"{i}", None, i % 2 == 0, i / 7, 0.0, -0.0, [i], {"k": i}, 1, 1.0, True][j % 12] for j, i in enumerate(perm)]
    if kind == "tuple":
        return tuple(perm)
    if kind == "set":
        return set(perm)
    if kind == "strset":
        return {str(i) for i in perm}
    if kind == "ragged":
        return [list(range(i % 9)) for i in perm]
    if kind in ("intdict", "odict"):
        return (collections.OrderedDict if kind == "odict" else dict)((i, f"v{j}") for j, i in enumerate(perm))
    if kind == "negdict":
        return {i - 5000: j for j, i in enumerate(perm)}
    if kind == "strdict":
        return {f"k{i}": j for j, i in enumerate(perm)}
    if kind == "floatdict":
        return {i / 8: j for j, i in enumerate(perm)}
    if kind == "npdict":
        return {np.int64(i): j for j, i in enumerate(perm)}
    if kind == "np32dict":
        return {np.float32(i / 8): j for j, i in enumerate(perm)}
    if kind == "mixdict":
        return {[i, f"{i}", i + 0.5, np.int16(i), f"{i}.5"][j % 5]: j for j, i in enumerate(perm)}
    if kind == "ddict":
        return collections.defaultdict(list, {i: [j] for j, i in enumerate(perm)})
    if kind == "longkey":
        return {"k" * n: 1, "k" * n + "1": 2, "": 3}
    if kind == "text":
        return "".join(chr(32 + i % 95) for i in range(n))
    if kind == "unitext":
        return "".join("a\u00e9\u65e5\U0001f600\n\t\r\x00\u2028"[i % 9] for i in range(n))
    if kind == "manylines":
        return "\n" * n + " tail "
    if kind in ("bytes", "bytearray"):
        return {"bytes": bytes, "bytearray": bytearray}[kind](np.arange(n, dtype="u4").astype("u1").tobytes())
    if kind == "bigint":
        return [10**n + 7, -(10**n) - 9]
    if kind in ("deeplist", "deepdict"):
        x = [1, "leaf"]
        for i in range(n):
            x = {"k": x, i: i} if kind == "deepdict" else [x, i]
        return x
    if kind == "array":
        return fill(np.dtype("<f8"), [n], 5)
    if kind == "farray":
        return np.asfortranarray(fill(np.dtype("<f4"), [n, 17], 5))
    if kind == "bigendian":
        return fill(np.dtype(">i4"), [n], 5)
    if kind == "boolarray":
        return fill(np.dtype("?"), [n], 5)
    if kind == "uarray":
        return fill(np.dtype("<U9"), [n], 5)
    if kind == "sarray":
        return fill(np.dtype("S7"), [n], 5)
    if kind == "structarray":
        return fill(np.dtype([("a", "<f8"), ("b", "U3"), ("c", "?", (2,))]), [n], 5)
    if kind == "wide":
        return fill(np.dtype("u1"), [1] * 20 + [n], 5)
    if kind in ("objarr", "objarr2"):
        a = np.empty((n,) if kind == "objarr" else (n, 9), dtype=object)
        f = a.reshape(-1)
        for i in range(f.size):
            f[i] = [i, f"s{i}", None, i / 3, -0.0, True][i % 6]
        return a
    if kind == "masked":
        return np.ma.MaskedArray(fill(np.dtype("<f8"), [n], 5), mask=np.arange(n) % 3 == 0, fill_value=-1.5)
    if kind in ("csr", "coo", "dia", "bsr"):
        m = sp.coo_matrix((np.arange(n) + 0.5, (np.arange(n), np.arange(n) * 7 % 11)), shape=(n, 12))
        return m if kind == "coo" else m.asformat(kind) if kind != "csr" else sp.csr_matrix(m)
    if kind == "scalars":
        return [np.dtype(["<f8", "i1", "?", "<U3", "S2", "<c16", "<M8[s]", "<f4"][j % 8]).type(*([str(i % 10)] if j % 8 == 3 else [b"a"] if j % 8 == 4 else [i, "s"] if j % 8 == 6 else [i % 100])) for j, i in enumerate(perm)]
    if kind == "bytescalar":
        return np.bytes_(b"ab" * n)
    if kind == "strscalar":
        return np.str_("a\u00e9" * n)
    if kind == "arrays":
        return [np.full(i % 4, i) for i in perm]
    if kind == "binaries":
        return [b"%d" % i for i in perm]
    if kind == "rs":
        r = np.random.RandomState(3)
        r.standard_normal(n + 1)
        return r
    if kind == "gen":
        g = np.random.Generator(np.random.PCG64(3))
        g.random(n + 1, dtype=np.float32)
        return g
    if kind == "spawn":
        return np.random.default_rng(2**200 + 5).spawn(n)[n - 1].spawn(2)[1]
    if kind == "dtype":
        return np.dtype([(f"f{i}", "<f8" if i % 2 else "U2") for i in perm])
    if kind == "partialargs":
        return functools.partial(np.add, *perm, **{f"k{i}": i for i in perm})
    if kind == "itemget":
        return operator.itemgetter(*perm)
    if kind == "attrget":
        return operator.attrgetter(*[f"a{i}.b" for i in perm])
    if kind == "types":
        return [list(TYPES.values())[:8][i % 8] for i in perm]
    if kind == "slices":
        return [slice(i, None, -i) for i in perm]
    if kind == "shared":
        a, b = [1], np.arange(3)
        return [(a, b)[i % 2] for i in perm]
    if kind == "zerod":
        return [np.array(i) for i in perm]
    if kind == "empties":
        return [[[], {}, (), set(), "", b"", np.zeros(0), np.zeros((0, 3))][j % 8] for j in range(n)]
    if kind == "untrusted":
        return untrusted_types(n)
    if kind == "attrs":
        from sklearn.linear_model import Ridge

        x = Ridge()
        for i in perm:
            setattr(x, f"attr{i}_", [i])
        return x
    if kind == "model":
        from sklearn.ensemble import RandomForestClassifier

        return RandomForestClassifier(n_estimators=n, max_depth=3, random_state=0).fit(np.random.RandomState(0).rand(60, 5), np.arange(60) % 3)
    raise ValueError(kind)


# --------------------------------------------------------------------------
# strategies


def S():
    """Namespace of strategies (built lazily: hypothesis is bootstrapped)."""
    global _S
    if _S is None:
        _S = _Strategies()
    return _S


_S = None


class _Strategies:
    def __init__(self):
        from hypothesis import strategies as st

        self.st = st
        sf = st.sampled_from
        text = st.one_of(
            st.text(max_size=6),
            sf(["", "a", "x/y", "key_types", "content", "__id__", "1", "1.0", "nan", "true", "null", "None", "False",
                "é\u2028", "\ud800", "__class__", "a b", "\n", "0", "-1", "protocol", "schema.json", "__loader__"]),
        )
        self.text = text
        self.seed = st.integers(0, 2**20)
        ints = st.one_of(st.integers(-5, 5), st.integers(-(2**70), 2**70))
        floats = st.floats(allow_nan=True, allow_infinity=True)
        self.int_ = ints.map(lambda i: ["int", str(i)])
        self.float_ = floats.map(lambda f: ["float", f.hex()])
        self.str_ = text.map(lambda s: ["str", s])
        self.json_scalar = st.one_of(
            st.just(["none"]), st.booleans().map(lambda b: ["bool", b]), self.int_, self.float_, self.str_)
        hexs = st.binary(max_size=9).map(lambda b: b.hex())
        self.bytes_ = hexs.map(lambda h: ["bytes", h])
        self.bytearray_ = hexs.map(lambda h: ["bytearray", h])
        self.slice_ = st.tuples(*[st.one_of(st.just(["none"]), self.int_, self.float_, self.str_)] * 3).map(
            lambda t: ["slice", *t])
        num = sf(["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f2", "f4", "f8"])
        bo = sf(["<", ">"])
        simple = st.one_of(
            st.tuples(bo, num).map("".join), st.just("?"), st.tuples(bo, sf(["c8", "c16"])).map("".join),
            st.just("<f8"), st.just("<f8"), st.just("<i8"),
            sf(["g", "G"]),
            st.tuples(bo, sf(["M8[ns]", "M8[D]", "m8[s]", "m8[us]", "M8[Y]", "m8", "M8"])).map("".join),
            st.integers(0, 7).map(lambda n: f"S{n}"),
            st.tuples(bo, st.integers(0, 5)).map(lambda t: f"{t[0]}U{t[1]}"),
            st.integers(1, 5).map(lambda n: f"V{n}"),
        )
        self.num_dtype = st.tuples(bo, num).map("".join)
        self.simple_dtype = simple
        fname = sf(["a", "b", "c d", "é", "x1", "f0", "titles", "_"])

        def structured(sub):
            return st.builds(
                lambda fs, al: {"fields": fs, "align": al},
                st.lists(st.tuples(fname, sub, st.lists(st.integers(1, 3), max_size=2)).map(list),
                         min_size=1, max_size=3, unique_by=lambda f: f[0]),
                st.booleans())

        nz = simple.filter(lambda d: not d.endswith(("S0", "U0")))
        self.struct_dtype = structured(st.one_of(nz, nz, structured(nz)))
        self.dtype = st.one_of(simple, simple, simple, self.struct_dtype)
        self.any_dtype = st.one_of(
            self.dtype, st.just("O"),
            st.builds(lambda d, s: {"sub": d, "shape": s}, nz, st.lists(st.integers(1, 3), min_size=1, max_size=2)))
        self.shape = st.one_of(
            st.lists(st.integers(0, 4), max_size=3), st.lists(st.integers(1, 3), min_size=1, max_size=4))
        self.layout = sf(["C", "C", "F", "F", "T", "strided", "neg", "ro"])
        self.arr = st.builds(lambda d, s, l, k: ["arr", d, s, l, k], self.dtype, self.shape, self.layout, self.seed)
        self.numarr = st.builds(
            lambda d, s, l, k: ["arr", d, s, l, k], sf(["<f8", "<i8", "<f4", "?"]), self.shape, self.layout, self.seed)
        scal = st.one_of(
            st.tuples(bo, num).map("".join), st.just("?"), st.tuples(bo, sf(["c8", "c16"])).map("".join),
            sf(["g", "M8[ns]", "m8[s]", "M8[D]", "U3", "S3", "U1", "V2", "f2", "f8"]))
        self.npscalar = st.builds(lambda d, k: ["npscalar", d, k], st.one_of(scal, scal, self.struct_dtype), self.seed)
        self.npnum = st.one_of(
            st.builds(lambda d, v: ["npnum", d, str(v)], sf(["i1", "i2", "i4", "i8"]), st.integers(-100, 100)),
            st.builds(lambda d, v: ["npnum", d, str(v)], sf(["u1", "u2", "u4", "u8"]), st.integers(0, 200)),
            st.builds(lambda d, v: ["npnum", d, v.hex()], sf(["f2", "f4", "f8"]), st.floats(width=16)),
            st.builds(lambda v: ["npnum", "f8", v.hex()], st.floats()),
            st.builds(lambda v: ["npnum", "f4", v.hex()], st.floats(width=32)),
            st.builds(lambda v: ["npnum", "i8", str(v)], st.integers(-(2**63), 2**63 - 1)),
            st.builds(lambda d, a, b: ["npcplx", d, a.hex(), b.hex()], sf(["c8", "c16"]), st.floats(width=16), st.floats(width=16)),
            st.builds(lambda v: ["npnum", "g", v.hex()], st.floats(width=32)))
        self.dtype_obj = self.any_dtype.map(lambda d: ["dtype", d])
        self.masked = st.builds(
            lambda d, s, k, m, f, h: ["masked", d, s, k, m, f, h],
            st.one_of(self.num_dtype, st.just("?"), sf(["U3", "S2", "M8[s]", "c16", "<f8", "<i8"])), self.shape, self.seed,
            sf(["nomask", "full", "none", "some", "some"]), st.booleans(), st.booleans())
        self.objcell = st.one_of(self.json_scalar, self.npnum, self.str_, st.just(["none"]),
                                 self.npscalar.filter(lambda s: s[1] not in ("V2",)), self.bytes_)
        self.objarr = st.builds(
            lambda s, c, l: ["objarr", s, c, l],
            st.lists(st.integers(1, 4), min_size=1, max_size=3), st.lists(self.objcell, min_size=1, max_size=4),
            sf(["C", "F", "T"]))
        ops = st.lists(sf(["normal", "int32", "rand", "spawn", "jump"]), max_size=4)
        self.rng = st.one_of(
            st.builds(lambda b, k, o: ["rng", "Generator", b, k, o], sf(BITGENS), self.seed, ops),
            st.builds(lambda b, k, o: ["rng", "RandomState", b, k, o], sf(["MT19937"] * 3 + BITGENS), self.seed, ops),
            st.builds(lambda b, e, k, p, o: ["rngseq", b, e, k, p, o], sf(BITGENS),
                      st.lists(st.integers(0, 2**40), min_size=1, max_size=3), st.lists(st.integers(0, 9), max_size=3),
                      sf([4, 4, 8]), ops))
        spd = sf(["<f8", "<f8", "<f4", "<i8", "<i4", "?", "c16", "u1", ">f8", ">i4", "g"])
        self.sparse = st.builds(
            lambda f, k, d, s, sd, v: ["sparse", f, k, d, s, sd, v], sf(SPARSE), sf(["matrix", "array"]), spd, st.tuples(st.integers(0, 6), st.integers(0, 6)).map(list),
            self.seed, sf(["plain", "unsorted", "dups", "blocks", "zeros"]))
        self.sparse = st.one_of(*[self.sparse] * 6, st.builds(
            lambda d, n, k: ["coo1d", d, n, k], sf(["<f8", "<i4", "?"]), st.integers(1, 6), self.seed))
        self.ufunc = st.one_of(sf(UFUNCS).map(lambda n: ["ufunc", n]), sf(SP_UFUNCS).map(lambda n: ["spufunc", n]))
        self.type_ = st.one_of(
            sf(sorted(TYPES)).map(lambda n: ["type", n]),
            st.just(["estclass", "sklearn.linear_model", "LogisticRegression"]))
        self.getter = st.one_of(
            st.lists(sf(["a", "b.c", "real", "__class__", "é"]), min_size=1, max_size=3).map(lambda n: ["attrgetter", n]),
            st.lists(st.one_of(self.int_, self.str_, self.slice_), min_size=1, max_size=3).map(lambda i: ["itemgetter", i]))
        self.leaf = st.one_of(
            self.json_scalar, self.json_scalar, self.bytes_, self.bytearray_, self.slice_, self.arr, self.numarr,
            self.npscalar, self.npnum, self.dtype_obj, self.masked, self.objarr, self.rng, self.sparse, self.ufunc,
            self.type_, self.getter)
        self.key = st.one_of(self.str_, self.str_, self.int_, self.float_, self.npnum)
        self.hashable = st.recursive(
            st.one_of(self.json_scalar, self.bytes_, self.npnum, self.type_, self.ufunc),
            lambda c: st.lists(c, max_size=3).map(lambda xs: ["tuple", xs]), max_leaves=4)
        self.factory = st.one_of(st.none(), sf(["int", "list", "dict", "float", "set", "str"]).map(lambda n: ["type", n]))

        self.kwname = sf(["a", "b", "key", "x_1", "é"])

        def containers(c):
            lst = st.lists(c, max_size=4)
            items = st.lists(st.tuples(self.key, c).map(list), max_size=4)
            return st.one_of(
                lst.map(lambda x: ["list", x]), lst.map(lambda x: ["tuple", x]),
                st.lists(self.hashable, max_size=4).map(lambda x: ["set", x]),
                items.map(lambda x: ["dict", x]), items.map(lambda x: ["dict", x]), items.map(lambda x: ["odict", x]),
                st.builds(lambda f, i: ["ddict", f, i], self.factory, items),
                st.builds(lambda f, a, k, t: ["partial", f, a, k, t], st.one_of(self.ufunc, self.type_),
                          st.lists(c, max_size=2),
                          st.lists(st.tuples(self.kwname, c).map(list), max_size=2, unique_by=lambda x: x[0]),
                          st.one_of(st.just([]), st.just([]),
                                    st.lists(st.tuples(self.kwname, c).map(list), max_size=1))))

        self.containers = containers
        self.value = st.recursive(self.leaf, containers, max_leaves=8)
        self.small_value = st.recursive(
            st.one_of(self.json_scalar, self.bytes_, self.numarr, self.npnum, self.ufunc, self.type_),
            containers, max_leaves=5)


def walk(spec):
    """Yield every sub-spec."""
    if isinstance(spec, list):
        if spec and isinstance(spec[0], str):
            yield spec
        for x in spec:
            yield from walk(x)


def kinds(spec):
    return {s[0] for s in walk(spec) if hasattr(Builder, "k_" + s[0])}
