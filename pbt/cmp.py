"""Strict structural comparison of two Python object graphs.

`diff(a, b)` returns None when both graphs have the same types, structure and
values, else a short path description of the first difference.  With
`ident=True` it also requires the sharing structure of mutable objects to be
in bijection.
"""
from __future__ import annotations

import collections
import functools
import operator
import struct
import types

import numpy as np
import scipy.sparse as sp

ATOMS = (type(None), type(Ellipsis), type(NotImplemented))
NAMED = (
    type, types.FunctionType, types.BuiltinFunctionType, np.ufunc, types.ModuleType,
    type(np.sum), types.MethodDescriptorType, types.WrapperDescriptorType,
    types.GetSetDescriptorType, types.MemberDescriptorType, types.ClassMethodDescriptorType,
)


class _Differ:
    def __init__(self, ident, layout, strict_fill=True, seedseq=True):
        self.with_seedseq = seedseq
        self.ident = ident
        self.layout = layout
        self.inprog = set()
        self.done = set()
        self.a2b, self.b2a = {}, {}
        self.keep = []
        self.strict_fill = strict_fill

    def go(self, a, b, p="root", depth=0):
        if depth > 700:
            return None
        ta, tb = type(a), type(b)
        if ta is not tb:
            return f"{p}: type {ta.__module__}.{ta.__qualname__} became {tb.__module__}.{tb.__qualname__} ({a!r:.80} -> {b!r:.80})"
        if ta in (int, str, bool, bytes) or ta in ATOMS:
            return None if a == b else f"{p}: {a!r:.80} became {b!r:.80}"
        if ta is float:
            return None if feq(a, b) else f"{p}: {a!r} became {b!r}"
        if ta is complex:
            return None if feq(a.real, b.real) and feq(a.imag, b.imag) else f"{p}: {a!r} became {b!r}"
        if isinstance(a, NAMED):
            return None if a is b else f"{p}: {a!r:.80} is not {b!r:.80}"
        key = (id(a), id(b))
        if key in self.done or key in self.inprog:
            return None
        self.keep.append((a, b))
        r = self.identity(a, b, p) if is_mutable(a) else None
        if r:
            return r
        self.inprog.add(key)
        try:
            r = self.compound(a, b, ta, p, depth + 1)
        finally:
            self.inprog.discard(key)
        if r is None:
            self.done.add(key)
        return r

    def identity(self, a, b, p):
        if self.ident:
            self.keep.append((a, b))
            x = self.a2b.setdefault(id(a), id(b))
            y = self.b2a.setdefault(id(b), id(a))
            if x != id(b):
                return f"{p}: one shared object became two ({a!r:.80})"
            if y != id(a):
                return f"{p}: two distinct objects became one ({a!r:.80})"

    def seq(self, a, b, p, depth):
        if len(a) != len(b):
            return f"{p}: length {len(a)} became {len(b)} ({a!r:.80} -> {b!r:.80})"
        for i, (x, y) in enumerate(zip(a, b)):
            r = self.go(x, y, f"{p}[{i}]", depth)
            if r:
                return r

    def mapping(self, a, b, p, depth):
        if len(a) != len(b):
            return f"{p}: {len(a)} entries became {len(b)} ({a!r:.80} -> {b!r:.80})"
        for i, ((k1, v1), (k2, v2)) in enumerate(zip(list(a.items()), list(b.items()))):
            r = self.go(k1, k2, f"{p}.key{i}", depth)
            if r:
                return r
            r = self.go(v1, v2, f"{p}[{k1!r:.30}]", depth)
            if r:
                return r

    def set(self, a, b, p, depth):
        if len(a) != len(b):
            return f"{p}: set of {len(a)} became {len(b)}"
        rest = list(b)
        for x in a:
            for i, y in enumerate(rest):
                if type(x) is type(y) and _Differ(False, self.layout).go(x, y, p, depth) is None:
                    if not is_mutable(x):
                        del rest[i]
                        break
                    if self.go(x, y, p, depth) is None:
                        del rest[i]
                        break
            else:
                return f"{p}: set element {x!r:.80} missing after load"

    def compound(self, a, b, ta, p, depth):
        if a is np.ma.masked or b is np.ma.masked:
            return None if a is b else f"{p}: np.ma.masked became another object ({a!r:.80} -> {b!r:.80})"
        if isinstance(a, np.ma.MaskedArray):
            return (self.go(np.asarray(a.data), np.asarray(b.data), p + ".data", depth)
                    or self.go(np.asarray(a.mask), np.asarray(b.mask), p + ".mask", depth)
                    or (self.nomask(a, b, p))
                    or (None if not self.strict_fill else self.fillv(a, b, p, depth))
                    or (None if bool(a.hardmask) == bool(b.hardmask) else f"{p}: hardmask changed")
                    or self.attrs_if_subclass(a, b, p, depth, np.ma.MaskedArray))
        if isinstance(a, np.ndarray):
            return self.array(a, b, p, depth) or self.attrs_if_subclass(a, b, p, depth, np.ndarray)
        if isinstance(a, np.generic):
            d = dtype_diff(a.dtype, b.dtype)
            if d:
                return f"{p}: scalar dtype {d}"
            return array_bits(np.asarray(a), np.asarray(b), p)
        if isinstance(a, np.dtype):
            d = dtype_diff(a, b)
            return f"{p}: {d}" if d else None
        if sp.issparse(a):
            return self.sparse(a, b, p, depth)
        if isinstance(a, np.random.RandomState):
            return (self.go(a.get_state(legacy=False), b.get_state(legacy=False), p + ".state", depth)
                    or self.identity(a._bit_generator, b._bit_generator, p + "._bit_generator"))
        if isinstance(a, np.random.Generator):
            if self.ident:
                return self.go(a.bit_generator, b.bit_generator, p + ".bit_generator", depth)
            return (self.go(type(a.bit_generator), type(b.bit_generator), p, depth)
                    or self.go(a.bit_generator.state, b.bit_generator.state, p + ".state", depth)
                    or self.seedseq(a.bit_generator, b.bit_generator, p, depth))
        if isinstance(a, np.random.BitGenerator):
            return (self.go(a.state, b.state, p + ".state", depth) or self.seedseq(a, b, p, depth))
        if isinstance(a, np.random.SeedSequence):
            return self.go(a.state, b.state, p + ".state", depth)
        if isinstance(a, (float, int, str, bytes, complex)) and ta not in (float, int, str, bytes, complex):
            base = next(t for t in (int, str, bytes, float, complex) if isinstance(a, t))
            return (self.go(base_value(base, a), base_value(base, b), p, depth) or self.attrs(a, b, p, depth))
        if isinstance(a, bytearray):
            return None if bytes(a) == bytes(b) and True else f"{p}: bytearray changed"
        if isinstance(a, slice):
            return (self.go(a.start, b.start, p + ".start", depth) or self.go(a.stop, b.stop, p + ".stop", depth)
                    or self.go(a.step, b.step, p + ".step", depth))
        if isinstance(a, range):
            return None if (a.start, a.stop, a.step) == (b.start, b.stop, b.step) else f"{p}: range changed"
        if isinstance(a, (list, tuple)):
            L = list if isinstance(a, list) else tuple
            return (self.seq(list(L.__iter__(a)), list(L.__iter__(b)), p, depth)
                    or self.attrs_if_subclass(a, b, p, depth, list, tuple))
        if isinstance(a, dict):
            return (self.mapping(a, b, p, depth)
                    or (self.go(a.default_factory, b.default_factory, p + ".default_factory", depth)
                        if isinstance(a, collections.defaultdict) else None)
                    or self.attrs_if_subclass(a, b, p, depth, dict, collections.OrderedDict, collections.defaultdict))
        if isinstance(a, (set, frozenset)):
            return self.set(a, b, p, depth) or self.attrs_if_subclass(a, b, p, depth, set, frozenset)
        if isinstance(a, collections.deque):
            if a.maxlen != b.maxlen:
                return f"{p}: deque maxlen changed"
            return self.seq(list(a), list(b), p, depth) or self.attrs_if_subclass(a, b, p, depth, collections.deque)
        if isinstance(a, types.MethodType):
            if a.__func__ is not b.__func__:
                return f"{p}: bound method {a.__func__!r:.80} became {b.__func__!r:.80}"
            return self.go(a.__self__, b.__self__, p + ".__self__", depth)
        if isinstance(a, functools.partial):
            return (self.go(a.func, b.func, p + ".func", depth) or self.go(a.args, b.args, p + ".args", depth)
                    or self.go(a.keywords, b.keywords, p + ".keywords", depth)
                    or self.go(a.__dict__, b.__dict__, p + ".__dict__", depth))
        if isinstance(a, (operator.attrgetter, operator.itemgetter, operator.methodcaller)):
            return self.reduce(a, b, p, depth)
        if isinstance(a, types.MappingProxyType):
            return self.mapping(dict(a), dict(b), p, depth)
        return self.obj(a, b, ta, p, depth)

    def fillv(self, a, b, p, depth):
        # numpy keeps default fill values in a wider type than the array's;
        # what `filled()` writes is the value cast to the array's dtype
        if a.dtype.hasobject:
            if isinstance(a.fill_value, str) and isinstance(b.fill_value, str) and a.fill_value == b.fill_value:
                return None  # the default '?' is a np.str_ or a str, depending on who asked first
            return self.go(a.fill_value, b.fill_value, p + ".fill_value", depth)
        with np.errstate(all="ignore"):
            return array_bits(np.asarray(a.fill_value).astype(a.dtype), np.asarray(b.fill_value).astype(b.dtype),
                              p + ".fill_value")

    def nomask(self, a, b, p):
        if (a._mask is np.ma.nomask) != (b._mask is np.ma.nomask):
            # a full-False mask and nomask are observably the same values
            return None
        return None

    def seedseq(self, a, b, p, depth):
        if not self.with_seedseq:
            return None
        x, y = getattr(a, "seed_seq", None), getattr(b, "seed_seq", None)
        if x is None or y is None:
            return None if x is y else f"{p}: seed_seq presence changed"
        sx, sy = getattr(x, "state", None), getattr(y, "state", None)
        return self.go(sx, sy, p + ".seed_seq", depth)

    def array(self, a, b, p, depth):
        d = dtype_diff(a.dtype, b.dtype)
        if d:
            return f"{p}: array dtype {d}"
        if a.shape != b.shape:
            return f"{p}: shape {a.shape} became {b.shape}"
        if a.dtype.hasobject:
            if a.dtype != object:
                return self.go(a.tolist(), b.tolist(), p, depth)
            for i, (x, y) in enumerate(zip(a.ravel("C").tolist() if a.ndim else [a.item()],
                                            b.ravel("C").tolist() if b.ndim else [b.item()])):
                r = self.go(x, y, f"{p}.flat[{i}]", depth)
                if r:
                    return r
            return None
        if self.layout:
            # C/F layout is only defined for contiguous arrays
            if a.flags.c_contiguous and not b.flags.c_contiguous:
                return f"{p}: C layout lost"
            if a.flags.f_contiguous and not b.flags.f_contiguous:
                return f"{p}: Fortran layout lost"
        return array_bits(a, b, p)

    def sparse(self, a, b, p, depth):
        if a.format != b.format or a.shape != b.shape:
            return f"{p}: sparse {a.format}{a.shape} became {b.format}{b.shape}"
        d = dtype_diff(a.dtype, b.dtype)
        if d:
            return f"{p}: sparse dtype {d}"
        fields = {"csr": "data indices indptr", "csc": "data indices indptr", "bsr": "data indices indptr",
                  "coo": "data row col", "dia": "data offsets"}.get(a.format)
        if fields and not (a.format == "coo" and a.ndim != 2):
            for f in fields.split():
                r = array_bits(np.asarray(getattr(a, f)), np.asarray(getattr(b, f)), f"{p}.{f}", loose_dtype=(f != "data"))
                if r:
                    return r
            return None
        return array_bits(a.toarray(), b.toarray(), p)

    def attrs(self, a, b, p, depth):
        da, db = getattr(a, "__dict__", None), getattr(b, "__dict__", None)
        if da is not None or db is not None:
            da, db = dict(da or {}), dict(db or {})
            if list(da) != list(db):
                if set(da) != set(db):
                    return f"{p}: attributes {sorted(map(str, da))} became {sorted(map(str, db))}"
            for k in da:
                r = self.go(da[k], db[k], f"{p}.{k}", depth)
                if r:
                    return r
        missing = object()
        for cls in type(a).__mro__:
            slots = cls.__dict__.get("__slots__", ())
            if isinstance(slots, str):
                slots = (slots,)
            for s in slots:
                if s in ("__dict__", "__weakref__"):
                    continue
                if s.startswith("__") and not s.endswith("__"):
                    s = f"_{cls.__name__.lstrip('_')}{s}"
                x, y = getattr(a, s, missing), getattr(b, s, missing)
                if (x is missing) != (y is missing):
                    return f"{p}: slot {s} presence changed"
                if x is not missing:
                    r = self.go(x, y, f"{p}.{s}", depth)
                    if r:
                        return r

    def attrs_if_subclass(self, a, b, p, depth, *bases):
        if type(a) in bases:
            return None
        return self.attrs(a, b, p, depth)

    def reduce(self, a, b, p, depth):
        try:
            ra = a.__reduce_ex__(4)
        except Exception:
            return None
        try:
            rb = b.__reduce_ex__(4)
        except Exception as e:
            return f"{p}: the state of the copy can't be told: {e!r}"
        if isinstance(ra, str) or isinstance(rb, str):
            return self.go(ra, rb, p + ".__reduce__", depth)
        ra = [list(x) if i in (3, 4) and x is not None else x for i, x in enumerate(ra)]
        rb = [list(x) if i in (3, 4) and x is not None else x for i, x in enumerate(rb)]
        while ra and ra[-1] is None:
            ra.pop()
        while rb and rb[-1] is None:
            rb.pop()
        self.keep.append((ra, rb))
        return self.seq(ra, rb, p + ".__reduce__", depth)

    def obj(self, a, b, ta, p, depth):
        r = None
        if not has_custom_state(ta):
            r = self.attrs(a, b, p, depth)
        return r or self.reduce(a, b, p, depth) or exc_diff(self, a, b, p, depth)


def exc_diff(d, a, b, p, depth):
    if isinstance(a, BaseException):
        return d.go(a.args, b.args, p + ".args", depth)


def base_value(base, x):
    if base is str:
        return str.__str__(x) if type(x) is str else "".join(str.__iter__(x))
    if base is int:
        return int.__index__(x)
    if base is float:
        return float.__add__(x, -0.0)
    if base is bytes:
        return bytes(bytes.__iter__(x))
    return complex(complex.__pos__(x))


def has_custom_state(t):
    """The class itself says what its state is (as pickle would use it)."""
    for cls in t.__mro__:
        if cls is object:
            break
        d = cls.__dict__
        if any(n in d for n in ("__getstate__", "__reduce__", "__reduce_ex__")):
            return True
    return False


def is_mutable(x):
    if isinstance(x, (str, bytes, int, float, complex, tuple, frozenset, np.generic, np.dtype, slice, range,
                      types.MethodType, type(None)) + NAMED):
        return isinstance(x, tuple) and False
    return True


def feq(a, b):
    return struct.pack("<d", a) == struct.pack("<d", b) or (a != a and b != b)


def dtype_diff(a, b):
    if a is b:
        return None
    if a.kind != b.kind or (type(a) is not type(b) and a.kind not in "iu"):
        # C's long and long long are one dtype for numpy (`==`), under two classes
        return f"{a!r} became {b!r}"
    if a != b or a.str != b.str or a.itemsize != b.itemsize:
        return f"{a!r} became {b!r}"
    if (a.subdtype is None) != (b.subdtype is None):
        return f"{a!r} became {b!r}"
    if a.names != b.names:
        return f"{a!r} became {b!r}"
    if a.fields:
        for n in a.names:
            if a.fields[n][1:] != b.fields[n][1:]:
                return f"{a!r} became {b!r} (field {n})"
            d = dtype_diff(a.fields[n][0], b.fields[n][0])
            if d:
                return d
    return None


def array_bits(a, b, p, loose_dtype=False):
    if a.shape != b.shape:
        return f"{p}: shape {a.shape} became {b.shape}"
    if loose_dtype:
        return None if a.tolist() == b.tolist() else f"{p}: values changed"
    if a.dtype.names:
        for n in a.dtype.names:
            r = array_bits(np.asarray(a[n]), np.asarray(b[n]), f"{p}.{n}")
            if r:
                return r
        return None
    if a.dtype.hasobject:
        return None if repr(a.tolist()) == repr(b.tolist()) else f"{p}: object cells changed"
    if a.tobytes() != b.tobytes():
        if a.dtype.kind in "fcg":
            try:
                eq = (a == b) | ((a != a) & (b != b))
                if a.dtype.itemsize >= 10 and np.all(eq):  # longdouble padding
                    return None
            except TypeError:
                pass
        return f"{p}: values changed: {a!r:.100} -> {b!r:.100}"
    return None


def diff(a, b, ident=False, layout=True, **kw):
    return _Differ(ident, layout, **kw).go(a, b)
