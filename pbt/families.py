"""The documented default-trusted families, as semantic predicates on objects
(never on skops' own lists)."""
from __future__ import annotations

import collections
import inspect
import sys
import types

import numpy as np
import scipy.sparse as sp
import scipy.special
from sklearn.base import BaseEstimator
from sklearn.tree._tree import Tree

PRIMS = {int, float, str, bool, type(None)}
CONTAINERS = {list, tuple, set, dict, collections.OrderedDict, collections.defaultdict, map, slice, bytes, bytearray}


def _losses():
    out = set()
    from sklearn.linear_model import _sgd_fast

    mods = [_sgd_fast]
    try:
        from sklearn._loss import _loss

        mods.append(_loss)
    except ImportError:
        pass
    bases = tuple(b for m in mods for n in ("LossFunction", "CyLossFunction") if isinstance(b := getattr(m, n, None), type))
    for m in mods:
        for v in vars(m).values():
            if isinstance(v, type) and issubclass(v, bases):
                out.add(v)
    return out


LOSSES = _losses()
SP_UFUNCS = {id(v): v for v in vars(scipy.special).values() if isinstance(v, np.ufunc)}


def is_family_type(t) -> bool:
    if t in PRIMS or t in CONTAINERS:
        return True
    if t in (np.ndarray, np.ma.MaskedArray, np.dtype, np.random.RandomState, np.random.Generator, np.ufunc, Tree):
        return True
    try:
        if issubclass(t, np.generic) and (t.__module__ or "").split(".")[0] == "numpy":
            return True
        if issubclass(t, np.dtype) and (t.__module__ or "").split(".")[0] == "numpy":
            return True
        if issubclass(t, sp.spmatrix) or (sp.issparse(t) if False else issubclass(t, getattr(sp, "sparray", sp.spmatrix))):
            return (t.__module__ or "").startswith("scipy.sparse")
        if issubclass(t, BaseEstimator) and (t.__module__ or "").startswith("sklearn."):
            return True
        if t in LOSSES:
            return True
        if t.__module__ in ("numpy.random.bit_generator",) or (
                (t.__module__ or "").startswith("numpy.random") and issubclass(t, np.random.BitGenerator)):
            return True
    except TypeError:
        return False
    return False


def is_family(obj) -> bool:
    """obj: a type / function / other global an archive may name."""
    if isinstance(obj, type):
        return is_family_type(obj)
    if isinstance(obj, np.ufunc):
        return True
    if isinstance(obj, types.ModuleType):
        return False
    return False


def lookup(fqn):
    """Object of a fully qualified name, without importing anything -> (found, obj)."""
    mod, _, name = fqn.rpartition(".")
    m = sys.modules.get(mod)
    if m is None or mod.startswith("pbtcan"):
        return False, None
    try:
        return True, inspect.getattr_static(m, name)
    except AttributeError:
        try:
            return True, getattr(m, name)
        except Exception:
            return False, None


def fqns(obj):
    """Names under which an object may have been vouched for."""
    out = set()
    mod = getattr(obj, "__module__", None)
    for attr in ("__name__", "__qualname__"):
        n = getattr(obj, attr, None)
        if isinstance(n, str):
            if isinstance(mod, str):
                out.add(f"{mod}.{n}")
            s = getattr(obj, "__self__", None)
            if isinstance(s, types.ModuleType):
                out.add(f"{s.__name__}.{n}")
    return out


class Vouched:
    """Decides whether an object/type found in a result is covered by T."""

    def __init__(self, names):
        self.names = set(names)
        self.objs = []
        for n in self.names:
            ok, o = lookup(n)
            if ok:
                self.objs.append(o)

    def __call__(self, obj) -> bool:
        if is_family(obj):
            return True
        if any(o is obj for o in self.objs):
            return True
        return bool(fqns(obj) & self.names)


def walk_result(root, vouched, limit=20000):
    """Yield (path, description) for every unvouched thing reachable in a loaded value."""
    import functools
    import operator

    seen = set()
    todo = [("", root)]
    n = 0
    while todo:
        path, x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        n += 1
        if n > limit:
            return
        t = type(x)
        if isinstance(x, type):
            if not vouched(x):
                yield path, f"type object {x!r}"
            continue
        if isinstance(x, types.ModuleType):
            yield path, f"module {x!r}"
            continue
        if t in (types.FunctionType, types.BuiltinFunctionType, np.ufunc) or t.__name__ in (
                "_ArrayFunctionDispatcher", "cython_function_or_method", "fused_cython_function", "function"):
            if t is types.BuiltinFunctionType and x.__self__ is not None and not isinstance(x.__self__, types.ModuleType):
                cands = {f"{type(x.__self__).__module__}.{type(x.__self__).__name__}.{x.__name__}"}
                if isinstance(x.__self__, type):
                    cands |= {f"{x.__self__.__module__}.{x.__self__.__name__}.{x.__name__}"}
                if not cands & vouched.names:
                    yield path, f"builtin method {x!r}"
                continue
            if not vouched(x):
                yield path, f"function object {x!r}"
            continue
        if t is types.MethodType:
            f, s = x.__func__, x.__self__
            c = s if isinstance(s, type) else type(s)
            cands = {f"{f.__module__}.{getattr(f, '__qualname__', '?')}", f"{c.__module__}.{c.__name__}.{f.__name__}",
                     f"{c.__module__}.{c.__qualname__}.{f.__name__}"}
            if not cands & vouched.names and not any(
                    n.rpartition(".")[2] == f.__name__ and lookup(n.rpartition(".")[0]) == (True, c) for n in vouched.names):
                yield path, f"bound method {x!r}, vouched names of it would be {sorted(cands)}"
            todo.append((path + ".__self__", s))
            continue
        if not vouched(t):
            yield path, f"instance of {t.__module__}.{t.__qualname__}: {repr(x)[:120]}"
            # keep walking: more context
        if t is functools.partial:
            todo += [(path + ".func", x.func), (path + ".args", x.args), (path + ".keywords", x.keywords),
                     (path + ".__dict__", x.__dict__)]
            continue
        if t in (operator.attrgetter, operator.itemgetter, operator.methodcaller):
            todo.append((path + ".args", x.__reduce__()[1:]))
            continue
        if isinstance(x, dict):
            for i, (k, v) in enumerate(x.items()):
                todo.append((f"{path}.key{i}", k))
                todo.append((f"{path}[{k!r:.20}]", v))
            if isinstance(x, collections.defaultdict):
                todo.append((path + ".default_factory", x.default_factory))
        elif isinstance(x, (list, tuple, set, frozenset)):
            for i, v in enumerate(x):
                todo.append((f"{path}[{i}]", v))
        elif isinstance(x, np.ndarray):
            if x.dtype == object:
                for i, v in enumerate(np.asarray(x).ravel().tolist()):
                    todo.append((f"{path}.cell{i}", v))
        d = getattr(x, "__dict__", None)
        if isinstance(d, dict) and not isinstance(x, (np.ma.MaskedArray,)):
            for k, v in d.items():
                todo.append((f"{path}.{k}", v))
