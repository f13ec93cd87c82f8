"""C18 - a failed dump leaves the destination untouched."""
from __future__ import annotations

import io
import os
import pathlib
import threading
import types
import zipfile

import numpy as np
import scipy.sparse as sp

from .. import corpus, objs, scratch, values, zoo
from ..core import Ctx, Skip, Sub, Violation

RULE = (
    "A case is an object (supported families, zoo, corpus estimators) in which the value at one generated position is replaced by something which cannot be persisted "
    "(or the call has an impossible compression setting), dumped to every kind of sink. Non-trivial: dumps raises for it"
)


class Boom(Exception):
    pass


class Raising:
    """Fails the n-th time its state is asked for."""

    def __init__(self, how, exc=Boom, n=1):
        self.how, self.exc, self.n, self.calls = how, exc, n, 0

    def _go(self, how):
        if how == self.how:
            self.calls += 1
            if self.calls >= self.n:
                raise self.exc("boom")

    def __getstate__(self):
        self._go("getstate")
        return {"a": 1}

    def __reduce__(self):
        self._go("reduce")
        return super().__reduce__()

    def __reduce_ex__(self, p):
        self._go("reduce_ex")
        return super().__reduce_ex__(p)


class Late:
    """Its state holds large arrays, and something impossible at the end."""

    def __init__(self, last):
        self.arrays = [np.arange(2000.0) + i for i in range(20)]
        self.blob = os.urandom(100000)
        self.last = last


def cyclic():
    x = [1]
    x.append({"a": x})
    return x


def deep(n=5000):
    x = []
    for _ in range(n):
        x = [x]
    return x


class NT(tuple):
    pass


POISON = {
    "generator": lambda: (i for i in ()), "lock": threading.Lock, "file": lambda: open(os.devnull), "memoryview": lambda: memoryview(b"x"), "module": lambda: os,
    "complex": lambda: 1j, "ellipsis": lambda: Ellipsis, "getstate": lambda: Raising("getstate"), "reduce": lambda: Raising("reduce"), "reduce_ex": lambda: Raising("reduce_ex"),
    "interrupt": lambda: Raising("getstate", KeyboardInterrupt), "exit": lambda: Raising("reduce_ex", SystemExit), "memory": lambda: Raising("getstate", MemoryError),
    "os-error": lambda: Raising("getstate", OSError), "stop": lambda: Raising("getstate", StopIteration),
    "flaky2": lambda: Raising("getstate", Boom, 2), "flaky3": lambda: Raising("reduce_ex", Boom, 2), "lil": lambda: sp.lil_matrix(np.eye(2)), "dok": lambda: sp.dok_matrix(np.eye(2)),
    "huge-slice": lambda: slice(10**5000), "huge-int": lambda: 10**5000, "surrogates": lambda: "\ud83d\ude00",
    "cyclic": cyclic, "deep": deep, "frame": lambda: types.SimpleNamespace(f=(i for i in ())), "proxy": lambda: types.MappingProxyType({}),
    "late": lambda: Late((i for i in ())), "late-slice": lambda: Late(slice(10**5000)), "late-raise": lambda: Late(Raising("getstate")), "dict-keys": lambda: {}.keys(),
    "tuple-sub": lambda: NT([1]), "code": lambda: POISON["code"].__code__,
    "obj-array": lambda: np.array([1, (i for i in ())], dtype=object), "obj-field": lambda: np.zeros(2, dtype=[("a", "O")]), "iter": lambda: iter([1]), "weak": lambda: _weak(),
    "key": lambda: {Hashable(): 1}, "empty-cell": lambda: types.CellType(),
}


class Hashable:
    def __reduce_ex__(self, p):
        raise Boom("key")


def _weak():
    import weakref

    return weakref.ref(Boom)


class B(values.B):
    def k_poison(self, kind):
        return POISON[kind]()


KINDS = {n[2:] for n in dir(B) if n.startswith("k_")}


def spots(spec, path=()):
    """Paths of all value specs inside a spec."""
    out = []
    if isinstance(spec, list):
        if spec and isinstance(spec[0], str) and spec[0] in KINDS:
            out.append(path)
        for i, x in enumerate(spec):
            out += spots(x, path + (i,))
    return out


def put(spec, path, new):
    if not path:
        return new
    return [put(x, path[1:], new) if i == path[0] else x for i, x in enumerate(spec)]


def make(o, pos, kind):
    if o[0] == "corpus":
        x = corpus.objects()[o[1]]
        if kind is None:
            return x
        return inject(x, POISON[kind](), pos)
    if kind is not None:
        sp_ = spots(o)
        o = put(o, sp_[pos % len(sp_)], ["poison", kind])
    return B()(o)


def inject(x, bad, pos):
    """Put `bad` into some container inside x."""
    seen, places = set(), []

    def rec(v, depth):
        if id(v) in seen or depth > 6:
            return
        seen.add(id(v))
        if isinstance(v, list):
            for i in range(len(v)):
                places.append((v.__setitem__, i))
            places.append((lambda _, b, v=v: v.append(b), 0))
            for y in list(v):
                rec(y, depth + 1)
        elif isinstance(v, dict):
            for k in list(v):
                places.append((v.__setitem__, k))
            places.append((v.__setitem__, "zz"))
            for y in list(v.values()):
                rec(y, depth + 1)
        elif isinstance(v, tuple):
            for y in v:
                rec(y, depth + 1)
        elif isinstance(v, np.ndarray) and v.dtype == object:
            for i in range(v.size):
                places.append((lambda i, b, v=v: v.flat.__setitem__(i, b), i))
        elif hasattr(v, "__dict__") and not isinstance(v, (type, types.FunctionType, types.MethodType)):
            for k in list(vars(v)):
                places.append((lambda k, b, v=v: setattr(v, k, b), k))
            places.append((lambda k, b, v=v: setattr(v, "zz_", b), None))
            for y in list(vars(v).values()):
                rec(y, depth + 1)

    rec(x, 0)
    if not places:
        return [x, bad]
    f, k = places[pos % len(places)]
    try:
        f(k, bad)
    except Exception:
        raise Skip()
    return x


class Writer(io.RawIOBase):
    def __init__(self):
        self.got = []

    def writable(self):
        return True

    def write(self, b):
        self.got.append(bytes(b))
        return len(b)


def old_bytes(pre):
    import skops.io as sio

    return {"text": b"precious\n" * 50, "empty": b"", "skops": sio.dumps([1, 2, "x"]), "big": bytes(range(256)) * 5000}[pre]


def evaluate(spec, ctx: Ctx):
    import skops.io as sio

    o, pos, kind, pre, comp = spec
    kw = {} if comp is None else {"compression": comp[0], "compresslevel": comp[1]}

    def fresh():
        try:
            return make(o, pos, kind)
        except Skip:
            raise
        except Exception:
            raise Skip()  # e.g. not hashable

    def fails(fn):
        try:
            return None, fn(fresh())
        except Skip:
            raise
        except Violation:
            raise
        except BaseException as e:
            if type(e).__name__ == "_Stop":
                raise
            return e, None

    e, got = fails(lambda x: sio.dumps(x, **kw))
    ctx.label(kind or str(comp), "raises" if e is not None else "persisted", pre)
    if e is None:
        ctx.trivial()
        return
    ctx.label(type(e).__name__)
    old = old_bytes(pre)
    with scratch.case_dir() as tmp:
        def check(what, fn, want, now):
            e2, _ = fails(fn)
            if e2 is None:
                if kind is None or not kind.startswith("flaky"):
                    raise Violation(f"{what}: dump does not raise; dumps raises {e!r}")
                return
            have = now()
            if have != want:
                raise Violation(f"{what}: the failed dump ({e2!r}) changed the destination from {str(want)[:60]} to {str(have)[:60]} ({None if have is None else len(have)} bytes)")

        def slurp(p):
            if not os.path.lexists(p):
                return None
            with open(p, "rb") as f:
                return f.read()

        def create(name):
            p = os.path.join(tmp, name)
            with open(p, "wb") as f:
                f.write(old)
            return p

        p = create("existing.skops")
        check("existing file, str", lambda x: sio.dump(x, p, **kw), old, lambda: slurp(p))
        check("existing file, Path", lambda x: sio.dump(x, pathlib.Path(p), **kw), old, lambda: slurp(p))
        q = os.path.join(tmp, "link")
        os.symlink(p, q)
        check("symlink to a file", lambda x: sio.dump(x, q, **kw), old, lambda: slurp(p) if os.path.islink(q) else "no symlink any more")
        n = os.path.join(tmp, "new.skops")
        check("new path, str", lambda x: sio.dump(x, n, **kw), None, lambda: slurp(n))
        check("new path, Path", lambda x: sio.dump(x, pathlib.Path(n), **kw), None, lambda: slurp(n))
        cwd = os.getcwd()
        os.chdir(tmp)
        try:
            check("relative path", lambda x: sio.dump(x, "rel.skops", **kw), None, lambda: slurp("rel.skops"))
        finally:
            os.chdir(cwd)
        sub = os.path.join(tmp, "no", "dir.skops")
        check("path in a missing directory", lambda x: sio.dump(x, sub, **kw), None, lambda: slurp(os.path.dirname(sub)) if os.path.lexists(os.path.dirname(sub)) else None)
        with open(p, "r+b") as f:
            f.seek(len(old) // 2)
            check("open file r+b", lambda x: sio.dump(x, f, **kw), (old, len(old) // 2), lambda: (f.flush() or slurp(p), f.tell()))
        with open(p, "r+b", buffering=0) as f:
            check("unbuffered file", lambda x: sio.dump(x, f, **kw), (old, 0), lambda: (slurp(p), f.tell()))
        with open(p, "ab") as f:
            check("open file ab", lambda x: sio.dump(x, f, **kw), (old, len(old)), lambda: (f.flush() or slurp(p), f.tell()))
        w = os.path.join(tmp, "wb")
        with open(w, "wb") as f:
            check("open file wb", lambda x: sio.dump(x, f, **kw), (b"", 0, False), lambda: (f.flush() or slurp(w), f.tell(), f.closed))
        b = io.BytesIO(old)
        b.seek(3)
        check("BytesIO", lambda x: sio.dump(x, b, **kw), (old, 3), lambda: (b.getvalue(), b.tell()))
        r = Writer()
        check("object with write", lambda x: sio.dump(x, r, **kw), b"", lambda: b"".join(r.got))


def strategy():
    from hypothesis import strategies as st

    o = st.one_of(values.anything(), values.supported(), st.sampled_from(corpus.NAMES).map(lambda n: ["corpus", n]))
    return st.tuples(o, st.integers(0, 200), st.sampled_from(sorted(POISON)), st.sampled_from(["text", "empty", "skops", "big"]),
                     st.sampled_from([None, None, None, [zipfile.ZIP_DEFLATED, 6], [zipfile.ZIP_LZMA, None]])).map(list)


def cases(tier):
    out = []
    shapes = [["poison", "lock"], ["list", [["int", "1"], ["arr", "<f8", [3], "C", 1], ["none"]]], ["zoo", "Plain", [["int", "1"], ["list", []], ["none"]]] if "Plain" in zoo.MAKERS else ["none"]]
    for k in sorted(POISON):
        for i, s in enumerate(shapes):
            out.append([s, i + 1 if i else 0, k, "text", None])
        out.append([["corpus", "pipe"], 5, k, "skops", None])
        out.append([["corpus", "objarr"], 3, k, "big", None])
    for i, (k, n) in enumerate(objs.BIG_SUPPORTED + objs.BIG_OBJECTS):
        # the part that is refused comes after much that was written
        out.append([["list", [["big", k, n], ["none"], ["int", "1"]]], 2, ["lock", "generator", "late"][i % 3], ["text", "skops", "big", "empty"][i % 4], None if i % 4 else [8, 6]])
    plain = ["list", [["int", "1"], ["arr", "<f8", [3], "C", 1]]]
    for comp in ([99, None], [8, 100], [12, 50], [8, "x"], ["x", None], [12, 0]):
        out.append([plain, 0, None, "text", comp])
    for n in corpus.NAMES:
        for pos in range(0, 40, 1 if tier != "quick" else 8):
            out.append([["corpus", n], pos, "generator" if pos % 2 else "late", "text", None])
    return out


def subs(tier):
    return [
        Sub("catalogue", evaluate, cases=cases, n=(0, 0)),
        Sub("positions", evaluate, strategy=strategy, n=(3000, 60000)),
    ]
