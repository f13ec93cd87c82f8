"""Shared by the checks that feed forged archives to skops (C01 C02 C03 C11 C13)."""
from __future__ import annotations

import builtins
import importlib
import io
import json
import os
import sys
import warnings

import numpy as np

from . import archives as A
from . import canary, families, scratch
from .core import Violation

HARMLESS = {"operator", "functools", "collections", "decimal", "datetime", "builtins.type", "builtins.object", "numpy.array",
            "sklearn.base", "sklearn.utils._bunch", "sklearn.utils", "pathlib", "scipy.special", "builtins.getattr"}
NEVER = {f"{m}.{c}" for m, c in A.DECOYS if m not in HARMLESS and f"{m}.{c}" not in HARMLESS}

_ready = False
baseline = {}      # id -> callee: calls skops.io makes on legitimate archives
decoys = {}


def setup():
    global _ready
    if _ready:
        return
    _ready = True
    warnings.simplefilter("ignore")
    for m, _ in A.DECOYS + A.NEAR + [n for v in A.OK.values() for n in v]:
        if m and not m.startswith("pbtcan"):
            try:
                importlib.import_module(m)
            except Exception:
                pass
    canary.install()
    import skops.io as sio
    from . import corpus

    objs = corpus.objects()
    with canary.Watch() as calls:
        for name, o in objs.items():
            try:
                d = sio.dumps(o)
                T = sio.get_untrusted_types(data=d)
            except Exception:
                continue
            calls_ = [lambda: sio.loads(d, trusted=T), lambda: sio.loads(d)]
            calls_ += [lambda show=show: quiet_visualize(d, show=show) for show in ("all", "trusted", "untrusted")]
            for f in calls_ * 2:
                try:
                    f()
                except Exception:
                    pass
    for callee, _ in calls:
        if not isinstance(callee, type) or callee.__module__ in ("builtins", "functools", "zipfile", "io", "json", "_io") or (callee.__module__ or "").startswith("skops"):
            baseline[id(callee)] = callee
        elif not families.is_family(callee):
            # a class instantiated because an archive named it is not skops' own business
            mod = callee.__module__ or ""
            if not mod.startswith(("sklearn", "pbt", "numpy", "scipy", "operator", "datetime", "decimal", "collections")):
                baseline[id(callee)] = callee
    plain = sio.dumps({"a": [1, "b"]})
    with canary.Watch() as calls:
        for f in [lambda: sio.get_untrusted_types(data=plain)] + [lambda show=show: quiet_visualize(plain, show=show) for show in ("all", "trusted", "untrusted")]:
            f()
    for callee, arg0 in calls:
        inspect_base[id(callee)] = callee
        if id(callee) in _IMPORTERS and arg0:
            inspect_imports.add(arg0)
    for m, c in A.DECOYS:
        ok, o = families.lookup(f"{m}.{c}")
        if ok:
            decoys[id(o)] = (f"{m}.{c}", o)


def quiet_visualize(data, **kw):
    import skops.io as sio

    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        sio.visualize(data, **kw)
        return sys.stdout.getvalue()
    finally:
        sys.stdout = old


def safe_trusted(T):
    """Never vouch for something that could do harm."""
    if T is None:
        return None
    return type(T)(n for n in T if n not in NEVER)


_resolved = {}


def _resolve(fqn):
    """Callable of that name among the loaded modules; found ones stay as they are."""
    if fqn in _resolved:
        return _resolved[fqn]
    ok, o = families.lookup(fqn)
    if not ok or not callable(o):
        return None
    if len(_resolved) < 20000:
        _resolved[fqn] = o
    return o


def archive_decoys(schema, names=None):
    """Objects the archive's names resolve to (without importing), in every reading of the name."""
    out = dict(decoys)

    def add(fqn):
        o = _resolve(fqn)
        if o is not None:
            out[id(o)] = (fqn, o)

    for n in A.names_of(schema) if names is None else names:
        add(n)
    text = json.dumps(schema)
    for c in {c for _, st in A.nodes(schema) if isinstance(c := st.get("__class__"), str)}:
        for m in ("operator", "numpy.random", "numpy", "scipy.sparse", "builtins"):
            add(f"{m}.{c}")
    for c in ("seed", "rand", "default_rng", "get_state", "random_sample", "bytes", "test"):
        if c in text:
            add(f"numpy.random.{c}")
    return out


_QUIET_BUILTINS = {id(v) for n, v in vars(builtins).items()
                   if n not in ("eval", "exec", "compile", "__import__", "open", "input", "breakpoint")}
inspect_imports = set()
_IMPORTERS = {id(importlib.import_module), id(__import__)}


def judge_inert(schema, ledger, events, calls, new_modules, own_files=(), what="inspection"):
    """Violation if anything the archive names was imported, resolved, instantiated, called or opened."""
    if ledger:
        raise Violation(f"{what}: {ledger[0][0]} of {ledger[0][1]}", ledger=ledger[:10])
    names = A.names_of(schema)
    amods = A.modules_of(schema, names)
    for ev, arg in events:
        if ev == "import":
            if arg in amods and arg not in inspect_imports:
                raise Violation(f"{what} imported module {arg} named by the archive")
        elif ev == "open":
            p = arg.strip("b'\"")
            if p in own_files or p.endswith(_LIB) or p.isdigit():
                continue
            raise Violation(f"{what} opened {arg}")
        else:
            raise Violation(f"{what} triggered {ev} {arg}")
    hit = new_modules & amods
    if hit:
        raise Violation(f"{what} imported {sorted(hit)}")
    ad = archive_decoys(schema, names)
    for callee, arg0 in calls:
        k = id(callee)
        if k in _IMPORTERS and arg0 in amods and arg0 not in inspect_imports:
            raise Violation(f"{what} imports module {arg0} named by the archive")
        h = ad.get(k)
        if h is None or id(callee) in _QUIET_BUILTINS or id(callee) in inspect_base:
            continue
        mod = getattr(callee, "__module__", "") or ""
        if mod.startswith(("skops", "functools", "pathlib", "io", "_io", "json", "zipfile")) and h[1] not in (importlib.import_module,):
            if getattr(callee, "__name__", "") not in ("load", "loads", "dump", "dumps"):
                continue
        raise Violation(f"{what} called {h[0]} ({callee!r}) named by the archive")


inspect_base = {}


def approved_modules(names):
    out = set()
    for n in names:
        parts = n.split(".")[:-1]
        for i in range(1, len(parts) + 1):
            out.add(".".join(parts[:i]))
    return out


_LIB = (".py", ".pyc", ".so")


def judge(schema, names, ledger, events, calls, own_files=(), what="load"):
    """Violation if anything outside `names` and the families was imported, resolved, called or opened."""
    names = set(names)
    mods = approved_modules(names)
    vouched = families.Vouched(names)
    for ev, fqn in ledger:
        if ev == "import":
            if fqn not in mods:
                raise Violation(f"{what} imported module {fqn}, which is not vouched for", ledger=ledger[:10], trusted=sorted(names))
        elif fqn not in names:
            raise Violation(f"{what}: {ev} of {fqn}, which is not vouched for", ledger=ledger[:10], trusted=sorted(names))
    amods = None
    for ev, arg in events:
        if ev == "import":
            if amods is None:
                amods = A.modules_of(schema)
            if arg in amods and arg not in mods and not arg.startswith("pbtcan"):
                raise Violation(f"{what} imported module {arg}, which only the archive names", trusted=sorted(names))
        elif ev == "open":
            p = arg.strip("b'\"")
            if p in own_files or p.endswith(_LIB) or p.isdigit():
                continue
            raise Violation(f"{what} opened {arg}")
        else:
            raise Violation(f"{what} triggered {ev} {arg}")
    if calls:
        ad = archive_decoys(schema)
        for callee, arg0 in calls:
            hit = ad.get(id(callee))
            if hit is not None and id(callee) not in baseline and not families.is_family(callee) and not vouched(callee):
                raise Violation(f"{what} called {hit[0]} ({callee!r}), which is not vouched for", trusted=sorted(names))


def write_archive(data, name="archive.skops"):
    path = os.path.join(os.getcwd(), name)
    with open(path, "wb") as f:
        f.write(data)
    return path


def run_guarded(fn):
    """-> (outcome, value-or-exception, ledger, events, calls)"""
    canary.reset()
    with canary.Guard() as ev, canary.Watch() as calls:
        try:
            r = ("ok", fn())
        except Exception as e:
            r = ("raise", e)
    out = (*r, list(canary.ledger), list(ev), list(calls))
    canary.calls.clear()
    return out


def state_guard():
    return (os.getcwd(), dict(os.environ), list(sys.path), np.random.get_state()[1].tobytes())
