"""C12 - archives are well-formed and independent of sink and compression."""
from __future__ import annotations

import io
import json
import os
import pathlib
import tempfile
import zipfile

from .. import archives as A
from .. import objs, scratch, values
from ..cmp import diff
from ..core import Ctx, Skip, Sub, Violation

RULE = (
    "A case is an object (supported families, zoo objects, awkward texts, corpus estimators) and a compression method and level; it is dumped to every sink (str, Path, "
    "relative str, existing longer file, symlink, open files of several kinds, BytesIO, dumps), each archive is validated and all are compared with dumps' default archive. "
    "Non-trivial: the object can be dumped and its schema has more than one node"
)
METHODS = {"stored": zipfile.ZIP_STORED, "deflated": zipfile.ZIP_DEFLATED, "bzip2": zipfile.ZIP_BZIP2, "lzma": zipfile.ZIP_LZMA}
PLAIN = {"DefaultDictNode", "MaskedArrayNode", "MethodNode", "PartialNode", "RandomGeneratorNode", "SliceNode"}


def header():
    import skops
    from skops.io._protocol import PROTOCOL

    return PROTOCOL, skops.__version__


def no_const(c):
    raise ValueError(f"{c} is no JSON")


def no_dup(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise ValueError(f"keys {[k for k, _ in pairs]} are not unique")
    return d


def check_node(x, path, files, count):
    if not isinstance(x, dict):
        raise Violation(f"{path}: a node is expected, got {x!r}")
    count[0] += 1
    for k, t in (("__loader__", str), ("__class__", str), ("__module__", str), ("__id__", int)):
        if k not in x:
            raise Violation(f"{path}: node without {k}: {str(x)[:300]}")
        if type(x[k]) is not t:
            raise Violation(f"{path}: {k} is {x[k]!r}")
    for k, v in x.items():
        p = f"{path}.{k}"
        if k in ("file",):
            if not isinstance(v, str):
                raise Violation(f"{p}: {v!r} is no member name")
            files.setdefault(v, set()).add(x["__id__"])
        elif isinstance(v, dict):
            if k == "content" and x["__loader__"] == "DictNode":
                for kk, vv in v.items():
                    check_node(vv, f"{p}[{kk!r}]", files, count)
            elif "__loader__" in v:
                check_node(v, p, files, count)
            elif k == "__reduce__" or (k == "content" and x["__loader__"] in PLAIN):
                for kk, vv in v.items():
                    if isinstance(vv, dict) and (x["__loader__"] != "RandomGeneratorNode" or "__loader__" in vv):
                        check_node(vv, f"{p}.{kk}", files, count)
            else:
                raise Violation(f"{p}: node without __loader__: {str(v)[:300]}")
        elif isinstance(v, list):
            for i, vv in enumerate(v):
                if isinstance(vv, (dict, list)):
                    check_node(vv, f"{p}[{i}]", files, count)


def validate(data, method, what):
    """-> (schema, members); raises unless `data` is a well-formed archive."""
    try:
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            infos = z.infolist()
            bad = z.testzip()
            if bad is not None:
                raise Violation(f"{what}: member {bad} is damaged")
            mem = {i.filename: z.read(i) for i in infos}
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{what}: not a zip file: {e}")
    names = [i.filename for i in infos]
    if len(set(names)) != len(names):
        raise Violation(f"{what}: members are not unique: {names}")
    for i in infos:
        n = i.orig_filename
        if not n or "/" in n or "\\" in n or ":" in n or n in (".", "..") or i.is_dir() or "\x00" in n:
            raise Violation(f"{what}: member name {n!r} is not flat")
        if i.compress_type != method:
            raise Violation(f"{what}: member {n} is compressed with method {i.compress_type}, {method} was requested")
    if "schema.json" not in mem:
        raise Violation(f"{what}: no schema.json in {names}")
    try:
        schema = json.loads(mem.pop("schema.json").decode("utf-8"), parse_constant=no_const, object_pairs_hook=no_dup)
    except ValueError as e:
        raise Violation(f"{what}: schema.json is not valid JSON: {e}")
    proto, version = header()
    if not isinstance(schema, dict) or schema.get("protocol") != proto or type(schema.get("protocol")) is not int:
        raise Violation(f"{what}: protocol is {schema.get('protocol')!r}, not {proto}")
    if schema.get("_skops_version") != version:
        raise Violation(f"{what}: skops version is {schema.get('_skops_version')!r}, not {version!r}")
    files, count = {}, [0]
    check_node({k: v for k, v in schema.items() if k not in ("protocol", "_skops_version")}, "root", files, count)
    for f in files:
        if f not in mem:
            raise Violation(f"{what}: member {f!r} is referred to, members are {sorted(mem)}")
    for f in mem:
        if f not in files:
            raise Violation(f"{what}: no node refers to member {f!r}")
    return schema, mem, count[0]


def sinks(x, tmp, kw):
    """(name, bytes written) for every kind of sink."""
    import skops.io as sio

    def slurp(p):
        with open(p, "rb") as f:
            return f.read()

    yield "dumps", None, sio.dumps(x, **kw)
    p = os.path.join(tmp, "a.skops")
    sio.dump(x, p, **kw)
    yield "str", p, slurp(p)
    p = pathlib.Path(tmp) / "ünï code.zip"
    sio.dump(x, p, **kw)
    yield "Path", p, slurp(p)
    p = os.path.join(tmp, "existing")
    with open(p, "wb") as f:
        f.write(b"PK\x05\x06" * 5000 + os.urandom(2000))
    sio.dump(x, p, **kw)
    yield "existing file", p, slurp(p)
    rel = os.path.relpath(os.path.join(tmp, "rel"))
    sio.dump(x, rel, **kw)
    yield "relative str", rel, slurp(rel)
    sio.dump(x, pathlib.Path(rel), **kw)
    yield "relative Path", pathlib.Path(rel), slurp(rel)
    p = os.path.join(tmp, "link")
    target = os.path.join(tmp, "target")
    with open(target, "wb") as f:
        f.write(b"old")
    os.symlink(target, p)
    sio.dump(x, pathlib.Path(p), **kw)
    yield "symlink", p, slurp(p)
    p = os.path.join(tmp, "o1")
    with open(p, "wb") as f:
        sio.dump(x, f, **kw)
        if f.closed:
            raise Violation("dump closed the file it was given")
    yield "open file", p, slurp(p)
    with open(p, "wb", buffering=0) as f:
        sio.dump(x, f, **kw)
    yield "unbuffered file", p, slurp(p)
    with open(p, "w+b") as f:
        f.write(b"before")
        sio.dump(x, f, **kw)
        end = f.tell()
        f.seek(0)
        head, data = f.read(6), f.read()
        if head != b"before":
            raise Violation(f"dump wrote at the start of a file opened by the caller, not at its position: {head!r}")
        if end != 6 + len(data):
            raise Violation(f"the file position is {end} after writing {len(data)} bytes at 6")
    yield "file at offset 6", None, data
    b = io.BytesIO()
    sio.dump(x, b, **kw)
    yield "BytesIO", None, b.getvalue()
    with tempfile.SpooledTemporaryFile(max_size=100, dir=tmp) as f:
        sio.dump(x, f, **kw)
        f.seek(0)
        yield "SpooledTemporaryFile", None, f.read()
    w = Writer()
    sio.dump(x, w, **kw)
    yield "object with write", None, b"".join(w.got)


class Writer:
    def __init__(self):
        self.got = []

    def write(self, b):
        self.got.append(bytes(b))
        return len(b)


def same_member(name, a, b):
    """Identical, except for the padding of extended floats and structured dtypes, which is uninitialised memory."""
    import numpy as np

    if a == b:
        return True
    if len(a) != len(b) or not name.endswith(".npy"):
        return False
    n = 10 + int.from_bytes(a[8:10], "little")
    return a[:n] == b[:n] and diff(np.load(io.BytesIO(a)), np.load(io.BytesIO(b))) is None


def make(spec):
    from .. import corpus

    if spec[0] == "corpus":
        return corpus.objects()[spec[1]]
    return values.build(spec)


def evaluate(spec, ctx: Ctx):
    with scratch.case_dir() as tmp:
        evaluate_in(spec, ctx, tmp)


def evaluate_in(spec, ctx, tmp):
    import skops.io as sio

    o, method, level = spec
    try:
        x = make(o)
        base = sio.dumps(x)
    except Exception:
        raise Skip()
    try:
        import numpy as np

        state = np.random.get_state()[1].tobytes()
    except Exception:
        state = None
    schema, mem, count = validate(base, zipfile.ZIP_STORED, "dumps")
    ctx.label(method, *{nd["__loader__"] for _, nd in A.nodes(schema)})
    ctx.trivial(count < 2)
    want = A.normalise(schema, mem)
    T = sio.get_untrusted_types(data=base)
    try:
        ref = sio.loads(base, trusted=T)
        loadable = True
    except Exception:
        loadable = False
        ctx.label("load-refused")
    if loadable and diff(ref, sio.loads(base, trusted=T)):
        loadable = False  # values which are never equal
    kw = {"compression": METHODS[method], "compresslevel": level}
    n = 0
    for name, path, data in sinks(x, tmp, kw):
        what = f"{name} ({method}, level {level})"
        if type(data) is not bytes:
            raise Violation(f"{what}: {type(data)} returned")
        s, m, _ = validate(data, METHODS[method], what)
        got = A.normalise(s, m)
        if got[0] != want[0]:
            raise Violation(f"{what}: schema differs from the one dumps writes by default", a=want[0], b=got[0])
        if set(got[1]) != set(want[1]) or any(not same_member(k, got[1][k], want[1][k]) for k in want[1]):
            raise Violation(f"{what}: members differ from those dumps writes by default: {sorted(k for k in {*got[1], *want[1]} if got[1].get(k) != want[1].get(k))}")
        if list(got[1]) != list(want[1]):
            raise Violation(f"{what}: order of the members differs: {list(got[1])} and {list(want[1])}")
        n += 1
        if loadable:
            for how, fn in ([("loads", lambda: sio.loads(data, trusted=T))] if n % 3 == 1 or path is None else []) + (
                    [("load", lambda: sio.load(path, trusted=T)), ] if path else []):
                try:
                    y = fn()
                except Exception as e:
                    raise Violation(f"{how} of {what} raises {e!r}; dumps' archive loads")
                d = diff(ref, y)
                if d:
                    raise Violation(f"{how} of {what} gives another object: {d}")
    if state is not None and np.random.get_state()[1].tobytes() != state:
        raise Violation("dumping changed numpy's random state")


def compressions(st):
    return st.one_of(st.tuples(st.just("stored"), st.sampled_from([None, 0, 9])), st.tuples(st.just("deflated"), st.sampled_from([None, -1] + list(range(10)))),
                     st.tuples(st.just("bzip2"), st.sampled_from([None] + list(range(1, 10)))), st.tuples(st.just("lzma"), st.sampled_from([None, 1, 9])))


def strategy():
    from hypothesis import strategies as st

    return st.builds(lambda o, c: [o, c[0], c[1]], values.anything(), compressions(st))


def sup_strategy():
    from hypothesis import strategies as st

    return st.builds(lambda o, c: [o, c[0], c[1]], values.supported(), compressions(st))


def cases(tier):
    from .. import corpus

    ms = [(m, lv) for m, lvs in (("stored", [None]), ("deflated", [None, 0, 1, 9]), ("bzip2", [None, 1]), ("lzma", [None])) for lv in lvs]
    out = [[["corpus", n], *m] for n in corpus.NAMES for m in (ms if tier != "quick" else ms[:1] + ms[2:3] + ms[5:6] + ms[7:])]
    from .. import zoo

    out += [[["big", k, n], *ms[i % len(ms)]] for i, (k, n) in enumerate(objs.BIG_SUPPORTED + objs.BIG_OBJECTS) if tier != "quick" or n < 2000 and (i % 2 or k == "untrusted")]
    out += [[["zoo", n, [["list", [["int", "1"]]], ["str", "2"], ["dict", [[["str", "k"], ["int", "3"]]]]]], *ms[i % len(ms)]] for i, n in enumerate(sorted(zoo.MAKERS))]
    return out


def subs(tier):
    return [
        Sub("catalogue", evaluate, cases=cases, n=(0, 0)),
        Sub("supported", evaluate, strategy=sup_strategy, n=(1500, 40000)),
        Sub("anything", evaluate, strategy=strategy, n=(1500, 40000)),
    ]
