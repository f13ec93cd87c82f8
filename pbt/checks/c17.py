"""C17 - `skops convert` produces an equivalent, auditable archive."""
from __future__ import annotations

import io
import os
import pathlib
import pickle
import sys
import zipfile

from .. import cli, corpus, objs, values, zoo
from ..cmp import diff
from ..core import Ctx, Skip, Sub, Violation
from . import c18

RULE = (
    "A case is a pickle file (supported objects, zoo classes, estimators; also objects with a part that cannot be persisted at a generated position, and damaged pickles), its name, an output option, previous content of "
    "the destination and a verbosity. The converter runs in a child process. Non-trivial: a nested object was converted, or the conversion failed with an existing destination"
)


class Ref:
    """Unpickles to something which cannot be persisted."""

    def __init__(self, kind):
        self.kind = kind

    def __reduce__(self):
        return poison, (self.kind,)


def poison(kind):
    return c18.POISON[kind]()


class B(values.B):
    def k_poison(self, kind):
        return Ref(kind)


# pickles as other versions of Python and other pickles write them
RAW = {
    "py2 str": b"S'alpha'\np0\n.", "py2 dict": b"(dp0\nS'alpha'\np1\nF1.5\nsS'b c'\n(lp2\nI1\naI01\naNas.", "py2 binstring": b"\x80\x02]q\x00(U\x03abcq\x01h\x01U\x00e.", "py2 unicode": b"(lp0\nVa\\u00e9\nah0\n0Vx\n0.".replace(b"ah0\n0Vx\n0", b"a"),
    "py2 long": b"(L123456789012345678901234567890L\nI00\nt.", "py2 complex": b"c__builtin__\ncomplex\n(F1.0\nF-2.0\ntR.", "py2 set": b"c__builtin__\nset\n((lI1\naI2\natR.", "py2 range": b"c__builtin__\nxrange\n(I0\nI5\nI2\ntR.",
    "py2 od": b"ccollections\nOrderedDict\n((lp0\n(lp1\nS'z'\naI1\naa(lp2\nS'a'\naI2\naatR.", "py2 bytes": b"c_codecs\nencode\n(V\\u00ff\x00a\nS'latin1'\ntR.".replace(b"\x00", b"b"), "empty": b"", "not a pickle": b"PK\x03\x04 text",
    "numpy core": b"cnumpy.core.multiarray\nscalar\n(cnumpy\ndtype\n(S'f8'\nI00\nI01\ntR(I3\nS'<'\nNNNI-1\nI-1\nI0\ntbc_codecs\nencode\n(V\\u0000\\u0000\\u0000\\u0000\\u0000\\u0000\\u00f8?\nS'latin1'\ntRtR.",
}


def make(o, pos, kind):
    if o[0] == "corpus":
        x = corpus.objects()[o[1]]
        return x if kind is None else c18.inject(x, Ref(kind), pos)
    if kind is not None:
        spots = c18.spots(o)
        o = c18.put(o, spots[pos % len(spots)], ["poison", kind])
    return B()(o)


def expected(data):
    """(object, untrusted types) or None if it can't be persisted; Skip if it does not round-trip by itself."""
    import skops.io as sio

    try:
        obj = pickle.loads(data)
    except BaseException as e:
        if type(e).__name__ == "_Stop":
            raise
        return None
    try:
        out = sio.dumps(obj)
    except BaseException as e:
        if type(e).__name__ == "_Stop":
            raise
        return None
    try:
        T = sio.get_untrusted_types(data=out)
        y = sio.loads(out, trusted=T)
    except Exception:
        raise Skip()
    obj = pickle.loads(data)
    if diff(obj, pickle.loads(data)) or diff(obj, y):
        raise Skip()  # decided by other checks
    return obj, T


NAMES = ["model.pkl", "model.pkl", "a.b.pkl", "model", ".hidden", "m é.pickle", "model.skops", "x y.tar.gz", "model.skops.pkl", "-m.pkl", "m.", "日本.pkl"]
OUTS = ["default"] * 4 + ["bare", "rel", "abs", "abs", "up", "noext", "symlink", "missing", "dir", "same", "same2", "link", "hardlink"]


def evaluate(spec, ctx: Ctx):
    import skops.io as sio

    o, pos, kind, proto, damage, name, where, out, prev, verb, via = spec
    if o[0] == "raw":
        data = RAW[o[1]]
    else:
        try:
            data = pickle.dumps(make(o, pos, kind), protocol=proto)
        except Exception:
            raise Skip()
    if damage > 0:
        data = data[:max(0, len(data) - damage)]
    elif damage:  # only the first pickle of a file counts
        data += [b"\n", b"\x80\x05N.", b"trailing"][-damage - 1]
    want = expected(data)
    with cli.roots() as (root, other, _):
        cwd, tmp, ind = (os.path.join(root, n) for n in ("cwd", "tmp", "in dir"))
        for d in (cwd, tmp, ind, os.path.join(cwd, "sub dir", "deep"), os.path.join(cwd, "outdir"), os.path.join(root, "dst")):
            os.makedirs(d)
        src = os.path.join(cwd if where == "cwd" else ind, name)
        with open(src, "wb") as f:
            f.write(data)
        inarg = name if where == "cwd" else os.path.join("..", "in dir", name) if where == "rel" else src
        arg = {"default": None, "bare": "out.skops", "rel": "sub dir/deep/é out.skops", "abs": os.path.join(root, "dst", "new.skops"), "up": "../up.skops", "noext": "out", "missing": "no/such/dir.skops", "dir": "outdir",
               "same": inarg, "same2": os.path.join(os.path.dirname(src), "..", os.path.basename(os.path.dirname(src)), name), "link": "link.skops", "hardlink": "hard.skops", "symlink": "s.skops"}[out]
        dest = os.path.join(cwd, pathlib.PurePath(name).stem + ".skops") if arg is None else os.path.normpath(os.path.join(cwd, arg))
        if out == "link":
            os.symlink(src, dest)
        elif out == "hardlink":
            os.link(src, dest)
        elif out == "symlink":  # to some other file
            with open(os.path.join(root, "dst", "target"), "wb") as f:
                f.write(b"old")
            os.symlink(os.path.join(root, "dst", "target"), dest)
        alias = os.path.exists(dest) and os.path.samefile(dest, src)
        if prev and not alias and out not in ("missing", "dir", "symlink"):
            with open(dest, "wb") as f:
                f.write({"garbage": b"previous content" * 20000, "empty": b"", "short": b"x"}[prev])
        with open(os.path.join(cwd, "neighbour.skops"), "wb") as f:
            f.write(b"n")
        st = os.stat(src)
        before = cli.snapshot(root, other)

        def run():
            import logging

            sys.stderr = err = io.StringIO()
            logging.getLogger().handlers.clear()
            if via == "main":
                from skops.cli.entrypoint import main_cli

                args = ["convert"] + ["-v"] * verb + ([] if arg is None else ["-o", arg]) + (["--", inarg] if inarg.startswith("-") else [inarg])
                run.error = main_cli(args)
            else:
                from skops.cli._convert import _convert_file

                logger = logging.getLogger("private")
                logger.setLevel([logging.WARNING, logging.INFO, logging.DEBUG, logging.DEBUG][verb])
                h = logging.StreamHandler(err)
                h.setFormatter(logging.Formatter("%(levelname)-8s: %(message)s"))
                logger.addHandler(h)
                logger.propagate = False
                f = pathlib.Path if via == "path" else str
                _convert_file(f(inarg), f(arg) if arg is not None else f(dest), logger)
            return err.getvalue()

        r = cli.child(run, cwd, tmp)
        after = cli.snapshot(root, other)
        what = f"skops convert {inarg!r}" + (f" -o {arg!r}" if arg is not None else "")
        if r.status == "timeout" or r.status.startswith("signal"):
            raise Violation(f"{what}: {r.status}")
        st2 = os.stat(src) if os.path.exists(src) else None
        if after.get(src) != before[src] or (st.st_mtime_ns, st.st_ino, st.st_mode) != (st2.st_mtime_ns, st2.st_ino, st2.st_mode):
            raise Violation(f"{what}: the input was changed", error=r.error)
        diffs = cli.changed(before, after)
        ctx.label(out, name, f"proto{proto}", "persisted" if want else "refused", via, f"v{verb}")
        place = os.path.join(root, "dst", "target") if out == "symlink" and dest not in diffs else dest
        if want is None or out in ("missing", "dir") or alias:
            if alias and want is not None and r.status == "ok":
                # written without touching the input, e.g. in place of a link
                if diffs != [dest]:
                    raise Violation(f"{what}: ends without error, but files {diffs} changed")
            else:
                if diffs:
                    raise Violation(f"{what}: fails ({r.error}), but files changed: {[d.replace(root, '<root>') for d in diffs]}")
                if r.status != "error":
                    raise Violation(f"{what}: no error for an object that can't be persisted" if want is None else f"{what}: no error")
                ctx.trivial(not (kind and prev))
                return
        if r.status != "ok":
            raise Violation(f"{what}: {r.error}")
        rest = [d for d in diffs if d != place]
        if rest:
            raise Violation(f"{what}: other files changed: {[d.replace(root, '<root>') for d in rest]}")
        if place not in diffs:
            raise Violation(f"{what}: {place.replace(root, '<root>')} was not written")
        obj, T = want
        try:
            with zipfile.ZipFile(place) as z:
                if z.testzip():
                    raise Violation(f"{what}: damaged member {z.testzip()}")
                if len(set(z.namelist())) != len(z.namelist()) or "schema.json" not in z.namelist():
                    raise Violation(f"{what}: members {z.namelist()}")
            T2 = sio.get_untrusted_types(file=place)
            y = sio.load(place, trusted=T2)
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"{what}: the output can't be loaded: {e!r}")
        if T2 != T:
            raise Violation(f"{what}: untrusted types {T2}, expected {T}")
        with open(src, "rb") as f:
            d = diff(pickle.load(f), y)
        if d:
            raise Violation(f"{what}: the archive loads to another object than the pickle: {d}", original=obj, loaded=y)
        log = r.extra
        warned = "WARNING" in log
        if warned != bool(T):
            raise Violation(f"{what}: {'a' if warned else 'no'} warning, untrusted types: {T}", log=log)
        missing = [t for t in T if t not in log]
        if missing:
            raise Violation(f"{what}: the warning does not list {missing}", log=log)
        if T:
            # the listed names are the untrusted types
            import re

            names = set(re.findall(r"[\w.<>]+", log[log.index("WARNING"):]))
            text = ", ".join(T)
            if text not in log and any(n for n in names if n.startswith(("pbt.", "numpy.", "sklearn.", "builtins.", "scipy.")) and not any(n in t for t in T) and n not in what):
                raise Violation(f"{what}: the warning lists other types than {T}", log=log)
        ctx.label(f"untrusted{min(len(T), 3)}")
        ctx.trivial(len(data) < 30)


def obj_strategy():
    from hypothesis import strategies as st

    return st.one_of(values.anything(), values.supported(), st.sampled_from(sorted(RAW)).map(lambda n: ["raw", n]), st.sampled_from(corpus.NAMES).map(lambda n: ["corpus", n]))


def strategy():
    from hypothesis import strategies as st

    kinds = [k for k in sorted(c18.POISON) if not k.startswith("flaky")]
    return st.builds(lambda *a: list(a), obj_strategy(), st.integers(0, 200), st.one_of(st.none(), st.none(), st.none(), st.sampled_from(kinds)), st.sampled_from([0, 1, 2, 3, 4, 5, 5, 5]),
                     st.sampled_from([0] * 12 + [1, 7, 100, -1, -2, -3]), st.sampled_from(NAMES), st.sampled_from(["abs", "cwd", "rel"]), st.sampled_from(OUTS), st.sampled_from([None, "garbage", "empty", "short"]), st.integers(0, 3),
                     st.sampled_from(["main", "main", "main", "str", "path"]))


def cases(tier):
    out = []
    for i, n in enumerate(corpus.NAMES):
        out.append([["corpus", n], 0, None, 5, 0, NAMES[i % len(NAMES)], ["abs", "cwd", "rel"][i % 3], OUTS[i % len(OUTS)], [None, "garbage"][i % 2], i % 4, "main"])
        out.append([["corpus", n], 0, None, 4, 0, "model.pkl", "rel", "default", None, 0, "main"])
    for i, k in enumerate(RAW):
        for out_, prev in (("default", None), ("abs", "garbage")):
            for cut in (0, -1 - i % 3):
                out.append([["raw", k], 0, None, 0, cut, "model.pkl", ["abs", "cwd", "rel"][i % 3], out_, prev, i % 3, "main"])
    for i, (k, n) in enumerate(objs.BIG_OBJECTS + [b for b in objs.BIG_SUPPORTED if b[1] >= 300]):
        if tier == "quick" and i > 8 and i % 3:
            continue
        out.append([["big", k, n], 0, None, [5, 4][i % 2], 0, "model.pkl", ["abs", "rel"][i % 2], ["default", "abs", "bare"][i % 3], [None, "garbage"][i % 2], i % 3, "main"])
    for k in sorted(c18.POISON):
        if not k.startswith("flaky"):
            for i, o in enumerate((["poison", k], ["corpus", "pipe"], ["list", [["int", "1"], ["arr", "<f8", [3], "C", 1]]])):
                for out_, prev in (("default", "garbage"), ("abs", "short"), ("rel", None)):
                    out.append([o, 5, k, 5, 0, "model.pkl", "abs", out_, prev, 0, "main"])
    for name in NAMES:
        for out_ in sorted(set(OUTS)):
            for where in ("abs", "cwd", "rel"):
                out.append([["corpus", ["scalars", "objects"][len(out) % 2]], 0, None, 5, 0, name, where, out_, [None, "garbage"][len(out) % 2], 0, "main"])
    return out


def subs(tier):
    return [
        Sub("catalogue", evaluate, cases=cases, n=(0, 0), timeout=300),
        Sub("pickles", evaluate, strategy=strategy, n=(3000, 60000), timeout=300),
    ]
