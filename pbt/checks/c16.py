"""C16 - `skops update` upgrades old archives without ever endangering the original."""
from __future__ import annotations

import errno
import functools
import json
import os
import shutil
import zipfile

from .. import archives as A
from .. import cli, corpus, objs, values, zoo
from ..cmp import diff
from ..core import Ctx, Skip, Sub, Violation
from . import c08

RULE = (
    "A case is an archive (any supported object, protocol 0 to 4) and a command: destination (none, bare, nested, absolute, other file system, the input under another name ...), --inplace, previous content of the "
    "destination, place of the temporary directory. In the crash sub-check the process is also ended at every file operation, at sampled lines and inside writes, or one operation fails. "
    "Non-trivial: the archive has to be rewritten and has several nodes, or a fault was injected"
)

OUTS = ["none", "bare", "dot", "nested", "up", "abs", "abs", "other", "same", "same2", "link", "hardlink", "long", "missing", "odd", "dir"]
NAMES = {"bare": "out.skops", "dot": "./out", "nested": "sub dir/deep/é out.skops", "up": "../up.skops", "odd": "..x.tmp"}


def archive(o, p, comp):
    """(bytes, the object it loads to, a function to load it)"""
    import skops.io as sio

    try:
        x = c08.make(o)
        data = sio.dumps(x)
    except Exception:
        raise Skip()
    schema, mem = A.read(data)
    loaders = {nd["__loader__"] for _, nd in A.nodes(schema)}
    if p < c08.proto():
        try:
            schema, _ = c08.downgrade(schema, p)
        except Skip:
            raise
    else:
        schema["protocol"] = p
    data = A.zip_bytes(schema, mem, **({"compression": zipfile.ZIP_DEFLATED} if comp else {}))
    try:
        ref = sio.loads(data, trusted=sio.get_untrusted_types(data=data))
        again = sio.loads(sio.dumps(ref), trusted=sio.get_untrusted_types(data=sio.dumps(ref)))
    except Exception:
        raise Skip()  # other checks decide this
    if diff(ref, again, layout=False):
        raise Skip()
    return data, ref, len(A.nodes(schema)), len(loaders)


class Scene:
    """The files of a case."""

    def __init__(self, root, other, spec):
        self.spec = spec
        o, p, out, inplace, prev, layout, form, comp, verb, via = spec
        self.data, self.ref, self.nodes, self.kinds = archive(o, p, comp)
        self.root, self.other = root, other
        self.cwd = os.path.join(root, "cwd")
        self.tmp = os.path.join(other if layout & 1 else root, "tmp")
        for d in (self.cwd, self.tmp, os.path.join(root, "in dir"), os.path.join(root, "dst"), os.path.join(other, "dst"), os.path.join(self.cwd, "sub dir", "deep"), os.path.join(self.cwd, "outdir")):
            os.makedirs(d, exist_ok=True)
        ind = os.path.join(other if layout & 2 else root, "in dir")
        os.makedirs(ind, exist_ok=True)
        if form == "cwd":
            self.input = os.path.join(self.cwd, "model.skops")
            self.inarg = "model.skops"
        elif form == "rel":
            self.input = os.path.join(root, "in dir", "model é.skops")
            self.inarg = "../in dir/model é.skops"
        else:
            self.input = os.path.join(ind, "model.skops")
            self.inarg = self.input
        self.write(self.input, self.data)
        self.real_input = self.input
        if form == "link":
            self.inarg = self.input = os.path.join(self.cwd, "link.skops")
            os.symlink(self.real_input, self.input)
        self.alias = False  # the destination is the input under some name
        arg = None
        if out in NAMES:
            arg = NAMES[out]
        elif out == "abs":
            arg = os.path.join(root, "dst", "new.skops")
        elif out == "other":
            arg = os.path.join(other, "dst", "new.skops")
        elif out == "same":
            arg, self.alias = self.inarg, True
        elif out == "same2":
            d, n = os.path.split(self.input)
            arg, self.alias = os.path.join(root, "dst", "..", os.path.relpath(d, root), n) if d.startswith(root) else os.path.join(d, ".", n), True
        elif out == "link":
            arg, self.alias = os.path.join(root, "dst", "l.skops"), True
            os.symlink(self.real_input, arg)
        elif out == "hardlink":
            arg, self.alias = os.path.join(os.path.dirname(self.real_input), "h.skops"), True
            os.link(self.real_input, arg)
        elif out == "long":
            arg = "n" * 249 + ".skops"
        elif out == "missing":
            arg = "no such/dir/out.skops"
        elif out == "dir":
            arg = "outdir"
        self.arg, self.out, self.inplace, self.via, self.verb = arg, out, inplace, via, verb
        self.dest = None if arg is None else os.path.join(self.cwd, arg)
        if self.dest is not None and out not in ("same", "same2", "link", "hardlink", "missing", "dir") and prev:
            self.write(self.dest, {"garbage": b"previous content" * 30000, "empty": b"", "archive": self.data[:-1] + b"\0", "short": b"x"}[prev])
        # neighbours nobody has to touch
        for d in {os.path.dirname(self.input), os.path.dirname(self.dest or self.input), self.cwd, self.tmp}:
            if os.path.isdir(d):
                self.write(os.path.join(d, "neighbour.skops.tmp"), b"neighbour")
        if inplace and arg is None:
            self.dest = self.input
        self.proto = p
        # what has to happen
        if inplace and arg is not None:
            self.want = "error"
        elif p >= c08.proto():
            self.want = "keep"
        elif arg is None and not inplace:
            self.want = "keep"
        elif out in ("missing", "dir"):
            self.want = "error"
        elif out in ("same", "same2"):
            self.want = "refuse"  # the input is never altered unless --inplace
        elif self.alias:
            self.want = "refuse or write"
        else:
            self.want = "write"

    def write(self, path, data):
        with open(path, "wb") as f:
            f.write(data)

    def call(self):
        if self.via == "main":
            from skops.cli.entrypoint import main_cli

            args = ["update", self.inarg] + ([] if self.arg is None else ["-o", self.arg]) + (["--inplace"] if self.inplace else []) + ["-v"] * self.verb
            return lambda: main_cli(args) and None
        import pathlib

        from skops.cli._update import _update_file

        f = str if self.via == "str" else pathlib.Path

        def run():
            _update_file(f(self.inarg), None if self.arg is None else f(self.arg), self.inplace)

        return run

    def stat(self):
        st = os.stat(self.real_input)
        return st.st_ino, st.st_mtime_ns, st.st_size, st.st_mode

    def complete(self, path, what):
        """The file is a complete archive of the current protocol with an equal object."""
        import skops.io as sio

        try:
            with zipfile.ZipFile(path) as z:
                bad = z.testzip()
                schema = json.loads(z.read("schema.json"))
            if bad:
                raise Violation(f"{what}: member {bad} of the destination is damaged")
            p = schema["protocol"]
            y = sio.load(path, trusted=sio.get_untrusted_types(file=path))
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"{what}: the destination can't be loaded: {e!r}")
        if p != c08.proto():
            raise Violation(f"{what}: the destination has protocol {p}")
        d = diff(self.ref, y, layout=False, seedseq=self.proto >= 2)
        if d:
            raise Violation(f"{what}: the destination loads to another object: {d}", original=self.ref, loaded=y)


def describe(sc, fault=None):
    return f"skops update {sc.inarg!r}" + (f" -o {sc.arg!r}" if sc.arg is not None else "") + (" --inplace" if sc.inplace else "") + f" (protocol {sc.proto}" + (f", {fault}" if fault else "") + ")"


def entry(path, snap):
    """Content reachable at a path."""
    e = snap.get(os.path.normpath(path))
    return e


def run(sc, root, other, fault=None):
    before, st = cli.snapshot(root, other), sc.stat()
    r = cli.child(sc.call(), sc.cwd, sc.tmp, fault)
    after = cli.snapshot(root, other)
    what = describe(sc, fault)
    if r.status == "timeout" or r.status.startswith("signal"):
        raise Violation(f"{what}: {r.status}")
    diffs = [p for p in cli.changed(before, after)]
    dest = None if sc.dest is None else os.path.realpath(os.path.dirname(sc.dest)) + "/" + os.path.basename(sc.dest)
    # the input
    if sc.dest != sc.input or sc.inplace is False:
        if sc.stat() != st or entry(sc.input, after) != entry(sc.input, before) or entry(sc.real_input, after) != entry(sc.real_input, before):
            raise Violation(f"{what}: the input was altered", error=r.error)
    new = dest is not None and dest in diffs
    if new:
        if after.get(dest) is None:
            raise Violation(f"{what}: the destination is gone", error=r.error)
        if sc.want in ("keep", "error", "refuse"):
            raise Violation(f"{what}: the destination was written", error=r.error)
        sc.complete(dest, what)
    # through a link
    if sc.input != sc.real_input and entry(sc.real_input, after) != entry(sc.real_input, before):
        if not sc.inplace:
            raise Violation(f"{what}: the input was altered through a link")
        sc.complete(sc.real_input, what)
        diffs.remove(os.path.realpath(sc.real_input))
        new = True
    rest = [p for p in diffs if p != dest]
    if r.status == "killed":
        # files of the call may stay, nothing else changes
        gone = [p for p in rest if p in before]
        if gone:
            raise Violation(f"{what}: other files were changed: {gone}")
        return r, new
    if rest and (fault is None or fault[0] != "raise" or fault[3]):
        raise Violation(f"{what}: other files were changed or remain: {[p.replace(root, '<root>').replace(other, '<other>') for p in rest]}", error=r.error)
    if fault is not None:
        gone = [p for p in rest if p in before]
        if gone:
            raise Violation(f"{what}: other files were changed: {gone}")
        if r.status == "ok" and sc.want == "write" and not new:
            raise Violation(f"{what}: ends without error, but the destination was not written")
        return r, new
    if sc.want == "error" and r.status != "error":
        raise Violation(f"{what}: no error")
    if sc.want == "keep" and not sc.alias and r.status != "ok":
        raise Violation(f"{what}: {r.error}")
    if sc.want == "write":
        if r.status != "ok":
            raise Violation(f"{what}: {r.error}")
        if not new:
            raise Violation(f"{what}: the destination was not written")
    return r, new


def evaluate(spec, ctx: Ctx):
    with cli.roots() as (root, other, apart):
        sc = Scene(root, other, spec)
        r, new = run(sc, root, other)
        ctx.label(f"p{sc.proto}", sc.out, "inplace" if sc.inplace else "copy", sc.want, "two file systems" if apart else "one file system")
        ctx.trivial(not new or sc.nodes < 2)
        if new:
            # the new archive is up to date now
            sc2 = Scene.__new__(Scene)
            sc2.__dict__.update(sc.__dict__)
            target = os.path.join(sc.cwd, sc.dest)
            before = cli.snapshot(root, other)
            sc2.inarg, sc2.arg, sc2.inplace = target, None, True
            r = cli.child(sc2.call(), sc.cwd, sc.tmp)
            if r.status != "ok" or cli.changed(before, cli.snapshot(root, other)):
                raise Violation(f"{describe(sc)}: updating the new archive again: {r.error or 'files change'}", changed=cli.changed(before, cli.snapshot(root, other)))


def evaluate_crash(spec, ctx: Ctx):
    sspec, seed, full = spec
    if sspec[2] in ("missing", "dir"):
        raise Skip()
    import random

    rnd = random.Random(seed)

    def once(fault):
        with cli.roots() as (root, other, _):
            sc = Scene(root, other, sspec)
            r, new = run(sc, root, other, fault)
            return r, new, sc

    r, new, sc = once(None)
    size = len(sc.data)
    faults = [["event", k] for k in range(len(r.log))]
    lines = range(r.lines)
    faults += [["line", k] for k in (lines if full else sorted(rnd.sample(lines, min(len(lines), 14))))]
    faults += [["fsize", n, kill] for n in ([0, 1, size // 3, size - 1] if full else [rnd.choice([0, 1, 22, size // 3]), rnd.choice([size // 2, size - 1, size - 30])]) for kill in (1, 0)]
    wr = [k for k, (e, w) in enumerate(r.log) if w]
    faults += [["raise", k, rnd.choice(cli.ERRNOS), 1] for k in wr]
    others = [k for k, (e, w) in enumerate(r.log) if not w]
    faults += [["raise", k, rnd.choice(cli.ERRNOS), 0] for k in (others if full else rnd.sample(others, min(2, len(others))))]
    ctx.units = 1 + len(faults)
    killed = done = 0
    for f in faults:
        r, new, _ = once(f)
        killed += r.status == "killed"
        done += new
        ctx.label(f"{f[0]}: {r.status}" + (", written" if new else ""))
    ctx.trivial(not killed)
    ctx.label(sc.out, "inplace" if sc.inplace else "copy", sc.want)


# ---------------------------------------------------------------------------

def obj_strategy():
    from hypothesis import strategies as st

    return st.one_of(c08.obj_strategy(), st.sampled_from(corpus.NAMES).map(lambda n: ["corpus", n]), st.sampled_from(SMALL))


SMALL = [["list", [["int", "1"], ["str", "a"]]], ["dict", [[["str", "a"], ["ufunc", "sqrt"]]]], ["corpus", "logreg"], ["corpus", "arrays"], ["corpus", "funcs"], ["corpus", "shared"], ["corpus", "objects"]]


def scene_strategy(objs_=None, protos=(0, 0, 1, 1, 1, 2, 3, 10, 77, 1000), outs=OUTS, inplace=(0, 0, 1)):
    from hypothesis import strategies as st

    return st.builds(lambda *a: list(a), objs_ or obj_strategy(), st.sampled_from(protos), st.sampled_from(outs), st.sampled_from(inplace).map(bool), st.sampled_from([None, None, "garbage", "empty", "archive", "short"]),
                     st.integers(0, 3), st.sampled_from(["abs", "abs", "cwd", "rel", "link"]), st.booleans(), st.integers(0, 3), st.sampled_from(["main", "main", "main", "str", "path"]))


def strategy():
    from hypothesis import strategies as st

    write = scene_strategy(None, (0, 1), ["bare", "dot", "nested", "up", "abs", "other", "long", "odd"], (0,))
    inpl = scene_strategy(None, (0, 1), ["none"], (1,))
    return st.one_of(scene_strategy(), write, write, inpl)


def crash_strategy():
    from hypothesis import strategies as st

    big = st.sampled_from([["corpus", n] for n in corpus.NAMES] + SMALL)
    sc = st.one_of(scene_strategy(big, (0, 1), ["none"], (1,)), scene_strategy(big, (0, 1, 1), ["bare", "nested", "abs", "other", "long", "up"], (0,)), scene_strategy(big, (0, 1), ["same", "link", "hardlink"], (0,)))
    sc = st.one_of(sc, sc, sc, scene_strategy(big, (2, 3), ["abs", "none"]))
    return st.tuples(sc, st.integers(0, 10**6), st.just(False)).map(list)


def combos(tier):
    """Every destination x flag x protocol x place."""
    out = []
    for o in (SMALL[0], ["corpus", "pipe"]):
        for k in sorted(set(OUTS)):
            for inplace in (False, True):
                for p in (0, 1, c08.proto(), c08.proto() + 1, 10):
                    for layout in (0, 1, 2):
                        if (inplace and k != "none" and (layout or p == 0)) or (p == 10 and layout == 1):
                            continue
                        out.append([o, p, k, inplace, [None, "garbage"][(layout + p) % 2], layout, ["abs", "cwd", "rel", "link"][(len(out) + layout) % 4], False, 0, "main"])
    for i, (k, n) in enumerate(objs.BIG_OBJECTS + [b for b in objs.BIG_SUPPORTED if b[1] >= 300]):
        if tier == "quick" and i % 3 and n < 2**20:
            continue
        out.append([["big", k, n], 1, ["abs", "none", "bare"][i % 3], i % 3 == 1, None, i % 3, "abs", False, 0, "main"])
    return out


def crash_cases(tier):
    """The full list of lines for the main situations."""
    out = []
    for o in ([SMALL[0]] if tier == "quick" else [SMALL[0], ["corpus", "tree"]]):
        for k, inplace, layout in (("none", True, 0), ("none", True, 1), ("abs", False, 0), ("abs", False, 1), ("other", False, 0), ("nested", False, 1)):
            out.append([[o, 1, k, inplace, "garbage", layout, "abs", False, 0, "main"], 1, True])
    return out


def subs(tier):
    return [
        Sub("combinations", evaluate, cases=combos, n=(0, 0), timeout=300),
        Sub("runs", evaluate, strategy=strategy, n=(2400, 40000), timeout=300),
        Sub("crash-lines", evaluate_crash, cases=crash_cases, n=(0, 0), timeout=600),
        Sub("crash", evaluate_crash, strategy=crash_strategy, n=(160, 4000), timeout=600),
    ]
