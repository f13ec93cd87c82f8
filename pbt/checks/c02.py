"""C02 - inspecting an archive is inert."""
from __future__ import annotations

import os
import sys

from .. import archives as A
from .. import sec
from ..core import Ctx, Sub, Violation

RULE = (
    "A case is an archive (grammar over every loader, protocol and name position with proper, canary, decoy and near-miss names, or a real dump with edits), "
    "a trusted list, a show mode and one of: audit of bytes, audit of a file, visualize with the default sink, visualize with a recording sink, a load that is "
    "refused. Non-trivial: the call got as far as building the node tree (it returned, or refused with names) or the archive names a canary"
)


def do(op, data, path, T, show):
    import skops.io as sio

    if op == "audit-data":
        return lambda: sio.get_untrusted_types(data=data), ()
    if op == "audit-file":
        return lambda: sio.get_untrusted_types(file=path), (path,)
    if op == "vis":
        return lambda: sec.quiet_visualize(data, show=show, trusted=T), ()
    if op == "vis-file":
        return lambda: sec.quiet_visualize(path, show=show), (path,)
    if op == "vis-sink":
        return lambda: sio.visualize(data, show=show, trusted=T, sink=lambda nodes, show, **k: [repr(n) for n in nodes]), ()
    if op == "loads":
        return lambda: sio.loads(data, trusted=T), ()
    return lambda: sio.load(path, trusted=T), (path,)


def evaluate(spec, ctx: Ctx):
    import skops.io as sio
    from skops.io.exceptions import UntrustedTypesFoundException

    a, t, op, show = spec
    schema, mem, data = A.realise(a)
    T = sec.safe_trusted(A.trusted_list(t, A.names_of(schema)))
    path = sec.write_archive(data) if "file" in op or op == "load" else None
    if op in ("load", "loads"):
        # only loads which precede / include a negative trust decision
        how, U, *rest = sec.run_guarded(lambda: sio.get_untrusted_types(data=data))
        if how == "ok" and not set(U) - set(T or ()):
            ctx.label("load-not-refused")
            ctx.trivial()
            return
    before = set(sys.modules)
    listing = set(os.listdir("."))
    fn, own = do(op, data, path, T, show)
    how, res, ledger, events, calls = sec.run_guarded(fn)
    new = set(sys.modules) - before
    ctx.label(op, how if how == "ok" else type(res).__name__)
    ctx.trivial(not (how == "ok" or isinstance(res, UntrustedTypesFoundException)) and "pbtcan" not in str(schema))
    sec.judge_inert(schema, ledger, events, calls, new, own_files=own, what=op)
    if set(os.listdir(".")) != listing:
        raise Violation(f"{op} created or removed files: {set(os.listdir('.')) ^ listing}")
    if path is not None:
        with open(path, "rb") as f:
            if f.read() != data:
                raise Violation(f"{op} modified the archive")


def strategy_of(p_bad, mut):
    def s():
        from hypothesis import strategies as st

        return st.tuples(A.archive_strategy(p_bad, mut), A.trust_strategy(),
                         st.sampled_from(["audit-data", "audit-file", "vis", "vis-file", "vis-sink", "loads", "loads", "load"]),
                         st.sampled_from(["all", "trusted", "untrusted"])).map(list)

    return s


HOSTILE = [["pbtcan_a", "Evil"], ["pbtcan_b.sub", "fn_evil"], ["os", "getcwd"], ["pbtcan_a", "Hinge"], ["pbtcan_pre", "Loaded"], ["pbtcan_pre.sub", "fn_evil"]]


def position_cases(tier):
    """Every node of every corpus dump renamed to hostile names, each inspected in every way."""
    ops = ["audit-data", "vis", "vis-sink", "loads"]
    out = []
    for n in A.corpus_names():
        if A.corpus()[n] is None:
            continue
        k = len(A.nodes(A.corpus()[n][0]))
        step = max(1, k // 45) if tier == "quick" else 1
        for i in range(0, k, step):
            for j, h in enumerate(HOSTILE):
                if tier == "quick" and (i // step + j) % 2:
                    continue
                for q, op in enumerate(ops):
                    mode = "all" if q % 2 else "none"
                    out.append([["mut", n, [["name", i, h]], A.PROTO], {"mode": "none" if op == "loads" else mode, "k": 1, "near": [], "form": "list", "dup": False}, op, ["all", "untrusted", "trusted"][(i + q) % 3]])
    return out


def graft_cases(tier):
    """Nodes of one archive put into every kind of place of another one."""
    out = []
    for i, g in enumerate(A.graft_cases(4 if tier == "quick" else 1, 2)):
        for op in ["audit-data", "vis", "loads"] if tier != "quick" else [["audit-data", "vis", "loads"][i % 3]]:
            out.append([g, {"mode": ["all", "none", "empty"][(i // 3) % 3] if op == "vis" else "none", "k": 1, "near": [], "form": "list", "dup": False}, op, ["all", "untrusted"][i % 2]])
    return out


def big_cases(tier):
    """Large archives, inspected in every way."""
    out = []
    for i, a in enumerate(A.big_cases(tier, (None, ["pbtcan_b.sub", "fn_evil", "FunctionNode"]))):
        for j, op in enumerate(["audit-data", "audit-file", "vis", "vis-file", "loads", "load"]):
            if tier == "quick" and a[4] is None and (op in ("loads", "load") or a[1] in ("list", "dict") and a[2] > 2000 and "vis" in op):
                continue
            out.append([a, {"mode": "none", "k": 1, "near": [], "form": "list", "dup": False}, op, ["all", "untrusted", "trusted"][(i + j) % 3]])
    return out


def member_cases(tier):
    """Members that hold pickles or expressions."""
    ops = ["audit-data", "vis", "vis-sink", "loads", "audit-file"]
    return [[a, {"mode": "none", "k": 1, "near": [], "form": "list", "dup": False}, ops[i % 5], "all"] for i, a in enumerate(A.member_cases(tier)) if tier != "quick" or i % 5 == 0]


def subs(tier):
    return [
        Sub("forged", evaluate, strategy=strategy_of(35, True), n=(12000, 300000), setup=sec.setup, timeout=60),
        Sub("forged_bad", evaluate, strategy=strategy_of(75, False), n=(8000, 200000), setup=sec.setup, timeout=60),
        Sub("graft", evaluate, cases=graft_cases, n=(0, 0), setup=sec.setup, timeout=60),
        Sub("big", evaluate, cases=big_cases, n=(0, 0), setup=sec.setup, timeout=120),
        Sub("members", evaluate, cases=member_cases, n=(0, 0), setup=sec.setup, timeout=60),
        Sub("positions", evaluate, cases=position_cases, n=(0, 0), setup=sec.setup, timeout=60),
    ]
