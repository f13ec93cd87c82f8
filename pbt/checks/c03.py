"""C03 - the audit verdict is exact and load enforces exactly that verdict."""
from __future__ import annotations

import ast
import re

from .. import archives as A
from .. import cmp, families, sec
from ..core import Ctx, Sub, Violation

RULE = (
    "A case is an archive (grammar over every loader/protocol/name position, or a real dump with edits) and a recipe for T relative to its own verdict U "
    "(all of U, U minus one or two, subsets, near misses, extra names; strings or type objects; list or tuple; order; duplicates). "
    "Non-trivial: U could be computed and is not empty"
)

PREFIX = "Untrusted types found in the file: "


def reported(exc):
    m = re.search(r"\[.*\]", str(exc), re.S)
    try:
        v = ast.literal_eval(m.group(0))
    except Exception:
        return None
    return v


def as_type(name):
    ok, o = families.lookup(name)
    if ok and isinstance(o, type) and getattr(o, "__module__", None) == name.rpartition(".")[0] and o.__name__ == name.rpartition(".")[2]:
        return o
    return name


EXTRA = ["os.system", "builtins.dict", "builtins.list", "numpy.ndarray", "pbtcan_z.Never", "", "x", "builtins", "sklearn.linear_model._logistic.LogisticRegression", "functools.partial",
         "operator.attrgetter", "builtins.str", "collections.OrderedDict"]


def make_T(t, U):
    U = sorted(U)
    if t["mode"] == "none":
        return None
    if t["mode"] == "all":
        out = list(U)
    elif t["mode"] == "nocan":
        out = [n for n in U if not n.startswith("pbtcan")]
    elif t["mode"] == "subset":
        out = [n for i, n in enumerate(U) if (t["k"] >> (i % 10)) & 1]
    else:
        out = list(U)
        for j in range(int(t["mode"][-1])):
            if out:
                out.pop((t["k"] + 3 * j) % len(out))
    miss = [n for n in U if n not in out] or U
    for how, i in t["near"]:
        if miss:
            out.append(A.near_miss(miss[i % len(miss)], how))
    out += [EXTRA[i % len(EXTRA)] for i in t["extra"]]
    if t["dup"]:
        out += out[::-1]
    if t["rot"] and out:
        r = t["rot"] % len(out)
        out = out[r:] + out[:r]
    return out


def spell(t, names):
    """The same trusted names in the spelling asked for."""
    if names is None:
        return None
    out = [as_type(n) if (i + t["k"]) % 2 and t["types"] else n for i, n in enumerate(names)]
    return tuple(out) if t["form"] == "tuple" else out


def evaluate(spec, ctx: Ctx):
    import skops.io as sio
    from skops.io.exceptions import UntrustedTypesFoundException

    a, t = spec
    schema, mem, data = A.realise(a)
    how, U, *_ = sec.run_guarded(lambda: sio.get_untrusted_types(data=data))
    path = sec.write_archive(data)
    howf, Uf, *_ = sec.run_guarded(lambda: sio.get_untrusted_types(file=path))
    if how != "ok" or howf != "ok":
        if how != howf or type(U) is not type(Uf):
            raise Violation(f"get_untrusted_types: data= gives {how} {U!r}, file= gives {howf} {Uf!r}")
        ctx.label("audit-raises")
        ctx.trivial()
        # no verdict: a load must not succeed either (it precedes the decision)
        how2, r2, *_ = sec.run_guarded(lambda: sio.loads(data))
        if how2 == "ok":
            raise Violation(f"loads succeeds although get_untrusted_types raises {U!r}")
        return
    if type(U) is not list or not all(type(n) is str for n in U) or U != sorted(set(U)):
        raise Violation(f"get_untrusted_types is not a sorted duplicate-free list of strings: {U!r}")
    if Uf != U:
        raise Violation(f"get_untrusted_types(data=) is {U}, (file=) is {Uf}")
    ctx.label(f"U{min(len(U), 5)}", t["mode"], a[0])
    ctx.trivial(not U)
    names = make_T(t, U)
    missing = sorted(set(U) - set(names or ()))
    if not missing and set(names or ()) & sec.NEVER:
        # executing what is vouched for here could do harm; decide only the refusal
        ctx.label("not-executed")
        return
    T = spell(t, names)
    T2 = spell(t, list(names or ()) + [n for n in EXTRA if n not in sec.NEVER])
    keep = repr(T)
    fn = (lambda: sio.load(path, trusted=T)) if t["k"] % 3 == 0 else (lambda: sio.loads(data, trusted=T))

    def both():
        try:
            r1 = ("ok", fn())
        except Exception as e:
            r1 = ("raise", e)
        if r1[0] != "ok":
            return r1, None, None
        try:
            r1b = ("ok", fn())
        except Exception as e:
            r1b = ("raise", e)
        try:
            r2 = ("ok", sio.loads(data, trusted=T2))
        except Exception as e:
            r2 = ("raise", e)
        return r1, r1b, r2

    _, (r1, r1b, r2), *_ = sec.run_guarded(both)
    if repr(T) != keep:
        raise Violation("the trusted argument was modified", before=keep, after=repr(T))
    refused = isinstance(r1[1], UntrustedTypesFoundException)
    if missing:
        ctx.label("refused")
        if not refused:
            raise Violation(f"{missing} missing from T={T!r}, but load gives {r1[0]}: {r1[1]!r:.300}", U=U)
        got = reported(r1[1])
        if got != missing:
            raise Violation(f"refusal names {r1[1]}, missing are {missing}", T=repr(T), U=U)
        return
    ctx.label("passed-" + r1[0])
    if refused:
        raise Violation(f"nothing of {U} is missing from T={T!r}, but load refuses: {r1[1]}")
    if r1[0] == "ok":
        if r2[0] != "ok":
            raise Violation(f"loads with T={T!r}, raises {r2[1]!r} with the larger T={T2!r}")
        try:
            # some archives load to something random or incomparable
            same = r1b[0] == "ok" and not cmp.diff(r1[1], r1b[1])
        except Exception:
            same = False
        if same:
            try:
                d = cmp.diff(r1[1], r2[1])
            except Exception:
                d = None
            if d:
                raise Violation(f"the larger T changes the result: {d}", T=repr(T))


def t_strategy():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "mode": st.sampled_from(["none", "all", "all", "all", "all-1", "all-1", "all-2", "subset"]), "k": st.integers(0, 1023),
        "near": st.lists(st.tuples(st.sampled_from(A.NEAR_KINDS), st.integers(0, 20)).map(list), max_size=2),
        "extra": st.lists(st.integers(0, 20), max_size=2), "form": st.sampled_from(["list", "list", "tuple"]), "dup": st.booleans(), "types": st.booleans(), "rot": st.integers(0, 5)})


def strategy_of(p_bad, mut):
    def s():
        from hypothesis import strategies as st

        return st.tuples(A.archive_strategy(p_bad, mut), t_strategy()).map(list)

    return s


def eval_true(spec, ctx):
    """trusted=True is always rejected."""
    import skops.io as sio

    a, form = spec
    schema, mem, data = A.realise(a)
    path = sec.write_archive(data)
    for what, fn in (("loads", lambda: sio.loads(data, trusted=True)), ("load", lambda: sio.load(path, trusted=True))):
        how, r, ledger, events, _ = sec.run_guarded(fn)
        if how == "ok" or not isinstance(r, TypeError):
            raise Violation(f"{what}(trusted=True) gives {r!r:.300}")
        if ledger:
            raise Violation(f"{what}(trusted=True) used {ledger}")


def true_strategy():
    from hypothesis import strategies as st

    return st.tuples(A.archive_strategy(10, True), st.just(0)).map(list)


def eval_types(spec, ctx):
    """A type object in T means exactly the name the audit reports for it."""
    import skops.io as sio
    from skops.io.exceptions import UntrustedTypesFoundException

    from .. import zoo

    name = spec[0]
    ctx.trivial(False)
    try:
        data = sio.dumps(zoo.make(*spec[1:])) if spec[1] is not None else None
    except Exception:
        data = None
    if data is None:
        ctx.trivial()
        return
    U = sio.get_untrusted_types(data=data)
    if not U:
        ctx.trivial()
        return
    types_ = [as_type(n) for n in U]
    try:
        sio.loads(data, trusted=types_)
    except UntrustedTypesFoundException as e:
        raise Violation(f"{e} with trusted={types_!r}")
    except Exception:
        pass


def subset_cases(tier):
    """For every corpus dump: every single name left out of its verdict."""
    out = []
    for n in A.corpus_names():
        for k in range(12):
            for form in ("list", "tuple"):
                out.append([["mut", n, [], A.PROTO], {"mode": "all-1", "k": k, "near": [], "extra": [], "form": form, "dup": False, "types": bool(k % 2), "rot": k % 3}])
        for k in range(3):
            out.append([["mut", n, [], A.PROTO], {"mode": "all", "k": k, "near": [], "extra": [k], "form": "tuple", "dup": True, "types": k == 1, "rot": k}])
    return out


def position_cases(tier):
    """Every node of every corpus dump renamed; T is the verdict, and the verdict minus each name."""
    hostile = [["pbtcan_a", "Evil"], ["operator", "methodcaller"], ["pbtcan_b.sub", "fn_evil"], ["pbtcan_pre", "Loaded"], ["pbtcan_c._impl", "Evil"]]
    out = []
    for n in A.corpus_names():
        if A.corpus()[n] is None:
            continue
        k = len(A.nodes(A.corpus()[n][0]))
        step = max(1, k // 40) if tier == "quick" else 1
        for i in range(0, k, step):
            h = hostile[(i // step) % 5]
            for mode in ("none", "all", "all-1"):
                out.append([["mut", n, [["name", i, h]], A.PROTO], {"mode": mode, "k": i, "near": [], "extra": [], "form": "list", "dup": False, "types": False, "rot": 0}])
    return out


def near_cases(tier):
    """Every loader's node renamed to a canary name that is not in T, while a name resembling it is."""
    out = []
    for n, i in A.loader_positions(2 if tier == "quick" else 6):
        for h in A.NEAR_HOSTILE:
            for k, how in enumerate(A.NEAR_KINDS):
                out.append([["mut", n, [["name", i, h]], A.PROTO], {"mode": "nocan", "k": k, "near": [[how, 0]], "extra": [], "form": "list", "dup": False, "types": False, "rot": k % 2}])
    return out


def big_cases(tier):
    out = []
    for i, a in enumerate(A.big_cases(tier)):
        for j, mode in enumerate(["none", "all", "all-1", "subset"] if a[4] and tier != "quick" or "name" in a[1] else [["none", "all", "all-1"][i % 3]]):
            out.append([a, {"mode": mode, "k": 7 * i + j, "near": [], "extra": [], "form": ["list", "tuple"][i % 2], "dup": bool(j % 2), "types": False, "rot": i % 3}])
    return out


def graft_cases(tier):
    """Nodes of one archive put into every kind of place of another one."""
    out = []
    for i, g in enumerate(A.graft_cases(4 if tier == "quick" else 1, 1)):
        modes = ["none", "all", "all-1"]
        for m in modes if tier != "quick" else [modes[i % 3]]:
            out.append([g, {"mode": m, "k": i, "near": [], "extra": [], "form": "list", "dup": False, "types": False, "rot": 0}])
    return out


def subs(tier):
    return [
        Sub("forged", evaluate, strategy=strategy_of(20, True), n=(12000, 300000), setup=sec.setup, timeout=60),
        Sub("forged_bad", evaluate, strategy=strategy_of(60, True), n=(5000, 150000), setup=sec.setup, timeout=60),
        Sub("subsets", evaluate, cases=subset_cases, n=(0, 0), setup=sec.setup, timeout=60),
        Sub("big", evaluate, cases=big_cases, n=(0, 0), setup=sec.setup, timeout=120),
        Sub("graft", evaluate, cases=graft_cases, n=(0, 0), setup=sec.setup, timeout=60),
        Sub("positions", evaluate, cases=position_cases, n=(0, 0), setup=sec.setup, timeout=60),
        Sub("near", evaluate, cases=near_cases, n=(0, 0), setup=sec.setup, timeout=60),
        Sub("true", eval_true, strategy=true_strategy, n=(400, 5000), setup=sec.setup, timeout=60),
    ]
