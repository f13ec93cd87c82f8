"""C01 - loading never uses code or objects the caller did not vouch for."""
from __future__ import annotations

from .. import archives as A
from .. import canary, families, sec
from ..core import Ctx, Sub, Violation

RULE = (
    "A case is an archive (drawn from a grammar over every loader, protocol and name position with proper, canary, decoy and near-miss names, "
    "or a real dump with up to 3 schema edits) and a trusted list (subsets and near misses of the names it mentions). "
    "Non-trivial: the audit let it pass, or it was refused while at least one name was vouched for"
)


def evaluate(spec, ctx: Ctx):
    import skops.io as sio

    a, t = spec
    schema, mem, data = A.realise(a)
    T = sec.safe_trusted(A.trusted_list(t, A.names_of(schema)))
    names = set(T or ())
    own = ()
    if t["k"] % 5 == 0:
        path = sec.write_archive(data)
        own = (path,)
        fn = lambda: sio.load(path, trusted=T)  # noqa
    else:
        fn = lambda: sio.loads(data, trusted=T)  # noqa
    how, res, ledger, events, calls = sec.run_guarded(fn)
    ctx.label(a[0], how if how == "ok" else type(res).__name__, t["mode"])
    ctx.trivial(how != "ok" and not names)
    sec.judge(schema, names, ledger, events, calls, own_files=own)
    if how == "ok":
        vouched = families.Vouched(names)
        for path, what in families.walk_result(res, vouched):
            raise Violation(f"returned value holds an unvouched object at <root>{path}: {what}", trusted=sorted(names))


def strategy_of(p_bad, mut):
    def s():
        from hypothesis import strategies as st

        return st.tuples(A.archive_strategy(p_bad, mut), A.trust_strategy()).map(list)

    return s


def mut_strategy():
    from hypothesis import strategies as st

    m = st.builds(lambda n, e, p: ["mut", n, e, p], st.sampled_from(A.corpus_names()), st.lists(A.edit_strategy(), min_size=0, max_size=4),
                  st.sampled_from([A.PROTO] * 5 + [0, 1]))
    return st.tuples(m, A.trust_strategy()).map(list)


def position_cases(tier):
    """Every node of every corpus dump renamed to each of a few hostile names, T = everything else."""
    hostile = [["pbtcan_a", "Evil"], ["operator", "methodcaller"], ["pbtcan_a", "attrgetter"], ["pbtcan_b.sub", "fn_evil"], ["os", "system"], ["builtins", "eval"],
               ["pbtcan_a", "ndarray"], ["numpy.random", "seed"], ["pbtcan_pre", "Loaded"], ["pbtcan_c._impl", "Evil"]]
    out = []
    for n in A.corpus_names():
        if A.corpus()[n] is None:
            continue
        k = len(A.nodes(A.corpus()[n][0]))
        step = max(1, k // 60) if tier == "quick" else 1
        for i in range(0, k, step):
            for j, h in enumerate(hostile):
                if tier == "quick" and (i // step + j) % 2:
                    continue
                for op in (["name", i, h], ["class", i, h[1]], ["module", i, h[0]]):
                    out.append([["mut", n, [op], A.PROTO], {"mode": "other", "k": 1, "near": [], "form": "list", "dup": False}])
    return out


def evaluate_position(spec, ctx):
    import skops.io as sio

    a, t = spec
    base, _m = A.corpus()[a[1]]
    schema, mem, data = A.realise(a)
    T = sorted(n for n in A.names_of(base) if n not in sec.NEVER) + t.get("extra", [])
    how, res, ledger, events, calls = sec.run_guarded(lambda: sio.loads(data, trusted=T))
    ctx.label(how if how == "ok" else type(res).__name__)
    sec.judge(schema, T, ledger, events, calls)
    if how == "ok":
        for path, what in families.walk_result(res, families.Vouched(T)):
            raise Violation(f"returned value holds an unvouched object at <root>{path}: {what}", trusted=T)


def near_cases(tier):
    """Every loader's node renamed to a canary, T = all proper names and one that resembles the canary's."""
    out = []
    for n, i in A.loader_positions(2 if tier == "quick" else 6):
        for h in A.NEAR_HOSTILE:
            for how in A.NEAR_KINDS:
                out.append([["mut", n, [["name", i, h]], A.PROTO], {"mode": "other", "extra": [A.near_miss(".".join(h), how)]}])
    return out


def member_cases(tier):
    """Members that hold pickles or expressions, under every class name; everything the archive names is vouched for (except for the harmful)."""
    return [[a, {"mode": "all", "k": i, "near": [], "form": "list", "dup": False}] for i, a in enumerate(A.member_cases(tier))]


def big_cases(tier):
    return [[a, {"mode": m, "k": i, "near": [], "form": "list", "dup": False}] for i, a in enumerate(A.big_cases(tier)) for m in (["all", "all-1"] if a[4] else ["all"])]


def graft_cases(tier):
    """Nodes of one archive put into every kind of place of another one."""
    out = []
    for i, g in enumerate(A.graft_cases(3 if tier == "quick" else 1)):
        modes = ["empty", "all", "all-1"]
        for m in modes if tier != "quick" else [modes[i % 3]]:
            out.append([g, {"mode": m, "k": i, "near": [], "form": "list", "dup": False}])
    return out


def subs(tier):
    return [
        Sub("forged", evaluate, strategy=strategy_of(25, False), n=(14000, 400000), setup=sec.setup, timeout=60),
        Sub("forged_bad", evaluate, strategy=strategy_of(60, False), n=(5000, 150000), setup=sec.setup, timeout=60),
        Sub("mutated", evaluate, strategy=mut_strategy, n=(9000, 250000), setup=sec.setup, timeout=60),
        Sub("graft", evaluate, cases=graft_cases, n=(0, 0), setup=sec.setup, timeout=60),
        Sub("positions", evaluate_position, cases=position_cases, n=(0, 0), setup=sec.setup, timeout=60),
        Sub("members", evaluate, cases=member_cases, n=(0, 0), setup=sec.setup, timeout=60),
        Sub("big", evaluate, cases=big_cases, n=(0, 0), setup=sec.setup, timeout=120),
        Sub("near", evaluate_position, cases=near_cases, n=(0, 0), setup=sec.setup, timeout=60),
    ]
