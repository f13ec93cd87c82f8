"""C20 - calls are independent of history and of concurrent calls."""
from __future__ import annotations

import json
import os
import subprocess
import sys

from .. import hist
from ..core import Ctx, Sub, Violation

RULE = (
    "A case is a sequence of dump / audit / load / visualize / parse / card operations (several cards interleaved, shared models, templates and tables, refused objects, damaged archives, results modified by the "
    "caller), or several such sequences in threads under a seeded scheduler which switches at random lines of skops; every result is compared with that of the same call in a fresh forked process (for cards: the "
    "operations of that card alone), and single calls also with a fresh interpreter. Non-trivial: at least two operations follow others / at least one switch between threads happened"
)
BUDGET = (300, 3000)

_fresh = {}


def setup():
    import skops.card  # noqa
    import skops.io  # noqa
    import matplotlib.pyplot  # noqa
    import sklearn.inspection  # noqa

    st, r = hist.forked(hist.build_archives)
    if st != "ok":
        raise RuntimeError(r)
    hist.ARCHIVES[:] = r


def fresh(ops):
    """Result of the last operation when only these ran (cached: it must be deterministic)."""
    key = json.dumps(ops)
    if key not in _fresh:
        st, r = hist.sequence(ops)
        if st != "ok":
            raise RuntimeError(f"a fresh process {st}: {r} ({ops})")
        for i in range(len(ops)):
            _fresh.setdefault(json.dumps(ops[: i + 1]), r[i])
        if len(_fresh) > 4000:
            for k in list(_fresh)[:2000]:
                del _fresh[k]
        return r[-1]
    return _fresh[key]


def projection(ops, i):
    op = ops[i]
    if op[0] != "card":
        return [op]
    mine = [o for o in ops[: i + 1] if o[0] == "card" and o[1] == op[1]]
    # a new card has nothing of the one it replaces
    return mine[max([0] + [k for k, o in enumerate(mine) if o[2][0] == "new"]):]


def first_diff(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"{a[max(0, n - 60):n + 120]!r} became {b[max(0, n - 60):n + 120]!r}"


def expected(ops):
    """Fresh results of all operations of a list; projections are run once per card."""
    want = [None] * len(ops)
    for i in range(len(ops) - 1, -1, -1):
        if ops[i][0] == "nest":
            _, kind, j, inner = ops[i]
            outer = fresh([["nest", kind, j, []]])
            want[i] = outer + "\0".join(fresh([o]) for o in inner) if not outer.startswith("raise ") else outer
        else:
            want[i] = fresh(projection(ops, i))
    return want


def label(op):
    if op[0] == "nest":
        return "nest." + op[1]
    return op[0] if op[0] != "card" else "card." + op[2][0]


def evaluate(spec, ctx: Ctx):
    ops = spec
    ctx.trivial(len(ops) < 3)
    ctx.units = len(ops)
    ctx.label(*{label(o) for o in ops})
    st, got = hist.sequence(ops)
    if st != "ok":
        raise Violation(f"the process {st}: {got}")
    want = expected(ops)
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            raise Violation(f"operation {i} {ops[i]} depends on the calls before it: {first_diff(w, g)}")


def evaluate_threads(spec, ctx: Ctx):
    lists, seed, mode, p = spec
    ctx.units = sum(map(len, lists))
    ctx.label(mode, "threads%d" % len(lists), *{label(o) for l in lists for o in l})
    st, r = hist.threaded(lists, seed, mode, p)
    if st != "ok":
        raise Violation(f"the process {st}: {r}")
    got, info = r
    ctx.trivial(sum(map(len, lists)) < 2 or (mode == "coop" and not info["switches"]))
    if info.get("stalls"):
        ctx.label("stalls")
    for ops, res in zip(lists, got):
        want = expected(ops)
        if len(res) != len(want):
            raise Violation(f"a thread ended after {len(res)} of {len(want)} operations")
        for i, (g, w) in enumerate(zip(res, want)):
            if g != w:
                raise Violation(f"operation {i} {ops[i]} depends on the other threads: {first_diff(w, g)}")


# ---------------------------------------------------------------------------

def evaluate_interpreter(spec, ctx: Ctx):
    """The first call of a new interpreter, with another hash seed."""
    ops, hashseed = spec
    ctx.label(*map(label, ops))
    ctx.units = len(ops)
    code = (
        "import sys,json,warnings; warnings.simplefilter('ignore'); sys.path[:0]=%r\n"
        "from pbt import boot, hist, scratch\n"
        "import pickle\n"
        "hist.ARCHIVES[:] = pickle.load(open('archives.pkl','rb'))\n"
        "scratch._worker_dir = '.'\n"
        "out=[]\n"
        "for op in json.loads(sys.argv[1]):\n"
        "    st, r = hist.sequence([op]); out.append(r[0] if st == 'ok' else 'died '+str(r))\n"
        "print('RESULT'+json.dumps(out))\n"
    ) % ([p for p in sys.path[:2]],)
    import pickle

    if not os.path.exists("archives.pkl"):
        with open("archives.pkl", "wb") as f:
            pickle.dump(hist.ARCHIVES, f)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    r = subprocess.run([sys.executable, "-c", code, json.dumps(ops)], capture_output=True, text=True, env=env, timeout=200)
    line = next((l for l in r.stdout.splitlines() if l.startswith("RESULT")), None)
    if line is None:
        raise RuntimeError(r.stderr[-3000:])
    for op, g in zip(ops, json.loads(line[6:])):
        w = fresh([op])
        if g != w:
            raise Violation(f"{op} gives another result in a new interpreter: {first_diff(w, g)}")


SETLESS = {"dumps", "dump", "dumpfile"}


def interpreter_cases(tier):
    ops = []
    for i in range(hist.NOBJ):
        if i < 28 and hist.corpus.NAMES[i] in ("odict", "vec"):
            continue  # hold sets or dicts made from sets of text, whose order is that of the hash seed
        ops.append(["dumps", i, False, None])
    for i in range(hist.NOBJ + 64):
        ops.append(["untrusted", i, False])
        ops.append(["loads", i, "all", False])
        ops.append(["vis", i, "all"])
    for i in range(4):
        ops += [["md", i, True], ["md", i, False]]
    for t in hist.TEMPLATES:
        ops.append(["card", 0, ["new", t, 1, "auto", False, False]])
    n = 16 if tier == "quick" else 60
    return [[ops[k::n], 100 + k] for k in range(n)]


def sweep_cases(tier):
    """Every object, archive and section after all others."""
    import random

    na = hist.NOBJ + 64
    twins = list(range(hist.FIRST_TWIN, hist.NOBJ))
    rows = []
    kinds = {"dumps": lambda i: ["dumps", i, False, None], "live": lambda i: ["dumps", i, True, None], "untrusted": lambda i: ["untrusted", i, False], "loads": lambda i: ["loads", i, "all", False],
             "vis": lambda i: ["vis", i, "all"], "slot": lambda i: ["slot", 0, i, True, 0]}
    for kind, op in kinds.items():
        pool = list(range(hist.NOBJ if kind in ("dumps", "live") else na))
        orders = [twins, twins[::-1], pool, pool[::-1]]
        for k in range(2 if tier == "quick" else 40):
            orders.append(random.Random(k).sample(pool, len(pool)))
        rows += [[op(i) for i in o] for o in orders]
    for k in range(6 if tier == "quick" else 60):
        rnd = random.Random(100 + k)
        rows.append([rnd.choice(list(kinds.values()))(rnd.choice(twins)) for _ in range(120)])
    cards_ = [["card", 0, ["new", "skops", 0, "auto", False, False]], ["card", 1, ["new", "skops", 1, "auto", False, False]], ["card", 2, ["new", "dict", 1, False, True, False]]]
    for s in range(2):
        for what in ("add", "content", "folded", "visible", "delete"):
            ops = list(cards_)
            paths = SKOPS_PATHS if s == 0 else SKOPS_PATHS[::-1]
            for p in paths + ["A", "A/B", "C"]:
                slot = 2 if p[0] in "A" and len(p) < 4 or p == "C" else s
                ops.append(["card", slot, {"add": ["add", p + "/Added", "text", True], "content": ["set", p, "content", "changed"], "delete": ["delete", p]}.get(what) or ["set", p, what, what == "folded"]])
                ops.append(["card", 1 - s, ["set", "Citation", "folded", False]])
            ops += [["card", 0, ["new", "skops", 0, False, False, False]], ["card", 2, ["new", "dict", 0, False, False, False]], ["card", 1, ["hyper"]]]
            rows.append(ops)
    for fmt in ("pickle", "skops", "auto"):
        for order in ([0, 3, 1, 2, 0], [2, 1, 3, 0, 3]):
            rows.append([["card", 0, o] for m in order for o in (["new", "dict", m, "auto", False, fmt], ["hyper"], ["diagram"])])
            rows.append([["card", 0, o] for m in order for o in (["new", "skops", m, "auto", False, fmt], ["hyper"])])
    return rows


SKOPS_PATHS = ["Model description", "Model description/Intended uses & limitations", "Model description/Training Procedure", "Model description/Training Procedure/Hyperparameters",
               "Model description/Training Procedure/Model Plot", "Model description/Evaluation Results", "How to Get Started with the Model", "Model Card Authors", "Model Card Contact", "Citation"]


# ---------------------------------------------------------------------------

def op_strategy():
    from hypothesis import strategies as st

    nobj = hist.NOBJ + hist.REFUSED
    na = hist.NOBJ + 64
    i, a = st.integers(0, nobj - 1), st.integers(0, na - 1)
    few = st.integers(0, 5)
    twin = st.integers(hist.FIRST_TWIN, hist.NOBJ - 1)
    i, a = st.one_of(i, i, few, twin, twin), st.one_of(a, a, few, twin)
    b = st.booleans()
    show = st.sampled_from(["all", "untrusted", "trusted"])
    io_ops = st.one_of(
        st.builds(lambda k, i, l, c: [k, i, l, c], st.sampled_from(["dumps", "dumps", "dump", "dumpfile"]), i, b, st.sampled_from([None, None, 8])),
        st.builds(lambda a, f: ["untrusted", a, f], a, b),
        st.builds(lambda a, h, f: ["loads", a, h, f], a, st.sampled_from(["all", "all", "none", "less"]), b),
        st.builds(lambda a, s: ["vis", a, s], a, show),
        st.builds(lambda s, a, v, t: ["slot", s, a, v, t], st.integers(0, 1), a, b, st.sampled_from([0, 0, 0, 1])),
        st.builds(lambda s, a, v, t: ["slot", s, a, v, t], st.integers(0, 1), a, b, st.sampled_from([0, 0, 0, 1])),
        st.builds(lambda i, v: ["mut", i, v], st.integers(0, len(hist.MUTABLE) - 1), st.integers(0, 3)),
    )
    inner = st.one_of(io_ops, io_ops, io_ops, st.builds(lambda i, p: ["md", i, p], st.integers(0, 3), b))
    nest = st.builds(lambda k, i, ops: ["nest", k, i, ops], st.sampled_from(["dumps", "loads", "vis"]), i, st.lists(inner, min_size=1, max_size=3))
    io_ops = st.one_of(io_ops, io_ops, io_ops, io_ops, nest)
    path = st.sampled_from(["A", "A/B", "C", "D/E/F", "Model description", "Model description/Training Procedure", "A\\/x", "nope", "Citation/Data", "Model description/Intended uses & limitations/More", "Evaluation Results/Of/X", "How to Get Started with the Model", "A/B/C"])
    text = st.sampled_from(["text", "", "more\ntext", "é"])
    slot = st.integers(0, 2)
    c = st.one_of(
        st.builds(lambda p, t, f: ["add", p, t, f], path, text, b), st.builds(lambda p, t, f: ["add", p, t, f], path, text, b),
        st.builds(lambda p: ["plot", p, "p.png"], path), st.builds(lambda p, t: ["table", p, t], path, st.integers(0, 2)),
        st.builds(lambda p, m: ["metrics", p, m], st.sampled_from([None, "Eval", "A/M"]), st.lists(st.sampled_from([["acc", 1], ["f1", 0.5], ["acc", 2], ["r2", "x"]]), max_size=2)),
        st.builds(lambda p, m: ["metrics", p, m], st.sampled_from([None, "Eval", "A/M"]), st.lists(st.sampled_from([["acc", 1], ["f1", 0.5], ["acc", 2], ["r2", "x"]]), max_size=2)),
        st.builds(lambda v: ["params", v], st.integers(1, 3)),
        st.just(["hyper"]), st.just(["diagram"]), st.builds(lambda v: ["perm", v, "png"], st.integers(0, 3)), st.just(["save"]),
        st.builds(lambda p: ["delete", p], path), st.builds(lambda p: ["sub", p], path),
        st.builds(lambda p, k, v: ["set", p, k, v], path, st.sampled_from(["visible", "folded"]), b), st.builds(lambda p, v: ["set", p, "content", v], path, text),
    )
    new = st.builds(lambda t, m, d, l, f: ["new", t, m, d, l, f], st.sampled_from(sorted(hist.TEMPLATES)), st.integers(0, 3), st.sampled_from(["auto", False, True, "A/Diagram"]), b, st.sampled_from([False, False, False, "pickle", "skops", "auto"]))
    card_ops = st.builds(lambda s, o: ["card", s, o], slot, st.one_of(c, c, c, c, new))
    md = st.builds(lambda i, p: ["md", i, p], st.integers(0, 3), b)
    return io_ops, card_ops, md, new, slot


def history():
    from hypothesis import strategies as st

    io_ops, card_ops, md, new, slot = op_strategy()
    news = st.builds(lambda n: [["card", s, o] for s, o in enumerate(n)], st.lists(new, min_size=2, max_size=3))
    show = st.builds(lambda a, s: ["show", a, s], st.integers(0, hist.NOBJ + 63), st.just("all"))
    mixed = st.builds(lambda a, b: a + b, news, st.lists(st.one_of(io_ops, card_ops, card_ops, md), min_size=3, max_size=14))
    ios = st.lists(st.one_of(io_ops, io_ops, io_ops, io_ops, show, md), min_size=3, max_size=20)
    cards_ = st.builds(lambda a, b: a + b, news, st.lists(card_ops, min_size=3, max_size=14))
    one = st.builds(lambda k, i: [k, i], st.sampled_from(["parse", "parseslot", "parseslot"]), st.integers(0, 4))
    parse = st.builds(lambda a, i, b: a + [i] + b, ios, one, st.lists(one, max_size=2))
    couple = st.builds(lambda i, d, k, l: [k(i), l(i + d if hist.FIRST_TWIN <= i + d < hist.NOBJ else i)], st.integers(hist.FIRST_TWIN, hist.NOBJ - 1), st.sampled_from([-2, -1, 1, 1, 2, 3]), *[st.sampled_from([
        lambda i: ["dumps", i, False, None], lambda i: ["dumps", i, False, None], lambda i: ["loads", i, "all", False], lambda i: ["vis", i, "all"], lambda i: ["slot", 0, i, False, 0]])] * 2)
    couples = st.lists(couple, min_size=2, max_size=10).map(lambda c: sum(c, []))
    twins = st.lists(st.builds(lambda k, i: [k, i, False, None] if k == "dumps" else [k, i, "all", False] if k == "loads" else [k, i, "all"], st.sampled_from(["dumps", "dumps", "loads", "vis"]),
                               st.integers(hist.FIRST_TWIN, hist.NOBJ - 1)), min_size=4, max_size=24)
    return st.one_of(mixed, ios, ios, couples, twins, cards_, cards_, *([parse] if os.path.exists("/usr/bin/pandoc") else []))


def thread_lists():
    from hypothesis import strategies as st

    io_ops, card_ops, md, new, slot = op_strategy()

    def thread(k):
        cs = st.builds(lambda n, ops: [["card", k, n]] + [["card", k, o[2]] for o in ops], new, st.lists(card_ops, max_size=4))
        mine = io_ops.map(lambda o: [o[0], k] + o[2:] if o[0] == "slot" else o).filter(lambda o: o[0] != "mut" and not (o[0] == "nest" and any(x[0] in ("slot", "mut") for x in o[3])))
        return st.one_of(st.lists(mine, min_size=1, max_size=5), st.lists(mine, min_size=1, max_size=5), cs, st.lists(md, min_size=1, max_size=4))

    def alike(k, kind):
        """A thread all of whose calls are of one kind: those of the others are, too."""
        new_k = new.map(lambda n: [["card", k, n]])
        text = st.sampled_from(["one", "two\nlines", "three"])
        ops = {
            "perm": st.builds(lambda v: ["perm", v, "png"], st.integers(0, 3)),
            "add": st.builds(lambda t: ["add", "S%d/T" % k, t, False], text),
            "metrics": st.builds(lambda n: ["metrics", None, [["m%d" % k, n]]], st.integers(0, 3)),
            "hyper": st.just(["hyper"]),
            "diagram": st.just(["diagram"]),
            "table": st.builds(lambda t: ["table", "T%d" % k, t], st.integers(0, 2)),
        }
        if kind in ops:
            return st.builds(lambda a, b: a + [["card", k, o] for o in b], new_k, st.lists(ops[kind], min_size=1, max_size=2 if kind == "perm" else 4))
        return st.lists({"dumps": dumps_ops, "loads": loads_ops, "vis": vis_ops, "md": md}[kind], min_size=1, max_size=5)

    dumps_ops = st.builds(lambda i, l: ["dumps", i, l, None], st.integers(0, hist.NOBJ - 1), st.booleans())
    loads_ops = st.builds(lambda a: ["loads", a, "all", False], st.integers(0, hist.NOBJ + 63))
    vis_ops = st.builds(lambda a, s: ["vis", a, s], st.integers(0, hist.NOBJ + 63), st.sampled_from(["all", "untrusted"]))
    kinds = ["perm", "add", "metrics", "hyper", "diagram", "table", "dumps", "loads", "vis", "md"]
    same = st.one_of(*[st.tuples(alike(0, k), alike(1, k), alike(2, k)) if n else st.tuples(alike(0, k), alike(1, k)) for k in kinds for n in (0, 1)])
    probs = st.sampled_from([0.3, 0.05, 0.01])
    lists = st.one_of(st.tuples(thread(0), thread(1)), st.tuples(thread(0), thread(1), thread(2)), st.tuples(*[thread(i) for i in range(4)]), same, same).map(list)

    def mode(ls, s, m, p):
        # pyplot is not safe without the scheduler, which never interrupts matplotlib
        return [ls, s, "coop" if any(o[0] == "card" and o[2][0] == "perm" for l in ls for o in l) else m, p]

    return st.builds(mode, lists, st.integers(0, 10**6), st.sampled_from(["coop", "coop", "coop", "free"]), probs)


def subs(tier):
    return [
        Sub("interpreter", evaluate_interpreter, cases=interpreter_cases, n=(0, 0), setup=setup, timeout=300),
        Sub("sweeps", evaluate, cases=sweep_cases, n=(0, 0), setup=setup, timeout=300),
        Sub("history", evaluate, strategy=history, n=(1000, 30000), setup=setup, chunk=60),
        Sub("threads", evaluate_threads, strategy=thread_lists, n=(900, 30000), setup=setup, chunk=60),
    ]
