"""C13 - visualize is total and agrees with the audit."""
from __future__ import annotations

import contextlib
import io
import json
import os
import sys

from .. import archives as A
from .. import families, sec, values
from ..core import Ctx, Skip, Sub, Violation

RULE = (
    "A case is a dump of a generated object (awkward keys and strings, every family, zoo objects) or a forged archive, with a trusted list and show mode, visualized through a "
    "recording sink and through the default sink with and without rich. Non-trivial: visualize completed with at least two rows or an untrusted name"
)

NO_RICH = ["rich", "rich.console", "rich.markup", "rich.text", "rich.tree"]


@contextlib.contextmanager
def without_rich():
    old = {k: v for k, v in sys.modules.items() if k == "rich" or k.startswith("rich.")}
    for k in list(old) + NO_RICH:
        sys.modules[k] = None
    try:
        yield
    finally:
        for k in NO_RICH:
            sys.modules.pop(k, None)
        sys.modules.update(old)


@contextlib.contextmanager
def stdout():
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = old


def rows_of(data, T, show):
    import skops.io as sio

    rows = []

    def sink(nodes, show_, **kw):
        if show_ != show or kw != {"extra": 1}:
            raise Violation(f"the sink got show={show_!r}, kwargs={kw!r}")
        rows.extend(nodes)

    sio.visualize(data, show=show, trusted=T, sink=sink, extra=1)
    return rows


def check_rows(rows, schema, U, T, what):
    if not rows:
        raise Violation(f"{what}: no rows")
    if rows[0].level != 0:
        raise Violation(f"{what}: the root has level {rows[0].level}")
    names = A.names_of(schema)
    prev = 0
    for i, r in enumerate(rows):
        if i and not 1 <= r.level <= prev + 1:
            raise Violation(f"{what}: row {i} ({r.key}: {r.val}) has level {r.level} after level {prev}")
        prev = r.level
        if type(r.key) is not str or type(r.val) is not str:
            raise Violation(f"{what}: key/val of row {i} are no strings: {r!r}")
        if r.is_safe and not r.is_self_safe:
            raise Violation(f"{what}: row {i} ({r.key}: {r.val}) is fully safe but not itself safe")
        if r.val in names and r.val not in T:
            ok, o = families.lookup(r.val)
            if not (ok and families.is_family(o)) and r.is_self_safe:
                raise Violation(f"{what}: row {i} displays the untrusted name {r.val} and is marked safe", rows=rows)
    stack = []
    for r in rows:
        stack = stack[: r.level] + [r]
        if not r.is_self_safe:
            for anc in stack[:-1]:
                if anc.is_safe:
                    raise Violation(f"{what}: {anc.key}: {anc.val} is marked fully safe although {r.key}: {r.val} below is unsafe", rows=rows)
    missing = sorted(set(U) - set(T))
    if rows[0].is_safe != (not missing):
        raise Violation(f"{what}: root is_safe={rows[0].is_safe}, untrusted names are {missing}", rows=rows)
    if missing and all(r.is_self_safe for r in rows):
        raise Violation(f"{what}: {missing} untrusted, but no row is marked unsafe", rows=rows)


def simple(text):
    return text.isascii() and text.isprintable() and "\\" not in text


def visible(rows, show):
    out = []
    for i, r in enumerate(rows):
        if i == 0 or show == "all" or (show == "untrusted" and not r.is_safe) or (show == "trusted" and r.is_self_safe):
            out.append(r)
    return out


def check_text(text, rows, show, what):
    vis = visible(rows, show)
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    if len(lines) != len(vis):
        raise Violation(f"{what}: {len(vis)} rows are to be shown, {len(lines)} lines were printed", text=text, rows=vis)
    for line, r in zip(lines, vis):
        unsafe = line.rstrip().endswith("[UNSAFE]")
        if unsafe != (not r.is_self_safe) and not r.val.rstrip().endswith("[UNSAFE]"):
            raise Violation(f"{what}: line {line!r} for {r.key}: {r.val} (safe: {r.is_self_safe})", text=text)
        want = f"{r.key}: {r.val}" + ("" if r.is_self_safe else " [UNSAFE]")
        if simple(want):
            if not line.rstrip().endswith(want.rstrip()):
                raise Violation(f"{what}: line {line!r} should show {want!r}", text=text)
            pre = line.rstrip()[: len(line.rstrip()) - len(want.rstrip())]
            if pre.strip("├─└│ \u2500\u2502") != "":
                raise Violation(f"{what}: line {line!r} has the prefix {pre!r}", text=text)


def run_case(data, schema, t, show, ctx, total):
    import skops.io as sio

    try:
        U = sio.get_untrusted_types(data=data)
    except Exception as e:
        if total:
            raise Violation(f"get_untrusted_types raises {e!r} for a dump")
        # without a verdict nothing can be compared
        ctx.label("audit-raises")
        ctx.trivial()
        return
    if t == "audit":
        Targ = list(U)
    elif t == "none":
        Targ = None
    elif t == "other":
        Targ = ["foo.Bar", "builtins.dict"]
    else:
        Targ = [n for i, n in enumerate(U) if (t >> (i % 8)) & 1]
    T = set(Targ or ())
    try:
        rows = rows_of(data, Targ, show)
    except Violation:
        raise
    except Exception as e:
        if total:
            raise Violation(f"visualize (custom sink, show={show}, trusted={t}) raises {e!r} for a dump")
        ctx.label("vis-raises")
        ctx.trivial()
        return
    ctx.label(f"rows{min(len(rows), 20)//5}", "unsafe" if set(U) - T else "safe", show)
    ctx.trivial(len(rows) < 2 and not U)
    check_rows(rows, schema, U, T, "rows")
    # rich wraps longer lines
    os.environ["COLUMNS"] = str(max(20000, 200 + max(len(r.key) + 6 * len(r.val) + 4 * r.level for r in rows)))
    for rich in (True, False):
        for kw in ({}, {"use_colors": False}):
            what = ("rich" if rich else "plain") + f" {kw} show={show}"
            try:
                with stdout() as out, (contextlib.nullcontext() if rich else without_rich()):
                    sio.visualize(data, show=show, trusted=Targ, **kw)
            except Exception as e:
                if total or isinstance(e, (UnicodeError, ValueError)):
                    raise Violation(f"visualize ({what}, trusted={t}) raises {e!r}")
                continue
            check_text(out.getvalue(), rows, show, what)


def evaluate_dump(spec, ctx: Ctx):
    import skops.io as sio

    obj, t, show, norm = spec
    try:
        x = values.build(obj)
        data = sio.dumps(x)
    except Exception:
        raise Skip()
    schema, mem = A.read(data)
    run_case(data, schema, t, show, ctx, True)


def evaluate_forged(spec, ctx: Ctx):
    a, t, show = spec
    schema, mem, data = A.realise(a)
    if a[0] == "mut" and not a[2]:
        run_case(data, schema, t, show, ctx, a[1] in ("never",) or a[3] in (1, 2))
    else:
        run_case(data, schema, t, show, ctx, False)


T_ = ["none", "none", "audit", "other", 1, 2, 5, 0xfe, 0xfd, 0xfb, 0x7f]
SHOW = ["all", "trusted", "untrusted"]


def dump_strategy():
    from hypothesis import strategies as st

    return st.tuples(values.anything(), st.sampled_from(T_), st.sampled_from(SHOW), st.just(0)).map(list)


def forged_strategy(p_bad):
    def s():
        from hypothesis import strategies as st

        return st.tuples(A.archive_strategy(p_bad, True), st.sampled_from(T_), st.sampled_from(SHOW)).map(list)

    return s


def corpus_cases(tier):
    return [[["mut", n, [], p], t, s] for n in A.corpus_names() for p in (2, 1) for t in T_[1:] for s in SHOW]


def eval_nested(spec, ctx: Ctx):
    """A row is fully safe exactly when an archive of just that node has nothing untrusted."""
    import skops.io as sio

    items, t, wrap = spec
    items = json.loads(json.dumps(items))
    for it in items:
        for _, nd in A.nodes(it):
            nd.pop("__id__", None)
    audits = []
    for it in items:
        sc = A.schema_with_header(it, A.PROTO)
        try:
            audits.append(sio.get_untrusted_types(data=A.zip_bytes(sc, A.members_for(sc))))
        except Exception:
            raise Skip()
    U = sorted(set().union(*audits))
    T = U if t == "audit" else [] if t in ("none", "other") else [n for i, n in enumerate(U) if (t >> (i % 8)) & 1]
    if wrap == "dict":
        from . import c11

        root = c11.dct({f"k{i}": it for i, it in enumerate(items)})
    elif wrap == "obj":
        from . import c11

        root = {"__class__": "LogisticRegression", "__module__": "sklearn.linear_model._logistic", "__loader__": "ObjectNode",
                "content": {"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "content": items}}
    elif wrap == "objarr":
        from . import c11

        root = {"__class__": "ndarray", "__module__": "numpy", "__loader__": "NdArrayNode", "type": "json", "content": items, "shape": c11.lst([c11.js(str(len(items)))], "TupleNode", "tuple")}
    else:
        root = {"__class__": wrap, "__module__": "builtins", "__loader__": {"list": "ListNode", "tuple": "TupleNode", "set": "SetNode"}[wrap], "content": items}
    sc = A.schema_with_header(root, A.PROTO)
    data = A.zip_bytes(sc, A.members_for(sc))
    try:
        rows = rows_of(data, list(T), "all")
    except Violation:
        raise
    except Exception:
        raise Skip()
    check_rows(rows, sc, U, set(T), wrap)
    ctx.trivial(not U)
    lev = {"obj": 2}.get(wrap, 1)
    top = [r for r in rows if r.level == lev]
    if wrap == "objarr":
        if not set(U) - set(T):
            return
        top = top[: len(items)]
    if len(top) < len(items):
        raise Violation(f"{wrap} with {len(items)} items has {len(top)} rows at its level", rows=rows)
    for r, u, it in zip(top, audits, items):
        if r.is_safe != (not set(u) - set(T)):
            raise Violation(f"row {r.key}: {r.val} is_safe={r.is_safe}; the audit of that part gives {u} with trusted {T}", rows=rows)


def nested_strategy():
    from hypothesis import strategies as st

    g = A.Grammar(30)
    return st.tuples(st.lists(g.node(2), min_size=1, max_size=3), st.sampled_from(T_), st.sampled_from(["list", "tuple", "set", "dict", "obj", "objarr"])).map(list)


def evaluate_big(spec, ctx: Ctx):
    a, t, show = spec
    schema, mem, data = A.realise(a)
    run_case(data, schema, t, show, ctx, a[4] is None and "name" not in a[1])


def big_cases(tier):
    return [[a, ["none", "audit", 5][i % 3], SHOW[i % 2 * 2]] for i, a in enumerate(A.big_cases(tier, (None, ["pbtcan_a", "Evil"]))) if a[1] not in ("bytes", "array", "sparse", "text", "bytearray") or a[2] < 2**17]


def subs(tier):
    return [
        Sub("big", evaluate_big, cases=big_cases, n=(0, 0), setup=sec.setup, timeout=120),
        Sub("dumps", evaluate_dump, strategy=dump_strategy, n=(2400, 60000), setup=sec.setup, timeout=60),
        Sub("forged", evaluate_forged, strategy=forged_strategy(25), n=(2400, 60000), setup=sec.setup, timeout=60),
        Sub("forged_bad", evaluate_forged, strategy=forged_strategy(65), n=(1200, 40000), setup=sec.setup, timeout=60),
        Sub("nested", eval_nested, strategy=nested_strategy, n=(4000, 100000), setup=sec.setup, timeout=60),
        Sub("corpus", evaluate_forged, cases=corpus_cases, n=(0, 0), setup=sec.setup, timeout=60),
    ]
