"""C07 - a reloaded scikit-learn estimator is the same model."""
from __future__ import annotations

import copy
import warnings

import numpy as np

from skops.io import dumps, get_untrusted_types, loads
from skops.io.exceptions import UnsupportedTypeException

from .. import ests
from ..cmp import diff
from ..core import Ctx, Sub, Violation

RULE = (
    "A case is an estimator (every class of all_estimators() and generated compositions of them) with hyper-parameters drawn from its own parameter constraints, "
    "left unfitted or fitted on generated data (dense C/F/strided/f4/int, csr/csc, DataFrame, lists, NaN, text, dicts, categories; binary/multi-class/string/bool/multi-output targets). "
    "It is dumped and loaded (default trust only where it claims to be made of default-trusted parts), compared structurally, by get_params and bitwise by the output of every "
    "prediction/transformation method on held-out, training, single-row, f4 and sparse inputs. Non-trivial: the estimator is fitted, or has at least one non-default parameter"
)
BUDGET = (300, 3000)


def setup():
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


def _family():
    import scipy.special
    from sklearn.tree._tree import Tree
    from sklearn.linear_model import _sgd_fast

    out = {f"{c.__module__}.{c.__name__}" for n, c in ests.EST.items() if c.__module__.startswith("sklearn.")}
    out |= {"builtins." + n for n in ("int", "float", "str", "bool", "list", "set", "tuple", "dict", "NoneType", "bytes", "bytearray", "slice")}
    for mod in (np, scipy.special):
        out |= {f"{m}.{n}" for n, f in vars(mod).items() if isinstance(f, np.ufunc) for m in (mod.__name__, "scipy.special._ufuncs", "numpy", "numpy.core._multiarray_umath")}
    out |= {f"{t.__module__}.{t.__name__}" for t in np.sctypeDict.values() if t.__module__ == "numpy"}
    out |= {"numpy.ndarray", "numpy.ma.MaskedArray", "numpy.random.mtrand.RandomState", "numpy.random._generator.Generator", "numpy.random.Generator", "numpy.random.RandomState"}
    out |= {"sklearn.tree._tree.Tree"}
    out |= {f"{t.__module__}.{n}" for n, t in vars(_sgd_fast).items() if isinstance(t, type)}
    return out


FAMILY = _family()


def build(spec):
    b = ests.Build()
    node = spec["node"]
    root = ests.ROOTS if not spec.get("meta") else ests.META
    est = b.node(node, root)
    return b, est


def trip(est, spec, what):
    try:
        data = dumps(est)
    except Exception as e:
        if refusable(est, e):
            return None, None
        raise Violation(f"dumps of {what} raised {type(e).__name__}: {e}", est=est)
    T = get_untrusted_types(data=data)
    bad = sorted(set(T) & FAMILY)
    if bad:
        raise Violation(f"default-trusted types are reported as untrusted for {what}: {bad}", est=est)
    try:
        return loads(data, trusted=T or None), T
    except Exception as e:
        raise Violation(f"loads of {what} raised {type(e).__name__}: {e}", est=est, trusted=T)


def refusable(est, e):
    """Refusals which are documented: the estimator holds an unsupported type."""
    return isinstance(e, UnsupportedTypeException) and "Birch" in str(e)


def compare(x, y, what):
    d = diff(x, y)
    if d:
        raise Violation(f"{what}: loaded estimator differs: {d}", original=x, loaded=y)
    p, q = params(x), params(y)
    if p is not None:
        d = diff(p, q)
        if d:
            raise Violation(f"{what}: get_params differs: {d}", original=p, loaded=q)


def params(x):
    try:
        return x.get_params(deep=True)
    except Exception:
        return None


def same_outputs(a, b):
    for k in a:
        if k not in b:
            return f"{k[0]}({k[1]}) is missing"
        (h1, v1), (h2, v2) = a[k], b[k]
        if h1 != h2:
            return f"{k[0]}({k[1]}): {h1} became {h2} ({v1!r:.100} -> {v2!r:.100})"
        d = diff(v1, v2, layout=False)
        if d:
            return f"{k[0]}({k[1]}): {d}"
    for k in b:
        if k not in a:
            return f"{k[0]}({k[1]}) is new"
    return None


def evaluate(spec, ctx: Ctx):
    b, est = build(spec)
    what = "/".join(b.names[:4])
    ctx.label(b.names[0])
    ctx.trivial(not b.set and not spec["fit"])
    if len(b.names) > 1:
        ctx.label("composed")
    # unfitted
    new, _ = trip(est, spec, "unfitted " + what)
    if new is None:
        ctx.label("refused")
        return
    compare(est, new, "unfitted " + what)
    if not spec["fit"]:
        return
    d = spec["data"]
    X, y, Xt = ests.make_data(est, b, d)
    try:
        ests.fit(est, X, y, d["how"])
    except Exception as e:
        # these parameters do not go with these data: the plainest data
        b, est = build(spec)
        d = {"seed": d["seed"], "x": "pos", "y": "multi", "how": 0}
        X, y, Xt = ests.make_data(est, b, d)
        try:
            ests.fit(est, X, y)
        except Exception as e2:
            ctx.label("not-fitted", "not-fitted:" + b.names[0], "why:" + b.names[0] + ":" + str(e2)[:90])
            ctx.trivial(not b.set)
            return
    ctx.label("fitted")
    new, T = trip(est, spec, "fitted " + what)
    if new is None:
        ctx.label("refused")
        return
    compare(est, new, "fitted " + what)
    if not T:
        ctx.label("default-trusted")
    twin = copy.deepcopy(est)
    again = copy.deepcopy(est)
    got = ests.outputs(new, X, y, Xt)
    o1 = ests.outputs(twin, X, y, Xt)
    r = same_outputs(o1, got)
    if r:
        # leave out what the original itself does not repeat
        o2 = ests.outputs(again, X, y, Xt)
        flaky = [k for k in o1 if k not in o2 or same_outputs({k: o1[k]}, {k: o2[k]})]
        if flaky:
            ctx.label("not self-consistent", *["flaky:" + b.names[0] + "." + k[0] for k in flaky])
        r = same_outputs({k: v for k, v in o1.items() if k not in flaky}, {k: v for k, v in got.items() if k not in flaky})
        if r:
            raise Violation(f"{what}: outputs differ: {r}", original=est, params=b.set)
    ok = sum(v[0] == "ok" for v in o1.values())
    ctx.label("outputs:%s" % ("none" if not ok else "1-4" if ok < 5 else "5+"))
    # predicting must not have changed the parameters of the reloaded one
    z, _ = trip(new, spec, "reloaded " + what)
    if z is not None:
        compare(new, z, "reloaded " + what)


def data_strategy():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"seed": st.integers(0, 50), "x": st.sampled_from(ests.XFORMS), "y": st.sampled_from(ests.YFORMS), "how": st.sampled_from([0, 0, 0, 1, 2])})


def nodes():
    from hypothesis import strategies as st

    ps = st.lists(st.tuples(st.integers(0, 59), st.integers(0, 23)).map(list), max_size=6)
    leaf = st.builds(lambda i, p: [i, p, []], st.integers(0, 2099), ps)
    return st.recursive(leaf, lambda c: st.builds(lambda i, p, k: [i, p, k], st.integers(0, 2099), ps, st.lists(c, min_size=1, max_size=3)), max_leaves=5), leaf, ps


def single():
    from hypothesis import strategies as st

    _, leaf, ps = nodes()
    i = st.integers(0, len(ests.ROOTS) - 1)
    return st.builds(lambda i, p, k, f, d: {"node": [i, p, k], "fit": f, "data": d}, i, ps, st.lists(leaf, max_size=2), st.sampled_from([True, True, True, True, False]), data_strategy())


def composed():
    from hypothesis import strategies as st

    tree, leaf, ps = nodes()
    return st.builds(lambda i, p, k, f, d: {"node": [i, p, k], "meta": 1, "fit": f, "data": d}, st.integers(0, len(ests.META) - 1), st.lists(st.tuples(st.integers(0, 59), st.integers(0, 23)).map(list), max_size=3),
                     st.lists(tree, min_size=1, max_size=3), st.sampled_from([True, True, True, True, True, False]), data_strategy())


def every(tier):
    """Every class: default parameters, then every candidate of every parameter."""
    out = []
    for i, n in enumerate(ests.ROOTS):
        for x, y in (("f8", "multi"), ("csr", "str"), ("df", "binary"), ("nan", "bool"), ("int", "obj")):
            out.append({"node": [i, [], []], "fit": True, "data": {"seed": 1, "x": x, "y": y, "how": 0}})
        out.append({"node": [i, [], []], "fit": True, "data": {"seed": 2, "x": "f8", "y": "multi", "how": 1}})
        out.append({"node": [i, [], []], "fit": True, "data": {"seed": 2, "x": "F", "y": "neg", "how": 2}})
        out.append({"node": [i, [], []], "fit": False, "data": {}})
    return out


def every_param(tier):
    out = []
    for i, n in enumerate(ests.ROOTS):
        if n not in ests.EST:
            continue
        for pi, p in enumerate(ests.tunable(n)):
            c = ests.candidates(n, p)
            for ci in range(len(c)):
                if tier == "quick" and p in ("n_jobs", "verbose", "tol", "random_state", "cv", "scoring") and (ci + i) % 4:
                    continue
                out.append({"node": [i, [[pi, ci]], []], "fit": True, "data": {"seed": 1, "x": ("f8", "pos")[(pi + ci) % 2], "y": ("multi", "binary", "str", "float")[(i + pi + ci) % 4], "how": 0}})
    return out


def subs(tier):
    return [
        Sub("classes", evaluate, cases=every, n=(0, 0), setup=setup),
        Sub("parameters", evaluate, cases=every_param, n=(0, 0), setup=setup),
        Sub("single", evaluate, strategy=single, n=(2500, 60000), setup=setup, chunk=100),
        Sub("composed", evaluate, strategy=composed, n=(1200, 30000), setup=setup, chunk=100),
    ]
