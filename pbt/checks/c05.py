"""C05 - supported data round-trips exactly, and stably."""
from __future__ import annotations

import copy

from skops.io import dumps, get_untrusted_types, loads

from ..cmp import diff
from ..core import Ctx, Sub, Violation
from .. import objs

RULE = (
    "A case is a generated value of the supported families (scalars, containers, bytes, slices, arrays of every "
    "non-object dtype/shape/byte order/layout, scalars, dtypes, masked arrays, object arrays, RNGs, sparse, "
    "ufuncs/types/partials/getters), dumped, audited, loaded, compared strictly, then dumped and loaded again; "
    "non-trivial: the value is not a bare JSON scalar"
)


def trip(x):
    try:
        data = dumps(x)
    except Exception as e:
        raise Violation(f"dumps raised {type(e).__name__}: {e}", value=x)
    try:
        t = get_untrusted_types(data=data)
        return loads(data, trusted=t)
    except Exception as e:
        raise Violation(f"loads raised {type(e).__name__}: {e}", value=x)


def draws(x, out, depth=0):
    import numpy as np

    if depth > 8:
        return
    if isinstance(x, np.random.Generator):
        out.append(x.integers(0, 2**31, 3).tolist() + x.random(3).tolist() + x.standard_normal(2).tolist())
        out.append(x.spawn(1)[0].random(2).tolist())
    elif isinstance(x, np.random.RandomState):
        out.append(x.randint(0, 2**31 - 1, 3).tolist() + x.rand(3).tolist() + x.randn(3).tolist())
    elif isinstance(x, (list, tuple)):
        for y in x:
            draws(y, out, depth + 1)
    elif isinstance(x, dict):
        for y in x.values():
            draws(y, out, depth + 1)


def evaluate(spec, ctx: Ctx):
    x = objs.build(spec)
    ref = objs.build(spec)
    ks = objs.kinds(spec)
    ctx.label(*ks)
    ctx.trivial(ks <= {"none", "bool", "int", "float", "str"} and spec[0] in ks and len(ks) == 1)
    d = diff(x, ref)
    if d:
        raise AssertionError(f"generator is not deterministic: {d}")
    y = trip(x)
    d = diff(x, y)
    if d:
        raise Violation("loaded value differs: " + d, original=x, loaded=y)
    d = diff(x, ref)
    if d:
        raise Violation("dumping modified the value: " + d)
    z = trip(y)
    d = diff(y, z)
    if d:
        raise Violation("second round trip differs: " + d, original=x, loaded=z)
    if ks & {"rng", "rngseq"}:
        a, b, c = [], [], []
        draws(x, a)
        draws(y, b)
        draws(z, c)
        if a != b or b != c:
            raise Violation("random stream differs after load", original=a[:2], loaded=b[:2], again=c[:2])


def large_cases(tier):
    out = [["big", k, n] for k, n in objs.BIG_SUPPORTED]
    out += [["list", [["big", k, n], ["big", k, n]]] for k, n in objs.BIG_SUPPORTED if n < 400]
    out += [["dict", [[["str", "a"], ["big", k, n]], [["int", "1"], ["tuple", [["big", k, n]]]]]] for k, n in objs.BIG_SUPPORTED if n < 2000]
    return out


def subs(tier):
    s = objs.S

    def one(strategy):
        return lambda: strategy(s())

    return [
        Sub("large", evaluate, cases=large_cases, n=(0, 0)),
        Sub("values", evaluate, strategy=one(lambda s: s.value), n=(2400, 60000)),
        Sub("arrays", evaluate, strategy=one(lambda s: s.st.one_of(s.arr, s.arr, s.masked, s.objarr, s.npscalar, s.dtype_obj)), n=(2400, 40000)),
        Sub("sparse_rng", evaluate, strategy=one(lambda s: s.st.one_of(s.sparse, s.sparse, s.rng)), n=(1200, 20000)),
        Sub("dicts", evaluate, strategy=one(lambda s: s.containers(s.json_scalar)), n=(1600, 30000)),
    ]
