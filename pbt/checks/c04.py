"""C04 - persistence is faithful or it refuses."""
from __future__ import annotations

import numpy as np
from skops.io import dumps, get_untrusted_types, loads

from .. import objs, zoo
from ..cmp import diff
from ..core import Ctx, Sub, Violation

RULE = (
    "A case is a Python object graph drawn from all shapes of the pickle protocol (state, slots, reduce with args / state / "
    "items / functions, newargs), subclasses of builtins with and without attributes, stdlib, numpy, scipy, pandas and "
    "sklearn objects, odd dict keys, nested in supported containers. Non-trivial: dump and load both succeeded, so the "
    "strict comparison decided the case"
)


class B(objs.Builder):
    def k_zoo(self, name, vals):
        return zoo.make(name, [self(v) for v in vals])


def evaluate(spec, ctx: Ctx):
    np.random.seed(0)
    x = B()(spec)
    names = [s[1] for s in objs.walk(spec) if s[0] == "zoo"]
    refused = None
    try:
        data = dumps(x)
    except Exception as e:
        refused = type(e).__name__
        ctx.label("dump-refused")
        ctx.trivial()
    if refused is None:
        try:
            y = loads(data, trusted=get_untrusted_types(data=data))
        except Exception:
            ctx.label("load-refused")
            ctx.trivial()
        else:
            ctx.label("loaded", *[f"loaded:{n}" for n in names])
            d = diff(x, y, layout=False)
            if d:
                raise Violation("quietly different after load: " + d, original=x, loaded=y)
    np.random.seed(0)
    ref = B()(spec)
    d = diff(x, ref, layout=False)
    if d:
        np.random.seed(0)
        r1 = B()(spec)
        np.random.seed(0)
        if diff(r1, B()(spec), layout=False) is None:
            how = f"failed dump ({refused})" if refused else "dumping"
            raise Violation(f"{how} modified the object: {d}", obj=ref)


def zoo_spec(s):
    st = s.st
    leaf = st.one_of(s.json_scalar, s.small_value)
    z0 = st.builds(lambda n, v: ["zoo", n, v], st.sampled_from(sorted(zoo.MAKERS)),
                   st.lists(leaf, min_size=3, max_size=3))
    return z0


def strategy():
    s = objs.S()
    st = s.st
    z0 = zoo_spec(s)
    z1 = st.builds(lambda n, v: ["zoo", n, v], st.sampled_from(sorted(zoo.MAKERS)),
                   st.lists(st.one_of(z0, s.json_scalar), min_size=3, max_size=3))
    sur = st.lists(st.sampled_from([0xd83d, 0xde00, 0xd800, 0xdfff, 97, 0x1f600]), min_size=1, max_size=4).map(lambda c: ["ustr", c])
    odd = st.one_of(sur, st.builds(lambda a, b: ["slice", a, b, ["none"]], sur, s.float_), st.builds(lambda k, v: ["dict", [[k, v], [["int", "1"], k]]], sur, s.json_scalar))
    zv = st.builds(lambda n, v: ["zoo", n, v], st.sampled_from(sorted(zoo.MAKERS)), st.lists(st.one_of(s.leaf, s.json_scalar), min_size=3, max_size=3))
    cells = st.builds(lambda sh, c, l: ["objarr", sh, c, l], st.lists(st.integers(1, 3), min_size=1, max_size=2), st.lists(st.one_of(z0, s.leaf), min_size=1, max_size=3), st.sampled_from(["C", "F", "T"]))
    inner = st.one_of(z0, z0, z0, z1, z1, z1, zv, zv, odd, cells, s.value, s.sparse)
    return st.one_of(
        inner, inner, s.containers(st.one_of(inner, s.json_scalar)),
        st.builds(lambda x, y: ["list", [["def", 0, x], ["ref", 0], y]], inner, inner))


def cases(tier):
    out = []
    for n in sorted(zoo.MAKERS):
        for vals in ([["int", "1"], ["str", "x"], ["none"]],
                     [["list", [["int", "1"]]], ["int", "2"], ["dict", [[["str", "k"], ["int", "3"]]]]],
                     [["none"], ["none"], ["none"]],
                     [["str", "ab"], ["str", "cd"], ["int", "0"]]):
            out.append(["zoo", n, vals])
    return out


def value_strategy():
    """Values of the supported families, alone and next to objects: whatever they are, they come back equal and are left alone."""
    s = objs.S()
    st = s.st
    v = st.one_of(s.leaf, s.value)
    return st.one_of(v, v, s.containers(v), st.builds(lambda x, y: ["list", [["def", 0, x], y, ["ref", 0]]], v, zoo_spec(s)),
                     st.builds(lambda x, n: ["zoo", n, [x, ["int", "1"], x]], v, st.sampled_from(sorted(zoo.MAKERS))))


def large_cases(tier):
    out = []
    for k, n in objs.BIG_SUPPORTED + objs.BIG_OBJECTS:
        b = ["big", k, n]
        out += [b, ["zoo", "Plain", [b, ["int", "1"], b]]] if n < 2000 else [b]
    return out


def subs(tier):
    return [
        Sub("large", evaluate, cases=large_cases, n=(0, 0)),
        Sub("catalogue", evaluate, cases=cases, n=(0, 0)),
        Sub("graphs", evaluate, strategy=strategy, n=(30000, 500000)),
        Sub("values", evaluate, strategy=value_strategy, n=(25000, 400000)),
    ]
