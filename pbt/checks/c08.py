"""C08 - archives of every supported protocol keep loading with the right loader."""
from __future__ import annotations

import base64
import collections
import json
import lzma
import os

from .. import archives as A
from .. import corpus, objs, values, zoo
from ..cmp import diff
from ..core import VERIF, Ctx, Skip, Sub, Violation

RULE = (
    "A case is an object (supported families, zoo, corpus estimators) whose archive is rewritten into the layout of an older protocol at every position, or only its protocol number "
    "is changed, or one node gets an unregistered loader; or an archive written by the original release (golden). Non-trivial: dump succeeded and the archive has several nodes"
)


def proto():
    from skops.io._protocol import PROTOCOL

    return PROTOCOL


def registry():
    from skops.io._audit import NODE_TYPE_MAPPING

    return NODE_TYPE_MAPPING


# ---------------------------------------------------------------------------
# old layouts, written from the documented history of the format

HAS_V0_GENERATOR = "v0 generator"


def downgrade(schema, p):
    """The state an older version would have written for the same object."""
    schema = json.loads(json.dumps(schema))
    changed = 0
    for _, nd in A.nodes(schema):
        if nd["__loader__"] == "RandomGeneratorNode" and p < 2:
            nd["content"] = {"bit_generator": nd["content"]["bit_generator"]}
            changed += 1
            if p == 0:
                raise Skip()  # known finding
        if nd["__loader__"] == "FunctionNode" and p == 0:
            nd["content"] = {"module_path": nd["__module__"], "function": nd["__class__"]}
            nd["__class__"] = "ufunc" if nd["__module__"].startswith(("numpy", "scipy")) else "function"
            changed += 1
        if nd["__loader__"] == "TypeNode" and p == 0 and (nd["__module__"], nd["__class__"]) in (("builtins", "len"), ("builtins", "sorted"), ("builtins", "abs"), ("math", "sqrt")):
            nd["content"] = {"module_path": nd["__module__"], "function": nd["__class__"]}
            nd["__class__"] = "builtin_function_or_method"
            nd["__loader__"] = "FunctionNode"
            changed += 1
    schema["protocol"] = p
    return schema, changed


def v0_generator_schema():
    import numpy as np

    state = np.random.default_rng(0).bit_generator.state
    return {"__class__": "Generator", "__module__": "numpy.random._generator", "__loader__": "RandomGeneratorNode", "content": {"bit_generator": state}, "protocol": 0, "_skops_version": "0.4"}


class B(values.B):
    def k_builtin(self, n):
        import math

        return {"len": len, "sorted": sorted, "abs": abs, "sqrt": math.sqrt}[n]

    def k_fn(self, n):
        return getattr(zoo, n)


def make(o):
    if o[0] == "corpus":
        return corpus.objects()[o[1]]
    return B()(o)


def evaluate(spec, ctx: Ctx):
    import skops.io as sio

    if spec == [HAS_V0_GENERATOR]:
        import numpy as np

        try:
            y = sio.loads(A.zip_bytes(v0_generator_schema(), {}), trusted=[])
        except Exception as e:
            raise Violation(f"protocol 0 archive of a random generator: {e!r}")
        d = diff(np.random.default_rng(0), y, layout=False, seedseq=False)
        if d:
            raise Violation(f"protocol 0 archive of a random generator loads to another object: {d}")
        return
    o, p, old = spec
    try:
        x = make(o)
        data = sio.dumps(x)
        T = sio.get_untrusted_types(data=data)
    except Exception:
        raise Skip()
    schema, mem = A.read(data)
    loaders = {nd["__loader__"] for _, nd in A.nodes(schema)}
    for ld in loaders:
        if (ld, proto()) not in registry():
            raise Violation(f"dump emits {ld}, which has no loader for protocol {proto()}")
    try:
        ref = sio.loads(data, trusted=T)
    except TypeError as e:
        if "find loader" in str(e):
            raise Violation(f"dump emits a loader which load does not know: {e}")
        raise Skip()
    except Exception:
        raise Skip()
    if diff(x, ref, layout=False) and diff(ref, sio.loads(data, trusted=T), layout=False):
        raise Skip()  # not comparable
    changed = 0
    if old:
        schema, changed = downgrade(schema, p)
    else:
        if p < proto() and {"RandomGeneratorNode", "FunctionNode"} & loaders:
            if p == 0 or "RandomGeneratorNode" in loaders:
                raise Skip()  # those kinds did change
        schema["protocol"] = p
    ctx.label(f"p{p}", f"changed{min(changed, 3)}", *loaders)
    ctx.trivial(len(A.nodes(schema)) < 2)
    arch = A.zip_bytes(schema, mem)
    try:
        T2 = sio.get_untrusted_types(data=arch)
    except Exception as e:
        raise Violation(f"get_untrusted_types raises {e!r} for the protocol {p} archive")
    if not changed and T2 != T:
        raise Violation(f"protocol {p}: untrusted types are {T2}, for the current protocol {T}")
    try:
        y = sio.loads(arch, trusted=T2)
    except Exception as e:
        raise Violation(f"loads raises {e!r} for the protocol {p} archive")
    d = diff(ref, y, layout=False, seedseq=p >= 2)
    if d:
        raise Violation(f"protocol {p} archive loads to another object: {d}", original=ref, loaded=y)


# ---------------------------------------------------------------------------
# unknown loaders

def evaluate_unknown(spec, ctx: Ctx):
    import skops.io as sio

    name, i, loader, p, cls = spec
    if A.corpus()[name] is None or any(loader == k[0] for k in registry()):
        raise Skip()
    schema, mem = json.loads(json.dumps(A.corpus()[name][0])), A.corpus()[name][1]
    if p < 2 and any(nd["__loader__"] in ("FunctionNode", "RandomGeneratorNode") for _, nd in A.nodes(schema)):
        raise Skip()
    nds = []
    seen = set()
    everything = list(A.nodes(schema))
    count = collections.Counter(nd["__id__"] for _, nd in everything)
    for path, nd in A.nodes(schema):
        if nd["__id__"] not in seen:
            seen.add(nd["__id__"])
            nds.append((path, nd))
    path, nd = nds[i % len(nds)]
    if any(t in path for t in ("constructor",)):
        raise Skip()
    for other, anc in everything:
        if len(other) < len(path) and path[:len(other)] == other and count[anc["__id__"]] > 1:
            raise Skip()  # only the copy that is loaded first counts
    for _, other in A.nodes(schema):  # whichever reference is loaded first
        if other["__id__"] == nd["__id__"]:
            other["__loader__"] = loader
            if cls:
                other["__class__"], other["__module__"] = cls
    schema["protocol"] = p
    data = A.zip_bytes(schema, mem)
    ctx.label(name, f"depth{min(len(path), 8)}")
    from . import c13

    def vis():
        with c13.stdout():
            sio.visualize(data)

    for what, fn in (("get_untrusted_types", lambda: sio.get_untrusted_types(data=data)), ("loads", lambda: sio.loads(data, trusted=["a.b"])), ("visualize", vis)):
        try:
            r = fn()
        except TypeError as e:
            if loader not in str(e):
                raise Violation(f"{what}: the TypeError for unknown loader {loader!r} (at {path}) does not name it: {e}")
        except Exception as e:
            raise Violation(f"{what}: unknown loader {loader!r} at {path} gives {e!r}")
        else:
            raise Violation(f"{what}: unknown loader {loader!r} at {path} is ignored: {r!r:.200}")


def unknown_strategy():
    from hypothesis import strategies as st

    name = st.one_of(st.sampled_from(["FooNode", "listnode", "ListNode ", "ListNode_v0", "Node", "list", "builtins.list", "JsonNode2", "", "object", "eval", "NdArray", "FunctionNode0", "__class__"]),
                     st.text(min_size=1, max_size=8).filter(lambda t: t.isprintable()))
    return st.tuples(st.sampled_from(A.corpus_names()), st.integers(0, 300), name, st.sampled_from([2, 2, 1, 0, 3, 77]), st.sampled_from([None, ["Foo", "bar.baz"], ["list", "builtins"]])).map(list)


# ---------------------------------------------------------------------------
# dispatch

CHANGED = {("FunctionNode", 0), ("RandomGeneratorNode", 0), ("RandomGeneratorNode", 1)}
KINDS = ["DictNode", "DefaultDictNode", "ListNode", "SetNode", "TupleNode", "BytesNode", "BytearrayNode", "SliceNode", "FunctionNode", "TypeNode", "MethodNode", "PartialNode",
         "ConstructorFromReduceNode", "ObjectNode", "JsonNode", "OperatorFuncNode", "NdArrayNode", "MaskedArrayNode", "DTypeNode", "RandomStateNode", "RandomGeneratorNode",
         "SparseMatrixNode", "TreeNode", "LossNode"]


def evaluate_dispatch(spec, ctx: Ctx):
    """The class of the node for (loader, protocol), below different parents."""
    import io
    import zipfile

    from skops.io._audit import get_tree
    from skops.io._utils import LoadContext

    from . import c11

    loader, p = spec
    reg = registry()
    have = sorted(q for ld, q in reg if ld == loader)
    if not have or have[-1] != proto():
        raise Violation(f"{loader} has loaders for the protocols {have}, not for the current one")
    for k in CHANGED:
        if k not in reg or reg[k] is reg[k[0], proto()]:
            raise Violation(f"the loader of {k} is gone")
    above = [q for q in have if q >= p]
    want = reg[loader, above[0] if above else proto()]
    slot = loader
    if loader == "FunctionNode" and want is not reg[loader, proto()]:
        slot = "content"
    st = c11.state(slot, min(max(p, 0), 2), *A.OK[loader][0])
    if slot == "content":
        st = c11.state("content", 0, "numpy", "sqrt")
    data = A.zip_bytes(A.schema_with_header(c11.lst([st]), p), A.members_for(A.schema_with_header(c11.lst([st]), p)))
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        node = get_tree(st, LoadContext(src=z, protocol=p), trusted=None)
    if type(node) is not want:
        raise Violation(f"protocol {p}: {loader} is loaded by {type(node)}, the one for the smallest protocol not below is {want}")


def dispatch_cases(tier):
    return [[ld, p] for ld in KINDS for p in range(0, 6)]


def evaluate_slots(spec, ctx: Ctx):
    """A function of protocol p below every kind of parent: the name is where that protocol has it."""
    import skops.io as sio

    name, i, p = spec
    schema, mem = json.loads(json.dumps(A.corpus()[name][0])), A.corpus()[name][1]
    for _, nd in A.nodes(schema):
        nd.pop("__id__", None)
    path, nd = A.nodes(schema)[i]
    nd.clear()
    old = {"__class__": "function", "__module__": "builtins", "__loader__": "FunctionNode", "content": {"module_path": "pbtcan_a", "function": "fn_evil"}}
    new = {"__class__": "fn_evil", "__module__": "pbtcan_a", "__loader__": "FunctionNode", "content": {"module_path": "builtins", "function": "function"}}
    nd.update(old if p == 0 else new)
    ctx.label(f"p{p}", f"depth{min(len(path), 8)}")
    try:
        U = sio.get_untrusted_types(data=A.zip_bytes({**schema, "protocol": p, "_skops_version": "0.6"}, mem))
    except Exception as e:
        if "find loader" in str(e):
            raise Violation(f"protocol {p}, {name}, at {path}: {e!r}")
        ctx.trivial()
        return
    ctx.trivial("pbtcan_a.fn_evil" not in U)
    if "builtins.function" in U:
        raise Violation(f"protocol {p}: the function at {path} of {name} is loaded by the loader of another protocol; untrusted types are {U}")


def slot_cases(tier):
    out, seen = [], set()
    for n in A.corpus_names():
        if A.corpus()[n] is None:
            continue
        for i, (path, s) in enumerate(A.nodes(A.corpus()[n][0])):
            if not path:
                continue
            key = tuple("*" if isinstance(q, int) else q for q in path[-4:])
            if tier == "quick" and key in seen:
                continue
            seen.add(key)
            # those of protocol 0 have another layout for some kinds
            out += [[n, i, p] for p in (0, 1, 2)]
    return out


# ---------------------------------------------------------------------------
# archives of the original release

def golden():
    path = os.path.join(VERIF, "pbt", "golden.json.xz")
    return json.loads(lzma.open(path, "rt").read())


_golden = None


def evaluate_golden(spec, ctx: Ctx):
    import skops.io as sio

    global _golden
    if _golden is None:
        _golden = golden()
    i, p = spec
    o, b64 = _golden[i]
    x = make(o)
    data = base64.b64decode(b64)
    schema, mem = A.read(data)
    if p != proto():
        schema, _ = downgrade(schema, p)
        data = A.zip_bytes(schema, mem)
    try:
        y = sio.loads(data, trusted=sio.get_untrusted_types(data=data))
    except Exception as e:
        raise Violation(f"archive of the original release for {o}: {e!r}")
    d = diff(x, y, layout=False, seedseq=p >= 2, strict_fill=False)
    if d:
        raise Violation(f"archive of the original release for {o} loads to another object: {d}")


def golden_cases(tier):
    return [[i, p] for i in range(len(golden())) for p in (2, 1, 0)]


def obj_strategy():
    from hypothesis import strategies as st

    s = objs.S()
    fn = st.one_of(s.ufunc, s.spufunc if hasattr(s, "spufunc") else s.ufunc, st.sampled_from(["len", "sorted", "abs", "sqrt"]).map(lambda n: ["builtin", n]), st.just(["fn", "idy"]),
                   s.rng, s.rng)
    return st.one_of(values.anything(), values.supported(), s.containers(st.one_of(fn, s.leaf)), s.containers(fn), st.sampled_from(corpus.NAMES).map(lambda n: ["corpus", n]))


def strategy():
    from hypothesis import strategies as st

    return st.builds(lambda o, p, old: [o, p, old], obj_strategy(), st.sampled_from([0, 0, 1, 1, 2, 3]), st.sampled_from([1, 1, 0]))


def cases(tier):
    out = [[["corpus", n], p, old] for n in corpus.NAMES for p in (0, 1, 2, 3) for old in (0, 1)]
    fns = [["ufunc", "sqrt"], ["spufunc", "expit"], ["builtin", "len"], ["builtin", "sqrt"], ["fn", "idy"], ["rng", "Generator", "PCG64", 1, []], ["rng", "RandomState", "MT19937", 1, []]]
    wraps = [lambda f: f, lambda f: ["list", [f]], lambda f: ["tuple", [["none"], f]], lambda f: ["dict", [[["str", "a"], f]]], lambda f: ["objarr", [2], [f, ["int", "1"]]],
             lambda f: ["partial", f, [f], [["k", f]], []], lambda f: ["odict", [[["int", "1"], f]]], lambda f: ["ddict", f, [[["str", "a"], f]]], lambda f: ["zoo", "Plain", [f, f, ["none"]]]]
    for f in fns:
        for w in wraps:
            for p in (0, 1, 2, 3):
                out.append([w(f), p, 1])
    return out


def subs(tier):
    return [
        Sub("dispatch", evaluate_dispatch, cases=dispatch_cases, n=(0, 0), exhaustive=True),
        Sub("slots", evaluate_slots, cases=slot_cases, n=(0, 0)),
        Sub("golden", evaluate_golden, cases=golden_cases, n=(0, 0)),
        Sub("catalogue", evaluate, cases=cases, n=(0, 0)),
        Sub("downgraded", evaluate, strategy=strategy, n=(4000, 100000)),
        Sub("unknown", evaluate_unknown, strategy=unknown_strategy, n=(2000, 40000)),
    ]
