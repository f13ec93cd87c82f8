"""C09 - the model card is an ordered section tree with stable addressing."""
from __future__ import annotations

import functools

from .. import cards
from ..core import Ctx, Sub, Violation

RULE = (
    "A case is a starting template and a sequence of add / add_plot / add_table / add_metrics / add_hyperparams / select / chained select / delete / flag and content edits over paths drawn from a small "
    "pool of titles (slashes, blanks, unicode, backslashes). After every operation the whole card is compared with a reference tree. Non-trivial: at least two operations, one of which met an existing section"
)


SIMPLE = [[[["a", [1, 2]]], "dict"], [[["a", [1]], ["b", ["x"]]], "df"], [[["a", []]], "dict"]]


@functools.lru_cache(None)
def model_obj():
    from sklearn.linear_model import LogisticRegression

    return LogisticRegression(C=0.5)


def start(template):
    from skops.card import Card

    m = cards.Model()
    if template is None:
        return Card(model_obj(), template=None, model_diagram=False), m
    if template == "skops":
        card = Card(model_obj())
        from skops.card._templates import SKOPS_TEMPLATE

        for key, text in SKOPS_TEMPLATE.items():
            t = [p.strip() for p in key.split("/")]
            m.add(t, cards.Node(t[-1], content=text))
        params = model_obj().get_params(deep=True)
        m.add(["Model description", "Training Procedure", "Hyperparameters"], cards.Node("Hyperparameters", "table", "", True, columns=[("Hyperparameter", list(params)), ("Value", list(params.values()))]))
        m.add(["Model description", "Training Procedure", "Model Plot"], cards.Node("Model Plot", "opaque", diagram=True, contains=[]))
        return card, m
    kw = {cards.raw(p): c for p, c in template}
    card = cards.guard(f"Card(template={kw!r:.200})", lambda: Card(model_obj(), template=kw, model_diagram=False))
    done = set()
    for path, _ in template:
        if cards.raw(path) not in done:
            done.add(cards.raw(path))
            t = cards.titles(path)
            m.add(t, cards.Node(t[-1], content=kw[cards.raw(path)]))
    return card, m


def evaluate(spec, ctx: Ctx):
    template, ops = cards.resolve(spec[1:], spec[0])
    card, model = start(template)
    cards.check_tree(card, model, "new card: ")
    met = 0
    for i, op in enumerate(ops):
        path = op[1] if op[0] in ("select", "chain", "delete", "set") else None
        if path and model.find(cards.titles(path)) is not None:
            met += 1
            ctx.label(op[0] + "!")
        if op[0] in ("add", "plot", "table"):
            for it in op[2 if op[0] == "add" else 1]:
                if model.find(cards.titles(it[0])) is not None:
                    met += 1
                    ctx.label("overwrite")
        ctx.label(op[0])
        cards.apply(op, card, model)
        cards.check_tree(card, model, f"after operation {i} {op[0]}: ")
    ctx.trivial(len(ops) < 2 or not met)


def ops_strategy(pool, n=12, extra=True):
    from hypothesis import strategies as st

    path = cards.path_strategy(pool)
    tight = cards.path_strategy(pool, 3, [""])
    path = st.one_of(path, tight)
    content = cards.content_strategy()
    desc = st.sampled_from([None, "", "desc", "d\n\ne", "é"])
    one = st.tuples(path, content).map(list)
    add = st.builds(lambda f, items: ["add", f, items], st.sampled_from([False, False, False, True]), st.lists(one, min_size=1, max_size=3))
    plot = st.builds(lambda items, d, a, f: ["plot", items, d, a, f], st.lists(st.tuples(path, st.sampled_from(["p.png", "a b/c.png", "é.svg"])).map(list), min_size=1, max_size=3), desc,
                     st.one_of(st.none(), st.just("alt")), st.booleans())
    tabs = st.builds(lambda items, d, f: ["table", items, d, f], st.lists(st.tuples(path, st.sampled_from(SIMPLE)).map(list), min_size=1, max_size=2), desc, st.booleans())
    metrics = st.builds(lambda p, d, i: ["metrics", p, d, i], st.one_of(st.none(), path, path), desc, st.lists(st.sampled_from([['acc', 1], ['f1', ['float', '0x1p-1']], ['acc', 'x'], ['é', None]]), max_size=3))
    hyper = st.builds(lambda p, d: ["hyper", p, d], st.one_of(st.none(), path, path), desc)
    sel = path.map(lambda p: ["select", p])
    chain = st.builds(lambda p, c: ["chain", p, c], path, st.lists(st.integers(1, 3), max_size=3))
    dele = st.builds(lambda p, f: ["delete", p, f], path, st.sampled_from(["str", "str", "list", "tuple"]))
    emp = st.sampled_from(["", " ", "/", "//", " / ", "A/", "/A", "A//B", "A/ /B", "\t"])
    esel = emp.map(lambda k: ["empty", "select", k])
    edel = st.one_of(emp.map(lambda k: ["empty", "delete", k]), st.sampled_from([[], [""], ["A", ""], ["", "A"]]).map(lambda k: ["empty", "delete", k]))
    esub = st.builds(lambda p, k: ["subempty", p, k], path, emp)
    sets = st.one_of(st.builds(lambda p, a, v: ["set", p, a, v], path, st.sampled_from(["visible", "folded"]), st.booleans()), st.builds(lambda p, c: ["set", p, "content", c], path, content))
    alts = [add, add, add, add, sel, chain, dele, dele]
    if extra:
        alts += [plot, tabs, metrics, hyper, esel, edel, esub, sets]
    ops = st.one_of(*alts)
    return st.one_of(st.lists(ops, min_size=1, max_size=5), st.lists(ops, min_size=n // 2, max_size=n), st.lists(ops, min_size=n // 2, max_size=n))


def template_strategy(pool):
    from hypothesis import strategies as st

    return st.one_of(st.none(), st.none(), st.none(), st.lists(st.tuples(cards.path_strategy(pool), cards.content_strategy()).map(list), max_size=4))


def strategy():
    from hypothesis import strategies as st

    return st.tuples(cards.pool_strategy(), template_strategy(None), ops_strategy(None)).map(list)


def skops_strategy():
    from hypothesis import strategies as st

    pool = ["Model description", "Training Procedure", "Hyperparameters", "Model Plot", "Evaluation Results", "A", "Model Card Authors", "Authors", "model description", "Model", "Training", "How to Get Started"]
    return ops_strategy(pool, 8).map(lambda ops: [None, "skops", ops])


# ---------------------------------------------------------------------------
# path parsing against a character-wise parser

def parse(key):
    parts, cur, i = [], "", 0
    while i < len(key):
        if key[i] == "\\" and key[i + 1:i + 2] == "/":
            cur += "/"
            i += 2
            continue
        if key[i] == "/":
            parts.append(cur)
            cur = ""
        else:
            cur += key[i]
        i += 1
    parts.append(cur)
    return [p.strip() for p in parts]


def evaluate_path(spec, ctx: Ctx):
    """Adding under any path text makes exactly the sections its parts name."""
    from skops.card import Card

    key, how = spec
    want = parse(key)
    if not all(want) or key in cards.RESERVED:
        ctx.trivial()
        ctx.label("empty part")
        card = Card(None, template=None)
        card.add(A="x")
        for fn in (card.select, card.delete):
            try:
                fn(key)
            except KeyError:
                pass
            except Exception as e:
                raise Violation(f"{fn.__name__}({key!r}) raises {e!r}")
            else:
                if want != ["A"]:
                    raise Violation(f"{fn.__name__}({key!r}) finds a section")
        if card.get_toc() != "- A":
            raise Violation(f"the card changed: {card.get_toc()!r}")
        return
    ctx.label(f"depth{len(want)}", "escaped" if "\\/" in key else "plain")
    ctx.trivial(len(want) == 1 and "/" not in key)
    card = Card(None, template=None)
    if how == "add":
        cards.guard(f"add({key!r})", lambda: card.add(**{key: "content"}))
    elif how == "plot":
        cards.guard(f"add_plot({key!r})", lambda: card.add_plot(description="content", **{key: "p.png"}))
    else:
        cards.guard(f"add_table({key!r})", lambda: card.add_table(description="content", **{key: {"a": [1]}}))
    toc = "\n".join("  " * i + "- " + t for i, t in enumerate(want))
    if card.get_toc() != toc:
        raise Violation(f"adding {key!r} gives {card.get_toc()!r}, expected {toc!r}")
    s = cards.guard(f"select({key!r})", lambda: card.select(key))
    if s.content != "content" or s.title != want[-1]:
        raise Violation(f"select({key!r}) is {s.title!r}: {s.content!r}")
    cards.guard(f"delete({key!r})", lambda: card.delete(key if how != "add" else want))
    toc = "\n".join("  " * i + "- " + t for i, t in enumerate(want[:-1]))
    if card.get_toc() != toc:
        raise Violation(f"after deleting {key!r}: {card.get_toc()!r}, expected {toc!r}")


def path_strategy():
    from hypothesis import strategies as st

    tok = st.lists(st.sampled_from(["/", "/", "\\/", "\\/", "A", "b", " ", "é", "\t", "\x1f", "\x1e", "\x00", "\\\\", "_", "%2F", "\u2044", "\xa0", "A"]), min_size=1, max_size=9).map("".join)
    tok = tok.filter(lambda k: "\\\\\\/" not in k)  # an escaped backslash before a slash is not specified
    text = st.text(st.characters(blacklist_categories=("Cs",)), min_size=1, max_size=8).filter(lambda k: "\\\\/" not in k)
    tok = st.one_of(tok, st.lists(st.lists(st.sampled_from(["A", "b", " ", "\\/", "é", "\x1f", "\\", "\t"]), min_size=1, max_size=4).map("".join), min_size=2, max_size=4).map("/".join))
    return st.tuples(st.one_of(tok, tok, tok, text).filter(lambda k: "\\\\/" not in k), st.sampled_from(["add", "plot", "table"])).map(list)


def subs(tier):
    return [
        Sub("tree", evaluate, strategy=strategy, n=(9000, 200000)),
        Sub("skops", evaluate, strategy=skops_strategy, n=(900, 15000)),
        Sub("path", evaluate_path, strategy=path_strategy, n=(4000, 100000)),
    ]
