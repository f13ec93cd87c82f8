"""Reference model of a model card, edit operations on it, and their generators.

The model is an insertion-ordered tree written from the documented behaviour. Paths are lists of
titles; how they are written (blanks, escaped slashes) is part of the case.
"""
from __future__ import annotations

import math

from .core import Violation

RESERVED = {"self", "folded", "description", "alt_text", "section", "kwargs"}


# ---------------------------------------------------------------------------
# paths: [[title, blanks before, blanks after], ...]

def raw(path):
    """The string form of a path."""
    out = []
    for i, (title, left, right) in enumerate(path):
        if title.endswith("\\") and i < len(path) - 1 and not right:
            right = " "  # would escape the separator
        out.append(left + title.replace("/", "\\/") + right)
    return "/".join(out)


def titles(path):
    return [p[0] for p in path]


def valid_title(t):
    return bool(t) and t == t.strip() and "\\/" not in t


# ---------------------------------------------------------------------------
# the model

class Node:
    def __init__(self, title, kind="text", content="", folded=False, **extra):
        self.title, self.kind, self.content, self.folded, self.visible = title, kind, content, folded, True
        self.extra = extra
        self.children = {}

    def __repr__(self):
        return f"<{self.kind} {self.title!r} {self.content!r:.30} {list(self.children.values())}>"


class Model:
    def __init__(self):
        self.children = {}
        self.metrics = {}

    def find(self, parts):
        node = self
        for p in parts:
            node = node.children.get(p)
            if node is None:
                return None
        return node

    def add(self, parts, node):
        cur = self
        for p in parts[:-1]:
            if p not in cur.children:
                cur.children[p] = Node(p)
            cur = cur.children[p]
        old = cur.children.get(parts[-1])
        if old is not None:
            node.children = old.children
        cur.children[parts[-1]] = node

    def delete(self, parts):
        if self.find(parts) is None:
            return False
        del self.find(parts[:-1]).children[parts[-1]]
        return True

    def walk(self, node=None, path=()):
        for key, child in (node or self).children.items():
            yield path + (key,), child
            yield from self.walk(child, path + (key,))


def value(v):
    """JSON case -> cell value."""
    if isinstance(v, list):
        tag, x = v
        return {"nan": lambda: math.nan, "inf": lambda: math.inf, "float": lambda: float.fromhex(x), "list": lambda: list(x), "tuple": lambda: tuple(x),
                "npf": lambda: __import__("numpy").float64(float.fromhex(x)), "npi": lambda: __import__("numpy").int64(x), "bytes": lambda: bytes.fromhex(x), "dict": lambda: dict(x),
                "ts": lambda: __import__("pandas").Timestamp(x)}[tag]()
    return v


def table(t):
    """[[name, [cells]], ...] and the flavour -> dict or DataFrame."""
    cols, flavour = t
    cols = [(value(k), [value(v) for v in vs]) for k, vs in cols]
    if flavour in ("df", "dfi"):
        import pandas as pd

        n = len(cols[0][1])
        index = None if flavour == "df" else [f"r{i}" for i in range(n, 0, -1)]
        data = {i: pd.Series(v, dtype=object, index=index) for i, (_, v) in enumerate(cols)}
        df = pd.DataFrame(data, index=index if index is not None else range(n))
        df.columns = pd.Index([k for k, _ in cols], dtype=object)
        return df
    if flavour == "tuple":
        return {k: tuple(v) for k, v in cols}
    if flavour == "np":
        import numpy as np

        out = {}
        for k, v in cols:
            a = np.empty(len(v), dtype=object)
            for i, x in enumerate(v):
                a[i] = x
            out[k] = a
        return out
    return dict(cols)


def columns(t):
    """What the table holds: [(name, cells), ...]."""
    cols, flavour = t
    cols = [(value(k), [value(v) for v in vs]) for k, vs in cols]
    return cols if flavour in ("df", "dfi") else list(dict(cols).items())


# ---------------------------------------------------------------------------
# operations: applied to the card and to the model

def _missing(what, fn):
    try:
        r = fn()
    except KeyError:
        return
    except Exception as e:
        raise Violation(f"{what} raises {e!r} instead of KeyError")
    raise Violation(f"{what} does not raise but returns {r!r:.200}")


def guard(what, fn):
    try:
        return fn()
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{what} raises {e!r}")


def check_section(s, node, what):
    from skops.card._model_card import PlotSection, TableSection

    def bad(attr, have, want):
        raise Violation(f"{what}: {attr} is {have!r:.300}, expected {want!r:.300}")

    if s.title != node.title:
        bad("title", s.title, node.title)
    if node.kind != "opaque" and s.content != node.content:
        bad("content", s.content, node.content)
    if bool(s.folded) != node.folded:
        bad("folded", s.folded, node.folded)
    if bool(s.visible) != node.visible:
        bad("visible", s.visible, node.visible)
    if list(s.subsections) != list(node.children):
        bad("subsections", list(s.subsections), list(node.children))
    if node.kind == "plot":
        if not isinstance(s, PlotSection) or str(s.path) != str(node.extra["path"]):
            bad("path", s, node.extra["path"])
        if s.alt_text != node.extra["alt"]:
            bad("alt text", s.alt_text, node.extra["alt"])
    elif node.kind == "table":
        if not isinstance(s, TableSection):
            bad("type", type(s), TableSection)
    elif node.kind == "text" and (isinstance(s, (PlotSection, TableSection))):
        bad("type", type(s), "a plain section")


def toc_lines(model):
    out = []

    def rec(node, depth):
        for c in node.children.values():
            if c.visible:
                out.append("  " * depth + "- " + c.title)
                if not c.folded:
                    rec(c, depth + 1)

    rec(model, 0)
    return out


def path_of(parts):
    return raw([[p, "", ""] for p in parts])


def check_tree(card, model, what=""):
    """The whole card equals the model."""
    toc = guard("get_toc", card.get_toc)
    want = "\n".join(toc_lines(model))
    if toc != want:
        raise Violation(f"{what}table of contents is\n{toc}\nexpected\n{want}")
    keys = list(card._data)
    if keys != list(model.children):
        raise Violation(f"{what}top level sections are {keys}, expected {list(model.children)}")
    for parts, node in model.walk():
        s = guard(f"{what}select({path_of(parts)!r})", lambda: card.select(path_of(parts)))
        check_section(s, node, f"{what}section {parts}")


def apply(op, card, model, ctx=None):
    """Run one operation; Violation if its own result is wrong."""
    name = op[0]
    if name == "add":
        _, folded, items = op
        kw = {}
        for path, content in items:
            kw[raw(path)] = content
        r = guard(f"add({kw!r:.300})", lambda: card.add(folded=folded, **kw) if folded else card.add(**kw))
        done = set()
        for path, content in items:
            if raw(path) in done:
                continue
            done.add(raw(path))
            t = titles(path)
            model.add(t, Node(t[-1], content=kw[raw(path)], folded=folded))
    elif name == "plot":
        _, items, desc, alt, folded = op
        kw = {raw(p): f for p, f in items}
        r = guard(f"add_plot({kw!r:.300})", lambda: card.add_plot(description=desc, alt_text=alt, folded=folded, **kw))
        done = set()
        for path, _f in items:
            if raw(path) in done:
                continue
            done.add(raw(path))
            t = titles(path)
            model.add(t, Node(t[-1], "plot", desc or "", folded, path=kw[raw(path)], alt=alt or t[-1]))
    elif name == "table":
        _, items, desc, folded = op
        spec = {raw(p): t for p, t in items}
        kw = {k: table(t) for k, t in spec.items()}
        r = guard(f"add_table({list(kw)})", lambda: card.add_table(description=desc, folded=folded, **kw))
        done = set()
        for path, _t in items:
            if raw(path) in done:
                continue
            done.add(raw(path))
            t = titles(path)
            model.add(t, Node(t[-1], "table", desc or "", folded, columns=columns(spec[raw(path)])))
    elif name == "metrics":
        _, path, desc, items = op
        kw = {k: value(v) for k, v in items}
        if path is None:
            r = guard(f"add_metrics({kw})", lambda: card.add_metrics(description=desc, **kw))
            t = ["Model description", "Evaluation Results"]
        else:
            r = guard(f"add_metrics({raw(path)!r}, {kw})", lambda: card.add_metrics(raw(path), description=desc, **kw))
            t = titles(path)
        for k, v in kw.items():
            model.metrics[k] = v
        model.add(t, Node(t[-1], "table", desc or "", False, columns=[("Metric", list(model.metrics)), ("Value", list(model.metrics.values()))]))
    elif name == "hyper":
        _, path, desc = op
        if path is None:
            r = guard("add_hyperparams()", lambda: card.add_hyperparams(description=desc))
            t = ["Model description", "Training Procedure", "Hyperparameters"]
        else:
            r = guard(f"add_hyperparams({raw(path)!r})", lambda: card.add_hyperparams(raw(path), description=desc))
            t = titles(path)
        params = card.get_model().get_params(deep=True)
        model.add(t, Node(t[-1], "table", desc or "", True, columns=[("Hyperparameter", list(params)), ("Value", list(params.values()))]))
    elif name == "diagram":
        _, path, desc = op
        if path is None:
            r = guard("add_model_plot()", lambda: card.add_model_plot(description=desc))
            t = ["Model description", "Training Procedure", "Model Plot"]
        else:
            r = guard(f"add_model_plot({raw(path)!r})", lambda: card.add_model_plot(raw(path), description=desc))
            t = titles(path)
        model.add(t, Node(t[-1], "opaque", desc or "", False, contains=[desc] if desc else [], diagram=True))
    elif name == "select":
        _, path = op
        t = titles(path)
        node = model.find(t)
        if node is None:
            _missing(f"select({raw(path)!r})", lambda: card.select(raw(path)))
        else:
            check_section(guard(f"select({raw(path)!r})", lambda: card.select(raw(path))), node, f"select({raw(path)!r})")
        return
    elif name == "chain":
        _, path, cut = op  # cut positions
        cuts = sorted({c % len(path) for c in cut} - {0})
        pieces, prev = [], 0
        for c in cuts + [len(path)]:
            pieces.append(path[prev:c])
            prev = c
        t = titles(path)

        def run():
            s = card
            for p in pieces:
                s = s.select(raw(p))
            return s

        what = "".join(f".select({raw(p)!r})" for p in pieces)
        node = model.find(t)
        if node is None:
            _missing(what, run)
        else:
            s = guard(what, run)
            check_section(s, node, what)
            if s is not card.select(raw(path)):
                raise Violation(f"{what} is not the section select({raw(path)!r}) returns")
        return
    elif name == "delete":
        _, path, form = op
        t = titles(path)
        key = raw(path) if form == "str" else tuple(t) if form == "tuple" else list(t)
        if model.delete(t):
            r = guard(f"delete({key!r})", lambda: card.delete(key))
            if r is not None:
                raise Violation(f"delete({key!r}) returns {r!r}")
        else:
            _missing(f"delete({key!r})", lambda: card.delete(key))
        return
    elif name == "empty":
        _, what, key = op  # an empty name somewhere
        _missing(f"{what}({key!r})", lambda: getattr(card, what)(key))
        return
    elif name == "subempty":
        _, path, key = op
        node = model.find(titles(path))
        if node is not None:
            _missing(f"select({raw(path)!r}).select({key!r})", lambda: card.select(raw(path)).select(key))
        return
    elif name == "set":
        _, path, attr, v = op
        node = model.find(titles(path))
        if node is None:
            return
        s = guard(f"select({raw(path)!r})", lambda: card.select(raw(path)))
        setattr(s, attr, v)
        setattr(node, attr, v)
        if attr == "content" and node.kind == "opaque":
            node.kind = "text"
            node.extra = {}
        return
    else:
        raise AssertionError(op)
    if r is not card:
        raise Violation(f"{name} returns {r!r:.100} instead of the card")


# ---------------------------------------------------------------------------
# generators

TITLES = ["A", "B", "C", "a", "A B", "A/B", "B/A", "/", "A/", "/A", "a//b", "é", "日本", "x\\y", "A\\", "x\x1fy", "#", "# A", "1", "-", "*b*", "A b  c", "C/", "<b>", "`A`", "a|b", "...", "None", "long " * 25 + "title",
          "\ufeffA", "x\u200by", "e\u0301", "\U0001f600", "{{ x }}", "{% raw %}", "{0}", "%s", "&lt;b&gt;", "$x$", "\u202eA", "A.", "A:", "_", "\u212b", "\ufb01", "\u1e9e\u0130"]
ODD = ["\ufeff", "\ufefftext", "a\ufeffb", "x\u200by", "e\u0301 \u212b \ufb01", "\U0001f600", "{{ x }}", "{% if x %}", "{0} {x}", "%s %d", "&lt;b&gt; &amp;", "$x_1$", "\u202ea", "\x00", "a\x00b", "\x7f\x85", "\u2028 \u2029",
       "\r\n", "a\rb", "\x0c", "\x1a", "tail\n\n\n", "\n\n\nhead", "a\n\n\n\nb", "\t\ttabs\tin\tit", "<!-- c -->", "---\ntitle: x\n---", "[l](u) ![i](p)", "\\n \\/ \\\\", "<details>\n<summary>x</summary>"]
BLANKS = ["", "", "", " ", "  ", "\t", " \n", "\xa0", "\u2003"]


def title_strategy(newlines=True):
    from hypothesis import strategies as st

    cat = ("Cs",) if newlines else ("Cs", "Cc", "Zl", "Zp")
    text = st.text(st.characters(blacklist_categories=cat), min_size=1, max_size=6).map(str.strip).filter(valid_title)
    slashy = st.lists(st.sampled_from(["/", "A", " ", "b", "\\", "é"]), min_size=1, max_size=5).map("".join).map(str.strip).filter(valid_title)
    pool = TITLES if newlines else [t for t in TITLES if "\x1f" not in t]
    return st.one_of(st.sampled_from(pool), st.sampled_from(pool), st.sampled_from(pool), text, slashy)


def path_strategy(pool, depth=4, blanks=BLANKS):
    """Paths over a pool of titles."""
    from hypothesis import strategies as st

    if pool is None:  # indexes into a pool that is part of the case, see resolve
        part = st.tuples(st.just("@"), st.integers(0, 3), st.sampled_from(blanks), st.sampled_from(blanks)).map(list)
    else:
        part = st.tuples(st.sampled_from(pool), st.sampled_from(blanks), st.sampled_from(blanks)).map(list)
    short, long = st.lists(part, min_size=1, max_size=2), st.lists(part, min_size=1, max_size=depth)
    # a single title repeated: deep trees with few parts, which later paths meet again
    deep = st.builds(lambda p, n: [list(p)] * n, part, st.integers(5, 12))
    return st.one_of(*[short] * 7, *[long] * 7, deep, st.builds(lambda a, b: a + b, deep, short))


def resolve(x, pool):
    """Replace the indexes of paths by titles of the pool."""
    if isinstance(x, list):
        if len(x) == 4 and x[0] == "@" and isinstance(x[1], int):
            return [pool[x[1] % len(pool)]] + x[2:]
        return [resolve(y, pool) for y in x]
    return x


def pool_strategy(newlines=True):
    from hypothesis import strategies as st

    return st.lists(title_strategy(newlines).filter(lambda t: t not in RESERVED), min_size=2, max_size=4, unique=True)


def content_strategy(newlines=True):
    from hypothesis import strategies as st

    base = ["", "", "text", "two\n\nparagraphs", "# not a heading", "é ✓ 日本", "- a\n- b", "```\n# code\n```", "<details>", "</details>", "\\", "  indented", "trailing  ", "| a |\n|---|\n| 1 |", "\n", "text", " ", "\t\n ", "line " * 60, "\n".join(f"l{i}" for i in range(40))]
    odd = st.sampled_from(ODD)
    return st.one_of(st.sampled_from(base), st.text(st.characters(blacklist_categories=("Cs",)), max_size=12), odd, st.lists(odd, min_size=2, max_size=4).map("".join))


def cell_strategy():
    from hypothesis import strategies as st

    fl = st.floats(allow_nan=False, width=64).map(lambda f: ["float", f.hex()])
    return st.one_of(st.none(), st.booleans(), st.integers(-10**6, 10**20), fl, st.just(["nan", 0]), st.just(["inf", 0]),
                     st.sampled_from(["", "x", "a\nb", "a\r\nb", "a\rb", "\n", "a\n\nb\n", "x|y", "|", "a||b", " pad ", "é ✓", "日本語", "<br />", "`c|d`", "---", ":-:", "**b**", "a\tb", "None", "#", "\u2028", "\x0b", "\x85", "x\x1by",
                                      "a very long cell that goes on and on and on and on and on and on"] + ODD[:-1]),
                     st.text(st.characters(blacklist_categories=("Cs",)), max_size=8), st.sampled_from([["list", [1, "a"]], ["tuple", [1, 2]], ["dict", [["k", 1]]], ["bytes", "610a"], ["npi", 3], ["npf", "0x1.8p+0"], ["ts", "2020-01-02"]]))


def name_strategy():
    from hypothesis import strategies as st

    return st.one_of(st.sampled_from(["a", "b", "ab", "metric", "a b", "x|y", "é", "日本", "a\nb", "", "A\r\nB", "1", "<x>", "fit_time", ":"]), st.text(st.characters(blacklist_categories=("Cs", "Cc", "Cf", "Mn", "Me", "Mc", "Cn", "Co")), max_size=6))


def table_strategy(rows=4, names=None):
    from hypothesis import strategies as st

    @st.composite
    def tab(draw):
        n = draw(st.integers(0, rows))
        flavour = draw(st.sampled_from(["dict", "dict", "df", "df", "dfi", "tuple", "np"]))
        # the same name can only occur twice in a data frame
        ns = draw(st.lists(names or name_strategy(), min_size=1, max_size=4, unique_by=repr if flavour not in ("df", "dfi") else None))
        return [[[k, draw(st.lists(cell_strategy(), min_size=n, max_size=n))] for k in ns], flavour]

    return tab()


def metric_strategy():
    from hypothesis import strategies as st

    names = st.one_of(st.sampled_from(["acc", "f1", "acc", "roc auc", "a|b", "é", "A\nB", "loss"]), st.text(st.characters(blacklist_categories=("Cs",)), max_size=5)).filter(lambda n: n not in RESERVED)
    vals = st.one_of(st.integers(-5, 5), st.floats(allow_nan=False).map(lambda f: ["float", f.hex()]), st.sampled_from(["0.9", "a\nb", "x|y", None, True, ["nan", 0], ["npf", "0x1.8p+0"]]))
    return st.lists(st.tuples(names, vals).map(list), min_size=0, max_size=4)
