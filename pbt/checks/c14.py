"""C14 - card content builders put the right content under the right heading."""
from __future__ import annotations

import functools
import os
import re
import warnings

from .. import cards, scratch
from ..core import Ctx, Skip, Sub, Violation
from . import c09, c10

RULE = (
    "A case is a table (dict, DataFrame, ...) with arbitrary names and cells, a sequence of metric updates, an estimator whose parameters are listed, or several items for one builder call placed at nested "
    "paths; the markdown is parsed back. Non-trivial: the table has a cell, the sequence updates a metric twice, the path is nested or several items are passed"
)

BREAKS = re.compile("\r\n|[\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029]")


def text_of(v):
    """The text a cell has to show (blanks around it are not significant in markdown)."""
    return BREAKS.sub("<br />", str(v)).strip()


def split_row(line):
    """Cells of a markdown table row; a pipe after a backslash is text."""
    cells = re.split(r"(?<!\\)\|", line)
    if len(cells) < 3 or cells[0].strip() or cells[-1].strip():
        raise Violation(f"not a table row: {line!r}")
    return [BREAKS.sub("<br />", c.replace("\\|", "|")).strip() for c in cells[1:-1]]


def parse_table(text, what):
    """(header, rows) of the only table of the text."""
    lines = re.split("\r\n|\r|\n", text)
    if "\r" in text:
        raise Violation(f"{what}: a carriage return starts a new line of the table", text=text)
    first = next((i for i, l in enumerate(lines) if l.startswith("|")), None)
    if first is None:
        raise Violation(f"{what}: no table in {text!r:.400}")
    last = first
    while last < len(lines) and lines[last].startswith("|"):
        last += 1
    rest = [l for l in lines[last:] if l.strip() and l.strip() != "</details>"]
    if rest:
        raise Violation(f"{what}: text after the table: {rest[0]!r:.200}", text=text)
    if last - first < 2:
        raise Violation(f"{what}: the table has no delimiter row", text=text)
    rows = [split_row(l) for l in lines[first:last]]
    delim = rows.pop(1)
    if len(delim) != len(rows[0]) or not all(re.fullmatch(":?-+:?", c) for c in delim):
        raise Violation(f"{what}: delimiter row {lines[first + 1]!r} does not fit the header {rows[0]}", text=text)
    for r in rows:
        if len(r) != len(rows[0]):
            raise Violation(f"{what}: row {r} for the header {rows[0]}", text=text)
    return rows[0], rows[1:]


def check_table(text, cols, what):
    header, rows = parse_table(text, what)
    want = [text_of(k) for k, _ in cols]
    if header != want:
        raise Violation(f"{what}: header {header}, expected {want}", text=text)
    n = len(cols[0][1])
    if len(rows) != n:
        raise Violation(f"{what}: {len(rows)} rows for {n} entries", text=text)
    for i, row in enumerate(rows):
        want = [text_of(v[i]) for _, v in cols]
        if row != want:
            raise Violation(f"{what}: row {i} is {row}, expected {want}", text=text)


def bare_card():
    from skops.card import Card

    return Card(None, template=None)


# ---------------------------------------------------------------------------
# tables

def evaluate_table(spec, ctx: Ctx):
    tab, desc, folded, path = spec
    cols = cards.columns(tab)
    card = bare_card()
    obj = cards.table(tab)
    cards.guard(f"add_table({tab})", lambda: card.add_table(description=desc, folded=folded, **{cards.raw(path): obj}))
    text = cards.guard("render", card.render)
    ctx.label(tab[1], f"rows{min(len(cols[0][1]), 4)}", f"depth{len(path)}")
    ctx.trivial(not any(len(v) for _, v in cols))
    s = card.select(cards.raw(path))
    fmt = cards.guard("format", s.format)
    if desc:
        if not fmt.startswith(desc + "\n"):
            raise Violation(f"description {desc!r} is not shown before the table", text=fmt)
        fmt = fmt[len(desc):]
    check_table(fmt, cols, f"add_table({cols})"[:300])
    if fmt.strip("\n") not in text:
        raise Violation("the rendered card does not hold the table", text=text)
    if ("<details>" in fmt) != folded:
        raise Violation(f"folded={folded} table", text=fmt)
    model = cards.Model()
    model.add(cards.titles(path), cards.Node(path[-1][0], "table", desc or "", folded, columns=cols))
    c10.expect(text, model)
    # the same columns as another type of table
    names = [k for k, _ in cols]
    if all(isinstance(k, str) for k in names):
        others = ["df", "dfi", "dict", "tuple"] if len(set(names)) == len(names) else ["df", "dfi"]
        for flavour in others:
            other = bare_card()
            cards.guard(f"add_table as {flavour}", lambda: other.add_table(description=desc, folded=folded, **{cards.raw(path): cards.table([tab[0], flavour])}))
            if other.render() != text:
                raise Violation(f"the table renders differently as {tab[1]} and {flavour}", first=text, second=other.render())


def typed_frame(spec):
    """DataFrames with the dtypes users have."""
    import numpy as np
    import pandas as pd

    kind, n, seed = spec
    rs = np.random.RandomState(seed)
    data = {
        "int": lambda: rs.randint(-5, 5, n), "float": lambda: np.where(rs.rand(n) < 0.3, np.nan, rs.randn(n)), "bool": lambda: rs.rand(n) < 0.5, "str": lambda: [["x", "a\nb", "p|q", ""][i] for i in rs.randint(0, 4, n)],
        "cat": lambda: pd.Categorical([["u", "v"][i] for i in rs.randint(0, 2, n)]), "ts": lambda: pd.date_range("2020-01-01", periods=n), "Int64": lambda: pd.array([None if i == 0 else int(i) for i in rs.randint(0, 4, n)], dtype="Int64"),
        "f4": lambda: rs.randn(n).astype("f4"), "obj": lambda: [[None, 1, "s", 2.5, (1, 2)][i] for i in rs.randint(0, 5, n)]}
    return pd.DataFrame({k: data[k]() for k in kind})


def evaluate_frame(spec, ctx: Ctx):
    df = typed_frame(spec)
    card = bare_card()
    cards.guard("add_table", lambda: card.add_table(T=df))
    cols = [(k, list(df[k])) for k in df.columns]
    check_table(card.select("T").format(), cols, f"DataFrame {spec}")
    other = bare_card()
    other.add_table(T={k: list(df[k]) for k in df.columns})
    if other.render() != card.render():
        raise Violation(f"DataFrame {spec} renders differently as dict", first=card.render(), second=other.render())
    ctx.trivial(spec[1] == 0)


def frame_strategy():
    from hypothesis import strategies as st

    return st.tuples(st.lists(st.sampled_from(["int", "float", "bool", "str", "cat", "ts", "Int64", "f4", "obj"]), min_size=1, max_size=4, unique=True), st.integers(0, 5), st.integers(0, 9999)).map(list)


def table_strategy():
    from hypothesis import strategies as st

    desc = st.sampled_from([None, None, "", "desc", "two\n\nparts é"])
    pool = ["A", "B/C", "é", "/", "x y"]
    names = st.one_of(cards.name_strategy(), cards.name_strategy(), st.sampled_from([1, 0, ["float", "0x1.8p+0"], None, True, ["tuple", [1, "b"]]]))
    tab = st.one_of(cards.table_strategy(4), cards.table_strategy(4), cards.table_strategy(3, names))
    return st.tuples(tab.filter(hashable_names), desc, st.booleans(), cards.path_strategy(pool, 3)).map(list)


def hashable_names(t):
    names = [repr(k) for k, _ in t[0]]
    if t[1] not in ("df", "dfi"):
        vals = [cards.value(k) if not (isinstance(k, list) and k[0] == "tuple") else tuple(k[1]) for k, _ in t[0]]
        return len(set(vals)) == len(vals)
    return bool(names)


# ---------------------------------------------------------------------------
# metrics

def evaluate_metrics(spec, ctx: Ctx):
    from skops.card import Card

    pool, template, calls = spec
    card, _ = c09.start(template) if template != "skops" else c09.start("skops")
    seen = {}
    placed = {}
    updated = False
    for path, desc, items in calls:
        path = cards.resolve(path, pool)
        kw = {k: cards.value(v) for k, v in items}
        updated |= any(k in seen for k in kw)
        if path is None:
            r = cards.guard(f"add_metrics({kw})", lambda: card.add_metrics(description=desc, **kw))
            key = "Model description/Evaluation Results"
            title = "Evaluation Results"
        else:
            key = cards.raw(path)
            title = path[-1][0]
            r = cards.guard(f"add_metrics({key!r}, {kw})", lambda: card.add_metrics(section=key, description=desc, **kw))
        if r is not card:
            raise Violation(f"add_metrics returns {r!r:.100}")
        for k, v in kw.items():
            seen[k] = v
        norm = tuple(cards.titles(path)) if path else ("Model description", "Evaluation Results")
        placed[norm] = (key, title, desc, list(seen.items()))
        for k2, t2, d2, items2 in placed.values():
            s = card.select(k2)
            if s.title != t2:
                raise Violation(f"metrics section {k2!r} has the title {s.title!r}")
            fmt = s.format()
            if d2:
                if not fmt.startswith(d2):
                    raise Violation(f"the description {d2!r} of the metrics is not shown", text=fmt)
                fmt = fmt[len(d2):]
            check_table(fmt, [("Metric", [k for k, _ in items2]), ("Value", [v for _, v in items2])], f"metrics at {k2!r} after {len(calls)} calls")
    if not seen and not calls:
        raise Skip()
    # all at once
    if calls and placed:
        path, desc, _ = calls[-1]
        path = cards.resolve(path, pool)
        once = Card(None, template=None)
        kw = dict(desc=desc)
        key = cards.raw(path) if path is not None else "Model description/Evaluation Results"
        once.add_metrics(section=key, description=desc, **seen)
        if once.select(key).format() != card.select(key).format():
            raise Violation("metrics passed at once are shown differently from metrics passed one after the other", once=once.select(key).format(), sequence=card.select(key).format())
    ctx.label(f"calls{min(len(calls), 5)}", "update" if updated else "new")
    ctx.trivial(not updated)


def metrics_strategy():
    from hypothesis import strategies as st

    path = st.one_of(st.none(), st.none(), cards.path_strategy(None, 3))
    desc = st.sampled_from([None, "", "desc"])
    call = st.tuples(path, desc, cards.metric_strategy()).map(list)
    return st.tuples(cards.pool_strategy(), st.sampled_from([None, None, None, "skops"]), st.lists(call, min_size=1, max_size=6)).map(list)


# ---------------------------------------------------------------------------
# hyperparameters

class Odd:
    """Estimator with parameters that are hard to show."""


@functools.lru_cache(None)
def odd_class():
    from sklearn.base import BaseEstimator

    class OddEstimator(BaseEstimator):
        def __init__(self, a=None, b="x\ny", c=("p|q", 1), d=None, e=float("nan"), f="", g=None, h=1.5):
            self.a, self.b, self.c, self.d, self.e, self.f, self.g, self.h = a, b, c, d, e, f, g, h

        def fit(self, X, y=None):
            return self

        def transform(self, X):
            return X

    return OddEstimator


def estimator(spec):
    import numpy as np
    from sklearn.compose import ColumnTransformer
    from sklearn.linear_model import LogisticRegression
    from sklearn.model_selection import GridSearchCV
    from sklearn.pipeline import FeatureUnion, Pipeline
    from sklearn.preprocessing import FunctionTransformer, StandardScaler
    from sklearn.utils import all_estimators

    kind, x = spec[0], spec[1:]
    if kind == "any":
        ests = [c for _, c in all_estimators()]
        try:
            return ests[x[0] % len(ests)]()
        except TypeError:  # needs arguments
            raise Skip()
    if kind == "odd":
        return odd_class()(**{k: cards.value(v) for k, v in x[0]})
    if kind == "pipe":
        return Pipeline([(f"step{i}", estimator(s)) for i, s in enumerate(x[0])])
    if kind == "union":
        return FeatureUnion([(f"u{i}", estimator(s)) for i, s in enumerate(x[0])])
    if kind == "ct":
        return ColumnTransformer([(f"c{i}", estimator(s), [i]) for i, s in enumerate(x[0])])
    if kind == "search":
        return GridSearchCV(estimator(x[0]), {"C": np.logspace(-1, 1, 3), "a|b": [None, "x\ny"]})
    if kind == "lr":
        return LogisticRegression(C=x[0])
    if kind == "ft":
        return FunctionTransformer(np.sqrt)
    return StandardScaler()


def evaluate_hyper(spec, ctx: Ctx):
    from skops.card import Card

    est, path, desc, builder, form = spec
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        est = estimator(est)
        params = est.get_params(deep=True)
        default = path is None
        if default:
            path = [["Model description", "", ""], ["Training Procedure", "", ""], ["Hyperparameters" if builder == "hyper" else "Model Plot", "", ""]]
        key = cards.raw(path)
        place = {} if default else {"section": key}
        if builder != "hyper":
            from sklearn.utils import estimator_html_repr

            try:
                estimator_html_repr(est)
            except Exception:
                raise Skip()
        with scratch.case_dir() as d:
            model = est
            trusted = None
            if form:
                import pickle

                import skops.io as sio

                model = os.path.join(d, "model." + form)
                try:
                    if form == "skops":
                        sio.dump(est, model)
                        trusted = sio.get_untrusted_types(file=model)
                        params = sio.load(model, trusted=trusted).get_params(deep=True)
                    else:
                        with open(model, "wb") as f:
                            pickle.dump(est, f)
                        params = pickle.load(open(model, "rb")).get_params(deep=True)
                except Exception:
                    raise Skip()
            card = Card(model, template=None, model_diagram=False, trusted=trusted)
            if builder == "hyper":
                r = cards.guard(f"add_hyperparams({key!r})", lambda: card.add_hyperparams(description=desc, **place))
            else:
                r = cards.guard(f"add_model_plot({key!r})", lambda: card.add_model_plot(description=desc, **place))
        if r is not card:
            raise Violation(f"the builder returns {r!r:.100}")
        text = card.render()
        toc = "\n".join("  " * i + "- " + p[0] for i, p in enumerate(path))
        if card.get_toc() != (toc if builder == "diagram" or True else ""):
            raise Violation(f"sections {card.get_toc()!r}, expected {toc!r}")
        s = card.select(key)
        fmt = s.format()
        ctx.label(type(est).__name__, builder, form or "object")
        ctx.trivial(len(params) < 2)
        if f"{'#' * len(path)} {path[-1][0]}\n" not in text:
            raise Violation(f"no heading {path[-1][0]!r} at depth {len(path)}", text=text[:500])
        if fmt not in text:
            raise Violation("the rendered card does not hold the section's content")
        if desc:
            if not fmt.startswith(desc):
                raise Violation(f"the description {desc!r} is not shown first", text=fmt[:300])
            fmt = fmt[len(desc):]
        if builder == "hyper":
            def show(v):
                return re.sub(r"0x[0-9a-f]+", "0x", str(v)) if form else str(v)

            cols = [("Hyperparameter", list(params)), ("Value", [show(v) for v in params.values()])]
            check_table(re.sub(r"0x[0-9a-f]+", "0x", fmt) if form else fmt, cols, f"hyperparameters of {est!r:.100}")
        else:
            if type(est).__name__ not in fmt or "<div" not in fmt:
                raise Violation(f"the diagram does not show {type(est).__name__}", text=fmt[:500])
            other = Card(est, template=None, model_diagram=cards.raw(path))
            a, b = (re.sub(r"(sk-[a-z-]*id-)\d+|0x[0-9a-f]+", r"\1", t) for t in (other.select(key).format(), fmt.lstrip("\n")))
            if a != b:
                raise Violation("model_diagram=<section> and add_model_plot(<section>) differ", first=a, second=b)


def hyper_strategy():
    from hypothesis import strategies as st

    vals = st.one_of(cards.cell_strategy(), st.integers(0, 3))
    odd = st.lists(st.tuples(st.sampled_from("abcdefgh"), vals).map(list), max_size=5, unique_by=lambda t: t[0]).map(lambda kv: ["odd", kv])
    leaf = st.one_of(odd, odd, st.integers(0, 250).map(lambda i: ["any", i]), st.floats(0.1, 5).map(lambda c: ["lr", round(c, 3)]), st.just(["ft"]), st.just(["ss"]))
    est = st.recursive(leaf, lambda c: st.one_of(st.tuples(st.sampled_from(["pipe", "union", "ct"]), st.lists(c, min_size=1, max_size=3)).map(list), c.map(lambda s: ["search", s])), max_leaves=4)
    path = cards.path_strategy(["A", "B/C", "é", "/", "x y", "Model Plot"], 3)
    return st.tuples(est, st.one_of(path, path, path, st.none()), st.sampled_from([None, "", "desc"]), st.sampled_from(["hyper", "hyper", "diagram"]), st.sampled_from([None, None, "skops", "pkl"])).map(list)


def every_cases(tier):
    return [[["any", i], [["P", "", ""], ["H/i", "", ""]], None, "hyper", None] for i in range(210)]


# ---------------------------------------------------------------------------
# builders which make a plot or a table themselves

class Frame:
    """What add_fairlearn_metric_frame uses of fairlearn's MetricFrame."""

    def __init__(self, names, vals):
        import pandas as pd

        self.series = {k: pd.Series(v, index=names) for k, v in vals.items()}

    def difference(self):
        return self.series["difference"]

    def group_max(self):
        return self.series["group_max"]

    def group_min(self):
        return self.series["group_min"]

    def ratio(self):
        return self.series["ratio"]


def evaluate_special(spec, ctx: Ctx):
    import numpy as np
    import pandas as pd

    kind, path, desc, n, seed, flag = spec
    rs = np.random.RandomState(seed)
    place = cards.raw(path) if path else {"perm": "Permutation Importances", "fair": "Fairlearn MetricFrame Table"}[kind]
    title = path[-1][0] if path else place
    one, two = bare_card(), bare_card()
    for c in (one, two):
        c.add(**{"A": "first", "A/B": "second"})
    with warnings.catch_warnings(), scratch.case_dir() as d:
        warnings.simplefilter("ignore")
        if kind == "perm":
            import matplotlib.pyplot as plt
            from sklearn.utils import Bunch

            file = os.path.join(d, ["p.png", "q r.svg", "é.png"][seed % 3])
            imp = rs.randn(n, 3)
            cols = [f"c{i}" for i in range(n)]
            bunch = Bunch(importances=imp, importances_mean=imp.mean(1), importances_std=imp.std(1))
            kw = {"plot_name": place} if path else {}
            if flag:
                with open(file, "w") as f:
                    f.write("old")
                kw["overwrite"] = True
            try:
                r = cards.guard("add_permutation_importances", lambda: one.add_permutation_importances(bunch, np.array(cols) if seed % 2 else pd.Index(cols), plot_file=file, description=desc, **kw))
            finally:
                plt.close("all")
            if not os.path.exists(file) or os.path.getsize(file) < 100:
                raise Violation("add_permutation_importances saves no plot")
            two.add_plot(description=desc, **{place: file})
            fmt = one.select(place).format()
            if f"![{title}]({file})" not in fmt:
                raise Violation(f"plot at {place!r}: no link with the text {title!r}", text=fmt)
        else:
            names = [["accuracy", "é|x", "f\n1", "recall", "m5"][i] for i in range(n)]
            vals = {k: rs.randn(n).round(3) for k in ("difference", "group_max", "group_min", "ratio")}
            kw = {"table_name": place} if path else {}
            r = cards.guard("add_fairlearn_metric_frame", lambda: one.add_fairlearn_metric_frame(Frame(names, vals), transpose=flag, description=desc, **kw))
            df = pd.DataFrame({k: pd.Series(v, index=names) for k, v in vals.items()})
            df = df.T if flag else df
            two.add_table(folded=True, description=desc, **{place: df})
            fmt = one.select(place).format()
            check_table(fmt[len(desc):] if desc else fmt, [(k, list(df[k])) for k in df.columns], f"metric frame at {place!r}")
        if r is not one:
            raise Violation(f"the builder returns {r!r:.100}")
        if one.select(place).title != title:
            raise Violation(f"section {place!r} has the title {one.select(place).title!r}")
        if desc and not fmt.startswith(desc):
            raise Violation(f"the description {desc!r} is not shown first", text=fmt)
        if one.render() != two.render() or one.get_toc() != two.get_toc():
            raise Violation(f"{kind} at {place!r}: the card differs from one with the same plot or table added", special=one.render(), plain=two.render())
    ctx.label(kind, f"depth{len(path or 'x')}")
    ctx.trivial(not path or len(path) < 2)


def special_strategy():
    from hypothesis import strategies as st

    path = st.one_of(st.none(), cards.path_strategy(["A", "B", "B/C", "é", "/", "x y"], 3), cards.path_strategy(["A", "B/C", "x y"], 3))
    kind = st.sampled_from(["perm", "fair", "fair", "fair"])
    return st.tuples(kind, path, st.sampled_from([None, "", "desc"]), st.integers(1, 5), st.integers(0, 999), st.booleans()).map(list)


# ---------------------------------------------------------------------------
# several items in one call; places

def evaluate_multi(spec, ctx: Ctx):
    pool, template, before, op = spec
    before, op = cards.resolve([before, op], pool)
    one, m1 = c09.start(template)
    many, m2 = c09.start(template)
    for o in before:
        cards.apply(o, one, m1)
        cards.apply(o, many, m2)
    cards.apply(op, one, m1)
    i = 3 if op[0] == "metrics" else 2 if op[0] == "add" else 1
    # keyword arguments: the last value of a repeated key counts, at the place of the first
    items = {}
    for it in op[i]:
        items[it[0] if op[0] == "metrics" else cards.raw(it[0])] = it
    for it in items.values():
        o = list(op)
        o[i] = [it]
        cards.apply(o, many, m2)
    cards.check_tree(one, m1, "all items in one call: ")
    if one.render() != many.render():
        raise Violation(f"{op[0]}: passing the items in one call or one by one gives different cards", one_call=one.render(), one_by_one=many.render())
    if one.get_toc() != many.get_toc():
        raise Violation(f"{op[0]}: the tables of contents differ")
    for (path, node) in m1.walk():
        s1, s2 = one.select(cards.path_of(path)), many.select(cards.path_of(path))
        if s1.format() != s2.format() or s1.title != s2.title:
            raise Violation(f"{op[0]}: section {path} differs", one_call=s1.format(), one_by_one=s2.format())
        if node.kind == "plot":
            link = f"![{node.extra['alt']}]({node.extra['path']})"
            if link not in s1.format():
                raise Violation(f"section {path} does not show {link!r}", text=s1.format())
        if node.kind == "table":
            fmt = s1.format()
            check_table(fmt[len(node.content):] if node.content else fmt, node.extra["columns"], f"table at {path}")
    c10.expect(one.render(), m1)
    ctx.label(op[0], f"items{len(items)}", f"before{len(before)}")
    ctx.trivial(len(items) < 2)


def multi_strategy():
    from hypothesis import strategies as st

    path = cards.path_strategy(None, 3)
    desc = st.sampled_from([None, "", "desc"])
    one = st.tuples(path, cards.content_strategy()).map(list)
    add = st.builds(lambda f, items: ["add", f, items], st.booleans(), st.lists(one, min_size=1, max_size=4))
    plots = st.tuples(path, st.sampled_from(["p.png", "q/r.png", "é.svg", "a b.png"])).map(list)
    plot = st.builds(lambda items, d, a, f: ["plot", items, d, a, f], st.lists(plots, min_size=1, max_size=4), desc, st.sampled_from([None, None, "", "alt text"]), st.booleans())
    tabs = st.tuples(path, st.one_of(st.sampled_from(c09.SIMPLE), cards.table_strategy(2))).map(list)
    tab = st.builds(lambda items, d, f: ["table", items, d, f], st.lists(tabs, min_size=1, max_size=3), desc, st.booleans())
    metrics = st.builds(lambda p, d, i: ["metrics", p, d, i], path, desc, cards.metric_strategy().filter(bool))
    ops = st.one_of(add, plot, plot, tab, metrics)
    return st.tuples(cards.pool_strategy(False), st.none(), st.lists(ops, max_size=3), ops).map(list)


def subs(tier):
    return [
        Sub("tables", evaluate_table, strategy=table_strategy, n=(4000, 80000)),
        Sub("frames", evaluate_frame, strategy=frame_strategy, n=(600, 10000)),
        Sub("metrics", evaluate_metrics, strategy=metrics_strategy, n=(2000, 40000)),
        Sub("hyper", evaluate_hyper, strategy=hyper_strategy, n=(700, 12000)),
        Sub("every", evaluate_hyper, cases=every_cases, n=(0, 0)),
        Sub("special", evaluate_special, strategy=special_strategy, n=(500, 6000)),
        Sub("multi", evaluate_multi, strategy=multi_strategy, n=(4000, 80000)),
    ]
