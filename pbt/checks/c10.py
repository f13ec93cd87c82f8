"""C10 - rendering shows exactly the visible tree, in order; save and the table of contents agree with it."""
from __future__ import annotations

import os
import pathlib
import re

from .. import cards, scratch
from ..core import Ctx, Sub, Violation
from . import c09

RULE = (
    "A case is a card reached by a sequence of edits (sections, plots, tables, metrics, deletions, overwrites, visible/folded/title/content edits), rendered, saved and listed after the edits (and again "
    "after some of them). Non-trivial: at least three sections, one of them hidden, folded or below a folded section"
)


def token(text, s, pos, what, line=False):
    """Position after `text`, which has to be next in `s` (only empty lines before it)."""
    want = text.strip("\n")
    while pos < len(s) and s[pos] == "\n":
        pos += 1
    if not s.startswith(want, pos):
        raise Violation(f"{what}: expected {want!r:.200} next, found {s[pos:pos + 200]!r}", rendered=s)
    pos += len(want)
    if pos < len(s) and s[pos] != "\n":
        raise Violation(f"{what}: {want!r:.200} is followed by {s[pos:pos + 100]!r} on the same line", rendered=s)
    return pos


SUMMARY = re.compile(r"\n*<summary>[^<\n]*</summary>(?=\n)")
TABLE = re.compile(r"\n*(\|[^\n]*\|\n\|[-: |]+\|(?:\n\|[^\n]*\|)*)(?=\n|$)")


def expect(s, model):
    pos = 0

    def body(node, pos, what):
        if node.kind == "text":
            return token(node.content, s, pos, what) if node.content.strip("\n") else pos
        if node.kind == "plot":
            return token(f"![{node.extra['alt']}]({node.extra['path']})", s, pos, what)
        if node.kind == "table":
            m = TABLE.match(s, pos)
            if not m:
                raise Violation(f"{what}: no table at {s[pos:pos + 200]!r}", rendered=s)
            return m.end()
        raise AssertionError(node.kind)

    def section(node, depth, pos):
        what = f"section {node.title!r}"
        pos = token("#" * depth + " " + node.title, s, pos, f"heading of {what}")
        if node.kind != "text" and node.content.strip("\n"):
            pos = token(node.content, s, pos, f"description of {what}")
        if node.folded:
            pos = token("<details>", s, pos, f"folded {what}")
            m = SUMMARY.match(s, pos)
            if not m:
                raise Violation(f"folded {what}: no summary at {s[pos:pos + 100]!r}", rendered=s)
            pos = body(node, m.end(), f"content of {what}")
            pos = token("</details>", s, pos, f"end of folded {what}")
        else:
            pos = body(node, pos, f"content of {what}")
            for c in node.children.values():
                if c.visible:
                    pos = section(c, depth + 1, pos)
        return pos

    for c in model.children.values():
        if c.visible:
            pos = section(c, 1, pos)
    if s[pos:].strip("\n"):
        raise Violation(f"unexpected text at the end: {s[pos:]!r:.300}", rendered=s)


def look(card, model, how, what):
    text = cards.guard("render", card.render)
    if not isinstance(text, str):
        raise Violation(f"{what}render returns {type(text)}")
    expect(text, model)
    toc = cards.guard("get_toc", card.get_toc)
    want = "\n".join(cards.toc_lines(model))
    if toc != want:
        raise Violation(f"{what}table of contents is\n{toc}\nbut the rendered headings are\n{want}", rendered=text)
    if not how:
        return
    with scratch.case_dir() as d:
        sub = os.path.join(d, "out dir")
        os.mkdir(sub)
        path = os.path.join(sub, "README é.md")
        if how[0]:  # an older, longer file
            with open(path, "wb") as f:
                f.write(b"old \xff" * 20000)
        cards.guard("save", lambda: card.save(path if how[1] else pathlib.Path(path)))
        with open(path, "rb") as f:
            data = f.read()
        if data != text.encode("utf-8"):
            raise Violation(f"{what}save writes {data[:300]!r}..., render gives {text[:300]!r}...")
        if os.listdir(sub) != ["README é.md"]:
            raise Violation(f"{what}save leaves {os.listdir(sub)}")
    if card.render() != text or card.get_toc() != toc:
        raise Violation(f"{what}rendering or saving changes the card")


def evaluate(spec, ctx: Ctx):
    pool, template, ops, how = spec
    template, ops = cards.resolve([template, ops], pool)
    card, model = c09.start(template)
    for i, op in enumerate(ops):
        cards.apply(op, card, model)
        if how[2] and i % 3 == 2:
            look(card, model, None, f"after operation {i}: ")
    look(card, model, how, "")
    nodes = [n for _, n in model.walk()]
    hidden = [n for n in nodes if not n.visible]
    folded = [n for n in nodes if n.folded]
    ctx.label(f"nodes{min(len(nodes), 9)}", f"hidden{min(len(hidden), 3)}", f"folded{min(len(folded), 3)}", "saved")
    if any(n.visible and n.folded and n.children for n in nodes):
        ctx.label("children of folded")
    if any(not n.visible and n.children for n in nodes):
        ctx.label("children of hidden")
    ctx.trivial(len(nodes) < 3 or not (hidden or folded))


def strategy():
    from hypothesis import strategies as st

    path = cards.path_strategy(None, 4, ["", "", " "])
    content = cards.content_strategy()
    desc = st.sampled_from([None, "", "desc", "d\n\ne", "é"])
    one = st.tuples(path, content).map(list)
    add = st.builds(lambda f, items: ["add", f, items], st.sampled_from([False, False, False, True]), st.lists(one, min_size=1, max_size=3))
    plot = st.builds(lambda items, d, a, f: ["plot", items, d, a, f], st.lists(st.tuples(path, st.sampled_from(["p.png", "a b/c.png", "é.svg"])).map(list), min_size=1, max_size=2), desc,
                     st.one_of(st.none(), st.just("alt")), st.booleans())
    tabs = st.builds(lambda items, d, f: ["table", items, d, f], st.lists(st.tuples(path, st.sampled_from(c09.SIMPLE)).map(list), min_size=1, max_size=2), desc, st.booleans())
    metrics = st.builds(lambda p, d, i: ["metrics", p, d, i], path, desc, st.lists(st.sampled_from([["acc", 1], ["f1", "x"], ["é", None]]), min_size=1, max_size=3))
    dele = st.builds(lambda p: ["delete", p, "str"], path)
    flag = st.builds(lambda p, a, v: ["set", p, a, v], path, st.sampled_from(["visible", "folded"]), st.booleans())
    text = st.one_of(st.builds(lambda p, c: ["set", p, "content", c], path, content), st.builds(lambda p, t: ["set", p, "title", t], path, st.sampled_from(["A", "New title", "A/B", "# x", "é"])))
    ops = st.one_of(add, add, add, add, plot, tabs, metrics, dele, flag, flag, flag, flag, text)
    lists = st.one_of(st.lists(ops, min_size=1, max_size=6), st.lists(ops, min_size=6, max_size=16), st.lists(ops, min_size=6, max_size=16))
    how = st.tuples(st.booleans(), st.booleans(), st.booleans()).map(list)
    return st.tuples(cards.pool_strategy(False), c09.template_strategy(None), lists, how).map(list)


# ---------------------------------------------------------------------------
# every assignment of flags on small trees

SHAPES = [[[]], [[[]]], [[], []], [[[[]]]], [[[], []]], [[[]], []], [[[[], []]], []], [[[[[]]]], [[]]]]


def build(shape, flags, kinds):
    """Nested lists -> operations; flags: two bits per node in document order."""
    ops, setters = [], []
    i = 0

    def rec(sh, prefix):
        nonlocal i
        for k, child in enumerate(sh):
            path = prefix + [[f"S{i}", "", ""]]
            kind = kinds[i % len(kinds)]
            if kind == "plot":
                ops.append(["plot", [[path, f"p{i}.png"]], f"desc {i}", None, False])
            elif kind == "table":
                ops.append(["table", [[path, [[["col", [f"cell {i}"]]], "dict"]]], f"desc {i}", False])
            else:
                ops.append(["add", False, [[path, f"content {i}"]]])
            f = flags >> (2 * i) & 3
            if f & 1:
                setters.append(["set", path, "visible", False])
            if f & 2:
                setters.append(["set", path, "folded", True])
            i += 1
            rec(child, path)

    rec(shape, [])
    return ops + setters, i


def evaluate_flags(spec, ctx: Ctx):
    shape, flags, kinds, order = spec
    ops, n = build(shape, flags, kinds)
    card, model = c09.start(None)
    for op in ops if not order else ops[:n] + ops[n:][::-1]:
        cards.apply(op, card, model)
    look(card, model, [0, 1, 0] if flags % 7 == 0 else None, "")
    ctx.label(f"nodes{n}")
    ctx.trivial(flags == 0)


def flag_cases(tier):
    out = []
    for shape in SHAPES:
        n = str(shape).count("[") - 1
        for kinds in [["text"], ["plot", "text", "table"]]:
            for flags in range(4 ** n):
                if n > 3 and tier == "quick" and flags % (3 if n == 4 else 11):
                    continue
                out.append([shape, flags, kinds, flags % 2])
    # deep: one chain, with nothing, or only one section, flagged; and wide
    for depth in (5, 6, 7, 8, 9, 12, 40) + (() if tier == "quick" else (100, 200)):
        shape = []
        for _ in range(depth):
            shape = [shape]
        wide = [[] for _ in range(depth)]
        for sh in (shape, wide):
            out.append([sh, 0, ["text"], 0])
            for at in range(0, depth, 1 if depth < 13 else 7):
                for flag in (1, 2, 3):
                    out.append([sh, flag << 2 * at, ["text", "plot", "table"], at % 2])
    return out


def skops_strategy():
    from hypothesis import strategies as st

    names = ["Model description", "Training Procedure", "Hyperparameters", "Evaluation Results", "Intended uses & limitations", "Citation", "Model Card Authors"]
    path = st.one_of(st.sampled_from([["Model description"], ["Model description", "Training Procedure"], ["Model description", "Training Procedure", "Hyperparameters"],
                                      ["Model description", "Training Procedure", "Model Plot"], ["Citation"]]), st.lists(st.sampled_from(names), min_size=1, max_size=3))
    path = path.map(lambda p: [[t, "", ""] for t in p])
    flag = st.builds(lambda p, a, v: ["set", p, a, v], path, st.sampled_from(["visible", "folded"]), st.booleans())
    add = st.builds(lambda p, f: ["add", f, [[p, "new"]]], path, st.booleans())
    return st.lists(st.one_of(flag, flag, add), min_size=1, max_size=6)


def evaluate_skops(spec, ctx: Ctx):
    """The default template; the diagram is taken from the card."""
    card, model = c09.start("skops")
    for _, node in model.walk():
        if node.kind == "opaque":
            node.kind = "text"
            node.content = card.select("Model description/Training Procedure/Model Plot").content
    for op in spec:
        cards.apply(op, card, model)
    look(card, model, [0, 0, 0], "")
    ctx.trivial(not any(op[0] == "set" for op in spec))


# ---------------------------------------------------------------------------
# copied plots

def evaluate_copy(spec, ctx: Ctx):
    """save(copy_files=True) writes the same text and copies exactly the shown plots."""
    shape, flags, kinds = spec
    ops, n = build(shape, flags, kinds)
    with scratch.case_dir() as d:
        src, dst = os.path.join(d, "src"), os.path.join(d, "dst")
        os.mkdir(src)
        os.mkdir(dst)
        card, model = c09.start(None)
        for op in ops:
            if op[0] == "plot":
                name = op[1][0][1]
                with open(os.path.join(src, name), "w") as f:
                    f.write(name)
                op[1][0][1] = os.path.join(src, name)
            cards.apply(op, card, model)
        cards.guard("save", lambda: card.save(os.path.join(dst, "README.md"), copy_files=True))
        with open(os.path.join(dst, "README.md"), "rb") as f:
            data = f.read()
        text = card.render()
        expect(text, model)
        if data != text.encode("utf-8"):
            raise Violation(f"save(copy_files=True) writes {data[:300]!r}, render gives {text[:300]!r}")
    ctx.trivial("plot" not in kinds)


def copy_cases(tier):
    return [[s, f, ["plot", "text"]] for s in SHAPES[:6] for f in range(0, 4 ** (str(s).count("[") - 1), 1 if tier != "quick" else 3)]


# ---------------------------------------------------------------------------
# a process whose locale is not UTF-8

PROG = """
import json, sys
from skops.card import Card
for path, title, content, how in json.load(sys.stdin):
    card = Card(None, template=None)
    card.add(**{title: content})
    card.save(path)
"""


def evaluate_locale(spec, ctx: Ctx):
    import json
    import subprocess
    import sys

    import skops

    env = dict(os.environ, PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", LC_ALL="C", LANG="C", PYTHONPATH=os.path.dirname(os.path.dirname(skops.__file__)))
    with scratch.case_dir() as d:
        jobs = [[os.path.join(d, f"{i}.md"), t, c, 0] for i, (t, c) in enumerate(spec)]
        p = subprocess.run([sys.executable, "-c", PROG], input=json.dumps(jobs), capture_output=True, text=True, env=env, timeout=120)
        if p.returncode:
            raise Violation(f"save fails in a process with the C locale: {p.stderr.strip().splitlines()[-1:]}")
        for (path, _, _, _), (t, c) in zip(jobs, spec):
            from skops.card import Card

            with open(path, "rb") as f:
                data = f.read()
            card = Card(None, template=None)
            card.add(**{t: c})
            if data != card.render().encode("utf-8"):
                raise Violation(f"save writes {data!r} in a process with the C locale, not the rendered text as UTF-8")
    ctx.units = len(spec)


def locale_cases(tier):
    return [[["A", "plain"], ["é", "ü ✓"], ["日本", "😀\u2028x"], ["x", "\xa0"], ["A/é", "tab\t\r\nline"]]]


def subs(tier):
    return [
        Sub("flags", evaluate_flags, cases=flag_cases, n=(0, 0)),
        Sub("locale", evaluate_locale, cases=locale_cases, n=(0, 0)),
        Sub("copy", evaluate_copy, cases=copy_cases, n=(0, 0)),
        Sub("edits", evaluate, strategy=strategy, n=(8000, 200000)),
        Sub("skops", evaluate_skops, strategy=skops_strategy, n=(400, 6000)),
    ]
