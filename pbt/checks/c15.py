"""C15 - parsing a document yields a card with the same outline and content."""
from __future__ import annotations

import copy
import functools
import json
import os
import re
import shutil
import subprocess

from .. import cards, scratch
from ..core import Ctx, Skip, Sub, Violation
from . import c14

RULE = (
    "A case is a pandoc document tree: headers of arbitrary levels followed by blocks over all supported block and inline types, every text carrying a unique marker. The parsed card is compared with an outline built by a "
    "level stack, every block with a tolerant pattern of its own text, every conversion with one by a new converter. Non-trivial: at least two headers of different levels and two blocks, or a history of three conversions"
)

ATTR = ["", [], []]
WS = object()    # blanks or line breaks (quote symbols at line starts)
GAP = object()   # the same or nothing


def quote(text):
    """Pattern of a text as markdown."""
    out = []
    for c in text:
        if c == "\\":
            out.append(r"\\{1,2}")  # a literal backslash may be escaped
        elif c in "\xa0 ":
            out.append("[ \xa0]")
        elif c in "`~":
            out.append(r"\\?" + c)
        else:
            out.append(re.escape(c))
    return "".join(out)


class Builder:
    """Spec -> pandoc JSON and the pattern of its markdown."""

    def __init__(self, layout="new"):
        self.n = 0
        self.layout = layout
        self.cell = False

    def text(self, t):
        while "@" in t:
            t = t.replace("@", f"m{self.n}x", 1)
            self.n += 1
        return t

    def inlines(self, items):
        js, pat = [], []
        for it in items:
            j, p = self.inline(it)
            js.append(j)
            pat += p
        return js, pat

    def inline(self, it):
        k = it[0]
        if k == "str":
            t = self.text(it[1])
            pat = [quote(t)]
            if t[:1] in "#-=+>":
                pat = [r"\\?" + pat[0]]
            if t[:1] in "\u2610\u2612":
                pat = ["(?:" + pat[0] + r"|\[[x ]\]" + quote(t[1:]) + ")"]
            return {"t": "Str", "c": t}, pat
        if k == "sp":
            return {"t": "Space"}, [WS]
        if k == "sb":
            return {"t": "SoftBreak"}, [WS]
        if k == "lb":
            return {"t": "LineBreak"}, [r"(?:\\|  )?", WS]
        if k in ("emph", "strong", "strike"):
            js, pat = self.inlines(it[1])
            name, sym = {"emph": ("Emph", "[*_]"), "strong": ("Strong", r"(?:\*\*|__)"), "strike": ("Strikeout", r"(?:\\?~){2}")}[k]
            return {"t": name, "c": js}, [sym] + pat + [sym]
        if k == "code":
            t = self.text(it[1])
            return {"t": "Code", "c": [ATTR, t]}, ["`+ ?" + re.escape(t) + " ?`+"]
        if k == "rawi":
            t = self.text(it[1])
            return {"t": "RawInline", "c": ["html", t]}, [re.escape(t)]
        if k == "q":
            js, pat = self.inlines(it[2])
            sym = {"D": '["\u201c\u201d]', "S": "['\u2018\u2019]"}[it[1]]
            return {"t": "Quoted", "c": [{"t": {"D": "DoubleQuote", "S": "SingleQuote"}[it[1]]}, js]}, [sym] + pat + [sym]
        if k == "link":
            js, pat = self.inlines(it[1])
            url = self.text(it[2])
            return {"t": "Link", "c": [ATTR, js, [url, it[3]]]}, [r"\["] + pat + [r"\]\(<?" + re.escape(url) + r">?[^\n()]*\)"]
        if k == "img":
            js, pat = self.inlines(it[1])
            url = self.text(it[2])
            return {"t": "Image", "c": [ATTR, js, [url, "fig:" + it[3]]]}, [r"!\["] + pat + [r"\]\(<?" + re.escape(url) + r">?[^\n()]*\)"]
        raise AssertionError(it)

    def blocks(self, items):
        js, pat = [], []
        for it in items:
            j, p = self.block(it)
            js.append(j)
            pat += [GAP] + p
        return js, pat

    def block(self, it):
        k = it[0]
        if k in ("para", "plain"):
            js, pat = self.inlines(it[1])
            return {"t": {"para": "Para", "plain": "Plain"}[k], "c": js}, pat
        if k == "rawb":
            t = self.text(it[1])
            return {"t": "RawBlock", "c": ["html", t]}, [self.lines(t)]
        if k == "div":
            _, ident, classes, kvs, items = it
            js, pat = self.blocks(items)
            tag = "<div"
            attrs = []
            if ident:
                attrs.append(f'id="{re.escape(ident)}"')
            if classes:
                attrs.append('class="' + re.escape(" ".join(classes)) + '"')
            for a, v in kvs:
                attrs.append(f'{re.escape(a)}="{re.escape(v)}"' if v else re.escape(a) + '(?:="")?')
            return {"t": "Div", "c": [[ident, classes, kvs], js]}, ["<div" + "".join(r"\s+" + a for a in attrs) + r"\s*>"] + pat + [GAP, "</div>"]
        if k in ("bl", "ol"):
            items = it[-1]
            js, pat = [], []
            for i, item in enumerate(items):
                j, p = self.blocks(item)
                js.append(j)
                pat += [GAP, r"[-*+]" if k == "bl" else f"{it[1] + i}[.)]", GAP] + p
            if k == "bl":
                return {"t": "BulletList", "c": js}, pat
            return {"t": "OrderedList", "c": [[it[1], {"t": "Decimal"}, {"t": "Period"}], js]}, pat
        if k == "bq":
            js, pat = self.blocks(it[1])
            return {"t": "BlockQuote", "c": js}, [">", GAP] + pat
        if k == "cb":
            t = self.text(it[2])
            return {"t": "CodeBlock", "c": [["", it[1], []], t]}, ["[`~]{3,}" + "[ ,]*".join(re.escape(c) for c in it[1]), WS, self.lines(t), WS, "[`~]{3,}"]
        if k == "fig":
            js, pat = self.inlines(it[1])
            url = self.text(it[2])
            img = {"t": "Image", "c": [ATTR, js, [url, ""]]}
            cap = [None, [{"t": "Plain", "c": js}]]
            return {"t": "Figure", "c": [ATTR, cap, [{"t": "Plain", "c": [img]}]]}, [r"!\["] + pat + [r"\]\(<?" + re.escape(url) + r">?[^\n()]*\)"]
        if k == "tab":
            return self.table(it)
        raise AssertionError(it)

    @staticmethod
    def lines(t):
        """Code or raw text: its lines verbatim, which may all be indented or quoted."""
        return r"[ ]*\n[ >]*".join("[ \xa0]*" if not l.strip(" \xa0") else quote(l).replace(r"\\{1,2}", r"\\") for l in t.split("\n"))

    def table(self, it):
        _, layout, head, groups = it  # groups: rows of [head rows, body rows, foot rows]; cells: blocks
        width = max([len(head or [])] + [len(r) for g in groups for r in g] + [1])
        width = min(width, 4)
        align = {"t": "AlignDefault"}
        pats = []

        def cell(c):
            js, pat = self.blocks(c)
            return js, pat

        def row(cells):
            cells = (cells + [[]] * width)[:width]
            out = [cell(c) for c in cells]
            pats.append([p for _, p in out])
            return [j for j, _ in out]

        hd = row(head) if head is not None else None
        if hd is None:
            pats.append([[] for _ in range(width)])
        body = [[row(r) for r in g] for g in groups]
        if layout == "old":
            js = [[], [align] * width, [0.0] * width, hd if hd is not None else [[] for _ in range(width)], [r for g in body for r in g]]
        else:
            def cells(r):
                return [ATTR, [[ATTR, align, 1, 1, c] for c in r]]

            groups = list(body)
            foot = groups.pop() if len(groups) > 1 else []
            tb = [[ATTR, 0, [], [cells(r) for r in g]] for g in groups] if layout == "new" else [[ATTR, 0, [cells(r) for r in g[:1]], [cells(r) for r in g[1:]]] for g in groups]
            js = [ATTR, [None, []], [[align, {"t": "ColWidthDefault"}]] * width, [ATTR, [cells(hd)] if hd is not None else []], tb, [ATTR, [cells(r) for r in foot]]]
        return {"t": "Table", "c": js}, [("table", pats)]


def pattern(toks, gap=r"[\s>]"):
    out = []
    pend = None
    for t in toks:
        if t is WS or t is GAP:
            pend = "+" if t is WS or pend == "+" else "*"
            continue
        if pend:
            out.append(gap + pend)
            pend = None
        out.append(t)
    if pend:
        out.append(gap + pend)
    return "".join(out)


def check_block(text, toks, what):
    """`text` is the markdown of the block."""
    if toks and isinstance(toks[0], tuple):
        want = toks[0][1]
        header, rows = c14.parse_table(text, what)
        rows = [header] + rows
        if len(rows) != len(want):
            raise Violation(f"{what}: {len(rows) - 1} rows, expected {len(want) - 1}", text=text)
        for have, pats in zip(rows, want):
            if len(have) != len(pats):
                raise Violation(f"{what}: {len(have)} columns, expected {len(pats)}", text=text)
            for h, p in zip(have, pats):
                # a cell has one line
                if not re.fullmatch(r"\s*" + pattern(p, r"(?:\s|<br ?/?>|>)").replace("[ \xa0]", "[ \xa0]*") + r"\s*", h):
                    raise Violation(f"{what}: cell {h!r} does not show its content", text=text, pattern=pattern(p))
        return
    p = pattern(toks)
    if not re.fullmatch(r"\s*" + p + r"\s*", text):
        raise Violation(f"{what}: its markdown does not show its content, each text once and in order", text=text, pattern=p)


def source(blocks):
    return json.dumps({"pandoc-api-version": [1, 22, 2, 1], "meta": {}, "blocks": blocks})


def parse(blocks, what="generate"):
    from skops.card._parser import PandocParser

    return cards.guard(what, lambda: PandocParser(source(blocks)).generate())


def tree_of(sections):
    return [[s, tree_of(s.subsections)] for s in sections.values()]


PREFIX = re.compile(r"(?:[ >]|[-*+](?= )|\d+[.)](?= ))*")


def outline_of(text):
    """Headings of a markdown text: (level, title)."""
    out, fence, prev = [], None, ""
    for line in text.split("\n"):
        inner = line[PREFIX.match(line).end():]
        m = re.match("(`{3,}|~{3,})(.*)", inner)
        if fence:
            if m and m[1][0] == fence[0] and len(m[1]) >= len(fence) and not m[2].strip():
                fence = None
            prev = ""
            continue
        if m and not (m[1][0] == "`" and "`" in m[2]):
            fence, prev = m[1], ""
            continue
        h = re.match(r" {0,3}(#{1,6})(?:[ \t]+(.*)|)$", line)
        if h:
            out.append((len(h[1]), (h[2] or "").strip()))
            prev = ""
            continue
        if re.match(" {0,3}(-+|=+) *$", line) and prev.strip():
            out.append((0, prev.strip()))
        prev = line
    if fence:
        raise Violation(f"a code fence {fence!r} is not closed", text=text)
    return out


def build(doc):
    b = Builder()
    js, heads = [], []  # heads: [level, title tokens, [(block json, tokens, spec)]]
    for it in doc:
        if it[0] == "h":
            j, p = b.inlines(it[2])
            js.append({"t": "Header", "c": [it[1], ["", [], []], j]})
            heads.append((it[1], p, [], it))
        else:
            j, p = b.block(it)
            js.append(j)
            heads[-1][2].append((j, p, it))
    return js, heads


def expected_tree(heads):
    root, stack = [], []
    for h in heads:
        while stack and stack[-1][0] >= h[0]:
            stack.pop()
        node = [h, []]
        (stack[-1][1][1] if stack else root).append(node)
        stack.append((h[0], node))
    return root


def check_card(card, heads, what=""):
    want = expected_tree(heads)
    flat = []

    def rec(have, want, path):
        if len(have) != len(want):
            raise Violation(f"{what}the sections below {path} are {[s.title for s, _ in have]}, expected {len(want)} for the headers {[(w[0][0], pattern(w[0][1])) for w in want]}", headers=[(h[0], pattern(h[1])) for h in heads])
        for (s, sub), (h, wsub) in zip(have, want):
            if not re.fullmatch(pattern(h[1], "[ \xa0]"), s.title):
                raise Violation(f"{what}section {s.title!r} below {path} for the header {h[3]}", pattern=pattern(h[1], "[ \xa0]"))
            if h[1] and all(k[0] in ("str", "sp") for k in h[3][2]) and "\n" in s.title:
                raise Violation(f"{what}title {s.title!r}")
            flat.append((s, h, len(path) + 1))
            rec(sub, wsub, path + [s.title])

    rec(tree_of(card._data), want, [])
    return flat


def evaluate(doc, ctx: Ctx):
    js, heads = build(doc)
    before = json.dumps(js)
    card = parse(js)
    flat = check_card(card, heads)
    nblocks = 0
    for s, h, depth in flat:
        what = f"section {s.title!r}"
        if not isinstance(s.content, str):
            raise Violation(f"{what}: content {s.content!r:.100}")
        if s.folded or not s.visible:
            raise Violation(f"{what} is hidden or folded")
        singles = []
        for j, p, it in h[2]:
            nblocks += 1
            ctx.label(j["t"])
            alone = next(iter(parse([{"t": "Header", "c": [1, ATTR, [{"t": "Str", "c": "T"}]]}, j], f"converting {it}"[:300])._data.values())).content
            check_block(alone, p, f"block {it}"[:300])
            singles.append(alone)
        pos = 0
        for alone in singles:
            at = s.content.find(alone, pos)
            if at < 0 or s.content[pos:at].strip("\n"):
                raise Violation(f"{what} does not hold its blocks as they are converted alone", content=s.content, alone=singles)
            pos = at + len(alone)
        if s.content[pos:].strip("\n"):
            raise Violation(f"{what} holds more than its blocks as they are converted alone", content=s.content, alone=singles)
        if s.content != s.content.replace("\r", ""):
            raise Violation(f"{what}: carriage return")
    # rendering
    text = cards.guard("render", card.render)
    have = outline_of(text)
    want = [(depth, s.title.strip()) for s, h, depth in flat]
    if have != want:
        raise Violation(f"the rendered outline is {have}, expected {want}", text=text)
    toc = cards.guard("get_toc", card.get_toc)
    if toc != "\n".join("  " * (depth - 1) + "- " + s.title for s, _, depth in flat):
        raise Violation(f"table of contents {toc!r}, sections {want}")
    # addressable
    def unique(sections):
        titles = [s.title for s in sections.values()]
        return len(set(titles)) == len(titles) and all(unique(s.subsections) for s in sections.values())

    def visit(sections, path):
        for s in sections.values():
            p = path + [[s.title, "", ""]]
            if cards.guard(f"select({cards.raw(p)!r})", lambda: card.select(cards.raw(p))) is not s:
                raise Violation(f"select({cards.raw(p)!r}) is not the section of the header")
            visit(s.subsections, p)

    if unique(card._data) and all(cards.valid_title(s.title) and not s.title.endswith("\\") for s, _, _ in flat):
        ctx.label("addressable")
        visit(card._data, [])
    # the same again
    again = parse(js)
    if again.render() != text or again.get_toc() != toc:
        raise Violation("parsing the document again gives another card", first=text, second=again.render())
    if json.dumps(js) != before:
        raise Violation("the input was modified")
    levels = [h[0] for h in heads]
    ctx.label(f"heads{min(len(heads), 8)}", "first deep" if levels[0] > 1 else "first 1")
    if any(b > a + 1 for a, b in zip(levels, levels[1:])):
        ctx.label("skips a level")
    ctx.trivial(len(set(levels)) < 2 or nblocks < 2)


# ---------------------------------------------------------------------------
# conversion is independent of what was converted before

BAD = [{"t": "HorizontalRule"}, {"t": "Math", "c": [{"t": "InlineMath"}, "x"]}, {"t": "does-not-exist", "c": []}, {"t": "Quoted", "c": [{"t": "TripleQuote"}, [{"t": "Str", "c": "q"}]]},
       {"t": "Image", "c": [ATTR, [{"t": "Str", "c": "cap"}], ["u", "no fig"]]}]


def poison(js, where, bad):
    """Put an unsupported element at some place of a block."""
    spots = []

    def rec(x):
        if isinstance(x, list):
            if x and all(isinstance(y, dict) and "t" in y and not y["t"].startswith(("Align", "ColWidth", "Double", "Single", "Dec", "Per")) for y in x):
                spots.append(x)
            for y in x:
                rec(y)
        elif isinstance(x, dict):
            rec(x.get("c"))

    js = copy.deepcopy(js)
    rec(js)
    if not spots:
        return bad
    # the deepest places are the last ones
    s = spots[-1 - where % len(spots)]
    s.insert(where % (len(s) + 1), bad)
    return js


def wrap(how, js, js2):
    """Block with the given ones at other levels."""
    for h in how:
        if h == "bl":
            js = {"t": "BulletList", "c": [[{"t": "Plain", "c": [{"t": "Str", "c": "w"}]}, js]]}
        elif h == "bl2":
            js = {"t": "BulletList", "c": [[js], [copy.deepcopy(js), js2], [js2]]}
        elif h == "ol":
            js = {"t": "OrderedList", "c": [[1, {"t": "Decimal"}, {"t": "Period"}], [[{"t": "Plain", "c": [{"t": "Str", "c": "w"}]}, js], [js2]]]}
        elif h == "bq":
            js = {"t": "BlockQuote", "c": [js, js2]}
        elif h == "div":
            js = {"t": "Div", "c": [["", ["c"], []], [js, js2]]}
        else:
            raise AssertionError(h)
    return js


def evaluate_order(spec, ctx: Ctx):
    """A converter gives for each element what a new converter gives."""
    from skops.card._markup import Markdown

    steps, sharing = spec
    one = Markdown()
    other = Markdown()
    b = Builder()
    failed = 0
    earlier = []
    for i, (it, where, bad, again) in enumerate(steps):
        if again is not None and earlier:
            # elements which the converters have seen, somewhere else
            js = wrap(again[1], copy.deepcopy(earlier[again[0] % len(earlier)]), copy.deepcopy(earlier[where % len(earlier)]))
            it = ["again", again[1]]
            ctx.label("again:" + "-".join(again[1]))
        elif it[0] == "h":
            j, _ = b.inlines(it[2])
            js = {"t": "Header", "c": [it[1], ATTR, j]}
        else:
            js, _ = b.block(it)
        if js["t"] != "Header" and len(json.dumps(js)) < 20000:
            earlier.append(js)
        if bad is not None:
            broken = poison(js, where, BAD[bad % len(BAD)])
            snap = json.dumps(broken)
            results = []
            for conv in (Markdown(), one, other if sharing else one):
                try:
                    results.append(("value", conv(broken)))
                except ValueError as e:
                    results.append(("error", str(e)))
                except Exception as e:
                    raise Violation(f"converting {broken} raises {e!r}"[:600])
            if any(r != results[0] for r in results):
                raise Violation(f"step {i}: converting {broken} gives {results}"[:1500])
            if json.dumps(broken) != snap:
                raise Violation(f"step {i}: the element was modified: {snap:.300}")
            if results[0][0] == "error":
                failed += 1
                if "Figure" not in snap and BAD[bad % len(BAD)]["t"] in ("HorizontalRule", "Math", "does-not-exist") and repr(BAD[bad % len(BAD)]["t"])[1:-1] not in results[0][1]:
                    raise Violation(f"the error for {BAD[bad % len(BAD)]['t']} is {results[0][1]!r}")
            elif BAD[bad % len(BAD)]["t"] in ("HorizontalRule", "Math", "does-not-exist") and "Figure" not in snap:
                raise Violation(f"an unsupported element is accepted: {broken}"[:600], result=results[0][1])
            ctx.label("failing")
        snap = json.dumps(js)
        fresh = cards.guard(f"converting {it}"[:300], lambda: Markdown()(copy.deepcopy(js)))
        for conv, name in ((one, "the same converter"), (other, "another converter"), (one, "the same converter, again")):
            have = cards.guard(f"step {i}: converting {it}"[:300], lambda: conv(js))
            if have != fresh:
                raise Violation(f"step {i}: {name} gives another result for {it}"[:500], fresh=fresh, have=have)
        if json.dumps(js) != snap:
            raise Violation(f"step {i}: the element was modified: {snap:.500} -> {json.dumps(js):.500}")
        ctx.label(it[0])
    # a parser which failed gives the card of the document afterwards
    ctx.label(f"failed{min(failed, 4)}")
    ctx.trivial(len(steps) < 3)


def evaluate_fail(spec, ctx: Ctx):
    """A document with an unsupported element is refused and leaves no trace."""
    from skops.card._parser import PandocParser

    doc, pos, where, bad = spec
    js, heads = build(doc)
    blocks = [i for i, j in enumerate(js) if j["t"] != "Header"]
    want = parse(js).render()
    elem = BAD[bad % len(BAD)]
    broken = list(js)
    if blocks and where % 3:
        i = blocks[pos % len(blocks)]
        broken[i] = poison(js[i], where, elem)
    else:
        broken.insert(1 + pos % len(js), elem)
    parser = PandocParser(source(broken))
    for _ in range(2):
        try:
            parser.generate()
        except ValueError:
            failed = True
        except Exception as e:
            raise Violation(f"generate raises {e!r} for a document with {elem}")
        else:
            failed = False
    # the same parser object with the sane document
    parser.source = source(js)
    for k in range(2):
        have = cards.guard("generate", parser.generate).render()
        if have != want:
            raise Violation(f"after {'failing' if failed else 'parsing another document'}, the parser gives another card", have=have, want=want)
    if parse(js).render() != want:
        raise Violation("a new parser gives another card after a failure")
    ctx.label("failed" if failed else "accepted", elem["t"])
    ctx.trivial(not failed)


# ---------------------------------------------------------------------------
# with pandoc itself

@functools.lru_cache(None)
def pandoc():
    return shutil.which("pandoc")


def run_pandoc(args, text):
    r = subprocess.run([pandoc()] + args, input=text.encode(), capture_output=True, timeout=120)
    if r.returncode:
        raise RuntimeError(r.stderr.decode()[:500])
    return r.stdout.decode()


def words(x):
    """Markers of a pandoc tree in document order."""
    return re.findall(r"m\d+x", json.dumps(x))


def evaluate_pandoc(doc, ctx: Ctx):
    """The rendered card and the card of the saved file have the outline of the document."""
    from skops.card import parse_modelcard

    if not pandoc():
        ctx.label("no pandoc")
        ctx.trivial()
        return
    js, heads = build(doc)
    card = parse(js)
    flat = check_card(card, heads)
    text = card.render()
    back = json.loads(run_pandoc(["-f", "markdown-auto_identifiers", "-t", "json"], text))["blocks"]
    have, cur = [], None
    for b in back:
        if b["t"] == "Header":
            cur = [b["c"][0], words(b["c"][2]), []]
            have.append(cur)
        elif cur is None:
            raise Violation(f"text before the first heading: {b}"[:300], text=text)
        else:
            cur[2] += words(b)
    want = [[depth, words(js_header(h)), [w for j, _, _ in h[2] for w in dedupe(words(j))]] for s, h, depth in flat]
    for hv in have:
        hv[2] = dedupe(hv[2])
    if [x[:2] for x in have] != [x[:2] for x in want]:
        raise Violation(f"pandoc reads the outline {[x[:2] for x in have]} from the rendered card, expected {[x[:2] for x in want]}", text=text)
    for hv, w in zip(have, want):
        if hv[2] != w[2]:
            raise Violation(f"below heading {hv[1]} pandoc reads the texts {hv[2]}, expected {w[2]}", text=text)
    # the card which is saved and parsed again
    with scratch.case_dir() as d:
        path = os.path.join(d, "card é.md")
        card.save(path)
        try:
            again = parse_modelcard(path)
        except ValueError as e:
            ctx.label("not parsed again")  # pandoc makes elements of the text that are not supported
        except Exception as e:
            raise Violation(f"parse_modelcard raises {e!r}", text=text)
        else:
            have = [(depth, re.findall(r"m\d+x", s.title), dedupe(re.findall(r"m\d+x", s.content))) for s, depth in walk(again._data)]
            if have != [tuple(x) for x in want]:
                raise Violation(f"the card of the saved file has the sections {have}, expected {want}", text=text, again=again.render())
            ctx.label("parsed again")
    ctx.trivial(len(heads) < 2)


def dedupe(ws):
    return list(dict.fromkeys(ws))


def js_header(h):
    return h[3][2] if False else h_words(h)


def h_words(h):
    return re.findall(r"m\d+x", pattern(h[1]))


def walk(sections, depth=1):
    for s in sections.values():
        yield s, depth
        yield from walk(s.subsections, depth + 1)


# ---------------------------------------------------------------------------
# generators

WORDS = ["@", "@", "@", "@", "@.", "@,", "é@", "@\\", "\\@", "@/x", "/", "a|@", "#", "##", "-", "---", "===", "*", "@*", "1.", "+", ">", "\xa0@", "@\xa0@", "\u2612", "\u2610", "日本@", "[x]", "&amp;", "#@", "\\", "\\\\@", "$@$", "<@>", "-@", "\u2019"]
TITLE_WORDS = ["@", "@", "@", "@/@", "/", "@/", "/@", "@\\", "\\/", "@\\/@", "Input/Output", "a", "b", "#", "*@*", "é", "@\xa0b", "1.", "-", "a", "A", "//", "日本", "\u2612", "x\\y", ":", "|"]
RAW = ["<b>@</b>", "<!-- @ -->", "<details><summary>@</summary>\n@\n</details>", "<img src=\"@.png\">", "<p\n  align=\"center\">@</p>", "<hr>", "<br />", "<pre>\n  @\n    @\n</pre>", "<a href='x\\y'>@</a>", "<pre>\n@\n\n\n\n@  \n@\n</pre>", "<!--\n\n\n@\n-->"]
CODE = ["@", "@ = 1", "# @", "import @\n\n# @\nx = '@'", "```\n@\n```", "~~~\n@", "````\n# @\n````", "  @\n    @", "@ \\ \\\\", "a | b @", "@\n---\n", "", "\n@", "<div>@</div>", "@\t@", "```python\n# @", "@\n\n\n@", "@\n\n\n\n    @  \n@", "@  \n\n  \n@ ", "\n\n@\n\n", "@\n\t@\n\n\n\n\n@", "    @", "@   @\n@", "Üñ @ 日本"]


def inline_strategies(words=None, images=True):
    from hypothesis import strategies as st

    word = st.sampled_from(words or WORDS).map(lambda t: ["str", t])
    url = st.sampled_from(["http://@.org", "#a-@", "p/@.png", "x?y=@&z", "@"])

    def seq(inner, n=4):
        # words are separated by blanks
        sep = st.sampled_from([["sp"], ["sp"], ["sp"], ["sb"], ["lb"], None])
        def join(pairs):
            out = []
            for i, (x, s) in enumerate(pairs):
                if out and (s is not None or (out[-1][0] == "str" and x[0] == "str")):
                    out.append(s or ["sp"])
                out.append(x)
            return out
        return st.lists(st.tuples(inner, sep), min_size=1, max_size=n).map(join)

    code = st.sampled_from(["@", "@ b", "\\@", "# @", "a|@", "--@"]).map(lambda t: ["code", t])
    rawi = st.sampled_from(["<b>", "<br>@", "<a name='@'>", "<sub>@</sub>", "@<!-- x -->"]).map(lambda t: ["rawi", t])
    leaf = st.one_of(word, word, word, code, rawi)

    def ext(c):
        s = seq(c, 3)
        alts = [st.tuples(st.sampled_from(["emph", "strong", "strike"]), s).map(list), st.tuples(st.just("q"), st.sampled_from("DS"), s).map(list),
                st.tuples(st.just("link"), s, url, st.sampled_from(["", "title"])).map(list)]
        if images:
            alts.append(st.tuples(st.just("img"), s, url, st.sampled_from(["", "t"])).map(list))
        return st.one_of(*alts)

    rec = st.recursive(leaf, ext, max_leaves=4)
    return seq(st.one_of(word, word, rec)), seq


def block_strategy(nest=True):
    from hypothesis import strategies as st

    inl, seq = inline_strategies()
    para = inl.map(lambda x: ["para", x])
    plain = inl.map(lambda x: ["plain", x])
    fence = st.tuples(st.sampled_from(["```", "~~~", "````", "```@", "~~~~@"]), st.sampled_from([["sp"], ["sb"]]), st.sampled_from(["@", "#", "---", "~~~"]), st.booleans()).map(
        lambda t: ["para", ([["str", "@"], ["sb"]] if t[3] else []) + [["str", t[0]], t[1], ["str", t[2]]]])
    rawb = st.sampled_from(RAW).map(lambda t: ["rawb", t])
    cb = st.tuples(st.just("cb"), st.sampled_from([[], [], ["python"], ["py", "x"]]), st.sampled_from(CODE)).map(list)
    fig = st.tuples(st.just("fig"), inl, st.sampled_from(["p@.png", "http://@/x.svg"])).map(list)
    leaf = st.one_of(para, para, plain, rawb, cb, cb, fence)
    div = lambda c: st.tuples(st.just("div"), st.sampled_from(["", "i1", "id-x"]), st.sampled_from([[], [], ["warning"], ["a", "b"]]), st.sampled_from([[], [["hidden", ""]], [["k", "v w"]], [["k", "v"], ["l", ""]]]), st.lists(c, min_size=1, max_size=3)).map(list)

    def ext(c):
        item = st.lists(st.one_of(plain, para, c), min_size=1, max_size=3)
        items = st.lists(item, min_size=1, max_size=3)
        return st.one_of(items.map(lambda x: ["bl", x]), items.map(lambda x: ["bl", x]), st.tuples(st.just("ol"), st.sampled_from([1, 1, 1, 0, 3, 9]), items).map(list),
                         st.lists(c, min_size=1, max_size=3).map(lambda x: ["bq", x]), div(c))

    nested = st.recursive(leaf, ext, max_leaves=5)
    cell = st.one_of(st.just([]), inl.map(lambda x: [["plain", x]]), inl.map(lambda x: [["plain", x]]), st.tuples(para, para).map(list))
    row = st.lists(cell, min_size=1, max_size=3)
    head = st.one_of(st.none(), row, row, st.sampled_from([[[["plain", [["str", "a"]]]]] * 2, [[["plain", [["str", "a"]]]], []]]))
    tab = st.tuples(st.just("tab"), st.sampled_from(["old", "new", "new", "newhead"]), head, st.lists(st.lists(row, max_size=2), min_size=1, max_size=3)).map(list)
    return st.one_of(nested, nested, nested, tab, fig, leaf)


def header_strategy(words=None, rich=True):
    from hypothesis import strategies as st

    level = st.integers(1, 6)
    level = st.one_of(level, st.integers(1, 3))
    word = st.sampled_from(words or TITLE_WORDS).map(lambda t: ["str", t])
    simple = st.lists(st.tuples(word, st.sampled_from([["sp"], ["sp"], ["sb"]])), min_size=1, max_size=3).map(lambda ps: [y for i, (w, s) in enumerate(ps) for y in ([s, w] if i else [w])])
    if rich:
        inl, _ = inline_strategies([w for w in TITLE_WORDS if w != "\u2612"], images=False)
        simple = st.one_of(simple, simple, inl, st.just([]) if words is None else simple)
    return st.tuples(st.just("h"), level, simple).map(list)


def doc_strategy():
    from hypothesis import strategies as st

    block = block_strategy()
    head = header_strategy()
    same = st.tuples(st.just("h"), st.integers(1, 3), st.sampled_from([[["str", "A"]], [["str", "A"]], [["str", "A/B"]], [["str", "B"]]])).map(list)
    sect = st.tuples(st.one_of(head, head, same), st.lists(block, max_size=3)).map(lambda t: [t[0]] + t[1])
    return st.lists(sect, min_size=1, max_size=6).map(lambda ss: [x for s in ss for x in s])


def outline_strategy():
    """Deep outlines with little text."""
    from hypothesis import strategies as st

    head = header_strategy(rich=False)
    para = st.just(["para", [["str", "@"]]])
    sect = st.tuples(head, st.lists(para, max_size=2)).map(lambda t: [t[0]] + t[1])
    return st.lists(sect, min_size=3, max_size=14).map(lambda ss: [x for s in ss for x in s])


def order_strategy():
    from hypothesis import strategies as st

    again = st.tuples(st.integers(0, 10), st.lists(st.sampled_from(["bl", "bl", "bl2", "ol", "bq", "div"]), max_size=3)).map(list)
    step = st.tuples(st.one_of(block_strategy(), block_strategy(), header_strategy()), st.integers(0, 20), st.one_of(st.none(), st.integers(0, 4)), st.one_of(st.none(), again)).map(list)
    return st.tuples(st.lists(step, min_size=1, max_size=7), st.booleans()).map(list)


def fail_strategy():
    from hypothesis import strategies as st

    return st.tuples(doc_strategy(), st.integers(0, 20), st.integers(0, 20), st.integers(0, 4)).map(list)


def pandoc_strategy():
    """Documents whose texts mean the same when they are read as markdown again."""
    from hypothesis import strategies as st

    words = ["@", "@", "@", "@.", "é@", "@/x", "#", "@-@", "\\@"]
    word = st.sampled_from(words).map(lambda t: ["str", t])
    safe = st.just(["str", "@"])
    fmt = st.one_of(st.tuples(st.sampled_from(["emph", "strong", "strike"]), st.just([["str", "@"]])).map(list), st.just(["code", "@"]), st.just(["link", [["str", "@"]], "http://x.org", ""]))
    sep = st.sampled_from([["sp"], ["sp"], ["sb"]])
    inl = st.tuples(safe, st.lists(st.tuples(sep, st.one_of(word, word, fmt)), max_size=4)).map(lambda t: [t[0]] + [y for p in t[1] for y in p])
    para = inl.map(lambda x: ["para", x])
    plain = inl.map(lambda x: ["plain", x])
    hashes = st.tuples(st.sampled_from(["#", "##", "---", "===", "-", "#@"]), st.lists(st.tuples(sep, word), max_size=2)).map(lambda t: ["para", [["str", t[0]]] + [y for p in t[1] for y in p]] if t[0][0] == "#" else ["para", [["str", "@"], ["sb"], ["str", t[0]], ["sb"], ["str", "@"]]])
    cb = st.tuples(st.just("cb"), st.sampled_from([[], ["python"]]), st.sampled_from(["@", "# @", "@\n\n# @\nx", "# @\n\n## @", "```\n# @\n```", "x\n---\n@"])).map(list)
    item = st.tuples(plain, st.lists(cb, max_size=1)).map(lambda t: [t[0]] + t[1])
    deep = st.tuples(plain, st.lists(item, min_size=1, max_size=2)).map(lambda t: [t[0], ["bl", t[1]]])
    lists = st.one_of(st.lists(st.one_of(item, deep), min_size=1, max_size=3).map(lambda x: ["bl", x]), st.lists(item, min_size=1, max_size=3).map(lambda x: ["ol", 1, x]))
    bq = st.one_of(para, cb).map(lambda x: ["bq", [x]])
    div = st.one_of(para, cb, para).map(lambda x: ["div", "", ["c"], [], [x]])
    cell = st.sampled_from([[["plain", [["str", "@"]]]], [["plain", [["str", "@"], ["sp"], ["emph", [["str", "@"]]]]]], []])
    row = st.lists(cell, min_size=2, max_size=3)
    tab = st.tuples(st.just("tab"), st.sampled_from(["old", "new"]), row, st.lists(st.lists(row, min_size=1, max_size=2), min_size=1, max_size=2)).map(list)
    block = st.one_of(para, hashes, cb, lists, bq, div, tab)
    title = st.lists(st.sampled_from(["@", "@/@", "\\@", "@\\x", "/", "@", "é"]).map(lambda t: ["str", t]), min_size=1, max_size=3).map(lambda ws: [y for i, w in enumerate(ws) for y in ([["sp"], w] if i else [w])])
    title = st.one_of(title, st.tuples(st.just(["str", "@"]), sep, fmt).map(list))
    head = st.tuples(st.just("h"), st.integers(1, 6), title).map(list)
    sect = st.tuples(head, st.lists(block, max_size=3)).map(lambda t: [t[0]] + t[1])
    return st.lists(sect, min_size=1, max_size=5).map(lambda ss: [x for s in ss for x in s])


def subs(tier):
    return [
        Sub("documents", evaluate, strategy=doc_strategy, n=(4000, 100000)),
        Sub("outlines", evaluate, strategy=outline_strategy, n=(2500, 50000)),
        Sub("order", evaluate_order, strategy=order_strategy, n=(3000, 80000)),
        Sub("failures", evaluate_fail, strategy=fail_strategy, n=(1500, 30000)),
        Sub("pandoc", evaluate_pandoc, strategy=pandoc_strategy, n=(600, 10000)),
    ]
