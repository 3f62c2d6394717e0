"""Deviations: every document that differs from a base document in one place, or in two.

A deviation gives one field another value (any of its alphabet, or none), one text other
characters, one element another mark, or doubles, drops, swaps or inserts one child.  The
enumeration is bounded by the number of deviations (1, then 2), not by the kind of place.
"""
import copy
import re

from . import adf, ref, words
from .adf import MARKS, NODES, mk, mk_mark, text, typical
from .common import Bad, Family, short

# values that real documents have, beyond the alphabets of adf
LAYOUTS = ["wide", "full-width", "center", "default", "wrap-left", "wrap-right", "align-start", "align-end"]
UUID = "3f0b3c1e-9f0a-4c53-8a1b-000000000000"
REAL = {
    "userType": ["DEFAULT", "SPECIAL", "APP"], "accessLevel": ["NONE", "SITE", "APPLICATION", "CONTAINER"],
    "layout": LAYOUTS, "displayMode": ["default", "fixed"], "panelType": ["info", "note", "tip", "warning", "error", "success", "custom"],
    "color": ["neutral", "purple", "blue", "red", "yellow", "green", "#ff0000"], "style": ["", "bold", "mixedCase"],
    "widthType": ["pixel", "percentage"], "align": ["center", "end", "start"], "annotationType": ["inlineComment"], "mode": ["wide", "full-width"],
    "panelIcon": [":smile:", "1f600"], "panelIconText": ["zz", ""], "panelIconId": ["1f600"], "panelColor": ["#deebff"], "background": ["#deebff", "red"],
    "colspan": [1, 2, 3, 0, None], "rowspan": [1, 2, 3, 0, None], "colwidth": [[120], [0], [120, 240], None], "isNumberColumnEnabled": [True, False, None],
    "width": [760, 100, 0, 1, 33.33, 50, None], "height": [1, 0, 200, None], "originalWidth": [0, 640], "originalHeight": [0, 480],
    "localId": [UUID, "", "x", None], "id": [UUID, "557058:abc", "1f600", "all", "here"], "collection": ["contentId-1", "", "jira-1-files"], "occurrenceKey": ["k", ""],
    "title": ["Zq title", "", None, "a|b"], "language": ["python", "none", "shell", "plaintext", "text", "java", "c++", "", None], "uniqueId": ["u", ""],
    "order": [0, 1, 2, 9, 10, 99, 100, 999, None], "state": ["TODO", "DONE", "DECIDED"], "level": [1, 2, 3, 4, 5, 6],
    "extensionKey": ["toc", "info", "children", "jira"], "extensionType": ["com.atlassian.confluence.macro.core", "com.atlassian.ecosystem", "com.x"],
    "alt": ["zalt", "", None, "a]b"], "data": [{}, {"url": "http://zz", "@type": "x", "name": "zz"}], "parameters": [{}, {"macroParams": {"title": {"value": "zz"}}}, None],
    "datasource": [{"id": UUID, "parameters": {"jql": "zz"}, "views": [{"type": "table"}]}],
}
SPECIALS = ["", " ", "a|b", "\\|", "\\", "  x", "x  ", "x\ty", "\u2028", "a\u2029b", "\x0b", "\x0c", "\x1c", "\x85", "\u00a0", "\u3000", "\u200b", "\ufeff", "*", "**", "*x*", "_x_", "~~",
            "`", "`x`", "``", "# x", "- x", "1. x", "> x", "[x]", "[x](y)", "<br>", "&nbsp;", "&", "<b>", "---", "| --- |", "{0}", "%s", "\\1", "\\n", "None", "False", "0",
            "http://h", "@x", ":x:", "w" * 300, "x y " * 100, "é", "𝄞", "e\u0301", "\u202e", "ß", "null", "***", "===", "$x$", "!", "TODO", "[Extension: x]", "\ud83d"]
BREAKS = ["a\nb", "\n", "a\n\n\nb", "\na", "a\n", "a \n b", "\r", "a\r\nb"]
SPECIALS.remove("\ud83d")
FEW = ["", " ", "|", "\\", "  x ", "\u2028", "**", "`", "# x", "- x", "> ", "<br>", "a\nb", "\n", "w" * 300]


def parents(d):
    out = {}
    for n in adf.walk(d):
        for i, c in enumerate(n.get("content") or []):
            out[id(c)] = (n, i)
    return out


def values(name, alphabet):
    out = []
    for v in list(alphabet) + REAL.get(name, []):
        if not any(type(v) is type(w) and v == w for w in out):
            out.append(v)
    return out


def deviations(d, kinds, texts=None, only=None):
    """Codes of all deviations of a document.  kinds: letters out of
    a (fields of elements), m (marks and their fields), t (texts), s (structure), i (insertions)."""
    texts = SPECIALS if texts is None else texts
    out = []
    nodes = list(adf.walk(d))
    up = parents(d)
    for k, n in enumerate(nodes):
        if only and n["type"] not in only:
            continue
        spec = NODES[n["type"]]
        if "a" in kinds and spec.attrs is not None:
            req, ra, oa = spec.attrs
            a = n.get("attrs") or {}
            for name, alph in list(ra.items()) + list(oa.items()):
                # an alphabet given for a name in general may not fit a required field
                vs = values(name, alph) if name in oa else [v for v in values(name, alph) if v is not None]
                if (n["type"], name) == ("media", "type"):
                    vs = ["file", "external", "link"]
                for v in vs:
                    if not (name in a and a[name] == v and type(a[name]) is type(v)):
                        out.append(["attr", k, name, v])
                if name in oa and name in a and (n["type"], name) != ("media", "id"):
                    out.append(["unset", k, name])
            if not req and "attrs" in n:
                out.append(["noattrs", k])
            if not req and "attrs" not in n:
                out.append(["emptyattrs", k])
        if "a" in kinds and "version" in n:
            out += [["field", k, "version", v] for v in (0, 2, 3, 100) if n["version"] != v]
        if "t" in kinds and n["type"] == "text":
            for s in texts:
                out.append(["text", k, s])
        if "m" in kinds and spec.marks:
            for m in spec.marks:
                for full in (False, True) if MARKS[m] is not None and MARKS[m][1] else (False,):
                    out.append(["mark", k, m, full, 0])
                    if n.get("marks"):
                        out.append(["mark", k, m, full, len(n["marks"])])
            out.append(["marks", k, []])
            for j, m in enumerate(n.get("marks") or []):
                out.append(["unmark", k, j])
                ms = MARKS[m["type"]]
                if ms is not None:
                    for name, alph in list(ms[0].items()) + list(ms[1].items()):
                        for v in alph:
                            if m["attrs"].get(name, 0) != v:
                                out.append(["markattr", k, j, name, v])
        if "s" in kinds:
            if id(n) in up:
                p, i = up[id(n)]
                out.append(["double", k])
                out.append(["drop", k])
                if i + 1 < len(p["content"]):
                    out.append(["swap", k])
                out.append(["many", k])
            if n.get("content"):
                out.append(["clear", k])
                if spec.content == "opt":
                    out.append(["nocontent", k])
        if "i" in kinds and spec.content is not None:
            for c in spec.children:
                for at in (0, -1):
                    for bare in (0, 1):
                        out.append(["insert", k, c, at, bare])
    return out


def deviate(d, codes):
    """The document with the deviations (codes refer to the places of the base document)."""
    d = copy.deepcopy(d)
    nodes = list(adf.walk(d))
    late = []
    for c in codes:
        n = nodes[c[1]]
        if c[0] == "attr":
            n.setdefault("attrs", {})[c[2]] = copy.deepcopy(c[3])
        elif c[0] == "unset":
            n.get("attrs", {}).pop(c[2], None)
        elif c[0] == "noattrs":
            n.pop("attrs", None)
        elif c[0] == "emptyattrs":
            n.setdefault("attrs", {})
        elif c[0] == "text":
            n["text"] = c[2]
        elif c[0] == "field":
            n[c[2]] = c[3]
        elif c[0] == "mark":
            n["marks"] = list(n.get("marks") or [])
            n["marks"].insert(min(c[4], len(n["marks"])), mk_mark(c[2], full=c[3]))
        elif c[0] == "marks":
            n["marks"] = list(c[2])
        elif c[0] == "unmark":
            n["marks"] = [m for j, m in enumerate(n.get("marks") or []) if j != c[2]]
        elif c[0] == "markattr":
            if c[2] < len(n.get("marks") or []) and "attrs" in n["marks"][c[2]] and c[3] in set(MARKS[n["marks"][c[2]]["type"]][0]) | set(MARKS[n["marks"][c[2]]["type"]][1]):
                n["marks"][c[2]]["attrs"][c[3]] = copy.deepcopy(c[4])
        else:
            late.append((c, n))
    up = {}
    for n in nodes:
        for c in n.get("content") or []:
            up[id(c)] = n

    def where(n):
        p = up.get(id(n))
        if p is None or not isinstance(p.get("content"), list):
            return None, None
        for i, x in enumerate(p["content"]):
            if x is n:
                return p["content"], i
        return None, None
    for c, n in late:
        if c[0] in ("double", "drop", "swap", "many"):
            lst, i = where(n)
            if lst is None:
                continue
            if c[0] == "double":
                lst.insert(i, copy.deepcopy(n))
            elif c[0] == "many":
                lst[i:i] = [copy.deepcopy(n) for _ in range(11)]
            elif c[0] == "drop":
                del lst[i]
            elif i + 1 < len(lst):
                lst[i], lst[i + 1] = lst[i + 1], lst[i]
        elif c[0] == "clear":
            n["content"] = []
        elif c[0] == "nocontent":
            n.pop("content", None)
        elif c[0] == "insert":
            if isinstance(n.get("content"), list):
                e = mk(c[2]) if c[4] else typical(c[2])
                n["content"].insert(0 if c[3] == 0 else len(n["content"]), e)
    return d


# ------------------------------------------------------------------- base documents
P = adf.para
LINK = mk_mark("link", href="http://l", title=None)


def li(*c):
    return mk("listItem", *[P(x) if isinstance(x, str) else x for x in c])


def ti(s, state="TODO"):
    return mk("taskItem", text(s), state=state)


def cell(*c, h=False):
    return mk("tableHeader" if h else "tableCell", *[P(x) if isinstance(x, str) else x for x in c])


RICH = {
    "lists": adf.doc(mk("bulletList", li("a", mk("orderedList", li("b"), li("c"), order=3)), li("d")), P("e")),
    "numbers": adf.doc(mk("orderedList", li("a"), li("b", mk("bulletList", li("c", mk("orderedList", li("d"))))), li("e")), mk("orderedList", li("f"), order=7)),
    "tasks": adf.doc(mk("taskList", ti("a", "DONE"), mk("taskList", ti("b"), mk("taskList", ti("c", "DONE"))), ti("d"))),
    "list with tasks": adf.doc(mk("bulletList", li("a", mk("taskList", ti("b", "DONE"), ti("c"))), li(mk("codeBlock", text("d")))), mk("heading", text("e"), level=2)),
    "table": adf.doc(mk("table", mk("tableRow", cell("a", h=True), cell("b", h=True)), mk("tableRow", cell("c"), cell("d", "e")), mk("tableRow", cell("f"), cell("g"))), P("h")),
    "data table": adf.doc(P("z"), mk("table", mk("tableRow", cell("a"), cell(mk("bulletList", li("b"), li("c")))), mk("tableRow", cell("d", h=True), cell(mk("codeBlock", text("e\nf")))))),
    "code": adf.doc(P("a"), mk("codeBlock", text("b\n\n\n  c"), language="python"), P("d"), mk("blockquote", mk("codeBlock", text("e"))), mk("bulletList", li("f", mk("codeBlock", text("g"))))),
    "quotes": adf.doc(mk("blockquote", P("a"), P("b"), mk("bulletList", li("c"))), mk("panel", P("d"), mk("heading", text("e"), level=3), panelType="info"), P("f")),
    "decisions": adf.doc(mk("decisionList", mk("decisionItem", text("a"), mk("hardBreak"), text("b")), mk("decisionItem", text("c"))), P("d")),
    "expand": adf.doc(mk("expand", P("a"), mk("nestedExpand", P("b"), mk("panel", P("c"))), mk("rule"), title="T"), P("d")),
    "headings": adf.doc(mk("heading", text("a"), text("b", "em"), level=1), P("c"), mk("heading", text("d"), level=6, marks=[mk_mark("alignment")]), P("e", marks=[mk_mark("indentation", level=2)])),
    "marks": adf.doc(P(text("a", "strong"), text("b", "em", "strong"), text("c", LINK), text("d", "strike", "code"), text("e", "underline"))),
    "inline": adf.doc(P(text("a"), mk("mention", text="@m"), mk("emoji"), mk("date", timestamp="86400000"), mk("status", text="s"), mk("inlineCard", url="http://c"), mk("hardBreak"), text("z"))),
    "blocks": adf.doc(P("a"), mk("rule"), mk("blockCard", url="http://b"), mk("embedCard", url="http://e"), mk("extension", text="x"), mk("mediaSingle", mk("media", type="external", url="http://m", alt="i")), P("z")),
    "media": adf.doc(mk("mediaSingle", mk("media", type="file", id="f", alt="i"), mk("caption", text("h"))), mk("mediaSingle", mk("media", type="external", url="http://m")), mk("mediaGroup", mk("media", id="g")), P(text("a"), mk("mediaInline"), text("b"))),
}
SMALL = {
    "list": adf.doc(mk("bulletList", li("a", mk("orderedList", li("b"))), li("c"))),
    "tasks": adf.doc(mk("taskList", ti("a", "DONE"), mk("taskList", ti("b")))),
    "table": adf.doc(mk("table", mk("tableRow", cell("a", h=True), cell("b", h=True)), mk("tableRow", cell("c"), cell("d")))),
    "code": adf.doc(P("a"), mk("codeBlock", text("b"), language="python"), P("c")),
    "quote": adf.doc(mk("blockquote", P("a"), P("b"))),
    "panel": adf.doc(mk("panel", P("a"), mk("rule"), panelType="custom")),
    "decisions": adf.doc(mk("decisionList", mk("decisionItem", text("a")), mk("decisionItem", text("b"), mk("hardBreak"), text("c")))),
    "expand": adf.doc(mk("expand", P("a"), mk("nestedExpand", P("b")))),
    "heading": adf.doc(mk("heading", text("a"), text("b", "em"), level=2), P("c")),
    "marks": adf.doc(P(text("a", "strong"), text("b", "em"), text("c", LINK))),
    "inline": adf.doc(P(mk("mention", text="@m"), mk("emoji"), mk("status", text="s"))),
    "inline2": adf.doc(P(text("a"), mk("date", timestamp="86400000"), mk("inlineCard", url="http://c"), mk("hardBreak"), text("z"))),
    "media": adf.doc(mk("mediaSingle", mk("media", type="file", id="f", alt="i"))),
    "external": adf.doc(mk("mediaSingle", mk("media", type="external", url="http://m"))),
    "extension": adf.doc(mk("extension", text="x"), P("y")),
    "cards": adf.doc(mk("blockCard", url="http://b"), mk("embedCard", url="http://e")),
}


def rich(*names):
    return [RICH[n] for n in names] if names else list(RICH.values())


def small(*names):
    return [SMALL[n] for n in names] if names else list(SMALL.values())


def families(check, ones, twos, kinds="amtsi", kinds2=None, more=(), threes=(), kinds3="ams", only=None, limit=600):
    """Families for a check: check(document, ctx) raises Bad.  Thorough: more base documents and texts, three deviations."""
    kinds2 = kinds if kinds2 is None else kinds2
    bases = {1: list(ones), 2: list(twos) + list(more), 3: list(threes)}
    memo = {}

    def devs(which, i, tier):
        key = which, i, tier
        if key not in memo:
            texts = SPECIALS + BREAKS if which == 1 or which == 2 and tier == "thorough" else FEW
            memo[key] = deviations(bases[which][i], (kinds, kinds2, kinds3)[which - 1], texts=texts, only=only)
        return memo[key]

    def go(d, ctx, codes):
        e = deviate(d, codes)
        try:
            check(e, ctx)
        except Bad as b:
            raise Bad("%s\n deviations %s of the base document give %s" % (b, short(codes), short(e, 1500)))

    def one_cases(tier):
        for i in range(len(ones)):
            yield [i]
            for c in devs(1, i, tier):
                yield [i, c]

    def run_one(case, ctx):
        go(ones[case[0]], ctx, case[1:])

    def two_cases(tier):
        for i in range(len(bases[2]) if tier == "thorough" else len(twos)):
            for j in range(len(devs(2, i, tier))):
                yield [i, j]

    def run_two(case, ctx):
        i, j = case
        dd = devs(2, i, ctx.tier)
        for other in dd[j:]:
            go(bases[2][i], ctx, [dd[j], other])
            ctx.extra_states += 1
            ctx.extra_runs += 1

    def three_cases(tier):
        if tier == "thorough":
            for i in range(len(threes)):
                n = len(devs(3, i, tier))
                for j in range(n):
                    for k in range(j, n):
                        yield [i, j, k]

    def run_three(case, ctx):
        i, j, k = case
        dd = devs(3, i, ctx.tier)
        for other in dd[k:]:
            go(bases[3][i], ctx, [dd[j], dd[k], other])
            ctx.extra_states += 1
            ctx.extra_runs += 1
    out = [Family("one deviation", one_cases, run_one, "base documents: every document that differs in one field, text, mark or child, every value", limit=limit),
           Family("two deviations", two_cases, run_two, "small base documents: every pair of deviations", limit=limit)]
    if threes:
        out.append(Family("three deviations", three_cases, run_three, "small base documents: every triple of deviations (thorough)", limit=limit))
    return out


def exact(d, ctx):
    """The Markdown is the one of the reference (also with errors ignored), or the error the reference tells."""
    from .lib import attempt, md, parse
    tree = parse(d, ctx)
    fails = ref.fails(d)
    kind, got = attempt(lambda: md(tree, ctx))
    if (kind == "error") != fails:
        raise Bad("rendering raised %r" % got if kind == "error" else "rendering did not raise but gave %r" % got)
    want = ref.render(ref.prune(d))
    if not fails and not ref.same(got, want):
        raise Bad("Markdown\n got  %r\n want %r" % (got, ref.plain(want)))
    lax = md(tree, ctx, ignore_error=True)
    if not ref.same(lax, want):
        raise Bad("Markdown with errors ignored\n got  %r\n want %r" % (lax, ref.plain(want)))
    ctx.outcome(lax)


# ------------------------------------------------------------- characters and lengths
def blocks_of_characters(tier):
    """[first, last, one by one?]"""
    for a in range(0, 0x110000, 64):
        if 0xd800 <= a < 0xe000:
            continue
        if a < 0x3100 or 0xfe00 <= a < 0x10000 or a in (0xe000, 0x1f600, 0xe0000, 0x10ffc0) or tier == "thorough" and a < 0x20000:
            yield [a, a + 63, 1]
        elif a < 0x20000 or tier == "thorough":
            yield [a, a + 63, 0]


LENGTHS = list(range(0, 140)) + [k + e for k in (150, 160, 180, 200, 240, 255, 256, 300, 400, 500, 512, 600, 750, 800, 1000, 1024, 2000, 2048, 4000, 4096, 5000, 8192, 10000, 32767, 65536, 100000) for e in (-1, 0, 1)]
FILLERS = ["a", "ab ", "x.y, ", "http", "é𝄞", "_"]
MARKERS = "\ue000\ue001"          # used by the reference itself


def characters(makers, check):
    """Every Unicode character in every place; makers: functions from a text to a document."""
    def run(case, ctx):
        first, last, single = case
        cs = [chr(c) for c in range(first, last + 1) if chr(c) not in MARKERS]
        texts = [f % c for c in cs for f in ("%s", "a%sb")] + ["%sb" % c for c in cs] + ["a%s" % c for c in cs] if single else ["x" + "x".join(cs) + "x"]
        for s in texts:
            for m in makers:
                try:
                    check(m(s), ctx)
                except Bad as b:
                    raise Bad("%s\n with the text %s" % (b, short(repr(s), 300)))
                ctx.extra_states += 1
                ctx.extra_runs += 1
    return Family("characters", blocks_of_characters, run, "every Unicode character as text, alone and next to others, in every place", limit=300)


def lengths(makers, check):
    def cases(tier):
        for n in LENGTHS:
            if tier == "thorough" or n <= 10001:
                yield n
        for n in words.near(140, 200000, total=700000):
            if n not in LENGTHS or n > 10001:
                yield n

    def run(n, ctx):
        for f in FILLERS:
            s = (f * (n // len(f) + 1))[:n]
            for m in makers:
                try:
                    check(m(s), ctx)
                except Bad as b:
                    raise Bad("%s\n with a text of %d characters, %r..." % (short(str(b), 2000), n, s[:10]))
                ctx.extra_states += 1
                ctx.extra_runs += 1
    return Family("text lengths", cases, run, "texts of every length up to the bound, in every place", limit=300)


# ------------------------------------------------------------------ sizes and depths
SIZES = list(range(0, 70)) + [k + e for k in (100, 128, 200, 256, 300, 400, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 10000) for e in (-1, 0, 1)]


def sizes(check, types=None, top=1001, fill=None):
    """Every container with every number of children; fill(type of container, i): a child."""
    types = [t for t in NODES if NODES[t].content is not None] if types is None else types

    def cases(tier):
        for n in SIZES:
            if n <= top or tier == "thorough" and n <= 5 * top:
                for t in types:
                    for alike in (1, 0):
                        yield [t, n, alike]
        for n in words.near(70, 12000, total=25000):
            if n not in SIZES or n > top:
                for t in types:
                    yield [t, n, 1]

    def run(case, ctx):
        t, n, alike = case
        kids = NODES[t].children
        if fill:
            es = [fill(t, i if not alike else 0) for i in range(n)]
        else:
            es = [typical(kids[0 if alike else i % len(kids)]) for i in range(n)]
        e = adf.doc(*es) if t == "doc" else mk(t, *es)
        d = adf.label(copy.deepcopy(e if t == "doc" else adf.embed(e)))
        try:
            check(d, ctx)
        except Bad as b:
            raise Bad("%s\n a %s of %d children" % (short(str(b), 2500), t, n))
        # and as the first and the second of two
        if t != "doc" and n <= 300:
            path = adf.PATH[t]
            two = mk(path[-1], e, typical(t)) if path[-1] != "doc" else adf.doc(e, typical(t))
            for x in (two, dict(two, content=two["content"][::-1])):
                check(adf.label(copy.deepcopy(x if x["type"] == "doc" else adf.embed(x))), ctx)
            ctx.extra_states += 2
            ctx.extra_runs += 2
    return Family("sizes", cases, run, "every container with every number of children up to the bound, alone and next to another", limit=300)


LOOPS = {"b": ["bulletList", "listItem"], "o": ["orderedList", "listItem"], "bo": ["bulletList", "listItem", "orderedList", "listItem"], "x": ["taskList"], "bx": None, "ox": None}
AROUND = [(), ("expand",), ("expand", "nestedExpand"), ("panel",), ("expand", "nestedExpand", "panel"), ("table", "tableRow", "tableCell"), ("table", "tableRow", "tableHeader", "nestedExpand"), ("blockquote",),
          ("table", "tableRow", "tableCell", "blockquote"), ("table", "tableRow", "tableCell", "panel")]


def depths(check, top=40, loops=tuple(LOOPS), leaf=None):
    """Lists in lists to every depth, in every kind of block, each kind of thing at the bottom."""
    leaves = [lambda: adf.para("leaf")] + [lambda t=t: typical(t) for t in ("codeBlock", "mediaSingle", "extension")] if leaf is None else leaf

    def cases(tier):
        most = top if tier == "quick" else 2 * top
        for n in list(range(1, most + 1)):
            for loop in loops:
                for a in range(len(AROUND)):
                    if loop == "x" and AROUND[a] and "taskList" not in NODES[AROUND[a][-1]].children:
                        continue
                    for side in (0, 1, 2, 3):
                        yield [loop, n, a, side]
        for n in words.near(most + 1, 100):
            for loop in loops:
                yield [loop, n, 0, 0]

    def run(case, ctx):
        loop, n, a, side = case
        for v, make in enumerate(leaves):
            if n > 12 and v and (n + v) % 4 or side and v:
                continue
            if loop in ("x", "bx", "ox"):
                tasks = n if loop == "x" else (n + 1) // 2
                node = None
                for i in range(tasks):
                    own = mk("taskItem", text("t"), state="DONE" if i % 2 else "TODO")
                    node = mk("taskList", own, *([node] if node else []), *([mk("taskItem", text("u"))] if side & 1 else []))
                    if side & 2 and i:
                        node["content"].append(mk("taskList", mk("taskItem", text("v"), state="DONE")))
                kinds = [] if loop == "x" else [{"b": "bulletList", "o": "orderedList"}[loop[0]]] * (n // 2)
            else:
                node = make()
                path = LOOPS[loop][::2]
                kinds = [path[i % len(path)] for i in range(n)][::-1]
            for k in kinds:
                items = [mk("listItem", P("i"), node, *([P("tail")] if side & 2 else []))]
                if side & 1:
                    items += [mk("listItem", P("after"))]
                if side & 2:
                    items.insert(0, mk("listItem", P("before")))
                node = mk(k, *items)
            for t in reversed(AROUND[a]):
                node = mk(t, node, *([typical(NODES[t].children[0])] if side & 1 else []))
            try:
                check(adf.label(adf.doc(P("first"), node, P("last"))), ctx)
            except Bad as b:
                raise Bad("%s\n lists %s nested %d deep in %s" % (short(str(b), 2500), loop, n, AROUND[a]))
            ctx.extra_states += 1
            ctx.extra_runs += 1
    return Family("depths", cases, run, "lists of every kind nested to every depth up to the bound in every block", limit=300)


# ------------------------------------------- documents with elements that cannot be rendered
def no(t, *fields, **kw):
    e = mk(t, **kw)
    for f in fields:
        e["attrs"].pop(f, None)
    return e


NOCARD = no("inlineCard", "url")
NOBLOCK = no("blockCard", "url")
CODE2 = text("x\ny", "code")
NODATE = mk("date", timestamp="soon")
NOIMG = mk("mediaSingle", no("media", "url", type="external", alt="n"))
FAILING = {
    "inline": adf.doc(P(text("a"), NOCARD, text("b "), CODE2, text(" c"), NODATE, mk("hardBreak"), text("d"))),
    "only": adf.doc(P("a"), P(NOCARD), mk("heading", CODE2, level=2), P("b"), NOBLOCK, P("c"), NOIMG, P("d")),
    "lists": adf.doc(mk("orderedList", li("a"), li(P(NOCARD)), li("b", NOIMG), li(P(text("c"), CODE2), mk("bulletList", li(P(NODATE)), li("d"))), li("e"), order=3)),
    "tasks": adf.doc(mk("taskList", ti("a", "DONE"), mk("taskItem", CODE2, state="DONE"), mk("taskList", mk("taskItem", NOCARD), ti("b")), ti("c"))),
    "decisions": adf.doc(mk("decisionList", mk("decisionItem", text("a"), NOCARD), mk("decisionItem", CODE2), mk("decisionItem", text("b")))),
    "table": adf.doc(mk("table", mk("tableRow", cell("a", h=True), cell(P(NOCARD), h=True)), mk("tableRow", cell(NOBLOCK), cell("b", NOIMG, "c")), mk("tableRow", cell(P(CODE2)), cell(P(NODATE))))),
    "quotes": adf.doc(mk("blockquote", P("a"), P(NOCARD), NOIMG, P("b")), mk("panel", NOBLOCK, P(text("c"), CODE2), panelType="note"), mk("panel", NOBLOCK, panelType="info"), P("d")),
    "expand": adf.doc(mk("expand", P("a"), NOBLOCK, mk("nestedExpand", P(NOCARD), P("b"), NOIMG), P("c"), title="T")),
}


def failing(*names):
    return [FAILING[n] for n in names] if names else list(FAILING.values())


# --------------------------------------------------- the constants of the code as values
def _texts():
    def table(h):
        return lambda s: adf.doc(mk("table", mk("tableRow", cell(P(s) if h else "a", h=True), cell("b", h=True)), mk("tableRow", cell("c"), cell("d" if h else P(s)))))
    out = {
        "paragraph": lambda s: adf.doc(P("a"), P(s), P("b")),
        "after text": lambda s: adf.doc(P(text("a"), text(s), mk("hardBreak"), text(s), mk("mention", text="@m"))),
        "heading": lambda s: adf.doc(mk("heading", text(s), level=2), P("b")),
        "item": lambda s: adf.doc(mk("bulletList", li(s), li("a", s))),
        "number": lambda s: adf.doc(mk("orderedList", li(s, mk("bulletList", li(s))), li("b"), order=3)),
        "task": lambda s: adf.doc(mk("taskList", ti(s, "DONE"), mk("taskList", ti(s)), ti("b"))),
        "decision": lambda s: adf.doc(mk("decisionList", mk("decisionItem", text(s), mk("hardBreak"), text(s)), mk("decisionItem", text("b")))),
        "quote": lambda s: adf.doc(mk("blockquote", P(s), P("a"))),
        "panel": lambda s: adf.doc(mk("panel", P("a"), P(s), mk("bulletList", li(s)))),
        "expand": lambda s: adf.doc(mk("expand", P(s), mk("nestedExpand", P(s), P("a")))),
        "cell": table(False), "header": table(True),
        "code": lambda s: adf.doc(P("a"), mk("codeBlock", text(s)), P("b")),
        "code in an item": lambda s: adf.doc(mk("bulletList", li("a", mk("codeBlock", text("x\n" + s + "\ny"), language="python")))),
        "caption": lambda s: adf.doc(mk("mediaSingle", mk("media", type="file", id="f"), mk("caption", text(s))), P("a")),
    }
    for m in MARKS:
        if m in adf.TEXT_MARKS:
            out["text marked " + m] = lambda s, m=m: adf.doc(P(text("a"), text(s, m), text("b")))
    return out


TEXT_SLOTS = _texts()
# fields whose documentation lists the values that are allowed
CLOSED = {("media", "type"), ("panel", "panelType"), ("date", "timestamp"), ("taskItem", "state")}


def _put(t, k, full):
    def make(s):
        e = typical(t, full=full)
        e.setdefault("attrs", {})[k] = s
        return adf.embed(e) if t != "doc" else e
    return make


def _put_mark(m, k, host):
    def make(s):
        x = mk_mark(m)
        x["attrs"][k] = s
        e = text("w", x) if host == "text" else typical(host)
        e["marks"] = [x]
        return adf.doc(P("a"), P(e)) if host == "text" else adf.embed(e)
    return make


def field_slots():
    """Every field of every element, those with a closed set of values left out: name -> function from a value to a document."""
    out = {}
    for t, spec in NODES.items():
        if spec.attrs is not None:
            for k in list(spec.attrs[1]) + list(spec.attrs[2]):
                alph = values(k, list(spec.attrs[1].get(k, spec.attrs[2].get(k, []))))
                kind = "s" if any(isinstance(v, str) for v in alph) else "n" if any(type(v) in (int, float) for v in alph) else "f"
                if (t, k) not in CLOSED and kind != "f":
                    for full in (False, True):
                        out["%s.%s%s" % (t, k, " (full)" if full else ""), kind] = _put(t, k, full)
    for m, spec in MARKS.items():
        for k in [] if spec is None else list(spec[0]) + list(spec[1]):
            alph = list(spec[0].get(k, spec[1].get(k, [])))
            kind = "s" if any(isinstance(v, str) for v in alph) else "n" if any(type(v) in (int, float) for v in alph) else "f"
            if kind != "f":
                for host in [h for h in NODES if NODES[h].marks and m in NODES[h].marks]:
                    out["%s %s.%s" % (host, m, k), kind] = _put_mark(m, k, host)
    return out


FIELD_SLOTS = field_slots()
LIMITS = {"level": (1, 6), "order": (0, 10 ** 9)}


def forms(w):
    """A word of the code and texts that contain it; words that are only names in fewer forms."""
    return words.forms(w) if len(w) < 3 or not w.isidentifier() else [w, w + "x", "x" + w, w + " x", w.upper(), w.capitalize()]


def constants(check, texts=True, fields=True, only=None, skip=lambda s: "```" in s):
    """Every constant of the code under test as a text and as the value of every field."""
    def places():
        for name in TEXT_SLOTS if texts is True else texts or ():
            yield name, "t", TEXT_SLOTS[name]
        if fields:
            for (name, kind), make in FIELD_SLOTS.items():
                if only is None or only(name):
                    yield name, kind, make

    def cases(tier):
        for name, kind, _ in places():
            if kind == "n":
                low, high = LIMITS.get(name.split(".")[-1].split(" ")[0], (0, 10 ** 12))
                for n in sorted(set(words.near(low, high))):
                    yield [name, kind, n]
            else:
                for w in words.words():
                    if not skip(w):
                        yield [name, kind, w]

    table = {}

    def run(case, ctx):
        name, kind, w = case
        if not table:
            table.update({(n, k): m for n, k, m in places()})
        for v in [w] if kind == "n" else forms(w):
            if kind != "n" and skip(v) or name.startswith("codeBlock.language") and re.search("[\n`]", v):
                continue
            d = table[name, kind](v)
            try:
                check(d, ctx)
            except Bad as b:
                raise Bad("%s\n with %s for %s" % (b, short(repr(v), 300), name))
            ctx.extra_states += 1
            ctx.extra_runs += 1
    return Family("constants of the code", cases, run, "every constant that occurs in the library as a text and as the value of every field, alone and in larger texts", limit=300)


# ------------------------------------------------ two values of which one is made from the other
def _pairs():
    D = adf.doc
    link = lambda b, **k: mk_mark("link", href=b, **k)
    row = lambda *c: mk("tableRow", *c)
    return {
        "marks": {
            "text and href": lambda a, b: D(P(text(a, link(b)), "z")),
            "bold text and href": lambda a, b: D(P(text(a, "strong", link(b)), text(a, link(b), "em"))),
            "title and href": lambda a, b: D(P(text("x", link(b, title=a)))),
            "text and title": lambda a, b: D(P(text(a, link("http://l", title=b)))),
            "two hrefs": lambda a, b: D(P(text("x", link(a)), text("y", link(b)), text("z", link(a)))),
            "one text, two links": lambda a, b: D(P(text(a, link(b)), text(b, link(a)), text(a, link(a), link(b)))),
            "runs": lambda a, b: D(P(text(a, "strong"), text(b, "strong"), text(a, "em"), text(b, "code"))),
            "image and link": lambda a, b: D(mk("mediaSingle", mk("media", type="external", url=a, alt="x", marks=[link(b)]))),
        },
        "inline": {
            "alt and url": lambda a, b: D(mk("mediaSingle", mk("media", type="external", alt=a, url=b))),
            "alt and id": lambda a, b: D(mk("mediaSingle", mk("media", type="file", alt=a, id=b))),
            "id and collection": lambda a, b: D(mk("mediaSingle", mk("media", type="file", id=a, collection=b))),
            "id and url": lambda a, b: D(mk("mediaSingle", mk("media", type="external", id=a, url=b)), mk("mediaSingle", mk("media", type="file", id=a, url=b))),
            "key and type": lambda a, b: D(mk("extension", extensionKey=a, extensionType=b)),
            "key and text": lambda a, b: D(mk("extension", extensionKey=a, text=b)),
            "type and text": lambda a, b: D(mk("extension", extensionType=a, text=b)),
            "mention text and id": lambda a, b: D(P(mk("mention", text=a, id=b))),
            "emoji text and name": lambda a, b: D(P(mk("emoji", text=a, shortName=b))),
            "emoji id and name": lambda a, b: D(P(mk("emoji", id=a, shortName=b))),
            "emoji id and text": lambda a, b: D(P(mk("emoji", shortName=":x:", id=a, text=b))),
            "two cards": lambda a, b: D(P(mk("inlineCard", url=a), mk("inlineCard", url=b), mk("inlineCard", url=a)), mk("blockCard", url=b), mk("embedCard", url=a), mk("embedCard", url=b)),
            "text and card": lambda a, b: D(P(text(a), mk("inlineCard", url=b), text(a)), mk("blockCard", url=b), P(a), mk("embedCard", url=b)),
            "text and mention": lambda a, b: D(P(text(a), mk("mention", text=b), mk("mention", text=a))),
            "text and status": lambda a, b: D(P(mk("status", text=a), mk("status", text=b), text(a))),
            "emojis": lambda a, b: D(P(mk("emoji", shortName=a), mk("emoji", shortName=b), mk("emoji", shortName=a, text=b))),
        },
        "blocks": {
            "heading and paragraph": lambda a, b: D(mk("heading", text(a), level=1), P(b), mk("heading", text(b), level=2), mk("heading", text(b), level=2)),
            "paragraphs": lambda a, b: D(P(a), P(b), P(b), P(a)),
            "paragraphs of two runs": lambda a, b: D(P(text(a), text(b)), P(text(b), text(a))),
            "code and paragraph": lambda a, b: D(P(a), mk("codeBlock", text(b)), P(b)),
            "expand title": lambda a, b: D(mk("expand", P(b), mk("nestedExpand", P(b), P(a), title=a), title=a)),
            "extension and paragraph": lambda a, b: D(P(a), mk("extension", text=b, extensionKey=a), P(b)),
            "caption and alt": lambda a, b: D(mk("mediaSingle", mk("media", type="file", alt=a, id="f"), mk("caption", text(b))), P(b)),
        },
        "quotes": {
            "panel": lambda a, b: D(mk("panel", P(a), P(b), panelType="info"), mk("panel", P(b), P(a), panelType="custom", panelIconText=a)),
            "quote": lambda a, b: D(mk("blockquote", P(a), P(b)), mk("blockquote", P(b))),
            "decisions": lambda a, b: D(mk("decisionList", mk("decisionItem", text(a), mk("hardBreak"), text(b)), mk("decisionItem", text(b)), mk("decisionItem", text(b)))),
        },
        "code": {
            "language and code": lambda a, b: D(P("x"), mk("codeBlock", text(b), language=a), P("y")),
            "code in two texts": lambda a, b: D(P("x"), mk("codeBlock", text(a), text(b)), mk("codeBlock", text(b)), P("y")),
        },
        "lists": {
            "items": lambda a, b: D(mk("bulletList", li(a), li(b), li(b))),
            "item and nested": lambda a, b: D(mk("orderedList", li(a, mk("bulletList", li(b), li(a))), li(b), order=2)),
            "item of two paragraphs": lambda a, b: D(mk("bulletList", li(a, b), li(b, a))),
            "tasks": lambda a, b: D(mk("taskList", ti(a, "DONE"), ti(b), mk("taskList", ti(a), ti(b, "DONE")))),
        },
        "tables": {
            "cells": lambda a, b: D(mk("table", row(cell(P(a)), cell(P(b)), cell(P(b))), row(cell(P(b)), cell(P(a)), cell("z")))),
            "header and cells": lambda a, b: D(mk("table", row(cell(P(a), h=True), cell(P(b), h=True)), row(cell(P(a)), cell(P(b))), row(cell(P(a), h=True), cell(P(b), h=True)))),
            "blocks in a cell": lambda a, b: D(mk("table", row(cell(P(a), P(b)), cell(mk("heading", text(a), level=3), P(b))))),
        },
    }


PAIRS = _pairs()
FIRSTS = ["ab", "http://h/x", "a@b.c", "Word one", "@me", ":x:", "info", "INFO", "1", "#t", "a.png", "x/y"]
AFFIXES = ["mailto:", "http://", "https://", "tel:", "file://", "www.", "ftp://", "#", "@", "/", "//", "://", ":", ".", "?", "!", ",", ";", "s", "…", "...", "\\", "(", ")", "[", "]", "<", ">", "_", "-", "- ", "1. ", "1) ", "* ", "+ ", "# ", "> ", "=", "&", "%", "\u00a0", "\u200b", "\ufeff", " ", "  ", "\t", "0", "jira/", "browse/", "Re: ", "@Unknown", "media:"]


def related(check, topics, skip=lambda s: "```" in s):
    """Every pair of fields or texts, the second value being made from the first one."""
    table = {t + ": " + n: f for t in topics for n, f in PAIRS[t].items()}

    def cases(tier):
        for name in table:
            for i in range(len(FIRSTS)):
                yield [name, i, "fixed"]
                if i < (2 if tier == "quick" else 8):
                    yield [name, i, "words"]

    def run(case, ctx):
        name, i, how = case
        a = FIRSTS[i]
        if how == "fixed":
            others = [a, a.lower(), a.upper(), a.title(), a.swapcase(), a[::-1], a[1:], a[:-1], a + a, a + " " + a, a.strip(":@#"), a.replace(" ", "-"), a.replace(" ", "_"), a.replace("/", "%2F"), ""]
            affixes = AFFIXES
        else:
            others, affixes = [], [w for w in words.words() if w and not skip(w)]
        others += [w + a for w in affixes] + [a + w for w in affixes] + [w + a + w for w in affixes if len(w) < 4]
        for b in dict.fromkeys(others):
            for x, y in ((a, b), (b, a)):
                if name.startswith("code: language") and re.search("[\n`]", x):
                    continue
                try:
                    check(table[name](x, y), ctx)
                except Bad as e:
                    raise Bad("%s\n with %s for %s" % (e, short(repr((x, y)), 300), name))
                ctx.extra_states += 1
                ctx.extra_runs += 1
    return Family("related values", cases, run, "every pair of fields or texts whose second value is made from the first one (equal, with a prefix or suffix, in other case, reversed), with fixed affixes and all strings of the code", limit=300)
