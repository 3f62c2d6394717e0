"""C16: every line of a quote, panel or decision carries the quote marker."""
import copy
import itertools

from mc import adf, deco, gen, lib, ref
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import api, check_markdown, dump, md, parse
from props.c15 import MENU

ID = "C16"
EXHAUSTIVE = True
ASSUMPTIONS = ["a line ends at a line feed or at a carriage return, at no other character"]

T = mk("hardBreak")


def quoted(s):
    """'> ' in front of every line."""
    return ref.quote_lines(s)


def content_md(kids, ctx):
    """The Markdown of the blocks themselves: that of an expand, which adds nothing."""
    return md(parse(mk("expand", *copy.deepcopy(kids)), ctx), ctx)


def check_box(kids, ctx, kind, panel_type="info"):
    e = mk(kind, *copy.deepcopy(kids), **({"panelType": panel_type} if kind == "panel" else {}))
    got = md(parse(e, ctx), ctx)
    inner = content_md(kids, ctx)
    if kind == "panel":
        head = "**" + panel_type.upper() + "**"
        inner_lines = inner.lstrip("\n")
        want = head + "\n\n" + inner_lines
        body = got[:-1] if got.endswith("\n") else got
        lines = body.split("\n")
        if lines[0] != "> " + head or len(lines) < 2 or lines[1] != "> ":
            raise Bad("a panel does not start with its type and a blank line: %r" % got)
    else:
        want = inner
    for line in got.strip("\n").split("\n") if got.strip("\n") else []:
        if not line.startswith("> "):
            raise Bad("%s: a line without the marker: %r in %r" % (kind, line, got))
    if quoted(want).rstrip("\n") != got.rstrip("\n"):
        raise Bad("%s\n got  %r\n want %r" % (kind, got, quoted(want)))
    if got != ref.plain(ref.render(e)):
        raise Bad("%s\n got  %r\n want %r (reference)" % (kind, got, ref.plain(ref.render(e))))
    ctx.outcome(got)
    return e


QUOTE = [i for i, b in enumerate(MENU) if b["type"] in NODES["blockquote"].children]
PANEL = [i for i, b in enumerate(MENU) if b["type"] in NODES["panel"].children]


def box_cases(tier):
    for kind, menu in (("blockquote", QUOTE), ("panel", PANEL)):
        for n in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4):
            if n == 4:
                menu = [i for i in menu if i < 19] + menu[-4:]
            for c in itertools.product(menu, repeat=n):
                yield [kind, list(c)]


def run_box(case, ctx):
    kind, c = case
    kids = [copy.deepcopy(MENU[i]) for i in c]
    e = check_box(kids, ctx, kind)
    if len(c) < 3:
        check_markdown(doc(para("before"), e, copy.deepcopy(e), para("after")), ctx)


# ---- panel types
TYPES = ["info", "note", "warning", "success", "error", "custom", "tip", "", "a b", "Über", "INFO", "x-y", "ß"]


def type_cases(tier):
    for t in range(len(TYPES)):
        for c in range(len(PANEL)):
            yield [t, c]


def run_type(case, ctx):
    t, c = case
    check_box([copy.deepcopy(MENU[PANEL[c]])], ctx, "panel", TYPES[t])
    check_box([], ctx, "panel", TYPES[t])


# ---- texts
LETTERS = ["a", " ", "\n", ">", "\u2028"]
ODD = ["\u2028", "\u2029", "\u0085", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\r", "\r\n"]


def text_cases(tier):
    for n in range(0, 5 if tier == "quick" else 7):
        for s in itertools.product(LETTERS, repeat=n):
            yield "".join(s)
    for s in ODD:
        for f in ("a%sb", "%s", "a%s", "%sb", "a%s%sb", "a\n%sb", "a%s\nb"):
            yield f.replace("%s", s)


def run_text(s, ctx):
    for kids in ([para(s)], [mk("codeBlock", text(s))], [para("x"), para(s), para("y")], [mk("bulletList", mk("listItem", para(s)))]):
        check_box(kids, ctx, "blockquote")
        check_box(kids, ctx, "panel", "note")
    check_decisions([[text(s)], [text("x"), T, text(s)]], ctx)


# ---- nesting of boxes in everything that may hold them
def nest_cases(tier):
    hosts = {"blockquote": [t for t in gen.containers() if "blockquote" in NODES[t].children],
             "panel": [t for t in gen.containers() if "panel" in NODES[t].children],
             "decisionList": [t for t in gen.containers() if "decisionList" in NODES[t].children]}
    for kind, ts in hosts.items():
        for t in ts:
            for c in range(len(NODES[kind].children) if kind != "decisionList" else 1):
                for side in range(4):
                    yield [kind, t, c, side]


def run_nest(case, ctx):
    kind, t, c, side = case
    inner = [typical(NODES[kind].children[c]), typical(NODES[kind].children[0])]
    e = mk(kind, *inner)
    if kind != "decisionList":
        check_box(inner, ctx, kind)
    sib = typical(NODES[t].children[-1])
    row = ([copy.deepcopy(sib)] if side & 1 else []) + [e] + ([copy.deepcopy(sib)] if side & 2 else [])
    check_markdown(doc(*row) if t == "doc" else embed(mk(t, *row)), ctx, "%s in %s" % (kind, t))


# the format nests quotes only through expands; the library takes any nesting
def deep_cases(tier):
    for n in range(1, 7 if tier == "quick" else 9):
        for ks in itertools.product(range(3), repeat=n):
            yield list(ks)
    for n in (10, 25):
        for k in ([0], [1], [0, 1]):
            yield (k * n)[:n]


def run_deep(case, ctx):
    node = [para("x"), mk("codeBlock", text("k\n\n\nk"))]
    want = content_md(node, ctx)
    for i, k in enumerate(case):
        kind = ("blockquote", "panel", "nestedExpand")[k]
        e = mk(kind, *node)
        node = [para("a%d" % i), e]
    d = doc(*node)
    check_markdown(d, ctx)
    for n in adf.walk(d):
        if n["type"] in ("blockquote", "panel"):
            check_box(n["content"], ctx, n["type"])


# ---- decisions
def decision_lines(n, ctx):
    """What the statement says about the lines of one decision item."""
    s = "".join(md(parse(c, ctx), ctx) for c in n.get("content") or [])
    lines = [x.rstrip() for x in s.split("\n")]
    out = []
    for i, x in enumerate(lines):
        if x:
            if out and i and not lines[i - 1] and len(out) > 1:
                out.append(">")
            out.append("> " + x)
    return "\n".join(out)


def check_decisions(items, ctx):
    e = mk("decisionList", *[mk("decisionItem", *copy.deepcopy(c)) for c in items])
    for n in e["content"]:
        got = md(parse(n, ctx), ctx)
        want = decision_lines(n, ctx)
        if got != want:
            raise Bad("decision item\n got  %r\n want %r" % (got, want))
        for line in got.split("\n") if got else []:
            if not line.startswith(">"):
                raise Bad("a line of a decision without the marker: %r" % got)
        if got != ref.plain(ref.render(n)):
            raise Bad("decision item\n got  %r\n want %r (reference)" % (got, ref.plain(ref.render(n))))
    got = md(parse(e, ctx), ctx)
    want = "\n\n".join(decision_lines(n, ctx) for n in e["content"])
    if got != want:
        raise Bad("decisions\n got  %r\n want %r" % (got, want))
    check_markdown(doc(e), ctx)
    ctx.outcome(got)


ITEM = [text("a"), T, text("b "), text("\n"), text("c\nd"), text("  "), text(""), text("e", "strong"), mk("mention", text="@f"), mk("date"), text(" g"), mk("inlineCard")]


def decision_cases(tier):
    for n in range(0, 5 if tier == "quick" else 6):
        for c in itertools.product(range(len(ITEM)), repeat=n):
            yield list(c)
    for n in (5, 6, 7, 8, 9) if tier == "thorough" else (5, 6, 7):
        for c in itertools.product((0, 1, 5), repeat=n):
            yield list(c)


def run_decision(case, ctx):
    check_decisions([[ITEM[i] for i in case]], ctx)


ITEMS = [[text("a")], [], [T], [text("b"), T, text("c")], [text("d"), T, T, text("e"), T, T, T, text("f")], [T, text("g")], [text("h "), T], [text("  ")], [text("i", "strong"), text("\n\nj")]]


def list_cases(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        for c in itertools.product(range(len(ITEMS)), repeat=n):
            yield list(c)
    for n in (5, 20, 60):
        for i in range(len(ITEMS)):
            yield [i] * n


def run_list(case, ctx):
    check_decisions([ITEMS[i] for i in case], ctx)


# ---- boxes and decisions near the base documents
def check_near(d, ctx):
    d = ref.prune(d)
    for n in adf.walk(d):
        if n["type"] in ("blockquote", "panel"):
            check_box(n.get("content") or [], ctx, n["type"], **({"panel_type": n["attrs"]["panelType"]} if n["type"] == "panel" else {}))
            got = md(parse(n, ctx), ctx)
            if got != ref.plain(ref.render(n)):
                raise Bad("%s\n got  %r\n want %r (reference)" % (n["type"], got, ref.plain(ref.render(n))))
        elif n["type"] == "decisionList":
            check_decisions([c.get("content") or [] for c in n.get("content") or []], ctx)
            got = md(parse(n, ctx), ctx)
            if got != ref.plain(ref.render(n)):
                raise Bad("decisions\n got  %r\n want %r (reference)" % (got, ref.plain(ref.render(n))))
    check_markdown(d, ctx)


BOXES = [doc(mk("panel", para("a"), mk("bulletList", mk("listItem", para("b"))), panelType=t)) for t in ("info", "custom", "tip")]

# ---- every character and every length of text
TEXT_AT = [lambda s: doc(mk("blockquote", para(s), para("z")), mk("panel", para(s), mk("codeBlock", text(s)))), lambda s: doc(mk("decisionList", mk("decisionItem", text(s)), mk("decisionItem", text("x"), T, text(s))))]


def families():
    return [
        Family("boxes", box_cases, run_box, "every sequence of blocks up to the length in a quote and in a panel, against the Markdown of the blocks"),
        Family("panel types", type_cases, run_type, "every panel type with every block"),
        Family("texts", text_cases, run_text, "every text over the alphabet up to the length, in paragraphs, code, lists and decisions"),
        Family("places", nest_cases, run_nest, "boxes with every content in every container that allows them"),
        Family("nesting", deep_cases, run_deep, "every nesting of quotes, panels and expands up to the depth"),
        Family("decisions", decision_cases, run_decision, "every decision of inline elements up to the length"),
        Family("decision lists", list_cases, run_list, "every sequence of decisions up to the length"),
    ] + deco.families(check_near, deco.rich("quotes", "decisions") + BOXES, deco.small("quote", "panel", "decisions"), more=BOXES + deco.rich("quotes", "decisions"), threes=deco.small("quote", "panel", "decisions")) + [deco.characters(TEXT_AT, deco.exact), deco.lengths(TEXT_AT, deco.exact)] + [deco.sizes(deco.exact, ["blockquote", "panel", "decisionList", "decisionItem"], top=1001), deco.depths(deco.exact, top=20)] + [deco.related(check_near, ["quotes"]), deco.constants(check_near, texts=["quote", "panel", "decision"], only=lambda n: n.startswith(("panel", "decision", "blockquote")))]
