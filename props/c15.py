"""C15: blocks are separated by exactly one blank line."""
import copy
import itertools

from mc import adf, deco, gen, lib, ref
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import api, check_markdown, dump, md, parse

ID = "C15"
EXHAUSTIVE = True
ASSUMPTIONS = ["ordinary text does not itself begin a line with three backticks"]

T = mk("hardBreak")


def li(*c):
    return mk("listItem", *c)


MENU = [para("a"), para(), mk("heading", text("h"), level=2), mk("bulletList", li(para("b"))), mk("orderedList", li(para("c")), li(para("d"))), mk("taskList", mk("taskItem", text("e"))),
        mk("decisionList", mk("decisionItem", text("f")), mk("decisionItem", text("g"))), mk("codeBlock", text("k\n\n\n\nl")), mk("blockquote", para("m"), para("n")),
        mk("panel", para("o")), mk("table", mk("tableRow", mk("tableHeader", para("p")))), mk("expand", para("q"), para("r")), mk("rule"),
        mk("mediaSingle", mk("media", type="external", url="http://s")), mk("mediaGroup", mk("media")), mk("blockCard"), mk("embedCard"), mk("extension", text="t"),
        # the same types with nothing, or with something unusual, in them
        para("u", T, "v"), para("  "), para("w\n\n\n\nx"), para(T), mk("heading"), mk("bulletList"), mk("orderedList", li()), mk("taskList"), mk("decisionList"), mk("codeBlock"),
        mk("blockquote"), mk("panel"), mk("table"), mk("expand"), mk("mediaSingle"), mk("table", mk("tableRow", mk("tableCell", para("y"))), mk("tableRow", mk("tableCell", mk("codeBlock", text("z"))))),
        mk("bulletList", li(para("A"), mk("codeBlock", text("B\n\n\nC"))), li(mk("orderedList", li(para("D"))))), mk("blockquote", mk("codeBlock", text("E\n\n\nF")), mk("bulletList", li(para("G")))),
        mk("panel", mk("rule"), mk("heading", text("H")), panelType="error"), para(text("I", "strong"), marks=[mk_mark("indentation", level=2)]), para("\n\nJ\n\n"),
        mk("expand", mk("nestedExpand", mk("rule"), para("K")), mk("codeBlock", text("L"))), mk("decisionList", mk("decisionItem", T, text("M"), T, T, text("N")))]
PLAIN = 18                # the first ones: every block type once
NO_EXPAND = [i for i, b in enumerate(MENU) if b["type"] != "expand"]


def pick(idx):
    return [copy.deepcopy(MENU[i]) for i in idx]


_alone = {}


def alone(i, ctx):
    """A block's own Markdown without surrounding line breaks."""
    if i not in _alone:
        _alone[i] = md(parse(doc(copy.deepcopy(MENU[i])), ctx), ctx).strip("\n")
    return _alone[i]


def has_code(d):
    return any(n["type"] == "codeBlock" for n in adf.walk(d))


def check(idx, ctx, wrap=None):
    kids = pick(idx)
    d = doc(*kids) if wrap is None else doc(mk(wrap, *kids)) if wrap == "expand" else doc(mk("expand", mk("nestedExpand", *kids)))
    got = check_markdown(d, ctx)
    want = "\n\n".join(s for s in (alone(i, ctx) for i in idx) if s != "")
    if got.strip("\n") != want:
        raise Bad("blocks %s\n got  %r\n want %r" % ([MENU[i]["type"] for i in idx], got.strip("\n"), want))
    if not has_code(d) and "\n\n\n" in got:
        raise Bad("two blank lines follow each other: %r" % got)
    # the content of an expand on its own, exactly as a document
    if wrap == "expand":
        inner = md(parse(d["content"][0], ctx), ctx)
        if inner.strip("\n") != want:
            raise Bad("expand on its own: %r instead of %r" % (inner, want))


def sequence_cases(tier):
    n = len(MENU)
    for k in (0, 1, 2):
        yield from (list(x) for x in itertools.product(range(n), repeat=k))
    yield from (list(x) for x in itertools.product(range(n), repeat=3))
    if tier == "thorough":
        yield from (list(x) for x in itertools.product(range(PLAIN), repeat=4))
        for a, b, c in itertools.product(range(PLAIN), repeat=3):
            for e in range(PLAIN, n):
                yield [a, e, b, c]
                yield [a, b, e, e, c]


def run_sequence(case, ctx):
    check(case, ctx)


def expand_cases(tier):
    for wrap in ("expand", "nestedExpand"):
        menu = [i for i in NO_EXPAND if MENU[i]["type"] in NODES[wrap].children]
        for k in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
            for x in itertools.product(menu, repeat=k):
                yield [wrap, list(x)]


def run_expand(case, ctx):
    check(case[1], ctx, case[0])


EMPTY = [i for i, b in enumerate(MENU) if b in (para(), mk("bulletList"), mk("mediaSingle"), mk("taskList"), mk("decisionList"), mk("blockquote"), mk("table"), mk("expand"), mk("mediaGroup", mk("media")))]


def empty_cases(tier):
    ends = [None, 0, 2, 3, 7, 8, 10, 12, 17]
    for e in EMPTY:
        for a in ends:
            for b in ends:
                for n in list(range(0, 10)) + ([20, 41] if tier == "quick" else list(range(10, 60))):
                    yield [a, e, n, b]
    for e in itertools.product(EMPTY, repeat=3):
        for n in (1, 3):
            yield [0, list(e), n, 2]


def run_empty(case, ctx):
    a, e, n, b = case
    mid = [e] * n if isinstance(e, int) else e * n
    check(([] if a is None else [a]) + mid + ([] if b is None else [b]), ctx)


# texts with line breaks of their own
def text_cases(tier):
    for n in range(0, 6 if tier == "quick" else 8):
        for s in itertools.product("\n a", repeat=n):
            yield "".join(s)


def run_text(s, ctx):
    d = doc(para("x"), para(s), para("y", text(s, "underline")), mk("bulletList", li(para(s))), para("z"))
    got = check_markdown(d, ctx)
    if "\n\n\n" in got:
        raise Bad("two blank lines follow each other: %r" % got)
    ctx.outcome(got)


def long_cases(tier):
    for i in range(len(MENU)):
        for n in (4, 5, 17, 60):
            yield [i] * n
        for j in range(PLAIN):
            yield [i, j] * 6


# ---- blocks of every kind near the base documents
def check_relation(d, ctx):
    """The Markdown of the document is that of its blocks, with a blank line between two."""
    lax = dict(ignore_error=ref.fails(d))
    for n in [d] + [x for x in adf.walk(d) if x["type"] == "expand" or x["type"] == "nestedExpand"]:
        got = md(parse(n, ctx), ctx, **lax)
        parts = [md(parse(doc(copy.deepcopy(c)), ctx), ctx, **lax).strip("\n") for c in (n.get("content") or []) if not ref.unrenderable(c)]
        want = "\n\n".join(p for p in parts if p != "")
        if not has_code(n) and "\n\n\n" in got:
            raise Bad("two blank lines follow each other: %r" % got)
        if got.strip("\n") != want:
            raise Bad("the Markdown of a %s is not that of its blocks\n got  %r\n want %r" % (n["type"], got.strip("\n"), want))
        ctx.outcome(got)

def families():
    return [
        Family("sequences", sequence_cases, run_sequence, "every sequence of blocks up to the length"),
        Family("expands", expand_cases, run_expand, "every sequence of blocks in an expand and a nested expand"),
        Family("empty blocks", empty_cases, run_empty, "runs of every length of every empty block between every two blocks"),
        Family("texts", text_cases, run_text, "every text of line breaks, spaces and letters up to the length"),
        Family("long documents", long_cases, run_sequence, "repeated blocks"),
    ] + deco.families(check_relation, deco.rich(), deco.small("expand", "heading", "cards", "code", "quote", "list", "extension"), more=deco.small() + deco.rich(), threes=deco.small("code", "quote", "extension", "cards"), kinds3="asi") + [deco.sizes(check_relation, ["doc", "expand", "nestedExpand"], top=1001)] + [deco.related(check_relation, deco.PAIRS), deco.constants(check_relation, only=lambda n: n.startswith(("expand", "nestedExpand", "blockCard", "embedCard", "extension", "heading", "rule", "codeBlock", "panel")))]
