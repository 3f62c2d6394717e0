"""C23: headings and paragraphs render their inline content exactly."""
import copy
import itertools

from mc import adf, deco, gen, lib, ref
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import api, check_markdown, md, parse

ID = "C23"
EXHAUSTIVE = True
ASSUMPTIONS = ["how many line breaks surround a heading is not fixed (they become one blank line in a document)",
               "inline media render to nothing"]

# inline elements with the text they stand for, written down by hand
INLINE = [
    (text("a"), "a"), (text(" "), " "), (text(""), ""), (text("b c "), "b c "), (text("d", "strong"), "**d**"), (text("e", "em", "strike"), "~~*e*~~"),
    (text("f", "code"), "`` f ``"), (text("g", mk_mark("link", href="http://g")), "[g](http://g)"), (text("h\ni"), "h\ni"), (text("#"), "#"),
    (text("u", "underline", mk_mark("textColor")), "u"),
    (mk("mention", text="@m"), "@m"), (mk("mention"), "@Unknown"), (mk("emoji", text="😀"), "😀"), (mk("emoji", shortName=":s:"), ":s:"),
    (mk("status", text="S"), "`S`"), (mk("date", timestamp="0"), "1970-01-01"), (mk("inlineCard", url="http://c"), "[http://c](http://c)"),
    (mk("hardBreak"), "  \n"), (mk("mediaInline"), ""),
]
BLOCK_MARKS = [None, [], [mk_mark("alignment")], [mk_mark("indentation", level=1)], [mk_mark("indentation", level=3)], [mk_mark("alignment", align="end"), mk_mark("indentation", level=2)],
               [mk_mark("indentation", level=6), mk_mark("alignment")]]
ATTRS = [{}, {"localId": "x"}, {"localId": ""}, {"localId": None}]


def tabs(marks):
    return "".join("\t" * m["attrs"]["level"] for m in marks or [] if m["type"] == "indentation")


def make(t, level, seq, m, a, empty=0):
    """empty: without content field (0) or with an empty list (1), for no children."""
    e = {"type": t}
    attrs = dict(ATTRS[a])
    if t == "heading":
        attrs = dict(level=level, **attrs)
    if attrs or t == "heading" or a:
        e["attrs"] = attrs
    if seq or empty:
        e["content"] = [copy.deepcopy(INLINE[i][0]) for i in seq]
    if BLOCK_MARKS[m] is not None:
        e["marks"] = copy.deepcopy(BLOCK_MARKS[m])
    return e


def expected(t, level, seq, m):
    s = "".join(INLINE[i][1] for i in seq)
    if t == "heading":
        return "#" * level + " " + s
    return tabs(BLOCK_MARKS[m]) + s + "\n"


def check(t, level, seq, m, a, empty, ctx):
    e = make(t, level, seq, m, a, empty)
    want = expected(t, level, seq, m)
    tree = parse(e, ctx)
    for kw in ({}, {"ignore_error": True}):
        got = md(tree, ctx, **kw)
        if t == "heading":
            # set off by blank lines on both sides
            core = got
            if not (core.startswith("\n\n") and core.endswith("\n\n")):
                raise Bad("a heading is not set off by blank lines: %r" % got)
            if core.strip("\n") != want.strip("\n"):
                raise Bad("heading %s\n got  %r\n want %r" % (lib.short(e), got, want))
            if core.lstrip("\n").rstrip("\n") != want.rstrip("\n"):
                raise Bad("heading %s\n got  %r\n want %r" % (lib.short(e), got, want))
            # line breaks at the end of the content are kept
            if len(core) < len(want) + 4:
                raise Bad("heading %s\n got  %r\n want %r and blank lines" % (lib.short(e), got, want))
        elif got != want:
            raise Bad("paragraph %s\n got  %r\n want %r" % (lib.short(e), got, want))
    ctx.outcome(got)
    return e, want


# ---- every level, mark and attribute with every short sequence
def shape_cases(tier):
    for t in ("paragraph", "heading"):
        for level in range(1, 7) if t == "heading" else (0,):
            for n in (0, 1, 2):
                for seq in itertools.product(range(len(INLINE)), repeat=n):
                    for m in range(len(BLOCK_MARKS)):
                        if n == 2 and m not in (0, 2, 5) and tier == "quick":
                            continue
                        for a in range(len(ATTRS)) if n < 2 else (0, 1):
                            for empty in (0, 1) if n == 0 else (1,):
                                yield [t, level, list(seq), m, a, empty]


def run_shape(case, ctx):
    t, level, seq, m, a, empty = case
    check(t, level, seq, m, a, empty, ctx)


# ---- longer sequences
def seq_cases(tier):
    few = [0, 1, 2, 4, 6, 7, 8, 11, 15, 17, 18, 19]
    for t, level in (("paragraph", 0), ("heading", 2)):
        for seq in itertools.product(range(len(INLINE)), repeat=3):
            yield [t, level, list(seq), 0, 0, 1]
            if tier == "thorough":
                for m in range(2, len(BLOCK_MARKS)):
                    yield [t, level, list(seq), m, 0, 1]
        for seq in itertools.product(few if tier == "thorough" else few[::2] + [18], repeat=4 if tier == "quick" else 5):
            yield [t, level, list(seq), 0, 0, 1]


# ---- long content
def long_cases(tier):
    for t, level in (("paragraph", 0), ("heading", 6)):
        for n in list(range(1, 64)) + [100, 128, 255, 256, 257, 500, 1000] + ([5000] if tier == "thorough" else []):
            for m in (0, 4):
                yield [t, level, n, m]


def run_long(case, ctx):
    t, level, n, m = case
    seq = [(i * 7 + n) % len(INLINE) for i in range(n)]
    check(t, level, seq, m, 0, 1, ctx)


# ---- in a document: set off by exactly one blank line
def doc_cases(tier):
    menu = [0, 4, 8, 11, 15, 18]
    kinds = [("paragraph", 0)] + [("heading", k) for k in range(1, 7)]
    for k1, k2 in itertools.product(kinds, repeat=2):
        for s1 in menu + [-1]:
            for s2 in menu + [-1]:
                for m in (0, 3):
                    yield [list(k1), s1, list(k2), s2, m]


def run_doc(case, ctx):
    (t1, l1), s1, (t2, l2), s2, m = case
    seqs = [[s] if s >= 0 else [] for s in (s1, s2)]
    d = doc(make(t1, l1, seqs[0], m, 0, 1), make(t2, l2, seqs[1], m, 0, 1))
    got = check_markdown(d, ctx)
    if t1 == "heading" and seqs[0] and s1 not in (8, 18):
        head = expected(t1, l1, seqs[0], m)
        rest = expected(t2, l2, seqs[1], m).strip("\n")
        want = head + "\n\n" + rest
        if got.strip("\n") != want.strip("\n") and s2 not in (8, 18) and seqs[1]:
            raise Bad("got %r, want %r" % (got, want))


# ---- headings and paragraphs wherever they are allowed
def place_cases(tier):
    for p in gen.all_paths(4 if tier == "quick" else 6):
        if p[-1] in ("paragraph", "heading"):
            for level in range(1, 7) if p[-1] == "heading" else (0,):
                for m in (0, 2, 4, 5):
                    yield [list(p), level, m]


def run_place(case, ctx):
    p, level, m = case
    node = make(p[-1], level, [0, 18, 4, 15], m, 1)
    for t in reversed(p[:-1]):
        node = doc(node) if t == "doc" else mk(t, node)
    check_markdown(node, ctx, "at " + "/".join(p))


# ---- built from the classes
def build_cases(tier):
    for t in ("paragraph", "heading"):
        for level in range(1, 7) if t == "heading" else (0,):
            for i in range(len(INLINE)):
                for m in range(len(BLOCK_MARKS)):
                    yield [t, level, i, m]


def run_build(case, ctx):
    t, level, i, m = case
    kw = {"content": [api.parse_node(copy.deepcopy(INLINE[i][0])), api.NodeText(text="z")]}
    if BLOCK_MARKS[m] is not None:
        kw["marks"] = [api.parse_mark(copy.deepcopy(x)) for x in BLOCK_MARKS[m]]
    if t == "heading":
        kw["attrs"] = api.NodeHeadingAttrs(level=level)
    x = lib.cls(t)(**kw)
    got = md(x, ctx)
    e = make(t, level, [i, 0], m, 0, 1)
    e["content"][1] = text("z")
    want = md(parse(e, ctx), ctx)
    if got != want:
        raise Bad("built %r, parsed %r" % (got, want))
    s = INLINE[i][1] + "z"
    want = "\n\n" + "#" * level + " " + s + "\n\n" if t == "heading" else tabs(BLOCK_MARKS[m]) + s + "\n"
    if got.strip("\n") != want.strip("\n"):
        raise Bad("built %r instead of %r" % (got, want))


# ---- every character and every length of text
TEXT_AT = [lambda s: doc(mk("heading", text(s), level=2), para(s), mk("heading", text("a"), text(s), level=6), para("a", s, "b"), para(s, marks=[mk_mark("indentation", level=2)]))]


def families():
    return [
        Family("shapes", shape_cases, run_shape, "every level, block mark and attribute with every sequence of up to 2 inline elements"),
        Family("sequences", seq_cases, lambda c, ctx: run_shape(c, ctx), "every sequence of 3 inline elements, and longer ones over fewer"),
        Family("lengths", long_cases, run_long, "contents of many lengths"),
        Family("pairs", doc_cases, run_doc, "every pair of headings and paragraphs in a document"),
        Family("places", place_cases, run_place, "headings and paragraphs at every place that allows them"),
        Family("built", build_cases, run_build, "built from the exported classes"),
    ] + deco.families(deco.exact, deco.rich("headings"), deco.small("heading"), "amtsi") + [deco.characters(TEXT_AT, deco.exact), deco.lengths(TEXT_AT, deco.exact)] + [deco.sizes(deco.exact, ["paragraph", "heading"], top=2001)] + [deco.related(deco.exact, ["blocks"]), deco.constants(deco.exact, texts=["paragraph", "after text", "heading"], only=lambda n: n.startswith(("paragraph", "heading")))]
