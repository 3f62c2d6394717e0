"""C12: a table is rendered as one well-formed Markdown table."""
import copy
import itertools

from mc import adf, deco, gen, lib, ref
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import api, check_markdown, dump, md, parse

ID = "C12"
EXHAUSTIVE = True
ASSUMPTIONS = ["a lone carriage return is not taken for a line break"]


def split_cells(line):
    """Cells of a table line: the parts between unescaped pipes."""
    cells, cur, i = [], "", 0
    while i < len(line):
        if line[i] == "\\" and i + 1 < len(line) and line[i + 1] == "|":
            cur += "\\|"
            i += 2
        elif line[i] == "|":
            cells.append(cur)
            cur = ""
            i += 1
        else:
            cur += line[i]
            i += 1
    cells.append(cur)
    return cells


def check_table(t, ctx):
    """Structure first (read from the Markdown), then the reference."""
    rows = t["content"]
    got = md(parse(t, ctx), ctx)
    lines = got.split("\n") if rows else []
    first = [i for i, r in enumerate(rows) if r["content"] and r["content"][0]["type"] == "tableHeader"]
    want_lines = len(rows) + (1 if first else 0)
    if rows and len(lines) != want_lines or not rows and got.strip():
        raise Bad("%d lines for %d rows%s: %r" % (len(lines), len(rows), " and a delimiter" if first else "", got))
    k = 0
    for i, r in enumerate(rows):
        line = lines[k]
        k += 1
        if not (line.startswith("|") and line.endswith("|")):
            raise Bad("row %d does not start and end with a pipe: %r" % (i, line))
        # a backslash directly before a separator cannot occur: there is a space in front of it
        n = len(split_cells(line)) - 2
        if n != len(r["content"]) and r["content"]:
            raise Bad("row %d has %d cells instead of %d: %r" % (i, n, len(r["content"]), line))
        if first and i == first[0]:
            if lines[k] != "| " + " | ".join(["---"] * len(r["content"])) + " |":
                raise Bad("after row %d there is no delimiter line with %d columns but %r" % (i, len(r["content"]), lines[k]))
            k += 1
    want = ref.plain(ref.render(t))
    if got != want:
        raise Bad("table\n got  %r\n want %r" % (got, want))
    for r, line in zip(rows, lines):
        g = md(parse(r, ctx), ctx)
        if g != ref.plain(ref.render(r)):
            raise Bad("row on its own: %r instead of %r" % (g, ref.plain(ref.render(r))))
        for c in r["content"]:
            g = md(parse(c, ctx), ctx)
            if g != ref.plain(ref.render(c)):
                raise Bad("cell on its own: %r instead of %r" % (g, ref.plain(ref.render(c))))
    check_markdown(doc(t), ctx, "document with the table")
    ctx.outcome(got)


# ---- patterns of header and data cells
ROWS = [r for n in range(0, 4) for r in itertools.product("hd", repeat=n)]


def pattern_cases(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        for rows in itertools.product(range(len(ROWS)), repeat=n):
            yield list(rows)
    # wide rows
    for n in range(4, 9):
        for r in itertools.product("hd", repeat=n):
            yield ["".join(r), "d" * n]
            if tier == "thorough":
                yield ["d" * n, "".join(r), "h" * n]


def run_patterns(case, ctx):
    k, rows = 0, []
    for r in case:
        cells = []
        for c in (ROWS[r] if isinstance(r, int) else r):
            k += 1
            cells.append(mk("tableHeader" if c == "h" else "tableCell", para("c%d" % k)))
        rows.append(mk("tableRow", *cells))
    check_table(mk("table", *rows), ctx)


# ---- cell contents
T = mk("hardBreak")
CONTENT = [para("a"), para(), para(""), para("p|q"), para("b", T, "c"), para("  d"), para(" e", T, "  f  "), para("g\nh"), para(text("i", "strong"), text("j", "code")),
           mk("heading", text("k"), level=3), mk("codeBlock", text("l\n  m|n\n\n\no"), language="x"), mk("codeBlock"), mk("rule"), mk("blockCard"), mk("embedCard", url="http://p|q"),
           mk("bulletList", mk("listItem", para("q"), mk("orderedList", mk("listItem", para("r"))))), mk("bulletList"), mk("orderedList", mk("listItem", para("s"))),
           mk("taskList", mk("taskItem", text("t")), mk("taskList", mk("taskItem", text("u|"), state="DONE"))), mk("decisionList", mk("decisionItem", text("v"), T, "" and T or text("w"))),
           mk("panel", para("x"), mk("rule"), panelType="note"), mk("blockquote", para("y"), para("z")), mk("nestedExpand", para("A"), mk("bulletList", mk("listItem", para("B"))), title="C"),
           mk("mediaSingle", mk("media", type="external", url="http://m", alt="D|E")), mk("mediaGroup", mk("media")), mk("extension", text="F"), mk("mediaSingle"), para("\\"), para("\\|"), para(T, T),
           para(mk("mention", text="@|"), mk("status", text="a|b"), mk("emoji", text="|")), para("&nbsp;"), para("\tG"), para("\u00a0H")]


def content_cases(tier):
    for n in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
        for c in itertools.product(range(len(CONTENT)), repeat=n):
            yield list(c)


def run_content(case, ctx):
    for kind, other in (("tableCell", "tableHeader"), ("tableHeader", "tableCell")):
        e = mk(kind, *[copy.deepcopy(CONTENT[i]) for i in case])
        check_table(mk("table", mk("tableRow", mk(other, para("first")), e, mk(other, para("last"))), mk("tableRow", e, e)), ctx)


# ---- texts
LETTERS = ["a", "|", "\\", " ", "\n", "`"]


def text_cases(tier):
    for n in range(0, 6 if tier == "quick" else 7):
        for s in itertools.product(LETTERS, repeat=n):
            yield "".join(s)
    for s in ("é\u2028|", "\u0085|", "\r\n|", "\x0b|x", "\x1c", "\u00a0 x", "\u3000|", "|" * 50, " " * 40 + "x", "\n" * 30, "<br>", "---", "| --- |", "&nbsp;"):
        yield s


def run_texts(s, ctx):
    check_table(mk("table", mk("tableRow", mk("tableCell", para(s)), mk("tableHeader", mk("codeBlock", text(s)))),
                   mk("tableRow", mk("tableHeader", para(text(s, "strong"), mk("hardBreak"), s)), mk("tableCell", para("x"), para(s)))), ctx)


# ---- sizes, attributes, places
def size_cases(tier):
    for rows in range(0, 30 if tier == "quick" else 80):
        for cols in (0, 1, 2, 5, 12):
            for head in range(3):
                yield [rows, cols, head]


def run_sizes(case, ctx):
    rows, cols, head = case
    t = mk("table", *[mk("tableRow", *[mk("tableHeader" if (head == 1 and i == 0) or (head == 2 and j == 0) else "tableCell", para("%d.%d" % (i, j)))
                                       for j in range(cols)]) for i in range(rows)])
    check_table(t, ctx)


def wide_cases(tier):
    for n in list(range(0, 75)) + [80, 99, 100, 101, 128, 200, 255, 256, 257, 500, 1000]:
        yield n


def run_wide(n, ctx):
    check_table(mk("table", mk("tableRow", *[mk("tableHeader", para("h%d" % i)) for i in range(n)]), mk("tableRow", *[mk("tableCell", para("c%d" % i)) for i in range(n)])), ctx)
    check_table(mk("table", mk("tableRow", mk("tableHeader", *[para("h%d" % i) for i in range(n)]), mk("tableCell")), mk("tableRow", mk("tableCell", mk("bulletList", *[mk("listItem", para("i")) for _ in range(n)])))), ctx)
    check_table(mk("table", *[mk("tableRow", mk("tableCell", para("h%d" % i)), mk("tableCell")) for i in range(n)]), ctx)
    check_table(mk("table", *[mk("tableRow", mk("tableHeader" if i == n // 2 else "tableCell", para("h%d" % i)), mk("tableCell")) for i in range(n)]), ctx)


def attr_cases(tier):
    for t in ("table", "tableRow", "tableCell", "tableHeader"):
        keys = list(NODES[t].attrs[2])
        for n in range(0, len(keys) + 1):
            for ks in itertools.combinations(keys, n):
                yield [t, list(ks), 0]
                yield [t, list(ks), 1]
    yield ["table", [], "absent"]


def run_attrs(case, ctx):
    t, ks, v = case
    table = mk("table", mk("tableRow", mk("tableHeader", para("a")), mk("tableHeader", para("b"))), mk("tableRow", mk("tableCell", para("c")), mk("tableCell", para("d"))))
    for n in adf.walk(table):
        if n["type"] == t:
            n["attrs"] = {k: NODES[t].attrs[2][k][v % len(NODES[t].attrs[2][k]) if v != "absent" else 0] for k in ks}
            if v == "absent":
                del n["attrs"]
            if t == "table" and v == 1:
                n["marks"] = [mk_mark("fragment", full=True)]
    check_table(table, ctx)


def place_cases(tier):
    for t in gen.containers():
        if "table" in NODES[t].children:
            for sib in range(4):
                for v in range(4):
                    for c in range(len(NODES[t].children)):
                        yield [t, sib, v, c]


def run_places(case, ctx):
    t, sib, v, c = case
    e = mk("table", *[mk("tableRow", mk("tableHeader", para("a")), mk("tableCell", para("b"))), mk("tableRow", mk("tableCell", para("c"))), mk("tableRow")][: v])
    leaf = typical(NODES[t].children[c])
    row = ([copy.deepcopy(leaf)] if sib & 1 else []) + [e] + ([copy.deepcopy(leaf)] if sib & 2 else [])
    check_markdown(doc(*row) if t == "doc" else embed(mk(t, *row)), ctx, "table in a " + t)


def ignore_cases(tier):
    """Cells with parts that cannot be rendered stay cells."""
    for rows in itertools.product(range(7), repeat=2):
        for bad in range(4):
            yield [list(rows), bad]


def run_ignore(case, ctx):
    rows, bad = case
    x = [para(text("x\ny", "code")), mk("blockCard"), mk("mediaSingle", mk("media", type="external")), mk("bulletList", mk("listItem", para("k", text("x\ny", "code"))))][bad]
    if bad == 1:
        del x["attrs"]["url"]
    out = []
    for r in rows:
        cells = []
        for c in ROWS[r]:
            cells.append(mk("tableHeader" if c == "h" else "tableCell", para("a"), copy.deepcopy(x), para("b")))
        out.append(mk("tableRow", *cells))
    t = mk("table", *out)
    got = md(parse(t, ctx), ctx, ignore_error=True)
    want = ref.plain(ref.render(ref.prune(t)))
    if got != want:
        raise Bad("ignoring errors\n got  %r\n want %r" % (got, want))
    ctx.outcome(got)


# ---- every character and every length of text
TEXT_AT = [lambda s: doc(mk("table", mk("tableRow", mk("tableHeader", para(s)), mk("tableHeader", para("h"))), mk("tableRow", mk("tableCell", para(s), para(s)), mk("tableCell", mk("codeBlock", text(s))))))]


def families():
    return [
        Family("patterns", pattern_cases, run_patterns, "every pattern of header and data cells up to the size, empty rows included"),
        Family("contents", content_cases, run_content, "every cell content of up to 2 (3) blocks"),
        Family("texts", text_cases, run_texts, "every text over the alphabet up to the length in cells and code in cells"),
        Family("sizes", size_cases, run_sizes, "every number of rows, several numbers of columns and header layouts"),
        Family("wide and long", wide_cases, run_wide, "tables of every number of columns and rows, cells of every number of blocks"),
        Family("attributes", attr_cases, run_attrs, "every subset of the optional attributes"),
        Family("places", place_cases, run_places, "tables next to every block in every container that allows them"),
        Family("errors ignored", ignore_cases, run_ignore, "rows with parts that cannot be rendered"),
    ] + deco.families(deco.exact, deco.rich("table", "data table"), deco.small("table"), "asit") + [deco.characters(TEXT_AT, deco.exact), deco.lengths(TEXT_AT, deco.exact)] + [deco.sizes(deco.exact, ["table", "tableRow", "tableCell", "tableHeader"])] + [deco.related(deco.exact, ["tables"]), deco.constants(deco.exact, texts=["cell", "header"], only=lambda n: n.startswith("table"))]
