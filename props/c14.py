"""C14: ignoring errors drops exactly the parts that cannot be rendered."""
import copy
import itertools

from mc import adf, deco, gen, lib, ref
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import api, dump, md, parse

ID = "C14"
EXHAUSTIVE = True
ASSUMPTIONS = ["elements that cannot be rendered: inline and block cards without URL, inline code over several lines, images without URL, media of an unknown kind, dates whose timestamp is not a whole number or is outside the years 1 to 9999"]


def no_url(t):
    e = mk(t)
    del e["attrs"]["url"]
    return e


# how an element of each leaf type can be made impossible to render
BAD = {
    "text": [text("x\ny", "code"), text("\n\n", "strong", "code"), text("x\n", "code", "em"), text("a\nb", mk_mark("link", title="T"), "em", "code")][:3],
    "inlineCard": [no_url("inlineCard"), {"type": "inlineCard", "attrs": {"data": {"url": "http://d"}}}, {"type": "inlineCard", "attrs": {}}],
    "blockCard": [no_url("blockCard"), {"type": "blockCard", "attrs": {"datasource": {"id": "i"}, "width": 3}}],
    "media": [mk("media", type="external"), {"type": "media", "attrs": {"type": "external", "alt": "w"}}, {"type": "media", "attrs": {"type": "video", "id": "z"}, "marks": [mk_mark("link", title="T")]}],
    "date": [mk("date", timestamp=x) for x in ("soon", "", "1.5", "9" * 16, "-" + "9" * 40, "9" * 400, "9" * 5000, str(1 << 63), "1e3", "0x1", "2024-01-01", " ", "nan", "--1", "\u0661.", None)],
}


def check(d, ctx, what):
    fails = ref.fails(d)
    tree = parse(d, ctx)
    kind, strict = lib.attempt(lambda: md(tree, ctx))
    if fails and kind == "ok":
        raise Bad("%s: rendering did not raise although an element cannot be rendered: %r" % (what, strict))
    if not fails and kind == "error":
        raise Bad("%s: rendering raised %s: %s" % (what, type(strict).__name__, strict))
    kind, got = lib.attempt(lambda: md(tree, ctx, ignore_error=True))
    if kind == "error":
        raise Bad("%s: rendering with errors ignored raised %s: %s" % (what, type(got).__name__, got))
    if not fails and got != strict:
        raise Bad("%s: nothing fails, but ignoring errors changes the Markdown\n ignoring %r\n strict   %r" % (what, got, strict))
    p = ref.prune(d)
    kind, want = lib.attempt(lambda: md(parse(p, ctx), ctx))
    if kind == "error":
        raise Bad("%s: without the elements that cannot be rendered: %s: %s" % (what, type(want).__name__, want))
    if got != want:
        raise Bad("%s: ignoring errors\n got  %r\n want %r" % (what, got, want))
    if not ref.same(got, ref.render(p)):
        raise Bad("%s: ignoring errors\n got  %r\n want %r (reference)" % (what, got, ref.plain(ref.render(p))))
    # the same, whichever rendering comes first
    if md(parse(d, ctx), ctx, ignore_error=True) != got:
        raise Bad("%s: ignoring errors gives another result after a failed rendering" % what)
    ctx.outcome(got)


def leaves(d):
    """Elements that can be replaced by one that fails: (parent, index)."""
    out = []
    for n in adf.walk(d):
        for i, c in enumerate(n.get("content") or []):
            if c["type"] in BAD:
                out.append((n, i))
    return out


def replaced(d, which, v=0):
    e = copy.deepcopy(d)
    ls = leaves(e)
    for j, k in enumerate(which):
        n, i = ls[k]
        b = BAD[n["content"][i]["type"]]
        n["content"][i] = copy.deepcopy(b[(v + j) % len(b)])
    return e


def subsets(n, limit):
    if n <= limit:
        for k in range(0, n + 1):
            yield from itertools.combinations(range(n), k)
    else:
        for k in (0, 1, 2):
            yield from itertools.combinations(range(n), k)
        yield tuple(range(n))


def run_universe(case, ctx):
    d = adf.label(gen.decode(case))
    n = len(leaves(d))
    for w in subsets(n, 3 if ctx.tier == "quick" else 6):
        for v in range(3 if len(w) == 1 else 1):
            check(replaced(d, w, v), ctx, "elements %s made impossible to render" % (w,))
            ctx.extra_states += 1


def universe_cases(tier):
    yield from gen.universe("quick" if tier == "thorough" else "small")


# ---- trees, every subset of their leaves
def S(t, inside="", **attrs):
    return gen.Sym(lambda k: mk(t, *k, **copy.deepcopy(attrs)), inside)


T = gen.Sym(lambda k: text("x"), "")
C = gen.Sym(lambda k: mk("inlineCard"), "")
ALPHABETS = {
    "mixed": ({"p": S("paragraph", "t c"), "t": T, "c": C, "b": S("bulletList", "i"), "o": S("orderedList", "i"), "i": S("listItem", "p b o x"), "x": S("taskList", "y x"), "y": S("taskItem", "t"),
               "q": S("blockquote", "p b"), "P": S("panel", "p K"), "K": S("blockCard"), "D": S("decisionList", "E"), "E": S("decisionItem", "t"), "X": S("expand", "p q N"), "N": S("nestedExpand", "p"),
               "T": S("table", "r"), "r": S("tableRow", "f"), "f": S("tableCell", "p K"), "M": S("mediaSingle", "m"), "m": S("media", type="file", alt="a"), "h": S("heading", "t d"), "d": S("date")},
              "p b x q P K D X T M h", (4, 6)),
    "lists": ({"b": S("bulletList", "i"), "o": S("orderedList", "i"), "i": S("listItem", "p b o"), "p": gen.Sym(lambda k: para("x"), "")}, "b o", (6, 8)),
    "tasks": ({"x": S("taskList", "y x"), "y": gen.Sym(lambda k: mk("taskItem", text("x")), "")}, "x", (7, 8)),
    "tables": ({"T": S("table", "r"), "r": S("tableRow", "f F"), "f": S("tableCell", "p"), "F": S("tableHeader", "p"), "p": gen.Sym(lambda k: para("x"), "")}, "T", (6, 8)),
    "inline": ({"p": S("paragraph", "t c d h s u"), "t": T, "u": gen.Sym(lambda k: text(" "), ""), "c": C, "d": S("date"), "h": S("hardBreak"), "s": S("status", text="s")}, "p", (5, 7)),
    "decisions": ({"D": S("decisionList", "E"), "E": S("decisionItem", "t h"), "t": T, "h": S("hardBreak")}, "D", (7, 8)),
}


def tree_cases(tier):
    for name, (alpha, top, sizes) in ALPHABETS.items():
        for f in gen.forests(alpha, top, sizes[0 if tier == "quick" else 1]):
            yield [name, f]


def run_trees(case, ctx):
    name, f = case
    d = adf.label(doc(*[gen.build(ALPHABETS[name][0], t) for t in f]))
    for w in subsets(len(leaves(d)), 8):
        check(replaced(d, w, len(f)), ctx, "elements %s made impossible to render" % (w,))
        ctx.extra_states += 1


# ---- failing elements inserted anywhere they are allowed
def insert_cases(tier):
    for p in gen.all_paths(5 if tier == "quick" else 6):
        if p[-1] in BAD:
            for v in range(len(BAD[p[-1]])):
                for side in range(4):
                    yield [list(p), v, side]


def run_insert(case, ctx):
    p, v, side = case
    node = copy.deepcopy(BAD[p[-1]][v])
    for t in reversed(p[:-1]):
        kids = [node]
        sib = typical(NODES[t].children[0])
        if side & 1:
            kids.append(copy.deepcopy(sib))
        if side & 2:
            kids.insert(0, copy.deepcopy(sib))
        node = doc(*kids) if t == "doc" else mk(t, *kids)
    check(node, ctx, "at " + "/".join(p))


# ---- nesting ladders and long sequences
LOOPS = {"bullets": ["bulletList", "listItem"], "numbers": ["orderedList", "listItem"], "mixed": ["bulletList", "listItem", "orderedList", "listItem"]}


def deep_cases(tier):
    for loop in LOOPS:
        for n in range(1, 12 if tier == "quick" else 25):
            for at in range(n):
                yield ["deep", loop, n, at]
    for t in ("doc", "paragraph", "blockquote", "panel", "expand", "tableCell", "taskItem", "decisionItem", "listItem"):
        c = [x for x in NODES[t].children if x in BAD or x == "paragraph"][0]
        for n in list(range(1, 10)) + [40]:
            for m in range(1, 5):
                yield ["long", t, n, m]


def run_deep(case, ctx):
    kind, a, n, m = case
    if kind == "deep":
        path, node = LOOPS[a], None
        for i in range(n * len(path)):
            t = path[-1 - i % len(path)]
            if t == "listItem":
                p = para("a", copy.deepcopy(BAD["text"][i % 3]) if i // 2 == m else text("b"), "c")
                node = mk(t, p, *([node] if node else []), para("after"))
            else:
                node = mk(t, node)
        check(doc(node), ctx, "nested")
    else:
        kids = []
        for i in range(n):
            x = copy.deepcopy(BAD["text"][i % 3]) if i % m == 0 else text("w%d" % i)
            kids.append(x if "text" in NODES[a].children else para(x, "t"))
        e = doc(*kids) if a == "doc" else embed(mk(a, *kids))
        check(e, ctx, "sequence")


# ---- sizes and depths with failing elements among the others
def fill(t, i):
    kids = NODES[t].children
    if t != "table":
        c = [x for x in kids if x in BAD]
        if c and i % 3 != 1:
            b = BAD[c[i % len(c)]]
            return copy.deepcopy(b[i % len(b)])
    k = kids[i % len(kids)] if i % 3 != 1 else kids[0]
    if i % 4 == 2 and "text" in NODES[k].children:
        return mk(k, copy.deepcopy(BAD["text"][0]), text("w"))
    return typical(k)


BOTTOM = [lambda: para("a", copy.deepcopy(BAD["text"][0])), lambda: para(copy.deepcopy(BAD["inlineCard"][0])), lambda: mk("mediaSingle", copy.deepcopy(BAD["media"][0])), lambda: para("ok")]


def families():
    return [
        Family("universe", universe_cases, run_universe, "every universe document, every subset (up to the limit) of its leaves made impossible to render"),
        Family("trees", tree_cases, run_trees, "every tree over each alphabet up to the size, every subset of its leaves"),
        Family("places", insert_cases, run_insert, "every kind of failing element at every place that allows it"),
        Family("depth and length", deep_cases, run_deep, "failing elements in nesting ladders and long sequences"),
    ] + deco.families(lambda d, ctx: check(d, ctx, "document"), deco.rich() + deco.failing(), deco.small("marks", "inline2", "media", "external", "cards"), "amtsi", threes=deco.small("inline2", "external")) + [
        deco.sizes(lambda d, ctx: check(d, ctx, "document"), fill=fill), deco.depths(lambda d, ctx: check(d, ctx, "document"), top=24, leaf=BOTTOM)] + [deco.related(lambda d, ctx: check(d, ctx, "document"), deco.PAIRS), deco.constants(lambda d, ctx: check(d, ctx, "document"))]
