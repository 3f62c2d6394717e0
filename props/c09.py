"""C09: every piece of text appears in the Markdown exactly once and in document order."""
import copy
import re

from mc import adf, deco, gen, lib, ref
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import api, dump, md, parse

ID = "C09"
EXHAUSTIVE = True
ASSUMPTIONS = ["every text-bearing element of a document gets a text of its own, so that order and number can be read off the Markdown"]

TOKEN = re.compile(r"w\d+z|\d{4}-\d\d-\d\d")
HIDDEN = ("caption", "mediaGroup", "mediaInline")


def label(d):
    """Give every visible piece of text a token of its own (in place)."""
    k = 0

    def tok():
        nonlocal k
        k += 1
        return "w%dz" % k

    for n in adf.walk(d):
        t, a = n["type"], n.get("attrs")
        if t == "text":
            n["text"] = tok()
        elif t == "mention":
            a["text"] = "@" + tok()
        elif t == "emoji":
            a["shortName"] = ":" + tok() + ":"
            if isinstance(a.get("text"), str):
                a["text"] = tok()
        elif t == "status":
            a["text"] = tok()
        elif t == "date":
            k += 1
            a["timestamp"] = str(86400000 * (7 * k))
        elif t in ("inlineCard", "blockCard", "embedCard"):
            a["url"] = "http://" + tok()
        elif t == "media":
            if "alt" in a:
                a["alt"] = tok()
            a["id"] = tok()
            if "url" in a:
                a["url"] = "http://" + tok()
        elif t == "extension":
            a["extensionType"] = tok()
            a["extensionKey"] = tok()
            if a.get("text"):
                a["text"] = tok()
        for m in n.get("marks") or []:
            if m["type"] == "link" and m["attrs"].get("title"):
                m["attrs"]["title"] = tok()
    return d


def toks(s):
    return TOKEN.findall(s)


def expected(n):
    t, a = n["type"], n.get("attrs")
    if t in HIDDEN:
        return []
    out = []
    if t == "text":
        out = toks(n["text"])
    elif t == "mention":
        out = toks(a["text"])
    elif t == "emoji":
        out = toks(a["text"] if isinstance(a.get("text"), str) else a["shortName"])
    elif t == "status":
        out = toks(a["text"])
    elif t == "date":
        out = [ref.civil(int(a["timestamp"]))]
    elif t in ("inlineCard", "blockCard", "embedCard"):
        out = toks(a["url"]) * 2
    elif t == "media":
        out = toks(a.get("alt") or "")
        out += {"file": toks(a["id"]), "external": toks(a.get("url") or ""), "link": []}[a["type"]]
        if a["type"] == "link":
            out = []
    elif t == "extension":
        out = toks(a["extensionKey"] + a["text"] if a.get("text") else a["extensionType"] + a["extensionKey"])
    if t in ("text", "media"):
        for m in n.get("marks") or []:
            if m["type"] == "link" and m["attrs"].get("title"):
                out = toks(m["attrs"]["title"])
    for c in n.get("content") or []:
        out = out + expected(c)
    return out


def check(d, ctx):
    want = expected(d)
    tree = parse(d, ctx)
    for ignore in (False, True):
        out = md(tree, ctx, ignore_error=ignore)
        got = toks(out)
        if got != want:
            miss = [w for w in want if want.count(w) > got.count(w)]
            more = [g for g in got if got.count(g) > want.count(g)]
            raise Bad("%s; document %s\n Markdown %r" % (
                "missing: %s, more than once: %s" % (miss, more) if miss or more else "order %s instead of %s" % (got, want),
                lib.short(d), md(tree, ctx, ignore_error=ignore)))
    ctx.outcome(out)


def run_universe(case, ctx):
    d = gen.decode(case)
    for n in adf.walk(d):
        if n["type"] == "media" and n["attrs"].get("type") == "external":
            n["attrs"].setdefault("url", "http://m")
    check(label(d), ctx)


def S(t, inside="", **attrs):
    return gen.Sym(lambda k: mk(t, *k, **copy.deepcopy(attrs)), inside)


INL = "t l m e s d c h"
ALPHA = {
    "t": gen.Sym(lambda k: text("x"), ""), "B": gen.Sym(lambda k: text("x", "strong", "em", "code"), ""),
    "l": gen.Sym(lambda k: text("x", mk_mark("link")), ""),
    "L": gen.Sym(lambda k: text("x", mk_mark("link", title="T"), "strong"), ""),
    "m": S("mention"), "e": S("emoji"), "s": S("status", text="s"), "d": S("date"), "c": S("inlineCard"), "h": S("hardBreak"), "n": S("mediaInline"),
    "p": S("paragraph", "t h m"), "g": S("heading", "t c"), "k": S("codeBlock", "t"), "q": S("blockquote", "p b o k"), "P": S("panel", "p g b x"),
    "b": S("bulletList", "i"), "o": S("orderedList", "i", order=3), "i": S("listItem", "p b o k x"), "x": S("taskList", "y x"), "y": S("taskItem", "t m"),
    "D": S("decisionList", "E"), "E": S("decisionItem", "t h"), "X": S("expand", "p N b"), "N": S("nestedExpand", "p x"),
    "T": S("table", "r"), "r": S("tableRow", "f F"), "f": S("tableCell", "p b k"), "F": S("tableHeader", "p"),
    "M": S("mediaSingle", "A"), "A": S("media", type="file", alt="a"), "R": S("rule"), "z": S("extension", text="e"), "K": S("blockCard"),
}
TOP = "p g k q P b o x D X T M R z K"


def tree_cases(tier):
    yield from gen.forests(ALPHA, TOP, 4 if tier == "quick" else 5)


def run_trees(case, ctx):
    check(label(doc(*[gen.build(ALPHA, t) for t in case])), ctx)


# lists, tables and quotes to a greater depth over a smaller alphabet
DEEP = {
    "lists": ({"b": S("bulletList", "i"), "o": S("orderedList", "i"), "i": S("listItem", "p b o"), "p": gen.Sym(lambda k: para("x"), "")}, "b o"),
    "tasks": ({"x": S("taskList", "y x"), "y": gen.Sym(lambda k: mk("taskItem", text("x")), "")}, "x"),
    "tables": ({"T": S("table", "r"), "r": S("tableRow", "f F"), "f": S("tableCell", "p"), "F": S("tableHeader", "p"), "p": gen.Sym(lambda k: para("x"), "")}, "T"),
    "quotes": ({"q": S("blockquote", "p b"), "P": S("panel", "p b"), "b": S("bulletList", "i"), "i": S("listItem", "p"), "X": S("expand", "p q P"), "p": gen.Sym(lambda k: para("x"), "")}, "q P X p"),
    "inline": ({"p": S("paragraph", "t B l L m e s d c h n"), **{x: ALPHA[x] for x in "tBlLmesdchn"}}, "p"),
    "decisions": ({"D": S("decisionList", "E"), "E": S("decisionItem", "t h"), "t": ALPHA["t"], "h": ALPHA["h"]}, "D"),
}
SIZES = {"lists": (7, 9), "tasks": (9, 11), "tables": (7, 9), "quotes": (5, 7), "inline": (4, 6), "decisions": (8, 11)}


def deep_cases(tier):
    for name, (alpha, top) in DEEP.items():
        for f in gen.forests(alpha, top, SIZES[name][0 if tier == "quick" else 1]):
            yield [name, f]


def run_deep(case, ctx):
    name, f = case
    check(label(doc(*[gen.build(DEEP[name][0], t) for t in f])), ctx)


# ---- many children, and deep nesting
def size_cases(tier):
    for t in gen.containers():
        for c in NODES[t].children:
            for n in list(range(0, 24)) + [50, 101] + ([300] if tier == "thorough" else []):
                yield ["many", t, c, n]
    for loop in LOOPS:
        for n in range(1, 25 if tier == "quick" else 45):
            yield ["deep", loop, n, 0]
            yield ["deep", loop, n, 1]


LOOPS = {"bullets": ["bulletList", "listItem"], "numbers": ["orderedList", "listItem"], "mixed": ["bulletList", "listItem", "orderedList", "listItem"],
         "tasks": ["taskList"]}


def run_size(case, ctx):
    if case[0] == "many":
        _, t, c, n = case
        e = mk(t, *[typical(c) for _ in range(n)]) if t != "doc" else doc(*[typical(c) for _ in range(n)])
        check(label(e if t == "doc" else embed(e)), ctx)
    else:
        _, loop, n, side = case
        path = LOOPS[loop]
        inner = para("x") if loop != "tasks" else mk("taskItem", text("x"))
        node = None
        for i in range(n * len(path)):
            t = path[-1 - i % len(path)]
            leaf = copy.deepcopy(inner) if t in ("listItem", "taskList") else None
            kids = [x for x in ([leaf, node] if side else [node, leaf]) if x is not None]
            node = mk(t, *kids)
        check(label(doc(node)), ctx)


def sample_cases(tier):
    for i, (name, d) in enumerate(gen.samples()):
        yield [i, name]


# ---- near the base documents
def decorate(d, alike):
    """As label, but every text keeps its characters, between two tokens, and empty values stay.
    alike: what was equal stays equal (equal siblings), otherwise every token is used once."""
    d = copy.deepcopy(d)
    k, known = 0, {}

    def tok(s):
        nonlocal k
        if alike and s in known:
            return known[s]
        k += 1
        known[s] = "w%dz" % k
        return known[s]

    for n in adf.walk(d):
        a = n.get("attrs") or {}
        if n["type"] == "text":
            s = n["text"]
            n["text"] = tok(s) + s + tok(s + "-") if s.strip() else tok(s) + s + (tok(s + "-") if s else "")
        for f in {"mention": ["text"], "emoji": ["shortName", "text"], "status": ["text"], "inlineCard": ["url"], "blockCard": ["url"], "embedCard": ["url"],
                  "media": ["alt", "id", "url"], "extension": ["extensionType", "extensionKey", "text"]}.get(n["type"], []):
            if isinstance(a.get(f), str) and a[f]:
                a[f] = tok(f + a[f])
        if n["type"] == "date" and not alike:
            k += 1
            a["timestamp"] = str(86400000 * (7 * k))
        for m in n.get("marks") or []:
            if m["type"] == "link" and isinstance(m["attrs"].get("title"), str) and m["attrs"]["title"]:
                m["attrs"]["title"] = tok("title" + m["attrs"]["title"])
            elif m["type"] == "link":
                m["attrs"]["href"] = "http://l"
    return d


def expected_near(n):
    e = copy.deepcopy(n)
    for x in adf.walk(e):
        if x["type"] == "mention" and not isinstance(x["attrs"].get("text"), str):
            x["attrs"]["text"] = ""
    return expected(e)


def check_near(d, ctx):
    for alike in (False, True):
        e = decorate(d, alike)
        p = ref.prune(e)
        want = expected_near(p)
        got = toks(md(parse(e, ctx), ctx, ignore_error=True))
        if got != want:
            raise Bad("texts\n got  %s\n want %s\n Markdown %r" % (got, want, md(parse(e, ctx), ctx, ignore_error=True)))
        strict = md(parse(p, ctx), ctx)
        if toks(strict) != want:
            raise Bad("texts\n got  %s\n want %s\n Markdown %r" % (toks(strict), want, strict))
        ctx.outcome(strict)


def families():
    return [
        Family("universe", lambda tier: gen.universe("quick" if tier == "quick" else "thorough"), run_universe, "every universe document"),
        Family("trees", tree_cases, run_trees, "every tree over the wide alphabet up to the size"),
        Family("deep trees", deep_cases, run_deep, "every tree over narrower alphabets up to a greater size"),
        Family("sizes", size_cases, run_size, "every container with many children, list nesting ladders"),
    ] + deco.families(check_near, deco.rich(), deco.small("list", "tasks", "decisions", "media", "quote"), "amtsi", "mtsi", more=deco.small() + deco.rich(), threes=deco.small("list", "tasks", "decisions", "quote", "media"), kinds3="si") + [deco.sizes(check_near, top=501), deco.depths(check_near, top=20)] + [deco.related(deco.exact, deco.PAIRS), deco.constants(deco.exact, fields=False)]
