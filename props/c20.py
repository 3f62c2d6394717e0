"""C20: presentation-only attributes and marks never change the Markdown."""
import copy
import itertools

from mc import adf, deco, gen, lib, ref
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import api, check_markdown, md, parse

ID = "C20"
EXHAUSTIVE = True
ASSUMPTIONS = ["the values are of the documented types, or null", "only marks that the format allows on an element are added to it"]

STR = ["x", "", " ", None, "a|b\n\nc", "none", "# *`", "0", "DONE", "é\u2028\t "]
NUM = [760, 0, 33.5, -1, None, 10 ** 9]
BOOL = [True, False, None]
LAYOUT = ["wide", "full-width", "center", "", None, "wrap-left"]
COLOR = ["#fff", "#ffffff", "transparent", "", "red", "neutral", "green"]
SPAN = [1, 2, 0, 99]
FREEV = adf.FREE + ["", 0, False, "text"]

# type -> presentation-only attributes and their values (hand-written)
PRES = {
    "paragraph": {"localId": STR}, "heading": {"localId": STR}, "orderedList": {"localId": STR}, "listItem": {"localId": STR},
    "taskList": {"localId": STR[:3] + STR[4:]}, "taskItem": {"localId": STR[:3] + STR[4:]}, "decisionList": {"localId": STR[:3] + STR[4:]},
    "decisionItem": {"localId": STR[:3] + STR[4:], "state": ["DECIDED", "", "UNDECIDED", "TODO", "DONE"]},
    "codeBlock": {"localId": STR, "uniqueId": STR}, "blockquote": {"localId": STR},
    "panel": {"panelIcon": STR, "panelIconId": STR, "panelIconText": STR, "panelColor": COLOR + [None], "localId": STR},
    "expand": {"title": STR, "localId": STR}, "nestedExpand": {"title": STR, "localId": STR},
    "table": {"displayMode": ["default", "fixed", None], "isNumberColumnEnabled": BOOL, "layout": LAYOUT + ["align-start"], "localId": STR, "width": NUM},
    "tableRow": {"localId": STR},
    "tableCell": {"colspan": SPAN, "rowspan": SPAN, "colwidth": [[120, 0], [], [1, 2, 3], None], "background": COLOR + [None], "localId": STR},
    "tableHeader": {"colspan": SPAN, "rowspan": SPAN, "colwidth": [[120, 0], [], [1, 2, 3], None], "background": COLOR + [None], "localId": STR},
    "rule": {"localId": STR}, "hardBreak": {"localId": STR, "text": ["\n", "", "x", None]}, "date": {"localId": STR},
    "emoji": {"id": STR, "localId": STR},
    "mention": {"id": STR[:3] + STR[4:], "localId": STR, "accessLevel": ["NONE", "SITE", "", None], "userType": ["DEFAULT", "SPECIAL", "APP", None]},
    "status": {"color": COLOR, "localId": STR, "style": STR},
    "inlineCard": {"localId": STR, "data": FREEV},
    "blockCard": {"localId": STR, "datasource": [{"id": "d", "parameters": {}, "views": []}, {}], "width": NUM, "layout": LAYOUT, "data": FREEV},
    "embedCard": {"layout": LAYOUT[:4], "width": NUM, "originalHeight": NUM, "originalWidth": NUM, "localId": STR},
    "extension": {"parameters": FREEV, "layout": LAYOUT, "localId": STR},
    "media": {"collection": STR, "localId": STR, "width": [1, 0, None], "height": [1, 0, None], "occurrenceKey": STR},
    "mediaSingle": {"layout": LAYOUT, "width": NUM, "widthType": ["pixel", "percentage", None], "localId": STR},
    "caption": {"localId": STR},
    "mediaInline": {"type": ["file", "link", "image"], "localId": STR, "alt": STR, "occurrenceKey": STR, "width": [1, 0], "height": [1, 0], "data": FREEV},
}
# marks without a Markdown form, where the format allows them
MARK_VALUES = {
    "alignment": [{"align": "center"}, {"align": "end"}, {"align": ""}],
    "annotation": [{"id": "x", "annotationType": "inlineComment"}, {"id": "", "annotationType": "inlineComment"}],
    "backgroundColor": [{"color": "#fff"}, {"color": ""}, {"color": "transparent"}, {"color": "#FFFFFF"}, {"color": "#000000"}],
    "border": [{"size": 1, "color": "#000"}, {"size": 0, "color": ""}, {"size": 3, "color": "#fff"}],
    "breakout": [{"mode": "wide"}, {"mode": "full-width", "width": 0}, {"mode": "wide", "width": 760}],
    "dataConsumer": [{"sources": ["s"]}, {"sources": []}],
    "fragment": [{"localId": "x"}, {"localId": "", "name": "n"}, {"localId": "x", "name": None}],
    "subsup": [{"type": "sub"}, {"type": "sup"}, {"type": ""}],
    "textColor": [{"color": "#fff"}, {"color": ""}, {"color": "transparent"}, {"color": "#FFFFFF"}, {"color": "#000000"}],
    "underline": [None],
}
MARK_HOSTS = {
    "text": ["subsup", "textColor", "underline", "annotation", "backgroundColor"],
    "paragraph": ["alignment"], "heading": ["alignment"], "table": ["fragment"], "extension": ["fragment", "dataConsumer"],
    "media": ["border", "annotation"], "codeBlock": ["breakout"], "expand": ["breakout"], "mediaInline": ["border", "annotation"],
}


def plain_marks(t):
    out = []
    for m in MARK_HOSTS.get(t, ()):
        for a in MARK_VALUES[m]:
            out.append({"type": m} if a is None else {"type": m, "attrs": copy.deepcopy(a)})
    return out


def strip(d):
    """The document without anything that is only for presentation (required attributes stay)."""
    e = copy.deepcopy(d)
    for n in adf.walk(e):
        spec = NODES[n["type"]]
        a = n.get("attrs")
        if isinstance(a, dict):
            for k in PRES.get(n["type"], {}):
                if k in a and spec.attrs and k not in spec.attrs[1]:
                    del a[k]
            if not a and not spec.attrs[0]:
                del n["attrs"]
        if "marks" in n:
            n["marks"] = [m for m in n["marks"] if m["type"] not in MARK_VALUES]
            for m in n["marks"]:
                if m["type"] == "link":
                    for k in ("id", "collection", "occurrenceKey"):
                        m["attrs"].pop(k, None)
            if not n["marks"]:
                del n["marks"]
    return e


def rendering(d, ctx):
    tree = parse(d, ctx)
    kind, got = lib.attempt(lambda: md(tree, ctx))
    got = got if kind == "ok" else "raises " + type(got).__name__
    kind, lax = lib.attempt(lambda: md(tree, ctx, ignore_error=True))
    return got, lax if kind == "ok" else "raises " + type(lax).__name__


def same(a, b, ctx, what, base=None):
    x = rendering(a, ctx) if base is None else base
    y = rendering(b, ctx)
    if x != y:
        raise Bad("%s changes the Markdown\n without %r\n with    %r\n document %s" % (what, x[0] if x[0] != y[0] else x[1], y[0] if x[0] != y[0] else y[1], lib.short(b, 1500)))
    ctx.outcome(x[0])
    return x


# ---- one element: every subset and combination of values
def combo_cases(tier):
    limit = 4000 if tier == "quick" else 60000
    for t, attrs in PRES.items():
        doms = [[-1] + list(range(len(v))) for v in attrs.values()]
        n = 1
        for x in doms:
            n *= len(x)
        if n <= limit:
            for c in itertools.product(*doms):
                yield [t, list(c)]
        else:
            for c in itertools.product((-1, 0), repeat=len(doms)):
                yield [t, list(c)]
            for i, j in itertools.combinations(range(len(doms)), 2):
                for x in doms[i][1:]:
                    for y in doms[j][1:]:
                        for rest in (-1, 0, 1):
                            c = [min(rest, len(z) - 2) for z in doms]
                            c[i], c[j] = x, y
                            yield [t, c]


def variants(t):
    """Elements of a type with various contents, free of optional presentation attributes."""
    out = [strip(typical(t))]
    if t in ("tableCell", "tableHeader"):
        out = [mk(t, para("a\nb"), para("c|d"))]
    elif t == "table":
        out = [mk(t, mk("tableRow", mk("tableHeader", para("h")), mk("tableCell", para("i"))), mk("tableRow", mk("tableCell", para("c")), mk("tableCell", para("d"))))]
    elif t in ("expand", "nestedExpand", "panel", "blockquote"):
        out = [mk(t, para("a"), mk("bulletList", mk("listItem", para("b"))))]
    elif t == "orderedList":
        out = [mk(t, mk("listItem", para("a")), mk("listItem", para("b")), order=3)]
    elif t == "codeBlock":
        out = [mk(t, text("a\n\n\nb"), language="python"), mk(t, text("x"))]
    elif t == "media":
        out = [mk("media", type="file", alt="q"), mk("media", type="external", url="http://m"), mk("media", type="link")]
    elif t == "heading":
        out = [mk(t, text("h"), level=3)]
    elif t == "taskItem":
        out = [mk(t, text("a"), state="DONE"), mk(t, text("a"), state="TODO")]
    elif t == "emoji":
        out = [mk(t), mk(t, text="😀")]
    elif t == "mention":
        out = [mk(t), mk(t, text="@A")]
    elif t == "extension":
        out = [mk(t), mk(t, text="T")]
    elif t == "mediaSingle":
        out = [mk(t, mk("media", type="file", alt="q"), mk("caption", text("c")))]
    return [strip(e) for e in out]


def put(e, attrs, c):
    e = copy.deepcopy(e)
    for (k, vs), i in zip(attrs.items(), c):
        if i >= 0:
            e.setdefault("attrs", {})[k] = copy.deepcopy(vs[i])
    return e


def run_combo(case, ctx):
    t, c = case
    for e in variants(t):
        b = put(e, PRES[t], c)
        # alone, and between neighbours in a document
        same(e, b, ctx, "%s: attributes" % t)
        path = adf.PATH[t]
        host = NODES[path[-1]]
        sib = typical(host.children[0]) if t != "doc" else None

        def wrapped(x):
            node = mk(path[-1], copy.deepcopy(sib), x, copy.deepcopy(sib)) if path[-1] != "doc" else doc(sib, x, sib)
            return adf.embed(node) if node["type"] != "doc" else node
        same(wrapped(e), wrapped(b), ctx, "%s in a document: attributes" % t)


# ---- plain marks among the others
def mark_cases(tier):
    for t in MARK_HOSTS:
        pm = range(len(plain_marks(t)))
        k = len(BASES[t])
        for b in range(k):
            n = len(BASES[t][b])
            for i in pm:
                for at in range(n + 1):
                    yield [t, b, [[at, i]]]
            for i, j in itertools.product(pm, repeat=2):
                for at in range(n + 1):
                    for at2 in range(n + 2):
                        yield [t, b, [[at, i], [at2, j]]]
            if tier == "thorough":
                for i, j, k3 in itertools.product(pm, repeat=3):
                    for at in range(n + 1):
                        yield [t, b, [[at, i], [0, j], [n + 2, k3]]]


BASES = {
    "text": [[], ["strong"], ["em", "strong"], ["link"], ["code"], ["strike", "link", "em"], ["code", "link"]],
    "paragraph": [[], ["indentation"]], "heading": [[], ["indentation"]], "table": [[]], "extension": [[]], "media": [[], ["link"]], "codeBlock": [[]], "expand": [[]], "mediaInline": [[]],
}


def run_mark(case, ctx):
    t, b, ins = case
    pm = plain_marks(t)
    for txt in ("w", " ", "", "a\nb") if t == "text" else ("w",):
        e = strip(mk("text", text=txt) if t == "text" else typical(t))
        base = [mk_mark(m) for m in BASES[t][b]]
        if base:
            e["marks"] = copy.deepcopy(base)
        f = copy.deepcopy(e)
        ms = copy.deepcopy(base)
        for at, i in ins:
            ms.insert(at, copy.deepcopy(pm[i]))
        f["marks"] = ms
        same(e, f, ctx, "%s: marks %s" % (t, [m["type"] for m in ms]))
        if t not in ("text",) or txt == "w":
            same(embed(e), embed(f), ctx, "%s in a document: marks %s" % (t, [m["type"] for m in ms]))
    ctx.outcome([t, len(ins)])


# ---- links: their identity attributes
def link_cases(tier):
    vals = [-1] + list(range(len(STR)))
    for title in (-1, 0, 1, 2):
        for c in itertools.product(vals, repeat=3):
            yield [title, list(c)]


def run_link(case, ctx):
    title, c = case
    m = mk_mark("link")
    if title >= 0:
        m["attrs"]["title"] = ["T", "", None][title]
    f = copy.deepcopy(m)
    for k, i in zip(("id", "collection", "occurrenceKey"), c):
        if i >= 0:
            f["attrs"][k] = STR[i]
    same(para(text("x", copy.deepcopy(m))), para(text("x", f)), ctx, "link: attributes")
    same(mk("media", type="file", marks=[m]), mk("media", type="file", marks=[f]), ctx, "link on an image: attributes")


# ---- whole documents: every element, every attribute, every value; and all of them at once
def universe_cases(tier):
    yield from gen.universe("small" if tier == "quick" else "quick")


def run_universe(case, ctx):
    d = strip(adf.label(gen.decode(case)))
    base = rendering(d, ctx)
    for v in range(3 if ctx.tier == "quick" else 8):
        e = copy.deepcopy(d)
        for i, n in enumerate(adf.walk(e)):
            t = n["type"]
            for j, (k, vs) in enumerate(PRES.get(t, {}).items()):
                n.setdefault("attrs", {})[k] = copy.deepcopy(vs[(v + i + j) % len(vs)])
            pm = plain_marks(t)
            if pm:
                ms = n.get("marks", [])
                n["marks"] = [copy.deepcopy(pm[(v + i) % len(pm)])] + ms + [copy.deepcopy(pm[(v + i + 1) % len(pm)])]
        same(d, e, ctx, "presentation attributes and marks on every element", base)
        ctx.extra_states += 1
    nodes = list(adf.walk(d))
    for i, n in enumerate(nodes):
        for k, vs in PRES.get(n["type"], {}).items():
            for v in range(len(vs)) if ctx.tier == "thorough" else (len(case[1]) % len(vs), (len(case[1]) + i + 1) % len(vs)):
                e = copy.deepcopy(d)
                x = list(adf.walk(e))[i]
                x.setdefault("attrs", {})[k] = copy.deepcopy(vs[v])
                same(d, e, ctx, "%s of a %s" % (k, n["type"]), base)
                ctx.extra_states += 1


# ---- trees: two variants of the same document, element by element
def S(t, inside="", **attrs):
    return gen.Sym(lambda k: mk(t, *k, **copy.deepcopy(attrs)), inside)


ALPHA = {"p": S("paragraph", "t"), "t": gen.Sym(lambda k: text("x", "strong"), ""), "b": S("bulletList", "i"), "o": S("orderedList", "i"), "i": S("listItem", "p b o"), "x": S("taskList", "y x"),
         "y": S("taskItem", "t"), "P": S("panel", "p"), "X": S("expand", "p N"), "N": S("nestedExpand", "p"), "T": S("table", "r"), "r": S("tableRow", "f h"), "f": S("tableCell", "p"),
         "h": S("tableHeader", "p"), "q": S("blockquote", "p"), "M": S("mediaSingle", "m"), "m": S("media", type="file")}


def tree_cases(tier):
    for f in gen.forests(ALPHA, "p b o x P X T q M", 5 if tier == "quick" else 6):
        if f:
            yield [f]


def run_trees(case, ctx):
    f, = case
    d = strip(adf.label(doc(*[gen.build(ALPHA, t) for t in f])))
    base = rendering(d, ctx)
    nodes = [i for i, n in enumerate(adf.walk(d)) if PRES.get(n["type"])]
    # every subset of the elements (up to 5 of them) carries every presentation attribute
    subsets = itertools.chain.from_iterable(itertools.combinations(nodes, k) for k in range(1, len(nodes) + 1))
    for s in subsets if len(nodes) <= (3 if ctx.tier == "quick" else 5) else [tuple(nodes), tuple(nodes[::2]), tuple(nodes[1::2])] + [(x,) for x in nodes]:
        e = copy.deepcopy(d)
        for i, n in enumerate(adf.walk(e)):
            if i in s:
                for j, (k, vs) in enumerate(PRES[n["type"]].items()):
                    n.setdefault("attrs", {})[k] = copy.deepcopy(vs[(i + j) % len(vs)])
        same(d, e, ctx, "presentation attributes of elements %s" % (s,), base)
        ctx.extra_states += 1


# ---- near the base documents: what is only for presentation is replaced by a standard value
def canon(d):
    e = strip(d)
    for n in adf.walk(e):
        spec = NODES[n["type"]]
        for k in PRES.get(n["type"], {}):
            if spec.attrs and k in spec.attrs[1]:
                n["attrs"][k] = copy.deepcopy(spec.attrs[1][k][0])
    return e


def check_near(d, ctx):
    same(canon(d), d, ctx, "presentation")

def families():
    return [
        Family("attributes", combo_cases, run_combo, "every element type, every subset and combination of values of its presentation-only attributes"),
        Family("marks", mark_cases, run_mark, "every pair of marks without Markdown form at every position among the marks of an element"),
        Family("links", link_cases, run_link, "every combination of the identity attributes of a link"),
        Family("universe", universe_cases, run_universe, "universe documents: every single attribute, and all attributes and marks at once"),
        Family("trees", tree_cases, run_trees, "every tree up to the size, every subset of its elements decorated"),
    ] + deco.families(check_near, deco.rich(), deco.small("table", "panel", "expand", "media", "inline", "inline2", "cards", "marks"), "ams", "am", more=deco.small() + deco.rich(), threes=deco.small("panel", "media", "inline", "marks", "cards"), kinds3="am") + [deco.sizes(check_near, top=129)] + [deco.related(check_near, deco.PAIRS), deco.constants(check_near, texts=False)]
