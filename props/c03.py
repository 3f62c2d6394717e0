"""C03: unsupported element types are skipped and nothing else changes."""
import copy
import itertools

from mc import adf, deco, gen, lib, ref, words
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import api, dump, eq, md, must_eq, parse

ID = "C03"
EXHAUSTIVE = True
ASSUMPTIONS = ["unsupported types are the official ones, all mark names as nodes, all node names as marks, and systematic misspellings"]


def misspellings(t):
    return [t.lower(), t.upper(), t[0].upper() + t[1:], t[:-1], t + "s", " " + t, t + " ", t + "\n", t + "Item"]


def affixed(t):
    return (["%s%s%s" % (p, s, t) for p in ("ac", "x", "") for s in ":./#@-_|,"] + ["%s%s%s" % (t, s, p) for p in ("v2", "2", "") for s in ":./#@-_|,"]
            + ["'%s'" % t, '"%s"' % t, "<%s>" % t, "[%s]" % t, "{%s}" % t, "%%(%s)s" % t, "\ufeff" + t, t + "\0", t + "\u200b", t[::-1], t + t, t.replace("i", "\u0131")])


ODD_TYPES = ["", " ", "0", "100%", "100%d", "%s", "%", "%%", "{}", "{0}", "\\", "\\n", "a\nb", "\t", "'", '"', "it's", "é", "\u2028", "😀", "None", "null", "type", "node", "mark", "content", "attrs", "self", "class",
             "__class__", "__init__", "NodeParagraph", "MarkStrong", "Node", "Mark", "TypeEnum.paragraph", "parse_node", "unknown", "unsupportedBlock", "unsupportedInline", "confluenceUnsupportedBlock", "unsupportedMark"] + [
             "x" * n for n in list(range(1, 130)) + [255, 256, 257, 300, 511, 512, 1000, 1024, 4096, 10000]]


def bad_node_types():
    out = list(adf.UNSUPPORTED_NODES) + list(MARKS) + ODD_TYPES + words.words() + [n for n in words.names() if n[:1] != "_"]
    for t in NODES:
        out += misspellings(t) + affixed(t)
    return [t for t in dict.fromkeys(out) if t not in NODES]


def bad_mark_types():
    out = list(adf.UNSUPPORTED_MARKS) + list(NODES) + ODD_TYPES + words.words() + [n for n in words.names() if n[:1] != "_"]
    for t in MARKS:
        out += misspellings(t) + affixed(t)
    return [t for t in dict.fromkeys(out) if t not in MARKS]


# what an unsupported element may carry: nothing of it may matter
PAYLOADS = [
    {},
    {"attrs": {"localId": "x", "level": 1}},
    {"content": [{"type": "paragraph", "content": [{"type": "text", "text": "hidden"}]}]},
    {"content": [{"type": "heading"}, {}], "attrs": None, "marks": [{"type": "link"}]},
    {"text": "hidden", "marks": [{"type": "strong"}], "content": "nothing", "version": 2},
]


def outcome(d, ctx):
    tree = parse(d, ctx)
    return tree, dump(tree, ctx), lib.attempt(lambda: md(tree, ctx))


def compare(e, base, ctx, what):
    try:
        got = outcome(e, ctx)
    except Exception as x:
        raise Bad("%s: parsing raised %s: %s" % (what, type(x).__name__, x))
    if not (got[0] == base[0]):
        raise Bad("%s: the tree is not that of the document without it\n got  %s\n want %s" % (what, lib.short(got[1]), lib.short(base[1])))
    must_eq(got[1], base[1], what)
    if got[2][0] != base[2][0] or (got[2][0] == "ok" and got[2][1] != base[2][1]):
        raise Bad("%s: the Markdown differs\n got  %r\n want %r" % (what, got[2][1], base[2][1]))
    ctx.outcome(got[1])


# ---- alone
def alone_cases(tier):
    for t in bad_node_types():
        for p in range(len(PAYLOADS)):
            yield ["node", t, p]
    for t in bad_mark_types():
        for p in range(len(PAYLOADS)):
            yield ["mark", t, p]


def run_alone(case, ctx):
    cat, t, p = case
    e = dict(copy.deepcopy(PAYLOADS[p]), type=t)
    keep = copy.deepcopy(e)
    ctx.step()
    kind, x = lib.attempt(lambda: (api.parse_mark if cat == "mark" else api.parse_node)(e))
    if kind == "ok":
        raise Bad("parsing an unsupported %s of type %r succeeded: %r" % (cat, t, x))
    if not isinstance(x, api.UnimplementedTypeError):
        raise Bad("unsupported %s type %r raised %s instead of the unimplemented-type error: %s" % (cat, t, type(x).__name__, x))
    s = str(x)
    if repr(t) not in s and t not in s:
        raise Bad("the error does not name the type %r: %s" % (t, s))
    if getattr(x, "type_value", t) != t:
        raise Bad("the error names type %r instead of %r" % (x.type_value, t))
    if x.category != cat or cat not in s.lower():
        raise Bad("the error says category %r for a %s: %s" % (x.category, cat, s))
    if not eq(e, keep):
        raise Bad("the input was modified")
    ctx.outcome(s)


# ---- every slot of a document
def slots(d):
    """(list, index) for every place of every content and marks list, as (kind, list number, index)."""
    lists = []
    for n in adf.walk(d):
        if isinstance(n.get("content"), list) and NODES[n["type"]].content is not None:
            lists.append(("node", n["content"]))
        if isinstance(n.get("marks"), list) and NODES[n["type"]].marks is not None:
            lists.append(("mark", n["marks"]))
    return lists


def places(d):
    return [(k, i) for k, (_, lst) in enumerate(slots(d)) for i in range(len(lst) + 1)]


def insert(d, where, elements):
    """Insert the elements (cat -> dict) at the given places; several at one place keep their order."""
    e = copy.deepcopy(d)
    lists = slots(e)
    for n, (k, i) in sorted(enumerate(where), key=lambda x: (x[1][0], -x[1][1], -x[0])):
        cat, lst = lists[k]
        lst.insert(i, copy.deepcopy(elements[n][cat]))
    return e


def element(i):
    nt, mt = adf.UNSUPPORTED_NODES, adf.UNSUPPORTED_MARKS
    p = PAYLOADS[i % len(PAYLOADS)]
    return {"node": dict(copy.deepcopy(p), type=nt[i % len(nt)]), "mark": dict(copy.deepcopy(p), type=mt[i % len(mt)])}


def one_type_cases(tier):
    """Every type string at the slots of a small document."""
    for cat, types in (("node", bad_node_types()), ("mark", bad_mark_types())):
        for i, t in enumerate(types):
            for p in range(len(PAYLOADS)) if tier == "thorough" else [i % len(PAYLOADS)]:
                yield [cat, t, p]


SMALL = doc(para(text("a", "strong", "em"), text("b")), mk("bulletList", mk("listItem", para("c"), mk("orderedList", mk("listItem", para("d"))))),
            mk("table", mk("tableRow", mk("tableHeader", para("e"))), mk("tableRow", mk("tableCell", para("f"), marks=None)), marks=[]))


def run_one_type(case, ctx):
    cat, t, p = case
    base = outcome(copy.deepcopy(SMALL), ctx)
    e = {cat: dict(copy.deepcopy(PAYLOADS[p]), type=t)}
    for w in places(SMALL):
        if slots(SMALL)[w[0]][0] == cat:
            compare(insert(SMALL, [w], [e]), base, ctx, "unsupported %s %r at %s" % (cat, t, w))


def with_marks(d):
    """Every element that may have marks gets a list of them, so that there is a slot."""
    for i, n in enumerate(adf.walk(d)):
        m = NODES[n["type"]].marks
        if m and "marks" not in n:
            n["marks"] = [mk_mark(m[i % len(m)])] if i % 2 else []
    return d


def run_universe(case, ctx):
    """One unsupported element in every single slot, then in all slots at once, then pairs of slots."""
    d = with_marks(gen.decode(case))
    for n in adf.walk(d):
        if NODES[n["type"]].content == "opt":
            n.setdefault("content", [])
    base = outcome(copy.deepcopy(d), ctx)
    pl = places(d)
    for i, w in enumerate(pl):
        compare(insert(d, [w], [element(i)]), base, ctx, "at %s" % (w,))
    compare(insert(d, pl, [element(i + 1) for i in range(len(pl))]), base, ctx, "in all slots")
    compare(insert(d, pl + pl, [element(i) for i in range(2 * len(pl))]), base, ctx, "twice in all slots")


ALPHA = {
    "p": gen.Sym(lambda k: mk("paragraph", *k), "t"),
    "t": gen.Sym(lambda k: text("x", "strong"), ""),
    "b": gen.Sym(lambda k: mk("bulletList", *k), "i"),
    "i": gen.Sym(lambda k: mk("listItem", *k), "p b"),
    "k": gen.Sym(lambda k: mk("taskList", *k), "j k"),
    "j": gen.Sym(lambda k: mk("taskItem", *k), "t"),
    "q": gen.Sym(lambda k: mk("panel", *k), "p"),
}


def subset_cases(tier):
    yield from gen.forests(ALPHA, "p b k q", 4 if tier == "quick" else 5)


def run_subsets(case, ctx):
    """Every subset of the slots of a small tree."""
    d = doc(*[gen.build(ALPHA, t) for t in case])
    for n in adf.walk(d):
        if n["type"] in ("paragraph", "taskItem"):
            n.setdefault("content", [])
    adf.label(d)
    base = outcome(copy.deepcopy(d), ctx)
    pl = places(d)
    limit = 8 if ctx.tier == "quick" else 10
    if len(pl) > limit:
        ctx.count("trees with more than %d slots: subsets up to 2" % limit)
        sets = [c for k in (1, 2) for c in itertools.combinations(pl, k)]
    else:
        sets = [c for k in range(1, len(pl) + 1) for c in itertools.combinations(pl, k)]
    for ws in sets:
        compare(insert(d, list(ws), [element(i + len(ws)) for i in range(len(ws))]), base, ctx, "at %s" % (ws,))
        ctx.extra_states += 1


def run_lengths(case, ctx):
    """Many unsupported elements in one list, around a few supported ones."""
    n, at = case
    kids = [para("w%d" % i) for i in range(3)]
    base = outcome(doc(*copy.deepcopy(kids)), ctx)
    e = doc(*kids)
    for i in range(n):
        e["content"].insert(at, element(i)["node"])
    compare(e, base, ctx, "%d unsupported blocks at %d" % (n, at))
    t = text("a", "strong", "em")
    base = outcome(doc(para(copy.deepcopy(t))), ctx)
    for i in range(n):
        t["marks"].insert(min(at, 2), element(i)["mark"])
    compare(doc(para(t)), base, ctx, "%d unsupported marks at %d" % (n, at))


def length_cases(tier):
    for n in range(0, 30 if tier == "quick" else 100):
        for at in range(4):
            yield [n, at]


# ---- near the base documents: unsupported elements in all slots
def check_near(d, ctx):
    for n in adf.walk(d):
        if NODES[n["type"]].content == "opt":
            n.setdefault("content", [])
        if NODES[n["type"]].marks:
            n.setdefault("marks", [])
    base = outcome(copy.deepcopy(d), ctx)
    pl = places(d)
    compare(insert(d, pl, [element(i + len(pl)) for i in range(len(pl))]), base, ctx, "in all slots")
    compare(insert(d, pl[::2], [element(i) for i in range(0, len(pl), 2)]), base, ctx, "in every second slot")

def families():
    return [
        Family("alone", alone_cases, run_alone, "every unsupported type string and payload parsed on its own"),
        Family("types in place", one_type_cases, run_one_type, "every unsupported type string and payload in every slot of a document"),
        Family("slots", gen.small_universe, run_universe, "every universe document, an unsupported element in every slot and in all slots"),
        Family("subsets", subset_cases, run_subsets, "every small tree, unsupported elements in every subset of its slots"),
        Family("lengths", length_cases, run_lengths, "runs of unsupported elements of every length"),
    ] + deco.families(check_near, deco.rich(), deco.small("media", "extension"), more=deco.small())
