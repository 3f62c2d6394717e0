"""C17: inline and media elements render to their documented text or fallback."""
import copy
import itertools

from mc import adf, deco, gen, lib, ref, words
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import api, check_markdown, dump, md, parse

ID = "C17"
EXHAUSTIVE = True
ASSUMPTIONS = ["a file image has an id (its documentation requires one)",
               "a link medium renders as '[media]', as it does today; captions, media groups and inline media render to nothing"]

STRINGS = ["x", "", " ", "0", "None", "é\u2028z", "a|b", "a\nb", "\n", "`x`", "[t](u)", "*x*", "@", "  x  ", "\\", "<b>&amp;", "{0}%s", "𝄞", "http://h/p?q=1#f", "media", "\t", "x" * 300, "a``b", "False"]
ABSENT = object()

# leaf -> attributes that decide its text; every other attribute must not matter
SEMANTIC = {
    "mention": {"text": "str?"},
    "emoji": {"text": "str?", "shortName": "str"},
    "status": {"text": "str"},
    "inlineCard": {"url": "str"},
    "blockCard": {"url": "str"},
    "embedCard": {"url": "str"},
    "media": {"type": ["file", "external", "link"], "alt": "str?", "url": "str?", "id": "str"},
    "extension": {"extensionKey": "str", "extensionType": "str", "text": "str?"},
    "hardBreak": {},
    "rule": {},
}
LEAVES = list(SEMANTIC)


def domain(kind, few=False):
    if isinstance(kind, list):
        return list(range(len(kind)))
    ss = list(range(4 if few else len(STRINGS)))
    # -1 absent, -2 null
    return ss + [-1, -2] if kind.endswith("?") else ss


def value(kind, i):
    if i == -1:
        return ABSENT
    if i == -2:
        return None
    return kind[i] if isinstance(kind, list) else STRINGS[i]


def others(t):
    """Optional attributes that do not matter, with a few values each."""
    spec = NODES[t]
    return {k: v for k, v in (spec.attrs[2] if spec.attrs else {}).items() if k not in SEMANTIC[t]}


# every other field of text with every string
def stray_cases(tier):
    for t in LEAVES:
        for k, vs in others(t).items():
            if any(isinstance(v, str) for v in vs):
                for s in dict.fromkeys(STRINGS + deco.SPECIALS + deco.BREAKS + deco.REAL.get(k, []) + words.words()):
                    yield [t, k, s]


def run_stray(case, ctx):
    t, k, s = case
    for full in (0, 1):
        e = typical(t, full=bool(full))
        e.setdefault("attrs", {})[k] = s
        exact(e, ctx, "with %s = %r" % (k, s))
        deco.exact(embed(copy.deepcopy(e)), ctx)


def make(t, sem, rest):
    e = mk(t)
    a = e.setdefault("attrs", {})
    for (k, kind), i in zip(SEMANTIC[t].items(), sem):
        v = value(kind, i)
        if v is ABSENT:
            a.pop(k, None)
        else:
            a[k] = v
    for (k, vs), i in zip(others(t).items(), rest):
        if i >= 0:
            a[k] = copy.deepcopy(vs[i])
    if not a and not (NODES[t].attrs and NODES[t].attrs[0]):
        del e["attrs"]
    return e


def exact(e, ctx, what):
    """Just this element, character for character."""
    tree = parse(e, ctx)
    try:
        want = ref.render(e)
    except ref.CannotRender:
        kind, got = lib.attempt(lambda: md(tree, ctx))
        if kind == "ok":
            raise Bad("%s: %s has no documented text, but gives %r" % (what, lib.short(e), got))
        return
    got = md(tree, ctx)
    got2 = md(tree, ctx, ignore_error=True)
    if got != got2:
        raise Bad("%s: %s gives %r, but %r with errors ignored" % (what, lib.short(e), got, got2))
    if e["type"] in ("rule", "blockCard", "embedCard"):
        # how many line breaks surround a block is the business of C15
        got, want = got.strip("\n"), want.strip("\n")
    if got != want:
        raise Bad("%s: %s gives %r instead of %r" % (what, lib.short(e), got, want))
    ctx.outcome(got)


# ---- all values of the fields that matter
def value_cases(tier):
    for t in LEAVES:
        kinds = list(SEMANTIC[t].values())
        strs = sum(1 for k in kinds if isinstance(k, str))
        doms = [domain(k, few=False) for k in kinds]
        n = 1
        for x in doms:
            n *= len(x)
        if n > 60000:
            # all pairs of full domains, the other fields over a few values
            seen = set()
            for i, j in itertools.combinations(range(len(kinds)), 2):
                ds = [domain(k, few=q not in (i, j)) for q, k in enumerate(kinds)]
                if tier == "quick":
                    ds = [x if q in (i, j) else ([0] + [v for v in x if v < 0] if isinstance(kinds[q], str) else x) for q, x in enumerate(ds)]
                for c in itertools.product(*ds):
                    if c not in seen:
                        seen.add(c)
                        yield [t, list(c)]
        else:
            for c in itertools.product(*doms):
                yield [t, list(c)]


def run_value(case, ctx):
    t, sem = case
    exact(make(t, sem, []), ctx, "alone")
    full = make(t, sem, [0] * len(others(t)))
    exact(full, ctx, "with all optional fields")


# ---- all subsets of the other fields, all their values
def subset_cases(tier):
    for t in LEAVES:
        oth = others(t)
        sems = list(itertools.product(*[(domain(k)[:1] if not isinstance(k, list) else domain(k)) + [v for v in domain(k) if v < 0 or isinstance(k, str) and v == 1] for k in SEMANTIC[t].values()]))
        for s in sems:
            # every subset of presence with first values
            for bits in itertools.product((-1, 0), repeat=len(oth)):
                yield [t, list(s), list(bits)]
        # every combination of values
        doms = [[-1] + list(range(len(v))) for v in oth.values()]
        n = 1
        for x in doms:
            n *= len(x)
        if n <= (20000 if tier == "quick" else 300000):
            for c in itertools.product(*doms):
                yield [t, list(sems[0]), list(c)]
                if tier == "thorough":
                    for s in sems[1:]:
                        yield [t, list(s), list(c)]
        else:
            for i, j in itertools.combinations(range(len(doms)), 2):
                for x in doms[i]:
                    for y in doms[j]:
                        for rest in (-1, 0):
                            c = [rest] * len(doms)
                            c[i], c[j] = x, y
                            for s in sems:
                                yield [t, list(s), c]


def run_subset(case, ctx):
    t, sem, rest = case
    exact(make(t, sem, rest), ctx, "other fields")


# ---- marks on images and on extensions; unknown fields
def mark_cases(tier):
    menu = {"media": ["link", "annotation", "border"], "extension": ["fragment", "dataConsumer"]}
    for t, ms in menu.items():
        for n in range(0, 3):
            for seq in itertools.product(ms, repeat=n):
                for full in (0, 1):
                    for ty in (["file", "external", "link"] if t == "media" else [None]):
                        yield [t, list(seq), full, ty]


def run_mark(case, ctx):
    t, ms, full, ty = case
    e = mk(t, full=bool(full), marks=[mk_mark(m) for m in ms])
    if ty:
        e["attrs"]["type"] = ty
        e["attrs"].setdefault("url", "http://m")
    exact(e, ctx, "with marks")


# ---- built from the classes instead of parsed
def build_cases(tier):
    for t in LEAVES:
        doms = [domain(k, few=True) for k in SEMANTIC[t].values()]
        for c in itertools.product(*doms):
            yield [t, list(c)]


def run_build(case, ctx):
    t, sem = case
    e = make(t, sem, [])
    c = lib.cls(t)
    kw = {}
    if "attrs" in e:
        kw["attrs"] = lib.attrs_cls(t)(**copy.deepcopy(e["attrs"]))
    ctx.step()
    built = c(**kw)
    kind, got = lib.attempt(lambda: md(built, ctx))
    kind2, got2 = lib.attempt(lambda: md(parse(e, ctx), ctx))
    if kind != kind2 or kind == "ok" and got != got2:
        raise Bad("built %s renders %r, parsed %r" % (lib.short(e), got, got2))
    if built.to_dict() != e:
        raise Bad("built %s serialises to %s" % (lib.short(e), lib.short(built.to_dict())))


# ---- in every container
def place_cases(tier):
    for p in gen.all_paths(5 if tier == "quick" else 6):
        if p[-1] in SEMANTIC:
            t = p[-1]
            doms = [[0, 1] if k == "str" else [0, 1, -1] if k == "str?" else [0, 1, 2] for k in SEMANTIC[t].values()]
            for c in itertools.product(*doms):
                if len(p) > 5 and any(x == 1 for x in c):
                    continue
                yield [list(p), list(c)]


def run_place(case, ctx):
    p, sem = case
    node = make(p[-1], sem, [])
    for t in reversed(p[:-1]):
        sib = typical(NODES[t].children[0])
        kids = [copy.deepcopy(sib), node, copy.deepcopy(sib)]
        node = doc(*kids) if t == "doc" else mk(t, *kids)
    check_markdown(node, ctx, "at " + "/".join(p))


# ---- next to each other
def pair_cases(tier):
    for host in ("paragraph", "heading", "taskItem", "decisionItem"):
        leaves = [t for t in LEAVES if t in NODES[host].children]
        menu = []
        for t in leaves:
            for c in itertools.product(*[[0, 1, -1] if k == "str?" else [0, 1] for k in SEMANTIC[t].values()]):
                menu.append([t, list(c)])
        menu.append(["text", "w"])
        for n in (2, 3):
            for seq in itertools.product(menu, repeat=n):
                yield [host, list(seq)]
    for host in ("doc", "panel", "listItem", "tableCell", "expand", "nestedExpand", "blockquote"):
        leaves = [t for t in LEAVES if t in NODES[host].children]
        for n in (2, 3):
            for seq in itertools.product(leaves + ["paragraph"], repeat=n):
                yield [host, [[t, [0] * len(SEMANTIC.get(t, ()))] for t in seq]]


def run_pair(case, ctx):
    host, seq = case
    kids = []
    for t, sem in seq:
        kids.append(typical(t) if t not in SEMANTIC else make(t, sem, []))
    e = doc(*kids) if host == "doc" else embed(mk(host, *kids))
    check_markdown(e, ctx, "in a " + host)


# ---- every character and every length of text
TEXT_AT = [lambda s: doc(para(mk("mention", text=s), mk("emoji", shortName=s), mk("emoji", text=s), mk("status", text=s), mk("inlineCard", url=s))), lambda s: doc(mk("blockCard", url=s), mk("embedCard", url=s)),
           lambda s: doc(mk("mediaSingle", mk("media", type="file", id=s, alt="a")), mk("mediaSingle", mk("media", type="external", url=s, alt=s))), lambda s: doc(mk("extension", extensionKey=s, extensionType=s), mk("extension", text=s))]


def families():
    return [
        Family("values", value_cases, run_value, "every leaf, every combination of values (also absent, null, empty) of the fields that decide its text"),
        Family("other fields", subset_cases, run_subset, "every leaf, every subset and every value of its other optional fields"),
        Family("texts in other fields", stray_cases, run_stray, "every leaf, every other field that holds a text, every string"),
        Family("marks", mark_cases, run_mark, "every sequence of marks on media and extensions"),
        Family("built", build_cases, run_build, "leaves built from the exported classes"),
        Family("places", place_cases, run_place, "every leaf at every place of a document"),
        Family("neighbours", pair_cases, run_pair, "every sequence of 2 and 3 leaves in every container"),
    ] + deco.families(deco.exact, deco.rich("inline", "blocks", "media"), deco.small("inline", "inline2", "media", "external", "extension", "cards"), "amsi", kinds2="ami") + [deco.characters(TEXT_AT, deco.exact), deco.lengths(TEXT_AT, deco.exact)] + [deco.sizes(deco.exact, ["paragraph", "mediaGroup", "mediaSingle", "caption"], top=1001)] + [deco.related(deco.exact, ["inline"]), deco.constants(deco.exact, texts=False)]
