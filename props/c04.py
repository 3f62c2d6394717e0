"""C04: exactly one warning per skipped element, switchable at any time."""
import copy
import itertools

from mc import adf, deco, gen, lib, places, words
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import Records, api, dump, md, must_eq, parse
from props import c03

ID = "C04"
EXHAUSTIVE = True
ASSUMPTIONS = ["the relative order of warnings for a block's own marks and for its content is left open"]


def unsup(t, cat="node", *content):
    e = {"type": t}
    if content:
        e["content"] = list(content)
    return e


def expected(d):
    """Types of the skipped elements: (nodes in document order, marks of texts in order, all sorted)."""
    nodes, marks, other = [], [], []

    def go(n):
        spec = NODES[n["type"]]
        for c in n.get("content") or []:
            if c["type"] in NODES:
                go(c)
            else:
                nodes.append(c["type"])
        for m in n.get("marks") or []:
            if m["type"] not in MARKS:
                (marks if n["type"] == "text" else other).append(m["type"])

    go(d)
    everything = sorted(nodes + marks + other)
    if set(other) & set(marks):
        marks = None        # the same names are used on blocks: their relative order is left open
    return nodes, marks, everything


def named(message, candidates):
    """Which of the type strings a message names (they are chosen so that this is unambiguous)."""
    hits = [t for t in candidates if "'%s'" % t in message or '"%s"' % t in message]
    return hits[0] if hits else None


def check_records(items, d, warn, what):
    nodes, marks, everything = expected(d)
    if not warn:
        if items:
            raise Bad("%s: logged although warnings are off: %s" % (what, items))
        return
    if len(items) != len(everything):
        raise Bad("%s: %d warnings for %d skipped elements %s: %s" % (what, len(items), len(everything), everything, items))
    seen = []
    for level, msg in items:
        if level != "WARNING":
            raise Bad("%s: logged at level %s: %s" % (what, level, msg))
        t = named(msg, everything)
        if t is None:
            raise Bad("%s: the warning names none of %s: %s" % (what, everything, msg))
        seen.append(t)
    if sorted(seen) != everything:
        raise Bad("%s: warnings for %s, skipped %s" % (what, seen, everything))
    for order in (nodes, marks):
        if order is None:
            continue
        got = [t for t in seen if t in order]
        if got != order:
            raise Bad("%s: warnings in the order %s instead of %s" % (what, got, order))


# ---- histories: parses and setting changes
DOCS = {
    "none": doc(para("a")),
    "one": doc(para("a"), unsup("layoutSection"), para("b")),
    "same twice": doc(unsup("layoutSection"), para("a"), unsup("layoutSection")),
    "mark": doc(para(text("a", "strong"), {"type": "text", "text": "b", "marks": [{"type": "fontSize"}, {"type": "em"}, {"type": "fontSize"}]})),
    "many": doc(unsup("bodiedExtension", "node", unsup("layoutColumn")),
                mk("bulletList", mk("listItem", unsup("placeholder"), para("x", unsup("inlineExtension"))), unsup("weird")),
                mk("table", mk("tableRow", mk("tableCell", unsup("syncBlock"), para("y"))))),
    "broken": doc(unsup("layoutSection"), {"type": "heading", "attrs": {}}),
}
OPS = ["on", "off"] + ["parse " + k for k in DOCS] + ["render", "setting False by name"]


def clean(d):
    out = {k: v for k, v in d.items() if k not in ("content", "marks")}
    if "content" in d:
        out["content"] = [clean(c) for c in d["content"] if c["type"] in NODES]
    if "marks" in d:
        out["marks"] = [m for m in d["marks"] if m["type"] in MARKS]
    return out


def history_cases(tier):
    for n in range(1, 5 if tier == "quick" else 6):
        yield from (list(h) for h in itertools.product(range(len(OPS)), repeat=n))


def run_history(case, ctx):
    warn = True
    lib.set_warn(True)
    last = None
    try:
        with Records() as rec:
            for k, op in enumerate(case):
                name = OPS[op]
                rec.items.clear()
                what = "step %d (%s) of %s" % (k, name, [OPS[o] for o in case])
                ctx.step()
                if name == "on":
                    lib.set_warn(True)
                    warn = True
                elif name == "off":
                    lib.set_warn(False)
                    warn = False
                elif name == "setting False by name":
                    import sys
                    sys.modules["atlas_doc_parser.settings"].WARN_UNIMPLEMENTED_TYPE = False
                    warn = False
                elif name == "render":
                    if last is not None:
                        last.to_markdown()
                        last.to_dict()
                    if rec.items:
                        raise Bad("%s: rendering logged %s" % (what, rec.items))
                elif name == "parse broken":
                    kind, x = lib.attempt(lambda: api.NodeDoc.from_dict(copy.deepcopy(DOCS["broken"])))
                    if kind == "ok":
                        raise Bad(what + ": a malformed document was accepted")
                    if len(rec.items) != (1 if warn else 0):
                        raise Bad("%s: logged %s" % (what, rec.items))
                else:
                    d = DOCS[name[6:]]
                    last = api.NodeDoc.from_dict(copy.deepcopy(d))
                    check_records(rec.items, d, warn, what)
                    if last.to_dict() != clean(d):
                        raise Bad(what + ": wrong parse result")
                if name in ("on", "off") and rec.items:
                    raise Bad(what + ": logged " + repr(rec.items))
    finally:
        lib.set_warn(True)


# ---- documents: unsupported elements in every slot
TYPES_N = ["layoutSection", "bodiedExtension", "placeholder", "blockTaskItem", "weird"]
TYPES_M = ["fontSize", "highlight", "confluenceInlineComment"]


def on_text(d, where):
    """Is this slot in the marks of a text?"""
    lst = c03.slots(d)[where[0]][1]
    return any(n["type"] == "text" and n.get("marks") is lst for n in adf.walk(d))


def run_universe(case, ctx):
    d = c03.with_marks(gen.decode(case))
    pl = c03.places(d)
    sets = [[w] for w in pl] + [pl, pl + pl]
    for n, ws in enumerate(sets):
        els = [{"node": {"type": TYPES_N[(i + n) % 5], "content": [{"type": "nested"}, {"type": "text"}]},
                "mark": {"type": TYPES_M[(i + n) % 3] + ("" if on_text(d, ws[i]) else "Block")}} for i in range(len(ws))]
        e = c03.insert(d, ws, els)
        for warn in (True, False):
            lib.set_warn(warn)
            try:
                with Records() as rec:
                    tree = parse(copy.deepcopy(e), ctx)
                    check_records(rec.items, e, warn, "unsupported elements at %s" % (ws,))
                    rec.items.clear()
                    if n == 0:
                        lib.attempt(lambda: md(tree, ctx))
                        dump(tree, ctx)
                        if rec.items:
                            raise Bad("rendering or serialising logged %s" % rec.items)
            finally:
                lib.set_warn(True)
        ctx.outcome(e)


# ---- every unsupported type string
def type_cases(tier):
    for t in c03.bad_node_types():
        yield ["node", t]
    for t in c03.bad_mark_types():
        yield ["mark", t]


def run_type(case, ctx):
    cat, t = case
    for count in (1, 2, 3):
        if cat == "node":
            e = doc(*[x for i in range(count) for x in (para("a"), {"type": t})])
        else:
            e = doc(para(*[{"type": "text", "text": "a", "marks": [{"type": t}]} for _ in range(count)]))
        for warn in (True, False, True):
            lib.set_warn(warn)
            try:
                with Records() as rec:
                    parse(copy.deepcopy(e), ctx)
                    n = len(rec.items)
                    if n != (count if warn else 0):
                        raise Bad("%d warnings for %d skipped elements of type %r, setting %s: %s" % (n, count, t, warn, rec.items))
                    for level, msg in rec.items:
                        if t not in msg and repr(t) not in msg or level != "WARNING":
                            raise Bad("type %r: %s %r" % (t, level, msg))
                        if cat not in msg.lower():
                            raise Bad("the warning does not say that a %s was skipped: %r" % (cat, msg))
            finally:
                lib.set_warn(True)
    # a parse of the element on its own raises and logs nothing
    with Records() as rec:
        ctx.step()
        lib.attempt(lambda: (api.parse_node if cat == "node" else api.parse_mark)({"type": t}))
        if rec.items:
            raise Bad("parsing an unsupported element on its own logged %s" % rec.items)
    ctx.outcome(t)


def count_cases(tier):
    yield from range(0, 60 if tier == "quick" else 300)
    yield from words.near(60 if tier == "quick" else 300, 5000, total=20000)


def run_count(n, ctx):
    e = doc(*[{"type": "layoutSection"} if i % 3 else {"type": "weird%d" % i} for i in range(n)])
    with Records() as rec:
        parse(e, ctx)
        check_records(rec.items, e, True, "%d unsupported blocks" % n)
    e = doc(*[mk("bulletList", mk("listItem", para("a", {"type": "deep"}))) for i in range(n)])
    with Records() as rec:
        parse(e, ctx)
        check_records(rec.items, e, True, "%d unsupported inlines" % n)


# ---- an unsupported element after many supported ones, before them and among them
def late_cases(tier):
    for n in list(range(0, 140)) + [199, 200, 201, 255, 256, 257, 499, 500, 501, 999, 1000, 1001, 2000, 5000] + ([10000, 20000] if tier == "thorough" else []) + words.near(140, 12000, total=60000):
        for k in ("block", "inline", "item", "mark", "row", "cell"):
            yield [n, k]


def run_late(case, ctx):
    n, kind = case
    for at in sorted({0, n // 2, n}):
        if kind == "mark":
            ms = [mk_mark(("strong", "em")[i % 2]) for i in range(n)]
            ms.insert(at, {"type": "fontSize"})
            e = doc(para({"type": "text", "text": "x", "marks": ms}))
        else:
            one = {"block": para("a"), "inline": text("a"), "item": mk("listItem", para("a")), "row": mk("tableRow", mk("tableCell", para("a"))), "cell": mk("tableCell", para("a"))}[kind]
            kids = [one] * n
            kids.insert(at, {"type": "weird"})
            e = doc(*kids) if kind == "block" else doc(mk({"inline": "paragraph", "item": "bulletList", "row": "table", "cell": "tableRow"}[kind], *kids)) if kind != "cell" else doc(mk("table", mk("tableRow", *kids)))
        with Records() as rec:
            parse(e, ctx)
            check_records(rec.items, e, True, "one unsupported %s at %d of %d" % (kind, at, n))
        ctx.extra_states += 1


# ---- every value of the setting, every sequence of values
SETTINGS = [True, False, 1, 0, None, "", "no", [], 0.0]


def setting_cases(tier):
    for n in range(1, 4):
        yield from (list(s) for s in itertools.product(range(len(SETTINGS)), repeat=n))


def run_setting(case, ctx):
    import atlas_doc_parser.settings as settings
    try:
        with Records() as rec:
            for i in case:
                lib.set_warn(SETTINGS[i])
                for k in ("one", "mark", "none", "many"):
                    rec.items.clear()
                    parse(copy.deepcopy(DOCS[k]), ctx)
                    check_records(rec.items, DOCS[k], bool(SETTINGS[i]), "setting %r after %r" % (SETTINGS[i], [SETTINGS[j] for j in case]))
                    now = settings.WARN_UNIMPLEMENTED_TYPE
                    if now is not SETTINGS[i]:
                        raise Bad("the setting became %r instead of %r" % (now, SETTINGS[i]))
    finally:
        lib.set_warn(True)


# ---- wherever the parse is called from
def place_cases(tier):
    for a in places.PLACES:
        for b in places.PLACES:
            for warn in (1, 0):
                yield [a, b, warn]


def run_place(case, ctx):
    a, b, warn = case
    try:
        lib.set_warn(bool(warn))
        for k in ("one", "mark", "none", "many", "same twice"):
            with Records() as rec:
                for place in (a, b):
                    rec.items.clear()
                    places.PLACES[place](lambda: parse(copy.deepcopy(DOCS[k]), ctx))
                    check_records(rec.items, DOCS[k], bool(warn), "'%s' parsed in %s (%s then %s)" % (k, place, a, b))
                # the setting is changed at one place and used at the other
                places.PLACES[a](lambda: lib.set_warn(not warn))
                rec.items.clear()
                places.PLACES[b](lambda: parse(copy.deepcopy(DOCS[k]), ctx))
                check_records(rec.items, DOCS[k], not warn, "'%s' parsed in %s, the setting changed in %s" % (k, b, a))
                places.PLACES[a](lambda: lib.set_warn(bool(warn)))
    finally:
        lib.set_warn(True)


# ---- near the base documents
def check_near(d, ctx):
    for n in adf.walk(d):
        if NODES[n["type"]].content == "opt":
            n.setdefault("content", [])
        if NODES[n["type"]].marks:
            n.setdefault("marks", [])
    pl = c03.places(d)
    for ws in (pl, pl[::2], pl[1::2]):
        els = [{"node": {"type": TYPES_N[(i + len(pl)) % 5]}, "mark": {"type": TYPES_M[i % 3] + ("" if on_text(d, ws[i]) else "Block")}} for i in range(len(ws))]
        e = c03.insert(d, ws, els)
        with Records() as rec:
            tree = parse(e, ctx)
            check_records(rec.items, e, True, "unsupported elements in many places")
            rec.items.clear()
            lib.attempt(lambda: md(tree, ctx))
            if rec.items:
                raise Bad("rendering logged %s" % rec.items)
    ctx.outcome(e)


def families():
    return [
        Family("histories", history_cases, run_history, "every sequence of parses, renders and setting changes up to the depth"),
        Family("types", type_cases, run_type, "every unsupported type string"),
        Family("slots", gen.small_universe, run_universe, "universe documents, unsupported elements in every slot and in all"),
        Family("counts", count_cases, run_count, "every number of unsupported elements up to the bound"),
        Family("late", late_cases, run_late, "one unsupported element before, among and after every number of supported ones up to the bound"),
        Family("places in the program", place_cases, run_place, "every two of the places a parse and a change of the setting can be called from: threads, pools, coroutines, exception handlers, generators, deep frames"),
        Family("settings", setting_cases, run_setting, "every sequence of 3 values of the setting, true and false ones of several types"),
    ] + deco.families(check_near, deco.rich(), deco.small("list", "marks"), kinds="mtsi", kinds2="ms", more=deco.small())
