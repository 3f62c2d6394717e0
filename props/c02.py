"""C02: unknown fields anywhere in the input are ignored."""
import copy
import itertools

from mc import adf, deco, gen, lib, ref, words
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import dump, eq, md, must_eq, parse

ID = "C02"
EXHAUSTIVE = True
ASSUMPTIONS = ["only the listed names and values of extra fields are tried"]

NAMES = ["extra", "", "Type", "type ", "version2", "self", "cls", "dct", "kwargs", "from_dict", "to_dict", "to_markdown",
         "is_type_of", "__class__", "__dict__", "_x", "attr", "contents", "children", "mark", "id2", "local-id", "é", "0"]
# names that are known somewhere else in the format
FIELD_NAMES = ["text", "version"]
ATTR_NAMES = ["level", "order", "state", "language", "url", "title", "alt", "panelType", "timestamp", "shortName", "color",
              "href", "align", "colspan", "layout", "width", "text", "type", "id", "content", "marks", "attrs", "localId",
              "collection", "data", "parameters", "version", "name", "size", "mode", "sources"]
# names of other versions of the format, of other formats and of the services around them
MORE = """macroId macroMetadata macroParams macroOutput macroName schemaVersion version1 placeholder placeholderText fallback shortcut unicode emojiId userId username accountId displayName nickname
key href src link linkUrl linkHref uri ari cardUrl date time value label colour textColor bgColor backgroundColor bodyColor icon iconId iconText emoji header isHeader rowHeader headerRow numbered start startAt
begin first number index checked done completed decided status kind caption body child items rows cells nodes inlines lang syntax wrap wrapped breakout breakoutMode breakoutWidth columns cols row pixelWidth
percentage fileId mediaId mediaType mimeType fileName fileSize file thumbnail preview previewUrl __typename _type __fileName __contextId __external $schema schema class className css metadata meta options props properties
prop reactions comments annotations annotation indent indentation alignment textAlign direction dir anchor slug hash tag tags uuid guid localID local_id localid nodeType node_type markType raw html markdown md plain plainText
rendered representation renderer alternative alternatives description summary footnote author created updated timestampMs epoch timezone tz format template locale user group space page pageId contentId ownerId owner site cloudId
tenant product provider appId extensionId extensionTitle extensionProperties params param arguments args input output result error warning warnings deprecated experimental hidden visible display show collapsed expanded open
isOpen defaultOpen disabled readonly editable required optional default defaults extends inherits source target ref refs parent parentId siblings next previous prev before after position offset length count total
fontSize fontFamily font bold italic strong em code strike underline link1 subsup sub sup superscript subscript highlight styles lineNumbers showLineNumbers firstLine theme rowIndex colIndex rowSpan colSpan colWidth
isNumberedColumn numberColumn tableLayout fixedTable autosize cellType bgcolor valign verticalAlign vAlign""".split()
VALUES = ["x", None, 0, "", [], {}, False, 1.5, [1, {"type": "nope", "content": [{}]}], {"type": "paragraph", "content": [{"type": "text"}]}]


def spots(d):
    """Every dictionary of the document that is an element or the attributes of one, with the
    names it knows: (dict, known names, candidates)."""
    for n in adf.walk(d):
        spec = NODES[n["type"]]
        known = {"type", "attrs", "content", "marks"} | set(spec.fields)
        yield n, known, NAMES + FIELD_NAMES
        if "attrs" in n and spec.attrs is not None:
            yield n["attrs"], set(spec.attrs[1]) | set(spec.attrs[2]), NAMES + ATTR_NAMES
        for m in n.get("marks") or []:
            yield m, {"type", "attrs"}, NAMES + FIELD_NAMES + ["content", "marks"]
            ms = MARKS[m["type"]]
            if ms is not None and "attrs" in m:
                yield m["attrs"], set(ms[0]) | set(ms[1]), NAMES + ATTR_NAMES


def baseline(d, ctx):
    tree = parse(copy.deepcopy(d), ctx)
    return tree, dump(tree, ctx), lib.attempt(lambda: md(tree, ctx))


def compare(e, base, ctx, what):
    tree, out, rendered = base
    try:
        t2 = parse(e, ctx)
    except Exception as x:
        raise Bad("%s: parsing raised %s: %s" % (what, type(x).__name__, x))
    if not (t2 == tree):
        raise Bad("%s: the parsed tree changed" % what)
    must_eq(dump(t2, ctx), out, what + ": the serialisation changed")
    kind, got = lib.attempt(lambda: md(t2, ctx))
    if kind != rendered[0] or (kind == "ok" and got != rendered[1]):
        raise Bad("%s: the Markdown changed\n got  %r\n want %r" % (what, got, rendered[1]))
    ctx.outcome(out)


# every spot of one document of each type, every name, every value
def single_cases(tier):
    for t in NODES:
        for full in (0, 1):
            d = make(t, full)
            for i, (_, known, names) in enumerate(spots(d)):
                for j, nm in enumerate(names):
                    if nm not in known:
                        for v in range(len(VALUES)):
                            yield [t, full, i, nm, v]


def make(t, full):
    e = typical(t, bool(full))
    return e if t == "doc" else embed(e)


_base = {}


def run_single(case, ctx):
    t, full, i, nm, v = case
    key = (t, full)
    if key not in _base:
        _base[key] = baseline(make(t, full), ctx)
    e = make(t, full)
    spot = list(spots(e))[i][0]
    spot[nm] = copy.deepcopy(VALUES[v])
    compare(e, _base[key], ctx, "extra field %r = %r" % (nm, VALUES[v]))


# names that differ a little from a known one
def near(n):
    snake = "".join("_" + c.lower() if c.isupper() else c for c in n)
    out = [n.lower(), n.upper(), n.capitalize(), n[:1].upper() + n[1:], n.swapcase(), snake, snake.replace("_", "-"), snake.upper(),
           n + "s", n[:-1], n[1:], "_" + n, "__" + n, n + "_", n + "2", " " + n, n + " ", n + "\n", "@" + n, "$" + n, "x-" + n, "data-" + n, n + ".x",
           n[::-1], "is" + n.capitalize(), "get_" + n, n + n, "\ufeff" + n, n.replace("o", "0"), n.replace("i", "\u0131"), n[:4], n[-4:]]
    return list(dict.fromkeys(x for x in out if x != n))


def good_value(name, s):
    """A value that the field of that name could have."""
    for spec in list(NODES.values()):
        if spec.attrs is not None:
            for part in spec.attrs[1:]:
                if name in part:
                    for v in part[name]:
                        if s.get(name) != v:
                            return v
    return {"content": [{"type": "text", "text": "zz"}], "marks": [{"type": "strong"}], "attrs": {"level": 6, "url": "http://z", "text": "zz"},
            "type": "rule", "version": 2, "text": "zz"}.get(name, "zz")


def near_cases(tier):
    for t in NODES:
        for full in (0, 1):
            e = typical(t, bool(full))
            n_own = len(list(spots(e)))
            d = make(t, full)
            at = next(i for i, (s, _, _) in enumerate(spots(d)) if s.get("type") == t)
            sp = list(spots(d))
            for i in range(at, min(at + n_own, len(sp))):
                s, known, _ = sp[i]
                for k in sorted(known):
                    for nm in near(k):
                        if nm not in known:
                            for v in range(4):
                                yield [t, full, i, k, nm, v]


def run_near(case, ctx):
    t, full, i, k, nm, v = case
    key = (t, full)
    if key not in _base:
        _base[key] = baseline(make(t, full), ctx)
    e = make(t, full)
    s = list(spots(e))[i][0]
    s[nm] = copy.deepcopy([good_value(k, s), s.get(k, "x"), None, 0][v])
    compare(e, _base[key], ctx, "extra field %r = %r" % (nm, s[nm]))
    # the same field first in the dictionary
    if v == 0:
        first = {nm: s[nm]}
        first.update(s)
        s.clear()
        s.update(first)
        compare(e, _base[key], ctx, "extra field %r = %r, first" % (nm, s[nm]))


# plausible names
def more_cases(tier):
    for t in NODES:
        for full in (0, 1):
            for i, (_, known, names) in enumerate(spots(make(t, full))):
                for nm in MORE:
                    if nm not in known and nm not in names:
                        yield [t, full, i, nm]


def run_more(case, ctx):
    t, full, i, nm = case
    key = (t, full)
    if key not in _base:
        _base[key] = baseline(make(t, full), ctx)
    e = make(t, full)
    s = list(spots(e))[i][0]
    for v in ("x", {"k": 1}) if ctx.tier == "quick" else VALUES:
        s[nm] = copy.deepcopy(v)
        compare(copy.deepcopy(e), _base[key], ctx, "extra field %r = %r" % (nm, v))


# many extra fields at once
def many_cases(tier):
    for t in NODES:
        for full in (0, 1):
            for n in (2, 3, 5, 10, 50, 300) + ((5000,) if tier == "thorough" else ()):
                for i in range(len(list(spots(make(t, full))))):
                    yield [t, full, i, n]


def run_many(case, ctx):
    t, full, i, n = case
    key = (t, full)
    if key not in _base:
        _base[key] = baseline(make(t, full), ctx)
    e = make(t, full)
    s = list(spots(e))[i][0]
    for j in range(n):
        s["extra%d" % j] = copy.deepcopy(VALUES[j % len(VALUES)])
    own = list(s.items())
    compare(e, _base[key], ctx, "%d extra fields" % n)
    # the same fields, the unknown ones first, and among each other
    for what, items in (("first", own[::-1]), ("in between", own[-1::-2] + own[-2::-2])):
        s.clear()
        s.update(copy.deepcopy(items))
        compare(e, _base[key], ctx, "%d extra fields, %s" % (n, what))
    ctx.extra_states += 2
    ctx.extra_runs += 2


# ---- one extra field of a big value
def nest(n, how):
    v = {"type": "text", "text": "x"}
    for i in range(n):
        v = {"content": [v], "type": "panel"} if how == "c" else {"k": v} if how == "d" else [v]
    return v


BIGS = [lambda: "x" * 5000, lambda: "x\n" * 100000, lambda: 10 ** 40, lambda: -1e300, lambda: list(range(3000)), lambda: {"k%d" % i: None for i in range(3000)}, lambda: nest(30, "d"), lambda: nest(100, "d"), lambda: nest(100, "l"),
        lambda: nest(60, "c"), lambda: [typical("table")] * 300, lambda: [None, True, [], {}, ""] * 100]


def big_cases(tier):
    for t in NODES:
        for full in (0, 1):
            for i in range(len(list(spots(make(t, full))))):
                for b in range(len(BIGS)):
                    yield [t, full, i, b]


def run_big(case, ctx):
    t, full, i, b = case
    key = (t, full)
    if key not in _base:
        _base[key] = baseline(make(t, full), ctx)
    for first in (0, 1):
        e = make(t, full)
        s, known, names = list(spots(e))[i]
        nm = [x for x in names if x not in known][(b + i) % 20]
        own = dict(s)
        if first:
            s.clear()
        s[nm] = BIGS[b]()
        s.update(own)
        compare(e, _base[key], ctx, "an extra field %r of a big value (%d)" % (nm, b))


# fields of the format on elements that do not have them
ODD_LISTS = ([1], [None], [{}], ["x"], [[]], [{"type": "text"}], [{"type": "link"}], [{"type": "heading", "attrs": {}}], [{"type": "paragraph"}, {}], [{"type": None}], [{"type": []}], "x", 1, {}, {"type": "text"})


def alien_cases(tier):
    for t, spec in NODES.items():
        for full in (0, 1):
            if spec.attrs is None:
                for v in ({}, {"localId": "x"}, {"u": 1}, None, "x", [1]):
                    yield [t, full, "attrs", v]
            if spec.content is None:
                for v in ([], [typical("paragraph")], [{"type": "nope"}], None) + ODD_LISTS:
                    yield [t, full, "content", v]
            if spec.marks is None:
                for v in ([], [mk_mark("strong")], [mk_mark("breakout")], [{"type": "nope"}], None) + ODD_LISTS:
                    yield [t, full, "marks", v]
    for m, spec in MARKS.items():
        if spec is None:
            for v in ({}, {"x": 1}, None, "x", [1]):
                yield ["mark", m, "attrs", v]


def run_alien(case, ctx):
    t, full, nm, v = case
    if t == "mark":
        host = text("w", "em", full, "strike")
        base = baseline(doc(para(host)), ctx)
        e = doc(para(copy.deepcopy(host)))
        e["content"][0]["content"][0]["marks"][1][nm] = copy.deepcopy(v)
    else:
        base = baseline(make(t, full), ctx)
        e = make(t, full)
        target = [n for n in adf.walk(e) if n["type"] == t][0]
        target[nm] = copy.deepcopy(v)
    compare(e, base, ctx, "field %r = %r that %s does not have" % (nm, v, t))


# documents of the universe: an extra field in every spot at once, and (small ones) in each spot and pair of spots
def run_universe(case, ctx):
    d = gen.decode(case)
    base = baseline(d, ctx)
    e = copy.deepcopy(d)
    for i, (s, known, _) in enumerate(list(spots(e))):
        s["extra%d" % (i % 3)] = copy.deepcopy(VALUES[i % len(VALUES)])
    compare(e, base, ctx, "extra fields everywhere")
    n = len(list(spots(d)))
    pairs = itertools.combinations(range(n), 2) if ctx.tier == "thorough" and n <= 12 else ()
    for where in itertools.chain(((i,) for i in range(n)), pairs):
        e = copy.deepcopy(d)
        sp = list(spots(e))
        for i in where:
            sp[i][0]["extra"] = copy.deepcopy(VALUES[(i * 7 + 3) % len(VALUES)])
        compare(e, base, ctx, "extra field in spots %s" % (where,))


# ---- near the base documents: an unknown field everywhere
def check_near(d, ctx):
    base = baseline(d, ctx)
    e = copy.deepcopy(d)
    for i, (spot, known, names) in enumerate(list(spots(e))):
        for nm in (names[i % len(names)], names[(3 * i + 7) % len(names)]):
            if nm not in known:
                spot[nm] = copy.deepcopy(VALUES[i % len(VALUES)])
    compare(e, base, ctx, "an unknown field in every dictionary")

# ---- every name and string of the code as the name of an unknown field
def code_names():
    return sorted(set(words.words() + words.names() + [n for t in ("heading", "media", "table") for n in dir(lib.cls(t))]))


def code_cases(tier):
    for t in NODES:
        for full in (0, 1):
            for i, (_, known, names) in enumerate(spots(make(t, full))):
                for nm in code_names():
                    if nm not in known and nm not in names and nm not in MORE:
                        yield [t, full, i, nm]


def families():
    return [
        Family("one field", single_cases, run_single, "every type, every element, attrs and mark in it, every name, every value"),
        Family("near names", near_cases, run_near, "every element and mark, attrs and not: every known name varied in case, spelling and affixes, with values that the known field could have"),
        Family("plausible names", more_cases, run_more, "every place of a document of each type, names used by other versions and other formats"),
        Family("many fields", many_cases, run_many, "2 to 300 (5000) extra fields at once in every spot"),
        Family("big values", big_cases, run_big, "every place, an extra field with a long, wide or deep value, before and after the known ones"),
        Family("misplaced fields", alien_cases, run_alien, "attrs, content and marks, well-formed or not, on elements that have none"),
        Family("universe", gen.small_universe, run_universe, "every universe document, extra fields in all spots and in each spot"),
    ] + deco.families(check_near, deco.rich(), deco.small("media", "extension"), more=deco.small()) + [Family("names of the code", code_cases, run_more, "every place of a document of each type, every name and every short string that occurs in the library")]
