"""C22: type predicates agree with the type strings."""
import copy
import itertools

from mc import adf, deco, gen, lib, words
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import api, md, parse

ID = "C22"
EXHAUSTIVE = True
ASSUMPTIONS = ["lists given to is_type_of hold type constants"]

T = api.TypeEnum
NAMES = list(T.__members__)
# media types a user compares with; the names of the types themselves are the format's
MEDIA = ["file", "link", "external", "", "File", "image", "video", "media", "fil", "file ", "linkexternal", None]


def elements(t, mark):
    return [mk_mark(t), mk_mark(t, True)] if mark else gen.variants(t)


ALL = [(t, 0) for t in NODES] + [(t, 1) for t in MARKS]


def objects(t, mark):
    out = []
    for e in elements(t, mark):
        x = (api.parse_mark if mark else api.parse_node)(copy.deepcopy(e))
        out.append(x)
        out.append(lib.cls(t, bool(mark))(**{f: getattr(x, f) for f in e if f != "type"}))
        out.append(copy.deepcopy(x))
    return out


def ask(x, arg, want, ctx, what):
    ctx.step()
    before = list(arg) if isinstance(arg, list) else None
    got = x.is_type_of(arg)
    if bool(got) is not want:
        raise Bad("%s: is_type_of(%s) of a %s gives %r" % (what, arg, x.type, got))
    if before is not None and (len(arg) != len(before) or any(a is not b for a, b in zip(arg, before))):
        raise Bad("%s: is_type_of changed the list it was given: %s" % (what, arg))


# ---- the constants
def const_cases(tier):
    yield ["all"]
    for t, mark in ALL:
        yield [t]


def run_const(case, ctx):
    t, = case
    if t == "all":
        for n in NAMES:
            ctx.step()
            if T[n].value != n or T[n].name != n:
                raise Bad("TypeEnum.%s is %r (name %r)" % (n, T[n].value, T[n].name))
            if T(n) is not T[n]:
                raise Bad("TypeEnum(%r) is %r" % (n, T(n)))
        if len({m.value for m in T}) != len(NAMES):
            raise Bad("two type constants are the same")
        return
    ctx.step()
    if t not in NAMES:
        raise Bad("there is no type constant %s" % t)


# ---- one constant, alone and as a list
def single_cases(tier):
    for t, mark in ALL:
        for n in NAMES:
            yield [t, mark, n]


def run_single(case, ctx):
    t, mark, n = case
    for x in objects(t, mark):
        before = x.to_dict()
        want = n == t
        ask(x, T[n], want, ctx, "constant")
        ask(x, [T[n]], want, ctx, "list of one")
        ask(x, [T[n], T[n]], want, ctx, "list of the same twice")
        ask(x, [], False, ctx, "empty list")
        ask(x, T[n], want, ctx, "asked again")
        if x.to_dict() != before:
            raise Bad("asking changed the element")
    ctx.outcome([t, n])


# ---- lists of two and three
def list_cases(tier):
    for t, mark in ALL:
        for a in NAMES:
            yield [t, mark, a]


def run_list(case, ctx):
    t, mark, a = case
    x = objects(t, mark)[0]
    for b in NAMES:
        ask(x, [T[a], T[b]], t in (a, b), ctx, "list of two")
        ctx.extra_states += 1
        if ctx.tier == "thorough":
            for c in NAMES:
                ask(x, [T[a], T[b], T[c]], t in (a, b, c), ctx, "list of three")
                ctx.extra_states += 1
        else:
            ask(x, [T[a], T[b], T[t]], True, ctx, "list of three")
            ask(x, [T[t], T[a], T[b]], True, ctx, "list of three")
    others = [m for m in T if m.value != t]
    k = NAMES.index(a) % (len(others) + 1)
    ask(x, list(others), False, ctx, "all the others")
    ask(x, others[:k] + [T[t]] + others[k:], True, ctx, "all of them")
    ask(x, others[:k], False, ctx, "some of the others")
    ask(x, others[k:], False, ctx, "some of the others")


# ---- elements with any type string
def strings(t):
    others = [n for n in NAMES if n != t]
    return list(dict.fromkeys([t, "", " ", t + " ", " " + t, t + "\n", t.upper(), t.lower(), t.capitalize(), t[:-1], t[1:], t + "s", t + "2", t * 2, t + "," + others[0], t + " " + others[0], others[0] + " " + t, "%s|%s" % (t, others[1]), "." + t, "TypeEnum." + t,
                              t[:1], t[::-1], ".*", t + "$", "[%s]" % t, t + "\u200b", t.replace("o", "0"), "None", "zzz", "custom", "*"]))


def string_cases(tier):
    for t, mark in ALL:
        for s in dict.fromkeys(strings(t) + words.words()):
            yield [t, mark, s]


def run_string(case, ctx):
    t, mark, s = case
    e = mk_mark(t, True) if mark else typical(t, full=True)
    parsed = (api.parse_mark if mark else api.parse_node)(copy.deepcopy(e))
    kw = {f: getattr(parsed, f) for f in e if f != "type"}
    e["type"] = s
    for x in (lib.cls(t, bool(mark))(type=s, **kw), lib.cls(t, bool(mark)).from_dict(copy.deepcopy(e))):
        for n in NAMES:
            ask(x, T[n], n == s, ctx, "type string %r" % s)
            ask(x, [T[n]], n == s, ctx, "type string %r" % s)
            ask(x, [T[n], T[t]], s in (n, t), ctx, "type string %r" % s)
        ask(x, [], False, ctx, "type string %r, empty list" % s)
        ask(x, list(T), s in NAMES, ctx, "type string %r, all constants" % s)
        ask(x, [m for m in T if m.value != s], False, ctx, "type string %r, all others" % s)
    ctx.outcome([t, s in NAMES])


# ---- inside documents
def tree_cases(tier):
    yield from gen.universe("small")


def run_tree(case, ctx):
    d = gen.decode(case)
    tree = parse(d, ctx)

    def go(x, e):
        t = e["type"]
        ask(x, T[t], True, ctx, "in a document")
        for n in ("text", "paragraph", "strong", "media", "link", "listItem", "tableCell", "tableHeader"):
            ask(x, T[n], n == t, ctx, "in a document")
        ask(x, [T.text, T.paragraph, T.tableHeader], t in ("text", "paragraph", "tableHeader"), ctx, "in a document")
        for f in ("content", "marks"):
            for c, ce in zip(getattr(x, f) if f in e else [], e.get(f, [])):
                go(c, ce)
    go(tree, d)
    if tree.to_dict() != d:
        raise Bad("asking changed the document")
    ctx.outcome(len(list(adf.walk(d))))


# ---- media
def media_cases(tier):
    opt = ["id", "collection", "url", "localId", "alt", "width", "height", "occurrenceKey"]
    for m in range(len(MEDIA)):
        for bits in itertools.product((0, 1), repeat=len(opt)):
            yield [m, list(bits)]
    for w in words.words():
        for v in deco.forms(w):
            for bits in itertools.product((0, 1), repeat=3):
                yield [v, list(bits) + [0] * 5]


def run_media(case, ctx):
    m, bits = case
    opt = ["id", "collection", "url", "localId", "alt", "width", "height", "occurrenceKey"]
    values = ["link", "file", "external", "file", "link", 1, 0, "external"]
    kind = MEDIA[m] if isinstance(m, int) else m
    a = {"type": kind}
    a.update({k: v for k, v, b in zip(opt, values, bits) if b})
    for x in (api.NodeMediaAttrs(**a), api.NodeMediaAttrs.from_dict(dict(a)), api.NodeMedia.from_dict({"type": "media", "attrs": dict(a)}).attrs):
        ctx.step(3)
        got = [x.is_file_type(), x.is_link_type(), x.is_external_type()]
        want = [kind == "file", kind == "link", kind == "external"]
        if [bool(g) for g in got] != want:
            raise Bad("media of type %r: is_file_type, is_link_type, is_external_type give %r" % (kind, got))
        if x.to_dict() != a:
            raise Bad("asking changed the attributes")
    ctx.outcome([m])


def families():
    return [
        Family("constants", const_cases, run_const, "every type constant; a constant for every supported type"),
        Family("one constant", single_cases, run_single, "every type against every constant"),
        Family("lists", list_cases, run_list, "every type against every pair of constants (thorough: every triple)"),
        Family("type strings", string_cases, run_string, "elements built and parsed with any type string (near the known ones, joined, empty), against every constant"),
        Family("documents", tree_cases, run_tree, "every element of every universe document"),
        Family("media", media_cases, run_media, "every media type with every subset of the other attributes"),
    ]
