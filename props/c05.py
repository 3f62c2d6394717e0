"""C05: a malformed supported element raises and is never silently dropped."""
import copy
import itertools

from mc import adf, deco, gen, lib, words
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import api, parse

ID = "C05"
EXHAUSTIVE = True
ASSUMPTIONS = ["malformed means: a required field or the type is missing; wrong value types are not covered"]


def required(e):
    """Every way to make this element malformed: (path to delete, field name)."""
    out = [(("type",), None)]
    mark = e["type"] in MARKS
    spec = (MARKS if mark else NODES)[e["type"]]
    attrs = spec if mark else spec.attrs
    if attrs is not None:
        req = attrs[0] if mark else attrs[1]
        if mark or attrs[0]:
            out.append((("attrs",), "attrs"))
        for k in req:
            if k in e.get("attrs", {}):
                out.append((("attrs", k), k))
    if not mark:
        if spec.content == "req":
            out.append((("content",), "content"))
        if "text" in spec.fields:
            out.append((("text",), "text"))
    return out


def elements(d):
    """Every element of the document: nodes and marks, the root excluded for the type."""
    for n in adf.walk(d):
        yield n
        for m in n.get("marks") or []:
            yield m


def damage(d, i, path):
    e = copy.deepcopy(d)
    x = list(elements(e))[i]
    if len(path) == 1:
        del x[path[0]]
    else:
        del x[path[0]][path[1]]
    return e


def check(e, field, ctx, what, parse_as=None, quiet=True):
    ctx.step()
    kind, x = lib.attempt(lambda: parse_as(e) if parse_as else api.NodeDoc.from_dict(e))
    if kind == "ok":
        raise Bad("%s: accepted: %s" % (what, lib.short(x.to_dict())))
    if isinstance(x, api.UnimplementedTypeError):
        raise Bad("%s: raised the unimplemented-type error: %s" % (what, x))
    if field is not None:
        if not isinstance(x, api.ParamError):
            raise Bad("%s: raised %s instead of the parameter error: %s" % (what, type(x).__name__, x))
        if field not in str(x):
            raise Bad("%s: the error does not name the field: %s" % (what, x))
    ctx.outcome(type(x).__name__ + str(x))
    if quiet:
        # the same with the warnings about skipped elements switched off
        lib.set_warn(False)
        try:
            check(e, field, ctx, what + " (warnings off)", parse_as, quiet=False)
        finally:
            lib.set_warn(True)


def sweep(d, ctx, noise=False):
    base = list(elements(d))
    for i, x in enumerate(base):
        for path, field in required(x):
            if i == 0 and path == ("type",):
                continue
            e = damage(d, i, path)
            what = "%s without %s" % (x["type"], ".".join(path))
            check(e, field, ctx, what)
            if noise:
                for n in adf.walk(e):
                    if n.get("type") in NODES and isinstance(n.get("content"), list):
                        n["content"].insert(0, {"type": "layoutSection"})
                        n["content"].append({"type": "weird"})
                        if isinstance(n.get("marks"), list):
                            n["marks"].insert(0, {"type": "fontSize"})
                check(e, field, ctx, what + " (among unsupported elements)")
            ctx.extra_states += 1


def run_universe(case, ctx):
    sweep(gen.decode(case), ctx, noise=True)


def alone_cases(tier):
    for mark, table in ((1, MARKS), (0, NODES)):
        for t in table:
            for full in (0, 1):
                yield [t, mark, full]


def run_alone(case, ctx):
    t, mark, full = case
    e = mk_mark(t, bool(full)) if mark else typical(t, bool(full))
    for path, field in required(e):
        x = copy.deepcopy(e)
        if len(path) == 1:
            del x[path[0]]
        else:
            del x[path[0]][path[1]]
        what = "%s without %s" % (t, ".".join(path))
        check(copy.deepcopy(x), field, ctx, what, api.parse_mark if mark else api.parse_node)
        if path != ("type",):
            check(copy.deepcopy(x), field, ctx, what + " (class)", lib.cls(t, bool(mark)).from_dict)
    # every subset of the required attributes missing
    spec = (MARKS if mark else NODES)[t]
    attrs = spec if mark else spec.attrs
    if attrs is not None and (attrs[0] if mark else attrs[1]):
        # no attributes at all in the place of the attributes
        for v in (None, [], "", 0, False, {}, "x", ["href"], 1, True):
            x = dict(copy.deepcopy(e), attrs=v)
            what = "%s with attrs %r" % (t, v)
            check(copy.deepcopy(x), None, ctx, what, api.parse_mark if mark else api.parse_node)
            hosts = [h for h, s in NODES.items() if s.marks and t in s.marks] if mark else []
            for h in hosts:
                n = typical(h)
                n["marks"] = [mk_mark(m) for m in NODES[h].marks if m != t][:2]
                n["marks"].insert(full, copy.deepcopy(x))
                check(embed(n), None, ctx, what + " on a " + h)
            if not mark and t != "doc":
                check(doc(para("a"), embed(copy.deepcopy(x))["content"][0], para("b")), None, ctx, what + " in a document")
    # things that are no elements at all
    if not mark and spec.content:
        for v in (None, 0, "x", [], {}, "text", ["type"], {"Type": "text"}):
            for at in (0, 1):
                n = typical(t)
                n["content"].insert(at, v)
                check(n if t == "doc" else embed(n), None, ctx, "%r in a %s" % (v, t))
    if not mark and spec.marks:
        for v in (None, 0, "x", [], {}, "strong", ["type"], {"Type": "strong"}):
            n = typical(t)
            n["marks"] = [v]
            check(embed(n), None, ctx, "the mark %r on a %s" % (v, t))
    if attrs is not None:
        req = list(attrs[0] if mark else attrs[1])
        k = lib.attrs_cls(t, bool(mark))
        for n in range(0, len(req) + 1):
            for gone in itertools.combinations(req, n):
                a = {key: v for key, v in e.get("attrs", {}).items() if key not in gone}
                ctx.step()
                kind, x = lib.attempt(lambda: k(**copy.deepcopy(a)))
                kind2, x2 = lib.attempt(lambda: k.from_dict(copy.deepcopy(a)))
                for kd, xx in ((kind, x), (kind2, x2)):
                    if (kd == "ok") != (not gone):
                        raise Bad("%s attributes without %s: %s %s" % (t, gone, kd, xx))
                    if gone and (not isinstance(xx, api.ParamError) or not any(g in str(xx) for g in gone)):
                        raise Bad("%s attributes without %s: %s: %s" % (t, gone, type(xx).__name__, xx))
    # building the class without a required argument
    c = lib.cls(t, bool(mark))
    kw = {}
    if attrs is not None and "attrs" in e:
        kw["attrs"] = lib.attrs_cls(t, bool(mark))(**copy.deepcopy(e["attrs"]))
    if not mark:
        if spec.content == "req":
            kw["content"] = []
        if "text" in spec.fields:
            kw["text"] = "x"
    ctx.step()
    c(**kw)
    need = [k for k in kw if k != "attrs" or mark or attrs[0]]
    for n in range(1, len(need) + 1):
        for gone in itertools.combinations(need, n):
            ctx.step()
            kind, x = lib.attempt(lambda: c(**{k: v for k, v in kw.items() if k not in gone}))
            if kind == "ok" or not isinstance(x, api.ParamError) or not any(g in str(x) for g in gone):
                raise Bad("building %s without %s: %s %r" % (t, gone, kind, x))
    ctx.outcome([t, mark])


# ---- a malformed element at every depth, and late in long documents
def deep_cases(tier):
    for kind in ("bulletList", "orderedList", "taskList", "mixed"):
        for n in list(range(1, 20 if tier == "quick" else 40)) + words.near(40, 100):
            yield ["deep", kind, n]
    for n in range(0, 40 if tier == "quick" else 120):
        yield ["long", "", n]
    for n in sorted(set([x for x in deco.SIZES if x > 40 and (x <= 1001 or tier == "thorough")] + words.near(41, 5000, total=15000))):
        for t in [t for t in NODES if NODES[t].content is not None]:
            yield ["many", t, n]
        yield ["marks", "", n]


def run_deep(case, ctx):
    what, kind, n = case
    bad = [{"type": "heading"}, {"type": "status", "attrs": {"text": "x"}}, {"type": "text"}, {"attrs": {}}, {}]
    if what == "deep":
        for b, field in zip(bad, ("attrs", "color", "text", None, None)):
            node = mk("taskList", mk("taskItem", b)) if kind == "taskList" else para(b)
            for i in range(n):
                if kind == "taskList":
                    node = mk("taskList", mk("taskItem", text("x")), node)
                else:
                    k = kind if kind != "mixed" else ("bulletList", "orderedList")[i % 2]
                    node = mk(k, mk("listItem", para("x"), node))
            check(doc(para("x"), node, para("y")), field, ctx, "%r at depth %d" % (b, n))
    elif what == "marks":
        for at in (0, 1, n // 2, n - 1, n):
            for b, field in (({"attrs": {}}, None), ({"type": "link", "attrs": {}}, "href"), ({"type": "link"}, "attrs")):
                ms = [mk_mark(adf.TEXT_MARKS[i % len(adf.TEXT_MARKS)]) for i in range(n)]
                ms.insert(at, b)
                e = text("x")
                e["marks"] = ms
                check(doc(para(e, text("y"))), field, ctx, "%r at %d of %d marks" % (b, at, n))
    elif what == "many":
        kids = NODES[kind].children
        for at in (0, 1, n // 2, n - 1, n):
            for b, field in (({"attrs": {}}, None), (bad[0], "attrs"), (bad[2], "text")):
                ks = [typical(kids[i % len(kids)]) for i in range(n)]
                ks.insert(at, b)
                e = mk(kind, *ks)
                check(doc(*ks) if kind == "doc" else embed(e), field, ctx, "%r at %d of %d in a %s" % (b, at, n, kind))
    else:
        for b, field in zip(bad, ("attrs", "color", "text", None, None)):
            kids = [para("x") for _ in range(n)]
            for at in (0, n // 2, n):
                ks = copy.deepcopy(kids)
                ks.insert(at, b)
                check(doc(*ks), field, ctx, "%r at %d of %d" % (b, at, n))


# ---- the missing field in another place, or under another name
def displaced(x, path, few=True):
    """The element x (a copy of it is changed) with the field at path somewhere else."""
    name = path[-1]
    e = copy.deepcopy(x)
    spot = e
    for p in path[:-1]:
        spot = spot[p]
    v = spot.pop(name)
    out = [(e, "")]

    def add(what, **kw):
        n = copy.deepcopy(e)
        out.append((n, what))
        return n
    if len(path) == 2:
        n = add("as a field of the element")
        if name not in n and name != "type":
            n[name] = copy.deepcopy(v)
        n = add("one level deeper")
        n["attrs"]["attrs"] = {name: copy.deepcopy(v)}
        n = add("in parameters")
        n["attrs"]["parameters" if n["type"] not in ("extension",) else "params"] = {name: copy.deepcopy(v)}
        for other in [w for w in words.words() if w not in ("type", name)] if few is False else (name.lower() if name.lower() != name else name.upper(), name.capitalize(), "_" + name, "".join("_" + c.lower() if c.isupper() else c for c in name) if name.lower() != name else name + "_", name + "s", "value", "default"):
            n = add("called " + other)
            if other not in n["attrs"]:
                n["attrs"][other] = copy.deepcopy(v)
    else:
        for other in (name + "s", name[:-1], name.upper(), "_" + name, "children" if name == "content" else "attributes" if name == "attrs" else "value", "nodes", "data", "body", "items", "props", "nodeType", "kind"):
            n = add("called " + other)
            n[other] = copy.deepcopy(v)
        if "attrs" in e and name != "attrs":
            n = add("among the attributes")
            if name not in n["attrs"]:
                n["attrs"][name] = copy.deepcopy(v)
        if name == "attrs":
            n = add("as fields of the element")
            for k, w in v.items():
                n.setdefault(k, w)
    return out


def displaced_cases(tier):
    for mark, table in ((1, MARKS), (0, NODES)):
        for t in table:
            for full in (0, 1):
                yield [t, mark, full]
                yield [t, mark, full, 1]


def run_displaced(case, ctx):
    t, mark, full = case[:3]
    x = mk_mark(t, bool(full)) if mark else typical(t, bool(full))
    for path, field in required(x):
        for e, what in displaced(x, path, few=case[3:] != [1]):
            what = "%s without %s%s" % (t, ".".join(path), " (but %s)" % what if what else "")
            check(copy.deepcopy(e), field, ctx, what, api.parse_mark if mark else api.parse_node)
            if mark:
                for host in [h for h, s in NODES.items() if s.marks and t in s.marks][:2]:
                    n = typical(host)
                    n["marks"] = [copy.deepcopy(e)]
                    check(embed(n), field, ctx, what)
            elif t != "doc":
                up = adf.PATH[t]
                for sib in (0, 1):
                    node = e
                    for k in reversed(up):
                        kids = [node] + ([typical(NODES[k].children[0])] if sib else [])
                        node = doc(*kids) if k == "doc" else mk(k, *kids)
                    # the field in the parent, too
                    check(copy.deepcopy(node), field, ctx, what + " in a document")
                    par = [n for n in adf.walk(node) if any(c is e for c in n.get("content") or [])][0]
                    if len(path) == 2 and path[1] not in par:
                        par[path[1]] = copy.deepcopy(x["attrs"][path[1]])
                        check(copy.deepcopy(node), field, ctx, what + ", the parent has it")
            ctx.extra_states += 1


# ---- near the base documents
def near_cases(tier):
    for i, d in enumerate(deco.rich()):
        yield [i]
        for c in deco.deviations(d, "amtsi", texts=deco.FEW):
            yield [i, c]


def run_near(case, ctx):
    sweep(deco.deviate(deco.rich()[case[0]], case[1:]), ctx, noise=ctx.tier == "thorough")

def families():
    return [
        Family("alone", alone_cases, run_alone, "every type, every required field (and every set of them) missing, parsed and built"),
        Family("universe", gen.small_universe, run_universe, "universe documents, each element damaged in each way, alone and among unsupported elements"),
        Family("depths", deep_cases, run_deep, "malformed elements at every depth and position"),
        Family("displaced", displaced_cases, run_displaced, "every required field missing from its place but present in another one or under another name"),
        Family("near base documents", near_cases, run_near, "every document that differs from a base document in one place, every required field removed", limit=300),
    ]
