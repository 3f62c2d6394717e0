"""C06: input, tree and output never share mutable data, and nothing modifies its input."""
import copy
import dataclasses
import itertools

from mc import adf, deco, gen, lib
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import api, dump, eq, md, must_eq, parse

ID = "C06"
EXHAUSTIVE = True
ASSUMPTIONS = ["mutable data is every dict, list and set reachable from the input, the instance dictionaries of a tree, or an output"]


# ------------------------------------------------------- what is mutable, and where
def own(x):
    """What an instance holds, with or without an instance dictionary."""
    out = dict(getattr(x, "__dict__", None) or {})
    for f in dataclasses.fields(x):
        if f.name not in out and hasattr(x, f.name):
            out[f.name] = getattr(x, f.name)
    return list(out.items())


def boxes(x, path="$", out=None):
    """(path, container) for every mutable container reachable from JSON data or a tree."""
    if out is None:
        out = []
    todo = [(path, x)]
    seen = set()
    while todo:
        p, v = todo.pop()
        if isinstance(v, (dict, list, set, bytearray)):
            if id(v) in seen:
                continue
            seen.add(id(v))
            out.append((p, v))
            items = v.items() if isinstance(v, dict) else enumerate(v)
            todo += [("%s[%r]" % (p, k), w) for k, w in items]
        elif isinstance(v, tuple):
            todo += [("%s(%d)" % (p, k), w) for k, w in enumerate(v)]
        elif dataclasses.is_dataclass(v) and not isinstance(v, type):
            if id(v) in seen:
                continue
            seen.add(id(v))
            todo += [("%s.%s" % (p, k), w) for k, w in own(v)]
    return out


def objects(x):
    """ids of the dataclass instances of a tree."""
    out, todo = {}, [("$", x)]
    while todo:
        p, v = todo.pop()
        if isinstance(v, dict):
            todo += [("%s[%r]" % (p, k), w) for k, w in v.items()]
        elif isinstance(v, (list, tuple)):
            todo += [("%s[%d]" % (p, k), w) for k, w in enumerate(v)]
        elif dataclasses.is_dataclass(v) and not isinstance(v, type):
            out[id(v)] = p
            todo += [("%s.%s" % (p, k), w) for k, w in own(v)]
    return out


def disjoint(groups):
    """No container belongs to two of the named groups."""
    owner = {}
    for name, x in groups:
        for p, b in boxes(x):
            if id(b) in owner and owner[id(b)][0] != name:
                raise Bad("%s%s and %s%s are the same %s object" % (owner[id(b)][0], owner[id(b)][1][1:], name, p[1:], type(b).__name__))
            owner[id(b)] = (name, p)


def no_inner_sharing(name, x, allow):
    """Within one output no container occurs twice (unless the input already had it twice)."""
    if allow:
        return
    seen = {}

    def go(v, p):
        if isinstance(v, (dict, list)):
            if id(v) in seen:
                raise Bad("%s: %s and %s are the same object" % (name, seen[id(v)], p))
            seen[id(v)] = p
            for k, w in (v.items() if isinstance(v, dict) else enumerate(v)):
                go(w, "%s[%r]" % (p, k))

    go(x, "$")


POISON = "\x00poison"


def spoil(b, how):
    """Change one container in place."""
    if isinstance(b, dict):
        if how == 0:
            b[POISON] = POISON
        elif how == 1:
            b.clear()
        else:
            for k in list(b):
                b[k] = POISON
    elif isinstance(b, list):
        if how == 0:
            b.append(POISON)
        elif how == 1:
            b.clear()
        else:
            for i in range(len(b)):
                b[i] = POISON
            b.reverse()
    else:
        b.clear()


def obs(tree, ctx):
    kind, m = lib.attempt(lambda: md(tree, ctx))
    return (dump(tree, ctx), kind, m if kind == "ok" else type(m).__name__,
            lib.attempt(lambda: md(tree, ctx, ignore_error=True))[1])


def same_obs(a, b, what):
    must_eq(a[0], b[0], what + ": the serialisation changed")
    if a[1:3] != b[1:3]:
        raise Bad("%s: the Markdown changed\n got  %r\n want %r" % (what, a[2], b[2]))
    if repr(a[3]) != repr(b[3]):
        raise Bad("%s: the Markdown with errors ignored changed\n got  %r\n want %r" % (what, a[3], b[3]))


def check_doc(d, ctx, each):
    keep = copy.deepcopy(d)
    t1 = parse(d, ctx)
    must_eq(d, keep, "parsing modified its input")
    t2 = parse(d, ctx)
    before = copy.deepcopy(t1)
    want = obs(t1, ctx)
    if not (t1 == before):
        raise Bad("serialising or rendering modified the tree")
    o1, o2 = dump(t1, ctx), dump(t1, ctx)
    o3 = dump(t2, ctx)
    must_eq(d, keep, "using the tree modified the input")
    groups = [("input", d), ("tree", t1), ("second tree", t2), ("output", o1), ("second output", o2), ("third output", o3)]
    disjoint(groups)
    no_inner_sharing("output", o1, False)
    a, b = objects(t1), objects(t2)
    # a tree made from a serialisation result shares nothing with it either
    t3 = parse(o3, ctx)
    disjoint([("output", o3), ("tree parsed from it", t3)])
    # mutation, container by container or all at once
    for name, make in (("input", lambda: copy.deepcopy(keep)), ("output", None)):
        for how in range(3):
            if name == "input":
                src = copy.deepcopy(keep)
                n = len(boxes(src))
                for i in (range(n) if each else [None]):
                    src = copy.deepcopy(keep)
                    tree = parse(src, ctx)
                    other = parse(src, ctx)
                    bs = boxes(src)
                    for j, (p, box) in enumerate(bs):
                        if i is None or i == j:
                            spoil(box, how)
                    what = "after mutating the input%s" % ("" if i is None else " at " + bs[i][0])
                    same_obs(obs(tree, ctx), want, what)
                    same_obs(obs(other, ctx), want, what + " (second tree)")
                    ctx.extra_states += 1
            else:
                n = len(boxes(dump(t1, ctx)))
                for i in (range(n) if each else [None]):
                    src = copy.deepcopy(keep)
                    tree = parse(src, ctx)
                    out, out2 = dump(tree, ctx), dump(tree, ctx)
                    bs = boxes(out)
                    for j, (p, box) in enumerate(bs):
                        if i is None or i == j:
                            spoil(box, how)
                    what = "after mutating a serialisation result%s" % ("" if i is None else " at " + bs[i][0])
                    same_obs(obs(tree, ctx), want, what)
                    must_eq(out2, want[0], what + ": another serialisation result changed")
                    must_eq(src, keep, what + ": the input changed")
                    ctx.extra_states += 1
    ctx.outcome(want[0])


def run_universe(case, ctx):
    check_doc(gen.decode(case), ctx, ctx.tier == "thorough")


# ---- free-form values: every container of them
FREE = [{"k": [1, {"z": [2]}]}, [[[]], {}], {"type": "text", "content": [{"type": "x"}], "attrs": {}, "marks": [[]]},
        {"a": {"b": {"c": {"d": []}}}}, [{"a": 1}, {"a": 1}]]
FREE_AT = [("inlineCard", "data"), ("blockCard", "data"), ("extension", "parameters"), ("mediaInline", "data"),
           ("blockCard", "datasource"), ("tableCell", "colwidth"), ("tableHeader", "colwidth")]


def free_cases(tier):
    for i in range(len(FREE_AT)):
        for j in range(len(FREE)):
            yield ["node", i, j]
    for s in ([], ["a"], ["a", "b"]):
        yield ["mark", s, 0]
    for t in NODES:
        yield ["full", t, 0]
    for t in MARKS:
        yield ["fullmark", t, 0]


def run_free(case, ctx):
    kind, a, b = case
    if kind == "node":
        t, field = FREE_AT[a]
        n = typical(t, full=True)
        n["attrs"][field] = copy.deepcopy(FREE[b])
        d = embed(n)
    elif kind == "mark":
        n = typical("extension")
        n["marks"] = [mk_mark("dataConsumer", sources=list(a))]
        d = doc(n)
    elif kind == "full":
        d = embed(typical(a, full=True)) if a != "doc" else typical("doc", full=True)
    else:
        host = [t for t, s in NODES.items() if s.marks and a in s.marks][0] if any(s.marks and a in s.marks for s in NODES.values()) else None
        if host is None:
            host = "text"
        n = typical(host)
        n["marks"] = [mk_mark(a, full=True), mk_mark(a)]
        d = embed(n)
    check_doc(d, ctx, True)
    # the element on its own, and built directly
    for n in adf.walk(d):
        if n["type"] != "doc":
            keep = copy.deepcopy(n)
            ctx.step()
            t = api.parse_node(n)
            must_eq(n, keep, "parsing modified its input")
            disjoint([("input", n), ("tree", t), ("output", dump(t, ctx)), ("other output", dump(t, ctx))])
            for m in n.get("marks") or []:
                keep = copy.deepcopy(m)
                ctx.step()
                t = api.parse_mark(m)
                must_eq(m, keep, "parsing modified its input")
                disjoint([("input", m), ("mark", t), ("output", dump(t, ctx)), ("other output", dump(t, ctx))])
            # parts of a tree on their own
    tree = parse(d, ctx)
    for p, o in sorted(((p, i) for i, p in objects(tree).items())):
        part = tree
        break
    parts, todo = [], [tree]
    while todo:
        v = todo.pop()
        if dataclasses.is_dataclass(v) and not isinstance(v, type):
            parts.append(v)
            todo += [w for _, w in own(v)]
        elif isinstance(v, (list, tuple)):
            todo += list(v)
    for part in parts:
        if hasattr(part, "to_dict"):
            disjoint([("tree", tree), ("output of a part", part.to_dict()), ("output of the tree", tree.to_dict())])
            if hasattr(part, "to_kwargs"):
                disjoint([("tree", tree), ("to_kwargs of a part", part.to_kwargs())])
            ctx.step(2)


# ---- aliased input: the same dictionary used in several places
def alias_cases(tier):
    for t in NODES:
        if t != "doc":
            for n in (2, 3):
                yield [t, n]


def run_alias(case, ctx):
    t, n = case
    e = typical(t, full=True)
    host = adf.PATH[t][-1]
    up = mk(host, *[e] * n) if host != "doc" else doc(*[e] * n)
    d = up if host == "doc" else embed(up)
    keep = copy.deepcopy(d)
    tree = parse(d, ctx)
    must_eq(d, keep, "parsing an input with a shared part modified it")
    ref = parse(copy.deepcopy(keep), ctx)
    if tree != ref:
        raise Bad("an input that uses one dictionary %d times parses differently" % n)
    must_eq(dump(tree, ctx), keep, "serialisation")
    disjoint([("input", d), ("tree", tree), ("output", dump(tree, ctx))])
    same_obs(obs(tree, ctx), obs(ref, ctx), "an input with a shared part")


# ---- histories of operations
HD = doc(mk("heading", text("h", "strong"), level=2, full=True),
         mk("bulletList", mk("listItem", para(text("a", mk_mark("link", full=True))))),
         mk("extension", parameters={"p": [1, {"q": []}]}, full=True),
         mk("table", mk("tableRow", mk("tableCell", para("c"), colwidth=[1, 2]))))
OPS = ["parse", "parse again", "to_dict", "to_markdown", "spoil input", "spoil outputs", "fresh input", "to_dict of the part"]


def history_cases(tier):
    for n in range(1, 5 if tier == "quick" else 6):
        yield from (list(h) for h in itertools.product(range(len(OPS)), repeat=n))


_want = {}


def run_history(case, ctx):
    if not _want:
        t = api.NodeDoc.from_dict(copy.deepcopy(HD))
        _want["dict"], _want["md"] = copy.deepcopy(t.to_dict()), t.to_markdown()
        must_eq(_want["dict"], HD, "round trip")
    inp, spoiled = copy.deepcopy(HD), False
    tree = api.NodeDoc.from_dict(inp)
    trees, outs, mds = [tree], [], []
    for k, op in enumerate(case):
        name = OPS[op]
        ctx.step()
        if name.startswith("parse") and not spoiled:
            trees.append(api.NodeDoc.from_dict(inp))
        elif name == "to_dict":
            outs.append(trees[-1].to_dict())
        elif name == "to_markdown":
            mds.append(trees[-1].to_markdown())
        elif name == "spoil input":
            spoiled = True
            for _, b in boxes(inp):
                spoil(b, k % 3)
        elif name == "spoil outputs":
            for o in outs:
                for _, b in boxes(o):
                    spoil(b, k % 3)
            outs = []
        elif name == "fresh input":
            inp, spoiled = copy.deepcopy(HD), False
        elif name == "to_dict of the part":
            for c in trees[-1].content:
                o = c.to_dict()
                for _, b in boxes(o):
                    spoil(b, k % 3)
                if hasattr(c, "attrs") and hasattr(c.attrs, "to_dict"):
                    for _, b in boxes(c.attrs.to_dict()):
                        spoil(b, k % 3)
        what = "after step %d of %s" % (k, [OPS[o] for o in case])
        if not spoiled:
            must_eq(inp, HD, what + ": the input")
        for o in outs:
            must_eq(o, HD, what + ": an earlier serialisation result")
    what = "after " + str([OPS[o] for o in case])
    for t in trees:
        must_eq(t.to_dict(), HD, what + ": serialisation")
        if t.to_markdown() != _want["md"]:
            raise Bad("%s: the Markdown is %r" % (what, t.to_markdown()))
    for m in mds:
        if m != _want["md"]:
            raise Bad("%s: a rendering in between gave %r" % (what, m))
    for x, y in itertools.combinations([("input", inp)] + [("tree %d" % i, t) for i, t in enumerate(trees)] + [("output %d" % i, o) for i, o in enumerate(outs)], 2):
        disjoint([x, y])


# ---- near the base documents, and values of every kind in every field
def check_near(d, ctx):
    keep = copy.deepcopy(d)
    tree = parse(d, ctx)
    must_eq(d, keep, "parsing modified its input")
    first = dump(tree, ctx)
    shape = snapshot(tree)
    kinds = []
    for k in (dict(), dict(ignore_error=True), dict()):
        kinds.append(lib.attempt(lambda: md(tree, ctx, **k)))
        must_eq(d, keep, "rendering modified the input")
        if snapshot(tree) != shape:
            raise Bad("rendering modified the tree")
    if repr(kinds[0]) != repr(kinds[2]):
        raise Bad("rendering again gives %r instead of %r" % (kinds[2], kinds[0]))
    second = dump(tree, ctx)
    must_eq(second, first, "rendering changed the serialisation")
    if snapshot(tree) != shape:
        raise Bad("serialising modified the tree")
    disjoint([("input", d), ("tree", tree), ("output", first), ("second output", second)])
    no_inner_sharing("output", first, False)
    # parsing the part on its own, too
    ctx.outcome(first)


def snapshot(x):
    """The exact contents of a tree, types included."""
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return (type(x).__name__, tuple((f.name, snapshot(getattr(x, f.name))) for f in dataclasses.fields(x)))
    if isinstance(x, dict):
        return ("dict", tuple((k, snapshot(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snapshot(v) for v in x))
    return (type(x).__name__, repr(x))


ODD = [-1, -5, 0, 1, 7, 10 ** 12, 0.5, -0.0, float("inf"), True, False, None, "", "x", " X ", "-1", "0", "[]", [], ["a"], [1, [2]], {}, {"a": [1]}, {"type": "text", "text": "x"}]


def odd_cases(tier):
    for mark, table in ((1, MARKS), (0, NODES)):
        for t, spec in table.items():
            attrs = spec if mark else spec.attrs
            if attrs is not None:
                for k in list(attrs[-2]) + list(attrs[-1]):
                    for v in range(len(ODD)):
                        yield [t, mark, k, v]
    for t, spec in NODES.items():
        for k in spec.fields:
            for v in range(len(ODD)):
                yield [t, 2, k, v]


def run_odd(case, ctx):
    t, mark, k, v = case
    for full in (0, 1):
        if mark == 1:
            m = mk_mark(t, bool(full))
            m["attrs"][k] = copy.deepcopy(ODD[v])
            host = ([h for h, s in NODES.items() if s.marks and t in s.marks] or ["text"])[0]
            e = typical(host)
            e["marks"] = [m, copy.deepcopy(m)]
        else:
            e = typical(t, bool(full))
            (e["attrs"] if mark == 0 and "attrs" in e else e.setdefault("attrs", {}) if mark == 0 else e)[k] = copy.deepcopy(ODD[v])
        for d in ((embed(e), e) if e["type"] != "doc" else (e,)):
            check_near(copy.deepcopy(d), ctx)


def families():
    return [
        Family("universe", gen.small_universe, run_universe, "every universe document: containers disjoint, nothing changes when all containers of the input or of a result are mutated"),
        Family("free-form values", free_cases, run_free, "every field with mutable values, every container in it mutated on its own"),
        Family("shared input parts", alias_cases, run_alias, "inputs that use the same dictionary several times"),
        Family("histories", history_cases, run_history, "every sequence of parse, serialise, render and mutate up to the depth"),
        Family("odd values", odd_cases, run_odd, "every field of every element with values of every kind, negative, huge and of other types: nothing modifies its input"),
        deco.sizes(check_near, top=300),
    ] + deco.families(check_near, deco.rich() + deco.failing(), deco.small("extension", "media"), more=deco.small()) + [deco.constants(check_near, texts=["paragraph", "code", "cell"], only=lambda n: n.endswith("(full)"), skip=lambda s: False)]
