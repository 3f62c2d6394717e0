"""C21: trees are immutable, compare by value and can be copied."""
import copy
import dataclasses
import itertools
import pickle
import subprocess
import sys

from mc import adf, deco, common, gen, lib, words
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import api, md, parse

ID = "C21"
EXHAUSTIVE = True
ASSUMPTIONS = ["lists and dictionaries held by a tree are ordinary lists and dictionaries: the attributes of the objects are what cannot be assigned",
               "equality of serialisations is Python's equality of JSON data"]


def objects(x, path="$"):
    """Every node, mark and attribute object of a tree."""
    yield path, x
    a = getattr(x, "attrs", None)
    if isinstance(a, api.Base):
        yield path + ".attrs", a
    for f in ("content", "marks"):
        v = getattr(x, f, None)
        if isinstance(v, list):
            for i, c in enumerate(v):
                yield from objects(c, "%s.%s[%d]" % (path, f, i))


MISSING = object()


def frozen(o, path, ctx):
    names = [f.name for f in dataclasses.fields(o)] + ["type", "zzz", "_x", "__dict__", "__class__"]
    for n in names:
        old = getattr(o, n, MISSING)
        before = dict(o.__dict__) if hasattr(o, "__dict__") else None
        for new in (old, None, "x", []):
            if n == "__class__" and new is old:
                new = dict
            if n == "__dict__":
                new = {}
            ctx.step()
            try:
                setattr(o, n, new)
            except Exception as e:
                if not isinstance(e, (AttributeError, TypeError)):
                    raise Bad("%s.%s: assigning raises %s: %s" % (path, n, type(e).__name__, e))
            else:
                raise Bad("%s.%s of a %s can be assigned" % (path, n, type(o).__name__))
        ctx.step()
        try:
            delattr(o, n)
        except Exception as e:
            if not isinstance(e, (AttributeError, TypeError)):
                raise Bad("%s.%s: deleting raises %s: %s" % (path, n, type(e).__name__, e))
        else:
            raise Bad("%s.%s of a %s can be deleted" % (path, n, type(o).__name__))
        if getattr(o, n, MISSING) is not old and n not in ("__dict__",) or before is not None and dict(o.__dict__) != before:
            raise Bad("%s.%s of a %s changed although the assignment failed" % (path, n, type(o).__name__))


# ---- immutability of every type, parsed and built
def frozen_cases(tier):
    for mark, table in ((0, NODES), (1, MARKS)):
        for t in table:
            for v in range(4):
                yield [t, mark, v]
    for code in gen.universe("small" if tier == "quick" else "quick"):
        yield ["tree", 0, code]


def elements(t, mark):
    return [mk_mark(t), mk_mark(t, True)] if mark else gen.variants(t)


def run_frozen(case, ctx):
    t, mark, v = case
    if t == "tree":
        trees = [parse(gen.decode(v), ctx)]
    else:
        es = elements(t, mark)
        if v >= len(es):
            return
        e = copy.deepcopy(es[v])
        x = parse(e, ctx, bool(mark))
        trees = [x, lib.cls(t, bool(mark)).from_dict(copy.deepcopy(e)), copy.copy(x), copy.deepcopy(x), pickle.loads(pickle.dumps(x))]
        kw = {f: getattr(x, f) for f in e if f != "type"}
        trees.append(lib.cls(t, bool(mark))(**kw))
        if "attrs" in e:
            k = lib.attrs_cls(t, bool(mark))(**copy.deepcopy(e["attrs"]))
            frozen(k, "attrs", ctx)
    for tree in trees:
        before = tree.to_dict()
        for path, o in objects(tree):
            frozen(o, path, ctx)
        if tree.to_dict() != before:
            raise Bad("failed assignments changed the tree")
    ctx.outcome([t, mark])


# ---- equality of all pairs
def agree(x, y, dx, dy, ctx, what):
    ctx.step()
    want = dx == dy
    for a, b in ((x, y), (y, x)):
        if (a == b) is not want:
            raise Bad("%s: == gives %r for serialisations that are %s\n %s\n %s" % (what, a == b, "equal" if want else "different", lib.short(dx), lib.short(dy)))
        if (a != b) is want:
            raise Bad("%s: != gives %r for serialisations that are %s\n %s\n %s" % (what, a != b, "equal" if want else "different", lib.short(dx), lib.short(dy)))


def pool(tier):
    """A fixed set of elements of all kinds, for comparing all pairs."""
    out = []
    for t in NODES:
        out += gen.variants(t)
        spec = NODES[t]
        if spec.attrs:
            for table in spec.attrs[1:]:
                for k, vs in table.items():
                    for v in vs:
                        e = typical(t)
                        e.setdefault("attrs", {})[k] = copy.deepcopy(v)
                        out.append(e)
        for k, vs in spec.fields.items():
            for v in vs:
                e = typical(t)
                e[k] = v
                out.append(e)
        if spec.content:
            for c in spec.children[:4]:
                out.append(mk(t, typical(c)))
                out.append(mk(t, typical(c), typical(c)))
            for c, d in itertools.permutations(spec.children[:4], 2):
                out.append(mk(t, typical(c), typical(d)))
        if spec.marks:
            ms = [m for m in spec.marks]
            for m in ms:
                e = typical(t)
                e["marks"] = [mk_mark(m)]
                out.append(e)
            for m, n in itertools.permutations(ms[:5], 2):
                e = typical(t)
                e["marks"] = [mk_mark(m), mk_mark(n)]
                out.append(e)
            e = typical(t)
            e["marks"] = []
            out.append(e)
    for t, spec in MARKS.items():
        out += [mk_mark(t), mk_mark(t, True)]
        if spec:
            for table in spec:
                for k, vs in table.items():
                    for v in vs:
                        out.append(mk_mark(t, **{k: copy.deepcopy(v)}))
    return out


_pool = {}


def the_pool(tier):
    if tier not in _pool:
        ds = pool(tier)
        _pool[tier] = [(d, (api.parse_mark if d["type"] in MARKS else api.parse_node)(copy.deepcopy(d)), (api.parse_mark if d["type"] in MARKS else api.parse_node)(copy.deepcopy(d))) for d in ds]
    return _pool[tier]


def pair_cases(tier):
    for i in range(len(pool(tier))):
        yield [i]


def run_pair(case, ctx):
    i, = case
    p = the_pool(ctx.tier)
    di, xi, _ = p[i]
    for j, (dj, _, yj) in enumerate(p):
        agree(xi, yj, di, dj, ctx, "pair")
        ctx.extra_states += 1
    if xi == di or xi == None or not (xi != {}):  # noqa: E711
        raise Bad("a tree equals something that is no tree")
    ctx.outcome(di)


# ---- pairs that differ in one place
def changes(d):
    """Documents that differ from d in exactly one place."""
    n = len(list(adf.walk(d)))
    for i in range(n):
        def at(e, i=i):
            return list(adf.walk(e))[i]
        x = at(d)
        spec = NODES[x["type"]]
        if "text" in spec.fields and x["type"] == "text":
            for v in (x["text"] + " ", x["text"].upper() + "!", ""):
                e = copy.deepcopy(d)
                at(e)["text"] = v
                yield e
        if spec.attrs:
            for table in spec.attrs[1:]:
                for k, vs in table.items():
                    for v in vs[:3]:
                        e = copy.deepcopy(d)
                        at(e).setdefault("attrs", {})[k] = copy.deepcopy(v)
                        yield e
            for k in spec.attrs[2]:
                if k in x.get("attrs", {}):
                    e = copy.deepcopy(d)
                    del at(e)["attrs"][k]
                    yield e
        c = x.get("content")
        if c:
            e = copy.deepcopy(d)
            del at(e)["content"][-1]
            yield e
            e = copy.deepcopy(d)
            at(e)["content"].append(copy.deepcopy(c[0]))
            yield e
            e = copy.deepcopy(d)
            at(e)["content"].reverse()
            yield e
        if spec.content == "opt" and not c:
            e = copy.deepcopy(d)
            if "content" in x:
                del at(e)["content"]
            else:
                at(e)["content"] = []
            yield e
        if spec.marks:
            for m in spec.marks[:4]:
                e = copy.deepcopy(d)
                at(e).setdefault("marks", []).append(mk_mark(m))
                yield e
            if "marks" in x:
                e = copy.deepcopy(d)
                del at(e)["marks"]
                yield e
                e = copy.deepcopy(d)
                at(e)["marks"].reverse()
                yield e
            else:
                e = copy.deepcopy(d)
                at(e)["marks"] = []
                yield e


def near_cases(tier):
    yield from gen.universe("small" if tier == "quick" else "quick")


def run_near(case, ctx):
    d = adf.label(gen.decode(case))
    x = parse(d, ctx)
    agree(x, parse(copy.deepcopy(d), ctx), d, d, ctx, "the same document twice")
    for k, e in enumerate(changes(d)):
        agree(x, parse(e, ctx), d, e, ctx, "one place changed")
        ctx.extra_states += 1
    ctx.outcome(d)


# ---- every field with the constants of the code
def const_cases(tier):
    for (name, kind) in deco.FIELD_SLOTS:
        if not name.endswith("(full)"):
            yield [name, kind]
    for name in ("paragraph", "code"):
        yield [name, "t"]


def run_const(case, ctx):
    name, kind = case
    make = deco.TEXT_SLOTS[name] if kind == "t" else deco.FIELD_SLOTS[name, kind]
    if kind == "n":
        low, high = deco.LIMITS.get(name.split(".")[-1].split(" ")[0], (0, 10 ** 12))
        vs = sorted(set(words.near(low, high)))
    else:
        vs = list(dict.fromkeys(v for w in words.words() for v in deco.forms(w)))
    docs = [make(v) for v in vs]
    for i, d in enumerate(docs):
        x = parse(copy.deepcopy(d), ctx)
        agree(x, parse(copy.deepcopy(d), ctx), d, d, ctx, "the same document twice")
        check_copy(x, d, ctx)
        for j in {(i + 1) % len(docs), (i + 7) % len(docs), (7 * i + 3) % len(docs), 0, len(docs) - 1}:
            agree(x, parse(copy.deepcopy(docs[j]), ctx), d, docs[j], ctx, "two values of %s" % name)
            ctx.extra_states += 1


# ---- copies
def copies(x):
    yield "copy", copy.copy(x)
    yield "deepcopy", copy.deepcopy(x)
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        yield "pickle protocol %d" % p, pickle.loads(pickle.dumps(x, p))
    yield "copy of a copy", copy.copy(copy.deepcopy(copy.copy(x)))


def check_copy(x, d, ctx, mark=False):
    ref_md = lib.attempt(lambda: x.to_markdown("s") if mark else x.to_markdown())
    for what, y in copies(x):
        ctx.step(3)
        if type(y) is not type(x):
            raise Bad("%s: %s became %s" % (what, type(x).__name__, type(y).__name__))
        if not (y == x) or y != x or not (x == y):
            raise Bad("%s: the copy of %s is not equal" % (what, lib.short(d)))
        lib.must_eq(y.to_dict(), d, what)
        got = lib.attempt(lambda: y.to_markdown("s") if mark else y.to_markdown())
        if got[0] != ref_md[0] or got[0] == "ok" and got[1] != ref_md[1]:
            raise Bad("%s renders %r instead of %r" % (what, got, ref_md))
    lib.must_eq(x.to_dict(), d, "the original after copying")


def copy_cases(tier):
    for i in range(len(pool(tier))):
        yield ["pool", i]
    for code in gen.universe("small" if tier == "quick" else "quick"):
        yield ["tree", code]


def run_copy(case, ctx):
    kind, k = case
    if kind == "pool":
        d, x, _ = the_pool(ctx.tier)[k]
        check_copy(x, d, ctx, d["type"] in MARKS)
        for path, o in objects(x):
            for what, y in copies(o):
                if not y == o or y.to_dict() != o.to_dict():
                    raise Bad("%s of %s differs" % (what, path))
    else:
        d = gen.decode(k)
        check_copy(parse(d, ctx), d, ctx)
    ctx.outcome(d)


# ---- trees built from the classes by hand
class MyText(api.NodeText):
    def to_markdown(self, ignore_error=False):
        return "<%s>" % self.text


class MyStrong(api.MarkStrong):
    pass


BUILT = {
    "another type string": lambda: api.NodeText(type="myText", text="a"),
    "children of other type strings": lambda: api.NodeBlockquote(content=[api.NodeParagraph(type="para", content=[api.NodeText(type="zzz", text="a", marks=[api.MarkEm(type="italic")])])]),
    "a type string of another class": lambda: api.NodeParagraph(type="heading", content=[api.NodeText(type="paragraph", text="a")]),
    "own classes": lambda: api.NodeParagraph(content=[MyText(text="a", marks=[MyStrong()]), api.NodeText(text="b")]),
    "an own class on top": lambda: MyText(text="a"),
    "an own mark on top": lambda: MyStrong(),
    "unusual parents": lambda: api.NodeText(text="a", marks=[]),
    "a child that the format does not allow": lambda: api.NodeParagraph(content=[api.NodeTable(content=[api.NodeTableRow(content=[])]), api.NodeDoc(content=[])]),
    "an incomplete table": lambda: api.NodeTable(content=[]),
    "a version": lambda: api.NodeDoc(version=7, content=[api.NodeRule()]),
    "a number as a text": lambda: api.NodeStatus(attrs=api.NodeStatusAttrs(text=5, color="x")),
    "a child used twice": lambda: (lambda p: api.NodeDoc(content=[p, p, api.NodeBlockquote(content=[p])]))(api.NodeParagraph(content=[api.NodeText(text="a")])),
    "empty attributes": lambda: api.NodeParagraph(attrs=api.NodeParagraphAttrs(), content=[]),
    "attributes alone": lambda: api.NodeHeadingAttrs(level=3),
    "attributes with structures": lambda: api.NodeTableCellAttrs(colwidth=[1, 2], colspan=2),
}
for _name, _args in (("NodeBlockCardAttrsDatasource", 0), ("NodeBlockCardAttrsDatasourceView", 1)):
    if hasattr(api, _name):
        BUILT["nested attributes"] = lambda: api.NodeBlockCard(attrs=api.NodeBlockCardAttrs(url="u", datasource=api.NodeBlockCardAttrsDatasource(id="i", parameters={"a": [1]})))


def built_cases(tier):
    for name in BUILT:
        yield [name]
    for mark, table in ((0, NODES), (1, MARKS)):
        for t in table:
            for s in ("zzz", "", "text", "strong", t.upper()):
                yield ["type", mark, t, s]


def run_built(case, ctx):
    if case[0] == "type":
        _, mark, t, s = case
        e = mk_mark(t, True) if mark else typical(t, full=True)
        y = (api.parse_mark if mark else api.parse_node)(copy.deepcopy(e))
        x = lib.cls(t, bool(mark))(type=s, **{f: getattr(y, f) for f in e if f != "type"})
        if x == y and s != t:
            raise Bad("%s with the type string %r equals the one without" % (t, s))
        check_copy(x, dict(e, type=s), ctx, bool(mark))
        trees = [x]
    else:
        make = BUILT[case[0]]
        x, y = make(), make()
        agree(x, y, x.to_dict(), y.to_dict(), ctx, "%s, built twice" % case[0])
        for what, z in copies(x):
            ctx.step()
            if type(z) is not type(x) or not z == x or not x == z or z.to_dict() != x.to_dict():
                raise Bad("%s of a tree with %s: %s instead of %s" % (what, case[0], lib.short(z), lib.short(x)))
            if hasattr(x, "to_markdown"):
                args = ["s"] if isinstance(x, api.BaseMark) else []
                a, b = [lib.attempt(lambda v=v: v.to_markdown(*args)) for v in (x, z)]
                if a[0] != b[0] or a[0] == "ok" and a[1] != b[1]:
                    raise Bad("%s of a tree with %s renders %r instead of %r" % (what, case[0], b, a))
        trees = [x]
    for x in trees:
        for path, o in objects(x):
            if type(o).__name__ in dir(api):
                frozen(o, path, ctx)
    ctx.outcome(case)


# ---- pickles read in another process
def process_cases(tier):
    for n in range(0, len(pool(tier)), 64):
        yield [n]


CODE = """
import sys, pickle, json
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
xs = pickle.load(sys.stdin.buffer)
import atlas_doc_parser.api as api
out = []
for x in xs:
    d = x.to_dict()
    mark = isinstance(x, api.BaseMark)
    y = (api.parse_mark if mark else api.parse_node)(json.loads(json.dumps(d)))
    try:
        r = [x.to_markdown("s") if mark else x.to_markdown()]
    except Exception as e:
        r = type(e).__name__
    out.append([d, y == x and x == y, r])
pickle.dump((out, pickle.dumps(xs)), sys.stdout.buffer)
"""


def run_process(case, ctx):
    n, = case
    part = the_pool(ctx.tier)[n:n + 64]
    p = subprocess.run([sys.executable, "-B", "-c", CODE % common.REPO], input=pickle.dumps([x for _, x, _ in part]), capture_output=True, timeout=120)
    if p.returncode:
        raise Bad("reading a pickle in another process failed: " + p.stderr.decode("utf-8", "replace")[-1500:])
    out, again = pickle.loads(p.stdout)
    back = pickle.loads(again)
    for (d, x, _), (d2, equal, r), b in zip(part, out, back):
        ctx.step()
        mark = d["type"] in MARKS
        kind, mine = lib.attempt(lambda: x.to_markdown("s") if mark else x.to_markdown())
        if d2 != d or not equal or not b == x or r != ([mine] if kind == "ok" else type(mine).__name__):
            raise Bad("a pickle of %s read in another process differs: %s %r %r" % (lib.short(d), lib.short(d2), equal, r))
    ctx.outcome(n)


# ---- all documents near a base document, in pairs
NEAR = deco.rich() + deco.small()
_near = {}


def near(i):
    if i not in _near:
        ds = [NEAR[i]] + [deco.deviate(NEAR[i], [c]) for c in deco.deviations(NEAR[i], "amtsi", texts=deco.FEW)]
        _near.clear()
        _near[i] = [(d, api.NodeDoc.from_dict(copy.deepcopy(d))) for d in ds]
    return _near[i]


def all_pairs_cases(tier):
    for i in range(len(NEAR)):
        n = 1 + len(deco.deviations(NEAR[i], "amtsi", texts=deco.FEW))
        for j in range(n):
            if i >= len(deco.rich()) or tier == "thorough" or j % 20 == 0:
                yield [i, j]


def run_all_pairs(case, ctx):
    i, j = case
    ds = near(i)
    d, x = ds[j]
    y = api.NodeDoc.from_dict(copy.deepcopy(d))
    agree(x, y, d, d, ctx, "the same document twice")
    check_copy(y, d, ctx)
    for e, z in ds:
        agree(y, z, d, e, ctx, "two documents near a base document")
        ctx.extra_states += 1

def families():
    return [
        Family("immutability", frozen_cases, run_frozen, "every type parsed, built and copied; every object of every universe document; every field assigned and deleted"),
        Family("pairs", pair_cases, run_pair, "all pairs of a pool with every type, field value, child pattern and mark pattern"),
        Family("constants of the code", const_cases, run_const, "every field with every two neighbouring values out of the strings and numbers that occur in the library, and their forms"),
        Family("one change", near_cases, run_near, "every universe document against every document that differs from it in one place"),
        Family("copies", copy_cases, run_copy, "copy, deep copy, every pickle protocol, of the pool and the universe"),
        Family("built by hand", built_cases, run_built, "trees with other type strings, own classes, unusual children: copies are equal, of the same classes and render alike"),
        Family("processes", process_cases, run_process, "pickles read in another process"),
        Family("pairs of near documents", all_pairs_cases, run_all_pairs, "all documents that differ from a base document in one place, compared with each other", limit=300),
    ]
