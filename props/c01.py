"""C01: parsing then serialising reproduces the document exactly."""
import copy
import itertools
import json

from mc import adf, deco, gen, lib, share, words
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import Bad, dump, eq, must_eq, parse

ID = "C01"
EXHAUSTIVE = True
ASSUMPTIONS = ["documents beyond the enumerated sizes, nestings and value alphabets are not explored"]


def roundtrip(d, ctx, mark=False, what=""):
    want = copy.deepcopy(d)
    tree = parse(d, ctx, mark)
    out = dump(tree, ctx)
    must_eq(out, want, "serialisation differs from the input" + what)
    json.dumps(out)
    again = parse(out, ctx, mark)
    if not (again == tree) or type(again) is not type(tree):
        raise Bad("parsing the serialisation gives a different tree" + what)
    ctx.outcome(out)
    return tree


# ---- every combination of optional attributes, with every value of each
def attr_cases(tier):
    for mark, table in ((1, MARKS), (0, NODES)):
        for t, spec in table.items():
            attrs = spec if mark else spec.attrs
            if attrs is None:
                yield [t, mark, 0, 0]
                continue
            req, opt = (attrs if mark else attrs[1:])
            k = len(opt)
            rounds = max([len(v) for v in list(req.values()) + list(opt.values())] or [1])
            for mask in range(1 << k):
                for r in range(rounds):
                    yield [t, mark, mask, r]


def make_attr_case(case):
    t, mark, mask, r = case
    spec = (MARKS if mark else NODES)[t]
    attrs = spec if mark else spec.attrs
    e = {"type": t}
    if attrs is not None:
        req, opt = (attrs if mark else attrs[1:])
        a = {}
        for i, (k, v) in enumerate(opt.items()):
            if mask >> i & 1:
                a[k] = copy.deepcopy(v[(r + i) % len(v)])
        for i, (k, v) in enumerate(req.items()):
            a[k] = copy.deepcopy(v[(r + i) % len(v)])
        e["attrs"] = a
    if not mark:
        if spec.content == "req":
            e["content"] = []
        for i, (k, v) in enumerate(spec.fields.items()):
            e[k] = v[r % len(v)]
    return e


def run_attrs(case, ctx):
    e = make_attr_case(case)
    t, mark = case[0], case[1]
    roundtrip(copy.deepcopy(e), ctx, bool(mark))
    direct = lib.cls(t, bool(mark)).from_dict(copy.deepcopy(e))
    must_eq(dump(direct, ctx), e, "from_dict of the class")
    # the same element inside a document
    if mark:
        for host in MARK_HOSTS[t]:
            d = embed(host_with(host, [e]))
            roundtrip(d, ctx, what=" (mark in a document)")
    elif t != "doc":
        roundtrip(embed(e), ctx, what=" (node in a document)")


MARK_HOSTS = {m: [t for t, s in NODES.items() if s.marks and m in s.marks] for m in MARKS}
MARK_HOSTS["breakout"] = []
for _m in MARKS:
    if not MARK_HOSTS[_m] and _m != "breakout":
        raise AssertionError(_m)


def host_with(host, marks):
    n = typical(host)
    n["marks"] = copy.deepcopy(marks)
    return n


# ---- presence of attrs, content and marks as a whole
def shape_cases(tier):
    for t, spec in NODES.items():
        a_opts = ["none"] if spec.attrs is None else (["min", "full"] if spec.attrs[0] else ["none", "empty", "min", "full"])
        c_opts = ["none"] if spec.content is None else (["empty", "one", "many"] if spec.content == "req" else ["none", "empty", "one", "many"])
        m_opts = ["none"] if spec.marks is None else ["none", "empty", "each", "all", "twice"]
        for c in itertools.product([t], a_opts, c_opts, m_opts):
            yield list(c)


def run_shape(case, ctx):
    t, a, c, m = case
    spec = NODES[t]
    full = typical(t, full=True)
    e = {"type": t}
    for k, v in spec.fields.items():
        e[k] = v[0]
    if a == "empty":
        e["attrs"] = {}
    elif a == "min":
        e["attrs"] = {k: copy.deepcopy(v[0]) for k, v in spec.attrs[1].items()}
    elif a == "full":
        e["attrs"] = copy.deepcopy(full["attrs"])
    if c == "empty":
        e["content"] = []
    elif c == "one":
        e["content"] = [typical(spec.children[0])]
    elif c == "many":
        e["content"] = [typical(x, f) for x in spec.children for f in (False, True)]
    variants = [None]
    if m == "empty":
        variants = [[]]
    elif m == "each":
        variants = [[mk_mark(x, full=f)] for x in spec.marks for f in (False, True)]
    elif m == "all":
        variants = [[mk_mark(x) for x in spec.marks], [mk_mark(x, True) for x in reversed(spec.marks)]]
    elif m == "twice":
        variants = [[mk_mark(x)] * 2 for x in spec.marks]
    for v in variants:
        d = copy.deepcopy(e)
        if v is not None:
            d["marks"] = copy.deepcopy(v)
        roundtrip(copy.deepcopy(d), ctx)
        if t != "doc":
            roundtrip(embed(d), ctx, what=" (in a document)")


# ---- whole documents
def run_universe(case, ctx):
    roundtrip(gen.decode(case), ctx)


ALPHA = {
    "p": gen.Sym(lambda k: mk("paragraph", *k), "t h"),
    "t": gen.Sym(lambda k: text("x"), ""),
    "h": gen.Sym(lambda k: mk("hardBreak"), ""),
    "b": gen.Sym(lambda k: mk("bulletList", *k), "i"),
    "i": gen.Sym(lambda k: mk("listItem", *k), "p b k"),
    "k": gen.Sym(lambda k: mk("taskList", *k), "j k"),
    "j": gen.Sym(lambda k: mk("taskItem", *k), "t"),
    "q": gen.Sym(lambda k: mk("panel", *k), "p b"),
    "T": gen.Sym(lambda k: mk("table", *k), "r"),
    "r": gen.Sym(lambda k: mk("tableRow", *k), "c"),
    "c": gen.Sym(lambda k: mk("tableCell", *k), "p"),
}


def tree_cases(tier):
    yield from gen.forests(ALPHA, "p b k q T", 6 if tier == "quick" else 8)


def run_tree(case, ctx):
    d = doc(*[gen.build(ALPHA, t) for t in case])
    # every node gets its own identity, so that a lost, doubled or moved node shows
    for i, n in enumerate(adf.walk(d)):
        if n["type"] == "text":
            n["text"] = "w%d" % i
        elif NODES[n["type"]].attrs is not None and n["type"] != "doc":
            n.setdefault("attrs", {})["localId"] = "n%d" % i
    roundtrip(d, ctx)


def mark_seq_cases(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        yield from (list(s) for s in itertools.product(adf.TEXT_MARKS, repeat=n))


def run_mark_seq(case, ctx):
    marks = []
    for i, m in enumerate(case):
        marks.append(mk_mark(m, full=bool(i % 2)))
        if m == "link":
            marks[-1]["attrs"]["href"] = "h%d" % i
    n = text("x")
    n["marks"] = marks
    roundtrip(doc(para(n, text("y"))), ctx)


CHARS = ["a", " ", "\n", "\t", "é", "\u2028", "\U0001F600", "\x00", "\"", "\\", "<", "|", "\u00a0", "\u200b"]


def text_cases(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        for s in itertools.product(CHARS, repeat=n):
            yield "".join(s)


def run_text(case, ctx):
    d = doc(para(text(case), text(case, mk_mark("link", href=case, title=case)), mk("mention", id=case, text=case),
                 mk("status", text=case), localId=case),
            mk("codeBlock", text(case), language=case))
    roundtrip(d, ctx)


# ---- sizes and depths
BIG = [64, 65, 100, 101, 127, 128, 129, 200, 201, 255, 256, 257, 300, 499, 500, 501, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2001, 4095, 4096, 4097, 5000, 5001, 10000, 10001]


def ladder_cases(tier):
    top = 40 if tier == "quick" else 200
    for t in gen.containers():
        for n in range(0, top + 1, 1 if tier == "thorough" else 1):
            yield ["wide", t, n]
    for kind in ("bulletList", "orderedList", "taskList", "mixed", "expand", "cell"):
        for n in range(0, 41 if tier == "quick" else 61):
            yield ["deep", kind, n]
    for n in range(0, top + 1):
        yield ["marks", "", n]
        yield ["rows", "", n]
    for n in BIG if tier == "quick" else BIG + [32769, 65537, 100001]:
        for t in ("doc", "paragraph", "bulletList", "table", "tableRow", "taskList"):
            yield ["wide", t, n]
        yield ["marks", "", n]


def ladder_doc(case):
    what, t, n = case
    if what == "wide":
        kids = [copy.deepcopy(typical(NODES[t].children[i % len(NODES[t].children)])) for i in range(n)]
        e = mk(t, *kids)
        if n == 0 and NODES[t].content == "opt":
            e["content"] = []
        return adf.label(e if t == "doc" else embed(e))
    if what == "deep":
        if t in ("bulletList", "orderedList", "mixed"):
            node = para("leaf")
            for i in range(n):
                k = t if t != "mixed" else ("bulletList", "orderedList")[i % 2]
                node = mk(k, mk("listItem", para("n%d" % i), node) if i else mk("listItem", node))
            return doc(node)
        if t == "taskList":
            node = mk("taskItem", text("leaf"))
            node = mk("taskList", node)
            for i in range(n):
                node = mk("taskList", mk("taskItem", text("n%d" % i)), node)
            return doc(node)
        if t == "expand":
            # not nested by the format, but a chain of quotes inside an expand with lists is
            node = para("leaf")
            for i in range(min(n, 12)):
                node = mk("bulletList", mk("listItem", para("n%d" % i), node))
            return doc(mk("expand", mk("nestedExpand", mk("panel", node))))
        if t == "cell":
            node = para("leaf")
            for i in range(min(n, 20)):
                node = mk("orderedList", mk("listItem", para("n%d" % i), node))
            return doc(mk("table", mk("tableRow", mk("tableCell", mk("nestedExpand", mk("blockquote", node))))))
    if what == "marks":
        x = text("x")
        x["marks"] = [mk_mark(adf.TEXT_MARKS[i % len(adf.TEXT_MARKS)]) for i in range(n)]
        return doc(para(x))
    if what == "rows":
        rows = [mk("tableRow", *[mk("tableHeader" if r == 0 else "tableCell", para("r%dc%d" % (r, c))) for c in range(n % 7 + 1)])
                for r in range(n)]
        return doc(mk("table", *rows))


def run_ladder(case, ctx):
    roundtrip(ladder_doc(case), ctx)


# ---- the repository's real documents, and every element of them on its own
def sample_cases(tier):
    for name, d in gen.samples():
        yield [name, d]


def run_sample(case, ctx):
    name, d = case
    if "unimplemented" in name:
        return
    mark = d.get("type") in MARKS
    clean = only_known(d) if not mark else d
    out = dump(parse(copy.deepcopy(d), ctx, mark), ctx)
    must_eq(out, clean, "sample " + name)
    if not mark:
        for n in list(adf.walk(clean)):
            if n["type"] != "doc":
                roundtrip(copy.deepcopy(n), ctx)


def only_known(n):
    """The document restricted to the documented fields."""
    spec = NODES[n["type"]]
    out = {"type": n["type"]}
    for k in spec.fields:
        if k in n:
            out[k] = n[k]
    if "version" in spec.fields and "version" not in n:
        out["version"] = 1
    if spec.attrs is not None and "attrs" in n:
        known = set(spec.attrs[1]) | set(spec.attrs[2])
        out["attrs"] = {k: v for k, v in n["attrs"].items() if k in known}
    if spec.content is not None and "content" in n:
        out["content"] = [only_known(c) for c in n["content"]]
    if spec.marks is not None and "marks" in n:
        marks = []
        for m in n["marks"]:
            ms = MARKS[m["type"]]
            x = {"type": m["type"]}
            if ms is not None and "attrs" in m:
                x["attrs"] = {k: v for k, v in m["attrs"].items() if k in ms[0] or k in ms[1]}
            marks.append(x)
        out["marks"] = marks
    return out


# ---- trees built from the classes
def built_cases(tier):
    for mark, table in ((1, MARKS), (0, NODES)):
        for t, spec in table.items():
            attrs = spec if mark else spec.attrs
            k = len(attrs[-1]) if attrs else 0
            for mask in range(1 << k):
                yield [t, mark, mask]


def run_built(case, ctx):
    t, mark, mask = case
    e = make_attr_case([t, mark, mask, 0])
    spec = (MARKS if mark else NODES)[t]
    kw = {}
    if "attrs" in e:
        kw["attrs"] = lib.attrs_cls(t, bool(mark))(**copy.deepcopy(e["attrs"]))
        ctx.step()
        must_eq(kw["attrs"].to_dict(), e["attrs"], "attributes built from their class")
        if not mark and not spec.attrs[0] and not e["attrs"]:
            must_eq(dump(lib.cls(t)(**{k: v for k, v in kw.items() if k != "attrs"},
                                    **({"content": []} if spec.content == "req" else {}),
                                    **{k: e[k] for k in spec.fields}), ctx),
                    {k: v for k, v in e.items() if k != "attrs"}, "built without attributes")
    if not mark:
        for k in spec.fields:
            kw[k] = e[k]
        if "content" in e:
            kw["content"] = []
    ctx.step()
    obj = lib.cls(t, bool(mark))(**kw)
    must_eq(dump(obj, ctx), e, "built from the class")
    back = parse(copy.deepcopy(e), ctx, bool(mark))
    if not (back == obj):
        raise Bad("the parsed element is not equal to the built one")
    if not mark and spec.content:
        kids = [typical(c) for c in spec.children[:2]]
        kw["content"] = [parse(copy.deepcopy(c), ctx) for c in kids]
        e2 = dict(e, content=kids)
        must_eq(dump(lib.cls(t)(**kw), ctx), e2, "built from the class with children")
    if not mark and spec.marks:
        ms = [mk_mark(m) for m in spec.marks[:2]]
        kw["marks"] = [parse(copy.deepcopy(m), ctx, True) for m in ms]
        e3 = dict(e, marks=ms)
        if "content" in kw:
            e3["content"] = [c.to_dict() for c in kw["content"]]
        must_eq(dump(lib.cls(t)(**kw), ctx), e3, "built from the class with marks")


# ---- the value of a field survives whatever number, word or structure it is
NUMBERS = [0, 1, -1, 2 ** 31, -2 ** 31 - 1, 2 ** 53 - 1, 2 ** 53 + 1, -2 ** 53 - 1, 2 ** 63, 2 ** 64 + 1, 10 ** 30, 3.0, -0.0, 0.0, 0.1, 1 / 3, 33.333333333333336, 99.99, 1e-7, 5e-324, 1e16, 9007199254740993.0, 1e300, 123456789.12345679, 100.0, 50]
WORDS = ["0", "007", "-1", "3.0", "1e5", " 3 ", "true", "True", "false", "null", "None", "NaN", "[]", "{}", "\"x\"", "&amp;", "%20", "\\u00e9", "2024-01-01", "#FFF", "#ffffff", "RED", " lead", "trail ", "UPPER", "a/b", "a/", "http://H/", "HTTP://h", "file:///x",
         "x" * 255, "x" * 256, "x" * 257, "x" * 4096, "x" * 70000, "ab " * 30000]


def nest(n, how):
    v = "leaf"
    for i in range(n):
        v = {"k%d" % (i % 3): v} if how == "d" or how == "m" and i % 2 else [v]
    return v


THINGS = [nest(n, how) for n in (8, 20, 60, 120) for how in "dlm"] + [
    {"k%d" % i: i for i in range(2000)}, list(range(5000)), {"": {"": [""]}}, {"é\u2028": 1, " ": 2, "a.b": 3}, [None, True, False, 0, 0.0, -0.0, "", [], {}], {"content": [{"type": "text"}], "marks": [{}]},
    {"localId": None, "url": 5, "text": ["x"], "type": 1, "version": 2, "attrs": {"attrs": {"attrs": {}}}}, [[1, 1.0, True, "1"]] * 3, 1, 0.5, True, False, "x", "",
] + NUMBERS


def field_spots():
    for mark, table in ((1, MARKS), (0, NODES)):
        for t, spec in table.items():
            attrs = spec if mark else spec.attrs
            for part in attrs[-2:] if attrs else ():
                for k, vs in part.items():
                    free = k in ("data", "parameters", "datasource")
                    yield t, mark, k, THINGS if free else [[x] * n for x in NUMBERS for n in (1, 2)] if k == "colwidth" else [[w] for w in WORDS] + [WORDS] if k == "sources" else \
                        NUMBERS if all(isinstance(v, (int, float)) and not isinstance(v, bool) or v is None for v in vs) else WORDS if any(isinstance(v, str) for v in vs) else []


def value_cases(tier):
    for i, (t, mark, k, vs) in enumerate(field_spots()):
        for j in range(len(vs)):
            yield [i, j]


SPOTS = list(field_spots())


def run_value(case, ctx):
    t, mark, k, vs = SPOTS[case[0]]
    v = vs[case[1]]
    e = mk_mark(t, full=True) if mark else typical(t, full=True)
    e.setdefault("attrs", {})[k] = copy.deepcopy(v)
    roundtrip(copy.deepcopy(e), ctx, bool(mark), " (%s of %s)" % (k, t))
    for host in (MARK_HOSTS[t] if mark else [None]):
        if host:
            roundtrip(embed(host_with(host, [e])), ctx)
        elif t != "doc":
            roundtrip(embed(e), ctx)
    ctx.step()
    a = lib.attrs_cls(t, bool(mark))(**copy.deepcopy(e["attrs"]))
    must_eq(a.to_dict(), e["attrs"], "attributes built from their class")


# ---- the order of the keys of a dictionary means nothing
def reorder(x, how):
    if isinstance(x, list):
        return [reorder(v, how) for v in x]
    if isinstance(x, dict):
        ks = list(x)
        ks = ks[::-1] if how == 0 else sorted(ks) if how == 1 else sorted(ks, reverse=True) if how == 2 else ks[1:] + ks[:1]
        return {k: reorder(x[k], how) for k in ks}
    return x


def order_cases(tier):
    for t in NODES:
        for full in (0, 1):
            for how in range(4):
                yield [t, full, how]


def run_order(case, ctx):
    t, full, how = case
    e = typical(t, bool(full))
    d = e if t == "doc" else embed(e)
    tree = roundtrip(reorder(d, how), ctx)
    if not (tree == parse(copy.deepcopy(d), ctx)):
        raise Bad("%s: the tree depends on the order of the keys" % t)


# ---- every document near a base document, and the document's version
def check_near(d, ctx):
    roundtrip(d, ctx)

# ---- every character and every length of text
TEXT_AT = [lambda s: doc(para(text(s, "strong"), mk("mention", text=s, id=s), mk("status", text=s)), mk("codeBlock", text(s), language=s)), lambda s: doc(mk("expand", para(text("x", mk_mark("link", href=s, title=s))), title=s, localId=s))]


# ---- free-form values that use the names of the code
def free_slots():
    out = []
    for t, spec in NODES.items():
        if spec.attrs is not None:
            for k in list(spec.attrs[1]) + list(spec.attrs[2]):
                if any(isinstance(v, (dict, list)) for v in list(spec.attrs[1].get(k, [])) + list(spec.attrs[2].get(k, [])) + deco.REAL.get(k, [])):
                    out.append((t, k))
    return out


def key_cases(tier):
    for t, k in free_slots():
        for w in sorted(set(words.words() + words.names())):
            yield [t, k, w]


def run_key(case, ctx):
    t, k, w = case
    for v in ({w: "x"}, {"a": {w: None, "b": [w]}, w: {w: w}}, {w: [{w: False}], "z": w}, {w: {}}, {w: []}, {w: None}):
        e = typical(t, full=True)
        e.setdefault("attrs", {})[k] = v
        check_near(e if t == "doc" else embed(e), ctx)
    ctx.extra_states += 5


# ---- trees built from the classes, with one object at several places
def run_shared(case, ctx):
    d = share.decode(case)
    for what, pool in (("built from the classes", None), ("built from the classes, equal parts being one object", {})):
        tree = share.built(d, pool)
        must_eq(dump(tree, ctx), d, what)
        if not (parse(copy.deepcopy(d), ctx) == tree):
            raise Bad("the parsed tree is not equal to the one %s" % what)
        must_eq(dump(tree, ctx), d, what + ", second time")
    # the input may use one dictionary at several places as well
    e = share.aliased(d)
    tree = parse(e, ctx)
    must_eq(e, d, "the input after parsing it")
    must_eq(dump(tree, ctx), d, "an input in which equal parts are one object")
    if not (parse(copy.deepcopy(d), ctx) == tree):
        raise Bad("the tree is another one when equal parts of the input are one object")
    ctx.outcome(d)


def families():
    return [
        Family("shared parts", share.cases, run_shared, "every type at all its places at once, base and universe documents, also with every child repeated: built with new objects, and with one object for all equal parts"),
        Family("attributes", attr_cases, run_attrs, "every type, every subset of optional attributes, every value of each"),
        Family("presence", shape_cases, run_shape, "every type with attrs, content and marks absent, empty, filled"),
        Family("built", built_cases, run_built, "every class built directly with every subset of optional attributes"),
        Family("mark sequences", mark_seq_cases, run_mark_seq, "every sequence of text marks"),
        Family("texts", text_cases, run_text, "every string over 14 characters in texts, hrefs, attributes, code"),
        Family("universe", gen.universe, run_universe, "every legal type path and every sequence of children per container"),
        Family("trees", tree_cases, run_tree, "every document tree over 11 element kinds up to a number of nodes"),
        Family("field values", value_cases, run_value, "every field with numbers of every size, words of every look and free-form values of every depth"),
        Family("key order", order_cases, run_order, "every element with the keys of every dictionary in other orders"),
        Family("ladders", ladder_cases, run_ladder, "sizes and depths one by one up to the bound"),
        Family("samples", sample_cases, run_sample, "the repository's sample documents and each of their elements"),
    ] + deco.families(check_near, deco.rich(), deco.small("list", "marks", "media", "inline", "extension"), more=deco.small() + deco.rich(), threes=deco.small("marks", "inline2", "media", "list")) + [deco.characters(TEXT_AT, check_near), deco.lengths(TEXT_AT, check_near)] + [deco.related(check_near, deco.PAIRS), deco.constants(check_near, skip=lambda s: False), Family("keys", key_cases, run_key, "free-form values with every name of the code as a key and as a value")]
