"""C07: the outcome of an operation never depends on what the library did before.

This module must not import the library: every explored history starts in a process
in which nothing of it has been imported yet.
"""
import copy
import gc
import itertools
import logging
import os
import pickle
import sys

from mc import adf, common, gen, ref, words
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family, short
from mc.forks import in_child

ID = "C07"
EXHAUSTIVE = True
ASSUMPTIONS = ["histories start from a process in which the library has not been imported, and run in one thread",
               "warnings are the subject of C04 and are not part of an outcome here"]


# --------------------------------------------------------------------- operations
def lib_ready():
    """Make the working tree importable without importing it."""
    sys.dont_write_bytecode = True
    os.environ.setdefault("CI", "true")
    if sys.path[0] != common.REPO:
        sys.path.insert(0, common.REPO)
    log = logging.getLogger("atlas_doc_parser")
    if not log.handlers:
        log.addHandler(logging.NullHandler())
        log.propagate = False


def api():
    lib_ready()
    import atlas_doc_parser.api as a
    return a


def show(f):
    """A comparable outcome."""
    try:
        v = f()
    except Exception as e:
        return ["error", type(e).__name__, str(e)]
    return ["ok", v]


def full(tree):
    d = tree.to_dict()
    return [d, show(tree.to_markdown), show(lambda: tree.to_markdown(ignore_error=True)), tree.type]


LINK = mk_mark("link", href="http://h", title="")
D1 = doc(mk("heading", text("h1", "em"), level=1), para("a ", text("b", "strong", "em"), text("c", LINK)),
         mk("bulletList", mk("listItem", para("i"), mk("orderedList", mk("listItem", para("n")), order=0))))
# the same shape, ids and sizes with other contents
D2 = doc(mk("heading", text("h2", "strong"), level=2), para("x ", text("y", "em", "strong"), text("z", LINK)),
         mk("bulletList", mk("listItem", para("j"), mk("orderedList", mk("listItem", para("m")), order=7))))
D3 = doc(mk("table", mk("tableRow", mk("tableHeader", para("H|1"), colspan=1), mk("tableHeader", para("H2"))),
            mk("tableRow", mk("tableCell", para("c"), mk("codeBlock", text("k\n\n\nk"), language="python")), mk("tableCell", para("d"), colspan=True)),
            isNumberColumnEnabled=True, localId="x"),
         mk("codeBlock", text("a\n\n\n\nb"), language="none"), mk("panel", para("p"), mk("rule"), panelType="info"))
D4 = doc(mk("taskList", mk("taskItem", text("t"), state="DONE"), mk("taskList", mk("taskItem", localId="x", state="TODO"), localId="x"), localId="x"),
         mk("decisionList", mk("decisionItem", text("d"), mk("hardBreak"), text("e"))),
         mk("expand", mk("blockquote", para("q")), title="T"), mk("extension", parameters={"a": [1]}),
         mk("mediaSingle", mk("media", type="external", url="http://m", alt="")), para(mk("mention"), mk("mention", text="@A"), mk("emoji"), mk("status", text="S"), mk("date", timestamp="0")))
BAD_RENDER = doc(para("a"), mk("bulletList", mk("listItem", para("b", mk("inlineCard", url=None)))),
                 mk("panel", mk("blockCard", url=None), para("c"), panelType="note"),
                 mk("table", mk("tableRow", mk("tableCell", para(text("x\ny", "code"))), mk("tableCell", para("z")))), para("end"))
del BAD_RENDER["content"][1]["content"][0]["content"][0]["content"][1]["attrs"]["url"]
BAD_PARSE = doc(mk("bulletList", mk("listItem", para("b"), mk("bulletList", mk("listItem", {"type": "heading", "attrs": {}, "content": []})))), para("x"))


def nest(kinds, broken=False):
    """Lists in lists, an item before and one after each nested list."""
    inner = None
    for i, k in enumerate(reversed(kinds)):
        item = (lambda *c: mk("taskItem", *c, state="DONE")) if k == "taskList" else (lambda *c: mk("listItem", para(*c)))
        last = mk("inlineCard") if broken and inner is None else text("l%d" % i)
        kids = [item(text("f%d" % i)), item(last)]
        if inner is not None:
            if k == "taskList":
                kids.insert(1, inner)
            else:
                kids[0]["content"].append(inner)
        inner = mk(k, *kids, **({"order": 7 + i} if k == "orderedList" and i % 2 else {}))
    return inner


BULLET, ORDERED, TASK = "bulletList", "orderedList", "taskList"
D5 = doc(nest([ORDERED] * 8), nest([BULLET, ORDERED, BULLET, TASK, TASK, TASK, TASK]), nest([TASK] * 9), nest([BULLET] * 5 + [ORDERED]),
         mk(ORDERED, *[mk("listItem", para("n%d" % i)) for i in range(12)], order=95),
         mk("table", mk("tableRow", *[mk("tableHeader", para("k%d" % i)) for i in range(12)]), *[mk("tableRow", *[mk("tableCell", para("r%d" % i)) for i in range(12)]) for _ in range(12)]),
         *[para("p%d" % i) for i in range(30)])
BAD_DEEP = doc(nest([ORDERED, BULLET, ORDERED, TASK, TASK], True), nest([TASK] * 4, True), nest([ORDERED] * 4, True),
               mk("blockquote", nest([BULLET, ORDERED], True)), mk("expand", mk("panel", mk("decisionList", mk("decisionItem", text("d"), mk("inlineCard"))))),
               mk("table", mk("tableRow", mk("tableHeader", para("h")), mk("tableHeader", nest([ORDERED, ORDERED], True)))), para("end"))
SKIP = doc({"type": "layoutSection", "content": [para("hidden")]}, para("a", {"type": "inlineExtension"}, {"type": "text", "text": "b", "marks": [{"type": "fontSize"}, {"type": "strong"}]}))


def whole(d):
    def op(st):
        return show(lambda: full(api().NodeDoc.from_dict(copy.deepcopy(d))))
    return op


def only_module(module, name, d):
    """Import just one module of the library and use its class."""
    def op(st):
        lib_ready()
        m = __import__("atlas_doc_parser." + module, fromlist=[name])
        f = getattr(m, name)
        f = getattr(f, "from_dict", f)

        def go():
            x = f(copy.deepcopy(d))
            if x.__class__.__name__.startswith("Mark"):
                return [x.to_dict(), show(lambda: x.to_markdown("s t"))]
            return full(x)
        return show(go)
    return op


def same_object(st):
    """One dictionary object whose contents change between the parses."""
    a = api()
    d = doc(para("one"))
    out = [show(lambda: full(a.NodeDoc.from_dict(d)))]
    d["content"][0]["content"][0]["text"] = "two"
    out.append(show(lambda: full(a.NodeDoc.from_dict(d))))
    d["content"].append(para(text("three", "strong")))
    out.append(show(lambda: full(a.NodeDoc.from_dict(d))))
    d["content"][0] = {"type": "rule"}
    out.append(show(lambda: full(a.NodeDoc.from_dict(d))))
    del d
    gc.collect()
    return out


def spoil(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        for k in list(x):
            x[k] = "spoiled"
        x["spoiled"] = 1
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x[:] = ["spoiled"]


def mutate(st):
    """Mutate the input and the results of earlier operations."""
    a = api()
    d = copy.deepcopy(D1)
    t = a.NodeDoc.from_dict(d)
    o = t.to_dict()
    p = t.to_kwargs()
    spoil(d)
    spoil(o)
    spoil(p)
    for x in st.setdefault("results", []):
        spoil(x)
    return show(lambda: full(t))


def keep(st):
    """Parse one document the first time and use the same tree ever after."""
    a = api()
    if "tree" not in st:
        st["tree"] = a.NodeDoc.from_dict(copy.deepcopy(D3))
    o = st["tree"].to_dict()
    out = show(lambda: full(st["tree"]))
    st.setdefault("results", []).append(o)
    return copy.deepcopy(out)


def built(st):
    a = api()
    out = []
    out.append(show(lambda: a.NodeDoc(version=1, content=[a.NodeParagraph(content=[a.NodeText(text="a", marks=[a.MarkStrong()])])]).to_dict()))
    out.append(show(lambda: a.NodeDoc(version=1, content=[a.NodeParagraph(content=[a.NodeText(text="a", marks=[a.MarkStrong()])])]).to_markdown()))
    out.append(show(lambda: a.NodeParagraph().to_dict()))
    out.append(show(lambda: a.NodeHeading(attrs=a.NodeHeadingAttrs(level=3), content=[]).to_markdown()))
    out.append(show(lambda: a.NodeHeading(content=[]).to_dict()))
    out.append(show(lambda: a.NodeOrderedList(content=[a.NodeListItem(content=[a.NodeParagraph()])]).to_markdown()))
    out.append(show(lambda: a.NodeTable(content=[]).to_dict()))
    out.append(show(lambda: a.MarkLink(attrs=a.MarkLinkAttrs(href="h")).to_markdown("t")))
    return out


def fields(st):
    lib_ready()
    from atlas_doc_parser import mark_or_node as m
    out = [sorted(c.get_fields()) for c in (getattr(m, n, None) for n in ("Base", "BaseMarkOrNode", "BaseMark", "BaseNode")) if hasattr(c, "get_fields")]
    a = api()
    for n in sorted(dir(a)):
        c = getattr(a, n)
        if isinstance(c, type) and hasattr(c, "get_fields"):
            out.append([n, list(c.get_fields())])
    return out


def predicates(st):
    a = api()
    t = a.parse_node(copy.deepcopy(D1["content"][0]))
    TE = a.TypeEnum
    lst = [TE.heading, TE.text]
    out = [t.is_type_of(TE.heading), t.is_type_of(TE.text), t.is_type_of(lst), t.is_type_of([]), len(lst),
           a.parse_mark({"type": "em"}).is_type_of([TE.em]), t == copy.deepcopy(t), t == a.parse_node(D2["content"][0])]
    return out


def too_deep(st):
    """Far beyond the nesting limit: an error, and no trace of it afterwards."""
    a = api()
    d = para("x")
    for _ in range(700):
        d = mk("bulletList", mk("listItem", d))
    r = show(lambda: full(a.NodeDoc.from_dict(doc(d))))
    return [r[0], r[1]] if r[0] == "error" else r


def toggle(value):
    def op(st):
        lib_ready()
        import atlas_doc_parser.settings as s
        s.WARN_UNIMPLEMENTED_TYPE = value
        return ["set"]
    return op


OPS = [
    ("document 1", whole(D1)),
    ("document 2", whole(D2)),
    ("table, code and panel", whole(D3)),
    ("tasks, decisions and media", whole(D4)),
    ("render that fails", whole(BAD_RENDER)),
    ("parse that fails", whole(BAD_PARSE)),
    ("deep and long", whole(D5)),
    ("render that fails deep inside", whole(BAD_DEEP)),
    ("unsupported elements", whole(SKIP)),
    ("only nodes.node_table", only_module("nodes.node_table", "NodeTable", D3["content"][0])),
    ("only marks.parse_mark", only_module("marks.parse_mark", "parse_mark", mk_mark("link", full=True))),
    ("only nodes.parse_node", only_module("nodes.parse_node", "parse_node", D2["content"][2])),
    ("only marks.mark_strong", only_module("marks.mark_strong", "MarkStrong", {"type": "strong"})),
    ("one dictionary with changing contents", same_object),
    ("mutate inputs and results", mutate),
    ("one tree used again", keep),
    ("built directly", built),
    ("fields of every class", fields),
    ("predicates", predicates),
    ("warnings off", toggle(False)),
    ("nesting beyond the limit", too_deep),
]
EXPECT = {"document 1": D1, "document 2": D2, "table, code and panel": D3, "tasks, decisions and media": D4, "render that fails": BAD_RENDER, "deep and long": D5, "render that fails deep inside": BAD_DEEP,
          "one tree used again": D3, "mutate inputs and results": D1}

_want = {}


def want(i):
    """Outcome of one operation in a fresh process, cross-checked with the reference model."""
    if i not in _want:
        name, op = OPS[i]
        _want[i] = in_child(lambda: op({}), what="operation '%s' in a fresh process" % name)
        if name in EXPECT:
            d = EXPECT[name]
            got = _want[i]
            if got[0] != "ok" or got[1][0] != d:
                raise Bad("'%s' in a fresh process gives %s" % (name, short(got)))
            bad = ref.fails(d)
            if (got[1][1][0] == "error") != bad or not bad and not ref.same(got[1][1][1], ref.render(d)):
                raise Bad("'%s' in a fresh process renders %r" % (name, got[1][1]))
            if not ref.same(got[1][2][1], ref.render(ref.prune(d))):
                raise Bad("'%s' in a fresh process renders, ignoring errors, %r" % (name, got[1][2]))
    return _want[i]


def step(i, st, history):
    name, op = OPS[i]
    got = op(st)
    if repr(got) != repr(want(i)):
        raise Bad("after %s, '%s' gives\n  %s\ninstead of\n  %s" % ([OPS[j][0] for j in history], name, short(got, 1500), short(want(i), 1500)))
    return got


def below(st, history, depth):
    """Explore all continuations of the history this process has executed."""
    n = 1
    if len(history) < depth:
        for j in range(len(OPS)):
            n += in_child(lambda: (step(j, st, history), below(st, history + [j], depth))[1], what="history %s" % [OPS[k][0] for k in history + [j]])
    return n


def history_cases(tier):
    # the last level is explored inside a case
    for h in itertools.product(range(len(OPS)), repeat=2):
        yield list(h)


def run_history(case, ctx):
    depth = 3 if ctx.tier == "quick" else 4
    for i in range(len(OPS)):
        want(i)

    def go():
        st, done = {}, []
        for i in case:
            step(i, st, done)
            done.append(i)
        return below(st, done, depth)
    n = in_child(go, timeout=200, what="history %s" % [OPS[i][0] for i in case])
    ctx.extra_states += n
    ctx.extra_runs += n
    ctx.step(n + 1)
    ctx.outcome(case)


# ------------------------------------------------------- pairs of element types
def elements():
    """(name, element) for every type, well-formed and not."""
    out = []
    for t in NODES:
        out.append(("node", typical(t)))
        out.append(("node", typical(t, full=True)))
        for field in ("attrs", "content", "text", "version"):
            e = typical(t, full=True)
            if field in e:
                del e[field]
                out.append(("node", e))
        e = typical(t, full=True)
        if isinstance(e.get("attrs"), dict):
            for k in e["attrs"]:
                if isinstance(e["attrs"][k], str):
                    e["attrs"][k] += "2"
        out.append(("node", e))
    for t in MARKS:
        out.append(("mark", mk_mark(t)))
        out.append(("mark", mk_mark(t, full=True)))
        out.append(("mark", {"type": t}))
    return out


ELEMENTS = elements()


def use(i):
    a = api()
    cat, e = ELEMENTS[i]
    e = copy.deepcopy(e)

    def go():
        if cat == "mark":
            x = a.parse_mark(e)
            return [x.to_dict(), show(lambda: x.to_markdown("s t"))]
        return full(a.parse_node(e))
    return show(go)


def pair_cases(tier):
    yield from range(len(ELEMENTS))


_single = []


def singles():
    """Outcome of every element, each in a process of its own that has only imported the library."""
    if not _single:
        def all_of_them():
            api()
            return [in_child(lambda: use(i)) for i in range(len(ELEMENTS))]
        _single.extend(in_child(all_of_them, timeout=200))
    return _single


def run_pairs(first, ctx):
    expected = singles()

    def go():
        def check(i, done):
            got = use(i)
            if repr(got) != repr(expected[i]):
                raise Bad("after using %s, %s gives\n  %s\ninstead of\n  %s" % (
                    [short(ELEMENTS[j], 200) for j in done], short(ELEMENTS[i], 300), short(got), short(expected[i])))
        check(first, [])
        for j in range(len(ELEMENTS)):
            in_child(lambda: check(j, [first]))
        # and all of them one after the other, several times, in this process
        done = [first]
        for _ in range(2 if ctx.tier == "quick" else 10):
            for j in range(len(ELEMENTS)):
                j = (j * (2 * first + 1) + first) % len(ELEMENTS)
                check(j, ["%d uses" % len(done)] and done[-3:])
                done.append(j)
        return len(ELEMENTS)
    n = in_child(go, timeout=200, what="uses after " + short(ELEMENTS[first]))
    ctx.extra_states += n
    ctx.extra_runs += n
    ctx.step(3 * n)
    ctx.outcome(first)


# ----------------------------------------------- the same operations many times over
def repeat_cases(tier):
    n = len(OPS)
    for i in range(n):
        for j in range(n):
            yield [i, j, 30 if tier == "quick" else 400]


def run_repeat(case, ctx):
    i, j, n = case
    slow = [k for k, (name, _) in enumerate(OPS) if name == "nesting beyond the limit"]
    if i in slow or j in slow:
        n = min(n, 5)
    want(i), want(j)

    def go():
        st = {}
        for k in range(n):
            step(i, st, ["%d times" % k] and [i, j] * min(k, 2))
            step(j, st, [i, j] * min(k, 2) + [i])
        return 0
    in_child(go, timeout=200, what="'%s' and '%s' in turns" % (OPS[i][0], OPS[j][0]))
    ctx.step(2 * n)
    ctx.extra_states += 2 * n
    ctx.outcome(case)


# ------------------------------------------------- thousands of uses in one process
DOCS = [D1, D2, D3, D4, D5, BAD_RENDER, BAD_DEEP, SKIP, BAD_PARSE]
KEEP = ("timestamp", "type")


def marked(e, token):
    """The element with the token at the end of every string of it (but types and timestamps)."""
    if isinstance(e, dict):
        return {k: v if k in KEEP else marked(v, token) for k, v in e.items()}
    if isinstance(e, list):
        return [marked(x, token) for x in e]
    return e + token if isinstance(e, str) else e


def thousands_cases(tier):
    for i in range(len(ELEMENTS)):
        yield ["element", i]
        yield ["element, other texts", i]
    for i in range(len(DOCS)):
        yield ["document", i]
        yield ["document, other texts", i]


def run_thousands(case, ctx):
    what, i = case
    n = (1500 if "element" in what else 150 if DOCS[i] in (D5, BAD_DEEP) else 700) * (1 if ctx.tier == "quick" else 10)
    if "element" in what or len(repr(DOCS[i])) < 3000:
        n = max([n] + words.near(n, 12000))

    def go():
        a = api()

        def once(token):
            cat, e = ELEMENTS[i] if "element" in what else ("doc", DOCS[i])
            e = copy.deepcopy(e) if token is None else marked(e, token)

            def f():
                if cat == "mark":
                    x = a.parse_mark(e)
                    return [x.to_dict(), show(lambda: x.to_markdown("s t"))]
                return full(a.parse_node(e) if cat == "node" else a.NodeDoc.from_dict(e))
            return repr(show(f))
        other = "other" in what
        first = once("TOKEN" if other else None)
        for k in range(n):
            got = once("TOKEN%d" % k) if other else once(None)
            if other:
                got = got.replace("TOKEN%d" % k, "TOKEN")
            if got != first:
                raise Bad("%s, use number %d: %s\n  instead of\n  %s" % (what, k + 2, short(got, 2000), short(first, 2000)))
        return 0
    in_child(go, timeout=280, what="%s %d used %d times" % (what, i, n))
    ctx.step(3 * n)
    ctx.extra_states += n
    ctx.outcome(case)


# ---------------------------------------- universe documents one after the other
def sequence_cases(tier):
    yield from ([k, 40] for k in range(40))


def run_sequence(case, ctx):
    """The documents of the universe in one process, in different orders, against the reference."""
    k, m = case
    docs = [gen.decode(c) for i, c in enumerate(gen.universe("small")) if i % m == k]

    def go():
        a = api()
        for order in (docs, docs[::-1], docs[::2] + docs[1::2]):
            for d in order:
                t = a.NodeDoc.from_dict(d)
                if t.to_dict() != d:
                    raise Bad("in a sequence of documents: round trip of %s gives %s" % (short(d), short(t.to_dict())))
                try:
                    w = ref.render(d)
                except ref.CannotRender:
                    continue
                g = t.to_markdown()
                if not ref.same(g, w):
                    raise Bad("in a sequence of documents: %s renders %r instead of %r" % (short(d), g, ref.plain(w)))
        return 3 * len(docs)
    n = in_child(go, timeout=200, what="a sequence of documents")
    ctx.step(3 * n)
    ctx.extra_states += n
    ctx.outcome(case)


# ------------------------------------- equal values of different types, one after the other
EQUAL = [[1, True, 1.0], [0, False, 0.0], ["1", 1], ["", None], [[], {}], [[1], [True], [1.0]], [{"a": 0}, {"a": False}, {"a": 0.0}], [-0.0, 0.0], ["\u00e9", "e\u0301"], ["A", "a"], ["x", "x "], [None, False]]


def equal_cases(tier):
    for mark, table in ((1, MARKS), (0, NODES)):
        for t, spec in table.items():
            attrs = spec if mark else spec.attrs
            if attrs is not None:
                for k in list(attrs[-2]) + list(attrs[-1]):
                    yield [t, mark, k]


def tidy(r):
    return repr(r)


def run_equal(case, ctx):
    t, mark, k = case
    lib_ready()

    def make(v):
        e = mk_mark(t, full=True) if mark else typical(t, full=True)
        e["attrs"][k] = copy.deepcopy(v)
        return e

    def go(e):
        a = api()
        if mark:
            def f():
                x = a.parse_mark(copy.deepcopy(e))
                return [x.to_dict(), show(lambda: x.to_markdown("s t"))]
            return show(f)
        return show(lambda: full(a.parse_node(copy.deepcopy(e))))

    def main():
        api()
        n = 0
        for group in EQUAL:
            es = [make(v) for v in group]
            alone = [in_child(lambda: tidy(go(e))) for e in es]

            def orders():
                m = 0
                for i, j in itertools.product(range(len(es)), repeat=2):
                    for o in (i, j):
                        got = tidy(go(es[o]))
                        if got != alone[o]:
                            raise Bad("after the same element with %s = %r, with %r it gives\n  %s\ninstead of\n  %s" % (k, group[i], group[o], short(got, 1500), short(alone[o], 1500)))
                        m += 1
                return m
            n += in_child(orders)
        return n
    n = in_child(main, timeout=200, what="equal values of %s.%s" % (t, k))
    ctx.step(4 * n)
    ctx.extra_states += n
    ctx.extra_runs += n
    ctx.outcome(case)


# ------------------------- long documents that differ in a single character, at every position
def alike_cases(tier):
    for n in list(range(1, 40)) + [50, 64, 65, 100, 101, 128, 200, 256, 257, 300, 401, 512, 513, 1000, 1025, 2049, 4097, 10001]:
        for k in range(9):
            yield [n, k]


def alike_doc(n, k, at, c):
    s = "x" * at + c + "x" * (n - at - 1)
    T = text(s)
    return doc(*[[para(T)], [mk("codeBlock", T)], [mk("bulletList", mk("listItem", para(T)), mk("listItem", para("a")))], [mk("table", mk("tableRow", mk("tableHeader", para(T)), mk("tableCell", para("b"))))],
                 [mk("blockquote", para(T), para("c"))], [mk("panel", para(T), panelType="info")], [mk("taskList", mk("taskItem", T, state="DONE"))], [mk("decisionList", mk("decisionItem", T))],
                 [mk("expand", para(text(s, "strong"), text(s, LINK), mk("mention", text=s)), title="T")]][k])


def run_alike(case, ctx):
    n, k = case

    def go():
        a = api()
        m = 0
        for at in sorted({0, 1, n // 4, n // 3, n // 2, 2 * n // 3, n - 2, n - 1} & set(range(n))):
            for c in "xyz":
                d = alike_doc(n, k, at, c)
                t = a.NodeDoc.from_dict(d)
                if t.to_dict() != d:
                    raise Bad("the round trip of a document like earlier ones but for one character differs")
                g = t.to_markdown()
                if not ref.same(g, ref.render(d)):
                    raise Bad("a document like earlier ones but for the character %d renders %s instead of %s" % (at, short(g), short(ref.plain(ref.render(d)))))
                m += 1
        # the same with blocks, items and rows: one of many differs
        if n <= 300:
            for at in sorted({0, n // 2, n - 1}):
                for c in "xyz":
                    words = ["x"] * n
                    words[at] = c
                    es = [para(w) for w in words], [mk("bulletList", *[mk("listItem", para(w)) for w in words])], [mk("table", *[mk("tableRow", mk("tableCell", para(w))) for w in words])], \
                        [mk("codeBlock", *[text(w) for w in words])], [mk("taskList", *[mk("taskItem", text(w)) for w in words])], [mk("panel", *[para(w) for w in words])]
                    d = doc(*es[k % len(es)])
                    t = a.NodeDoc.from_dict(d)
                    if t.to_dict() != d or not ref.same(t.to_markdown(), ref.render(d)):
                        raise Bad("a document of %d elements, like earlier ones but for element %d, renders %s" % (n, at, short(t.to_markdown())))
                    m += 1
        return m
    m = in_child(go, timeout=200, what="documents that are alike")
    ctx.step(3 * m)
    ctx.extra_states += m
    ctx.extra_runs += m
    ctx.outcome(case)


def families():
    return [
        Family("histories", history_cases, run_history, "every sequence of operations up to the depth, from a process without the library (fork at every state)", limit=300),
        Family("element pairs", pair_cases, run_pairs, "every element (well-formed or not, of every type) used first, then every other one", limit=300),
        Family("repetition", repeat_cases, run_repeat, "every two operations in turns, many times", limit=300),
        Family("thousands", thousands_cases, run_thousands, "every element and document used some thousands of times in one process, the same one and with other texts each time", limit=300),
        Family("equal values", equal_cases, run_equal, "every field of every element, every order of two values that are equal or alike but of different types", limit=300),
        Family("alike documents", alike_cases, run_alike, "documents of every length up to the bound that differ from earlier ones in one place", limit=300),
        Family("sequences", sequence_cases, run_sequence, "all small-universe documents one after the other in one process", limit=300),
    ]
