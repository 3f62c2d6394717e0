"""C11: lists keep item order, nesting, numbering and check state."""
import copy
import itertools

from mc import adf, deco, gen, lib, ref
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import api, check_markdown, dump, md, parse

ID = "C11"
EXHAUSTIVE = True
ASSUMPTIONS = ["how the continuation lines of an item's own content are indented is left open",
               "line breaks at the very start and end of a document do not count"]


def S(t, inside="", **attrs):
    return gen.Sym(lambda k: mk(t, *k, **copy.deepcopy(attrs)), inside)


P = gen.Sym(lambda k: para("x"), "")
ALPHABETS = {
    "three kinds": ({"b": S("bulletList", "i"), "o": S("orderedList", "i"), "s": S("orderedList", "i", order=5), "i": S("listItem", "p b o x"),
                     "x": S("taskList", "y x"), "y": gen.Sym(lambda k: mk("taskItem", text("x")), ""), "p": P}, "b s x", (6, 7)),
    "bullets and numbers": ({"b": S("bulletList", "i"), "o": S("orderedList", "i", order=0), "i": S("listItem", "p b o"), "p": P}, "b o", (8, 9)),
    "numbers": ({"o": S("orderedList", "i"), "s": S("orderedList", "i", order=9), "i": S("listItem", "p o s"), "p": P}, "o s", (8, 9)),
    "tasks": ({"x": S("taskList", "y z x"), "y": gen.Sym(lambda k: mk("taskItem", text("x"), state="TODO"), ""),
               "z": gen.Sym(lambda k: mk("taskItem", text("x"), state="DONE"), "")}, "x", (7, 9)),
    "contents": ({"b": S("bulletList", "i"), "o": S("orderedList", "i"), "i": S("listItem", "p k e m z o"), "p": P, "k": gen.Sym(lambda k: mk("codeBlock", text("x\n\n\ny")), ""),
                  "e": gen.Sym(lambda k: para(), ""), "m": S("mediaSingle", "M"), "M": S("media", type="file", alt="x"), "z": S("extension")}, "b o", (6, 7)),
    "several lists": ({"b": S("bulletList", "i"), "o": S("orderedList", "i"), "x": S("taskList", "y"), "y": gen.Sym(lambda k: mk("taskItem", text("x")), ""),
                       "i": S("listItem", "p o"), "p": P, "q": P}, "b o x q", (7, 8)),
}


def tree_cases(tier):
    for name, (alpha, top, sizes) in ALPHABETS.items():
        for f in gen.forests(alpha, top, sizes[0 if tier == "quick" else 1]):
            yield [name, f]


def run_trees(case, ctx):
    name, f = case
    check_markdown(adf.label(doc(*[gen.build(ALPHABETS[name][0], t) for t in f])), ctx)


# ---- start numbers and numbers of items
ORDERS = [None, "absent", 0, 1, 2, 3, 8, 9, 10, 11, 42, 98, 99, 100, 999, 1000, 10 ** 6, 2 ** 31, 2 ** 63]


def number_cases(tier):
    for o in range(len(ORDERS)):
        for n in list(range(0, 13)) + [20, 99, 101] + ([1001] if tier == "thorough" else []):
            for shape in range(6):
                yield [o, n, shape]


def run_numbers(case, ctx):
    o, n, shape = case
    items = [mk("listItem", para("i%d" % i)) for i in range(n)]
    kw = {} if ORDERS[o] == "absent" else {"order": ORDERS[o]}
    e = mk("orderedList", *items, **kw)
    if shape == 1:
        e["attrs"] = dict(e.get("attrs") or {}, localId="x")
    elif shape == 2:
        e = mk("orderedList", mk("listItem", para("a"), e), mk("listItem", para("b")), order=4)
    elif shape == 3:
        e = mk("bulletList", mk("listItem", para("a"), e, para("c")), mk("listItem", para("b")))
    elif shape == 4:
        e = mk("orderedList", mk("listItem", e), mk("listItem", copy.deepcopy(e)), order=7)
    elif shape == 5:
        e = doc(e, copy.deepcopy(e), para("z"), mk("orderedList", mk("listItem", para("last"))))
    check_markdown(e if shape == 5 else doc(e), ctx, "start %s, %d items" % (ORDERS[o], n))


def count_cases(tier):
    for n in list(range(13, 140)) + [150, 199, 200, 201, 255, 256, 257, 300, 499, 500, 501, 512, 999, 1000, 1001, 1024, 2000]:
        for k in range(3):
            yield [n, k]


def run_counts(case, ctx):
    n, k = case
    if k == 2:
        e = mk("taskList", *[mk("taskItem", text("i%d" % i), state="DONE" if i % 3 == 1 else "TODO") for i in range(n)])
        check_markdown(doc(mk("taskList", mk("taskItem", text("a")), e, mk("taskItem", text("z")))), ctx, "%d tasks" % n)
    else:
        e = mk(("bulletList", "orderedList")[k], *[mk("listItem", para("i%d" % i)) for i in range(n)])
        check_markdown(doc(mk("orderedList", mk("listItem", para("a"), e, para("b")), mk("listItem", para("z")))), ctx, "%d nested items" % n)
        # blocks in one item
        check_markdown(doc(mk(("bulletList", "orderedList")[k], mk("listItem", *[para("i%d" % i) for i in range(n)]), mk("listItem", para("z")))), ctx, "an item of %d blocks" % n)
    check_markdown(doc(e), ctx, "%d items" % n)


# ---- check states
STATES = ["TODO", "DONE", "done", "Done", "DONE ", "", "BLOCKED", "x", "TRUE"]


def state_cases(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for s in itertools.product(range(len(STATES)), repeat=n):
            yield list(s)


def run_states(case, ctx):
    items = [mk("taskItem", text("i%d" % i), state=STATES[s], localId=str(i)) for i, s in enumerate(case)]
    check_markdown(doc(mk("taskList", *copy.deepcopy(items))), ctx)
    check_markdown(doc(mk("taskList", items[0], mk("taskList", *copy.deepcopy(items)), *items[1:])), ctx)
    check_markdown(doc(mk("bulletList", mk("listItem", para("a"), mk("taskList", *items)))), ctx)


# ---- every nesting of kinds, with siblings before and after
KINDS = ["bulletList", "orderedList", "taskList"]


def ladder_cases(tier):
    for n in range(1, 8 if tier == "quick" else 10):
        for ks in itertools.product(range(3), repeat=n):
            # nothing but task lists can be nested in a task list
            if any(a == 2 and b != 2 for a, b in zip(ks, ks[1:])):
                continue
            for side in range(4):
                yield [list(ks), side]
    for n in range(8, 60 if tier == "quick" else 80):
        for ks in ([0], [1], [2], [0, 1]):
            for side in range(4):
                yield [(ks * n)[:n], side]


def run_ladder(case, ctx):
    ks, side = case
    node = None
    for depth, k in reversed(list(enumerate(ks))):
        kind = KINDS[k]
        if kind == "taskList":
            own = mk("taskItem", text("t"), state="DONE" if depth % 2 else "TODO")
            kids = [own] + ([node] if node else [])
            if side & 1:
                kids.append(mk("taskItem", text("after")))
            if side & 2 and node:
                kids.insert(0, copy.deepcopy(node) if depth > len(ks) - 3 else mk("taskItem", text("before")))
            node = mk("taskList", *kids)
        else:
            own = [para("i")] + ([node] if node else [])
            if side & 2 and node:
                own.append(para("tail"))
            items = [mk("listItem", *own)]
            if side & 1:
                items.append(mk("listItem", para("after")))
                items.insert(0, mk("listItem", para("before")))
            node = mk(kind, *items)
    check_markdown(adf.label(doc(node)), ctx, "%s" % [KINDS[k] for k in ks])


# ---- what an item contains
T = mk("hardBreak")
CONTENT = [para("a"), para(), para(""), para("b", T, "c"), para("d  "), para(" e"), para(text("f", "strong"), mk("mention", text="@m")), para("g\nh"),
           mk("codeBlock", text("k\n  l\n\n\nm"), language="python"), mk("codeBlock"), mk("bulletList", mk("listItem", para("n"))), mk("bulletList"),
           mk("orderedList", mk("listItem", para("o")), mk("listItem", para("p")), order=3), mk("taskList", mk("taskItem", text("q"), state="DONE")),
           mk("mediaSingle", mk("media", type="external", url="http://m", alt="r")), mk("mediaSingle"), mk("extension", text="s"), para(T, T, "t"), para("u", T),
           mk("bulletList", mk("listItem")), mk("bulletList", mk("listItem", mk("bulletList", mk("listItem", para("v")))))]


def content_cases(tier):
    for kind in ("bulletList", "orderedList"):
        for n in (0, 1, 2, 3):
            for c in itertools.product(range(len(CONTENT)), repeat=n):
                yield [kind, list(c)]


def run_content(case, ctx):
    kind, c = case
    item = mk("listItem", *[copy.deepcopy(CONTENT[i]) for i in c])
    check_markdown(doc(mk(kind, mk("listItem", para("first")), item, mk("listItem", para("last")))), ctx)
    if len(c) < 3:
        check_markdown(doc(mk("bulletList", mk("listItem", para("up"), mk(kind, item, copy.deepcopy(item)), para("down")), mk("listItem", para("next")))), ctx)


INLINES = [text("a"), text(" "), text(""), T, text("b\nc"), text("d "), text("e", "strong"), mk("mention", text="@f"), mk("date"), mk("emoji"), mk("status", text="g"), mk("inlineCard")]


def task_cases(tier):
    for n in range(0, 4):
        for c in itertools.product(range(len(INLINES)), repeat=n):
            yield list(c)
    yield "absent"


def run_tasks(case, ctx):
    for state in ("TODO", "DONE"):
        if case == "absent":
            item = mk("taskItem", state=state)
        else:
            item = mk("taskItem", *[copy.deepcopy(INLINES[i]) for i in case], state=state)
            item.setdefault("content", [])
        check_markdown(doc(mk("taskList", mk("taskItem", text("first")), item, mk("taskItem", text("last")))), ctx)
        check_markdown(doc(mk("taskList", mk("taskItem", text("first")), mk("taskList", item), mk("taskItem", text("last")))), ctx)


# ---- in every container
def place_cases(tier):
    for t in gen.containers():
        for k in KINDS:
            if k in NODES[t].children:
                for v in range(6):
                    for sib in range(4):
                        yield [t, k, v, sib]


def run_places(case, ctx):
    t, k, v, sib = case
    if k == "taskList":
        kids = [mk("taskItem", text("a"), state="DONE"), mk("taskList", mk("taskItem", text("b"))), mk("taskItem", text("c"))]
    else:
        kids = [mk("listItem", para("a"), mk("bulletList", mk("listItem", para("b")), mk("listItem", para("c")))), mk("listItem", para("d"))]
    e = mk(k, *(kids[: v % 3 + 1] if v < 5 else []), **({"order": 6} if k == "orderedList" and v > 2 else {}))
    leaf = typical(NODES[t].children[0])
    row = ([copy.deepcopy(leaf)] if sib & 1 else []) + [e] + ([copy.deepcopy(leaf)] if sib & 2 else [])
    host = doc(*row) if t == "doc" else embed(mk(t, *row))
    check_markdown(host, ctx, "%s in a %s" % (k, t))


# ---- every character and every length of text
TEXT_AT = [lambda s: doc(mk("bulletList", mk("listItem", para(s)), mk("listItem", para("a"), mk("orderedList", mk("listItem", para(s)), mk("listItem", para("z")))))),
           lambda s: doc(mk("taskList", mk("taskItem", text(s), state="DONE"), mk("taskList", mk("taskItem", text(s), state="TODO")), mk("taskItem", text("z"), state="TODO")))]


def families():
    return [
        Family("trees", tree_cases, run_trees, "every list tree over each alphabet up to the size"),
        Family("numbers", number_cases, run_numbers, "every start number with every number of items, alone, nested and next to other lists"),
        Family("counts", count_cases, run_counts, "lists of every number of items, items of every number of blocks"),
        Family("states", state_cases, run_states, "every sequence of task states up to the length"),
        Family("nesting", ladder_cases, run_ladder, "every nesting of list kinds up to the depth, with items before and after"),
        Family("contents", content_cases, run_content, "every item content of up to 3 blocks"),
        Family("task contents", task_cases, run_tasks, "every task content of up to 3 inline elements"),
        Family("places", place_cases, run_places, "lists in every container that allows them"),
    ] + deco.families(deco.exact, deco.rich("lists", "numbers", "tasks", "list with tasks"), deco.small("list", "tasks"), "asit") + [deco.characters(TEXT_AT, deco.exact), deco.lengths(TEXT_AT, deco.exact)] + [deco.sizes(deco.exact, ["bulletList", "orderedList", "taskList", "listItem", "taskItem"]), deco.depths(deco.exact, top=40)] + [deco.related(deco.exact, ["lists"]), deco.constants(deco.exact, texts=["item", "number", "task", "code in an item"], only=lambda n: n.startswith(("orderedList", "bulletList", "listItem", "taskList", "taskItem")))]
