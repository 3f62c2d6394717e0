"""C08: concurrent use from several threads gives the sequential results.

Every schedule runs in a forked process of its own, so that each one starts from a
library that has been imported but never used (or, for the import family, not even
imported).  This module must not use the library itself.
"""
import copy

from mc import adf, common, gen, ref, sched
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family, short
from mc.forks import in_child
from props.c07 import BULLET, LINK, ORDERED, SKIP, TASK, api, full, lib_ready, nest, only_module, show

ID = "C08"
EXHAUSTIVE = True
ASSUMPTIONS = ["threads are switched only at executed lines (or bytecodes) of the library itself: code of the interpreter's own modules runs atomically",
               "2 threads with up to 2 preemptions, 3 threads with up to 2, 1 preemption at every bytecode"]


def fresh(d, ignore=False):
    """parse, serialise, render"""
    def p(sh):
        a = api()

        def go():
            t = a.NodeDoc.from_dict(copy.deepcopy(d))
            return [t.to_dict(), show(lambda: t.to_markdown(ignore_error=ignore))]
        return show(go)
    return p


def same_input(k):
    """parse one dictionary that all threads use"""
    def p(sh):
        a = api()
        return show(lambda: full(a.NodeDoc.from_dict(sh["input"])))
    return p


def shared_md(sh):
    return show(sh["tree"].to_markdown)


def shared_dict(sh):
    return show(sh["tree"].to_dict)


def shared_ignore(sh):
    return show(lambda: sh["tree"].to_markdown(ignore_error=True))


def element(cat, e):
    def p(sh):
        a = api()

        def go():
            if cat == "mark":
                x = a.parse_mark(copy.deepcopy(e))
                return [x.to_dict(), show(lambda: x.to_markdown("s t")), x.is_type_of(getattr(a.TypeEnum, e["type"]))]
            x = a.parse_node(copy.deepcopy(e))
            return [x.to_dict(), show(x.to_markdown), x.is_type_of(getattr(a.TypeEnum, e["type"]))]
        return show(go)
    return p


def build(sh):
    a = api()
    return show(lambda: a.NodeOrderedList(content=[a.NodeListItem(content=[a.NodeParagraph(content=[a.NodeText(text="b", marks=[a.MarkEm()])])])]).to_markdown())


LISTS = doc(mk("orderedList", mk("listItem", para("a"), mk("bulletList", mk("listItem", para("b")))), mk("listItem", para("c")), order=4))
LISTS2 = doc(mk("bulletList", mk("listItem", para("x"), mk("orderedList", mk("listItem", para("y")), mk("listItem", para("z")), order=9))))
TASKS = doc(mk("taskList", mk("taskItem", text("t"), state="DONE"), mk("taskList", mk("taskItem", text("u")))))
TABLE = doc(mk("table", mk("tableRow", mk("tableHeader", para("H|")), mk("tableHeader", para("I"))), mk("tableRow", mk("tableCell", para("a")), mk("tableCell", para("b")))))
TABLE2 = doc(mk("table", mk("tableRow", mk("tableCell", mk("codeBlock", text("x\ny"))))))
QUOTE = doc(mk("panel", para("p"), mk("codeBlock", text("k\n\n\nk"), language="python"), panelType="info"), mk("blockquote", para("q")))
QUOTE2 = doc(mk("panel", mk("rule"), para("w"), panelType="error"), mk("codeBlock", text("```")))
MARKED = doc(para(text("a", "strong", "em"), text("b", LINK, "code"), mk("mention", text="@M")), mk("heading", text("h", "strike"), level=2))
MARKED2 = doc(para(text("c", "em", "strong"), mk("date", timestamp="0"), mk("status", text="S")), mk("heading", text("g", LINK), level=5))
DECIDE = doc(mk("decisionList", mk("decisionItem", text("d"), mk("hardBreak"), text("e")), mk("decisionItem", text("f"))))
DECIDE2 = doc(mk("decisionList", mk("decisionItem", text("one")), mk("decisionItem", text("two"), mk("hardBreak"), mk("hardBreak"), text("3"))))
EXPAND = doc(mk("expand", mk("nestedExpand", para("n")), para("o"), title="T"))
MEDIA = doc(mk("mediaSingle", mk("media", type="external", url="http://m", alt="A")), mk("mediaSingle", mk("media", type="file", id="i")), mk("extension", text="E"))
INDENT = doc(para("i", marks=[mk_mark("indentation", level=2)]), para("j"))
BROKEN = doc(para(text("a\nb", "code"), "c"), mk("bulletList", mk("listItem", para(text("d\ne", "code"), "f"))), para("g"))
NOPARSE = doc(para("a"), mk("bulletList", mk("listItem", {"type": "heading", "attrs": {}})))


def P(*threads, **shared):
    return threads, shared


PROGRAMS = {
    "same lists": P(fresh(LISTS), fresh(LISTS)),
    "lists": P(fresh(LISTS), fresh(LISTS2)),
    "tasks and lists": P(fresh(TASKS), fresh(LISTS2)),
    "tables": P(fresh(TABLE), fresh(TABLE2)),
    "quotes": P(fresh(QUOTE), fresh(QUOTE2)),
    "marks": P(fresh(MARKED), fresh(MARKED2)),
    "decisions": P(fresh(DECIDE), fresh(DECIDE2)),
    "expand and media": P(fresh(EXPAND), fresh(MEDIA)),
    "indentation": P(fresh(INDENT), fresh(INDENT)),
    "ignoring errors next to not ignoring": P(fresh(BROKEN, True), fresh(BROKEN, False)),
    "failing parse next to another": P(fresh(NOPARSE), fresh(LISTS)),
    "unsupported elements": P(fresh(SKIP), fresh(SKIP)),
    "one input": P(same_input(0), same_input(1), input=LISTS),
    "one tree rendered twice": P(shared_md, shared_md, tree=LISTS),
    "one tree rendered and serialised": P(shared_md, shared_dict, tree=MARKED),
    "one tree serialised twice": P(shared_dict, shared_dict, tree=TABLE),
    "one tree rendered, with and without ignoring": P(shared_ignore, shared_md, tree=BROKEN),
    "one panel rendered twice": P(shared_md, shared_md, tree=QUOTE),
    "build and parse": P(build, fresh(LISTS2)),
    "same table": P(fresh(TABLE), fresh(TABLE)),
    "same media": P(fresh(MEDIA), fresh(MEDIA)),
    "same quote": P(fresh(QUOTE), fresh(QUOTE)),
}
# the same kind of element in both threads, with different contents, depths and sizes
for _k in (TASK, BULLET, ORDERED):
    PROGRAMS["deep and flat " + _k] = P(fresh(doc(nest([_k] * 3))), fresh(doc(nest([_k]), para("z"))))
PROGRAMS["deep lists of all kinds"] = P(fresh(doc(nest([ORDERED, BULLET, TASK, TASK]))), fresh(doc(nest([BULLET, ORDERED, ORDERED]))))
PROGRAMS["one deep task list"] = P(shared_md, shared_md, tree=doc(nest([TASK, TASK])))
PROGRAMS["wide and tall tables"] = P(
    fresh(doc(mk("table", mk("tableRow", *[mk("tableHeader", para("h%d" % i)) for i in range(3)]), mk("tableRow", *[mk("tableCell", para("c%d" % i)) for i in range(3)])))),
    fresh(doc(mk("table", *[mk("tableRow", mk("tableCell", para("r%d" % i), mk("codeBlock", text("a\n|")))) for i in range(3)]))))
PROGRAMS["nested boxes"] = P(
    fresh(doc(mk("expand", mk("panel", mk("decisionList", mk("decisionItem", text("d"), mk("hardBreak"), text("e")))), mk("blockquote", nest([BULLET]))))),
    fresh(doc(mk("panel", para("p"), mk("codeBlock", text("k\n\n\nl")), panelType="error"), mk("blockquote", para("q"), para("r")))))
PROGRAMS["inline elements"] = P(
    fresh(doc(para(text("a", "em"), mk("mention", text="@A"), mk("emoji", shortName=":a:"), mk("status", text="S"), mk("date", timestamp="0"), mk("inlineCard", url="http://a"), mk("hardBreak")))),
    fresh(doc(para(text("b", "strong", LINK), mk("mention"), mk("emoji", shortName=":b:", text="b"), mk("status", text="T"), mk("date", timestamp="86400000"), mk("inlineCard", url="http://b")))))
PROGRAMS["other media"] = P(
    fresh(doc(mk("mediaSingle", mk("media", type="external", url="http://m", alt="A")), mk("extension", text="E"), mk("blockCard", url="http://c"), mk("embedCard", url="http://d"))),
    fresh(doc(mk("mediaSingle", mk("media", type="file", id="i"), mk("caption", text("c"))), mk("extension", extensionKey="k"), mk("blockCard", url="http://e"), mk("embedCard", url="http://f"))))
PROGRAMS["lists in cells"] = P(
    fresh(doc(mk("table", mk("tableRow", mk("tableHeader", nest([BULLET, ORDERED])), mk("tableHeader", para("x")))))),
    fresh(doc(mk("table", mk("tableRow", mk("tableCell", nest([TASK, TASK])), mk("tableCell", mk("panel", para("y"))))))))
PROGRAMS["paragraphs next to deep lists"] = P(fresh(doc(para("a"), mk("heading", text("b"), level=3), para("c"), para("d"))), fresh(doc(nest([BULLET, BULLET, TASK]))))
THREE = {
    "three lists": P(fresh(LISTS), fresh(LISTS2), fresh(TASKS)),
    "three renderings of one tree": P(shared_md, shared_md, shared_dict, tree=LISTS),
    "three different": P(fresh(TABLE2), fresh(QUOTE2), fresh(MARKED2)),
    "three indented": P(fresh(INDENT), fresh(DECIDE), fresh(EXPAND)),
}
SMALL = {
    "one small tree": P(shared_md, shared_md, tree=doc(mk("bulletList", mk("listItem", para("a"), mk("bulletList", mk("listItem", para("b"))))))),
    "paragraphs": P(fresh(doc(para("a"))), fresh(doc(para(text("b", "strong"))))),
    "small lists": P(fresh(doc(mk("orderedList", mk("listItem", para("a")), order=3))), fresh(doc(mk("orderedList", mk("listItem", para("b")))))),
    "small tables": P(fresh(doc(mk("table", mk("tableRow", mk("tableCell", para("a")))))), fresh(doc(mk("table", mk("tableRow", mk("tableHeader", para("b"))))))),
    "small panels": P(fresh(doc(mk("panel", para("a")))), fresh(doc(mk("blockquote", para("b"))))),
    "small tasks": P(fresh(doc(mk("taskList", mk("taskItem", text("a"))))), fresh(doc(mk("taskList", mk("taskItem", text("b"), state="DONE"))))),
    "small decisions": P(fresh(doc(mk("decisionList", mk("decisionItem", text("a"))))), fresh(doc(mk("decisionList", mk("decisionItem", text("b")))))),
    "small code": P(fresh(doc(mk("codeBlock", text("a\n\n\nb")))), fresh(doc(mk("codeBlock", text("``` c"), language="x")))),
    "small headings": P(fresh(doc(mk("heading", text("a"), level=1))), fresh(doc(mk("heading", text("b"), level=6)))),
    "one small tree, rendered and serialised": P(shared_md, shared_dict, tree=doc(para(text("a", "em")), para("b"))),
}
TYPES = {}
for _t in NODES:
    _e = typical(_t, full=True)
    TYPES["node " + _t] = P(element("node", _e), element("node", typical(_t)))
for _t in MARKS:
    TYPES["mark " + _t] = P(element("mark", mk_mark(_t, full=True)), element("mark", mk_mark(_t)))
# an element alone in one thread, the same type inside something else in the other
INSIDE = {}
for _t in NODES:
    if _t != "doc":
        INSIDE["%s alone and inside" % _t] = P(element("node", typical(_t, full=True)), fresh(embed(typical(_t))))
for _t in MARKS:
    _h = [h for h in NODES if NODES[h].marks and _t in NODES[h].marks]
    if _h:
        _e = typical(_h[0])
        _e["marks"] = [mk_mark(_t)]
        INSIDE["mark %s alone and on a %s" % (_t, _h[0])] = P(element("mark", mk_mark(_t)), element("node", _e))
IMPORTS = {
    "node and parse_node": P(only_module("nodes.node_panel", "NodePanel", QUOTE["content"][0]), only_module("nodes.parse_node", "parse_node", QUOTE["content"][0])),
    "api and a document": P(fresh(LISTS), fresh(TABLE)),
    "two single modules": P(only_module("nodes.node_table", "NodeTable", TABLE["content"][0]), only_module("nodes.node_bullet_list", "NodeBulletList", LISTS2["content"][0])),
    "a mark and a node": P(only_module("marks.mark_link", "MarkLink", mk_mark("link")), only_module("nodes.node_doc", "NodeDoc", MARKED)),
    "parse_node and parse_mark": P(only_module("nodes.parse_node", "parse_node", para("a")), only_module("marks.parse_mark", "parse_mark", mk_mark("em"))),
}
ALL = {**PROGRAMS, **THREE, **SMALL, **TYPES, **INSIDE, **IMPORTS}


def shared_state(spec):
    sh = {}
    if "input" in spec:
        sh["input"] = copy.deepcopy(spec["input"])
    if "tree" in spec:
        sh["tree"] = api().NodeDoc.from_dict(copy.deepcopy(spec["tree"]))
    return sh


def execute(name, schedule, **k):
    """One execution in this (forked) process."""
    threads, spec = ALL[name]
    sh = shared_state(spec)
    got, s = sched.run([lambda p=p: p(sh) for p in threads], schedule, **k)
    return got, s


_want = {}


def want(name, imports=False):
    """The outcome of each program alone, each in a process of its own."""
    if name not in _want:
        threads, spec = ALL[name]
        _want[name] = [in_child(lambda p=p: p(shared_state(spec)), what="program alone") for p in threads]
    return _want[name]


def judge(name, schedule, got, expected):
    for i, (g, w) in enumerate(zip(got, expected)):
        if repr(g) != repr(w):
            raise Bad("'%s' under schedule %s: thread %d gives\n  %s\nalone it gives\n  %s" % (name, schedule, i, short(g, 1500), short(w, 1500)))


def cold(name, schedule, expected, ctx, **k):
    """One schedule in a process of its own; the keys of the points each thread passed."""
    def go():
        got, s = execute(name, schedule, **k)
        judge(name, schedule, got, expected)
        return s.keys, s.per, s.n, s.switched, s.blocked
    keys, per, n, switched, blocked = in_child(go, what="schedule %s of '%s'" % (schedule, name))
    ctx.extra_states += 1
    ctx.extra_runs += 1
    ctx.step(n)
    if switched:
        ctx.count("schedules with a preemption")
    if blocked:
        ctx.count("schedules in which a thread had to wait for another")
    return keys if keys is not None else per


def warm(name, schedules, expected, ctx):
    """Many schedules one after the other in one process."""
    def go():
        n = switched = points = 0
        for schedule in schedules:
            got, s = execute(name, schedule)
            judge(name, schedule, got, expected)
            n += 1
            points += s.n
            switched += bool(s.switched)
        return n, points, switched
    n, points, switched = in_child(go, timeout=800, what="schedules of '%s'" % name)
    ctx.extra_states += n
    ctx.extra_runs += n
    ctx.step(points)
    ctx.count("schedules with a preemption", switched)


def some(keys, occurrences):
    """Numbers (from 1) of the points that are among the first occurrences of their place."""
    seen, out = {}, []
    for i, key in enumerate(keys, 1):
        seen[key] = seen.get(key, 0) + 1
        if seen[key] <= occurrences:
            out.append(i)
    return out


def traces(name, expected, ctx):
    """The points each thread passes when it runs first, alone; they have to be reproducible."""
    out = []
    for t in range(len(ALL[name][0])):
        a = cold(name, [t, []], expected, ctx, record=True)
        b = cold(name, [t, []], expected, ctx, record=True)
        if a != b:
            raise Bad("'%s': the same schedule executes different lines when repeated" % name)
        if not a[t]:
            raise RuntimeError("no points")
        out.append(a[t])
    return out


BLOCKS = 8


def cases_of(names, quick=None):
    def gen_(tier):
        for name in names if tier == "thorough" or quick is None else list(names)[:quick]:
            for b in range(BLOCKS):
                yield [name, b]
    return gen_


def one_preemption(opcodes, quick_occ, thorough_occ, is_cold):
    def run(case, ctx):
        name, b = case
        api()
        sched.instrument(opcodes)
        expected = want(name)
        n = len(ALL[name][0])
        keys = traces(name, expected, ctx)
        todo = []
        for start in range(n):
            for k in some(keys[start], quick_occ if ctx.tier == "quick" else thorough_occ)[b::BLOCKS]:
                for other in range(n):
                    if other != start:
                        todo.append([start, [[k, other]]])
        if is_cold:
            for s in todo:
                cold(name, s, expected, ctx)
        else:
            warm(name, todo, expected, ctx)
        ctx.outcome(case)
    return run


def two_preemptions(case, ctx):
    name, b = case
    api()
    sched.instrument(False)
    expected = want(name)
    n = len(ALL[name][0])
    keys = traces(name, expected, ctx)
    occ = 1 if ctx.tier == "quick" else 2
    todo = []
    for start in range(n):
        for k in some(keys[start], occ)[b::BLOCKS]:
            for other in range(n):
                if other == start:
                    continue
                # the second thread runs for j points, then the first one (or a third) goes on
                for j in some(keys[other], occ):
                    for third in range(n):
                        if third != other and (n == 2 or third != start):
                            todo.append([start, [[k, other], [k + j, third]]])
    warm(name, todo, expected, ctx)
    ctx.outcome(case)


def run_imports(case, ctx):
    name, b = case
    lib_ready()
    expected = want(name, True)
    keys = [cold(name, [t, []], expected, ctx, imports=True, record=True)[t] for t in range(2)]
    for start in range(2):
        todo = some(keys[start], 1)
        if ctx.tier == "quick":
            todo = [k for k in todo if keys[start][k - 1][1] == "<module>"]
        for k in todo[b::BLOCKS]:
            cold(name, [start, [[k, 1 - start]]], expected, ctx, imports=True)
    ctx.outcome(case)


MANY = 10 ** 9


def families():
    L = dict(limit=900)
    return [
        # first: the workers have not imported anything yet
        Family("cold import, 1 preemption", cases_of(IMPORTS, 1), run_imports, "two threads that are the first to import the library, switched at every module start and end (thorough: and at every line of every function)", **L),
        Family("first use, 1 preemption", cases_of({**PROGRAMS, **THREE}), one_preemption(False, 2, 4, True), "an unused library in every schedule's process; every line (the stated number of occurrences) as the preemption point, every thread first", **L),
        Family("types, first use, 1 preemption", cases_of(TYPES), one_preemption(False, 2, 4, True), "two threads on elements of the same type, unused library", **L),
        Family("alone and inside, 1 preemption", cases_of(INSIDE), one_preemption(False, 1, 3, False), "an element parsed on its own in one thread and as a part of another element in the other", **L),
        Family("programs, 1 preemption", cases_of({**PROGRAMS, **THREE}), one_preemption(False, 4, MANY, False), "every line (thorough: every occurrence of it) as the preemption point", **L),
        Family("programs, 1 preemption at every bytecode", cases_of({**SMALL, **PROGRAMS, **THREE}, len(SMALL)), one_preemption(True, 1, 5, False), "bytecodes as the preemption points", **L),
        Family("2 preemptions", cases_of({**SMALL, **PROGRAMS, **THREE}, 5), two_preemptions, "every pair of lines (the stated number of occurrences) as the preemption points", **L),
    ]
