"""C24: every valid document renders to a string, and always to the same one."""
import copy
import functools
import itertools
import json
import os
import subprocess
import sys
import time

from mc import adf, common, deco, gen, lib, places, ref, share
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import api, dump, md, parse

ID = "C24"
EXHAUSTIVE = True
ASSUMPTIONS = ["ordinary limits: nesting up to 60 levels and some thousands of children or lines (the interpreter's recursion limit bounds nesting near 200)",
               "promptly: every case of the enumerated sizes ends within 10 seconds of CPU time (they take milliseconds)"]
PROMPT = 10


def once(tree, ctx, **kw):
    kind, got = lib.attempt(lambda: md(tree, ctx, **kw))
    return (kind, got if kind == "ok" else type(got).__name__), got


def check(d, ctx, what="document", within=None):
    fails = ref.fails(d)
    tree = parse(d, ctx)
    start = time.process_time()
    first, raw = once(tree, ctx)
    if within is not None and time.process_time() - start > within:
        raise Bad("%s: rendering took %.1f s of CPU time" % (what, time.process_time() - start))
    if fails:
        if first[0] == "ok":
            raise Bad("%s: rendered although an element has no rendering: %r" % (what, raw))
    else:
        if first[0] != "ok":
            raise Bad("%s: raises %s: %s" % (what, type(raw).__name__, raw))
        if type(raw) is not str:
            raise Bad("%s: rendered to a %s: %r" % (what, type(raw).__name__, raw))
    second = once(tree, ctx)[0]
    if second != first:
        raise Bad("%s: rendered twice: %r and %r" % (what, first[1], second[1]))
    again = parse(json.loads(json.dumps(dump(tree, ctx))), ctx)
    third = once(again, ctx)[0]
    if third != first:
        raise Bad("%s: rendered from its serialisation: %r instead of %r" % (what, third[1], first[1]))
    if d["type"] == "doc":
        lax = once(tree, ctx, ignore_error=True)
        if lax[0][0] != "ok" or type(lax[1]) is not str:
            raise Bad("%s: with errors ignored: %r" % (what, lax[0][1]))
        if not fails and lax[0] != first:
            raise Bad("%s: with errors ignored %r instead of %r" % (what, lax[0][1], first[1]))
        if once(tree, ctx)[0] != first or once(tree, ctx, ignore_error=False)[0] != first:
            raise Bad("%s: another result after rendering with errors ignored" % what)
    ctx.outcome(first[1])


# ---- optional fields present and absent
def field_cases(tier):
    for t, spec in NODES.items():
        opt = list(spec.attrs[2]) if spec.attrs else []
        for bits in itertools.product((0, 1), repeat=len(opt)):
            for a in ((0, 1) if spec.attrs and not spec.attrs[0] else (1,)):
                if not a and any(bits):
                    continue
                for content in ((-1, 0, 1, 2) if spec.content == "opt" else (0, 1, 2) if spec.content else (-1,)):
                    for marks in ((-1, 0, 1) if spec.marks else (-1,)):
                        yield [t, list(bits), a, content, marks]


def run_field(case, ctx):
    t, bits, a, content, marks = case
    spec = NODES[t]
    e = {"type": t}
    for k, v in spec.fields.items():
        e[k] = v[0]
    if spec.attrs and a:
        e["attrs"] = {k: copy.deepcopy(v[0]) for k, v in spec.attrs[1].items()}
        for (k, vs), b in zip(spec.attrs[2].items(), bits):
            if b:
                e["attrs"][k] = copy.deepcopy(vs[0])
    if content >= 0:
        kids = [typical(c) for c in spec.children]
        e["content"] = [[], kids[:1], kids][content]
    if marks >= 0:
        e["marks"] = [mk_mark(m) for m in spec.marks if m != "code"] if marks else []
    if t == "media" and e["attrs"]["type"] == "file" and "id" not in e["attrs"]:
        # not a valid image; it must still come to an end
        e["attrs"]["id"] = "i"
    check(e, ctx, "element")
    check(e if t == "doc" else embed(e), ctx)


# ---- every value, also null, of every field
def value_cases(tier):
    for t, spec in NODES.items():
        if spec.attrs:
            table = {**spec.attrs[1], **spec.attrs[2]}
            for (k1, v1), (k2, v2) in itertools.combinations_with_replacement(table.items(), 2):
                for i, j in itertools.product(range(len(v1)), range(len(v2))):
                    for base in (0, 1):
                        yield [t, k1, i, k2, j, base]
    for t, spec in MARKS.items():
        if spec:
            table = {**spec[0], **spec[1]}
            for (k1, v1), (k2, v2) in itertools.combinations_with_replacement(table.items(), 2):
                for i, j in itertools.product(range(len(v1)), range(len(v2))):
                    yield [t, k1, i, k2, j, 2]


def run_value(case, ctx):
    t, k1, i, k2, j, base = case
    if base == 2:
        spec = MARKS[t]
        table = {**spec[0], **spec[1]}
        m = mk_mark(t, **{k1: copy.deepcopy(table[k1][i]), k2: copy.deepcopy(table[k2][j])})
        for host in [h for h in NODES if NODES[h].marks and t in NODES[h].marks]:
            e = typical(host)
            e["marks"] = [copy.deepcopy(m)]
            check(embed(e), ctx)
        return
    spec = NODES[t]
    table = {**spec.attrs[1], **spec.attrs[2]}
    e = typical(t, full=bool(base))
    e.setdefault("attrs", {})
    e["attrs"][k1] = copy.deepcopy(table[k1][i])
    e["attrs"][k2] = copy.deepcopy(table[k2][j])
    check(embed(e), ctx)


# ---- breadth
def run_universe(case, ctx):
    check(gen.decode(case), ctx)


def pair_cases(tier):
    """Every container in every container, with every pair of children variants one level deeper."""
    for p in gen.all_paths(3 if tier == "quick" else 4):
        if NODES[p[-1]].content is None:
            continue
        n = sum(len(gen.variants(c)) for c in NODES[p[-1]].children)
        for i in range(n):
            for j in range(n) if len(p) < 4 else [(i * 7 + 3) % n]:
                yield [list(p), i, j]


def run_pair(case, ctx):
    p, i, j = case
    menu = gen._menu(p[-1], 0)
    node = mk(p[-1], copy.deepcopy(menu[i]), copy.deepcopy(menu[j]))
    for t in reversed(p[:-1]):
        node = doc(node) if t == "doc" else mk(t, node)
    check(node, ctx, "/".join(p))


# ---- nesting
LOOPS = {"bullets": ["bulletList", "listItem"], "numbers": ["orderedList", "listItem"], "mixed": ["bulletList", "listItem", "orderedList", "listItem"], "tasks": ["taskList"]}


def depth_cases(tier):
    for loop in LOOPS:
        for n in list(range(1, 31)) + [40, 50, 60]:
            for leaf in range(6):
                for shape in range(4):
                    yield [loop, n, leaf, shape]


def item_leaf(k):
    return [None, para("x"), para(), mk("codeBlock", text("a\n\n\nb")), para(text("- " * 5), mk("hardBreak"), text("1. ")), mk("codeBlock", text("```\n````\n"))][k]


def run_depth(case, ctx):
    loop, n, leaf, shape = case
    if loop != "tasks" and n > 30 * (2 if loop == "mixed" else 2) // 2:
        n = 30
    path, node = LOOPS[loop], None
    for i in range(n * len(path)):
        t = path[-1 - i % len(path)]
        if t == "listItem":
            x = item_leaf(leaf)
            kids = [[node], [x, node], [node, x], [x, node, copy.deepcopy(x)]][shape]
        elif t == "taskList":
            x = mk("taskItem", text("x")) if leaf else mk("taskItem")
            kids = [[node] if node else [x], [x, node], [node, x], [x, node, copy.deepcopy(x)]][shape]
        else:
            kids = [node]
        node = mk(t, *[k for k in kids if k is not None])
    check(doc(node), ctx, "%s nested %d deep" % (loop, n))


# ---- length
def length_cases(tier):
    ns = list(range(0, 20)) + [50, 100, 200] + ([500, 1000] if tier == "thorough" else [])
    for t in gen.containers():
        for c in range(len(NODES[t].children)):
            for n in ns:
                yield [t, c, n]


def run_length(case, ctx):
    t, c, n = case
    vs = gen.variants(NODES[t].children[c])
    kids = [copy.deepcopy(vs[i % len(vs)]) for i in range(n)]
    check(doc(*kids) if t == "doc" else embed(mk(t, *kids)), ctx, "%d children of a %s" % (n, t))


# ---- long texts of a repeating pattern, where a careless pattern match would explode
UNITS = ["x", " ", "\n", "\t", "`", "```", "```\n", "````\n```\n", "- ", "1. ", "- 1. ", " - ", "\n- ", "\n\n", "\n\n\n", " \n", "> ", "\n> ", "|", "\\|", "*", "**", "~~", "[", "](", "(", ")", "\r", "\r\n", "\u2028", "&nbsp;", "<br>", "#", "\\", "- ```\n", "    ", "\t- ", "``\n", "`\n`", "0", "9. "]
UNITS += [c for c in map(chr, range(32, 127)) if c not in UNITS] + ["\u00a0", "é", "\ud83d\ude00".encode("utf-16", "surrogatepass").decode("utf-16"), "\x0b", "\x85", "| ", "--", "==", "> > ", "* ", "+ ", "<!--", "&", "a b", "ab\n", "1.", "- [ ] ", "![", "]("]
FIRST = UNITS.index("9. ") + 1
SPOTS = ["text", "code", "item", "item code", "cell", "cell code", "quote", "quote code", "panel", "decision", "task", "expand", "heading", "strong", "link", "status", "extension", "alt"]


def pattern_cases(tier):
    ns = (1, 2, 3, 30, 300) if tier == "quick" else (1, 2, 3, 4, 5, 10, 30, 100, 300, 1000, 3000)
    for s in SPOTS:
        for u in range(len(UNITS)):
            for n in ns:
                yield [s, [u], n]
        for u, v in itertools.product(range(FIRST if tier == "quick" else len(UNITS)), repeat=2):
            if u != v and (tier == "thorough" or s in ("text", "code", "item code", "quote code")):
                yield [s, [u, v], 40 if tier == "quick" else 60]


def spot(s, x):
    c = mk("codeBlock", text(x))
    return {
        "text": lambda: para(x), "code": lambda: c, "item": lambda: mk("bulletList", mk("listItem", para(x), mk("orderedList", mk("listItem", para(x))))),
        "item code": lambda: mk("orderedList", mk("listItem", c, mk("bulletList", mk("listItem", copy.deepcopy(c))))),
        "cell": lambda: mk("table", mk("tableRow", mk("tableCell", para(x)))), "cell code": lambda: mk("table", mk("tableRow", mk("tableHeader", c))),
        "quote": lambda: mk("blockquote", para(x)), "quote code": lambda: mk("blockquote", c, para("y")), "panel": lambda: mk("panel", para(x), c),
        "decision": lambda: mk("decisionList", mk("decisionItem", text(x), mk("hardBreak"), text(x))), "task": lambda: mk("taskList", mk("taskItem", text(x))),
        "expand": lambda: mk("expand", para(x), c, mk("nestedExpand", para(x))), "heading": lambda: mk("heading", text(x)), "strong": lambda: para(text(x, "strong", "em", "strike")),
        "link": lambda: para(text(x, mk_mark("link", href=x, title=x))), "status": lambda: para(mk("status", text=x)), "extension": lambda: mk("extension", text=x, extensionKey=x),
        "alt": lambda: mk("mediaSingle", mk("media", alt=x)),
    }[s]()


def run_pattern(case, ctx):
    s, us, n = case
    if len(us) == 1:
        x = UNITS[us[0]] * n
    else:
        x = UNITS[us[0]] * n + UNITS[us[1]] * n + UNITS[us[0]]
    check(doc(para("before"), spot(s, x), para("after")), ctx, "%r in %s" % (x[:40], s))


# ---- very large documents: time may not grow faster than the size
def huge_cases(tier):
    for t in gen.containers():
        for c in range(len(NODES[t].children)):
            if tier == "thorough" or c < 1 or t == "doc" and c < 3:
                yield ["children", t, c, 20000]
    for s in SPOTS:
        for u in ("x", "x\n", "x y ", "\n", "`", "|", "  \n", "- x\n", "```\n", "> ") + (("``` ", "\r", "\t", "x\n\n\n", "é", "&nbsp;", "<br>") if tier == "thorough" else ()):
            yield ["text", s, u, 200000]
    yield ["marks", "", "", 3000]


def run_huge(case, ctx):
    what, t, c, n = case
    if what == "children":
        v = typical(NODES[t].children[c])
        kids = [copy.copy(v) for _ in range(n)]
        check(doc(*kids) if t == "doc" else embed(mk(t, *kids)), ctx, "%d children of a %s" % (n, t), PROMPT)
    elif what == "text":
        check(doc(para("before"), spot(t, c * (n // len(c))), para("after")), ctx, "%d times %r in %s" % (n // len(c), c, t), PROMPT)
    else:
        x = text("x")
        x["marks"] = [mk_mark(adf.PLAIN_MARKS[i % len(adf.PLAIN_MARKS)]) for i in range(n)]
        check(doc(para(x)), ctx, "%d marks" % n, PROMPT)


def sample_cases(tier):
    for i, (name, d) in enumerate(gen.samples()):
        yield [name]


def known(n):
    """Is everything in this sample of a supported type?"""
    if not isinstance(n, dict) or n.get("type") not in NODES:
        return False
    return all(known(c) for c in n.get("content") or []) and all(isinstance(m, dict) and m.get("type") in MARKS for m in n.get("marks") or [])


def run_sample(case, ctx):
    name, = case
    d = dict(gen.samples())[name]
    if known(d):
        check(d, ctx, name)


# ---- trees built from the classes, with one object at several places
def run_shared(case, ctx):
    d = share.decode(case)
    want = [lib.attempt(lambda: md(parse(copy.deepcopy(d), ctx), ctx, **k)) for k in ({}, {"ignore_error": True})]
    for what, pool in (("built from the classes", None), ("built from the classes, equal parts being one object", {})):
        tree = share.built(d, pool)
        for turn in (1, 2):
            for k, (kind, out) in zip(({}, {"ignore_error": True}), want):
                kind2, out2 = lib.attempt(lambda: md(tree, ctx, **k))
                if kind2 != kind or (kind == "ok" and out2 != out):
                    raise Bad("a tree %s renders %r (%s, time %d), the parsed one %r" % (what, out2, k, turn, out))
    ctx.outcome(want[1][1])


# ---- the same results whatever the surroundings of the process are
@functools.lru_cache(None)
def battery():
    out = [d for _, d in gen.samples() if known(d)]
    out += [embed(typical(t, bool(f))) if t != "doc" else typical(t, bool(f)) for t in NODES for f in (0, 1)]
    out += deco.rich() + deco.small()
    out += [share.everywhere(t) for t in NODES if t != "doc"]
    return out


ENVS = [{}, {"PYTHONHASHSEED": "0"}, {"PYTHONHASHSEED": "1"}, {"PYTHONHASHSEED": "77"}, {"TZ": "Asia/Kolkata"}, {"TZ": "America/New_York"}, {"TZ": ""}, {"LANG": "C", "LC_ALL": "C"}, {"LC_ALL": "tr_TR.UTF-8", "LANG": "tr_TR.UTF-8", "LANGUAGE": "tr"},
        {"PYTHONUTF8": "0", "LC_ALL": "POSIX", "PYTHONCOERCECLOCALE": "0"}, {"PYTHONUTF8": "1"}, {"PYTHONOPTIMIZE": "1"}, {"PYTHONOPTIMIZE": "2"}, {"PYTHONDEVMODE": "1"}, {"DEBUG": "1", "ENV": "production", "ATLAS_DOC_PARSER_DEBUG": "1"},
        {"CI": "true"}, {"CI": ""}, {"HOME": "/nonexistent", "USER": "", "LOGNAME": ""}, {"COLUMNS": "20", "TERM": "dumb", "NO_COLOR": "1"}, {"PYTHONMALLOC": "debug"}, {"PYTHONINTMAXSTRDIGITS": "700"}]

CODE = """
import sys, json
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
docs = json.loads(sys.stdin.buffer.read())
import atlas_doc_parser.api as api
out = []
for d in docs:
    t = api.NodeDoc.from_dict(d)
    r = []
    for k in ({}, {"ignore_error": True}):
        try:
            r.append(["ok", t.to_markdown(**k)])
        except Exception as e:
            r.append(["error", type(e).__name__])
    r.append(t.to_dict())
    out.append(r)
sys.stdout.buffer.write(json.dumps(out).encode())
"""


def env_cases(tier):
    for i in range(len(ENVS)):
        for cwd in (0, 1):
            for flags in ([], ["-I"], ["-E"]) if tier == "thorough" else ([],):
                yield [i, cwd, flags]


def run_env(case, ctx):
    i, cwd, flags = case
    docs = battery()
    env = {k: v for k, v in os.environ.items() if k not in ("TZ", "LANG", "LC_ALL", "CI", "PYTHONHASHSEED")}
    env.update(ENVS[i])
    args = [sys.executable, "-B"] + flags + ["-c", CODE, common.REPO]
    p = subprocess.run(args, input=json.dumps(docs).encode(), capture_output=True, timeout=120, env=env, cwd="/" if cwd else None)
    if p.returncode:
        raise Bad("the library failed in a process with %s: %s" % (ENVS[i], p.stderr.decode("utf-8", "replace")[-1500:]))
    for d, (strict, lax, back) in zip(docs, json.loads(p.stdout)):
        tree = parse(copy.deepcopy(d), ctx)
        for got, k in ((strict, {}), (lax, {"ignore_error": True})):
            kind, out = lib.attempt(lambda: md(tree, ctx, **k))
            if got != [kind, out if kind == "ok" else type(out).__name__]:
                raise Bad("in a process with %s: %s\n got  %r\n here %r" % (ENVS[i], lib.short(d), got, out))
        lib.must_eq(back, dump(tree, ctx), "serialised in a process with %s" % ENVS[i])
        ctx.extra_states += 1
    ctx.outcome(case)


# ---- wherever the library is called from
def place_cases(tier):
    for a in places.PLACES:
        for b in range(8):
            yield [a, b]


def run_place(case, ctx):
    a, b = case
    for d in battery()[b::8]:
        def go(ignore):
            tree = parse(copy.deepcopy(d), ctx)
            kind, out = lib.attempt(lambda: md(tree, ctx, ignore_error=ignore))
            return kind, out if kind == "ok" else type(out).__name__, dump(tree, ctx)
        for ignore in (False, True):
            here, there = go(ignore), places.PLACES[a](lambda: go(ignore))
            if here[:2] != there[:2]:
                raise Bad("called from %s: %r, from the main program: %r" % (a, there[1], here[1]))
            lib.must_eq(there[2], here[2], "serialised in " + a)
        ctx.extra_states += 1
    ctx.outcome(case)


def families():
    return [
        Family("places in the program", place_cases, run_place, "a battery of documents of every type handled in threads, pools, coroutines, exception handlers, generators, deep frames, gives what the main program gets"),
        Family("shared parts", share.cases, run_shared, "every type at all its places at once, base and universe documents, also with every child repeated: built with new objects, and with one object for all equal parts, rendered twice", limit=PROMPT),
        Family("surroundings", env_cases, run_env, "a battery of documents of every type in processes with other hash seeds, time zones, locales, optimisation levels, environment variables and directories"),
        Family("universe", lambda tier: gen.universe("quick" if tier == "quick" else "thorough"), run_universe, "every universe document", limit=PROMPT),
        Family("fields", field_cases, run_field, "every type with every subset of its optional attributes, content absent, empty, short and of every child type, marks absent, empty and full", limit=PROMPT),
        Family("values", value_cases, run_value, "every pair of field values of every type and mark", limit=PROMPT),
        Family("children", pair_cases, run_pair, "every pair of children variants in every container at every place", limit=PROMPT),
        Family("depth", depth_cases, run_depth, "nesting ladders of all list kinds, with and without content at each level", limit=PROMPT),
        Family("length", length_cases, run_length, "every container with many children of each type", limit=PROMPT),
        Family("patterns", pattern_cases, run_pattern, "long repeating texts in every place", limit=PROMPT),
        Family("huge", huge_cases, run_huge, "containers of 20000 children, texts of 200000 characters: rendered within 10 seconds of CPU time", limit=200),
        Family("samples", sample_cases, run_sample, "the repository's own sample documents", limit=PROMPT),
    ] + deco.families(check, deco.rich(), deco.small("tasks", "list", "media", "inline2", "extension"), more=deco.small() + deco.rich(), threes=deco.small("list", "tasks", "media", "extension", "inline2")) + [deco.sizes(check, top=501), deco.depths(check, top=20)] + [deco.related(check, deco.PAIRS), deco.constants(check)]
