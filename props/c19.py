"""C19: every supported type is registered, exported and handled consistently.

This module must not import the library: each case starts in a process in which
nothing of it has been imported yet.
"""
import copy
import itertools
import os
import shutil
import subprocess
import sys
import tempfile

from mc import adf, common, gen
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family, short
from mc.forks import in_child

ID = "C19"
EXHAUSTIVE = True
ASSUMPTIONS = ["modules under tests, docs and vendor are not part of the library",
               "regenerating the API module is compared by the names and the objects they stand for, not by its text"]

CORE = ["ParamError", "UnimplementedTypeError", "T_DATA", "TypeEnum", "TAB", "logger", "Base", "BaseMarkOrNode", "BaseMark", "T_MARK", "BaseNode", "T_NODE",
        "parse_mark", "parse_node"]
ALL = [(t, 0) for t in NODES] + [(t, 1) for t in MARKS]


def has_attrs(t, mark):
    return (MARKS[t] if mark else NODES[t].attrs) is not None


def names():
    """Every public name that a user relies on."""
    out = list(CORE)
    for t, mark in ALL:
        out.append(adf.class_name(t, mark))
        if has_attrs(t, mark):
            out.append(adf.class_name(t, mark) + "Attrs")
    return out


def ready():
    sys.dont_write_bytecode = True
    os.environ.setdefault("CI", "true")
    if sys.path[0] != common.REPO:
        sys.path.insert(0, common.REPO)


def modules():
    """The library's modules, from the working tree."""
    root = os.path.join(common.REPO, "atlas_doc_parser")
    out = []
    for base, dirs, files in os.walk(root):
        rel = os.path.relpath(base, common.REPO).replace(os.sep, ".")
        dirs[:] = sorted(x for x in dirs if x not in ("tests", "docs", "vendor", "templates", "__pycache__") and os.path.exists(os.path.join(base, x, "__init__.py")))
        for f in sorted(files):
            if f.endswith(".py"):
                m = rel if f == "__init__.py" else rel + "." + f[:-3]
                out.append(m)
    return out


def elements(t, mark):
    if mark:
        out = [mk_mark(t), mk_mark(t, True)]
    else:
        out = gen.variants(t)
        if t != "doc":
            x = mk(t)
            for v in out:
                pass
            out.append(x)
    return [copy.deepcopy(e) for e in out]


def attrs_obj(api, t, mark, e):
    k = getattr(api, adf.class_name(t, mark) + "Attrs")
    return k(**copy.deepcopy(e["attrs"]))


def consistent(api, t, mark):
    """Everything the property says about one type."""
    name = adf.class_name(t, mark)
    cls = getattr(api, name, None)
    if not isinstance(cls, type):
        raise Bad("%s is not exported: %r" % (name, cls))
    base = api.BaseMark if mark else api.BaseNode
    other = api.BaseNode if mark else api.BaseMark
    if not issubclass(cls, base) or issubclass(cls, other):
        raise Bad("%s is not a %s" % (name, base.__name__))
    if cls.__name__ != name:
        raise Bad("%s is exported under the name %s" % (cls.__name__, name))
    parse = api.parse_mark if mark else api.parse_node
    if has_attrs(t, mark):
        k = getattr(api, name + "Attrs", None)
        if not isinstance(k, type) or not issubclass(k, api.Base):
            raise Bad("%sAttrs is not exported: %r" % (name, k))
    for e in elements(t, mark):
        x = parse(copy.deepcopy(e))
        if type(x) is not cls:
            raise Bad("parsing %s gives a %s, not a %s" % (short(e), type(x).__name__, name))
        if x.type != t:
            raise Bad("parsing %s gives the type %r" % (short(e), x.type))
        y = cls.from_dict(copy.deepcopy(e))
        if type(y) is not cls or y.type != t or y.to_dict() != x.to_dict() or not y == x:
            raise Bad("%s.from_dict and the parser disagree on %s" % (name, short(e)))
        if x.to_dict() != e:
            raise Bad("%s serialises to %s" % (short(e), short(x.to_dict())))
        if "attrs" in e:
            a = x.attrs
            k = getattr(api, name + "Attrs")
            if type(a) is not k:
                raise Bad("the attributes of %s are a %s" % (short(e), type(a).__name__))
        # built without naming the type
        kw = {}
        for f in e:
            if f == "type":
                continue
            if f == "attrs":
                kw[f] = attrs_obj(api, t, mark, e)
            elif f in ("content", "marks"):
                kw[f] = [(api.parse_mark if f == "marks" else api.parse_node)(c) for c in copy.deepcopy(e[f])]
            else:
                kw[f] = e[f]
        z = cls(**kw)
        if z.type != t or z.to_dict() != e or not z == x:
            raise Bad("%s built directly differs from the parsed one: %s" % (name, short(z.to_dict())))
        if mark:
            for o in (x, y, z):
                if not isinstance(o.to_markdown("x y"), str) or o.to_markdown("x y") != x.to_markdown("x y"):
                    raise Bad("%s does not apply" % name)
        else:
            for o in (x, y, z):
                for kwargs in ({}, {"ignore_error": True}):
                    s = o.to_markdown(**kwargs)
                    if not isinstance(s, str) or s != x.to_markdown():
                        raise Bad("%s renders as %r, elsewhere as %r" % (name, s, x.to_markdown()))
    # the other registry does not know it (unless there is a type of that name)
    if t not in (NODES if mark else MARKS):
        wrong = api.parse_node if mark else api.parse_mark
        try:
            w = wrong(copy.deepcopy(elements(t, mark)[0]))
        except api.UnimplementedTypeError:
            pass
        else:
            raise Bad("%s was accepted as a %s: %r" % (t, "node" if mark else "mark", w))
    # the type constants know it
    if api.TypeEnum[t].value != t:
        raise Bad("TypeEnum.%s is %r" % (t, api.TypeEnum[t].value))
    if not x.is_type_of(api.TypeEnum[t]):
        raise Bad("a %s says that it is not one" % t)


def api_names(api, what):
    for n in names():
        if not hasattr(api, n):
            raise Bad("%s: the name %s is missing" % (what, n))
    seen = {}
    for t, mark in ALL:
        c = getattr(api, adf.class_name(t, mark))
        if c in seen:
            raise Bad("%s: %s and %s are the same class" % (what, seen[c], c))
        seen[c] = c.__name__


def no_library():
    return not any(m.split(".")[0] == "atlas_doc_parser" for m in sys.modules)


# ---- each type the first one used in a process, through each entrance
ENTRANCES = ["api", "own module", "registry", "base", "class first"]


def first_cases(tier):
    for t, mark in ALL:
        for e in range(len(ENTRANCES)):
            yield [t, mark, e]


def module_of(t, mark):
    """The module in which the class of a type lives (looked up in a throw-away process)."""
    def go():
        ready()
        import atlas_doc_parser.api as api
        return getattr(api, adf.class_name(t, mark)).__module__
    return in_child(go, 60)


def run_first(case, ctx):
    t, mark, e = case
    ctx.step()
    own = module_of(t, mark) if ENTRANCES[e] in ("own module", "class first") else None

    def go():
        import importlib
        ready()
        assert no_library()
        el = elements(t, mark)
        kind = ENTRANCES[e]
        if kind == "own module":
            m = importlib.import_module(own)
            c = getattr(m, adf.class_name(t, mark))
            for x in el:
                o = c.from_dict(copy.deepcopy(x))
                if o.to_dict() != x or o.type != t:
                    raise Bad("first use of %s: %s" % (t, short(o.to_dict())))
                o.to_markdown("x") if mark else o.to_markdown()
        elif kind == "class first":
            m = importlib.import_module(own)
            c = getattr(m, adf.class_name(t, mark))
            kw = {}
            if has_attrs(t, mark) and "attrs" in el[-1]:
                kw["attrs"] = getattr(m, adf.class_name(t, mark) + "Attrs")(**copy.deepcopy(el[-1]["attrs"]))
            if not mark:
                if NODES[t].content == "req":
                    kw["content"] = []
                for f, v in NODES[t].fields.items():
                    kw[f] = v[0]
            o = c(**kw)
            if o.type != t:
                raise Bad("first use of %s: type %r" % (t, o.type))
            o.to_dict()
            o.to_markdown("x") if mark else o.to_markdown()
        elif kind == "registry":
            from atlas_doc_parser.marks.parse_mark import parse_mark
            from atlas_doc_parser.nodes.parse_node import parse_node
            for x in el:
                o = (parse_mark if mark else parse_node)(copy.deepcopy(x))
                if o.to_dict() != x or o.type != t or type(o).__name__ != adf.class_name(t, mark):
                    raise Bad("first use of %s: %s" % (t, short(o.to_dict())))
        elif kind == "base":
            import atlas_doc_parser.mark_or_node  # noqa: F401
        import atlas_doc_parser.api as api
        consistent(api, t, mark)
        api_names(api, "after using %s first" % t)
        for t2, m2 in ALL:
            consistent(api, t2, m2)
        return len(ALL)

    n = in_child(go, 120, "the first use of %s" % t)
    ctx.step(n)
    ctx.extra_runs += n
    ctx.outcome([t, mark])


# ---- each module imported first, and each pair of modules
def import_cases(tier):
    ms = modules()
    for m in ms:
        yield [[m]]
    if tier == "thorough":
        for a, b in itertools.permutations(ms, 2):
            yield [[a, b]]
    else:
        for m in ms:
            if m != "atlas_doc_parser.api":
                yield [["atlas_doc_parser.api", m]]


def run_import(case, ctx):
    ms, = case
    ctx.step()

    def go():
        import importlib
        ready()
        assert no_library()
        for m in ms:
            try:
                importlib.import_module(m)
            except ModuleNotFoundError as e:
                if (e.name or "").split(".")[0] == "atlas_doc_parser":
                    raise Bad("importing %s first: %s" % (m, e))
                # a module for developers, whose tools are not installed
        import atlas_doc_parser.api as api
        api_names(api, "after importing %s" % ms)
        for t, mark in ALL:
            consistent(api, t, mark)
        return len(ALL)

    n = in_child(go, 120, "importing %s" % ms)
    ctx.step(n)
    ctx.outcome(ms[0])


# ---- the API module and its generator
def api_cases(tier):
    for k in ("exports", "star", "generated", "written"):
        yield [k]


def target(name, value):
    """What a name stands for, in a form that can be compared between processes."""
    return [name, getattr(value, "__module__", None), getattr(value, "__qualname__", None) or type(value).__name__]


def public(ns):
    import types
    return sorted(target(k, v) for k, v in ns.items() if not k.startswith("__") and not isinstance(v, types.ModuleType))


def run_api(case, ctx):
    kind, = case
    ctx.step()

    def exports():
        ready()
        import atlas_doc_parser.api as api
        api_names(api, "the API module")
        import importlib
        # every class that a module of the library defines for a node or a mark is exported
        for m in modules():
            if ".nodes." in m or ".marks." in m:
                mod = importlib.import_module(m)
                for k, v in list(vars(mod).items()):
                    if isinstance(v, type) and issubclass(v, api.Base) and v.__module__ == m and not k.startswith("_"):
                        if getattr(api, k, None) is not v:
                            raise Bad("%s.%s is not exported by the API module" % (m, k))
        if api.ParamError is api.UnimplementedTypeError:
            raise Bad("the two errors are the same")
        return public(vars(api))

    def star():
        ready()
        ns = {}
        exec("from atlas_doc_parser.api import *", ns)
        for n in names():
            if n not in ns:
                raise Bad("import * does not give %s" % n)
        return public({k: v for k, v in ns.items() if k != "__builtins__"})

    def generated():
        ready()
        import atlas_doc_parser.api as api
        from atlas_doc_parser.gen_code import generate_api_py
        import types
        src = generate_api_py()
        m = types.ModuleType("atlas_doc_parser.api_generated")
        m.__package__ = "atlas_doc_parser"
        exec(compile(src, "api_generated", "exec"), m.__dict__)
        for k, v in vars(api).items():
            if k.startswith("__") or isinstance(v, types.ModuleType):
                continue
            if k not in vars(m):
                raise Bad("the regenerated API module loses %s" % k)
            if vars(m)[k] is not v:
                raise Bad("the regenerated API module has another %s" % k)
        api_names(m, "the regenerated API module")
        if generate_api_py() != src:
            raise Bad("generating twice gives two results")
        return public(vars(m))

    def written():
        """Run the generator on a copy of the package and use what it wrote."""
        tmp = tempfile.mkdtemp(prefix="verif-c19-")
        try:
            shutil.copytree(os.path.join(common.REPO, "atlas_doc_parser"), os.path.join(tmp, "atlas_doc_parser"), ignore=shutil.ignore_patterns("__pycache__", "tests"))
            env = dict(os.environ, PYTHONPATH=tmp, PYTHONDONTWRITEBYTECODE="1", CI="true")
            for _ in range(2):
                p = subprocess.run([sys.executable, "-B", "-c", "from atlas_doc_parser.gen_code import main; main()"], cwd=tmp, env=env, capture_output=True, text=True, timeout=120)
                if p.returncode:
                    raise Bad("the generator failed: " + p.stderr[-1500:])
                sys.dont_write_bytecode = True
                code = ("import sys, json; sys.path.insert(0, %r)\nimport atlas_doc_parser.api as a\nassert a.__file__.startswith(%r), a.__file__\n"
                        "missing = [n for n in %r if not hasattr(a, n)]\nprint(json.dumps(missing))" % (tmp, tmp, names()))
                p = subprocess.run([sys.executable, "-B", "-c", code], cwd=tmp, env=env, capture_output=True, text=True, timeout=120)
                if p.returncode or p.stdout.strip() != "[]":
                    raise Bad("the regenerated API module lacks %s %s" % (p.stdout.strip(), p.stderr[-1500:]))
        finally:
            shutil.rmtree(tmp)
        return []

    out = in_child({"exports": exports, "star": star, "generated": generated, "written": written}[kind], 300, "the %s run" % kind)
    ctx.extra_states += len(out)
    ctx.outcome(out)


# ---- in every document, every element is of the class of its type
def tree_cases(tier):
    yield from gen.universe("small" if tier == "quick" else "thorough")


def run_tree(case, ctx):
    from mc import lib
    d = gen.decode(case)
    tree = lib.parse(d, ctx)

    def go(x, e):
        mark = e["type"] in MARKS
        name = adf.class_name(e["type"], mark)
        if type(x) is not getattr(lib.api, name) or x.type != e["type"]:
            raise Bad("a %s became a %s of type %r" % (e["type"], type(x).__name__, x.type))
        if "attrs" in e and type(x.attrs) is not getattr(lib.api, name + "Attrs"):
            raise Bad("the attributes of a %s became a %s" % (e["type"], type(x.attrs).__name__))
        for f in ("content", "marks"):
            if f in e:
                cs = getattr(x, f)
                if type(cs) is not list or len(cs) != len(e[f]):
                    raise Bad("%s of a %s: %r" % (f, e["type"], cs))
                for c, ce in zip(cs, e[f]):
                    go(c, ce)
    go(tree, d)
    ctx.outcome(sorted({n["type"] for n in adf.walk(d)}))


def families():
    return [
        Family("first use", first_cases, run_first, "every type, used first in a process through each entrance; then all types"),
        Family("imports", import_cases, run_import, "every module (thorough: every ordered pair) imported first in a process; then all types"),
        Family("api module", api_cases, run_api, "the exported names, the generator's output, and the generator run on a copy"),
        Family("documents", tree_cases, run_tree, "the class of every element of every universe document"),
    ]
