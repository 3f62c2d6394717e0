"""Trees built from the classes, in which equal parts may be one and the same object."""
import copy
import json

from . import adf, gen
from .adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from .lib import attrs_cls, cls


def built(d, pool=None, mark=False):
    """The tree of d made by calling the classes; with a pool, every part that occurs more than
    once (elements, attributes, lists, free-form values) is made once and used at every place."""
    def once(kind, value, make):
        if pool is None:
            return make()
        key = (kind, json.dumps(value))
        if key not in pool:
            pool[key] = make()
        return pool[key]

    def free(v):
        return once("value", v, lambda: copy.deepcopy(v)) if isinstance(v, (dict, list)) else v

    def element(n, mark):
        def make():
            kw = {}
            for k, v in n.items():
                if k == "attrs":
                    kw[k] = once(("attrs", n["type"], mark), v, lambda: attrs_cls(n["type"], mark)(**{a: free(x) for a, x in v.items()}))
                elif k in ("content", "marks"):
                    kw[k] = once(k, v, lambda: [element(c, k == "marks") for c in v])
                elif k != "type":
                    kw[k] = v
            return cls(n["type"], mark)(**kw)
        return once(("element", mark), n, make)
    return element(d, mark)


def doubled(d):
    """Every child twice, the second time with the first one behind it once more."""
    e = copy.deepcopy(d)
    for n in adf.walk(e):
        if n.get("content") and n["type"] not in ("mediaSingle", "mediaGroup"):
            n["content"] = n["content"] + copy.deepcopy(n["content"][::-1])
    return e


def everywhere(t):
    """A document with one element of this type at every place where it is allowed."""
    x = typical(t)
    out = []
    for h in gen.containers():
        if t in NODES[h].children:
            for kids in ([x], [x, x]):
                if h == "doc":
                    out += copy.deepcopy(kids)
                else:
                    out += embed(mk(h, *copy.deepcopy(kids)))["content"]
    if t in ("bulletList", "orderedList", "taskList"):
        inner = copy.deepcopy(x)
        for h in ("bulletList", "orderedList"):
            two = mk(h, mk("listItem", para("a"), copy.deepcopy(inner)), mk("listItem", para("b"), copy.deepcopy(inner)))
            three = mk(h, mk("listItem", para("a"), copy.deepcopy(two), copy.deepcopy(inner)))
            out += [copy.deepcopy(inner), two, three, copy.deepcopy(inner)]
        if t == "taskList":
            out += [mk("taskList", *(x["content"] + [copy.deepcopy(x), mk("taskList", *(x["content"] + [copy.deepcopy(x)])), copy.deepcopy(x)]))]
    return doc(*out)


def cases(tier):
    for t in NODES:
        if t != "doc":
            yield ["everywhere", t]
    from . import deco
    for i in range(len(deco.rich() + deco.small())):
        yield ["base", i]
        yield ["base2", i]
    for c in gen.universe("small" if tier == "quick" else "quick"):
        yield ["doc", c]
        yield ["doc2", c]


def decode(case):
    from . import deco
    how, c = case
    if how == "everywhere":
        return everywhere(c)
    d = (deco.rich() + deco.small())[c] if how.startswith("base") else gen.decode(c)
    return doubled(d) if how.endswith("2") else copy.deepcopy(d)


def aliased(d, pool=None):
    """Equal JSON data in which every two equal dictionaries or lists are one object."""
    pool = {} if pool is None else pool
    if not isinstance(d, (dict, list)):
        return d
    key = json.dumps(d)
    if key not in pool:
        pool[key] = {k: aliased(v, pool) for k, v in d.items()} if isinstance(d, dict) else [aliased(v, pool) for v in d]
    return pool[key]
