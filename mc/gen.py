"""Exhaustive enumerators of documents.

The space of documents is a transition system: a state is a document under
construction together with the place where the next element goes, a transition
appends one legal element there (or closes the current one).  ``trees`` visits
every state of it up to a number of elements; the other enumerators are complete
products and ladders over narrower dimensions (fields, values, sizes, depths).
"""
import copy
import itertools

from . import adf
from .adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical


# ------------------------------------------------------------------ tree builder
class Sym:
    """One letter of a tree alphabet: how to make the node, and what may go inside."""

    def __init__(self, make, inside=""):
        self.make, self.inside = make, inside


def _forests(alpha, inside, size, memo):
    """All sequences of trees (as nested tuples) over the letters ``inside`` with ``size`` nodes."""
    key = (inside, size)
    if key in memo:
        return memo[key]
    out = []
    if size == 0:
        out.append(())
    else:
        for first in range(1, size + 1):
            for sym in inside.split():
                for below in _forests(alpha, alpha[sym].inside, first - 1, memo):
                    for rest in _forests(alpha, inside, size - first, memo):
                        out.append(((sym, below),) + rest)
    memo[key] = out
    return out


def build(alpha, tree):
    sym, below = tree
    return alpha[sym].make([build(alpha, b) for b in below])


def forests(alpha, inside, max_size, memo=None):
    """Every forest up to max_size nodes, smallest first, as nested tuples."""
    memo = {} if memo is None else memo
    for size in range(0, max_size + 1):
        # the outermost level is generated lazily: it is the largest
        yield from _lazy(alpha, inside, size, memo)


def _lazy(alpha, inside, size, memo):
    if size == 0:
        yield ()
        return
    for first in range(1, size + 1):
        for sym in inside.split():
            for below in _forests(alpha, alpha[sym].inside, first - 1, memo):
                for rest in _forests(alpha, inside, size - first, memo):
                    yield ((sym, below),) + rest


# ------------------------------------------------------------- elements of a type
def variants(t, rich=False):
    """Elements of type t: bare (required fields only), typical, full; without content if possible."""
    out = [mk(t)]
    spec = NODES[t]
    if spec.content == "opt":
        e = mk(t)
        e["content"] = []
        out.append(e)
    if spec.content is not None:
        out.append(typical(t))
    out.append(typical(t, full=True))
    return out


def containers():
    return [t for t, s in NODES.items() if s.content is not None]


def all_paths(depth, start="doc"):
    """Every legal chain of element types from the document down, shortest first."""
    level = [(start,)]
    for _ in range(depth):
        nxt = []
        for p in level:
            for c in NODES[p[-1]].children:
                nxt.append(p + (c,))
        yield from nxt
        level = nxt


def chain(path, wrap=0, full=False):
    """The document along a path of types.  wrap: 0 only children, 1 with a typical sibling
    after each, 2 before each, 3 both."""
    node = typical(path[-1], full)
    for t in reversed(path[:-1]):
        spec = NODES[t]
        sib = spec.children[0]
        kids = [node]
        if wrap & 1:
            kids.append(typical(sib, full))
        if wrap & 2:
            kids.insert(0, typical(sib, full))
        if t == "doc":
            node = doc(*kids)
        else:
            node = mk(t, *kids, full=full)
    return node


def child_sequences(t, length, with_variants=True):
    """Every sequence of ``length`` children of a container of type t."""
    menu = []
    for c in NODES[t].children:
        menu += variants(c) if with_variants else [typical(c)]
    return itertools.product(menu, repeat=length)


# ----------------------------------------------------------------------- universe
def universe(tier, full=True):
    """Compact codes of a broad set of documents: every legal parent, child, grandchild
    combination, with optional fields absent and present, with siblings."""
    depth = {"small": 4, "quick": 5}.get(tier, 7)
    for p in all_paths(depth):
        for wrap in {"small": (3,), "quick": (0, 3)}.get(tier, (0, 1, 2, 3)):
            for f in (0, 1):
                yield ["chain", list(p), wrap, f]
    for t in containers():
        nv = sum(len(variants(c)) for c in NODES[t].children)
        for n in (0, 1, 2, 3) if tier == "thorough" else (0, 1, 2):
            if n == 3 and nv > 24 or n == 2 and tier == "small":
                k = len(NODES[t].children)
                for idx in itertools.product(range(k), repeat=n):
                    yield ["kids", t, 1, list(idx)]
            else:
                for idx in itertools.product(range(nv), repeat=n):
                    yield ["kids", t, 0, list(idx)]


_menu_cache = {}


def _menu(t, typical_only):
    key = (t, typical_only)
    if key not in _menu_cache:
        m = []
        for c in NODES[t].children:
            m += [typical(c)] if typical_only else variants(c)
        _menu_cache[key] = m
    return _menu_cache[key]


def decode(code):
    """The document of a universe code."""
    if code[0] == "chain":
        return copy.deepcopy(chain(tuple(code[1]), code[2], bool(code[3])))
    if code[0] == "kids":
        m = _menu(code[1], code[2])
        node = mk(code[1], *[copy.deepcopy(m[i]) for i in code[3]])
        return node if code[1] == "doc" else embed(node)
    if code[0] == "doc":
        return copy.deepcopy(code[1])
    raise KeyError(code[0])


def small_universe(tier):
    """For checks that do much work per document."""
    yield from universe("small" if tier == "quick" else "quick")


def size_of_universe(tier):
    return sum(1 for _ in universe(tier))


# ------------------------------------------------------------------------ samples
def samples():
    """The sample documents of the repository, wrapped so that they are documents."""
    import glob
    import json
    import os
    from .common import REPO
    for path in sorted(glob.glob(os.path.join(REPO, "tests", "adf_samples", "*.json"))):
        with open(path, encoding="utf-8") as f:
            d = json.load(f)
        yield os.path.basename(path), d
