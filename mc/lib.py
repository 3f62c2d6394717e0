"""Calls into the library under test, and comparison helpers, shared by the checks."""
import copy
import dataclasses
import json
import logging

from . import adf, common, ref
from .common import Bad, short

api = common.load()


def cls(t, mark=False):
    return getattr(api, adf.class_name(t, mark))


def attrs_cls(t, mark=False):
    return getattr(api, adf.class_name(t, mark) + "Attrs")


def is_mark_dict(t):
    return t in adf.MARKS


def parse(d, ctx, mark=False):
    ctx.step()
    if mark:
        return api.parse_mark(d)
    if d.get("type") == "doc":
        return api.NodeDoc.from_dict(d)
    return api.parse_node(d)


def dump(tree, ctx):
    ctx.step()
    return tree.to_dict()


def md(tree, ctx, **k):
    ctx.step()
    return tree.to_markdown(**k)


def eq(a, b):
    """Equality of JSON data that also tells 1, True and 1.0 apart and allows only plain types."""
    if type(a) is not type(b):
        return False
    if type(a) is dict:
        return len(a) == len(b) and all(type(k) is str and k in b and eq(v, b[k]) for k, v in a.items())
    if type(a) is list:
        return len(a) == len(b) and all(map(eq, a, b))
    return a == b and (type(a) is not float or repr(a) == repr(b))


def diff(a, b, path="$"):
    """Where two JSON values differ (for messages)."""
    if type(a) is not type(b):
        return "%s: %s %s instead of %s %s" % (path, type(a).__name__, short(a, 200), type(b).__name__, short(b, 200))
    if type(a) is dict:
        for k in b:
            if k not in a:
                return "%s: %r is missing" % (path, k)
        for k in a:
            if k not in b:
                return "%s: unexpected %r = %s" % (path, k, short(a[k], 200))
            if not eq(a[k], b[k]):
                return diff(a[k], b[k], path + "." + k)
    if type(a) is list:
        if len(a) != len(b):
            return "%s: %d elements instead of %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if not eq(x, y):
                return diff(x, y, "%s[%d]" % (path, i))
    return "%s: %s instead of %s" % (path, short(a, 200), short(b, 200))


def must_eq(got, want, what):
    if not eq(got, want):
        raise Bad("%s: %s\n got  %s\n want %s" % (what, diff(got, want), short(got), short(want)))


def must_md(got, want_ref, what, trim=True):
    if not ref.same(got, want_ref, trim):
        raise Bad("%s\n got  %r\n want %r" % (what, got, ref.plain(want_ref)))


def attempt(f):
    """('ok', value) or ('error', exception)."""
    try:
        return "ok", f()
    except Exception as e:
        return "error", e


def check_markdown(d, ctx, what="Markdown", trim=True):
    """The Markdown of a document agrees with the reference; returns it."""
    tree = parse(d, ctx)
    try:
        want = ref.render(d)
    except ref.CannotRender:
        kind, got = attempt(lambda: md(tree, ctx))
        if kind == "ok":
            raise Bad("%s: no error although something cannot be rendered; got %r" % (what, got))
        return None
    got = md(tree, ctx)
    must_md(got, want, what, trim)
    ctx.outcome(got)
    return got


class Records(logging.Handler):
    """Collects everything the library logs."""

    def __init__(self):
        super().__init__(level=0)
        self.items = []

    def emit(self, record):
        self.items.append((record.levelname, record.getMessage()))

    def __enter__(self):
        log = logging.getLogger("atlas_doc_parser")
        self.items = []
        self.old = log.level
        log.addHandler(self)
        log.setLevel(1)
        return self

    def __exit__(self, *a):
        log = logging.getLogger("atlas_doc_parser")
        log.removeHandler(self)
        log.setLevel(self.old)


def set_warn(value):
    import atlas_doc_parser.settings as settings
    settings.WARN_UNIMPLEMENTED_TYPE = value


clone = copy.deepcopy
