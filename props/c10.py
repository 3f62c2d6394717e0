"""C10: inline formatting is rendered exactly by the marks, in their listed order."""
import copy
import itertools

from mc import adf, deco, gen, lib, ref
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import api, check_markdown, md, parse

ID = "C10"
EXHAUSTIVE = True
ASSUMPTIONS = ["the indentation mark is a mark of paragraphs and headings, its effect on texts is not covered",
               "which characters are whitespace is Python's str.strip()"]

TEXTS = ["x", " ", "", "a b", "a\nb", "\n", "\t", " x ", "x ", "*x*", "**", "`", "a``b", "[t](u)", "a|b", "\\", "<b>&amp;", "0", "\u00a0",
         "é\u2028z", "\u3000", "# h", "- i", "~~", "```", "a\r\nb", "\x0b", "\x1c", "None", "{0}", "%s", "\\1", "\u200b", "x\n", "\u0085", "𝄞"]
TEXTS_SHORT = ["x", " ", "", "a\nb", " *x` "]


def menu():
    out = []
    for t in MARKS:
        if t != "indentation":
            out.append(mk_mark(t))
    for kw in (dict(title=""), dict(title=None), dict(title="T"), dict(title="a|b"), dict(title=" "), dict(href=""), dict(href="a b)"), dict(title="T\nU"), dict(title="0", href="#")):
        out.append(mk_mark("link", **kw))
    out.append(mk_mark("link", full=True))
    out.append(mk_mark("subsup", type="sup"))
    out.append(mk_mark("fragment", full=True))
    out.append(mk_mark("breakout", full=True))
    return out


MENU = menu()
CORE = [i for i, m in enumerate(MENU) if m["type"] in ("strong", "em", "strike", "code", "link")]


def sequence_cases(tier):
    for n in (0, 1, 2):
        for ms in itertools.product(range(len(MENU)), repeat=n):
            for t in range(len(TEXTS)):
                yield [list(ms), TEXTS[t]]
    for ms in itertools.product(range(len(MENU)), repeat=3):
        for t in TEXTS if tier == "thorough" else TEXTS_SHORT:
            yield [list(ms), t]
    for ms in itertools.product(CORE, repeat=4):
        for t in TEXTS_SHORT[:3] if tier == "thorough" else ("x",):
            yield [list(ms), t]


def run_sequence(case, ctx):
    ms, s = case
    n = {"type": "text", "text": s}
    if ms or len(s) % 2:
        n["marks"] = [copy.deepcopy(MENU[i]) for i in ms]
    try:
        want = ref.apply_marks(n, s)
    except ref.CannotRender:
        want = None
    for what, d, tail in (("text", n, ""), ("paragraph", para(copy.deepcopy(n)), "\n")):
        tree = parse(d, ctx)
        kind, got = lib.attempt(lambda: md(tree, ctx))
        if want is None:
            if kind == "ok":
                raise Bad("%s: inline code over several lines was rendered: %r" % (what, got))
            if what == "paragraph":
                got = md(tree, ctx, ignore_error=True)
                if got != "\n":
                    raise Bad("ignoring errors: %r" % got)
            continue
        if kind == "error":
            raise Bad("%s: raised %s: %s instead of giving %r" % (what, type(got).__name__, got, want))
        if got != want + tail:
            raise Bad("%s: %r instead of %r" % (what, got, want + tail))
        got = md(tree, ctx, ignore_error=True)
        if got != want + tail:
            raise Bad("%s, ignoring errors: %r instead of %r" % (what, got, want + tail))
    ctx.outcome(repr(want))


# ---- one mark on its own
def mark_cases(tier):
    for i in range(len(MENU)):
        for s in TEXTS:
            yield [i, s]


def run_mark(case, ctx):
    i, s = case
    m = parse(copy.deepcopy(MENU[i]), ctx, mark=True)
    ctx.step()
    kind, got = lib.attempt(lambda: m.to_markdown(s))
    try:
        want = ref.apply_mark(MENU[i], s)
    except ref.CannotRender:
        if kind == "ok":
            raise Bad("inline code over several lines was rendered: %r" % got)
        return
    if kind == "error" or got != want:
        raise Bad("%s applied to %r gives %r instead of %r" % (lib.short(MENU[i]), s, got, want))
    ctx.outcome(repr(want))


# ---- runs next to each other, in every inline container
RUNS = [text("a"), text("b", "strong"), text(" ", "em"), text("c", "em", "strong"), text("d", mk_mark("link")), text("e", "code"), text("f ", mk_mark("link", title="T"), "strike"),
        text("", "strong"), text("g", "underline", "subsup"), text("h\ni", "strong"), mk("mention", text="@m"), mk("hardBreak"), mk("status", text="s"), mk("emoji"),
        mk("inlineCard"), text("j\nk", "code"), text("l", "strike", "em", "strong", mk_mark("link", title=""))]
HOSTS = ["paragraph", "heading", "taskItem", "decisionItem", "caption", "codeBlock"]


def run_cases(tier):
    for h in HOSTS:
        for n in (1, 2, 3):
            for r in itertools.product(range(len(RUNS)), repeat=n):
                if h == "codeBlock" and any(RUNS[i]["type"] != "text" for i in r):
                    continue
                yield [h, list(r)]


def run_runs(case, ctx):
    h, r = case
    e = mk(h, *[copy.deepcopy(RUNS[i]) for i in r])
    check_markdown(embed(e), ctx, "in a " + h)
    if h in ("paragraph", "heading"):
        # exactly the concatenation, nothing in between
        try:
            want = "".join(ref.render(c) for c in e["content"])
        except ref.CannotRender:
            return
        got = md(parse(e, ctx), ctx)
        want = want + "\n" if h == "paragraph" else "\n\n# " + want + "\n\n"
        if got != want:
            raise Bad("in a %s: %r instead of %r" % (h, got, want))


def host_cases(tier):
    """Every place in a document that may hold a text."""
    for p in gen.all_paths(5 if tier == "quick" else 6):
        if p[-1] == "text" and "caption" not in p:
            for i in range(len(MENU)):
                if MENU[i]["type"] in adf.TEXT_MARKS:
                    yield [list(p), i]


def run_host(case, ctx):
    p, i = case
    node = text("w", copy.deepcopy(MENU[i]))
    for t in reversed(p[:-1]):
        node = doc(node) if t == "doc" else mk(t, node)
    check_markdown(node, ctx, "at " + "/".join(p))


# ---- marks of images
def media_cases(tier):
    marks = [i for i, m in enumerate(MENU) if m["type"] in ("link", "annotation", "border")]
    for n in (0, 1, 2, 3):
        for ms in itertools.product(marks, repeat=n):
            for t in ("file", "external"):
                yield [t, list(ms)]


def run_media(case, ctx):
    t, ms = case
    e = mk("media", type=t, alt="a", url="http://m", marks=[copy.deepcopy(MENU[i]) for i in ms])
    want = ref.render(e)
    got = md(parse(e, ctx), ctx)
    if got != want:
        raise Bad("image: %r instead of %r" % (got, want))
    check_markdown(doc(mk("mediaSingle", e)), ctx, "image")


# ---- every character and every length of text
TEXT_AT = [lambda s: doc(para(text(s), "z")), lambda s: doc(para(text(s, "strong"), text(s, "em"), text(s, "strike", "strong"))), lambda s: doc(para(text(s, "code"), text(s, mk_mark("link", href="http://l")))),
           lambda s: doc(para(text("x", mk_mark("link", href="http://l", title=s)), text(s, "underline"))),
           lambda s: doc(para(text("x", mk_mark("link", href=s)), text("y", mk_mark("link", href="http://" + s, title="T"), "strong")))]


# ---- many marks on one text
def many_cases(tier):
    for n in list(range(5, 41)) + [50, 64, 65, 99, 100, 101, 128, 129, 200, 256, 257, 300]:
        for i in CORE:
            for at in sorted({0, 1, n // 2, n - 2, n - 1}):
                for fill in ("underline", "textColor", "mixed"):
                    yield [n, i, at, fill]
    for n in range(5, 60 if tier == "quick" else 200):
        yield [n, -1, 0, "formats"]


def run_many(case, ctx):
    n, i, at, fill = case
    if fill == "formats":
        # no em: runs of asterisks grow
        ms = [("strike", "underline", "strong", "em", "subsup")[k % 5] for k in range(n)]
        d = doc(para(text("x", *ms), text("y z", *ms[::-1])))
    else:
        ms = [mk_mark(fill if fill != "mixed" else ("underline", "textColor", "backgroundColor", "subsup", "annotation")[k % 5]) for k in range(n)]
        ms[at] = copy.deepcopy(MENU[i])
        d = doc(para(text("x", *ms), "z"))
    check_markdown(d, ctx, "%d marks" % n)


def families():
    return [
        Family("sequences of marks", sequence_cases, run_sequence, "every sequence of marks up to the length, on every text of the alphabet"),
        Family("many marks", many_cases, run_many, "texts with every number of marks up to the bound, one that formats at each position"),
        Family("single marks", mark_cases, run_mark, "every mark applied directly to every text"),
        Family("runs", run_cases, run_runs, "every sequence of up to 3 runs and inline elements in every inline container"),
        Family("places", host_cases, run_host, "every place of a document that holds a text, every text mark"),
        Family("images", media_cases, run_media, "every sequence of up to 3 marks on images"),
    ] + deco.families(deco.exact, deco.rich("marks"), deco.small("marks"), "amt") + [deco.characters(TEXT_AT, deco.exact), deco.lengths(TEXT_AT, deco.exact)] + [deco.related(deco.exact, ["marks"]), deco.constants(deco.exact, texts=[n for n in deco.TEXT_SLOTS if "marked" in n] + ["paragraph"], only=lambda n: n.startswith(("text ", "media ")))]
