"""C13: code blocks are reproduced verbatim inside a proper fence."""
import copy
import itertools

from mc import adf, deco, gen, lib, ref
from mc.adf import MARKS, NODES, doc, embed, mk, mk_mark, para, text, typical
from mc.common import Bad, Family
from mc.lib import api, check_markdown, dump, md, parse

ID = "C13"
EXHAUSTIVE = True
ASSUMPTIONS = ["ordinary text next to a code block does not itself begin with three backticks",
               "code in a table cell is not fenced Markdown and is left to C12"]


# ------------------------------------------------------------- reading code back
def code_of(n):
    return "".join(c["text"] for c in n.get("content") or [])


def read_blocks(markdown, depth):
    """Fenced blocks of a Markdown text at the given quote depth: (language, code).  Written
    after the CommonMark rules: an opening fence (possibly behind list markers), then everything
    up to a line that is a fence of at least the same length."""
    lines = []
    for line in markdown.split("\n"):
        for _ in range(depth):
            if line.startswith("> "):
                line = line[2:]
            elif line.startswith(">"):
                line = line[1:]
            else:
                line = None
                break
        lines.append(line)
    out, i = [], 0
    while i < len(lines):
        line = lines[i]
        i += 1
        if line is None:
            continue
        rest = line.lstrip(" ")
        while True:
            head, _, tail = rest.partition(" ")
            if tail and (head == "-" or head[:-1].isdigit() and head.endswith(".")):
                rest = tail.lstrip(" ")
            else:
                break
        n = len(rest) - len(rest.lstrip("`"))
        if n < 3 or "`" in rest[n:]:
            continue
        lang, code = rest[n:], []
        while i < len(lines):
            line = lines[i]
            i += 1
            if line is None:
                raise Bad("a code block is not closed within its quote: %r" % markdown)
            s = line.strip(" ")
            if len(s) >= n and set(s) == {"`"}:
                indent = len(line) - len(line.lstrip(" "))
                out.append((lang, "\n".join(c[indent:] if c[:indent].strip(" ") == "" else c for c in code)))
                break
            code.append(line)
        else:
            raise Bad("a code block is not closed: %r" % markdown)
    return out


def check_alone(c, ctx):
    got = md(parse(c, ctx), ctx)
    code = code_of(c)
    lang = (c.get("attrs") or {}).get("language")
    lang = lang if isinstance(lang, str) and lang != "none" else ""
    run = max([len(r) for r in __import__("re").findall("`+", code)] or [0])
    n = len(got) - len(got.lstrip("`"))
    if n < 3 or n <= run:
        raise Bad("fence of %d backticks around code with a run of %d: %r" % (n, run, got))
    want = "`" * n + lang + "\n" + code + "\n" + "`" * n
    if got != want:
        raise Bad("code block\n got  %r\n want %r" % (got, want))
    if n != max(3, run + 1):
        raise Bad("fence of %d backticks instead of %d: %r" % (n, max(3, run + 1), got))
    ctx.outcome(got)
    return lang, code


# ----------------------------------------------------------------- where it stands
def li(*c):
    return mk("listItem", *c)


PLACES = {
    "document": (0, lambda c: doc(c)),
    "between paragraphs": (0, lambda c: doc(para("before"), c, para("after"))),
    "twice": (0, lambda c: doc(c, copy.deepcopy(c))),
    "quote": (1, lambda c: doc(mk("blockquote", c))),
    "in a quote between others": (1, lambda c: doc(para("x"), mk("blockquote", para("a"), c, para("b"), copy.deepcopy(c)), para("y"))),
    "panel": (1, lambda c: doc(mk("panel", c))),
    "in a panel between others": (1, lambda c: doc(mk("panel", para("a"), c, mk("rule"), copy.deepcopy(c)))),
    "expand": (0, lambda c: doc(mk("expand", c))),
    "nested expand": (0, lambda c: doc(mk("expand", para("a"), mk("nestedExpand", para("b"), c, para("d")), c))),
    "quote in an expand": (1, lambda c: doc(mk("expand", para("a"), mk("blockquote", c, para("b"))))),
    "panel in a nested expand": (1, lambda c: doc(mk("expand", mk("nestedExpand", mk("panel", para("a"), c), mk("rule"))))),
    "bullet item": (0, lambda c: doc(mk("bulletList", li(c)))),
    "second in a bullet item": (0, lambda c: doc(mk("bulletList", li(para("a"), c, para("b")), li(c)))),
    "ordered item": (0, lambda c: doc(mk("orderedList", li(c), li(para("z")), order=9))),
    "nested item": (0, lambda c: doc(mk("bulletList", li(para("a"), mk("orderedList", li(para("b"), c), li(c)))))),
    "list in a quote": (1, lambda c: doc(mk("blockquote", mk("bulletList", li(para("a"), c))))),
    "list in a panel": (1, lambda c: doc(mk("panel", mk("orderedList", li(c), li(para("a"), c))))),
    "after empty blocks": (0, lambda c: doc(para(), para(), c, para(), mk("rule"), para(), c)),
    "after other code": (0, lambda c: doc(mk("codeBlock", text("first\n\n\n\nlines"), language="x"), c, mk("heading", text("h")))),
    "deep first": (0, lambda c: doc(mk("bulletList", li(mk("bulletList", li(mk("orderedList", li(c)))))))),
}
NAMES = list(PLACES)


def count_code(n):
    return [m for m in adf.walk(n) if m["type"] == "codeBlock"]


def check_place(c, name, ctx):
    depth, make = PLACES[name]
    d = make(copy.deepcopy(c))
    got = check_markdown(d, ctx, name)
    want = []
    for m in count_code(d):
        lang = (m.get("attrs") or {}).get("language")
        want.append((lang if isinstance(lang, str) and lang != "none" else "", code_of(m)))
    found = read_blocks(got, depth)
    if found != want:
        raise Bad("%s: the code reads back as %r instead of %r; Markdown %r" % (name, found, want, got))


# ------------------------------------------------------------------------- texts
WIDE = ["a", "\n", "`", " ", ">", "|", "-"]
NARROW = ["a", "\n", "`"]
ODD = ["\n" * k for k in range(1, 9)] + ["a" + "\n" * k + "b" for k in range(1, 9)] + ["`" * k for k in range(1, 9)] + [
    "a\n" + "`" * k + "\nb" for k in range(1, 7)] + ["```python\nx\n```", "~~~\na\n~~~", "    indented\n\tTab\n  two  ", "trailing   \nspaces \n", "> quoted\n> > twice",
    "- item\n1. one\n* star", "# heading", "a\r\nb\r\n", "\u2028x\u2029y\u0085z", "\x0bform\x0cfeed\x1c", "é𝄞\u200b\ufeff", "<script>&amp;", "$$\\frac{1}{2}$$", "\\1 \\g<1> %s {0}",
    "[l](u) **b** `c`", "| a | b |\n| --- | --- |", "---", "\t", "\u00a0", "  \n  \n  \n", "a\n \n \n \nb", "a\n\t\n\t\nb", "x" * 3000, "\n".join(str(i) for i in range(200)),
    "`` ` ```", "- ```\nx\n```\n- y", "    ```\n    x\n    ```", "``` \n\n\n\n```", "\n\n\n```\n\n\n\n", "None", "0", "\n```", "```\n", "`\n``\n```\n````", "a`", "`a", "> ```\n> x\n> ```"]
LANGS = ["absent", None, "none", "", "python", "c++", "None", "text", "NONE", "objective-c", "x y", "0", "none:x", "nonesuch", "none x", "x none", "non", " none", "none ", "python:none", "none,python"]


def text_cases(tier):
    seen = set()
    n1, n2 = (6, 9) if tier == "quick" else (7, 11)
    for letters, n in ((WIDE, n1), (NARROW, n2)):
        for k in range(0, n + 1):
            for s in itertools.product(letters, repeat=k):
                s = "".join(s)
                if s not in seen:
                    seen.add(s)
                    yield s
    yield from ODD


def run_texts(s, ctx):
    c = mk("codeBlock", text(s), language="python")
    check_alone(c, ctx)
    k = len(s) + sum(map(ord, s[-2:]))
    for i in range(2):
        check_place(c, NAMES[(k + 7 * i) % len(NAMES)], ctx)


def place_cases(tier):
    seen = set()
    for letters, n in ((WIDE, 3 if tier == "quick" else 4), (NARROW, 5 if tier == "quick" else 7)):
        for k in range(0, n + 1):
            for s in itertools.product(letters, repeat=k):
                s = "".join(s)
                if s not in seen:
                    seen.add(s)
                    for name in NAMES:
                        yield [s, name]
    for s in ODD:
        for name in NAMES:
            yield [s, name]


def run_places(case, ctx):
    s, name = case
    check_place(mk("codeBlock", text(s)), name, ctx)


# the languages of the editor, their Markdown names, and names that one might treat alike
MORE_LANGS = """abap actionscript ada apl applescript arduino asm autoit bash bat batch bsl c c# c++ clojure cobol coffee coffeescript coldfusion cpp crystal cs csharp css cuda cython
 d dart delphi diff docker dockerfile elixir elm erlang f# fortran foxpro freemarker fsharp gherkin go golang graphql groovy handlebars haskell haxe hcl hlsl html http idl ini io j java javafx javascript jinja
 jinja2 js json jsx julia kotlin kt latex less lex lisp livescript logtalk lua make makefile markdown mathematica matlab md nginx nim nohighlight objc objective-c objective-j objectivec objectpascal ocaml octave
 pas pascal patch perl pgsql php pl plain plain_text plaintext powershell prolog properties protobuf ps1 puppet py python py3 python3 qml r racket rb rbs restructuredtext rs rst ruby rust sass scala scheme scss sh
 shell shell-session smalltalk splunk-spl sql standardml swift tcl terraform tex text textile toml ts tsx tex turtle twig typescript txt vala vb vba vbnet verilog vhdl vim visualbasic visual-basic vue xml
 xquery xsl yaml yml zsh NONE None null undefined auto other unknown Python PYTHON Shell Text console output log mermaid csv""".split()


def all_lang_cases(tier):
    for l in MORE_LANGS:
        yield l


def run_all_lang(l, ctx):
    for s in ("a", "a\n\n\n\nb", "```"):
        c = mk("codeBlock", text(s), language=l)
        check_alone(c, ctx)
        check_place(c, "between paragraphs", ctx)
        check_place(c, "panel", ctx)
        check_place(c, "second in a bullet item", ctx)


def lang_cases(tier):
    for i in range(len(LANGS)):
        for s in ("a", "", "a\n\n\n\nb", "```", "`\n```` x"):
            for extra in range(4):
                yield [i, s, extra]


def run_lang(case, ctx):
    i, s, extra = case
    a = {}
    if LANGS[i] != "absent":
        a["language"] = LANGS[i]
    if extra & 1:
        a["uniqueId"] = "u"
    if extra & 2:
        a["localId"] = ""
    c = {"type": "codeBlock", "content": [text(s)]}
    if a or extra == 3:
        c["attrs"] = a
    check_alone(c, ctx)
    for name in NAMES:
        check_place(c, name, ctx)


# several text nodes in one block, and no text at all
PARTS = ["a", "\n", "``", "`", "", " ", "\n\n"]


def part_cases(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        for p in itertools.product(range(len(PARTS)), repeat=n):
            yield list(p)
    yield "absent"


def run_parts(case, ctx):
    c = mk("codeBlock", language="python")
    if case != "absent":
        c["content"] = [text(PARTS[i]) for i in case]
    check_alone(c, ctx)
    for name in NAMES[: 6 if case != "absent" else None]:
        check_place(c, name, ctx)


# other blocks between and around code blocks
OTHERS = [para("p"), para(), mk("heading", text("h")), mk("rule"), mk("bulletList", li(para("i"), mk("codeBlock", text("q\n\n\n\nr")))), mk("table", mk("tableRow", mk("tableCell", para("t")))),
          mk("codeBlock", text("\n\n\n")), mk("codeBlock", text("```\n\n\n\n"), language="y"), mk("panel", para("x"), mk("codeBlock", text("m\n\n\n\nn"))), mk("codeBlock"), para(text("c", "code")), para("`` x")]


def neighbour_cases(tier):
    for n in (1, 2, 3):
        for c in itertools.product(range(len(OTHERS)), repeat=n):
            yield list(c)


def run_neighbours(case, ctx):
    d = doc(*[copy.deepcopy(OTHERS[i]) for i in case])
    check_markdown(d, ctx)
    check_markdown(doc(mk("expand", *[copy.deepcopy(OTHERS[i]) for i in case])), ctx)


# ---- every character and every length of text
TEXT_AT = [lambda s: doc(para("a"), mk("codeBlock", text(s), language="python"), para("b")), lambda s: doc(mk("bulletList", mk("listItem", para("a"), mk("codeBlock", text(s)))), mk("blockquote", mk("codeBlock", text(s))))]


def families():
    return [
        Family("texts", text_cases, run_texts, "every code text over the alphabets up to the length: alone and in two places each"),
        Family("places", place_cases, run_places, "every shorter text in every place, read back"),
        Family("languages", lang_cases, run_lang, "every language value and every other attribute"),
        Family("more languages", all_lang_cases, run_all_lang, "every language name of the editor, and names treated alike elsewhere"),
        Family("parts", part_cases, run_parts, "every sequence of text nodes in a block"),
        Family("neighbours", neighbour_cases, run_neighbours, "every sequence of up to 3 blocks around code"),
    ] + deco.families(deco.exact, deco.rich("code"), deco.small("code"), "asit") + [deco.characters(TEXT_AT, deco.exact), deco.lengths(TEXT_AT, deco.exact)] + [deco.sizes(deco.exact, ["codeBlock"], top=5001)] + [deco.related(deco.exact, ["code"]), deco.constants(deco.exact, texts=["code", "code in an item"], only=lambda n: n.startswith("codeBlock"), skip=lambda s: False)]
