"""Reference model of the library, written from the properties, over plain dicts.

It never imports the code under test.  ``markdown(doc)`` gives the Markdown a
valid document has to produce, with two private marker characters in it:

- CODE_NL stands for a line break inside a code block: it is a line break for
  everything that works on lines, but it is never collapsed;
- CONT stands at the start of a continuation line of a list item: how such a
  line is indented is left open (see ``same``).
"""
import re

CODE_NL = "\ue000"
CONT = "\ue001"


class CannotRender(Exception):
    """The element has no Markdown rendering."""


# ---------------------------------------------------------------- text helpers
def collapse(s):
    out, run = [], 0
    for ch in s:
        if ch == "\n":
            run += 1
            if run > 2:
                continue
        else:
            run = 0
        out.append(ch)
    return "".join(out)


def quote_lines(s):
    """'> ' in front of every line; a line ends at a line feed, or at a lone carriage return."""
    out, at_start = [], True
    for i, ch in enumerate(s):
        if at_start:
            out.append("> ")
        out.append(ch)
        at_start = ch in ("\n", CODE_NL) or ch == "\r" and s[i + 1:i + 2] not in ("\n", CODE_NL)
    return "".join(out)


def blank(s):
    return s.strip() == ""


# ------------------------------------------------------------------- elements
def apply_mark(mark, s):
    t = mark["type"]
    if t == "strong":
        return s if blank(s) else "**" + s + "**"
    if t == "em":
        return s if blank(s) else "*" + s + "*"
    if t == "strike":
        return s if blank(s) else "~~" + s + "~~"
    if t == "code":
        if "\n" in s:
            raise CannotRender("inline code over several lines")
        return s if blank(s) else "`` " + s + " ``"
    if t == "link":
        title = mark["attrs"].get("title")
        label = title if isinstance(title, str) and title != "" else s
        return "[" + label + "](" + mark["attrs"]["href"] + ")"
    if t == "indentation":
        return "\t" * mark["attrs"]["level"] + s
    return s


def apply_marks(node, s):
    for m in node.get("marks") or []:
        s = apply_mark(m, s)
    return s


def civil(ms):
    """ISO date of a millisecond timestamp (proleptic Gregorian, integer arithmetic)."""
    days = ms // 86400000
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    if m <= 2:
        y += 1
    return "%04d-%02d-%02d" % (y, m, d)


FIRST_MS, LAST_MS = -62135596800000, 253402300799999


def a_str(attrs, name):
    v = (attrs or {}).get(name)
    return v if isinstance(v, str) else None


def r_media(n):
    a = n["attrs"]
    alt = a_str(a, "alt")
    if alt is None:
        alt = "media"
    if a["type"] == "external" and a_str(a, "url") is not None:
        return apply_marks(n, "![" + alt + "](" + a["url"] + ")")
    if a["type"] == "file":
        return apply_marks(n, "![" + alt + "](media:" + str(a["id"]) + ")")
    if a["type"] == "link":
        return "[media]"
    raise CannotRender("media")


def r_leaf(n):
    t, a = n["type"], n.get("attrs")
    if t == "text":
        return apply_marks(n, n["text"])
    if t == "hardBreak":
        return "  \n"
    if t == "mention":
        s = a_str(a, "text")
        return "@Unknown" if s is None else s
    if t == "emoji":
        s = a_str(a, "text")
        return a["shortName"] if s is None else s
    if t == "status":
        return "`" + a["text"] + "`"
    if t == "date":
        try:
            ms = int(a["timestamp"])
        except (ValueError, TypeError):
            raise CannotRender("date")
        except OverflowError:
            raise CannotRender("date")
        if not FIRST_MS <= ms <= LAST_MS:
            raise CannotRender("date outside the years 1 to 9999")
        return civil(ms)
    if t == "inlineCard":
        if a_str(a, "url") is None:
            raise CannotRender("inlineCard")
        return "[" + a["url"] + "](" + a["url"] + ")"
    if t in ("blockCard", "embedCard"):
        if a_str(a, "url") is None:
            raise CannotRender("blockCard")
        return "\n[" + a["url"] + "](" + a["url"] + ")\n"
    if t == "rule":
        return "\n\n---\n\n"
    if t == "media":
        return r_media(n)
    if t == "extension":
        s = a_str(a, "text")
        if s:
            return "[Extension: " + a["extensionKey"] + "] " + s
        return "[Extension: " + a["extensionType"] + "/" + a["extensionKey"] + "]"
    if t in ("caption", "mediaGroup", "mediaInline"):
        return ""
    raise KeyError(t)


def kids(n):
    return n.get("content") or []


def inline(n):
    return "".join(render(c) for c in kids(n))


LISTS = ("bulletList", "orderedList", "taskList")
PADDED = LISTS + ("codeBlock", "decisionList", "table", "mediaSingle", "extension")


def blocks(n):
    parts = []
    for c in kids(n):
        s = render(c)
        parts.append("\n" + s + "\n" if c["type"] in PADDED else s)
    return collapse("\n".join(parts))


def code_block(n):
    code = "".join(apply_marks(c, c["text"]) for c in kids(n))
    lang = a_str(n.get("attrs"), "language") or ""
    if lang == "none":
        lang = ""
    longest = max([len(x) for x in re.findall("`+", code)] or [0])
    fence = "`" * max(3, longest + 1)
    return (fence + lang + "\n" + code + "\n" + fence).replace("\n", CODE_NL)


def as_continuation(s, also_first):
    """Mark the lines of a list item's own content that follow its first line."""
    out = []
    for i, tok in enumerate(re.split("([\n%s])" % CODE_NL, s)):
        if i % 2 == 0 and (i > 0 or also_first) and tok != "":
            tok = CONT + tok
        out.append(tok)
    return "".join(out)


def item_text(item, level):
    parts = []
    for i, c in enumerate(kids(item)):
        if c["type"] in LISTS:
            parts.append(render(c, level + 1))
        else:
            parts.append(as_continuation(render(c).rstrip(), i > 0))
    return "\n".join(parts)


def a_list(n, level):
    t = n["type"]
    pad = " " * (4 * level)
    lines = []
    number = (n.get("attrs") or {}).get("order")
    if not isinstance(number, int):
        number = 1
    for c in kids(n):
        if c["type"] == "taskList" and t == "taskList":
            lines.append(a_list(c, level + 1))
        elif c["type"] == "taskItem" and t == "taskList":
            box = "[x]" if c["attrs"]["state"] == "DONE" else "[ ]"
            lines.append(pad + "- " + box + " " + as_continuation(inline(c).rstrip(), False))
        elif c["type"] == "listItem" and t == "bulletList":
            lines.append(pad + "- " + item_text(c, level))
        elif c["type"] == "listItem" and t == "orderedList":
            lines.append(pad + str(number) + ". " + item_text(c, level))
            number += 1
    return "\n".join(lines)


def decision_item(n):
    text = inline(n).rstrip()
    out, content, gap = [], 0, False
    for line in text.split("\n"):
        line = line.rstrip()
        if line:
            if gap and content > 1:
                out.append(">")
            out.append("> " + line)
            content += 1
            gap = False
        else:
            gap = True
    return "\n".join(out)


def cell(n):
    s = ""
    for c in kids(n):
        p = render(c)
        if s and p and not s.endswith("\n") and not p.startswith("\n"):
            s += "\n"
        s += p
    s = s.replace(CONT, "").replace(CODE_NL, "\n").replace("|", "\\|")
    lines = []
    for line in s.split("\n"):
        k = 0
        while k < len(line) and line[k] == " ":
            k += 1
        lines.append("&nbsp;" * k + line[k:])
    return "<br>".join(lines)


def table(n):
    lines, delimiter = [], False
    for row in kids(n):
        cells = [cell(c) for c in kids(row)]
        lines.append("| " + " | ".join(cells) + " |")
        if not delimiter and kids(row) and kids(row)[0]["type"] == "tableHeader":
            lines.append("| " + " | ".join(["---"] * len(cells)) + " |")
            delimiter = True
    return "\n".join(lines)


def render(n, level=0):
    t = n["type"]
    if t == "paragraph":
        return apply_marks(n, inline(n)) + "\n"
    if t == "heading":
        return "\n\n" + "#" * n["attrs"]["level"] + " " + inline(n) + "\n\n"
    if t == "codeBlock":
        return code_block(n)
    if t in LISTS:
        return a_list(n, level)
    if t in ("doc", "expand", "nestedExpand"):
        return blocks(n)
    if t == "blockquote":
        return quote_lines(blocks(n)) + "\n"
    if t == "panel":
        head = "**" + n["attrs"]["panelType"].upper() + "**"
        return quote_lines(collapse(head + "\n\n" + blocks(n))) + "\n"
    if t == "decisionList":
        return "\n\n".join(decision_item(c) for c in kids(n) if c["type"] == "decisionItem")
    if t == "decisionItem":
        return decision_item(n)
    if t in ("taskItem", "listItem", "mediaSingle"):
        return inline(n)
    if t == "table":
        return table(n)
    if t == "tableRow":
        return "| " + " | ".join(cell(c) for c in kids(n)) + " |"
    if t in ("tableCell", "tableHeader"):
        return cell(n)
    return r_leaf(n)


def plain(ref):
    """The reference text as ordinary text."""
    return ref.replace(CODE_NL, "\n").replace(CONT, "")


def same(got, ref, trim=True):
    """Does the Markdown agree with the reference?  Line breaks at the very
    start and end do not count (unless trim is off), and continuation lines of
    list items may be indented by any number of spaces."""
    if not isinstance(got, str):
        return False
    ref = ref.replace(CODE_NL, "\n")
    if trim:
        got, ref = got.strip("\n"), ref.strip("\n")
    if CONT not in ref:
        return got == ref
    if got == ref.replace(CONT, ""):
        return True
    gl, rl = got.split("\n"), ref.split("\n")
    if len(gl) != len(rl):
        return False
    for g, r in zip(gl, rl):
        if CONT in r:
            pre, rest = r.split(CONT, 1)
            rest = rest.replace(CONT, "")
            if not g.startswith(pre):
                return False
            g = g[len(pre):]
            if not (g.endswith(rest) and blank(g[: len(g) - len(rest)])):
                return False
        elif g != r:
            return False
    return True


# ------------------------------------------------- elements that cannot be rendered
def unrenderable(n):
    """Is this very element one that has no rendering (not: one of its children)?"""
    if n["type"] in ("text", "date", "inlineCard", "blockCard", "embedCard", "media"):
        try:
            r_leaf(n)
        except CannotRender:
            return True
    return False


HIDDEN = ("caption", "mediaGroup", "mediaInline")


def prune(n):
    """The document without the elements that cannot be rendered."""
    m = dict(n)
    if "content" in m:
        m["content"] = [prune(c) for c in m["content"] if not unrenderable(c)]
    return m


def fails(n):
    """Does rendering this element fail?"""
    if n["type"] in HIDDEN:
        return False
    return unrenderable(n) or any(fails(c) for c in kids(n))
