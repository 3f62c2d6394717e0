"""The Atlassian Document Format as this library documents it: which fields each
element has, which of them are required, what may stand inside what, and small
value alphabets.  Written by hand; nothing here is read from the code."""
import copy

# ------------------------------------------------------------------ alphabets
S = ["x", "", "é\u2028", "a|b", "0"]          # strings
FREE = [                                      # free-form JSON values
    {"k": 1},
    {},
    {"type": "paragraph", "content": [{"type": "nope"}], "attrs": {"u": None}, "marks": [[]]},
    {"a": [{"b": [1, {"c": []}]}], "n": None, "f": False, "z": 0, "s": ""},
    [],
    None,
]
NUM = [760, 0, 33.5, -1]
BOOL = [True, False]
INTS = [3, 0, -1]
LIST = [[120, 0], []]
STR_OPT = ["x", "", None, "y z"]

ID = STR_OPT

# ----------------------------------------------------------------------- marks
# name -> (required attrs, optional attrs); None when the mark has no attrs
MARKS = {
    "alignment": ({"align": ["center", "end"]}, {}),
    "annotation": ({"id": S, "annotationType": ["inlineComment"]}, {}),
    "backgroundColor": ({"color": ["#fff", ""]}, {}),
    "border": ({"size": [1, 0, 3], "color": ["#091e4224", ""]}, {}),
    "breakout": ({"mode": ["wide", "full-width"]}, {"width": NUM}),
    "code": None,
    "dataConsumer": ({"sources": [["s1"], [], ["a", "b"]]}, {}),
    "em": None,
    "fragment": ({"localId": S}, {"name": STR_OPT}),
    "indentation": ({"level": [1, 2, 6]}, {}),
    "link": ({"href": ["http://h", "", "a b", "x)y"]},
             {"title": ["Title", "", None, "a|b"], "id": STR_OPT, "collection": STR_OPT, "occurrenceKey": STR_OPT}),
    "strike": None,
    "strong": None,
    "subsup": ({"type": ["sub", "sup"]}, {}),
    "textColor": ({"color": ["#fff", ""]}, {}),
    "underline": None,
}
TEXT_MARKS = ["strong", "em", "strike", "code", "link", "subsup", "textColor", "underline",
              "annotation", "backgroundColor"]
PLAIN_MARKS = ["alignment", "annotation", "backgroundColor", "border", "breakout", "dataConsumer",
               "fragment", "subsup", "textColor", "underline"]

# ----------------------------------------------------------------------- nodes
INLINE = ["text", "date", "emoji", "hardBreak", "inlineCard", "mention", "status", "mediaInline"]
DOC = ["paragraph", "heading", "bulletList", "orderedList", "taskList", "decisionList", "codeBlock",
       "blockquote", "panel", "table", "expand", "rule", "mediaSingle", "mediaGroup", "blockCard",
       "embedCard", "extension"]
CELL = ["paragraph", "panel", "blockquote", "orderedList", "bulletList", "rule", "heading", "codeBlock",
        "mediaSingle", "mediaGroup", "decisionList", "taskList", "blockCard", "embedCard", "extension",
        "nestedExpand"]


class N:
    def __init__(self, attrs=None, content=None, children=(), marks=None, fields=None):
        """attrs: None or (required?, required attrs, optional attrs)
        content: None, 'req' or 'opt'; marks: None or list of mark types"""
        self.attrs, self.content, self.children = attrs, content, list(children)
        self.marks, self.fields = marks, fields or {}


_id = {"localId": ID}
NODES = {
    "doc": N(content="req", children=DOC, fields={"version": [1]}),
    "text": N(fields={"text": S + [" ", "a\nb"]}, marks=TEXT_MARKS),
    "paragraph": N((False, {}, _id), "opt", INLINE, ["alignment", "indentation"]),
    "heading": N((True, {"level": [1, 2, 3, 4, 5, 6]}, _id), "opt", INLINE, ["alignment", "indentation"]),
    "bulletList": N(None, "req", ["listItem"]),
    "orderedList": N((False, {}, {"order": [1, 0, 5, None, 99], "localId": ID}), "req", ["listItem"]),
    "listItem": N((False, {}, _id), "req",
                  ["paragraph", "codeBlock", "bulletList", "orderedList", "taskList", "mediaSingle", "extension"]),
    "taskList": N((True, {"localId": S}, {}), "req", ["taskItem", "taskList"]),
    "taskItem": N((True, {"localId": S, "state": ["TODO", "DONE"]}, {}), "opt", INLINE),
    "decisionList": N((True, {"localId": S}, {}), "req", ["decisionItem"]),
    "decisionItem": N((True, {"localId": S, "state": ["DECIDED", ""]}, {}), "opt", INLINE),
    "codeBlock": N((False, {}, {"language": ["python", "none", "", None, "c++"], "uniqueId": STR_OPT, "localId": ID}),
                   "opt", ["text"]),
    "blockquote": N((False, {}, _id), "req",
                    ["paragraph", "orderedList", "bulletList", "codeBlock", "mediaSingle", "mediaGroup", "extension"]),
    "panel": N((True, {"panelType": ["info", "custom", "note"]},
                {"panelIcon": STR_OPT, "panelIconId": STR_OPT, "panelIconText": STR_OPT,
                 "panelColor": STR_OPT, "localId": ID}), "req",
               ["paragraph", "heading", "bulletList", "orderedList", "blockCard", "mediaGroup", "mediaSingle",
                "codeBlock", "taskList", "rule", "decisionList", "extension"]),
    "expand": N((False, {}, {"title": STR_OPT, "localId": ID}), "req",
                [c for c in DOC if c != "expand"] + ["nestedExpand"]),
    "nestedExpand": N((True, {}, {"title": STR_OPT, "localId": ID}), "req",
                      ["paragraph", "heading", "mediaSingle", "mediaGroup", "codeBlock", "bulletList",
                       "orderedList", "taskList", "decisionList", "rule", "panel", "blockquote", "extension"]),
    "table": N((False, {}, {"displayMode": ["default", "fixed"], "isNumberColumnEnabled": BOOL,
                            "layout": ["center", "wide"], "localId": ID, "width": NUM}),
               "req", ["tableRow"], ["fragment"]),
    "tableRow": N((False, {}, _id), "req", ["tableCell", "tableHeader"]),
    "tableCell": N((False, {}, {"colspan": [1, 2, 0], "rowspan": [1, 3], "colwidth": LIST,
                                "background": STR_OPT, "localId": ID}), "req", CELL),
    "tableHeader": N((False, {}, {"colspan": [1, 2, 0], "rowspan": [1, 3], "colwidth": LIST,
                                  "background": STR_OPT, "localId": ID}), "req", CELL),
    "rule": N((False, {}, _id)),
    "hardBreak": N((False, {}, {"text": ["\n", ""], "localId": ID})),
    "date": N((True, {"timestamp": ["1700000000000", "0", "-1"]}, _id)),
    "emoji": N((True, {"shortName": [":smile:", ""]}, {"id": STR_OPT, "text": ["😀", "", None], "localId": ID})),
    "mention": N((True, {"id": S}, {"localId": ID, "text": ["@Ann", "", None], "accessLevel": ["NONE", ""],
                                    "userType": ["DEFAULT", "APP"]})),
    "status": N((True, {"text": ["DONE", "", "a|b"], "color": ["green", "neutral"]},
                 {"localId": ID, "style": STR_OPT})),
    "inlineCard": N((True, {}, {"url": ["http://u", ""], "data": FREE, "localId": ID})),
    "blockCard": N((True, {}, {"url": ["http://u", ""], "localId": ID,
                               "datasource": [{"id": "d", "parameters": {"a": [1]}, "views": [{"type": "table", "properties": {}}]}, {}],
                               "width": NUM, "layout": STR_OPT, "data": FREE})),
    "embedCard": N((True, {"url": ["http://u", ""], "layout": ["wide", "center"]},
                    {"width": NUM, "originalHeight": NUM, "originalWidth": NUM, "localId": ID})),
    "extension": N((True, {"extensionKey": ["toc", ""], "extensionType": ["com.x", ""]},
                    {"parameters": FREE, "text": ["t", "", None], "layout": STR_OPT, "localId": ID}),
                   marks=["fragment", "dataConsumer"]),
    "media": N((True, {"type": ["file", "external", "link"]},
                {"id": ["m1", "", "z"], "collection": STR_OPT, "url": ["http://m", ""], "localId": ID,
                 "alt": ["alt", "", None], "width": [1, 0], "height": [1, 0], "occurrenceKey": STR_OPT}),
               marks=["link", "annotation", "border"]),
    "mediaGroup": N(None, "req", ["media"]),
    "mediaSingle": N((False, {}, {"layout": ["center", "wide"], "width": NUM, "widthType": ["pixel", "percentage"],
                                  "localId": ID}), "opt", ["media", "caption"], ["link"]),
    "mediaInline": N((True, {"id": S, "collection": S},
                      {"type": ["file", "link", "image"], "localId": ID, "alt": STR_OPT, "occurrenceKey": STR_OPT,
                       "width": [1, 0], "height": [1, 0], "data": FREE}),
                     marks=["link", "annotation", "border"]),
    "caption": N((False, {}, _id), "opt",
                 ["hardBreak", "mention", "emoji", "date", "inlineCard", "status", "text"]),
}
assert len(NODES) == 35 and len(MARKS) == 16

UNSUPPORTED_NODES = ["layoutSection", "layoutColumn", "bodiedExtension", "inlineExtension", "placeholder",
                     "blockTaskItem", "syncBlock", "bodiedSyncBlock", "unknownThing", "", "Paragraph",
                     "paragraph ", "strong", "dataConsumer", "fragment", "link", "file", "image", "sub", "0"]
UNSUPPORTED_MARKS = ["confluenceInlineComment", "fontSize", "unknownMark", "", "Strong", "strong ", "paragraph",
                     "sub", "text", "highlight", "typeAheadQuery"]


def class_name(t, mark=False):
    return ("Mark" if mark else "Node") + t[0].upper() + t[1:]


# --------------------------------------------------------------- element makers
def mk_mark(t, full=False, **over):
    spec = MARKS[t]
    m = {"type": t}
    if spec is not None:
        a = {k: copy.deepcopy(v[0]) for k, v in spec[0].items()}
        if full:
            a.update({k: copy.deepcopy(v[0]) for k, v in spec[1].items()})
        a.update(over)
        m["attrs"] = a
    return m


# attributes without which the element would be unusable, although every one of them is optional
NEEDED = {"inlineCard": {"url": "http://u"}, "blockCard": {"url": "http://u"},
          "media": {"id": "m1", "collection": "c"}}


def mk(t, *content, full=False, marks=None, **attrs):
    """A node of type t with the given children; the required fields are filled in."""
    spec = NODES[t]
    n = {"type": t}
    for k, v in spec.fields.items():
        n[k] = attrs.pop(k, v[0])
    if spec.attrs is not None:
        req, ra, oa = spec.attrs
        a = {k: copy.deepcopy(v[0]) for k, v in ra.items()}
        a.update(NEEDED.get(t, {}))
        if full:
            a.update({k: copy.deepcopy(v[0]) for k, v in oa.items()})
        a.update(attrs)
        if a or req or full:
            n["attrs"] = a
    elif attrs:
        raise ValueError((t, attrs))
    if spec.content is not None and (content or spec.content == "req"):
        n["content"] = list(content)
    if marks is not None:
        n["marks"] = list(marks)
    elif full and spec.marks:
        n["marks"] = [mk_mark(m, full=True) for m in spec.marks if m not in ("code",)]
    return n


def text(s, *marks):
    n = {"type": "text", "text": s}
    if marks:
        n["marks"] = [mk_mark(m) if isinstance(m, str) else m for m in marks]
    return n


def para(*c, **k):
    return mk("paragraph", *[text(x) if isinstance(x, str) else x for x in c], **k)


def doc(*c):
    return {"type": "doc", "version": 1, "content": list(c)}


# children that make an element say something, so that it is not empty
def typical(t, full=False, budget=None):
    """A small non-empty element of type t."""
    f = dict(full=full)
    if t == "doc":
        return mk("doc", typical("paragraph", full), **f)
    if t == "text":
        return mk("text", text="w", **f)
    if t in ("paragraph", "heading", "taskItem", "decisionItem", "caption", "codeBlock"):
        return mk(t, text("w"), **f)
    if t in ("bulletList", "orderedList"):
        return mk(t, typical("listItem", full), **f)
    if t in ("listItem", "blockquote", "panel", "expand", "nestedExpand", "tableCell", "tableHeader"):
        return mk(t, typical("paragraph", full), **f)
    if t == "taskList":
        return mk(t, typical("taskItem", full), **f)
    if t == "decisionList":
        return mk(t, typical("decisionItem", full), **f)
    if t == "table":
        return mk(t, typical("tableRow", full), **f)
    if t == "tableRow":
        return mk(t, typical("tableHeader", full), typical("tableCell", full), **f)
    if t in ("mediaGroup", "mediaSingle"):
        return mk(t, typical("media", full), **f)
    return mk(t, **f)


# one way to reach every type from the document root
PATH = {"doc": []}
_todo = ["doc"]
while _todo:
    _t = _todo.pop(0)
    for _c in NODES[_t].children:
        if _c not in PATH:
            PATH[_c] = PATH[_t] + [_t]
            _todo.append(_c)
assert set(PATH) == set(NODES), set(NODES) - set(PATH)


def embed(node, path=None):
    """A document that contains the node at the place its type first becomes legal."""
    for t in reversed(PATH[node["type"]] if path is None else path):
        if t == "doc":
            node = doc(node)
        else:
            node = mk(t, node)
    return node


def walk(n):
    """Every node of a document, in document order."""
    yield n
    for c in n.get("content") or []:
        yield from walk(c)


def label(n):
    """Give every text-bearing element its own token, in document order (in place)."""
    k = 0
    for m in walk(n):
        t = m["type"]
        k += 1
        tok = "w%d" % k
        a = m.get("attrs")
        if t == "text":
            m["text"] = tok
        elif t == "mention":
            a["text"] = "@" + tok
        elif t == "emoji":
            a["shortName"] = ":" + tok + ":"
        elif t == "status":
            a["text"] = tok
        elif t in ("inlineCard", "blockCard", "embedCard"):
            if isinstance(a.get("url"), str):
                a["url"] = "http://" + tok
        elif t == "media":
            a["id"] = tok
            if "url" in a:
                a["url"] = "http://" + tok
        elif t == "extension":
            a["extensionKey"] = tok
    return n
