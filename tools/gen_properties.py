#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os

BASE = "atlas_doc_parser/mark_or_node.py"
HELP = "atlas_doc_parser/markdown_helpers.py"
PN = "atlas_doc_parser/nodes/parse_node.py"
PM = "atlas_doc_parser/marks/parse_mark.py"
N = lambda *a: ["atlas_doc_parser/nodes/node_%s.py" % x for x in a]
M = lambda *a: ["atlas_doc_parser/marks/mark_%s.py" % x for x in a]
mech = lambda *a: [{"name": n, "where": w} for n, w in a]

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": list(state), "mechanism": mechanism,
                    "observe_at": list(observe), "hook_needed": None},
    })


prop("C01", "Parsing then serialising reproduces the document exactly",
     "For every valid ADF document built from supported node and mark types with their documented fields, parsing it and turning the tree back into a dictionary gives a dictionary equal to the input, so every text, attribute (also falsy, empty or null ones), child, mark and their order survive. "
     "The result is plain JSON data, parsing it again gives an equal tree, and a tree built directly from the classes serialises to exactly the fields that were set (at least type and required ones).",
     ["inputs"], "every document over the documented schema: every node and mark type, every subset of optional fields, every value including falsy ones, every nesting and child order",
     "The tests round-trip about thirty sample files with one combination of optional fields each; they cannot cover the product of optional fields, values, orders and nestings.",
     [BASE, PN, PM], mech(("recursive from_dict of attrs, content and marks", BASE + ":BaseNode.from_dict"), ("recursive to_dict that drops unset optional fields", BASE + ":BaseNode.to_dict")),
     observe=["NodeDoc.from_dict(d).to_dict()", "parse_node", "parse_mark"])

prop("C02", "Unknown fields anywhere in the input are ignored",
     "Adding a field that the library does not know to any element of a valid document (a node, a mark or the attributes of either, at any depth) never raises. "
     "The parsed tree, its serialisation and its Markdown are then the same as without that field.",
     ["inputs"], "every valid document, every position (node, mark, attrs, at any depth) and every extra field name and value, also several at once",
     "The samples only contain the few unknown fields Confluence happened to send; tests do not place an unknown field at every position.",
     [BASE], mech(("only declared fields are passed to the constructor", BASE + ":Base.from_dict")),
     observe=["from_dict", "to_dict", "to_markdown"])

prop("C03", "Unsupported element types are skipped and nothing else changes",
     "A node or mark whose type string is not supported, wherever it occurs in content or marks, is left out together with everything inside it: the rest of the document parses, serialises and renders exactly as if that element had never been there. "
     "Parsing such an element on its own raises the exported unimplemented-type error, which names that type string and says whether a node or a mark was meant.",
     ["inputs"], "every document, every set of positions for unsupported nodes and marks, every unsupported type string (official or invented), with any payload",
     "The tests have one sample with two unsupported nodes; they do not place unsupported elements first, last, adjacent, nested, or as marks.",
     [BASE, PN, PM, "atlas_doc_parser/exc.py"], mech(("UnimplementedTypeError raised by the registries and caught per child", BASE + ":BaseNode.from_dict"), ("registry lookups", PN + ":parse_node")),
     observe=["from_dict", "parse_node", "parse_mark"])

prop("C04", "Exactly one warning per skipped element, switchable at any time",
     "While the warning setting is on, every unsupported element that is skipped logs exactly one warning on the library's logger, in document order, naming its type, and nothing else is logged. "
     "While it is off nothing is logged; changing the setting between two parses takes effect at once and never changes the parse result.",
     ["histories", "inputs"], "every sequence of parses and setting changes, every document and every number and position of unsupported elements",
     "A test checks one parse with one setting; it cannot cover repeated parses of the same types, toggles in between, or the count for each position.",
     [BASE, "atlas_doc_parser/settings.py", "atlas_doc_parser/logger.py"], mech(("the setting is read at each skip", BASE + ":BaseNode.from_dict")),
     state=[{"name": "WARN_UNIMPLEMENTED_TYPE", "meaning": "whether a skip is logged", "where": "atlas_doc_parser/settings.py"}],
     observe=["logging records of logger atlas_doc_parser"])

prop("C05", "A malformed supported element raises and is never silently dropped",
     "If a supported element anywhere in the document lacks one of its required fields, or a child element or mark lacks its type, parsing the document raises; it never returns a document with that element missing or half-built, and the unimplemented-type error is not what is raised. "
     "For a missing required field the error is the exported parameter error and its message names the field; this also holds when an instance is built directly.",
     ["inputs"], "every supported type, each of its required fields, at every position and depth of a document, alone or next to unsupported elements",
     "Tests only parse well-formed samples; whether an error deep in a tree propagates or is swallowed with the skipping of unsupported types is never exercised.",
     [BASE, "atlas_doc_parser/exc.py", PN], mech(("REQ sentinel validation at construction", "every node_*.py and mark_*.py"), ("only UnimplementedTypeError is caught", BASE + ":BaseNode.from_dict")),
     observe=["from_dict", "constructors"])

prop("C06", "Input, tree and output never share mutable data",
     "Parsing, serialising and rendering never modify the dictionary they are given nor the tree. "
     "Mutating any list or dictionary of the input after parsing, or of a serialisation result, never changes a parsed tree, another serialisation result or the input, and two parses of the same input share no mutable data.",
     ["inputs", "histories"], "every document and every mutable container in it (content, marks, attrs, nested free-form values), every order of parse, serialise, render and mutate",
     "Tests compare results once; they never mutate each container afterwards and look at the other holders.",
     [BASE], mech(("deep copy of the input at each element", BASE + ":BaseNode.from_dict"), ("recursive copies in serialisation", BASE + ":Base.to_dict")),
     observe=["id()-disjointness of containers", "effects of mutations"])

prop("C07", "Results never depend on what the library did before",
     "The outcome (tree, serialisation, Markdown, or the error) of parsing, building, serialising or rendering a document is the same whatever sequence of operations ran earlier in the process, including parses of other documents, failed parses and renders, setting changes and mutations of earlier inputs and results. "
     "In particular it does not depend on which type was used first.",
     ["histories"], "every sequence of library operations up to the stated depth, starting from a freshly imported library",
     "Each test runs in whatever order pytest picks, with one history; state leaking through caches, class attributes, default arguments or registries needs specific sequences.",
     [BASE, PN, PM], mech(("per-class field cache keyed by class", BASE + ":Base.get_fields"), ("lazy imports of the registries", BASE + ":BaseNode.from_dict")),
     state=[{"name": "_CLASS_FIELD", "meaning": "cache of dataclass fields per class", "where": BASE}],
     observe=["results of each operation"])

prop("C08", "Concurrent use from several threads gives the sequential results",
     "When several threads parse, serialise and render documents at the same time, on the same or on different trees and types, each call returns exactly what it returns when run alone, whatever the interleaving; no call fails or hangs because of another thread. "
     "This includes the very first use of the library in the process.",
     ["schedules"], "every interleaving of 2 to 3 threads up to a preemption bound, at every executed line of the library, from a cold start",
     "The tests are single-threaded.",
     [BASE, HELP], mech(("no shared mutable state besides an idempotent cache", BASE + ":_CLASS_FIELD"), ("lazy imports guarded by the import lock", BASE + ":BaseNode.from_dict")),
     state=[{"name": "_CLASS_FIELD", "meaning": "cache of dataclass fields per class", "where": BASE}],
     observe=["results of each thread's calls"])

prop("C09", "Every piece of text appears in the Markdown once, in document order",
     "Every visible text of a valid document (text runs, mentions, emojis, dates, statuses, card URLs, image references, extension labels, code) appears in the rendered Markdown exactly once and in document order, at any nesting. "
     "The only content left out is captions, media groups, inline media and the titles of expands; a link with a non-empty title shows the title instead of its text.",
     ["inputs"], "every valid document: every container, every number and order of children, every nesting",
     "Tests compare a handful of fixed documents; losing, duplicating or reordering a child needs particular combinations of containers, positions and counts.",
     [HELP] + N("bullet_list", "ordered_list", "task_list", "table", "table_row", "table_cell", "panel", "blockquote", "decision_item", "expand"),
     mech(("recursive concatenation of the children's renderings", HELP + ":content_to_markdown"), ("block joining", HELP + ":doc_content_to_markdown")),
     observe=["to_markdown()"])

prop("C10", "Inline formatting is rendered exactly by the marks, in their order",
     "A text run is rendered by applying its marks in the listed order: bold, italic, strike and inline code wrap it in their Markdown delimiters (leaving a whitespace-only run as it is), a link gives a Markdown link whose label is its non-empty title or else the text so far, and all other marks leave it unchanged. "
     "The text itself is reproduced character for character, adjacent runs are concatenated without anything in between, and only inline code over several lines is refused with an error.",
     ["inputs"], "every sequence of marks (all types except the paragraph's indentation, repeats included) up to the stated length on every text of the alphabet, in every inline container",
     "There are single-mark samples; combinations, orders, repeats and special texts (empty, blank, with line breaks or Markdown characters) are not tested.",
     [HELP] + M("strong", "em", "strike", "code", "link", "indentation", "underline") + N("text", "paragraph", "heading"),
     mech(("marks applied in sequence", HELP + ":add_style_to_markdown"), ("per-mark to_markdown", "atlas_doc_parser/marks/")),
     observe=["to_markdown()"])

prop("C11", "Lists keep item order, nesting, numbering and check state",
     "In a bullet, ordered or task list, every item starts one line, in order, with its marker: '- ', its number, or a checkbox that is ticked exactly for done tasks; ordered items count up by one from the list's start number, or from 1 when it has none. "
     "A list nested in a list of any kind has its item lines indented by four more spaces than its parent's, at any depth, and content after a nested list still belongs to its own item and order.",
     ["inputs"], "every list tree up to the stated size over the three list kinds, every mix of nesting, start number, number of items and item content",
     "Tests contain a few list samples of one kind; mixed nesting, deep nesting, two-digit numbering and unusual item contents are not covered.",
     N("bullet_list", "ordered_list", "task_list", "list_item", "task_item"), mech(("explicit level parameter passed to nested lists", "nodes/node_bullet_list.py:NodeBulletList.to_markdown")),
     observe=["to_markdown()"])

prop("C12", "A table is rendered as one well-formed Markdown table",
     "Every table row becomes exactly one line that starts and ends with a pipe and has one cell per cell of the row, whatever blocks a cell contains: line breaks in a cell become <br>, pipes in it are escaped, and leading spaces of a line become non-breaking spaces. "
     "Exactly one delimiter line, with as many columns as that row, follows the first row that starts with a header cell, and none is written when no row does.",
     ["inputs"], "every table up to the stated number of rows and columns with every pattern of header and data cells, and every cell content built from the block types allowed in a cell",
     "Tests contain a few tables with a header row; header columns, empty rows, pipes, multi-line cells and nested blocks in combination are not covered.",
     N("table", "table_row", "table_cell", "table_header") + [HELP], mech(("cell escaping", "nodes/node_table_cell.py"), ("delimiter after the header row", "nodes/node_table.py")),
     observe=["to_markdown()"])

prop("C13", "Code blocks are reproduced verbatim inside a proper fence",
     "A code block is rendered as an opening fence with its language (nothing for 'none' or no language), the code exactly as written including blank lines, indentation, trailing spaces and special characters, and a closing fence on its own line. "
     "The fence is longer than any run of backticks in the code, and the block reads back unchanged wherever it stands: in the document, in quotes, panels and expands (after removing the quote markers) and in list items.",
     ["inputs"], "every code text over the alphabet up to the stated length, every language, every container and neighbour",
     "Tests have one code sample; blank-line collapsing, prefixing and fences interact only for particular code texts and containers.",
     N("code_block", "panel", "blockquote", "expand", "bullet_list") + [HELP], mech(("fence construction", "nodes/node_code_block.py"), ("blank-line collapsing that leaves fences alone", HELP + ":strip_double_empty_line")),
     observe=["to_markdown()"])

prop("C14", "Ignoring errors drops exactly the parts that cannot be rendered",
     "Rendering with errors ignored never raises for a valid document and gives exactly the Markdown of the same document without the smallest elements that cannot be rendered (cards without URL, inline code over several lines, invalid media, dates with unusable timestamps), at any depth and in any container. "
     "Rendering without that option raises if and only if such an element is rendered somewhere; a document without such elements renders the same either way.",
     ["inputs", "fault_sequences"], "every document with every set of positions replaced by elements that cannot be rendered, in every container type and at every depth",
     "The branches that ignore errors are excluded from coverage; no test places a failing element in each container.",
     [HELP] + N("bullet_list", "ordered_list", "task_list", "table", "table_row", "decision_list"), mech(("ignore_error passed down and errors caught per child", HELP)),
     observe=["to_markdown(ignore_error=True)", "to_markdown()"])

prop("C15", "Blocks are separated by exactly one blank line",
     "The Markdown of a document (and of the content of an expand) is, apart from line breaks at its very start and end, the Markdown of its blocks in order, each without surrounding line breaks, with exactly one blank line between two blocks and nothing for blocks that render to nothing. "
     "Outside code blocks no two blank lines ever follow each other, however many empty blocks there are.",
     ["inputs"], "every sequence of blocks up to the stated length over all block types, and runs of empty blocks of every length up to the bound",
     "Tests fix a few documents; a missing or doubled separator depends on which two block types meet and on how many empty blocks stand in between.",
     [HELP] + N("doc", "expand", "nested_expand"), mech(("padding of blocks and collapsing of empty lines", HELP + ":doc_content_to_markdown")),
     observe=["to_markdown()"])

prop("C16", "Every line of a quote, panel or decision carries the quote marker",
     "The Markdown of a quote or panel is the Markdown of its content with '> ' in front of every line (blank ones included) and nothing else changed, at any nesting; a panel starts with its type in bold capitals and a blank line. "
     "Every line of a decision item starts with '>', carries the item's text in order with empty lines after the title dropped and repeated ones merged, and decisions are separated by one blank line.",
     ["inputs"], "every quote, panel and decision over the block and inline alphabet up to the stated size, nested up to the stated depth",
     "Tests have one sample each; unprefixed lines appear only for particular contents (blank lines, nested quotes, lists, unusual line separators).",
     N("blockquote", "panel", "decision_item", "decision_list"), mech(("line prefixing", "nodes/node_blockquote.py"), ("line loop", "nodes/node_decision_item.py")),
     observe=["to_markdown()"])

prop("C17", "Inline and media elements render to their documented text or fallback",
     "A mention shows its text or '@Unknown', an emoji its text or else its short name, a status its text as code, a card a link on its URL, an image its alternative text ('media' if absent) with its URL or 'media:' and its id, a line break two spaces and a newline, a rule '---', an extension its key and text or else type and key. "
     "This depends only on the fields named here, whichever other optional fields are present, and holds for every value of them, empty strings included, in every container.",
     ["inputs"], "every leaf element with every subset of its optional fields and every value of the alphabet, in every container that allows it",
     "Each leaf has one or two samples; the fallback choice depends on combinations of absent, empty and present fields.",
     N("mention", "emoji", "status", "inline_card", "block_card", "embed_card", "media", "media_single", "extension", "hard_break", "rule"), mech(("per-node to_markdown", "atlas_doc_parser/nodes/")),
     observe=["to_markdown()"])

prop("C18", "A date renders as the UTC calendar day of its timestamp",
     "For every timestamp in milliseconds within the years 1 to 9999, positive or negative, given as a string or a number, a date renders as the ISO calendar date (YYYY-MM-DD) of that instant in UTC. "
     "The result does not depend on the time zone of the machine.",
     ["inputs", "configurations"], "every day boundary of the range and the milliseconds around it, under several time zones",
     "Tests check one timestamp on one machine time zone; off-by-one errors show only near midnight, before 1970, on leap days or in other zones.",
     N("date"), mech(("conversion with an explicit UTC zone", "nodes/node_date.py:NodeDate.to_markdown")),
     observe=["to_markdown()"])

prop("C19", "Every supported type is registered, exported and handled consistently",
     "For each of the 35 node and 16 mark types, parsing a dictionary of that type gives an instance of that type's own exported class whose type string is the same, every exported node class can be rendered, and the exported class can be built and parsed directly with the same result. "
     "All public names are available from the public API module, and regenerating that module loses none of them.",
     ["inputs", "configurations"], "every supported type and every exported name, each imported and parsed first in a fresh process",
     "Tests import the names once in one order; a type missing from a registry, mapped to another class, or importable only after another module is not detected for every type.",
     ["atlas_doc_parser/api.py", "atlas_doc_parser/gen_code.py", "atlas_doc_parser/type_enum.py", PN, PM], mech(("type-to-class registries", PN), ("generated API module", "atlas_doc_parser/gen_code.py")),
     observe=["parse_node", "parse_mark", "atlas_doc_parser.api"])

prop("C20", "Presentation-only attributes never change the Markdown",
     "Attributes that only concern presentation or identity (local ids, layouts, widths, heights, colours, backgrounds, spans, panel icons, occurrence keys, collections, access levels, table display options, expand titles) and marks without a Markdown form (underline, colours, sub/superscript, annotation, alignment, border, breakout, fragment, data consumer) never change the rendered Markdown. "
     "This holds for any value of them, present or absent, on any element at any depth.",
     ["inputs"], "every element type, every subset of such attributes and marks and every value of the alphabet, in documents over all containers",
     "The samples carry one fixed combination; independence is a relation between pairs of documents that no example checks.",
     [HELP, BASE] + N("table_cell", "panel", "expand", "media_single"), mech(("renderers read only semantic fields", "atlas_doc_parser/nodes/"), ("default mark rendering returns the text unchanged", BASE + ":BaseMark.to_markdown")),
     observe=["to_markdown()"])

prop("C21", "Trees are immutable, compare by value and can be copied",
     "No attribute of a parsed or built node, mark or attribute object can be assigned or deleted. "
     "Two trees are equal exactly when their serialisations are equal, and a copy, deep copy or pickle of a tree is equal to it and serialises and renders the same.",
     ["inputs"], "every type, every field, every pair of documents of the enumerated universe",
     "Tests do not assign to fields or compare different trees; a class that loses immutability or an ignored field in comparison goes unnoticed.",
     [BASE], mech(("frozen dataclasses", "every node_*.py and mark_*.py"), ("identity-preserving sentinels for unset fields", BASE)),
     observe=["setattr/delattr", "==", "copy", "pickle"])

prop("C22", "Type predicates agree with the type strings",
     "Asking an element whether it is of a type, or of any of a list of types, is true exactly when its type string is that type's value or among them; an empty list gives false and asking changes nothing. "
     "The file, link and external predicates of media attributes are true exactly for the respective media type, and each type constant's value is its own name.",
     ["inputs"], "every element type against every type constant, every pair of constants as a list, and every media type",
     "Tests never query most combinations; a wrong predicate only shows for the type concerned.",
     [BASE, "atlas_doc_parser/type_enum.py"] + N("media"), mech(("string comparison with enum values", "atlas_doc_parser/type_enum.py:check_type_match")),
     observe=["is_type_of", "is_file_type", "is_link_type", "is_external_type", "TypeEnum"])

prop("C23", "Headings and paragraphs render their inline content exactly",
     "A heading renders as as many '#' as its level, a space and its inline content in order, set off by blank lines, for each level 1 to 6 and whatever marks or attributes it has. "
     "A paragraph renders as its inline content in order, preceded by one tab per indentation level when it has an indentation mark, and one line break; nothing else is added, removed or reordered.",
     ["inputs"], "every heading level and every sequence of inline elements up to the stated length, with every block mark",
     "Tests sample one heading and a few paragraphs; sequences of inline elements, empty content and block marks are not covered.",
     N("heading", "paragraph", "text") + M("indentation", "alignment") + [HELP], mech(("concatenation of inline children", HELP + ":content_to_markdown"), ("block marks on paragraphs", HELP + ":add_style_to_markdown")),
     observe=["to_markdown()"])

prop("C24", "Every valid document renders to a string, and always to the same one",
     "Rendering any valid document, of any size and nesting within ordinary limits, with any optional field absent, any content empty and any child allowed by the format, returns a string and never raises, except for cards without a URL, inline code over several lines and media without usable attributes. "
     "Rendering the same tree again, or a tree parsed from its serialisation, gives the same string, and always finishes promptly.",
     ["inputs"], "every parent-child combination of the format, every type with minimal, empty and full fields, chains up to the stated depth and lists up to the stated length",
     "Tests render well-filled samples only; crashes occur for absent optional fields and for rare parent-child combinations.",
     [HELP, BASE, "atlas_doc_parser/nodes"], mech(("optional fields checked before use", "atlas_doc_parser/nodes/"), ("recursive rendering", HELP)),
     observe=["to_markdown()"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
