_ENUM = "explicit-state enumeration of documents against a reference model, replayed on the real code"
_REL = "exhaustive enumeration of document pairs, executed on the real code (relational check)"
NOTES = {
 "C01": (_ENUM, "Every document of the enumerated families is parsed and serialised by the real code and compared with the input. Assumes nothing about documents outside the stated sizes and alphabets."),
 "C02": (_REL, "Every (document, position, extra field, value) of the enumerated space is parsed by the real code and compared with the document without the field."),
 "C03": (_REL, "Every set of slots (all single slots of every universe document, every subset of the slots of small trees) and every unsupported type string of the list is executed on the real code."),
 "C04": ("explicit-state enumeration of histories of parses and setting changes, replayed on the real code with a log monitor", "All histories up to the stated depth and all slots of the enumerated documents; the relative order of warnings for a block's own marks and for its content is left open."),
 "C05": (_ENUM, "Every required field of every type removed at every position of the enumerated documents; the real code must raise the exported parameter error."),
 "C06": ("explicit-state enumeration of documents and of histories of parse, serialise, render and mutate on the real code, with an aliasing monitor", "Every mutable container reachable from input, tree and results is compared by identity and then mutated in place; histories up to the stated depth."),
 "C07": ("stateless exploration of all operation histories on the real code by forking at every state", "All sequences of the 21 operations up to depth 3 (quick) or 4 (thorough) from a process without the library, all ordered pairs of elements of all types, and repetitions; outcomes are compared with those of a fresh process and with the reference model."),
 "C08": ("controlled-scheduler exploration of thread interleavings of the real code (preemption-bounded)", "Real threads are switched only at executed lines or bytecodes of the library; all single preemptions (and pairs for small programs) within the stated number of occurrences of a line. Code of the interpreter's own modules is atomic."),
 "C09": (_ENUM, "Every text-bearing element carries its own token; every document of the families is rendered and its tokens must appear once and in order."),
 "C10": (_ENUM, "All mark sequences up to length 3 (4 over the five rendering marks) on all texts of the alphabet, exact strings compared."),
 "C11": (_ENUM, "All list trees up to the stated size over the three list kinds; how continuation lines inside an item are indented is left open."),
 "C12": (_ENUM, "All header and data patterns up to the stated rows and columns, all cell contents from the block menu, compared with the reference and with line-by-line structural rules."),
 "C13": (_ENUM, "All code texts over the alphabet up to the stated length in every container; the block is read back from the Markdown and compared with the code."),
 "C14": ("exhaustive fault injection: every subset of leaves made impossible to render, executed on the real code against the pruned document", "All subsets up to the stated limits in all enumerated documents; the oracle is the rendering of the document without those elements and the reference model."),
 "C15": (_ENUM, "All block sequences up to the stated length over all block types; separators compared block by block."),
 "C16": (_ENUM, "All quotes, panels and decisions over the alphabet up to the stated size and nesting; each line's marker checked and the content compared with its own rendering."),
 "C17": (_ENUM, "The product of the deciding fields' values (absent, null, empty, special) for each leaf, times subsets of the other fields, at every place."),
 "C18": ("explicit-state enumeration of instants and time zones against an independent calendar algorithm, on the real code", "All year ends and leap days of the years 1 to 9999 and all days of a range (thorough: all days), with the milliseconds around midnight, under 20 time zones each in its own process."),
 "C19": ("exhaustive enumeration of first uses and import orders, each in a fresh forked process of the real code", "Each type through each entrance, each module (thorough: each ordered pair) imported first; then all types and exported names are checked."),
 "C20": (_REL, "Every subset and value combination of the hand-written list of presentation-only fields on every type; each document is compared with its stripped form."),
 "C21": ("exhaustive enumeration of objects, field assignments, document pairs and copies on the real code", "Every field of every object; all pairs of a pool covering every field value, and every one-place change of every universe document."),
 "C22": ("exhaustive enumeration of types against type constants and lists of them, on the real code", "Complete for single constants and pairs (thorough: triples); media types over a list with every subset of the other attributes."),
 "C23": (_ENUM, "All sequences of up to 3 inline elements with every level; every block mark and attribute for shorter ones; expected strings written by hand."),
 "C24": (_ENUM, "All parent-child combinations, subsets of optional fields, nesting ladders, lengths and repeating text patterns; each rendered twice and from its serialisation, each within 10 s of CPU time."),
}
