"""Per property: the oracle, why enumeration reaches what the tests cannot, and the cost of the quick tier."""
D = {
 "C01": dict(cost=75, oracle="the input itself (deep equality, and identity of JSON types: True is not 1); for built trees, exactly the fields that were set.",
             why="falsy, null and empty values of every field of every type, every combination of fields, every legal nesting; the tests round-trip one typical value per type."),
 "C02": dict(cost=64, oracle="the same document without the extra field: equal tree, serialisation and Markdown.",
             why="the tests never add an unknown field; here every dictionary of every type gets every name (also variants of each known name, Python keywords and dunder names)."),
 "C03": dict(cost=65, oracle="the same document with the unsupported elements removed before parsing.",
             why="skipping is decided in several places (content, marks, each type's from_dict); all subsets of slots, all near-miss type strings."),
 "C04": dict(cost=50, oracle="the list of warnings the model predicts (document order, one per skipped element, none for elements inside a skipped one), from a handler on the library's logger.",
             why="histories of parses and setting changes; the tests look at one warning."),
 "C05": dict(cost=85, oracle="parsing raises the exported ParamError naming the field (or, for a missing type, an error that is not UnimplementedTypeError).",
             why="every required field at every position and depth, alone and among unsupported elements whose errors are swallowed nearby."),
 "C06": dict(cost=70, oracle="an aliasing monitor: identity-disjointness of all mutable containers reachable from input, tree and outputs, plus snapshots before and after mutating each of them.",
             why="aliasing shows only when a result is mutated later, which no test does."),
 "C07": dict(cost=106, oracle="the outcome of the same operation in a fresh process, itself cross-checked with the reference model.",
             why="caches, counters and lazily built tables show only in particular orders of operations in one process."),
 "C08": dict(cost=85, oracle="the outcome of each thread's program run alone.",
             why="schedules are chosen by the operating system in tests; here every single switch point (and pairs for small programs) is forced."),
 "C09": dict(cost=85, oracle="tokens: each text-bearing element carries its own text, the tokens of the Markdown must be exactly those of the document in order; for repeated identical contents, their number and the reference model.",
             why="all shapes of containers in containers; the tests render a handful."),
 "C10": dict(cost=19, oracle="the exact string, by folding the marks over the text in order.",
             why="all sequences of marks, with repetitions, over texts that contain delimiters."),
 "C11": dict(cost=76, oracle="the reference model's lines, and structural rules on markers, numbers and indentation.",
             why="mixed nestings of three kinds of lists with items before and after; start numbers including 0 and null."),
 "C12": dict(cost=46, oracle="line by line rules (one row one line, cell count, delimiter once after the first header row) and the reference model's cells.",
             why="patterns of header and data cells, empty rows, blocks with line breaks and pipes in cells."),
 "C13": dict(cost=22, oracle="reading the code back: fence, language, body between the fences after removing the container's prefixes.",
             why="code is the one place where the blank line and line splitting logic must not apply; texts over an alphabet of line breaks, fences and spaces."),
 "C14": dict(cost=104, oracle="the rendering of the document pruned by the model, and an error exactly when an element that cannot be rendered is rendered.",
             why="subsets of failing leaves at any depth: what is dropped depends on where the error is caught."),
 "C15": dict(cost=50, oracle="concatenation of the blocks' own Markdown (rendered alone) with one blank line between.",
             why="all pairs and triples of block types, runs of empty blocks."),
 "C16": dict(cost=36, oracle="the content's own Markdown with the marker before each line; decisions by a hand-written line rule.",
             why="all nestings and texts with every kind of line end."),
 "C17": dict(cost=19, oracle="a hand-written table of what each leaf renders to.",
             why="null against empty against absent for every field that decides the text, times the other fields."),
 "C18": dict(cost=3, oracle="an independent calendar algorithm on integers (days from civil), no datetime.",
             why="negative timestamps, leap days, millisecond rounding at midnight, machine time zones."),
 "C19": dict(cost=15, oracle="a hand-written list of types, classes and exported names.",
             why="registration happens at import or first use; each order runs in a process of its own."),
 "C20": dict(cost=60, oracle="the Markdown of the document stripped of the presentation-only fields and marks.",
             why="combinations of values, also null and empty, on every type at every depth."),
 "C21": dict(cost=64, oracle="assignment and deletion raise; equality of trees equals equality of serialisations; copies agree.",
             why="all pairs of a pool covering every field value, every one-place change of a document."),
 "C22": dict(cost=4, oracle="comparison of the type strings.",
             why="all types times all constants, pairs and lists of them."),
 "C23": dict(cost=7, oracle="strings written by hand.",
             why="all sequences of inline elements with every level and block mark."),
 "C24": dict(cost=115, oracle="a string is returned (the same twice, and from the serialisation), within the CPU limit.",
             why="optional fields absent, empty contents, ladders of depth and length, repeating texts (regular expressions that backtrack)."),
}
