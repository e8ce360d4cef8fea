
# ---------------------------------------------------------------- parser
prop("C01", "Parsing never panics, whatever the document",
 "For every byte sequence given as a document, in either encoding-detection outcome, with any window into it and with every combination of parser options, parsing returns: it never panics, never indexes or slices outside a slice and never dereferences nil. A malformed document always ends in a returned error.",
 ["inputs", "configurations"], "all documents of any length, all windows into them, namespace awareness and location-cache depth on or off",
 "The tests parse some dozens of small documents; a panic needs one particular truncation or nesting, and the set of documents is infinite.",
 [P+"parse.go", P+"common.go", P+"process_start_tag.go", P+"process_end_tag.go", P+"process_attr_name.go", P+"process_attr_val.go", P+"process_dec_attr_name.go", B+"long_buffer.go", B+"int_buffer.go", R+"utf8_reader.go"],
 [("state loop that dispatches on the parser state", P+"parse.go:Parse"), ("depth and tag stack bookkeeping", P+"process_end_tag.go:processEndTag"), ("bounds tests of the readers", R+"utf8_reader.go:GetChar")],
 ["Parse"], 
 claim=("abstract interpretation of the SSA form (relational numeric domain, symbolic heap)", "proof",
  "The parser is analysed for every document and window with location-cache depth 3 and 5 without namespaces and depth 3 with them. Buffers and character classes are replaced by contracts, which the same run proves for the real ones. The lookups in the tables of namespaces (qualifyElement, qualifyAttributes, checkQualifiedAttributeUniqueness, checkXmlPrefix) are replaced by arbitrary verdicts and are not covered; faults of memory (make, append) and of the Go runtime are not modelled."))
prop("C02", "Parsing terminates on every document",
 "For every document and every option combination, parsing comes to an end: every loop of it advances through the document, or through a table whose size is fixed before the loop, on each iteration.",
 ["inputs", "configurations"], "all documents, windows and options",
 "A test cannot tell a slow run from an endless one, and only ever runs documents somebody thought of.",
 [P+"parse.go", P+"process.go", P+"common.go", P+"process_attr_val.go"], [("every state consumes input before it hands over to another one", P+"parse.go:Parse")], ["Parse"], 
 claim=("abstract interpretation of the SSA form (relational numeric domain, symbolic heap, lexicographic ranking measures)", "proof",
  "The parser is analysed for every document and window with location-cache depth 3 and 5 without namespaces and depth 3 with them. Buffers and character classes are replaced by contracts, which the same run proves for the real ones. The lookups in the tables of namespaces (qualifyElement, qualifyAttributes, checkQualifiedAttributeUniqueness, checkXmlPrefix) are replaced by arbitrary verdicts and are not covered; faults of memory (make, append) and of the Go runtime are not modelled."))
prop("C03", "The parser reads nothing outside the window it was given",
 "A parser given a window of a larger byte slice never reads a byte before the start or at or after the end of that window; what lies around the window has no influence on the outcome.",
 ["inputs", "configurations"], "all documents and all windows (offset, length) into them",
 "The tests use whole slices or one window; over-reading by one at the end shows up only when a token is cut at exactly the right byte.",
 [P+"vtd_parser.go", P+"common.go", P+"init.go", R+"utf8_reader.go", R+"ascii_reader.go"], [("end offset of the window, tested by every read", R+"utf8_reader.go:GetChar")], ["Parse"], na='The interpreter can state the obligation (index inside [offset, offset+length) at every read of the document), and proves it for the readers (C09), but not for three reads of the parser that go to a remembered position (end tag against start tag, attribute against attribute, URL of a namespace): what is remembered is packed into 64 bits in a table, and the summary of a table keeps that its entries end at or before the current position, not that they start at or after the start of the window. Absence of reads outside the slice is proved (C01).')
prop("C04", "Recorded tokens lie inside the document and their fields do not spill",
 "Every token record a parse appends describes a range inside the document window, and each of its fields (type, depth, prefix length, name length, offset) fits in the bits reserved for it, so that no field corrupts a neighbour.",
 ["inputs", "configurations"], "all documents, including names, values and text longer than a field can hold, and any nesting depth",
 "The documents of the tests have tokens of some tens of bytes at depth below ten; the spill-over needs lengths beyond 2^9, 2^11 or 2^20 or depth beyond 2^8.",
 [P+"common.go", P+"process_start_tag.go", P+"process_attr_name.go", P+"process_attr_val.go"], [("packing of the fields into one 64-bit record", P+"common.go:writeVtd*"), ("splitting of long tokens", P+"common.go:writeVtdText")], ["Parse", "GetNav"], 
 claim=("abstract interpretation of the SSA form (relational numeric domain, symbolic heap, packed fields as linear terms)", "proof",
  "The parser is analysed for every document and window with location-cache depth 3 and 5 without namespaces and depth 3 with them. Buffers and character classes are replaced by contracts (proved under C01 and C10). The lookups in the tables of namespaces (qualifyElement, qualifyAttributes, checkQualifiedAttributeUniqueness, checkXmlPrefix) are replaced by arbitrary verdicts and are not covered; faults of memory (make, append) and of the Go runtime are not modelled."))
prop("C05", "A parse succeeds only at the end of the document",
 "Parse returns without error only after every byte of the window has been read: no document is accepted on the strength of a prefix of it.",
 ["inputs", "configurations"], "all documents, windows and options",
 "The tests check that given documents are accepted or rejected; none asserts that acceptance looked at the whole input, on all paths.",
 [P+"parse.go", P+"process_doc_end.go"], [("end-of-input error that turns into success only in the epilog", P+"parse.go:Parse")], ["Parse"], na='The interpreter has the ghost state for it (how far the document has been read without a gap; rule X5 of the analyser), but the frontier splits every state of the state machine and the analysis does not end in the time a check has.')
prop("C06", "An end tag is accepted only for the start tag it closes",
 "An end tag is accepted only if its name is byte for byte the name of the innermost element still open, and only at the depth that element was opened at.",
 ["inputs"], "all pairs of tag names and all nestings",
 "The tests have a handful of mismatching names; a comparison that ignores length, prefix or the last byte passes them.",
 [P+"process_end_tag.go", P+"process_start_tag.go"], [("stack of start tag positions and lengths", P+"process_start_tag.go"), ("comparison of the raw bytes", P+"process_end_tag.go")], ["Parse"], na='Equality of two stretches of the document, of a length remembered in a table, is a statement about the contents of the document under a universal quantifier; the domain of the interpreter relates positions and lengths, not contents.')
prop("C08", "A numeric character reference never wraps around",
 "The value of a decimal or hexadecimal character reference is computed without overflow, however many digits it has: a reference to a number above the largest character is never taken for a legal one because the computation wrapped around.",
 ["inputs"], "all digit strings of any length",
 "The tests have references of two to five digits; wrap-around needs ten decimal or nine hexadecimal ones that hit a legal value modulo 2^32.",
 [P+"common.go", N+"get_char_resolved.go"], [("accumulation of the digits", P+"common.go:entityIdentifier")], ["Parse", "ToString"], 
 claim=("abstract interpretation of the SSA form (relational numeric domain, symbolic heap)", "proof",
  "The numbers are followed from the parser and, for the navigator, from entries that call its conversions and its (otherwise unused) entity resolution with arbitrary offsets and records. The parser is analysed for every document and window with location-cache depth 3 and 5 without namespaces and depth 3 with them. Buffers and character classes are replaced by contracts (proved under C01 and C10). The lookups in the tables of namespaces (qualifyElement, qualifyAttributes, checkQualifiedAttributeUniqueness, checkXmlPrefix) are replaced by arbitrary verdicts and are not covered; faults of memory (make, append) and of the Go runtime are not modelled."))

# ---------------------------------------------------------------- readers, buffers
prop("C09", "Readers never read outside their window and never panic",
 "For every document, window and sequence of operations, a character reader never reads a byte at or after the end of its window (nor, going forward, one before its start) and never panics: an offset at which there is nothing to read is answered with an error.",
 ["inputs", "histories"], "all byte slices, windows, offsets (negative and past the end included) and sequences of calls",
 "The tests call each method a few times with offsets chosen by hand.",
 [R+"utf8_reader.go", R+"ascii_reader.go"], [("end-of-window tests", R+"utf8_reader.go")], ["GetChar", "GetLongCharAt", "GetCharAt", "SkipChar", "SkipCharSeq"], 
 claim=("abstract interpretation of the SSA form (relational numeric domain, symbolic heap)", "proof",
  "Trusts go/ssa, the models of the standard library functions used (absint/models.go), and that no slice is longer than 2^47 elements. Every sequence of calls on a reader built over any slice and window is covered."))
prop("C10", "Buffers never panic, whatever the sequence of operations",
 "No sequence of operations on the growable and on the byte buffers panics, for any page-size option, index, length or size argument: an argument out of range is answered with an error.",
 ["inputs", "histories", "configurations"], "all page sizes, arguments and sequences of append, get, set, clear and resize",
 "The tests run short scripted sequences on small pages.",
 [B+"long_buffer.go", B+"int_buffer.go", B+"object_buffer.go", B+"byte_buffer.go"], [("page arithmetic", B+"long_buffer.go")], ["Append", "LongAt", "IntAt", "SetSize", "Clear"], 
 claim=("abstract interpretation of the SSA form (relational numeric domain, symbolic heap)", "proof",
  "Trusts go/ssa, the models of the standard library functions used (absint/models.go), and that no slice is longer than 2^47 elements. Every sequence of calls on a buffer built with any options is covered."))
prop("C14", "Navigation never panics",
 "No sequence of navigator operations panics, whatever the document, the token and location buffers and the arguments the navigator was built with.",
 ["inputs", "histories", "configurations"], "all buffer contents, documents, indexes and sequences of operations",
 "The tests navigate one or two documents along fixed routes.",
 [N+"to_element.go", N+"to_string.go", N+"common.go", N+"get_char_resolved.go"], [("cursor bookkeeping", N+"to_element.go")], ["ToElement", "ToString", "ToRawString", "GetCurrentIndex"], 
 claim=("abstract interpretation of the SSA form (relational numeric domain, symbolic heap)", "proof",
  "Trusts go/ssa, the models of the standard library functions used (absint/models.go), and that no slice is longer than 2^47 elements. The buffers are modelled as arbitrary contents of fixed size below 2^31 entries, which is all a document below 1 GB can fill."))
prop("C15", "Navigation terminates",
 "Every navigator operation comes to an end for every document, buffer content and argument.",
 ["inputs", "histories"], "all buffer contents, documents, indexes",
 "A test cannot tell a slow run from an endless one.",
 [N+"to_element.go", N+"to_string.go", N+"get_char_resolved.go"], [("loops over token indexes and characters", N+"to_element.go")], ["ToElement", "ToString"], 
 claim=("abstract interpretation of the SSA form with ranking measures over loop transitions", "proof",
  "Trusts go/ssa, the models of the standard library functions used (absint/models.go), and that no slice is longer than 2^47 elements. The buffers are modelled as arbitrary contents of fixed size below 2^31 entries."))
prop("C16", "A failed or impossible move leaves the cursor where it was",
 "A navigator move that reports false or an error leaves the cursor exactly where it was before: same element, same depth.",
 ["inputs", "histories", "fault_sequences"], "all moves from all cursor positions, over all buffer contents",
 "The tests check the result of moves, rarely the state after a refused one, never after an internal error.",
 [N+"to_element.go"], [("cursor saved and restored around a move", N+"to_element.go:ToElement")], ["ToElement", "GetCurrentIndex"], 
 claim=("abstract interpretation of the SSA form, with a snapshot of the cursor as ghost state", "proof",
  "Trusts go/ssa, the models of the standard library functions used (absint/models.go), and that no slice is longer than 2^47 elements. Depth, location-cache indexes and limits, flags and the context array are compared; the buffers are modelled as arbitrary contents of fixed size."))

# ---------------------------------------------------------------- effects
prop("C18", "Instances share no mutable state at package level",
 "After program initialisation nothing the library does writes to a package-level variable or to memory reachable from one, so separate parsers, navigators, readers, buffers, pilots and modifiers never influence each other. In particular, different goroutines may each use an instance of their own without synchronisation.",
 ["schedules", "histories", "programs"], "all interleavings of operations on separate instances, sequential or concurrent",
 "The tests run one parser at a time in one goroutine; interference needs two live instances and a particular interleaving.",
 [P+"vtd_parser.go", P+"parse.go", B+"long_buffer.go", N+"vtd_nav.go", E+"erroring.go"],
 [("all working storage is allocated by the constructors", P+"vtd_parser.go:NewVtdParser"), ("shared error values are never written", P+"parse.go:Parse")], ["NewVtdParser", "Parse", "NewVtdNav", "ToElement"],
 claim=("whole-program points-to and effect analysis on the SSA form", "other",
  "Sound for the library's own code (no reflection, unsafe or cgo occurs in it; the check fails if any appears): context-insensitive inclusion-based points-to with per-site objects; every write reachable from an exported function is checked against everything reachable from a package-level variable. Trusts go/ssa and the table of memory effects of the standard library functions used."))
prop("C19", "The library has no effect on, and takes no input from, the outside world",
 "No operation of the library prints, logs, reads or writes files, the environment, the clock, the network or a random source, starts a goroutine or a process, or ends the program: results depend on the arguments only and show up in the return values only.",
 ["inputs", "configurations", "programs"], "all operations, inputs and configurations",
 "The tests compare return values; output on a rarely taken path or a dependency on the environment does not fail them.",
 ALLF, [("the library imports only pure parts of the standard library", "vtdxml")], ["Parse", "ToElement", "ToString"],
 claim=("call-graph effect analysis on the SSA form", "other",
  "Every reference to a function or variable outside the repository, from any function reachable from the exported ones or an initialiser, must be on an allow-list of pure ones; goroutines, print/println, unsafe, cgo, linkname and range over maps feeding results are refused. Trusts the allow-list (effects/pts.go)."))
prop("C20", "The caller's document is never modified",
 "No operation writes to the bytes of the document, or of any other byte slice a caller handed in, at any time: parsing, navigating and converting to text leave it as it was, so it can be shared between parsers and read concurrently.",
 ["inputs", "histories", "schedules"], "all documents, operations and sequences of operations",
 "The tests do not compare the document before and after, and in-place normalisation would happen only for the inputs that need it.",
 [P+"common.go", N+"to_string.go", N+"get_char_resolved.go", R+"utf8_reader.go", B+"byte_buffer.go"], [("the document is only ever read", R+"utf8_reader.go")], ["Parse", "ToString", "GetByteSlice"],
 claim=("whole-program points-to analysis on the SSA form", "other",
  "Every store, append, copy and external call reachable from an exported function is checked: its destination may not be memory handed in by a caller. Trusts go/ssa and the table of memory effects of standard library functions."))
prop("C21", "A failure inside the library is never swallowed",
 "When an operation the library performs on one of its own parts fails, the failure is reported to the caller of the library as an error, unless the failure is of a kind the code explicitly tests for (such as the end of the input): no failed step lets an operation return success or a made-up value.",
 ["inputs", "fault_sequences"], "all calls that can fail, all paths after the failure",
 "Most of the failures (buffer limits, truncated input at one exact byte) do not occur in the tests, so a dropped error passes them.",
 [P+"common.go", P+"process_attr_val.go", P+"process_start_tag.go", P+"init.go", N+"to_element.go", B+"long_buffer.go"],
 [("every error result is tested and handed up", P+"common.go"), ("end of input is told apart by type", P+"parse.go:Parse")], ["Parse", "ToElement", "ToString"],
 claim=("path-sensitive error-propagation dataflow on the SSA form", "other",
  "For every call in the library's non-test code whose callee can return a non-nil error, all control-flow paths on which it failed are followed up to the return (with the value facts the failure implies); each must return a non-nil error or pass a test of the error's type. Does not decide whether the type test itself is warranted."))
prop("C22", "An error and a result are never returned together, nor neither of them",
 "Every exported operation that fails returns only zero values besides the error, and every one that succeeds and returns a pointer, or an interface, returns a usable one: a caller never gets a half-built object along with an error, nor a nil object without one.",
 ["inputs", "fault_sequences"], "all exported operations, all ways they can return",
 "Tests stop at the error or at the value; the combination on rare failure paths is not looked at.",
 [P+"vtd_parser.go", P+"get_nav.go", N+"vtd_nav.go", N+"to_string.go", B+"long_buffer.go", R+"utf8_reader.go"], [("constructors return nil with every error", P+"vtd_parser.go:NewVtdParser")], ["NewVtdParser", "GetNav", "NewVtdNav", "NewFastLongBuffer", "ToString"],
 claim=("return-site dataflow on the SSA form", "other",
  "Every return of every exported function is examined with path facts: error possibly non-nil requires zero constants (or results of calls that obey the same rule) in the other positions; error nil requires pointers and interfaces known to be non-nil."))
prop("C23", "Errors belong to the library's categories and keep their cause",
 "Every error handed to a caller is one of the library's own error types, of the category that part of the library documents (invalid argument, end of input, parse, encoding, entity, navigation, modification, internal), never a nil pointer in an error interface; constructors keep the message and cause they are given, so unwrapping an error yields what caused it.",
 ["inputs", "fault_sequences"], "all errors any exported operation can return",
 "The tests assert on the category of a few dozen errors; the rest, and the cause chain, are unobserved.",
 [E+"erroring.go", E+"messages.go", P+"parse.go", R+"utf8_reader.go"], [("one constructor per category on a common base", E+"erroring.go")], ["Parse", "NewVtdParser", "ToElement", "ToString", "Unwrap"],
 claim=("points-to analysis of dynamic error types, and dataflow through the constructors", "other",
  "The dynamic types reaching the error result of each exported function must be in the table of categories of its package (effects/taxonomy.go); constructors and the Error/Unwrap methods are followed on all paths."))

# ---------------------------------------------------------------- out of reach
prop("C90", "Exactly the well-formed documents are accepted",
 "Parsing succeeds for every well-formed XML 1.0 document in a supported encoding and fails for every other one.",
 ["inputs"], "all documents", "Finitely many documents are parsed.", [P+"parse.go"], [("state machine of the grammar", P+"parse.go")], ["Parse"],
 na="Language equality between the parser (counters, stacks, look-back into the document) and the XML grammar is a functional-correctness statement over unbounded inputs; no static analysis in reach decides it. The tree is also known not to satisfy it (multi-byte characters are validated byte by byte).")
prop("C91", "The text of a token is the text of the document",
 "Converting a token to text yields exactly the characters of the document at the token, with references resolved and line ends normalised.",
 ["inputs"], "all documents and tokens", "Few tokens are compared.", [N+"to_string.go", N+"get_char_resolved.go"], [("character resolution", N+"get_char_resolved.go")], ["ToString"],
 na="Relates runtime string contents to runtime document contents over unbounded inputs; needs an oracle for the text, which a static analysis does not have.")
prop("C92", "Namespace prefixes resolve to the declaration in scope",
 "In namespace-aware mode, a document is accepted only if every prefix used is bound by a declaration in scope, with the innermost one winning.",
 ["inputs"], "all documents", "Few nestings are parsed.", [P+"common.go", P+"process_attr_val.go"], [("namespace buffers per depth", P+"common.go:qualifyElement")], ["Parse"],
 na="Depends on the contents of three cooperating runtime buffers addressed by runtime positions; out of reach of a sound static argument.")
prop("C93", "Parsing takes time linear in the document",
 "The time to parse grows linearly with the document.",
 ["inputs"], "all documents", "Tests measure nothing.", [P+"parse.go", C+"xml_char.go"], [("single pass", P+"parse.go")], ["Parse"],
 na="A cost bound over runtime quantities; the attribute-uniqueness test is quadratic by design, so the property would have to be weakened to what the code happens to do.")
