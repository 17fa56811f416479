#!/usr/bin/env python3
"""Writes properties.jsonl; the list below is the source of it."""
import json, os
R = "src/hml_reader/"
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if hook: a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": a})

LEX = R + "lexer_parsers.rs"; PAR = R + "parser.rs"; BLD = R + "builder.rs"
EVT = "src/markup/event.rs"; NST = "src/names/namespace_stack.rs"

p("C01", "A document's events are exactly the depth-first walk of its element tree",
  "For every tree of elements with attributes, content strings and comments, and for every HML text that writes that tree, the reader produces the start, content, comment and end events of a depth-first walk of that tree, in that order, with the names it was written with. The hash count of a tag, relative to the nearest enclosing boxed element, is what determines its parent. Whitespace between tokens makes no difference.",
  ["inputs"], "all element trees, and all HML texts of each (box or plain form, hash strings, quotes, whitespace, adjacency of tokens)",
  "The tests compare a handful of fixed two- or three-element documents; they never vary layout, never close several levels at once from within a box, and no test uses content after a boxed child.",
  [PAR, BLD, LEX], [("tag depth and the stack of open elements", PAR + " handle_open_tag/handle_close_tag"), ("saved depth of the parent", BLD + " StackElement")],
  ["Parser::next_event event sequence"])
p("C02", "Boxed and plain forms of an element are interchangeable",
  "Rewriting any set of elements of a valid document between the plain form and the boxed form (with the hash counts inside adjusted as the grammar requires) leaves the events and everything in them other than their source positions unchanged. This holds for boxes within boxes, for plain elements within boxes and boxes within plain elements, and for empty boxes.",
  ["inputs"], "all element trees, and all pairs of choices of boxed elements for the same tree",
  "Two tests have one box each; nothing compares the two ways of writing the same tree.",
  [PAR, BLD], [("boxing resets the depth to zero and the close tag restores it", PAR)],
  ["Parser::next_event event sequence"])
p("C03", "The event stream follows its protocol for every text, valid or not",
  "For every text, up to the first error, the reader first reports exactly one start-of-document with the version requested (1.00 if none), start and end events nest properly with an end having the same name (prefix, URI and local name) as the start it pairs with, content occurs only inside an element, there is at most one root element, and nothing follows the end-of-document, which is only reported when every element has been ended. After the end-of-document every further request is refused with an error and no event.",
  ["inputs", "histories"], "all texts, all version numbers, all numbers of requests made after the end",
  "The tests only check well-formed documents of a few lines and never ask for an event after the end.",
  [PAR, BLD, EVT], [("start/end/finished flags", PAR + " next_event"), ("tag stack", PAR)],
  ["Parser::next_event results"])
p("C04", "The reader terminates cleanly on every text in bounded work",
  "For every text, the reader returns events and then either the end-of-document or an error; it never panics, never reads outside the text or at an offset that is not a character boundary, and never fails to terminate, also when the caller goes on requesting events after an error. The number of characters it inspects is bounded by a constant multiple of the length of the text, and the depth of nesting is limited only by memory.",
  ["inputs", "histories"], "all Unicode texts, up to megabytes and nesting depths of 30000, and requests continued after errors",
  "The tests only use short valid texts and two erroneous ones; none has a text that ends within a token, a multi-byte character at a token boundary, or deep nesting.",
  [LEX, PAR, BLD], [("peek before consume in each token parser", LEX), ("explicit stack, no recursion", PAR)],
  ["Parser::next_event, through a character stream that checks every position it is given"])
p("C05", "Texts are accepted exactly if the grammar derives them, else the fault is named",
  "The reader accepts a text exactly if it is a document of the HML grammar as implemented: tags of hashes and a name followed by whitespace or the end of the text, attributes directly after a tag, a tag at most one level deeper than its parent, closing tags with the name and depth of the innermost open box, every box closed, exactly one root element and only comments outside it. For any other text the events before the fault are delivered and then the error for the first fault, of the kind that belongs to that fault, and its span starts where the offending construct does.",
  ["inputs"], "all texts",
  "Only two erroneous texts are tested, without regard to the kind of error or its place; nothing checks that invalid texts are rejected.",
  [LEX, PAR, BLD, "src/error.rs", R + "utils.rs"], [("token parsers tried in order", LEX + " parse_fns"), ("depth and close tag checks", PAR)],
  ["events and error (kind, span, details) of Parser::next_event"])
p("C06", "Quoted content is delivered verbatim, in order, with the right content type",
  "The content event for a quoted string holds exactly the characters between the quotes, for either quote character and any number of hashes, and is marked raw exactly if the string was written with the 'r' prefix. A string ends at the first occurrence of its own quote character followed by as many hashes as opened it; without hashes it cannot contain a newline. Adjacent strings stay separate events, in order.",
  ["inputs"], "all strings of Unicode characters, quote characters, hash counts and neighbours",
  "One test tokenizes three ASCII strings; nothing has content with quotes followed by too few hashes, newlines, multi-byte characters or backslashes.",
  [LEX, PAR], [("scan for quote plus hashes", LEX + " parse_quoted_string")],
  ["Event::Content data and type"])
p("C07", "Attributes arrive complete, in order, with exact names and values",
  "The start event of an element holds one attribute for each attribute written in its tag, in the order written, with the prefix and local name written and exactly the value written: all the characters between the quotes, or for an unquoted value all the characters up to the next whitespace or the end of the text. Attributes are never carried over to another element.",
  ["inputs"], "all lists of attributes (0 to hundreds), names, values, quoting styles, whitespace, and documents they are in",
  "The tests have a few attributes with plain ASCII values; none has unquoted values with quotes, hashes or semicolons in them, values next to each other without whitespace, or empty values.",
  [LEX, PAR, BLD, "src/names/attribute.rs"], [("attribute collection until the next non-attribute token", PAR + " handle_token")],
  ["Tag attributes of Event::StartElement"])
p("C08", "Comments are delivered exactly and change nothing else",
  "Each run of comment lines, with nothing but non-newline whitespace before each ';', is delivered as one comment event holding the text after the ';' of each line, joined by newlines, together with the byte length of each line; a blank line separates comments. Empty comment lines, comments at the end of the text without a newline, and semicolons, quotes and hashes within comments are all preserved. Inserting a comment wherever one is permitted leaves all other events unchanged except for positions.",
  ["inputs"], "all comment texts, groupings, and places of insertion in all documents",
  "The tests have two non-empty ASCII comments; none is empty, at the end of the text, or next to another.",
  [LEX, PAR], [("folding of comment lines into a token", LEX + " parse_comment_line")],
  ["Event::Comment data, lengths; all other events"])
p("C09", "Namespace declarations in a document scope to their element and its content",
  "In a namespace-aware document, the URI reported for a prefixed or unprefixed element or attribute name is that of the innermost declaration of its prefix on the element itself or an enclosing element, wherever in the tag the declaration stands; a declaration on an element has no effect outside of it. A name whose prefix has no declaration in scope is an error naming that prefix. The end event has the same name, including URI, as its start event.",
  ["inputs"], "all element trees with namespace declarations (default and prefixed, overriding, undoing) at any elements and in any attribute order",
  "The namespace tests have at most two nested elements, with declarations before their uses.",
  [BLD, "src/names/attribute.rs", "src/names/name.rs", NST], [("a frame per element", BLD + " StackElement::new/as_end_element"), ("declarations applied before names are resolved", BLD + " add_attribute")],
  ["names in Event::StartElement/EndElement resolved through the namespace stack"])
p("C10", "The namespace stack behaves as a stack of prefix maps",
  "After any history of pushing and popping frames and adding mappings (unconditionally, or only if the prefix is unset in the topmost frame), looking up a prefix gives the URI of the topmost frame that maps it or nothing if none does, and popping a frame restores exactly the lookups before its push. Iterating over the stack ends, and gives each visible mapping exactly once and no hidden ones, and iterating over the topmost frame gives exactly the mappings of that frame.",
  ["histories"], "all histories of operations on a namespace stack, in both namespace modes, with many prefixes and URIs and frames up to 100000 deep",
  "One test does a fixed sequence of two frames and a few mappings.",
  [NST, "src/names/namespace.rs", "src/names/ids.rs"], [("frames searched from the top", NST + " find_mapping"), ("set of prefixes already returned", NST + " iterator")],
  ["find_mapping, IntoIterator, iter_top_mappings, borrow_mapping, fmt_map, results of add calls"])
p("C11", "Names, prefixes and URIs are interned one to one with stable ids",
  "Within one namespace, two strings of the same kind have equal ids exactly if they are equal strings; an id always gives back the string it was made from, ids never change as more strings are added, and looking up a string that was never added finds nothing. The empty string is always the none id, and only that.",
  ["histories"], "all histories of adding and looking up strings of the three kinds, directly and through parsing",
  "No test has more than a few names; none checks that ids stay valid or distinct.",
  ["src/names/namespace.rs", "src/names/ids.rs", NST], [("linear search before insertion", "src/names/namespace.rs")],
  ["find_*/add_name/add_mapping and *_str of Namespace and NamespaceStack; id values"])
p("C12", "Names built from strings resolve, print and fail as documented",
  "A name built from a prefix and a local name has exactly those and the URI currently mapped to the prefix; building from 'p:n' is the same, building from 'n' has neither prefix nor URI. An empty local name, an unmapped prefix (reporting which) and more than one colon (reporting the text) are errors. Printing a name gives 'n' or 'p:n' and, for a name with a prefix, building from what is printed gives the same name back while the mapping is unchanged.",
  ["inputs", "histories"], "all strings and all namespace stack states",
  "One test file has some fixed names; no test covers printing or the error kinds.",
  ["src/names/name.rs", "src/names/tag.rs", "src/names/attribute.rs"], [("split at colons", "src/names/name.rs from_str")],
  ["Name::new/new_local/from_str/to_string/has_prefix/has_uri/none, Tag::new, Attribute::new"])
p("C13", "The characters permitted in names are exactly those of XML names",
  "A character can start an element, attribute or prefix name exactly if it is an XML 1.0 NameStartChar other than ':', and can continue one exactly if it is an XML 1.0 NameChar other than ':'. Names are reported with exactly the characters written.",
  ["inputs"], "all 1112064 Unicode scalar values, as first, later and last character of element, attribute and prefix names (U+1680 is both a space and a NameStartChar, and cannot start an attribute)",
  "The tests only use ASCII letters in names.",
  [R + "utils.rs", LEX], [("character classes", R + "utils.rs")],
  ["acceptance of a document with that character in a name, and the name reported"])
p("C14", "Source spans of events and errors are exact in bytes, lines and columns",
  "The span of a start, content or comment event and of the end event of a closing tag covers exactly the bytes of its tag, string, comment run or closing tag; implied end events have an empty span at the tag that implied them or at the end of the last token. The line and column of each position are those counted from the text (lines from 1 by newlines, columns from 1 by characters), for events and for errors. Spans never run backwards through the event stream.",
  ["inputs"], "all texts, in particular with multi-byte characters, newlines in whitespace, strings and comments, and carriage returns",
  "Spans are printed by the tests but never compared; no test has a position after a newline.",
  [LEX, PAR, BLD, "src/error.rs"], [("position advance per character", LEX), ("position of the last token", PAR)],
  ["borrow_span of events, span of errors, with line and column positions"])
p("C15", "The result does not depend on the kind of position or lexer used",
  "For every text the events and errors are the same, apart from what a position records, whether positions are plain byte offsets, byte offsets with line and column or a caller's own position type, and whether the text is read through the library's string lexers or through any other implementation of the lexer traits. Byte offsets agree between all of these.",
  ["inputs", "configurations"], "all texts, and the cross product of position types and lexer implementations",
  "All tests use one lexer type with line and column positions.",
  [LEX, PAR], [("generic over position and lexer", LEX + " parse_fns"), ("generic over position", PAR)],
  ["events of the same text through each combination"])
p("C16", "XML escaping makes text safe and loses nothing",
  "Escaping a string for XML replaces every '&' and '<', and every quote, apostrophe, '>', newline or carriage return that was asked for, with its entity, and changes nothing else; it reports that nothing is needed exactly if the string has none of these. Expanding the entities of the escaped string gives the original string back.",
  ["inputs"], "all strings and all sets of optional characters",
  "The tests have eight fixed strings with one set of characters.",
  ["src/escape.rs"], [("byte-wise replacement", "src/escape.rs escape_required")],
  ["escape::escape, escape::Entities::replace_entities"])
p("C17", "Entity and character references are expanded exactly once and only if valid",
  "In a string in which each '&' starts a reference ended by ';', expansion replaces each numeric character reference (decimal or hexadecimal, with at least one digit, of a Unicode scalar value) with that character and, if named entities are enabled, each of the predefined ones with its character; every other reference and all other text is left exactly as it is. Text that results from an expansion is not expanded again. It reports that nothing is needed exactly if no reference is replaced.",
  ["inputs"], "all strings of text and valid, unknown and malformed references, with and without named entities",
  "The tests have ten fixed strings.",
  ["src/escape.rs"], [("reference scan", "src/escape.rs find_span")],
  ["escape::Entities::replace_entities"])
p("C18", "HML escape sequences expand as in Rust, and malformed ones are refused",
  "Expanding the escapes of a string replaces each documented escape sequence (the single letter ones, two-digit hexadecimal up to 7F, and one to six hexadecimal digits in braces) by its character and leaves all other text as it is. Any other use of a backslash, an incomplete sequence, or a value that is not a Unicode scalar value is an error. Expansion always ends, without a panic, and its result is always valid Unicode.",
  ["inputs"], "all strings of text and valid and malformed escape sequences",
  "The one test has 16 fixed strings, each with a single escape at the start.",
  ["src/hml/escape.rs", "src/lib.rs"], [("escape state machine", "src/hml/escape.rs")],
  ["the escape module, which is private"], hook="the escape module is made public by the cfg flag hml_verif")
p("C19", "XML written from HML events reads back as the same document",
  "Converting the events of an HML document to XML writer events and writing them gives well-formed XML which, read by an XML parser, has the same elements, attributes (names, values and order), text, comments and version, and in a namespace-aware document the same namespace URI for each element and prefixed attribute. This holds for all text that XML can represent, including characters that need escaping.",
  ["inputs", "configurations"], "all documents whose names, text and comments XML can represent, namespace aware or not, version 1.0 and 1.1",
  "No test converts events to XML.",
  [EVT, "src/names/name.rs", "src/names/attribute.rs"], [("event mapping", EVT + " as_xml_writer"), ("qualified names", "src/names/name.rs as_xml_name")],
  ["output of an XML writer fed with Event::as_xml_writer, read by an XML reader"])
p("C20", "Each event maps to the XML reader event that carries the same information",
  "The XML reader event for an HML event is of the corresponding kind with the same version (1.0 for 1.00, else 1.1), the same qualified element name, the same attributes in order, the same text, comment or processing instruction target and data. Every kind of event, including the end of document, has one; the XML writer event exists for every kind but the end of document, and agrees with it.",
  ["inputs", "programs"], "all events from all documents, and all events made through the event constructors",
  "Existing tests only compare five short documents.",
  [EVT, "src/names/name.rs"], [("event mapping", EVT + " as_xml_reader")],
  ["Event::as_xml_reader, Event::as_xml_writer"])
p("C21", "hmlconvert writes the XML of its input or fails visibly",
  "For every valid HML input that XML can represent, given as a file or on standard input, hmlconvert exits successfully and writes (to standard output, or only to the file given by --output) XML which reads back as the same elements, attributes, text and comments, with the XML version asked for. For every invalid input it exits with a failure and reports the error with the line of the text it is in on standard error. It never crashes, and never modifies its input.",
  ["inputs", "configurations"], "all HML texts, and all combinations of input source, output option and version option",
  "No test runs the program.",
  ["src/bin/hmlconvert.rs", EVT, PAR], [("main loop", "src/bin/hmlconvert.rs")],
  ["exit status, standard output, standard error and output file of hmlconvert"])
p("C22", "Parsing leaves no trace: namespace stacks and parsers can be reused freely",
  "After a document has been read to its end, the namespace stack has the same mappings as before; reading further documents with it, with ids kept from earlier documents, gives the same events as reading each with a fresh one. Readers interleaved in any order on separate namespace stacks give the same events as on their own, and reading the same text again gives the same result.",
  ["histories", "schedules"], "all sequences of documents read through one namespace stack, and all interleavings of several readers",
  "Each test makes a new parser and namespace for a single document.",
  [PAR, BLD, NST], [("frame pushed and popped per element", BLD)],
  ["events, and mappings of the namespace stack before and after"])
p("C23", "The library itself writes nothing to the process's output",
  "Parsing any text, with or without namespaces, building names and attributes, converting events to XML events and expanding escapes and entities never write anything to standard output or standard error.",
  ["inputs", "histories"], "all texts and API uses of the other properties",
  "Output of tests is captured and ignored.",
  ["src"], [("no printing in the library", "src")],
  ["standard output and error of a process using the library"])
p("C24", "Event accessors agree with the event they are called on",
  "For every event, its type, its span, and each accessor for its parts report exactly what it was constructed with or what the reader put in it, and the accessors for other kinds of event report nothing.",
  ["inputs", "programs"], "all events from all documents, and all events made through the event constructors",
  "Tests only use a few accessors on a few events.",
  [EVT], [("accessors", EVT)],
  ["Event::get_type, borrow_span, as_*, is_*"])
p("C25", "Errors carry their span and details and describe themselves",
  "Every error constructed or reported has the span it was constructed with, except for reading beyond the end which has none; its message contains its details (character, attribute, prefix, name, depth or underlying error). Results are passed on unchanged by the conversions of success values, and converted errors keep their source.",
  ["inputs", "programs"], "all error kinds, spans and details, constructed directly and met in parsing",
  "The tests only look at whether there is an error.",
  ["src/error.rs"], [("error constructors and span accessor", "src/error.rs")],
  ["HmlError and MarkupError constructors, span, Display"])
p("C26", "Events are delivered as soon as the text they depend on has been read",
  "The reader asks for no more of the text than it needs: content, comment and end events are delivered without reading beyond the token they come from or that implies them, and a start event without reading beyond the first token after the attributes. So a document can be read from a stream while it is still being written.",
  ["inputs"], "all documents and all their events",
  "Tests collect all events of a complete text and do not see when the text was read.",
  [PAR], [("one pending token", PAR + " next_event")],
  ["how far the token source has been read when each event is returned"])
p("C27", "Errors of the token source are passed on and do not disturb the parse",
  "If the source of tokens fails with an error, at any point and any number of times, that error is returned to the caller unchanged; if the source then carries on, the events that follow are exactly those without the failure.",
  ["fault_sequences", "inputs"], "all documents and all placements of token source errors",
  "No test has a token source that fails.",
  [PAR], [("error returned before any state change", PAR + " next_event")],
  ["Parser::next_event results with a failing token source"])
p("C28", "All build configurations of the library give the same results",
  "The events and errors for every text, and the results of the escape functions, are the same whether the library is built with or without its optional XML support and with or without optimization and debug checks.",
  ["configurations", "inputs"], "the build configurations, and all texts",
  "The tests are only run in one configuration.",
  ["Cargo.toml", "src"], [("cfg(feature) limited to XML conversions", EVT)],
  ["event dumps of the same texts by differently built programs"])
p("C29", "Attribute lists and tags built through the API keep what is put in them",
  "After any history of adding attributes to lists and moving the contents of one list to the end of another, each list has exactly the attributes put in it in order, and a list moved from is empty. Adding a namespace declaration in a namespace-aware stack maps its prefix in the topmost frame for later names; a failed addition leaves the list unchanged; tags keep their name and attribute list.",
  ["histories"], "all histories of operations on attribute lists, tags and a namespace stack, in both namespace modes",
  "No test uses these types directly.",
  ["src/names/attribute.rs", "src/names/tag.rs", "src/names/name.rs"], [("vector of attributes", "src/names/attribute.rs")],
  ["Attribute::new, Attributes, Tag::new"])
p("C30", "Escaping and entity expansion terminate cleanly on every string",
  "For every string, also one in which a '&' starts no reference, escaping it and expanding its entities terminate without a panic, in time proportional to its length, and give valid Unicode or report that nothing is needed. Escaping gives at most six times the bytes and expansion no more bytes than the string has. Expansion leaves the text before the first '&' as it is, and if it returns a text that text differs from the string.",
  ["inputs"], "all strings, up to hundreds of kilobytes, all sets of optional characters, with and without named entities",
  "Tests have a dozen short and well-formed strings.",
  ["src/escape.rs"], [("scan for references", "src/escape.rs find_span")],
  ["escape and replace_entities results"])
p("C31", "Ids, mappings, names and attributes compare as the values they stand for",
  "An id made from a number gives that number back and prints as it, and the none id has no number; a mapping keeps its prefix and URI. Two ids, mappings, names or attributes are equal, with equal hashes, exactly if all their parts (prefix, URI, local name, value) are; copies equal their original. A name has a prefix or URI exactly if that part is not none.",
  ["inputs"], "all pairs of ids, mappings, names and attributes, alike in any of their parts",
  "No test compares or hashes these values.",
  ["src/names/ids.rs", "src/names/name.rs", "src/names/attribute.rs"], [("derived comparison of all the fields", "src/names/name.rs")],
  ["NSPrefixId, NSUriId, NSNameId, NSMap, Name, Attribute: constructors, accessors, Eq, Hash, Display"])
p("C32", "hmlconvert reports input and output that it cannot use",
  "If the input cannot be read (it is missing, a folder, or not UTF-8) or the arguments make no sense, hmlconvert exits with a failure and a message on standard error, writes nothing to standard output and does not touch the output file. If the output cannot be created or cannot be written completely, it exits with a failure and a message. In neither case does it crash, change its input or leave other files.",
  ["inputs", "fault_sequences", "configurations"], "all documents, all kinds of unusable input, output and arguments",
  "No test runs the program.",
  ["src/bin/hmlconvert.rs"], [("errors of reading and writing are reported", "src/bin/hmlconvert.rs")],
  ["exit status, standard output and error, and files of hmlconvert"])
p("C33", "The tokens of a text cover it, and print as what they are",
  "Splitting a text into tokens, without a reader, gives up to its end or the first error exactly the runs of whitespace, comments, strings, tags and attributes that it consists of, each starting where the one before ends; a fault gives the error of that fault at its place. Each token prints its place; a tag also the number of its hashes, its prefix and name and its brace if it has one, and an attribute its prefix, name and value. Whitespace, comments, strings and raw strings print differently from each other.",
  ["inputs"], "all texts, also those that are no documents",
  "Tests have a few texts of one token each, and print none.",
  ["src/hml_reader/lexer_parsers.rs", "src/hml_reader/token.rs"], [("token functions", "src/hml_reader/lexer_parsers.rs parse_fns"), ("printing", "src/hml_reader/token.rs")],
  ["the results of a lexer with parse_fns, and Display of its tokens"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
