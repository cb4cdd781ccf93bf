#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

PP, CN, VN, NO = "src/pretty_print.rs", "src/consolidated_notation.rs", "src/valid_notation.rs", "src/notation.rs"
DP, DV, PT, PO = "src/pane/display_pane.rs", "src/pane/divvy.rs", "src/pane/plain_text.rs", "src/pane/printing_options.rs"
PN, PD, GE, OR = "src/pane/pane_notation.rs", "src/pretty_doc.rs", "src/geometry.rs", "src/oracle.rs"
JS, TR, ST = "src/doc_examples/json.rs", "src/doc_examples/tree.rs", "src/doc_examples/style.rs"

p("L01", "Whole-document layout: a choice takes its first option exactly when it fits",
  "Printing a whole document yields exactly the lines its notation describes: text in document order, and at each newline a new line that starts with all enclosing indentation strings. "
  "Reading from the start, each choice outside a flat region takes its first option if and only if the current line, continued with that option and with everything after it up to the next newline (later choices counted at their second option), stays within the width and puts no text after an end-of-line marker; inside a flat region it always takes the first option.",
  ["inputs", "programs"],
  "every document, every (validated) notation built from empty, newline, end-of-line, literal, text, flat, indent, concat, choice, every line width, including narrow, wide and zero-width characters",
  "Tests compare a handful of widths per hand-written document with hand-written lines, and about 10k fixed-seed childless notations with the library's own oracle, which shares the notation evaluator with the printer; nothing covers multi-node documents, wide characters, styles or widths above 8 at random.",
  [PP, CN, GE], [("fits / choose decide each choice", f"{PP}: fn fits, Printer::choose"), ("blocks split at newlines", f"{PP}: expand_focusing_first_block"), ("flat and indent contexts", f"{CN}: DelayedConsolidatedNotation::eval")],
  ["pretty_print_to_string", "pretty_print at the root start, downward iterator"],
  [{"name": "prefix_len / at_eol", "meaning": "what is already on the current line", "where": PP}])

p("L02", "Printing around any focus shows the same lines as printing the whole document",
  "For every node path, focus target and width, the lines above the focus (reversed), the focused line and the lines below it are exactly the lines of the whole printed document, each once and in order, with the same text and styles. "
  "It does not matter how requests to the two iterators are interleaved, how many lines are taken, or what other printing sessions run in between.",
  ["inputs", "schedules", "histories"],
  "every document, path, focus target (start, end, mark, text position), width, and every interleaving of upward and downward requests, also across concurrent sessions on the same document",
  "Tests exhaust the upward iterator before the downward one, check only start and end targets for equality with the whole, ignore styles, and only for a few dozen documents.",
  [PP], [("seeking resolves only what is needed", f"{PP}: seek_child, seek_start, seek_end, seek_mark, seek_text"), ("two stacks of blocks split at the focus", f"{PP}: Printer.prev_blocks / next_blocks"), ("last/first block expansion", f"{PP}: expand_focusing_last_block, expand_focusing_first_block")],
  ["pretty_print's upward iterator, focused line, downward iterator"],
  [{"name": "prev_blocks, next_blocks", "meaning": "partially resolved lines before and after the focus", "where": PP}])

p("L03", "The focus point is exactly where the requested target is in the printed document",
  "Following the path through the first display of each node on it, the focused line splits at the place of the requested node: just before it (start), just after it (end), at the first focus mark belonging to that node's own notation (mark), or before the n-th character of that node's own text, or after its last character if n is too large (text). "
  "If the chosen layout does not display a node of the path, or that node has no mark or shows no text of its own, an error naming that is returned (invalid path with the offending child index, missing mark, missing text) and no other place is focused.",
  ["inputs"],
  "every document, path (valid or not), focus target, text position and width",
  "A dozen hand-placed focus assertions on JSON documents, none with missing text/mark, repeated or reordered children, or conditionally displayed children.",
  [PP], [("path traversal", f"{PP}: seek, seek_child"), ("marks and text matched to the node", f"{PP}: seek_mark, seek_text"), ("text split", f"{CN}: Textual::split_at")],
  ["FocusedLine.left_segments / right_segments", "Err(InvalidPath | MissingFocusMark | MissingText)"])

p("L04", "Children, counts, folds and checks follow the document's structure",
  "A child reference shows the child at that index (negative indices count from the end); count shows its zero, one or many option by the number of children; a fold shows nothing for no children, its first notation for one, and otherwise its join notation once per later child with left meaning everything before and right the next child. "
  "A check shows its first notation iff the condition holds of the node it points at: the current node, the indexed child, or, in a fold's join, the child just before or the child being added.",
  ["inputs", "programs"],
  "every document shape (0..n children, any depth), any index in range, any truth assignment of conditions, any nesting of count/fold/check with choices, flat, indent and styles",
  "Four tests in children.rs with at most four children each; left/right checks and negative indices are each tried once.",
  [CN, NO], [("notation evaluation", f"{CN}: DelayedConsolidatedNotation::eval"), ("negative indices", f"{NO}: normalize_child_index"), ("position inside a fold", f"{CN}: JoinPos")],
  ["pretty_print_to_string", "pretty_print lines"])

p("L05", "Printed text carries the style of all enclosing regions, outer to inner",
  "Each printed piece of text carries the combination, in order from outermost to innermost, of the root style if given, the node style of every enclosing node, and every enclosing style region (looked up in the node whose notation applies it); indentation strings carry the style in force at the indent construct combined with its own style if it has one. "
  "Each piece reports its own width in columns, and the line widths (whole, left and right of the focus) are the sums of those; splitting a text at the focus leaves its width as it is, the left part being as wide as its characters (at most as wide as the text).",
  ["inputs", "programs"],
  "every nesting of nodes, style regions, indents, folds and choices, any style algebra (a free monoid makes any omission, duplication or reordering visible)",
  "One test looks at styles of one JSON object with a lossy style (colour overrides), so reordered or doubled combination would pass; indentation styles, root styles and widths are never asserted.",
  [CN, PP], [("style threaded through evaluation", f"{CN}: eval (Style, Child, Right, Indent), with_optional_style"), ("segments", f"{PP}: Block::new, push_text, Line::width")],
  ["Segment.str/.width/.style of every line", "Line::width, FocusedLine::left_width/right_width/width"])

p("L06", "Validation accepts exactly the notations without a documented flaw",
  "Validating a notation succeeds if and only if it has none of the documented flaws: fold-only constructs outside a fold's join, nested counts or folds, child or text references impossible in their context, text that can directly follow an end-of-line marker within the notation, or a second focus mark that always follows a first (what a fold and its left and right parts contribute to the last two is not judged). "
  "On failure, the error reported is one of the flaws the notation really has.",
  ["programs"],
  "every notation term over all constructors",
  "No test asserts on any validation error; only success on sample notations is exercised.",
  [VN], [("recursive validation with context and history", f"{VN}: validate_rec, Context, History")],
  ["Notation::validate"])

p("L07", "Text never follows an end-of-line marker on the same line",
  "In every successfully printed line nothing is displayed after an end-of-line marker: either a newline (or the document's end) follows it, or printing that line fails with the text-after-end-of-line error and no such line is ever returned. "
  "A document that is a single node whose notation passed validation and contains no fold never produces that error.",
  ["inputs", "programs"],
  "every document with end-of-line markers anywhere (before, inside and after children, choices and empty texts), every width and focus",
  "The suite has one JSON-comment family and four one-line eol notations; the error itself is never produced in a test.",
  [PP, VN], [("at_eol flag", f"{PP}: Block.push_text, fits"), ("validation history", f"{VN}: History.eol")],
  ["lines and errors returned by pretty_print and its iterators"])

p("L08", "A notation not matching its document gives the documented error, never a panic",
  "Printing any document whose notations all passed validation returns lines or an error and never panics or overflows the stack, whatever the nodes contain and however many or deeply nested they are. "
  "Displaying text of a node with children, a child or child-check of a text node or out of range, or a count on a text node yields the corresponding error with the offending index and child count, while every line returned before it is a correct line of the document. Requesting further lines after an error comes to an end, without a panic.",
  ["inputs", "programs"],
  "every pairing of validated notations with documents (including mismatching ones), every width, path, and focus target",
  "No test produces any PrintingError other than InvalidPath.",
  [CN, PP, VN], [("mismatch errors", f"{CN}: PrintingError, eval"), ("validation guards the unwraps", f"{CN}: join_pos.unwrap()")],
  ["Result of pretty_print and of each iterator item"])

p("L09", "An error raised by the document is passed through unchanged and corrupts nothing",
  "If any call into the document fails, the printing call or line request in progress returns exactly that error, without a panic and without retrying; lines returned before are exactly the correct ones. "
  "If no call fails, no document error is reported.",
  ["fault_sequences", "inputs"],
  "every document call that can fail at every position in the call sequence, for every document, focus and request order",
  "All test documents use an infallible error type.",
  [PP, CN, PD], [("? on every document call", f"{CN}: eval; {PP}: Chunk::new"), ("error conversion", f"{CN}: PrintingError::PrettyDoc")],
  ["Result of pretty_print and iterator items", "document call log"])

p("L10", "The printer only makes the document calls it promises to make",
  "Text is requested only of nodes that report no children, a child only at an index below the reported count, the last child only of nodes with at least one, and a previous sibling only with the true parent and index. "
  "Conditions are only asked of nodes that a check of a notation designates, and styles are only looked up with labels used by that node's own notation.",
  ["inputs", "histories"],
  "every document, notation (matching or not), width, focus and request order",
  "Test documents accept any call or panic only on gross misuse; default method implementations hide wrong last-child and previous-sibling calls.",
  [CN, PD], [("documented preconditions", f"{PD}: trait PrettyDoc"), ("call sites", f"{CN}: eval")],
  ["calls recorded by an instrumented PrettyDoc"])

p("L11", "Printing a few lines examines only the part of the document near them",
  "Focusing on a node and printing some lines around it examines the contents of a node only if the node's own parent had to be laid out to find or print those lines or to decide whether they fit; content of nodes lying wholly on other lines is never examined. "
  "The number of document calls made for this is bounded by the work of laying out those nodes and does not depend on the size of the rest of the document.",
  ["inputs", "histories"],
  "every document, focus, width and every sequence of upward and downward requests",
  "One test prints the middle of a big document but asserts nothing about the work done; time_json is ignored.",
  [PP, CN], [("delayed notations", f"{CN}: DelayedConsolidatedNotation"), ("blocks left unresolved while seeking", f"{PP}: seek_child step 1"), ("lazy iterators", f"{PP}: UpwardPrinter, DownwardPrinter")],
  ["calls recorded by an instrumented PrettyDoc, per request"])

p("L12", "Lines stay within the width whenever the most broken layout does",
  "If every choice in the document has a first option without newlines that is never narrower than its second option's first line, and taking every second option outside flat regions yields lines that all fit the width, then every printed line fits the width. "
  "If in addition taking every first option yields a single line that fits the width (with no text after an end-of-line marker), the document is printed as exactly that line, at this and every greater width.",
  ["inputs"],
  "every document whose choices obey the documented rule, every width",
  "Tests check chosen examples at chosen widths; no test states the guarantee.",
  [PP], [("fits", f"{PP}: fn fits"), ("documented choice rule", f"{NO}: Notation::Choice")],
  ["width of every line of pretty_print_to_string / pretty_print"])

p("L13", "Extremely wide text and windows are handled without overflow",
  "Texts, indentation, lines and windows of any width, including beyond the largest representable column, never cause a panic, and such text is treated as too wide for any smaller page: a choice never takes an option whose line exceeds the width because a width wrapped around. "
  "The width reported for a line, or for a half of the focused line, is that of its pieces, or the largest width if they are wider. "
  "Likewise any pane weight or fixed size is accepted.",
  ["inputs", "configurations"],
  "texts and sums of texts around and above 65535 columns, page and window widths up to 65535, pane weights and sizes up to the machine maximum, unbounded window height",
  "No test uses a text longer than a few dozen columns or a window larger than 20 columns.",
  [GE, PP, DP, DV], [("column arithmetic", f"{GE}: str_width; {PP}: push_text, Block::new, Line::width"), ("pane arithmetic", f"{DP}: display_line, Fill; {DV}: allocate_proportional")],
  ["pretty_print, pretty_print_to_string, display_pane"])

p("P01", "Pane space is divided fixed first, then dynamic, then in exact proportion",
  "Along a split, fixed subpanes get their size in order while space lasts, then dynamic subpanes, and proportional subpanes share what remains: each within one cell of its exact share, all of it handed out, leftover cells going to the largest fractional shares, exact ties leftmost, and a zero weight getting nothing. "
  "Subpanes are laid out contiguously in order, never exceed the available space, and keep the full extent in the other direction, at any nesting depth.",
  ["inputs", "configurations"],
  "every list of pane sizes (including zero sizes and weights), every window size, every nesting of horizontal and vertical splits",
  "One unit test with eleven weight vectors and a few 7x7 windows.",
  [DV, DP], [("division", f"{DV}: Divvier"), ("rectangles", f"{DP}: display_pane_rec Horz/Vert")],
  ["display_char positions received by an instrumented PrettyWindow"])

p("P02", "Every cell of every pane is painted exactly once, and nothing is painted outside",
  "While a pane layout is displayed, no window cell is painted twice (a full-width character paints two), no paint falls even partly outside the pane it belongs to or outside the window, and every cell of every fill pane and of every pane with a document is painted. "
  "A fill pane shows its character throughout, with blanks only where a full-width character no longer fits. (For text of one- and two-column characters.)",
  ["inputs", "configurations"],
  "every pane notation, window size, document, focus, width strategy, and mix of narrow and wide characters",
  "Tests look at the final text of about fifteen windows, where double painting and paints into a neighbour that is painted later are invisible.",
  [DP], [("painting", f"{DP}: display_pane_rec Fill, display_line, display_blank_line")],
  ["display_char calls received by an instrumented PrettyWindow"])

p("P03", "A document pane shows the right lines, clipped, at the requested height",
  "A document pane shows, at the requested relative height (rounded to the nearest row), the document line containing the focus, with the document's neighbouring lines above and below it and blank rows beyond the document's ends. "
  "The document is printed at the width its strategy asks for (full pane width, fixed, or at most), each line is cut at the pane's edge before any character that does not fit, and the rest of the row is blank in the pane's style (for text of one- and two-column characters).",
  ["inputs", "configurations"],
  "every document, focus path and target, focus height, pane size, width strategy",
  "Seven focus heights of a one-line document and a few seek cases, all with plain-text comparison.",
  [DP, PO], [("choosing lines", f"{DP}: PrintedDoc::new"), ("placing them", f"{DP}: PrintedDoc::display, display_line"), ("row and width choice", f"{PO}: choose_focus_line_row, choose_width")],
  ["display_char calls: position, character, style"])

p("P04", "A dynamic pane is exactly as large as its content and shows all of it",
  "A dynamic subpane gets exactly as many rows as the lines it would show in all the space still available to it (or as many columns as the widest of them, at most that space), earlier dynamic subpanes being served first and proportional ones getting only the rest. "
  "All those lines are shown in it, whatever its focus height.",
  ["inputs", "configurations"],
  "every mix of fixed, dynamic and proportional subpanes in both directions, every document, focus and focus height",
  "Five examples, all focused at the start of the document with focus height 0.",
  [DP, DV], [("measuring then placing", f"{DP}: Horz/Vert dynamic branches, PrintedDoc::height/width")],
  ["display_char and set_focus calls"])

p("P05", "Focus points are reported where the focus is displayed",
  "For each displayed document that asks for it, and no other, the window is told exactly one focus point: the pane's origin plus the row given to the focused line and the printed width of the part of that line left of the focus (for text of one- and two-column characters).",
  ["inputs", "configurations"],
  "every arrangement of document panes (including dynamic, styled and nested ones), focus, focus height",
  "One test with one document.",
  [DP], [("focus point", f"{DP}: PrintedDoc::new focus_point, display")],
  ["set_focus calls received by an instrumented PrettyWindow"])

p("P06", "Pane styles combine from the outside in and reach every character",
  "Every character painted in a pane carries the combination, outermost first, of the style given for the whole window and all enclosing pane styles, followed for document text by the document's own styles; blanks and fill characters carry exactly the pane part.",
  ["inputs", "configurations"],
  "every nesting of pane styles around splits, fills, documents and dynamic documents",
  "No test uses a pane style.",
  [DP], [("style threading", f"{DP}: PaneNotation::Style, extract_doc, blank_style")],
  ["style argument of display_char"])

p("P07", "Pane errors are reported as such and stop the display",
  "A dynamic size on anything but a (possibly styled) document is reported as invalid use of dynamic; an error from the window, the document or the printer is returned unchanged, wrapped as what it is. "
  "After the failing window call no further window call is made, everything painted before is as it would be without the error, and a correct layout with no failing call never yields an error. "
  "A flawed node does not make the display fail when it is on separate lines of its own that the pane does not show.",
  ["fault_sequences", "configurations", "inputs"],
  "every window and document call failing at every position, every misplaced dynamic size at any depth",
  "No test exercises any pane error.",
  [DP], [("error mapping", f"{DP}: PaneError, map_err"), ("extract_doc", f"{DP}: extract_doc")],
  ["Result of display_pane", "calls received by the window before and after the failure"])

p("P08", "The plain-text window shows exactly the characters displayed to it",
  "After any sequence of character displays, the plain-text window's text has, row by row, each displayed character at its column (until one is displayed that covers all of its columns), spaces in the gaps to its left, nothing for the second half of a full-width character, and a line break after each row up to the last row touched; focus points are listed in the order they were set and the size is the one given.",
  ["inputs", "histories"],
  "every order of display_char and set_focus calls in any row/column order, over fresh cells or over all cells of earlier characters",
  "Only exercised through left-to-right, top-to-bottom painting by display_pane.",
  [PT], [("line buffer", f"{PT}: display_char, Display")],
  ["to_string, focus_points, size of PlainText"],
  [{"name": "lines", "meaning": "characters written so far", "where": PT}])

p("X01", "Printed JSON is the same JSON at every width",
  "A comment-free JSON document built with the library's JSON constructors prints, at every width, to text that parses back to the same value (for texts needing no escapes); comments never absorb or split anything: with comment lines removed the same holds for documents with comments. "
  "Commas follow exactly the entries that are not comments and not the last non-comment entry.",
  ["inputs", "configurations"],
  "every JSON value with comments anywhere in arrays and objects, every width",
  "About twelve hand-written documents at hand-picked widths.",
  [JS, TR], [("notations", f"{JS}: JSON_*_NOTATION"), ("separators", f"{TR}: new_branch needs_separator")],
  ["pretty_print_to_string of doc_examples::json documents"])

p("X02", "JSON arrays and objects are on one line iff they fit, else one entry per line",
  "An array or object is displayed on a single line if and only if it contains no line break (comment) and fits the remaining width together with what must follow it on that line; otherwise each entry is on its own line(s), indented four columns deeper than the bracket's line, with the closing bracket on its own line. "
  "Comment words wrap at the width with the comment prefix repeated on every line, and every kind of value has its documented colour. "
  "A focus within a string, key, number or comment word is at that character of it, and the mark of an empty array, object, comment or document is where its first entry would be.",
  ["inputs", "configurations"],
  "every JSON value with comments, every width, every focus",
  "Hand-written layouts only; constants' colours are never asserted.",
  [JS, ST], [("single | multi choice", f"{JS}: JSON_ARRAY_NOTATION, JSON_OBJECT_NOTATION"), ("comment wrapping", f"{JS}: JSON_COMMENT_NOTATION"), ("styles", f"{ST}: From<&str>, combine")],
  ["lines and segment styles of doc_examples::json documents"])

p("X03", "Tree nodes keep unique ids, true separator flags and their own styles",
  "Across any sequence of node constructions between resets, ids are consecutive and never repeat within a thread and restart at zero after a reset. "
  "In every branch, a child needs a separator iff it is not a comment and a later sibling is not a comment; text, children, style overrides (first matching wins, else the label's default) and conditions read back as built.",
  ["histories", "inputs"],
  "every interleaving of text, branch, comment, style and reset operations, also from several threads",
  "Two JSON comment tests; ids are never asserted.",
  [TR, ST], [("id counter", f"{TR}: next_id, reset_id"), ("separators", f"{TR}: new_branch"), ("trait impl", f"{TR}: impl PrettyDoc for &Tree")],
  ["public fields and PrettyDoc methods of Tree"],
  [{"name": "ID_COUNTER", "meaning": "next id of this thread", "where": TR}])

p("X04", "Notation shorthands and serialization preserve meaning",
  "Each constructor function and shorthand operator builds exactly the notation it abbreviates (concatenation, choice, newline-join, and nesting by that many spaces before a newline), and a notation that is serialized and deserialized is the same notation and prints identically.",
  ["programs"],
  "every notation term built through constructors and operators, every nesting width",
  "Operators are used throughout the tests but only on fixed terms; serialization has no test at all.",
  [NO, "src/notation_constructors.rs"], [("operators", f"{NO}: impl Add/BitOr/BitXor/Shr"), ("derives", f"{NO}: Serialize, Deserialize")],
  ["structure of the built Notation", "its serde form", "printed lines"])

p("X05", "The testing oracle prints what the real printer prints",
  "For every document that prints without error, at every width the oracle supports, the published testing oracle produces exactly the text of the whole-document printer.",
  ["inputs", "programs"],
  "every document and validated notation, widths below the oracle's limit of 10000",
  "The suite compares the two on fixed-seed childless notations and its own examples only.",
  [OR, PP], [("oracle", f"{OR}: pp, first_line_len")],
  ["testing::oracular_pretty_print vs pretty_print_to_string"])

p("X06", "What is shown to people is what there is",
  "Displaying a notation shows exactly its structure: every construct, text, child index, condition, checked position and style label in its place, so that notations of different structure are shown differently (grouping of concatenations and indentation styles aside); a validated notation is displayed like the notation it came from. "
  "A position is displayed as row:col and a size as height:width; positions are ordered by row, then column, and a position plus a size is componentwise. "
  "Every error's message names the construct at fault and gives the very indices and counts the error carries, errors of different kinds have different messages, and an error that wraps another repeats its message and has it as its source.",
  ["inputs", "programs"],
  "every notation, every position and size whose sum is representable, every error of the library (printing, notation and pane errors) with every index and count",
  "No test displays a notation, a position or an error; the messages of errors and the debugging display are never looked at.",
  [NO, VN, CN, GE, DP], [("display of notations", f"{NO}: impl fmt::Display for Notation"), ("error messages", f"{CN}: PrintingError; {VN}: NotationError; {DP}: PaneError"), ("positions and sizes", f"{GE}: impl Display / Add for Pos, Size")],
  ["to_string() of notations, positions, sizes and errors", "Error::source", "Ord and Add of Pos"])

p("X07", "The example style is what its labels and its enclosing styles say",
  "A basic style made from a label has that colour, bold iff the label says bold, and is the default (white, not bold) for any other label; building one up changes exactly what is asked for. "
  "Text printed within any nesting of root style, node styles and styled regions (through labels or a node's overrides) has the colour of the innermost one and is bold iff any of them is.",
  ["inputs", "programs"],
  "every label, every sequence of building operations, every nesting of styles around a text",
  "Tests print a few documents with one or two styles around a text.",
  [ST, CN], [("labels, combination", f"{ST}: BasicStyle::from, combine"), ("styles of nested nodes and regions", f"{CN}: DelayedConsolidatedNotation::eval")],
  ["fields of BasicStyle", "Segment::style"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
