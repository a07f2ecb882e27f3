#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Parsing is independent of how the input is delivered",
 "For any input, parsing it from a stream yields the same sequence of segments (syntax trees with all literal values and source ranges, node ordinals, directives, error positions and messages, end-of-input flags) and the same final position as parsing it from memory. This holds however the stream divides the bytes into reads, whatever its buffering, and however large the input is.",
 ["schedules", "inputs"],
 "all byte strings x all divisions of the bytes into reads x all stream bufferings x all flag/configuration combinations",
 "The tests parse short strings from memory and a few from one in-memory stream; they never compare the two sources, never vary the read boundaries, and never use input larger than the parser's first buffer fill.",
 ["lib/src/parser.c", "lib/src/parser.leg", "lib/src/errors.c", "lib/src/segment.c"],
 [("memory and stream sources feeding the same refill loop", "lib/src/parser.c source_from_buffer/source_from_stream"),
  ("positions rebuilt from line starts under backtracking", "lib/src/parser.c line_start/backtrack_lines/input_position")],
 ["segment callback sequence and AST rendering", "value written through the last-position argument"])

prop("C02", "Segments from a stream are delivered promptly, nothing over-read",
 "When parsing from a stream, every statement or command that is complete in the bytes received so far (its terminator has arrived, and nothing that could follow, such as the end of an open quote or comment, would change it) has been handed to the callback before any further byte is requested from the stream, so a stalled stream never withholds a completed segment. A single-segment parse consumes exactly the bytes of such a segment, so repeated single-segment parses of one stream, each continuing at the position the previous one reported, yield the same segments as one parse of the whole.",
 ["schedules", "histories"],
 "all inputs x all points at which the stream stalls x all sequences of single-segment parses of one stream, for both the full and the quick parser",
 "The tests read complete in-memory streams; no test observes what has been delivered at the moment more input is requested, or what is left in the stream after a single-segment parse.",
 ["lib/src/parser.c", "lib/src/parser.leg", "lib/src/quick_parser.c", "lib/src/quick_parser.leg"],
 [("one byte requested at a time, only when the grammar needs it", "lib/src/parser.c source_from_stream"),
  ("rules that stop at the terminator", "lib/src/parser.leg directive/statement/client-command")],
 ["order of stream read requests and segment callbacks", "unread remainder of the stream"])

prop("C03", "A failed allocation makes a parse fail cleanly, at any point",
 "If any memory allocation fails during a full or quick parse, the call neither crashes nor hangs and reports failure with an out-of-memory error (unless it still delivers the complete correct outcome). The segments delivered before the failure are exactly a prefix of those of a failure-free run, all memory is released exactly once, and later parses in the same process behave as if the failure had never happened.",
 ["fault_sequences", "inputs"],
 "all inputs x every allocation in the run failing, singly, in groups, or all from some point on",
 "No test makes an allocation fail, so none of the abort paths, the long jump out of the grammar or the clean-up of half-built trees is ever executed by the suite.",
 ["lib/src/parser.c", "lib/src/quick_parser.c", "lib/src/vector.c", "lib/src/string_buffer.c", "lib/src/errors.c", "lib/src/segment.c", "lib/src/result.c", "lib/src/ast.c"],
 [("long jump out of the generated parser", "lib/src/parser.c safe_yyparsefrom/abort_parse"),
  ("release of open blocks and pending state", "lib/src/parser.c parse_one failure path, parse_each cleanup")],
 ["return value and errno of the parse calls", "live allocations after the call", "segment callback sequence"],
 state=[("open blocks and their children", "half-built trees owned by the parser until a node takes them", "lib/src/parser.c struct block")])

prop("C04", "A read error is reported as failure, never taken for end of input",
 "If the stream being parsed reports a read error at any byte, the call fails and reports that error; it never completes successfully as though the input had ended there, and it never delivers a segment built from the incomplete tail. Segments completed (terminated, with no quote, quoted name or comment left open) by the bytes received before the error are delivered unchanged, and all memory is released.",
 ["fault_sequences", "inputs"],
 "all inputs x every byte offset at which the read fails x error kinds (I/O error, interrupted, would block, stale handle), for the full parser (segments and whole result) and the quick parser",
 "No test uses a stream whose reads fail.",
 ["lib/src/parser.c", "lib/src/quick_parser.c"],
 [("end of file versus error on a short read", "lib/src/parser.c source_from_stream; lib/src/quick_parser.c source_from_stream")],
 ["return value and errno", "segment callback sequence"])

prop("C05", "Truncated input: completed segments survive unchanged",
 "If the producer of the input dies so that the input ends early at any byte, every segment whose terminator lies before the cut (with no quote, quoted name or comment left open) is delivered exactly as it would be from the complete input, and is not marked as ended by the end of input. The remaining bytes are accounted for by further segments of which only the last can be marked as ended by the end of input, and the parse reports success.",
 ["crash_points", "inputs"],
 "all inputs x every byte offset at which the input is cut, from memory and from a stream, for the full and the quick parser",
 "Tests parse a handful of unterminated statements; none compares the parse of a prefix with the parse of the whole for every cut.",
 ["lib/src/parser.c", "lib/src/parser.leg", "lib/src/quick_parser.c", "lib/src/quick_parser.leg"],
 [("each segment parsed independently of what follows it", "lib/src/parser.c parse_each"),
  ("end of input accepted wherever a terminator is", "lib/src/parser.leg SEMICOLON | EOF alternatives")],
 ["segment callback sequence of the prefix against that of the whole"])

prop("C06", "Stopping and resuming at any segment boundary loses nothing",
 "A parse that is stopped after any segment, and continued in a new parse of the remaining bytes configured with the reported position and the next free ordinal, delivers in total exactly the segments, positions (line, column and offset), ordinals and errors of one uninterrupted parse. This holds for any number of interruptions and any mixture of memory and stream sources.",
 ["crash_points", "histories", "inputs"],
 "all inputs x all subsets of segment boundaries at which the parse is stopped and restarted x source kinds",
 "Tests check the reported position for a few short inputs and one configured start; none continues a parse from it and compares.",
 ["lib/src/parser.c", "lib/src/parser_config.c", "lib/src/segment.c"],
 [("position offset and ordinal carried from segment to segment", "lib/src/parser.c parse_each"),
  ("initial position and ordinal", "lib/src/parser_config.c")],
 ["concatenated segment sequence", "final position"])

prop("C07", "The callback controls the parse exactly",
 "A parse calls its callback once per segment in input order and stops at once when told to: a positive return ends the parse successfully, a negative return is handed back unchanged as the result, and no further callback is made after either. A parse limited to a single segment makes at most one call, and the reported final position is always the end of the last segment handed over.",
 ["histories", "schedules", "inputs"],
 "all inputs x all histories of callback return values x source kinds and deliveries, for the full and the quick parser",
 "Tests use callbacks that always continue, or stop at one fixed segment; no test covers the history space or checks what else happens after a stop.",
 ["lib/src/parser.c", "lib/src/quick_parser.c", "lib/src/quick_parser.leg"],
 [("handling of the callback result", "lib/src/parser.c parse_each; lib/src/quick_parser.c parse")],
 ["number and order of callbacks", "return value", "value written through the last-position argument"])

prop("C08", "A retained segment lives, unchanged, exactly until its last release",
 "A segment stays valid and unchanged while the parse is delivering it and for as long as a reference to it is retained, whatever happens meanwhile: further parsing, failure of that parse, other parses, releases of other segments. All memory of a segment is released as soon as, and not before, its last reference is released.",
 ["histories", "fault_sequences"],
 "all histories of retain, release, reading and further parsing over any number of segments, with parses that succeed, are stopped, or fail at any allocation or read",
 "No test retains a segment beyond its callback.",
 ["lib/src/segment.c", "lib/src/parser.c"],
 [("reference count", "lib/src/segment.c cypher_parse_segment_retain/release"),
  ("hand-over of trees and errors from parser to segment", "lib/src/parser.c parse_each")],
 ["contents of retained segments re-read after every step", "live allocations"],
 state=[("reference count", "number of holders", "lib/src/segment.h")])

prop("C09", "A whole-input result is exactly the concatenation of its segments",
 "Parsing an input into one result yields, in order, exactly the trees, directives and errors of the segments that a segment-by-segment parse delivers, with the total number of nodes and the end-of-input flag of the last statement or command, and the accessors of results, segments and trees give access to everything they hold, and to nothing beyond the counts they report. This holds for any number of segments and any delivery of the input, and if collecting a segment fails for lack of memory the call fails, with everything released exactly once.",
 ["inputs", "schedules", "fault_sequences"],
 "all inputs with any number of segments x deliveries x every allocation failing while results are collected",
 "Tests look at results of one or two statements; growth of the collected arrays, and failure while growing them, are never exercised.",
 ["lib/src/result.c", "lib/src/parser.c", "lib/src/segment.c"],
 [("merging a segment into a result", "lib/src/result.c cp_result_merge_segment")],
 ["result accessors", "live allocations"])

prop("C10", "Independent parses never interfere, concurrently or nested",
 "Any number of threads may at the same time parse, quick-parse, clone, annotate, render and release their own objects, and read, clone and render shared trees and configurations, and a callback may itself run further parses: each operation's outcome is exactly what it would be if run alone. This holds for every interleaving, including when some of the operations fail.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of the operations' steps across threads and all nestings through callbacks, with and without failing allocations",
 "All tests are single-threaded and none parses inside a callback.",
 ["lib/src/parser.c", "lib/src/quick_parser.c", "lib/src/parser_config.c", "lib/src/ast.c", "lib/src/errors.c", "lib/src/operators.c"],
 [("all parse state in a per-call context", "lib/src/parser.c YY_CTX_LOCAL, yycontext"),
  ("read-only shared tables and default configuration", "lib/src/operators.c, lib/src/parser_config.c")],
 ["outcome of each task against its outcome when run alone"])

prop("C11", "Annotations are released exactly once, and only when they should be",
 "An attached annotation can be read back from its node and context until it is replaced, removed, or released because its node or its context is released; only in that last case is the context's handler called, exactly once, with the node, the annotation and the handler's user data. Contexts and nodes can be released in any order, a failed attach changes nothing, and annotations of other nodes and contexts are unaffected.",
 ["histories", "fault_sequences"],
 "all histories of creating contexts, attaching, replacing, removing, reading, releasing trees and releasing contexts, over many nodes and contexts, with any attach failing for lack of memory",
 "Tests use one or two nodes and contexts in a fixed order; no history with interleaved releases, and no failing attach, is run.",
 ["lib/src/annotation.c", "lib/src/annotation.h", "lib/src/ast.c"],
 [("two intrusive lists, per node and per context", "lib/src/annotation.c attach_*/detach_*"),
  ("release on node and context destruction", "lib/src/annotation.c cp_release_annotation; lib/src/ast.c cypher_astnode_free/cypher_ast_free")],
 ["release handler calls", "annotation reads", "live allocations"])

prop("C12", "A cloned tree is equal to and independent of the original",
 "Cloning any tree yields a tree equal to the original in every node type, attribute, child role and source range (ordinals, which number the nodes of one parse, are not part of the tree's value), sharing nothing with it: either may be released first, and annotations stay with the original. If memory runs out at any point the clone fails, the original is untouched and everything allocated is released.",
 ["inputs", "histories", "fault_sequences"],
 "all trees the parser can build x all orders of cloning, reading and releasing originals and clones x every allocation failing",
 "No test clones a tree at all.",
 ["lib/src/ast.c", "lib/src/astnode.h", "lib/src/ast_*.c"],
 [("recursive clone with child indices remapped", "lib/src/ast.c cypher_ast_clone, lib/src/astnode.h child_index"),
  ("per-type clone functions", "lib/src/ast_*.c clone()")],
 ["every public accessor of every node of clone and original", "live allocations"])

prop("C13", "Building a tree node either succeeds completely or changes nothing",
 "Constructing any kind of syntax tree node from given children either returns a node with exactly the given attributes that owns those children, or, if memory runs out, returns nothing with an out-of-memory error. In the failing case the children remain intact and owned by the caller, nothing is leaked, and the same construction succeeds when repeated.",
 ["fault_sequences", "programs"],
 "all node kinds x all legal child and attribute combinations x every allocation in the construction failing",
 "Tests never call a node constructor directly and never make one fail.",
 ["lib/src/ast.c", "lib/src/ast_*.c"],
 [("allocate, initialise, and undo on failure in each constructor", "lib/src/ast_*.c"),
  ("copy of the child array", "lib/src/ast.c cypher_astnode_init")],
 ["return value and errno of constructors", "accessors of the built node and of its children", "live allocations"])

prop("C14", "Rendering a tree to a failing stream fails, never lies",
 "Rendering a tree, segment or result to a stream writes exactly the same bytes whatever the stream's buffering, with the text shown for a node depending only on that node's tree and not on what was rendered before it, naming by ordinal exactly the nodes its accessors give (the options of a query aside) and differing between nodes of one type whose attributes differ, with columns aligned and with a width or colours only breaking or marking up that text, and reports success only if the stream accepted every write made during the call. If a write or an allocation fails at any point, the call reports failure with the error, what was written is a prefix of the correct output, nothing leaks, and rendering again to a working stream gives the complete output.",
 ["fault_sequences", "inputs"],
 "all trees x widths and colour schemes x every byte offset at which the output stream fails (disk full, I/O error, interrupted) and every allocation failing",
 "Tests render to an in-memory stream that cannot fail.",
 ["lib/src/ast.c", "lib/src/util.c", "lib/src/segment.c", "lib/src/result.c"],
 [("result of every output call checked", "lib/src/ast.c _cypher_ast_fprint/ast_fprint_detail"),
  ("growing text buffer", "lib/src/util.c snprintf_realloc; lib/src/ast.c cypher_astnode_detailstr_realloc")],
 ["bytes accepted by the stream", "return value and errno"])

prop("C15", "The quick parser gives the same segments for every delivery",
 "For any input, quick parsing from a stream yields the same sequence of segments (kind, text, range, next position, end-of-input flag) as from memory, however the bytes are divided into reads and however large the input is. The text handed to the callback is exactly the bytes of the input at the reported range, reported lines and columns agree with the line breaks of the input, and ranges and next positions advance through the whole input without overlap, leaving out only white space, comments and terminators. Input that the full parser accepts is divided as the full parser divides it: one quick segment for each statement or command, starting with it and containing it (option values of CYPHER that contain terminators, quotes or comment marks aside).",
 ["schedules", "inputs"],
 "all byte strings x all divisions into reads x stream bufferings x flags",
 "Tests quick-parse short strings from one source at a time, and never compare sources, deliveries or the text with the input.",
 ["lib/src/quick_parser.c", "lib/src/quick_parser.leg"],
 [("memory and stream sources feeding the same refill loop", "lib/src/quick_parser.c source_from_buffer/source_from_stream"),
  ("position tracking across segments", "lib/src/quick_parser.c segment/input_position")],
 ["quick segment callback sequence"])

prop("C16", "Damage inside one statement does not spread to the others",
 "If the bytes of one statement in an input are corrupted without adding or removing any statement terminator, quote, escape, comment or command marker (and it contained none inside but its final terminator and balanced quotes), then all other statements and commands are parsed into the same trees with the same errors as before, except that positions and ordinals after the damage may shift uniformly. Errors caused by the damage are reported only at positions within the damaged statement's segment, and a damaged input never makes the parse itself fail.",
 ["fault_sequences", "inputs"],
 "all multi-statement inputs x all corruptions (flipped, lost, duplicated or inserted bytes) confined to one statement x deliveries",
 "The error tests check messages of single broken statements; none checks what the neighbours of a broken statement become.",
 ["lib/src/parser.c", "lib/src/parser.leg", "lib/src/errors.c"],
 [("resynchronisation at the next terminator", "lib/src/parser.leg skip-to-*"),
  ("error state cleared per segment", "lib/src/errors.h cp_et_clear_errors; lib/src/parser.c parse_one/parse_each")],
 ["segments before and after the damaged one", "error positions"])

prop("C17", "The lint tool never reports success for input it did not check",
 "The lint tool exits with status zero exactly if every given input was opened, read to its end (or to the end of its first segment if so asked) and found free of errors, and all requested output was written. Any failing open, read, write or allocation leads to a non-zero exit status, whatever else happened before, and never to a crash or hang.",
 ["fault_sequences", "configurations"],
 "all combinations of options, files and standard input x every open, read, write or allocation failing",
 "The tool has no tests at all.",
 ["linter/src/cypher-lint.c", "lib/src/parser.c", "lib/src/ast.c"],
 [("accumulation of per-file results into the exit status", "linter/src/cypher-lint.c main/process"),
  ("error reporting of the parse and print calls", "linter/src/cypher-lint.c process_streamed/process_all")],
 ["exit status", "bytes accepted on standard output and standard error"])

prop("C18", "The lint tool gives the same verdict for every way of feeding it",
 "For the same inputs and options the lint tool reports the same errors in the same order and exits with the same status whether the input comes from a file or standard input, in whatever read sizes, and whether it works statement by statement or on the whole input. With several readable inputs the reports are those of the single inputs in order, and the status is zero exactly if it is zero for each. The reports are the library's errors of that input, each with its name, line, column and message.",
 ["schedules", "configurations", "inputs"],
 "all inputs x deliveries x streaming or whole mode x groupings of inputs into files",
 "The tool has no tests at all.",
 ["linter/src/cypher-lint.c", "lib/src/parser.c", "lib/src/result.c"],
 [("two processing modes over the same parser", "linter/src/cypher-lint.c process_streamed/process_all")],
 ["standard error text", "exit status"])

prop("C19", "Delivered segments account for every byte and every node exactly once",
 "At every moment of every parse, including parses that are stopped or fail, the segments delivered so far cover the consumed input contiguously from the configured start without gap or overlap, and their nodes carry consecutive ordinals from the configured start. Every node lies within its segment and (comments aside) its parent, every error lies within its segment (or, where the segment leaves a quote, quoted name or comment open, at the later place where it was expected to close), reported line and column agree with the line breaks of the input, and only the last segment can be marked as ended by the end of input.",
 ["inputs", "histories", "fault_sequences"],
 "all inputs x configurations x deliveries x points at which the parse is stopped or fails",
 "Tests check ranges and ordinals of selected nodes in selected inputs.",
 ["lib/src/parser.c", "lib/src/segment.c", "lib/src/ast.c", "lib/src/errors.c"],
 [("range from the previous end to the consumed position", "lib/src/parser.c parse_each"),
  ("ordinals assigned per segment", "lib/src/segment.c cypher_parse_segment, lib/src/ast.c cypher_ast_set_ordinals")],
 ["segment ranges, node ranges and ordinals, error positions during the run"])

prop("C20", "Any bytes at all can be parsed; damage never makes a parse fail or lie",
 "Whatever bytes arrive (corrupted in storage or transfer, cut, spliced, repeated, moved, or never Cypher at all), a full, whole-input or quick parse of moderately nested input never crashes or hangs, succeeds, reads only the bytes given and leaves them unchanged, and accounts for every byte of the input in its segments. The segments, trees and errors it delivers can be read, rendered and cloned like any others, every error has a message and a context of at most 80 bytes that shows the input's own text at the error's position, configured colours only mark up the messages, all memory is released, and later parses are unaffected.",
 ["inputs", "fault_sequences"],
 "all byte sequences obtained from any input by damage of any kind, x deliveries, flags and configurations",
 "Tests check a handful of malformed statements; their combinations with comments, line ends, quotes, odd bytes and buffer boundaries are unbounded.",
 ["lib/src/parser.leg", "lib/src/parser.c", "lib/src/quick_parser.leg", "lib/src/errors.c", "lib/src/util.c"],
 [("error recovery to the next sync point", "lib/src/parser.leg skip-to-directive"),
  ("tree building by blocks that must nest", "lib/src/parser.c block_start_action/add_terminal"),
  ("error contexts cut out of the parse buffer", "lib/src/parser.c finished, lib/src/util.c line_context")],
 ["results, segments, trees, errors and their contexts, live memory"])

NA = {
 "N01": ("The parser accepts exactly the Cypher grammar and builds the right tree",
   "Every statement of the supported Cypher language is parsed without errors into the tree that its text denotes, with operator precedence and associativity as the language defines, and every text outside the language yields at least one error.",
   "A pure function of the input text: no schedule, clock, fault, interleaving or history takes part in it."),
 "N02": ("Error messages name the right place and the right expectations",
   "For every malformed input, each reported error is positioned at the first character that cannot continue any valid statement, and its message lists exactly what would have been accepted there.",
   "A pure function of the input text: no schedule, clock, fault, interleaving or history takes part in it."),
 "N03": ("Every input is parsed in bounded time and space",
   "For every input the parse terminates, with time and stack use bounded by a reasonable function of the input length and nesting depth.",
   "Termination and cost here depend on the input text alone; deterministic simulation decides nothing about performance (runs are only held to a step budget relative to a failure-free run of the same input)."),
 "N04": ("Numeric and string literals keep their exact spelling or value",
   "String literals yield the text with escapes resolved, and numeric literals, identifiers and parameters yield their exact source spelling, for every legal literal.",
   "A pure function of the literal's text: no schedule, clock, fault, interleaving or history takes part in it."),
}
for id, (t, s, r) in NA.items():
    prop(id, t, s, ["inputs"], "all input texts", "Tests sample the input space.",
         ["lib/src/parser.leg", "lib/src/parser.c", "lib/src/errors.c"], [("the grammar and its actions", "lib/src/parser.leg")], ["parse result"])
if __name__ == "__main__":
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
