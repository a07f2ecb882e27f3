#!/usr/bin/env python3
"""Writes MANIFEST.json and bin/props.json from the table below."""
import json, os
V = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REAL = "the whole library, compiled from the working tree with leg and clang"
LINT = REAL + ", and cypher-lint's main() linked in"
STUBS = ["allocator (failures chosen by the plan, contents poisoned, blocks counted)", "input stream device (fopencookie under the real stdio; reads, errors, truncation chosen by the plan)",
         "assert/abort (recorded as violations)"]
OUTS = STUBS + ["output stream device (fopencookie; write errors chosen by the plan)"]
LSTUB = OUTS + ["fopen, isatty, exit of the tool (simulated files, terminals, process end)"]
T = "deterministic simulation with fault injection: "
A0 = "the harness sees the library through its public API, its allocator and its streams only; clang's AddressSanitizer is trusted to flag invalid memory accesses"
ALLOC = "allocation failures are injected into calls made by the library's own code, not those made inside libc (stdio buffers)"
def P(tech, note, rule, real=REAL, stub=STUBS, assumptions=(A0,), level="exploration"):
    return dict(tech=T + tech, note=note, rule=rule, real=real, stub=stub, assumptions=list(assumptions), level=level)
GEN = "documents are generated from a grammar of statements, commands and comments, with damage, raw bytes, CR/LF/CRLF and sizes up to several kB; "
PROPS = {
 "C01": P("seeded search over read schedules", "Every seeded document is parsed from memory and under many read schedules, complete observations compared; sampled, not exhaustive.", GEN + "a run is one document under one read schedule, buffering, flags and configuration; non-trivial when the delivery needed at least two reads and produced at least one segment"),
 "C02": P("seeded search over stall points; delivery checked at every read request", "At every byte requested the segments delivered so far are compared with those already determined by the bytes supplied; single-segment parses are chained over one stream.", GEN + "a run is one document and stream; non-trivial when some segment was already due at a read request, or at least two single-segment parses were chained"),
 "C03": P("seeded search with allocation faults at every index of sampled runs", "Allocation failures are swept over every index of a run (sampled for long runs), also in groups and from a point on; prefix, errno, leak and later-parse checks.", GEN + "a run is one document with one allocation-fault sequence; non-trivial when a fault actually fired", assumptions=(A0, ALLOC)),
 "C04": P("seeded search with read faults at every offset of sampled runs", "Read errors at every byte offset (sampled for long documents) x error kinds x deliveries.", GEN + "a run is one document with a read error; non-trivial when the error fired"),
 "C05": P("seeded search over crash points of the producer", "Truncation at every byte offset (sampled for long documents) compared with the segments of the complete input.", GEN + "a run is one document cut at one offset; non-trivial when at least one segment was complete before the cut"),
 "C06": P("seeded search over stop/restart histories", "Stop and resume at arbitrary subsets of boundaries, over memory and stream, compared with one uninterrupted parse.", GEN + "a run is one document with a set of interruptions; non-trivial when at least one restart took place"),
 "C07": P("seeded search over callback histories", "Callback return values chosen per segment; calls, result, last position and consumption checked.", GEN + "a run is one document and one history of callback results; non-trivial when the history stopped the parse before its end, or a single-segment parse was made"),
 "C08": P("seeded search over retain/release histories with faults", "Histories of retain, release, nested and later parses, with allocation and read faults; contents compared after every step, live blocks accounted per segment.", GEN + "a run is one document with a history of retains and releases; non-trivial when a segment was retained past its callback and later released", assumptions=(A0, ALLOC)),
 "C09": P("seeded search over deliveries with allocation faults", "Result accessors compared with the segment-wise parse; allocation failures swept.", GEN + "a run is one document parsed into a result; non-trivial when it has at least two roots, or a fault fired", assumptions=(A0, ALLOC)),
 "C10": P("seeded scheduling of real threads at memory-access granularity", "Tasks run on real threads of which exactly one is ever runnable; the seeded scheduler preempts at control-flow edges and memory accesses, biased to accesses of shared data; outcomes compared with each task run alone.", "tasks parse, quick-parse, clone, annotate, render and release, alone or on shared trees and configurations, some with allocation faults, some nested in callbacks; a run is one task set under one interleaving; non-trivial when at least two tasks interleaved (three or more switches)",
   stub=STUBS + ["thread scheduler (one runnable thread, switches chosen by the plan)"], assumptions=(A0, ALLOC, "preemption points are the instrumented loads, stores, edges, allocator and stream calls of the library: interleavings are sequentially consistent, weak-memory effects are not explored")),
 "C11": P("seeded search over attach/release histories with allocation faults, against a reference model", "Histories over many contexts, trees and nodes compared step by step with a map model, including failing attaches and every release order.", "a run is one history of context, attach, replace, remove, read and release operations over parsed or cloned trees; non-trivial when at least one annotation was released by the release of its node or context", assumptions=(A0, ALLOC)),
 "C12": P("seeded search over clone/release histories with allocation faults", "Trees of generated statements covering every node kind are cloned; all accessors compared, failures swept over every allocation, releases in every order.", GEN + "a run is one history of clones and releases of one tree; non-trivial when a clone was compared after its original was released, or a fault fired", assumptions=(A0, ALLOC)),
 "C13": P("seeded search with allocation faults at every index of node constructions", "Each parsed node is rebuilt through its public constructor from clones of its children, under every single allocation failure; outcome, errno, children and leaks checked.", "a run rebuilds every node of one statement; non-trivial when a fault fired in a constructor", assumptions=(A0, ALLOC)),
 "C14": P("seeded search with write and allocation faults", "Trees, segments and results are rendered at many widths and colours to streams that fail at every (sampled) offset or allocation.", GEN + "a run is one rendering with one fault sequence; non-trivial when a fault fired or the stream was buffered", stub=OUTS, assumptions=(A0, ALLOC)),
 "C15": P("seeded search over read schedules", "Quick parser: every seeded document from memory and under many read schedules, complete observations compared.", GEN + "a run is one document under one read schedule; non-trivial when the delivery needed at least two reads and produced at least one segment"),
 "C16": P("seeded search over corruptions confined to one statement", "One statement of a document is damaged (flips, losses, duplications, insertions); neighbours compared with the undamaged parse.", GEN + "a run is one document with one damaged statement; non-trivial when the damage changed that statement's outcome"),
 "C17": P("seeded search with open, read, write and allocation faults in the tool", "The tool's main runs in process over simulated files, streams, terminals and exits, with every kind of fault.", "a run is one invocation (options, files, standard input, faults); non-trivial when a fault fired", real=LINT, stub=LSTUB, assumptions=(A0, ALLOC)),
 "C18": P("seeded search over deliveries, modes and groupings of the tool's input", "The same inputs are fed as files or standard input, in streamed or whole mode, in different read sizes and groupings; reports and status compared.", "a run is one invocation compared with its reference invocation; non-trivial when the reports are not empty", real=LINT, stub=LSTUB),
 "C19": P("seeded search with invariants checked at every segment under stops and faults", "Coverage, nesting, ordinals, error positions and line/column arithmetic checked on every delivered segment of every run, including runs that are stopped or fail.", GEN + "a run is one document with a configuration, delivery, stop or fault; non-trivial when at least two segments were delivered", assumptions=(A0, ALLOC)),
 "C20": P("seeded search over storage and transport damage", "Documents damaged the way storage and transport damage data (flipped bits, lost, repeated, moved, zeroed, garbled blocks, splices, cuts, stuck bytes, changed line ends) or random bytes: success, coverage, error contexts, clones, leaks and later parses checked.", GEN + "a run is one damaged document under one delivery, through all three kinds of parse; non-trivial when it was parsed to the end"),
}
CLAIMED = os.environ.get("CLAIM", "").split() or None
if __name__ == "__main__":
    have = [p for p in PROPS if CLAIMED is None or p in CLAIMED]
    na = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
    from mkprops import NA
    m = dict(version=1, setup_cmd="python3 bin/build.py base && python3 bin/build.py conc", checks=[dict(property=p,
        quick_cmd="python3 bin/check.py %s --tier quick" % p, thorough_cmd="python3 bin/check.py %s --tier thorough" % p,
        technique=PROPS[p]["tech"], level=PROPS[p]["level"], level_note=PROPS[p]["note"] + " Assumes: " + "; ".join(PROPS[p]["assumptions"]) + ".") for p in have],
        not_applicable=[dict(property=k, reason=v[2]) for k, v in NA.items()] + [dict(property=p, reason="check under construction") for p in PROPS if p not in have],
        notes="No hooks in /repo: the seams are put in at build time (objcopy of symbol references, compiler instrumentation, stdio cookies). Replay a violation with: python3 bin/check.py replay FILE. Known findings and repairs: known-findings.txt.")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    json.dump(PROPS, open(V + "/bin/props.json", "w"), indent=1)
    print(len(have), "claimed")
