#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code because every line is long)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []
INC = "polytracker/include/taintdag/"
SRC = "polytracker/src/taintdag/"
DF = "polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp"
TS = "polytracker/src/taint_sources/"


def p(id, title, statement, over, text, why, files, state, mech, observe):
    assert len(title) <= 80, title
    R.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": x, "meaning": x, "where": files[0]} for x in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})


p("C01", "Combining labels denotes exactly the union of their input bytes",
  "When two taint labels are combined, the resulting label denotes exactly the set of input bytes denoted by the two labels together: no input byte is lost and none is added. This holds whatever the two labels are (single bytes, pairs, ranges, or combinations nested to any depth) and however the label table grew before.",
  ["histories", "inputs"], "all histories of reads and combinations, all pairs of labels",
  "The result depends on the shapes of both operands, on label adjacency and on which labels were created recently; unit tests sample a few pairs of hand-made entries.",
  [INC + "union.h", INC + "labels.h", SRC + "polytracker.cpp"], ["label table"],
  [("combination rules", INC + "union.h: Visitor"), ("reuse of recent labels", INC + "labels.h: duplicate_check")],
  ["returned labels", "label section of the trace file"])
p("C02", "Label table is well formed, dense, acyclic and economical",
  "Every entry of the label table refers only to older labels and can be decoded, labels are numbered densely in order of creation, and an existing label never changes what it denotes. Combining a label with itself, with no taint, or with a part it was just formed from creates no new label, and neither does repeating a combination made within the last fifty labels.",
  ["histories"], "all histories of label creation and combination",
  "Well-formedness is an invariant of every reachable table, and economy depends on the history; tests look at single steps.",
  [INC + "labels.h", INC + "union.h", INC + "section.h"], ["label table"],
  [("allocation", INC + "section.h: FixedSizeAlloc"), ("duplicate search", INC + "labels.h: duplicate_check")],
  ["returned labels", "label section of the trace file"])
p("C03", "Control-flow marks reach exactly the ancestors of branching labels",
  "When labels decide branches, the labels marked as affecting control flow in the trace are exactly those labels and everything they were built from, down to the input bytes; nothing else is marked. Marking changes nothing else about any label and does not influence which labels later combinations produce.",
  ["histories"], "all label graphs and all sequences of branches interleaved with combinations",
  "Propagation stops early at already marked labels and switches container when many labels are pending, so an error shows only on particular graph shapes and orders.",
  [INC + "labels.h", INC + "labeldeq.h", SRC + "polytracker.cpp"], ["affects-control-flow bits"],
  [("propagation", INC + "labels.h: affects_control_flow"), ("pending queue", INC + "labeldeq.h")],
  ["label section of the trace file"])
p("C04", "Label records survive encoding and decoding at full width",
  "Every label record - an input byte with any source number 0..255 and any offset below 2^54, or a pair or range of any two label numbers below 2^31 - with or without its control-flow mark, decodes to exactly the record that was encoded, in the runtime and in the Python reader alike. Setting the mark or comparing records while ignoring it affects nothing but the mark.",
  ["inputs"], "all records over the full width of every field",
  "Field widths meet at bit boundaries; tests use small values that never reach them.",
  [SRC + "encoding.cpp", INC + "encoding.h", "polytracker/taint_dag.py"], ["64-bit label words"],
  [("encode/decode", SRC + "encoding.cpp"), ("reader", "polytracker/taint_dag.py: TDFile.decode_node")],
  ["encoded words", "decoded records"])
p("C05", "Every labelled input byte names its true source and file offset",
  "The label of a byte the program read denotes exactly the source it came from and the position of that byte in it, for every way of reading (plain, positioned, buffered, by character, by line, mapped, from sockets) and after any seeking. For sources without positions the offsets of successive reads are contiguous from zero, and the index of input labels lists exactly the labels that stand for input bytes.",
  ["histories", "inputs"], "all sequences of opens, seeks and reads, all offsets",
  "Offsets come from wherever the file position was before the call, so errors need particular mixes of calls, short reads, end of file, or large offsets.",
  [TS + "taint_sources.cpp", TS + "memory_taints.cpp", SRC + "polytracker.cpp", INC + "stream_offset.h", INC + "bitmap_section.h"],
  ["source labels", "stream counters", "source label index"],
  [("offset before the read", TS), ("stream counters", INC + "stream_offset.h"), ("index bitmap", INC + "bitmap_section.h: set_range")],
  ["shadow labels after each call", "label and index sections"])
p("C06", "Bytes are attributed to the source most recently opened on the descriptor",
  "Every tracked open, connection or acceptance records one source with its name, descriptor and size (or unknown size), in order, up to the capacity of 255 sources. Data read from or written to a descriptor is attributed to the source most recently opened on that descriptor number, also after descriptors were closed and reused; descriptors never opened through the tracker are attributed to no source.",
  ["histories"], "all sequences of opens, closes, duplications and reuse of descriptors",
  "Attribution is by descriptor number over the whole history; tests open one or two files.",
  [INC + "taint_source.h", SRC + "polytracker.cpp", TS], ["source section", "string table"],
  [("lookup", INC + "taint_source.h: mapping_idx"), ("registration", SRC + "polytracker.cpp: open_file")],
  ["source section", "labels of read bytes", "sink records"])
p("C07", "Tracking does not change what the program's library calls do",
  "Every tracked library call returns the same value, moves the same data, leaves the same file position and the same file contents, and creates files with the same permissions as the untracked call would, including at end of file, on short transfers and on errors. Memory outside what the call is defined to write is never modified.",
  ["inputs", "histories", "fault_sequences"], "all call sequences, arguments and failing calls",
  "The instrumented program must behave like the original for every call and failure; tests check labels of successful calls.",
  [TS, "polytracker/src/polytracker/polytracker.cpp"], ["process and file system state"],
  [("wrappers", TS)], ["return values, buffers, file positions and contents"])
p("C08", "Exactly the bytes a call delivered get input labels",
  "After a read on a tracked source precisely the bytes delivered carry fresh input labels and the labels of all other bytes are unchanged; after a read on an untracked descriptor the bytes delivered carry no label. Returned counts, descriptors and end-of-input results carry no label, failed calls change no label, and unmapping memory removes its labels.",
  ["inputs", "histories", "fault_sequences"], "all call sequences, short and failed reads, all buffer contents",
  "Over- or under-labelling by a byte shows only for short reads, partial items, truncated datagrams, end of input or stale labels.",
  [TS, SRC + "polytracker.cpp"], ["shadow memory"],
  [("length of labelled region", TS), ("clearing", TS)], ["shadow labels before and after each call"])
p("C09", "Output records list exactly the tainted bytes written, in order",
  "The output log contains, in the order of the writes, one record for each byte that was actually written with a label to a tracked descriptor, carrying its label, the right output and the offset at which the byte ended up in it, and no other records. Bytes of a short or failed write that were not written and bytes without label leave no record, and writing changes no label.",
  ["histories", "inputs", "fault_sequences"], "all sequences of writes and seeks, short and failed writes, appends and streams",
  "Offsets depend on the position history, append mode and short writes; tests write once at position zero.",
  [TS + "write_taints.cpp", SRC + "polytracker.cpp", INC + "sink.h"], ["sink section", "write counters"],
  [("sink logging", SRC + "polytracker.cpp: taint_sink")], ["sink section of the trace file", "file contents"])
p("C10", "Heap reallocation keeps data and labels of surviving bytes",
  "Resizing a heap block keeps the contents and the labels of the bytes that survive, whether the block grows, shrinks or moves, and a failed resize leaves both untouched. Zero-initialised blocks carry neither data nor labels, and returned pointers carry no label.",
  ["histories", "fault_sequences"], "all sequences of allocations, labelled stores, resizes and releases",
  "Whether a block moves and what its memory held before depends on the allocator's history.",
  [TS + "taint_sources.cpp"], ["heap shadow memory"], [("realloc", TS)], ["contents and labels of heap blocks"])
p("C11", "Arguments and standard streams are tracked exactly as configured",
  "With argument tracking enabled each argument is recorded as its own source in order and each of its bytes denotes that argument and its position; with it disabled arguments carry no label. Standard input, output and error are sources exactly when the configuration asks for them, whatever combination is chosen, and argument contents are never changed.",
  ["configurations", "inputs"], "all combinations of settings, all argument vectors",
  "Each setting is read independently from the environment; tests run with one configuration.",
  ["polytracker/src/polytracker/polytracker.cpp", TS, "polytracker/src/polytracker/main.cpp"], ["source section"],
  [("configuration", "environment variables read at start-up"), ("argument tainting", TS)], ["source section", "labels of arguments"])
p("C12", "Functions have one number each and every entry and exit is recorded",
  "Every distinct function name gets exactly one number, the same at every call, numbered in order of first entry and resolvable to that name in the trace, regardless of what happens to the caller's copy of the name. The entry and exit events of the trace are exactly those that happened, in order.",
  ["histories", "inputs"], "all sequences of entries and exits, all names including empty, long and non-text names",
  "Numbering depends on every name seen before; tests use two literals.",
  [INC + "fnmapping.h", SRC + "fnmapping.cpp", SRC + "fntrace.cpp", INC + "string_table.h"], ["function and event sections"],
  [("mapping", SRC + "fnmapping.cpp"), ("events", SRC + "fntrace.cpp")], ["function, event and string sections"])
p("C13", "The control-flow log reads back exactly, with the right call stacks",
  "The control-flow log contains exactly the function entries, function exits and tainted branches that happened, in order, for every 32-bit function number and label. Reading it back yields for every event the call stack of that moment, functions left without an exit event being closed by generated exits before the next event of an outer function and at the end.",
  ["histories", "inputs"], "all event sequences, all function numbers and labels, missing exits",
  "Numbers are stored with variable length and call stacks are reconstructed from the whole history.",
  [INC + "control_flow_log.h", "polytracker/taint_dag.py"], ["control-flow log section"],
  [("variable-length encoding", INC + "control_flow_log.h"), ("call stack alignment", "polytracker/taint_dag.py: TDControlFlowLogSection")],
  ["control-flow log section", "events the reader yields"])
p("C14", "The trace file is complete and readable however the program ends",
  "Whether the program returns from main, calls exit, or fails an assertion, the trace file holds every section with a correct header, sections do not overlap and lie within the file, and everything recorded before the end can be read back. Unused space never appears as records.",
  ["crash_points", "histories"], "all points at which the program may end, all ways of ending",
  "Headers are completed only at the end; a test ends in one place.",
  [INC + "outputfile.h", INC + "storage.h", INC + "section.h", "polytracker/src/polytracker/main.cpp"], ["file and section headers"],
  [("finalisation", INC + "outputfile.h"), ("exit interception", TS)], ["trace file"])
p("C15", "Concurrent threads never lose, tear or mix up records",
  "When several threads read, combine labels, branch, enter functions and write at the same time, every label is handed out once, every combination still denotes exactly the union, every thread's events, branches and output records appear complete and in that thread's order, and every function name still has one number. No interleaving deadlocks or leaves a malformed trace. (Threads are joined or idle when the program ends; two threads do not use the file position of one descriptor at once, which the runtime documents as invalid, but they may share a pipe.)",
  ["schedules"], "all interleavings of the operations of several threads",
  "Allocation, duplicate search and marking interleave; single-threaded tests cannot reach it.",
  [INC + "section.h", INC + "labels.h", INC + "bitmap_section.h", SRC + "fnmapping.cpp", INC + "string_table.h", INC + "control_flow_log.h"], ["all sections"],
  [("section lock", INC + "section.h: write"), ("bitmap updates", INC + "bitmap_section.h"), ("mapping lock", SRC + "fnmapping.cpp")],
  ["trace file after concurrent runs"])
p("C16", "Running out of space never corrupts what was recorded",
  "When a section of the trace (sources, names, output records, events, control-flow log, function names, labels) is full, further records are either dropped whole or the program stops with an error; records already made stay intact, sections never overflow into each other, and no partial record appears.",
  ["histories", "fault_sequences"], "all sizes of records around the capacity of every section",
  "Capacities are far beyond what tests record and the boundary case depends on the record size.",
  [INC + "section.h", INC + "string_table.h", INC + "taint_source.h", INC + "control_flow_log.h", INC + "labels.h"], ["section allocation"],
  [("bounds check", INC + "section.h: write")], ["sections of the trace file"])
p("C17", "Instrumentation before start-up is harmless and branches see their true value",
  "Callbacks that instrumented code makes before the tracker is initialised record nothing and do not crash, and a tracked condition always evaluates to its original value with its original label, before and after initialisation. From initialisation on every callback is recorded.",
  ["schedules", "programs"], "all orders of callbacks relative to initialisation",
  "Static constructors run before initialisation; tests run after it.",
  ["polytracker/src/polytracker/polytracker.cpp", "polytracker/src/polytracker/main.cpp"], ["initialisation state"],
  [("guards", "polytracker/src/polytracker/polytracker.cpp")], ["returned conditions", "trace file"])
p("C18", "The Python reader shows exactly what the trace file contains",
  "For every well-formed trace file the Python reader lists exactly its sources, labels, input labels, outputs, functions and events, and its taint forest has one node per label whose ancestors are exactly the input bytes the label denotes. Ranges are unfolded without losing or adding members, and asking for a node twice gives the same node.",
  ["inputs", "histories"], "all well-formed traces",
  "Tests read a handful of traces; range unfolding and caching depend on the order of queries.",
  ["polytracker/taint_dag.py", "polytracker/taint_forest.py"], ["reader state"],
  [("section readers", "polytracker/taint_dag.py"), ("forest", "polytracker/taint_dag.py: TDTaintForest")], ["reader results"])
p("C19", "Input-to-output mapping and cavities are exact",
  "The input-output mapping of a trace relates an input offset to an output offset exactly when the byte written there depends on that input byte. The cavities of an input are exactly the maximal ranges of its bytes that neither reach an output nor affect control flow, also when the file was opened several times.",
  ["inputs", "histories"], "all label graphs, outputs and control-flow marks",
  "The analysis prunes already visited and marked labels, so the order of outputs matters.",
  ["polytracker/mapping.py"], ["mapping", "cavities"],
  [("walk", "polytracker/mapping.py: dfs_walk"), ("markers", "polytracker/mapping.py: file_cavities")], ["mapping and cavity results"])
p("C20", "The set of inputs affecting control flow is exact",
  "For every trace, the input bytes the Python reader reports as affecting control flow are exactly the bytes whose labels are marked, each with its source and offset, and tracing from any set of labels back to the inputs reports exactly the bytes they denote.",
  ["inputs", "histories"], "all traces",
  "Depends on graph shape and on duplicate sources.",
  ["polytracker/taint_dag.py", "polytracker/tracing.py"], ["taint sets"],
  [("collection", "polytracker/taint_dag.py: inputs_affecting_control_flow")], ["reported byte offsets"])
p("C21", "Collections of input bytes behave as sets ordered by source and offset",
  "A collection of input bytes contains exactly the bytes it was built from, iterates in order, splits into maximal contiguous regions per source that together contain exactly its bytes, and searching a byte string in it finds exactly its occurrences.",
  ["inputs"], "all sets of bytes over several sources",
  "Region merging and searching depend on gaps and source boundaries.",
  ["polytracker/tracing.py"], ["byte collections"], [("regions", "polytracker/tracing.py: Taints")], ["regions and search results"])
p("C22", "The parser accepts exactly the language of its grammar",
  "For every context-free grammar and input the parser finds a parse tree exactly when the grammar derives the input, every tree it yields derives the whole input by productions of the grammar, and no derivation of an unambiguous input is missed.",
  ["inputs", "programs"], "all grammars (including nullable and recursive ones) and inputs",
  "Nullable, left- and right-recursive and ambiguous rules interact; tests parse two examples.",
  ["polytracker/grammars.py", "polytracker/parsing.py"], ["parser states"], [("Earley completion", "polytracker/grammars.py: EarleyParser._complete"), ("tree enumeration", "polytracker/grammars.py: EarleyParser._derivations")], ["parse trees"])
p("C23", "Grammar simplification preserves the language",
  "Simplifying a grammar changes neither the set of inputs it accepts from the start symbol nor its well-formedness: every referenced symbol stays defined, and the use relation between rules stays consistent under every sequence of additions, removals and replacements. Verifying a grammar reports every reference to an undefined symbol, every entry missing from or surplus in the use relation, and nothing else but symbols that cannot be reached.",
  ["programs", "histories"], "all grammars and sequences of edits",
  "Rewriting rules interact; tests use one extracted grammar.",
  ["polytracker/grammars.py"], ["productions and their users"], [("simplify", "polytracker/grammars.py")], ["productions", "accepted inputs"])
p("C24", "Caches and ordered sets keep their contracts",
  "The bounded cache never holds more entries than its limit, always returns the value last stored for a key it still holds, and evicts the least recently used entry first; the ordered set behaves as a set that iterates in insertion order. A memoised function is evaluated once and always returns that result.",
  ["histories"], "all sequences of operations",
  "Eviction order depends on the whole access history.",
  ["polytracker/cache.py"], ["cache contents and order"], [("eviction", "polytracker/cache.py: LRUCache")], ["values, sizes and iteration order"])
p("C25", "Labels follow data through memory and string operations",
  "Copying, moving, filling and string operations give every byte written the labels of the byte it came from and leave all other labels unchanged, for overlapping regions as well. Setting or adding a label affects exactly the given region, and reading a multi-byte value yields a label denoting exactly the union of its bytes' labels.",
  ["inputs", "histories"], "all lengths, overlaps, alignments and label patterns",
  "Off-by-one errors and overlaps need particular lengths and positions.",
  [TS, "polytracker/src/polytracker"], ["shadow memory"], [("wrappers", TS), ("wide loads", "dfsan runtime hooks")], ["shadow labels"])
p("C26", "String, formatting and system-information calls act as the C library's",
  "Every tracked call that compares, searches, converts or formats text or fills in a structure has the result, errno, stored bytes and memory accesses of the untracked call. Formatted output labels each character with the argument it came from, also when truncated, padded or cut by a precision, and text from the format and the terminator with nothing; a converted number carries the union of the characters consumed; comparisons and lengths carry none, a found position that of the pointer searched; a filled structure keeps no stale label and nothing outside it changes.",
  ["inputs"], "all texts, bounds, formats, sizes and outcomes",
  "Sign of bytes above 0x7f, truncation, stars, unterminated operands and failing calls need particular inputs.",
  [DF], ["shadow memory"], [("formatting", DF + ": format_buffer"), ("comparison", DF + ": dfsan_strncmp"), ("conversion", DF + ": dfsan_strtolong_label")],
  ["results, errno, stored bytes and shadow labels"])
p("C27", "Navigation over trace events agrees with the execution",
  "For every execution of calls, blocks, reads and returns - recursive, cut off anywhere, with other events in between - each event names its true neighbours: a function its caller, first block, blocks, calls and return in order, a block the function it calls, its next block in the same invocation and how often it was entered there, a return the block it goes back to. The input bytes reported for an invocation are those touched in it and in everything it called, and the unused, out-of-order and re-read input bytes are exactly those of the recorded accesses.",
  ["programs", "histories"], "all executions, including recursion, unfinished calls and several top-level functions",
  "Navigation skips over nested calls, so recursion and missing returns matter; tests trace one parser.",
  ["polytracker/tracing.py"], ["events of a program trace"], [("navigation", "polytracker/tracing.py: FunctionEntry, BasicBlockEntry, FunctionReturn, FunctionInvocation"), ("use of the input", "polytracker/tracing.py: ProgramTrace.input_properties")], ["answers about events"])
p("C28", "The parse tree and grammar extracted from a trace reproduce the input",
  "For every trace over one input the extracted parse tree spells exactly that input: its terminals in order are the input's bytes, the children of a node lie side by side and fill its range, and nodes follow the calls of the trace. If no two blocks touched overlapping ranges, each block owns exactly the range it touched. Traversals, clones and simplification keep that text, and the extracted grammar has one rule per node and accepts the input, also after simplification.",
  ["programs", "inputs"], "all traces, including reads that repeat, overlap or go backwards",
  "Conflicts between blocks that touch the same bytes are resolved pairwise; tests extract one well-behaved trace.",
  ["polytracker/parsing.py", "polytracker/grammars.py"], ["parse tree", "extracted grammar"], [("conflicts", "polytracker/parsing.py: NonGeneralizedParseTree"), ("extraction", "polytracker/parsing.py: trace_to_non_generalized_tree; polytracker/grammars.py: parse_tree_to_grammar, extract")], ["tree, grammar and their texts"])
p("C29", "Graph queries are exact",
  "For every directed graph the roots, shortest path lengths, depths, ancestors (nearest first), descendants and immediate dominators reported are exactly those of the graph, for cyclic and disconnected graphs, given or computed roots and any kind of node; the union of graphs has exactly the edges of its parts.",
  ["inputs"], "all directed graphs",
  "No test queries a graph; cycles, self-loops and several roots matter.",
  ["polytracker/graphs.py"], ["graph"], [("queries", "polytracker/graphs.py: DiGraph")], ["answers about nodes"])
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in R))
