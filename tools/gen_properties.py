#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "A diagram is delivered whole or the run fails",
  "Whatever faults meet the command's output stream (short or interrupted writes, an error or a full or disconnected sink at any byte), and wherever the process is killed or runs out of memory, the bytes that reached the output are a prefix of the diagram an undisturbed run emits for the same source. The command ends with success only if the sink accepted every byte of that diagram. Short writes and interrupted writes alone never make it fail or change a byte.",
  ["fault_sequences", "crash_points"],
  "every sequence of outcomes of the writes to standard output (accepted lengths, EINTR, ENOSPC, EPIPE, EIO at every byte offset), every kill point and every failing allocation, for every source text",
  "The tests render into a Vec that never fails; no test runs the binary, so no write, exit status or crash is ever exercised.",
  ["src/main.rs", "src/renderer.rs"],
  [("the document is serialised completely and handed to the writer by one write_all", "src/renderer.rs render"),
   ("the result of rendering is turned into the exit status", "src/main.rs main")],
  observe=["bytes accepted on file descriptor 1", "exit status"])

p("C02", "How the source arrives never changes the outcome",
  "For a given source text, the diagram bytes, the diagnostics and the exit status are the same however its bytes arrive: on standard input or from a named file (apart from the source name shown in diagnostics), in pieces of any size cut at any byte including inside a multi-byte character, with interrupted reads, pauses between pieces, and a file whose reported size is wrong.",
  ["fault_sequences", "schedules", "inputs"],
  "every way of cutting the byte stream into reads, every placement of interruptions and pauses, both input channels, every source text",
  "The tests call the parser on complete in-memory strings; neither input channel of the command is ever read by a test.",
  ["src/main.rs"],
  [("the whole stream is read to a string before parsing", "src/main.rs main: fs::read_to_string / stdin().read_to_string")],
  observe=["standard output", "standard error", "exit status"])

p("C03", "An unreadable source fails and never yields a diagram",
  "If the source cannot be read completely and exactly (the named file is missing or unreadable, a read fails at any byte, the bytes are not valid UTF-8, or memory runs out while reading), the command emits no byte of a diagram on standard output and ends with a failure status. Except when memory ran out, it also says something on standard error. It never draws the part it managed to read.",
  ["fault_sequences", "inputs"],
  "every failing open, every read error at every byte offset on both channels, every invalid UTF-8 sequence at every position, and failing allocations while reading",
  "No test opens a failing file or stream; the tests never see an input error.",
  ["src/main.rs"],
  [("read errors are propagated out of main before anything is written", "src/main.rs main")],
  observe=["standard output", "standard error", "exit status"])

p("C04", "Success exactly when the text that arrived is a valid program",
  "Whatever happened to the stored or transmitted text (truncation, lost, duplicated, reordered or zeroed blocks, flipped bits, foreign bytes), the command succeeds if and only if the text that arrived is, as a whole, a program of the documented grammar. On success it prints no diagnostic and the diagram shows exactly that program's tables, columns (name, type, key) and relations between previously declared ends (where a name was declared more than once, the latest declaration before the relation is meant), all of it within the view box, with no two tables overlapping and every relation's line leading from its first end to its second without crossing a table. Otherwise it reports at least one diagnostic on standard error and ends with a failure status, and it still ends with a failure status when standard error cannot be written.",
  ["fault_sequences", "inputs"],
  "every valid program and every sequence of storage or transport damage applied to it, with working or failing diagnostics stream",
  "The parser tests hold three well-formed programs; no malformed, truncated or corrupted text and no exit status is tested.",
  ["src/parser.rs", "src/main.rs", "src/erd.rs"],
  [("tokenizer and module grammar", "src/parser.rs tokenizer, erd_module_parser"),
   ("diagnostics and exit status", "src/main.rs main"),
   ("entity paths resolve relation ends", "src/erd.rs Module::into_mir")],
  observe=["exit status", "standard error", "the SVG text on standard output"])

p("C05", "Every text, however damaged, ends in an ordinary verdict",
  "For every source text that reaches it, intact or damaged in storage or transit, the command terminates by itself with an ordinary success or failure status within a number of execution steps, and with an amount of memory, bounded by a low-degree polynomial of the size of the text. It never ends in a panic, an abort, a stack overflow or an endless loop.",
  ["fault_sequences", "inputs"],
  "every text obtainable from any program by truncation, block loss, duplication, reordering, bit flips and foreign bytes, including every diagram shape such a text can still describe",
  "The tests run a handful of well-formed diagrams with at most five tables and five relations; the panics of the layout, of the path renderer and of the diagnostics printer need other shapes or texts.",
  ["src/main.rs", "src/parser.rs", "src/layout.rs", "src/renderer.rs", "src/geometry.rs"],
  [("error recovery of the tokenizer", "src/parser.rs tokenizer"),
   ("port routing over a junction graph that must stay connected", "src/layout.rs draw_edge_path, compute_shortest_path"),
   ("assertions on path shape", "src/renderer.rs draw_edge_connection")],
  observe=["exit status or signal", "execution steps", "bytes allocated at once"])

p("C06", "The same source always produces the same bytes",
  "The diagram, the diagnostics and the exit status depend only on the source text and its name. They are byte-identical for every hash seed and random source, address-space layout, wall clock, process id, host name, working directory and environment, and however often the command is run.",
  ["configurations", "schedules"],
  "every seed of the process's randomness, every memory layout, every clock value and jump, every environment, for every source text",
  "The tests compare one rendering per source under whatever random state the test process happens to have; diagnostics are never compared.",
  ["src/main.rs", "src/erd.rs", "src/layout.rs", "src/parser.rs", "src/renderer.rs"],
  [("hash maps are only used for lookups, never iterated", "src/erd.rs node_paths; src/layout.rs RouteGraph::terminal_ports"),
   ("expected-token sets are put in a fixed order before printing", "src/main.rs main")],
  state=[("hash state", "randomly keyed maps and sets", "src/erd.rs, src/layout.rs, chumsky error sets")],
  observe=["standard output", "standard error", "exit status"])

p("C07", "The command touches nothing but its source and its streams",
  "Whatever the source and whatever faults occur, the command opens nothing for writing and creates, changes, renames or removes nothing in the file system, starts no process and opens no network connection. It reads no file but the one it was given, reads no file at all when the source comes from standard input, and writes only to standard output and standard error.",
  ["fault_sequences", "inputs"],
  "every run: every source, both input channels, every fault on any stream, every crash point",
  "No test runs the command or observes its system calls.",
  ["src/main.rs", "src/renderer.rs", "src/evcxr.rs"],
  [("rendering goes only to the writer it is given", "src/renderer.rs render"),
   ("one input, two output streams", "src/main.rs main")],
  observe=["system calls of the process"])

p("C08", "Diagnostics locate the damage and never leak into the diagram",
  "When the text that arrived is not a valid program, some diagnostic names the source and gives the line and column of the place of the damage: where the text first cannot be divided into tokens, if there is such a place, and otherwise the first token at which it stops being the beginning of any valid program (the end of the text if it merely stops too early). Diagnostics appear only on standard error, and faults of standard error, whether short, interrupted or failing writes at any byte, never put a byte on standard output that an undisturbed run would not have put there.",
  ["fault_sequences", "inputs"],
  "every position at which damage can hit a program, every damage kind, and every sequence of write outcomes on standard error",
  "No test produces a diagnostic.",
  ["src/main.rs", "src/parser.rs"],
  [("token and character spans are carried into the reports", "src/parser.rs parse; src/main.rs main")],
  observe=["standard error", "standard output"])

p("S01", "Concurrent compilations do not influence each other",
  "When several threads of one process each parse, lay out and render their own documents, every interleaving of their execution, including threads that stop midway because their sink panics or fails, gives each thread exactly the results it gets when it runs alone in a fresh process. No interleaving makes a thread block forever, panic or lose its work.",
  ["schedules", "fault_sequences"],
  "every interleaving, at basic-block granularity, of any number of sessions, with sessions abandoned at any point",
  "The tests run each scenario once on one thread; the test runner's own parallelism is uncontrolled and compares only a few documents.",
  ["src/parser.rs", "src/erd.rs", "src/layout.rs", "src/renderer.rs"],
  [("no process-wide mutable state; all state lives in the document, engine and renderer values", "src/erd.rs, src/layout.rs SimpleLayoutEngine, src/renderer.rs SVGRenderer")],
  observe=["results returned to each thread"])

p("S02", "Rendering never disturbs the diagram it renders",
  "Rendering only reads: any number of threads may render or inspect one shared laid-out document at the same time, under every interleaving, also from within one another's sinks, and with any of those sinks failing or panicking, and every completed rendering has exactly the bytes of a single rendering in isolation. Afterwards the document's positions, ports and routes are unchanged, and rendering it again gives the same bytes.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of readers of one document and every sink failure among them",
  "The tests render each document once, on one thread, into a sink that never fails.",
  ["src/renderer.rs", "src/mir.rs"],
  [("the renderer takes the document by shared reference and keeps no state", "src/renderer.rs render")],
  observe=["rendered bytes", "document inspection API"])

p("S03", "A layout depends on the document alone, not on its history",
  "Laying out a document gives the same positions, routes and rendering whatever came before: an engine that has already laid out any other documents (or the same one, any number of times, or was abandoned between layout phases, or whose phases alternate with those of another document) and a document that was laid out before and then extended with tables, columns or relations behave as a fresh engine on a freshly built equal document.",
  ["histories", "fault_sequences"],
  "every sequence of building, layout phases, edits, abandoned phases and re-layouts over any number of documents sharing any number of engines",
  "Every test uses each engine and document for exactly one layout.",
  ["src/layout.rs", "src/mir.rs"],
  [("the engine's routing graph is rebuilt for each layout", "src/layout.rs draw_edge_path"),
   ("terminal ports are replaced when ports are placed", "src/layout.rs place_terminal_ports")],
  state=[("edge_route_graph", "junctions and ports of the layout in progress", "src/layout.rs SimpleLayoutEngine"),
         ("terminal_ports", "points where edges may attach", "src/mir.rs NodeData")],
  observe=["document inspection API", "rendered bytes"])

p("S04", "Rendering into a faulty sink reports the fault and is retryable",
  "Rendering into a caller's sink succeeds exactly if the sink accepted the complete diagram, including its final flush. On any failure the error of the sink is returned and the sink has received only a prefix of the diagram; interrupted and short writes alone are absorbed; a document that is not laid out is refused before the sink receives anything; and a later rendering of the same document into a healthy sink yields the complete diagram.",
  ["fault_sequences", "histories"],
  "every sequence of sink outcomes (short, interrupted, would-block, zero-length, failing at any byte, failing flush, panicking) and every layout stage at which rendering is requested",
  "The tests render only laid-out documents into a Vec.",
  ["src/renderer.rs", "src/error.rs"],
  [("I/O errors are converted and returned", "src/renderer.rs render, src/error.rs BackendError"),
   ("missing positions are detected before output", "src/renderer.rs render")],
  observe=["bytes received by the sink", "returned result"])

p("S05", "A rendering shows every table, column and relation exactly once",
  "After any history of building, extending and laying out documents, including failed, abandoned and retried renderings, rendering a laid-out document yields well-formed XML that shows each table of the document exactly once and in order, each with its name and its columns (name, type and key) in order, and each relation exactly once as a line from its first end to its second. It shows nothing else, whatever characters the names contain.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of construction, edit, layout and rendering steps over documents of any shape with any names, with renderings failing in between",
  "The tests compare four fixed documents, with ASCII names, at most five tables and five relations.",
  ["src/erd.rs", "src/mir.rs", "src/layout.rs", "src/renderer.rs"],
  [("entities become record and field nodes, relations become edges", "src/erd.rs into_mir"),
   ("each edge gets the route computed for it", "src/layout.rs draw_edge_path"),
   ("each node and edge is emitted once", "src/renderer.rs render")],
  observe=["rendered SVG"])

p("S06", "Laid-out tables never overlap and lines never cross tables",
  "After any history of building, extending and laying out documents, in the resulting diagram no two tables overlap, the rows of a table are stacked without gaps inside it, and everything lies within a view box of finite positive size. Every relation's line starts and ends on the border of the rows or tables it relates, in the middle of a side, which it leaves straight outwards, consists of horizontal and vertical runs only, and passes through the interior of no table.",
  ["histories", "inputs"],
  "every sequence of construction, edit and layout steps over documents of any shape, on engines with any past",
  "The tests compare four fixed diagrams of at most five tables.",
  ["src/layout.rs", "src/geometry.rs"],
  [("grid placement", "src/layout.rs place_nodes"),
   ("junction graph with collision detection", "src/layout.rs connect_nearest_neighbor_edge_junctions, src/geometry.rs intersected_line")],
  observe=["document inspection API", "rendered SVG"])

p("S07", "Notebook output is one complete, correctly framed diagram",
  "Displaying a diagram in a notebook writes to standard output exactly the start marker line naming the SVG media type, the complete diagram, and the end marker line, and it has all been handed to the stream when the display call returns. Short and interrupted writes never change, lose or repeat a byte; on any other fault of the stream only a prefix is written and the call does not return normally. Several displays, of one output or of many, follow each other without mixing, also when made by concurrent threads.",
  ["fault_sequences", "schedules"],
  "every sequence of write outcomes on standard output and every interleaving of displaying threads",
  "No test uses the notebook extension.",
  ["src/evcxr.rs", "src/renderer.rs"],
  [("one println per display", "src/evcxr.rs evcxr_display"),
   ("rendering into memory first", "src/evcxr.rs draw_erd")],
  observe=["bytes accepted on file descriptor 1"])

p("S08", "Repetition leaves nothing behind",
  "A process that does the same work again and again (parsing, building, laying out, rendering and displaying, with the same or ever new names, on one or several threads, on fresh engines and documents or on ones that it keeps and lays out anew, with sinks that fail or panic and sessions abandoned halfway) gets the same results every time, and neither the memory in use after each repetition, once what the repetition made has been dropped, nor the number of execution steps that a repetition takes keeps growing.",
  ["histories", "fault_sequences", "schedules"],
  "every number of repetitions of every session, every fault within it and every interleaving of its threads",
  "No test does anything twice in one process and looks at what is left.",
  ["src/layout.rs", "src/mir.rs", "src/parser.rs", "src/renderer.rs", "src/evcxr.rs"],
  [("ports and routes are replaced, not added to", "src/layout.rs place_terminal_ports, draw_edge_path"),
   ("the junction graph is built anew for each layout", "src/layout.rs draw_edge_path"),
   ("grammar objects live for one parse", "src/parser.rs parse")],
  observe=["results, renderings and inspections per repetition", "bytes allocated and not freed", "execution steps"])

p("S09", "The library acts on nothing but what it is handed",
  "Whatever a program does with the library (texts, building, layouts, histories, renderings into sinks that work, fail or panic, on any number of threads), the library opens no file and no connection, starts no process, reads nothing from standard input, and writes nothing to standard error, nor anything to standard output except the frames of notebook displays. It never ends the process, and it leaves the process as it was: environment variables, working directory, signal handling, the program's panic hook, and no thread of its own left running.",
  ["histories", "fault_sequences", "schedules"],
  "every history of library calls, every sink fault within it, every interleaving of the program's threads, every process environment",
  "The tests look at the values that the library returns, never at what it does to the process around it.",
  ["src/parser.rs", "src/erd.rs", "src/mir.rs", "src/layout.rs", "src/renderer.rs", "src/evcxr.rs"],
  [("no I/O but the caller's writer", "src/renderer.rs render"),
   ("standard output only for the notebook frame", "src/evcxr.rs evcxr_display")],
  observe=["system-level calls of the process", "standard streams", "panic hook, environment and threads after the last operation"])

p("S10", "The same operations give the same results everywhere",
  "What parsing, building, layout, inspection, rendering and display yield depends only on the operations and their arguments. It is the same for every hash seed and random source, address-space layout, clock, process id, processor count, working directory and environment, and it does not matter on which threads the single steps are made, including objects that were made or laid out on one thread and are used on another, on long-lived and on short-lived threads.",
  ["histories", "schedules", "fault_sequences"],
  "every history of library calls with every sink fault within it, every process surrounding, every distribution of the steps over threads",
  "The tests run every step of a fixed example on one thread of one process, in one environment.",
  ["src/parser.rs", "src/erd.rs", "src/mir.rs", "src/layout.rs", "src/renderer.rs", "src/evcxr.rs"],
  [("hash maps are only looked up, never iterated for results", "src/erd.rs into_mir, src/layout.rs draw_edge_path"),
   ("no state outside the objects", "src/layout.rs SimpleLayoutEngine")],
  observe=["results, inspections, renderings and standard output of every operation"])

p("P01", "Relations take a shortest admissible route",
  "The line drawn for a relation is a shortest one among all routes through the junctions between its ends' attachment points.",
  ["inputs"], "every diagram",
  "Only four fixed diagrams are compared.",
  ["src/layout.rs"], [("Dijkstra over the junction graph for each pair of ports", "src/layout.rs find_shortest_edges_path")])
p("P02", "Tables, types and keys have a fixed visual style",
  "Every column type and key kind is always drawn in its own fixed colour, font and size, and table headers, borders and backgrounds in theirs.",
  ["inputs"], "every diagram", "Only the styles occurring in four fixed diagrams are compared.",
  ["src/erd.rs", "src/color.rs", "src/renderer.rs"], [("colour tables", "src/erd.rs column_type_color, badge_text_color")])
p("P03", "Geometry primitives agree with plane geometry",
  "Distance, direction, containment, insetting and segment-rectangle intersection give the mathematically correct answer for all finite coordinates.",
  ["inputs"], "all finite points and rectangles", "The unit tests sample some twenty configurations.",
  ["src/geometry.rs"], [("Liang-Barsky clipping", "src/geometry.rs intersected_line")])
p("P04", "Printing a parsed program and parsing it again preserves it",
  "The textual form of a program parses back to an equal program.",
  ["programs"], "every program", "Two programs are printed in the tests and never parsed again.",
  ["src/erd.rs", "src/parser.rs"], [("Display implementations", "src/erd.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
