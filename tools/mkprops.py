#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
A = "crates/aquascope/src/analysis/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, (len(title), title)
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(obs), "hook_needed": hook}})

prop("P01", "Permissions of a place follow from its type, initialisation, moves and loans",
 "At every program point of every function, a place is readable iff it is certainly initialised and no live mutable borrow of an overlapping place exists; it is writeable iff it is readable, may be mutated by declaration (a `mut` variable, or reached only through mutable references or mutable raw pointers; a Box inherits from what holds it) and no live borrow of an overlapping place exists; it is owned iff it is readable, is reachable without going through a reference, a raw pointer, an array or slice element or a type with a destructor, and no live borrow of an overlapping place exists. "
 "Outside the places that are still going to be used, the reported permission set is empty.",
 ["programs", "inputs"], "every function body, every place in it, every program point, every combination of moves, (re)initialisations and borrows reaching the point",
 "18 annotated fixtures check single points of single places; the rule must hold for every place at every point of any program.",
 [A+"permissions/mod.rs", A+"permissions/context.rs", A+"permissions/output.rs"],
 [("permission rules over the derived facts", A+"permissions/mod.rs permissions()/permissions_ignore_liveness()"), ("never-write / droppable / initialisation facts", A+"permissions/output.rs, context.rs")],
 [("permissions data", "per place and point: type capabilities, initialisation, move and loans in force", A+"permissions/mod.rs PermissionsData")],
 ["compute_permissions + permissions_data_at_point (library API)", "boundary data and step tables in the JSON output"])

prop("P02", "A place is reported moved exactly where a move of it can still be in effect",
 "A place is reported as moved at a program point iff some control-flow path leads there from a move of that place, of a place containing it or of a part of it, without the moved place, or one overlapping it, being assigned in between. "
 "The move that is reported is one of those moves.",
 ["programs", "schedules"], "every control-flow path of every function, including loops, branches, early exits, partial moves, re-initialisation of the whole or of the part",
 "Fixtures contain a handful of straight-line moves and two conditional ones; the claim ranges over all control-flow paths.",
 [A+"permissions/output.rs", A+"permissions/context.rs"],
 [("forward propagation of moves along control-flow edges, stopped by assignments, then lifted to overlapping paths", A+"permissions/output.rs derive_permission_facts")],
 [("live moves", "moves in effect at a point", A+"permissions/output.rs move_live_at/move_refined")],
 ["permissions_data_at_point(..).path_moved", "boundary data, step tables"])

prop("P03", "Borrows remove exactly the right permissions, exactly while they are live",
 "While a mutable borrow is live, every place overlapping the borrowed place loses read, write and own; while a shared borrow is live it loses write and own but keeps read; places that do not overlap lose nothing and permissions come back as soon as the last borrow ends. "
 "The borrow that is blamed for a missing permission is live at that point, overlaps the place and is of a kind that removes the permission.",
 ["programs", "inputs"], "every set of borrows, reborrows and field borrows, every point between a borrow and its last use on every path",
 "Fixtures check permissions at few selected points; nothing checks that every place, at every point, is refined by exactly the live conflicting borrows.",
 [A+"permissions/output.rs", A+"permissions/context.rs"],
 [("joins of conflicting places with live loans", A+"permissions/output.rs loan_{read,write,drop}_refined")],
 [("refining loan", "loan blamed for a missing permission of a place at a point", A+"permissions/output.rs")],
 ["permissions_data_at_point(..).loan_*_refined", "boundary data, step tables"])

prop("P04", "Every use of a place gets one boundary that asks for what the use needs",
 "Every use of a local place in the source - reading or copying it, borrowing it, moving it, matching on it, calling a method on it, assigning through an explicit dereference of it or with a compound operator - yields exactly one boundary, at the source position of that use, and nothing else does (the left side of a plain assignment yields none). "
 "The expected permissions are read for a copy, shared borrow or match, read and write for a mutable borrow or an assignment through a reference or an operator, read and own for a move, where a method receiver counts as what the call really does with it.",
 ["programs"], "every function body, every nesting of expressions, statements, closures and loops",
 "21 small fixtures are compared with stored snapshots; nothing relates the boundaries of an arbitrary program to its uses.",
 [A+"boundaries/mod.rs", A+"boundaries/path_visitor.rs"],
 [("visitor that assigns expected permissions by syntactic context and type adjustments", A+"boundaries/path_visitor.rs")],
 [("boundary", "use position, expected and actual permissions", A+"boundaries/mod.rs PermissionsBoundary")],
 ["boundaries of the JSON output", "compute_permission_boundaries"])

prop("P05", "A boundary shows what the place has, and lacks iff the borrow checker objects",
 "The actual permissions at a boundary are those of the very place being used, just before that use. "
 "A body accepted by the borrow checker has no boundary with a missing permission, and a use that the borrow checker rejects because the place is moved, uninitialised, immutable or borrowed at that point has one.",
 ["programs"], "every program made of owned, copied, borrowed, moved and reassigned locals and fields, in every arrangement of branches and loops",
 "The fixtures pin single outcomes; agreement with the compiler's verdict is a relation over all programs and is never compared by a test.",
 [A+"boundaries/mod.rs", A+"permissions/context.rs", A+"ir_mapper/mod.rs"],
 [("resolution of a source use to the place and location in the compiler's IR", A+"boundaries/mod.rs path_to_perm_boundary/select_candidate_location")],
 [("boundary data", "permission data of the resolved place", A+"boundaries/mod.rs")],
 ["boundaries of the JSON output", "rustc's diagnostics for the same program"])

prop("P06", "Nothing is claimed past the first error, and no program crashes the analysis",
 "In a body with compile errors, every boundary up to the end of the first error is reported just as it would be without the cut-off, and none that lies after it; the errors of one function never affect what is reported for another. "
 "A body that does not type-check is reported as a build error carrying that body's source range, and every body of the program gets exactly one result.",
 ["programs", "histories"], "every program with any number and placement of erroneous functions, analysed one after another",
 "Fixtures contain at most one error and one analysed body at a time.",
 ["crates/aquascope/src/errors/mod.rs", A+"boundaries/mod.rs", A+"stepper/table_builder.rs", A+"mod.rs"],
 [("per-body diagnostics tracking and first-error filter", "crates/aquascope/src/errors/mod.rs"), ("tainted body check", A+"mod.rs AquascopeAnalysis::run")],
 [("tracked diagnostics", "diagnostics seen since the current body's analysis began", "crates/aquascope/src/errors/mod.rs")],
 ["JSON output of the driver"])

prop("P07", "The permission steps of consecutive lines add up to the permission state",
 "Where every statement has a line of its own, the table shown for a statement's line contains exactly the visible places whose permissions differ between the point where the previous statement ended and the point where this one has ended, once each, with whether they are permitted and in use before and after; so along any straight run of lines the value after one step is the value before the next one that mentions the same place. "
 "The line where the body begins shows the permissions that the parameters come with; lines past the first error show nothing (on the error's own line a row may be missing). "
 "Places that do not change are left out unless all places are requested, when a plain statement's table has all places in use before or after it.",
 ["programs", "configurations"], "every statement sequence with any nesting of blocks, both include modes",
 "18 fixtures are compared with stored snapshots, which say nothing about other programs and cannot express that steps add up.",
 [A+"stepper/mod.rs", A+"stepper/table_builder.rs", A+"stepper/hir_steps.rs"],
 [("diff of permission domains at segment ends, grouped by line", A+"stepper/table_builder.rs")],
 [("step table", "place to before/after permission values of one line", A+"stepper/mod.rs PermissionsStepTable")],
 ["steps of the JSON output", "compute_permission_steps"])

prop("P08", "Steps follow control flow: each branch starts from the state at the branch",
 "For an if, else, or loop, the step shown where a branch opens starts from the permissions at the branching condition (before it or after it) and ends with those that hold on entering that very branch; a loop's end, or that of a conditional without else, shows the step into the code after it; every branch's steps describe only states on paths through that branch, and the step after a join starts from the state at the join. "
 "Variables declared in an inner scope are not shown outside it.",
 ["programs", "schedules"], "every nesting of branches, loops, early exits and scopes",
 "Few fixtures have a branch, none checks that every arm starts from the branching state or that an early return keeps later steps right.",
 [A+"stepper/segmented_mir.rs", A+"stepper/hir_steps.rs", A+"stepper/table_builder.rs"],
 [("segment builder with branches and scopes", A+"stepper/segmented_mir.rs"), ("source walk that opens and closes branches", A+"stepper/hir_steps.rs")],
 [("segment", "control-flow range between two consecutive step points", A+"stepper/segmented_mir.rs")],
 ["steps of the JSON output"])

prop("P09", "Dominance and source-to-control-flow queries are right on every control flow",
 "For all pairs of reachable non-cleanup points of a body, the answers about dominance and post-dominance agree with the definition over all control-flow paths: a point dominates another iff every path from the entry to the latter passes it, and post-dominates iff every path to an exit does. "
 "The points reported for a source construct are those of its own, or of all it contains; the entry reported for them dominates all of them that can be reached and the exit post-dominates all of them from which an exit can be reached, and there is an entry (exit) whenever a block among them does so.",
 ["programs", "schedules"], "every control-flow graph, with loops, several returns, diverging branches and unreachable code",
 "Five tests assert selected pairs on one fixture each.",
 [A+"ir_mapper/mod.rs", A+"ir_mapper/body_graph.rs", A+"ir_mapper/post_dominators.rs"],
 [("cleaned graph and dominator trees", A+"ir_mapper/body_graph.rs, post_dominators.rs, mod.rs")],
 [("dominators", "dominator tree of the cleaned graph", A+"ir_mapper/mod.rs")],
 ["IRMapper::{dominates, post_dominates, get_mir_locations} (library API)"])

prop("P10", "Loan and move regions point at the right source ranges",
 "Every borrow or move that a boundary or step blames has an entry giving the source range where it happens and the source ranges over which it is in force; an entry's ranges lie inside the function body, are sorted, do not overlap or touch, and start no earlier than the borrow or move itself. "
 "A borrow's ranges cover its creation and its last use.",
 ["programs"], "every function body and every borrow or move in it",
 "No test looks at these parts of the output at all.",
 [A+"mod.rs", A+"permissions/context.rs"],
 [("construction of regions from live points and smoothing of spans", A+"mod.rs construct_loan_info/construct_move_info/smooth_elements")],
 [("loan/move points and regions", "key to range(s)", A+"mod.rs AnalysisOutput")],
 ["loan_points, loan_regions, move_points, move_regions of the JSON output"])

prop("P11", "Flow permission is missing exactly where a reference must outlive its guarantee",
 "With flow permissions requested, a use is marked as violating flow iff the statement it occurs in needs a reference to flow into a signature lifetime that the reference is not known to outlive - because it points to a local or because the signature does not relate the two lifetimes - and the kind given says which of the two it is. "
 "Without the request no flow information is reported at all.",
 ["programs", "configurations"], "every signature with any set of lifetime parameters and declared outlives relations, every body returning or storing references",
 "Five fixtures cover single signatures.",
 [A+"permissions/flow.rs", A+"boundaries/mod.rs"],
 [("region constraint graph, its strongly connected components and the known flows", A+"permissions/flow.rs")],
 [("region flows", "known and required flows between lifetimes", A+"permissions/flow.rs RegionFlows")],
 ["expecting_flow of the boundaries in the JSON output"])

prop("P12", "Stripping annotations gives the exact program and puts every mark at its place",
 "The code embedded for a block is the block's text with exactly the well-formed annotation marks, the leading hide marker of hidden lines and the escape of escaped hide markers removed, every other character and line kept in place, but for the white space around the text and the ends of lines, which become plain newlines. "
 "Each mark is recorded at the line, or at the character position in the embedded code, where it stood, with the options given in it, whatever characters the code contains.",
 ["inputs"], "every text over any alphabet, every sequence and nesting of marks, hidden and escaped lines",
 "One test with one four-line input.",
 ["crates/mdbook-aquascope/src/annotations.rs"],
 [("line-wise scanner for marks", "crates/mdbook-aquascope/src/annotations.rs parse_annotations")],
 [("annotations", "hidden lines, state locations, focused lines/paths", "crates/mdbook-aquascope/src/annotations.rs AquascopeAnnotations")],
 ["embedded HTML attributes produced by the preprocessor's public API"])

prop("P13", "Exactly the Aquascope blocks and permission marks of a page are replaced",
 "Every fenced block opened with the Aquascope marker, an operation list and optional settings, and closed by the next fence, is replaced once, with exactly its operations, settings and code; every inline permission mark outside those blocks is replaced by the symbol of its permission and variant; all other text of the page stays as it is. "
 "Replacement ranges never overlap, lie on the page in bounds, and an unknown permission or variant is an error, not a crash.",
 ["inputs"], "every page: any number of blocks, marks and plain text in any order, unterminated or malformed openings included",
 "One test for one block and three for single marks; no test mixes blocks and marks.",
 ["crates/mdbook-aquascope/src/block.rs", "crates/mdbook-aquascope/src/permissions.rs", "crates/mdbook-aquascope/src/preprocessor.rs"],
 [("block parser", "crates/mdbook-aquascope/src/block.rs"), ("inline permission matcher", "crates/mdbook-aquascope/src/permissions.rs"), ("merging of replacements", "crates/mdbook-aquascope/src/preprocessor.rs replacements")],
 [("replacements", "list of page range and HTML", "crates/mdbook-aquascope/src/preprocessor.rs")],
 ["replacements of the preprocessor's public API"])

prop("P14", "The result cache never changes an answer, over any history of builds and crashes",
 "Whatever blocks earlier builds processed, and wherever an earlier build was killed or its cache file damaged, the page produced for a block is the one a build without cache would produce; a result saved by a completed build is reused by later builds without running the analysis again. "
 "A damaged or empty cache costs at most recomputation, and failed analyses are never stored.",
 ["histories", "crash_points", "fault_sequences"], "every sequence of builds over changing blocks, saves, crashes at any byte of the cache file and corruptions",
 "No test touches the cache.",
 ["crates/mdbook-aquascope/src/cache.rs", "crates/mdbook-aquascope/src/block.rs", "crates/mdbook-aquascope/src/preprocessor.rs"],
 [("content-hash keyed map persisted as compressed JSON", "crates/mdbook-aquascope/src/cache.rs"), ("hash of a block", "crates/mdbook-aquascope/src/block.rs, annotations.rs")],
 [("cache", "block hash to response", "crates/mdbook-aquascope/src/cache.rs Cache")],
 ["runs of the analysis command", "replacements", "cache file on disk"])

prop("P15", "Each block is analysed with its own code and flags, and failures are reported",
 "For each operation of a block the analysis command is run once, on a fresh project containing exactly the block's code, with the flags its settings ask for, and the block's output holds that run's result under that operation, however many blocks of the page are processed at the same time. "
 "If a run fails, exceeds its time limit (it is ended then) or reports a build error the page fails with that block's error, and no result of another block is mixed in or lost.",
 ["schedules", "inputs", "fault_sequences"], "every interleaving of concurrently processed blocks, every combination of settings, every failure of the command at any step and any size of its output",
 "The only tests are for parsing; the command is never run by a test.",
 ["crates/mdbook-aquascope/src/preprocessor.rs"],
 [("per-block temporary project and process", "crates/mdbook-aquascope/src/preprocessor.rs run_aquascope"), ("parallel map", "crates/mdbook-aquascope/src/preprocessor.rs replacements")],
 [("responses", "operation to response of one block", "crates/mdbook-aquascope/src/preprocessor.rs")],
 ["arguments, directory and source seen by the command", "replacements or error"])

prop("P16", "The playground server answers each request from its own code only",
 "Concurrent requests never see each other's code, project directory or output: each response carries the output of one run of the requested analysis on exactly the request's code, and says success iff that run printed a result. "
 "A run that exceeds the time limit yields an error response; neither it nor one whose requester has left leaves anything behind - no project directory and no running analysis - and no request, however malformed or whatever the analysis prints, stops the server from answering the others.",
 ["schedules", "inputs", "fault_sequences"], "every interleaving of requests of every kind, with every outcome of the analysis command (result, nothing, failure, garbage, hang)",
 "One test creates one project; the server is never started by a test.",
 ["crates/aquascope_serve/src/server.rs", "crates/aquascope_serve/src/container.rs", "crates/aquascope_serve/src/main.rs"],
 [("one temporary container per request", "crates/aquascope_serve/src/container.rs"), ("routes and extraction", "crates/aquascope_serve/src/server.rs")],
 [("container", "temporary project of one request", "crates/aquascope_serve/src/container.rs")],
 ["HTTP responses", "processes and directories of the host"])

prop("P17", "The command prints one faithful, reproducible result per function",
 "Running the permissions command on a program prints one JSON array with exactly one entry per analysed function or closure, equal to what the library computes for that function alone, whatever other functions the program contains and in whatever order they are written. "
 "The options for showing flows and for including unchanged places change only the parts they name, and repeating the command gives the same result.",
 ["programs", "configurations"], "every program as a set of functions in every order, every combination of options",
 "No test runs the command.",
 ["crates/aquascope_front/src/plugin.rs", A+"mod.rs"],
 [("driver callbacks looping over bodies", "crates/aquascope_front/src/plugin.rs")],
 [("output", "list of per-body results", "crates/aquascope_front/src/plugin.rs AquascopeCallbacks")],
 ["standard output of the command"])

prop("P18", "The interpreter's trace shows the states the program really goes through",
 "Each step of an interpreter trace shows the stack and heap of the real execution at a source position, with every pointer shown resolving to the value it points to, and the trace ends with success or with the error that the execution hits.",
 ["programs"], "every program the interpreter accepts",
 "Seven fixtures are compared with snapshots.",
 ["crates/aquascope/src/interpreter/step.rs", "crates/aquascope/src/interpreter/mvalue.rs", "crates/aquascope/src/interpreter/mapper.rs", "crates/aquascope/src/interpreter/mod.rs", "crates/aquascope/src/interpreter/miri_utils.rs"],
 [("stepping of the Miri machine and translation of its memory", "crates/aquascope/src/interpreter/step.rs, mvalue.rs")],
 [], ["interpreter JSON output"], None)

prop("P19", "The web editor draws exactly the facts it is given",
 "For any analysis result, the editor draws one stack per boundary, one table per step line and the ranges of the selected refinement, honouring the focus and hiding annotations of the block, and nothing else.",
 ["inputs", "configurations"], "every analysis result and every annotation set",
 "Two browser tests only check that an editor appears.",
 ["frontend/packages/aquascope-editor/src/editor-utils/boundaries.tsx", "frontend/packages/aquascope-editor/src/editor-utils/stepper.tsx", "frontend/packages/aquascope-editor/src/editor-utils/misc.tsx"],
 [("decorations built from analysis facts", "frontend/packages/aquascope-editor/src/editor-utils")],
 [], ["rendered editor"], None)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
