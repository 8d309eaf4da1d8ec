#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, TV, EX = "model_checking", "translation_validation", "exploration"
CHECKS = {
 "P01": (MC, "TLA+ walk over each body's control flow (TLC, exhaustive per body); recorded permissions validated against it",
         "Every reachable point and every place of every body of the corpus is compared; holds for those bodies, and trusts rustc's move data, borrow set and control-flow graph."),
 "P02": (MC, "TLA+ walk over each body's control flow (TLC, exhaustive per body); recorded moves validated against it",
         "Every reachable point and place of every body of the corpus; trusts rustc's move data."),
 "P04": (MC, "TLA+ specification of the ownership rules on source programs (events and dataflow facts, TLC); boundaries of generated programs validated against it",
         "Exhaustive over control flow within each program; programs are generated at random (seeded) from a language without closures, patterns and indexing."),
 "P05": (MC, "TLA+ specification of the ownership rules on source programs (TLC); actual permissions at every boundary of generated programs, and rustc's verdict, validated against it",
         "As P04; two known findings are exempt (see known-findings.txt). Trusts rustc's diagnostics as the verdict."),
 "P06": (MC, "TLA+ specification of the ownership rules on source programs (TLC); programs with erroneous and ill-typed functions validated against it",
         "As P04; functions with early exits that hit the known stepper error are exempt from having a result."),
 "P07": (MC, "TLA+ specification of the ownership rules and of permission steps on source programs (TLC); the step tables of generated programs validated against it, row by row and for rows that are missing",
         "As P04; two known findings (functions with conditional early exits, and with loops that are never left) are exempt. Which places a step mentions that both gains and loses is left open where a line has several steps."),
 "P08": (MC, "TLA+ specification of the ownership rules and of permission steps on source programs (TLC); the step tables at the branches and loops of generated programs validated against it",
         "As P07; whether a branch's step begins before or after the condition is left open; the generated language has no match."),
 "P09": (MC, "TLA+ specification of dominance by paths (TLC walks every body's control flow, avoiding one block at a time); the answers of the real IRMapper validated against it, on every small skeleton of control flow that TLC generates, random larger ones and the corpus",
         "All pairs of sampled points (first, middle, last of each block) and all pairs of blocks; one known finding (pretended edges), checked to be the only difference."),
 "P10": (MC, "TLA+ specification of the ownership rules and of the extent of loans and moves on source programs (TLC); the points and regions reported for generated programs validated against it",
         "As P04. A region has to cover every use made while the loan or move is in force and may only touch the lines where it is; within such a line its exact columns are left open."),
 "P11": (MC, "TLA+ specification of how references flow between the lifetimes of a signature (TLC); the marks on generated functions, and rustc's verdict, validated against it",
         "Random functions on references, a struct, vectors and mutable references; no closures or traits. One known finding (lifetimes that have to be equal) is exempt."),
 "P17": (MC, "TLA+ specification of the command's visits and error attribution (TLC, exhaustive for few items); programs it generates run with the real command under all options, and what was printed validated against it by TLC",
         "Every ordered selection of up to 2 items of the catalogue and random ones of up to 5; a result is compared with that of the function alone."),
 "P12": (MC, "TLA+ specification of marks in a block's text (TLC: every short text, random longer ones); each text replayed in the real preprocessor",
         "Exhaustive up to 3 tokens (4 thorough) of 26, random up to 9 (14)."),
 "P13": (MC, "TLA+ specification of the blocks and marks of a page (TLC: every short page, random longer ones); each page replayed in the real preprocessor",
         "Exhaustive up to 2 tokens of 40, random up to 8 (12); the analysis command is a stand-in."),
 "P14": (MC, "TLA+ specification of builds and their cache (TLC, exhaustive for small books); its histories replayed in the real preprocessor with real crashes and damaged files",
         "Random histories of up to 6 builds; every write and every byte of one save is crashed at. A kill is a killed process, not a power failure."),
 "P15": (MC, "TLA+ specification of concurrent block analyses (TLC, exhaustive for small pages); traces recorded from the real preprocessor validated against it by TLC",
         "Interleavings of the real code are those that scheduling of runs of different lengths produced; the analysis command is a stand-in."),
 "P16": (MC, "TLA+ specification of the server (TLC, exhaustive for few requests, with liveness); its histories replayed against the real server, and what was seen validated against it by TLC",
         "Random histories of 9 concurrent requests; the analysis command is a stand-in. What is left of a request is looked for up to four seconds."),
 "P03": (MC, "TLA+ rules for overlapping live borrows over each body (TLC); recorded loan refinements validated against them",
         "Every reachable point and place of every body of the corpus; trusts rustc's borrow set and polonius' naive algorithm for when a borrow is live."),
}
NA = {
 "P18": "The interpreter is built on the `miri` git dependency, which is not available offline: nothing of it can be compiled or run here, so no specification can be bound to it.",
 "P19": "The web editor's npm dependencies are not installed and cannot be fetched, so the editor cannot be built or run here.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "true",
     "checks": [{"property": p, "quick_cmd": f"python3 tools/check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {p}",
                 "technique": t, "level": l, "level_note": n} for p, (l, t, n) in sorted(CHECKS.items())],
     "not_applicable": [{"property": p, "reason": NA.get(p, "Not claimed yet: its check is still being built.")} for p in props if p not in CHECKS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
