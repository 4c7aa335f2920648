#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
C = {
 "C01": ("seeded write outcomes, kills at any step and failing allocations under the real command; prefix and exit-status checks against the undisturbed run",),
 "C02": ("seeded cuts, interruptions, pauses and channels of the input under the real command; equality with the undisturbed run",),
 "C03": ("seeded open/read errors, invalid bytes and failing allocations while reading under the real command",),
 "C04": ("seeded storage and transport damage to generated programs under the real command; verdict and diagram checked against a reference grammar and model",),
 "C05": ("seeded damage and extreme shapes under the real command; end of process, step count as progress bound and memory bound",),
 "C06": ("seeded random source, address space, clocks and process surroundings under the real command; byte equality",),
 "C07": ("seeded faults under the real command with every system-level call of the process recorded and judged",),
 "C08": ("seeded damage and standard-error faults under the real command; reported place checked against a reference reader",),
 "S01": ("seeded preemptive scheduling of concurrent library sessions with failing and panicking sinks; equality with isolated runs",),
 "S02": ("seeded preemptive scheduling of concurrent renderings of one document with faulty sinks; equality with an isolated rendering",),
 "S03": ("seeded histories of edits, abandoned phases and re-layouts on shared engines; refinement of a fresh engine and document",),
 "S04": ("seeded sink fault scripts against the rendering call; prefix, error and retry checks",),
 "S05": ("seeded histories with faulty renderings; the SVG is read back and compared with a reference model",),
 "S06": ("seeded histories; geometry invariants on the SVG that was delivered",),
 "S08": ("seeded sessions with sink faults and preemptive scheduling, repeated many times in one process; equal results, no growth of memory or steps",),
 "S09": ("seeded library programs with sink faults, preemptive scheduling and varied surroundings; every system-level effect and the state of the process afterwards recorded and judged",),
 "S10": ("seeded random source, address space, clocks, processors, environment and distribution of the steps over threads; equality with the undisturbed run",),
 "S07": ("seeded standard-output faults and preemptive scheduling of notebook displays; framing and delivery checks",),
}
NOTE = ("Seeded random exploration, not exhaustive: seiren and its dependencies run as real compiled code on a simulated "
        "operating system; every failure is minimised and replays exactly from its file. Trusted: the simulated system "
        "calls and, where one is used, the reference grammar, diagram model and SVG reader.")
NA = {
 "P01": "Which route is chosen is a pure function of one finished layout: no schedule, fault, crash point or history enters it (that history does not matter is S03). Deciding optimality needs a test against a shortest-path oracle over inputs, which is not this technique.",
 "P02": "Colours and fonts are constants in the renderer: nothing a simulator controls can influence them, and reading them back would only repeat the constants.",
 "P03": "Pure numeric functions without state, time, I/O or scheduling; a simulator has nothing to vary. (Where their results are visible, S06 and C04 check the drawing.)",
 "P04": "Printing is a pure function of a value; no schedule, fault or history enters it, and the printed form has no stable contract in the documentation (names are not quoted when printed).",
}
checks = [{"property": k, "quick_cmd": f"./check {k} quick", "thorough_cmd": f"./check {k} thorough",
           "evidence_file": f"evidence/{k}.json", "technique": T + v[0], "level": "exploration", "level_note": NOTE}
          for k, v in sorted(C.items())]
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
