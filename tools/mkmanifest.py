#!/usr/bin/env python3
"""Writes MANIFEST.json and known-findings.json."""
import json
NOTES = {
 "C01": "TLC model-checks the token-buffer machine (TokenStream) as a refinement of the abstract stream (Stream), then TLC validates histories of the real stream operations and whole parses against Stream and Sem",
 "C02": "TLC checks on the token-buffer machine that pulls never exceed demand and nothing is pulled after the end; TLC validates pull counts of the real library, per operation and per parse, against the specification",
 "C03": "TLC checks a bounded retention window on the token-buffer machine (Window); TLC validates measured live-token counts of the real library on long inputs against the bound derived from the specification",
 "C04": "TLC checks the invariant on the small-step machine and validates every recorded nested parser call of the real library",
 "C05": "TLC-generated grammar families and random grammars; TLC evaluates the specification (Sem) on each and compares kind, output and remainder with the real library",
 "C06": "complete families of repetition options over all short inputs, evaluated by TLC and compared with the real library call by call",
 "C07": "strict and recovering runs of every nested call compared by TLC with the specification; no lost or invented errors",
 "C08": "failure index and error list of every failed nested call validated by TLC against the specification",
 "C09": "complete families of strategy step sequences; position, output and errors validated by TLC against the specification",
 "C10": "delimiter scan specified in TLA+ and checked against an independent definition of balance (MCDelims); real scans validated by TLC",
 "C11": "location arithmetic specified and model-checked (MCLocations); every location and span observed in the real library validated by TLC",
 "C12": "TLC checks suffix invariance on the machine; real result streams and tails validated by TLC against fresh parses of what is left",
 "C13": "complete family of matcher configurations; errors, outputs and consumption validated by TLC against the specification",
 "C14": "TLC validates all entry points and error types of the same parse, and every transformation of result values, against the specification",
 "C15": "grammars and their rewrapped or unrolled twins; TLC validates that both match the specification",
 "C16": "message text specified in TLA+ (Render), TLC validates rendered messages of error values it enumerates itself and of random ones",
 "C17": "TLC checks termination and absence of stuck states on the machine; the real library is run on the same and on random grammars and any panic or hang is reported",
 "C18": "every fallible mapping call of the real library explained by TLC from its child's observed result",
 "C19": "every mapping call of the real library explained by TLC from its child's observed result",
 "C20": "TLC writes out histories of uses of one parser value (interleaved streams, nested and abandoned parses) and model-checks their independence; each result of the real library is validated by TLC against that of a new parser",
 "C21": "TLC model-checks counted cells against declarations (MCDecl) and writes out histories of declaring, cloning, defining, building and dropping; the grammar each history puts together is evaluated by TLC and compared with what every handle and parser of the real library parses",
 "C22": "an acceptor of the calls each kind of parser may make (Calls) is model-checked against the small-step machine (MCCalls), and TLC runs it on the recorded calls of the real library",
}
TECH = "explicit TLA+ specification, TLC model checking, and trace validation of the real library against it"
DONE = [p for p in NOTES if p not in ("C16",)]
import os, sys
if os.path.exists(os.path.join(os.path.dirname(__file__), "..", "spec", "Render.tla")):
    DONE = list(NOTES)
checks = [{"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
           "evidence_file": f"evidence/{p}.json", "technique": TECH, "level": "model_checking",
           "level_note": NOTES[p] + ". Exhaustive within the stated bounds of the specification; conformance of the code is established for the executions explored (complete small families and seeded random ones). Trusts TLC and the harness' recording."}
          for p in DONE]
na = [{"property": p, "reason": "specification of the message text not finished yet"} for p in NOTES if p not in DONE]
m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public API. Details in DESIGN.md."}
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
fixed = [
 ("C07", "1b56b9a", "a repetition whose later item failed dropped the errors its earlier items had recovered from"),
 ("C07", "6a6ecdf", "Result::try_map of a recovered result dropped its errors when the function succeeded, so a recovered result without its errors was produced (also C14, C18)"),
 ("C18", "2d40cbf", "try_map whose function wants to recover while recovery is not allowed failed without giving its tokens back (also C04)"),
 ("C08", "8407e57", "or()/alternate! compared failure positions wrongly when several alternatives failed, so not the furthest decided"),
 ("C01", "2adf7bb", "advance_to() beyond the end moved past the buffered end-of-input marker (also C02: pulled from an exhausted source)"),
 ("C01", "0d712fe", "save_at() at an index after buffered tokens let the buffer drop tokens still to be read"),
 ("C01", "76e2134", "location_tracker_at() panicked for the position right after the buffered tokens (also C11)"),
 ("C06", "f3bbf0e", "a leading separator that was accepted was given back when no item followed although zero items were allowed"),
 ("C17", "241d5aa", "recovery of a failure reporting token index 0 later in the input panicked"),
 ("C13", "92bdfa2", "just() returned the configured token instead of the one taken from the input"),
 ("C17", "47635b9", "a repetition with a huge minimum panicked (capacity overflow) or allocated memory before parsing anything (also C06)"),
]
json.dump({"findings": [], "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in fixed]},
          open(os.path.join(root, "known-findings.json"), "w"), indent=1)
