#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties listed here."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "TLA+ model checking (TLC) with state-graph replay into the code and trace validation of recorded histories"
EX = "TLA+ specification evaluated by TLC (exhaustive grids + generated cases); every emitted expectation replayed into the code"
TW = "TLA+ trace validation (TLC) of recorded twin histories (quiet and rendered/logged) against the specifications' member sets"
N = {
 "G": "Exhaustive on the model for small vertex sets; every model transition replayed on real graphs, random longer histories judged by the same operators. Bounded sizes; trusts TLC and the drivers' reading of public results.",
 "M": "Contract and propagation algorithm model-checked on small graphs (invariants, termination, refinement of the contract); every contract transition replayed on the code and random histories with faults judged by TLC. Bounded sizes; trusts TLC and the recording drivers.",
 "C": "Exhaustive state graph of a 4-variable, 5-constraint instance replayed on the code, random histories of other constraints judged by TLC.",
 "P": "TLC checks theorems of exact integer geometry on grids and evaluates it on generated integer cases; the code is called with scaled, turned and shifted copies and compared with the exact result. Floating-point accuracy is judged within a tolerance, cases within rounding of a tolerance boundary are skipped (counted).",
 "F": "Exact integer specification of congruence, merging and the flag: theorems checked by TLC on all small configurations, expectations replayed on turned and shifted copies, recorded operation histories judged by TLC. Floating-point comparison within a tolerance.",
 "R": "Member sets come from the specifications' state; the text is searched for every name. Bounded histories; trusts the drivers' name patterns.",
 "K": "All clusters over 5 points and all their pairs checked on the model and replayed on the code; random chains over up to 10 points judged by TLC.",
}
CLAIM = os.environ.get("CLAIM", "").split() or [l.split()[0] for l in open(os.path.join(V, "tools", "claims.txt")) if l.strip()]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = dict(l.rstrip("\n").split(" ", 1) for l in open(os.path.join(V, "tools", "claims.txt")) if " " in l.strip())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIM:
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TW if i[0] == "R" else EX if i[0] == "P" or i == "C03" else MC, level="model_checking",
                           level_note=notes.get(i) or N["P" if i == "C03" else i[0]]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="All checks drive the unmodified code in /repo (no hooks). Known findings and repairs: known_findings.txt."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
