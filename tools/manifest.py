#!/usr/bin/env python3
"""Source of MANIFEST.json (python3 tools/manifest.py writes it): a check for every props/<id>.py, the rest not applicable (yet)."""
import json, os, sys
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(d, "properties.jsonl"))]
LEVEL = {}
NOTE = {
 "D02": "the writer/reader state machine is specified in spec/DelimText.tla and model-checked on all short records; every recorded write/read of the real code is accepted or rejected by that specification, cell by cell",
 "D03": "sorting is specified as a relation between input and output files; TLC checks the chunked merge design on all small files and judges every recorded sort of the real code",
 "D04": "the file is specified as a store of rows under column descriptions; TLC checks the design and judges every recorded open/write/read history of the real code bit by bit",
 "D06": "positions, shufflers, splits and restarts are specified in spec/DatasetIter.tla; TLC checks disjointness and coverage exhaustively for small sets and on every recorded call history of the real code",
}
NA = {}
try:
    exec(open(os.path.join(d, "tools", "notes.py")).read())
except FileNotFoundError:
    pass
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(d, "props", i.lower() + ".py")) and i in NOTE:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "explicit TLA+ specification model-checked with TLC, bound to the code by TLC trace validation",
                       "level": LEVEL.get(i, "model_checking"), "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "HAPPYML_VERIF", "enable": "drivers are compiled with -DHAPPYML_VERIF", "source_commits": ["41b5e4e"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(d, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", "not applicable:", [x["property"] for x in na])
