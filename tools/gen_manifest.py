#!/usr/bin/env python3
"""Generates MANIFEST.json from the table of claimed properties."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
BASE = ("TLC checks the design module exhaustively within the stated constants and validates every recorded execution of the real code, "
        "event by event, against the same operators; the verdict covers the executions driven, not all executions. Trusted: TLC, the JSON "
        "recording harness%s. ")
FLT = ", the Java realisation of Flt.tla (IEEE doubles)"
exec(open(os.path.join(V, "tools", "claims.py")).read())
PY = "/opt/venv/bin/python harness/check.py "
checks = []
for pid, (technique, note, flt) in sorted(CLAIMS.items()):
    checks.append(dict(property=pid, quick_cmd=PY + pid, thorough_cmd="VERIF_TIER=thorough " + PY + pid,
                       evidence_file="evidence/%s.json" % pid, technique=technique, level="model_checking",
                       level_note=BASE % (FLT if flt else "") + note))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "No check yet (in progress).")) for p in props if p not in CLAIMS]
m = dict(version=1, setup_cmd="bash tools/setup.sh",
         hooks=dict(guard="none (no hooks: every observation uses the public API)", enable="nothing to enable", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="TLA+/TLC. spec/*.tla: design modules (MC*), trace specifications (*Trace), shared operators. harness/: drivers per property.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
