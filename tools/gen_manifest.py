#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import props
SHARED = "Sampled executions, not a proof: it assures what the generated workload reaches. Trusted: the reference or model in /verif, rustc, and (for harness-driven checks) that the public API of the crate is what users call."
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.CHECKS:
        t, note = props.TECHNIQUE[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="exploration", level_note=note + " " + SHARED))
    else:
        na.append(dict(property=i, reason=props.NOT_YET.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 setup.py",
         hooks=dict(guard="none", enable="no hooks: the checks observe the crates through their public interface, processes and sockets", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
