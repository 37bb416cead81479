#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from properties.jsonl and suites.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from suites import PROPS, SUITES
ps = [json.loads(l) for l in open(V + "/properties.jsonl")]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, universal_newlines=True).stdout.split("\n")
hooks = [l.split()[0] for l in hooks if " hook: " in l]
checks, na = [], []
for p in ps:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        mods = []
        for s in c["suites"]:
            su = SUITES[s]
            for m in su.get("mc", []) + su.get("sim", []):
                if m["module"] not in mods: mods.append(m["module"])
            if su["trace"] not in mods: mods.append(su["trace"])
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % i,
            "technique": "TLA+ specification (%s): TLC model checking, behaviours generated by TLC replayed on the real code, trace validation by TLC" % ", ".join(mods),
            "level": "model_checking",
            "level_note": c.get("note", "The specification is model-checked exhaustively within the constants in the evidence; the code is bound to it by replaying every generated behaviour and validating the recorded trace. Assurance for the code is bounded by the behaviours replayed.")})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS=--cfg verif_hooks, set by /verif/env.sh, which every build of the harness sources", "source_commits": hooks},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
