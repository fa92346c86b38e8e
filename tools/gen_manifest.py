#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
CLAIMED = {
}
exec(open(root + "/tools/claims.py").read())
NA = {
    "C19": "No runnable subject: DefaultRunner cannot be constructed, and its parse/parse_iterative entry points and ParseSession are todo!(); there is no execution to simulate.",
}
m = {
    "version": 1,
    "setup_cmd": "bash tools/build.sh",
    "hooks": {
        "guard": "cfg(parcom_sim) and cfg(parcom_sim_std)",
        "enable": "RUSTFLAGS=\"--cfg parcom_sim --cfg parcom_sim_std --extern parcom_sim_std=<rlib built from /verif/sim/simstd>\" (tools/build.sh)",
        "source_commits": ["f790af0"],
    },
    "checks": [],
    "not_applicable": [],
    "notes": "Known findings: known-findings.txt. Replay a violation with build/target/x86_64-unknown-linux-gnu/debug/psim replay <file>.",
}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"bash tools/check.sh {i} quick",
            "thorough_cmd": f"bash tools/check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": CLAIMED[i][0],
            "level": "exploration",
            "level_note": CLAIMED[i][1],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
