#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from properties.jsonl.
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
NA = {
}
NOTE = json.load(open(os.path.join(here, "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA: na.append({"property": i, "reason": NA[i]}); continue
    if i not in NOTE: na.append({"property": i, "reason": "A pure function of one call's input: it depends on no schedule, clock, file or fault, so deterministic simulation adds nothing to plain input generation."}); continue
    checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection: " + NOTE[i][0], "level": "exploration", "level_note": NOTE[i][1]})
m = {"version": 1, "setup_cmd": "cd sim && cargo build --release --offline --locked",
     "hooks": {"guard": "none in /repo: the seams are the system-call symbols, the collaborator crates and compiler-inserted callbacks (sim/rustc-wrapper.sh)", "enable": "sim/.cargo/config.toml sets the rustc wrapper; /repo's sources are built unmodified", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
