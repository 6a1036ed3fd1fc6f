#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
FAULT = {"C03", "C04", "C05", "C07", "C08", "C09", "C18", "C19", "C20", "C21", "C22", "C23", "C24"}
CLAIMED = open(os.path.join(here, "tools", "claimed.txt")).read().split()
NA = json.load(open(os.path.join(here, "tools", "not_applicable.json")))
NOTES = json.load(open(os.path.join(here, "tools", "level_notes.json")))
checks = []
for p in props:
    i = p["id"]
    if i not in CLAIMED:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i}",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "technique": "deterministic simulation with fault injection: " + NOTES[i][0],
        "level": "fault_enumeration" if i in FAULT else "exploration",
        "level_note": NOTES[i][1],
    })
m = {
    "version": 1,
    "setup_cmd": "bash check.sh build",
    "hooks": {
        "guard": "cfg(ebi_sim) for the simulated clock (ebi/src/time.rs) and the ALP stand-in (ebi/src/compressor.rs); the cargo feature ffi_alp (already in the repository, on by default) for the gated ALP uses",
        "enable": "RUSTFLAGS='--cfg ebi_sim' and default-features = false on the path dependency (see check.sh and sim/Cargo.toml)",
        "source_commits": ["6d77fb0", "76d7ae3", "c1bdfed", "caafd1f"],
    },
    "checks": checks,
    "not_applicable": [n for n in NA if n["property"] not in CLAIMED],
    "notes": "Every check rebuilds sim/ against /repo's working tree. VERIF_SEED selects the seed stream. EBISIM_COUNT overrides the number of simulated runs. Replay: check.sh replay <file>.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
