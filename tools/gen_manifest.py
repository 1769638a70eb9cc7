#!/usr/bin/env python3
"""Generates MANIFEST.json. Claimed checks are those the explorer registers."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
mod = open(f"{ROOT}/harness/src/checks/mod.rs").read()
ids = re.findall(r'"(C\d\d)" =>', mod)
exec(open(f"{ROOT}/tools/manifest_notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ids:
        tech, level, note = NOTES[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": tech,
            "level": level,
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": REASONS.get(i, "the check is not built yet")})
m = {
    "version": 1,
    "setup_cmd": "./run.sh --build-only",
    "hooks": {
        "guard": "rustc cfg flags findex_verif (schedulable mutex in the in-memory store) and findex_verif_small_batch (compaction batches of 2 entries)",
        "enable": "run.sh builds /repo as a path dependency with RUSTFLAGS='--cfg findex_verif' (and '--cfg findex_verif_small_batch' for the batch phases)",
        "source_commits": HOOK_COMMITS,
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "One explorer (harness/, binary fmc) decides every property; see DESIGN.md.",
}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
