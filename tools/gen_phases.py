#!/usr/bin/env python3
"""Rewrites PHASES.md, the list of the phases of each check with their bounds, from evidence/ (quick tier)."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
out = ["# Phases of the checks (quick tier)", "",
       "Generated by `tools/gen_phases.py` from the evidence of a quick run. Executions are those of seed 1.", ""]
for f in sorted((root / "evidence").glob("C*.json")):
    e = json.loads(f.read_text())
    ps = e["coverage"]["phases"]
    out += [f"## {f.stem}", "", "| phase | executions | transitions | bounds |", "|-|-|-|-|"]
    for p in ps:
        out.append(f"| {p['phase']} | {p['executions']} | {p['transitions']} | {p['bounds'].replace('|', '/')} |")
    out.append("")
(root / "PHASES.md").write_text("\n".join(out))
