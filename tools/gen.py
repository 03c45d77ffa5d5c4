#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props/*/meta.json and props/not_applicable.json."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
HOOKS = ["d1bb28c"]
props, checks = [], []
na = json.loads((V / "props/not_applicable.json").read_text())
for m in sorted((V / "props").glob("*/meta.json")):
    d = json.loads(m.read_text())
    pid = m.parent.name
    props.append({"id": pid, **{k: d[k] for k in ("title", "statement", "quantifier", "why_tests_cant", "anchors")}})
    level = json.loads((m.parent / "prop.json").read_text()).get("level", "proof")
    checks.append({"property": pid, "quick_cmd": f"python3 lib/vrun.py {pid}",
                   "thorough_cmd": f"env VERIF_TIER=thorough python3 lib/vrun.py {pid}",
                   "evidence_file": f"evidence/{pid}.json", "technique": d["technique"],
                   "level": level, "level_note": d["level_note"]})
for n in na:
    props.append({"id": n["property"], **{k: n[k] for k in ("title", "statement", "quantifier", "why_tests_cant", "anchors")}})
assert len({p["id"] for p in props}) == len(props)
for p in props:
    assert len(p["title"]) <= 80, p["title"]
(V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in props))
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "hooks": {"guard": "cfg(laya_verif)",
                 "enable": "RUSTFLAGS='--cfg laya_verif' LAYA_VERIF_DIR=<dir with one harness file per module>",
                 "source_commits": HOOKS},
       "checks": checks,
       "not_applicable": [{"property": n["property"], "reason": n["reason"]} for n in na],
       "notes": "Contract-based deductive verification of the real code; see DESIGN.md."}
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")

# generated documentation
import re
out = ["# Contracts\n\nGenerated by tools/gen.py from the annotations in props/; do not edit.\n"]
for m in sorted((V / "props").glob("*/meta.json")):
    d = json.loads(m.read_text())
    out.append(f"\n## {m.parent.name} {d['title']}\n\n{d['technique']}. {d['level_note']}\n")
    rows = []
    for f in sorted(m.parent.glob("*.rs")):
        for n, rest in re.findall(r"^//@ (\w+): (.*)$", f.read_text(), re.M):
            parts = [x.strip() for x in rest.split("|")]
            kv = dict(x.split("=", 1) for x in parts[1:] if "=" in x)
            kind = parts[0].replace("|", "/") + (" (thorough tier)" if kv.get("tier") == "thorough" else "")
            rows.append(f"| {f.stem}::{n} | {kv.get('fns', '').replace(',', ', ')} | {kind} | {kv.get('what', '')} |")
    if rows:
        out.append("\n| contract | functions | kind | states |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
(V / "CONTRACTS.md").write_text("".join(out))
doc = (V / "DESIGN.in.md").read_text()
notes = []
for m in sorted((V / "props").glob("*/meta.json")):
    d = json.loads(m.read_text())
    notes.append(f"* **{m.parent.name}** {d['title']}. {d['level_note']}")
fixed = [l.split(" ", 3)[1:] for l in (V / "known_findings.txt").read_text().splitlines() if l.startswith("fixed:")]
rows = ["| property | commit | what failed |\n|---|---|---|"] + [f"| {a.split('=')[1]} | {b} | {c} |" for a, b, c in fixed]
catches = json.loads((V / "seeded_results.json").read_text())
srows = ["| bug | property | needs | caught by |\n|---|---|---|---|"]
for m in sorted(V.glob("seeded*/*/meta.json"), key=lambda p: p.parent.name):
    d = json.loads(m.read_text())
    srows.append(f"| {m.parent.name} | {d['property']} | {d['needs'].replace('|', '/')} | {catches.get(m.parent.name, 'not yet run')} |")
nas = [f"* **{n['property']}** {n['title']}: {n['reason']}" for n in na] or ["none"]
for k, v in (("NOTES", notes), ("FIXED", rows), ("SEEDS", srows), ("NA", nas)):
    doc = doc.replace(f"@@{k}@@", "\n".join(v))
(V / "DESIGN.md").write_text(doc)
