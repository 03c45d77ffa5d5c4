#!/usr/bin/env python3
"""Property check runner.  usage: vrun.py <property-id>

Reads props/<id>/prop.json, runs every verification unit listed there against
/repo's *current* working tree, prints VIOLATION lines, writes evidence/<id>.json.

exit 0: every obligation discharged; exit 1: an obligation is refuted;
exit 2: the machinery could not decide (lost anchor, tool limit, vacuous run).
"""
import importlib, json, os, pathlib, shutil, subprocess, sys, tempfile, time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("LAYA_REPO", "/repo"))
sys.path.insert(0, str(VERIF / "lib"))


class Result:
    """What one unit established."""
    def __init__(self, unit):
        self.unit = unit
        self.obligations = 0
        self.discharged = 0
        self.items = []        # per function/harness detail for the evidence
        self.violations = []   # dicts: obligation, detail, witness(bool), replay text
        self.undecided = []    # strings
        self.trusted = []
        self.solver_s = 0.0
        self.cmd = ""
        self.bounded = 0


def known_findings(pid):
    out = []
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if line.startswith("finding:"):
                kv = line[len("finding:"):].strip()
                p, _, rest = kv.partition(" ")
                if p == f"property={pid}":
                    key, _, text = rest.partition(" ")
                    out.append((key.partition("=")[2], text))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = json.loads((VERIF / "props" / pid / "prop.json").read_text())
    work = pathlib.Path(tempfile.mkdtemp(prefix=f"laya-verif-{pid}-"))
    results = []
    try:
        for i, unit in enumerate(cfg["units"]):
            if tier == "quick" and unit.get("tier") == "thorough":
                continue
            eng = importlib.import_module("engine_" + unit["engine"].replace("-", "_"))
            d = work / f"u{i}"
            d.mkdir()
            res = Result(unit)
            try:
                eng.run(pid, cfg, unit, d, tier, seed, res)
            except Exception as e:  # machinery failure, never an alarm
                import traceback
                res.undecided.append(f"machinery: {e!r}\n{traceback.format_exc()}")
            results.append(res)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    wall = time.time() - t0
    findings = known_findings(pid)
    obligations = sum(r.obligations for r in results)
    discharged = sum(r.discharged for r in results)
    reported = []
    lines = []
    hit = set()
    for r in results:
        for v in r.violations:
            key = v["key"]
            if any(key == k for k, _ in findings):
                hit.add(key)
                continue
            rp = VERIF / "replay"
            rp.mkdir(exist_ok=True)
            path = rp / f"{pid}-{len(reported)}.txt"
            path.write_text(v["text"])
            tail = "" if v["witness"] else " no-failing-input-found"
            lines.append(f"VIOLATION property={pid} replay={path}{tail}")
            reported.append(v)
    for key, text in findings:
        if key in hit:
            print(f"KNOWN-FINDING: property={pid} {key} {text}")
    undecided = [u for r in results for u in r.undecided]
    level = cfg.get("level", "proof")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": " ; ".join(dict.fromkeys(r.cmd for r in results if r.cmd)),
            "trusted_base": cfg.get("trusted", []) + [t for r in results for t in r.trusted],
            "bounded_obligations_not_counted_as_proved": sum(r.bounded for r in results),
            "functions_under_contract": [it for r in results for it in r.items],
            "solver_s": round(sum(r.solver_s for r in results), 3),
            "undecided": undecided,
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    if level == "other":
        ev["coverage"]["explanation"] = cfg.get("explanation", "")
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for v in reported:
        print(f"  failed obligation: {v['key']}")
    for l in lines:
        print(l)
    print(f"{pid}: {discharged}/{obligations} obligations discharged, "
          f"{sum(r.bounded for r in results)} bounded, {len(reported)} violated, "
          f"{len(undecided)} undecided, {wall:.1f}s")
    for u in undecided:
        print("  UNDECIDED:", u[:1500])
    if reported:
        sys.exit(1)
    if undecided:
        sys.exit(2)
    if obligations + sum(r.bounded for r in results) == 0:
        print("  vacuous: no obligation generated")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
