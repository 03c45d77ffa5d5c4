"""Symbolic proof of the front end's functions from the MIR rustc produces for /repo's current
source, with a bounded native stand-in when a construct is outside the engine's subset."""
import importlib.util, json, os, re, subprocess, sys, time
from vrun import VERIF, REPO


def run(pid, cfg, unit, work, tier, seed, res):
    # z3 lives in the tooling venv: re-run this unit there and collect its JSON result
    out = work / "mir.json"
    env = dict(os.environ, LAYA_WORK=str(work), VERIF_TIER=tier)
    p = subprocess.run(["python3-vt", str(VERIF / "lib/mirmain.py"), pid, json.dumps(unit), str(out)],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if not out.exists():
        res.undecided.append("mir engine failed: " + p.stdout[-1500:])
        return
    d = json.loads(out.read_text())
    for k, v in d.items():
        if isinstance(v, list):
            getattr(res, k).extend(v)
        elif isinstance(v, (int, float)):
            setattr(res, k, getattr(res, k) + v)
        else:
            setattr(res, k, v)
