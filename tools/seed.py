#!/usr/bin/env python3
"""Helper to author planted bugs (never used by a check).
seed.py new SPEC.py : SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], INC={module: rust test}, CRATE
seed.py confirm ID  : in the scratch worktree /tmp/seedwt, checks build + stable tests + demo both ways
seed.py try ID      : applies the patch to /repo, runs the property's check, undoes it
"""
import json, os, pathlib, subprocess, sys
V = pathlib.Path(__file__).resolve().parent.parent
WT = pathlib.Path("/tmp/seedwt")
DEMO = '''#!/bin/bash
# Runs the unit tests beside this file inside the crate, through the cfg(laya_verif) include hook.
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
mkdir "$t/inc"
for f in openjp2-rs/src/*.rs src/*.rs src/iiif/*.rs; do : > "$t/inc/$(basename "$f")"; done
cp "$here"/inc/*.rs "$t/inc/"
export LAYA_VERIF_DIR="$t/inc" RUSTFLAGS="--cfg laya_verif -Awarnings" CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
cd %s && timeout 280 cargo test --offline --lib -- verif:: --test-threads=1
'''
def sh(c, **k): return subprocess.run(c, shell=True, **k).returncode


def new(spec):
    ns = {}
    exec(pathlib.Path(spec).read_text(), ns)
    d = V / "seeded" / ns["ID"]
    (d / "inc").mkdir(parents=True, exist_ok=True)
    sh(f"git -C {WT} checkout -q -- .")
    for f, old, nw in ns["EDITS"]:
        s = (WT / f).read_text()
        assert s.count(old) == 1, (f, s.count(old), old)
        (WT / f).write_text(s.replace(old, nw))
    diff = subprocess.check_output(["git", "-C", str(WT), "diff"], text=True)
    (d / "patch.diff").write_text(diff)
    if ns["INC"]: (d / "demo.sh").write_text(DEMO % ns.get("CRATE", "openjp2-rs"))
    os.chmod(d / "demo.sh", 0o755)
    for m, t in ns["INC"].items(): (d / "inc" / f"{m}.rs").write_text(t)
    (d / "meta.json").write_text(json.dumps({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, indent=1) + "\n")
    sh(f"git -C {WT} checkout -q -- .")
    return ns["ID"]


def confirm(sid):
    d = V / "seeded" / sid
    sh(f"git -C {WT} checkout -q -- .")
    a = sh(f"cd {WT} && bash {d}/demo.sh > /tmp/seed-a.log 2>&1")
    assert sh(f"git -C {WT} apply {d}/patch.diff") == 0, "patch does not apply"
    b = sh(f"cd {WT} && bash {d}/demo.sh > /tmp/seed-b.log 2>&1")
    t = sh(f"cd {WT} && cargo test --offline --workspace > /tmp/seed-t.log 2>&1")
    sh(f"git -C {WT} checkout -q -- .")
    print(f"{sid}: clean demo rc={a} (want 0), patched demo rc={b} (want !=0), tests rc={t}", flush=True)
    if a or not b or t: print("  PROBLEM", subprocess.getoutput("grep -h '^test result' /tmp/seed-t.log; tail -5 /tmp/seed-a.log"))


def attempt(sid):
    d = V / "seeded" / sid
    p = json.loads((d / "meta.json").read_text())["property"]
    assert sh(f"git -C /repo apply {d}/patch.diff") == 0
    try:
        r = subprocess.run(["python3", "lib/vrun.py", p], cwd=V, capture_output=True, text=True)
    finally:
        sh("git -C /repo checkout -q -- .")
    print(f"== {sid} {p} rc={r.returncode}\n" + r.stdout[-1500:], flush=True)


for x in sys.argv[2:]:
    if sys.argv[1] == "new":
        s = new(x)
        confirm(s)
        attempt(s)
    else:
        {"confirm": confirm, "try": attempt}[sys.argv[1]](x)
