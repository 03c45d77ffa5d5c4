"""Kani (CBMC back end) on the real crate, compiled in place from /repo through the
cfg(laya_verif) hook; harness text comes from props/<id>/<module>.rs."""
import json, os, pathlib, re, signal, subprocess, time
from vrun import VERIF, REPO

JOBS = int(os.environ.get("VERIF_JOBS", "8"))
UNDECIDED_CATEGORIES = {"unwind", "unsupported_construct", "reachability_check", "recursion"}


def sh(cmd, cwd, env, timeout, log):
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = -9
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    return rc


def base_env(inc, target):
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    env.update(LAYA_VERIF_DIR=str(inc), RUSTFLAGS="--cfg laya_verif -Awarnings",
               CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               CARGO_TARGET_DIR=str(target), CARGO_INCREMENTAL="0")
    env["HOME"] = env.get("HOME", "/root")
    env["PATH"] = str(VERIF / "lib/solvers") + ":/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    return env


ANN = re.compile(r"^\s*//@\s*(\w+)\s*:\s*(.*)$")


def annotations(text):
    out = {}
    for line in text.splitlines():
        m = ANN.match(line)
        if not m:
            continue
        d = {"kind": "complete", "fns": [], "tier": "quick", "bound": ""}
        for part in m.group(2).split("|"):
            part = part.strip()
            if part.startswith("bounded"):
                d["kind"] = "bounded"
                d["bound"] = part[len("bounded"):].strip(" ()")
            elif part.startswith("fns="):
                d["fns"] = [x.strip() for x in part[4:].split(",") if x.strip()]
            elif part.startswith("tier="):
                d["tier"] = part[5:].strip()
            elif part.startswith("what="):
                d["what"] = part[5:].strip()
        out[m.group(1)] = d
    return out


def crate_setup(unit, d, inc):
    """Returns the directory cargo kani runs in."""
    if unit.get("crate", "openjp2") == "openjp2":
        return REPO / "openjp2-rs"
    import layacrate
    return layacrate.make(d / "crate")


def hook_modules(crate):
    root = REPO / ("openjp2-rs/src" if crate == "openjp2" else "src")
    return [p for p in root.rglob("*.rs")]


def run(pid, cfg, unit, d, tier, seed, res):
    crate = unit.get("crate", "openjp2")
    inc = d / "inc"
    inc.mkdir()
    for p in hook_modules(crate):
        (inc / p.name).write_text("")
    ann = {}
    for fn in unit["files"]:
        text = (VERIF / "props" / unit.get("dir", pid) / fn).read_text()
        pre = ""
        for m in re.finditer(r"^//@@include (\S+)$", text, re.M):
            pre += (VERIF / m.group(1)).read_text() + "\n"
        target = unit.get("as", {}).get(fn, fn)
        (inc / target).write_text((inc / target).read_text() + pre + text)
        ann.update(annotations(text))
    res.trusted += trusted([unit.get("as", {}).get(f, f) for f in unit["files"]], inc)
    only = unit.get("only")
    names = [n for n, a in ann.items() if (tier == "thorough" or a["tier"] != "thorough")
             and (not only or n in only)]
    cwd = crate_setup(unit, d, inc)
    env = base_env(inc, d / "target")
    env.update(unit.get("env", {}))
    out = d / "out.json"
    log = d / "kani.log"
    tmo = unit.get("timeout", 240 if tier == "quick" else 1500)
    args = ["cargo", "kani", "--target-dir", str(d / "target"), "-Z", "unstable-options",
            "-Z", "function-contracts", "-Z", "stubbing", "-Z", "loop-contracts", "-Z", "quantifiers", "-Z", "c-ffi",
            # vacuity is guarded by each harness's own covers; one SAT call per obligation is saved
            "--no-assertion-reach-checks"]
    args += unit.get("args", [])
    hs = []
    for n in names:
        hs += ["--harness", f"verif::{n}"]
    cmd = args + ["-j", str(JOBS), "--output-format=terse", "--export-json", str(out),
                  "--harness-timeout", f"{tmo}s"] + hs
    res.cmd = "cargo kani -Z function-contracts -Z stubbing --harness <each> (CBMC 6.11, " + \
              unit.get("solver", "cadical") + ") in " + str(cwd if crate == "openjp2" else "symlinked laya crate")
    t0 = time.time()
    rc = sh(cmd, cwd, env, unit.get("total_timeout", 840 if tier == "quick" else 7200), log)
    if not out.exists():
        res.undecided.append(f"Kani produced no result (rc={rc}): compile failure or lost anchor\n"
                             + tail(log))
        return
    data = json.loads(out.read_text())
    solver = {c["harness_id"]: c.get("cbmc_stats", {}) or {} for c in data.get("cbmc", [])
              if isinstance(c, dict) and "harness_id" in c}
    got = {}
    for r in data["verification_results"]["results"]:
        got[r["harness_id"].split("::")[-1]] = r
    missing = [n for n in names if n not in got]
    if missing:
        res.undecided.append("harness missing from Kani result (lost anchor?): " + ", ".join(missing) + tail(log))
    retry = []
    for n in names:
        if n in got:
            verdict = judge(n, got[n], ann[n], solver, res, final=False)
            if verdict == "retry":
                retry.append(n)
    for n in retry:
        out2 = d / "out2.json"
        out2.unlink(missing_ok=True)
        cmd2 = args + ["--output-format=terse", "--export-json", str(out2), "--harness-timeout", f"{tmo}s",
                       "--exact", "--harness", got[n]["harness_id"], "--unwind", str(unit.get("retry_unwind", 70))]
        sh(cmd2, cwd, env, tmo + 120, d / "kani2.log")
        done = False
        if out2.exists():
            d2 = json.loads(out2.read_text())
            for r in d2["verification_results"]["results"]:
                judge(n, r, ann[n], {}, res, final=True)
                done = True
        if not done:
            res.undecided.append(f"{n}: no result after retry\n" + tail(d / "kani2.log"))
    if res.violations:
        replay(pid, unit, d, inc, cwd, env, args, tmo, got, res)


STUBS = {
    # callee replaced by its contract in a caller's harness -> where that contract is decided
    "opj_read_bytes": "C04, C12 (bytes)", "opj_write_bytes": "C04, C12 (bytes)",
    "opj_bio_read": "C01", "opj_bio_write": "C01", "opj_bio_putbit": "C01",
    "opj_mqc_encode_macro": "C02", "opj_mqc_decode_macro": "C02", "opj_mqc_raw_decode": "C02",
    "opj_mqc_bypass_enc_macro": "C02",
    "opj_mct_encode": "C08 (mct)", "opj_mct_decode": "C08 (mct)", "opj_mct_encode_real": "C08 (mct)",
    "opj_mct_decode_real": "C08 (mct)", "opj_mct_encode_custom": "C08 (mct)", "opj_mct_decode_custom": "C08 (mct)",
    "opj_t2_read_packet_header": "C07", "opj_t2_read_packet_data": "C07", "opj_t2_skip_packet_data": "C07",
    "opj_uint_ceildiv": "C05", "opj_j2k_copy_tile_quantization_parameters": "C12 (qcd_copy)",
    "opj_j2k_copy_tile_component_parameters": "C12 (cod_copy)",
    "opj_image_comp_header_update": "C14",
    "opj_stream_seek": "C11", "opj_stream_tell": "C11", "opj_stream_read_data": "C11",
    "opj_stream_write_data": "C11", "opj_stream_get_number_byte_left": "C11",
    "has_seek": "C11 (callbacks)", "seek_relative": "C11 (seek, callbacks)",
    "write": "C11 (callbacks)", "read": "C11 (callbacks)", "seek": "C11 (callbacks)",
    "opj_j2k_get_num_tp": "C10",
    "opj_sparse_array_int32_create": "C15", "opj_sparse_array_int32_free": "C15",
    "opj_sparse_array_int32_read": "C15", "opj_sparse_array_int32_write": "C15",
    "opj_dwt_encode_and_deinterleave_h_one_row": "C09", "opj_dwt_encode_and_deinterleave_v": "C09",
    "opj_idwt53_h": "C09", "opj_idwt53_v": "C09",
}
UNCHECKED = {
    "msg_write": "event messages have no effect on the result", "is_enabled": "event messages switched off",
    "max_level": "the log crate switched off", "format": "message text not built",
    "opj_calloc": "allocation succeeds and is zeroed", "opj_malloc": "allocation succeeds",
    "opj_aligned_32_malloc": "allocation succeeds", "opj_aligned_free": "freeing has no other effect",
    "opj_realloc": "allocation succeeds and keeps the old bytes",
}


def trusted(files, inc):
    """Every callee the harnesses replace, with where its contract is decided, or as an assumption."""
    out = ["Kani 0.68, CBMC 6.11 and the back-end solver; rustc's MIR as Kani models it (machine integers and "
           "IEEE floats are exact, not mathematical)",
           "raw pointers handed to the functions are valid as each harness sets them up; heap allocation succeeds"]
    seen = {}
    for f in files:
        for a, b in re.findall(r"kani(?:tool)?::stub\(\s*([^,]+?)\s*,\s*(\w+)\s*\)", (inc / f).read_text()):
            seen.setdefault(a, set()).add(b)
    for a in sorted(seen):
        k = re.sub(r"^<\w+ as (\w+)>", r"\1", a).split("::")[-1]
        why = f"its contract, decided in {STUBS[k]}" if k in STUBS and not a.startswith("std") else \
            "an assumption: " + UNCHECKED.get(k, "its effect as the harness models it, not proved elsewhere")
        out.append(f"callee {a} replaced by {why}")
    return out


def tail(log, n=3500):
    try:
        t = pathlib.Path(log).read_text()
    except OSError:
        return ""
    errs = [l for l in t.splitlines() if l.startswith("error")]
    return "\n".join(errs[:20]) + "\n..." + t[-n:]


def judge(n, r, a, solver, res, final):
    checks = r.get("checks") or []
    ok = [c for c in checks if c["status"] in ("Success", "Unreachable")]
    fails = [c for c in checks if c["status"] == "Failure"]
    covers = [c for c in checks if c["category"] == "cover" or c["status"] in ("Satisfied", "Unsatisfiable")]
    badcov = [c for c in covers if c["status"] != "Satisfied"]
    hard = [c for c in fails if c["category"] not in UNDECIDED_CATEGORIES
            and "unwinding assertion" not in c["description"]
            and "is not currently supported by Kani" not in c["description"]]
    soft = [c for c in fails if c not in hard]
    undet = [c for c in checks if c["status"] in ("Undetermined", "Error")]
    st = solver.get(r["harness_id"], {})
    res.solver_s += st.get("runtime_decision_procedure_s", 0) or 0
    item = {"harness": n, "functions": a["fns"], "kind": a["kind"], "bound": a["bound"],
            "contract": a.get("what", ""),
            "checks": len(checks) - len(covers), "passed": len(ok), "covers_satisfied": len(covers) - len(badcov),
            "vccs": st.get("vccs_generated"), "seconds": round((r.get("duration_ms") or 0) / 1000, 2),
            "status": r["status"]}
    if not hard and soft and not final and all("unwinding" in c["description"] or c["category"] == "unwind" for c in soft):
        return "retry"
    res.items.append(item)
    total = len([c for c in checks if c not in covers])
    if a["kind"] == "complete":
        res.obligations += total
        res.discharged += len(ok)
    else:
        res.bounded += len(ok)
    if hard:
        for c in hard[:6]:
            loc = c.get("location") or {}
            res.violations.append({
                "key": f"{n}:{c['description'].strip()}", "harness": n, "hid": r["harness_id"], "witness": False,
                "text": f"failed obligation: {c['description']}\n  in function {c.get('function')}\n"
                        f"  at {loc.get('file')}:{loc.get('line')}\n  category {c['category']}\n"
                        f"harness (contract): {n}  {a.get('what','')}\nfunctions: {', '.join(a['fns'])}\n"})
        return "violated"
    if soft or undet or r["status"] != "Success":
        why = "; ".join(f"{c['description']} @ {c.get('function')}" for c in (soft + undet)[:5]) or f"status {r['status']}"
        res.undecided.append(f"{n}: {why}")
        return "undecided"
    if total == 0:
        res.undecided.append(f"{n}: vacuous, no obligations generated")
    if badcov:
        res.undecided.append(f"{n}: vacuity guard not satisfied: " + "; ".join(c["description"] for c in badcov[:4]))
    if not covers:
        res.undecided.append(f"{n}: no vacuity guard (cover) in harness")
    return "ok"


def replay(pid, unit, d, inc, cwd, env, args, tmo, got, res):
    """Replays the verifier's counterexample natively on the real code."""
    seen = set()
    for v in res.violations:
        n = v.get("harness")
        if n in seen or len(seen) >= 2:
            continue
        seen.add(n)
        log = d / f"cp-{n}.log"
        sh(args + ["-Z", "concrete-playback", "--concrete-playback=print", "--harness-timeout", f"{tmo}s",
                   "--exact", "--harness", v["hid"]], cwd, env, tmo + 60, log)
        t = log.read_text(errors="replace")
        tests = re.findall(r"^```\n(.*?)^```", t, re.S | re.M)
        outtxt = ""
        confirmed = False
        if tests:
            mod = v["hid"].split("::verif::")[0].split("::")[-1] + ".rs"
            p = inc / mod
            saved = p.read_text()
            p.write_text(saved + "\n" + "\n".join(dict.fromkeys(tests)))
            env2 = dict(env)
            env2["CARGO_TARGET_DIR"] = str(d / "target-pb")
            log2 = d / f"pb-{n}.log"
            sh(["cargo", "kani", "playback", "-Z", "concrete-playback", "--lib", "--", "kani_concrete"],
               cwd, env2, 300, log2)
            p.write_text(saved)
            outtxt = log2.read_text(errors="replace")
            panics = re.findall(r"panicked at ([^\n]*)\n([^\n]*)", outtxt)
            real = [q for q in panics if "kani::assume" not in q[1] and "concrete" not in q[1]]
            confirmed = bool(real) and "test result: FAILED" in outtxt
            if re.search(r"signal: \d+|SIGSEGV|SIGABRT", outtxt):
                confirmed = True
        for w in res.violations:
            if w.get("harness") == n:
                w["witness"] = confirmed
                w["text"] += "\n--- verifier output (counterexample run)\n" + "\n".join(tests) + "\n" + t[-6000:]
                if tests:
                    i = outtxt.find("\nrunning ")
                    w["text"] += "\n--- native replay of the counterexample on the real code " + \
                        ("(confirmed)" if confirmed else "(did not reproduce natively)") + "\n" + outtxt[i:i + 6000]
