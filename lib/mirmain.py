import concurrent.futures, importlib.util, json, multiprocessing, os, pathlib, re, shutil, subprocess, sys, time
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import z3
from mirsym import *
import mircontracts as mc
from mirspec import *

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("LAYA_REPO", "/repo"))
PID, UNIT, OUT = sys.argv[1], json.loads(sys.argv[2]), pathlib.Path(sys.argv[3])
WORK = pathlib.Path(os.environ["LAYA_WORK"])
DEADLINE = time.time() + 330
R = {"obligations": 0, "discharged": 0, "items": [], "violations": [], "undecided": [], "trusted": [],
     "solver_s": 0.0, "cmd": "rustc MIR of /repo (lib/mirdump) -> lib/mirsym.py -> z3", "bounded": 0}


def sh(cmd, env=None, cwd=None, timeout=600):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def base_env():
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTFLAGS="-Awarnings")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    return env


def build_driver():
    exe = WORK / "mirdump"
    rc, o = sh(["rustc", "+nightly", "--edition", "2021", "-Awarnings", str(VERIF / "lib/mirdump/main.rs"), "-o", str(exe)], env=base_env())
    if rc: raise Unsupported("cannot build the MIR driver: " + o[-800:])
    rc, root = sh(["rustc", "+nightly", "--print", "sysroot"], env=base_env())
    return exe, root.strip() + "/lib"


def dump(exe, lib, profile, entries):
    out = WORK / f"mir-{profile}.json"
    env = base_env()
    env.update(LD_LIBRARY_PATH=lib, MIRDUMP_OUT=str(out), MIRDUMP_CRATE="laya", MIRDUMP_ENTRY="\n".join(entries),
               MIRDUMP_STOP="\n".join(mc.stop_list()), RUSTC_WORKSPACE_WRAPPER=str(exe), CARGO_TARGET_DIR=str(WORK / "target"))
    if profile == "release":
        env["MIRDUMP_EXTRA"] = "-Cdebug-assertions=off -Coverflow-checks=off"
    # the harmless cfg makes cargo run the compiler again for every profile
    rc, o = sh(["cargo", "+nightly", "rustc", "--profile", "check", "--offline", "--lib", "--manifest-path", str(REPO / "Cargo.toml"),
                "--", "--cfg", f"mirdump_{profile}"], env=env, cwd=str(REPO))
    if not out.exists():
        raise Unsupported("the crate does not compile: " + o[-1200:])
    return json.loads(out.read_text())


def uf_apps(es):
    seen, out, st = set(), {}, list(es)
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() == 1 and e.decl().name().startswith(("parses_", "value_")):
                out[e.get_id()] = e
            st += e.children()
    return list(out.values())


def render(v):
    if isinstance(v, z3.BitVecNumRef): return str(v.as_long())
    if isinstance(v, z3.FPRef):
        if z3.is_true(z3.simplify(z3.fpIsNaN(v))): return "NaN"
        if z3.is_true(z3.simplify(z3.fpIsInf(v))): return "-inf" if z3.is_true(z3.simplify(z3.fpIsNegative(v))) else "inf"
        import struct
        bits = z3.simplify(z3.fpToIEEEBV(v)).as_long()
        return repr(struct.unpack(">f", struct.pack(">I", bits))[0])
    return "0"


def witness(m, s, exprs):
    """concrete input text realising the model, numbers spelt out"""
    def txt(e):
        w = m.eval(e, model_completion=True)
        try:
            t = w.as_string()
        except Exception:
            return ""
        return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda k: chr(int(k.group(1), 16)), t)
    text = txt(s)
    subs = {}
    for a in uf_apps(exprs):
        w = txt(a.arg(0))
        n = a.decl().name()
        if n.startswith("value_"):
            subs.setdefault(w, {})["v"] = render(z3.simplify(m.eval(a, model_completion=True)))
        else:
            subs.setdefault(w, {})["ok"] = z3.is_true(m.eval(a, model_completion=True))
    toks = re.split(r"([,/.!^]|pct:)", text)
    joined = []
    for t in toks:
        d = subs.get(t) if t else None
        if d is None: joined.append(t)
        elif d.get("ok") and "v" in d: joined.append(d["v"])
        elif d.get("ok") is False: joined.append("x")
        else: joined.append(t)
    return "".join(joined), text


def native(sp, inputs, profile="dev"):
    """bounded stand-in and replay: the real functions against the executable oracle in
    props/<id>/<module>.rs -> (ok, log)"""
    inc = WORK / "inc"
    shutil.rmtree(inc, ignore_errors=True)
    inc.mkdir()
    for mod in ["http", "resolve", "parse"] + [p.stem for p in (REPO / "openjp2-rs/src").glob("*.rs")]:
        src = VERIF / "props" / PID / f"{mod}.rs"
        (inc / f"{mod}.rs").write_text(src.read_text() if src.exists() else "")
    f = WORK / "inputs.txt"
    f.write_text("\n".join(x.encode().hex() for x in inputs))
    env = base_env()
    env.update(RUSTFLAGS="-Awarnings --cfg laya_verif" + (" -Cdebug-assertions=off" if profile == "release" else ""),
               LAYA_VERIF_DIR=str(inc), LAYA_VERIF_INPUTS=str(f), CARGO_TARGET_DIR=str(WORK / ("ntarget-" + profile)))
    cmd, cwd = ["cargo", "test", "--offline", "--lib", "-p", "laya", "--manifest-path", str(REPO / "Cargo.toml"), "--", "verif::", "--nocapture"], REPO
    if hasattr(sp, "native"):
        cmd, cwd = sp.native(WORK, REPO, VERIF / "props" / PID, env)
    rc, o = sh(cmd, env=env, cwd=str(cwd), timeout=400)
    m = re.search(r"test result: (ok|FAILED)\. (\d+) passed; (\d+) failed", o)
    if not m: return None, o
    n = sum(int(x) for x in re.findall(r"COMPARED (\d+)", o))
    if m.group(1) == "ok" and n == 0: return None, o
    return m.group(1) == "ok", o


def main():
    spec = importlib.util.spec_from_file_location("spec", VERIF / "props" / PID / "spec.py")
    sp = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(sp)
    fallback, refuted = [], []
    trusted = set()
    if UNIT.get("native"):
        ok, log = native(sp, [])
        n = sum(int(x) for x in re.findall(r"COMPARED (\d+)", log))
        if ok is None:
            R["undecided"].append("native stand-in did not run: " + log[-1500:])
        R["bounded"] += n
        R["cmd"] = "cargo test of the real functions against an executable oracle"
        R["items"].append({"obligation": "native comparison", "bounded": sp.BOUND, "cases": n, "what": sp.NATIVE,
                           "outcome": {True: "held", False: "refuted", None: "undecided"}[ok]})
        if ok is False:
            detail = "\n".join(l for l in log.splitlines() if "MISMATCH" in l or "panicked" in l)[:3000]
            R["violations"].append({"key": "native:mismatch", "witness": True, "text": f"property {PID}\nbounded comparison failed\n{detail}\n"})
        OUT.write_text(json.dumps(R))
        return
    try:
        if os.environ.get("LAYA_FORCE_NATIVE"): raise Unsupported("native stand-in forced")
        exe, lib = build_driver()
        dumps = {}
        for prof in getattr(sp, "PROFILES", ["dev"]):
            dumps[prof] = dump(exe, lib, prof, sp.ENTRIES)
        jobs = [(tgt, prof) for tgt in sp.TARGETS for prof in dumps]
        global WORKER
        WORKER = lambda n: one(sp, jobs[n][0], jobs[n][1], dumps[jobs[n][1]])
        with concurrent.futures.ProcessPoolExecutor(6, mp_context=multiprocessing.get_context("fork")) as pool:
            for item, ref, fb, tr, n, ok, secs in pool.map(call_worker, range(len(jobs))):
                R["items"].append(item)
                refuted += ref
                fallback += fb
                trusted |= tr
                R["obligations"] += n
                R["discharged"] += ok
                R["solver_s"] += secs
    except Unsupported as e:
        fallback.append(str(e))
    R["trusted"] += [f"assumed library contract: {t}" for t in sorted(trusted)]
    if refuted or fallback:
        cands = [r["input"] for r in refuted if r.get("input") is not None] + [r["raw"] for r in refuted if r.get("raw") is not None]
        bad = None
        for prof in getattr(sp, "PROFILES", ["dev"]):
            ok, log = native(sp, cands, prof)
            if ok is False:
                bad = log
                break
            if ok is None and not refuted:
                R["undecided"].append("native stand-in did not run: " + log[-1500:])
            elif ok and fallback:
                n = sum(int(x) for x in re.findall(r"COMPARED (\d+)", log))
                R["bounded"] += n
                R["items"].append({"obligation": f"native stand-in [{prof}]", "bounded": sp.BOUND, "cases": n,
                                   "because": fallback, "backend": "execution of the real functions against the oracle"})
        seen = set()
        refuted = [r for r in refuted if not (r["key"] in seen or seen.add(r["key"]))]
        for r in refuted or [{"key": "native:mismatch", "text": "bounded stand-in found a mismatch"}]:
            if not refuted and bad is None: break
            detail = "\n".join(l for l in (bad or "").splitlines() if "MISMATCH" in l or "panicked" in l)[:3000]
            R["violations"].append({"key": r["key"], "witness": bad is not None,
                                    "text": f"property {PID}\nfailed obligation: {r['key']}\n{r['text']}\n\nreplay against the real code:\n{detail or 'no failing concrete input found'}\n"})
            if not refuted: break
    OUT.write_text(json.dumps(R))


WORKER = None
def call_worker(n): return WORKER(n)


def one(sp, tgt, prof, d):
    """one target in one build profile, in its own process"""
    R.update(obligations=0, discharged=0, solver_s=0.0)
    refuted, fallback, trusted = [], [], set()
    t0 = time.time()
    item = {"obligation": f"{tgt['name']} [{prof}]", "what": tgt["what"], "backend": "MIR symbolic execution + z3 (strings, IEEE floats, bit-vectors)"}
    try:
        prove(sp, tgt, prof, d, item, refuted, trusted)
    except Unsupported as e:
        fallback.append(f"{tgt['name']} [{prof}]: {e}")
        item["outcome"] = f"outside the engine's subset: {e}"
    except (z3.Z3Exception, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
        fallback.append(f"{tgt['name']} [{prof}]: engine error {e!r}")
        item["outcome"] = f"engine error {e!r}"
    item["seconds"] = round(time.time() - t0, 2)
    return item, refuted, fallback, trusted, R["obligations"], R["discharged"], R["solver_s"]


def prove(sp, tgt, prof, d, item, refuted, trusted):
    roots = [n for n, x in enumerate(d["insts"]) if x and x["root"] and re.search(tgt["entry"], x["name"])]
    if len(roots) != 1: raise Unsupported(f"entry {tgt['entry']}: {len(roots)} candidates")
    ex = Engine(d, mc.CONTRACTS, tgt.get("crate_contracts"))
    ok = 0
    for label, args, st, pre in tgt["args"](ex, roots[0]):
        st.pc += pre
        paths = ex.run(roots[0], args, st)
        if not any(o[0] == "ret" for _, o in paths): raise Unsupported("no returning path")
        s = tgt.get("input", lambda a: a[0].t)(args)
        for n, (ps, o) in enumerate(paths):
            if time.time() > DEADLINE: raise Unsupported("time budget")
            if o[0] == "panic":
                R["obligations"] += 1
                r, m, _ = ex.check(ps.pc, model=True)
                if r == z3.unsat:
                    R["discharged"] += 1
                    continue
                if r == z3.unknown: raise Unsupported("solver gave no answer")
                w, raw = witness(m, s, ps.pc) if s is not None else (None, None)
                refuted.append({"key": f"{tgt['name']}:no-panic", "input": w, "raw": raw, "text": f"{prof}: reaches panic {o[1]} on input {w!r} {label}"})
                continue
            for conds, e in explore(ex, ps.pc, lambda r: (setattr(r, "label", label), tgt["spec"](ex, r, *args))[1]):
                R["obligations"] += 1
                f = z3.simplify(same(ex, ps, o[1], e))
                if z3.is_true(f):
                    R["discharged"] += 1
                    ok += 1
                    continue
                q = ps.pc + conds + [z3.Not(f)]
                r, m, _ = ex.check(q, model=True)
                if r == z3.unsat:
                    R["discharged"] += 1
                    ok += 1
                elif r == z3.unknown:
                    raise Unsupported("solver gave no answer")
                else:
                    w, raw = witness(m, s, q) if s is not None else (None, None)
                    refuted.append({"key": f"{tgt['name']}:result", "input": w, "raw": raw,
                                    "text": f"{prof}: input {w!r} {label}: code returns {o[1]}\nspecification: {e}"[:3000]})
    item.update(paths=len(paths), obligations_discharged=ok, queries=ex.queries, solver_seconds=round(ex.solver_s, 2),
                functions=sorted(ex.used_bodies))
    item["outcome"] = "proved" if not any(r["key"].startswith(tgt["name"]) for r in refuted) else "refuted"
    R["solver_s"] += ex.solver_s
    trusted |= ex.used_contracts


main()
