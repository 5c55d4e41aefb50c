#!/usr/bin/env python3
"""Driver: build the model-checking harness of one property from /repo's current working tree,
explore its scenarios exhaustively within the tier's bounds, write /verif/evidence/<id>.json.

usage: run.py <ID> quick|thorough      exit 0: held on everything explored, 1: VIOLATION
       run.py --build-only <ID>...     (debugging)
"""
import concurrent.futures as cf
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KIO_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS, COMMON_ASSUMPTIONS  # noqa: E402

CXX = "clang++-20"
BASE = ["-std=gnu++23", "-D_GNU_SOURCE", "-DKIO_MODEL_CHECK", "-fno-pie", "-g1"]
INC = [f"-I{VERIF}/mc/shim", f"-I{REPO}", f"-I{VERIF}/mc/rt", f"-I{REPO}/bitcask/include", f"-I{REPO}/bitcask"]
INSTR = ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-include", f"{VERIF}/mc/shim/prelude.h"]
RT = ["-O2", "-mfsgsbase"]
CACHE = os.path.join(VERIF, ".build", "cache")


def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in (".git", "_build", "seeded", ".build"))
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_one(src, flags, hdrs, outdir):
    with open(src, "rb") as fh:
        key = hashlib.sha256((" ".join(flags) + src + hdrs).encode() + fh.read()).hexdigest()[:32]
    obj = os.path.join(CACHE, key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj, 0.0, ""
    t = time.time()
    tmp = f"{obj}.{os.getpid()}.tmp"
    r = sh([CXX] + BASE + flags + ["-c", src, "-o", tmp])
    if r.returncode != 0:
        return None, time.time() - t, r.stdout
    os.replace(tmp, obj)
    return obj, time.time() - t, ""


def prune_cache(limit=1500 << 20):
    try:
        fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in (os.path.join(CACHE, f) for f in os.listdir(CACHE))]
    except OSError:
        return
    tot = sum(s for _, s, _ in fs)
    for _, s, p in sorted(fs):
        if tot <= limit:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= s


def build(cfg, outdir):
    """returns (list of binaries, error text)"""
    os.makedirs(CACHE, exist_ok=True)
    prune_cache()
    rt_hdr = tree_hash([f"{VERIF}/mc/rt"], (".h",))
    all_hdr = tree_hash([f"{REPO}/kio", f"{REPO}/bitcask", f"{VERIF}/mc"], (".h", ".hpp"))
    jobs = {}
    bins = []
    for b in cfg["bins"]:
        objs = []
        for f in ("mcrt.cpp", "fakekern.cpp"):
            objs.append(("rt", f"{VERIF}/mc/rt/{f}", RT, rt_hdr))
        defs = ["-D" + d for d in b.get("defs", [])]
        for f in b.get("aux", []):
            objs.append(("x", f"{VERIF}/mc/{f}", BASE_INSTR(defs), all_hdr))
        for f in b.get("rtaux", []):
            objs.append(("x", f"{VERIF}/mc/{f}", RT + INC, all_hdr))
        objs.append(("h", f"{VERIF}/mc/harness/{b['harness']}", BASE_INSTR(defs), all_hdr))
        for f in b.get("repo", []):
            objs.append(("r", f"{REPO}/{f}", BASE_INSTR(b.get("repo_flags", [])), all_hdr))
        bins.append((b, objs))
        for o in objs:
            jobs[(o[1], tuple(o[2]))] = o
    res = {}
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        fut = {k: ex.submit(compile_one, o[1], o[2], o[3], outdir) for k, o in jobs.items()}
        for k, f in fut.items():
            res[k] = f.result()
    err = ""
    for k, (obj, _, out) in res.items():
        if obj is None:
            err += f"--- {k[0]}\n{out[-4000:]}\n"
    if err:
        return None, err
    out = []
    for b, objs in bins:
        name = b.get("name", os.path.splitext(b["harness"])[0])
        exe = os.path.join(outdir, name)
        seen, ol = set(), []
        for o in objs:
            p = res[(o[1], tuple(o[2]))][0]
            if p not in seen:
                seen.add(p)
                ol.append(p)
        r = sh([CXX, "-no-pie", "-rdynamic", "-Wl,--wrap=memchr,--wrap=memcmp"] + ol + ["-o", exe, "-ldl", "-lpthread"] + b.get("libs", []))
        if r.returncode != 0:
            return None, f"--- link {name}\n{r.stdout[-4000:]}\n"
        out.append((b, exe))
    return out, ""


def BASE_INSTR(extra):
    return INSTR + INC + list(extra)


def load_known():
    """known_findings.txt: 'finding: property=<id> scenario=<name|*> key=<name given by the check> | text'"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                head, _, text = line[len("finding:"):].partition("|")
                d = dict(x.split("=", 1) for x in head.split() if "=" in x)
                d["text"] = text.strip()
                res.append(d)
    return res


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    if args[0] == "--build-only":
        for i in args[1:]:
            d = os.path.join(VERIF, ".build", "bin", i)
            os.makedirs(d, exist_ok=True)
            b, err = build(CHECKS[i], d)
            print(i, "ok" if b else err)
        return 0
    pid, tier = args[0], (args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick"))
    only = args[2:] or None
    cfg = CHECKS[pid]
    t0 = time.time()
    ev = f"{VERIF}/evidence/{pid}.json"
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    replay_dir = os.path.join(VERIF, "replay", pid)
    os.makedirs(replay_dir, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"mc-{pid}-")
    scratch = tempfile.mkdtemp(prefix=f"mc-{pid}-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    rc = 1
    try:
        rc = run_check(pid, tier, cfg, work, scratch, replay_dir, ev, t0, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def violation(pid, tier, ev, t0, replay, msg, cov=None):
    print(msg)
    print(f"VIOLATION property={pid} replay={replay}")
    write_evidence(pid, tier, ev, t0, cov or {}, 1, {"verdict": "violated", "message": msg[:4000], "replay": replay})


def write_evidence(pid, tier, ev, t0, cov, violations, extra):
    cfg = CHECKS[pid]
    coverage = {
        "states": cov.get("states", 0),
        "transitions": cov.get("transitions", 0),
        "traces_validated_against_impl": cov.get("executions", 0),
        "samples": cov.get("samples", [])[:24],
        "distinct_outcomes": cov.get("outcomes", 0),
        "exhaustive": bool(cov.get("complete", False)),
        "scenarios": cov.get("bounds", {}),
        "explanation": "states: choice points (scheduling and environment) visited on distinct executions plus the model states a scenario counts itself; "
                       "transitions: instrumented steps (atomic operations, synchronisation calls, kernel answers) of the real code plus model transitions; "
                       "traces_validated_against_impl: complete executions of the real code built from /repo, each judged by the oracle (the implementation itself is explored, there is no abstract model to bind); "
                       "exhaustive: every scenario finished its deviation bound without hitting a cap",
    }
    doc = {
        "property": pid,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "technique": cfg["technique"],
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
        "coverage": coverage,
        "assumptions": cfg.get("assumptions", []) + COMMON_ASSUMPTIONS,
    }
    doc.update(extra)
    with open(ev + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(ev + ".tmp", ev)


def run_check(pid, tier, cfg, work, scratch, replay_dir, ev, t0, only):
    built, err = build(cfg, work)
    if built is None:
        # A tree whose public interface no longer compiles with the harness gives no verdict on
        # behaviour.  The only outcomes allowed are 0 and 1, and an unexplored property must not pass.
        rp = os.path.join(replay_dir, "build-error.txt")
        with open(rp, "w") as f:
            f.write(err)
        violation(pid, tier, ev, t0, rp, f"{pid}: harness does not build against the working tree:\n{err[-3000:]}")
        return 1
    print(f"[{pid}] built in {time.time() - t0:.1f}s", flush=True)
    known = [k for k in load_known() if k.get("property") == pid]
    jobs = os.cpu_count() or 8
    scen = []
    for b, exe in built:
        for s in b["scenarios"]:
            if only and s["name"] not in only:
                continue
            if s.get("tier") and s["tier"] != tier:
                continue
            scen.append((b, exe, s))
    cov = {"states": 0, "transitions": 0, "executions": 0, "outcomes": 0, "samples": [], "bounds": {}, "complete": True}
    hard_cap = float(os.environ.get("MC_TIME", "0")) or (cfg.get("budget", {}).get(tier) or (240 if tier == "quick" else 780))
    deadline = t0 + hard_cap
    reported = set()
    for idx, (b, exe, s) in enumerate(scen):
        bound, secs = s.get(tier, s.get("quick", (1, 30)))
        left = deadline - time.time()
        secs = min(secs, max(4.0, left - 3.0 * (len(scen) - idx - 1)))
        out = os.path.join(work, f"{s['name']}.json")
        env = dict(os.environ)
        env["MC_SCRATCH"] = scratch
        env["MC_TIER"] = tier
        env["MC_JOBS"] = str(s.get("jobs", jobs))
        cmd = [exe, "--run", s["name"], "--bound", str(bound), "--secs", f"{secs:.0f}", "--jobs", str(s.get("jobs", jobs)), "--out", out,
               "--replay-dir", replay_dir, "--property", pid, "--hang", str(s.get("hang", 20))]
        mine = [k for k in known if k.get("scenario") in (s["name"], "*")]
        env["MC_KNOWN"] = ",".join(k["key"] for k in mine)
        ts = time.time()
        r = sh(cmd, env=env)
        try:
            j = json.load(open(out))
        except Exception as e:  # noqa: BLE001
            rp = os.path.join(replay_dir, f"{s['name']}-explorer.txt")
            with open(rp, "w") as f:
                f.write(f"{' '.join(cmd)}\nexit {r.returncode}\n{r.stdout}\n{e}\n")
            if r.returncode in (0,):
                continue
            violation(pid, tier, ev, t0, rp, f"{pid}/{s['name']}: explorer gave no result (exit {r.returncode})\n{r.stdout[-3000:]}", cov)
            return 1
        cov["states"] += j.get("choice_points", 0) + j.get("model_states", 0)
        cov["transitions"] += j.get("steps", 0) + j.get("model_transitions", 0)
        cov["executions"] += j.get("executions", 0)
        cov["outcomes"] += j.get("outcomes", 0)
        for x in j.get("samples", []):
            if len(cov["samples"]) < 24:
                cov["samples"].append({"scenario": s["name"], "outcome": x})
        cov["bounds"][s["name"]] = {k: j.get(k) for k in ("bound_completed", "capped", "executions", "choice_points", "steps", "threads", "max_points", "outcomes", "per_bound", "model_states", "model_transitions")}
        cov["bounds"][s["name"]]["bound_requested"] = bound
        cov["bounds"][s["name"]]["what"] = s.get("what", "")
        if j.get("capped"):
            cov["complete"] = False
        print(f"[{pid}] {s['name']:<28} bound {j.get('bound_completed')}/{bound}{' CAPPED' if j.get('capped') else ''}: {j.get('executions')} executions, {j.get('choice_points')} choice points, {j.get('steps')} steps, {j.get('outcomes')} outcomes, {time.time() - ts:.1f}s", flush=True)
        for k, n in zip(mine, j.get("known", [])):
            if n and k["key"] not in reported:
                reported.add(k["key"])
                print(f"KNOWN-FINDING: property={pid} {k['text']}", flush=True)
        if r.returncode == 0:
            want = s.get("min_outcomes", 1)
            if j.get("outcomes", 0) < want:
                print(f"[{pid}] note: {s['name']} observed only {j.get('outcomes')} distinct outcomes (expected at least {want})")
            continue
        msg = j.get("message") or r.stdout[-3000:]
        replay = j.get("replay") or os.path.join(replay_dir, f"{s['name']}.txt")
        if r.returncode != 1:
            # diverged / internal error: one retry alone, then report
            r2 = sh(cmd, env=env)
            if r2.returncode == 0:
                continue
            if r2.returncode != 1:
                if not os.path.exists(replay):
                    open(replay, "w").write(r.stdout + r2.stdout)
                violation(pid, tier, ev, t0, replay, f"{pid}/{s['name']}: exploration could not be completed (exit {r.returncode}, {r2.returncode})\n{msg}", cov)
                return 1
            j = json.load(open(out))
            msg, replay = j.get("message") or msg, j.get("replay") or replay
        # keep the binary with the replay so that it can be re-run
        try:
            shutil.copy(exe, os.path.join(replay_dir, os.path.basename(exe)))
        except OSError:
            pass
        violation(pid, tier, ev, t0, replay, f"{pid}/{s['name']}: {msg}", cov)
        return 1
    write_evidence(pid, tier, ev, t0, cov, 0, {"verdict": "held"})
    print(f"[{pid}] held on {cov['executions']} executions, {cov['states']} states in {time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
