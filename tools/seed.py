#!/usr/bin/env python3
"""Planting bugs (development tool, used by no check).
seed.py edit FILE <<< python replacing text  -- not used; edit the scratch copy by hand
seed.py save ID PROP NEEDS BREAKS   diff of the scratch copy -> seeded/ID/patch.diff + meta.json, then restores it
seed.py verify ID... [--check]      demo without/with the patch, and the property's quick check with it
seed.py sync                        (re)create the scratch copy from /repo's HEAD
"""
import json, os, subprocess, sys, time
SC = "/tmp/seedrepo"
SEED = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def sync():
    if not os.path.isdir(SC): sh(f"git clone -q /repo {SC}")
    sh(f"cd {SC} && git checkout -q -- . && git clean -fdq && git fetch -q origin && git reset -q --hard origin/HEAD")
def main():
    a = sys.argv[1:]
    if a[0] == "sync": sync(); return
    if a[0] == "save":
        i, prop, needs, breaks = a[1:5]
        d = f"{SEED}/{i}"; os.makedirs(d, exist_ok=True)
        r = sh(f"cd {SC} && git diff"); assert r.stdout, "no edit"
        open(f"{d}/patch.diff", "w").write(r.stdout)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
        sh(f"cd {SC} && git checkout -q -- ."); print(r.stdout)
        return
    if a[0] == "verify":
        sync()
        ids = [x for x in a[1:] if not x.startswith("-")] or sorted(os.listdir(SEED))
        bad = 0
        for i in ids:
            d = f"{SEED}/{i}"; prop = json.load(open(f"{d}/meta.json"))["property"]
            tmp = f"/tmp/seeddemo-{i}"; sh(f"rm -rf /tmp/seeddemo-{i} && cp -r {d} {tmp} && rm -f {tmp}/*.diff {tmp}/meta.json")
            t = time.time(); r0 = sh(f"cd {SC} && bash {tmp}/demo.sh", timeout=400); t0 = time.time() - t
            ap = sh(f"cd {SC} && git apply {d}/patch.diff")
            if ap.returncode: print(i, "PATCH DOES NOT APPLY", ap.stdout); bad += 1; continue
            r1 = sh(f"cd {SC} && bash {tmp}/demo.sh", timeout=400)
            line = f"{i} [{prop}] demo clean={r0.returncode} ({t0:.0f}s) patched={r1.returncode}"
            if r0.returncode or not r1.returncode: bad += 1; line += "  <-- BAD\n" + r0.stdout[-1500:] + "\n----\n" + r1.stdout[-1500:]
            if "--check" in a:
                t = time.time(); c = sh(f"cd /verif && KIO_REPO={SC} python3 run.py {prop} quick")
                line += f" check={c.returncode} ({time.time()-t:.0f}s)"
                if c.returncode != 1: line += "  <-- MISSED"
                else: line += "\n    " + "\n    ".join([l for l in c.stdout.splitlines() if l.strip() and not l.startswith(f"[{prop}]")][:3])[:400]
            print(line, flush=True)
            sh(f"cd {SC} && git checkout -q -- ."); sh(f"rm -rf /tmp/seeddemo-{i}")
        print("bad:", bad)
main()
