#!/usr/bin/env python3
"""Validate a planted change: plant.py ID [--nocheck] [--nodemo]
Works in a scratch copy of /repo below /tmp; never touches /repo."""
import json, os, subprocess, sys, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bid = sys.argv[1]
D = f"{V}/seeded/{bid}"
WT = f"/tmp/wt-{bid}"
def sh(cmd, cwd=WT, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e)
    return p.returncode, p.stdout + p.stderr
meta = json.load(open(f"{D}/meta.json"))
if os.path.exists(WT): shutil.rmtree(WT)
shutil.copytree("/repo", WT, symlinks=True)
out = {}
try:
    # the removed lines must be lines of the original repository
    patch = open(f"{D}/patch.diff").read()
    rc, o = sh(f"git apply --check {D}/patch.diff")
    if rc: print("PATCH", o); sys.exit(1)
    if "--nodemo" not in sys.argv:
        os.makedirs(f"/tmp/demo-{bid}", exist_ok=True)
        sh(f"cp -a {D}/. /tmp/demo-{bid}/; rm -f /tmp/demo-{bid}/*.diff /tmp/demo-{bid}/meta.json", cwd="/")
        rc, o = sh(f"bash /tmp/demo-{bid}/demo.sh", timeout=300)
        print("demo unchanged:", rc, "OK" if rc == 0 else "BAD\n" + o[-2500:])
    rc, o = sh(f"git apply {D}/patch.diff"); assert rc == 0
    base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
    for s in ("build", "test"):
        t = open(f"/opt/vp/{s}.sh").read().replace("cd /repo", f"cd {WT}").replace("LOGS=/opt/vp/logs", f"LOGS={WT}.logs")
        open(f"{WT}.{s}.sh", "w").write(t)
    rc, o = sh(f"bash {WT}.build.sh"); print("build:", rc, o[-800:] if rc else "")
    rc, o = sh(f"bash {WT}.test.sh {WT}.json >/dev/null 2>&1")
    res = json.load(open(f"{WT}.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(res.get("passed", [])) if isinstance(res.get("passed"), list) else {k for k, v in res.items() if v == "pass"}
    missing = stable - passed
    print("tests:", "OK" if not missing else f"BAD {sorted(missing)[:5]}")
    if "--nodemo" not in sys.argv:
        rc, o = sh(f"bash /tmp/demo-{bid}/demo.sh", timeout=320)
        print("demo patched:", rc, "OK " + " / ".join(o.strip().splitlines()[-40:])[:600] if rc else "BAD (passes)")
    if "--nocheck" not in sys.argv:
        props = [a for a in sys.argv[2:] if a.startswith("C")] or [meta["property"]]
        for p in props:
            rc, o = sh(f"{V}/run.sh check {p}", cwd=V, env={"VERIF_REPO": WT, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            lines = [l for l in o.splitlines() if "VIOLATION" in l]
            print("check", p, "rc", rc, "CAUGHT" if rc == 1 and any(f"VIOLATION property={p} " in l for l in lines) else "MISSED")
            print("   ", "\n    ".join(o.strip().splitlines()[-14:])[:1800])
finally:
    shutil.rmtree(WT, ignore_errors=True); shutil.rmtree(WT + ".logs", ignore_errors=True)
    shutil.rmtree(f"/tmp/demo-{bid}", ignore_errors=True)
    for s in (".build.sh", ".test.sh", ".json"):
        if os.path.exists(WT + s): os.remove(WT + s)
