#!/usr/bin/env python3
"""Run the check of its property on every planted change and on the reversal of
every repair: regress.py [-j N] [-seed S] [filter...]. Works in scratch copies
below /tmp; prints one line each, MISSED ones again at the end."""
import json, os, queue, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
jobs, seed = 2, "1"
while args and args[0].startswith("-"):
    if args[0] == "-j": jobs = int(args[1])
    if args[0] == "-seed": seed = args[1]
    args = args[2:]
def sh(c, cwd):
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + c], cwd=cwd, capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr
q = queue.Queue()
for l in open(f"{V}/known-findings.txt"):
    m = re.match(r"fixed: property=(C\d+) ([0-9a-f]+) ", l)
    if m: q.put((f"revert-{m[2]}", m[1], f"git update-index -q --refresh; git show {m[2]} | git apply -R --3way"))
for b in sorted(os.listdir(f"{V}/seeded"), key=lambda b: int(re.match(r"s(\d+)", b)[1])):
    q.put((b, json.load(open(f"{V}/seeded/{b}/meta.json"))["property"], f"git apply {V}/seeded/{b}/patch.diff"))
missed = []
def work(i):
    W, B = f"/tmp/regress{i}", f"/tmp/regressb{i}"
    while True:
        try: name, prop, apply = q.get_nowait()
        except queue.Empty: break
        if args and not any(a in name or a == prop for a in args): continue
        shutil.rmtree(W, ignore_errors=True); shutil.rmtree(B, ignore_errors=True)
        shutil.copytree("/repo", W, symlinks=True)
        rc, o = sh(apply, W)
        if rc: print(name, prop, "DOES NOT APPLY", o.strip()[-200:], flush=True); continue
        rc, o = sh(f"VERIF_REPO={W} nice ./run.sh build {B} {'race' if prop in ('C05', 'C19') else ''}", V)
        if rc: print(name, prop, "DOES NOT BUILD", o[-300:], flush=True); continue
        rc, o = sh(f"nice {B}/simrun check -prop {prop} -verif {V} -workers {8 // jobs} -seed {seed} -evidence=false", V)
        m = re.findall(r".*(?:violation \(|held).*", o)
        r = "caught" if rc == 1 else "MISSED"
        if rc != 1: missed.append((name, prop))
        print(name, prop, r, rc, (m[0] if m else o[-300:])[:150], flush=True)
    shutil.rmtree(W, ignore_errors=True); shutil.rmtree(B, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
print("MISSED:", missed)
sys.exit(1 if missed else 0)
