#!/usr/bin/env python3
"""catch.py [ID...]: run each planted bug's own check against a scratch copy of /repo with the bug applied."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    s = os.path.join(V, "seeded", i)
    prop = json.load(open(os.path.join(s, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="catch-", dir="/tmp")
    w = os.path.join(tmp, "repo")
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    subprocess.run(["git", "-C", w, "checkout", "-q", "--", "."], check=True)
    r = subprocess.run(["git", "-C", w, "apply", os.path.join(s, "patch.diff")])
    t = time.time()
    p = subprocess.run(["/opt/venv/bin/python", "lib/run.py", prop], cwd=V, env={**os.environ, "VERIF_REPO": w},
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lines = [l for l in p.stdout.splitlines() if l.strip()]
    print(f"{i} {prop} apply={r.returncode} rc={p.returncode} {time.time()-t:.0f}s {'CAUGHT' if p.returncode == 1 else 'MISSED'} {lines[0][:160] if lines else ''}", flush=True)
    if p.returncode not in (0, 1):
        print(p.stdout[-1500:])
    shutil.rmtree(tmp, ignore_errors=True)
