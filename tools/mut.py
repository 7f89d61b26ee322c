#!/usr/bin/env python3
"""mut.py FILE [name...]: FILE defines MUTS = [(name, property, file, old, new[, count])]; each mutant is applied to a scratch copy of
/repo and the property's quick check is run against it."""
import os, shutil, subprocess, sys, tempfile, time, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
muts = runpy.run_path(sys.argv[1])["MUTS"]
only = sys.argv[2:]
tmp = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
w = os.path.join(tmp, "repo")
subprocess.run(["cp", "-a", "/repo", w], check=True)
try:
    for m in muts:
        name, prop, f, old, new = m[:5]
        if only and not any(name.startswith(o) for o in only):
            continue
        p = os.path.join(w, f)
        s = open(p).read()
        if old not in s:
            print(f"{name} {prop} NOT-APPLICABLE", flush=True)
            continue
        nth = m[5] if len(m) > 5 else 0
        parts = s.split(old)
        t = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
        open(p, "w").write(t)
        t0 = time.time()
        try:
            r = subprocess.run(["/opt/venv/bin/python", "lib/run.py", prop], cwd=V, env={**os.environ, "VERIF_REPO": w, "VERIF_SHRINK": "2", "VERIF_FAILFAST": "1"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            lines = [l for l in r.stdout.splitlines() if l.strip()]
            print(f"{name} {prop} rc={r.returncode} {time.time()-t0:.0f}s {'CAUGHT' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR'} {lines[0][:170] if lines else ''}", flush=True)
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:])
        except subprocess.TimeoutExpired:
            print(f"{name} {prop} TIMEOUT", flush=True)
        open(p, "w").write(s)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
