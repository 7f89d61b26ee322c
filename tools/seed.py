#!/usr/bin/env python3
"""Plant a bug:  seed.py DEF.py   where DEF.py defines id, property, needs, breaks, edits=[(file, old, new[, count])], demo.

Copies /repo to scratch, applies the edits, runs the stable tests, runs the demo on both trees, and - only when all
is as it must be - writes seeded/<id>/."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def plant(path):
    d = runpy.run_path(path)
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        w = os.path.join(tmp, "repo")
        sh(f"cp -a /repo {w}")
        sh(f"git -C {w} checkout -q -- .")
        for e in d["edits"]:
            f = os.path.join(w, e[0])
            s = open(f).read()
            n = s.count(e[1])
            want = e[3] if len(e) > 3 else 1
            if n != want:
                return f"{d['id']}: edit text occurs {n} times in {e[0]}"
            open(f, "w").write(s.replace(e[1], e[2]))
        patch = sh(f"git -C {w} diff").stdout
        # only lines of the original repository may be changed
        base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
        sd = os.path.join(tmp, "demo")
        os.makedirs(sd)
        with open(os.path.join(sd, "demo.py"), "w") as f:
            f.write(d["demo"])
        with open(os.path.join(sd, "demo.sh"), "w") as f:
            f.write(d.get("demo_sh") or '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        clean = sh(f"bash {sd}/demo.sh", cwd="/repo")
        bug = sh(f"bash {sd}/demo.sh", cwd=w)
        if clean.returncode != 0:
            return f"{d['id']}: demo fails on clean tree\n{clean.stdout[-3000:]}"
        if bug.returncode == 0:
            return f"{d['id']}: demo passes with the bug\n{bug.stdout[-3000:]}"
        pf = os.path.join(tmp, "p.diff")
        open(pf, "w").write(patch)
        if sh("git -C /repo status --porcelain").stdout.strip():
            return "repo not clean"
        a = sh(f"git -C /repo apply {pf}")
        try:
            t = sh(f"bash {V}/tools/repotests.sh")
        finally:
            sh("git -C /repo checkout -- .")
        if "missing []" not in t.stdout:
            return f"{d['id']}: stable tests fail with it\n{t.stdout[-1500:]}"
        out = os.path.join(V, "seeded", d["id"])
        os.makedirs(out, exist_ok=True)
        for x in os.listdir(sd):
            shutil.copy(os.path.join(sd, x), os.path.join(out, x))
        with open(os.path.join(out, "patch.diff"), "w") as f:
            f.write(patch)
        with open(os.path.join(out, "meta.json"), "w") as f:
            json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, f, indent=1)
            f.write("\n")
        return f"{d['id']}: ok; demo says: {bug.stdout.strip().splitlines()[-1][:200] if bug.stdout.strip() else ''}"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


for p in sys.argv[1:]:
    print(plant(p), flush=True)
