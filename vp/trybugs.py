#!/usr/bin/env python3
"""Authoring aid: runs the check of each planted bug's property on a scratch copy with the bug applied."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(f"{V}/seeded") + os.listdir(f"{V}/more_bugs"))
for i in ids:
    d = next(x for x in (f"{V}/seeded/{i}", f"{V}/more_bugs/{i}") if os.path.isdir(x))
    prop = json.load(open(f"{d}/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="try", dir="/tmp")
    try:
        subprocess.check_call(f"git -C /repo archive HEAD | tar x -C {w} && cd {w} && patch -s -p1 < {d}/patch.diff", shell=True)
        r = subprocess.run(["python3", f"{V}/check.py", prop], env=dict(os.environ, VP_REPO=w), capture_output=True, text=True)
        viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        det = [l.strip() for l in r.stdout.splitlines() if l.startswith("  case")]
        res = json.load(open(f"{V}/vp/bugs.json")) if os.path.exists(f"{V}/vp/bugs.json") else {}
        res[i] = "yes" if r.returncode == 1 and viol else "no"
        json.dump(res, open(f"{V}/vp/bugs.json", "w"), indent=0, sort_keys=True)
        print(("CAUGHT " if r.returncode == 1 and viol else "MISSED ") + i, prop, "rc", r.returncode, (det or r.stdout.splitlines()[-1:])[0][:150], flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
