#!/usr/bin/env python3
"""Authoring aid (no check uses it): mkbug.py SPEC.py
A spec sets: id, prop, file, edits=[(old,new)...] (or edits={file:[...]}), needs, breaks, demo (C++ main body file text).
It builds the patch in a scratch copy, confirms: stable tests pass with the patch, demo passes without and fails with it,
and then writes seeded/<id>/."""
import json, os, runpy, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: behaviour as documented; nonzero: broken.  Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
ln -s "$repo" "$w/bezman"
g++ -std=c++17 -O1 -w @FLAGS@ -I"$w" "$here/demo.cpp" -o "$w/demo" || exit 4
cd "$w" && timeout 60 ./demo
'''
def run(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(spec):
    s = runpy.run_path(spec)
    edits = s["edits"] if isinstance(s["edits"], dict) else {s["file"]: s["edits"]}
    w = tempfile.mkdtemp(prefix="bug", dir="/tmp")
    try:
        run(f"cp -a /repo {w}/repo")
        r = f"{w}/repo"
        for f, es in edits.items():
            p = os.path.join(r, f); t = open(p).read()
            for old, new, *n in es:
                cnt = t.count(old)
                want = n[0] if n else 1
                if cnt != want:
                    print("edit matches", cnt, "times in", f, ":", old); return 1
                t = t.replace(old, new)
            open(p, "w").write(t)
        diff = run("git diff", cwd=r).stdout
        # lines removed must be lines of the original repository
        base = run("git rev-list --max-parents=0 HEAD", cwd=r).stdout.strip()
        d = f"{w}/d"; os.mkdir(d)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.cpp", "w").write(s["demo"])
        open(f"{d}/demo.sh", "w").write(DEMO.replace("@FLAGS@", s.get("flags", "")))
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        a = run(f"bash {d}/demo.sh", cwd="/repo")
        b = run(f"bash {d}/demo.sh", cwd=r)
        print("demo clean", a.returncode, "patched", b.returncode, (a.stdout + a.stderr)[-200:] if a.returncode else "", b.stdout[-150:], b.stderr[-150:])
        if a.returncode or b.returncode in (0, 3, 4):
            return 1
        # stable tests: the /opt/vp scripts work on /repo, so the copy is shown there in a mount namespace
        x = run(f"unshare -m bash -c 'mount --bind {r} /repo && cd / && bash /opt/vp/build.sh && bash /opt/vp/test.sh {w}/out.json'")
        if not os.path.exists(f"{w}/out.json"):
            print("BUILD FAILED", x.stdout[-800:], x.stderr[-800:]); return 1
        o = json.load(open(f"{w}/out.json"))
        bl = json.load(open("/opt/vp/BASELINE.json"))
        stable = bl.get("stable_passing") or bl.get("passing") or bl.get("stable") or bl
        if isinstance(stable, dict): stable = list(stable)
        passed = set(o.get("passed", []))
        miss = [t for t in stable if t not in passed]
        if miss:
            print("EXISTING TESTS CATCH IT:", miss[:5]); return 1
        out = os.path.join(VERIF, "seeded", s["id"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        print("OK", s["id"])
        return 0
    finally:
        shutil.rmtree(w, ignore_errors=True)
rc = 0
for f in sys.argv[1:]:
    print("==", f); rc |= main(f)
sys.exit(rc)
