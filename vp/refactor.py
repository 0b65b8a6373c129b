#!/usr/bin/env python3
"""Authoring aid (no check uses it): applies the behaviour-preserving rewrites of vp/refactor/*.py to copies of /repo,
builds and tests them, and runs the checks, which must stay quiet.   refactor.py NAME [PROPERTY...]"""
import importlib.util, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name, props = sys.argv[1], sys.argv[2:] or ["C%02d" % i for i in range(1, 37)]
s = importlib.util.spec_from_file_location("r", f"{V}/vp/refactor/{name}.py")
m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
w = tempfile.mkdtemp(prefix="refac", dir="/tmp")
try:
    subprocess.check_call(f"cp -a /repo {w}/repo && git -C {w}/repo checkout -q -- .", shell=True)
    for f, old, new, n in m.E:
        p = f"{w}/repo/{f}"; t = open(p).read()
        assert t.count(old) == n, (f, t.count(old), old[:200])
        open(p, "w").write(t.replace(old, new))
    r = subprocess.run(f"timeout 300 unshare -m bash -c 'mount --bind {w}/repo /repo && cd / && bash /opt/vp/build.sh >{w}/b.log 2>&1 && timeout 120 bash /opt/vp/test.sh {w}/out.json >/dev/null 2>&1'", shell=True)
    if not os.path.exists(f"{w}/out.json"):
        print(subprocess.run(f"grep -E 'error' {w}/b.log | head -20", shell=True, capture_output=True, text=True).stdout); sys.exit("build failed")
    import json
    stable = json.load(open("/opt/vp/BASELINE.json")); stable = stable.get("stable_passing") or stable.get("passing") or stable.get("stable") or stable
    o = json.load(open(f"{w}/out.json"))
    bad = [t for t in stable if t not in set(o["passed"])]
    print("tests failing:", bad)
    for c in props:
        r = subprocess.run(["python3", f"{V}/check.py", c], env=dict(os.environ, VP_REPO=f"{w}/repo"), capture_output=True, text=True)
        print(c, r.returncode, "" if r.returncode == 0 else (r.stdout + r.stderr)[-1500:], flush=True)
finally:
    shutil.rmtree(w, ignore_errors=True)
