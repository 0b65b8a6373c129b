#!/usr/bin/env python3
"""Authoring aid (no check uses it): mutation campaign.
  mutate.py filter FILE... : writes the one-token mutants of the files that build and pass the stable tests to /tmp/mut/<id>/
  mutate.py check  [ID...] : runs the checks of the properties anchored in the mutated file on each of them, until one raises an alarm"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = "/tmp/mut"
CHECKS = {
    "src/point.hpp": "C29 C01 C07 C21 C28",
    "src/bezier_spline.hpp": "C20 C23 C01 C07 C02 C06 C12 C10 C05 C13 C14",
    "src/bezier_spline.inc": "C20 C23 C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C21 C22 C28",
    "src/rational_bezier_spline.hpp": "C15 C20 C18 C12 C10 C11 C23 C19 C16",
    "src/rational_bezier_spline.inc": "C15 C16 C17 C18 C19 C12 C10 C11 C14 C20 C21 C23",
    "src/utils/base64.hpp": "C31 C30",
    "src/utils/logger.hpp": "C35",
    "src/utils/algorithms/bernstein_polynomial.hpp": "C02 C03 C01 C16 C28",
    "src/utils/algorithms/int_power.hpp": "C33",
    "src/utils/algorithms/recursive_combine.hpp": "C36 C02",
    "src/utils/algorithms/sort.hpp": "C34",
    "src/utils/fastbinomialcoefficient.hpp": "C32",
    "src/utils/binomialcoefficientlookuptablecreator.hpp": "C32",
    "src/utils/computational_differentiation/algo_diff_type.hpp": "C24 C27 C26 C25 C28",
    "src/utils/computational_differentiation/algo_diff_type.inc": "C24 C27 C25 C26",
}
RULES = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\*=", ["/=", "+="]), (r"/=", ["*="]),
         (r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
         (r" & ", [" | "]), (r" \| ", [" & "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r"(?<![\w.\]<])(\d+)(?=[uU]?[^\w.]|[uU]?$)", ["INC", "DEC"]), (r"(?<![\w.])0x[0-9a-fA-F]+", ["HEX"]),
         (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"!(?=\w|\()", [""]), (r"(?<=[(=?:,] )-(?=\w|\()", [""]), (r"\bweighted_spline_(?=[.])", ["weight_function_"]),
         (r"\bweight_function_(?=[.])", ["weighted_spline_"]), (r"% ", ["/ "]), (r"(?<=return )-", [""]), (r"\bi\b", ["0"]), (r"\brhs\b", ["(*this)"]), (r"\b1\.", ["2."]),
         (r"\bend\(\)", ["begin()"]), (r"\bsize\(\)", ["size() - 1"]), (r"\b1\.0\b", ["2.0"])]


def code_lines(text):
    """(line number, line) outside comments, includes and the like"""
    blk = False
    for n, l in enumerate(text.split("\n")):
        s = l.strip()
        if blk:
            if "*/" in s: blk = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: blk = True
            continue
        if s.startswith(("//", "#", "template", "assert", "static_assert", "*")) or not s:
            continue
        yield n, l


def mutants(f, text):
    lines = text.split("\n")
    seen = set()
    for n, l in code_lines(text):
        body = l.split("//")[0]
        def put(new, what):
            if new != l and (n, new) not in seen:
                seen.add((n, new))
                yield n, what, new
        for pat, reps in RULES:
            for m in re.finditer(pat, body):
                if "operator" in body and pat.strip() in (r" < ",): continue
                if re.search(r"operator\W*$", body[:m.start()]): continue
                for r in reps:
                    t = m.group(0)
                    if r == "INC": r2 = str(int(m.group(1)) + 1)
                    elif r == "DEC":
                        if int(m.group(1)) == 0: continue
                        r2 = str(int(m.group(1)) - 1)
                    elif r == "HEX": r2 = hex(int(t, 16) ^ 1)
                    else: r2 = r
                    yield from put(l[:m.start()] + r2 + l[m.end():], f"{t.strip()} -> {r2.strip()}")
        s = body.strip()
        if s.endswith(";") and not re.match(r"(return|using|constexpr|const|typedef|friend|std::|unsigned|int |bool |static|public|break|continue|ScalarType |[A-Z]\w+ \w+)", s) and not s.startswith("}") and re.match(r"[\w(]", s):
            prev = lines[n - 1].strip() if n else ""
            if prev.endswith((";", "{", "}", ")")) or prev.startswith("//") or not prev:
                yield from put(re.match(r"\s*", l).group(0) + ";", "statement removed: " + s[:40])


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def filt(files):
    bl = json.load(open("/opt/vp/BASELINE.json"))
    stable = bl.get("stable_passing") or bl.get("passing") or bl.get("stable") or bl
    stable = list(stable)
    w = tempfile.mkdtemp(prefix="mutw", dir="/tmp")
    try:
        sh(f"cp -a /repo {w}/repo")
        for f in files:
            p = f"{w}/repo/{f}"
            orig = open(p).read()
            ms = list(mutants(f, orig))
            print(f, len(ms), "mutants", flush=True)
            for n, what, new in ms:
                i = os.path.basename(f).replace(".", "_") + "_%d_%s" % (n + 1, hashlib.md5(new.encode()).hexdigest()[:6])
                if os.path.exists(f"{OUT}/{i}.json"):
                    continue
                lines = orig.split("\n")
                old = lines[n]
                lines[n] = new
                open(p, "w").write("\n".join(lines))
                r = sh(f"timeout 300 unshare -m bash -c 'mount --bind {w}/repo /repo && cd / && bash /opt/vp/build.sh >/dev/null 2>&1 && timeout 120 bash /opt/vp/test.sh {w}/out.json >/dev/null 2>&1'")
                st = "nobuild"
                if os.path.exists(f"{w}/out.json"):
                    passed = set(json.load(open(f"{w}/out.json")).get("passed", []))
                    st = "survived" if all(t in passed for t in stable) else "killed"
                    os.unlink(f"{w}/out.json")
                elif r.returncode == 124 or r.returncode == 137: st = "timeout"
                json.dump(dict(file=f, line=n + 1, old=old, new=new, what=what, state=st), open(f"{OUT}/{i}.json", "w"))
                print(st, f"{f}:{n+1}", what, "|", new.strip()[:100], flush=True)
            open(p, "w").write(orig)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def check(ids):
    for jf in ids or sorted(glob.glob(f"{OUT}/*.json")):
        m = json.load(open(jf))
        if m["state"] != "survived" or ("caught" in m and not ids):
            continue
        w = tempfile.mkdtemp(prefix="mutc", dir="/tmp")
        try:
            subprocess.check_call(f"git -C /repo archive HEAD | tar x -C {w}", shell=True)
            p = f"{w}/{m['file']}"
            l = open(p).read().split("\n")
            if l[m["line"] - 1] != m["old"]:
                print("stale", jf); continue
            l[m["line"] - 1] = m["new"]
            open(p, "w").write("\n".join(l))
            m["caught"] = None
            m["rcs"] = {}
            for c in CHECKS[m["file"]].split():
                r = subprocess.run(["python3", f"{V}/check.py", c], env=dict(os.environ, VP_REPO=w), capture_output=True, text=True)
                m["rcs"][c] = r.returncode
                if r.returncode == 1:
                    m["caught"] = c
                    break
            json.dump(m, open(jf, "w"))
            print(("caught " + m["caught"]) if m["caught"] else "MISSED", f"{m['file']}:{m['line']}", m["what"], "|", m["new"].strip()[:110], m["rcs"] if not m["caught"] else "", flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)


os.makedirs(OUT, exist_ok=True)
{"filter": filt, "check": check}[sys.argv[1]](sys.argv[2:])
