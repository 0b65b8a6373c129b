#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decides one property on /repo's working tree.
   check.py --setup                            builds the tools only.
Exit 0: held on everything explored, 1: VIOLATION printed, 2: the check could not run."""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "vp"))
from config import PROPS  # noqa: E402

Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
T0 = time.time()
NPROC = min(8, os.cpu_count() or 4)


def sh(cmd, **kw):
    r = subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
    if r.returncode:
        raise RuntimeError(f"command failed: {cmd}\n{r.stdout[-3000:]}{r.stderr[-6000:]}")
    return r.stdout


def digest(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def V(p):
    return os.path.join(VERIF, "vp", p)


def cached(out, srcs, cmd):
    """build `out` once per content of `srcs`"""
    tag = digest(*srcs)
    path = os.path.join(BUILD, "tools", tag + "-" + out)
    if not os.path.exists(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tmp = path + ".%d.tmp" % os.getpid()
        sh(cmd.replace("@OUT@", tmp))
        os.rename(tmp, path)
    return path


def tool_instr():
    return cached("vpinstr", [V("instr.cpp")],
                  f"clang++ -O1 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') -std=c++17 {V('instr.cpp')} -o @OUT@ -L/usr/lib/llvm-18/lib -lLLVM-18")


def tool_symrt():
    return cached("symrt.o", [V("symrt.cpp"), V("vp.hpp")],
                  f"clang++ -std=c++17 -O2 -w -c -I{Z3}/include {V('symrt.cpp')} -o @OUT@")


def tool_replayrt():
    return cached("replayrt.o", [V("replayrt.cpp"), V("vp.hpp")],
                  f"g++ -std=c++17 -O1 -w -c {V('replayrt.cpp')} -o @OUT@")


def tool_bvexec():
    return cached("bvexec", [V("bvexec.cpp")],
                  f"clang++ -O2 -w -fexceptions $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') -std=c++17 -I{Z3}/include {V('bvexec.cpp')} -o @OUT@ -L/usr/lib/llvm-18/lib -lLLVM-18 -L{Z3}/lib -lz3 -Wl,-rpath,{Z3}/lib")


def build_harness(prop, h, wd, inc, tools):
    """regenerates the encoding of harness h from /repo's current source; where that fails and the harness tells rarely used
    instantiations apart (VP_CORE), the others are still decided"""
    try:
        return build_harness_once(prop, h, wd, inc, tools)
    except RuntimeError:
        if "VP_CORE" not in open(os.path.join(VERIF, "harness", h["file"])).read():
            raise
        h["defs"] = h.get("defs", []) + ["-DVP_CORE"]
        b = build_harness_once(prop, h, wd, inc, tools)
        b["core"] = True
        return b


def build_harness_once(prop, h, wd, inc, tools):
    src = os.path.join(VERIF, "harness", h["file"])
    base = os.path.join(wd, h["id"])
    defs = " ".join(h.get("defs", []))
    t = time.time()
    if h.get("engine", "A") == "A":
        sh(f"clang++ -std=c++17 -O1 -w -fno-inline -ffp-contract=off -fno-vectorize -fno-slp-vectorize -fno-math-errno "
           f"-D_GLIBCXX_ASSERTIONS {defs} -I{V('')} -I{inc} -c -emit-llvm {src} -o {base}.bc")
        stats = json.loads(sh(f"{tools['instr'].result()} {base}.bc {base}.i.bc").strip().splitlines()[-1])
        sh(f"clang++ -O1 -w -c {base}.i.bc -o {base}.o")
        sh(f"clang++ {base}.o {tools['symrt'].result()} -o {base}.sym -L{Z3}/lib -lz3 -Wl,-rpath,{Z3}/lib -lgmpxx -lgmp")
        os.unlink(f"{base}.bc"); os.unlink(f"{base}.i.bc"); os.unlink(f"{base}.o")
        listing = sh(f"{base}.sym --list")
        runner = [f"{base}.sym"]
    else:
        sh(f"clang++ -std=c++17 {h.get('opt', '-O1')} -w -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_EXTERN_TEMPLATE=0 -DVP_BV {defs} "
           f"-I{V('')} -I{inc} -c -emit-llvm {src} -o {base}.bc")
        runner = [tools["bvexec"].result(), f"{base}.bc"]
        out = sh(" ".join(runner) + " --list")
        listing = out
        stats = {}
    cases = []
    for line in listing.splitlines():
        i, tier, name = line.split("\t", 2)
        cases.append(dict(i=int(i), tier=int(tier), name=name, h=h))
    return dict(base=base, cases=cases, case_engine=h.get("engine", "A"), runner=runner, stats=stats, src=src, build_s=time.time() - t)


def build_replay(prop, h, wd, inc, rt):
    base = os.path.join(wd, h["id"])
    out = base + ".replay"
    if not os.path.exists(out):
        src = os.path.join(VERIF, "harness", h["file"])
        defs = " ".join(h.get("defs", []))
        sh(f"g++ -std=c++17 -O1 -g1 -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS {defs} -I{V('')} -I{inc} {src} {rt} -o {out}")
    return out


def run_case(b, c, wd, opts, deadline):
    out = os.path.join(wd, "r_%s_%s.jsonl" % (c["h"]["id"], str(c["i"]).replace(",", "_")))
    if os.path.exists(out):
        os.unlink(out)
    left = deadline - time.time()
    if left < 2 or STOP_AT[0] is not None:
        return dict(case=c, state="skipped", lines=[])
    tmo = min(opts["case_timeout"], left)
    cmd = b["runner"] + ["--run", str(c["i"]), "--out", out, "--seed", str(opts["seed"]), "--rlimit", str(opts["rlimit"]),
                         "--max-paths", str(c["h"].get("max_paths", opts["max_paths"]))]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE if not os.environ.get("VP_TRACE") else None, start_new_session=True)
    state = "done"
    try:
        _, err = p.communicate(timeout=tmo)
    except subprocess.TimeoutExpired:
        state = "timeout"
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        _, err = p.communicate()
    lines = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try:
                lines.append(json.loads(l))
            except ValueError:
                pass
        os.unlink(out)
    if state == "done" and p.returncode != 0:
        state = "error"
        lines.append(dict(t="toolerr", msg="runner exit %d %s" % (p.returncode, (err or b"").decode(errors="replace")[-300:])))
    return dict(case=c, state=state, lines=lines, wall=time.time() - t)


def do_replay(binary, path, kind, memlim=3000):
    env = dict(os.environ, ASAN_OPTIONS=f"detect_leaks=0:hard_rss_limit_mb={memlim}:allocator_may_return_null=0:abort_on_error=0:exitcode=66", UBSAN_OPTIONS="halt_on_error=1:exitcode=67")
    p = subprocess.Popen([binary, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=120)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return True, "the real code does not finish within 120 s on these inputs"
    if rc == 0 or rc == 3:
        return False, out[-300:]
    txt = [l for l in out.splitlines() if "REPRODUCED" in l or "ERROR:" in l or "runtime error" in l or "Assertion" in l or "Sanitizer" in l]
    return True, (txt[0] if txt else out[-200:] or f"exit {rc}")[:400]


STOP_AT = [None]


def make_chains(finished, builds, cfg, seed, quick):
    """sequences of cheap single-path cases: neighbours in the order of registration (mostly the same instantiation in other shapes),
    and a shuffled pass over all of them, each returning to its first member"""
    out = []
    rng = random.Random(seed)
    for hid, b in sorted(builds.items()):
        h = next((c["h"] for c in b["cases"]), None)
        if h is None or not h.get("chain", True):
            continue
        most = 1 if b["case_engine"] == "A" else 4
        ok = []
        for r in finished:
            s = next((l for l in r["lines"] if l.get("t") == "summary"), None)
            if r["case"]["h"]["id"] == hid and r["state"] == "done" and s and 1 <= s["paths"] <= most and not s["truncated"] and not s["inconclusive"] and not s["toolerr"] and r["wall"] < 1.5:
                ok.append((r["case"]["i"], r["case"]["name"], r["wall"]))
        ok.sort()
        left = cfg.get("chain_s", 120 if quick else 600) / max(1, len(builds))
        mixed = rng.sample(ok, len(ok))
        for order in (ok, mixed):
            for k in range(0, len(order), 4):
                g = order[k:k + 4]
                left -= sum(x[2] for x in g) + g[0][2]
                if len(g) < 2 or left < 0:
                    continue
                g = g + g[:1]
                out.append(dict(i=",".join(str(x[0]) for x in g), tier=0, name="in turn: " + " | ".join(x[1] for x in g), members=[x[1] for x in g], h=next(c["h"] for c in b["cases"])))
    return out


def confirmed(prop, cands, known, cfg, wd, inc, tools):
    """whether one of the first few counterexamples is a violation of the real code that is not listed"""
    p = os.path.join(wd, "look.txt")
    for c in cands[:1] + cands[len(cands) // 2:len(cands) // 2 + 1] + cands[-1:]:
        if any(rc.search(c["case"]["name"]) and rl.search(c["label"]) for rc, rl, _ in known):
            continue
        with open(p, "w") as f:
            f.write("case %s\nlabel %s\nkind %s\n" % (c["case"]["name"], c["label"], c["kind"]) + "".join("member %s\n" % m for m in c["case"].get("members", [])) + "".join("var %s %s\n" % kv for kv in c["vars"].items()))
        try:
            if do_replay(build_replay(prop, c["case"]["h"], wd, inc, tools["replayrt"].result()), p, c["kind"])[0]:
                return True
        except RuntimeError:
            return False
    return False


def load_known(prop):
    known = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) case=/(.*?)/ label=/(.*?)/ :: (.*)", l.strip())
            if m and m.group(1) == prop:
                known.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return known


def main():
    if "--setup" in sys.argv:
        with cf.ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(tool_instr), ex.submit(tool_symrt), ex.submit(tool_replayrt)] + ([ex.submit(tool_bvexec)] if os.path.exists(V("bvexec.cpp")) else []):
                f.result()
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[prop]
    quick = tier != "thorough"
    opts = dict(seed=seed, rlimit=cfg.get("rlimit", 60000000) * (1 if quick else 8), case_timeout=cfg.get("case_timeout", 60) * (1 if quick else 6),
                max_paths=cfg.get("max_paths", 300) * (1 if quick else 6))
    deadline = T0 + (cfg.get("budget", 420) if quick else cfg.get("budget_thorough", 2400))
    wd = os.path.join(BUILD, "run", prop + "-" + tier)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    inc = os.path.join(wd, "inc")
    os.makedirs(inc)
    os.symlink(REPO, os.path.join(inc, "bezman"))
    pool = cf.ThreadPoolExecutor(NPROC)
    engines = {h.get("engine", "A") for h in cfg["harness"]}
    quick_tier = cfg.get("quick_tier", 0 if "B" in engines else 1)
    tools = {}
    tp = cf.ThreadPoolExecutor(4)
    if "A" in engines:
        tools["instr"] = tp.submit(tool_instr)
        tools["symrt"] = tp.submit(tool_symrt)
    if "B" in engines:
        tools["bvexec"] = tp.submit(tool_bvexec)
    tools["replayrt"] = tp.submit(tool_replayrt)
    for n, h in enumerate(cfg["harness"]):
        h["id"] = h.get("id") or "%s_%d" % (os.path.splitext(h["file"])[0], n)
    builds, build_errors, notes = {}, [], []
    futs = {pool.submit(build_harness, prop, h, wd, inc, tools): h for h in cfg["harness"]}
    runs = []
    for f in cf.as_completed(futs):
        h = futs[f]
        try:
            b = f.result()
        except RuntimeError as e:
            if h.get("optional"):
                notes.append("harness %s does not compile against this tree and was left out" % h["id"])
            else:
                build_errors.append((h["id"], str(e)))
            continue
        builds[h["id"]] = b
        if b.get("core"):
            notes.append("harness %s: the rarely used instantiations do not compile against this tree and were left out" % h["id"])
        for c in b["cases"]:
            if (quick and c["tier"] > quick_tier) or (only and not re.search(only, c["name"])):
                continue
            runs.append(pool.submit(run_case, b, c, wd, opts, deadline))
    if build_errors:
        for i, e in build_errors:
            print(f"ERROR: harness {i} could not be built from the current tree:\n{e[-4000:]}")
        return 2
    tot = {}
    fns = set()
    cands = []
    states = dict(done=0, timeout=0, skipped=0, error=0)
    unknown, incon, toolerrs, killed = [], [], [], 0
    samples, slow = [], []
    known = load_known(prop)
    next_look = T0 + cfg.get("look", 100)
    finished = []

    def collect(f):
        nonlocal next_look, killed
        r = f.result()
        # a violation that is already certain ends a long run
        if quick and cands and time.time() > next_look and STOP_AT[0] is None:
            next_look = time.time() + 60
            if confirmed(prop, cands, known, cfg, wd, inc, tools):
                STOP_AT[0] = time.time()
                notes.append("ended early, a violation was found")
        states[r["state"]] += 1
        c = r["case"]
        finished.append(r)
        slow.append((round(r.get("wall", 0), 2), c["name"]))
        if r["state"] == "timeout":
            incon.append(c["name"] + ": time limit")
        for l in r["lines"]:
            t = l.get("t")
            if t == "summary":
                for k, v in l.items():
                    if k != "t":
                        tot[k] = tot.get(k, 0) + v
                if l.get("checks", 0) and len(samples) < 6:
                    samples.append(dict(case=c["name"], checks=l["checks"], paths=l["paths"], queries=l["queries"], unsat=l["unsat"]))
                if l.get("truncated"):
                    incon.append(c["name"] + ": path budget")
                if l.get("vacuous"):
                    notes.append(c["name"] + ": %d paths without a check" % l["vacuous"])
            elif t == "cand":
                l["case"] = c
                cands.append(l)
            elif t == "fn":
                fns.add(re.sub(r"\s+", " ", l["name"]))
            elif t == "unknown":
                unknown.append(c["name"] + ": " + l["label"])
            elif t == "inconclusive":
                incon.append(c["name"] + ": " + l["label"])
            elif t == "toolerr":
                toolerrs.append(c["name"] + ": " + l["msg"])
            elif t == "killed":
                killed += 1
                toolerrs.append(c["name"] + ": path process killed by signal %d" % l["sig"])
    for f in cf.as_completed(runs):
        collect(f)
    # cases that touch each other's traces: several after another in one process, so that state the library keeps between calls shows
    chains = [] if (only or cands) and not os.environ.get("VP_CHAINS") else make_chains(finished, builds, cfg, seed, quick)
    nchains = len(chains)
    for f in cf.as_completed([pool.submit(run_case, builds[c["h"]["id"]], c, wd, opts, deadline) for c in chains]):
        collect(f)
    # ---- counterexamples: replay against the real code
    violations, known_hits, unrepro = [], {}, []
    rdir = os.path.join(BUILD, "replays", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    replays = 0
    if cands:
        os.makedirs(rdir)
        groups = {}
        for c in cands:
            groups.setdefault((c["case"]["h"]["id"], c["case"]["name"], re.sub(r"\d+", "#", c["label"])), []).append(c)
        reps = {}
        for hid in {g[0] for g in groups}:
            h = next(h for h in cfg["harness"] if h["id"] == hid)
            reps[hid] = pool.submit(build_replay, prop, h, wd, inc, tools["replayrt"].result())
        keys = sorted(groups, key=lambda k: (len(groups[k][0]["vars"]), k))

        def attempt(idx_key):
            idx, key = idx_key
            last = ""
            # most different paths first
            cl = groups[key]
            for j, c in enumerate(cl[:12]):
                path = os.path.join(rdir, "%s_%03d_%d.txt" % (key[0], idx, j))
                with open(path, "w") as f:
                    f.write("property %s\nharness %s\ncase %s\nlabel %s\nkind %s\n" % (prop, c["case"]["h"]["file"], c["case"]["name"], c["label"], c["kind"]))
                    for m in c["case"].get("members", []):
                        f.write("member %s\n" % m)
                    for n, v in c["vars"].items():
                        f.write("var %s %s\n" % (n, v))
                    f.write("# replay: g++ build of the harness (see check.py build_replay), run with this file\n")
                ok, msg = do_replay(reps[key[0]].result(), path, c["kind"])
                last = msg
                if ok:
                    return key, c, path, msg
                os.unlink(path)
            return key, cl[0], None, last

        todo = list(enumerate(keys))
        while todo and len(violations) < 6 and (replays < 40 or time.time() < deadline + 60):
            batch, todo = todo[:2 * NPROC], todo[2 * NPROC:]
            for key, c, path, msg in pool.map(attempt, batch):
                replays += 1
                if path is None:
                    unrepro.append("%s: %s (%s)" % (key[1], c["label"], msg.strip()[-120:]))
                    continue
                for rc, rl, text in known:
                    if rc.search(key[1]) and rl.search(c["label"]):
                        known_hits.setdefault(text, []).append(path)
                        break
                else:
                    violations.append((key, c, path, msg))
    for _, _, text in known:
        if text in known_hits:
            print(f"KNOWN-FINDING: property={prop} {text}")
    for key, c, path, msg in violations[:8]:
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  case '{key[1]}': {c['label']} -> {msg.strip()[:300]}")
    wall = time.time() - T0
    vac = tot.get("checks", 0) == 0 and not cands
    ev = dict(
        property=prop, tier="quick" if quick else "thorough", seed=seed, level=cfg.get("level", "other"),
        coverage=dict(
            explanation=cfg["explanation"],
            bounds=cfg["bounds"],
            cases_run=states["done"], case_sequences_run=nchains, cases_time_limited=states["timeout"], cases_skipped=states["skipped"], cases_error=states["error"],
            paths=tot.get("paths", 0), symbolic_branches_forked=tot.get("forks", 0),
            obligations=tot.get("checks", 0) + tot.get("divchecks", 0),
            assertions=tot.get("checks", 0),
            assertions_closed_by_rewriting=tot.get("syntactic", 0),
            definedness_obligations=tot.get("divchecks", 0), definedness_assumed=tot.get("divassumed", 0),
            queries=tot.get("queries", 0), queries_unsat=tot.get("unsat", 0), queries_sat=tot.get("sat", 0), queries_unknown=tot.get("unknown", 0),
            solver_s=round(tot.get("solver_s", 0), 3),
            operations_encoded=tot.get("ops", 0),
            functions_encoded=sorted(fns)[:400], functions_encoded_count=len(fns),
            undecided=sorted(set(unknown + incon))[:60], undecided_count=len(set(unknown + incon)),
            tool_errors=toolerrs[:20], notes=notes[:20],
            counterexamples_found=len(cands), counterexample_groups_replayed=replays, counterexamples_not_reproduced=unrepro[:20],
            known_findings={k: len(v) for k, v in known_hits.items()},
            samples=samples, slowest_cases=sorted(slow, reverse=True)[:5],
            build_s=round(max([b["build_s"] for b in builds.values()] or [0]), 2),
        ),
        assumptions=cfg["assumptions"], wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: {states['done']} cases, {tot.get('paths', 0)} paths, {tot.get('checks', 0)} assertions, {tot.get('queries', 0)} queries "
          f"({tot.get('unsat', 0)} unsat, {tot.get('sat', 0)} sat, {tot.get('unknown', 0)} unknown), solver {tot.get('solver_s', 0):.1f}s, "
          f"undecided {len(set(unknown + incon))}, tool errors {len(toolerrs)}, unreproduced {len(unrepro)}, wall {wall:.1f}s")
    if os.environ.get("VP_VERBOSE"):
        for x in sorted(set(unknown + incon)) + toolerrs + unrepro + notes:
            print("  -", x)
        print("  slow:", sorted(slow, reverse=True)[:8])
    for b in builds.values():
        for ext in (".sym", ".replay", ".bc"):
            if not os.environ.get("VP_KEEP") and os.path.exists(b["base"] + ext):
                os.unlink(b["base"] + ext)
    if violations:
        return 1
    if vac:
        print("ERROR: no assertion was reached")
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except RuntimeError as e:
        print("ERROR:", e)
        sys.exit(2)
