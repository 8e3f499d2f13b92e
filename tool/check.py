#!/usr/bin/env python3
"""check.py ID [quick|thorough] - decide one property by symbolic execution of /repo's current code.

Steps (everything is regenerated from /repo's working tree on every run):
  1. lower the harness units of the property (harness/*.cpp + /repo's headers / sources) to LLVM IR,
  2. run every harness entry through build/irsym (path-wise symbolic execution, z3 decides),
  3. replay every counterexample on a native build of the same harness,
  4. replay sampled paths on the native build and compare the observed values (translator validation),
  5. write evidence/<ID>.json.
Exit 0: held; 1: VIOLATION; 2: no verdict (tool error, inconclusive, vacuous).
"""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BB_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"
sys.path.insert(0, os.path.join(VERIF, "tool"))
import spec

def sh(cmd, timeout=600, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf-8", "replace"), "TIMEOUT"

class Err(Exception): pass

def errs(e):
    l = [x for x in e.splitlines() if "error" in x or "undefined reference" in x]
    return "\n".join(l[:12]) if l else e[-2000:]

def engine():
    exe = os.path.join(VERIF, "build", "irsym"); src = os.path.join(VERIF, "engine")
    newest = max(os.path.getmtime(os.path.join(src, f)) for f in ("irsym.cpp", "builtins.inc"))
    if not os.path.exists(exe) or os.path.getmtime(exe) < newest:
        rc, o, e = sh(["make", "-C", src, "-B"], 600)
        if rc: raise Err("building irsym failed:\n" + e[-3000:])
    return exe

def includes(u):
    r = ["-I" + os.path.join(VERIF, "harness")]
    for i in u.get("inc", []): r.append("-I" + i.replace("@REPO@", REPO).replace("@VERIF@", VERIF))
    r += ["-I" + os.path.join(VERIF, "stubs"), "-I" + os.path.join(REPO, "include")]
    return r

def defines(u, tier):
    d = ["-DNDEBUG", "-DBLASBOOSTER_USE_TRACKER"] if not u.get("asserts") else ["-DBLASBOOSTER_USE_TRACKER"]
    d.append("-DBLASBOOSTER_CORE_FAILURE_TO_EXCEPTION")
    if tier == "thorough": d.append("-DSV_THOROUGH=1")
    return d + ["-D" + x for x in u.get("defs", [])]

IRFLAGS = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-gline-tables-only", "-w", "-emit-llvm", "-c"]
PIPE_O1 = "default<O1>"

def srcs(u):
    r = [os.path.join(VERIF, "harness", u["src"])]
    for s in u.get("extra", []): r.append(s.replace("@REPO@", REPO).replace("@VERIF@", VERIF))
    return r

def build_ir(u, tier, wd):
    outs = []
    for k, s in enumerate(srcs(u)):
        o = os.path.join(wd, "%s.%d.bc" % (u["name"], k))
        rc, _, e = sh([LLVM + "/clang++"] + IRFLAGS + defines(u, tier) + includes(u) + [s, "-o", o])
        if rc: raise Err("lowering %s failed:\n%s" % (s, errs(e)))
        outs.append(o)
    rt = os.path.join(wd, u["name"] + ".rt.bc")
    rc, _, e = sh([LLVM + "/clang++"] + IRFLAGS + ["-fno-builtin", "-DNDEBUG", "-I" + os.path.join(VERIF, "harness"), os.path.join(VERIF, "harness", "rt.cpp"), "-o", rt])
    if rc: raise Err("lowering rt.cpp failed:\n" + e[-2000:])
    m = os.path.join(wd, u["name"] + ".bc")
    rc, _, e = sh([LLVM + "/llvm-link"] + outs + [rt, "-o", m])
    if rc: raise Err("llvm-link failed:\n" + e[-2000:])
    if u.get("pipeline"):
        rc, _, e = sh([LLVM + "/opt", "-passes=" + u["pipeline"], "-vectorize-loops=false", "-vectorize-slp=false", m, "-o", m])
        if rc: raise Err("opt failed:\n" + e[-2000:])
    rc, o, e = sh([LLVM + "/llvm-nm", "--defined-only", m])
    names = sorted(set(x.split()[-1] for x in o.splitlines() if x.split() and x.split()[-1].startswith(("hv_", "hvt_"))))
    if tier == "quick": names = [n for n in names if n.startswith("hv_")]
    return m, names

def build_native(u, tier, wd, san):
    o = os.path.join(wd, u["name"] + (".asan" if san else ".nat"))
    base = ["-std=c++17", "-g1", "-w", "-rdynamic"] + defines(u, tier) + includes(u)
    if san: cc = [LLVM + "/clang++", "-O0", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
    else: cc = ["g++", "-O1", "-ftrivial-auto-var-init=pattern"]
    rc, _, e = sh(cc + base + srcs(u) + [os.path.join(VERIF, "harness", "native.cpp"), "-o", o, "-ldl"] + u.get("libs", []))
    if rc: raise Err("native build of %s failed:\n%s" % (u["src"], errs(e)))
    return o

def write_inputs(path, inputs):
    with open(path, "w") as f:
        for k, v in inputs.items(): f.write("%s %s\n" % (k, v))

def run_native(exe, entry, infile, timeout=60, valgrind=False, fill=None):
    env = {"SV_INPUT": infile, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=76:alloc_dealloc_mismatch=0"}
    if fill is not None: env["SV_FILL"] = str(fill)
    if valgrind: env["SV_VALGRIND"] = "1"
    return sh((["valgrind", "-q", "--error-exitcode=75", "--leak-check=no"] if valgrind else []) + [exe, entry], timeout, env)

def replay(u, tier, wd, entry, v, infile, cache):
    """True when the native build confirms the counterexample; text says how."""
    txt = []
    for san, nm in ((True, "clang -O0 ASan"), (False, "g++ -O1")):
        key = (u["name"], san)
        if key not in cache: cache[key] = build_native(u, tier, wd, san)
        exe = cache[key]
        rc, o, e = run_native(exe, entry, infile, 30)
        txt.append("[%s] exit %d %s" % (nm, rc, (e.strip().splitlines() or [""])[0][:300]))
        if rc == 77 or rc == 76 or rc == 124 or rc < 0 or rc in (134, 136, 139): return True, txt
    if v["kind"] == "uninit":
        rc, o, e = run_native(exe, entry, infile, 120, True)
        txt.append("[valgrind] exit %d %s" % (rc, (e.strip().splitlines() or [""])[0][:300]))
        if rc in (75, 77) or rc < 0: return True, txt
    return False, txt

def try_candidates(u, tier, wd, entry, r, cache):
    """The encoding gave up on a path: run the inputs the solver found for that path on the real code. A failing run is a
    counterexample of its own; a passing run decides nothing (the entry stays without a verdict)."""
    key = (u["name"], True)
    for k, c in enumerate(r.get("candidates", [])[:8]):
        if key not in cache: cache[key] = build_native(u, tier, wd, True)
        infile = os.path.join(wd, "c.txt"); write_inputs(infile, c)
        rc, o, e = run_native(cache[key], entry, infile, 30, fill=k)
        if rc == 77 or rc == 76:
            l = (e.strip().splitlines() or [""])[0]; m = re.match(r"SV-VIOLATION (\w+): (.*)", l)
            return {"kind": m.group(1) if m else "memory", "label": m.group(2) if m else l[:200], "inputs": c, "stack": [], "fill": k}
    return None

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1")); only = os.environ.get("SV_ONLY")
    t0 = time.time(); sp = spec.PROPERTIES[pid]
    wd = tempfile.mkdtemp(prefix="bbv_%s_" % pid)
    evdir = os.path.join(VERIF, "evidence"); os.makedirs(evdir, exist_ok=True)
    rpdir = os.path.join(evdir, "replay", pid)
    shutil.rmtree(rpdir, ignore_errors=True)
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    rcode = 0; errors = []; viols = []; kf = []; results = []; nvalid = 0; mism = []; samples = []
    try:
        exe = engine()
        units = [u for u in sp["units"] if tier == "thorough" or not u.get("thorough_only")]
        deadline = 700 if tier == "quick" else 6 * 3600
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            irf = {u["name"]: ex.submit(build_ir, u, tier, wd) for u in units}
            natf = {u["name"]: ex.submit(build_native, u, tier, wd, False) for u in units} if not os.environ.get("SV_NOSAMPLES") else {} # developer aid: no validation
            jobs = []
            def run_entry(u, m, n):
                o = dict(u.get("opts", {})); o.update(u.get("entry_opts", {}).get(n, {}))
                to = o.pop("timeout", 300 if tier == "quick" else 7200)
                to = min(float(to), deadline - (time.time() - t0))
                if to < 3: return u, n, {"entry": n, "error": "time budget exhausted", "violations": [], "paths": 0}
                args = [exe, m, n, "timeout=%.0f" % to, "seed=%d" % seed, "repo=" + REPO.rstrip("/") + "/"] + ["%s=%s" % kv for kv in o.items()]
                if os.environ.get("SV_COVER"): args.append("cover=%s/%s.%s.%s" % (os.environ["SV_COVER"], pid, u["name"], n)) # developer aid: executed lines
                rc, out, e = sh(args, to + 60)
                try: return u, n, json.loads(out.strip().splitlines()[-1])
                except Exception: return u, n, {"entry": n, "error": "engine died rc=%d %s" % (rc, e[-500:]), "violations": [], "paths": 0}
            for u in units:
                try: m, names = irf[u["name"]].result()
                except Err as x: errors.append(str(x)); continue
                if u.get("entries"): names = [n for n in names if re.search(u["entries"], n.split("_", 1)[1])]
                if only: names = [n for n in names if re.search(only, n)]
                if not names and not only: errors.append("no entries in " + u["src"])
                for n in names: jobs.append(ex.submit(run_entry, u, m, n))
            for j in cf.as_completed(jobs): results.append(j.result())
            natives = {}
            for u in units:
                if u["name"] not in natf: continue
                try: natives[(u["name"], False)] = natf[u["name"]].result()
                except Err as x: errors.append(str(x))
        results.sort(key=lambda r: (r[0]["name"], r[1]))
        k = 0
        for u, n, r in results:
            if os.environ.get("SV_VERBOSE"): print("  %-40s paths=%-6s instr=%-10s q=%-6s solver=%.1fs wall=%.1fs %s %s" % (n, r.get("paths"), r.get("instructions"), r.get("queries"), r.get("solver_s", 0), r.get("wall_s", 0), r.get("error") or "", [v["label"][:90] for v in r["violations"]]))
            if r.get("error"):
                errors.append("%s: %s" % (n, r["error"]))
                if not r["violations"]:
                    try: c = try_candidates(u, tier, wd, n, r, natives)
                    except Err as x: c = None
                    if c: r["violations"].append(c)
            elif not r["violations"] and not r.get("reach", {}).get("end"): errors.append("%s: vacuous - the end of the harness is not reachable" % n)
            for v in r["violations"]:
                k += 1; d = os.path.join(rpdir, str(k)); os.makedirs(d)
                infile = os.path.join(d, "input.txt"); write_inputs(infile, v["inputs"])
                try: ok, how = replay(u, tier, wd, n, v, infile, natives) if "fill" not in v else (True, ["[clang -O0 ASan] fails with SV_FILL=%d" % v["fill"]])
                except Err as x: ok, how = False, [str(x)]
                with open(os.path.join(d, "README"), "w") as f:
                    f.write("property %s, entry %s (%s)\n%s: %s\ninputs: %s\nstack:\n  %s\nreplay: %s\n" % (pid, n, u["src"], v["kind"], v["label"], json.dumps(v["inputs"]), "\n  ".join(v["stack"]), "\n  ".join(how)))
                with open(os.path.join(d, "replay.sh"), "w") as f:
                    f.write("#!/bin/sh\n# rebuilds the harness against %s and runs it on input.txt; exit 77/76/signal = reproduced\n%sexec python3 %s/tool/replay.py %s %s %s \"$(dirname \"$0\")/input.txt\"\n" % (REPO, "export SV_FILL=%d\n" % v["fill"] if "fill" in v else "", VERIF, pid, u["name"], n))
                os.chmod(os.path.join(d, "replay.sh"), 0o755)
                if not ok: errors.append("%s: counterexample for '%s' did not reproduce natively: %s" % (n, v["label"], " | ".join(how))); continue
                m = [x for x in known if x["status"] == "known" and x["property"] == pid and x["entry"] == n and x["label"] == v["label"]]
                if m: kf.append((m[0], d))
                else: viols.append((n, v, d))
            # translator validation on sampled paths
            exe_n = natives.get((u["name"], False))
            for s in r.get("samples", []):
                if not exe_n: break
                infile = os.path.join(wd, "s.txt"); write_inputs(infile, s["inputs"])
                rc, o, e = run_native(exe_n, n, infile, 60)
                got = [l.split(" ")[1:] for l in o.splitlines() if l.startswith("OBS ")]
                want = s["observed"]
                bad = rc != 0 or len(got) != len(want) or any(g[0] != w[0] or (w[1] != "?" and not same(g[1], w[1])) for g, w in zip(got, want))
                if bad and rc == 77 and r["violations"]: continue
                if bad: mism.append("%s: engine and native run disagree on %s (rc=%d %s) got %s want %s" % (n, s["inputs"], rc, e.strip()[:200], got[:6], want[:6]))
                else: nvalid += 1
                if len(samples) < 6 and s["observed"]: samples.append({"entry": n, "inputs": dict(list(s["inputs"].items())[:24]), "observed": s["observed"][:16]})
        for x in mism: errors.append(x)
    except Err as x: errors.append(str(x))
    for f, d in kf: print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    if viols:
        rcode = 1
        for n, v, d in viols: print("VIOLATION property=%s replay=%s" % (pid, d)); print("  %s: %s: %s %s" % (n, v["kind"], v["label"][:160], json.dumps(dict(list(v["inputs"].items())[:20]))))
    elif errors: rcode = 2
    for e in errors[:12]: print("ERROR: " + e, file=sys.stderr)
    if len(errors) > 12: print("ERROR: ... and %d more" % (len(errors) - 12), file=sys.stderr)
    fns = {}
    for _, _, r in results: fns.update(r.get("functions", {}))
    tot = lambda key: sum(r.get(key, 0) or 0 for _, _, r in results)
    if not samples: samples = [{"entry": n, "inputs": s["inputs"]} for _, n, r in results for s in r.get("samples", [])[:1]][:6]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": nvalid, "samples": samples,
                       "method": "path-wise symbolic execution of LLVM IR lowered from /repo's current source; every path condition and assertion decided by z3",
                       "entries": [{"entry": n, "unit": u["src"], "paths": r.get("paths"), "complete": bool(r.get("complete")), "assertions": r.get("asserts"), "assert_queries": r.get("assert_queries"), "queries": r.get("queries"), "solver_s": r.get("solver_s"), "wall_s": r.get("wall_s"), "reachable_end_paths": r.get("reach", {}).get("end", 0)} for u, n, r in results],
                       "queries_discharged": tot("queries"), "assertions_checked": tot("asserts"), "assertions_decided_by_query": tot("assert_queries"), "assertions_decided_by_simplifier": tot("assert_syntactic"),
                       "solver_s": round(tot("solver_s"), 3), "functions_encoded": len(fns), "functions": fns, "bounds": sp["bounds"], "outside": sp.get("outside", "")},
          "assumptions": sp.get("assumptions", []) + spec.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(viols),
          "known_findings_seen": [f["what"] for f, _ in kf], "errors": errors}
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    print("%s %s: %s  entries=%d paths=%d instr=%d queries=%d solver=%.1fs validated=%d wall=%.1fs" % (pid, tier, ["HELD", "VIOLATED", "NO VERDICT"][rcode], len(results), tot("paths"), tot("instructions"), tot("queries"), tot("solver_s"), nvalid, time.time() - t0))
    shutil.rmtree(wd, ignore_errors=True)
    return rcode

def same(a, b):
    if a == b: return True
    try: return float(a) == float(b)
    except ValueError: return False

if __name__ == "__main__": sys.exit(main())
