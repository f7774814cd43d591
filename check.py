#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]: decide one property by symbolic execution of /repo's code.

Every run: compile the property's harnesses (which include /repo's current headers) to LLVM IR, run the
symbolic executor (build/symir) on every harness entry, replay sampled paths and every counterexample
against the natively compiled code, write evidence/PID.json.  Exit 0 held, 1 violation, 2 no verdict.
"""
import sys, os, re, json, subprocess, time, glob, shutil, argparse, tempfile, threading
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VS_REPO", "/repo")
CLANG = "clang++"
PASSES = "always-inline,inline,function(sroa,early-cse,simplifycfg<no-sink-common-insts;no-hoist-common-insts>,instsimplify,sroa,early-cse,simplifycfg,dce)"
UBSAN = "-fsanitize=address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=all"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def die(msg, code=2):
    print("ERROR " + msg)
    sys.exit(code)

def ensure_engine():
    exe = os.path.join(V, "build", "symir")
    r = sh(["make", "-s", "-j8", "-C", os.path.join(V, "engine"), "B=" + os.path.join(V, "build")])
    if r.returncode or not os.path.exists(exe):
        die("engine build failed\n" + r.stdout + r.stderr)
    return exe

class TU:
    def __init__(s, src, cfg, flags, tier, wd):
        s.src, s.cfg, s.tier, s.wd = src, cfg, tier, wd
        s.prefix = os.path.basename(src).split("_")[0]
        # "trap:..." flags apply only to the IR build (undefined-behaviour checks compiled into the code)
        s.irflags = [f[5:] for f in flags if f.startswith("trap:")]
        s.flags = [f for f in flags if not f.startswith("trap:")]
        s.base = os.path.join(wd, os.path.basename(src)[:-4] + ("-" + cfg if cfg else ""))
        s.text = open(src).read()
    def common(s):
        f = ["-std=c++14", "-I" + os.path.join(V, "harness"), "-I" + os.path.join(REPO, "include"), "-I" + REPO, "-I" + os.path.join(REPO, "examples"),
             "-DVS_THOROUGH=%d" % (s.tier == "thorough"), "-DVS_REPO=\"%s\"" % REPO, "-Wno-everything", "-ferror-limit=3"]
        return f + [x.replace("@V", V).replace("@R", REPO) for x in s.flags]
    def build_ir(s):
        raw, bc = s.base + ".raw.bc", s.base + ".bc"
        r = sh([CLANG] + s.common() + s.irflags + ["-O1", "-Xclang", "-disable-llvm-passes", "-g1", "-fno-exceptions" if "-fno-exceptions" in s.flags else "-fexceptions",
                "-emit-llvm", "-c", s.src, "-o", raw])
        if r.returncode: return "compile %s failed:\n%s" % (s.src, r.stderr[:2500])
        r = sh(["opt-18" if shutil.which("opt-18") else "opt", "-inline-threshold=100", "-passes=" + PASSES, raw, "-o", bc])
        if r.returncode: return "opt failed: " + r.stderr[-2000:]
        r = sh([os.path.join(V, "build", "symir"), bc, "--list"])
        s.entries = r.stdout.split()
        s.bc = bc
        return None
    def build_native(s, kind="asan"):
        exe = s.base + "." + kind
        san = {"asan": UBSAN.split() + ["-O1"], "msan": ["-fsanitize=memory", "-fsanitize-memory-track-origins", "-O0"], "plain": ["-O0"]}[kind]
        r = sh([CLANG] + s.common() + san + ["-g1", "-rdynamic", s.src, os.path.join(V, "native", "rt_native.cpp"), "-ldl", "-o", exe])
        if r.returncode: return None, r.stderr[-3000:]
        return exe, None

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=98:abort_on_error=0:detect_stack_use_after_return=1:max_allocation_size_mb=4096:detect_stack_use_after_scope=1",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=97", MSAN_OPTIONS="exitcode=96")

def replay(exe, entry, vals, wd, tag):
    f = os.path.join(wd, "in_%s_%s" % (entry, tag))
    open(f, "w").write(" ".join(str(v) for v in vals) + "\n")
    try:
        r = sh([exe, entry, f], env=ENV, timeout=60)
        return r.returncode, (r.stdout + r.stderr)[-4000:]
    except subprocess.TimeoutExpired:
        return -14, "timeout"

def known_findings():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def matches(fd, pid, entry, v):
    if fd.get("property") != pid: return False
    if fd.get("entry") and not re.fullmatch(fd["entry"], entry): return False
    if fd.get("msg") and fd["msg"] not in v["msg"]: return False
    inp = dict(v["inputs"])
    for k, c in fd.get("inputs", {}).items():
        if inp.get(k) != c: return False
    return True

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--entry")
    ap.add_argument("--file")
    ap.add_argument("--strict", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop at the first confirmed violation")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--deadline", type=float)
    a = ap.parse_args()
    t0 = time.time()
    deadline = a.deadline or (800 if a.tier == "quick" else 6 * 3600)
    ensure_engine()
    pid = a.pid
    cfgs = []
    seen_src = []
    wd = tempfile.mkdtemp(prefix="vs_%s_" % pid)
    for src in sorted(glob.glob(os.path.join(V, "harness", pid + "_*.cpp"))):
        if a.file and a.file not in src: continue
        lines = re.findall(r"^// VSCONFIG:[ \t]*(\S*)[ \t]*(.*)$", open(src).read(), re.M) or [("", "")]
        th = re.findall(r"^// VSTHOROUGH:[ \t]*(\S*)[ \t]*(.*)$", open(src).read(), re.M) if a.tier == "thorough" else []
        for name, fl in lines + th:
            cfgs.append(TU(src, "" if name in ("-", "") else name, fl.split(), a.tier, wd))
        seen_src.append(src)
        # other properties' harnesses run for their memory accesses, traps and assertions alone
        for tier, pat, name, fl in re.findall(r"^// VSREUSE:[ \t]*(\S+)[ \t]+(\S+)[ \t]+(\S+)[ \t]*(.*)$", open(src).read(), re.M):
            if tier == a.tier:
                for o in sorted(glob.glob(os.path.join(V, "harness", pat))):
                    own = re.findall(r"^// VSCONFIG:[ \t]*(\S*)[ \t]*(.*)$", open(o).read(), re.M) or [("", "")]
                    cfgs.append(TU(o, name, own[0][1].split() + fl.split() + ["-DVS_NO_CHECKS"], a.tier, wd))
    if not cfgs: die("no harness for " + pid)
    errors, results, viols, known = [], [], [], []
    nproc = os.cpu_count() or 4
    ex = ThreadPoolExecutor(nproc)
    def buildall(t):
        e = t.build_ir()
        return t, e
    natives = {}
    stop, active, nlock, locks = threading.Event(), set(), threading.Lock(), {}
    nerr = []
    def native(t):
        with nlock: l = locks.setdefault(t, threading.Lock())
        with l:
            if t not in natives:
                exe, err = t.build_native("asan")
                if not exe: nerr.append("native build failed: " + err)
                natives[t] = exe
            return natives[t]
    def confirm(t, e, v, tag):
        exe = native(t)
        vals = [x[1] for x in v["inputs"]]
        rc, o = replay(exe, e, vals, wd, tag) if exe else (None, "no native build")
        good = lambda rc: rc not in (0, 77, 78, 79, 2, None)
        if not good(rc):
            for kind in (["msan"] if v["kind"] == "uninit" else []) + ["plain"]:
                exe2, _ = t.build_native(kind)
                if exe2:
                    rc, o = replay(exe2, e, vals, wd, tag + kind)
                    if good(rc): break
        return good(rc), rc, o
    symir = os.path.join(V, "build", "symir")
    def run_entry(t, e):
        left = deadline - (time.time() - t0) - 30
        out = os.path.join(wd, "%s-%s.json" % (e, t.cfg))
        if left < 5: return t, e, {"complete": False, "unsupported": "no time left before the deadline"}
        cmd = [symir, t.bc, "--entry", e, "--out", out, "--limit", str(int(left)), "--repo", REPO + "/",
               "--qtimeout", "20000" if a.tier == "quick" else "120000"]
        if a.tier == "thorough": cmd += ["--dump", os.path.join(wd, "smt-%s-%s" % (e, t.cfg)), "40"]
        if a.tier == "thorough": os.makedirs(os.path.join(wd, "smt-%s-%s" % (e, t.cfg)), exist_ok=True)
        if stop.is_set(): return t, e, {"complete": False, "unsupported": "stopped: a violation was found"}
        pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        active.add(pr)
        if stop.is_set(): pr.kill()
        _, err = pr.communicate()
        active.discard(pr)
        if stop.is_set() and pr.returncode: return t, e, {"complete": False, "unsupported": "stopped: a violation was found"}
        if pr.returncode or not os.path.exists(out):
            return t, e, {"complete": False, "unsupported": "engine exit %d %s" % (pr.returncode, err[-1500:])}
        d = json.load(open(out))
        d["_err"] = err[-3000:]
        return t, e, d
    builds = [ex.submit(buildall, t) for t in cfgs]
    runs, nbuilds = [], []
    kf = known_findings()
    for b in as_completed(builds):
        t, e = b.result()
        if e: errors.append(e); continue
        ents = [x for x in t.entries if x.startswith(t.prefix + "_") and "_finding_" not in (x if t.prefix != pid else "") and (not a.entry or re.fullmatch(a.entry, x))]
        for x in ents: runs.append(ex.submit(run_entry, t, x))
        if ents: nbuilds.append(ex.submit(lambda t=t: None if stop.is_set() else native(t)))
    for r in as_completed(runs):
        t, e, d = r.result()
        results.append((t, e, d))
        if a.v:
            s = d.get("solver", {})
            print("  %-44s %-8s paths=%-6s checks=%s/%s q=%s (u%s s%s ?%s) st=%.1fs wall=%.1fs rss=%s %s%s" % (e, t.cfg, d.get("paths"), d.get("checks_proved"), d.get("checks"),
                  s.get("queries"), s.get("unsat"), s.get("sat"), s.get("unknown"), s.get("time", 0), d.get("wall", 0), d.get("rss_mb"), "" if d["complete"] else "INCOMPLETE " + d["unsupported"] + str(d.get("undecided", "")), " VIOL" if d.get("violations") else ""), flush=True)
            if d.get("_err"): print(d["_err"])
        # one confirmed violation settles the verdict: stop the rest
        if not a.all and not stop.is_set():
            for i, v in enumerate((d.get("violations") or [])[:3]):
                if any(matches(f, pid, e, v) for f in kf): continue
                if confirm(t, e, v, "first%d" % i)[0]:
                    stop.set()
                    for pr in list(active):
                        try: pr.kill()
                        except OSError: pass
                    break
    for r in as_completed(nbuilds): r.result()
    errors += nerr
    # validate sampled paths natively; replay counterexamples
    traces_ok = 0
    samples = []
    def validate(t, e, d):
        exe = natives.get(t)
        sm = d.get("samples") or []
        if not exe or not sm: return 0, []
        f = os.path.join(wd, "batch_%s_%s" % (e, t.cfg))
        open(f, "w").write("".join(" ".join(str(x[1]) for x in s["in"]) + "\n" for s in sm))
        try:
            r = sh([exe, e, f, "batch"], env=ENV, timeout=300)
        except subprocess.TimeoutExpired:
            return 0, ["%s: native batch timed out" % e]
        runs, cur = [], []
        for l in r.stdout.splitlines():
            if l.startswith("T "):
                _, lab, v = l.rsplit(" ", 2) if l.count(" ") == 2 else (None, l[2:l.rindex(" ")], l[l.rindex(" ") + 1:])
                cur.append([lab, int(v)])
            elif l.startswith("E "):
                runs.append((int(l.split()[-1]), cur)); cur = []
        ok, bad = 0, []
        for s, rr in zip(sm, runs):
            if rr[0] == 0 and rr[1] == s["tr"]: ok += 1
            elif rr[0] == 79: pass # native machine has not enough memory for this input
            elif not d.get("violations"): bad.append("%s[%s]: path inputs %s: engine trace %s, native status %s trace %s\n%s" % (e, t.cfg, s["in"], s["tr"][:20], rr[0], rr[1][:20], r.stdout[-300:] + r.stderr[-1500:]))
        if len(runs) != len(sm): bad.append("%s: native batch incomplete" % e)
        return ok, bad
    vfut = {ex.submit(validate, t, e, d): (t, e, d) for t, e, d in results if d.get("samples") and not stop.is_set()}
    mism = []
    for r in as_completed(vfut):
        ok, bad = r.result()
        traces_ok += ok
        mism += bad
    unconfirmed = []
    rdir = os.path.join(V, "replay")
    for t, e, d in results:
        for i, v in enumerate(d.get("violations") or []):
            if any(matches(f, pid, e, v) for f in kf):
                known.append((e, v)); continue
            if stop.is_set() and len(viols) >= 3: continue
            conf, rc, o = confirm(t, e, v, str(i))
            if conf:
                os.makedirs(rdir, exist_ok=True)
                rp = os.path.join(rdir, "%s_%s%s_%d.json" % (pid, e, "-" + t.cfg if t.cfg else "", i))
                json.dump({"property": pid, "entry": e, "config": t.cfg, "source": t.src, "flags": t.flags, "kind": v["kind"], "message": v["msg"], "where": v["where"],
                           "inputs": v["inputs"], "native_exit": rc, "native_output": o[-2000:],
                           "how": "clang++ -std=c++14 <flags> -fsanitize=address,undefined harness native/rt_native.cpp; run: exe ENTRY file-with-inputs"}, open(rp, "w"), indent=1)
                viols.append((e, v, rp))
            else:
                unconfirmed.append("%s[%s] %s: %s at %s inputs %s native rc=%s %s" % (e, t.cfg, v["kind"], v["msg"], v["where"], v["inputs"], rc, o[-600:]))
    # vacuity
    reach = set()
    for t, e, d in results: reach |= set((d.get("reach") or {}).keys())
    vac = []
    for s in seen_src:
        for lab in set(re.findall(r'vs_reach\("([^"]+)"\)', open(s).read())):
            if lab not in reach and not a.entry: vac.append("%s: label %s never reached" % (os.path.basename(s), lab))
    for t, e, d in results:
        if d.get("complete") and not d.get("violations") and not d.get("paths") and "_finding_" not in e: vac.append("%s: no completed path" % e)
    inc = ["%s[%s]: %s %s" % (e, t.cfg, d.get("unsupported"), d.get("undecided") or "") for t, e, d in results if not d.get("complete")]
    # cross-solver validation of dumped unsat queries (thorough)
    cross = {"checked": 0, "agree": 0, "timeout": 0}
    if a.tier == "thorough":
        files = [f for f in glob.glob(os.path.join(wd, "smt-*", "*.smt2"))][:400]
        def xs(f):
            r = sh(["cvc5", "--tlimit=10000", f])
            o = r.stdout.strip().splitlines()
            if o and o[-1] in ("sat", "unsat"): return o[-1], f
            r = sh(["z3", "-T:10", f])
            o = r.stdout.strip().splitlines()
            return (o[-1] if o and o[-1] in ("sat", "unsat") else "unknown"), f
        for res, f in ex.map(xs, files):
            cross["checked"] += 1
            if res == "unsat": cross["agree"] += 1
            elif res == "sat": errors.append("cross-solver disagreement on " + f); shutil.copy(f, os.path.join(V, "build"))
            else: cross["timeout"] += 1
    S = lambda k: sum(d.get(k) or 0 for _, _, d in results)
    SS = lambda k: sum((d.get("solver") or {}).get(k) or 0 for _, _, d in results)
    fn = set()
    for _, _, d in results: fn |= set(d.get("functions") or [])
    for t, e, d in results:
        for s in (d.get("samples") or [])[:2]:
            if len(samples) < 12: samples.append({"entry": e, "inputs": dict((k, v) for k, v in s["in"]), "trace": s["tr"][:12]})
    bounds = sorted(set(re.findall(r"^// BOUND:\s*(.*)$", "\n".join(open(s).read() for s in seen_src), re.M)))
    ev = {"property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": S("paths"), "transitions": S("instructions"), "traces_validated_against_impl": traces_ok,
                       "samples": samples or [{"note": "no completed path"}],
                       "explanation": "states = symbolic paths completed (each covers all inputs satisfying its path condition), transitions = IR instructions executed symbolically",
                       "entries": len(results), "forks": S("forks"), "infeasible_paths_cut_by_assumptions": S("infeasible"), "checks_decided": S("checks"), "checks_proved": S("checks_proved"),
                       "assertion_guards_fired": S("guards_fired"), "memory_accesses_checked": S("mem_accesses"), "memory_accesses_decided_by_solver": S("mem_symbolic"),
                       "solver_queries": SS("queries"), "solver_unsat": SS("unsat"), "solver_sat": SS("sat"), "solver_unknown": SS("unknown"), "solver_seconds": round(SS("time"), 2),
                       "solver_max_query_seconds": max([(d.get("solver") or {}).get("max") or 0 for _, _, d in results] + [0]),
                       "functions_encoded": len(fn), "functions": sorted(fn)[:400], "bounds": bounds,
                       "cross_solver": cross, "reach_labels": sorted(reach), "undecided": inc[:20], "unconfirmed_counterexamples": unconfirmed[:10], "native_mismatches": mism[:5]},
          "assumptions": ["clang 18 front end and the LLVM passes " + PASSES + " preserve the source semantics",
                          "the engine's instruction semantics (cross-checked natively on sampled paths) and z3",
                          "operator new succeeds; element types and callables are those of the harnesses"] + ["bound: " + b for b in bounds],
          "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    if not a.keep: shutil.rmtree(wd, ignore_errors=True)
    else: print("work dir", wd)
    fd = {}
    for e, v in known:
        k = "%s %s" % (e, v["msg"])
        if k not in fd: print("KNOWN-FINDING: property=%s %s" % (pid, k)); fd[k] = 1
    print("%s %s: entries=%d paths=%d checks=%d queries=%d solver=%.1fs native-validated=%d wall=%.1fs" % (pid, a.tier, len(results), S("paths"), S("checks"), SS("queries"), SS("time"), traces_ok, time.time() - t0))
    if viols:
        for e, v, rp in viols:
            print("  %s: %s: %s at %s inputs %s" % (e, v["kind"], v["msg"], v["where"], v["inputs"]))
        print("VIOLATION property=%s replay=%s" % (pid, viols[0][2]))
        sys.exit(1)
    # Entries that ran out of time or met something the engine cannot encode are reported (and listed in the
    # evidence under "undecided"); the verdict then covers what was explored.  --strict makes them an error.
    for b in inc: print("NOT DECIDED: " + b)
    bad = errors + unconfirmed + mism
    if not inc or a.strict: bad += vac
    if a.strict or 2 * len(inc) > len(results): bad += inc
    if bad:
        for b in bad: print("NO VERDICT: " + b)
        sys.exit(2)
    sys.exit(0)

main()
