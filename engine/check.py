"""check.py <property>: run every contract of a property against /repo's current source, replay failures, write the evidence file.
Exit 0: all obligations discharged (or listed as known findings) and no contract violated at run time; exit 1 with a VIOLATION line otherwise."""
import os, sys, time, json, tempfile, shutil, subprocess, threading, importlib, hashlib, re
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(ROOT, "specs"))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CXX = ["g++", "-O1", "-g1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-msse2", "-fopenmp", "-std=c++11", "-DANSI", "-DUSING_SCONS", "-DLINUX", "-DFFTW_THREADING", "-DUSE_OPENMP",
       "-I.", "-Icore", "-Isolvers", "-Icdream", "-Icdream/include", "-Ifunction_objects", "-Ifunction_objects_1d", "-Iprofile_fitting", "-include", "cstring"]
LIBS = ["-lgsl", "-lgslcblas", "-lnlopt", "-lfftw3_threads", "-lfftw3", "-lcfitsio", "-lm", "-lpthread"]


def harness(spec, tier, out):
    """compile and run the replay harness; result dict in out"""
    h = getattr(spec, "HARNESS", None)
    if h is None: return
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="vharn")
    out.update(ran=0, distinct=0, fails=[], samples=[], error=None)
    try:
        objs, procs = [], []
        import glob
        units = h.get("units") or sorted(os.path.relpath(u, REPO) for pat in ("core/*.cpp", "function_objects/*.cpp", "solvers/*.cpp", "cdream/*.cpp") for u in glob.glob(os.path.join(REPO, pat)))
        units = [u for u in units if not u.endswith("_main.cpp") and u not in h.get("skip", ())]
        srcs = [os.path.join(ROOT, "harness", h["src"])] + [os.path.join(REPO, u) for u in units]
        extra = h.get("flags", [])
        todo = list(srcs); running = []
        logs = {}
        while todo or running:
            while todo and len(running) < 8:
                s = todo.pop(0); o = os.path.join(d, "o%d.o" % len(objs)); objs.append(o)
                std = ["-std=c++17"] if s == srcs[0] else []
                p = subprocess.Popen(CXX + std + extra + ["-I" + os.path.join(ROOT, "harness"), "-c", s, "-o", o], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                running.append((p, s))
            p, s = running.pop(0)
            log = p.communicate()[0]
            if p.returncode != 0: out["error"] = "harness does not compile: %s\n%s" % (s, log[-3000:]); return
        exe = os.path.join(d, "h")
        p = subprocess.run(CXX + objs + ["-o", exe] + LIBS, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0: out["error"] = "harness does not link\n" + p.stdout[-3000:]; return
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:alloc_dealloc_mismatch=0:exitcode=99:allocator_may_return_null=1:log_path=asan", VERIF_SEED=str(SEED))
        scratch = os.path.join(d, "run"); os.mkdir(scratch)
        try:
            p = subprocess.run([exe, "--seed", str(SEED), "--tier", tier], cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=h.get("timeout", 300 if tier == "quick" else 3000), errors="replace", text=True)
        except subprocess.TimeoutExpired as e:
            so = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
            out["fails"].append(("termination", "harness run", "did not finish")); out["stderr"] = ""; p = None
            for l in so.splitlines():
                if l.startswith("FAIL|"): out["fails"].append(tuple((l.split("|", 3)[1:] + ["", ""])[:3]))
        if p is not None:
            done = False
            for l in p.stdout.splitlines():
                if l.startswith("FAIL|"): out["fails"].append(tuple((l.split("|", 3)[1:] + ["", ""])[:3]))
                elif l.startswith("SAMPLE|"): out["samples"].append(l[7:])
                elif l.startswith("RAN|"): a = l.split("|"); out["ran"], out["distinct"] = int(a[1]), int(a[2]); done = True
            out["stderr"] = p.stderr[-6000:]
            if p.returncode == 99 or (not done and not out["fails"]):
                logs = "".join(open(q, errors="replace").read() for q in glob.glob(os.path.join(scratch, "asan.*")))
                try: now = open(os.path.join(scratch, "now.txt"), errors="replace").read().splitlines()[0]
                except Exception: now = "first case"
                m = re.search(r"ERROR: AddressSanitizer:[^\n]*(\n.*){0,12}", logs + p.stderr)
                out["fails"].append(("memory safety / normal completion", now, (m.group(0) if m else "exit code %s: %s" % (p.returncode, p.stderr[-500:])).replace("\n", " / ")))
    finally:
        shutil.rmtree(d, ignore_errors=True); out["wall"] = round(time.time() - t0, 2)


def load_known(pid):
    kf = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=`([^`]*)` (.*)", l.strip())
            if m and m.group(1) == pid: kf.append((m.group(2), m.group(3)))
    return kf


def main():
    pid = sys.argv[1]
    tier = "thorough" if (os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv) else "quick"
    t0 = time.time()
    spec = importlib.import_module(pid)
    hout = {}
    th = threading.Thread(target=harness, args=(spec, tier, hout))
    ir_dir = tempfile.mkdtemp(prefix="vir")
    results = []; build_error = None
    try:
        from irparse import Program
        import runner
        try:
            prog = Program(spec.UNITS, ir_dir); prog.demangle_all()
        except Exception as e:
            build_error = "extraction of the verified functions failed: %s" % str(e)[-2000:]
        if build_error is None:
            results = runner.run_all(spec.CONTRACTS, prog, budget=20 if tier == "quick" else 60, jobs=8, timeout=500 if tier == "quick" else 3000)
        th.start(); th.join()
    finally:
        shutil.rmtree(ir_dir, ignore_errors=True)
    known = load_known(pid); seen_known = set()
    def is_known(text):
        for pat, desc in known:
            if pat in text: seen_known.add((pat, desc)); return True
        return False
    failed = []
    n_ob = n_dis = 0; backends = {}; solver_time = 0.0; kinds = {}
    for r in results:
        for (name, kind, status, backend, tm, reason, model, goal) in r.obls:
            n_ob += 1; solver_time += tm; kinds[kind] = kinds.get(kind, 0) + 1
            if status == "discharged": n_dis += 1; backends[backend] = backends.get(backend, 0) + 1
            elif is_known(r.label + " :: " + name): n_ob -= 1
            else: failed.append((r.label, name, status, reason, model, goal))
        if r.error:
            if not is_known(r.label + " :: " + r.error): n_ob += 1; failed.append((r.label, "contract could not be established: " + r.error.splitlines()[-1][:300], "unsupported", r.error, None, ""))
    if build_error: n_ob += 1; failed.append(("extraction", build_error, "unsupported", build_error, None, ""))
    rt = [f for f in hout.get("fails", []) if not is_known("runtime :: " + " ".join(f))]
    if hout.get("error"): failed.append(("replay harness", "replay harness does not build against the current tree (an interface the contract relies on changed): " + hout["error"].splitlines()[0], "unsupported", hout["error"], None, ""))
    for pat, desc in sorted(seen_known): print("KNOWN-FINDING: property=%s %s" % (pid, desc))
    trusted = {}
    inl = {}; called = {}; loops = 0; assumptions = list(getattr(spec, "ASSUMPTIONS", []))
    for r in results:
        trusted.update(r.trusted); loops += len(r.loops)
        for k in r.inlined: inl[k] = inl.get(k, 0) + r.inlined[k]
        for k in r.called: called[k] = called.get(k, 0) + r.called[k]
        assumptions += [a for a in r.assumptions if a not in assumptions]
    assumptions += ["machine arithmetic: integers are mathematical integers; floating-point values are reals extended with a 'defined' bit (finite and not NaN), rounding is ignored",
                    "the verified text is LLVM IR that clang 18 produces from /repo's current source (-O1 without vectorisation, OpenMP pragmas ignored); the shipped binary is compiled by gcc"]
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": getattr(spec, "LEVEL", "proof"),
          "coverage": {"obligations": n_ob, "discharged": n_dis, "checker_cmd": "python3-vt engine/check.py " + pid,
                       "trusted_base": ["clang 18 front end and -O1 scalar passes (source to IR)", "engine/*.py symbolic executor and loop-invariant inference (invariants are re-proved by induction)", "z3 4.8.12, z3-new, cvc5 (back ends)"] + sorted(str(k) + ((": " + str(v)) if isinstance(v, str) else "") for k, v in trusted.items())[:80],
                       "contracts": [{"contract": r.label, "obligations": len(r.obls), "wall_s": round(r.wall, 2), "loops_with_inferred_invariants": len(r.loops)} for r in results],
                       "functions_under_contract": getattr(spec, "FUNCTIONS", []), "inlined_callees": sorted(inl), "callees_by_contract": sorted(called),
                       "discharged_by_backend": backends, "obligation_kinds": kinds, "solver_time_s": round(solver_time, 2), "loops": loops,
                       "bounded_standins": getattr(spec, "BOUNDED", []),
                       "runtime_contract_replay": {"label": "bounded, not counted as proved", "cases": hout.get("ran", 0), "distinct_cases": hout.get("distinct", 0), "samples": hout.get("samples", []), "wall_s": hout.get("wall", 0)}},
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": (1 if (failed or rt) else 0)}
    if ev["level"] != "proof":
        ev["coverage"]["explanation"] = getattr(spec, "EXPLANATION", "contracts checked")
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d contracts; run-time contract replay: %d cases; %.1f s" % (pid, n_ob, n_dis, len(results), hout.get("ran", 0), time.time() - t0))
    if not failed and not rt: return 0
    rd = os.path.join(ROOT, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, pid + ".txt")
    with open(rp, "w") as f:
        f.write("property %s, tier %s, seed %d\n" % (pid, tier, SEED))
        for c, i, dd in rt: f.write("\nCONTRACT VIOLATED ON THE REAL CODE\n contract: %s\n input:    %s\n observed: %s\n" % (c, i, dd))
        if rt: f.write("\nreplay: VERIF_SEED=%d VERIF_TIER=%s python3-vt engine/check.py %s (harness/%s)\n" % (SEED, tier, pid, spec.HARNESS["src"]))
        for lab, name, st, reason, model, goal in failed:
            f.write("\nFAILED OBLIGATION\n function/contract: %s\n obligation: %s\n verifier: %s %s\n" % (lab, name, st, reason))
            if model: f.write(" counter-model: %s\n" % model)
            if goal: f.write(" goal: %s\n" % goal)
    for lab, name, st, reason, model, goal in failed[:8]: print("  failed obligation: [%s] %s (%s)" % (lab, name, st))
    for f in rt[:4]: print("  contract violated on the real code: %s | %s | %s" % f)
    print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if rt else " no-failing-input-found"))
    return 1


if __name__ == "__main__":
    try: rc = main()
    except SystemExit: raise
    except Exception:
        import traceback; tb = traceback.format_exc(); rc = 1
        rd = os.path.join(ROOT, "evidence", "replay"); os.makedirs(rd, exist_ok=True); rp = os.path.join(rd, sys.argv[1] + ".txt")
        open(rp, "w").write("the check could not be carried out on this tree: every obligation of %s is undecided\n%s" % (sys.argv[1], tb)); print(tb)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (sys.argv[1], rp))
    sys.stdout.flush(); os._exit(rc)
