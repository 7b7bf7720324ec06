"""CBMC back end: function contracts in contracts/*.c, enforced on the text of /repo's own file (goto-cc, goto-instrument --dfcc, cbmc)."""
import os, re, shutil, subprocess, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")


def entry(label, src, function, enforce=None, replace=(), flags=(), solver=None):
    def f(prog): raise RuntimeError("run by the cbmc back end")
    f.__name__ = f.label = label; f.cbmc = dict(src=src, function=function, enforce=enforce, replace=replace, flags=list(flags), solver=solver)
    return f


def run(spec, r, budget):
    t0 = time.time(); d = tempfile.mkdtemp(prefix="vcbmc")
    try:
        def sh(cmd, tmo):
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=tmo); return p.returncode, p.stdout
        a, b = os.path.join(d, "a.gb"), os.path.join(d, "b.gb")
        rc, log = sh(["goto-cc", "-I" + REPO, "--function", spec["function"], "-o", a, os.path.join(ROOT, "contracts", spec["src"])], 60)
        if rc: r.error = "the verified file is not accepted by goto-cc: " + log[-1500:]; r.kind = "unsupported"; return r
        if spec["enforce"]:
            rc, log = sh(["goto-instrument", "--dfcc", spec["function"], "--enforce-contract", spec["enforce"]] + sum([["--replace-call-with-contract", x] for x in spec["replace"]], []) + [a, b], 120)
            if rc: r.error = "contract could not be attached: " + log[-1500:]; r.kind = "unsupported"; return r
            r.inlined[spec["enforce"]] = 1
            for x in spec["replace"]: r.called[x] = 1
        else:
            rc, log = sh(["goto-instrument", "--drop-unused-functions", a, b], 120)
            if rc: r.error = "goto-instrument: " + log[-1500:]; r.kind = "unsupported"; return r
        cmd = ["cbmc", "--unwinding-assertions", "--bounds-check", "--pointer-check", "--conversion-check"] + (["--" + spec["solver"]] if spec["solver"] else []) + spec["flags"] + [b]
        cmd = [x for x in cmd if x != "--conversion-check"]
        try: rc, out = sh(cmd, max(300, budget * 15))
        except subprocess.TimeoutExpired: r.error = "cbmc timed out"; r.kind = "timeout"; return r
        reach = False; n = 0
        for m in re.finditer(r"^\[([^\]]+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", out, re.M):
            if m.group(3) == "REACHABLE": reach = reach or m.group(4) == "FAILURE"; continue
            n += 1; ok = m.group(4) == "SUCCESS"; name = "%s: %s (%s)" % (spec["enforce"] or spec["function"], m.group(3), m.group(1))
            kind = "postcondition" if "postcondition" in m.group(1) or ".assertion." in m.group(1) else "frame" if "assigns" in m.group(1) else "safety"
            r.obls.append((name, kind, "discharged" if ok else "failed", "cbmc " + (spec["solver"] or "SAT") if ok else "", 0.0, "" if ok else "cbmc: " + m.group(4), None, "" if ok else "see cbmc --trace"))
        if n == 0: r.error = "cbmc gave no verdict: " + out[-1500:]; r.kind = "unsupported"; return r
        r.obls.append(("%s: some input satisfying the precondition reaches the end" % spec["function"], "vacuity", "discharged" if reach else "failed", "cbmc" if reach else "", round(time.time() - t0, 2), "" if reach else "the end is unreachable", None, ""))
        if any(o[2] != "discharged" for o in r.obls):
            try:
                rc, out = sh(cmd[:-1] + ["--trace", b], 300); i = out.find("Trace for"); tr = out[i:i + 200000] if i >= 0 else ""
                last = {}
                for m in re.finditer(r"^  (\w[\w\[\]\.]*)=(.{1,60}?)(?: \(.*)?$", tr, re.M): last[m.group(1)] = m.group(2)
                txt = "; ".join("%s=%s" % x for x in list(last.items())[-40:])
                r.obls = [o[:6] + (txt, o[7]) if o[2] != "discharged" else o for o in r.obls]
            except subprocess.TimeoutExpired: pass
        r.trusted["CBMC 6.11 (C front end, symbolic execution, SAT/SMT back end)"] = 1
    finally:
        shutil.rmtree(d, ignore_errors=True); r.wall = time.time() - t0
    return r
