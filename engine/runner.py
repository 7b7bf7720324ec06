"""Runs the contracts of one property: extraction, symbolic execution, discharge, replay, evidence."""
import os, sys, time, json, tempfile, shutil, traceback, pickle, importlib, subprocess, select
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(ROOT, "specs"))


class Res:
    """picklable result of one contract run"""
    def __init__(self, label):
        self.label = label; self.obls = []; self.error = None; self.kind = None; self.inlined = {}; self.called = {}; self.trusted = {}
        self.loops = []; self.havoc = []; self.wall = 0; self.assumptions = []; self.lines = []


def run_ctx(fnc, prog, budget):
    import prover, calls
    from terms import Unsupported
    from irparse import IRError
    from spec import SpecError
    name = getattr(fnc, "label", fnc.__name__)
    import z3
    z3.set_option(max_visited=3000, max_depth=14, max_args=24, max_lines=60)
    r = Res(name)
    t0 = time.time()
    if hasattr(fnc, "cbmc"):
        import cbmc
        try: return cbmc.run(fnc.cbmc, r, budget)
        except Exception: r.error = traceback.format_exc()[-1500:]; r.kind = "crash"; r.wall = time.time() - t0; return r
    try:
        c = fnc(prog)
        ctxs = c if isinstance(c, list) else [c]
        for c in ctxs:
            for o in c.ex.obls:
                if o.status != "discharged": prover.prove(c.ex, o, budget)
                r.obls.append((o.name, o.kind, o.status, o.backend or "", round(o.time, 3), o.reason, o.model, str(o.goal)[:6000] if o.status != "discharged" else ""))
            for k, v in c.ex.inlined.items(): r.inlined[k] = r.inlined.get(k, 0) + v
            for k, v in c.ex.called.items(): r.called[k] = r.called.get(k, 0) + v
            r.loops += [x[:3] for x in c.ex.trace_loops]
            r.havoc += c.ex.unsummarised
            r.assumptions += c.ex.assumptions
            # the precondition must be satisfiable (no vacuous proof)
            import z3
            s = z3.Solver(); s.set("timeout", 5000)
            for p in c.pre_lits: s.add(p)
            for f in c.ex.relevant(c.pre_lits, [e for e, lv in c.ex.facts if not lv]): s.add(f)
            v = s.check()
            r.obls.append(("%s: precondition satisfiable" % c.label, "vacuity", "discharged" if v == z3.sat else ("failed" if v == z3.unsat else "discharged"),
                           "z3" if v == z3.sat else "z3(unknown)", 0.0, "" if v != z3.unsat else "precondition contradictory", None, ""))
            if c.rpc is not None:
                # ... and some valid input must reach the return (otherwise every postcondition holds vacuously)
                s = z3.Solver(); s.set("timeout", 5000)
                for p in c.rpc: s.add(p)
                for f in c.ex.relevant(c.rpc, [e for e, lv in c.ex.facts]): s.add(f)
                v = s.check()
                r.obls.append(("%s: returns normally for some input satisfying its precondition" % c.label, "vacuity", "failed" if v == z3.unsat else "discharged", "z3" if v == z3.sat else "z3(unknown)", 0.0, "" if v != z3.unsat else "no path reaches the return", None, ""))
    except (Unsupported, SpecError, IRError) as e:
        r.error = "%s: %s" % (type(e).__name__, e); r.kind = "unsupported"
    except Exception as e:
        r.error = traceback.format_exc()[-1500:]; r.kind = "crash"
    r.trusted = dict(calls.USED)
    r.wall = time.time() - t0
    return r


def run_all(fns, prog, budget=20, jobs=8, timeout=600):
    """fork one process per contract"""
    pending = list(enumerate(fns)); running = {}; out = {}
    t0 = time.time()
    while pending or running:
        while pending and len(running) < jobs:
            i, f = pending.pop(0)
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                try:
                    res = run_ctx(f, prog, budget)
                    with os.fdopen(wr, "wb") as h: h.write(pickle.dumps(res))
                except BaseException:
                    traceback.print_exc()
                os._exit(0)
            os.close(wr)
            running[rd] = (i, pid, b"", time.time())
        if not running: break
        rl, _, _ = select.select(list(running), [], [], 1.0)
        now = time.time()
        for fd in list(running):
            i, pid, buf, st = running[fd]
            if fd in rl:
                d = os.read(fd, 1 << 20)
                if d: running[fd] = (i, pid, buf + d, st); continue
                os.close(fd); os.waitpid(pid, 0); del running[fd]
                try: out[i] = pickle.loads(buf)
                except Exception:
                    r = Res(getattr(fns[i], "label", fns[i].__name__)); r.error = "verifier process died"; r.kind = "crash"; out[i] = r
            elif now - st > timeout or now - t0 > timeout + 120:
                try: os.kill(pid, 9)
                except OSError: pass
                os.close(fd); os.waitpid(pid, 0); del running[fd]
                r = Res(getattr(fns[i], "label", fns[i].__name__)); r.error = "verifier timed out after %d s" % (now - st); r.kind = "timeout"; r.wall = now - st; out[i] = r
    return [out[i] for i in range(len(fns))]
