"""Assumed contract of FFTW plans: executing a plan reads its input array and overwrites only its output array."""
from spec import *


class Fft:
    """ghost log of plan creation and execution"""

    def __init__(self, c):
        self.c = c; self.plans = {}; self.execs = []
        ex = c.ex
        ex.contracts["fftw_plan_dft_r2c_2d"] = self.mk("r2c")
        ex.contracts["fftw_plan_dft_c2r_2d"] = self.mk("c2r")
        ex.contracts["fftw_execute"] = self.execute
        self.n = 0

    def mk(self, kind):
        def h(ex, args, st, pc, ins):
            reg = ex.new_region("plan_%s_%d" % (kind, self.n)); self.n += 1
            p = Ptr.to(reg)
            self.plans[reg] = dict(kind=kind, n0=args[0], n1=args[1], inp=args[2], out=args[3], pc=list(pc), order=len(self.plans))
            return p
        return h

    def declare(self, region, kind, inp, out):
        self.plans[region] = dict(kind=kind, inp=inp, out=out)

    def execute(self, ex, args, st, pc, ins):
        p = args[0]
        alts = [(c, t) for c, t in p.alts if t is not None]
        if len(alts) != 1: raise Unsupported("fftw_execute of ambiguous plan")
        reg = alts[0][1][0]
        pl = self.plans.get(reg)
        if pl is None: raise Unsupported("fftw_execute of unknown plan")
        out = pl["out"].alts[-1][1][0]
        e = dict(plan=reg, state=st.copy(), pc=list(pc), kind=pl["kind"], inp=pl["inp"], out=pl["out"])
        self.execs.append(e)
        tag = "FFT%d:%s" % (len(self.execs), out.name)
        if out.ety is None: out.ety = F64; out.mod = ex.cur_mod
        for lo, lt in calls.leaf_list(ex, out):
            st.arr[(out, lo)] = Content(("uf", tag + ("+%d" % lo if lo else ""), "f"))
        out_f = out.finite
        out.finite = True
        e["after"] = st.copy()
        return None
