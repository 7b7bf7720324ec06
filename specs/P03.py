"""P03: fit statistics and deviates."""
from spec import *
from mo import *

UNITS = MO_UNITS
HARNESS = dict(src="P03.cpp")
FUNCTIONS = ["mp_enorm", "ModelObject::ChiSquared", "ModelObject::CashStatistic", "ModelObject::ComputeDeviates", "ModelObject::ComputePoissonMLRDeviate", "ModelObject::GenerateExtraCashTerms", "ModelObject::GetFitStatistic"]
LEVEL_NOTE = "statistics and deviates proved equal to their defining sums for every image, PSF padding, weight map and bootstrap resampling; the norm used by chi-squared is proved against the sum of squares (loop invariant over its scaled accumulators)"
ASSUMPTIONS = ["arithmetic is real (no rounding or overflow; mp_enorm's scaling therefore only has to be exact, and its result is within n*1.5e-39 of the sum of squares)", "CreateModelImage through the contract proved in P01, UpdateWeightVector through the one proved in P04",
               "model values are finite; bootstrap indices are valid pixel indices (P11)", "log is an uninterpreted function; the sign lemma uses log(m)-log(d) <= m/d-1", "fewer than 2^30 pixels"]
DWARF = "3.834e-20"


def enorm(prog):
    c = Ctx(prog, "mp_enorm")
    n = c.int("n", 1, 1 << 30)
    x = c.array("x", count=n, finite=True)
    D = RealVal(DWARF); D2 = RealVal("1470e-42")    # D2 >= RDWARF^2
    sq = lambda k: x.at(k).v * x.at(k).v
    def inv(V, t):
        s1, s2, s3, a, b = [V[r] for r in ("s1", "s2", "s3", "x1max", "x3max")]
        S = c.ex.SUM(sq, t)
        return [tand(*[v.ok for v in (s1, s2, s3, a, b)]), And(s1.v >= 0, s2.v >= 0, s3.v >= 0, a.v >= 0, b.v >= 0, b.v <= D, (a.v == 0) == (s1.v == 0), (b.v == 0) == (s3.v == 0)),
                And(s3.v * b.v * b.v >= 0, s3.v * b.v * b.v <= ToReal(t) * D2, s1.v * a.v * a.v >= 0), s1.v * a.v * a.v + s2.v + s3.v * b.v * b.v == S]
    c.ex.invariants.append((r"mp_enorm", [(r, "real") for r in ("s1", "s2", "s3", "x1max", "x3max")], inv))
    r = c.run("mp_enorm", [n, Ptr.to(x.reg)])
    S = c.ex.SUM(sq, n)
    c.ensures("result is finite and not negative", tand(r.ok, r.v >= 0))
    c.ensures("square of the result is the sum of squares (up to n times the square of the smallness constant)", And(r.v * r.v <= S, S - r.v * r.v <= ToReal(n) * D2))
    c.frame([])
    return c



LOGC = RealVal("-57.564627324851145")


def setting(prog, label):
    c = Ctx(prog, label)
    m = MO(c, functions=False); o = m.o; g = m.g
    m.boot, m.mlr, m.merr, m.cash = [g(x) != 0 for x in ("doBootstrap", "poissonMLR", "modelErrors", "useCashStatistic")]
    m.NV = g("nValidDataVals")
    c.requires(m.NV >= 0, m.NV <= m.DV, m.DV <= (1 << 30))
    m.w = o.array("weightVector", count=m.DV, finite=True); m.d = o.array("dataVector", count=m.DV, finite=True)
    m.e = o.array("extraCashTermsVector", count=m.DV, finite=True)
    m.b = o.array("bootstrapIndices", count=m.NV, ety=I64)
    m.gain, m.sky = g("effectiveGain"), g("originalSky")
    c.requires(m.gain.ok, m.gain.v > 0, m.sky.ok, m.sky.v >= 0)
    m.b.at(0, ty=I64)
    ini = c.ex.initc[(m.b.reg, 0)] if (m.b.reg, 0) in c.ex.initc else None
    c.ex.uf_inv.setdefault(ini.base[1], []).append(lambda a, x: Implies(And(a[-1] >= 0, a[-1] < m.NV), And(x >= 0, x < m.DV)))
    m.params = c.array("params", count=None, finite=True)
    m.log = []
    ex = c.ex
    MODEL = ex.uff("MODEL", IntSort(), IntSort(), RealSort()); WM = ex.uff("WM", IntSort(), RealSort())
    def create(ex, args, st, pc, ins):
        m.log.append(("create", args, list(pc)))
        a, b = Int("mda!"), Int("mdb!")
        c0 = st.arr.get((m.model.reg, 0)) or ex.init_content(m.model.reg, 0, F64)
        st.arr[(m.model.reg, 0)] = c0.add(Rec((a, b), TRUE, (a, b), FVal(MODEL(a, b))))
        ex.writes.append((m.model.reg, 0, ex.fn_stack[-1], ex.cur_line))
    def update(ex, args, st, pc, ins):
        m.log.append(("update", args, list(pc)))
        a = Int("wma!")
        c0 = st.arr.get((m.w.reg, 0)) or ex.init_content(m.w.reg, 0, F64)
        st.arr[(m.w.reg, 0)] = c0.add(Rec((a,), TRUE, (a,), FVal(WM(a))))
        ex.writes.append((m.w.reg, 0, ex.fn_stack[-1], ex.cur_line))
    ex.prefix_contracts += [(r"ModelObject::CreateModelImage\(", create), (r"ModelObject::UpdateWeightVector\(", update)]
    m.N = If(m.boot, m.NV, m.DV)
    m.idx = lambda k: If(m.boot, m.b.at(k, ty=I64), k)
    def mod(k):
        z = m.idx(k); r, q = ex.idiv(z, m.DC, [z >= 0]), ex.imod(z, m.DC, [z >= 0])
        return MODEL(norm_int(m.PR + r), norm_int(m.PC + q))
    m.mod = mod
    m.weight = lambda k, cashlike=False: If(m.merr, WM(m.idx(k)), m.w.at(m.idx(k)).v) if not cashlike else m.w.at(m.idx(k)).v
    m.resid = lambda k: m.weight(k) * (m.d.at(m.idx(k)).v - mod(k))
    LOG = ex.uff("LOG", RealSort(), RealSort())
    m.LOG = LOG
    def term(k):
        mv = m.gain.v * (mod(k) + m.sky.v); dv = m.gain.v * (m.d.at(m.idx(k)).v + m.sky.v)
        return mv - dv * If(mv <= 0, LOGC, LOG(mv)) + m.e.at(m.idx(k)).v
    m.term = term
    return c, m


def created_first(c, m):
    cr = [x for x in m.log if x[0] == "create"]
    c.ensures("the model image is recomputed exactly once, for the parameters given", BoolVal(len(cr) == 1 and same_target(cr[0][1][1].alts[-1][1], (m.params.reg, (), Poly.const(0)))))
    up = [x for x in m.log if x[0] == "update"]
    for x in up: c.ensures("weights are recomputed from the model only with model-based errors", m.merr, x[2][len(c.pc):])
    return up


def chisq(prog):
    out = []
    for boot in (False, True):
      for conv in (False, True):
        c, m = setting(prog, "ModelObject::ChiSquared (%s, %s)" % ("bootstrap" if boot else "no bootstrap", "with PSF" if conv else "no PSF")); o = m.o
        c.requires(m.boot if boot else Not(m.boot), m.conv if conv else Not(m.conv))
        o.array("deviatesVector", count=m.DV)
        o.on_assign("deviatesVector", lambda reg, st: c.shape(reg, count=m.DV))
        calls_ = []; devs = []
        D2 = RealVal("1470e-42")
        def en(ex, args, st, pc, ins):
            n, p = args
            r = FVal(ex.fresh(RealSort(), "enorm"))
            alts = [t for _, t in p.alts if t is not None]
            S = None
            for cnd, t in reversed(p.alts):
                if t is None: continue
                D = c.named("DEV%d" % len(devs), lambda k: Arr(c, t[0], t[1]).at(k, state=st).v)
                devs.append((list(pc) + [cnd], D))
                sv = ex.SUM(lambda k: D(k) * D(k), n)
                S = sv if S is None else ite(cnd, sv, S)
            k, hk = c.index("k", 0, n)
            ex.oblig("mp_enorm: arguments finite", tand(*[Implies(cnd, Arr(c, t[0], t[1]).at(k, state=st).ok) for cnd, t in p.alts if t is not None]), list(pc) + hk)
            ex.fact(Implies(n >= 0, And(r.v >= 0, r.v * r.v <= S, S - r.v * r.v <= ToReal(n) * D2)))
            calls_.append((n, S, list(pc)))
            return r
        c.ex.prefix_contracts.append((r"mp_enorm\(", en))
        ret = c.run("ModelObject::ChiSquared", [o.ptr(), Ptr.to(m.params.reg)])
        up = created_first(c, m)
        c.ensures("model-based errors: weights are recomputed", Implies(m.merr, BoolVal(len(up) == 1)))
        RES = c.named("RES", m.resid)
        k, hk = c.index("k", 0, m.NV if boot else m.DV)
        for pc, D in devs: c.establish("every deviate given to the norm is the weighted residual of its pixel", Implies(tand(*pc), D(k) == RES(k)), hk)
        c.ensures("the norm is taken over all data pixels (bootstrap: the resampled list)", tand(BoolVal(len(calls_) >= 1), *[Implies(tand(*pc), n == (m.NV if boot else m.DV)) for n, S_, pc in calls_]))
        S = c.ex.SUM(lambda k: RES(k) * RES(k), m.NV if boot else m.DV)
        c.ensures("chi-squared is the sum of squared weighted residuals (up to n*1.5e-39)", tand(ret.ok, ret.v <= S, S - ret.v <= ToReal(m.NV if boot else m.DV) * D2))
        out.append(c)
    return out


def cash(prog):
    out = []
    for boot in (False, True):
      for conv in (False, True):
        c, m = setting(prog, "ModelObject::CashStatistic (%s, %s)" % ("bootstrap" if boot else "no bootstrap", "with PSF" if conv else "no PSF")); o = m.o
        c.requires(m.boot if boot else Not(m.boot), m.conv if conv else Not(m.conv))
        ret = c.run("ModelObject::CashStatistic", [o.ptr(), Ptr.to(m.params.reg)])
        created_first(c, m)
        S = c.ex.SUM(lambda k: m.weight(k, True) * m.term(k), m.NV if boot else m.DV)
        c.ensures("statistic is twice the weighted sum of model - data*log(model) (+ extra term)", tand(ret.ok, ret.v == 2 * S))
        c.frame([m.model.reg])
        out.append(c)
    return out


def deviates(prog):
    out = []
    for boot in (False, True):
      for conv in (False, True):
        c, m = setting(prog, "ModelObject::ComputeDeviates (%s, %s)" % ("bootstrap" if boot else "no bootstrap", "with PSF" if conv else "no PSF")); o = m.o
        c.requires(m.boot if boot else Not(m.boot), m.conv if conv else Not(m.conv))
        N = m.NV if boot else m.DV
        y = c.array("y", count=N, finite=None)
        # weights are not negative (CheckWeightVector, P02)
        kk, hk = c.index("k", 0, N)
        WM = c.ex.uff("WM", IntSort(), RealSort()); wn = c.ex.initc[(m.w.reg, 0)].base[1] if (m.w.reg, 0) in c.ex.initc else None
        c.run("ModelObject::ComputeDeviates", [o.ptr(), Ptr.to(y.reg), Ptr.to(m.params.reg)])
        up = created_first(c, m)
        c.ensures("model-based errors: weights are recomputed", Implies(m.merr, BoolVal(len(up) == 1)))
        v = y.new(kk)
        c.ensures("chi-squared: deviate k is the weighted residual of its pixel", Implies(Not(m.mlr), tand(v.ok, v.v == m.resid(kk))), hk)
        T = m.weight(kk) * If(m.term(kk) >= 0, m.term(kk), -m.term(kk))
        c.ensures("Poisson-MLR: squared deviate is twice the weighted term of its pixel", Implies(tand(m.mlr, m.weight(kk) >= 0), tand(v.ok, v.v >= 0, v.v * v.v == 2 * T)), hk)
        c.frame([m.model.reg, m.w.reg, y.reg])
        out.append(c)
    mo_, d = Real("m"), Real("d"); LOG = out[0].ex.uff("LOG", RealSort(), RealSort())
    out[0].lemma("Poisson-MLR terms are never negative for a positive model, so the absolute value in the deviates changes nothing",
                 [mo_ > 0, d > 0, LOG(mo_) - LOG(d) <= mo_ / d - 1], mo_ - d * LOG(mo_) + (d * LOG(d) - d) >= 0)
    out[0].lemma("... and for zero data counts", [mo_ > 0], mo_ - 0 * LOG(mo_) + 0 >= 0)
    return out


def extra(prog):
    out = []
    c, m = setting(prog, "ModelObject::GenerateExtraCashTerms"); o = m.o
    c.run("ModelObject::GenerateExtraCashTerms", [o.ptr()])
    k, hk = c.index("k", 0, m.DV)
    dv = m.gain.v * (m.d.at(k).v + m.sky.v)
    c.ensures("extra term is d*log(d) - d for positive counts, 0 otherwise", tand(m.e.new(k).ok, m.e.new(k).v == If(dv <= 0, RealVal(0), dv * m.LOG(dv) - dv)), hk)
    c.frame([m.e.reg])
    out.append(c)
    c, m = setting(prog, "ModelObject::GetFitStatistic"); o = m.o
    a, b = FVal(Real("cashvalue")), FVal(Real("chivalue"))
    l1 = logcalls(c, "ModelObject::CashStatistic", ret=a); l2 = logcalls(c, "ModelObject::ChiSquared", ret=b)
    r = c.run("ModelObject::GetFitStatistic", [o.ptr(), Ptr.to(m.params.reg)])
    c.ensures("dispatches on the chosen statistic", r.v == If(m.cash, a.v, b.v))
    for L in l1 + l2: c.ensures("same parameters passed on", BoolVal(same_target(L["args"][1].alts[-1][1], (m.params.reg, (), Poly.const(0)))))
    c.frame([])
    out.append(c)
    for name in ("ModelObject::UseCashStatistic", "ModelObject::UsePoissonMLR"):
        c, m = setting(prog, name); o = m.o
        o.on_assign("weightVector", lambda reg, st, c=c, m=m: c.shape(reg, count=m.DV)); o.on_assign("extraCashTermsVector", lambda reg, st, c=c, m=m: c.shape(reg, count=m.DV))
        # first use: nothing allocated before
        c.requires(o.get("extraCashTermsVectorAllocated") == 0)
        r = c.run(name, [o.ptr()])
        p = lambda n: o.get(n, c.post)
        k, hk = c.index("k", 0, m.DV)
        ok = [r == 0] if r is not None else [p("extraCashTermsVectorAllocated") != 0, p("weightValsSet") != 0]
        c.ensures("the Cash family is selected", tand(p("useCashStatistic") != 0, (p("poissonMLR") != 0) if "MLR" in name else p("poissonMLR") == o.get("poissonMLR")))
        for fld, val in (("weightVector", 1), ("extraCashTermsVector", 0)):
            for cnd, t in p(fld).alts:
                if t is None: continue
                v = Arr(c, t[0], t[1]).new(k)
                c.ensures("%s starts as all %d" % (fld, val), Implies(cnd, tand(v.ok, v.v == val)), hk + ok)
        out.append(c)
    return out


CONTRACTS = [enorm, chisq, cash, deviates, extra]
