"""P10: the fluxes reported for a model and its components."""
from spec import *
from mo import *
from funcs import *

UNITS = MO_UNITS + [u for u in FUNC_UNITS if u not in MO_UNITS] + ["function_objects/helper_funcs.cpp", "function_objects/helper_funcs_3d.cpp"]
FUNCTIONS = ["ModelObject::FindTotalFluxes", "FunctionObject::IsBackground", "FunctionObject::CanCalculateTotalFlux"] + [n + "::" + f for n, _, _ in FUNCS for f in (n, "CanCalculateTotalFlux / TotalFlux")] + [n + "::IsBackground" for n in ("FlatSky", "TiltedSkyPlane")]
HARNESS = dict(src="P10.cpp")
LEVEL_NOTE = "proved for every list of functions, grid and parameter vector: the component loop and both grid loops by sums over the whole index range"
ASSUMPTIONS = ["the entries of the result array that belong to background components are left as the caller initialised them (every caller in the tree passes zeroed memory); the contract states them as untouched",
               "exp, pow and the gamma function are uninterpreted functions with the same meaning in code and contract; that the closed forms are the integrals of the profiles is mathematics outside the solver (the closed forms themselves are checked with exact gamma values in the harness)",
               "makeimage's DetermineFluxes (printing and saving the numbers) is run by the harness, not under contract",
               "arithmetic over the reals"]


def total(prog):
    c = Ctx(prog, "ModelObject::FindTotalFluxes")
    m = MO(c); g = m.g; fo = m.fo; ex = c.ex
    bgf, canf = ex.uff("isBackground", IntSort(), BoolSort()), ex.uff("canCalculateTotalFlux", IntSort(), BoolSort())
    totf = ex.uff("TOTALFLUX", IntSort(), IntSort(), RealSort(), RealSort(), RealSort())
    tot = lambda n, st: totf(n, fo.rd("offset", n, st), fo.rd("x0", n, st), fo.rd("y0", n, st))
    P = ex.prefix_contracts
    P.append((r"FunctionObject::IsBackground\(", lambda ex, args, st, pc, ins: bgf(fo.key(args[0]))))
    P.append((r"FunctionObject::CanCalculateTotalFlux\(", lambda ex, args, st, pc, ins: canf(fo.key(args[0]))))
    P.append((r"FunctionObject::TotalFlux\(", lambda ex, args, st, pc, ins: FVal(tot(fo.key(args[0]), st))))
    noeffect(c, r"FunctionObject::GetShortName")
    xs, ys = c.int("xSize", 1, 1 << 15), c.int("ySize", 1, 1 << 15)
    ind = c.array("individualFluxes", count=m.nF, finite=None)
    ret = c.run("ModelObject::FindTotalFluxes", [m.o.ptr(), Ptr.to(m.params.reg), xs, ys, Ptr.to(ind.reg)])
    st = c.post
    n, hn = m.setup_contract(st, centre=False)
    c.ensures("every component is placed in the middle of the grid", And(fo.rd("x0", n, st) * 2 == ToReal(xs), fo.rd("y0", n, st) * 2 == ToReal(ys)), hn)
    flux = lambda n: If(canf(n), tot(n, st), ex.SUM(lambda i: ex.SUM(lambda j: fo.value(n, ToReal(norm_int(j + 1)), ToReal(norm_int(i + 1)), st), xs), ys))
    c.ensures("flux of a component: its analytic total, or the sum of its values over the grid", Implies(Not(bgf(n)), ind.new(n).v == flux(n)), hn)
    c.ensures("background components get no flux", Implies(bgf(n), same_cell(ind, n)), hn)
    c.ensures("the total is the sum over the components that are not background", ret.v == ex.SUM(lambda n: If(bgf(n), RealVal(0), flux(n)), m.nF))
    c.frame([ind.reg] + [v[0] for v in fo.g.values()])
    return c


def same_cell(a, n): return a.new(n).v == a.at(n).v


PIS = [RealVal("3.14159265358979"), RealVal("3.141592653589793")]
TOTALS = dict(Exponential=lambda ex, p: (1 - p[1]) * 2 * p[2] * p[3] * p[3], Gaussian=lambda ex, p: (1 - p[1]) * 2 * p[2] * p[3] * p[3],
              Sersic=lambda ex, p: 2 * p[2] * (1 - p[1]) * p[3] * p[4] * p[4] * ex.uff("EXP", RealSort(), RealSort())(BN(ex, p[2])) * ex.uff("TGAMMA", RealSort(), RealSort())(2 * p[2]) / ex.uff("POW", RealSort(), RealSort(), RealSort())(BN(ex, p[2]), 2 * p[2]),
              PointSource=lambda ex, p: p[0], PointSourceRot=lambda ex, p: p[1])
BACKGROUND = ("FlatSky", "TiltedSkyPlane")


def BN(ex, n): return ex.uff("SERSIC_BN", RealSort(), RealSort())(n)


def totals(prog):
    """closed forms of the integral over the plane, for the parameters the component was set up with"""
    out = []
    for name, _, roles in FUNCS:
        c = Ctx(prog, name + "::TotalFlux"); ex = c.ex; N = len(roles)
        a = c.obj(name, "this"); off = c.int("offsetIndex", 0, 1 << 20)
        for f, v in (("pixelScaling", 1), ("imageRotation", 0), ("intensityScale", 1)): a.set(f, FVal(RealVal(v)))
        P = c.array("params", count=off + N); x0, y0 = c.real("xc"), c.real("yc")
        can = c.run(name + "::CanCalculateTotalFlux()" if prog.find(name + "::CanCalculateTotalFlux") else "FunctionObject::CanCalculateTotalFlux()", [a.ptr()])
        if name not in TOTALS:
            c.ensures("%s claims no analytic total" % name, Not(tr(can))); c.frame([]); out.append(c); continue
        c.ensures("%s has an analytic total" % name, tr(can))
        ex.prefix_contracts.append((r"Calculate_bn\(", lambda ex, args, st, pc, ins: FVal(BN(ex, args[0].v), And(args[0].ok, args[0].v > 0))))
        c.run(name + "::Setup(double*, int, double, double)", [a.ptr(), Ptr.to(P.reg), off, x0, y0])
        c.pre = c.post; c.pc = list(c.rpc); ex.writes.clear()
        ret = c.run(name + "::TotalFlux()", [a.ptr()]); X = TOTALS[name](ex, [P.at(off + k).v for k in range(N)])
        c.ensures("analytic total of %s" % name, Or(*[ret.v == k * X for k in (PIS if name in ("Exponential", "Gaussian", "Sersic") else [1])])); c.frame([])
        out.append(c)
    return out


def tr(v): return v if z3.is_bool(v) else v != 0


def constructed(prog):
    """only the sky functions are backgrounds"""
    out = []
    for name, _, roles in FUNCS:
        c = Ctx(prog, name + "::" + name); a = c.obj(name, "this")
        c.run("%s::%s()" % (name, name), [a.ptr()])
        c.ensures("%s is %sa background" % (name, "" if name in BACKGROUND else "not "), tr(a.get("isBackground", c.post)) if name in BACKGROUND else Not(tr(a.get("isBackground", c.post))))
        c.pre = c.post; c.pc = list(c.rpc); c.ex.writes.clear()
        r = c.run((name if prog.find(name + "::IsBackground") else "FunctionObject") + "::IsBackground()", [a.ptr()])
        c.ensures("IsBackground of %s" % name, tr(r) if name in BACKGROUND else Not(tr(r))); c.frame([])
        out.append(c)
    d = Ctx(prog, "FunctionObject::IsBackground"); o = d.obj("FunctionObject", "this"); r = d.run("FunctionObject::IsBackground()", [o.ptr()])
    d.ensures("reports the flag", tr(r) == tr(o.get("isBackground"))); d.frame([]); out.append(d)
    return out


CONTRACTS = [total, totals, constructed]
