"""P04: pixel weights."""
from spec import *
from mo import *

UNITS = MO_UNITS
HARNESS = dict(src="P04.cpp")
FUNCTIONS = ["ModelObject::AddErrorVector", "ModelObject::GenerateErrorVector", "ModelObject::UpdateWeightVector", "ModelObject::AddImageCharacteristics", "ModelObject::UseModelErrors", "ModelObject::FinalSetupForFitting"]
LEVEL_NOTE = "per-pixel weight formulas proved for every image, gain, read noise, exposure number, sky level, error-map type and PSF padding"
ASSUMPTIONS = ["image characteristics satisfy the assertions of AddImageCharacteristics (gain, exposure time > 0, read noise and sky >= 0, at least one combined image)", "arithmetic is real (no rounding)", "memory allocation succeeds or is reported"]


def setting(prog, label):
    c = Ctx(prog, label)
    m = MO(c, functions=False); o = m.o; g = m.g
    m.eg, m.rn2, m.sky, m.nc = g("effectiveGain"), g("readNoise_adu_squared"), g("originalSky"), g("nCombined")
    c.requires(m.eg.ok, m.eg.v > 0, m.rn2.ok, m.rn2.v >= 0, m.sky.ok, m.sky.v >= 0, m.nc >= 1)
    m.N2 = lambda flux: flux / m.eg.v + ToReal(m.nc) * m.rn2.v
    return c, m


def characteristics(prog):
    c = Ctx(prog, "ModelObject::AddImageCharacteristics")
    o = c.obj("ModelObject", "mo")
    G, R, T, S = [c.real(x) for x in ("gain", "readNoise", "expTime", "sky")]; n = c.int("nCombined")
    c.requires(G.v > 0, R.v >= 0, T.v > 0, n >= 1, S.v >= 0)
    c.run("ModelObject::AddImageCharacteristics", [o.ptr(), G, R, T, n, S])
    p = lambda f: o.get(f, c.post)
    eg = G.v * T.v * ToReal(n)
    c.ensures("effective gain is gain * exposure time * number of combined images", tand(p("effectiveGain").ok, p("effectiveGain").v == eg))
    c.ensures("read noise in image units, squared", tand(p("readNoise_adu_squared").ok, p("readNoise_adu_squared").v * eg * eg == R.v * R.v))
    c.ensures("sky and number of combined images stored", tand(p("originalSky").ok, p("originalSky").v == S.v, p("nCombined") == n))
    c.frame(c.fields(o, "gain", "readNoise", "exposureTime", "nCombined", "originalSky", "effectiveGain", "readNoise_adu_squared"))
    return c


def error_map(prog):
    out = []
    for name, t in (("sigmas", 100), ("variances", 110), ("weights", 120), ("unknown type", None)):
        c, m = setting(prog, "ModelObject::AddErrorVector (%s)" % name); o = m.o
        o.array("weightVector", count=m.DV)
        e = c.array("errors", count=m.DV, finite=None)
        ty = c.int("inputType") if t is None else IntVal(t)
        if t is None: c.requires(And(ty != 100, ty != 110, ty != 120))
        c.run("ModelObject::AddErrorVector", [o.ptr(), m.DV, m.DC, m.DR, Ptr.to(e.reg), ty])
        p = lambda f: o.get(f, c.post)
        k, hk = c.index("k", 0, m.DV)
        a, b = e.at(k), e.new(k)
        c.ensures("the supplied array becomes the weight array", BoolVal(same_target(p("weightVector").alts[-1][1], (e.reg, (), Poly.const(0)))))
        c.ensures("weights count as user-supplied", tand(p("externalErrorVectorSupplied") != 0, (p("weightValsSet") == 0) if t is None else p("weightValsSet") != 0, p("weightVectorAllocated") == 0))
        if t == 100: c.ensures("weight is 1/sigma", Implies(tand(a.ok, a.v != 0), tand(b.ok, b.v * a.v == 1)), hk); c.ensures("a zero sigma does not become a usable weight", Implies(tand(a.ok, a.v == 0), Not(b.ok)), hk)
        if t == 110: c.ensures("weight is 1/sqrt(variance)", Implies(tand(a.ok, a.v > 0), tand(b.ok, b.v > 0, b.v * b.v * a.v == 1)), hk); c.ensures("a zero or negative variance does not become a usable weight", Implies(tand(a.ok, a.v <= 0), Not(b.ok)), hk)
        if t == 120: c.ensures("weight is the square root of the supplied weight", Implies(tand(a.ok, a.v >= 0), tand(b.ok, b.v >= 0, b.v * b.v == a.v)), hk); c.ensures("a negative weight does not become a usable weight", Implies(tand(a.ok, a.v < 0), Not(b.ok)), hk)
        if t is None: c.ensures("an unknown type changes no value", tand(b.ok == a.ok, b.v == a.v), hk)
        c.frame([e.reg] + c.fields(o, "weightVector", "weightVectorAllocated", "weightValsSet", "externalErrorVectorSupplied"))
        out.append(c)
    return out


def from_data(prog):
    c, m = setting(prog, "ModelObject::GenerateErrorVector"); o = m.o
    d = o.array("dataVector", count=m.DV, finite=None)
    o.array("weightVector", count=m.DV); o.on_assign("weightVector", lambda reg, st: c.shape(reg, count=m.DV))
    r = c.run("ModelObject::GenerateErrorVector", [o.ptr()])
    k, hk = c.index("k", 0, m.DV)
    p = lambda f: o.get(f, c.post)
    flux = d.at(k).v + m.sky.v
    N2 = m.N2(If(flux < 0, RealVal(0), flux))
    for cnd, t in p("weightVector").alts:
        if t is None: continue
        w = Arr(c, t[0], t[1]).new(k)
        c.ensures("weight is 1/sqrt(max(data+sky,0)/gain + ncomb*readnoise^2)", Implies(tand(cnd, r >= 0, d.at(k).ok, N2 > 0), tand(w.ok, w.v > 0, w.v * w.v * N2 == 1)), hk)
        c.ensures("a pixel without any noise gets no usable weight", Implies(tand(cnd, r >= 0, d.at(k).ok, N2 == 0), Not(w.ok)), hk)
        c.ensures("success means the weights exist", Implies(tand(cnd, r >= 0), p("weightValsSet") != 0))
    c.ensures("every failure is an allocation failure", Implies(r < 0, o.get("weightVectorAllocated") == 0))
    c.frame([t[0] for cnd, t in o.get("weightVector").alts if t is not None] + c.fields(o, "weightVector", "weightVectorAllocated", "weightValsSet"))
    return c


def from_model(prog):
    out = []
    for conv in (False, True):
        c, m = setting(prog, "ModelObject::UpdateWeightVector (%s)" % ("with PSF" if conv else "no PSF")); o = m.o
        c.requires(m.conv if conv else Not(m.conv))
        mask = o.array("maskVector", count=m.DV, finite=True); w = o.array("weightVector", count=m.DV)
        c.run("ModelObject::UpdateWeightVector", [o.ptr()])
        i, hi = c.index("i", 0, m.DR); j, hj = c.index("j", 0, m.DC)
        k = norm_int(i * m.DC + j)
        N2 = m.N2(m.model.at(norm_int(m.PR + i), norm_int(m.PC + j)).v + m.sky.v)
        good = tor(m.g("maskExists") == 0, mask.at(k).v > 0)
        a, b = w.at(k), w.new(k)
        c.ensures("unmasked weight is 1/sqrt((model+sky)/gain + ncomb*readnoise^2) of the same pixel", Implies(tand(good, N2 > 0), tand(b.ok, b.v > 0, b.v * b.v * N2 == 1)), hi + hj)
        c.ensures("masked pixels keep their weight", Implies(Not(good), tand(b.ok == a.ok, b.v == a.v)), hi + hj)
        c.frame([w.reg])
        out.append(c)
    return out


def use_model_errors(prog):
    c, m = setting(prog, "ModelObject::UseModelErrors"); o = m.o
    o.array("weightVector", count=m.DV); o.on_assign("weightVector", lambda reg, st: c.shape(reg, count=m.DV))
    r = c.run("ModelObject::UseModelErrors", [o.ptr()])
    k, hk = c.index("k", 0, m.DV); p = lambda f: o.get(f, c.post)
    c.ensures("model-based errors are selected, data-based ones deselected", tand(p("modelErrors") != 0, p("dataErrors") == 0))
    for cnd, t in p("weightVector").alts:
        if t is None: continue
        w = Arr(c, t[0], t[1]).new(k)
        c.ensures("weights start as 1", Implies(tand(cnd, r >= 0), tand(w.ok, w.v == 1, p("weightValsSet") != 0)), hk)
    c.frame([t[0] for cnd, t in o.get("weightVector").alts if t is not None] + c.fields(o, "weightVector", "weightVectorAllocated", "weightValsSet", "modelErrors", "dataErrors"))
    return c


def choice(prog):
    """which noise source is used when the fit is prepared"""
    c, m = setting(prog, "ModelObject::FinalSetupForFitting (choice of noise source)"); o = m.o; g = m.g
    mask = o.array("maskVector", count=m.DV, finite=True); w = o.array("weightVector", count=m.DV, finite=True); d = o.array("dataVector", count=m.DV, finite=True)
    o.array("extraCashTermsVector", count=m.DV, finite=True); o.on_assign("maskVector", lambda reg, st: c.shape(reg, count=m.DV, finite=True))
    for n in ("ApplyMask", ): pass
    gl = []
    def gen(ex, args, st, pc, ins):
        gl.append(list(pc)); return IntVal(0)
    c.ex.prefix_contracts.append((r"ModelObject::GenerateErrorVector\(", gen))
    for n in ("ApplyMask", "GenerateExtraCashTerms"): logcalls(c, "ModelObject::" + n)
    logcalls(c, "ModelObject::CheckWeightVector", ret=TRUE); logcalls(c, "ModelObject::VetDataVector", ret=TRUE)
    c.run("ModelObject::FinalSetupForFitting", [o.ptr()])
    want = tand(g("useCashStatistic") == 0, g("dataErrors") != 0, g("externalErrorVectorSupplied") == 0)
    c.ensures("weights are generated from the data exactly when a chi-squared fit has neither an error map nor model-based errors", BoolVal(len(gl) == 1))
    for pc in gl: c.ensures("... only then", want, pc[len(c.pc):])
    return c


CONTRACTS = [characteristics, error_map, from_data, from_model, use_model_errors, choice]
