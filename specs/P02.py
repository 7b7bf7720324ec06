"""P02: masking."""
from spec import *
from mo import *

UNITS = MO_UNITS
HARNESS = dict(src="P02.cpp")
FUNCTIONS = ["ModelObject::AddMaskVector", "ModelObject::ApplyMask", "ModelObject::VetDataVector", "ModelObject::CheckWeightVector", "ModelObject::FinalSetupForFitting", "ModelObject::ComputeDeviates", "ModelObject::UpdateWeightVector"]
LEVEL_NOTE = "mask normalisation, valid-pixel count, masking of weights and vetting proved pixel by pixel for every image, including non-finite values; masked pixels contribute a zero term to every deviate"
ASSUMPTIONS = ["AddMaskVector / AddErrorVector are called with the data image's dimensions (asserted in the code)", "memory allocation succeeds or is reported", "CreateModelImage is used through the contract proved in P01 (it writes only the model image)"]


def image(c, full=False):
    m = MO(c, functions=False)
    return m


def mask_pix(prog):
    out = []
    for name, typ, good in (("zero is good", 10, lambda v: tand(v.ok, v.v <= 0)), ("zero is bad", 20, lambda v: tand(v.ok, v.v >= 1)), ("unknown convention", None, None)):
        c = Ctx(prog, "ModelObject::AddMaskVector (%s)" % name)
        m = image(c); o = m.o
        mask = c.array("mask", count=m.DV, finite=None)
        if typ is None: t = c.int("inputType"); c.requires(t != 10, t != 20)
        else: t = IntVal(typ)
        ret = c.run("ModelObject::AddMaskVector", [o.ptr(), m.DV, m.DC, m.DR, Ptr.to(mask.reg), t])
        p = lambda n: o.get(n, c.post)
        if typ is None:
            c.ensures("unknown convention is refused", tand(ret != 0, p("maskExists") == 0))
            c.frame(c.fields(o, "maskVector", "maskExists", "nValidDataVals"))
        else:
            k, hk = c.index("k", 0, m.DV)
            v = mask.at(k); n = mask.new(k)
            c.ensures("good pixels become exactly 1", Implies(good(v), tand(n.ok, n.v == 1)), hk)
            c.ensures("bad and non-finite pixels become exactly 0", Implies(Not(good(v)), tand(n.ok, n.v == 0)), hk)
            c.ensures("the number of valid pixels is the number of good ones", p("nValidDataVals") == c.ex.SUM(lambda q: If(good(mask.at(q)), IntVal(1), IntVal(0)), m.DV))
            c.ensures("success and mask present", tand(ret == 0, p("maskExists") != 0))
            c.ensures("the stored mask is the caller's array", BoolVal(same_target(p("maskVector").alts[-1][1], (mask.reg, (), Poly.const(0)))))
            c.frame([mask.reg] + c.fields(o, "maskVector", "maskExists", "nValidDataVals"))
        out.append(c)
    return out


def vectors(c, m):
    o = m.o
    mask = o.array("maskVector", count=m.DV, finite=True); w = o.array("weightVector", count=m.DV, finite=False); d = o.array("dataVector", count=m.DV, finite=False)
    return mask, w, d


def apply_mask(prog):
    c = Ctx(prog, "ModelObject::ApplyMask")
    m = image(c); o = m.o; g = m.g
    mask, w, d = vectors(c, m)
    c.run("ModelObject::ApplyMask", [o.ptr()])
    k, hk = c.index("k", 0, m.DV)
    both = tand(g("weightValsSet") != 0, g("maskExists") != 0)
    mk, wk, wn = mask.at(k), w.at(k), w.new(k)
    c.ensures("a masked pixel gets weight zero, whatever its weight was", Implies(tand(both, mk.v == 0), tand(wn.ok, wn.v == 0)), hk)
    c.ensures("an unmasked pixel keeps its weight", Implies(tand(both, mk.v == 1), tand(wn.ok == wk.ok, Implies(wk.ok, wn.v == wk.v))), hk)
    c.ensures("nothing changes without a mask or without weights", Implies(Not(both), tand(wn.ok == wk.ok, wn.v == wk.v)), hk)
    c.frame([w.reg])
    return c


def vetting(prog):
    out = []
    c = Ctx(prog, "ModelObject::VetDataVector")
    m = image(c); o = m.o; mask, w, d = vectors(c, m)
    ret = c.run("ModelObject::VetDataVector", [o.ptr()])
    k, hk = c.index("k", 0, m.DV)
    r = ret if z3.is_bool(ret) else ret != 0
    c.ensures("finite data values are untouched", Implies(d.at(k).ok, tand(d.new(k).ok, d.new(k).v == d.at(k).v)), hk)
    c.ensures("masked non-finite data values become zero", Implies(tand(Not(d.at(k).ok), mask.at(k).v <= 0), tand(d.new(k).ok, d.new(k).v == 0)), hk)
    c.ensures("accepted only if every unmasked value is finite", Implies(tand(r, mask.at(k).v > 0), d.at(k).ok), hk)
    c.ensures("rejected only if some unmasked value is not finite", Implies(Not(r), c.ex.EX(lambda q: tand(mask.at(q).v > 0, Not(d.at(q).ok)), m.DV)))
    c.frame([d.reg])
    out.append(c)
    c = Ctx(prog, "ModelObject::CheckWeightVector")
    m = image(c); o = m.o; mask, w, d = vectors(c, m)
    ret = c.run("ModelObject::CheckWeightVector", [o.ptr()])
    r = ret if z3.is_bool(ret) else ret != 0
    k, hk = c.index("k", 0, m.DV)
    me = m.g("maskExists") != 0
    bad = lambda q: tand(mask.at(q).v > 0, tor(Not(w.at(q).ok), w.at(q).v < 0))
    c.ensures("accepted only if every unmasked weight is finite and not negative", Implies(tand(r, me), Not(bad(k))), hk)
    c.ensures("rejected only because of an unmasked weight that is not finite or negative", Implies(tand(Not(r), me), c.ex.EX(bad, m.DV)))
    c.frame([])
    out.append(c)
    return out


def final_setup(prog):
    c = Ctx(prog, "ModelObject::FinalSetupForFitting")
    m = image(c); o = m.o; g = m.g
    mask, w, d = vectors(c, m)
    ext = o.array("extraCashTermsVector", count=m.DV, finite=True)
    o.on_assign("maskVector", lambda reg, st: c.shape(reg, count=m.DV, finite=True))
    o.on_assign("weightVector", lambda reg, st: c.shape(reg, count=m.DV))
    me, ws, dset, extn = [g(x) != 0 for x in ("maskExists", "weightValsSet", "dataValsSet", "externalErrorVectorSupplied")]
    cash, derr = g("useCashStatistic") != 0, g("dataErrors") != 0
    gl = []
    gw = c.ex.new_region("generated weights", ety=F64, mod=c.prog.mods[0]); gw.bytes = None; c.shape(gw, count=m.DV); gw.boolean = False
    G = Arr(c, gw)
    def gen(ex, args, st, pc, ins):
        gl.append(dict(st=st.copy(), pc=list(pc)))
        st.scal[(o.reg, o.off("weightVector")[0])] = Ptr.to(gw); st.scal[(o.reg, o.off("weightValsSet")[0])] = IntVal(1)
        rc = Int("generate_status"); return rc
    c.ex.prefix_contracts.append((r"ModelObject::GenerateErrorVector\(", gen))
    xl = logcalls(c, "ModelObject::GenerateExtraCashTerms")
    c.requires(dset, m.g("nValidDataVals") >= 0)
    one = lambda b: If(b, IntVal(1), IntVal(0))
    N0 = c.ex.SUM(lambda k: one(tor(Not(me), mask.at(k).v > 0)), m.DV)      # without a mask this is the number of pixels
    c.requires(m.g("nValidDataVals") == N0)
    ret = c.run("ModelObject::FinalSetupForFitting", [o.ptr()])
    p = lambda n: o.get(n, c.post)
    k, hk = c.index("k", 0, m.DV)
    self_w = tand(Not(cash), derr, Not(extn))      # weights generated from the data
    hasw = tor(ws, self_w)
    def fin(field, k):
        out = []
        for cnd, t in p(field).alts:
            if t is None: continue
            out.append((cnd, Arr(c, t[0], t[1]).new(k)))
        return out
    unm0 = tor(Not(me), mask.at(k).v > 0)
    W0 = lambda k: (If(self_w, G.at(k).v, w.at(k).v), If(self_w, G.at(k).ok, w.at(k).ok))
    w0, w0ok = W0(k)
    valid = lambda k: tand(tor(Not(me), mask.at(k).v > 0), d.at(k).ok, tor(Not(extn), w.at(k).ok))
    alloc_ok = [p("maskExists") != 0] + ([Int("generate_status") >= 0] if gl else [])
    ok = alloc_ok + [tor(me, p("maskVectorAllocated") != 0), hasw]
    for cnd, v in fin("maskVector", k):
        c.ensures("a pixel stays in the fit exactly if it was unmasked and its data value (and supplied error value) is finite", Implies(tand(cnd, ret >= 0), (v.v > 0) == valid(k)), hk + ok)
    for cnd, v in fin("weightVector", k):
        c.ensures("masked pixels have weight zero", Implies(tand(cnd, ret >= 0, Not(valid(k)), tor(Not(me), mask.at(k).v == 0, mask.at(k).v == 1)), tand(v.ok, v.v == 0)), hk + ok)
        c.ensures("unmasked pixels keep their weight", Implies(tand(cnd, ret >= 0, valid(k), tor(Not(me), mask.at(k).v == 1)), tand(v.ok, w0ok, v.v == w0)), hk + ok)
        c.ensures("on success every unmasked weight is finite and not negative", Implies(tand(cnd, ret >= 0, valid(k)), tand(v.ok, v.v >= 0)), hk + ok)
    dn = d.new(k)
    c.ensures("on success every data value is finite", Implies(ret >= 0, dn.ok), hk + ok)
    c.ensures("finite data values are untouched", Implies(tand(ret >= 0, d.at(k).ok), dn.v == d.at(k).v), hk + ok)
    NV = c.ex.SUM(lambda k: one(valid(k)), m.DV)
    c.ensures("the number of valid pixels is the number of unmasked ones", Implies(ret >= 0, p("nValidDataVals") == NV), ok + c.sum_combos(N0 + p("nValidDataVals"), NV))
    badw = lambda q: tand(valid(q), tor(Not(W0(q)[1]), W0(q)[0] < 0))
    c.ensures("set-up fails only for an unusable weight at an unmasked pixel or when no pixel is left", Implies(ret < 0, tor(c.ex.EX(badw, m.DV), p("nValidDataVals") < 1)), ok)
    c.ensures("success needs at least one valid pixel", Implies(ret >= 0, p("nValidDataVals") >= 1), ok)
    c.ensures("weights are generated from the data exactly when chi-squared with data errors has no external error map", BoolVal(len(gl) == 1))
    for L in xl: c.ensures("the Poisson-MLR constants are generated only for Poisson-MLR", tand(cash, g("poissonMLR") != 0), L["pc"][len(c.pc):])
    c.ensures("the Poisson-MLR constants are generated in one place", BoolVal(len(xl) == 1))
    for L in gl: c.ensures("weights are generated only then", self_w, L["pc"][len(c.pc):])
    return c


CONTRACTS = [mask_pix, apply_mask, vetting, final_setup]
