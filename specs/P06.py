"""P06: oversampled regions (core/oversampled_region.cpp, core/downsample.cpp)."""
from spec import *

UNITS = ["core/downsample.cpp", "core/oversampled_region.cpp", "function_objects/function_object.cpp", "core/convolver.cpp", "function_objects/psf_interpolators.cpp"]
HARNESS = dict(src="P06.cpp")
FUNCTIONS = ["DownsampleAndReplace", "OversampledRegion::ComputeRegionAndDownsample", "OversampledRegion::SetupModelImage", "OversampledRegion::AddPSFVector", "OversampledRegion::OversampledRegion"]
LEVEL_NOTE = "proved for every region position and shape, scale and padding; image components are abstract (their contract is the subject of P08), convolution by the contract proved in P05"
ASSUMPTIONS = ["FunctionObject::GetValue is a function of the object's set-up state and (x,y) and has no side effect (P08 proves it for the image functions)",
               "components return finite values", "ConvolveImage is used through the contract proved in P05", "memory allocation succeeds"]


def downsample(prog):
    c = Ctx(prog, "DownsampleAndReplace")
    OC, OR, PC, PR, MC, MR, QC, QR, sx, sy, s = [c.int(n) for n in "OC OR PC PR MC MR QC QR sx sy s".split()]
    nc, nr = c.int("nc"), c.int("nr")
    c.requires(s >= 1, nc >= 1, nr >= 1, PC >= 0, PR >= 0, QC >= 0, QR >= 0, sx >= 1, sy >= 1, MC >= 1, MR >= 1,
               OC == nc * s + 2 * PC, OR == nr * s + 2 * PR, sx - 1 + nc <= MC - 2 * QC, sy - 1 + nr <= MR - 2 * QR)
    over = c.array("over", stride=OC, rows=OR); main = c.array("main", stride=MC, rows=MR)
    dbg = c.int("dbg")
    c.run("DownsampleAndReplace", [Ptr.to(over.reg), OC, OR, PC, PR, Ptr.to(main.reg), MC, MR, QC, QR, sx, sy, s, dbg])
    r, hr = c.index("r", 0, MR); q, hq = c.index("q", 0, MC)
    r0, q0 = sy - 1 + QR, sx - 1 + QC
    inside = And(r >= r0, r < r0 + nr, q >= q0, q < q0 + nc)
    a, b = r - r0, q - q0
    S = c.ex.SUM(lambda k: c.ex.SUM(lambda l: over.at(norm_int((r - r0) * s + PR + k), norm_int((q - q0) * s + PC + l)).v, s), s)
    c.ensures("each region pixel is the mean of its own scale x scale block of oversampled pixels", Implies(inside, main.new(r, q).v * ToReal(s) * ToReal(s) == S), hr + hq)
    c.ensures("every pixel outside the region is untouched", Implies(Not(inside), feq(main.new(r, q), main.at(r, q))), hr + hq)
    c.frame([main.reg])
    return c





def down_contract(c, log):
    """contract of DownsampleAndReplace at its call site: its precondition becomes obligations, its arguments are logged"""
    def h(ex, args, st, pc, ins):
        over, OC, OR, PC, PR, main, MC, MR, QC, QR, sx, sy, s, dbg = args
        log.append(dict(args=args, st=st.copy(), pc=list(pc)))
        return None
    c.ex.prefix_contracts.append((r"DownsampleAndReplace\(", h))


def region_state(c):
    """an OversampledRegion as SetupModelImage / AddPSFVector leave it"""
    r = c.obj("OversampledRegion", "reg"); g = r.get
    F = ("oversamplingScale", "nPSFColumns", "nPSFRows", "nRegionColumns", "nRegionRows", "x1_region", "y1_region", "nModelColumns", "nModelRows", "nModelVals", "nMainImageColumns", "nMainImageRows", "nMainPSFColumns", "nMainPSFRows")
    return r, {n: g(n) for n in F}


def compute(prog):
    from fobj import FObj, Conv
    c = Ctx(prog, "OversampledRegion::ComputeRegionAndDownsample")
    r, d = region_state(c); g = r.get
    s, P, Q, MC, MR = d["oversamplingScale"], d["nPSFColumns"], d["nPSFRows"], d["nModelColumns"], d["nModelRows"]
    sub, ox, oy = g("subpixFrac"), g("startX_offset"), g("startY_offset")
    c.requires(s >= 1, P >= 0, Q >= 0, MC >= 1, MR >= 1, d["nModelVals"] == MC * MR, MC == d["nRegionColumns"] + 2 * P, MR == d["nRegionRows"] + 2 * Q,
               sub.ok, ox.ok, oy.ok, sub.v * ToReal(s) == 1, ox.v == sub.v / 2 - RealVal("1/2"), oy.v == sub.v / 2 - RealVal("1/2"))
    mv = r.array("modelVector", stride=MC, rows=MR, finite=True)
    fam_vec = c.ex.new_region("fvec", ety=None)
    import calls
    vreg = calls.data_region(c.ex, "FunctionObject*", "functions[]"); vreg.boolean = False
    holder = c.ex.new_region("funcVect", ety=None, count=1, mod=c.prog.mods[0]); holder.single = True
    nf = c.int("nFunctions", 1)
    c.ex.init[(holder, ("vec", 0))] = calls.VecVal(nf, vreg)
    c.ex.cur_mod = c.prog.mods[-1]
    fam = c.ex.pointee_region(vreg, 0, "functions[]", nkeys=1)
    fo = FObj(c, fam); cv = Conv(c); log = []
    down_contract(c, log)
    main = c.array("mainImage", count=None)
    c.run("OversampledRegion::ComputeRegionAndDownsample", [r.ptr(), Ptr.to(main.reg), Ptr.to(holder), nf])
    i, hi = c.index("i", 0, MR); j, hj = c.index("j", 0, MC)
    x = ToReal(d["x1_region"]) + (ToReal(j - P) + RealVal("1/2")) * sub.v - RealVal("1/2")
    y = ToReal(d["y1_region"]) + (ToReal(i - Q) + RealVal("1/2")) * sub.v - RealVal("1/2")
    ex = c.ex
    x_ = r.get("x1_region")
    base = ex.SUM(lambda n: If(fo.isps(n), RealVal(0), fo.value(n, x, y, c.pre)), nf)
    pid = fo.ptr_id(g("psfInterpolator"))
    pts = ex.SUM(lambda n: If(fo.isps(n), fo.value(n, x, y, c.pre, interp=pid, scale=s), RealVal(0)), nf)
    conv = g("doConvolution") != 0
    c.ensures("DownsampleAndReplace is called exactly once", BoolVal(len(log) == 1))
    if len(log) == 1:
        L = log[0]; a = L["args"]
        img = Arr(c, mv.reg)
        if cv.log:
            e = cv.log[0]
            c.ensures("the image given to the convolver is the sum of the non-point-source components at the sub-pixel coordinates",
                      Implies(conv, img.at(i, j, state=e["before"]).v == base), hi + hj)
            c.ensures("convolution is applied at most once, to the oversampled image", BoolVal(len(cv.log) == 1 and e["reg"] is mv.reg))
            c.ensures("with convolution: convolved image plus point sources", Implies(conv, img.at(i, j, state=L["st"]).v == cv.at(0, i, j) + pts), hi + hj)
        else: c.ensures("convolution is applied when a PSF was given", Not(conv))
        c.ensures("without convolution: sum of all components, point sources with this region's interpolator and scale", Implies(Not(conv), img.at(i, j, state=L["st"]).v == base + pts), hi + hj)
        names = ("nModelColumns", "nModelRows", "nPSFColumns", "nPSFRows", None, "nMainImageColumns", "nMainImageRows", "nMainPSFColumns", "nMainPSFRows", "x1_region", "y1_region", "oversamplingScale")
        for k, nm in enumerate(names):
            if nm: c.ensures("DownsampleAndReplace receives %s" % nm, a[k + 1] == d[nm])
        c.ensures("DownsampleAndReplace reads the oversampled image and writes the main image", BoolVal(same_target(a[0].alts[-1][1], (mv.reg, (), Poly.const(0))) and same_target(a[5].alts[-1][1], (main.reg, (), Poly.const(0)))))
        # sub-pixels tile the main pixel: pixel q (0<=q<s) of main column cc is centred at cc + (q+1/2)/s - 1/2
    q, cc = Int("q"), Int("cc")
    c.lemma("sub-pixel columns tile the main pixel uniformly", [s >= 1, sub.v * ToReal(s) == 1, q >= 0, q < s],
            ToReal(d["x1_region"]) + (ToReal(cc * s + q) + RealVal("1/2")) * sub.v - RealVal("1/2") == ToReal(d["x1_region"] + cc) + (ToReal(q) + RealVal("1/2")) * sub.v - RealVal("1/2"))
    c.frame([mv.reg] + [v[0] for v in fo.g.values()])
    return c





def setup_model_image(prog):
    c = Ctx(prog, "OversampledRegion::SetupModelImage")
    r = c.obj("OversampledRegion", "reg"); g = r.get
    x1, y1, nbc, nbr, ncm, nrm, ncp, nrp, s = [c.int(n) for n in "x1 y1 nbc nbr ncm nrm ncp nrp s".split()]
    P, Q = g("nPSFColumns"), g("nPSFRows")
    conv = g("doConvolution") != 0
    c.requires(nbc >= 1, nbr >= 1, s >= 1, ncm >= 1, nrm >= 1, ncp >= 0, nrp >= 0, P >= 0, Q >= 0, Implies(Not(conv), And(P == 0, Q == 0)))
    dl = logcalls(c, "Convolver::DoFullSetup"); il = logcalls(c, "Convolver::SetupImage")
    noeffect(c, "PrintToString")
    ret = c.run("OversampledRegion::SetupModelImage", [r.ptr(), x1, y1, nbc, nbr, ncm, nrm, ncp, nrp, s])
    p = lambda n: r.get(n, c.post)
    ok = [ret == 0]
    for nm, v in (("x1_region", x1), ("y1_region", y1), ("nMainImageColumns", ncm), ("nMainImageRows", nrm), ("nMainPSFColumns", ncp), ("nMainPSFRows", nrp), ("oversamplingScale", s),
                  ("nPSFColumns", P), ("nPSFRows", Q)):
        c.ensures("%s stored" % nm, p(nm) == v, ok)
    c.ensures("oversampled region is scale times the base region", tand(p("nRegionColumns") == nbc * s, p("nRegionRows") == nbr * s), ok)
    c.ensures("model image adds the PSF padding on both sides", tand(p("nModelColumns") == nbc * s + 2 * P, p("nModelRows") == nbr * s + 2 * Q, p("nModelVals") == (nbc * s + 2 * P) * (nbr * s + 2 * Q)), ok)
    c.ensures("sub-pixel size is 1/scale", p("subpixFrac").v * ToReal(s) == 1, ok)
    c.ensures("first sub-pixel is centred half a sub-pixel inside the main pixel", tand(p("startX_offset").v == p("subpixFrac").v / 2 - RealVal("1/2"), p("startY_offset").v == p("subpixFrac").v / 2 - RealVal("1/2")), ok)
    c.ensures("model image is allocated large enough", allocated(p("modelVector"), norm_int(8 * (nbc * s + 2 * P) * (nbr * s + 2 * Q))), ok)
    for L in il: c.ensures("convolver is given the padded dimensions", tand(L["args"][1] == nbc * s + 2 * P, L["args"][2] == nbr * s + 2 * Q))
    c.ensures("convolver is set up exactly when a PSF was given", BoolVal(len(il) == 1 and len(dl) == 1))
    c.frame([(r.reg, r.off(n)[0]) for n in ("x1_region", "y1_region", "regionLabel", "nMainImageColumns", "nMainImageRows", "nMainPSFColumns", "nMainPSFRows", "oversamplingScale", "subpixFrac", "startX_offset", "startY_offset",
             "nRegionColumns", "nRegionRows", "nRegionVals", "nModelColumns", "nModelRows", "nModelVals", "modelVector", "modelVectorAllocated", "setupComplete")])
    return c


def ctor_and_psf(prog):
    out = []
    c = Ctx(prog, "OversampledRegion::OversampledRegion")
    r = c.obj("OversampledRegion", "reg")
    c.run("OversampledRegion::OversampledRegion", [r.ptr()])
    p = lambda n: r.get(n, c.post)
    c.ensures("a new region has no PSF, no padding and no convolution", tand(p("nPSFColumns") == 0, p("nPSFRows") == 0, p("doConvolution") == 0, p("setupComplete") == 0))
    out.append(c)
    c = Ctx(prog, "OversampledRegion::AddPSFVector")
    r = c.obj("OversampledRegion", "reg"); g = r.get
    nc, nr = c.int("nc", 1), c.int("nr", 1); nrm = Int("normalize"); c.fact(And(nrm >= 0, nrm <= 1))
    psf = c.array("psf", stride=nc, rows=nr)
    c.requires(g("setupComplete") == 0)
    logcalls(c, "Convolver::Convolver"); logcalls(c, "Convolver::SetMaxThreads")
    sl = logcalls(c, "Convolver::SetupPSF"); bl = logcalls(c, "PsfInterpolator_bicubic::PsfInterpolator_bicubic")
    c.run("OversampledRegion::AddPSFVector", [r.ptr(), Ptr.to(psf.reg), nc, nr, nrm != 0])
    p = lambda n: r.get(n, c.post)
    c.ensures("PSF dimensions stored as padding and convolution switched on", tand(p("nPSFColumns") == nc, p("nPSFRows") == nr, p("doConvolution") != 0))
    c.ensures("convolver and interpolator are each created once", BoolVal(len(sl) == 1 and len(bl) == 1))
    for e in sl: c.ensures("PSF image and its dimensions passed on in order", tand(BoolVal(same_target(e["args"][1].alts[-1][1], (psf.reg, (), Poly.const(0)))), e["args"][2] == nc, e["args"][3] == nr))
    i, hi = c.index("i", 0, nr); j, hj = c.index("j", 0, nc)
    S = c.ex.SUM(lambda k: psf.at(c.ex.idiv(k, nc, [k >= 0]), c.ex.imod(k, nc, [k >= 0])).v, nc * nr)
    for e in bl:
        c.ensures("PSF dimensions passed to the interpolator in order", tand(e["args"][2] == nc, e["args"][3] == nr))
        t = e["args"][1].alts[-1][1]
        got = Arr(c, t[0], t[1]).at(*((i, j) if t[0] is psf.reg else (i * nc + j,)), state=e["st"]).v
        c.ensures("interpolator gets the PSF (up to normalisation)", Or(got == psf.at(i, j).v, And(nrm != 0, got * S == psf.at(i, j).v)), hi + hj + [S != 0])
        c.ensures("interpolator gets the normalised PSF when normalisation is requested", Implies(nrm != 0, got * S == psf.at(i, j).v), hi + hj + [S != 0])
    for e in sl: c.ensures("normalisation request passed on", (e["args"][4] == (nrm != 0)) if z3.is_bool(e["args"][4]) else ((e["args"][4] != 0) == (nrm != 0)))
    out.append(c)
    return out


import omp
CONTRACTS = [downsample, compute, setup_model_image, ctor_and_psf, omp.contract("core/oversampled_region.cpp", ["OversampledRegion::ComputeRegionAndDownsample"])]
