"""P01: the model image."""
from spec import *
from mo import *

UNITS = MO_UNITS
HARNESS = dict(src="P01.cpp")
FUNCTIONS = ["ModelObject::CreateModelImage", "ModelObject::GetSingleFunctionImage", "ModelObject::SetupModelImage", "ModelObject::DefineFunctionSets", "ModelObject::AddFunction", "ModelObject::AddPSFVector", "NormalizePSF",
             "ModelObject::AddOversampledPsfInfo", "ModelObject::ModelObject"]
LEVEL_NOTE = "per-pixel sums, coordinates, parameter slices, set centres, order of convolution / point sources / oversampled regions and OpenMP data ownership proved for every model, image and PSF size; components are abstract (P08), convolution and regions by the contracts proved in P05 and P06"
ASSUMPTIONS = ["FunctionObject::GetValue is a function of the object's set-up state and (x,y) and has no side effect (P08 proves it for the image functions)", "components return finite values",
               "ConvolveImage and ComputeRegionAndDownsample are used through the contracts proved in P05 and P06", "memory allocation succeeds", "the OpenMP work-sharing loop executes each iteration exactly once (OpenMP semantics); data ownership is checked on the AST",
               "the function-object vector holds distinct objects"]



def image_spec(m, st):
    """value of every component at every model pixel: column j is x = j-PC+1, row i is y = i-PR+1"""
    return (lambda n, i, j, **o: m.fo.value(n, ToReal(norm_int(j - m.PC + 1)), ToReal(norm_int(i - m.PR + 1)), st, **o))


def create(prog):
    c = Ctx(prog, "ModelObject::CreateModelImage")
    m = MO(c, align=False); g = m.g; fo = m.fo
    R = Regions(c, m); cv = Conv(c)
    pid = fo.ptr_id(g("psfInterpolator"))
    psp = g("pointSourcesPresent") != 0      # maintained by AddFunction: true iff some component is a point source
    c.run("ModelObject::CreateModelImage", [m.o.ptr(), Ptr.to(m.params.reg)])
    i, hi = c.index("i", 0, m.MR); j, hj = c.index("j", 0, m.MC)
    st = c.post
    m.setup_contract(st)
    V = image_spec(m, st)
    base = c.ex.SUM(lambda n: If(fo.isps(n), RealVal(0), V(n, i, j)), m.nF)
    pts = c.ex.SUM(lambda n: If(fo.isps(n), V(n, i, j, interp=pid, scale=IntVal(1)), RealVal(0)), m.nF)
    img = lambda s: img_(s)
    img_ = lambda s: Arr(c, m.model.reg).at(i, j, state=s).v
    c.ensures("the model image is convolved exactly when a PSF was supplied, and only once", BoolVal(len(cv.log) == 1 and cv.log[0]["reg"] is m.model.reg))
    if len(cv.log) == 1:
        e = cv.log[0]
        c.ensures("the image given to the convolver is the sum of all non-point-source components", img(e["before"]) == base, hi + hj + e["pc"][len(c.pc):])
        c.ensures("convolution happens only with a PSF", m.conv, e["pc"][len(c.pc):])
        cases = [("%s PSF, %s point sources" % ("with" if a else "without", "with" if b else "no"), [m.conv if a else Not(m.conv), psp if b else Not(psp)], (cv.at(0, i, j) if a else base) + (pts if b else RealVal(0))) for a in (True, False) for b in (True, False)]
        for nm, h, want in cases:
            c.ensures("the image is the (convolved) sum of the extended components plus the point sources: " + nm, Implies(Not(R.exist), img(st) == want), hi + hj + h)
        for L in R.log[-1:]:
            n = L["n"]; hp = L["pc"][len(c.pc):]
            for nm, h, want in cases: c.ensures("the first region receives the (convolved) sum of components: " + nm, Implies(n == 0, img(L["st"]) == want), hi + hj + hp + h)
            c.ensures("each later region receives the image as left by the region before it", Implies(n > 0, img(L["st"]) == R.image(n - 1, i, j)), hi + hj + hp)
            q, hq = c.index("q", 0, m.nF)
            c.ensures("region receives all components, in order", tand(R.passes(L, q, m.fam), L["args"][3] == m.nF, L["vec"].size == m.nF), hq + hp)
            c.ensures("region writes into the model image", BoolVal(L["reg"] is m.model.reg))
    c.ensures("regions are applied", BoolVal(len(R.log) > 0))
    k, hk = c.index("k", 0, R.n)
    c.ensures("every oversampled region is applied", R.processed(k, st) == 1, hk + [R.exist])
    c.ensures("after the last region the image is what that region left", img(st) == R.image(R.n - 1, i, j), hi + hj + [R.exist])
    c.ensures("the image is marked as computed", m.o.get("modelImageComputed", st) != 0)
    c.frame([m.model.reg, R.done] + c.fields(m.o, "modelImageComputed") + [v[0] for v in fo.g.values()])
    return c





def single(prog):
    c = Ctx(prog, "ModelObject::GetSingleFunctionImage")
    m = MO(c); g = m.g; fo = m.fo
    R = Regions(c, m); cv = Conv(c)
    pid = fo.ptr_id(g("psfInterpolator"))
    f = c.int("functionIndex", 0); c.requires(f < m.nF)
    outv = m.o.array("outputModelVector", stride=m.DC, rows=m.DR, finite=True)
    m.o.on_assign("outputModelVector", lambda reg, st: c.shape(reg, stride=m.DC, rows=m.DR, finite=True))
    ret = c.run("ModelObject::GetSingleFunctionImage", [m.o.ptr(), Ptr.to(m.params.reg), f])
    st = c.post
    i, hi = c.index("i", 0, m.MR); j, hj = c.index("j", 0, m.MC)
    m.setup_contract(st)
    V = image_spec(m, st)
    ps = fo.isps(f)
    val = If(ps, V(f, i, j, interp=pid, scale=IntVal(1)), V(f, i, j))
    img = lambda s: Arr(c, m.model.reg).at(i, j, state=s).v
    c.ensures("the single-function image is convolved at most once", BoolVal(len(cv.log) == 1 and cv.log[0]["reg"] is m.model.reg))
    if len(cv.log) == 1:
        e = cv.log[0]
        c.ensures("the image given to the convolver is that function's values", img(e["before"]) == val, hi + hj + e["pc"][len(c.pc):])
        c.ensures("convolution happens exactly for non-point-sources when a PSF exists", tand(m.conv, Not(ps)), e["pc"][len(c.pc):])
        want = If(And(m.conv, Not(ps)), cv.at(0, i, j), val)
        c.ensures("the image is the function's own (convolved) image", Implies(Not(R.exist), img(st) == want), hi + hj)
        for L in R.log[-1:]:
            n = L["n"]; hp = L["pc"][len(c.pc):]
            c.ensures("the first region receives the function's own (convolved) image", Implies(n == 0, img(L["st"]) == want), hi + hj + hp)
            c.ensures("each later region receives the image as left by the region before it", Implies(n > 0, img(L["st"]) == R.image(n - 1, i, j)), hi + hj + hp)
            c.ensures("region receives exactly that function", tand(elem_is(c, L["vec"], IntVal(0), L["st"], m.fam, f), L["args"][3] == 1), hp)
            c.ensures("region writes into the model image", BoolVal(L["reg"] is m.model.reg))
    c.ensures("regions are applied", BoolVal(len(R.log) > 0))
    c.ensures("after the last region the image is what that region left", img(st) == R.image(R.n - 1, i, j), hi + hj + [R.exist])
    # returned image
    r, hr = c.index("r", 0, m.DR); q, hq = c.index("q", 0, m.DC)
    got = []
    for cnd, t in ret.alts:
        if t is None: continue
        A = Arr(c, t[0], t[1])
        if t[0] is m.model.reg: c.ensures("without a PSF the model image itself is returned", Implies(cnd, Not(m.conv)))
        else:
            c.ensures("with a PSF the returned image is the model image without its padding", Implies(cnd, tand(m.conv, A.at(r, q, state=st).v == m.model.at(r + m.PR, q + m.PC, state=st).v)), hr + hq)
            if t[0].kind == "alloc": c.ensures("output image is allocated large enough", Implies(cnd, allocated(Ptr([(TRUE, t)]), norm_int(8 * m.DV))))
    c.frame([m.model.reg, R.done] + c.fields(m.o, "outputModelVector", "outputModelVectorAllocated") + [v[0] for v in fo.g.values()] + [m.o.get("outputModelVector").alts[0][1][0]])
    return c


def setup_image(prog):
    c = Ctx(prog, "ModelObject::SetupModelImage")
    o = c.obj("ModelObject", "mo"); g = o.get
    nc, nr = c.int("nc", 1), c.int("nr", 1); P, Q = g("nPSFColumns"), g("nPSFRows"); conv = g("doConvolution") != 0
    c.requires(P >= 0, Q >= 0, P <= 1 << 15, Q <= 1 << 15)
    il = logcalls(c, "Convolver::SetupImage"); dl = logcalls(c, "Convolver::DoFullSetup")
    ret = c.run("ModelObject::SetupModelImage", [o.ptr(), nc, nr])
    p = lambda n: o.get(n, c.post)
    ok = [ret == 0]
    PC, PR = If(conv, P, IntVal(0)), If(conv, Q, IntVal(0))
    c.ensures("data dimensions stored", tand(p("nDataColumns") == nc, p("nDataRows") == nr, p("nDataVals") == nc * nr), ok)
    c.ensures("model image is the data image plus PSF padding on both sides when convolving", tand(p("nModelColumns") == nc + 2 * PC, p("nModelRows") == nr + 2 * PR, p("nModelVals") == (nc + 2 * PC) * (nr + 2 * PR)), ok)
    c.ensures("model image is allocated large enough", allocated(p("modelVector"), norm_int(8 * p("nModelVals"))), ok)
    c.ensures("convolver is set up exactly once", BoolVal(len(il) == 1 and len(dl) == 1))
    for L in il + dl: c.ensures("convolver is set up only when convolving", conv, L["pc"][len(c.pc):])
    for L in il: c.ensures("convolver is given the padded dimensions, columns first", tand(L["args"][1] == nc + 2 * P, L["args"][2] == nr + 2 * Q))
    c.frame(c.fields(o, "nDataColumns", "nDataRows", "nDataVals", "nModelColumns", "nModelRows", "nModelVals", "modelVector", "modelVectorAllocated", "modelImageSetupDone"))
    return c


def sets(prog):
    c = Ctx(prog, "ModelObject::DefineFunctionSets")
    o = c.obj("ModelObject", "mo"); g = o.get
    nF = g("nFunctions"); c.requires(nF >= 1)
    c.ex.cur_mod = prog.mods[0]
    ety, _, mod = c.ex.ctype("ModelObject")
    V = c.ex.new_region("starts", ety=Ty("array", I64, 3), count=1, mod=prog.mods[0])
    from calls import vec_get
    st0 = c.pre
    v, _k = vec_get(c.ex, st0, Ptr.to(V), "std::vector<int, std::allocator<int>>::x(")
    n = v.size
    S = Arr(c, v.data)
    c.requires(n >= 1)
    k = Int("k!s"); c.ex.loopvars[aid(k)] = k
    c.ex.fact(Implies(And(k >= 0, k < n), And(S.at(k, ty=I32) >= 0, S.at(k, ty=I32) < nF)))
    o.on_assign("fsetStartFlags", lambda reg, st: setattr(reg, "ety", I8))
    c.run("ModelObject::DefineFunctionSets", [o.ptr(), Ptr.to(V)])
    p = lambda x: o.get(x, c.post)
    t = p("fsetStartFlags").alts[-1][1]
    q, hq = c.index("q", 0, nF)
    fl = Arr(c, t[0], t[1]).at(q, state=c.post, ty=I8) != 0
    c.ensures("a function starts a set exactly when it is the first one or is listed", fl == Or(q == 0, c.ex.EX(lambda e: S.at(e, ty=I32) == q, n)), hq)
    c.ensures("parameter count is the functions' parameters plus two per set", tand(p("nParamsTot") == g("nParamsTot") + g("nFunctionParams") + 2 * n, p("nFunctionSets") == n))
    c.frame(c.fields(o, "nFunctionSets", "fsetStartFlags", "fsetStartFlags_allocated", "nParamsTot"))
    return c


def add_function(prog):
    c = Ctx(prog, "ModelObject::AddFunction")
    o = c.obj("ModelObject", "mo"); g = o.get
    F = c.cls_region("FunctionObject", "newFunction")
    ip = c.ex.uff("isPointSource1", BoolSort())() if False else (Int("newIsPS") != 0)
    npar = c.int("newNParams", 0)
    il = logcalls(c, "FunctionObject::AddPsfInterpolator"); sl = logcalls(c, "ModelObject::SetupPsfInterpolation")
    logcalls(c, "FunctionObject::GetNParams", ret=lambda ex, a: npar); logcalls(c, "FunctionObject::IsPointSource", ret=lambda ex, a: ip)
    logcalls(c, "FunctionObject::GetInterpolationType")
    c.ex.prefix_contracts.append((r"std::map<.*>::operator\[\]", lambda ex, a, st, pc, ins: Ptr.to(imap)))
    imap = c.ex.new_region("interpolationMap value", ety=I32, mod=prog.mods[0], count=1)
    fv, _fam = vec_of_ptrs(c, o, "functionObjects", "FunctionObject"); ps = o.vec("paramSizes"); gf = o.vec("globalFunctionFlags")
    n = g("nFunctions"); c.requires(n >= 0, fv.size == n, ps.size == n)
    ret = c.run("ModelObject::AddFunction", [o.ptr(), Ptr.to(F), Int("isGlobal") != 0])
    p = lambda x: o.get(x, c.post)
    f2, p2 = o.vec("functionObjects", c.post), o.vec("paramSizes", c.post)
    c.ensures("one component more", tand(p("nFunctions") == n + 1, f2.size == n + 1, p2.size == n + 1))
    c.ensures("the new component's parameters are counted", p("nFunctionParams") == g("nFunctionParams") + npar)
    c.ensures("its size is recorded at its own position", Arr(c, p2.data).at(n, state=c.post, ty=I32) == npar)
    k, hk = c.index("k", 0, n)
    c.ensures("sizes of the earlier components are kept", Arr(c, p2.data).at(k, state=c.post, ty=I32) == Arr(c, ps.data).at(k, ty=I32), hk)
    e = Arr(c, f2.data).at(n, state=c.post, ty=PTR)
    c.ensures("the new component is stored at its own position", tor(*[cnd for cnd, t in e.alts if t is not None and t[0] is F]))
    c.ensures("a point source component switches point sources on", (p("pointSourcesPresent") != 0) == Or(g("pointSourcesPresent") != 0, ip), [ret == 0])
    c.ensures("a point source component is given the interpolator", BoolVal(len(il) == 1))
    c.ensures("the interpolator is set up once, for the first point source", BoolVal(len(sl) == 1))
    for L in sl: c.ensures("interpolator set-up only if none exists", g("psfInterpolator_allocated") == 0, L["pc"][len(c.pc):])
    return c


def add_psf(prog):
    c = Ctx(prog, "ModelObject::AddPSFVector")
    o = c.obj("ModelObject", "mo"); g = o.get
    nc, nr = c.int("nc", 1), c.int("nr", 1); nrm = Int("normalize"); c.fact(And(nrm >= 0, nrm <= 1))
    N = norm_int(nc * nr)
    psf = c.array("psf", count=N, finite=None)
    logcalls(c, "Convolver::Convolver"); sl = logcalls(c, "Convolver::SetupPSF"); tl = logcalls(c, "Convolver::SetMaxThreads")
    o.on_assign("localPsfPixels", lambda reg, st: setattr(reg, "finite", False))
    ret = c.run("ModelObject::AddPSFVector", [o.ptr(), N, nc, nr, Ptr.to(psf.reg), nrm != 0])
    p = lambda x: o.get(x, c.post)
    ok = [ret == 0]
    k, hk = c.index("k", 0, N)
    c.ensures("a PSF is accepted only if every pixel is finite", psf.at(k).ok, hk + ok)
    c.ensures("PSF size becomes the padding, convolution is on", tand(p("nPSFColumns") == nc, p("nPSFRows") == nr, p("doConvolution") != 0), ok)
    c.ensures("a PSF added after the model image was set up is refused", g("modelImageSetupDone") == 0, ok)
    c.ensures("the convolver is set up exactly once", BoolVal(len(sl) == 1))
    for L in sl: c.ensures("the convolver gets the PSF, its dimensions and the normalisation request", tand(BoolVal(same_target(L["args"][1].alts[-1][1], (psf.reg, (), Poly.const(0)))), L["args"][2] == nc, L["args"][3] == nr, (L["args"][4] if z3.is_bool(L["args"][4]) else L["args"][4] != 0) == (nrm != 0)))
    t = p("localPsfPixels").alts
    for cnd, tt in t:
        if tt is None or tt[0].kind != "alloc": continue
        S = c.ex.SUM(lambda k: psf.at(k).v, N)
        got = Arr(c, tt[0], tt[1]).at(k, state=c.post)
        c.ensures("the local PSF copy is the PSF, divided by its sum when normalisation is requested", got.v * If(nrm != 0, S, RealVal(1)) == psf.at(k).v, hk + ok + [cnd])
        c.ensures("normalisation needs a positive sum", Implies(nrm != 0, S > 0), ok + [cnd])
    c.ensures("the caller's PSF is not modified", BoolVal((psf.reg, 0) not in c.post.arr))
    return c


def add_region(prog):
    c = Ctx(prog, "ModelObject::AddOversampledPsfInfo")
    o = c.obj("ModelObject", "mo"); g = o.get
    DC, DR, MC, MR = g("nDataColumns"), g("nDataRows"), g("nModelColumns"), g("nModelRows")
    c.requires(DC >= 1, DR >= 1, MC >= 1, MR >= 1, DC <= 1 << 15, DR <= 1 << 15)
    info = c.cls_region("PsfOversamplingInfo", "info")
    nc, nr, s = c.int("nc", 1, 1 << 12), c.int("nr", 1, 1 << 12), c.int("s", 1, 1 << 8)
    nrm = Int("normalize"); c.fact(And(nrm >= 0, nrm <= 1))
    psf = c.array("psf_osamp", count=norm_int(nc * nr), finite=None)
    X1, X2, Y1, Y2 = [c.int(k) for k in ("x1", "x2", "y1", "y2")]
    logcalls(c, "PsfOversamplingInfo::GetNColumns", ret=lambda ex, a: nc); logcalls(c, "PsfOversamplingInfo::GetNRows", ret=lambda ex, a: nr)
    logcalls(c, "PsfOversamplingInfo::GetOversamplingScale", ret=lambda ex, a: s); logcalls(c, "PsfOversamplingInfo::GetPsfPixels", ret=lambda ex, a: Ptr.to(psf.reg))
    logcalls(c, "PsfOversamplingInfo::GetNormalizationFlag", ret=lambda ex, a: nrm != 0)
    c.requires(X1 < X2, Y1 < Y2, X2 >= 1, Y2 >= 1, X1 <= DC, Y1 <= DR)

    def coords(ex, args, st, pc, ins):
        # std::tuple<int,int,int,int> is returned through the hidden pointer; elements are stored last-first
        p = args[0]
        for k, v in enumerate((Y2, Y1, X2, X1)): ex.store(st, ex.ptr_add(p, Poly.const(4 * k)), v, I32, pc)
        return None
    c.ex.prefix_contracts.append((r"PsfOversamplingInfo::GetCorrectedRegionCoords\(", coords))
    cl = logcalls(c, "OversampledRegion::OversampledRegion"); dl = logcalls(c, "OversampledRegion::SetDebugLevel")
    al = logcalls(c, "OversampledRegion::AddPSFVector"); sl = logcalls(c, "OversampledRegion::SetupModelImage")
    v, _ = vec_of_ptrs(c, o, "oversampledRegionsVect", "OversampledRegion"); n = g("nOversampledRegions"); c.requires(n >= 0, v.size == n)
    ret = c.run("ModelObject::AddOversampledPsfInfo", [o.ptr(), Ptr.to(info)])
    p = lambda x: o.get(x, c.post)
    ok = [ret == 0]
    k, hk = c.index("k", 0, norm_int(nc * nr))
    c.ensures("an oversampled PSF is accepted only if every pixel is finite", psf.at(k).ok, hk + ok)
    c.ensures("region set up exactly once, after its PSF", BoolVal(len(sl) == 1 and len(al) == 1))
    mx = lambda a, b: If(a > b, a, b)
    mn = lambda a, b: If(a < b, a, b)
    x1, y1, x2, y2 = mx(X1, IntVal(1)), mx(Y1, IntVal(1)), mn(X2, DC), mn(Y2, DR)
    for L in al: c.ensures("region gets its PSF, dimensions and normalisation request", tand(BoolVal(same_target(L["args"][1].alts[-1][1], (psf.reg, (), Poly.const(0)))), L["args"][2] == nc, L["args"][3] == nr, (L["args"][4] if z3.is_bool(L["args"][4]) else L["args"][4] != 0) == (nrm != 0)))
    for L in sl:
        a = L["args"]; hp = L["pc"][len(c.pc):]
        c.ensures("region starts at the requested corner, kept inside the image", tand(a[1] == x1, a[2] == y1), hp)
        c.ensures("region size is that of the requested section, cut at the image border", tand(a[3] == x2 - x1 + 1, a[4] == y2 - y1 + 1), hp)
        c.ensures("region is told the main image dimensions, padding and scale", tand(a[5] == MC, a[6] == MR, a[7] == g("nPSFColumns"), a[8] == g("nPSFRows"), a[9] == s), hp)
    v2 = o.vec("oversampledRegionsVect", c.post)
    c.ensures("the region is registered", tand(p("oversampledRegionsExist") != 0, p("nOversampledRegions") == n + 1, v2.size == n + 1), ok)
    c.ensures("the caller's PSF is not modified", BoolVal((psf.reg, 0) not in c.post.arr))
    return c


def ctor(prog):
    c = Ctx(prog, "ModelObject::ModelObject")
    o = c.obj("ModelObject", "mo")
    c.run("ModelObject::ModelObject", [o.ptr()])
    p = lambda n: o.get(n, c.post)
    for n in ("dataValsSet", "weightValsSet", "maskExists", "doConvolution", "oversampledRegionsExist", "pointSourcesPresent", "modelImageSetupDone", "modelImageComputed", "externalErrorVectorSupplied", "modelErrors", "useCashStatistic", "poissonMLR", "doBootstrap",
              "nFunctions", "nFunctionSets", "nFunctionParams", "nParamsTot", "nOversampledRegions", "nPSFColumns", "nPSFRows", "nDataVals", "nValidDataVals", "nModelVals", "imageOffset_X0", "imageOffset_Y0",
              "modelVectorAllocated", "maskVectorAllocated", "weightVectorAllocated", "residualVectorAllocated", "outputModelVectorAllocated", "deviatesVectorAllocated", "extraCashTermsVectorAllocated", "localPsfPixels_allocated", "standardWeightVectorAllocated", "psfInterpolator_allocated", "fsetStartFlags_allocated", "bootstrapIndicesAllocated"):
        c.ensures("%s starts at zero / false" % n, p(n) == 0)
    c.ensures("data-based errors are the default", p("dataErrors") != 0)
    for n, v in (("gain", 1), ("exposureTime", 1), ("effectiveGain", 1), ("originalSky", 0), ("readNoise", 0), ("readNoise_adu_squared", 0)): c.ensures("%s defaults to %d" % (n, v), p(n).v == v)
    c.ensures("one combined image by default", p("nCombined") == 1)
    return c


import omp
CONTRACTS = [create, single, setup_image, sets, add_function, add_psf, add_region, ctor, omp.contract("core/model_object.cpp", ["ModelObject::CreateModelImage", "ModelObject::GetSingleFunctionImage"])]
