"""P05: PSF convolution is set up so that it is a true image convolution (core/convolver.cpp)."""
from spec import *
from fftw import Fft

UNITS = ["core/convolver.cpp"]
HARNESS = dict(src="P05.cpp")
FUNCTIONS = ["Convolver::SetupPSF", "Convolver::SetupImage", "Convolver::DoFullSetup", "Convolver::ShiftAndWrapPSF", "Convolver::ConvolveImage"]
LEVEL_NOTE = "all padding, wrapping, normalisation, transform-wiring and copy-back obligations proved for every image and PSF size; the FFT itself is a trusted external (FFTW) and arithmetic is over the reals"
ASSUMPTIONS = [
    "FFTW plan contract: fftw_execute overwrites exactly the plan's output array with the unnormalised DFT (r2c) / inverse DFT (c2r) of its input array of the planned dimensions (row count first)",
    "convolution theorem: inverse DFT of the product of two DFTs is (number of elements) x the cyclic convolution",
    "memory allocation succeeds",
    "distinct array members of a Convolver point to disjoint memory",
]
DIMS = ('nColumns_psf', 'nRows_psf', 'nColumns_image', 'nRows_image', 'nColumns_padded', 'nRows_padded', 'nPixels_padded', 'nPixels_padded_complex')
PRINTS = ("PrintRealImage", "PrintComplexImage_RealPart", "PrintComplexImage_Absolute", "GetPhysicalCoreCount")


def setters(prog):
    out = []
    c = Ctx(prog, "Convolver::SetupPSF")
    cv = c.obj("Convolver", "cv"); nc, nr = c.int("nc", 1), c.int("nr", 1); p = c.array("psf", stride=nc, rows=nr)
    nrm = Int("normalize"); c.fact(And(nrm >= 0, nrm <= 1))
    c.run("Convolver::SetupPSF", [cv.ptr(), Ptr.to(p.reg), nc, nr, nrm != 0])
    g = lambda n: cv.get(n, c.post)
    c.ensures("PSF dimensions, pointer and normalisation flag stored in the right members",
              tand(g("nColumns_psf") == nc, g("nRows_psf") == nr, g("nPixels_psf") == nc * nr, (g("normalizePSF") != 0) == (nrm != 0), g("psfInfoSet") != 0,
                   BoolVal(same_target(g("psfPixels").alts[0][1], (p.reg, (), Poly.const(0))))))
    c.frame(c.fields(cv, "psfPixels", "nColumns_psf", "nRows_psf", "nPixels_psf", "normalizePSF", "psfInfoSet"))
    out.append(c)
    c = Ctx(prog, "Convolver::SetupImage")
    cv = c.obj("Convolver", "cv"); nc, nr = c.int("nc", 1), c.int("nr", 1)
    c.run("Convolver::SetupImage", [cv.ptr(), nc, nr])
    g = lambda n: cv.get(n, c.post)
    c.ensures("image dimensions stored in the right members", tand(g("nColumns_image") == nc, g("nRows_image") == nr, g("nPixels_image") == nc * nr, g("imageInfoSet") != 0))
    c.frame(c.fields(cv, "nColumns_image", "nRows_image", "nPixels_image", "imageInfoSet"))
    out.append(c)
    return out


def wrap_pos(i, n, npad):
    d = i - n / 2
    return If(d >= 0, d, d + npad)


def source(r, q, nrp, ncp, H, W):
    """(exists, row, column) of the PSF pixel belonging to padded pixel (r, q)"""
    si = If(r < nrp - nrp / 2, r + nrp / 2, r + nrp / 2 - H); sj = If(q < ncp - ncp / 2, q + ncp / 2, q + ncp / 2 - W)
    return And(si >= 0, si < nrp, sj >= 0, sj < ncp), si, sj


def shift_wrap_contract(c, cv, log):
    """the contract proved by shift_wrap, used at call sites"""
    def h(ex, args, st, pc, ins):
        g = lambda n: cv.get(n, st)
        ncp, nrp, nci, nri, ncpad, nrpad, npad, npc = [g(x) for x in DIMS]
        ex.oblig("ShiftAndWrapPSF precondition: padded size is image size + PSF size - 1", tand(ncp >= 1, nrp >= 1, nci >= 1, nri >= 1, ncpad == nci + ncp - 1, nrpad == nri + nrp - 1), pc, "pre")
        def view(n):
            alts = [t for _, t in g(n).alts if t is not None]
            if len(alts) != 1: raise Unsupported("ambiguous " + n)
            return Arr(c, alts[0][0], alts[0][1])
        psf, pad = view("psfPixels"), view("psf_in_padded")
        old = st.copy()

        def cell(idx):
            inside, si, sj = source(idx[0], idx[1], nrp, ncp, nrpad, ncpad)
            return vite(inside, psf.at(si, sj, state=old), pad.at(idx[0], idx[1], state=old))
        st.arr[(pad.reg, 0)] = Content(("fn", cell))
        log.append(1)
        return None
    c.ex.contracts[c.fn("Convolver::ShiftAndWrapPSF")] = h


def shift_wrap(prog):
    c = Ctx(prog, "Convolver::ShiftAndWrapPSF")
    cv = c.obj("Convolver", "cv"); g = cv.get
    ncp, nrp, nci, nri, ncpad, nrpad, npad, npc = [g(x) for x in DIMS]
    c.requires(ncp >= 1, nrp >= 1, nci >= 1, nri >= 1, ncpad == nci + ncp - 1, nrpad == nri + nrp - 1)
    psf = cv.array("psfPixels", stride=ncp, rows=nrp, finite=True)
    pad = cv.array("psf_in_padded", stride=ncpad, rows=nrpad, finite=True)
    c.run("Convolver::ShiftAndWrapPSF", [cv.ptr()])
    i, hi = c.index("i", 0, nrp); j, hj = c.index("j", 0, ncp)
    c.ex.cands.append((i, j))
    c.ensures("PSF pixel (i,j) lands at its offset from the PSF centre, modulo the padded size",
              feq(pad.new(wrap_pos(i, nrp, nrpad), wrap_pos(j, ncp, ncpad)), psf.at(i, j)), hi + hj)
    r, hr = c.index("r", 0, nrpad); q, hq = c.index("q", 0, ncpad)
    inside, si, sj = source(r, q, nrp, ncp, nrpad, ncpad)
    c.ex.cands.append((si, sj))
    c.ensures("every padded pixel holds its PSF pixel, or is left unchanged when it has none",
              feq(pad.new(r, q), FVal(If(inside, psf.at(si, sj).v, pad.at(r, q).v))), hr + hq)
    c.frame([pad.reg])
    return c


def full_setup(prog):
    c = Ctx(prog, "Convolver::DoFullSetup")
    noeffect(c, *PRINTS)
    cv = c.obj("Convolver", "cv"); g = cv.get
    ncp, nrp, nci, nri, ncpad, nrpad, npad, npc = [g(x) for x in DIMS]
    c.requires(ncp >= 1, nrp >= 1, nci >= 1, nri >= 1, g("psfInfoSet") != 0, g("imageInfoSet") != 0, g("nPixels_psf") == ncp * nrp)
    c.requires(ncp <= 1 << 20, nrp <= 1 << 20, nci <= 1 << 20, nri <= 1 << 20)
    psf = cv.array("psfPixels", stride=ncp, rows=nrp, finite=True)
    W, H = (Poly.of(nci) + Poly.of(ncp) - 1).z(), (Poly.of(nri) + Poly.of(nrp) - 1).z()
    cv.name_on_assign("nColumns_padded", "nRows_padded")
    shaped = {}

    def shape(nm, cplx):
        def h(reg, st):
            if reg in shaped: return
            shaped[reg] = nm
            reg.finite = True
            if cplx: reg.ety = CPLX; reg.mod = cv.reg.mod; reg.single = False; reg.nbytes = reg.bytes
            else:
                reg.ety = F64; reg.mod = cv.reg.mod; reg.single = False; reg.nbytes = reg.bytes
                reg.stride = cv.get("nColumns_padded", st); reg.rows = cv.get("nRows_padded", st)
        return h
    for nm, cx in (("image_in_padded", 0), ("psf_in_padded", 0), ("convolvedImage_out", 0), ("image_fft_cmplx", 1), ("psf_fft_cmplx", 1), ("multiplied_cmplx", 1)):
        cv.on_assign(nm, shape(nm, cx))
    log = []
    if prog.find("Convolver::ShiftAndWrapPSF"): shift_wrap_contract(c, cv, log)
    F = Fft(c)
    dbg = c.int("debugLevel"); meas = Int("doMeasure"); c.fact(And(meas >= 0, meas <= 1))
    ret = c.run("Convolver::DoFullSetup", [cv.ptr(), dbg, meas != 0])
    p = lambda n: cv.get(n, c.post)
    c.ensures("returns success", ret == 0)
    W0, H0 = W, H
    c.ensures("padded size is image size + PSF size - 1 on each axis (no wrap-around)", tand(p("nColumns_padded") == W, p("nRows_padded") == H, p("nPixels_padded") == W * H))
    W, H = p("nColumns_padded"), p("nRows_padded")     # equal to the above by the obligation just stated
    c.ensures("rescale factor is the reciprocal of the padded pixel count", p("rescaleFactor").v * ToReal(norm_int(W * H)) == 1)
    hc = W / 2 + 1
    c.ensures("half-complex arrays hold rows x (columns/2+1) frequencies", p("nPixels_padded_complex") == H * hc)
    for nm, cx in (("image_in_padded", 0), ("psf_in_padded", 0), ("convolvedImage_out", 0), ("image_fft_cmplx", 1), ("psf_fft_cmplx", 1), ("multiplied_cmplx", 1)):
        t = p(nm).alts[-1][1]
        need = norm_int(16 * (H * hc)) if cx else norm_int(8 * (W * H))
        c.ensures("%s is allocated large enough" % nm, t[0].nbytes >= need if t is not None else FALSE)
        others = [p(o).alts[-1][1][0] for o in ("image_in_padded", "psf_in_padded", "convolvedImage_out", "image_fft_cmplx", "psf_fft_cmplx", "multiplied_cmplx") if o != nm]
        c.ensures("%s is a separate array" % nm, BoolVal(t is not None and t[0] not in others))
    # plans
    want = (("plan_inputImage", "r2c", "image_in_padded", "image_fft_cmplx"), ("plan_psf", "r2c", "psf_in_padded", "psf_fft_cmplx"), ("plan_inverse", "c2r", "multiplied_cmplx", "convolvedImage_out"))
    for nm, kind, a, b in want:
        pl = F.plans.get(p(nm).alts[-1][1][0])
        ok = pl is not None and pl["kind"] == kind and same_target(pl["inp"].alts[-1][1], p(a).alts[-1][1]) and same_target(pl["out"].alts[-1][1], p(b).alts[-1][1])
        c.ensures("%s transforms %s into %s" % (nm, a, b), BoolVal(bool(ok)))
        if pl is not None: c.ensures("%s has dimensions rows x columns of the padded image" % nm, tand(pl["n0"] == H, pl["n1"] == W))
    # PSF transform
    ok = len(F.execs) == 1 and F.execs[0]["plan"] is p("plan_psf").alts[-1][1][0]
    c.ensures("exactly the PSF plan is executed", BoolVal(ok))
    if ok:
        e = F.execs[0]
        pad = Arr(c, p("psf_in_padded").alts[-1][1][0], p("psf_in_padded").alts[-1][1][1])
        i, hi = c.index("i", 0, nrp); j, hj = c.index("j", 0, ncp)
        c.ex.cands.append((i, j))
        S = c.ex.SUM(lambda k: psf.at(c.ex.idiv(k, ncp, []), (Poly.of(k) - Poly.of(c.ex.idiv(k, ncp, [])) * Poly.of(ncp)).z()).v, norm_int(ncp * nrp))
        norm = g("normalizePSF") != 0
        val = If(norm, psf.at(i, j).v / S, psf.at(i, j).v)
        hy = hi + hj + [Implies(norm, S != 0)]
        c.ensures("transformed array holds the unit-sum PSF at its offset from the PSF centre",
                  pad.at(wrap_pos(i, nrp, H), wrap_pos(j, ncp, W), state=e["state"]).v == val, hy)
        r, hr = c.index("r", 0, H); q, hq = c.index("q", 0, W)
        inside, si, sj = source(r, q, nrp, ncp, H, W)
        c.ensures("all other padded pixels of the transformed array are zero", Implies(Not(inside), pad.at(r, q, state=e["state"]).v == 0), hr + hq)
    return c


def convolve(prog):
    c = Ctx(prog, "Convolver::ConvolveImage")
    noeffect(c, *PRINTS)
    cv = c.obj("Convolver", "cv"); g = cv.get
    ncp, nrp, nci, nri, ncpad, nrpad, npad, npc = [g(x) for x in DIMS]
    c.requires(ncp >= 1, nrp >= 1, nci >= 1, nri >= 1, ncpad == nci + ncp - 1, nrpad == nri + nrp - 1, npad == nrpad * ncpad, npc == nrpad * (ncpad / 2 + 1))
    rf = g("rescaleFactor"); c.requires(rf.ok)
    inp = cv.array("image_in_padded", stride=ncpad, rows=nrpad, finite=True)
    out = cv.array("convolvedImage_out", stride=ncpad, rows=nrpad, finite=True)
    ifft = cv.array("image_fft_cmplx", count=npc, finite=True, ety=CPLX)
    pfft = cv.array("psf_fft_cmplx", count=npc, finite=True, ety=CPLX)
    mul = cv.array("multiplied_cmplx", count=npc, finite=True, ety=CPLX)
    F = Fft(c)
    F.declare(g("plan_inputImage").alts[0][1][0], "r2c", g("image_in_padded"), g("image_fft_cmplx"))
    F.declare(g("plan_inverse").alts[0][1][0], "c2r", g("multiplied_cmplx"), g("convolvedImage_out"))
    pix = c.array("pixels", stride=nci, rows=nri)
    # the debug dump of the padded image is output only
    c.requires(g("debugStatus") <= 2)
    c.run("Convolver::ConvolveImage", [cv.ptr(), Ptr.to(pix.reg)])
    ok = len(F.execs) == 2 and F.execs[0]["kind"] == "r2c" and F.execs[1]["kind"] == "c2r" and F.execs[0]["inp"].alts[0][1][0] is inp.reg
    c.ensures("the image plan is executed once, then the inverse plan once", BoolVal(ok))
    if ok:
        e0, e1 = F.execs
        r, hr = c.index("r", 0, nrpad); q, hq = c.index("q", 0, ncpad)
        c.ensures("the transformed image is the input image in the corner, zero elsewhere",
                  feq(inp.at(r, q, state=e0["state"]), FVal(If(And(r < nri, q < nci), pix.at(r, q).v, RealVal(0)))), hr + hq)
        z, hz = c.index("z", 0, npc)
        A = lambda a, k, s: a.at(z, IntVal(k), state=s).v
        s = e1["state"]; s0 = e0["after"]
        a, b, cc, d = A(ifft, 0, s0), A(ifft, 1, s0), A(pfft, 0, None), A(pfft, 1, None)
        c.ensures("every frequency is multiplied: real part", A(mul, 0, s) == a * cc - b * d, hz)
        c.ensures("every frequency is multiplied: imaginary part", A(mul, 1, s) == b * cc + a * d, hz)
        y, hy = c.index("y", 0, nri); x, hx = c.index("x", 0, nci)
        c.ensures("the result is copied back pixel for pixel, rescaled by 1/(padded size)",
                  pix.new(y, x).v == rf.v * out.at(y, x, state=e1["after"]).v, hy + hx)
        c.ensures("PSF transform is not modified", BoolVal((pfft.reg, 0) not in c.post.arr))
    c.frame([pix.reg, inp.reg, out.reg, ifft.reg, mul.reg])
    return c


def no_wrap_lemma(prog):
    """with padding image+psf-1, offset indices of a linear convolution never alias modulo the padded size"""
    c = Ctx(prog, "lemma: linear = cyclic convolution")
    n, p, N, x, i, u = [Int(k) for k in "n p N x i u".split()]
    # output pixel x (0<=x<n), PSF pixel i (0<=i<p) at offset i-p/2, image pixel u
    H = [n >= 1, p >= 1, N == n + p - 1, x >= 0, x < n, i >= 0, i < p, u >= 0, u < N]
    w = If(i - p / 2 >= 0, i - p / 2, i - p / 2 + N)
    cyc = Or(u + w == x, u + w == x + N)
    c.pc = []
    c.lemma("cyclic neighbour inside the image is the linear neighbour", H + [cyc, u < n], u + (i - p / 2) == x)
    c.lemma("linear neighbour is a cyclic neighbour", H + [u < n, u + (i - p / 2) == x], cyc)
    c.lemma("neighbours outside the image fall on zero padding", H + [cyc, Or(x - (i - p / 2) < 0, x - (i - p / 2) >= n)], u >= n)
    return c


CONTRACTS = [setters, shift_wrap, full_setup, convolve, no_wrap_lemma]
