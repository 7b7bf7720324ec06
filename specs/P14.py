"""P14: PSF interpolation for point sources."""
from spec import *
from funcs import *

UNITS = ["function_objects/psf_interpolators.cpp", "function_objects/function_object.cpp", "function_objects/func_pointsource.cpp", "function_objects/func_pointsource-rot.cpp", "core/model_object.cpp"]
KINDS = ("bicubic", "lanczos2", "lanczos3")
HARNESS = dict(src="P14.cpp")
FUNCTIONS = ["Lanczos", "FindIndex"] + ["PsfInterpolator_%s::%s" % (k, f) for k in KINDS for f in ("PsfInterpolator_%s" % k, "GetValue")] + ["%s::%s" % (n, f) for n in ("PointSource", "PointSourceRot") for f in ("AddPsfInterpolator", "SetOversamplingScale", "Setup", "GetValue")] + ["ModelObject::SetupPsfInterpolation"]
LEVEL_NOTE = "proved for every PSF of at least 2 x 2 pixels and every position; the 25 and 49 kernel taps are written out from the loop sums"
ASSUMPTIONS = ["GSL's two-dimensional spline is trusted: gsl_spline2d_init copies its data (za[j*xsize+i] at x_i, y_j), the spline passes through them, evaluation needs a position inside the data and changes nothing when no accelerators are passed",
               "sine is an uninterpreted function that vanishes at the multiples of the program's 15-digit pi",
               "arithmetic over the reals (the floor of a position that rounding moves across a pixel boundary is covered by the harness only)",
               "which text selects which method (SetExtraParams, the table of names) is checked by the harness, not under contract"]
H = RealVal("1/2")


def scene(prog, kind, what):
    cls = "PsfInterpolator_" + kind
    c = Ctx(prog, cls + "::" + what); a = c.obj(cls, "this")
    nc, nr = c.int("nCols", 2, 1 << 15), c.int("nRows", 2, 1 << 15)
    psf = c.array("psf", stride=nc, rows=nr)
    return c, a, nc, nr, psf, cls


def R(n): return ToReal(n)


def construct(prog, kind, what):
    """the constructor; returns the call log of the spline library (bicubic) and the pixel coordinates"""
    c, a, nc, nr, psf, cls = scene(prog, kind, what); log = []; ex = c.ex
    sp = ex.new_region("spline", ety=F64, mod=prog.mods[0], count=1)
    def init(ex, args, st, pc, ins): log.append((args, st.copy(), list(pc))); return IntVal(0)
    P = ex.prefix_contracts
    P.append((r"gsl_interp_accel_alloc", lambda ex, args, st, pc, ins: Ptr.to(ex.new_region("accelerator", ety=F64, mod=prog.mods[0], count=1))))
    P.append((r"gsl_spline2d_alloc", lambda ex, args, st, pc, ins: (log.append((args, st.copy(), list(pc))), Ptr.to(sp))[1]))
    P.append((r"gsl_spline2d_init", init))
    c.run(cls + "::" + cls, [a.ptr(), Ptr.to(psf.reg), nc, nr])
    return c, a, nc, nr, psf, cls, log


def cell(c, p, st, *ix):
    t = p.alts[-1][1]; return Arr(c, t[0], t[1]).at(*ix, state=st)


def pixcoord(n, i): return R(i) - (R(n) - 1) * H


def ctor(prog, kind):
    c, a, nc, nr, psf, cls, log = construct(prog, kind, "constructor")
    p = lambda f: a.get(f, c.post)
    rx, ry = (R(nc) - 1) * H, (R(nr) - 1) * H
    c.ensures("the interpolation range is the PSF, from the centre of its first to that of its last pixel", tand(p("deltaXMin").v == -rx, p("deltaXMax").v == rx, p("deltaYMin").v == -ry, p("deltaYMax").v == ry))
    c.ensures("dimensions are kept", tand(p("nColumns") == nc, p("nRows") == nr))
    i, hi = c.index("i", 0, nc); j, hj = c.index("j", 0, nr)
    if kind == "bicubic":
        c.ensures("the spline is created and set up once", BoolVal(len(log) == 2))
        (al, _, _), (ar, st, pc) = log
        c.ensures("the spline is a bicubic one", BoolVal("bicubic" in str(al[0])))
        c.ensures("the spline has the dimensions of the PSF, columns first", tand(al[1] == nc, al[2] == nr, ar[4] == nc, ar[5] == nr))
        c.ensures("the spline is given the column positions, the row positions and the PSF", tand(cell(c, ar[1], st, i).v == pixcoord(nc, i), cell(c, ar[2], st, j).v == pixcoord(nr, j), BoolVal(same_target(ar[3].alts[-1][1], (psf.reg, (), Poly.const(0))))), hi + hj)
    else:
        c.ensures("PSF pixels are at their offsets from the PSF centre", tand(cell(c, p("xArray"), c.post, i).v == pixcoord(nc, i), cell(c, p("yArray"), c.post, j).v == pixcoord(nr, j)), hi + hj)
        c.ensures("the PSF is kept", BoolVal(same_target(p("psfDataArray").alts[-1][1], (psf.reg, (), Poly.const(0)))))
    return c


def UF(ex, n, k=1): return ex.uff(n, *([RealSort()] * (k + 1)))


def sincs(c):
    """sine is zero at the multiples of pi (the 15-digit constant of the program taken as pi)"""
    ex = c.ex; pi = RealVal("3.14159265358979")
    for m in range(1, 7): c.fact(UF(ex, "SIN")(pi * m) == 0)


def lanczos(ex, x, n):
    pi, pi2 = RealVal("3.14159265358979"), RealVal("9.86960440108936"); S = UF(ex, "SIN"); y = If(x < 0, -x, x)
    return If(y < RealVal("0.000001"), RealVal(1), If(y > n, RealVal(0), n * S(pi * y) * S(pi * y / n) / (pi2 * y * y)))


def kernel(prog):
    c = Ctx(prog, "Lanczos"); x, n = c.real("x"), c.int("n", 2, 3)
    r = c.run("Lanczos", [x, n])
    c.ensures("Lanczos-windowed sinc", r.v == lanczos(c.ex, x.v, ToReal(n))); c.frame([])
    sincs(c)
    c.ensures("one at the pixel itself", Implies(x.v == 0, r.v == 1))
    for m in (1, 2, 3):
        c.ensures("zero %d pixels away" % m, Implies(x.v == m, r.v == 0)); c.ensures("zero %d pixels away (other side)" % m, Implies(x.v == -m, r.v == 0))
    return c


def value(prog, kind, node=False):
    """node: the position is the centre of an arbitrary PSF pixel"""
    c, a, nc, nr, psf, cls, log = construct(prog, kind, "GetValue at a pixel" if node else "GetValue"); ex = c.ex
    c.pre = c.post; c.pc = list(c.rpc); ex.writes.clear()
    if node:
        k, hk = c.index("k", 0, nc); l, hl = c.index("l", 0, nr); c.pc += hk + hl
        x, y = FVal(pixcoord(nc, k)), FVal(pixcoord(nr, l))
    else: x, y = c.real("x"), c.real("y")
    xv, yv = x.v, y.v; w = 0 if kind == "bicubic" else int(kind[-1]); ev = []; SPL, LAN = UF(ex, "SPLINE", 2), UF(ex, "LANCZOS", 2)
    def spline(ex, args, st, pc, ins): ev.append((args, st.copy(), list(pc))); return FVal(SPL(args[1].v, args[2].v))
    ex.prefix_contracts.append((r"gsl_spline2d_eval", spline))
    ex.prefix_contracts.append((r"Lanczos\(", lambda ex, args, st, pc, ins: FVal(LAN(args[0].v, R(args[1])))))
    r = c.run(cls + "::GetValue(double, double)", [a.ptr(), x, y])
    rx, ry = (R(nc) - 1) * H, (R(nr) - 1) * H; out = Or(xv < -rx, xv > rx, yv < -ry, yv > ry)
    if node:
        if w:
            c.fact(LAN(RealVal(0), RealVal(w)) == 1)                        # contract of the kernel
            for m in range(1, w + 1): c.fact(And(LAN(RealVal(m), RealVal(w)) == 0, LAN(RealVal(-m), RealVal(w)) == 0))
        else: c.fact(SPL(xv, yv) == psf.at(l, k).v)                         # contract of the library: the spline passes through its data (see the constructor for which data)
        c.ensures("the PSF is reproduced at its pixels", c.simplified(c.unfolded(r.v)) == psf.at(l, k).v)
        return c
    c.ensures("zero outside the PSF", Implies(out, r.v == 0))
    if kind == "bicubic":
        for args, st, pc in ev:
            c.ensures("the spline is evaluated only inside its range", tand(args[1].v >= -rx, args[1].v <= rx, args[2].v >= -ry, args[2].v <= ry), pc[len(c.pc):])
            c.ensures("the spline is this object's and no state is shared between threads", tand(BoolVal(same_target(args[0].alts[-1][1], a.get("splineInterp").alts[-1][1])), BoolVal(all(len(q.alts) == 1 and q.alts[0][1] is None for q in args[3:5]))))
        c.ensures("inside the PSF: the spline at the requested position", Implies(Not(out), r.v == SPL(xv, yv)))
    else:
        fx, fy = z3.ToInt(xv + rx), z3.ToInt(yv + ry)
        def tap(k, l): return If(tand(fx + k >= 0, fx + k < nc, fy + l >= 0, fy + l < nr), LAN(xv - pixcoord(nc, fx + k), RealVal(w)) * LAN(yv - pixcoord(nr, fy + l), RealVal(w)) * psf.at(fy + l, fx + k).v, RealVal(0))
        got = c.simplified(c.unfolded(r.v), [Not(out)])
        c.ensures("inside the PSF: the Lanczos sum over the PSF pixels around the position", Implies(Not(out), got == sum(tap(k, l) for k in range(-w, w + 1) for l in range(-w, w + 1))))
    c.frame([])
    return c


def source(prog, name):
    """a point source is its total counts times the interpolated PSF at the (rotated) offset from its centre, in pixels of that PSF"""
    c = Ctx(prog, name + "::GetValue"); ex = c.ex; a = c.obj(name, "this"); off = c.int("offsetIndex", 0, 1 << 20)
    for f, v in (("pixelScaling", 1), ("imageRotation", 0), ("intensityScale", 1)): a.set(f, FVal(RealVal(v)))
    P = c.array("params", count=off + 2); x0, y0, x, y = (c.real(n) for n in ("xc", "yc", "x", "y")); s = c.int("scale", 1, 1 << 10)
    ip = ex.new_region("interpolator", cls="PsfInterpolator", mod=prog.mods[0]); log = []
    def h(ex, args, st, pc, ins): log.append((args, list(pc))); return FVal(UF(ex, "PSF", 2)(args[1].v, args[2].v))
    ex.prefix_contracts.append((r"PsfInterpolator::GetValue", h))
    for fn, args in (("AddPsfInterpolator(PsfInterpolator*)", [Ptr.to(ip)]), ("SetOversamplingScale(int)", [s]), ("Setup(double*, int, double, double)", [Ptr.to(P.reg), off, x0, y0])):
        c.run(name + "::" + fn, [a.ptr()] + args)
        c.pre = c.post; c.pc = list(c.rpc); ex.writes.clear()
    r = c.run(name + "::GetValue(double, double)", [a.ptr(), x, y])
    dx, dy = ToReal(s) * (x.v - x0.v), ToReal(s) * (y.v - y0.v); I = P.at(off).v
    if name == "PointSourceRot":
        I = P.at(off + 1).v; t = (P.at(off).v + 90) * RealVal("0.017453292519943295"); C, S = UF(ex, "COS")(t), UF(ex, "SIN")(t)
        dx, dy = dx * C + dy * S, -dx * S + dy * C
    c.ensures("total counts times the PSF at the offset from the centre", r.v == I * UF(ex, "PSF", 2)(dx, dy))
    for args, pc in log: c.ensures("the interpolator it was given is used", BoolVal(same_target(args[0].alts[-1][1], (ip, (), Poly.const(0)))), pc[len(c.pc):])
    c.frame([])
    return c


def setup(prog):
    """which interpolator a model gets, built from which PSF"""
    c = Ctx(prog, "ModelObject::SetupPsfInterpolation"); m = c.obj("ModelObject", "this"); ex = c.ex; g = m.get
    k = c.int("interpolationType", 0, 3); nc, nr = g("nPSFColumns"), g("nPSFRows"); c.requires(And(nc >= 0, nr >= 0))
    psf = m.array("localPsfPixels", stride=nc, rows=nr)
    logs = [logcalls(c, "PsfInterpolator_%s::PsfInterpolator_%s" % (q, q)) for q in KINDS]
    ret = c.run("ModelObject::SetupPsfInterpolation", [m.ptr(), k]); P = lambda f: m.get(f, c.post)
    ok = And(g("localPsfPixels_allocated") != 0, nc >= 4, nr >= 4)
    c.ensures("refused without a PSF, or with one too small to interpolate", And((ret == 0) == ok, Implies(Not(ok), ret < 0)))
    c.ensures("the interpolator exists afterwards", Implies(And(ok, k > 0), P("psfInterpolator_allocated") != 0))
    for n, L in enumerate(logs):
        c.ensures("%s interpolator" % KINDS[n], BoolVal(len(L) == 1))
        for e in L:
            c.ensures("%s interpolator only when asked for" % KINDS[n], And(ok, k == n + 1), e["pc"][len(c.pc):])
            c.ensures("%s interpolator gets the model's PSF, columns first" % KINDS[n], tand(BoolVal(same_target(e["args"][1].alts[-1][1], (psf.reg, (), Poly.const(0)))), e["args"][2] == nc, e["args"][3] == nr), e["pc"][len(c.pc):])
            c.ensures("the model keeps the %s interpolator" % KINDS[n], tor(*[cnd for cnd, t in P("psfInterpolator").alts if t and same_target(t, e["args"][0].alts[-1][1])] or [FALSE]), [ok, k == n + 1])
    c.frame(c.fields(m, "psfInterpolator", "psfInterpolator_allocated"))
    return c


def lab(f, n): f.label = n; return f


CONTRACTS = [kernel, setup] + [lab(lambda prog, k=k: ctor(prog, k), "ctor " + k) for k in KINDS] + [lab(lambda prog, k=k: value(prog, k), "value " + k) for k in KINDS] + [lab(lambda prog, k=k: value(prog, k, True), "node " + k) for k in KINDS] + [lab(lambda prog, k=k: source(prog, k), k) for k in ("PointSource", "PointSourceRot")]
