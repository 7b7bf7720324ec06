"""P08: every image function of the standard build returns its documented profile; sub-pixel integration is the mean over a regular grid in the pixel."""
from spec import *
from funcs import *

UNITS = FUNC_UNITS + ["function_objects/helper_funcs.cpp", "function_objects/helper_funcs_3d.cpp"]
FUNCTIONS = [x for n, _, _ in FUNCS if not n.startswith("Point") for x in (n + "::Setup", n + "::GetValue") + (() if "3D" in n or n in ("FlatSky", "TiltedSkyPlane") else (n + "::CalculateIntensity", n + "::CalculateSubsamples"))] + [
    "LuminosityDensity", "LuminosityDensityBED", "LuminosityDensityRing", "LuminosityDensity_FerrersBar", "LuminosityDensityDattathriPeanut3D", "Compute3dObjectCoords", "Calculate_bn"]
HARNESS = dict(src="P08.cpp")
LEVEL_NOTE = "value at a position proved equal to the documented profile for every parameter set, centre, position and parameter slice (26 functions; the point sources are P14), with sub-pixel integration equal to the mean over a regular grid for every number of subdivisions; 3-D functions: interval and integrand of the line-of-sight integral; no evaluation writes anything"
ASSUMPTIONS = ["floating-point arithmetic treated as real arithmetic; exp, log, sin, cos, sqrt, pow, cosh, atan and K1 are uninterpreted with their elementary facts", "Integrate() (GSL adaptive quadrature) is trusted to return the integral of the integrand it is given; the replay compares with an independent quadrature",
               "FlatBar with sub-pixel integration is compared at run time only (its profile is not defined on the minor axis)", "Sersic-type functions call Calculate_bn, which is checked against the Ciotti & Bertin and MacArthur et al. expansions; the replay checks those against the half-light condition", "subdivision counts: length parameters of at least 1e-6 pixel"]
DEG = RealVal("0.017453292519943295")
R = lambda v: RealVal(v) if not z3.is_expr(v) else v


class M:
    """real functions as the verifier sees them (uninterpreted)"""
    def __init__(self, ex):
        u = lambda n, k=1: ex.uff(n, *([RealSort()] * (k + 1)))
        self.exp, self.cos, self.sin, self.sqrt = [u(n) for n in ("EXP", "COS", "SIN", "SQRT")]
        self.cosh, self.atan, self.k1, self.bn, self.atan2 = u("COSH"), u("ATAN"), u("BESSK1"), u("SERSIC_BN"), u("ATAN2", 2)
        pw = u("POW", 2); self.pow = lambda a, b: pw(R(a), R(b))
        self.abs = lambda v: If(v >= 0, v, -v)


def frame_xy(m, pa, dx, dy):
    """coordinates along the major axis (position angle from +y) and perpendicular to it"""
    t = (pa + 90) * DEG
    return dx * m.cos(t) + dy * m.sin(t), -dx * m.sin(t) + dy * m.cos(t)


def ell_r(m, pa, ell, dx, dy):
    xp, yp = frame_xy(m, pa, dx, dy); yp = yp / (1 - ell)
    return m.sqrt(xp * xp + yp * yp)


def gen_r(m, pa, ell, c0, dx, dy):
    """generalised ellipse: exponent c0 + 2"""
    xp, yp = frame_xy(m, pa, dx, dy); e = c0 + 2
    return m.pow(m.pow(m.abs(xp), e) + m.pow(m.abs(yp / (1 - ell)), e), 1 / e)


def sersic_law(m, r, n, ie, re): return ie * m.exp(-m.bn(n) * (m.pow(r / re, 1 / n) - 1))
def gauss_law(m, a, d, s): return a * m.exp(-(d * d) / (2 * s * s))


def broken_law(m, i0, r, h1, h2, rb, al):
    """two exponentials joined smoothly at rb; far outside the break the outer exponential alone"""
    ex_ = (1 / al) * (1 / h1 - 1 / h2); s = m.pow(1 + m.exp(-al * rb), -ex_)
    return If(al * (r - rb) > 100, i0 * s * m.exp((rb / h2 - rb / h1) - r / h2), i0 * s * m.exp(-r / h1) * m.pow(1 + m.exp(al * (r - rb)), ex_))


def king_law(m, i0, r, rc, rt, al):
    t = 1 / m.pow(1 + (rt / rc) * (rt / rc), 1 / al); v = 1 / m.pow(1 + r * (1 / rc) * (r * (1 / rc)), 1 / al)
    return If(r < rt, i0 * m.pow(1 - t, -al) * m.pow(v - t, al), RealVal(0))


def sech_law(m, z, n, z0):
    """sech^(2/n) vertical profile (its exponential limit far from the plane)"""
    al = 2 / n
    return If(z / (al * z0) > 100, m.pow(2, al) * m.exp(-z / z0), m.pow(1 / m.cosh(z / (al * z0)), al))


def ferrers_law(m, i0, m2, n): return If(m2 > 1, RealVal(0), i0 * m.pow(1 - m2, n))
def ell(f): return lambda m, p, dx, dy: f(m, p, ell_r(m, p[0], p[1], dx, dy))


def core_sersic(m, p, r0):
    pa, e, n, ib, re, rb, al, ga = p; bn = m.bn(n); r = If(r0 < RealVal("0.001"), RealVal("0.001"), r0)
    ip = ib * m.pow(2, -ga / al) * m.exp(bn * m.pow(m.pow(2, 1 / al) * rb / re, 1 / n))
    return ip * m.pow(1 + m.pow(rb / r, al), ga / al) * m.exp(-bn * m.pow((m.pow(r, al) + m.pow(rb, al)) / m.pow(re, al), 1 / (al * n)))


def broken2d(m, p, dx, dy):
    xp, yp = frame_xy(m, p[0], dx, dy)
    return broken_law(m, p[1], m.abs(xp), p[2], p[3], p[4], p[5]) * m.exp(-m.abs(yp) / p[6])


def edge_ring(m, p, dx, dy):
    """two Gaussian blobs at +- ring radius, Gaussian in height"""
    xp, yp = frame_xy(m, p[0], dx, dy); z = m.abs(yp); v = z * z / (2 * p[4] * p[4]); d1 = p[2] - xp; d2 = -p[2] - xp
    return p[1] * m.exp(-(d1 * d1) / (2 * p[3] * p[3]) - v) + p[1] * m.exp(-(d2 * d2) / (2 * p[3] * p[3]) - v)


def edge_ring2(m, p, dx, dy):
    """as above, each blob with its own width inside and outside the ring radius"""
    xp, yp = frame_xy(m, p[0], dx, dy); z = m.abs(yp); v = z * z / (2 * p[5] * p[5]); inn, out = 2 * p[3] * p[3], 2 * p[4] * p[4]
    l, r = xp + p[2], xp - p[2]
    return p[1] * m.exp(-(l * l) / If(l < 0, out, inn) - v) + p[1] * m.exp(-(r * r) / If(r < 0, inn, out) - v)


def flatbar(m, p, dx, dy):
    """broken exponential whose break follows the circular radius and whose outer scale length tends to the inner one off the bar axis"""
    pa, e, dpa, i0, h1, h2, rb, al = p
    xp, yp = frame_xy(m, pa, dx, dy); ys = yp / (1 - e); r = m.sqrt(xp * xp + ys * ys); rc = m.sqrt(xp * xp + yp * yp); lim = dpa * DEG
    on = And(rc > 0, r > 0); t = m.abs(m.atan(yp / xp))
    h = If(on, If(t > lim, h1, h2 + (h1 - h2) / (lim * lim) * t * t), h2)
    return broken_law(m, i0, r, h1, h, If(on, r / rc * rb, rb), al)


def ring_az(m, p, dx, dy):
    """Gaussian ring whose amplitude varies with twice the angle to the major axis"""
    a1, a2 = p[2], p[3] * p[2]; r = ell_r(m, p[0], p[1], dx, dy); th = (p[0] + 90) * DEG - m.atan2(dy, dx)
    return gauss_law(m, (a1 + a2) / 2 + (a1 - a2) / 2 * m.cos(2 * th), m.abs(r - p[4]), p[5])


def ring2(m, p, r):
    """Gaussian ring with different widths inside and outside the ring radius"""
    d = m.abs(r - p[3]); return p[2] * m.exp(-(d * d) / If(r < p[3], 2 * p[4] * p[4], 2 * p[5] * p[5]))


def moffat(m, p, r):
    al = p[3] / 2 / m.sqrt(m.pow(2, 1 / p[4]) - 1)
    return p[2] / m.pow(1 + (r / al) * (r / al), p[4])


def edge_disk(m, p, dx, dy):
    """van der Kruit & Searle edge-on disk: 2 h L0 (r/h) K1(r/h), vertically sech^(2/n)"""
    xp, yp = frame_xy(m, p[0], dx, dy); r, z = m.abs(xp), m.abs(yp); h = p[2]
    return If(r == 0, 2 * h * p[1], 2 * h * p[1] * (r / h) * m.k1(r / h)) * sech_law(m, z, p[3], p[4])


PROFILE = dict(
    Exponential=ell(lambda m, p, r: p[2] * m.exp(-r / p[3])), Gaussian=ell(lambda m, p, r: gauss_law(m, p[2], r, p[3])), Sersic=ell(lambda m, p, r: sersic_law(m, r, *p[2:])),
    GenSersic=lambda m, p, dx, dy: sersic_law(m, gen_r(m, p[0], p[1], p[2], dx, dy), *p[3:]), GenExponential=lambda m, p, dx, dy: p[3] * m.exp(-gen_r(m, p[0], p[1], p[2], dx, dy) / p[4]),
    CoreSersic=ell(core_sersic), BrokenExponential=ell(lambda m, p, r: broken_law(m, p[2], r, *p[3:])), BrokenExponential2D=broken2d, EdgeOnRing=edge_ring, EdgeOnRing2Side=edge_ring2,
    FlatBar=flatbar, GaussianRing=ell(lambda m, p, r: gauss_law(m, p[2], m.abs(r - p[3]), p[4])), GaussianRing2Side=ell(ring2), GaussianRingAz=ring_az, Moffat=ell(moffat),
    ModifiedKing=ell(lambda m, p, r: king_law(m, p[2], r, p[3], p[4], p[5])), ModifiedKing2=ell(lambda m, p, r: king_law(m, p[2], r, p[3], p[4] * p[3], p[5])),
    FerrersBar2D=lambda m, p, dx, dy: ferrers_law(m, p[4], gen_r(m, p[0], p[1], p[2], dx, dy) ** 2 / (p[5] * p[5]), p[3]), FlatSky=lambda m, p, dx, dy: p[0],
    TiltedSkyPlane=lambda m, p, dx, dy: p[0] + p[1] * dx + p[2] * dy, EdgeOnDisk=edge_disk)


def sums_in(ex, e):
    import prover
    out = []; prover.apps_of(e, ex.sums, out, set())
    out = [a for a in out if ex.sums[a.decl().name()]["kind"] == "SUM"]
    inner = set()
    for a in out:
        for ch in a.children():
            o2 = []; prover.apps_of(ch, ex.sums, o2, set()); inner |= {aid(x) for x in o2}
    return [a for a in out if aid(a) not in inner]


def same_sum(c, name, lhs, rhs, hyps=(), depth=0):
    """lhs == rhs where both are built from one sum: the bounds and the terms agree (an obligation of its own), hence the sums"""
    import prover
    ex = c.ex; A, B = sums_in(ex, lhs), sums_in(ex, rhs)
    if len(A) != 1 or len(B) != 1: c.ensures(name, lhs == rhs, list(hyps)); return
    a, b = A[0], B[0]; ea, eb = ex.sums[a.decl().name()], ex.sums[b.decl().name()]
    i = Int("term%d" % depth)
    c.ensures(name + ": number of terms", a.children()[0] == b.children()[0], list(hyps))
    same_sum(c, name + (": terms" if not depth else ""), prover.inst_body(ea, a, i), prover.inst_body(eb, b, i), list(hyps) + [i >= 0, i < a.children()[0]], depth + 1)
    s = z3.Real("sum%d" % depth)
    c.ensures(name + (": total" if depth else ""), substitute(lhs, (a, s)) == substitute(rhs, (b, s)), list(hyps))


def values(name, roles):
    def value(prog):
        out = []
        for sub in (False, True):
            if sub and name in ("FlatSky", "TiltedSkyPlane"): continue
            c = Ctx(prog, name + "::GetValue"); N = len(roles); ex = c.ex; m = M(ex)
            a = c.obj(name, "this"); off = c.int("offsetIndex", 0, 1 << 20)
            for f, v in (("pixelScaling", 1), ("imageRotation", 0), ("intensityScale", 1)): a.set(f, FVal(RealVal(v)))
            P = c.array("params", count=off + N); x0, y0, x, y = [c.real(n) for n in ("xc", "yc", "x", "y")]
            prm = [P.at(off + k).v for k in range(N)]
            for v, d in zip(prm, DOMAIN[name]):
                if d == "+": c.requires(v > 0)
                if d == "e": c.requires(v >= 0, v < 1)
                if d == "c": c.requires(v > -2)
            if "King" in name: ex.opts["pow_total"] = True
            ex.prefix_contracts.append((r"Calculate_bn\(", lambda ex, args, st, pc, ins: FVal(m.bn(args[0].v), And(args[0].ok, args[0].v > 0))))
            c.run(name + "::Setup(double*, int, double, double)", [a.ptr(), Ptr.to(P.reg), off, x0, y0]); c.pc = list(c.rpc)
            ns = Int("nSubsamples") if sub else IntVal(1)
            if sub: c.requires(ns > 1, ns <= 100); c.pc += [ns > 1, ns <= 100]
            ex.prefix_contracts.append((name + r"::CalculateSubsamples\(", lambda ex, args, st, pc, ins: ns))
            if name == "FlatBar":
                if sub: continue
                c.pc.append(frame_xy(m, prm[0], x.v - x0.v, y.v - y0.v)[0] != 0)
            c.pre = c.post; ex.writes.clear()
            ret = c.run(name + "::GetValue(double, double)", [a.ptr(), x, y])
            prof = lambda px, py: PROFILE[name](m, prm, px - x0.v, py - y0.v)
            if sub:
                d = 1 / ToReal(ns); h = RealVal("1/2")
                want = ex.SUM(lambda i: ex.SUM(lambda j: prof(x.v - h + h * d + ToReal(i) * d, y.v - h + h * d + ToReal(j) * d), ns), ns) / (ToReal(ns) * ToReal(ns))
                nm = "with sub-pixel integration: mean of the profile over the regular grid in the pixel"
            else: want = prof(x.v, y.v); nm = "without sub-pixel integration: the documented profile"
            same_sum(c, nm, ret.v, want)
            c.ensures(nm + " (finite)", ret.ok)
            c.frame([]); out.append(c)
        return out
    value.label = name
    return value


SCALES = dict(Exponential=["h"], Gaussian=["sigma"], Sersic=["r_e"], GenSersic=["r_e"], GenExponential=["h"], CoreSersic=["r_e"], BrokenExponential=["h1"], BrokenExponential2D=["h1"], FlatBar=["h1"],
              Moffat=["alpha"], ModifiedKing=["r_c"], ModifiedKing2=["r_c"], FerrersBar2D=["a_bar"], EdgeOnDisk=["h", "z_0"], EdgeOnRing=[], EdgeOnRing2Side=[], GaussianRing=[], GaussianRing2Side=[], GaussianRingAz=[])


def subsamples(prog):
    """the contract GetValue relies on: between 1 and 100 subdivisions, none when sub-pixel integration is off"""
    out = []
    for name, scales in SCALES.items():
        fn = prog.demangle(prog.find(name + "::CalculateSubsamples")[0])
        c = Ctx(prog, name + "::CalculateSubsamples"); a = c.obj(name, "this")
        for f in scales: c.requires(a.get(f).v >= RealVal("0.000001"), a.get(f).ok)
        args = [c.real(n) for n in ("r", "z")[:fn.count("double")]]
        if len(args) == 1: c.requires(args[0].v >= 0)
        r = c.run(fn, [a.ptr()] + args)
        c.ensures("between 1 and 100 subdivisions", And(r >= 1, r <= 100))
        c.ensures("1 when sub-pixel integration is off", r == 1, [a.get("doSubsampling") == 0] if scales else [])
        c.frame([]); out.append(c)
    return out


def bn(prog):
    """Ciotti & Bertin (1999) for n > 0.36, MacArthur et al. (2003) below"""
    c = Ctx(prog, "Calculate_bn"); v = c.real("n"); n = v.v; c.requires(n > 0)
    ret = c.run("Calculate_bn(double)", [v]); r = lambda s: RealVal(repr(float(s))); n2 = n * n
    hi = 2 * n - r("0.333333333333333") + r("0.009876543209876543") / n + r("0.0018028610621203215") / n2 + r("0.00011409410586365319") / (n2 * n) - r("7.151012295891972e-05") / (n2 * n2)
    lo = r("0.01945") + r("-0.8902") * n + r("10.95") * n2 + r("-19.67") * n2 * n + r("13.43") * n2 * n2
    c.ensures("Ciotti-Bertin expansion for n > 0.36", ret.v == hi, [n > r("0.36")])
    c.ensures("MacArthur et al. polynomial for small n", ret.v == lo, [n <= r("0.36")])
    c.ensures("finite", ret.ok); c.frame([])
    return c


# ---- functions integrated along the line of sight: (limit, density at the point (x, y, z) of the component's frame, x axis = line of nodes, z axis = its pole)
def plane_rot(m, deg, x, y): return x * m.cos(deg) + y * m.sin(deg), -x * m.sin(deg) + y * m.cos(deg)


def ring3d(m, p, x, y, z):
    xr, yr = plane_rot(m, (p[2] + 90) * DEG, x, y); ys = yr / (1 - p[3]); d = m.sqrt(xr * xr + ys * ys) - p[5]
    return p[4] * m.exp(-d * d / (2 * p[6] * p[6])) * m.exp(-m.abs(z) / p[7])


def ferrers3d(m, p, x, y, z):
    """ellipsoid with semi-major axis R along the bar, R q across it in the plane and R q_z vertically"""
    xb, yb = plane_rot(m, (p[2] + 90) * DEG, x, y); a2 = p[4] * p[4]
    return ferrers_law(m, p[3], yb * yb / a2 + xb * xb / (p[5] * p[5] * a2) + z * z / (p[6] * p[6] * a2), p[7])


def peanut3d(m, p, x, y, z):
    """sech^2 of the generalised ellipsoidal radius, with two Gaussian bumps of the scale height at +- R_peanut"""
    pa, inc, psi, j0, rx, q, qz, rp, ap, sp, cpar, cperp = p; xb, yb = plane_rot(m, psi * DEG, x, y); ry, rz = q * rx, qz * rx
    bump = lambda c: ap * m.exp(-((xb - c) * (xb - c) / (2 * (sp * sp)) + yb * yb / (2 * (sp * sp))))
    z0 = bump(rp) + bump(-rp) + rz
    rs = m.pow(m.pow(m.abs(xb) / rx, cperp) + m.pow(m.abs(yb) / ry, cperp), cpar / cperp) + m.pow(m.abs(z) / z0, cpar)
    return j0 * m.pow(m.cosh(m.pow(rs, 1 / cpar)), -2)


def zmax(a, b): return If(a > b, a, b)
LOS = dict(
    ExponentialDisk3D=("LuminosityDensity", lambda m, p: 20 * p[3], lambda m, p, x, y, z: p[2] * m.exp(-m.sqrt(x * x + y * y) / p[3]) * sech_law(m, m.abs(z), p[4], p[5])),
    BrokenExponentialDisk3D=("LuminosityDensityBED", lambda m, p: zmax(20 * p[5], 20 * p[4]), lambda m, p, x, y, z: broken_law(m, p[2], m.sqrt(x * x + y * y), *p[3:7]) * sech_law(m, m.abs(z), p[7], p[8])),
    GaussianRing3D=("LuminosityDensityRing", lambda m, p: 2 * p[5], ring3d),
    FerrersBar3D=("LuminosityDensity_FerrersBar", lambda m, p: RealVal("1.01") * zmax(m.sqrt(p[5] * p[5] * (p[4] * p[4])) * m.sin(p[1] * DEG), p[4]), ferrers3d),
    DattathriPeanut3D=("LuminosityDensityDattathriPeanut3D", lambda m, p: 10 * p[4], peanut3d))


def los(name, roles):
    dens, limit, prof = LOS[name]
    def line_of_sight(prog):
        c = Ctx(prog, name + "::GetValue"); N = len(roles); ex = c.ex; m = M(ex)
        a = c.obj(name, "this"); off = c.int("offsetIndex", 0, 1 << 20)
        for f, v in (("pixelScaling", 1), ("imageRotation", 0), ("intensityScale", 1)): a.set(f, FVal(RealVal(v)))
        P = c.array("params", count=off + N); x0, y0, x, y, s = [c.real(n) for n in ("xc", "yc", "x", "y", "s")]
        prm = [P.at(off + k).v for k in range(N)]
        for v, d in zip(prm, DOMAIN[name]):
            if d == "+": c.requires(v > 0)
            if d == "e": c.requires(v >= 0, v < 1)
        c.run(name + "::Setup(double*, int, double, double)", [a.ptr(), Ptr.to(P.reg), off, x0, y0])
        c.pre = c.post; c.pc = list(c.rpc); ex.writes.clear()
        calls = []; total = c.real("line integral")
        def integ(ex, args, st, pc, ins): calls.append((args, st.copy(), list(pc))); return total
        ex.prefix_contracts.append((r"Integrate\(", integ))
        ret = c.run(name + "::GetValue(double, double)", [a.ptr(), x, y])
        if len(calls) != 1: raise Unsupported("Integrate is called %d times on one path" % len(calls))
        (fn, par, lo, hi), st, pc = calls[0]
        c.ensures("GetValue returns the integral along the line of sight, whatever it is", feq(ret, total)); c.frame([])
        c.ensures("the integral runs over the documented interval, symmetric about the sky plane", And(lo.v == -hi.v, hi.v == limit(m, prm), lo.ok, hi.ok))
        c.pre = st; c.pc = pc; ex.writes.clear()
        r = c.run(dens + "(double, void*)", [s, par])
        xp, yp = frame_xy(m, prm[0], x.v - x0.v, y.v - y0.v); i = prm[1] * DEG
        c.ensures("the integrand at distance s is the documented density at that point of the inclined component", r.v == prof(m, prm, xp, yp * m.cos(i) + s.v * m.sin(i), yp * m.sin(i) - s.v * m.cos(i)))
        c.ensures("the density is finite", r.ok); c.frame([])
        return c
    line_of_sight.label = name
    return line_of_sight


DOMAIN = dict(Exponential="-e-+", Gaussian="-e-+", Sersic="-e+-+", GenSersic="-ec+-+", GenExponential="-ec-+", CoreSersic="-e+-++++", BrokenExponential="-e-++++", BrokenExponential2D="--+++++", EdgeOnRing="--+++",
              EdgeOnRing2Side="--++++", FlatBar="-e+-++++", GaussianRing="-e-++", GaussianRing2Side="-e-+++", GaussianRingAz="-e--++", Moffat="-e-++", ModifiedKing="-e-+++", ModifiedKing2="-e-+++", FerrersBar2D="-ec+-+",
              FlatSky="-", TiltedSkyPlane="---", EdgeOnDisk="--+++", ExponentialDisk3D="---+++", BrokenExponentialDisk3D="---++++++", GaussianRing3D="---e-+++", FerrersBar3D="----++++", DattathriPeanut3D="----++++++++")
CONTRACTS = [bn, subsamples] + [values(n, r) for n, _, r in FUNCS if n in PROFILE] + [los(n, r) for n, _, r in FUNCS if n in LOS]
