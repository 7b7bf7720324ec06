"""P15: multi-image parameter assembly and joint statistics."""
from spec import *
from mo import *

UNITS = ["core/model_object_multimage.cpp", "core/param_holder.cpp", "core/paramvector_processing.cpp", "core/model_object.cpp"]
HARNESS = dict(src="P15.cpp")
FUNCTIONS = ["ExtractImageParams", "CalculateOffset_X0Y0", "AssembleParamsForImage", "ParamHolder::AssembleParametersForImage", "ParamHolder::AddNewParameterVector", "ParamHolder::GetImageParams", "ParamHolder::GetParamsForModelObject", "ParamHolder::GeneralSetup",
             "ModelObjectMultImage::GetFitStatistic", "ModelObjectMultImage::ComputeDeviates", "ModelObjectMultImage::CreateAllModelImages", "ModelObjectMultImage::GetNValidPixels", "ModelObjectMultImage::UseBootstrap", "ModelObjectMultImage::MakeBootstrapSample",
             "ModelObjectMultImage::FinalSetupForFitting", "ModelObjectMultImage::AddModelObject", "ModelObjectMultImage::FinalModelSetup", "ModelObjectMultImage::SetupParamHolder"]
LEVEL_NOTE = "for all numbers of images, functions and parameters: every entry of every image's parameter vector is the documented one, and the joint statistic / deviates are the individual ones, each in its own contiguous slot (also in bootstrap mode)"
ASSUMPTIONS = ["real arithmetic; cos and sin are uninterpreted functions of the rotation in radians", "parameter counts of one function or image are at most 1024 (no int overflow)", "the first function starts a function set; where a later function starts one, the number of sets is at least 2 (DefineFunctionSets establishes both)",
               "ModelObject::ChiSquared, CashStatistic, ComputeDeviates, CreateModelImage through their own contracts (P01, P03, P11)"]
DEG2RAD = RealVal("0.017453292519943295")


def mapped(ex, ps, rot, xr, yr, xn, yn, xi, yi):
    """documented position in an image of a centre at (xn,yn) in the reference image"""
    COS, SIN = [ex.uff(n, RealSort(), RealSort()) for n in ("COS", "SIN")]
    t = DEG2RAD * rot
    dx, dy = xn - xr, yn - yr
    return xi + (dx * COS(t) + dy * SIN(t)) / ps, yi + (-dx * SIN(t) + dy * COS(t)) / ps


def vectors(prog):
    out = []
    c = Ctx(prog, "ExtractImageParams")
    n = c.int("imageNumber", -5, 1 << 16)
    p = c.array("params", finite=True)
    outs = [c.array(x, count=1, finite=True) for x in ("pixScale", "rotation", "intensityScale", "X0", "Y0")]
    ret = c.run("ExtractImageParams", [Ptr.to(p.reg), n] + [Ptr.to(a.reg) for a in outs])
    for k, a in enumerate(outs):
        c.ensures("entry %d of the image's own block of five" % k, Implies(n >= 1, feq(a.new(0), p.at(norm_int(5 * (n - 1) + k)))))
        c.ensures("the reference image has no such block: output %d unchanged" % k, Implies(n <= 0, feq(a.new(0), a.at(0))))
    c.ensures("status", ret == If(n >= 1, IntVal(0), IntVal(-1)))
    c.frame([a.reg for a in outs])
    out.append(c)
    c = Ctx(prog, "CalculateOffset_X0Y0")
    v = [c.real(x) for x in ("X0ref", "Y0ref", "Xnref", "Ynref", "X0im", "Y0im", "pixScale", "rotation")]
    c.ex.prefix_contracts.append((r"fprintf$", lambda ex, args, st, pc, ins: calls.ret_default(ex, args, ins, "fprintf")))
    r = c.ex.new_region("result"); r.single = True; r.mod = prog.mods[0]; r.bytes = None
    c.run("CalculateOffset_X0Y0", [Ptr.to(r)] + v)
    e = mapped(c.ex, v[6].v, v[7].v, *[x.v for x in v[:6]])
    for name, off, want in (("x", 16, e[0]), ("y", 8, e[1])):
        got = c.ex.load1(c.post, r, (), Poly.const(off), F64, [], "tuple element")
        c.ensures("%s is the image's own centre plus the rotated, rescaled reference-image offset" % name, Implies(v[6].v > 0, tand(got.ok, got.v == want)))
        c.ensures("%s is zero for an unusable pixel scale" % name, Implies(v[6].v <= 0, got.v == 0))
    s = c.ex.load1(c.post, r, (), Poly.const(0), I32, [], "tuple element")
    c.ensures("status tells an unusable pixel scale", s == If(v[6].v > 0, IntVal(0), IntVal(-1)))
    out.append(c)
    return out


class Asm:
    """ghost view of the parameter layout: global functions n with sizes and set-start flags; image blocks; local blocks"""

    def __init__(self, c, o, nF, ps, flags, nM, nI, params, local=None):
        self.c = c; self.nF = nF; self.ps = ps; self.flags = flags; self.nM = nM; self.nI = nI; self.p = params; self.local = local

    def size(self, n): return self.ps.at(n, ty=I32)
    def flag(self, n): return self.flags.at(n, ty=I8) != 0
    def pos(self, n):
        """position (in the image's own vector) of the first entry belonging to function n, a preceding centre included"""
        z = IntVal(0)
        return If(n <= 0, z, self.size(z) + 2 + self.c.ex.SUM(lambda k: norm_int(self.size(norm_int(k + 1)) + If(self.flag(norm_int(k + 1)), IntVal(2), z)), norm_int(n - 1)))


def assemble(prog):
    out = []
    for label, fn in (("ParamHolder::AssembleParametersForImage", 0), ("AssembleParamsForImage", 1)):
      for first in (False, True):
        c = Ctx(prog, "%s (%s)" % (label, "reference image" if first else "other images")); ex = c.ex
        params = c.array("params", finite=True); outp = c.array("out", finite=True)
        im = c.int("imageNumber", 0, 1 << 15)
        c.requires(im == 0 if first else im >= 1)
        COS, SIN = [ex.uff(n, RealSort(), RealSort()) for n in ("COS", "SIN")]
        if fn == 0:
            o = c.obj("ParamHolder", "holder"); g = o.get
            nF, nM, nIP, nSets, nI = g("nFunctions"), g("nModelParameters"), g("nImageParameters"), g("nFunctionSets"), g("nImages")
            ps = o.vec("parameterSizes"); lv = o.vec("nLocalParamsForImages")
            flags = o.array("functionSetStartFlags", count=nF, ety=I8)
            local = Arr(c, lv.data)
            c.requires(lv.size == nI, nI <= 1 << 15, im < nI)
            L = lambda k: local.at(k, ty=I32)
            a = [o.ptr(), Ptr.to(params.reg), im, Ptr.to(outp.reg)]
        else:
            nF, nI, nSets, nTot = c.int("nFunctions"), c.int("nImages", 1, 1 << 15), c.int("nSets"), c.int("nTot", 0, 1 << 26)
            nIP = 5 * (nI - 1); nM = nTot - nIP
            pp, ps = c.vecparam("int", "paramSizes")
            flags = c.array("flags", ety=I8, count=nF)
            c.requires(im < nI)
            a = [Ptr.to(params.reg), nTot, nI, im, nF, pp, Ptr.to(flags.reg), nSets, Ptr.to(outp.reg)]
        c.requires(ps.size == nF, nF >= 1, nF <= 1 << 12, nM >= 0, nM <= 1 << 24, nIP == 5 * (nI - 1), nI >= 1)
        A = Asm(c, None, nF, Arr(c, ps.data), flags, nM, nI, params)
        size0 = ex.initc[(ps.data, 0)] if (ps.data, 0) in ex.initc else None
        A.size(IntVal(0)); size0 = ex.initc[(ps.data, 0)]
        ex.uf_inv.setdefault(size0.base[1], []).append(lambda q, x: And(x >= 0, x <= 1 << 10))
        c.requires(A.flag(IntVal(0)), nSets >= 1, nM >= A.pos(nF))
        ex.uf_inv.setdefault(ex.initc[(flags.reg, 0)].base[1], []).append(lambda q, x, nF=nF, nSets=nSets: Implies(And(q[-1] >= 1, q[-1] < nF, x != 0), nSets >= 2))   # number of function sets
        c.run(label, a)
        ex = c.ex
        n, hn = c.index("n", 0, nF)
        i, hi = c.index("i", 0, nM)
        P = lambda k: params.at(norm_int(nIP + k)).v
        if first:
            c.ensures("the reference image gets the model parameters as they are", feq(outp.new(i), params.at(norm_int(nIP + i))), hi)
        else:
            blk = lambda k: params.at(norm_int(5 * (im - 1) + k)).v
            c.ensures("the first centre is the image's own", tand(outp.new(0).v == blk(3), outp.new(1).v == blk(4)), [A.pos(nF) >= 2])
            e = mapped(ex, blk(0), blk(1), P(0), P(1), P(A.pos(n)), P(A.pos(n) + 1), blk(3), blk(4))
            ex.cands += [(n,), (norm_int(n - 1),)]
            for q, w in ((0, "x"), (1, "y")):
                c.ensures("the %s centre of every later function set is the mapped reference centre" % w, Implies(tand(A.flag(n), blk(0) > 0), outp.new(A.pos(n) + q).v == e[q]), hn + [n >= 1])
            j, hj = c.index("j", 0, A.size(n))
            at = norm_int(A.pos(n) + If(A.flag(n), IntVal(2), IntVal(0)) + j)
            c.ensures("every function parameter is the shared one", outp.new(at).v == P(at), hn + hj)
        if fn == 0:
            l, hl = c.index("l", 0, L(im))
            st = ex.SUM(L, im)
            c.ensures("local parameters are the image's own block after the shared parameters", feq(outp.new(norm_int(nM + l)), params.at(norm_int(nIP + nM + st + l))), hl)
        k, hk = c.index("k", 0, None) if False else (Int("any_k"), [])
        c.frame([outp.reg])
        out.append(c)
    return out


def holder_obj(c):
    o = c.obj("ParamHolder", "holder"); nI = o.get("nImages")
    c.requires(nI >= 1, nI <= 1 << 15)
    arr = {w: o.array(w, count=nI, finite=True) for w in ("pixelScales", "rotationAngles", "intensityScales", "imageX0s", "imageY0s")}
    v, fam = vec_of_ptrs(c, o, "perImageModelParameters", "double")
    fam.ety = F64; fam.bytes = None; fam.finite = True; fam.single = False; fam.mod = c.prog.mods[0]
    n = o.vec("nParamsPerModelObj")
    c.requires(v.size == nI, n.size == nI)
    cnt = Arr(c, n.data)
    return o, nI, arr, v, fam, lambda i: cnt.at(i, ty=I32)


def holder(prog):
    out = []
    c = Ctx(prog, "ParamHolder::AddNewParameterVector"); ex = c.ex
    o, nI, arr, v, fam, cnt = holder_obj(c)
    params = c.array("params", finite=True)
    PIV = ex.uff("OWN", IntSort(), IntSort(), RealSort()); log = []
    def asm(ex, args, st, pc, ins):
        t = [t for _, t in args[3].alts if t is not None]
        if len(t) != 1 or t[0][0] is not fam: raise Unsupported("AssembleParametersForImage output")
        key, off = t[0][1][0], Poly.of(t[0][2])
        if not ex.quiet:
            ex.oblig("every image's vector is assembled for that image, at its start, from the vector given", tand(args[2] == key, off.z() == 0, BoolVal(same_target([q for _, q in args[1].alts if q is not None][0], (params.reg, (), Poly.const(0))))), list(pc))
            log.append(list(pc))
        b = Int("asb!")
        c0 = st.arr.get((fam, 0)) or ex.init_content(fam, 0, F64)
        st.arr[(fam, 0)] = c0.add(Rec((b,), TRUE, (key, b), FVal(PIV(key, b))))
        ex.writes.append((fam, 0, ex.fn_stack[-1], ex.cur_line))
        return None
    ex.prefix_contracts.append((r"ParamHolder::AssembleParametersForImage\(", asm))
    c.run("ParamHolder::AddNewParameterVector", [o.ptr(), Ptr.to(params.reg)])
    i, hi = c.index("image", 0, nI); j, hj = c.index("j", 0, None) if 0 else (Int("any_j"), [Int("any_j") >= 0])
    blk = lambda k: params.at(norm_int(5 * (i - 1) + k)).v
    for k, (w, d) in enumerate((("pixelScales", 1), ("rotationAngles", 0), ("intensityScales", 1), ("imageX0s", 0), ("imageY0s", 0))):
        c.ensures("%s of the reference image has its default" % w, arr[w].new(0).v == d)
        c.ensures("%s of the other images come from their own block" % w, Implies(i >= 1, arr[w].new(i).v == blk(k)), hi)
    c.ensures("every image's own vector is reassembled", Arr(c, fam, (i,)).new(j).v == PIV(i, j), hi + hj)
    c.frame([a.reg for a in arr.values()] + [fam])
    out.append(c)
    c = Ctx(prog, "ParamHolder::GetImageParams"); o, nI, arr, v, fam, cnt = holder_obj(c)
    i = c.int("nImage", 0); c.requires(i < nI)
    d = c.array("descr", count=3, finite=True)
    c.run("ParamHolder::GetImageParams", [o.ptr(), i, Ptr.to(d.reg)])
    for k, w in enumerate(("pixelScales", "rotationAngles", "intensityScales")): c.ensures("%s of that image" % w, d.new(k).v == arr[w].at(i).v)
    c.frame([d.reg])
    out.append(c)
    c = Ctx(prog, "ParamHolder::GetParamsForModelObject"); o, nI, arr, v, fam, cnt = holder_obj(c)
    i = c.int("nImage", 0); c.requires(i < nI, cnt(i) >= 0)
    d = c.array("result", count=cnt(i), finite=True)
    c.run("ParamHolder::GetParamsForModelObject", [o.ptr(), i, Ptr.to(d.reg)])
    j, hj = c.index("j", 0, cnt(i))
    c.ensures("every parameter of that image is handed out at its own position", feq(d.new(j), Arr(c, fam, (i,)).at(j)), hj)
    c.frame([d.reg])
    out.append(c)
    return out


def setup(prog):
    c = Ctx(prog, "ParamHolder::GeneralSetup"); ex = c.ex
    o = c.obj("ParamHolder", "holder")
    c.requires(o.get("nLocalParams") == 0)
    nI, nF, nP, nS = c.int("nImages", 1, 1 << 12), c.int("nFuncs", 1, 1 << 12), c.int("nParamsTot", 0, 1 << 26), c.int("nFuncSets", 1, 1 << 12)
    pp, ps = c.vecparam("int", "paramSizes"); lp, loc = c.vecparam("int", "localCounts")
    flags = c.array("flags", ety=I8, count=nF)
    c.requires(ps.size == nF, loc.size == nI, o.vec("perImageModelParameters").size == 0, o.vec("nParamsPerModelObj").size == 0)
    L = lambda k: Arr(c, loc.data).at(k, ty=I32)
    L(IntVal(0))
    ex.uf_inv.setdefault(ex.initc[(loc.data, 0)].base[1], []).append(lambda q, x: And(x >= 0, x <= 1 << 10))
    tot = ex.SUM(L, nI)
    c.requires(nP >= 5 * (nI - 1) + tot)
    c.run("ParamHolder::GeneralSetup", [o.ptr(), nI, nF, nP, nS, pp, Ptr.to(flags.reg), lp])
    g = lambda w: o.get(w, c.post)
    c.ensures("number of image-description parameters", g("nImageParameters") == 5 * (nI - 1))
    c.ensures("number of shared model parameters", g("nModelParameters") == nP - 5 * (nI - 1) - tot)
    c.ensures("counts are recorded", tand(g("nImages") == nI, g("nFunctions") == nF, g("nFunctionSets") == nS))
    i, hi = c.index("image", 0, nI)
    v = o.vec("nParamsPerModelObj", c.post); w = o.vec("perImageModelParameters", c.post)
    c.ensures("one vector per image", tand(v.size == nI, w.size == nI))
    cnt = Arr(c, v.data, v.keys).at(i, state=c.post, ty=I32)
    c.ensures("... with room for the shared and its own local parameters", cnt == g("nModelParameters") + L(i), hi)
    return c


def ghost(c, name):
    """ghost integer per object, initially 0"""
    r = c.ex.new_region("ghost:" + name, ety=I32, mod=c.prog.mods[0], nkeys=1)
    r.bytes = None; r.single = True; r.boolean = False; r.kind = "ghost"
    c.pre.arr[(r, 0)] = Content(("const", IntVal(0)))
    return r


class Multi:
    """ModelObjectMultImage with its models, per-image parameter arrays and its ParamHolder behind the contracts proved above"""

    def __init__(self, c):
        self.c = c; ex = self.ex = c.ex; self.o = o = c.obj("ModelObjectMultImage", "multi"); g = o.get
        self.n = g("nModelObjects"); c.requires(self.n >= 1, self.n <= 1 << 12)
        self.ov, self.ofam = vec_of_ptrs(c, o, "modelObjectsVect", "ModelObject")
        self.pv, self.pfam = vec_of_ptrs(c, o, "paramsForModelObjects", "double")
        self.dv, self.dfam = vec_of_ptrs(c, o, "imageDescriptionParams", "double")
        for f in (self.pfam, self.dfam): f.ety = F64; f.bytes = None; f.single = False; f.finite = True; f.mod = c.prog.mods[0]
        for v in (self.ov, self.pv, self.dv): c.requires(v.size == self.n)
        I, R = IntSort(), RealSort()
        self.OWN, self.DESCR = ex.uff("OWN", I, I, R), ex.uff("DESCR", I, I, R)
        self.NDATA, self.NVALID = ex.uff("NDATA", I, I), ex.uff("NVALID", I, I)
        self.f = {w: ex.uff(w, I, R) for w in ("CHI2", "CASH")}
        for nm, f in (("NDATA", self.NDATA), ("NVALID", self.NVALID)): ex.uf_inv[nm] = [lambda a, x: And(x >= 0, x <= 1 << 30)]
        self.params = c.array("params", finite=True)
        self.held = []; self.calls = []; self.K = K = 0
        p = ex.prefix_contracts
        p.append((r"ParamHolder::AddNewParameterVector\(", self.h_add))
        p.append((r"ParamHolder::GetImageParams\(", lambda *a: self.h_get(self.dfam, self.DESCR, "image description", 3, *a)))
        p.append((r"ParamHolder::GetParamsForModelObject\(", lambda *a: self.h_get(self.pfam, self.OWN, "parameters", None, *a)))
        p.append((r"ModelObject::SetImageParameters\(", self.h_set))
        p.append((r"ModelObject::GetNDataValues\(", lambda ex, args, st, pc, ins: self.NDATA(self.key(args[0]))))
        p.append((r"ModelObject::GetNValidPixels\(", lambda ex, args, st, pc, ins: self.NVALID(self.key(args[0]))))
        self.setup = logcalls(c, "ModelObjectMultImage::SetupParamHolder")

    def key(self, p, fam=None):
        ts = [t for _, t in p.alts if t is not None]
        if len(ts) != 1 or ts[0][0] is not (fam or self.ofam) or not (Poly.of(ts[0][2]).is_const() and Poly.of(ts[0][2]).c() == 0): raise Unsupported("object or array not among the ones of this model")
        return norm_int(ts[0][1][0])

    def need(self, name, goal, pc):
        if not self.ex.quiet: self.ex.oblig("%s: %s" % (self.c.label, name), goal, list(pc), "pre")

    def h_add(self, ex, args, st, pc, ins):
        self.need("the parameters handed on are the ones given", BoolVal(same_target([q for _, q in args[1].alts if q is not None][0], (self.params.reg, (), Poly.const(0)))), pc)
        if not ex.quiet: self.held.append(len(ex.loopstack))
        return None

    def h_get(self, fam, F, what, count, ex, args, st, pc, ins):
        k = self.key(args[2], fam)
        self.need("%s of image i go to the array of image i" % what, args[1] == k, pc)
        if not ex.quiet: self.calls.append((what, list(pc)))
        if not self.held and not ex.quiet: self.need("the holder has the new parameters", FALSE, pc)
        b = Int("gpa!")
        c0 = st.arr.get((fam, 0)) or ex.init_content(fam, 0, F64)
        st.arr[(fam, 0)] = c0.add(Rec((b,), And(b >= 0, b < count) if count else TRUE, (k, b), FVal(F(args[1], b))))
        ex.writes.append((fam, 0, ex.fn_stack[-1], ex.cur_line))
        return None

    def has(self, fam, F, n, st, pc, what, count=None):
        j = Int("any_own%d" % len(self.ex.obls)); self.ex.loopvars[aid(j)] = j
        v = Arr(self.c, fam, (n,)).at(j, state=st)
        self.need(what, tand(v.ok, v.v == F(n, j)), list(pc) + [j >= 0] + ([j < count] if count else []))

    def h_set(self, ex, args, st, pc, ins):
        n = self.key(args[0])
        self.need("an image's description is set from its own array", self.key(args[1], self.dfam) == n, pc)
        self.has(self.dfam, self.DESCR, n, st, pc, "the description set is the current one of that image", 3)
        self.wr(self.g_descr(), n, IntVal(1), st)
        return None

    # ghost: description set for image n
    def g_descr(self):
        if not hasattr(self, "gd"): self.gd = ghost(self.c, "description set")
        return self.gd

    def wr(self, reg, n, v, st):
        c0 = st.arr.get((reg, 0)) or Content(("const", IntVal(0)))
        st.arr[(reg, 0)] = c0.add(Rec((), TRUE, (n,), v))
        self.ex.writes.append((reg, 0, self.ex.fn_stack[-1], self.ex.cur_line))

    def rd(self, reg, n, st): return self.ex.read_content(reg, st.arr.get((reg, 0)) or Content(("const", IntVal(0))), (n,), 0)

    def own_params(self, n, p, st, pc):
        self.need("an image's model is evaluated with its own array", self.key(p, self.pfam) == n, pc)
        self.has(self.pfam, self.OWN, n, st, pc, "the parameters used are the current ones of that image")
        self.need("the image description has been set before", self.rd(self.g_descr(), n, st) == 1, pc)

    def virtual(self, name, fn): self.ex.prefix_contracts.append((r"ModelObject::%s\(" % name, fn))


def statistic(prog):
    out = []
    c = Ctx(prog, "ModelObjectMultImage::GetFitStatistic"); m = Multi(c); g = m.o.get; m.g_descr()
    def ev(kind):
        def h(ex, args, st, pc, ins):
            n = m.key(args[0]); m.own_params(n, args[1], st, pc)
            return FVal(m.f[kind](n))
        return h
    m.virtual("ChiSquared", ev("CHI2")); m.virtual("CashStatistic", ev("CASH"))
    ret = c.run("ModelObjectMultImage::GetFitStatistic", [m.o.ptr(), Ptr.to(m.params.reg)])
    cash = g("useCashStatistic") != 0
    c.ensures("joint statistic is the sum over all images of the statistic in use", tand(ret.ok, ret.v == c.ex.SUM(lambda n: If(cash, m.f["CASH"](n), m.f["CHI2"](n)), m.n)))
    c.ensures("new parameters are handed to the holder once, before anything else", BoolVal(m.held == [0]))
    c.frame([m.pfam, m.dfam, m.gd])
    out.append(c)
    for boot in (False, True):
        c = Ctx(prog, "ModelObjectMultImage::ComputeDeviates (%s)" % ("bootstrap" if boot else "no bootstrap")); m = Multi(c); g = m.o.get; m.g_descr()
        b = g("doBootstrap") != 0
        c.requires(b if boot else Not(b))
        y = c.array("yResults", finite=None)
        DEV = c.ex.uff("DEVIATE", IntSort(), IntSort(), RealSort())
        LEN = m.NVALID if boot else m.NDATA
        start = lambda n: c.ex.SUM(LEN, n)
        seen = []
        def dev(ex, args, st, pc, ins, c=c, m=m, y=y, DEV=DEV, LEN=LEN, start=start, seen=seen):
            n = m.key(args[0]); m.own_params(n, args[2], st, pc)
            t = [t for _, t in args[1].alts if t is not None]
            if len(t) != 1 or t[0][0] is not y.reg: raise Unsupported("deviates go to a foreign array")
            off = Poly.of(t[0][2]).z()
            m.need("every image's deviates start right after those of the images before it", off == 8 * start(n), pc)
            if not ex.quiet: seen.append((n, list(pc)))
            m.wr(made, n, IntVal(1), st)
            return None
        made = ghost(c, "deviates computed")
        m.virtual("ComputeDeviates", dev)
        c.run("ModelObjectMultImage::ComputeDeviates", [m.o.ptr(), Ptr.to(y.reg), Ptr.to(m.params.reg)])
        k, hk = c.index("image", 0, m.n)
        c.ensures("every image's deviates are computed", m.rd(made, k, c.post) == 1, hk)
        c.ensures("new parameters are handed to the holder once, before anything else", BoolVal(m.held == [0]))
        a, hb = c.index("later", 0, m.n)
        c.ensures("the slots of different images do not overlap", Implies(k < a, start(k) + LEN(k) <= start(a)), hk + hb)
        c.frame([m.pfam, m.dfam, m.gd, made])
        out.append(c)
    c = Ctx(prog, "ModelObjectMultImage::CreateAllModelImages"); m = Multi(c); m.g_descr()
    made = ghost(c, "image made")
    def mk(ex, args, st, pc, ins):
        n = m.key(args[0]); m.own_params(n, args[1], st, pc); m.wr(made, n, IntVal(1), st)
    m.virtual("CreateModelImage", mk)
    c.run("ModelObjectMultImage::CreateAllModelImages", [m.o.ptr(), Ptr.to(m.params.reg)])
    k, hk = c.index("image", 0, m.n)
    c.ensures("every image is made", m.rd(made, k, c.post) == 1, hk)
    out.append(c)
    return out


def counts(prog):
    out = []
    c = Ctx(prog, "ModelObjectMultImage::GetNValidPixels"); m = Multi(c)
    ret = c.run("ModelObjectMultImage::GetNValidPixels", [m.o.ptr()])
    c.ensures("total number of valid pixels of all images", ret == c.ex.SUM(m.NVALID, m.n)); c.frame([])
    out.append(c)
    for name in ("UseBootstrap", "MakeBootstrapSample", "FinalSetupForFitting"):
        c = Ctx(prog, "ModelObjectMultImage::" + name); m = Multi(c)
        done = ghost(c, "called"); ST = c.ex.uff("STATUS", IntSort(), IntSort())
        def call(ex, args, st, pc, ins, m=m, done=done, ST=ST):
            n = m.key(args[0]); m.wr(done, n, IntVal(1), st)
            return ST(n)
        c.ex.prefix_contracts.append((r"ModelObject::%s\(" % name, call))
        ret = c.run("ModelObjectMultImage::" + name, [m.o.ptr()])
        k, hk = c.index("image", 0, m.n)
        bad = c.ex.EX(lambda n: ST(n) < 0, m.n)
        if name == "FinalSetupForFitting":
            c.ensures("a failing image makes the set-up fail", Implies(bad, ret < 0))
            c.ensures("success means every image has been set up", Implies(ret >= 0, tand(m.rd(done, k, c.post) == 1, ST(k) >= 0)), hk)
        else:
            c.ensures("every image is treated", m.rd(done, k, c.post) == 1, hk)
            c.ensures("fails exactly when an image fails", ret == If(bad, IntVal(-1), IntVal(0)))
            if name == "UseBootstrap": c.ensures("bootstrap mode is recorded", m.o.get("doBootstrap", c.post) != 0)
        out.append(c)
    return out


def build(prog):
    out = []
    c = Ctx(prog, "ModelObjectMultImage::AddModelObject"); ex = c.ex
    o = c.obj("ModelObjectMultImage", "multi"); new = c.obj("ModelObject", "new")
    n = o.get("nModelObjects"); c.requires(n >= 0, n < 1 << 12)
    vs = {w: o.vec(w) for w in ("modelObjectsVect", "paramsForModelObjects", "nParamsForModelObjects", "imageDescriptionParams")}
    for v in vs.values(): c.requires(v.size == n)
    NP, ND = c.int("newParams", 0, 1 << 20), c.int("newData", 0, 1 << 30)
    logcalls(c, "ModelObject::GetNParams", ret=NP); logcalls(c, "ModelObject::GetNDataValues", ret=ND)
    c.requires(o.get("nParamsTot") >= 0, o.get("nParamsTot") <= 1 << 20, o.get("nDataVals") >= 0, o.get("nDataVals") <= 1 << 40)
    labels = o.vec("parameterLabels")
    noeffect(c, "fprintf")
    c.run("ModelObjectMultImage::AddModelObject", [o.ptr(), new.ptr()])
    g = lambda w: o.get(w, c.post)
    c.ensures("one image more", g("nModelObjects") == n + 1)
    c.ensures("five image-description parameters for every image but the reference image", g("nParamsTot") == o.get("nParamsTot") + If(n >= 1, IntVal(5), IntVal(0)))
    c.ensures("data values accumulate", g("nDataVals") == o.get("nDataVals") + ND)
    for w in vs: c.ensures("%s has one entry per image" % w, o.vec(w, c.post).size == n + 1)
    v = o.vec("nParamsForModelObjects", c.post)
    c.ensures("number of model parameters of the image is recorded", Arr(c, v.data, v.keys).at(n, state=c.post, ty=I32) == NP)
    k, hk = c.index("k", 0, n)
    c.ensures("entries of earlier images are kept", Arr(c, v.data, v.keys).at(k, state=c.post, ty=I32) == Arr(c, vs["nParamsForModelObjects"].data, vs["nParamsForModelObjects"].keys).at(k, ty=I32), hk)
    out.append(c)
    c = Ctx(prog, "ModelObjectMultImage::FinalModelSetup"); ex = c.ex
    o = c.obj("ModelObjectMultImage", "multi"); n = o.get("nModelObjects"); c.requires(n >= 1, n <= 1 << 12)
    cnt = o.vec("nParamsForModelObjects"); loc = o.vec("nPerImageParamsForModelObjects"); c.requires(cnt.size == n, loc.size == 0)
    C = lambda k: Arr(c, cnt.data).at(k, ty=I32)
    nfp, nfs, tot, npi = [o.get(w) for w in ("nFunctionParams", "nFunctionSets", "nParamsTot", "nPerImageParams")]
    glob = nfp + 2 * nfs
    c.requires(nfp >= 0, nfp <= 1 << 20, nfs >= 1, nfs <= 1 << 16, tot >= 0, tot <= 1 << 20, npi == 0)
    C(IntVal(0)); ex.uf_inv.setdefault(ex.initc[(cnt.data, 0)].base[1], []).append(lambda q, x: And(x >= glob, x <= glob + 1024))
    su = logcalls(c, "ModelObjectMultImage::SetupParamHolder")
    c.run("ModelObjectMultImage::FinalModelSetup", [o.ptr()])
    g = lambda w: o.get(w, c.post)
    k, hk = c.index("image", 0, n)
    v = o.vec("nPerImageParamsForModelObjects", c.post)
    c.ensures("one count of local parameters per image", v.size == n)
    c.ensures("local parameters of an image are those beyond the shared ones", Arr(c, v.data, v.keys).at(k, state=c.post, ty=I32) == C(k) - glob, hk)
    S = ex.SUM(lambda k: norm_int(C(k) - glob), n)
    c.ensures("total number of parameters includes the local ones of every image", g("nParamsTot") == tot + S)
    c.ensures("number of shared function parameters", g("nGlobalFuncParams") == glob)
    c.ensures("the parameter holder is set up once, after the totals are final", BoolVal(len(su) == 1))
    for l in su: c.ensures("... after the totals are final: parameters", o.get("nParamsTot", l["st"]) == g("nParamsTot"))
    out.append(c)
    c = Ctx(prog, "ModelObjectMultImage::SetupParamHolder"); ex = c.ex
    o = c.obj("ModelObjectMultImage", "multi")
    log = logcalls(c, "ParamHolder::GeneralSetup")
    ps = o.vec("paramSizes"); loc = o.vec("nPerImageParamsForModelObjects")
    c.requires(ps.size >= 0, loc.size >= 0)
    c.run("ModelObjectMultImage::SetupParamHolder", [o.ptr()])
    c.ensures("the holder is set up once", BoolVal(len(log) == 1))
    for l in log:
        a = l["args"]
        c.ensures("numbers of images, functions, parameters and sets are handed over in order", tand(*[x == o.get(w) for x, w in zip(a[1:5], ("nModelObjects", "nFunctions", "nParamsTot", "nFunctionSets"))]))
        for p, v, w in ((a[5], ps, "parameter counts"), (a[7], loc, "local parameter counts")):
            q = calls.vec_get(ex, l["st"], p, "std::vector<int>::x(")[0]
            i, hi = c.index("q" + w[:3], 0, v.size)
            c.ensures("%s are handed over" % w, tand(q.size == v.size, Arr(c, q.data, q.keys).at(i, state=l["st"], ty=I32) == Arr(c, v.data).at(i, ty=I32)), hi)
        c.ensures("set-start flags are handed over", BoolVal(same_target([t for _, t in a[6].alts if t is not None][0], [t for _, t in o.get("fsetStartFlags").alts if t is not None][0])))
    c.ensures("and marked as set up", o.get("parameterHolderSet", c.post) != 0)
    out.append(c)
    return out


CONTRACTS = [vectors, assemble, holder, setup, statistic, counts, build]
