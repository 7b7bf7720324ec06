"""P16: reported positions refer to the user's original image."""
from spec import *
from mo import *

UNITS = ["core/model_object_multimage.cpp"] + MO_UNITS + ["core/param_holder.cpp", "core/paramvector_processing.cpp", "core/print_results.cpp", "core/utilities_multimfit.cpp", "core/print_results_multi.cpp", "solvers/solver_results.cpp", "core/bootstrap_errors.cpp"]
HARNESS = dict(src="P16.cpp")
FUNCTIONS = ["ModelObject::AddImageOffsets", "ModelObject::GetImageOffsets", "ModelObject::PrintModelParamsHorizontalString", "ModelObject::PrintModelParamsToStrings", "ModelObjectMultImage::PrintModelParamsHorizontalString", "ModelObjectMultImage::GetImageOffsets", "ModelObjectMultImage::GetParameterStringsForOneImage",
             "ModelObjectMultImage::PrintModelParamsToStrings", "CorrectForImageOffsets", "PrintSingleImageInfoToStrings", "SaveImageInfoParameters", "PrintParameters", "SaveParameters", "WriteParameters", "PrintBootstrapSummary"]
LEVEL_NOTE = "for all numbers of images, function sets and parameters, all parameter layouts, values and offsets: every number handed to the printing routine for a centre is the fitted value plus the offset of its own axis (and image), every other parameter is handed over unaltered, and none is left out; CorrectForImageOffsets is the inverse on the way in"
ASSUMPTIONS = ["real arithmetic; sums of offsets and values do not overflow", "PrintToString formats the numbers it is given (its text is not interpreted by the proof; the replay reads the printed text back)", "parameter counts of one function are at most 1024", "a fprintf, std::string or std::vector library call does what its documentation says",
               "the subtraction of the offset from start values and limits inside imfit's and imfit-mcmc's main program is not under contract (the replay runs DetermineImageOffset only)", "limits of centres may be printed section-relative or shifted (the committed MCMC reference output has them section-relative)"]


def offsets(prog):
    out = []
    c = Ctx(prog, "ModelObject::AddImageOffsets"); o = c.obj("ModelObject", "mo"); x, y = c.int("x"), c.int("y")
    c.run("ModelObject::AddImageOffsets", [o.ptr(), x, y])
    c.ensures("the offsets are recorded axis by axis", tand(o.get("imageOffset_X0", c.post) == x, o.get("imageOffset_Y0", c.post) == y))
    c.frame(c.fields(o, "imageOffset_X0", "imageOffset_Y0"))
    c.pre = c.post; c.pc = list(c.rpc); c.ex.writes.clear(); c.label = "ModelObject::GetImageOffsets()"
    r = c.ex.new_region("result"); r.single = True; r.mod = prog.mods[0]; r.bytes = None
    c.run("ModelObject::GetImageOffsets()", [Ptr.to(r), o.ptr()])
    got = [c.ex.load1(c.post, r, (), Poly.const(k), I32, [], "tuple element") for k in (4, 0)]
    c.ensures("the recorded offsets are returned axis by axis", tand(got[0] == x, got[1] == y))
    out.append(c)
    return out


def table(prog):
    out = []
    c = Ctx(prog, "ModelObject::GetImageOffsets"); m = MO(c, params=False); o = m.o
    sizes(c, m); nP = m.start(m.nF); p = c.array("offsets", count=nP, finite=True)
    ox, oy = o.get("imageOffset_X0"), o.get("imageOffset_Y0")
    c.run("ModelObject::GetImageOffsets(double*)", [o.ptr(), Ptr.to(p.reg)])
    post(c, m, p, ox, oy, IntVal(0), lambda k: p.at(k).v == 0)
    c.frame([p.reg])
    out.append(c)
    return out


def sizes(c, m):
    """function parameter counts are between 0 and 1024"""
    m.psize(IntVal(0)); c.ex.uf_inv.setdefault(c.ex.initc[(m.ps.reg, 0)].base[1], []).append(lambda q, x: And(x >= 0, x <= 1 << 10))
    c.requires(m.nF <= 1 << 12)


def post(c, m, p, ox, oy, base, zero):
    n, hn = c.index("n", 0, m.nF); z = lambda k: norm_int(base + k)
    c.ex.mono_depth = 1
    hz = lambda k: hn + [zero(z(k))]
    c.ensures("the x slot of every function set holds the x offset", Implies(m.flag(n), p.new(z(m.start(n))).v == ToReal(ox)), hz(m.start(n)))
    c.ensures("the y slot of every function set holds the y offset", Implies(m.flag(n), p.new(z(m.start(n) + 1)).v == ToReal(oy)), hz(m.start(n) + 1))
    i, hi = c.index("i", 0, m.psize(n)); k = norm_int(m.off(n) + i)
    c.ensures("the slots of all function parameters are left alone", p.new(z(k)).v == p.at(z(k)).v, hn + hi)


class Trace:
    """PrintToString at its call sites (no effect on the program): the strings given literally, the numbers, the path and the loops around the call"""

    def __init__(self, c):
        self.c = c; self.log = []
        c.ex.prefix_contracts.append((r"PrintToString\(", self.h))

    def h(self, ex, args, st, pc, ins):
        lits, nums = [], []
        for a in args[1:]:
            if isinstance(a, FVal): nums.append(a)
            elif isinstance(a, Ptr):
                ts = [t for _, t in a.alts if t is not None]
                v = ts[0][0].strval if len(ts) == 1 else None
                if v is not None: lits.append(re.sub(r'^c"(.*?)(\\00)*"$', r"\1", str(v)))
        if nums and not ex.quiet: self.log.append(dict(lits=lits[1:], nums=nums, loops=list(ex.loopstack), pc=list(pc), st=st.copy()))
        return calls.ret_default(ex, args, ins, "PrintToString")


def functions(c, m):
    noeffect(c, *["FunctionObject::" + f for f in ("GetShortName", "GetLabel", "HasParameterUnits", "ExtraParamsSet", "GetExtraParamsDescription")])
    noeffect(c, "ModelObject::GetParameterName")
    def units(ex, args, st, pc, ins):
        """GetParameterUnits gives one string per parameter of the function"""
        n = m.fo.key(args[0])
        v, key = calls.vec_get(ex, st, args[1], STRVEC)
        calls.vec_set(ex, st, key, VecVal(m.psize(n), v.data, v.keys))
    c.ex.prefix_contracts.append((r"FunctionObject::GetParameterUnits\(", units))


STRVEC = "std::vector<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, std::allocator<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>>>::x("


def line(prog):
    out = []
    c = Ctx(prog, "ModelObject::PrintModelParamsHorizontalString"); m = MO(c); o = m.o; ex = c.ex
    sizes(c, m); T = Trace(c)
    r = ex.new_region("result"); r.single = True; r.mod = prog.mods[0]; r.bytes = None
    s = ex.new_region("separator"); s.single = True; s.mod = prog.mods[0]; s.bytes = None
    c.run("ModelObject::PrintModelParamsHorizontalString", [Ptr.to(r), o.ptr(), Ptr.to(m.params.reg), Ptr.to(s)])
    function_numbers(c, m, T, m.params, IntVal(0), o.get("imageOffset_X0"), o.get("imageOffset_Y0"))
    c.frame([r])
    out.append(c)
    return out


def function_numbers(c, m, T, p, base, ox, oy, errs=None, limits=None):
    """numbers written inside the loop over functions: centres with the offset of their axis, function parameters unchanged, none missing"""
    ex = c.ex; cen, par = [], []; z = lambda k: norm_int(base + k)
    for L in T.log:
        if not L["loops"]: continue
        n = L["loops"][0]; hp = L["pc"][len(c.pc):]; x = [q.v for q in L["nums"]]; ok = L["nums"][0].ok
        if len(L["loops"]) == 1:
            X = [p.at(z(m.start(n) + k)).v + ToReal(w) for k, w in ((0, ox), (1, oy))]
            ax = [k for k, t in ((0, "X0"), (1, "Y0")) if t in L["lits"]]
            if ax:
                c.ensures("a line labelled %s gives that centre coordinate plus the offset of its axis" % ("X0", "Y0")[ax[0]], tand(ok, x[0] == X[ax[0]]), hp)
                cen.append((n, ax, hp))
                if len(x) == 2 and errs: c.ensures("... with its own error", x[1] == errs.at(z(m.start(n) + ax[0])).v, hp)
                if len(x) == 3 and limits:
                    a, o_ = [limits(z(m.start(n) + ax[0]), w) for w in (0, 1)], ToReal((ox, oy)[ax[0]])
                    c.ensures("... with its own limits", tor(tand(x[1] == a[0], x[2] == a[1]), tand(x[1] == a[0] + o_, x[2] == a[1] + o_)), hp)
            elif len(x) == 2:
                ok = tand(ok, L["nums"][1].ok)
                c.ensures("the centre is written as fitted x + x offset, fitted y + y offset, in this order", tand(ok, x[0] == X[0], x[1] == X[1]), hp); cen.append((n, [0, 1], hp))
            else: c.ensures("a single number written per function is a centre coordinate plus the offset of its axis", tand(ok, tor(*[x[0] == e for e in X])), hp); cen.append((n, [], hp))
            c.ensures("centres are written only where a function set starts", m.flag(n), hp)
        else:
            i = L["loops"][1]; k = z(m.off(n) + i)
            c.ensures("function parameter values are written unaltered", tand(ok, x[0] == p.at(k).v), hp); par.append((n, i, hp))
            if len(x) == 2 and errs: c.ensures("... with their own errors", x[1] == errs.at(k).v, hp)
            if len(x) == 3 and limits: c.ensures("... with their own limits", tand(x[1] == limits(k, 0), x[2] == limits(k, 1)), hp)
    if not cen or not par: raise SpecError("no centre / no function parameter is written inside the loop over functions")
    early = c.rpc[len(c.pc):]
    n = cen[0][0]
    for ax in (0, 1):
        c.ensures("the %s of every function set is written" % "xy"[ax], Implies(tand(n >= 0, n < m.nF, m.flag(n)), tor(*[tand(*hp) for q, a, hp in cen if q.eq(n) and (ax in a or not a)])), early)
    n, i, _ = par[0]
    c.ensures("every function parameter is written", Implies(tand(n >= 0, n < m.nF, i >= 0, i < m.psize(n)), tor(*[tand(*hp) for q, j, hp in par if q.eq(n) and j.eq(i)])), early)


def lines(prog):
    out = []
    for lim in (False, True):
        c = Ctx(prog, "ModelObject::PrintModelParamsToStrings (%s)" % ("with limits" if lim else "values, errors")); m = MO(c); o = m.o; ex = c.ex
        sizes(c, m); functions(c, m); T = Trace(c); p = m.params
        sv, _ = c.vecparam("std::string", "strings")
        errs = c.array("errs", finite=True); ep = Ptr([(Bool("errors given"), (errs.reg, (), Poly.const(0))), (Not(Bool("errors given")), None)])
        info = o.vec("parameterInfoVect"); L = Arr(c, info.data)
        c.requires(info.size == m.start(m.nF))
        s = ex.new_region("prefix", ety=I8, mod=prog.mods[0], count=1)
        ret = c.run("ModelObject::PrintModelParamsToStrings", [o.ptr(), sv, Ptr.to(p.reg), ep, Ptr.to(s), IntVal(int(lim))])
        limits = lambda k, w: ex.load1(c.pre, info.data, tuple(info.keys), Poly.of(k) * SIZE(prog) + LIMITS + 8 * w, F64, [], "vector element").v
        function_numbers(c, m, T, p, IntVal(0), o.get("imageOffset_X0"), o.get("imageOffset_Y0"), errs, limits)
        c.frame([t[0] for _, t in sv.alts])
        out.append(c)
    return out


LIMITS = 16


def SIZE(prog):
    m = next(m for m in prog.mods if "struct.SimpleParameterInfo" in m.structs)
    return m.sizeof(Ty("named", "struct.SimpleParameterInfo"))


class MM:
    """ModelObjectMultImage: layout of the parameter vector (five entries per extra image, then the shared functions) and its images"""

    def __init__(self, c):
        self.c = c; ex = c.ex; self.o = o = c.obj("ModelObjectMultImage", "multi"); g = o.get
        self.nI = g("nModelObjects"); self.nF = g("nFunctions"); self.base = norm_int(5 * (self.nI - 1))
        self.ov, self.ofam = vec_of_ptrs(c, o, "modelObjectsVect", "ModelObject")
        self.fvec, fam = vec_of_ptrs(c, o, "functionObjects", "FunctionObject")
        ps = o.vec("paramSizes"); self.ps = Arr(c, ps.data)
        self.flags = o.array("fsetStartFlags", count=self.nF, ety=I8)
        c.requires(self.nI >= 1, self.nI <= 1 << 12, self.nF >= 1, self.ov.size == self.nI, self.fvec.size == self.nF, ps.size == self.nF, self.flags.at(0, ty=I8) != 0)
        sizes(c, self)
        self.params = c.array("params", finite=True); self.fo = FObj(c, fam); functions(c, self)

    psize, flag, start, off = MO.psize, MO.flag, MO.start, MO.off
    def offs(self, n): return [Obj(self.c, self.ofam, (norm_int(n) if z3.is_expr(n) else IntVal(n),)).get("imageOffset_" + w) for w in ("X0", "Y0")]


def is_fn_loop(m, L): return any(occurs(h, m.nF) for h in L["pc"][len(m.c.pc):])


def occurs(e, v):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(v): return True
        st += x.children()
    return False


def image_numbers(c, m, T, logs, written):
    """numbers written for the extra images: own description entries in order, X0/Y0 with that image's own offsets"""
    p = m.params; ex = c.ex; got = []
    for L in logs:
        hp = L["pc"][len(c.pc):]; x = L["nums"]; t = L["loops"]
        if not t: raise SpecError("image parameters are written outside the loop over images")
        n = t[0]
        if written == "line":
            i = t[1] if len(t) > 1 else None
            if i is None: raise SpecError("image parameters are written outside a loop over the five of them")
            ox, oy = m.offs(n + 1); k = norm_int(5 * n + i)
            c.ensures("image-description entries are written in order, X0 and Y0 with the offsets of their own image", tand(x[0].ok, x[0].v == p.at(k).v + If(i == 3, ToReal(ox), If(i == 4, ToReal(oy), RealVal(0)))), hp)
            got.append((n, i, hp))
    return got


def multi(prog):
    out = []
    c = Ctx(prog, "ModelObjectMultImage::PrintModelParamsHorizontalString"); m = MM(c); ex = c.ex; T = Trace(c)
    r = ex.new_region("result"); r.single = True; r.mod = prog.mods[0]; r.bytes = None
    s = ex.new_region("separator"); s.single = True; s.mod = prog.mods[0]; s.bytes = None
    c.run("ModelObjectMultImage::PrintModelParamsHorizontalString", [Ptr.to(r), m.o.ptr(), Ptr.to(m.params.reg), Ptr.to(s)])
    image_numbers(c, m, T, [L for L in T.log if not is_fn_loop(m, L)], "line")
    T.log = [L for L in T.log if is_fn_loop(m, L)]
    function_numbers(c, m, T, m.params, m.base, *m.offs(0))
    out.append(c)
    c = Ctx(prog, "ModelObjectMultImage::GetImageOffsets"); m = MM(c); ex = c.ex
    p = c.array("offsets", finite=True)
    c.run("ModelObjectMultImage::GetImageOffsets(double*)", [m.o.ptr(), Ptr.to(p.reg)])
    post(c, m, p, *m.offs(0), m.base, lambda k: p.at(k).v == 0)
    n, hn = c.index("image", 1, m.nI); ox, oy = m.offs(n)
    for e, v in ((0, None), (1, None), (2, None), (3, ox), (4, oy)):
        k = norm_int(5 * (n - 1) + e)
        c.ensures("entry %d of the description of an extra image %s" % (e, "gets the %s offset of that image" % "xy"[e - 3] if e > 2 else "is left alone"), p.new(k).v == (p.at(k).v if v is None else ToReal(v)), hn)
    c.frame([p.reg])
    out.append(c)
    return out



def own_strings(prog):
    """GetParameterStringsForOneImage: an image's strings are made by its own model from its own current parameters"""
    import P15
    c = Ctx(prog, "ModelObjectMultImage::GetParameterStringsForOneImage"); m = P15.Multi(c); ex = c.ex; m.g_descr(); i = c.int("imageNumber"); c.requires(i >= 0, i < m.n)
    errs = c.array("errors", finite=True); given = Bool("errors given"); log = []
    sv, _ = c.vecparam("std::string", "strings")
    def pr(ex, args, st, pc, ins):
        n = m.key(args[0]); m.own_params(n, args[2], st, pc)
        m.need("the strings are those of the image asked for", n == i, pc)
        m.need("they are added to the list given", BoolVal([t[0] for _, t in args[1].alts if t] == [t[0] for _, t in sv.alts]), pc)
        for cnd, t in args[3].alts:
            ok = Not(given) if t is None else tand(given, BoolVal(t[0] is errs.reg), Poly.of(t[2]).z() == 8 * 5 * (m.n - 1))
            m.need("the errors of the function parameters are passed on exactly if errors were given", Implies(cnd, ok), pc)
        if not ex.quiet: log.append(list(pc))
        return IntVal(0)
    ex.prefix_contracts.append((r"ModelObject::PrintModelParamsToStrings\(", pr))
    c.run("ModelObjectMultImage::GetParameterStringsForOneImage", [m.o.ptr(), sv, Ptr.to(m.params.reg), i, Ptr([(given, (errs.reg, (), Poly.const(0))), (Not(given), None)])])
    c.ensures("the image's model is asked for its strings", tor(*[tand(*h[len(c.pc):]) for h in log]))
    c.ensures("... once", BoolVal(len(log) == 1))
    return [c]


def image_lines(prog):
    c = Ctx(prog, "ModelObjectMultImage::PrintModelParamsToStrings"); m = MM(c); ex = c.ex; T = Trace(c); p = m.params
    errs = c.array("errors", finite=True); given = Bool("errors given"); ep = Ptr([(given, (errs.reg, (), Poly.const(0))), (Not(given), None)])
    sv, _ = c.vecparam("std::string", "strings")
    s = ex.new_region("prefix", ety=I8, mod=prog.mods[0], count=1)
    lim = c.int("printLimits", 0, 1); c.requires(Or(lim == 0, m.o.vec("parameterInfoVect").size > 0))
    one = logcalls(c, "ModelObjectMultImage::GetParameterStringsForOneImage", ret=0); noeffect(c, "ModelObject::GetDataFilename")
    logcalls(c, "ModelObjectMultImage::GetPerImageFuncStrings", ret=0)
    c.run("ModelObjectMultImage::PrintModelParamsToStrings", [m.o.ptr(), sv, Ptr.to(p.reg), ep, Ptr.to(s), lim])
    c.ensures("the reference image's parameters are written once", BoolVal(len(one) == 1))
    for l in one:
        c.ensures("... those given, with the errors given", tand(l["args"][3] == 0, BoolVal(same_target(*[[q for _, q in a.alts if q][0] for a in (l["args"][2], Ptr.to(p.reg))])),
                  *[Implies(q, BoolVal(t is None) == Not(given)) for q, t in l["args"][4].alts]), l["pc"][len(c.pc):])
    LAB = ("PIXEL_SCALE", "ROTATION", "FLUX_SCALE", "X0", "Y0"); got = {k: [] for k in range(5)}
    for L in T.log:
        hp = L["pc"][len(c.pc):]; x = L["nums"]
        if not L["loops"]: raise SpecError("a number is written outside the loop over images")
        n = L["loops"][0]; ks = [k for k, l in enumerate(LAB) if l in L["lits"]]
        if len(ks) != 1: raise SpecError("a line of image-description parameters has no known label")
        k, = ks; img = n + 1; ox, oy = m.offs(norm_int(img)); at = norm_int(5 * n + k)
        c.ensures("the line labelled %s gives that entry of its image%s" % (LAB[k], ", plus the %s offset of that image" % "xy"[k - 3] if k > 2 else ""),
                  tand(x[0].ok, x[0].v == p.at(at).v + (0 if k < 3 else ToReal((ox, oy)[k - 3]))), hp)
        if len(x) > 1: c.ensures("... with its own error", tand(given, x[1].v == errs.at(at).v), hp)
        else: c.ensures("... without errors only if none are given", Not(given), hp)
        got[k].append((n, hp))
    for k in range(5):
        if not got[k]: raise SpecError("no line labelled %s is written" % LAB[k])
        n = got[k][0][0]
        c.ensures("a line labelled %s is written for every extra image" % LAB[k], Implies(tand(n >= 0, n < m.nI - 1), tor(*[tand(*hp) for q, hp in got[k] if q.eq(n)])), c.rpc[len(c.pc):])
    c.frame([t[0] for _, t in sv.alts])
    return [c]


def correct(prog):
    """CorrectForImageOffsets: the inverse on the way in"""
    c = Ctx(prog, "CorrectForImageOffsets"); ex = c.ex; o = c.obj("ModelObjectMultImage", "multi")
    nI, nP = o.get("nModelObjects"), o.get("nParamsTot"); c.requires(nI >= 1, nI <= 1 << 12, nP >= 5 * (nI - 1) + 1, nP <= 1 << 20)
    OX, OY, KIND = ex.uff("OFFX", IntSort(), IntSort()), ex.uff("OFFY", IntSort(), IntSort()), ex.uff("KIND", IntSort(), IntSort())
    p = c.array("params", count=nP, finite=True); lim, lv = c.vecparam("mp_par_struct", "limits"); c.requires(lv.size == nP)
    P = ex.prefix_contracts
    def offs(ex, args, st, pc, ins):
        if not ex.quiet: ex.oblig("CorrectForImageOffsets: offsets are asked for existing images", tand(args[2] >= 0, args[2] < nI), list(pc))
        for off, f in ((4, OX), (0, OY)): ex.store(st, ex.ptr_add(args[0], Poly.const(off)), f(args[2]), I32, pc)
        return None
    P.append((r"ModelObjectMultImage::GetOffsetsForImage\(", offs))
    lab = ex.new_region("parameter name", nkeys=1); lab.mod = prog.mods[0]; lab.bytes = None
    def name(ex, args, st, pc, ins):
        if not ex.quiet: ex.oblig("CorrectForImageOffsets: names are asked for existing parameters", tand(args[1] >= 0, args[1] < nP), list(pc))
        return Ptr.to(lab, 0, (args[1],))
    P.append((r"ModelObject.*::GetParameterName\(", name))
    def eq(ex, args, st, pc, ins):
        ts = [t for a in args for _, t in a.alts if t is not None]; lits = [t[0].name for t in ts]; i, = [t[1][0] for t in ts if t[0] is lab]
        k = 1 if any("X0_string" in x for x in lits) else 2 if any("Y0_string" in x for x in lits) else None
        if k is None: raise Unsupported("a parameter's name is compared with an unknown text")
        return If(KIND(i) == k, IntVal(1), IntVal(0))
    P.append((r"bool std::operator==", eq))
    c.run("CorrectForImageOffsets", [Ptr.to(p.reg), lim, o.ptr()])
    def both(name, k, hyp, off):
        """value, recorded offset and set limits of parameter k"""
        A = lambda o_, ty, st: ex.load1(st, lv.data, tuple(lv.keys), Poly.of(k) * calls.esize(ex, lv) + o_, ty, [], "vector element")
        v = A(40, F64, c.post)
        c.ensures("%s: value less the offset" % name, p.new(k).v == p.at(k).v - ToReal(off), hyp)
        if not off.eq(IntVal(0)): c.ensures("%s: the offset is recorded" % name, v.v == ToReal(off), hyp)
        else: c.ensures("%s: recorded offset as before" % name, feq(v, A(40, F64, c.pre)), hyp)
        for w in (0, 1):
            o_, n_ = A(16 + 8 * w, F64, c.pre), A(16 + 8 * w, F64, c.post); on = A(4 + 4 * w, I32, c.pre) == 1
            c.ensures("%s: a set limit less the offset, an unset one as before" % name, tand(Implies(on, n_.v == o_.v - ToReal(off)), Implies(Not(on), feq(n_, o_))) if not off.eq(IntVal(0)) else feq(n_, o_), hyp)
            c.ensures("%s: fixed and limited flags as before" % name, tand(A(4 + 4 * w, I32, c.post) == A(4 + 4 * w, I32, c.pre), A(0, I32, c.post) == A(0, I32, c.pre)), hyp)
    n, hn = c.index("image", 1, nI); z = IntVal(0)
    for e in range(5): both("entry %d of an extra image's description" % e, norm_int(5 * (n - 1) + e), hn, z if e < 3 else (OX, OY)[e - 3](n))
    k, hk = c.index("k", 0, nP); hk = hk + [k >= 5 * (nI - 1)]
    for kind, what, off in ((1, "a centre x", OX(0)), (2, "a centre y", OY(0)), (0, "any other parameter", z)):
        both(what, k, hk + [KIND(k) == kind if kind else And(KIND(k) != 1, KIND(k) != 2)], off)
    c.frame([p.reg, lv.data])
    return [c]


def info_lines(prog):
    """PrintSingleImageInfoToStrings: the five entries handed over are written under their labels"""
    out = []
    for given in (False, True):
        c = Ctx(prog, "PrintSingleImageInfoToStrings (%s)" % ("with errors" if given else "no errors")); ex = c.ex; o = c.obj("ImageInfo", "imageInfo"); T = Trace(c)
        d = c.array("description", finite=True); e = c.array("description errors", finite=True); at = c.int("offset"); ref = c.int("refImage", 0, 1); c.requires(at >= -5, at <= 1 << 20, Or(ref != 0, at >= 0))
        sv, _ = c.vecparam("std::string", "strings"); nc = o.get("nCombined"); names, scales, regs = (o.vec(v) for v in ("psfOversampledFileNames", "psfOversamplingScales", "psfOversampleRegions"))
        nf, nr = o.get("nOversampledFileNames"), o.get("nOversampleRegions"); c.requires(nf >= 0, nr >= 0, names.size == nf, scales.size == nf, regs.size == nr, nr <= 1 << 20)
        c.run("PrintSingleImageInfoToStrings", [o.ptr(), sv, ref, Ptr.to(d.reg), at, Ptr.to(e.reg) if given else Ptr([(TRUE, None)])])
        LAB = ("PIXEL_SCALE", "IMAGE_PA", "FLUX_SCALE", "X0", "Y0"); got = {}
        for L in T.log:
            hp = L["pc"][len(c.pc):]; x = L["nums"]; ks = [k for k, l in enumerate(LAB) if l in L["lits"]]
            if len(ks) != 1: continue
            k, = ks; got.setdefault(k, []).append(tand(*hp))
            c.ensures("the line labelled %s gives that entry as handed over" % LAB[k], tand(BoolVal(len(x) == 1 + given), x[0].ok, x[0].v == d.at(norm_int(at + k)).v, *[y.v == e.at(norm_int(at + k)).v for y in x[1:]]), hp)
        for k in range(5): c.ensures("a line labelled %s is written unless it is the reference image" % LAB[k], tor(*got.get(k, [])) == (ref == 0), c.rpc[len(c.pc):])
        c.frame([t[0] for _, t in sv.alts])
        out.append(c)
    return out


def info(prog):
    """SaveImageInfoParameters: every image gets its own description, X0 and Y0 with its own offsets"""
    c = Ctx(prog, "SaveImageInfoParameters"); ex = c.ex; o = c.obj("ModelObjectMultImage", "multi"); nI, nP = o.get("nModelObjects"), o.get("nParamsTot"); c.requires(nI >= 1, nI <= 1 << 12, nP >= 5 * (nI - 1) + 1, nP <= 1 << 20)
    OX, OY, ERR = ex.uff("OFFX", IntSort(), IntSort()), ex.uff("OFFY", IntSort(), IntSort()), ex.uff("ERROR", IntSort(), RealSort()); P = ex.prefix_contracts
    p = c.array("params", count=nP, finite=True); sr = c.obj("SolverResults", "results"); iv, ivv = c.vecparam("ImageInfo", "imageInfo"); c.requires(ivv.size == nI); hv, _ = c.vecparam("std::string", "header")
    name = ex.new_region("filename"); name.single = True; name.mod = prog.mods[0]; name.bytes = None
    def offs(ex, args, st, pc, ins):
        if not ex.quiet: ex.oblig("SaveImageInfoParameters: offsets are asked for existing images", tand(args[2] >= 0, args[2] < nI), list(pc))
        for off, f in ((4, OX), (0, OY)): ex.store(st, ex.ptr_add(args[0], Poly.const(off)), f(args[2]), I32, pc)
        return None
    P.append((r"ModelObjectMultImage::GetOffsetsForImage\(", offs))
    def errors(ex, args, st, pc, ins):
        """the solver's error estimates, one per parameter"""
        (reg, keys, off), = [t for _, t in args[1].alts if t is not None]; b = Int("erri!")
        c0 = st.arr.get((reg, 0)) or ex.init_content(reg, 0, F64); st.arr[(reg, 0)] = c0.add(Rec((b,), And(b >= 0, b < nP), tuple(keys) + (b,), FVal(ERR(b))))
        ex.writes.append((reg, 0, ex.fn_stack[-1], ex.cur_line))
    P.append((r"SolverResults::GetErrors\(", errors))
    fl = ex.new_region("file"); fl.single = True; fl.mod = prog.mods[0]; fl.bytes = None; P.append((r"fopen$", lambda *a: Ptr.to(fl)))
    one = logcalls(c, "PrintSingleImageInfoToStrings", ret=0)
    c.run("SaveImageInfoParameters", [Ptr.to(p.reg), o.ptr(), iv, sr.ptr(), Ptr.to(name), hv])
    if not one: raise SpecError("no image information is written")
    seen = []
    for l in one:
        hp = l["pc"][len(c.pc):]; a = l["args"]; loops = l.get("loops")
        ts = [t for _, t in a[0].alts if t is not None]; i = norm_int(ex.idiv(Poly.of(ts[0][2]).z(), calls.esize(ex, ivv), [])) if len(ts) == 1 else None
        (reg, keys, off), = [t for _, t in a[3].alts if t is not None]; D = Arr(c, reg, keys); seen.append((i, hp))
        for k in range(5):
            v = D.at(norm_int(a[4] + k), state=l["st"])
            c.ensures("entry %d of an extra image's description is written%s" % (k, "" if k < 3 else " plus that image's %s offset" % "xy"[k - 3]), Implies(i >= 1, tand(v.ok, v.v == p.at(norm_int(5 * (i - 1) + k)).v + (0 if k < 3 else ToReal((OX, OY)[k - 3](i))))), hp)
            for cnd, t in a[5].alts:
                if t is not None:
                    e = Arr(c, t[0], t[1]).at(norm_int(a[4] + k), state=l["st"]); c.ensures("... with that entry's own error", Implies(tand(cnd, i >= 1), e.v == ERR(norm_int(5 * (i - 1) + k))), hp)
        c.ensures("exactly the first image is written as the reference image", (a[2] if z3.is_bool(a[2]) else a[2] != 0) == (i == 0), hp)
    t = seen[0][1]; i = seen[0][0]
    c.ensures("every image's information is written", Implies(tand(i >= 0, i < nI), tor(*[tand(*hp) for j, hp in seen if j.eq(i)])), c.rpc[len(c.pc):])
    c.frame([])
    return [c]


def saved(prog):
    """SaveParameters, SaveParameters2, PrintParameters: what is written is what the model says about the values and errors given"""
    out = []
    for fn in ("PrintParameters", "SaveParameters2"):
        c = Ctx(prog, fn); ex = c.ex; mo = c.obj("ModelObject", "mo"); p = c.array("params", finite=True); e = c.array("errors", finite=True)
        f, s = ex.new_region("file"), ex.new_region("prefix", ety=I8, mod=prog.mods[0], count=1)
        f.single = True; f.mod = prog.mods[0]; f.bytes = None
        log = logcalls(c, "ModelObject::PrintModelParamsToStrings", ret=0); given = Bool("errors given"); ep = Ptr([(given, (e.reg, (), Poly.const(0))), (Not(given), None)]); hv, _ = c.vecparam("std::string", "header")
        c.run(fn, [Ptr.to(f), mo.ptr(), Ptr.to(p.reg), ep, Ptr.to(s)] if fn[0] == "P" else [Ptr.to(f), Ptr.to(p.reg), mo.ptr(), hv, Ptr.to(s)])
        strings_of(c, log, p, e, given if fn[0] == "P" else FALSE)
        c.frame([]); out.append(c)
    c = Ctx(prog, "SaveParameters"); ex = c.ex; mo = c.obj("ModelObject", "mo"); p = c.array("params", finite=True); sr = c.obj("SolverResults", "results"); hv, _ = c.vecparam("std::string", "header"); nP = mo.get("nParamsTot"); c.requires(nP >= 1, nP <= 1 << 20)
    name = ex.new_region("filename"); name.single = True; name.mod = prog.mods[0]; name.bytes = None; ERR = ex.uff("ERROR", IntSort(), RealSort()); P = ex.prefix_contracts; present = c.int("errorsPresent", 0, 1)
    fl = ex.new_region("file"); fl.single = True; fl.mod = prog.mods[0]; fl.bytes = None; P.append((r"fopen$", lambda *a: Ptr.to(fl)))
    noeffect(c, "GetSolverSummary", "ModelObject::GetNValidPixels", "ModelObject::WhichFitStatistic")
    for q in ("ModelObject::GetFitStatistic", "AIC_corrected", "BIC"): P.append((re.escape(q) + r"\(", lambda ex, args, st, pc, ins, q=q: FVal(Real(q))))
    P.append((r"SolverResults::ErrorsPresent\(", lambda *a: present))
    def errors(ex, args, st, pc, ins):
        (reg, keys, off), = [t for _, t in args[1].alts if t is not None]; b = Int("erri!")
        c0 = st.arr.get((reg, 0)) or ex.init_content(reg, 0, F64); st.arr[(reg, 0)] = c0.add(Rec((b,), And(b >= 0, b < nP), tuple(keys) + (b,), FVal(ERR(b)))); ex.writes.append((reg, 0, ex.fn_stack[-1], ex.cur_line))
    P.append((r"SolverResults::GetErrors\(", errors))
    log = logcalls(c, "ModelObject::PrintModelParamsToStrings", ret=0)
    c.run("SaveParameters", [Ptr.to(p.reg), mo.ptr(), Ptr.to(name), hv, c.int("nFree"), c.int("solver"), c.int("status"), sr.ptr()])
    k, hk = c.index("k", 0, nP)
    strings_of(c, log, p, lambda l, t: c.ensures("the errors written are the solver's", Arr(c, t[0], t[1]).at(k, state=l["st"]).v == ERR(k), l["pc"][len(c.pc):] + hk), present != 0)
    c.frame([]); out.append(c)
    return out


def strings_of(c, log, p, e, given):
    c.ensures("the model is asked for its parameter strings in every case", tor(*[tand(*l["pc"][len(c.pc):]) for l in log]), c.rpc[len(c.pc):])
    for l in log:
        hp = l["pc"][len(c.pc):]; a = l["args"]
        c.ensures("... of the parameter values given", BoolVal(same_target([q for _, q in a[2].alts if q][0], (p.reg, (), Poly.const(0))) and (p.reg, 0) not in l["st"].arr), hp)
        for cnd, t in a[3].alts:
            if t is None: c.ensures("... without errors only when there are none", Implies(cnd, Not(given)), hp)
            else:
                c.ensures("... with errors only when there are some", Implies(cnd, given), hp)
                if callable(e): e(l, t)
                else: c.ensures("... with the errors given", BoolVal(same_target(t, (e.reg, (), Poly.const(0)))), hp + [cnd])


def bootstrap_summary(prog):
    import P11
    return P11.wrapper(prog)


CONTRACTS = [offsets, table, line, lines, multi, own_strings, image_lines, correct, info_lines, info, saved, bootstrap_summary]
