"""P11: bootstrap resampling."""
from spec import *
from mo import *
import prover

UNITS = MO_UNITS + ["core/bootstrap_errors.cpp"]
HARNESS = dict(src="P11.cpp")
FUNCTIONS = ["ModelObject::UseBootstrap", "ModelObject::MakeBootstrapSample", "BootstrapErrorsArrayOnly", "BootstrapErrorsBase", "BootstrapErrors"]
LEVEL_NOTE = "every entry of every sample is proved to be the first acceptable pixel index floor(u*N) among its own random draws (partial correctness: the rejection loop is assumed to end); rows stored from bootstrap iterations keep parameter order and include the image offsets, and only successful iterations are stored and counted"
ASSUMPTIONS = ["genrand_real2 returns values in [0,1) (proved by P13)", "the rejection loop of MakeBootstrapSample terminates (needs a pixel with positive weight and a fair generator)", "the solvers are external functions here: they may change the parameter vector in any way and return any status (P12)",
               "arithmetic is real: floor(u*N) is taken exactly (N < 2^30, u a multiple of 2^-32: exact in double precision)"]


def sample(prog):
    out = []
    for name in ("MakeBootstrapSample", "UseBootstrap"):
        c = Ctx(prog, "ModelObject::" + name)
        m = MO(c, functions=False); o = m.o; g = m.g
        NV = g("nValidDataVals"); c.requires(NV >= 1, NV <= m.DV, m.DV <= (1 << 30))
        w = o.array("weightVector", count=m.DV, finite=True)
        b = o.array("bootstrapIndices", count=NV, ety=I64)
        o.on_assign("bootstrapIndices", lambda reg, st, c=c, NV=NV: c.shape(reg, count=NV))
        draws = []
        def rnd(ex, args, st, pc, ins, draws=draws):
            r = FVal(ex.fresh(RealSort(), "genrand"))
            ex.uf_inv[r.v.decl().name()] = [lambda a, x: And(x >= 0, x < 1)]
            draws.append(r.v.decl()); return r
        c.ex.prefix_contracts.append((r"genrand_real2\(", rnd))
        ret = c.run("ModelObject::" + name, [o.ptr()])
        k, hk = c.index("k", 0, NV)
        decl = draws[0] if draws else None
        if decl is None or decl.arity() != 2: raise SpecError("the resampling loops draw no random number per entry and attempt")
        pix = lambda u: ToInt(u * ToReal(m.DV))
        for cnd, t in o.get("bootstrapIndices", c.post).alts:
            if t is None: continue
            v = Arr(c, t[0], t[1]).new(k)
            ok = tand(cnd, ret >= 0)
            c.ensures("every entry is the index of a pixel inside the image", Implies(ok, tand(v >= 0, v < m.DV)), hk)
            c.ensures("every entry is an unmasked pixel (positive weight)", Implies(ok, w.at(v).v > 0), hk)
            apps = []; prover.apps_of(v, {decl.name()}, apps, set())
            own = [a for a in apps if a.children()[0].eq(k)]
            c.ensures("every entry is floor(u*N) for a random number u of its own", Implies(ok, tor(*[v == pix(a) for a in own])), hk)
            j, hj = c.index("attempt", 0, own[0].children()[1]) if own else (None, [])
            if own: c.ensures("draws are rejected only at pixels without positive weight", Implies(ok, w.at(pix(decl(k, j))).v <= 0), hk + hj)
        if name == "UseBootstrap": c.ensures("bootstrap mode is switched on", o.get("doBootstrap", c.post) != 0)
        c.ensures("failure means memory is exhausted", Implies(ret < 0, o.get("bootstrapIndicesAllocated", c.post) == 0))
        out.append(c)
    p, N = Int("p"), Int("N"); u = Real("u")
    out[0].lemma("every pixel index is drawn exactly for the numbers u in its own interval of width 1/N", [p >= 0, p < N, N >= 1, u >= 0, u < 1], (ToInt(u * ToReal(N)) == p) == And(ToReal(p) <= u * ToReal(N), u * ToReal(N) < ToReal(p + 1)))
    return out


def rows(prog):
    out = []
    for name in ("BootstrapErrorsArrayOnly", "BootstrapErrorsBase"):
        c = Ctx(prog, name); ex = c.ex
        mo = c.obj("ModelObject", "mo")
        nP = mo.get("nParamsTot"); NV = mo.get("nValidDataVals"); NI = c.int("nIterations", 1, 1 << 20)
        c.requires(nP >= 1, nP <= 4096, NV >= 1, NV <= (1 << 30))
        best = c.array("bestfit", count=nP, finite=True)
        if name.endswith("Only"):
            res = c.array("outputParams", stride=nP, rows=NI, finite=None); cell = lambda row, j: res.new(row, j); old = lambda row, j: res.at(row, j)
            resreg = res.reg; resarg = Ptr.to(res.reg)
        else:
            outer = c.array("outputParamArray", count=nP, ety=PTR)
            fam = ex.pointee_region(outer.reg, 0, "outputParamArray[]", nkeys=1); fam.ety = F64; fam.mod = prog.mods[0]; fam.bytes = None
            c.shape(fam, count=NI)
            cell = lambda row, j: Arr(c, fam, (j,)).new(row); old = lambda row, j: Arr(c, fam, (j,)).at(row)
            resreg = fam; resarg = Ptr.to(outer.reg)
        lim, limv = c.vecparam("mp_par_struct", "limits")
        FIT = ex.uff("FIT", IntSort(), IntSort(), RealSort()); STATUS = ex.uff("STATUS", IntSort(), IntSort()); OFF = ex.uff("OFFSET", IntSort(), RealSort())
        log = []
        def setarr(ex, st, p, f):
            ts = [t for _, t in p.alts if t is not None]
            if len(ts) != 1: raise Unsupported("solver result array")
            reg, keys, off = ts[0]; b = Int("fia!")
            c0 = st.arr.get((reg, 0)) or ex.init_content(reg, 0, F64)
            st.arr[(reg, 0)] = c0.add(Rec((b,), And(b >= 0, b < nP), tuple(keys) + (b,), FVal(f(b))))
            ex.writes.append((reg, 0, ex.fn_stack[-1], ex.cur_line))
            return reg
        def solver(kind):
            def h(ex, args, st, pc, ins):
                if len(ex.loopstack) != 1: raise Unsupported("solver called outside the iteration loop")
                t = ex.loopstack[0]
                pv = args[3] if kind == "LM" else args[1]
                reg0, keys0, off0 = [q for _, q in pv.alts if q is not None][0]
                k, hk = c.index("p" + kind, 0, nP)
                v = Arr(c, reg0, keys0).at(k, state=st)
                if not ex.quiet:
                    ex.oblig("%s: every iteration starts its fit from the best-fit parameters" % name, tand(v.ok, v.v == best.at(k).v), list(pc) + hk)
                    ex.oblig("%s: the solver gets the right number of parameters%s" % (name, " and valid pixels" if kind == "LM" else ""), tand(args[0] == nP, *([args[2] == NV] if kind == "LM" else [])), list(pc))
                    lv = calls.vec_get(ex, st, args[4 if kind == "LM" else 2], "std::vector<mp_par_struct>::x(")[0]
                    ex.oblig("%s: the solver gets the parameter limits" % name, lv.size == limv.size, list(pc))
                    q, hq = c.index("l" + kind, 0, limv.size)
                    ex.oblig("%s: ... unchanged" % name, vecelem_same(c, lv, st, limv, c.pre, q), list(pc) + hq)
                    log.append((kind, t, list(pc), st.copy()))
                setarr(ex, st, pv, lambda b: FIT(t, b))
                return STATUS(t)
            return h
        ex.prefix_contracts += [(r"LevMarFit\(", solver("LM")), (r"NMSimplexFit\(", solver("NM"))]
        ex.prefix_contracts.append((r"ModelObject::GetImageOffsets\(", lambda ex, args, st, pc, ins: setarr(ex, st, args[1], OFF) and None))
        noeffect(c, "PrintProgressBar", "PrintToString", "init_genrand", "std::to_string", "ModelObject::PrintModelParamsHorizontalString")
        mk = logcalls(c, "ModelObject::MakeBootstrapSample", ret=IntVal(0)); us = logcalls(c, "ModelObject::UseBootstrap", ret=Int("useStatus"))
        stat = c.int("stat")
        a0 = [Ptr.to(best.reg), lim, c.int("limitsExist"), mo.ptr(), FVal(Real("ftol")), NI, c.int("nFree"), stat, resarg]
        ret = c.run(name, a0 + ([c.int("seed"), c.int("verbose")] if name.endswith("Only") else [Ptr([(TRUE, None)]), c.int("seed")]))
        okay = Int("useStatus") >= 0
        for kind, t, pc, st in log:
            c.ensures("the Levenberg-Marquardt solver is used exactly for chi-squared and Poisson-MLR", tor(stat == 1, stat == 3) if kind == "LM" else tand(stat != 1, stat != 3), pc[len(c.pc):])
        c.ensures("both solver families are reachable and bootstrap mode is entered once", BoolVal({x[0] for x in log} == {"LM", "NM"} and len({str(x["pc"]) for x in us}) == 1 and len(mk) >= 1))
        done = lambda n: ex.SUM(lambda q: If(0 < STATUS(q), IntVal(1), IntVal(0)), n)
        t, ht = c.index("iteration", 0, NI); j, hj = c.index("j", 0, nP)
        ex.cands.append((t, j))
        v = cell(done(t), j)
        c.ensures("a successful iteration's parameters are stored in parameter order, corrected for the image offset, in the next free row", Implies(tand(okay, STATUS(t) > 0), tand(v.ok, v.v == FIT(t, j) + OFF(j))), ht + hj)
        r, hr = c.index("row", 0, NI)
        w, w0 = cell(r, j), old(r, j)
        c.ensures("rows beyond the number of successful iterations are untouched", Implies(r >= done(NI), tand(w.ok == w0.ok, w.v == w0.v)), hr + hj)
        c.ensures("returns the number of successful iterations", ret == If(okay, done(NI), IntVal(-1)))
        c.frame([resreg])
        out.append(c)
    return out


def wrapper(prog):
    c = Ctx(prog, "BootstrapErrors"); ex = c.ex; OFF = ex.uff("OFFSET", IntSort(), RealSort()); nOff = []
    mo = c.obj("ModelObject", "mo"); nP = mo.get("nParamsTot"); NI = c.int("nIterations", 1, 1 << 20); c.requires(nP >= 1, nP <= 4096)
    best = c.array("bestfit", count=nP, finite=True); lim, limv = c.vecparam("mp_par_struct", "limits")
    n = Int("nSuccessful"); c.requires(n >= -1, n <= NI)
    noeffect(c, "ModelObject::GetParamHeader")
    def offs(ex, args, st, pc, ins):
        """ModelObject::GetImageOffsets (proved in P16) on an array of zeros"""
        (reg, keys, off), = [t for _, t in args[1].alts if t is not None]
        k, hk = c.index("off", 0, nP)
        if not ex.quiet:
            nOff.append(1)
            v = ex.read_content(reg, st.arr.get((reg, 0)) or ex.init_content(reg, 0, F64), tuple(keys) + (k,), 0)
            ex.oblig("BootstrapErrors: the offset table starts as zeros", v.v == 0, list(pc) + hk)
        b = Int("ofi!"); c0 = st.arr.get((reg, 0)) or ex.init_content(reg, 0, F64)
        st.arr[(reg, 0)] = c0.add(Rec((b,), And(b >= 0, b < nP), tuple(keys) + (b,), FVal(OFF(b))))
        ex.writes.append((reg, 0, ex.fn_stack[-1], ex.cur_line))
    ex.prefix_contracts.append((r"ModelObject::GetImageOffsets\(", offs))
    base = logcalls(c, "BootstrapErrorsBase", ret=n); one = logcalls(c, "PrintBootstrapSummary", ret=0); multi = logcalls(c, "PrintBootstrapSummaryMultimfit", ret=0)
    mm = c.int("multimfitMode", 0, 1); stat, nf, seed = c.int("stat"), c.int("nFree"), c.int("seed")
    tgt = lambda p: [t for _, t in p.alts if t is not None]
    ret = c.run("BootstrapErrors", [Ptr.to(best.reg), lim, c.int("limitsExist"), mo.ptr(), FVal(Real("ftol")), NI, nf, stat, Ptr([(TRUE, None)]), seed, mm])
    c.ensures("returns the number of successful iterations", ret == n)
    c.ensures("the iterations are run once with the given set-up", BoolVal(len(base) == 1))
    for b in base: c.ensures("... number of iterations, free parameters, statistic and seed are passed on", tand(b["args"][5] == NI, b["args"][6] == nf, b["args"][7] == stat, b["args"][10] == seed))
    seen = []
    for multi_, log in ((0, one), (1, multi)):
        for l in log:
            hp = l["pc"][len(c.pc):]
            c.ensures("summary statistics are taken over exactly the successful iterations", l["args"][3] == n, hp)
            c.ensures("... over the same parameter table and all parameters", tand(BoolVal(len(base) == 1 and len(tgt(l["args"][1])) == 1 and tgt(l["args"][1])[0][0] is tgt(base[0]["args"][8])[0][0]), l["args"][2] == nP), hp)
            c.ensures("... only when there are at least three of them, in the layout of the kind of fit", tand(n >= 3, (mm != 0) if multi_ else (mm == 0)), hp)
            seen.append(tand(*hp))
            (reg, keys, off), = tgt(l["args"][0]); j, hj = c.index("j", 0, nP)
            v = Arr(c, reg, keys).at(j, state=l["st"])
            c.ensures("... around the best-fit values corrected for the image offsets, like the stored iterations", tand(BoolVal(off.is_const() and off.c() == 0), v.ok, v.v == best.at(j).v + OFF(j)), hp + hj)
    for b in base:
        c.ensures("the iterations start from the best fit as given", BoolVal(len(tgt(b["args"][0])) == 1 and tgt(b["args"][0])[0][0] is best.reg and (best.reg, 0) not in b["st"].arr))
    c.ensures("a summary is printed whenever there are at least three successful iterations", Implies(n >= 3, tor(*seen)))
    return [c]


def summary(prog):
    out = []
    for name in ("PrintBootstrapSummary", "PrintBootstrapSummaryMultimfit"):
        c = Ctx(prog, name, dict(havoc=r"ref\.tmp|lower|upper")); ex = c.ex
        c.fact(Int("@_ZL16imageParamLabelsB5cxx11.+0.size") == 5)
        mo = c.obj("ModelObject", "mo"); nP = c.int("nParams", 1, 4096); n = c.int("nIterations", 3, 1 << 20); nI = c.int("nImages", 1, 256)
        c.requires(nP == mo.get("nParamsTot"), nP >= 5 * (nI - 1))
        best = c.array("bestfit", count=nP, finite=True); lim, limv = c.vecparam("mp_par_struct", "limits"); c.requires(limv.size == nP)
        outer = c.array("outputParamArray", count=nP, ety=PTR)
        fam = ex.pointee_region(outer.reg, 0, "outputParamArray[]", nkeys=1); fam.ety = F64; fam.mod = prog.mods[0]; fam.bytes = None; c.shape(fam, count=n)
        logcalls(c, "ModelObject::GetNImages", ret=nI); calls_ = []
        SD, ME, LO, HI = [ex.uff(x, IntSort(), RealSort()) for x in ("SD", "MEAN", "LOWER", "UPPER")]
        lab = c.array("labels", ety=PTR, count=nP)
        def pname(ex, args, st, pc, ins):
            if not ex.quiet:
                ex.oblig("%s: parameter names are asked for by the parameter's own index" % name, tand(args[1] >= 0, args[1] < nP), list(pc))
            return Ptr.to(lab.reg, Poly.of(args[1]) * 8)
        lines = []
        def pr(ex, args, st, pc, ins):
            if not ex.quiet and len(args) > 2: lines.append((args, list(pc)))
            return calls.ret_default(ex, args, ins, "printf")
        ex.prefix_contracts.append((r"std::.*basic_string<.*::c_str\(", lambda ex, args, st, pc, ins: args[0]))
        ex.prefix_contracts += [(r"ModelObject::GetParameterName\(", pname), (r"printf$", pr)]
        def arg(kind):
            def h(ex, args, st, pc, ins):
                p = args[1] if kind == "ConfidenceInterval" else args[0]; N = args[2] if kind == "ConfidenceInterval" else args[1]
                reg, keys, off = [t for _, t in p.alts if t is not None][0]
                if not ex.quiet:
                    calls_.append(kind)
                    ex.oblig("%s: %s is taken over one parameter's values from all successful iterations" % (name, kind), tand(BoolVal(reg is fam), Poly.of(off).z() == 0, N == n), list(pc))
                if kind == "ConfidenceInterval":
                    for o, f in ((8, LO), (0, HI)): ex.store(st, ex.ptr_add(args[0], Poly.const(o)), FVal(f(keys[0])), F64, pc)
                    return None
                return FVal(SD(keys[0])) if kind == "StandardDeviation" else FVal(ME(keys[0]))
            return h
        for k in ("Mean", "StandardDeviation", "ConfidenceInterval"): ex.prefix_contracts.append((k + r"\(", arg(k)))
        c.run(name, [Ptr.to(best.reg), Ptr.to(outer.reg), nP, n, lim, mo.ptr()])
        multi = name.endswith("fit")
        for a, pc in lines:
            hp = pc[len(c.pc):]; ap = []
            prover.apps_of(a[2].v, {best.at(0).v.decl().name()}, ap, set())
            i = ap[0].children()[0] if ap else None
            if i is None: raise SpecError("a summary line prints something that is not a best-fit value")
            (lr, lk, lo), = [t for _, t in a[1].alts if t is not None]
            off = Poly.of(lo).z()
            c.ensures("a line prints the best-fit value of one parameter", tand(a[2].v == best.at(i).v, i >= 0, i < nP), hp)
            if lr is lab.reg: c.ensures("... under the name of that parameter", tand(off == 8 * i, i >= 5 * (nI - 1) if multi else TRUE), hp)
            else: c.ensures("... under the name of that image-description parameter", tand(BoolVal(multi and "imageParamLabels" in lr.name), i < 5 * (nI - 1), off == ex.imod(i, 5, [])), hp)
            if len(a) > 3:
                c.ensures("... with that parameter's upper and lower error, interval, half-width, mean and standard deviation",
                          tand(*[x.v == y for x, y in zip(a[3:], (HI(i) - best.at(i).v, best.at(i).v - LO(i), LO(i), HI(i), (HI(i) - LO(i)) / 2, ME(i), SD(i)))]), hp)
        c.ensures("both kinds of summary line exist for every group of parameters", BoolVal(len(lines) == (4 if multi else 2)))
        c.ensures("mean, standard deviation and interval are all computed", BoolVal(set(calls_) == {"Mean", "StandardDeviation", "ConfidenceInterval"}))
        out.append(c)
    return out


CONTRACTS = [sample, rows, wrapper, summary]
