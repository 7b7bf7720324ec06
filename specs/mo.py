"""ModelObject in an arbitrary well-formed state: the ghost view shared by the P01-P04, P07, P10, P11 and P16 contracts."""
from spec import *
from fobj import FObj, Conv
import calls

MO_UNITS = ["core/model_object.cpp", "function_objects/function_object.cpp", "core/oversampled_region.cpp", "core/convolver.cpp", "core/mp_enorm.cpp", "function_objects/psf_interpolators.cpp", "core/psf_oversampling_info.cpp"]


def vec_of_ptrs(c, obj, field, cls):
    """(VecVal, family region) for a vector of distinct object pointers"""
    ex = c.ex
    ex.cur_mod = c.prog.mods[0]
    v = obj.vec(field)
    v.data.boolean = False
    fam = ex.pointee_region(v.data, 0, "%s[]" % field, nkeys=1)
    return v, fam


class MO:
    """conv: None (either) / True / False"""

    def __init__(self, c, params=True, functions=True, align=True):
        self.c = c; self.o = o = c.obj("ModelObject", "mo"); g = o.get; self.g = g
        ex = c.ex
        self.DC, self.DR, self.DV = g("nDataColumns"), g("nDataRows"), g("nDataVals")
        self.MC, self.MR, self.MV = g("nModelColumns"), g("nModelRows"), g("nModelVals")
        self.PC, self.PR = g("nPSFColumns"), g("nPSFRows")
        self.conv = g("doConvolution") != 0
        B = 1 << 15
        c.requires(self.PC >= 0, self.PR >= 0, self.PC <= B, self.PR <= B, Implies(Not(self.conv), And(self.PC == 0, self.PR == 0)), self.MC >= 1, self.MR >= 1, self.MV == self.MC * self.MR)
        if align: c.requires(self.DC >= 1, self.DR >= 1, self.DV == self.DC * self.DR, self.DC <= B, self.DR <= B, self.MC == self.DC + 2 * self.PC, self.MR == self.DR + 2 * self.PR)
        self.model = o.array("modelVector", stride=self.MC, rows=self.MR, finite=True)
        ex.shapes.append((self.MR, self.MC)) if (self.MR, self.MC) not in ex.shapes else None
        ex.shapes.append((self.DR, self.DC))
        if functions:
            self.nF = g("nFunctions")
            c.requires(self.nF >= 1)
            v, fam = vec_of_ptrs(c, o, "functionObjects", "FunctionObject")
            self.fvec = v
            c.requires(v.size == self.nF)
            ps = o.vec("paramSizes")
            c.requires(ps.size == self.nF)
            self.ps = Arr(c, ps.data)
            self.flags = o.array("fsetStartFlags", count=self.nF, ety=I8)
            c.requires(self.flags.at(0, ty=I8) != 0)
            self.params = None
            if params:
                self.nP = g("nParamsTot")
                self.params = c.array("params", count=None, finite=True)
            self.fo = FObj(c, fam, params=self.params)
            self.fam = fam

    def psize(self, n): return self.ps.at(n, ty=I32)
    def flag(self, n): return self.flags.at(n, ty=I8) != 0
    def off(self, n):
        """index of the first parameter of function n (after its x0,y0 if it starts a set)"""
        return self.c.ex.SUM(lambda k: norm_int(self.psize(k) + If(self.flag(k), IntVal(2), IntVal(0))), n) + If(self.flag(n), IntVal(2), IntVal(0))

    def start(self, n):
        """index of x0 of the set started by function n"""
        return self.c.ex.SUM(lambda k: norm_int(self.psize(k) + If(self.flag(k), IntVal(2), IntVal(0))), n)

    def setup_contract(self, st, centre=True):
        """postconditions of the parameter-distribution loop"""
        c, fo = self.c, self.fo
        n, hn = c.index("n", 0, self.nF)
        c.ensures("every component is set up with its own parameter slice", fo.rd("offset", n, st) == self.off(n), hn)
        if centre:
            for w, k in (("x0", 0), ("y0", 1)):
                v = lambda n: fo.rd(w, n, st)
                c.ensures("a component starting a function set is set up with that set's %s" % w, Implies(self.flag(n), v(n) == self.params.at(norm_int(self.start(n) + k)).v), hn)
                c.ensures("the other components of the set share its %s" % w, Implies(Not(self.flag(n)), v(n) == v(n - 1)), hn + [n >= 1])
        return n, hn


class Regions:
    """ComputeRegionAndDownsample at its call sites (body verified in P06): it replaces the image; region n leaves REGION(n,.,.)"""

    def __init__(self, c, m):
        self.c = c; self.m = m; self.log = []
        self.vec, self.fam = vec_of_ptrs(c, m.o, "oversampledRegionsVect", "OversampledRegion")
        self.n = m.g("nOversampledRegions"); self.exist = m.g("oversampledRegionsExist") != 0
        c.requires(self.n >= 0, self.vec.size == self.n, self.exist == (self.n > 0))
        ex = c.ex
        r = self.done = ex.new_region("ghost:region processed", ety=I32, mod=c.prog.mods[0], nkeys=1)
        r.bytes = None; r.single = True; r.boolean = False; r.kind = "ghost"
        ex.init[(r, 0)] = IntVal(0)
        c.pre.arr[(r, 0)] = Content(("const", IntVal(0)))
        ex.prefix_contracts.append((r"OversampledRegion::ComputeRegionAndDownsample\(", self.h))

    def image(self, n, *ix): return self.c.ex.uff("REGION", *([IntSort()] * 3 + [RealSort()]))(n, *ix)

    def h(self, ex, args, st, pc, ins):
        ts = [t for _, t in args[0].alts if t is not None]
        if len(ts) != 1 or ts[0][0] is not self.fam: raise Unsupported("call on an unknown OversampledRegion")
        n = norm_int(ts[0][1][0])
        t = [t for _, t in args[1].alts if t is not None]
        if len(t) != 1: raise Unsupported("region image argument")
        reg = t[0][0]
        self.log.append(dict(n=n, args=args, st=st.copy(), pc=list(pc), reg=reg, vec=self.argvec(ex, st, args[2])))
        ex.writes.append((reg, 0, ex.fn_stack[-1], ex.cur_line))
        a, b = Int("rga!"), Int("rgb!")
        c0 = st.arr.get((reg, 0)) or ex.init_content(reg, 0, F64)
        st.arr[(reg, 0)] = c0.add(Rec((a, b), TRUE, (a, b), FVal(self.image(n, a, b))))
        c0 = st.arr[(self.done, 0)]
        st.arr[(self.done, 0)] = c0.add(Rec((), TRUE, (n,), IntVal(1)))
        return None

    def argvec(self, ex, st, p):
        return calls.vec_get(ex, st, p, "std::vector<FunctionObject*, std::allocator<FunctionObject*>>::x(")[0]

    def processed(self, n, st):
        return self.c.ex.read_content(self.done, st.arr[(self.done, 0)], (n,), 0)

    def passes(self, L, q, fam):
        """element q of the vector passed at call L is object q of the family fam"""
        return elem_is(self.c, L["vec"], q, L["st"], fam, q)


def elem_is(c, vec, q, st, fam, key):
    ex = c.ex
    cont = st.arr.get((vec.data, 0)) or ex.init_content(vec.data, 0, PTR)
    pv = ex.read_content(vec.data, cont, tuple(vec.keys) + (q,), 0)
    return tor(*[tand(cnd, t[1][0] == key) for cnd, t in pv.alts if t is not None and t[0] is fam and t[2].is_const() and t[2].c() == 0])
