"""Abstract contract of FunctionObject, used by every caller (the real subclasses are checked against it in P08/P09/P14):
   Setup records (parameter slice, centre); AddPsfInterpolator / SetOversamplingScale record their argument;
   GetValue(x,y) is a function of the object, what was recorded, and (x,y), and changes nothing."""
from spec import *

GHOST = [("offset", "i"), ("x0", "f"), ("y0", "f"), ("scale", "i"), ("interp", "i"), ("img", "i")]


class FObj:
    def __init__(self, c, fam, params=None, finite=True):
        """fam: region of the objects, indexed by one key (position in the vector)"""
        self.c = c; self.fam = fam; self.ex = c.ex; self.log = []; self.params = params
        ex = c.ex
        self.g = {}
        for nm, k in GHOST:
            r = ex.new_region("ghost:%s.%s" % (fam.name, nm), ety=(F64 if k == "f" else I32), mod=c.prog.mods[0], nkeys=1)
            r.bytes = None; r.single = True; r.boolean = False; r.kind = "ghost"; r.finite = True
            self.g[nm] = (r, k)
        self.regids = {}
        self.nsetup = 0
        P = ex.prefix_contracts
        P.append((r"FunctionObject::IsPointSource\(", self.h_isps))
        P.append((r"FunctionObject::GetValue\(double, double\)", self.h_val))
        P.append((r"FunctionObject::Setup\(", self.h_setup))
        P.append((r"FunctionObject::AddPsfInterpolator\(", self.h_interp))
        P.append((r"FunctionObject::SetOversamplingScale\(", self.h_scale))

    # ---- ghost access
    def key(self, p):
        ts = [t for _, t in p.alts if t is not None]
        if len(ts) != 1 or ts[0][0] is not self.fam: raise Unsupported("call on an unknown FunctionObject")
        k = ts[0][1]
        if len(k) == 1 and ts[0][2].is_const() and ts[0][2].c() == 0: return k[0]
        raise Unsupported("FunctionObject address")

    def rd(self, nm, n, st):
        r, k = self.g[nm]
        cont = st.arr.get((r, 0)) or self.ex.init_content(r, 0, r.ety)
        v = self.ex.read_content(r, cont, (n,), 0)
        return v.v if isinstance(v, FVal) else v

    def wr(self, nm, n, v, st, pc):
        r, k = self.g[nm]
        self.ex.write_cell(st, r, 0, (norm_int(n),), FVal(v) if k == "f" else v, r.ety, pc)

    def region_id(self, reg):
        i = self.regids.get(reg)
        if i is None: i = self.regids[reg] = len(self.regids) + 1
        return i

    def ptr_id(self, p):
        """integer identity of the target of p (0 for null), with offset ignored"""
        out = IntVal(0)
        for cnd, t in reversed(p.alts):
            v = IntVal(0) if t is None else IntVal(self.region_id(t[0]))
            out = v if out is None else ite(cnd, v, out)
        return out

    # ---- logical functions
    def isps(self, n): return self.ex.uff("isPointSource", IntSort(), BoolSort())(n)

    def val(self, n, x, y, ghost):
        f = self.ex.uff("VALUE", IntSort(), RealSort(), RealSort(), IntSort(), RealSort(), RealSort(), IntSort(), IntSort(), RealSort())
        return f(n, x, y, ghost["offset"], ghost["x0"], ghost["y0"], ghost["scale"], ghost["interp"])

    def ghost(self, n, st, **over):
        d = {nm: self.rd(nm, n, st) for nm, _ in GHOST}
        d.update(over)
        return d

    def value(self, n, x, y, st, **over):
        return self.val(n, x, y, self.ghost(n, st, **over))

    # ---- contracts
    def h_isps(self, ex, args, st, pc, ins): return self.isps(self.key(args[0]))

    def h_val(self, ex, args, st, pc, ins):
        n = self.key(args[0])
        return FVal(self.value(n, args[1].v, args[2].v, st))

    def h_setup(self, ex, args, st, pc, ins):
        n = self.key(args[0]); p = args[1]
        off = args[2]
        if self.params is not None:
            ts = [t for _, t in p.alts if t is not None]
            ok = len(ts) == 1 and ts[0][0] is self.params.reg and tuple(ts[0][1]) == tuple(self.params.keys) and (self.params.reg, 0) not in st.arr
            ex.oblig("Setup receives the caller's parameter vector, unmodified", BoolVal(bool(ok)), pc, "pre")
            if ok:
                po = ts[0][2]
                if po.d:
                    off = norm_int((Poly.of(off) + Poly({k: v // 8 for k, v in po.d.items()})).z())
        self.wr("offset", n, norm_int(off), st, pc); self.wr("x0", n, args[3].v, st, pc); self.wr("y0", n, args[4].v, st, pc)
        return None

    def h_interp(self, ex, args, st, pc, ins):
        self.wr("interp", self.key(args[0]), self.ptr_id(args[1]), st, pc); return None

    def h_scale(self, ex, args, st, pc, ins):
        self.wr("scale", self.key(args[0]), args[1], st, pc); return None


class Conv:
    """Contract of Convolver::ConvolveImage at call sites (its body is verified in P05): the image becomes CONV_k of itself; the log keeps the image before each call"""
    def __init__(self, c):
        self.c = c; self.log = []
        c.ex.prefix_contracts.append((r"Convolver::ConvolveImage\(", self.h))

    def h(self, ex, args, st, pc, ins):
        t = [t for _, t in args[1].alts if t is not None]
        if len(t) != 1: raise Unsupported("ConvolveImage argument")
        reg, keys, off = t[0]
        k = len(self.log)
        ent = dict(reg=reg, keys=keys, before=st.copy(), pc=list(pc), obj=args[0], name="CONV%d" % k)
        self.log.append(ent)
        f = ent["name"]
        def cell(idx, nm=f):
            return FVal(ex.uff(nm, *([IntSort()] * len(idx) + [RealSort()]))(*idx))
        new = Content(("fn", cell))
        ex.writes.append((reg, 0, ex.fn_stack[-1], ex.cur_line))
        st.arr[(reg, 0)] = new
        return None

    def at(self, k, *idx): return self.c.ex.uff("CONV%d" % k, *([IntSort()] * len(idx) + [RealSort()]))(*idx)
