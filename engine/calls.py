"""Contracts assumed for code outside /repo: C library, C++ standard library, LLVM intrinsics.

Each handler is a trusted contract (listed in the evidence as such)."""
import re
import z3
from terms import *
from mem import *
from irparse import Ty
import sym

F64 = Ty("fp", n=64)
USED = {}          # trusted contracts used (name -> count)

# ------------------------------------------------------------------ math
R2 = (RealSort(), RealSort())


def uf1(ex, nm, x): return ex.uff(nm, RealSort(), RealSort())(x)


def m_sqrt(ex, x):
    if is_num(x.v):
        from math import isqrt
        f = x.v.as_fraction()
        if f >= 0:
            a, b = isqrt(f.numerator), isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator: return FVal(RealVal(Fraction(a, b)), x.ok)
    s = uf1(ex, "SQRT", x.v)
    ex.afact(Implies(x.v >= 0, And(s >= 0, s * s == x.v)))
    return FVal(s, tand(x.ok, x.v >= 0))


from fractions import Fraction


def m_pow(ex, x, y):
    if is_num(y.v):
        f = y.v.as_fraction()
        if f.denominator == 1 and 0 <= f.numerator <= 8:
            n = f.numerator
            if n == 0: return FVal(RealVal(1), x.ok)
            r = x.v
            for _ in range(n - 1): r = r * x.v
            return FVal(r, x.ok)
        if f == Fraction(1, 2): return m_sqrt(ex, x)
    p = ex.uff("POW", RealSort(), RealSort(), RealSort())(x.v, y.v)
    ex.afact(Implies(x.v > 0, p > 0))
    ex.afact(Implies(x.v == 1, p == 1))
    if ex.opts.get("pow_lemmas"): ex.powlog.append((x.v, y.v, p))
    return FVal(p, tand(x.ok, y.ok, Or(x.v > 0, And(x.v == 0, y.v >= 0))) if not ex.opts.get("pow_total") else tand(x.ok, y.ok))


def m_abs(ex, x): return FVal(ite(x.v >= 0, x.v, -x.v) if not is_num(x.v) else RealVal(abs(x.v.as_fraction())), x.ok)


def m_floor(ex, x):
    if is_num(x.v): return FVal(RealVal(x.v.as_fraction().__floor__()), x.ok)
    return FVal(ToReal(ToInt(x.v)), x.ok)


def m_ceil(ex, x):
    if is_num(x.v): return FVal(RealVal(x.v.as_fraction().__ceil__()), x.ok)
    return FVal(-ToReal(ToInt(-x.v)), x.ok)


def m_round(ex, x):
    return FVal(ite(x.v >= 0, ToReal(ToInt(x.v + RealVal("1/2"))), -ToReal(ToInt(-x.v + RealVal("1/2")))), x.ok)


def mk_uf(nm, okf=None, lemma=None):
    def h(ex, x):
        r = uf1(ex, nm, x.v)
        if lemma: ex.afact(lemma(ex, x.v, r))
        return FVal(r, tand(x.ok, okf(x.v)) if okf else x.ok)
    return h


def mk_uf2(nm):
    def h(ex, x, y):
        return FVal(ex.uff(nm, RealSort(), RealSort(), RealSort())(x.v, y.v), tand(x.ok, y.ok))
    return h


def m_sincos(nm):
    def h(ex, x):
        if is_num(x.v) and x.v.as_fraction() == 0: return FVal(RealVal(0 if nm == "SIN" else 1), x.ok)
        s = uf1(ex, "SIN", x.v); c = uf1(ex, "COS", x.v)
        ex.afact(s * s + c * c == 1)
        return FVal(s if nm == "SIN" else c, x.ok)
    return h


MATH1 = {
    "sqrt": m_sqrt, "fabs": m_abs, "abs": m_abs, "floor": m_floor, "ceil": m_ceil, "round": m_round, "trunc": None,
    "exp": mk_uf("EXP", None, lambda ex, x, r: And(r > 0, Implies(x == 0, r == 1))),
    "log": mk_uf("LOG", lambda v: v > 0), "log10": mk_uf("LOG10", lambda v: v > 0), "log2": mk_uf("LOG2", lambda v: v > 0),
    "sin": m_sincos("SIN"), "cos": m_sincos("COS"), "tan": mk_uf("TAN"),
    "atan": mk_uf("ATAN"), "asin": mk_uf("ASIN"), "acos": mk_uf("ACOS"), "sinh": mk_uf("SINH"),
    "cosh": mk_uf("COSH", None, lambda ex, x, r: r >= 1), "tanh": mk_uf("TANH"), "tgamma": mk_uf("TGAMMA"), "lgamma": mk_uf("LGAMMA"),
    "gsl_sf_gamma": mk_uf("TGAMMA"), "gsl_sf_bessel_K0": mk_uf("BESSK0"), "gsl_sf_bessel_K1": mk_uf("BESSK1"),
    "erf": mk_uf("ERF"), "expm1": mk_uf("EXPM1"), "log1p": mk_uf("LOG1P"),
}
MATH1 = {k: v for k, v in MATH1.items() if v}
MATH2 = {"pow": m_pow, "atan2": mk_uf2("ATAN2"), "fmod": mk_uf2("FMOD"), "hypot": mk_uf2("HYPOT"),
         "gsl_sf_beta": mk_uf2("BETA"), "gsl_sf_bessel_Kn": None, "gsl_sf_bessel_Knu": mk_uf2("BESSKNU"),
         "fmin": lambda ex, x, y: FVal(ite(x.v <= y.v, x.v, y.v), tand(x.ok, y.ok)),
         "fmax": lambda ex, x, y: FVal(ite(x.v >= y.v, x.v, y.v), tand(x.ok, y.ok))}
MATH2 = {k: v for k, v in MATH2.items() if v}


def h_math1(f):
    def h(ex, args, st, pc, ins, name, dem):
        if isinstance(args[0], Unknown): return args[0]
        x = args[0]
        if not isinstance(x, FVal): x = FVal(ToReal(ex.as_int(x)))
        return f(ex, x)
    return h


def h_math2(f):
    def h(ex, args, st, pc, ins, name, dem):
        a, b = args[:2]
        if isinstance(a, Unknown): return a
        if isinstance(b, Unknown): return b
        if not isinstance(a, FVal): a = FVal(ToReal(ex.as_int(a)))
        if not isinstance(b, FVal): b = FVal(ToReal(ex.as_int(b)))
        return f(ex, a, b)
    return h


# ------------------------------------------------------------------ misc handlers
class Opaque:
    opaque = True

    def __init__(self, nm): self.nm = nm
    def __repr__(self): return "Opaque(%s)" % self.nm
    def vsubst(self, pairs): return self
    def vite(self, c, b): return self if isinstance(b, Opaque) else Unknown("opaque merge")
    def sym_like(self, ex, name): return self, []


def ret_default(ex, args, ins, nm):
    ty = ins.ty
    if ty is None or ty.k == "void": return None
    if ty.k == "int":
        if ty.n == 1: return ex.fresh(BoolSort(), ex.site(nm))
        v = ex.fresh(IntSort(), ex.site(nm)); ex.tyrange(v, ty.n); return v
    if ty.k == "fp": return FVal(ex.fresh(RealSort(), ex.site(nm)), ex.fresh(BoolSort(), ex.site(nm) + "!ok"))
    if ty.k == "ptr": return Opaque(nm)
    return Unknown(nm)


def h_noeffect(ex, args, st, pc, ins, name, dem):
    return ret_default(ex, args, ins, "ext:" + name[:40])


def h_stream(ex, args, st, pc, ins, name, dem):
    if ins.ty.k == "ptr": return Opaque("stream")
    return ret_default(ex, args, ins, "stream")


def h_exit(ex, args, st, pc, ins, name, dem): return (None, None, None)


def alloc(ex, nbytes, st, zero, what):
    key = (ex.act_path, ex.cur_ins_id)
    if not hasattr(ex, "allocsites"): ex.allocsites = {}
    ks = tuple(ex.loopstack)
    r = ex.allocsites.get(key)
    if r is None:
        r = ex.new_region("%s:%s" % (what, (ex.fn_stack[-1] if ex.fn_stack else "")[-30:]), nkeys=len(ks), mod=ex.cur_mod)
        r.kind = "alloc"
        r.boolean = False
        ex.allocsites[key] = r
    r.bytes = norm_int(nbytes)
    r.zero_init = zero
    # fresh contents
    if not ks:
        for k in [k for k in st.scal if k[0] is r]: del st.scal[k]
        for k in [k for k in st.arr if k[0] is r]: del st.arr[k]
    if zero and r.ety is not None:
        pass
    return Ptr.to(r, 0, ks)


def h_malloc(ex, args, st, pc, ins, name, dem):
    return alloc(ex, args[0], st, False, "malloc")


def h_calloc(ex, args, st, pc, ins, name, dem):
    return alloc(ex, (Poly.of(args[0]) * Poly.of(args[1])).z(), st, True, "calloc")


def h_new(ex, args, st, pc, ins, name, dem):
    p = alloc(ex, args[0], st, False, "new")
    r = p.alts[0][1][0]
    if name == "_Znwm":
        if z3.is_int_value(r.bytes): r.count = 1; r.single = True; r.bytes = None
    return p


def h_free(ex, args, st, pc, ins, name, dem): return None


def h_memcpy(ex, args, st, pc, ins, name, dem):
    d, s, n = args[0], args[1], args[2]
    n = norm_int(n)
    if isinstance(d, Unknown) or isinstance(s, Unknown): raise Unsupported("memcpy of unknown pointer")
    (cd, td), (cs, ts) = d.alts[0], s.alts[0]
    if len(d.alts) > 1 or len(s.alts) > 1 or td is None or ts is None: raise Unsupported("memcpy alternatives")
    rs, ks, os_ = ts; rd, kd, od = td
    if rs.ety is None and rd.ety is not None: rs.ety = rd.ety; rs.mod = rd.mod
    if rd.ety is None and rs.ety is not None: rd.ety = rs.ety; rd.mod = rs.mod
    if rs.ety is None: raise Unsupported("memcpy untyped")
    leaves = leaf_list(ex, rs)
    sz = rs.mod.sizeof(rs.ety)
    ret = args[0]
    if z3.is_int_value(n) and n.as_long() <= 64 * 8:
        # element/field-wise
        total = n.as_long(); o = 0
        # generic scalar copy by leaf enumeration
        if total % sz == 0:
            for e in range(total // sz):
                for lo, lt in leaves:
                    v = ex.load1(st, rs, ks, os_ + (e * sz + lo), lt, pc, "memcpy")
                    ex.store1(st, rd, kd, od + (e * sz + lo), v, lt, pc, "memcpy")
            return ret
        for lo, lt in leaves:
            if lo < total:
                v = ex.load1(st, rs, ks, os_ + lo, lt, pc, "memcpy")
                ex.store1(st, rd, kd, od + lo, v, lt, pc, "memcpy")
        return ret
    if len(leaves) != 1: raise Unsupported("memcpy of struct array")
    lt = leaves[0][1]
    np_ = Poly.of(n)
    if not all(v % sz == 0 for v in np_.d.values()): raise Unsupported("memcpy length")
    cnt = Poly({k: v // sz for k, v in np_.d.items()}).z()
    v = Int("mcpy!%s" % ex.site("m")); ex.loopvars[aid(v)] = v
    inr = [v >= 0, v < cnt]
    val = ex.load1(st, rs, ks, os_ + Poly.of(v) * sz, lt, list(pc) + inr, "memcpy source")
    fk, idx, leaf = ex.locate(rd, kd, od + Poly.of(v) * sz, lt, list(pc) + inr, "memcpy destination")
    if not ex.quiet: ex.writes.append((rd, fk, ex.fn_stack[-1] if ex.fn_stack else "", ex.cur_line))
    c = st.arr.get((rd, fk))
    if c is None: c = ex.init_content(rd, fk, lt)
    st.arr[(rd, fk)] = c.add(Rec((v,), And(*inr), idx, val))
    return ret


def leaf_list(ex, reg):
    m = reg.mod; out = []

    def rec(t, o):
        t = m.resolve(t)
        if t.k == "struct":
            for i in range(len(t.a)):
                fo, fe = m.field_offset(t, i); rec(fe, o + fo)
        elif t.k == "array":
            if t.a.k == "int" and t.a.n == 8 and t.n != 1: return    # padding / char buffers
            for i in range(t.n): rec(t.a, o + i * m.sizeof(t.a))
        else: out.append((o, t))
    rec(reg.ety, 0)
    return out


def h_memset(ex, args, st, pc, ins, name, dem):
    d, b, n = args[0], args[1], norm_int(args[2])
    if not (z3.is_int_value(b) and b.as_long() == 0): raise Unsupported("memset nonzero")
    (cd, td) = d.alts[0]
    if len(d.alts) > 1 or td is None: raise Unsupported("memset alternatives")
    rd, kd, od = td
    if rd.ety is None:
        raise Unsupported("memset untyped")
    leaves = leaf_list(ex, rd); sz = rd.mod.sizeof(rd.ety)
    if z3.is_int_value(n) and n.as_long() <= 64 * 8:
        tot = n.as_long()
        reps = max(1, tot // sz)
        for e in range(reps):
            for lo, lt in leaves:
                if e * sz + lo < tot: ex.store1(st, rd, kd, od + (e * sz + lo), ex.zero(lt), lt, pc, "memset")
        return args[0]
    if len(leaves) != 1: raise Unsupported("memset of struct array")
    lt = leaves[0][1]; np_ = Poly.of(n)
    if not all(v % sz == 0 for v in np_.d.values()): raise Unsupported("memset length")
    cnt = Poly({k: v // sz for k, v in np_.d.items()}).z()
    v = Int("mset!%s" % ex.site("m")); ex.loopvars[aid(v)] = v
    inr = [v >= 0, v < cnt]
    fk, idx, leaf = ex.locate(rd, kd, od + Poly.of(v) * sz, lt, list(pc) + inr, "memset")
    if not ex.quiet: ex.writes.append((rd, fk, ex.fn_stack[-1] if ex.fn_stack else "", ex.cur_line))
    c = st.arr.get((rd, fk))
    if c is None: c = ex.init_content(rd, fk, lt)
    st.arr[(rd, fk)] = c.add(Rec((v,), And(*inr), idx, ex.zero(lt)))
    return args[0]


def h_fpclass(ex, args, st, pc, ins, name, dem):
    x = args[0]; mask = args[1].as_long()
    if isinstance(x, Unknown): return x
    nan = ex.isnan(x)
    fin = x.ok
    inf = tand(tnot(fin), tnot(nan))
    NAN, INFM, FIN = 3, 0x204, 0x1F8
    parts = []
    if mask & NAN: parts.append(nan)
    if mask & INFM == INFM: parts.append(inf)
    elif mask & INFM:
        raise Unsupported("fpclass one-sided infinity")
    if mask & FIN == FIN: parts.append(fin)
    elif mask & FIN: raise Unsupported("fpclass partial")
    if mask == (INFM | FIN): return tnot(nan)
    if mask == (NAN | INFM): return tnot(fin)
    return tor(*parts)


def h_fmuladd(ex, args, st, pc, ins, name, dem):
    a, b, c = args
    for x in args:
        if isinstance(x, Unknown): return x
    return FVal(ex.radd(ex.rmul(a.v, b.v), c.v), tand(a.ok, b.ok, c.ok))


def h_minmax(kind):
    def h(ex, args, st, pc, ins, name, dem):
        a, b = args[0], args[1]
        if kind == "smax": return ite(a >= b, a, b)
        if kind == "smin": return ite(a <= b, a, b)
        if kind == "umax": return ite(a >= b, a, b)
        return ite(a <= b, a, b)
    return h


def h_iabs(ex, args, st, pc, ins, name, dem):
    a = args[0]
    if isinstance(a, FVal): return m_abs(ex, a)
    return ite(a >= 0, a, -a)


def h_stdminmax(kind):
    def h(ex, args, st, pc, ins, name, dem):
        # std::max/min(const T&, const T&)
        mm = re.search(r"std::(?:max|min)<(\w[\w ]*)>", dem)
        ety, _, _ = ex.ctype(mm.group(1))
        a = ex.load(st, args[0], ety, pc); b = ex.load(st, args[1], ety, pc)
        if isinstance(a, FVal):
            c = ex.fcmp("olt", a, b, pc)
            # max: (a<b)?b:a ; min: (b<a)?b:a
            if kind == "max": return vite(c, args[1], args[0])
            return vite(ex.fcmp("olt", b, a, pc), args[1], args[0])
        return vite(a < b, args[1], args[0]) if kind == "max" else vite(b < a, args[1], args[0])
    return h


# ------------------------------------------------------------------ std::vector
class VecVal:
    opaque = True

    def __init__(self, size, data, keys=()):
        self.size = size; self.data = data; self.keys = tuple(keys)

    def __repr__(self): return "Vec(%s,%s)" % (self.size, self.data)

    def vsubst(self, pairs):
        return VecVal(norm_int(substitute(self.size, *pairs)), self.data, [substitute(k, *pairs) for k in self.keys])

    def vite(self, c, b):
        if not isinstance(b, VecVal): return Unknown("vector merge")
        if b.data is self.data and all(x.eq(y) for x, y in zip(self.keys, b.keys)):
            return VecVal(ite(c, self.size, b.size), self.data, self.keys)
        return Unknown("vector data merge")

    def sym_like(self, ex, name):
        s = ex.fresh(IntSort(), name + ".size")
        ex.fact(s >= 0)
        return VecVal(s, self.data, self.keys), [("x:size", s, self.size)]

    def comp(self, which): return self.size


def vec_loc(ex, p):
    if isinstance(p, Unknown): raise Unsupported("vector at unknown address")
    if not isinstance(p, Ptr): raise Unsupported("vector at %r" % (p,))
    alts = [(c, t) for c, t in p.alts if t is not None]
    if len(alts) != 1: raise Unsupported("vector address alternatives")
    reg, keys, off = alts[0][1]
    if reg.ety is None or reg.single:
        if not off.is_const(): raise Unsupported("vector offset")
        return (reg, ("vec", off.c())), tuple(keys), reg
    m = reg.mod; s = m.sizeof(reg.ety)
    q = {}; r = {}
    for k, v in off.d.items():
        if k == ():
            if v // s: q[()] = v // s
            if v % s: r[()] = v % s
        elif v % s == 0: q[k] = v // s
        else: raise Unsupported("vector offset")
    return (reg, ("vec", Poly(r).c())), tuple(keys) + (Poly(q).z(),), reg


def elem_of(dem):
    m = re.search(r"std::(?:__cxx11::)?vector<", dem)
    i = m.end(); d = 1; out = ""
    while i < len(dem):
        ch = dem[i]
        if ch == "<": d += 1
        if ch == ">": d -= 1
        if d == 0 or (d == 1 and ch == ","): break
        out += ch; i += 1
    return out.strip()


def new_vec(ex, st, elem, what, keys=None):
    key = (ex.act_path, ex.cur_ins_id, "vec", what)
    if not hasattr(ex, "allocsites"): ex.allocsites = {}
    r = ex.allocsites.get(key)
    ks = tuple(ex.loopstack) if keys is None else keys
    if r is None:
        r = data_region(ex, elem, "vec:%s" % (ex.fn_stack[-1] if ex.fn_stack else "")[-30:], len(ks))
        r.boolean = False
        ex.allocsites[key] = r
    if not ks:
        for k in [k for k in st.arr if k[0] is r]: del st.arr[k]
    return r, ks


def data_region(ex, elem, nm, nkeys=0):
    ety, cls, mod = ex.ctype(elem)
    r = ex.new_region(nm, ety=ety, mod=mod or ex.cur_mod, cls=cls, nkeys=nkeys)
    r.elem_tname = elem
    r.bytes = None
    r.opaque_elem = ety is None
    return r


def vec_get(ex, st, p, dem, pc=()):
    key, keys, reg = vec_loc(ex, p)
    if keys:
        fam = ex.vecfam.get(key) if hasattr(ex, "vecfam") else None
        if not hasattr(ex, "vecfam"): ex.vecfam = {}
        if fam is None:
            nm = reg.name + "[]." + ex.field_name(reg, key[1][1])
            fam = (data_region(ex, elem_of(dem), nm, len(keys)), nm)
            ex.vecfam[key] = fam
        if (reg, key[1]) in st.scal: raise Unsupported("vector in array after write")
        sz = ex.uff(fam[1] + ".size", *([IntSort()] * (len(keys) + 1)))(*keys)
        ex.fact(And(sz >= 0, sz <= 2**31 - 1))
        return VecVal(sz, fam[0], keys), key
    v = st.scal.get(key)
    if v is None: v = ex.init.get(key)
    if v is None:
        nm = reg.name + "." + (ex.field_name(reg, key[1][1]) or "+%d" % key[1][1])
        sz = Int(nm + ".size"); ex.fact(And(sz >= 0, sz <= 2**31 - 1))
        v = VecVal(sz, data_region(ex, elem_of(dem), nm + "[]"))
        ex.init[key] = v
    if isinstance(v, Unknown): raise Unsupported("vector: " + v.why)
    return v, key


def vec_set(ex, st, key, v):
    if not ex.quiet: ex.writes.append((key[0], key[1][1], ex.fn_stack[-1] if ex.fn_stack else "", ex.cur_line))
    st.scal[key] = v


def esize(ex, v):
    if v.data.ety is None: return 1
    return v.data.mod.sizeof(v.data.ety)


def vec_at(ex, v, i, pc, what):
    if ex.opts["bounds"]:
        ex.oblig("vector index within size (%s)" % what, And(i >= 0, i < v.size), pc, "bounds")
    return Ptr.to(v.data, Poly.of(i) * esize(ex, v), v.keys)


def vec_copy_content(ex, st, src, dst):
    """dst.data := contents of src.data (shares the immutable Content)"""
    if src.keys or dst.keys:
        # copy through a quantified record
        for (r, fk), c in list(st.arr.items()):
            pass
        lt = src.data.ety
        if lt is None: return
        k = Int("vcp!%s" % ex.site("v")); ex.loopvars[aid(k)] = k
        dst.data.finite = dst.data.finite or src.data.finite
        for lo, ft in leaf_list(ex, src.data):
            val = ex.load1(st, src.data, src.keys, Poly.of(k) * esize(ex, src) + lo, ft, [k >= 0, k < src.size], "vector copy")
            fk, idx, leaf = ex.locate(dst.data, tuple(dst.keys), Poly.of(k) * esize(ex, dst) + lo, ft, [k >= 0, k < src.size], "vector copy")
            c = st.arr.get((dst.data, fk))
            if c is None: c = ex.init_content(dst.data, fk, ft)
            st.arr[(dst.data, fk)] = c.add(Rec((k,), And(k >= 0, k < src.size), idx, val))
        return
    if src.data.ety is None: return
    dst.data.finite = dst.data.finite or src.data.finite
    dst.data.inv = src.data.inv
    found = False
    for (r, fk), c in list(st.arr.items()):
        if r is src.data: st.arr[(dst.data, fk)] = c; found = True
    dst.data.copy_of = src.data
    for lo, lt in leaf_list(ex, src.data):
        if (src.data, lo) not in st.arr:
            try: st.arr[(dst.data, lo)] = ex.init_content(src.data, lo, lt)
            except Unsupported: pass


def v_size(ex, args, st, pc, ins, name, dem):
    v, k = vec_get(ex, st, args[0], dem); return v.size


def v_empty(ex, args, st, pc, ins, name, dem):
    v, k = vec_get(ex, st, args[0], dem); return v.size == 0


def v_index(ex, args, st, pc, ins, name, dem):
    v, k = vec_get(ex, st, args[0], dem)
    return vec_at(ex, v, norm_int(ex.as_int(args[1])), pc, ex.line_desc())


def v_back(ex, args, st, pc, ins, name, dem):
    v, k = vec_get(ex, st, args[0], dem)
    return vec_at(ex, v, norm_int(v.size - 1), pc, ex.line_desc())


def v_front(ex, args, st, pc, ins, name, dem):
    v, k = vec_get(ex, st, args[0], dem)
    return vec_at(ex, v, IntVal(0), pc, ex.line_desc())


def v_begin(ex, args, st, pc, ins, name, dem):
    v, k = vec_get(ex, st, args[0], dem)
    return Ptr.to(v.data, 0, v.keys)


def v_end(ex, args, st, pc, ins, name, dem):
    v, k = vec_get(ex, st, args[0], dem)
    return Ptr.to(v.data, Poly.of(v.size) * esize(ex, v), v.keys)


def v_ctor(ex, args, st, pc, ins, name, dem):
    key, keys, reg = vec_loc(ex, args[0])
    sig = dem[dem.rindex("::vector(") + 9:] if "::vector(" in dem else ""
    if keys: raise Unsupported("constructing vector inside array")
    elem = elem_of(dem)
    if sig.startswith("std::vector<"):
        src, sk = vec_get(ex, st, args[1], dem)
        r, ks = new_vec(ex, st, elem, "copy")
        v = VecVal(src.size, r, ks)
        vec_copy_content(ex, st, src, v)
    elif sig.startswith("unsigned long"):
        r, ks = new_vec(ex, st, elem, "sized")
        n = norm_int(args[1])
        v = VecVal(n, r, ks)
        if r.ety is not None and r.ety.k in ("int", "fp", "ptr"):
            if len(args) > 2 and "const&" in sig.split(",")[1]:
                x = ex.load(st, args[2], r.ety, pc)
            else: x = ex.zero(r.ety)
            st.arr[(r, 0)] = Content(("const", x))
    elif (sig and sig.startswith(")")) or sig.startswith("std::allocator"):
        r, ks = new_vec(ex, st, elem, "empty")
        v = VecVal(IntVal(0), r, ks)
    elif not sig and re.match(r"vector<(double|int)( const)?\*, void>\(\w+( const)?\*, ", dem[dem.rindex("::vector") + 2:]):
        a, b = args[1], args[2]
        ta = [t for _, t in a.alts if t is not None]; tb = [t for _, t in b.alts if t is not None]
        if len(ta) != 1 or len(tb) != 1 or ta[0][0] is not tb[0][0] or tuple(ta[0][1]) != tuple(tb[0][1]): raise Unsupported("vector range constructor")
        r, ks = new_vec(ex, st, elem, "range")
        sz = r.mod.sizeof(r.ety); d = tb[0][2] - ta[0][2]
        if not all(v % sz == 0 for v in d.d.values()): raise Unsupported("vector range constructor length")
        n = Poly({k: v // sz for k, v in d.d.items()}).z()
        v = VecVal(n, r, ks)
        k = Int("vrc!%s" % ex.site("v")); ex.loopvars[aid(k)] = k
        inr = [k >= 0, k < n]
        val = ex.load1(st, ta[0][0], ta[0][1], ta[0][2] + Poly.of(k) * sz, r.ety, list(pc) + inr, "vector range source")
        st.arr[(r, 0)] = ex.init_content(r, 0, r.ety).add(Rec((k,), And(*inr), tuple(ks) + (k,), val))
    elif "double*" in sig or "int*" in sig or "iterator" in sig or "std::initializer_list" in sig:
        raise Unsupported("vector range constructor")
    else: raise Unsupported("vector constructor " + dem)
    vec_set(ex, st, key, v)
    return None


def v_push(ex, args, st, pc, ins, name, dem):
    v, key = vec_get(ex, st, args[0], dem)
    if v.data.ety is not None and (v.data.mod.resolve(v.data.ety).k in ("int", "fp", "ptr")):
        x = args[1] if z3.is_expr(args[1]) else ex.load(st, args[1], v.data.ety, pc)      # vector<bool> takes its element by value
        if z3.is_bool(x): x = ite(x, IntVal(1), IntVal(0))
        ex.store1_raw(st, v.data, v.keys, Poly.of(v.size) * esize(ex, v), x, v.data.ety, pc)
    elif v.data.ety is not None and v.data.cls and "string" not in v.data.elem_tname and "vector" not in v.data.elem_tname:
        for lo, lt in leaf_list(ex, v.data):
            try:
                x = ex.load(st, ex.ptr_add(args[1], Poly.const(lo)), lt, pc)
                ex.store1_raw(st, v.data, v.keys, Poly.of(v.size) * esize(ex, v) + lo, x, lt, pc)
            except Unsupported: pass
    vec_set(ex, st, key, VecVal(norm_int(v.size + 1), v.data, v.keys))
    return None


def v_clear(ex, args, st, pc, ins, name, dem):
    v, key = vec_get(ex, st, args[0], dem)
    vec_set(ex, st, key, VecVal(IntVal(0), v.data, v.keys)); return None


def v_assign(ex, args, st, pc, ins, name, dem):
    v, key = vec_get(ex, st, args[0], dem); src, _ = vec_get(ex, st, args[1], dem)
    r, ks = new_vec(ex, st, elem_of(dem), "assign")
    nv = VecVal(src.size, r, ks)
    vec_copy_content(ex, st, src, nv)
    vec_set(ex, st, key, nv)
    return args[0]


def v_resize(ex, args, st, pc, ins, name, dem):
    v, key = vec_get(ex, st, args[0], dem)
    n = norm_int(args[1])
    if v.data.ety is not None and v.data.ety.k in ("int", "fp", "ptr"):
        k = Int("vrs!%s" % ex.site("v")); ex.loopvars[aid(k)] = k
        x = ex.zero(v.data.ety) if len(args) < 3 else ex.load(st, args[2], v.data.ety, pc)
        c = st.arr.get((v.data, 0)) or ex.init_content(v.data, 0, v.data.ety)
        st.arr[(v.data, 0)] = c.add(Rec((k,), And(k >= v.size, k < n), tuple(v.keys) + (k,), x))
    vec_set(ex, st, key, VecVal(n, v.data, v.keys)); return None


VEC = {"size": v_size, "empty": v_empty, "operator[]": v_index, "at": v_index, "back": v_back, "front": v_front, "begin": v_begin,
       "end": v_end, "cbegin": v_begin, "cend": v_end, "data": v_begin, "push_back": v_push, "emplace_back": v_push, "clear": v_clear, "operator=": v_assign,
       "resize": v_resize, "reserve": h_noeffect, "shrink_to_fit": h_noeffect, "vector": v_ctor, "~vector": h_noeffect}


VECRE = re.compile(r"^(?:(?:void|int|bool|[\w:<>,\s*&]+?) )?std::vector<.*>::(operator\[\]|operator=|~?\w+)(?:<.*>)?\(")


def vec_method(dem):
    if not dem.startswith("std::vector<") and " std::vector<" not in dem: return None
    i = dem.find("std::vector<")
    if i > 0 and dem[:i].rstrip() and not re.match(r"^[\w:]+[&*]?$", dem[:i].strip()): 
        return None
    j = i + len("std::vector<"); d = 1
    while j < len(dem) and d:
        d += (dem[j] == "<") - (dem[j] == ">"); j += 1
    if not dem[j:].startswith("::"): return None
    m = re.match(r"::(operator\[\]|operator=|~?\w+)", dem[j:])
    return m.group(1) if m else None


STRINGISH = re.compile(r"(^|[ ])(std::__cxx11::basic_string|std::basic_ostream|std::basic_istream|std::operator<<|std::ostream|std::ios|std::__cxx11::basic_o?stringstream|std::basic_ofstream|std::basic_ifstream|std::operator\+|std::operator==|std::operator!=|std::__cxx11::to_string|std::to_string|std::allocator|std::ios_base|std::__basic_file|std::setw|std::setprecision|std::char_traits)")

NOEFFECT = {"printf", "fprintf", "puts", "putchar", "fflush", "fclose", "fputs", "perror", "puts", "fputc", "vfprintf", "putc", "fwrite",
            "time", "clock", "gettimeofday", "omp_get_num_threads", "omp_set_num_threads", "omp_get_max_threads", "omp_get_thread_num",
            "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_atexit", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
            "strlen", "strcmp", "strncmp", "llvm.stacksave.p0", "llvm.stackrestore.p0", "__cxa_free_exception",
            "fftw_init_threads", "fftw_plan_with_nthreads", "fftw_cleanup_threads", "fftw_destroy_plan", "fftw_free", "fftw_cleanup", "gsl_set_error_handler_off"}
EXITS = {"exit", "abort", "__cxa_throw", "_ZSt9terminatev", "__clang_call_terminate", "__cxa_rethrow", "_ZSt20__throw_length_errorPKc", "_ZSt17__throw_bad_allocv"}
TABLE = {"malloc": h_malloc, "calloc": h_calloc, "fftw_malloc": h_malloc, "_Znwm": h_new, "_Znam": h_new, "free": h_free, "_ZdlPv": h_free, "_ZdaPv": h_free, "_ZdlPvm": h_free,
         "_ZdaPvm": h_free, "memcpy": h_memcpy, "memmove": h_memcpy, "memset": h_memset, "abs": h_iabs, "labs": h_iabs,
         "__cxa_allocate_exception": lambda ex, a, st, pc, ins, n, d: Opaque("exc")}


def lround(ex, args, st, pc, ins, name, dem):
    x = args[0].v
    return ite(x >= 0, ToInt(x + RealVal("1/2")), -ToInt(-x + RealVal("1/2")))


TABLE["lround"] = TABLE["llround"] = lround
STDMATH = re.compile(r"^(?:[\w:<>, ]+ )?std::(\w+)(?:<[^()]*>)?\(")


def lookup(name, dem):
    h = lookup0(name, dem)
    if h is not None: USED[dem.split("(")[0][:80]] = USED.get(dem.split("(")[0][:80], 0) + 1
    return h


def lookup0(name, dem):
    if name in TABLE: return TABLE[name]
    if name in MATH1: return h_math1(MATH1[name])
    if name in MATH2: return h_math2(MATH2[name])
    if name in NOEFFECT: return h_noeffect
    if name in EXITS: return h_exit
    if name.startswith("llvm."):
        b = name.split(".")
        if b[1] in ("dbg", "lifetime", "invariant", "assume", "experimental", "stacksave", "stackrestore", "prefetch"): return h_noeffect
        if b[1] == "fmuladd" or b[1] == "fma": return h_fmuladd
        if b[1] == "is" and b[2] == "fpclass": return h_fpclass
        if b[1] in MATH1: return h_math1(MATH1[b[1]])
        if b[1] in MATH2: return h_math2(MATH2[b[1]])
        if b[1] == "powi":
            return lambda ex, a, st, pc, ins, n, d: m_pow(ex, a[0], FVal(ToReal(a[1])) if not z3.is_int_value(a[1]) else FVal(RealVal(a[1].as_long())))
        if b[1] in ("maxnum", "minnum"): return h_math2(MATH2["fmax" if b[1] == "maxnum" else "fmin"])
        if b[1] in ("memcpy", "memmove"): return h_memcpy
        if b[1] == "memset": return h_memset
        if b[1] in ("smax", "smin", "umax", "umin"): return h_minmax(b[1])
        if b[1] == "abs": return h_iabs
        if b[1] == "trap": return h_exit
        if b[1] == "va_start" or b[1] == "va_end": return h_noeffect
        return None
    m = STDMATH.match(dem)
    if m and "vector" not in m.group(0):
        f = m.group(1)
        if f in ("max", "min") and not "initializer_list" in dem: return h_stdminmax(f)
        if f in ("isnan", "isinf", "isfinite"): return None   # execute the header's body
        if f in MATH1: return h_math1(MATH1[f]) if f != "abs" else h_iabs
        if f in MATH2: return h_math2(MATH2[f])
    vm = vec_method(dem)
    if vm is not None:
        if vm in VEC: return VEC[vm]
        return None
    if "__normal_iterator<" in dem.split("(")[0] or dem.startswith("__gnu_cxx::") or " __gnu_cxx::" in dem.split("(")[0]:
        return None       # iterators: the header's body is executed
    if STRINGISH.search(dem.split("(")[0]) or dem.startswith("std::__cxx11::basic_string") or "std::__ostream_insert" in dem:
        return h_stream if ("ostream" in dem or "operator<<" in dem) else h_noeffect
    if dem.startswith("std::_Setw") or dem.startswith("std::setprecision"): return h_noeffect
    return None
