"""Contract layer: set up symbolic pre-states for a function of /repo, state preconditions,
run the verifier over the real body and state postconditions as named obligations."""
import re, time, os, sys
import z3
from terms import *
from mem import *
from irparse import Ty, Program
import sym, calls, prover, canon
from calls import VecVal

I32 = Ty("int", n=32); I64 = Ty("int", n=64); F64 = Ty("fp", n=64); I8 = Ty("int", n=8); PTR = Ty("ptr")
PRIM = {"double": F64, "int": I32, "long": I64, "bool": I8, "unsigned long": I64, "size_t": I64, "unsigned int": I32}


class SpecError(Exception):
    pass


class Obj:
    """a C++ object in memory with named fields"""

    def __init__(self, ctx, reg, keys=()):
        self.ctx = ctx; self.reg = reg; self.keys = tuple(keys)

    def off(self, name):
        for n, o, t in self.ctx.ex.members_of(self.reg) or []:
            if n == name: return o, t
        raise SpecError("class %s has no member %s" % (self.reg.cls, name))

    def di(self, name):
        o, t = self.off(name)
        for m in self.ctx.prog.mods:
            mm = m.members(self.reg.cls)
            if mm:
                for n, oo, tt in mm:
                    if n == name: return o, m.tname(tt)
        raise SpecError(name)

    def has(self, name):
        try: self.off(name); return True
        except SpecError: return False

    def ptr(self, name=None):
        o = 0 if name is None else self.off(name)[0]
        return Ptr.to(self.reg, o, self.keys)

    def get(self, name, state=None):
        """current (state given) or initial value of a scalar field; ints/bools as z3 Int, double as FVal"""
        o, tn = self.di(name)
        ty = PRIM.get(tn, PTR if tn.endswith("*") else None)
        if ty is None:
            if tn.startswith("vector<") or "vector" in tn: return self.vec(name, state)
            ty = I32
        ex = self.ctx.ex
        if self.keys:
            c = (state or self.ctx.pre).arr.get((self.reg, o)) or ex.init_content(self.reg, o, ty)
            return ex.read_content(self.reg, c, self.keys, o)
        if state is not None and (self.reg, o) in state.scal: return state.scal[(self.reg, o)]
        if self.ctx.pre is not None and (self.reg, o) in self.ctx.pre.scal and state is None: return self.ctx.pre.scal[(self.reg, o)]
        ex.cur_mod = self.reg.mod
        return ex.init_scalar(self.reg, o, ty)

    def set(self, name, v):
        o, tn = self.di(name)
        if isinstance(v, int): v = IntVal(v)
        if isinstance(v, bool): v = IntVal(int(v))
        self.ctx.pre.scal[(self.reg, o)] = v

    def b(self, name, state=None): return self.get(name, state) != 0

    def name_on_assign(self, *names):
        for n in names: self.ctx.ex.name_fields.add((self.reg, self.off(n)[0]))

    def on_assign(self, name, fn):
        """fn(region, state): shape a freshly allocated region when it is stored in this pointer field"""
        self.ctx.ex.field_shapes[(self.reg, self.off(name)[0])] = fn

    def array(self, name, count=None, stride=None, rows=None, finite=None, cls=None, ety=None):
        """declare that the pointer field points to an array of `count` elements (or rows x stride)"""
        o, tn = self.di(name)
        ex = self.ctx.ex
        ex.cur_mod = self.reg.mod
        p = self.get(name)
        reg = p.alts[0][1][0]
        if ety is not None:
            reg.ety = ety
            if reg.mod is None: reg.mod = self.reg.mod
        return self.ctx.shape(reg, count, stride, rows, finite)

    def vec(self, name, state=None):
        o, t = self.off(name)
        _, tn = self.di(name)
        ex = self.ctx.ex
        ex.cur_mod = self.reg.mod
        st = state or self.ctx.pre
        el = re.sub(r"^vector<", "", tn)
        dem = "std::vector<" + el + "::x("
        v, k = calls.vec_get(ex, st, Ptr.to(self.reg, o, self.keys), dem)
        return v


class Arr:
    """view of an array's content"""

    def __init__(self, ctx, reg, keys=(), fk=0):
        self.ctx = ctx; self.reg = reg; self.keys = tuple(keys); self.fk = fk

    def at(self, *idx, state=None, ty=None, pc=()):
        ex = self.ctx.ex
        st = state if state is not None else self.ctx.pre
        ty = ty or leafty(ex, self.reg, self.fk)
        c = st.arr.get((self.reg, self.fk))
        if c is None: c = ex.init_content(self.reg, self.fk, ty)
        idx = [i if z3.is_expr(i) else IntVal(i) for i in idx]
        ex.cur_mod = self.reg.mod
        return ex.read_content(self.reg, c, self.keys + tuple(idx), self.fk, pc)

    def new(self, *idx, pc=()): return self.at(*idx, state=self.ctx.post, pc=pc)


def leafty(ex, reg, fk=0):
    if reg.ety is None: reg.ety = F64
    for lo, lt in calls.leaf_list(ex, reg) if reg.mod else [(0, reg.ety)]:
        if lo == fk: return lt
    return reg.ety


class Ctx:
    def __init__(self, prog, label, opts=None):
        self.prog = prog; self.label = label
        o = dict(prune=True)
        o.update(opts or {})
        self.ex = sym.Executor(prog, o)
        self.ex.powlog = []
        self.pre = State(); self.post = None
        self.pc = []
        self.ret = None; self.rpc = None
        self.ensured = []
        self.pre_lits = []

    def fn(self, dem):
        c = self.prog.find(dem)
        if not c: raise SpecError("function %s not found" % dem)
        c.sort(key=lambda n: (("C1" in n), len(n)))
        return c[0]

    def cls_region(self, cls, name, nkeys=0):
        ety, c, mod = self.ex.ctype(cls)
        if ety is None: raise SpecError("class %s not found" % cls)
        r = self.ex.new_region(name, ety=ety, count=1, mod=mod, cls=cls, nkeys=nkeys)
        return r

    def obj(self, cls, name):
        return Obj(self, self.cls_region(cls, name))

    def array(self, name, ety=F64, count=None, stride=None, rows=None, finite=True):
        r = self.ex.new_region(name, ety=ety, mod=self.prog.mods[0])
        r.bytes = None
        self.shape(r, count, stride, rows, finite)
        r.boolean = False
        return Arr(self, r)

    def vecparam(self, elem, name):
        """a std::vector<elem> object passed by address: (pointer, value view)"""
        reg = self.ex.new_region(name); reg.single = True; reg.mod = self.prog.mods[0]
        self.ex.cur_mod = self.prog.mods[0]
        p = Ptr.to(reg)
        v, _ = calls.vec_get(self.ex, self.pre, p, "std::vector<" + elem + ">::x(")
        return p, v

    def shape(self, reg, count=None, stride=None, rows=None, finite=None):
        reg.single = False
        reg.count = None
        if stride is not None:
            reg.stride = norm_int(stride) if z3.is_expr(stride) else IntVal(stride); reg.rows = rows
        else: reg.count = count
        if finite is not None: reg.finite = finite
        return Arr(self, reg)

    def requires(self, *es):
        for e in es:
            self.pc.append(e)
            self.pre_lits.append(e)

    def fact(self, e): self.ex.fact(e)

    def int(self, name, lo=None, hi=None):
        v = Int(name)
        self.ex.fact(And(v >= -(1 << 31), v < (1 << 31)))
        if lo is not None: self.requires(v >= lo)
        if hi is not None: self.requires(v <= hi)
        return v

    def real(self, name, finite=True): return FVal(Real(name), TRUE if finite else Bool(name + "!ok"))

    def run(self, dem, args, mangled=False):
        name = dem if mangled else self.fn(dem)
        self.ex.act_path = ""; self.ex.cur_ins_id = ""
        ret, st, pc = self.ex.call_function(name, args, self.pre.copy(), list(self.pc), path=dem.split("(")[0])
        self.ret, self.post, self.rpc = ret, st, pc
        return ret

    def ensures(self, name, goal, extra=(), kind="post"):
        """named postcondition obligation"""
        self.ex.oblig("%s: %s" % (self.label, name), goal, list(self.rpc if self.rpc is not None else self.pc) + list(extra), kind)

    def named(self, name, fn, real=True):
        """a logical function name(k) defined as fn(k): keeps the bodies of sums over it opaque"""
        f = self.ex.uff(name, IntSort(), RealSort() if real else IntSort())
        k = Int("nm!" + name); self.ex.loopvars[aid(k)] = k
        self.ex.fact(f(k) == fn(k))
        return lambda q: f(q if z3.is_expr(q) else IntVal(q))

    def establish(self, name, goal, extra=()):
        """a postcondition for an arbitrary index that later obligations of this contract may use at every index"""
        self.ensures(name, goal, extra)
        self.ex.fact(Implies(tand(*(list(self.rpc if self.rpc is not None else self.pc) + list(extra))), goal))

    def lemma(self, name, hyps, goal):
        self.ex.oblig("lemma %s" % name, goal, list(hyps), "lemma")

    def sum_combos(self, expr, target, name="s", maxn=5):
        """induction schema for sums with a common bound: for every subset of the sums occurring in expr, either (subset total == target total)
        or the bodies differ at some index below the bound (a valid schema, so no obligation arises)"""
        import itertools
        apps = []; prover.apps_of(expr, {k for k, e in self.ex.sums.items() if e["kind"] == "SUM"}, apps, set())
        u = []
        for a in apps:
            if a.sort() == target.sort() and not any(a.eq(b) for b in u): u.append(a)
        u = [a for a in u if not a.eq(target)][:maxn]
        out = []
        for n in range(1, len(u) + 1):
            for sub in itertools.combinations(u, n):
                w = Int("any_%s_%d" % (name, len(out))); self.ex.loopvars[aid(w)] = w
                B = lambda a: prover.inst_body(self.ex.sums[a.decl().name()], a, w)
                hs = [a.children()[0] == target.children()[0] for a in sub]
                out.append(Or(Not(And(*hs)), sum(sub[1:], sub[0]) == target, And(w >= 0, w < target.children()[0], sum([B(a) for a in sub[1:]], B(sub[0])) != B(target))))
        return out

    def unfolded(self, expr, maxn=16):
        """expr with every sum over a literal number of terms written out (the definition of the sum)"""
        for _ in range(8):
            apps = []; prover.apps_of(expr, {k for k, e in self.ex.sums.items() if e["kind"] == "SUM"}, apps, set())
            sub = {}
            for a in apps:
                h = z3.simplify(a.children()[0])
                if z3.is_int_value(h) and h.as_long() <= maxn: sub[a.get_id()] = (a, sum([prover.inst_body(self.ex.sums[a.decl().name()], a, IntVal(k)) for k in range(h.as_long())], RealVal(0) if z3.is_real(a) else IntVal(0)))
            if not sub: return expr
            expr = z3.substitute(expr, *sub.values())
        return expr

    def simplified(self, expr, extra=()):
        """expr with every condition that is decided where it stands (by the path and the enclosing conditions) resolved"""
        ex = self.ex; base = list(self.rpc if self.rpc is not None else self.pc) + list(extra); memo = {}
        def go(e, ctx):
            if not e.num_args(): return e
            key = (e.get_id(), tuple(x.get_id() for x in ctx))
            if key in memo: return memo[key]
            if e.decl().kind() == z3.Z3_OP_ITE:
                q = z3.simplify(go(e.arg(0), ctx))
                if is_true(q) or ex.quick(base + ctx, q): r = go(e.arg(1), ctx)
                elif is_false(q) or ex.quick(base + ctx, Not(q)): r = go(e.arg(2), ctx)
                else:
                    a, b = go(e.arg(1), ctx + [q]), go(e.arg(2), ctx + [Not(q)])
                    r = If(q, a, b)
            else:
                ch = [go(x, ctx) for x in e.children()]
                r = e if all(a.eq(b) for a, b in zip(ch, e.children())) else canon.rebuild(e, ch)
                if e.decl().kind() in (z3.Z3_OP_TO_INT, z3.Z3_OP_DIV): r = z3.simplify(r)
            memo[key] = r; keep.append((e, r))
            return r
        keep = []
        return go(expr, [])

    def index(self, name, lo, hi):
        """arbitrary index variable for a for-all postcondition"""
        v = Int("any_" + name)
        self.ex.loopvars[aid(v)] = v
        return v, [v >= lo, v < hi]

    def frame(self, allowed, name="writes only what its contract allows"):
        """every recorded write targets an allowed (region, field) or memory local to the call"""
        bad = []
        for reg, fk, fn, line in self.ex.writes:
            if reg.kind in ("alloca", "alloc"): continue
            if reg.name.startswith("vec:"): continue
            ok = any(a is reg or (isinstance(a, tuple) and a[0] is reg and (a[1] == fk)) for a in allowed)
            if not ok: bad.append("%s.%s in %s" % (reg.name, self.ex.field_name(reg, fk) if reg.cls else fk, fn))
        self.ex.oblig("%s: %s%s" % (self.label, name, (" (violated by write to %s)" % ", ".join(sorted(set(bad))[:3])) if bad else ""), TRUE if not bad else FALSE, list(self.pc), "frame")

    def fields(self, obj, *names): return [(obj.reg, obj.off(n)[0]) for n in names]


CPLX = Ty("array", F64, 2)


def noeffect(c, *dems):
    """functions assumed to have no effect on program state (printing)"""
    for d in dems: c.ex.prefix_contracts.append((re.escape(d) + r"\(", lambda ex, args, st, pc, ins: calls.ret_default(ex, args, ins, "noeffect")))


def feq(a, b):
    """equality of two double values (both finite and equal)"""
    return tand(a.v == b.v, a.ok == b.ok if not (is_true(a.ok) and is_true(b.ok)) else TRUE)


def vecelem_same(c, v1, st1, v2, st2, q):
    """element q of vector v1 (state st1) equals element q of v2 (state st2), member by member"""
    ex = c.ex; out = []
    for lo, lt in calls.leaf_list(ex, v1.data):
        if lt.k not in ("int", "fp"): continue
        a, b = [ex.load1(st, v.data, tuple(v.keys), Poly.of(q) * calls.esize(ex, v) + lo, lt, [], "vector element") for v, st in ((v1, st1), (v2, st2))]
        if isinstance(a, FVal): out.append(feq(a, b))
        else: out.append(a == b)
    return tand(*out)


def logcalls(c, dem, ret=None, effect=None):
    """callee treated through its contract: arguments are logged, result is a fresh value (or ret(ex,args))"""
    log = []
    def h(ex, args, st, pc, ins):
        if not ex.quiet: log.append(dict(args=args, st=st.copy(), pc=list(pc)))
        if effect: effect(ex, args, st, pc)
        if ret is not None: return ret(ex, args) if callable(ret) else ret
        return calls.ret_default(ex, args, ins, dem)
    c.ex.prefix_contracts.append((re.escape(dem) + r"\(", h))
    return log


def allocated(ptr, need):
    """every possible target of ptr is memory allocated in this call with at least `need` bytes"""
    out = []
    for cnd, t in ptr.alts:
        n = None
        if t is not None: n = getattr(t[0], "nbytes", None) if getattr(t[0], "nbytes", None) is not None else (t[0].bytes if t[0].kind == "alloc" else None)
        if n is not None: out.append(Implies(cnd, Poly.of(n).z() >= need))
        else: out.append(Not(cnd))
    return And(*out)
