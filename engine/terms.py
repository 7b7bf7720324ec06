"""Symbolic values: integers as mathematical Int (range facts from their types), doubles as pairs
(mathematical value, is-finite flag), pointers as guarded (region, keys, byte offset) alternatives."""
import z3
from z3 import (And, Or, Not, If, Implies, IntVal, RealVal, BoolVal, Int, Real, Bool, Function, IntSort,
                RealSort, BoolSort, is_true, is_false, substitute, ToReal, ToInt)

TRUE = BoolVal(True)
FALSE = BoolVal(False)
ZERO = IntVal(0)
RZERO = RealVal(0)


class Unsupported(Exception):
    pass


_keep = {}


def aid(e):
    i = e.get_id()
    if i not in _keep: _keep[i] = e
    return i


def is_num(e):
    return z3.is_int_value(e) or z3.is_rational_value(e)


class Poly:
    """integer polynomial over z3 Int atoms: {sorted tuple of atom ids: coef}"""
    __slots__ = ("d", "_z")

    def __init__(self, d):
        self.d = d; self._z = None

    @staticmethod
    def const(c): return Poly({(): c} if c else {})

    @staticmethod
    def atom(e): return Poly({(aid(e),): 1})

    _cache = {}

    @staticmethod
    def of(e):
        if isinstance(e, Poly): return e
        if isinstance(e, int): return Poly.const(e)
        i = aid(e)
        r = Poly._cache.get(i)
        if r is None:
            r = Poly._of(e); Poly._cache[i] = r
        return r

    @staticmethod
    def _of(e):
        if z3.is_int_value(e): return Poly.const(e.as_long())
        if z3.is_app(e):
            k = e.decl().kind(); ch = e.children()
            if k == z3.Z3_OP_ADD:
                r = Poly.of(ch[0])
                for c in ch[1:]: r = r + Poly.of(c)
                return r
            if k == z3.Z3_OP_SUB:
                r = Poly.of(ch[0])
                for c in ch[1:]: r = r - Poly.of(c)
                return r
            if k == z3.Z3_OP_UMINUS: return Poly.of(ch[0]).scale(-1)
            if k == z3.Z3_OP_MUL:
                r = Poly.of(ch[0])
                for c in ch[1:]: r = r * Poly.of(c)
                return r
        return Poly.atom(e)

    def __add__(self, o):
        if isinstance(o, int): o = Poly.const(o)
        d = dict(self.d)
        for k, v in o.d.items():
            n = d.get(k, 0) + v
            if n: d[k] = n
            else: d.pop(k, None)
        return Poly(d)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.d.items()}) if c else Poly({})

    def __sub__(self, o):
        if isinstance(o, int): o = Poly.const(o)
        return self + o.scale(-1)

    def __mul__(self, o):
        if isinstance(o, int): return self.scale(o)
        d = {}
        for k1, v1 in self.d.items():
            for k2, v2 in o.d.items():
                k = tuple(sorted(k1 + k2)); n = d.get(k, 0) + v1 * v2
                if n: d[k] = n
                else: d.pop(k, None)
        return Poly(d)

    def is_const(self): return all(k == () for k in self.d)

    def c(self): return self.d.get((), 0)

    def z(self):
        if self._z is None:
            ts = []
            for k, v in sorted(self.d.items()):
                t = None
                for i in k: t = _keep[i] if t is None else t * _keep[i]
                if t is None: ts.append(IntVal(v))
                elif v == 1: ts.append(t)
                else: ts.append(v * t)
            if not ts: self._z = IntVal(0)
            elif len(ts) == 1: self._z = ts[0]
            else: self._z = z3.Sum(ts)
        return self._z

    def __eq__(self, o): return self.d == o.d
    def __hash__(self): return hash(tuple(sorted(self.d.items())))
    def __repr__(self): return str(self.z())

    def coef_split(self, var):
        """(coefficient Poly of var, rest); None if var occurs nonlinearly or inside an atom"""
        vi = aid(var)
        co = {}; rest = {}
        for k, v in self.d.items():
            n = k.count(vi)
            if n == 0: rest[k] = v
            elif n == 1:
                kk = list(k); kk.remove(vi); co[tuple(kk)] = v
            else: return None
        rp = Poly(rest); cp = Poly(co)
        for p in (rp, cp):
            for k in p.d:
                for i in k:
                    if contains(_keep[i], var): return None
        return cp, rp


def norm_int(e):
    return Poly.of(e).z()


_fv_cache = {}


def free_consts(e):
    """ids of 0-ary uninterpreted constants in e"""
    i = aid(e)
    r = _fv_cache.get(i)
    if r is not None: return r
    if z3.is_quantifier(e):
        r = free_consts(e.body())
    elif z3.is_app(e):
        if e.num_args() == 0:
            r = frozenset([i]) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
        else:
            s = set()
            for c in e.children(): s |= free_consts(c)
            r = frozenset(s)
    else: r = frozenset()
    _fv_cache[i] = r
    return r


def contains(e, var): return aid(var) in free_consts(e)


class FVal:
    __slots__ = ("v", "ok")

    def __init__(self, v, ok=TRUE):
        self.v = v; self.ok = ok

    def __repr__(self): return "F(%s%s)" % (self.v, "" if is_true(self.ok) else " ok?" )


class Ptr:
    """alts: [(cond, None | (region, keys, Poly off))]"""
    __slots__ = ("alts",)

    def __init__(self, alts): self.alts = alts

    @staticmethod
    def null(): return Ptr([(TRUE, None)])

    @staticmethod
    def to(region, off=0, keys=()): return Ptr([(TRUE, (region, tuple(keys), Poly.of(off)))])

    def __repr__(self):
        return "Ptr(" + ", ".join("%s:%s" % (c, "null" if t is None else "%s%s+%s" % (t[0].name, list(t[1]), t[2])) for c, t in self.alts) + ")"


class FnPtr:
    def __init__(self, name): self.name = name


class Unknown:
    def __init__(self, why=""): self.why = why
    def __repr__(self): return "Unknown(%s)" % self.why


def tand(*cs):
    out = []
    for c in cs:
        if c is True or is_true(c): continue
        if c is False or is_false(c): return FALSE
        out.append(c)
    if not out: return TRUE
    return out[0] if len(out) == 1 else And(*out)


def tor(*cs):
    out = []
    for c in cs:
        if is_false(c): continue
        if is_true(c): return TRUE
        out.append(c)
    if not out: return FALSE
    return out[0] if len(out) == 1 else Or(*out)


def tnot(c):
    if is_true(c): return FALSE
    if is_false(c): return TRUE
    if z3.is_not(c): return c.children()[0]
    return Not(c)


def ite(c, a, b):
    if is_true(c): return a
    if is_false(c): return b
    if a.eq(b): return a
    return If(c, a, b)


def vsubst(v, pairs):
    if not pairs: return v
    if v is None or isinstance(v, (Unknown, FnPtr)): return v
    if isinstance(v, FVal): return FVal(substitute(v.v, *pairs), substitute(v.ok, *pairs))
    if isinstance(v, Poly): return Poly.of(norm_int(substitute(v.z(), *pairs)))
    if isinstance(v, Ptr):
        return Ptr([(substitute(c, *pairs), None if t is None else
                     (t[0], tuple(substitute(k, *pairs) for k in t[1]), vsubst(t[2], pairs))) for c, t in v.alts])
    if isinstance(v, (list, tuple)): return type(v)(vsubst(x, pairs) for x in v)
    if hasattr(v, "vsubst"): return v.vsubst(pairs)
    return substitute(v, *pairs)


def same_target(a, b):
    if a is None or b is None: return a is None and b is None
    return a[0] is b[0] and len(a[1]) == len(b[1]) and all(x.eq(y) for x, y in zip(a[1], b[1])) and a[2] == b[2]


def vite(c, a, b):
    """value-level if-then-else"""
    if is_true(c) or a is b: return a
    if is_false(c): return b
    if isinstance(a, Unknown): return a
    if isinstance(b, Unknown): return b
    if isinstance(a, FVal): return FVal(ite(c, a.v, b.v), ite(c, a.ok, b.ok))
    if isinstance(a, Ptr):
        if not isinstance(b, Ptr): raise Unsupported("merge ptr/non-ptr")
        alts = []
        for cc, t in a.alts: alts.append([tand(c, cc), t])
        nc = tnot(c)
        for cc, t in b.alts:
            for al in alts:
                if same_target(al[1], t):
                    al[0] = simp_or(al[0], tand(nc, cc)); break
            else: alts.append([tand(nc, cc), t])
        if len(alts) == 1: return Ptr([(TRUE, alts[0][1])])
        # same region, different offsets -> merge offsets
        return Ptr([tuple(x) for x in alts])
    if isinstance(a, list): return [vite(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, FnPtr):
        if isinstance(b, FnPtr) and b.name == a.name: return a
        return Unknown("fnptr merge")
    if hasattr(a, "vite"): return a.vite(c, b)
    return ite(c, a, b)


def simp_or(a, b):
    r = z3.simplify(Or(a, b))
    return r


def veq_syn(a, b):
    if a is b: return True
    if type(a) is not type(b) and not (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef)): return False
    if isinstance(a, FVal): return a.v.eq(b.v) and a.ok.eq(b.ok)
    if isinstance(a, Poly): return a == b
    if isinstance(a, Ptr):
        return len(a.alts) == len(b.alts) and all(x[0].eq(y[0]) and same_target(x[1], y[1]) for x, y in zip(a.alts, b.alts))
    if isinstance(a, list): return len(a) == len(b) and all(veq_syn(x, y) for x, y in zip(a, b))
    if isinstance(a, z3.ExprRef): return a.eq(b)
    return False
