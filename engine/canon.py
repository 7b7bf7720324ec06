"""Polynomial normal form of real terms, used before the solvers: products are expanded, sums and factors ordered, a / b is a * inv(b).
   Valid in the interpretation x / 0 = 0 (a quotient by zero is not finite in the code, so its value never counts); a * inv(a) is not cancelled."""
from fractions import Fraction
import z3

LIMIT = 300


class Canon:
    def __init__(self): self.memo = {}; self.polys = {}; self.atoms = {}; self.keep = []; self.order = {}

    def key(self, a):
        """stable order of atoms: by printed head, then creation"""
        i = a.get_id()
        if i not in self.atoms: self.atoms[i] = a; self.order[i] = len(self.order); self.keep.append(a)
        return i

    def atom(self, e): return {((self.key(e), 1),): Fraction(1)}

    def mul(self, p, q):
        if len(p) * len(q) > LIMIT: return None
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                ex = {}
                for a, k in m + n: ex[(a, k > 0)] = ex.get((a, k > 0), 0) + k
                mm = tuple(sorted((a, k) for (a, s), k in ex.items()))
                v = r.get(mm, 0) + c * d
                if v: r[mm] = v
                else: r.pop(mm, None)
        return r

    def poly(self, e):
        i = e.get_id()
        if i in self.polys: return self.polys[i]
        r = self.poly_(e); self.polys[i] = r; self.keep.append(e)
        return r

    def poly_(self, e):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            v = e.as_fraction() if z3.is_rational_value(e) else Fraction(e.as_long())
            v = Fraction(v.numerator, v.denominator)
            return {(): v} if v else {}
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB or k == z3.Z3_OP_UMINUS:
            r = {}
            for j, c in enumerate(e.children()):
                sg = -1 if k == z3.Z3_OP_UMINUS or (k == z3.Z3_OP_SUB and j) else 1
                for m, v in self.poly(c).items():
                    w = r.get(m, 0) + sg * v
                    if w: r[m] = w
                    else: r.pop(m, None)
            return r
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in e.children():
                q = self.mul(r, self.poly(c))
                if q is None:
                    q = self.mul(self.atom(self.build(r)), self.atom(self.build(self.poly(c))))
                r = q
            return r
        if k == z3.Z3_OP_DIV:
            return self.mulx(self.poly(e.arg(0)), self.inv(self.poly(e.arg(1))))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).denominator_as_long() == 1 and 0 < e.arg(1).numerator_as_long() <= 4:
            r = {(): Fraction(1)}; p = self.poly(e.arg(0))
            for _ in range(e.arg(1).numerator_as_long()): r = self.mulx(r, p)
            return r
        return self.atom(self.canon_app(e))

    def mulx(self, p, q):
        r = self.mul(p, q)
        return r if r is not None else self.mul(self.atom(self.build(p)), self.atom(self.build(q)))

    def inv(self, q):
        if len(q) == 1:
            (m, c), = q.items()
            return {tuple(sorted((a, -k) for a, k in m)): 1 / c}
        if not q: return {}
        lead = q[min(q, key=self.mono_key)]; n = {m: c / lead for m, c in q.items()}
        return {((self.key(self.build(n)), -1),): 1 / lead}

    def mono_key(self, m): return (-sum(abs(k) for a, k in m), tuple((self.order[a], k) for a, k in m))

    def build(self, p):
        if not p: return z3.RealVal(0)
        ts = []
        for m in sorted(p, key=self.mono_key):
            c = p[m]; num = []; den = []
            for a, k in m: (num if k > 0 else den).extend([self.atoms[a]] * abs(k))
            t = None
            for f in num: t = f if t is None else t * f
            if t is None: t = z3.RealVal(c) if True else None; c = Fraction(1)
            for f in den: t = t / f
            if c != 1: t = z3.RealVal(c) * t
            ts.append(t)
        r = ts[0]
        for t in ts[1:]: r = r + t
        return r

    def canon_app(self, e):
        if e.num_args() == 0: return e
        ch = [self.canon(c) for c in e.children()]
        if e.decl().name() in ("COSH", "COS"):      # even functions
            p = self.poly(ch[0])
            if p and p[min(p, key=self.mono_key)] < 0: ch = [self.build({m: -c for m, c in p.items()})]
        if all(a.eq(b) for a, b in zip(ch, e.children())): return e
        return rebuild(e, ch)

    def canon(self, e):
        i = e.get_id()
        if i in self.memo: return self.memo[i]
        r = self.canon_(e); self.memo[i] = r; self.keep.append(e); self.keep.append(r)
        return r

    def canon_(self, e):
        if not z3.is_app(e): return e
        if z3.is_real(e): return self.build(self.poly(e))
        k = e.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_real(e.arg(0)):
            p = self.poly(e.arg(0) - e.arg(1))
            strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT); up = k in (z3.Z3_OP_GE, z3.Z3_OP_GT)
            return self.compare(p, up, strict)
        if z3.is_eq(e) and z3.is_real(e.arg(0)):
            a, b = self.canon(e.arg(0)), self.canon(e.arg(1))
            return z3.BoolVal(True) if a.eq(b) else a == b
        return self.canon_app(e)

    def compare(self, p, up, strict):
        """p > 0 (up) or p < 0, strict or not, with the leading coefficient scaled to 1 and only <= / Not(<=) atoms"""
        cst = p.get((), Fraction(0)); q = {m: c for m, c in p.items() if m}
        if not q:
            v = cst > 0 if up and strict else cst >= 0 if up else cst < 0 if strict else cst <= 0
            return z3.BoolVal(bool(v))
        lead = q[min(q, key=self.mono_key)]
        if lead < 0: up = not up
        t = self.build({m: c / lead for m, c in q.items()}); b = z3.RealVal(-cst / lead)
        if up: return z3.Not(t <= b) if strict else t >= b
        return z3.Not(t >= b) if strict else t <= b


def rebuild(e, ch):
    k = e.decl().kind()
    if z3.is_and(e): return z3.And(*ch)
    if z3.is_or(e): return z3.Or(*ch)
    if z3.is_not(e): return z3.Not(ch[0])
    if k == z3.Z3_OP_ITE: return ch[1] if z3.is_true(ch[0]) or ch[1].eq(ch[2]) else ch[2] if z3.is_false(ch[0]) else z3.If(ch[0], ch[1], ch[2])
    if k == z3.Z3_OP_ADD: return z3.Sum(*ch) if len(ch) > 1 else ch[0]
    return e.decl()(*ch)
