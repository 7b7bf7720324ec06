"""Discharging obligations: z3 (two versions) and cvc5, with ground lemma instantiation for the
SUM / ALL / EX operators introduced by the loop summaries."""
import os, subprocess, time, tempfile, re
import multiprocessing as mp
import z3
from terms import *

Z3NEW = "z3-new"


def apps_of(e, names, out, seen):
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and x.decl().name() in names: out.append(x)
            st += x.children()
        elif z3.is_quantifier(x): st.append(x.body())


def inst_body(ent, app, k, acc=None):
    """body of the node at index k with the captured arguments of app"""
    args = app.children()
    pairs = [(ent["kappa"], k)] + list(zip(ent["ph"], args[1:])) + ([(ent["acc"], acc)] if acc is not None else [])
    return substitute(ent["body"], *pairs)


def body_range(b):
    """(lo, hi) for a syntactic if-then-else tree over integer numerals"""
    if z3.is_int_value(b): return b.as_long(), b.as_long()
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE:
        x, y = body_range(b.children()[1]), body_range(b.children()[2])
        if x and y: return min(x[0], y[0]), max(x[1], y[1])
    return None


def is_square(b): return z3.is_real(b) and z3.is_mul(b) and b.num_args() == 2 and b.arg(0).eq(b.arg(1))


class Lemmas:
    def __init__(self, ex):
        self.ex = ex; self.done = set(); self.n = 0; self.out = []; self.wit = {}

    def add(self, l):
        self.out.append(l)

    def fresh(self, nm):
        self.n += 1
        return Int("%s!%d" % (nm, self.n))

    squares = False

    def close(self, exprs, rounds=3, terms=()):
        """lemmas for all SUM/ALL/EX applications in exprs (iterated)"""
        names = self.ex.sums
        pool = list(exprs)
        idxterms = list(terms)
        for r in range(rounds):
            apps = []; seen = set()
            for e in pool: apps_of(e, names, apps, seen)
            new = []
            for a in apps:
                ent = names[a.decl().name()]
                k = ("self", aid(a))
                if k in self.done: continue
                self.done.add(k)
                hi = a.children()[0]
                if ent["kind"] == "SUM":
                    zero = RealVal(0) if z3.is_real(a) else IntVal(0)
                    new.append(Implies(hi <= 0, a == zero))
                    # unfold once:  S(h) = S(h-1) + body(h-1)
                    h1 = norm_int(hi - 1)
                    prev = a.decl()(h1, *a.children()[1:])
                    new.append(Implies(hi > 0, a == prev + inst_body(ent, a, h1)))
                    self.done.add(("self", aid(prev)))
                    new.append(Implies(h1 <= 0, prev == zero))
                elif ent["kind"] == "REC":
                    init = substitute(ent["init"], *list(zip(ent["ph"], a.children()[1:]))) if ent["ph"] else ent["init"]
                    new.append(Implies(hi <= 0, a == init))
                    h1 = norm_int(hi - 1)
                    prev = a.decl()(h1, *a.children()[1:])
                    new.append(Implies(hi > 0, a == inst_body(ent, a, h1, prev)))
                    self.done.add(("self", aid(prev)))
                    new.append(Implies(h1 <= 0, prev == init))
                elif ent["kind"] == "ALL":
                    w = self.fresh("wA"); self.note_index(w)
                    new.append(Or(a, And(w >= 0, w < hi, Not(inst_body(ent, a, w)))))
                    for t in idxterms: new.append(Implies(And(a, t >= 0, t < hi), inst_body(ent, a, t)))
                    self.wit[aid(a)] = w
                    idxterms.append(w)
                elif ent["kind"] == "EX":
                    w = self.fresh("wE"); self.note_index(w)
                    new.append(Or(Not(a), And(w >= 0, w < hi, inst_body(ent, a, w))))
                    for t in idxterms: new.append(Implies(And(Not(a), t >= 0, t < hi), Not(inst_body(ent, a, t))))
                    idxterms.append(w)
            # cross instantiation of ALL/EX with witness terms
            for a in apps:
                ent = names[a.decl().name()]
                if ent["kind"] in ("SUM", "REC"): continue
                hi = a.children()[0]
                for t in idxterms:
                    k = ("inst", aid(a), aid(t))
                    if k in self.done: continue
                    self.done.add(k)
                    b = inst_body(ent, a, t)
                    if ent["kind"] == "ALL": new.append(Implies(And(a, t >= 0, t < hi), b))
                    else: new.append(Implies(And(Not(a), t >= 0, t < hi), Not(b)))
            # pairwise extensionality of sums
            sums = [a for a in apps if names[a.decl().name()]["kind"] == "SUM"]
            for i in range(len(sums)):
                for j in range(i + 1, len(sums)):
                    a, b = sums[i], sums[j]
                    if a.sort() != b.sort(): continue
                    if a.decl().eq(b.decl()) and (r > 0 or all(x.eq(y) for x, y in zip(a.children()[1:], b.children()[1:]))): continue
                    k = ("ext", min(aid(a), aid(b)), max(aid(a), aid(b)))
                    if k in self.done: continue
                    self.done.add(k)
                    ea, eb = names[a.decl().name()], names[b.decl().name()]
                    w = self.fresh("wS"); self.note_index(w)
                    ba, bb = inst_body(ea, a, w), inst_body(eb, b, w)
                    new.append(Or(a.children()[0] != b.children()[0], a == b, And(w >= 0, w < a.children()[0], ba != bb)))
                    idxterms.append(w)
            # a sum of squares is not negative (by induction on the bound)
            for a in (sums if self.squares else []):
                k = ("sq", aid(a)); b = names[a.decl().name()]["body"]
                if k in self.done or z3.is_int(a) or not is_square(b): continue
                self.done.add(k); new.append(Implies(a.children()[0] >= 0, a >= 0))
            # integer sums: bounds and monotonicity (by induction on the bound)
            isums = [a for a in sums if z3.is_int(a)]
            for i in range(len(isums)):
                a = isums[i]; ea = names[a.decl().name()]; ha = a.children()[0]
                k = ("rng", aid(a))
                rg = body_range(ea["body"])
                if k not in self.done and rg is not None:
                    self.done.add(k); new.append(Implies(ha >= 0, And(a >= rg[0] * ha, a <= rg[1] * ha)))
                if k not in self.done and rg is None and r <= getattr(self.ex, "mono_depth", 0):
                    self.done.add(k)
                    w = self.fresh("wN"); self.note_index(w)
                    new.append(Implies(ha >= 0, Or(a >= 0, And(w >= 0, w < ha, inst_body(ea, a, w) < 0))))
                for b in isums[i + 1:]:
                    if not a.decl().eq(b.decl()) or not all(x.eq(y) for x, y in zip(a.children()[1:], b.children()[1:])): continue
                    k = ("mono", min(aid(a), aid(b)), max(aid(a), aid(b)))
                    if k in self.done or rg is None and r > getattr(self.ex, "mono_depth", 0): continue
                    self.done.add(k)
                    for x, y in ((a, b), (b, a)):
                        hx, hy = x.children()[0], y.children()[0]
                        if rg is not None and rg[0] >= 0:
                            new.append(Implies(And(hx >= 0, hx < hy), And(x + inst_body(ea, x, hx) <= y, y - x <= rg[1] * (hy - hx))))
                        else:
                            w = self.fresh("wM"); self.note_index(w)
                            new.append(Implies(And(hx >= 0, hx < hy), Or(x + inst_body(ea, x, hx) <= y, And(w > hx, w < hy, inst_body(ea, x, w) < 0))))
            recs = [a for a in apps if names[a.decl().name()]["kind"] == "REC"]
            for i in range(len(recs)):
                for j in range(i + 1, len(recs)):
                    a, b = recs[i], recs[j]
                    if a.sort() != b.sort(): continue
                    if a.decl().eq(b.decl()) and (r > 0 or all(x.eq(y) for x, y in zip(a.children()[1:], b.children()[1:]))): continue
                    k = ("ext", min(aid(a), aid(b)), max(aid(a), aid(b)))
                    if k in self.done: continue
                    self.done.add(k)
                    ea, eb = names[a.decl().name()], names[b.decl().name()]
                    w = self.fresh("wR"); self.note_index(w); self.n += 1
                    v = z3.Const("vR!%d" % self.n, a.sort())
                    ia = substitute(ea["init"], *list(zip(ea["ph"], a.children()[1:]))) if ea["ph"] else ea["init"]
                    ib = substitute(eb["init"], *list(zip(eb["ph"], b.children()[1:]))) if eb["ph"] else eb["init"]
                    new.append(Or(a.children()[0] != b.children()[0], a == b, ia != ib, And(w >= 0, w < a.children()[0], inst_body(ea, a, w, v) != inst_body(eb, b, w, v))))
                    idxterms.append(w)
            # scaled sums:  body_a == c * body_b handled by the spec side
            if not new: break
            self.out += new
            pool = new
        return self.out

    def note_index(self, w):
        self.newidx = getattr(self, "newidx", []); self.newidx.append(w)


def ground_lemmas(ex, exprs, done):
    """facts about the ground applications of the arithmetic operators occurring in exprs"""
    out = []
    seen = set()
    st = list(exprs)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if not z3.is_app(x): continue
        st += x.children()
        if x.num_args() == 0 or x.decl().kind() != z3.Z3_OP_UNINTERPRETED: continue
        k = aid(x)
        if k in done: continue
        n = x.decl().name()
        if n in ("idiv", "imod"):
            done.add(k)
            a, b = x.children()
            l = idiv_lemmas(ex, a, b)
            out += l; st += l
        elif n == "SQRT":
            done.add(k); a = x.children()[0]
            out.append(Implies(a >= 0, And(x >= 0, x * x == a)))
        elif n == "EXP":
            done.add(k); out += [x > 0, Implies(x.children()[0] == 0, x == 1)]
        elif n == "COSH":
            done.add(k); out.append(x >= 1)
        elif n in ("SIN", "COS"):
            done.add(k); a = x.children()[0]
            s_, c_ = ex.uff("SIN", RealSort(), RealSort())(a), ex.uff("COS", RealSort(), RealSort())(a)
            done.add(aid(s_)); done.add(aid(c_))
            out.append(s_ * s_ + c_ * c_ == 1)
        elif n == "POW":
            done.add(k); a, b = x.children()
            out += [Implies(a > 0, x > 0), Implies(a == 1, x == 1), Implies(a >= 0, x >= 0), Implies(And(a > 1, b > 0), x > 1), Implies(And(a == 0, b > 0), x == 0)]
        elif n in ex.ranged:
            done.add(k); w, boolean = ex.ranged[n]
            out.append(And(x >= 0, x <= 1) if boolean else And(x >= -(1 << (w - 1)), x <= (1 << (w - 1)) - 1))
        if n in ex.uf_inv and ("inv", k) not in done:
            done.add(("inv", k))
            for lam in ex.uf_inv[n]:
                f = lam(x.children(), x)
                if f is not None: out.append(f); st.append(f)
    return out


def idiv_lemmas(ex, a, b):
    out = []
    ap, bp = Poly.of(a), Poly.of(b)
    a, b = ap.z(), bp.z()
    q = ex.uff("idiv", IntSort(), IntSort(), IntSort())(a, b)
    m = ex.uff("imod", IntSort(), IntSort(), IntSort())(a, b)
    dom = And(a >= 0, b > 0)
    out.append(Implies(dom, And(q >= 0, q <= a, m >= 0, m < b, a == (Poly.of(q) * bp + Poly.of(m)).z())))
    x, y = ex.polydiv(ap, bp)
    if x.d: out.append(Implies(And(dom, y.z() >= 0, y.z() < b), And(q == x.z(), m == y.z())))
    out.append(Implies(And(dom, a < b), And(q == 0, m == a)))
    for R, C in ex.shapes:
        if Poly.of(C) == bp: out.append(Implies(And(dom, a < norm_int(R * C)), q < R))
    return out


def smt2(hyps, goal):
    s = z3.Solver()
    for h in hyps: s.add(h)
    s.add(Not(goal))
    return s.to_smt2()


def ext_solver(cmd, txt, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt); fn = f.name
    try:
        r = subprocess.run(cmd + [fn], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 5)
        return r.stdout.strip().split("\n")[0]
    except subprocess.TimeoutExpired: return "timeout"
    finally: os.unlink(fn)


def gather(ex, o, level, squares=False):
    """hypotheses for obligation o at effort level"""
    base = list(o.hyps) + [o.goal]
    lem = Lemmas(ex); lem.squares = squares
    anyv = [t for t in ex_terms(ex, [o.goal]) if str(t).startswith("any_")] if level >= 2 else []
    facts = ex.all_facts({k: anyv for k in ex.loopvars} if anyv else None) if level >= 1 else [e for e, lv in ex.facts] + ex.arith
    facts = ex.relevant(base, facts) if level < 3 else facts
    lemmas = []
    if ex.sums and level >= 1:
        lemmas = lem.close(base + (facts if level >= 2 else []), rounds=level, terms=ex_terms(ex, base))
        # facts about loop variables instantiated at the fresh witnesses
        fresh = getattr(lem, "newidx", [])
        if fresh:
            extra = {k: list(fresh) for k in ex.loopvars}
            allf = ex.all_facts(extra) if level >= 2 else []
            syms = set()
            for e in base + lemmas: syms |= ex.symbols(e)
            have = {aid(f) for f in facts}
            facts = facts + [f for f in ex.relevant(base + lemmas, allf) if aid(f) not in have]
    if level >= 1:
        have = {aid(f) for f in facts}
        for f in ex.relevant(base + lemmas, [e for e, lv in ex.facts]):
            if aid(f) not in have: facts.append(f)
    done = set()
    if level >= 1:
        g = ground_lemmas(ex, base + facts + lemmas, done)
        lemmas = lemmas + g
        if level >= 2: lemmas = lemmas + ground_lemmas(ex, g, done)
    return facts + lemmas


def ex_terms(ex, base):
    """integer constants occurring in the goal: candidate indices"""
    out = []
    ids = set()
    for b in base: ids |= free_consts(b)
    for i in ids:
        e = _keep_get(i)
        if z3.is_int(e) and not str(e).startswith(("ext:", "noeffect")): out.append(e)
    lv = {aid(v) for v in ex.loopvars.values()}
    out.sort(key=lambda e: (0 if str(e).startswith("any_") else 1 if aid(e) in lv else 2, str(e)))
    return out[:12]


def _keep_get(i):
    from terms import _keep
    return _keep[i]


def try_z3(facts, hyps, goal, timeout, tactic=None):
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set("timeout", timeout)
    for f in facts: s.add(f)
    for h in hyps: s.add(h)
    s.add(Not(goal))
    r = s.check()
    return r, (s.model() if r == z3.sat else None), s


def find_ite(e):
    """condition of some if-then-else in e whose condition contains none"""
    seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE:
                c = find_ite(x.children()[0])
                return c if c is not None else x.children()[0]
            st += x.children()
    return None


def conjuncts(e):
    if z3.is_and(e): return [y for c in e.children() for y in conjuncts(c)]
    return [e]


_abs = [0]


def pure_real(fs):
    """abstract fs into the theory of real arithmetic: uninterpreted applications and to_real terms become variables; sound for refutation.
    Hypotheses over other sorts are dropped."""
    m = {}; extra = []
    def var(x):
        k = aid(x)
        if k not in m: _abs[0] += 1; m[k] = Real("abs!%d" % _abs[0])
        return m[k]
    cache = {}
    def go(x):
        k = x.get_id()
        if k in cache: return cache[k]
        r = go_(x); cache[k] = r
        return r
    def go_(x):
        if not z3.is_app(x): raise Unsupported("q")
        kd = x.decl().kind(); ch = x.children()
        if kd == z3.Z3_OP_UNINTERPRETED:
            if z3.is_real(x): return var(x)
            if z3.is_bool(x):
                k = aid(x)
                if k not in m: _abs[0] += 1; m[k] = z3.Bool("absb!%d" % _abs[0])
                return m[k]
            raise Unsupported("s")
        if kd == z3.Z3_OP_TO_REAL:
            return var(x)
        if kd == z3.Z3_OP_DIV:
            a, b = go(ch[0]), go(ch[1])
            if z3.is_rational_value(b): return a / b
            k = ("div", aid(a), aid(b))
            if k not in m:
                _abs[0] += 1; q = Real("quo!%d" % _abs[0]); m[k] = q; extra.append(Implies(b != 0, q * b == a))
            return m[k]
        if z3.is_int(x) and not ch: raise Unsupported("int")
        if any(z3.is_int(c) for c in ch):
            if z3.is_bool(x):
                k = aid(x)
                if k not in m: _abs[0] += 1; m[k] = z3.Bool("absb!%d" % _abs[0])
                return m[k]
            raise Unsupported("int")
        if not ch: return x
        return x.decl()(*[go(c) for c in ch]) if kd not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And if kd == z3.Z3_OP_AND else z3.Or)(*[go(c) for c in ch])
    out = []
    for f in fs:
        try: out.append(go(z3.simplify(f, push_to_real=True, som=False)))
        except (Unsupported, z3.Z3Exception): pass
    return out + extra


def leaf_prove(H, G, to=1500):
    s = z3.Solver(); s.set("timeout", to)
    for h in H: s.add(h)
    s.add(Not(G))
    r = s.check()
    if r == z3.unsat: return True
    fs = pure_real(H + [Not(G)])
    for tac in (("simplify", "purify-arith", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "qfnra-nlsat"),):
        s = z3.Then(*tac).solver(); s.set("timeout", 4 * to)
        for f in fs: s.add(f)
        try:
            if s.check() == z3.unsat: return True
        except z3.Z3Exception: pass
    return False


def reduce_eqs(H, G):
    """use  x == term  hypotheses to rewrite the goal (x an application or constant)"""
    for h in H:
        if z3.is_eq(h) and z3.is_real(h.children()[0]):
            a, b = h.children()
            for x, y in ((a, b), (b, a)):
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and contains_app(G, x) and not contains_app(y, x):
                    G = substitute(G, (x, y)); break
    return G


def contains_app(e, x):
    seen = set(); st = [e]; i = x.get_id()
    while st:
        y = st.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if y.get_id() == i: return True
        st += y.children()
    return False


def split_prove(ex, o, budget):
    t0 = time.time()
    facts = gather(ex, o, 1)
    H0 = []
    for h in list(o.hyps) + facts: H0 += conjuncts(h)
    leaves = [0]
    def rec(H, G, depth):
        if time.time() - t0 > budget: return False
        if depth == 0:
            s = z3.Solver(); s.set("timeout", 300)
        G = z3.simplify(G)
        if is_true(G): return True
        c = find_ite(G)
        if c is None or depth > 14:
            leaves[0] += 1
            if leaves[0] > 600: return False
            H2 = [h for h in (z3.simplify(x) for x in H) if not is_true(h)]
            if any(is_false(h) for h in H2): return True
            return leaf_prove(H2, G)
        for v in (True, False):
            sub = (c, BoolVal(v))
            nH = []
            for h in H:
                nH += conjuncts(substitute(h, sub))
            if not rec(nH + [c if v else Not(c)], substitute(G, sub), depth + 1): return False
        return True
    goals = conjuncts(z3.simplify(o.goal))
    return all(rec(H0, g, 0) for g in goals)


MATH = {"EXP", "LOG", "SQRT", "POW", "SIN", "COS", "COSH", "TANH", "ATAN", "ATAN2", "BESSK1", "LANCZOS", "SERSIC_BN"}


def bool_atoms(e, out, seen):
    if e.get_id() in seen: return
    seen.add(e.get_id())
    if z3.is_app(e):
        if z3.is_bool(e) and not (z3.is_and(e) or z3.is_or(e) or z3.is_not(e) or z3.is_true(e) or z3.is_false(e) or e.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_IMPLIES) or z3.is_eq(e) and z3.is_bool(e.arg(0))):
            out.append(e); return
        for c in e.children(): bool_atoms(c, out, seen)


def decided(ex, H, g):
    """g with the conditions that the hypotheses decide replaced by true / false"""
    atoms = []
    for c in (g.children() if z3.is_eq(g) else [g]): bool_atoms(c, atoms, set())
    if len(atoms) > 60: return g
    qs = [ex.opaque(h) for h in H]; s = z3.Solver(); s.set("timeout", 300)
    for q in qs: s.add(q)
    for q in ex.opaque_signs(qs): s.add(q)
    sub = []
    for a in atoms:
        for v in (True, False):
            n = Not(a) if v else a; q = ex.opaque(n)
            s.push(); s.add(q)
            for f in ex.opaque_signs([q]): s.add(f)
            r = s.check(); s.pop()
            if r == z3.unsat: sub.append((a, BoolVal(v))); break
    return z3.simplify(substitute(g, *sub)) if sub else g


def normal_form_prove(ex, o):
    """conditions decided by the hypotheses resolved, both sides in polynomial normal form; products that remain are opaque to the solver"""
    import canon
    C = ex.__dict__.setdefault("_canon", canon.Canon())
    G = z3.simplify(C.canon(o.goal))
    if is_true(G): return "normal form"
    H0 = list(o.hyps) + gather(ex, o, 1)
    g = decided(ex, H0, o.goal); G = z3.simplify(C.canon(g))
    if is_true(G): return "normal form, z3"
    H = [C.canon(h) for h in H0]
    qs = [ex.opaque(h) for h in H] + [Not(ex.opaque(C.canon(g)))]
    s = z3.Solver(); s.set("timeout", 1500)
    for q in qs + ex.opaque_signs(qs): s.add(q)
    if s.check() == z3.unsat: return "normal form, z3"
    s = z3.Solver(); s.set("timeout", 1500)
    for h in H: s.add(h)
    s.add(Not(G))
    if s.check() == z3.unsat: return "normal form, z3"


def prove(ex, o, budget=20):
    t0 = start = time.time()
    if o.status == "discharged": return o
    last = None
    nf = getattr(ex, "nfailed", 0)
    budget = max(budget, 45) if nf == 0 else budget
    if nf >= 2: budget = min(budget, 8)
    if nf >= 6: budget = min(budget, 3)
    squares = any(e["kind"] == "SUM" and is_square(e["body"]) for e in ex.sums.values())
    for level, to, sq in [(0, 1500, False), (1, 3000, False), (2, 4000, False)] + ([(1, 3000, True), (2, 4000, True)] if squares else []) + [(3, 6000, False), (4, 8000, False)]:
        if time.time() - t0 > budget: break
        try: facts = gather(ex, o, level, sq)
        except RecursionError: continue
        r, m, s = try_z3(facts, o.hyps, o.goal, to)
        if r == z3.unsat:
            o.status = "discharged"; o.backend = "z3"; break
        if r == z3.sat: last = m
        if level == (2 if ex.symbols(o.goal) & set(ex.sums) else 0) and not sq and ex.symbols(o.goal) & MATH:
            t1 = time.time()
            try: how = normal_form_prove(ex, o)
            except RecursionError: how = None
            t0 += time.time() - t1      # not charged to the budget of the other passes
            if how: o.status = "discharged"; o.backend = "z3 (normal form)" if "z3" in how else "normal form"; break
        if r == z3.sat: pass
        elif level >= 1:
            # portfolio
            txt = s.to_smt2()
            for be, cmd in (("z3-new", [Z3NEW, "-T:%d" % max(2, to // 1000)]), ("cvc5", ["cvc5", "--tlimit=%d" % to, "--nl-cov"])):
                rr = ext_solver(cmd, txt if be != "cvc5" else "(set-logic ALL)\n" + txt, to // 1000 + 2)
                if rr == "unsat":
                    o.status = "discharged"; o.backend = be; break
                if rr == "sat": last = last or "sat(%s)" % be
            if o.status == "discharged": break
    if o.status != "discharged" and find_ite(o.goal) is not None or (o.status != "discharged" and "/" in str(o.goal)[:20000]):
        try:
            if split_prove(ex, o, budget): o.status = "discharged"; o.backend = "z3 (case split)"
        except RecursionError: pass
    if o.status != "discharged":
        o.status = "failed"
        ex.nfailed = nf + 1
        if last is not None:
            o.reason = "counter-model"
            o.model = model_text(last)
        else: o.reason = "not proved within budget"
    o.time = time.time() - start
    return o


def model_text(m):
    if isinstance(m, str): return m
    out = []
    for d in m.decls():
        if d.arity() == 0 and not d.name().startswith(("t!", "wS", "wA", "wE")):
            out.append("%s = %s" % (d.name(), m[d]))
    return "\n".join(sorted(out))[:4000]


def _worker(q_in, q_out, ex, obls, budget):
    pass


def discharge(ex, budget=20, jobs=8, verbose=False):
    """prove all obligations of ex in parallel (fork); results are written back"""
    todo = [i for i, o in enumerate(ex.obls) if o.status != "discharged"]
    if not todo: return
    jobs = min(jobs, len(todo))
    pipes = []
    chunks = [todo[k::jobs] for k in range(jobs)]
    for ch in chunks:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            import pickle
            res = []
            try:
                for i in ch:
                    o = ex.obls[i]
                    try: prove(ex, o, budget)
                    except Exception as e:
                        o.status = "failed"; o.reason = "prover error %r" % (e,)
                    res.append((i, o.status, o.backend, o.time, o.model, o.reason))
            finally:
                with os.fdopen(w, "wb") as f: pickle.dump(res, f)
                os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    import pickle
    for pid, r in pipes:
        with os.fdopen(r, "rb") as f: data = f.read()
        os.waitpid(pid, 0)
        try: res = pickle.loads(data)
        except Exception: res = []
        for i, st, be, tm, mo, re_ in res:
            o = ex.obls[i]; o.status, o.backend, o.time, o.model, o.reason = st, be, tm, mo, re_
    for i in todo:
        if ex.obls[i].status is None:
            ex.obls[i].status = "failed"; ex.obls[i].reason = "prover died"
