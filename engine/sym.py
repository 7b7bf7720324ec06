"""Symbolic executor / verification-condition generator over LLVM IR.

Functions are executed block by block in topological order with states merged at joins; loops are
cut: their effect is summarised by an inferred closed form (write records, sums, induction
variables) which is itself checked inductively by named obligations; calls use the callee's
contract when one is registered, otherwise the callee's real body is executed in place."""
import re, struct, sys
from fractions import Fraction
import z3
from terms import *
from mem import *
from irparse import Ty, IRError

sys.setrecursionlimit(20000)
I1 = Ty("int", n=1)


class Edge:
    __slots__ = ("frm", "to", "pc", "state", "phi")

    def __init__(self, frm, to, pc, state, phi=None):
        self.frm = frm; self.to = to; self.pc = pc; self.state = state; self.phi = phi


def ptr_eq(a, b):
    """the two pointers have the same target"""
    out = []
    for ca, ta in a.alts:
        for cb, tb in b.alts:
            if ta is None or tb is None: same = TRUE if ta is tb else FALSE
            elif ta[0] is not tb[0] or len(ta[1]) != len(tb[1]): same = FALSE
            else: same = tand(*[norm_int(x) == norm_int(y) for x, y in zip(ta[1], tb[1])], ta[2].z() == tb[2].z())
            if not is_false(same): out.append(tand(ca, cb, same))
    return tor(*out)


class Oblig:
    __slots__ = ("name", "hyps", "goal", "kind", "status", "backend", "time", "model", "reason", "nfacts", "where")

    def __init__(self, name, hyps, goal, kind):
        self.name = name; self.hyps = hyps; self.goal = goal; self.kind = kind
        self.status = None; self.backend = None; self.time = 0; self.model = None; self.reason = ""


class Loop:
    def __init__(self, header, blocks):
        self.header = header; self.blocks = blocks; self.parent = None


def loop_info(fn):
    if fn.loops is not None: return
    # reachable RPO
    order = []; seen = set()
    stack = [(fn.entry, iter(fn.blocks[fn.entry].succ_u))]
    seen.add(fn.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s); stack.append((s, iter(fn.blocks[s].succ_u))); break
        else:
            order.append(b); stack.pop()
    order.reverse()
    fn.rpo = order
    num = {b: i for i, b in enumerate(order)}
    idom = {fn.entry: fn.entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in fn.blocks[b].pred:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == fn.entry: return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in fn.blocks[b].succ_u:
            if num.get(s, 0) <= num[b]:
                if not dom(s, b): raise Unsupported("irreducible control flow")
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x)
                    st += [p for p in fn.blocks[x].pred if p in num]
    fn.loops = {h: Loop(h, bs) for h, bs in loops.items()}
    fn.num = num
    # a topological order in which every loop's blocks are contiguous is not needed: RPO suffices


class Act:
    """one activation of a function body"""
    def __init__(self, fn, path):
        self.fn = fn; self.env = {}; self.path = path; self.allocas = {}


def prover_conj(e):
    import prover
    return prover.conjuncts(z3.simplify(e))


class NoIteration(Unsupported):
    pass


class Executor:
    def __init__(self, prog, opts=None):
        self.prog = prog
        self.opts = dict(overflow=False, bounds=True, maxdepth=14)
        if opts: self.opts.update(opts)
        self.arith = []
        self.facts = []            # [(expr, frozenset loop var ids)]
        self.factset = set()
        self.obls = []
        self.obl_keys = set()
        self.init = {}             # (region, fieldkey) -> initial scalar value
        self.initc = {}            # (region, fieldkey) -> initial Content
        self.loopvars = {}         # id -> const
        self.loopstack = []        # active loop variable consts
        self.insts = {}            # loop var id -> list of terms
        self.contracts = {}        # mangled name -> fn(ex, act, ins, state, pc, args) -> ret
        self.prefix_contracts = []
        self.regions = []
        self.sums = {}             # decl name -> dict(kind,kappa,params,body)
        self.sumkeys = {}
        self.called = {}           # statistic: contract uses
        self.inlined = {}
        self.externals = {}
        self.unsummarised = []
        self.events = []           # recorded calls (spec hooks)
        self.allocn = {}
        self.cands = []            # candidate index tuples for non-affine inverse
        self.fn_stack = []
        self.line = None
        self.uf = {}
        self.shapes = []           # (rows, cols) exprs for idiv lemmas
        self.assumptions = []
        self.forced_havoc = set()
        self.invariants = []       # contract-supplied loop invariants, see find_invariant
        self.virt_override = {}
        self.quiet = 0
        self.solver_cache = {}
        self.trace_loops = []
        self.closed_kind = {}
        self.field_shapes = {}
        self.name_fields = set()
        self.ranged = {}
        self.uf_inv = {}
        self.alias = {}
        self.closed_stage = {}
        self.allowed_writes = None
        self.writes = []           # (region, fieldkey) written

    # ---------------------------------------------------------------- helpers
    def uff(self, name, *sorts):
        k = (name, len(sorts))
        f = self.uf.get(k)
        if f is None:
            f = Function(name, *sorts); self.uf[k] = f
        return f

    def fresh(self, sort, name):
        """deterministic name; a function of the enclosing loop variables"""
        args = list(self.loopstack)
        if not args: return z3.Const(name, sort)
        return self.uff(name, *([IntSort()] * len(args) + [sort]))(*args)

    def uname(self, base):
        n = self.allocn.get(base, 0); self.allocn[base] = n + 1
        return base if n == 0 else "%s~%d" % (base, n)

    def afact(self, e):
        """fact about idiv/imod/SQRT...: used while executing; regenerated per ground term when proving"""
        i = aid(e)
        if i in self.factset: return
        self.factset.add(i)
        self.arith.append(e)

    def fact(self, e, pc=None):
        if pc: e = Implies(tand(*pc), e)
        if is_true(e): return
        i = aid(e)
        if i in self.factset: return
        self.factset.add(i)
        fv = free_consts(e)
        self.facts.append((e, frozenset(x for x in fv if x in self.loopvars)))

    def assume(self, e): self.fact(e)

    def oblig(self, name, goal, pc, kind="assert"):
        if self.quiet: return
        if self.fn_stack: name = "%s: %s" % (self.fn_stack[-1], name)
        g = z3.simplify(goal) if not is_true(goal) else goal
        key = (name, aid(g), tuple(aid(c) for c in pc))
        if key in self.obl_keys: return
        self.obl_keys.add(key)
        o = Oblig(name, list(pc), goal, kind)
        if is_true(g):
            o.status = "discharged"; o.backend = "simplifier"
        self.obls.append(o)

    def inst(self, var, term):
        if term.eq(var): return
        al = self.alias.get(aid(var))
        if al is not None: self.inst(al, term)
        l = self.insts.setdefault(aid(var), [])
        if not any(t.eq(term) for t in l): l.append(term)

    # facts relevant to a query --------------------------------------------
    def all_facts(self, extra_insts=None):
        ins = {k: list(v) for k, v in self.insts.items()}
        if extra_insts:
            for k, v in extra_insts.items(): ins.setdefault(k, []).extend(v)
        out = []
        seen = set()
        for e, lv in self.facts:
            if not lv:
                out.append(e); continue
            out.append(e)
            combos = [[]]
            for v in lv:
                terms = ins.get(v, [])
                vc = self.loopvars[v]
                combos = [c + [(vc, t)] for c in combos for t in [vc] + terms]
                if len(combos) > 400: combos = combos[:400]
            for c in combos:
                c = [(a, b) for a, b in c if not a.eq(b)]
                if c:
                    x = substitute(e, *c)
                    if aid(x) not in seen:
                        seen.add(aid(x)); out.append(x)
        return out

    def quick(self, hyps, goal, timeout=300):
        """cheap validity test used while executing (never for final obligations)"""
        g = z3.simplify(goal)
        if is_true(g): return True
        key = (tuple(aid(h) for h in hyps), aid(g), len(self.facts), len(self.arith))
        if key in self.solver_cache: return self.solver_cache[key]
        fs = self.relevant(list(hyps) + [g], [e for e, lv in self.facts] + self.arith)
        # first with every non-linear real term opaque: most questions are about integers
        s = z3.Solver(); s.set("rlimit", timeout * 6000); s.set("timeout", 20 * timeout)
        qs = [self.opaque(f) for f in list(fs) + list(hyps)] + [Not(self.opaque(g))]
        for q in qs + self.opaque_signs(qs): s.add(q)
        v = s.check()
        if v == z3.unsat:
            self.solver_cache[key] = True
            return True
        lin = self.opaque(g).eq(g)
        if lin and not self.uf_inv and all(self.opaque(e).eq(e) for e in list(hyps) + fs):
            self.solver_cache[key] = False
            return False
        if lin or not hyps or z3.is_eq(g) and z3.is_real(g.children()[0]): timeout = max(20, timeout // 10)
        s = z3.Solver(); s.set("rlimit", timeout * 6000); s.set("timeout", 20 * timeout)
        for f in fs: s.add(f)
        if self.uf_inv:
            import prover
            apps = []; seen = set()
            for e in list(hyps) + [g]: prover.apps_of(e, self.uf_inv, apps, seen)
            for a in apps:
                for lam in self.uf_inv[a.decl().name()]:
                    x = lam(a.children(), a)
                    if x is not None: s.add(x)
        for h in hyps: s.add(h)
        s.add(Not(g))
        r = s.check() == z3.unsat
        self.solver_cache[key] = r
        return r

    _opq = {}; _opqn = [0]; _opqf = {}

    def opaque_signs(self, exprs):
        """sign facts of the opaque products occurring in exprs"""
        out = []; seen = set(); todo = list(exprs)
        while todo:
            e = todo.pop()
            for n in self.symbols(e):
                if n in self._opqf and n not in seen:
                    seen.add(n); out += self._opqf[n]; todo += self._opqf[n]
        return out

    def opaque(self, e):
        """e with each product / quotient of two non-constant reals replaced by a constant of its own"""
        i = e.get_id()
        r = self._opq.get(i)
        if r is not None: return r[1]
        if not z3.is_app(e) or e.num_args() == 0: r = e
        else:
            k = e.decl().kind(); ch = e.children()
            if z3.is_real(e) and (k == z3.Z3_OP_MUL and sum(1 for c in ch if not z3.is_rational_value(c)) > 1 or k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]) or k == z3.Z3_OP_POWER):
                self._opqn[0] += 1; r = Real("opq!%d" % self._opqn[0])
                n = [self.opaque(c) for c in ch]
                if k == z3.Z3_OP_MUL:
                    fs = [Implies(And(*[c > 0 for c in n]), r > 0), Implies(And(*[c >= 0 for c in n]), r >= 0), (r == 0) == Or(*[c == 0 for c in n])]
                    ids = [c.get_id() for c in ch if not z3.is_rational_value(c)]
                    if all(ids.count(i) % 2 == 0 for i in ids) and not any(z3.is_rational_value(c) for c in ch): fs.append(r >= 0)
                elif k == z3.Z3_OP_DIV:
                    a, b = n; fs = [Implies(b > 0, And(Implies(a > 0, r > 0), Implies(a >= 0, r >= 0))), Implies(b != 0, (r == 0) == (a == 0))]
                else: fs = []
                self._opqf[r.decl().name()] = fs
            else:
                n = [self.opaque(c) for c in ch]
                r = e if all(a.eq(b) for a, b in zip(n, ch)) else (z3.And(*n) if k == z3.Z3_OP_AND else z3.Or(*n) if k == z3.Z3_OP_OR else z3.substitute(e, *[(a, b) for a, b in zip(ch, n) if not a.eq(b)]) if k not in (z3.Z3_OP_UNINTERPRETED,) else e.decl()(*n))
        self._opq[i] = (e, r)
        return r

    _sym_cache = {}

    def symbols(self, e):
        i = aid(e)
        r = self._sym_cache.get(i)
        if r is not None: return r
        out = set()
        st = [e]; seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): st.append(x.body()); continue
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
                st += x.children()
        r = frozenset(out); self._sym_cache[i] = r
        return r

    def relevant(self, exprs, facts):
        syms = set()
        for e in exprs: syms |= self.symbols(e)
        rest = list(facts); out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for f in rest:
                fs = self.symbols(f)
                if not fs or fs & syms:
                    out.append(f); syms |= fs; ch = True
                else: nr.append(f)
            rest = nr
        return out

    # ---------------------------------------------------------------- types
    def tyrange(self, v, n, pc=None):
        if n == 1: return
        self.fact(And(v >= -(1 << (n - 1)), v <= (1 << (n - 1)) - 1))

    # ---------------------------------------------------------------- regions & memory
    def new_region(self, name, **kw):
        r = Region(self.uname(name), **kw)
        self.regions.append(r)
        return r

    def walk(self, region, ety, off):
        """byte offset Poly within region -> (fieldkey, idx list). """
        m = region.mod
        idx = []
        if region.single:
            cur, rem = ety, off
        else:
            s = m.sizeof(ety)
            q = {}; r = {}
            for k, v in off.d.items():
                if k == ():
                    q[()] = v // s
                    if v % s: r[()] = v % s
                    if q[()] == 0: del q[()]
                elif v % s == 0: q[k] = v // s
                else: r[k] = v
            idx.append(Poly(q)); cur, rem = ety, Poly(r)
        base = 0
        while True:
            t = m.resolve(cur) if cur is not None else None
            if t is None: break
            if t.k == "struct":
                c = rem.c()
                o = 0; hit = None
                for i, e in enumerate(t.a):
                    fo, fe = m.field_offset(t, i)
                    if fo <= c < fo + max(1, m.sizeof(fe)): hit = (fo, fe)
                if hit is None: raise Unsupported("offset %r outside struct in %s" % (rem, region.name))
                base += hit[0]; rem = rem - hit[0]; cur = hit[1]
                continue
            if t.k == "array":
                s = m.sizeof(t.a)
                q = {}; r = {}
                for k, v in rem.d.items():
                    if k == ():
                        if v // s: q[()] = v // s
                        if v % s: r[()] = v % s
                    elif v % s == 0: q[k] = v // s
                    else: r[k] = v
                idx.append((Poly(q), t.n)); cur, rem = t.a, Poly(r)
                continue
            break
        if not rem.is_const(): raise Unsupported("symbolic sub-element offset in %s: %r" % (region.name, rem))
        return base + rem.c(), idx, cur

    def locate(self, region, keys, off, accty, pc, what):
        """-> (fieldkey, idx tuple of z3 Int). emits bounds obligations"""
        if region.ety is None:
            region.ety = accty
            if region.mod is None: region.mod = self.cur_mod
            if region.bytes is not None and region.count is None:
                s = region.mod.sizeof(accty)
                bp = Poly.of(region.bytes)
                if all(v % s == 0 for v in bp.d.values()):
                    region.count = Poly({k: v // s for k, v in bp.d.items()}).z()
        fk, idx, leaf = self.walk(region, region.ety, off)
        out = list(keys)
        for j, ix in enumerate(idx):
            if isinstance(ix, tuple):
                p, n = ix
                if self.opts["bounds"] and not p.is_const():
                    self.oblig("index within fixed array of %s (%s)" % (region.name, what), And(p.z() >= 0, p.z() < n), pc, "bounds")
                elif p.is_const() and not (0 <= p.c() < n):
                    self.oblig("index within fixed array of %s (%s)" % (region.name, what), FALSE, pc, "bounds")
                out.append(p.z())
                continue
            p = ix
            if region.stride is not None:
                r, c = self.split2d(region, p, pc, what)
                out += [r, c]
                continue
            if self.opts["bounds"] and region.count is not None:
                cnt = region.count if not isinstance(region.count, int) else IntVal(region.count)
                self.oblig("index within %s (%s)" % (region.name, what), And(p.z() >= 0, p.z() < cnt), pc, "bounds")
            out.append(p.z())
        return fk, tuple(out), leaf

    def split2d(self, region, p, pc, what):
        S = region.stride
        Sp = Poly.of(S)
        row = Poly.const(0); rest = p
        if len(Sp.d) == 1:
            (mono, cf), = Sp.d.items()
            if mono != ():
                r = {}; q = {}
                for k, v in p.d.items():
                    kk = list(k); ok = True
                    for a in mono:
                        if a in kk: kk.remove(a)
                        else: ok = False; break
                    if ok and v % cf == 0: q[tuple(kk)] = q.get(tuple(kk), 0) + v // cf
                    else: r[k] = v
                row = Poly(q); rest = Poly(r)
            else:
                # constant stride
                s = Sp.c(); q = {}; r = {}
                for k, v in p.d.items():
                    if v % s == 0 and k != (): q[k] = v // s
                    else: r[k] = v
                row = Poly(q); rest = Poly(r)
        else:
            # multi-term stride: try to divide out: find poly q with p - q*S of lower degree
            row, rest = self.polydiv(p, Sp)
        goal = And(rest.z() >= 0, rest.z() < Sp.z())
        if not self.quick(pc, goal, 400):
            # flattened index: use idiv/imod decomposition
            q = self.idiv(p.z(), Sp.z(), pc)
            if self.quick(pc, And(p.z() >= 0, Sp.z() > 0), 400):
                row, rest = Poly.of(q), p - Poly.of(q) * Sp
                goal = And(p.z() >= 0, Sp.z() > 0)
        if self.opts["bounds"]:
            self.oblig("column index within row of %s (%s)" % (region.name, what), goal, pc, "bounds")
            if region.rows is not None:
                rw = region.rows if not isinstance(region.rows, int) else IntVal(region.rows)
                self.oblig("row index within %s (%s)" % (region.name, what), And(row.z() >= 0, row.z() < rw), pc, "bounds")
        return row.z(), rest.z()

    def polydiv(self, p, S):
        # choose leading monomial of S (largest tuple), divide
        lead = max(S.d, key=lambda k: (len(k), k)); lc = S.d[lead]
        q = Poly.const(0); rem = p
        for _ in range(20):
            hit = None
            for k, v in rem.d.items():
                kk = list(k); ok = True
                for a in lead:
                    if a in kk: kk.remove(a)
                    else: ok = False; break
                if ok and v % lc == 0:
                    t = Poly({tuple(kk): v // lc})
                    cand = rem - t * S
                    if len(cand.d) < len(rem.d) or True:
                        hit = (t, cand); break
            if hit is None: break
            q = q + hit[0]; rem = hit[1]
        return q, rem

    def idiv(self, a, b, pc):
        """floor division for a>=0,b>0 with the facts that pin it"""
        ap = Poly.of(a); bp = Poly.of(b)
        a, b = ap.z(), bp.z()
        if bp.is_const() and bp.c() > 0: return a / b
        f = self.uff("idiv", IntSort(), IntSort(), IntSort())
        q = f(a, b)
        key = aid(q)
        dom = And(a >= 0, b > 0)
        self.afact(Implies(dom, And(q >= 0, q * b <= a, a < q * b + b, q <= a)))
        # numerator of the form X*b + Y
        x, y = self.polydiv(ap, bp) if not bp.is_const() else (Poly.const(0), ap)
        if x.d: self.afact(Implies(And(dom, y.z() >= 0, y.z() < b), q == x.z()))
        self.afact(Implies(And(dom, a < b), q == 0))
        for R, C in self.shapes:
            if Poly.of(C) == bp:
                self.afact(Implies(And(dom, a < norm_int(R * C)), q < R))
        return q

    def imod(self, a, b, pc):
        """remainder for a>=0, b>0"""
        ap = Poly.of(a); bp = Poly.of(b)
        a, b = ap.z(), bp.z()
        if bp.is_const() and bp.c() > 0: return a % b
        q = self.idiv(a, b, pc)
        m = self.uff("imod", IntSort(), IntSort(), IntSort())(a, b)
        dom = And(a >= 0, b > 0)
        self.afact(Implies(dom, And(m >= 0, m < b, m == (ap - Poly.of(q) * bp).z())))
        x, y = self.polydiv(ap, bp)
        if x.d: self.afact(Implies(And(dom, y.z() >= 0, y.z() < b), m == y.z()))
        self.afact(Implies(And(dom, a < b), m == a))
        return m

    def mem_key(self, region, fk): return (region, fk)

    def leaf_kind(self, accty):
        if accty.k == "fp": return "f"
        if accty.k == "ptr": return "p"
        if accty.k == "int": return "i%d" % accty.n
        raise Unsupported("leaf type %r" % accty)

    def field_name(self, region, fk):
        if region.cls and region.mod:
            for n, o, t in self.members_of(region) or []:
                if o == fk: return n
        return "+%s" % (fk,) if fk else ""

    def members_of(self, region):
        for m in [region.mod] + self.prog.mods:
            if m is None: continue
            r = m.members(region.cls)
            if r: return r
        return None

    def field_di(self, region, fk):
        for m in [region.mod] + self.prog.mods:
            if m is None or not region.cls: continue
            r = m.members(region.cls)
            if r:
                for n, o, t in r:
                    if o == fk: return m, t, n
        return None

    def init_scalar(self, region, fk, accty, pc=None):
        key = (region, fk)
        if key in self.init: return self.init[key]
        nm = region.name + "." + self.field_name(region, fk) if (fk or region.cls) else region.name
        k = self.leaf_kind(accty)
        if k == "f":
            v = FVal(Real(nm), TRUE if region.finite else Bool(nm + "!ok"))
        elif k == "p":
            v = Ptr.to(self.pointee_region(region, fk, nm))
        else:
            v = Int(nm); self.tyrange(v, accty.n)
            if accty.n == 8: self.fact(And(v >= 0, v <= 1)) if self.is_bool_field(region, fk) else None
        self.init[key] = v
        return v

    def is_bool_field(self, region, fk):
        d = self.field_di(region, fk)
        if d is None: return True
        return d[0].tname(d[1]) == "bool"

    def pointee_region(self, region, fk, nm, nkeys=0):
        """lazily created region for a pointer cell: distinct from every other region (assumption: no aliasing)"""
        if fk in region.ptr_regions: return region.ptr_regions[fk]
        ety = None; cls = None; count = None; mod = region.mod or self.cur_mod
        d = self.field_di(region, fk) if region.cls else None
        tn = None
        if d: tn = d[0].tname(d[1])
        elif getattr(region, "elem_tname", None): tn = region.elem_tname
        if tn and tn.endswith("*"):
            ety, cls, mod2 = self.ctype(tn[:-1].strip())
            if mod2: mod = mod2
            if cls: count = 1
        r = self.new_region(nm + "*", ety=ety, cls=cls, count=count, mod=mod, nkeys=nkeys)
        r.bytes = None
        r.elem_tname = tn[:-1].strip() if tn and tn.endswith("*") else None
        r.kind = "lazy"
        region.ptr_regions[fk] = r
        return r

    def ctype(self, tn):
        """C++ type name -> (LLVM type, class name or None, module)"""
        prim = {"double": Ty("fp", n=64), "float": Ty("fp", n=32), "int": Ty("int", n=32), "unsigned int": Ty("int", n=32),
                "long": Ty("int", n=64), "unsigned long": Ty("int", n=64), "bool": Ty("int", n=8), "char": Ty("int", n=8), "unsigned char": Ty("int", n=8)}
        if tn in prim: return prim[tn], None, None
        if tn.endswith("*"): return Ty("ptr"), None, None
        for m in self.prog.mods:
            for pre in ("class.", "struct."):
                if pre + tn in m.structs and m.structs[pre + tn] != "opaque":
                    if tn in m.composites():
                        return Ty("named", pre + tn), tn, m
        for m in self.prog.mods:
            for pre in ("class.", "struct."):
                if pre + tn in m.structs and m.structs[pre + tn] != "opaque": return Ty("named", pre + tn), tn, m
        return None, None, None

    def init_content(self, region, fk, accty):
        key = (region, fk)
        c = self.initc.get(key)
        if c is None:
            k = self.leaf_kind(accty)
            fn = self.field_name(region, fk) if region.cls else ("+%d" % fk if fk else "")
            nm = region.name + ("." + fn if fn else "")
            if region.zero_init: return Content(("const", self.zero(accty)))
            if k == "p": c = Content(("ptrfam", region, fk, nm))
            else: c = Content(("uf", nm, k))
            self.initc[key] = c
        return c

    def base_read(self, region, base, idx, fk):
        if base[0] == "const": return base[1]
        if base[0] == "fn": return base[1](idx, base[2]) if len(base) > 2 else base[1](idx)
        if base[0] == "uf":
            nm, k = base[1], base[2]
            ex = tuple(base[3]) if len(base) > 3 else ()
            args = ex + tuple(idx)
            if k == "f":
                v = self.uff(nm, *([IntSort()] * len(args) + [RealSort()]))(*args) if args else Real(nm)
                if region is not None and region.finite: return FVal(v)
                ok = self.uff(nm + "!ok", *([IntSort()] * len(args) + [BoolSort()]))(*args) if args else Bool(nm + "!ok")
                r = FVal(v, ok)
            else:
                r = self.uff(nm, *([IntSort()] * (len(args) + 1)))(*args) if args else Int(nm)
                self.tyrange(r, int(k[1:]))
                if args: self.ranged[nm] = (int(k[1:]), k == "i8" and region is not None and getattr(region, "boolean", True))
                if k == "i8" and region is not None and getattr(region, "boolean", True): self.fact(And(r >= 0, r <= 1))
            return r
        if base[0] == "ptrfam":
            fam = self.pointee_region(region, base[2], base[3], nkeys=len(idx))
            return Ptr.to(fam, 0, tuple(idx))
        if base[0] == "unknown": raise Unsupported("read of unknown content: " + base[1])
        raise Unsupported("base " + base[0])

    def read_content(self, region, c, idx, fk=0, pc=()):
        idx = tuple(norm_int(i) for i in idx)
        v = None
        pend = []      # newest first: (hit, val)
        done = False
        for r in reversed(c.recs):
            hit, val = self.rec_at(r, idx, pc)
            if is_false(hit): continue
            pend.append((hit, val))
            if is_true(hit):
                done = True; break
        if done:
            v = pend.pop()[1]
        elif c.base[0] == "merge":
            for cond, k in reversed(c.base[1]):
                x = self.read_content(region, k, idx, fk, pc)
                v = x if v is None else vite(cond, x, v)
        else:
            v = self.base_read(region, c.base, idx, fk)
            if c.base[0] == "uf" and region is not None:
                for f, lam in region.inv:
                    if f is None or f == fk: self.fact(lam(idx, v.v if isinstance(v, FVal) else v))
                if region.inv: self.uf_inv.setdefault(c.base[1], [l for f, l in region.inv if f is None or f == fk])
        for hit, val in reversed(pend): v = vite(hit, val, v)
        return v

    def rec_at(self, r, idx, pc=()):
        """(hit condition, value) of record r at cell idx"""
        if not r.vars:
            cond = TRUE if is_true(r.guard) else r.guard
            eqs = [cond]
            for a, b in zip(r.idx, idx):
                d = Poly.of(a) - Poly.of(b)
                if d.is_const():
                    if d.c() != 0: return FALSE, None
                else: eqs.append(a == b)
            return tand(*eqs), r.val
        sol = {}; eqs = []
        todo = [(Poly.of(a), Poly.of(b)) for a, b in zip(r.idx, idx)]
        vars = list(r.vars)
        progress = True
        while todo and progress:
            progress = False
            for item in list(todo):
                a, b = item
                if sol:
                    a = Poly.of(norm_int(substitute(a.z(), *[(k, v) for k, v in sol.values()])))
                fv = [v for v in vars if aid(v) not in sol and any(contains(_kz(i), v) for i in atoms_of(a))]
                if not fv:
                    d = a - b
                    if d.is_const():
                        if d.c() != 0: return FALSE, None
                    else: eqs.append(a.z() == b.z())
                    todo.remove(item); progress = True; continue
                if len(fv) == 1:
                    cs = a.coef_split(fv[0])
                    if cs is not None and cs[0].is_const() and cs[0].c() != 0:
                        cf = cs[0].c(); num = b - cs[1]
                        if cf in (1, -1):
                            sol[aid(fv[0])] = (fv[0], num.scale(cf).z())
                        else:
                            if cf < 0: num = num.scale(-1); cf = -cf
                            if all(v % cf == 0 for v in num.d.values()):
                                sol[aid(fv[0])] = (fv[0], Poly({k: v // cf for k, v in num.d.items()}).z())
                            else:
                                q = num.z() / IntVal(cf)
                                sol[aid(fv[0])] = (fv[0], q); eqs.append(q * cf == num.z())
                        todo.remove(item); progress = True
        # flattened pair idx = (idiv(t,S), t - S*idiv(t,S))
        if todo and len(todo) == 2 and len([v for v in vars if aid(v) not in sol]) == 1:
            v = [v for v in vars if aid(v) not in sol][0]
            (a0, b0), (a1, b1) = todo
            for (qa, qb, ra, rb) in ((a0, b0, a1, b1), (a1, b1, a0, b0)):
                qz = qa.z()
                if z3.is_app(qz) and qz.decl().name() == "idiv":
                    num, S = qz.children()
                    rz = ra.z()
                    ism = z3.is_app(rz) and rz.decl().name() == "imod" and Poly.of(rz.children()[0]) == Poly.of(num) and Poly.of(rz.children()[1]) == Poly.of(S)
                    if ism or (ra + Poly.of(S) * qa) == Poly.of(num):
                        cs = Poly.of(num).coef_split(v)
                        if cs is not None and cs[0] == Poly.const(1):
                            t = (qb * Poly.of(S) + rb) - cs[1]
                            sol[aid(v)] = (v, t.z())
                            eqs.append(And(rb.z() >= 0, rb.z() < S, qb.z() >= 0))
                            todo = []
                            break
        free = [v for v in vars if aid(v) not in sol]
        if todo or free:
            return self.rec_at_skolem(r, idx, pc)
        pairs = [(k, v) for k, v in sol.values()]
        for k, v in pairs: self.inst(k, v)
        g = z3.simplify(substitute(r.guard, *pairs))
        if is_false(g): return FALSE, None
        return tand(*eqs, g), vsubst(r.val, pairs)

    def rec_at_skolem(self, r, idx, pc):
        """non-affine index: skolemised witness; relies on the record's injectivity obligation"""
        if len(r.vars) == 1 and not self.val_mentions(r.val, r.vars[0]):
            # every writing iteration stores the same value: the cell is hit iff some iteration writes it
            v = r.vars[0]; hi = None
            st = [r.guard]; rest = []
            while st:
                g = st.pop()
                if z3.is_and(g): st += g.children(); continue
                if hi is None and z3.is_lt(g) and g.children()[0].eq(v): hi = g.children()[1]
                elif hi is None and z3.is_not(g) and z3.is_ge(g.children()[0]) and g.children()[0].children()[0].eq(v): hi = g.children()[0].children()[1]
                else: rest.append(g)
            if hi is not None and not contains(hi, v):
                return self.sum_node("EX", tand(*rest, *[a == b for a, b in zip(r.idx, idx)]), v, hi), r.val
        if not r.inj: raise Unsupported("read through non-injective write record")
        key = "w!%d" % id(r)
        if r.tag is None: r.tag = self.uname("wr")
        nm = r.tag
        # captured free loop variables
        cap = [self.loopvars[x] for x in sorted(self._rec_free(r)) if x in self.loopvars]
        args = cap + list(idx)
        hit = self.uff(nm + "!hit", *([IntSort()] * len(args) + [BoolSort()]))(*args)
        w = [self.uff("%s!w%d" % (nm, i), *([IntSort()] * (len(args) + 1)))(*args) for i in range(len(r.vars))]
        pairs = list(zip(r.vars, w))
        at = lambda ws: And(substitute(r.guard, *list(zip(r.vars, ws))),
                            *[substitute(a, *list(zip(r.vars, ws))) == b for a, b in zip(r.idx, idx)])
        self.fact(Implies(hit, at(w)))
        for cand in self.cands:
            if len(cand) == len(r.vars):
                import itertools
                for perm in itertools.permutations(cand):
                    for k, v in zip(r.vars, perm): self.inst(k, v)
                    self.fact(Implies(at(list(perm)), And(hit, *[x == y for x, y in zip(w, perm)])))
        for k, v in pairs: self.inst(k, v)
        return hit, vsubst(r.val, pairs)

    def val_mentions(self, val, v):
        if isinstance(val, FVal): return contains(val.v, v) or contains(val.ok, v)
        if isinstance(val, z3.ExprRef): return contains(val, v)
        return True

    def _rec_free(self, r):
        s = set(free_consts(r.guard))
        for i in r.idx: s |= free_consts(i)
        v = r.val
        if isinstance(v, FVal): s |= free_consts(v.v) | free_consts(v.ok)
        elif isinstance(v, z3.ExprRef): s |= free_consts(v)
        return s - {aid(x) for x in r.vars}

    # typed load/store through a Ptr ---------------------------------------
    def deref_alts(self, p, pc, what):
        if isinstance(p, Unknown): raise Unsupported("deref of unknown pointer (%s)" % p.why)
        if not isinstance(p, Ptr): raise Unsupported("deref of non-pointer %r" % (p,))
        nn = []
        for c, t in p.alts:
            if t is None:
                if is_true(c) or not self.quick(pc, tnot(c), 300):
                    self.oblig("pointer is not null (%s)" % what, tnot(c), pc, "null")
            else: nn.append((c, t))
        if not nn: raise Unsupported("null dereference")
        return nn

    def load(self, state, p, ty, pc, what="load"):
        t = self.cur_mod.resolve(ty)
        if t.k in ("struct", "array"):
            return self.load_agg(state, p, t, pc)
        out = None
        for c, (reg, keys, off) in reversed(self.deref_alts(p, pc, what)):
            v = self.load1(state, reg, keys, off, ty, list(pc) + ([c] if not is_true(c) else []), what)
            out = v if out is None else vite(c, v, out)
        return out

    def load_agg(self, state, p, t, pc):
        out = []
        m = self.cur_mod
        for i in range(len(t.a) if t.k == "struct" else t.n):
            if t.k == "struct": o, e = m.field_offset(t, i)
            else: o, e = i * m.sizeof(t.a), t.a
            out.append(self.load(state, self.ptr_add(p, Poly.const(o)), e, pc))
        return out

    def load1(self, state, reg, keys, off, ty, pc, what):
        if reg.kind == "vtable": raise Unsupported("vtable data load")
        if getattr(reg, "handler", None): return reg.handler.load(self, state, reg, keys, off, ty, pc)
        fk, idx, leaf = self.locate(reg, keys, off, ty, pc, what)
        if reg.cls and ty.k == "ptr" and fk == 0 and self.is_polymorphic(reg):
            return VtPtr(reg, keys)
        if not idx:
            v = state.scal.get((reg, fk))
            if v is None: v = self.init_scalar(reg, fk, ty, pc)
            return self.coerce(v, ty, leaf)
        c = state.arr.get((reg, fk))
        if c is None: c = self.init_content(reg, fk, ty)
        return self.coerce(self.read_content(reg, c, idx, fk, pc), ty, leaf)

    def coerce(self, v, ty, leaf):
        k = ty.k
        if k == "fp":
            if isinstance(v, FVal) or isinstance(v, Unknown): return v
        elif k == "ptr":
            if isinstance(v, (Ptr, Unknown, VtPtr, FnPtr)) or hasattr(v, "opaque"): return v
            if isinstance(v, z3.ArithRef) and v.is_int() and z3.is_int_value(v) and v.as_long() == 0: return Ptr.null()
        elif k == "int":
            if isinstance(v, z3.ExprRef) and (z3.is_int(v) or z3.is_bool(v)): return v
            if isinstance(v, Unknown): return v
            if hasattr(v, "opaque"): return v
            if isinstance(v, Ptr): return v
            if isinstance(v, FVal) and is_num(v.v) and v.v.as_fraction() == 0: return IntVal(0)
        return Unknown("type-punned load")

    def is_polymorphic(self, reg):
        ms = self.members_of(reg)
        return bool(ms) and any(n.startswith("_vptr") and o == 0 for n, o, t in ms)

    def store(self, state, p, v, ty, pc, what="store"):
        t = self.cur_mod.resolve(ty)
        if t.k in ("struct", "array"):
            if not isinstance(v, list): raise Unsupported("aggregate store")
            for i, x in enumerate(v):
                if t.k == "struct": o, e = self.cur_mod.field_offset(t, i)
                else: o, e = i * self.cur_mod.sizeof(t.a), t.a
                self.store(state, self.ptr_add(p, Poly.const(o)), x, e, pc, what)
            return
        alts = self.deref_alts(p, pc, what)
        for c, (reg, keys, off) in alts:
            cc = c if len(alts) > 1 else TRUE
            self.store1(state, reg, keys, off, v, ty, list(pc) + ([cc] if not is_true(cc) else []), what, cc)

    def store1(self, state, reg, keys, off, v, ty, pc, what, cond=TRUE):
        if getattr(reg, "handler", None): return reg.handler.store(self, state, reg, keys, off, v, ty, pc)
        fk, idx, leaf = self.locate(reg, keys, off, ty, pc, what)
        self.write_cell(state, reg, fk, idx, v, ty, pc, cond)

    def write_cell(self, state, reg, fk, idx, v, ty, pc, cond=TRUE):
        if reg.cls and ty.k == "ptr" and fk == 0 and self.is_polymorphic(reg): return
        if not self.quiet: self.writes.append((reg, fk, self.fn_stack[-1] if self.fn_stack else "", self.cur_line))
        h = self.field_shapes.get((reg, fk))
        if h is not None and isinstance(v, Ptr):
            for c0, t0 in v.alts:
                if t0 is not None: h(t0[0], state)
        if (reg, fk) in self.name_fields and not idx and not self.loopstack and is_true(cond) and isinstance(v, z3.ArithRef) and not z3.is_const(v) and not z3.is_int_value(v):
            # give the stored value a name (keeps polynomials small)
            nm = z3.Const(self.uname("%s.%s'" % (reg.name, self.field_name(reg, fk))), v.sort())
            self.fact(Implies(tand(*pc), nm == v))
            v = nm
        if not idx:
            if not is_true(cond):
                old = state.scal.get((reg, fk))
                if old is None: old = self.init_scalar(reg, fk, ty, pc)
                v = vite(cond, v, old)
            state.scal[(reg, fk)] = v
            return
        c = state.arr.get((reg, fk))
        if c is None: c = self.init_content(reg, fk, ty)
        state.arr[(reg, fk)] = c.add(Rec((), cond, idx, v))

    def store1_raw(self, state, reg, keys, off, v, ty, pc):
        """store without bounds obligations (vector growth)"""
        b = self.opts["bounds"]; self.opts["bounds"] = False
        try: self.store1(state, reg, keys, off, v, ty, pc, "push_back")
        finally: self.opts["bounds"] = b

    def line_desc(self):
        l = self.cur_mod.line_of(self.cur_line) if self.cur_line is not None else None
        return "line %s" % l

    def ptr_add(self, p, poly):
        if isinstance(p, Unknown): return p
        if isinstance(p, VtPtr): return VtSlot(p, poly.c() // 8)
        if hasattr(p, "opaque"): return p
        return Ptr([(c, None if t is None else (t[0], t[1], t[2] + poly)) for c, t in p.alts])

    # ---------------------------------------------------------------- constants & operands
    def const_fp(self, s, bits=64):
        if s.startswith("0x"):
            h = s[2:]
            if h[0] in "KLMHR": raise Unsupported("fp const " + s)
            d = struct.unpack(">d", bytes.fromhex(h.rjust(16, "0")))[0]
        else: d = float(s)
        return self.fconst(d)

    def fconst(self, d):
        if d != d: return FVal(Real("NaN!c"), FALSE)
        if d in (float("inf"), float("-inf")):
            return FVal(Real("INF!c") if d > 0 else -Real("INF!c"), FALSE)
        # decimal literals are read as the decimal the programmer wrote when that is what the double rounds to
        f = Fraction(repr(d)) if abs(d) < 1e300 and (d == 0 or abs(d) > 1e-300) else Fraction(d)
        return FVal(RealVal(f))

    def val(self, act, v, ty):
        k = v[0]
        if k == "reg":
            r = act.env.get(v[1])
            if r is None: return Unknown("undefined %" + v[1])
            return r
        if k == "int":
            n = v[1]
            if ty is not None and ty.k == "int" and ty.n == 1: return BoolVal(bool(n))
            return IntVal(n)
        if k == "bool": return BoolVal(v[1])
        if k == "fp": return self.const_fp(v[1])
        if k == "null": return Ptr.null()
        if k == "undef": return self.undef(ty)
        if k == "global": return self.global_ptr(v[1])
        if k == "zero": return self.zero(ty)
        if k == "cgep":
            p = self.val(act, v[2][1], v[2][0])
            return self.gep(act, v[1], p, v[3])
        if k == "agg": return [self.val(act, x, t) for t, x in v[1]]
        raise Unsupported("operand %r" % (v,))

    def undef(self, ty):
        if ty is None or ty.k in ("ptr", "metadata", "token"): return Unknown("undef")
        if ty.k == "fp": return FVal(self.fresh(RealSort(), "undef!f"), self.fresh(BoolSort(), "undef!ok"))
        if ty.k == "int":
            return self.fresh(BoolSort(), "undef!b") if ty.n == 1 else self.fresh(IntSort(), "undef!i")
        t = self.cur_mod.resolve(ty)
        if t.k == "struct": return [self.undef(e) for e in t.a]
        return Unknown("undef agg")

    def zero(self, ty):
        t = self.cur_mod.resolve(ty)
        if t.k == "int": return FALSE if t.n == 1 else IntVal(0)
        if t.k == "fp": return FVal(RZERO)
        if t.k == "ptr": return Ptr.null()
        if t.k == "struct": return [self.zero(e) for e in t.a]
        if t.k in ("array", "vector"): return [self.zero(t.a) for _ in range(t.n)] if t.n <= 64 else Unknown("zero array")
        raise Unsupported("zero %r" % ty)

    def global_ptr(self, name):
        if name in self.prog.where or any(name in m.decls for m in self.prog.mods): return FnPtr(name)
        key = "@" + name
        r = self.globals_.get(name) if hasattr(self, "globals_") else None
        if not hasattr(self, "globals_"): self.globals_ = {}
        if r is None:
            ety = None; count = None; mod = self.cur_mod; initv = None
            g = self.cur_mod.globals.get(name)
            if g is None:
                for m in self.prog.mods:
                    if name in m.globals and "external" not in m.globals[name].split()[:2]:
                        g = m.globals[name]; mod = m; break
            const = False
            if g:
                mm = re.match(r"(?:(?:private|internal|linkonce_odr|weak_odr|dso_local|external|unnamed_addr|local_unnamed_addr|constant|global|hidden|available_externally|thread_local(?:\(\w+\))?|comdat)\s+)*", g)
                head = mm.group(0)
                const = "constant" in head
                from irparse import TokStream, parse_type, parse_value
                try:
                    ts = TokStream(g[mm.end():])
                    ety = parse_type(ts)
                    if "external" not in head:
                        initv = parse_value(ts, ety)
                except (IRError, IndexError):
                    pass
            tt = mod.resolve(ety) if ety is not None else None
            if tt is not None and tt.k == "array":
                r = Region(key, ety=tt.a, count=tt.n, mod=mod)
                self.regions.append(r)
                if initv is not None and initv[0] == "agg" and const:
                    r.const_init = initv
            else:
                r = Region(key, ety=ety, count=1, mod=mod); self.regions.append(r)
            if name.startswith(".str"): r.kind = "str"
            r.bytes = None
            r.is_global = True
            r.strval = initv[1] if initv is not None and initv[0] == "str" else None
            if const and initv is not None and tt is not None and tt.k in ("int", "fp"):
                self.init[(r, 0)] = self.val(None, initv, tt)
            if const and initv is not None and tt is not None and tt.k == "array" and initv[0] == "agg" and tt.a.k in ("int", "fp"):
                c = Content(("const", self.zero(tt.a)))
                for i, (et, ev) in enumerate(initv[1]):
                    c = c.add(Rec((), TRUE, (IntVal(i),), self.val(None, ev, et)))
                self.initc[(r, 0)] = c
            self.globals_[name] = r
        return Ptr.to(r)

    # ---------------------------------------------------------------- instructions
    def gep(self, act, base, p, idx):
        m = self.cur_mod
        off = Poly.const(0); cur = base
        hint = None
        for n, (it, iv) in enumerate(idx):
            v = self.val(act, iv, it)
            if isinstance(v, Unknown): return v
            if n == 0:
                off = off + Poly.of(v) * m.sizeof(base)
            else:
                t = m.resolve(cur)
                if t.k == "struct":
                    o, cur = m.field_offset(t, v.as_long()); off = off + o
                elif t.k in ("array", "vector"):
                    off = off + Poly.of(v) * m.sizeof(t.a); cur = t.a
                else: raise Unsupported("gep into %r" % t)
        r = self.ptr_add(p, off)
        # learn element type of untyped regions
        if isinstance(p, Ptr):
            for c, t in p.alts:
                if t is not None and t[0].ety is None and not (base.k == "int" and base.n == 8) and t[0].kind != "str":
                    reg = t[0]; reg.ety = base; reg.mod = m
                    if base.k == "named" and reg.cls is None:
                        nm = re.sub(r"^(class|struct)\.", "", base.a)
                        if nm in m.composites(): reg.cls = nm
                        if len(idx) > 1 and reg.count is None and getattr(reg, "bytes", None) is None and idx[0][1] == ("int", 0):
                            reg.count = 1; reg.single = True
                    if getattr(reg, "bytes", None) is not None and reg.count is None:
                        s = m.sizeof(base); bp = Poly.of(reg.bytes)
                        if all(v % s == 0 for v in bp.d.values()): reg.count = Poly({k: v // s for k, v in bp.d.items()}).z()
        return r

    def tobool(self, v):
        if isinstance(v, Unknown): raise Unsupported("branch on unknown")
        if z3.is_bool(v): return v
        return v != 0

    def as_int(self, v):
        if isinstance(v, z3.BoolRef): return If(v, IntVal(1), IntVal(0))
        return v

    def wrap(self, v, n):
        return v

    def binop(self, ins, a, b, pc):
        op = ins.op; ty = ins.ty
        if isinstance(a, Unknown) or isinstance(b, Unknown): return Unknown("arith on unknown")
        if hasattr(a, "opaque") or hasattr(b, "opaque"): return Unknown("arith on opaque")
        if op[0] == "f":
            ok = tand(a.ok, b.ok)
            x, y = a.v, b.v
            if op == "fadd": return FVal(self.radd(x, y), ok)
            if op == "fsub": return FVal(self.rsub(x, y), ok)
            if op == "fmul": return FVal(self.rmul(x, y), ok)
            if op == "fdiv":
                if is_num(y) and y.as_fraction() != 0: return FVal(self.rmul(x, RealVal(1 / y.as_fraction())) if not is_num(x) else RealVal(x.as_fraction() / y.as_fraction()), ok)
                return FVal(x / y, tand(ok, y != 0))
            raise Unsupported(op)
        n = ty.n
        if n == 1:
            a = self.tobool(a); b = self.tobool(b)
            if op == "and": return tand(a, b)
            if op == "or": return tor(a, b)
            if op == "xor":
                if is_true(b): return tnot(a)
                if is_true(a): return tnot(b)
                return z3.Xor(a, b)
            if op == "add" or op == "sub": return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_int(op, a, b)
        a = self.as_int(a); b = self.as_int(b)
        fl = ins.a[2]
        bits = self.opts.get("bv_width_ops")
        if op in ("add", "sub", "mul"):
            r = {"add": lambda: Poly.of(a) + Poly.of(b), "sub": lambda: Poly.of(a) - Poly.of(b), "mul": lambda: Poly.of(a) * Poly.of(b)}[op]().z()
            if "nsw" in fl:
                if self.opts["overflow"]:
                    self.oblig("no signed overflow in %s i%d" % (op, n), And(r >= -(1 << (n - 1)), r <= (1 << (n - 1)) - 1), pc, "overflow")
            return r
        if op in ("sdiv", "srem"):
            if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() != 0:
                x, y = a.as_long(), b.as_long(); q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return IntVal(q if op == "sdiv" else x - q * y)
            if not z3.is_int_value(b): self.oblig("divisor is not zero", b != 0, pc, "div0")
            if self.quick(pc, And(a >= 0, b > 0)):
                if self.quick(pc, a < b): return IntVal(0) if op == "sdiv" else a
                return self.idiv(a, b, pc) if op == "sdiv" else self.imod(a, b, pc)
            # general truncating division through absolute values
            aa = If(a >= 0, a, -a); bb = If(b >= 0, b, -b)
            if op == "srem":
                m = self.imod(aa, bb, pc)
                return If(a >= 0, m, -m)
            q = self.idiv(aa, bb, pc)
            return If((a >= 0) == (b > 0), q, -q)
        if op in ("udiv", "urem"):
            if not z3.is_int_value(b): self.oblig("divisor is not zero", b != 0, pc, "div0")
            ua = a if self.quick(pc, a >= 0) else If(a >= 0, a, a + (1 << n))
            ub = b if self.quick(pc, b >= 0) else If(b >= 0, b, b + (1 << n))
            return self.idiv(ua, ub, pc) if op == "udiv" else self.imod(ua, ub, pc)
        if op == "shl" and z3.is_int_value(b): return (Poly.of(a) * (1 << b.as_long())).z()
        if op in ("ashr",) and z3.is_int_value(b): return a / IntVal(1 << b.as_long())
        if op == "lshr" and z3.is_int_value(b):
            ua = a if self.quick(pc, a >= 0) else If(a >= 0, a, a + (1 << n))
            return ua / IntVal(1 << b.as_long())
        if op == "and" and z3.is_int_value(b) and (b.as_long() + 1) & b.as_long() == 0 and b.as_long() > 0:
            return a % IntVal(b.as_long() + 1)
        if op in ("and", "or", "xor"):
            # 0/1 logic
            if self.quick(pc, And(a >= 0, a <= 1, b >= 0, b <= 1)):
                x, y = a == 1, b == 1
                r = {"and": And(x, y), "or": Or(x, y), "xor": z3.Xor(x, y)}[op]
                return If(r, IntVal(1), IntVal(0))
            if op == "xor" and z3.is_int_value(b) and b.as_long() == -1: return (Poly.const(-1) - Poly.of(a)).z()
        f = self.uff("bit_%s%d" % (op, n), IntSort(), IntSort(), IntSort())
        r = f(a, b); self.tyrange(r, n)
        return r

    def ptr_int(self, op, a, b):
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] and b.alts[0][1] and a.alts[0][1][0] is b.alts[0][1][0]:
            return (a.alts[0][1][2] - b.alts[0][1][2]).z()
        raise Unsupported("pointer/integer arithmetic " + op)

    def radd(self, x, y):
        if is_num(x) and x.as_fraction() == 0: return y
        if is_num(y) and y.as_fraction() == 0: return x
        if is_num(x) and is_num(y): return RealVal(x.as_fraction() + y.as_fraction())
        return x + y

    def rsub(self, x, y):
        if is_num(y) and y.as_fraction() == 0: return x
        if is_num(x) and is_num(y): return RealVal(x.as_fraction() - y.as_fraction())
        if is_num(x) and x.as_fraction() == 0: return -y
        return x - y

    def rmul(self, x, y):
        if is_num(x) and is_num(y): return RealVal(x.as_fraction() * y.as_fraction())
        for p, q in ((x, y), (y, x)):
            if is_num(p):
                if p.as_fraction() == 0: return RZERO
                if p.as_fraction() == 1: return q
        return x * y

    def icmp(self, p, a, b, ty, pc):
        if isinstance(a, Unknown) or isinstance(b, Unknown): return Unknown("icmp on unknown")
        if hasattr(a, "opaque") or hasattr(b, "opaque"):
            return self.fresh(BoolSort(), self.site("opaquecmp"))
        if ty.k == "ptr" or isinstance(a, Ptr) or isinstance(b, Ptr): return self.pcmp(p, a, b)
        if ty.k == "int" and ty.n == 1:
            a = self.tobool(a); b = self.tobool(b)
            if p == "eq": return a == b if not (is_true(b) or is_false(b)) else (a if is_true(b) else tnot(a))
            if p == "ne": return a != b if not (is_true(b) or is_false(b)) else (tnot(a) if is_true(b) else a)
            a = self.as_int(a); b = self.as_int(b)
        a = self.as_int(a); b = self.as_int(b)
        if p == "eq": return a == b
        if p == "ne": return a != b
        if p[0] == "u":
            n = ty.n
            if not (z3.is_int_value(a) and a.as_long() >= 0) and not self.quick(pc, a >= 0): a = If(a >= 0, a, a + (1 << n))
            if not (z3.is_int_value(b) and b.as_long() >= 0) and not self.quick(pc, b >= 0): b = If(b >= 0, b, b + (1 << n))
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p[1:]]

    def pcmp(self, p, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            an = a.name if isinstance(a, FnPtr) else None; bn = b.name if isinstance(b, FnPtr) else None
            eq = BoolVal(an == bn)
            return eq if p == "eq" else tnot(eq)
        if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise Unsupported("pointer compare")
        if p in ("eq", "ne"):
            cs = []
            for c1, t1 in a.alts:
                for c2, t2 in b.alts:
                    if t1 is None and t2 is None: e = TRUE
                    elif t1 is None or t2 is None: e = FALSE
                    elif t1[0] is t2[0]:
                        e = tand(*[x == y for x, y in zip(t1[1], t2[1])], *([t1[2].z() == t2[2].z()] if not (t1[2] - t2[2]).is_const() else [BoolVal((t1[2] - t2[2]).c() == 0)]))
                    else: e = FALSE
                    cs.append(tand(c1, c2, e))
            r = tor(*cs)
            return r if p == "eq" else tnot(r)
        if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] and b.alts[0][1] and a.alts[0][1][0] is b.alts[0][1][0]:
            x, y = a.alts[0][1][2].z(), b.alts[0][1][2].z()
            return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[1:]]
        raise Unsupported("pointer order")

    def isnan(self, a):
        if is_true(a.ok): return FALSE
        return tand(tnot(a.ok), self.uff("ISNAN", RealSort(), BoolSort())(a.v))

    def fcmp(self, p, a, b, pc):
        if isinstance(a, Unknown) or isinstance(b, Unknown): return Unknown("fcmp on unknown")
        if p == "true": return TRUE
        if p == "false": return FALSE
        if p == "uno": return tor(self.isnan(a), self.isnan(b))
        if p == "ord": return tnot(tor(self.isnan(a), self.isnan(b)))
        same = a.v.eq(b.v)
        rel = {"eq": lambda: a.v == b.v, "ne": lambda: a.v != b.v, "lt": lambda: a.v < b.v, "le": lambda: a.v <= b.v,
               "gt": lambda: a.v > b.v, "ge": lambda: a.v >= b.v}[p[1:]]()
        ok = tand(a.ok, b.ok)
        if same:
            nan = self.isnan(a)
            if p in ("oeq", "oge", "ole"): return tnot(nan)
            if p in ("une", "ult", "ugt"): return nan
            if p in ("one", "olt", "ogt"): return FALSE
            return TRUE
        rel = z3.simplify(rel)
        if is_true(ok): return rel
        # a non-finite operand: NaN makes ordered comparisons false / unordered true; infinities unconstrained
        nan = tor(self.isnan(a), self.isnan(b))
        # infinities are compared through the two INF marker constants
        f = self.uff("nfcmp_" + p, RealSort(), RealSort(), BoolSort())(a.v, b.v)
        nf = ite(nan, TRUE if p[0] == "u" else FALSE, f)
        return ite(ok, rel, nf)

    def cast(self, ins, v, pc):
        op = ins.op; fty, _ = ins.a; ty = ins.ty
        if isinstance(v, Unknown): return v
        if hasattr(v, "opaque"): return v
        if op in ("bitcast",): return v
        if op == "ptrtoint": return v
        if op == "inttoptr":
            if isinstance(v, Ptr): return v
            raise Unsupported("inttoptr")
        if op == "sext":
            return If(v, IntVal(-1), IntVal(0)) if z3.is_bool(v) else v
        if op == "zext":
            if z3.is_bool(v): return If(v, IntVal(1), IntVal(0))
            if fty.n == 8: 
                if self.quick(pc, v >= 0): return v
            if self.quick(pc, v >= 0): return v
            return If(v >= 0, v, v + (1 << fty.n))
        if op == "trunc":
            if ty.n == 1:
                if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
                    c, x, y = v.children()
                    if z3.is_int_value(x) and z3.is_int_value(y) and x.as_long() == 1 and y.as_long() == 0: return c
                if z3.is_int_value(v): return BoolVal(bool(v.as_long() & 1))
                return v != 0
            if z3.is_bool(v): return self.as_int(v)
            if isinstance(v, Ptr): raise Unsupported("trunc ptr")
            lo, hi = -(1 << (ty.n - 1)), (1 << (ty.n - 1)) - 1
            if self.quick(pc, And(v >= lo, v <= hi)): return v
            if self.opts["overflow"]:
                self.oblig("narrowing conversion to i%d keeps the value" % ty.n, And(v >= lo, v <= hi), pc, "overflow")
                return v
            return v
        if op in ("sitofp", "uitofp"):
            v = self.as_int(v)
            if op == "uitofp" and not self.quick(pc, v >= 0): v = If(v >= 0, v, v + (1 << fty.n))
            if z3.is_int_value(v): return FVal(RealVal(v.as_long()))
            return FVal(ToReal(v))
        if op in ("fptosi", "fptoui"):
            x = v.v
            if self.opts.get("fptosi_range", True) and self.opts["overflow"]:
                self.oblig("float-to-int conversion of a finite in-range value", tand(v.ok, x > -(1 << (ty.n - 1)) - 1, x < (1 << (ty.n - 1))), pc, "overflow")
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL: return x.children()[0]
            if self.quick(pc, x >= 0): return ToInt(x)
            return If(x >= 0, ToInt(x), -ToInt(-x))
        if op in ("fpext", "fptrunc"): return v
        raise Unsupported(op)

    def site(self, what):
        return "%s@%s#%s" % (what, self.act_path, self.cur_ins_id)

    # ---------------------------------------------------------------- function execution
    def call_function(self, name, args, state, pc, path=None):
        """execute the real body; returns (ret, state, pc)"""
        fn = self.prog.func(name)
        if fn is None: raise Unsupported("no body for " + name)
        if len(self.fn_stack) > self.opts["maxdepth"]: raise Unsupported("call depth at " + name)
        loop_info(fn)
        dem = self.prog.demangle(name).replace("[abi:cxx11]", "")
        short = dem.split("(")[0]
        act = Act(fn, (path if path is not None else (getattr(self, "act_path", "") + "/" + str(getattr(self, "cur_ins_id", "")))) )
        saved = (getattr(self, "cur_mod", None), getattr(self, "act_path", None), getattr(self, "cur_ins_id", None), getattr(self, "cur_line", None))
        self.fn_stack.append(short)
        try:
            self.cur_mod = fn.mod; self.act_path = act.path; self.cur_ins_id = 0; self.cur_line = None
            for (t, n), a in zip(fn.params, args): act.env[n] = a
            out, back, rets = self.exec_scope(act, set(fn.rpo), fn.entry, [Edge(None, fn.entry, list(pc), state)])
            if not rets: return None, None, None
            st, mpc, _ = self.merge([Edge(None, None, p, s) for (v, s, p) in rets])
            ret = None
            if rets[0][0] is not None:
                ret = self.merge_vals([(v, p) for (v, s, p) in rets])
            # normal termination of the call: paths that exit() are dropped, keep callers' pc + residual condition
            return ret, st, mpc
        finally:
            self.fn_stack.pop()
            self.cur_mod, self.act_path, self.cur_ins_id, self.cur_line = saved

    def common_prefix(self, pcs):
        n = min(len(p) for p in pcs); k = 0
        while k < n and all(p[k].eq(pcs[0][k]) for p in pcs[1:]): k += 1
        return k

    def rel_conds(self, pcs):
        k = self.common_prefix(pcs)
        return k, [tand(*p[k:]) for p in pcs]

    def merge_pc(self, pcs):
        k, rels = self.rel_conds(pcs)
        base = list(pcs[0][:k])
        if len(pcs) == 1: return list(pcs[0])
        if any(is_true(r) for r in rels): return base
        o = z3.simplify(Or(*rels))
        if is_true(o): return base
        # try to see exhaustiveness cheaply
        if len(rels) <= 6:
            s = z3.Solver(); s.set("timeout", 60); s.add(Not(o))
            for b in base[-6:]: s.add(b)
            if s.check() == z3.unsat: return base
        return base + [o]

    def merge_vals(self, vps):
        k, rels = self.rel_conds([p for v, p in vps])
        out = vps[-1][0]
        for (v, p), r in reversed(list(zip(vps, rels))[:-1]): out = vite(r, v, out)
        return out

    def merge(self, edges):
        """-> (state, pc, list of relative conditions)"""
        if len(edges) == 1: return edges[0].state.copy(), list(edges[0].pc), [TRUE]
        k, rels = self.rel_conds([e.pc for e in edges])
        pc = self.merge_pc([e.pc for e in edges])
        st = State()
        keys = {}
        for e in edges:
            for x in e.state.scal: keys[x] = 1
        for key in keys:
            vals = []
            for e in edges:
                v = e.state.scal.get(key)
                if v is None: v = self.init.get(key)
                vals.append(v)
            ref = next(v for v in vals if v is not None)
            vals = [self.lazy_init(key, ref) if v is None else v for v in vals]
            out = vals[-1]
            if not all(v is out or veq_syn(v, out) for v in vals):
                for v, r in reversed(list(zip(vals, rels))[:-1]): out = vite(r, v, out)
            st.scal[key] = out
        keys = {}
        for e in edges:
            for x in e.state.arr: keys[x] = 1
        for key in keys:
            cs = []
            for e in edges:
                c = e.state.arr.get(key)
                if c is None: c = self.initc.get(key)
                if c is None:
                    other = next(x.state.arr[key] for x in edges if key in x.state.arr)
                    c = self.guess_initc(key, other)
                cs.append(c)
            if all(c is cs[0] for c in cs): st.arr[key] = cs[0]
            else: st.arr[key] = Content(("merge", list(zip(rels, cs))))
        return st, pc, rels

    def lazy_init(self, key, ref):
        reg, fk = key
        if isinstance(ref, FVal): ty = Ty("fp", n=64)
        elif isinstance(ref, Ptr): ty = Ty("ptr")
        elif isinstance(ref, z3.BoolRef):
            v = Bool("%s.%s!init" % (reg.name, fk)); self.init[key] = v
            return v
        elif isinstance(ref, z3.ArithRef): 
            v = Int("%s.%s!init" % (reg.name, self.field_name(reg, fk) if reg.cls else fk)) if key not in self.init else self.init[key]
            self.init[key] = v
            return v
        else: return Unknown("uninitialised")
        return self.init_scalar(reg, fk, ty)

    def guess_initc(self, key, other):
        c = other
        while c.base[0] == "merge": c = c.base[1][0][1]
        n = Content(c.base)
        self.initc[key] = n
        return n

    def exec_scope(self, act, scope, entry, edges_in, cur_loop=None):
        incoming = {entry: list(edges_in)}
        outs = []; backs = []; rets = []
        fn = act.fn
        for b in fn.rpo:
            if b not in scope: continue
            inc = incoming.pop(b, None)
            if not inc: continue
            inc = [e for e in inc if not any(is_false(c) for c in e.pc)]
            if not inc: continue
            L = fn.loops.get(b)
            if L is not None and L is not cur_loop:
                edges = self.exec_loop(act, L, inc)
            else:
                st, pc, rels = self.merge(inc)
                # phis
                vals = {}
                if not (cur_loop is not None and b == cur_loop.header):
                    for ins in fn.blocks[b].ins:
                        if ins.op != "phi": break
                        vs = []
                        for e in inc:
                            if e.phi is not None and ins.dst in e.phi: vs.append(e.phi[ins.dst])
                            else:
                                src = next((v for v, bb in ins.a if bb == e.frm), None)
                                if src is None: raise Unsupported("phi edge")
                                vs.append(self.val(act, src, ins.ty))
                        out = vs[-1]
                        for v, r in reversed(list(zip(vs, rels))[:-1]): out = vite(r, v, out)
                        vals[ins.dst] = out
                    act.env.update(vals)
                edges, rv = self.exec_block(act, b, st, pc)
                rets += rv
            for e in edges:
                if any(is_false(c) for c in e.pc): continue
                if cur_loop is not None and e.to == cur_loop.header: backs.append(e)
                elif e.to in scope: incoming.setdefault(e.to, []).append(e)
                else: outs.append(e)
        return outs, backs, rets

    def phi_on_edge(self, act, e, to):
        """values of the phis of block `to` along edge e (evaluated now)"""
        out = {}
        for ins in act.fn.blocks[to].ins:
            if ins.op != "phi": break
            if e.phi is not None and ins.dst in e.phi: out[ins.dst] = e.phi[ins.dst]
            else:
                src = next((v for v, bb in ins.a if bb == e.frm), None)
                if src is not None: out[ins.dst] = self.val(act, src, ins.ty)
        return out

    def exec_block(self, act, b, st, pc):
        fn = act.fn
        for n, ins in enumerate(fn.blocks[b].ins):
            op = ins.op
            if op == "phi": continue
            self.cur_ins_id = "%s.%d" % (b, n)
            self.cur_line = ins.line
            if op == "br":
                if ins.a[0] is None: return [Edge(b, ins.a[1], pc, st)], []
                c = self.tobool(self.val(act, ins.a[0], I1))
                cs = z3.simplify(c)
                if is_true(cs): return [Edge(b, ins.a[1], pc, st)], []
                if is_false(cs): return [Edge(b, ins.a[2], pc, st)], []
                nc = tnot(c)
                if self.opts.get("prune", True):
                    if any(x.eq(c) for x in pc): return [Edge(b, ins.a[1], pc, st)], []
                    if any(x.eq(nc) for x in pc): return [Edge(b, ins.a[2], pc, st)], []
                    if self.prunable(c):
                        if self.quick(pc, nc, 200): return [Edge(b, ins.a[2], pc, st)], []
                        if self.quick(pc, c, 200): return [Edge(b, ins.a[1], pc, st)], []
                return [Edge(b, ins.a[1], pc + [c], st), Edge(b, ins.a[2], pc + [nc], st.copy())], []
            if op == "switch":
                v = self.as_int(self.val(act, ins.a[0], ins.ty))
                edges = []; nots = []
                for cv, lab in ins.a[2]:
                    c = v == IntVal(cv[1]) if cv[0] == "int" else v == IntVal(int(cv[1]))
                    edges.append(Edge(b, lab, pc + [z3.simplify(c)], st.copy())); nots.append(Not(c))
                edges.append(Edge(b, ins.a[1], pc + [z3.simplify(And(*nots)) if nots else TRUE], st.copy()))
                # several cases to one target: merge is done at the target
                return [e for e in edges if not is_false(e.pc[-1])], []
            if op == "ret":
                v = None if ins.a[0] is None else self.val(act, ins.a[0], ins.ty)
                return [], [(v, st, pc)]
            if op in ("unreachable", "resume"): return [], []
            if op in ("call", "invoke"):
                r, st, pc2 = self.exec_call(act, ins, st, pc)
                if st is None: return [], []
                pc = pc2
                if ins.dst is not None: act.env[ins.dst] = r
                if op == "invoke": return [Edge(b, ins.a[2], pc, st)], []
                continue
            act.env_set = ins.dst
            v = self.exec_ins(act, ins, st, pc)
            if ins.dst is not None: act.env[ins.dst] = v
        raise Unsupported("block without terminator")

    def prunable(self, c):
        return True

    def exec_ins(self, act, ins, st, pc):
        op = ins.op
        from irparse import BIN, CAST
        if op in BIN: return self.binop(ins, self.val(act, ins.a[0], ins.ty), self.val(act, ins.a[1], ins.ty), pc)
        if op == "fneg":
            a = self.val(act, ins.a[0], ins.ty); return FVal(-a.v if not is_num(a.v) else RealVal(-a.v.as_fraction()), a.ok) if isinstance(a, FVal) else a
        if op == "icmp": return self.icmp(ins.a[0], self.val(act, ins.a[1], ins.ty), self.val(act, ins.a[2], ins.ty), ins.ty, pc)
        if op == "fcmp": return self.fcmp(ins.a[0], self.val(act, ins.a[1], ins.ty), self.val(act, ins.a[2], ins.ty), pc)
        if op in CAST: return self.cast(ins, self.val(act, ins.a[1], ins.a[0]), pc)
        if op == "getelementptr": return self.gep(act, ins.ty, self.val(act, ins.a[0], Ty("ptr")), ins.a[1])
        if op == "load": return self.load(st, self.val(act, ins.a[0], Ty("ptr")), ins.ty, pc, "read line %s" % self.src_line(ins))
        if op == "store":
            v = self.val(act, ins.a[0], ins.ty)
            self.store(st, self.val(act, ins.a[1], Ty("ptr")), v, ins.ty, pc, "write line %s" % self.src_line(ins))
            return None
        if op == "alloca":
            key = (ins.dst,)
            r = act.allocas.get(key)
            if r is None:
                t = self.cur_mod.resolve(ins.ty)
                nm = "%s:%s" % (act.fn.name[-20:], ins.dst)
                cls = None
                if ins.ty.k == "named":
                    cls = re.sub(r"^(class|struct)\.", "", ins.ty.a)
                if t.k == "array": r = self.new_region(nm, ety=t.a, count=t.n, mod=self.cur_mod)
                else: r = self.new_region(nm, ety=ins.ty, count=1, mod=self.cur_mod, cls=cls)
                r.kind = "alloca"; r.bytes = None; r.boolean = False
                if ins.a[0] is not None and ins.a[0][1] != ("int", 1):
                    n = self.val(act, ins.a[0][1], ins.a[0][0])
                    r.single = False; r.count = n
                act.allocas[key] = r
            return Ptr.to(r)
        if op == "select":
            c = self.val(act, ins.a[0], I1)
            return vite(self.tobool(c), self.val(act, ins.a[1], ins.ty), self.val(act, ins.a[2], ins.ty))
        if op == "freeze": return self.val(act, ins.a[0], ins.ty)
        if op == "extractvalue":
            v = self.val(act, ins.a[0], ins.ty)
            if isinstance(v, Unknown): return v
            for i in ins.a[1]: v = v[i]
            return v
        if op == "insertvalue":
            v = self.val(act, ins.a[0], ins.ty); x = self.val(act, ins.a[2], ins.a[1])
            if isinstance(v, Unknown): v = self.undef(ins.ty)
            v = list(v); v[ins.a[3][0]] = x
            return v
        if op == "landingpad": return Unknown("landingpad")
        raise Unsupported("instruction " + op)

    def src_line(self, ins):
        l = self.cur_mod.line_of(ins.line)
        return l

    # ---------------------------------------------------------------- calls
    def exec_call(self, act, ins, st, pc):
        callee, cargs = ins.a[0], ins.a[1]
        if callee[0] == "asm": raise Unsupported("inline asm")
        args = [self.val(act, v, t) for t, v in cargs]
        if callee[0] == "global": name = callee[1]
        elif callee[0] == "reg":
            f = act.env.get(callee[1])
            if isinstance(f, FnPtr): name = f.name
            elif isinstance(f, VtFn):
                name = f.resolve(self)
            else: raise Unsupported("indirect call through %r" % (f,))
        else: raise Unsupported("callee %r" % (callee,))
        site = self.cur_ins_id
        r = self.dispatch(name, args, st, pc, ins)
        self.cur_ins_id = site
        if isinstance(r, tuple) and len(r) == 3: return r
        return r, st, pc

    def dispatch(self, name, args, st, pc, ins):
        import calls
        c = self.contracts.get(name)
        if c is not None:
            self.called[name] = self.called.get(name, 0) + 1
            return c(self, args, st, pc, ins)
        dem = self.prog.demangle(name).replace("[abi:cxx11]", "")
        for pre, c in self.prefix_contracts:
            if re.match(pre, dem):
                self.called[name] = self.called.get(name, 0) + 1
                m0 = self.cur_mod; r = c(self, args, st, pc, ins); self.cur_mod = m0
                return r
        h = calls.lookup(name, dem)
        if h is not None:
            return h(self, args, st, pc, ins, name, dem)
        if name in self.prog.where:
            if any(x == dem.split("(")[0] for x in self.fn_stack[-6:]) and self.fn_stack.count(dem.split("(")[0]) > 2:
                raise Unsupported("recursion in " + dem)
            self.inlined[dem] = self.inlined.get(dem, 0) + 1
            return self.call_function(name, args, st, pc)
        raise Unsupported("external function without contract: " + dem)

    # ---------------------------------------------------------------- loops
    def exec_loop(self, act, L, edges_in):
        fn = act.fn
        lname = "%s/%s" % (act.path, L.header)
        S0, pc0, rels = self.merge(edges_in)
        # initial phi values
        phis = [i for i in fn.blocks[L.header].ins if i.op == "phi"]
        init = {}
        for ins in phis:
            vs = []
            for e in edges_in:
                if e.phi is not None and ins.dst in e.phi: vs.append(e.phi[ins.dst])
                else:
                    src = next((v for v, bb in ins.a if bb == e.frm), None)
                    vs.append(self.val(act, src, ins.ty))
            out = vs[-1]
            for v, r in reversed(list(zip(vs, rels))[:-1]): out = vite(r, v, out)
            init[ins.dst] = out
        tn = "t!" + lname
        t = Int(tn) if True else None
        self.loopvars[aid(t)] = t
        self.loopstack.append(t)
        line = self.header_line(fn, L)
        tag = "loop at line %s" % line
        nw = len(self.writes)
        try:
            res = self.summarise(act, L, S0, pc0, phis, init, t, tag, lname)
        except NoIteration as e:
            # no iteration can take the back edge: the body runs at most once
            del self.writes[nw:]
            for ins in phis: act.env[ins.dst] = init[ins.dst]
            outs, backs = self.run_body(act, L, dict(init), S0.copy(), pc0)
            if backs: raise Unsupported(str(e))
            for q in outs: q.phi = self.phi_on_edge(act, q, q.to)
            res = outs
        finally:
            self.loopstack.pop()
        return res

    def header_line(self, fn, L):
        for ins in fn.blocks[L.header].ins:
            if ins.line is not None and ins.op != "phi":
                l = fn.mod.line_of(ins.line)
                if l: return l
        return "?"

    def sym_like(self, v, name):
        """fresh symbol(s) with the shape of v: (value, [components (sym, init)])"""
        if isinstance(v, FVal):
            s = self.fresh(RealSort(), name)
            comps = [("v", s, v.v)]
            k = self.fresh(BoolSort(), name + "!ok"); comps.append(("ok", k, v.ok))
            return FVal(s, k), comps
        if isinstance(v, Ptr):
            if len(v.alts) == 1 and v.alts[0][1] is not None:
                reg, keys, off = v.alts[0][1]
                s = self.fresh(IntSort(), name)
                es = 1
                if reg.ety is not None and reg.mod is not None and not reg.single:
                    es = reg.mod.sizeof(reg.ety)
                    if any(k % es for k in off.d.values()): es = 1
                if es > 1: return Ptr([(TRUE, (reg, keys, Poly.of(s) * es))]), [("off/%d" % es, s, Poly({k: v // es for k, v in off.d.items()}).z())]
                return Ptr([(TRUE, (reg, keys, Poly.of(s)))]), [("off", s, off.z())]
            return Unknown("pointer loop variable " + name), []
        if isinstance(v, z3.BoolRef):
            s = self.fresh(BoolSort(), name); return s, [("b", s, v)]
        if isinstance(v, z3.ArithRef) and v.is_int():
            s = self.fresh(IntSort(), name); return s, [("i", s, v)]
        if hasattr(v, "sym_like"): return v.sym_like(self, name)
        return Unknown("loop-carried value of unsupported kind: %s" % name), []

    def comp_of(self, v, which):
        if isinstance(v, Unknown): return None
        if which == "v": return v.v
        if which == "ok": return v.ok
        if which == "off":
            if isinstance(v, Ptr) and len(v.alts) == 1 and v.alts[0][1] is not None: return v.alts[0][1][2].z()
            return None
        if which.startswith("off/"):
            es = int(which[4:])
            if isinstance(v, Ptr) and len(v.alts) == 1 and v.alts[0][1] is not None:
                d = v.alts[0][1][2].d
                if not any(k % es for k in d.values()): return Poly({k: x // es for k, x in d.items()}).z()
            return None
        if which == "b" and not z3.is_bool(v): return None
        if which.startswith("x:"): return v.comp(which)
        return v

    def run_body(self, act, L, phivals, st, pc):
        for k, v in phivals.items(): act.env[k] = v
        outs, backs, rets = self.exec_scope(act, L.blocks, L.header, [Edge(None, L.header, list(pc), st)], cur_loop=L)
        if rets: raise Unsupported("return inside loop body scope")
        return outs, backs

    def summarise(self, act, L, S0, pc0, phis, init, t, tag, lname):
        pcb = pc0 + [t >= 0]
        # ---------- pass A: discover loop-carried state
        self.quiet += 1
        nobl = len(self.obls)
        items = {}        # key -> (symvalue, comps)
        for ins in phis:
            items[("phi", ins.dst)] = self.sym_like(init[ins.dst], "%s:%s" % (lname, ins.dst))
        changed = True
        rounds = 0
        try:
            while changed and rounds < 8:
                rounds += 1
                changed = False
                st = S0.copy()
                for (kind, key), (sv, comps) in items.items():
                    if kind == "scal": st.scal[key] = sv
                ph = {key: sv for (kind, key), (sv, comps) in items.items() if kind == "phi"}
                start_scal = dict(st.scal)
                start_arr = dict(st.arr)
                outs, backs = self.run_body(act, L, ph, st, pcb)
                if not backs:
                    # body never completes an iteration: execute it as straight line
                    break
                bst, bpc, brels = self.merge(backs)
                # discovering scalar cells modified
                for key, v in bst.scal.items():
                    if ("scal", key) in items: continue
                    s0 = start_scal.get(key)
                    if s0 is None: s0 = self.init.get(key)
                    if s0 is None:
                        if key[0].kind == "alloca": 
                            # first written inside the loop: loop-local unless read after; model as carried with unknown start
                            s0 = self.lazy_init(key, v)
                        else: s0 = self.lazy_init(key, v)
                    if v is s0 or veq_syn(v, s0): continue
                    items[("scal", key)] = self.sym_like(s0, "%s:%s.%s" % (lname, key[0].name, key[1]))
                    changed = True
        finally:
            self.quiet -= 1
        if not backs:
            # executes at most once: no iteration closes
            for ins in phis: act.env[ins.dst] = init[ins.dst]
            outs, backs = self.run_body(act, L, dict(init), S0.copy(), pc0)
            if backs: raise Unsupported("loop back edge feasibility")
            for e in outs:
                e.phi = self.phi_on_edge(act, e, e.to)
            return outs
        def nexts_of(backs_, bst_, rels_):
            out = {}
            for (kind, key), (sv, cs) in items.items():
                if kind == "phi":
                    ins = next(i for i in phis if i.dst == key)
                    vs = []
                    for e in backs_:
                        if e.phi is not None and key in e.phi: vs.append(e.phi[key])
                        else:
                            src = next(v for v, bb in ins.a if bb == e.frm)
                            vs.append(self.val(act, src, ins.ty))
                    nv = vs[-1]
                    for v, r in reversed(list(zip(vs, rels_))[:-1]): nv = vite(r, v, nv)
                else:
                    nv = bst_.scal.get(key)
                out[(kind, key)] = nv
            return out

        def comps_of(nexts, csub=()):
            comps = []
            for (kind, key), (sv, cs) in items.items():
                nv = nexts[(kind, key)]
                for which, sym, i0 in cs:
                    comps.append([(kind, key), which, sym, i0, self.comp_of(nv, which) if nv is not None else None])
            return comps

        def start_with(csub):
            st = S0.copy(); vals = {}
            for (kind, key), (sv, cs) in items.items():
                v = vsubst(sv, csub) if not isinstance(sv, Unknown) else sv
                if kind == "scal": st.scal[key] = v
                else: vals[key] = v
            return st, vals
        comps = comps_of(nexts_of(backs, bst, brels))
        if self.opts.get("debug"):
            print("LOOP", tag, lname)
            for c in comps: print("   comp", c[0], c[1], c[2], "init", c[3], "next", c[4])
        # stage 1: invariant cells and induction variables; stage 2: the rest, with those substituted
        closed = {}; loopinv = None
        self.close_forms(comps, t, lname, tag, pc0, None, closed, easy=True)
        open_ = [c for c in comps if aid(c[2]) not in closed]
        csub = [x for x in closed.values()]
        self.quiet += 1
        try:
            st, ph = start_with(csub)
            start_arr = dict(st.arr)
            outs, backs = self.run_body(act, L, ph, st, pcb)
            if not backs: raise NoIteration("loop summary: back edge vanished (%s)" % tag)
            bst, bpc, brels = self.merge(backs)
            comps2 = comps_of(nexts_of(backs, bst, brels))
            if open_:
                loopinv, bound = self.find_invariant(items, comps2, closed, csub, t, pcb, [c for c in bpc[len(pcb):]] if len(bpc) >= len(pcb) else [], init, S0)
                self.forced_havoc = {aid(c[2]) for c in comps2 if c[0] in bound}
                self.close_forms([c for c in comps2 if aid(c[2]) not in closed], t, lname, tag, pc0, None, closed, easy=False)
                csub = [x for x in closed.values()]
                if loopinv is not None: pcb = pcb + loopinv(self.inv_vals(items, csub, init, S0), t)
                st, ph = start_with(csub)
                start_arr = dict(st.arr)
                outs, backs = self.run_body(act, L, ph, st, pcb)
                if not backs: raise NoIteration("loop summary: back edge vanished (%s)" % tag)
                bst, bpc, brels = self.merge(backs)
        finally: self.quiet -= 1
        comps = [c1 if self.closed_stage.get(aid(c1[2])) == 1 else c2 for c1, c2 in zip(comps, comps2)]
        backrel = tand(*bpc[len(pcb):]) if len(bpc) >= len(pcb) else TRUE
        # ---------- lift array writes
        lifts = {}
        havocs = set()
        for key, c in bst.arr.items():
            s0 = start_arr.get(key)
            if s0 is None: s0 = self.initc.get(key) or self.guess_initc(key, c)
            if c is s0: continue
            d = content_delta(c, s0)
            if d is None:
                havocs.add(key); continue
            lifts[key] = (s0, [Rec(r.vars, tand(backrel, r.guard), r.idx, r.val, r.inj, r.tag) for r in d])
        # ---------- check the lifts: distinct iterations write distinct cells
        Tprev = Int("t'!" + lname)
        self.loopvars[aid(Tprev)] = Tprev
        self.alias[aid(Tprev)] = t
        self.inst(t, Tprev)
        Larr = {}
        for key, (s0, recs) in lifts.items():
            lr = []
            fail = False
            for r in recs:
                dep = any(contains(i, t) for i in r.idx)
                if dep: lr.append(("each", r)); continue
                # index independent of the iteration.  Every iteration writes: the last one wins; only iteration c writes (guard t == c): that one does
                B = {aid(b) for b in prover_conj(backrel)}
                cond = [g for g in prover_conj(r.guard) if aid(g) not in B and contains(g, t)]
                at = None
                for g in cond:
                    if z3.is_eq(g) and z3.is_int(g.children()[0]):
                        cs = (Poly.of(g.children()[0]) - Poly.of(g.children()[1])).coef_split(t)
                        if cs is not None and cs[0].is_const() and cs[0].c() in (1, -1): at = cs[1].scale(-cs[0].c()).z(); break
                if not cond: lr.append(("last", r))
                elif at is not None and not any(contains(at, v) for v in r.vars): lr.append((("at", at), r))
                else: lr.append(("each", r))
            Larr[key] = (s0, lr)

        def lifted(key, upto):
            s0, lr = Larr[key]
            c = s0
            for kind, r in lr:
                if kind == "each":
                    tp = Int("t'!" + lname)
                    rr = r.vsubst([(t, tp)])
                    c = c.add(Rec((tp,) + rr.vars, tand(tp >= 0, tp < upto, rr.guard), rr.idx, rr.val, rr.inj, rr.tag))
                elif isinstance(kind, tuple):
                    rr = r.vsubst([(t, kind[1])])
                    self.inst(t, norm_int(kind[1]))
                    c = c.add(Rec(rr.vars, tand(kind[1] >= 0, kind[1] < upto, rr.guard), rr.idx, rr.val, rr.inj, rr.tag))
                else:
                    rr = r.vsubst([(t, upto - 1)])
                    self.inst(t, norm_int(upto - 1))
                    c = c.add(Rec(rr.vars, tand(upto > 0, rr.guard), rr.idx, rr.val, rr.inj, rr.tag))
            return c
        # values stored may be read from cells written by earlier iterations: recompute the records from the lifted state
        def lifted_state():
            st = S0.copy(); vals = {}
            for (kind, key), (sv, cs) in items.items():
                v = vsubst(sv, csub) if not isinstance(sv, Unknown) else sv
                if kind == "scal": st.scal[key] = v
                else: vals[key] = v
            for key in Larr: st.arr[key] = lifted(key, t)
            for key in havocs: st.arr[key] = Content(("uf", "prehavoc:" + key[0].name, self.content_kind(bst.arr[key]), (t,)))
            return st, vals
        if Larr:
            self.quiet += 1
            try:
                for _ in range(2):
                    st, ph = lifted_state()
                    base = {k: st.arr[k] for k in Larr}
                    outs, backs = self.run_body(act, L, ph, st, pcb)
                    if not backs: break
                    b2, bp2, _r = self.merge(backs)
                    br2 = tand(*bp2[len(pcb):]) if len(bp2) >= len(pcb) else TRUE
                    changed = False
                    for key in Larr:
                        d = content_delta(b2.arr[key], base[key]) if key in b2.arr else None
                        s0, lr = Larr[key]
                        if d is None or len(d) != len(lr): continue
                        nl = []
                        for (kd, r0), r1 in zip(lr, d):
                            r1 = Rec(r1.vars, tand(br2, r1.guard), r1.idx, r1.val, r1.inj, r1.tag)
                            ok = len(r0.vars) == len(r1.vars) and all(a.eq(b) for a, b in zip(r0.vars, r1.vars))
                            if ok and not veq_syn(r0.val, r1.val): changed = True; nl.append((kd, Rec(r0.vars, r0.guard, r0.idx, r1.val, r0.inj, r0.tag)))
                            else: nl.append((kd, r0))
                        Larr[key] = (s0, nl)
                    if not changed: break
            finally: self.quiet -= 1
        # injectivity obligations
        injchecks = []
        for key, (s0, lr) in Larr.items():
            for a in range(len(lr)):
                for b in range(a, len(lr)):
                    ka, kb = lr[a][0], lr[b][0]
                    if kb == "last": continue      # overwritten by the last iteration, which comes later in program order
                    if a == b and ka != "each": continue
                    injchecks.append((key, lr[a][1], lr[b][1], a == b))
        # ---------- pass B
        def state_at(tt_sub):
            st = S0.copy()
            vals = {}
            for (kind, key), (sv, cs) in items.items():
                v = vsubst(sv, csub) if not isinstance(sv, Unknown) else sv
                if kind == "scal": st.scal[key] = v
                else: vals[key] = v
            for key in Larr: st.arr[key] = lifted(key, t)
            for key in havocs: st.arr[key] = Content(("uf", self.uname("havoc:" + key[0].name), self.content_kind(bst.arr[key]), (t,)))
            return st, vals
        self.quiet += 0
        stB, phB = state_at(None)
        outs, backs = self.run_body(act, L, phB, stB, pcb)
        for e in outs: e.phi = self.phi_on_edge(act, e, e.to)
        if not backs: raise NoIteration("loop summary: back edge vanished (%s)" % tag)
        bstB, bpcB, brelsB = self.merge(backs)
        # inductive step checks
        nextvals = {}
        for (kind, key), (sv, cs) in items.items():
            if kind == "phi":
                ins = next(i for i in phis if i.dst == key)
                vs = []
                for e in backs:
                    if e.phi is not None and key in e.phi: vs.append(e.phi[key])
                    else: vs.append(self.val(act, next(v for v, bb in ins.a if bb == e.frm), ins.ty))
                nv = vs[-1]
                for v, r in reversed(list(zip(vs, brelsB))[:-1]): nv = vite(r, v, nv)
            else: nv = bstB.scal.get(key)
            nextvals[(kind, key)] = nv
            for which, sym, i0 in cs:
                ent = closed.get(aid(sym))
                nA = next(c[4] for c in comps if c[2].eq(sym))
                if ent is None or nA is None: continue
                if self.closed_kind[aid(sym)] == "havoc": continue
                got = self.comp_of(nv, which)
                want = substitute(nA, *csub)
                if got is None: self.oblig("%s: summary of %s inductive" % (tag, key), FALSE, bpcB, "loop")
                elif got.eq(want) or z3.simplify(got).eq(z3.simplify(want)): self.oblig("%s: summary of %s inductive" % (tag, self.keyname(key)), TRUE, bpcB, "loop")
                else: self.oblig("%s: summary of %s inductive" % (tag, self.keyname(key)), got == want, bpcB, "loop")
        if loopinv is not None:
            for f in loopinv(self.inv_vals(items, csub, init, S0, "init"), IntVal(0)): self.oblig("%s: invariant holds on entry" % tag, f, pc0, "loop")
            for f in loopinv(nextvals, norm_int(t + 1)): self.oblig("%s: invariant preserved" % tag, f, bpcB, "loop")
        for key, c in bstB.arr.items():
            if key in havocs: continue
            if key not in Larr:
                s0 = S0.arr.get(key) or self.initc.get(key)
                if s0 is not None and c is not s0: self.oblig("%s: unexpected write to %s" % (tag, key[0].name), FALSE, bpcB, "loop")
                continue
            d = content_delta(c, stB.arr[key])
            recsA = [r for k, r in Larr[key][1]]
            if d is None or len(d) != len(recsA):
                self.oblig("%s: writes to %s follow the summary" % (tag, key[0].name), FALSE, bpcB, "loop"); continue
            for rb, ra in zip(d, recsA):
                self.rec_equal(rb, ra, key, tag, bpcB)
        for key, ra, rb, same in injchecks: self.check_inj(key, ra, rb, same, t, Tprev, tag, pc0)
        # ---------- trip count and exit states
        T = self.trip(outs, backs, t, pcb, bpcB, lname, pc0)
        self.inst(t, T)
        self.inst(t, norm_int(T - 1))
        res = []
        for e in outs:
            sub = [(t, T)]
            pc = pc0 + [c for c in [z3.simplify(substitute(x, *sub)) for x in e.pc[len(pc0):]] if not is_true(c)]
            st = State()
            for k, v in e.state.scal.items():
                st.scal[k] = vsubst(v, sub) if (k not in S0.scal or S0.scal[k] is not v) else v
            for k, c in e.state.arr.items():
                if k in S0.arr and S0.arr[k] is c: st.arr[k] = c
                else: st.arr[k] = c.vsubst(sub)
            phi = {k: vsubst(v, sub) for k, v in (e.phi or {}).items()}
            res.append(Edge(e.frm, e.to, pc, st, phi))
        self.trace_loops.append((tag, self.fn_stack[-1], str(T)[:80], [self.keyname(k[1]) + ":" + self.closed_kind.get(aid(c[2]), "?") for k, (sv, cs) in items.items() for c in [(0, 0, x[1]) for x in cs]]))
        return res

    def inv_vals(self, items, csub, init, S0, at="t"):
        out = {}
        for (kind, key), (sv, cs) in items.items():
            if at == "init": out[(kind, key)] = init[key] if kind == "phi" else (S0.scal.get(key) if S0.scal.get(key) is not None else self.init.get(key))
            else: out[(kind, key)] = vsubst(sv, csub) if not isinstance(sv, Unknown) else sv
        return out

    def find_invariant(self, items, comps, closed, csub, t, pcb, brel, init, S0):
        """contract-supplied invariant over the loop-carried values without a closed form.  self.invariants: (function regex, roles, fn) with
        roles = [(role, sort)] and fn(dict role -> value, t) -> [formula].  Which value plays which role is searched for (names first); the
        invariant itself is proved like every other obligation (holds on entry, preserved by the body)"""
        import itertools, prover
        keys = [k for k, (sv, cs) in items.items() if any(aid(c[1]) not in closed for c in cs)]
        srt = lambda v: "real" if isinstance(v, FVal) else "int" if z3.is_expr(v) and z3.is_int(v) else "?"
        for rx, roles, fn in self.invariants:
            if not re.search(rx, self.fn_stack[-1]): continue
            cand = [[k for k in keys if srt(items[k][0]) == so] for r, so in roles]
            if any(not c for c in cand): continue
            def by_name(k, r): return re.sub(r"[.\d]*$", "", self.keyname(k[1]).split(":")[-1].lstrip("%")) == r
            mp = {r: next((k for k in c if by_name(k, r)), None) for (r, so), c in zip(roles, cand)}
            if all(v is not None for v in mp.values()): return self.bind_inv(fn, mp), set(mp.values())
            vals = self.inv_vals(items, csub, init, S0); nx = {}
            for c in comps: nx.setdefault(c[0], {})[c[1]] = substitute(c[4], *csub) if c[4] is not None else None
            nxt = {}
            for k in keys:
                if isinstance(items[k][0], FVal): nxt[k] = FVal(nx[k].get("v") if nx[k].get("v") is not None else vals[k].v, nx[k].get("ok") if nx[k].get("ok") is not None else vals[k].ok)
                else: nxt[k] = list(nx[k].values())[0]
            good = []
            for perm in itertools.product(*cand):
                if len(set(perm)) < len(perm): continue
                mp = {r: k for (r, so), k in zip(roles, perm)}
                b = self.bind_inv(fn, mp)
                I = b(vals, t); J = b(nxt, norm_int(t + 1))
                hyps = pcb + I + brel
                facts = self.relevant(hyps + J, [e for e, lv in self.facts])
                lem = prover.Lemmas(self).close(hyps + J, rounds=1, terms=[])
                g = prover.ground_lemmas(self, hyps + J + facts + lem, set())
                worst = z3.unsat
                for j in J:
                    s = z3.Solver(); s.set("timeout", 400)
                    for x in hyps + facts + lem + g: s.add(x)
                    s.add(Not(j)); r = s.check()
                    if r != z3.unsat: worst = r
                    if r == z3.sat: break
                if worst == z3.unsat: return b, set(perm)
                if worst == z3.unknown: good.append((b, set(perm)))
            if good: return good[0]
        return None, set()

    def bind_inv(self, fn, mp):
        return lambda vals, t: [f for f in fn({r: vals[k] for r, k in mp.items()}, t) if not is_true(f)]

    def keyname(self, key):
        if isinstance(key, tuple): return "%s.%s" % (key[0].name, self.field_name(key[0], key[1]) if key[0].cls else key[1])
        return str(key)

    def content_kind(self, c):
        while c.base[0] == "merge": c = c.base[1][0][1]
        if c.base[0] == "uf": return c.base[2]
        if c.base[0] == "const":
            v = c.base[1]
            return "f" if isinstance(v, FVal) else "i64"
        raise Unsupported("havoc of pointer array")

    def multi_subst(self, r, csub):
        return r.vsubst(csub) if csub else r

    def rec_equal(self, rb, ra, key, tag, pc):
        nm = "%s: writes to %s follow the summary" % (tag, key[0].name)
        goals = []
        # bring vars in line
        if len(rb.vars) != len(ra.vars): return self.oblig(nm, FALSE, pc, "loop")
        if rb.vars:
            pairs = [(b, a) for b, a in zip(rb.vars, ra.vars) if not a.eq(b)]
            rb = Rec(ra.vars, substitute(rb.guard, *pairs), tuple(substitute(i, *pairs) for i in rb.idx), vsubst(rb.val, pairs)) if pairs else rb
        for x, y in zip(rb.idx, ra.idx):
            if not (Poly.of(x) == Poly.of(y)): goals.append(x == y)
        if not veq_syn(rb.val, ra.val):
            if isinstance(rb.val, FVal): goals.append(rb.val.v == ra.val.v); goals.append(rb.val.ok == ra.val.ok) if not rb.val.ok.eq(ra.val.ok) else None
            elif isinstance(rb.val, z3.ExprRef): goals.append(rb.val == ra.val)
            elif isinstance(rb.val, Ptr) and isinstance(ra.val, Ptr): goals.append(ptr_eq(rb.val, ra.val))
            else: goals.append(FALSE)
        g = tand(*goals)
        self.oblig(nm, Implies(rb.guard, g) if not is_true(g) else TRUE, pc, "loop")

    def check_inj(self, key, ra, rb, same, t, t2, tag, pc0):
        """different iterations write different cells"""
        nm = "%s: iterations write disjoint cells of %s" % (tag, key[0].name)
        if not ra.vars and not rb.vars and not self.val_mentions(ra.val, t) and not self.val_mentions(rb.val, t) and veq_syn(ra.val, rb.val):
            self.oblig(nm + " (or the same value)", TRUE, pc0, "loop")
            return
        sub = [(t, t2)]
        ren = []
        for v in rb.vars:
            w = Int(str(v) + "''"); self.loopvars[aid(w)] = w
            self.alias[aid(w)] = v; self.inst(v, w)
            ren.append((v, w))
        rb2 = rb.vsubst(sub)
        if ren: rb2 = Rec([w for v, w in ren], substitute(rb2.guard, *ren), tuple(substitute(i, *ren) for i in rb2.idx), rb2.val)
        for a, b in zip(ra.vars, [w for _, w in ren]): self.inst(a, b)
        # trivial: some index component is t + (t-free) in both with equal rest
        if same:
            for i in ra.idx:
                cs = Poly.of(i).coef_split(t)
                if cs is not None and cs[0].is_const() and cs[0].c() != 0 and not any(contains(_kz(x), v) for x in atoms_of(cs[1]) for v in ra.vars):
                    self.oblig(nm, TRUE, pc0, "loop")
                    return
        eq = tand(*[x == y for x, y in zip(ra.idx, rb2.idx)])
        self.inst(t, t2)
        goal = Implies(And(t >= 0, t2 >= 0, ra.guard, rb2.guard, eq), t == t2)
        self.oblig(nm, goal, pc0, "loop")

    # -- closed forms of loop-carried scalars
    def close_forms(self, comps, t, lname, tag, pc0, backrel, closed, easy):
        before = set(closed)
        if not easy:
            for c in comps:
                if aid(c[2]) in self.forced_havoc: self.havoc_comp(c, t, tag, closed)
                elif self.opts.get("havoc") and c[0][0] == "scal" and c[0][1][0].kind == "alloca" and re.search(self.opts["havoc"], c[0][1][0].name): self.havoc_comp(c, t, tag, closed)
            comps = [c for c in comps if aid(c[2]) not in closed]
        try: return self.close_forms_(comps, t, lname, tag, pc0, backrel, closed, easy)
        finally:
            for k in closed:
                if k not in before: self.closed_stage[k] = 1 if easy else 2

    def close_forms_(self, comps, t, lname, tag, pc0, backrel, closed, easy):
        todo = [c for c in comps]
        # 1. loop-invariant cells (maximal set with next[C:=init] == init)
        C = [c for c in todo if c[4] is not None]
        while True:
            sub = [(c[2], c[3]) for c in C]
            bad = []
            for c in C:
                e = z3.simplify(substitute(c[4], *sub)) if sub else c[4]
                i0 = z3.simplify(c[3]) 
                if e.eq(i0): continue
                if z3.is_bool(c[3]):
                    # an "is finite" flag: next must be implied
                    if not is_true(i0) and not is_false(i0): 
                        if self.quick([], e == c[3], 150): continue
                        bad.append(c); continue
                if contains_any(e, t) is False or True:
                    if z3.is_bool(e) or not self.quick(pc0[-8:], e == c[3], 150): bad.append(c)
            if not bad: break
            C = [c for c in C if c not in bad]
        for c in C:
            closed[aid(c[2])] = (c[2], c[3]); self.closed_kind[aid(c[2])] = "const"
        todo = [c for c in todo if c not in C]
        progress = True
        while todo and progress:
            progress = False
            sub = [x for x in closed.values()]
            open_syms = [c[2] for c in todo]
            for c in list(todo):
                key, which, sym, i0, nx = c
                if nx is None: continue
                e = substitute(nx, *sub) if sub else nx
                others = [s for s in open_syms if not s.eq(sym)]
                if any(self.mentions(e, s) for s in others): continue
                cf = kind = None
                if easy and not z3.is_int(sym): continue
                if not self.mentions(e, sym):
                    if easy: continue
                    # value of the previous iteration
                    prev = substitute(e, (t, t - 1))
                    self.inst(t, norm_int(t - 1))
                    cf = ite(t <= 0, i0, prev) if not (z3.is_const(i0) and str(i0).startswith("undef!")) else prev
                    kind = "last"
                elif z3.is_bool(sym):
                    cf, kind = self.close_bool(e, sym, i0, t, lname)
                else:
                    zero = RealVal(0) if z3.is_real(sym) else IntVal(0)
                    d = None
                    if z3.is_int(sym):
                        dp = Poly.of(e) - Poly.of(sym)
                        if not any(self.mentions(_kz(i), sym) for i in atoms_of(dp)): d = dp.z()
                    if d is None:
                        d0 = z3.simplify(substitute(e, (sym, zero)))
                        s = z3.Solver(); s.set("timeout", 2000); s.add(e != sym + d0)
                        if s.check() == z3.unsat: d = self.push_zero(e, sym)
                    if d is not None:
                        if z3.is_int(sym) and not self.varies(d, t):
                            cf = (Poly.of(i0) + Poly.of(d) * Poly.of(t)).z(); kind = "iv"
                        elif z3.is_real(sym) and not self.varies(d, t):
                            cf = i0 + d * ToReal(t); kind = "iv"
                        elif easy: continue
                        else:
                            sm = self.sum_node("SUM", d, t, t)
                            cf = sm if z3.is_rational_value(i0) and z3.is_real(sym) and i0.as_fraction() == 0 else ((Poly.of(i0) + Poly.of(sm)).z() if z3.is_int(sym) else i0 + sm); kind = "sum"
                    elif not easy:
                        r = self.close_flag(e, sym, i0, t)
                        if r is not None: cf, kind = r
                if cf is None: continue
                closed[aid(sym)] = (sym, cf); self.closed_kind[aid(sym)] = kind
                todo.remove(c); progress = True
                sub = [x for x in closed.values()]
                open_syms = [c[2] for c in todo]
        if easy: return closed
        # primitive recursion on the iteration number
        progress = True
        while todo and progress:
            progress = False
            for c in list(todo):
                key, which, sym, i0, nx = c
                if nx is None or not self.mentions(nx, sym): continue
                sub = [x for x in closed.values()]
                e = substitute(nx, *sub) if sub else nx
                if any(self.mentions(e, o[2]) for o in todo if not o[2].eq(sym)): continue
                closed[aid(sym)] = (sym, self.rec_node(e, sym, i0, t, t)); self.closed_kind[aid(sym)] = "rec"
                todo.remove(c); progress = True
        for c in todo:
            self.havoc_comp(c, t, tag, closed)
            self.unsummarised.append("%s: %s %s" % (tag, self.keyname(c[0][1]), c[1]))
        return closed

    def havoc_comp(self, c, t, tag, closed):
        key, which, sym, i0, nx = c
        self.closed_kind[aid(sym)] = "havoc"
        hv = self.fresh(sym.sort(), "hv:%s" % str(sym.decl().name()))
        self.fact(Implies(t == 0, hv == i0))
        if z3.is_int(sym): self.fact(And(hv >= -(1 << 63), hv < (1 << 63)))
        closed[aid(sym)] = (sym, hv)

    def push_zero(self, e, sym):
        """e == sym + d: extract d structurally where possible (keeps ite structure)"""
        if e.eq(sym): return RealVal(0) if z3.is_real(sym) else IntVal(0)
        if z3.is_app(e):
            k = e.decl().kind(); ch = e.children()
            if k == z3.Z3_OP_ITE: return ite(ch[0], self.push_zero(ch[1], sym), self.push_zero(ch[2], sym))
            if k == z3.Z3_OP_ADD:
                w = [c for c in ch if self.mentions(c, sym)]
                if len(w) == 1:
                    d = self.push_zero(w[0], sym)
                    r = None
                    for c in ch:
                        x = d if c.eq(w[0]) else c
                        if is_num(x) and (x.as_long() if z3.is_int_value(x) else x.as_fraction()) == 0: continue
                        r = x if r is None else r + x
                    return r if r is not None else (RealVal(0) if z3.is_real(sym) else IntVal(0))
            if k == z3.Z3_OP_SUB and self.mentions(ch[0], sym) and not any(self.mentions(c, sym) for c in ch[1:]):
                d = self.push_zero(ch[0], sym)
                for c in ch[1:]: d = self.rsub(d, c)
                return d
        return z3.simplify(substitute(e, (sym, RealVal(0) if z3.is_real(sym) else IntVal(0))))

    def mentions(self, e, sym):
        if z3.is_const(sym): return contains(e, sym)
        # sym is f(t..): search by application
        st = [e]; seen = set()
        sid = aid(sym)
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if x.get_id() == sid: return True
            st += x.children()
        return False

    def varies(self, e, t):
        return contains(e, t)

    def close_bool(self, e, sym, i0, t, lname):
        e1 = z3.simplify(substitute(e, (sym, TRUE))); e0 = z3.simplify(substitute(e, (sym, FALSE)))
        # conjunction: next == sym & b
        if is_false(e0) or self.quick([], Not(e0), 100):
            if not self.varies(e1, t): return ite(t <= 0, i0, tand(i0, e1)), "and"
            return tand(i0, self.sum_node("ALL", e1, t, t)), "all"
        if is_true(e1) or self.quick([], e1, 100):
            if not self.varies(e0, t): return ite(t <= 0, i0, tor(i0, e0)), "or"
            return tor(i0, self.ex_node(e0, t)), "exists"
        return None, None

    def ex_node(self, body, t):
        n = self.sum_node("EX", body, t, t)
        return n

    def close_flag(self, e, sym, i0, t):
        """next == If(c, K, sym) with constant K"""
        leaves = []
        def rec(x, conds):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                c, a, b = x.children()
                if self.mentions(c, sym): raise Unsupported("x")
                rec(a, conds + [c]); rec(b, conds + [tnot(c)])
            else: leaves.append((tand(*conds), x))
        try: rec(e, [])
        except Unsupported: return None
        K = None; cs = []
        for c, x in leaves:
            if x.eq(sym): continue
            if self.mentions(x, sym): return None
            if self.varies(x, t): return None
            if K is None: K = x
            elif not K.eq(x): return None
            cs.append(c)
        if K is None: return None
        return ite(self.ex_node(tor(*cs), t), K, i0), "flag"

    # -- SUM / ALL / EX nodes over [0,hi)
    def sum_node(self, kind, body, var, hi):
        kap = Int("kappa!") if not z3.is_real(var) else None
        depth = 0
        # choose a kappa not occurring in body (nested sums are applications, so one bound variable suffices)
        b = substitute(body, (var, kap))
        caps = [self.loopvars[i] for i in sorted(free_consts(b)) if i in self.loopvars]
        caps.sort(key=lambda c: str(c))
        ph = [Int("cap!%d" % i) for i in range(len(caps))]
        b = substitute(b, *list(zip(caps, ph))) if caps else b
        b = z3.simplify(b) if kind != "SUM" or z3.is_int(b) else b
        if kind == "SUM" and z3.is_int(b): b = norm_int(b)
        key = (kind, aid(b), z3.is_real(b))
        ent = self.sumkeys.get(key)
        if ent is None:
            name = "%s!%d" % (kind, len(self.sumkeys))
            rs = BoolSort() if kind in ("ALL", "EX") else (RealSort() if z3.is_real(b) else IntSort())
            f = Function(name, *([IntSort()] * (1 + len(caps)) + [rs]))
            ent = dict(kind=kind, f=f, kappa=kap, ph=ph, body=b, name=name)
            self.sumkeys[key] = ent; self.sums[name] = ent
        return ent["f"](hi, *caps)

    def rec_node(self, body, acc, init, var, hi):
        """value after hi steps of acc := body(var, acc), starting from init at var = 0"""
        kap = Int("kappa!"); av = z3.Const("acc!%s" % acc.sort().name(), acc.sort())
        b = substitute(substitute(body, (acc, av)), (var, kap))
        caps = [self.loopvars[i] for i in sorted(free_consts(b) | free_consts(init)) if i in self.loopvars]
        caps.sort(key=lambda c: str(c))
        ph = [Int("cap!%d" % i) for i in range(len(caps))]
        prs = list(zip(caps, ph))
        b = substitute(b, *prs) if prs else b
        i0 = substitute(init, *prs) if prs else init
        key = ("REC", aid(b), aid(i0))
        ent = self.sumkeys.get(key)
        if ent is None:
            name = "REC!%d" % len(self.sumkeys)
            f = Function(name, *([IntSort()] * (1 + len(caps)) + [acc.sort()]))
            ent = dict(kind="REC", f=f, kappa=kap, acc=av, init=i0, ph=ph, body=b, name=name)
            self.sumkeys[key] = ent; self.sums[name] = ent
        return ent["f"](hi, *caps)

    def REC(self, init, body_fn, hi):
        """spec-level recursion: body_fn(k, previous)"""
        self.specdepth = getattr(self, "specdepth", 0) + 1
        k = Int("speck!%d" % self.specdepth); a = z3.Const("specacc!%d%s" % (self.specdepth, init.sort().name()), init.sort())
        self.loopvars[aid(k)] = k
        try: return self.rec_node(body_fn(k, a), a, init, k, hi if z3.is_expr(hi) else IntVal(hi))
        finally: self.specdepth -= 1

    def SUM(self, body_fn, hi, caps=()):
        """spec-level sum over 0 <= k < hi of body_fn(k) (Real or Int)"""
        for c in caps: self.loopvars[aid(c)] = c
        return self.spec_node("SUM", body_fn, hi)

    def spec_node(self, kind, body_fn, hi):
        self.specdepth = getattr(self, "specdepth", 0) + 1
        k = Int("speck!%d" % self.specdepth)
        self.loopvars[aid(k)] = k
        try: return self.sum_node(kind, body_fn(k), k, hi if z3.is_expr(hi) else IntVal(hi))
        finally: self.specdepth -= 1

    def ALL(self, body_fn, hi): return self.spec_node("ALL", body_fn, hi)
    def EX(self, body_fn, hi): return self.spec_node("EX", body_fn, hi)

    # -- trip count
    def trip(self, outs, backs, t, pcb, bpc, lname, pc0):
        exits = [tand(*e.pc[len(pcb):]) for e in outs]
        if not outs: raise Unsupported("loop without exit")
        if len(outs) == 1:
            T = self.linear_trip(exits[0], t, pc0)
            if T is not None: 
                return T
        outer = self.loopstack[:-1]
        nm = "T!" + lname
        T = self.uff(nm, *([IntSort()] * (len(outer) + 1)))(*outer) if outer else Int(nm)
        self.fact(T >= 0)
        conds = []
        for x in exits:
            conds.append(substitute(x, (t, T)))
        self.fact(Implies(tand(*pc0), Or(*conds)) if pc0 else Or(*conds))
        for e, x in zip(outs, exits):
            lits = [l for l in e.pc[len(pcb):]]
            if len(lits) == 1:
                TH = self.linear_trip(lits[0], t, pc0)
                if TH is not None:
                    self.fact(T <= TH)
                    self.fact(Implies(And(*([substitute(x, (t, T))] )), T == TH))
        back = tand(*bpc[len(pcb):])
        self.fact(Implies(And(t >= 0, t < T), back))
        return T

    def linear_trip(self, exitc, t, pc0):
        """exit condition as Not(A - B*t > 0) -> T"""
        c = exitc
        neg = False
        while z3.is_not(c): c = c.children()[0]; neg = not neg
        if not z3.is_app(c): return None
        k = c.decl().kind()
        ch = c.children()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_int(ch[0]):
            a, b = Poly.of(ch[0]), Poly.of(ch[1])
            op = {z3.Z3_OP_LE: "le", z3.Z3_OP_LT: "lt", z3.Z3_OP_GE: "ge", z3.Z3_OP_GT: "gt"}[k]
            if not neg:   # exit when c true: stay = not c
                op = {"le": "gt", "lt": "ge", "ge": "lt", "gt": "le"}[op]
            # stay: a op b  ->  D > 0
            D = {"lt": b - a, "le": b - a + 1, "gt": a - b, "ge": a - b + 1}[op]
            cs = D.coef_split(t)
            if cs is None or not cs[0].is_const(): return None
            B = -cs[0].c(); A = cs[1]
            if B <= 0: return None
            g = 0
            if B == 1: n = A.z()
            else:
                # ceil(A/B); exact division when possible
                if all(v % B == 0 for v in A.d.values()): n = Poly({k: v // B for k, v in A.d.items()}).z()
                else: n = (A + (B - 1)).z() / IntVal(B)
            s = z3.simplify(n)
            if z3.is_int_value(s): return IntVal(max(0, s.as_long()))
            if self.quick(pc0, n >= 0, 150): return n
            return If(n > 0, n, IntVal(0))
        if k == z3.Z3_OP_EQ or k == z3.Z3_OP_DISTINCT:
            if not z3.is_int(ch[0]): return None
            eq = (k == z3.Z3_OP_EQ) != neg
            if not eq: return None     # exits when different: not a counting loop
            D = Poly.of(ch[1]) - Poly.of(ch[0])
            cs = D.coef_split(t)
            if cs is None or not cs[0].is_const(): return None
            B = -cs[0].c(); A = cs[1]
            if B < 0: A = A.scale(-1); B = -B
            if B == 0: return None
            if all(v % B == 0 for v in A.d.values()):
                n = Poly({k: v // B for k, v in A.d.items()}).z()
                self.oblig("loop counter reaches its end value", n >= 0, pc0, "loop")
                return n
        return None


def atoms_of(p):
    s = set()
    for k in p.d: s |= set(k)
    return s


from terms import _keep


def _kz(i): return _keep[i]


def contains_any(e, t): return contains(e, t)


class VtPtr:
    def __init__(self, reg, keys): self.reg = reg; self.keys = keys
    opaque = True


class VtSlot:
    def __init__(self, p, slot): self.p = p; self.slot = slot
    opaque = True


class VtFn:
    opaque = True

    def __init__(self, p, slot): self.p = p; self.slot = slot

    def resolve(self, ex):
        cls = self.p.reg.cls
        for m in [self.p.reg.mod] + ex.prog.mods:
            if m is None: continue
            n = m.virtual_slot(cls, self.slot)
            if n: return n
        raise Unsupported("virtual slot %d of %s" % (self.slot, cls))


_load0 = Executor.load


def _load(self, state, p, ty, pc, what="load"):
    if isinstance(p, VtPtr): return VtFn(p, 0)
    if isinstance(p, VtSlot): return VtFn(p.p, p.slot)
    return _load0(self, state, p, ty, pc, what)


Executor.load = _load
