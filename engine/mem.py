"""Memory model: regions (separate by construction), array contents as base function + write records."""
import z3
from terms import *


class Region:
    n = 0

    def __init__(self, name, ety=None, count=None, mod=None, dims=1, stride=None, cls=None, nkeys=0, shape=None):
        Region.n += 1
        self.id = Region.n
        self.name = name; self.ety = ety          # LLVM element type (or None: decided at first access)
        self.count = count                        # None: unknown; z3 Int or int
        self.mod = mod
        self.stride = stride                      # for 2-D regions: Poly/expr of elements per row
        self.rows = None
        self.single = (count == 1)                # object, no element index
        self.cls = cls                            # C++ class name (static type) when known
        self.nkeys = nkeys
        self.ptr_regions = {}                     # field key -> pointee family region
        self.finite = False                       # doubles read from it are finite (precondition)
        self.inv = []                             # [(fieldkey or None, lambda idx, val -> fact)] instantiated on reads
        self.kind = "heap"
        self.readonly = False
        self.bytes = None; self.elem_tname = None; self.boolean = True; self.zero_init = False; self.handler = None
        self.is_global = False; self.strval = None; self.opaque_elem = False

    def __repr__(self): return "<%s>" % self.name


class Rec:
    """write record: for all values of vars with guard: cell idx := val"""
    __slots__ = ("vars", "guard", "idx", "val", "inj", "tag")

    def __init__(self, vars, guard, idx, val, inj=True, tag=None):
        self.vars = tuple(vars); self.guard = guard; self.idx = tuple(idx); self.val = val; self.inj = inj; self.tag = tag

    def vsubst(self, pairs):
        g = substitute(self.guard, *pairs); ix = tuple(substitute(i, *pairs) for i in self.idx); v = vsubst(self.val, pairs)
        if g.eq(self.guard) and all(a.eq(b) for a, b in zip(ix, self.idx)) and veq_syn(v, self.val): return self
        return Rec(self.vars, g, ix, v, self.inj, self.tag)


class Content:
    """base: ('uf', name, kind) | ('const', val) | ('ptrfam', region) | ('merge', [(cond, Content)]) | ('unknown',why)"""
    __slots__ = ("base", "recs")

    def __init__(self, base, recs=()):
        self.base = base; self.recs = tuple(recs)

    def add(self, rec): return Content(self.base, self.recs + (rec,))

    def vsubst(self, pairs):
        if self.base[0] == "merge":
            nb = [(substitute(c, *pairs), k.vsubst(pairs)) for c, k in self.base[1]]
            b = self.base if all(x[0].eq(y[0]) and x[1] is y[1] for x, y in zip(nb, self.base[1])) else ("merge", nb)
        elif self.base[0] == "const":
            nv = vsubst(self.base[1], pairs)
            b = self.base if veq_syn(nv, self.base[1]) else ("const", nv)
        elif self.base[0] == "uf" and len(self.base) > 3:
            b = self.base[:3] + (tuple(substitute(x, *pairs) for x in self.base[3]),)
        elif self.base[0] == "fn" and len(self.base) > 2:      # ("fn", f, params): f(idx, params)
            np_ = tuple(substitute(x, *pairs) for x in self.base[2])
            b = self.base if all(x.eq(y) for x, y in zip(np_, self.base[2])) else ("fn", self.base[1], np_)
        else: b = self.base
        rs = [r.vsubst(pairs) for r in self.recs]
        if b is self.base and all(x is y for x, y in zip(rs, self.recs)): return self
        return Content(b, rs)

    def vite(self, c, other):
        if self is other: return self
        return Content(("merge", [(c, self), (tnot(c), other)]))


def content_delta(end, start, guard=TRUE):
    """records in `end` beyond `start`, oldest first, guarded; None if `end` does not extend `start`"""
    if end is start: return []
    if end.base is start.base or (end.base[0] == start.base[0] and end.base[0] != "merge" and end.base == start.base):
        n = len(start.recs)
        if len(end.recs) >= n and all(a is b for a, b in zip(end.recs[:n], start.recs)):
            out = []
            for r in end.recs[n:]:
                out.append(Rec(r.vars, tand(guard, r.guard), r.idx, r.val, r.inj, r.tag))
            return out
    if end.base[0] == "merge":
        out = []
        for c, k in end.base[1]:
            d = content_delta(k, start, tand(guard, c))
            if d is None: return None
            out += d
        for r in end.recs:
            out.append(Rec(r.vars, tand(guard, r.guard), r.idx, r.val, r.inj, r.tag))
        return out
    return None


class State:
    __slots__ = ("scal", "arr")

    def __init__(self, scal=None, arr=None):
        self.scal = dict(scal or {}); self.arr = dict(arr or {})

    def copy(self): return State(self.scal, self.arr)
