"""P07: output images."""
from spec import *
from mo import *

UNITS = MO_UNITS
HARNESS = dict(src="P07.cpp")
FUNCTIONS = ["ModelObject::GetModelImageVector", "ModelObject::GetExpandedModelImageVector", "ModelObject::GetResidualImageVector", "ModelObject::GetWeightImageVector", "ModelObject::GetDataVector"]
LEVEL_NOTE = "every pixel of every output image is proved to belong to the same pixel of the data for all image shapes and PSF paddings, on first and repeated calls"
ASSUMPTIONS = ["the padded model image has size (columns + 2*PSF columns) x (rows + 2*PSF rows), proved by P01's set-up contract", "memory allocation succeeds or is reported",
               "the dimensions used when an output image is saved are those of the data (imfit_main.cpp, outside the contracts)"]


def setting(prog, label, conv):
    c = Ctx(prog, label)
    m = MO(c, functions=False); o = m.o; g = m.g
    if conv is not None: c.requires(m.conv if conv else Not(m.conv))
    c.requires(m.DV <= (1 << 30))
    m.d = o.array("dataVector", count=m.DV, finite=True); m.w = o.array("weightVector", count=m.DV, finite=True)
    m.done = g("modelImageComputed") != 0
    for f in ("outputModelVector", "residualVector", "standardWeightVector"):
        o.array(f, count=m.DV, finite=None)
        o.on_assign(f, lambda reg, st: c.shape(reg, count=m.DV))
    def mod(k):
        r, q = c.ex.idiv(k, m.DC, [k >= 0]), c.ex.imod(k, m.DC, [k >= 0])
        return m.model.at(norm_int(m.PR + r), norm_int(m.PC + q))
    m.mod = mod
    return c, m


def targets(c, ret):
    out = []
    for cnd, t in ret.alts:
        if t is not None: out.append((cnd, Arr(c, t[0], t[1]), t))
    return out


def nullret(ret): return tor(*[cnd for cnd, t in ret.alts if t is None])


def model(prog):
    out = []
    for conv in (False, True):
        lab = "with PSF" if conv else "no PSF"
        c, m = setting(prog, "ModelObject::GetModelImageVector (%s)" % lab, conv); o = m.o
        ret = c.run("ModelObject::GetModelImageVector", [o.ptr()])
        k, hk = c.index("k", 0, m.DV)
        for cnd, A, t in targets(c, ret):
            if t[0] is m.model.reg:
                r, q = c.ex.idiv(k, m.DC, [k >= 0]), c.ex.imod(k, m.DC, [k >= 0])
                c.ensures("without a PSF the model image itself is returned, from its first pixel", Implies(cnd, tand(BoolVal(t[2].is_const() and t[2].c() == 0), m.MC == m.DC, m.MR == m.DR, Not(m.conv))))
            else:
                v = A.new(k)
                c.ensures("pixel k of the returned image is the model at data pixel k", Implies(cnd, tand(v.ok, v.v == m.mod(k).v)), hk)
        c.ensures("an image is returned once the model has been computed (unless memory is exhausted)", Implies(tand(m.done, nullret(ret)), tand(m.conv, o.get("outputModelVectorAllocated", c.post) == 0)))
        c.ensures("nothing is returned before the model has been computed", Implies(Not(m.done), nullret(ret)))
        c.frame([t[0] for _, A, t in targets(c, ret) if t[0] is not m.model.reg] + c.fields(o, "outputModelVector", "outputModelVectorAllocated"))
        out.append(c)
        c, m = setting(prog, "ModelObject::GetResidualImageVector (%s)" % lab, conv); o = m.o
        ret = c.run("ModelObject::GetResidualImageVector", [o.ptr()])
        k, hk = c.index("k", 0, m.DV)
        for cnd, A, t in targets(c, ret):
            v = A.new(k)
            c.ensures("pixel k of the residual image is data - model at data pixel k", Implies(cnd, tand(v.ok, v.v == m.d.at(k).v - m.mod(k).v)), hk)
            c.ensures("the residual image is an array of its own", BoolVal(t[0] is not m.model.reg and t[0] is not m.d.reg))
        c.ensures("an image is returned once the model has been computed (unless memory is exhausted)", Implies(tand(m.done, nullret(ret)), o.get("residualVectorAllocated", c.post) == 0))
        c.ensures("nothing is returned before the model has been computed", Implies(Not(m.done), nullret(ret)))
        c.frame([t[0] for _, A, t in targets(c, ret)] + c.fields(o, "residualVector", "residualVectorAllocated"))
        out.append(c)
    return out


def weight(prog):
    out = []
    c, m = setting(prog, "ModelObject::GetWeightImageVector", None); o = m.o
    ret = c.run("ModelObject::GetWeightImageVector", [o.ptr()])
    k, hk = c.index("k", 0, m.DV)
    ws = m.g("weightValsSet") != 0
    for cnd, A, t in targets(c, ret):
        v = A.new(k); w = m.w.at(k)
        c.ensures("pixel k of the weight image is the square of the weight in use at data pixel k (zero where masked)", Implies(cnd, tand(v.ok, v.v == w.v * w.v)), hk)
    c.ensures("nothing is returned before weights exist", Implies(Not(ws), nullret(ret)))
    c.ensures("an image is returned otherwise (unless memory is exhausted)", BoolVal(len(targets(c, ret)) == 1))
    c.frame([t[0] for _, A, t in targets(c, ret)] + c.fields(o, "standardWeightVector", "standardWeightVectorAllocated"))
    out.append(c)
    for name, flag, arr in (("GetExpandedModelImageVector", "modelImageComputed", "model"), ("GetDataVector", "dataValsSet", "d")):
        c, m = setting(prog, "ModelObject::" + name, None); o = m.o
        ret = c.run("ModelObject::" + name, [o.ptr()])
        f = m.g(flag) != 0
        reg = getattr(m, arr).reg
        c.ensures("the stored array itself is returned", BoolVal(all(same_target(t, (reg, (), Poly.const(0))) for _, A, t in targets(c, ret)) and len(targets(c, ret)) == 1))
        c.ensures("null exactly before it exists", nullret(ret) == Not(f))
        c.frame([])
        out.append(c)
    return out


CONTRACTS = [model, weight]
