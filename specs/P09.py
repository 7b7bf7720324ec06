"""P09: every image function adjusts its parameters to the image description in the same, documented way."""
from spec import *
from funcs import *

UNITS = FUNC_UNITS + ["function_objects/helper_funcs.cpp"]
FUNCTIONS = [x for n, f, r in FUNCS for x in (n + "::AdjustParametersForImage", n + "::Setup")] + ["FunctionObject::SetImageParameters", "FunctionObject::FunctionObject"]
HARNESS = dict(src="P09.cpp")
LEVEL_NOTE = "adjustment of every parameter of all 28 image functions, and that Setup under an image description leaves exactly the state a plain image gives for the adjusted parameters, proved for every scale, rotation, parameter slice and centre"
ASSUMPTIONS = ["GetValue depends only on the object's fields and (x,y) (P08 proves it for the functions it covers; the run-time replay compares GetValue itself under a description and for the adjusted parameters, for all 28)", "floating-point arithmetic treated as real arithmetic"]


def role(ex, r, v, ps, rot, sc):
    return {"a": lambda: v - rot, "d": lambda: v, "i": lambda: sc * v, "l": lambda: ps * v, "v": lambda: v / ps}[r]()


def image_state(c, o):
    ps, rot, sc = [o.get(f) for f in ("pixelScaling", "imageRotation", "intensityScale")]
    c.requires(ps.ok, rot.ok, sc.ok, ps.v > 0)
    return ps.v, rot.v, sc.v


def adjust(prog):
    out = []
    for name, _, roles in FUNCS:
        c = Ctx(prog, name + "::AdjustParametersForImage"); o = c.obj(name, "this"); N = len(roles)
        ps, rot, sc = image_state(c, o); off = c.int("offsetIndex", 0, 1 << 20)
        p, q = c.array("input", count=off + N), c.array("adjusted", count=off + N, finite=None)
        c.run(name + "::AdjustParametersForImage", [o.ptr(), Ptr.to(p.reg), Ptr.to(q.reg), off])
        for k, r in enumerate(roles):
            c.ensures("parameter %d gets the adjustment of its kind (%s)" % (k, {"a": "position angle", "d": "unchanged", "i": "intensity", "l": "length", "v": "inverse length"}[r]),
                      feq(q.new(off + k), FVal(role(c.ex, r, p.at(off + k).v, ps, rot, sc))))
        j, js = c.index("j", 0, off)
        c.ensures("parameters of earlier functions are not touched", feq(q.new(j), q.at(j)), js)
        c.frame([q.reg]); out.append(c)
    return out


def setup(prog):
    out = []
    for name, _, roles in FUNCS:
        c = Ctx(prog, name + "::Setup"); N = len(roles)
        a, b = c.obj(name, "this"), c.obj(name, "plain")
        ps, rot, sc = image_state(c, a); off = c.int("offsetIndex", 0, 1 << 20); x, y = c.real("xc"), c.real("yc")
        p, q = c.array("params", count=off + N), c.array("adjusted", count=off + N)
        c.ex.cur_line = 0
        for k, r in enumerate(roles): c.ex.write_cell(c.pre, q.reg, 0, (norm_int(off + k),), FVal(role(c.ex, r, p.at(off + k).v, ps, rot, sc)), F64, [])
        c.ex.writes.clear()
        b.set("pixelScaling", FVal(RealVal(1))); b.set("intensityScale", FVal(RealVal(1))); b.set("imageRotation", FVal(RealVal(0)))
        own = [n for n, o_, t in c.ex.members_of(a.reg) if PRIM.get(a.di(n)[1]) is not None and n not in ("pixelScaling", "intensityScale", "imageRotation")]
        for n in own:
            u, v = a.get(n), b.get(n)
            c.requires(feq(u, v) if isinstance(u, FVal) else u == v)
        F = name + "::Setup(double*, int, double, double)"
        c.run(F, [a.ptr(), Ptr.to(p.reg), off, x, y]); sa = c.post
        c.pre_saved = c.pre; c.pre = sa; c.pc = list(c.rpc)
        c.run(F, [b.ptr(), Ptr.to(q.reg), off, x, y]); sb = c.post; c.pre = c.pre_saved
        W = {(fk) for reg, fk, *_ in c.ex.writes if reg is a.reg}
        for n in own:
            if a.off(n)[0] not in W: continue
            u, v = a.get(n, sb), b.get(n, sb)
            c.ensures("%s is what a plain image gives for the adjusted parameters" % n, feq(u, v) if isinstance(u, FVal) else u == v)
        c.ensures("the centre is the given one", And(feq(a.get("x0", sb), x), feq(a.get("y0", sb), y)))
        c.frame([a.reg, b.reg]); out.append(c)
    return out


def describe(prog):
    c = Ctx(prog, "FunctionObject::SetImageParameters"); o = c.obj("FunctionObject", "this")
    s, r, i = c.real("pixScale"), c.real("imageRot"), c.real("intensScale"); c.requires(s.v > 0)
    c.run("FunctionObject::SetImageParameters", [o.ptr(), s, r, i])
    c.ensures("lengths are divided by the pixel scale", feq(o.get("pixelScaling", c.post), FVal(1 / s.v)))
    c.ensures("rotation is kept", feq(o.get("imageRotation", c.post), r))
    c.ensures("intensity scale is kept", feq(o.get("intensityScale", c.post), i))
    c.frame(c.fields(o, "pixelScaling", "imageRotation", "intensityScale"))
    d = Ctx(prog, "FunctionObject::FunctionObject"); o = d.obj("FunctionObject", "this")
    d.run("FunctionObject::FunctionObject()", [o.ptr()])
    for n, v in (("pixelScaling", 1), ("imageRotation", 0), ("intensityScale", 1)): d.ensures("default %s" % n, feq(o.get(n, d.post), FVal(RealVal(v))))
    return [c, d]


CONTRACTS = [adjust, setup, describe]
