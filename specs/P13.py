"""P13: random numbers (CBMC contracts) and summary statistics."""
from spec import *
import cbmc

UNITS = ["core/statistics.cpp"]
FUNCTIONS = ["genrand_int32", "init_genrand", "genrand_real1", "genrand_real2", "genrand_real3", "genrand_res53", "genrand_int31", "Mean", "StandardDeviation", "ConfidenceInterval", "SortComp", "AIC_corrected", "BIC"]
HARNESS = dict(src="P13.cpp")
LEVEL_NOTE = "deductive for every generator state, seed, sample and sample size: genrand_int32 (word kept / block recurrence / default seed), init_genrand and the derived generators are verified bit-precisely by CBMC function contracts on the text of core/mersenne_twister.cpp (complete unwinding of constant-count loops); Mean, StandardDeviation, ConfidenceInterval, SortComp, AIC_corrected, BIC by contracts on the IR. init_by_array (unused by imfit) only in the replay harness."
ASSUMPTIONS = ["qsort sorts by the comparator it is given (SortComp is under contract)", "core/mersenne_twister.cpp is compiled as C by goto-cc: it lies in the common subset of C and C++", "init_by_array, which no program of imfit calls, is only exercised by the replay harness",
               "the state invariant 0 <= mti <= 625 and 32-bit words holds initially (mti = 625) and is preserved by init_genrand and genrand_int32 (obligations of block, step, seed)"]


def summary(prog):
    out = []
    for name in ("Mean", "StandardDeviation"):
        c = Ctx(prog, name); n = c.int("nVals", 1 if name == "Mean" else 2, 1 << 30)
        a = c.array("vector", count=n, finite=True)
        ret = c.run(name, [Ptr.to(a.reg), n])
        if name == "Mean": c.ensures("sum of the values divided by their number", feq(ret, FVal(c.ex.SUM(lambda k: a.at(k).v, n) / ToReal(n))))
        else:
            mean = c.ex.SUM(lambda k: a.at(k).v, n) / ToReal(n)
            ss = c.ex.SUM(lambda k: (a.at(k).v - mean) * (a.at(k).v - mean), n)
            r = c.ex.uff("SQRT", RealSort(), RealSort())(ss / (ToReal(n) - 1))
            c.ensures("square root of the sum of squared deviations from the mean over n-1", feq(ret, FVal(r)))
        out.append(c)
    return out


def interval(prog):
    c = Ctx(prog, "ConfidenceInterval"); ex = c.ex
    n = c.int("nVals", 1, 1 << 30)
    a = c.array("vector", count=n, finite=True)
    SORTED = ex.uff("SORTED", IntSort(), RealSort()); calls = []
    def qsort(ex, args, st, pc, ins):
        calls.append((args, list(pc)))
        reg = args[0].alts[0][1][0]
        c0 = st.arr.get((reg, 0)) or ex.init_content(reg, 0, reg.ety); b = ex.fresh(IntSort(), "b")
        st.arr[(reg, 0)] = c0.add(Rec((b,), And(b >= 0, b < n), (b,), FVal(SORTED(b))))
        return None
    ex.prefix_contracts.append((r"qsort\$?", qsort))
    res = c.array("res", count=2, finite=None)
    c.run("ConfidenceInterval", [Ptr.to(res.reg), Ptr.to(a.reg), n])
    (args, pcq), = calls
    rnd = lambda x: ToInt(x + RealVal("1/2"))
    lo = rnd(RealVal("0.1585") * ToReal(n)) - 1; hi = rnd(RealVal("0.8415") * ToReal(n))
    lo, hi = If(lo < 0, IntVal(0), lo), If(hi >= n, n - 1, hi)
    c.ensures("the whole vector is sorted", And(args[1] == n, args[2] == 8))
    c.ensures("lower bound is the sorted value at rank round(0.1585 n), at least the first", feq(res.new(1), FVal(SORTED(lo))))
    c.ensures("upper bound is the sorted value just above rank round(0.8415 n), at most the last", feq(res.new(0), FVal(SORTED(hi))))
    return c


def order(prog):
    c = Ctx(prog, "SortComp")
    x, y = c.array("x", count=1, finite=True), c.array("y", count=1, finite=True)
    r = c.run("SortComp", [Ptr.to(x.reg), Ptr.to(y.reg)])
    c.ensures("positive exactly when the first value is larger", (r > 0) == (x.at(0).v > y.at(0).v))
    c.ensures("zero exactly when equal", (r == 0) == (x.at(0).v == y.at(0).v))
    return c


def criteria(prog):
    out = []
    for name in ("AIC_corrected", "BIC"):
        c = Ctx(prog, name); L = c.real("logLikelihood").v; k = c.int("nParams", 0, 1 << 20); n = c.int("nData", 1, 1 << 40); chi = c.int("chiSquareUsed", -8, 8)
        if name == "AIC_corrected": c.requires(n - k - 1 >= 1)
        r = c.run(name, [FVal(L), k, n, chi]); m2 = If(chi != 0, L, -2 * L)
        if name == "AIC_corrected": e = m2 + 2 * ToReal(k) + 2 * ToReal(k) * (ToReal(k) + 1) / (ToReal(n) - ToReal(k) - 1)
        else: e = m2 + ToReal(k) * c.ex.uff("LOG", RealSort(), RealSort())(ToReal(n))
        c.ensures("%s of the given likelihood (or chi^2) and counts" % name, feq(r, FVal(e)))
        out.append(c)
    return out


U = ["--unwind", "626"]
CONTRACTS = [
    cbmc.entry("step", "mt.c", "step", flags=U, solver="z3"),
    cbmc.entry("block", "mt.c", "block", flags=U + ["--max-field-sensitivity-array-size", "1000"]),
    cbmc.entry("unseeded", "mt.c", "unseeded", flags=U + ["--max-field-sensitivity-array-size", "1000"], solver="z3"),
    cbmc.entry("seed", "mt.c", "seed", flags=U + ["--max-field-sensitivity-array-size", "1000"], solver="z3"),
] + [cbmc.entry(x, "mt.c", x, enforce="genrand_" + x, replace=["genrand_int32"]) for x in ("real1", "real2", "real3", "res53", "int31")] + [summary, interval, order, criteria]
