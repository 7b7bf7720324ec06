// Random fitting set-ups and the statistics / weights / images they should give, shared by the replay harnesses.
#ifndef VH_FIT_H
#define VH_FIT_H
#include "model.h"
#include "definitions.h"
namespace vh {
enum Stat { CHI_DATA, CHI_MODEL, CHI_USER, CASH, PMLR };
static const char *STATN[5] = {"chi2(data errors)", "chi2(model errors)", "chi2(user errors)", "Cash", "PMLR"};
struct Fit {
  Model m; Stat st = CHI_DATA; int etype = 0; vector<double> data, err, mask; bool hasMask = false; int mform = 0; double gain = 1, rn = 0, et = 1, sky = 0; int nc = 1; bool maskFirst = true, charFirst = true, fnLate = false;
  double eg() const { return gain * et * nc; }
  int N() const { return m.DC * m.DR; }
  string str() const { string s = fmt("%s gain %.4g rn %.4g t %.4g nc %d sky %.4g etype %d mask %d(%d) order %d%d%d | ", STATN[st], gain, rn, et, nc, sky, st == CHI_USER ? etype : 0, (int)hasMask, mform, (int)maskFirst, (int)charFirst, (int)fnLate) + m.str();
    if (N() <= 12) { s += " data"; for (double x : data) s += fmt(" %.6g", x); if (hasMask) { s += " mask"; for (double x : mask) s += fmt(" %g", x); } if (st == CHI_USER) { s += " err"; for (double x : err) s += fmt(" %.6g", x); } }
    return s; }
  bool userGood(int k) const { if (!hasMask) return true; double v = mask[k]; return mform == MASK_ZERO_IS_GOOD ? v <= 0 : v >= 1; }   // NaN: bad
  double userWeight(int k) const { return etype == WEIGHTS_ARE_SIGMAS ? 1 / err[k] : etype == WEIGHTS_ARE_VARIANCES ? 1 / sqrt(err[k]) : sqrt(err[k]); }
  bool good(int k) const { return userGood(k) && std::isfinite(data[k]) && (st != CHI_USER || std::isfinite(userWeight(k))); }
  long nGood() const { long n = 0; for (int k = 0; k < N(); k++) n += good(k); return n; }
  double noise(double flux) const { return 1 / sqrt(flux / eg() + nc * rn * rn / (eg() * eg())); }
  // weight (1/sigma) of a good pixel given the model value there
  double weight(int k, double model) const { if (!good(k)) return 0; return st == CHI_DATA ? noise(std::max(data[k] + sky, 0.0)) : st == CHI_MODEL ? noise(model + sky) : st == CHI_USER ? userWeight(k) : 1.0; }
  bool setupOK() const { if (nGood() < 1) return false; for (int k = 0; k < N(); k++) if (good(k) && st != CHI_MODEL) { double w = weight(k, 0); if (!std::isfinite(w) || w < 0) return false; } return true; }
  double term(int k, double model) const { double md = eg() * (model + sky), d = eg() * (data[k] + sky); double lm = md > 0 ? log(md) : log(1e-25), ex = st == PMLR && d > 0 ? d * log(d) - d : 0; return md - d * lm + ex; }
  double pix(int k, double model) const { if (!good(k)) return 0; if (st >= CASH) return 2 * term(k, model); double r = weight(k, model) * (data[k] - model); return r * r; }
  // buffers are owned by the caller and modified by the object, as in the main programs
  struct Bufs { vector<double> d, e, k; };
  int setup(ModelObject &M, Bufs &b, bool final = true) const {
    b.d = data; b.e = err; b.k = mask; Quiet q;
    m.build(M); if (!fnLate) m.addFunctions(M);
    if (M.AddImageDataVector(b.d.data(), m.DC, m.DR) < 0) return -99;
    if (charFirst) M.AddImageCharacteristics(gain, rn, et, nc, sky);
    if (fnLate) m.addFunctions(M);
    m.addRegions(M);
    if (hasMask && maskFirst) M.AddMaskVector(N(), m.DC, m.DR, b.k.data(), mform);
    if (st == CHI_USER) M.AddErrorVector(N(), m.DC, m.DR, b.e.data(), etype);
    else if (st == CHI_MODEL) M.UseModelErrors(); else if (st == CASH) M.UseCashStatistic(); else if (st == PMLR) M.UsePoissonMLR();
    if (hasMask && !maskFirst) M.AddMaskVector(N(), m.DC, m.DR, b.k.data(), mform);
    if (!charFirst) M.AddImageCharacteristics(gain, rn, et, nc, sky);
    return final ? M.FinalSetupForFitting() : 0; }
  double modelAt(const double *ex, int k) const { return ex[(k / m.DC + m.PR()) * m.MC() + k % m.DC + m.PC()]; }
};
struct FitOpt { bool bad = true, psf = true; int st = -1; int maxd = 7; double pmask = .6; };
inline double badval(Rng &g) { switch (g.i(0, 5)) { case 0: return NAN; case 1: return INFINITY; case 2: return -INFINITY; case 3: return -g.r(0, 1e3); case 4: return 1e300; default: return g.r(-50, 1e5); } }
inline Fit randomFit(Rng &g, FitOpt o = FitOpt()) {
  Fit f; GenOpt go; go.maxd = o.maxd; go.psf = o.psf; go.regs = false; go.ps = false; f.m = randomModel(g, go); Comp c; c.kind = 4; c.start = false; f.m.comps.push_back(c); f.m.randomParams(g); f.m.threads = g.i(1, 2);
  f.st = o.st >= 0 ? (Stat)o.st : (Stat)g.i(0, 4);
  f.gain = g.i(0, 2) ? g.r(.5, 5) : 1; f.rn = g.i(0, 1) ? g.r(0, 5) : 0; f.et = g.i(0, 2) ? 1 : g.r(.5, 20); f.nc = g.i(0, 2) ? 1 : g.i(2, 5); f.sky = g.i(0, 1) ? g.r(0, 20) : 0;
  f.maskFirst = g.b(); f.charFirst = g.b() || g.b(); f.fnLate = g.b();
  f.etype = g.i(0, 2) == 0 ? WEIGHTS_ARE_SIGMAS : g.b() ? WEIGHTS_ARE_VARIANCES : WEIGHTS_ARE_WEIGHTS;
  f.hasMask = g.r(0, 1) < o.pmask; f.mform = g.b() ? MASK_ZERO_IS_GOOD : MASK_ZERO_IS_BAD;
  for (int k = 0; k < f.N(); k++) {
    f.data.push_back(f.st >= CASH && f.sky == 0 ? (g.i(0, 4) ? (double)g.i(0, 30) : g.r(0, 3)) : g.i(0, 9) ? g.r(.5, 40) : g.r(-3, 40));
    f.err.push_back(g.i(0, 12) ? g.r(.2, 6) : 1e-3);
    double mv = g.i(0, 2) == 0 ? 1 : 0; if (f.mform == MASK_ZERO_IS_BAD) mv = 1 - mv;
    if (o.bad) { if (g.i(0, 15) == 0) mv = f.mform == MASK_ZERO_IS_GOOD ? g.r(.1, 40) : g.r(1, 40); if (g.i(0, 40) == 0) mv = NAN; if (g.i(0, 40) == 0) mv = g.r(0, .9); if (g.i(0, 40) == 0) mv = -1; }
    f.mask.push_back(mv); }
  if (o.bad) for (int k = 0; k < f.N(); k++) { if (!f.userGood(k)) { if (g.i(0, 2) == 0) f.data[k] = badval(g); if (g.i(0, 2) == 0) f.err[k] = g.b() ? badval(g) : 0; }
      else { if (g.i(0, 30) == 0) f.data[k] = g.b() ? NAN : INFINITY; if (g.i(0, 40) == 0) f.err[k] = g.b() ? 0 : badval(g); } }
  return f; }
}
#endif
