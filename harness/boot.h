// Which pixels a bootstrap sample consists of, found from the outside: each entry of the deviates vector is the weighted residual
// (or signed root of the likelihood term) of one pixel; pixels are told apart by their values.
#ifndef VH_BOOT_H
#define VH_BOOT_H
#include "fit.h"
#include "mersenne_twister.h"
namespace vh {
inline double devOf(const Fit &f, int k, double md) { return f.st == PMLR ? sqrt(2 * fabs(f.term(k, md))) : f.weight(k, md) * (f.data[k] - md); }
inline vector<double> modelOf(ModelObject &M, const Fit &f) { Quiet q; const double *im = M.GetExpandedModelImageVector(); return vector<double>(im, im + f.m.MC() * f.m.MR()); }
// a fit whose pixels all have different deviates (false: not usable)
inline bool distinct(const Fit &f, const vector<double> &ex) { vector<double> v; for (int k = 0; k < f.N(); k++) if (f.good(k)) { double md = f.modelAt(ex.data(), k); if (f.st == CHI_MODEL && md + f.sky <= 0.05) return false; v.push_back(f.st == PMLR ? devOf(f, k, md) : devOf(f, k, md)); if (!std::isfinite(v.back())) return false; }
  std::sort(v.begin(), v.end()); double sc = v.empty() ? 0 : std::max(fabs(v[0]), fabs(v.back())); for (size_t k = 1; k < v.size(); k++) if (v[k] - v[k - 1] < 1e-5 * (1e-3 + sc)) return false; return true; }
// the sampled pixel indices; empty when an entry belongs to no good pixel (a failure is reported)
inline vector<int> sampled(ModelObject &M, const Fit &f, vector<double> &prm, const vector<double> &ex) {
  long n = f.nGood(); vector<double> dev(n); { Quiet q; M.ComputeDeviates(dev.data(), prm.data()); } vector<int> out;
  for (long k = 0; k < n; k++) { int best = -1; double bd = 0; for (int p = 0; p < f.N(); p++) if (f.good(p)) { double e = fabs(fabs(devOf(f, p, f.modelAt(ex.data(), p))) - fabs(dev[k])); if (f.st != PMLR) e = fabs(devOf(f, p, f.modelAt(ex.data(), p)) - dev[k]); if (best < 0 || e < bd) { best = p; bd = e; } }
    double ref = devOf(f, best, f.modelAt(ex.data(), best));
    if (bd > 1e-7 * (1e-2 + fabs(ref))) { fail("every entry of the bootstrap deviates belongs to an unmasked pixel of the image", fmt("entry %ld is %.12g, which no good pixel gives (closest: pixel %d, %.12g)", k, dev[k], best, ref)); return vector<int>(); }
    out.push_back(best); }
  return out; }
inline double statOver(const Fit &f, const vector<int> &s, const vector<double> &ex, double &scale) { double e = 0; scale = 0; for (int k : s) { double md = f.modelAt(ex.data(), k), p = f.pix(k, md); e += p; scale += fabs(p); if (f.st >= CASH) scale += 6 * f.eg() * fabs(md) + fabs(f.eg() * (f.data[k] + f.sky)); } return e; }
// statistic and deviates of the current sample for several parameter vectors; returns false after a failure
inline bool checkSample(ModelObject &M, Fit &f, Rng &g, vector<int> *outS = 0, ModelObject *cash = 0) {
  vector<double> prm = f.m.params; vector<double> ex; { Quiet q; M.GetFitStatistic(prm.data()); } ex = modelOf(M, f); if (!distinct(f, ex)) return true;
  int f0 = g_fails; vector<int> s = sampled(M, f, prm, ex); if (g_fails > f0) return false; if (outS) *outS = s;
  for (int rep = 0; rep < 2; rep++) {
    if (rep) { f.m.randomParams(g); prm = f.m.params; }
    double st; { Quiet q; st = M.GetFitStatistic(prm.data()); } ex = modelOf(M, f); double sc, e = statOver(f, s, ex, sc); bool neg = false;
    if (f.st == CHI_MODEL) for (int k = 0; k < f.N(); k++) if (f.modelAt(ex.data(), k) + f.sky <= 0.05) neg = true;
    if (neg) continue;
    want("bootstrap statistic is the sum over the resampled pixels", "statistic", st, e, 1e-9, 1e-9 * sc);
    vector<double> dev(s.size()); { Quiet q; M.ComputeDeviates(dev.data(), prm.data()); }
    for (size_t k = 0; k < s.size(); k++) { double md = f.modelAt(ex.data(), s[k]); if (f.st == PMLR) want("bootstrap squared deviate is the resampled pixel's term", fmt("entry %zu (pixel %d)", k, s[k]), dev[k] * dev[k], fabs(f.pix(s[k], md)), 1e-8, 1e-10 * (1 + sc)); else want("bootstrap deviate is the resampled pixel's weighted residual", fmt("entry %zu (pixel %d)", k, s[k]), dev[k], devOf(f, s[k], md), 1e-8, 1e-9); }
    if (cash) { Fit fc = f; fc.st = CASH; double sc2; { Quiet q; st = cash->GetFitStatistic(prm.data()); } want("bootstrap Cash statistic is the sum over the resampled pixels", "statistic", st, statOver(fc, s, ex, sc2), 1e-9, 1e-9 * sc2); } }
  return g_fails == f0; }
// one bootstrap history on a fresh object; Cash follows the Poisson-MLR object's random numbers
inline bool bootable(const Fit &f) { for (int k = 0; k < f.N(); k++) if (f.good(k) && f.st != CHI_MODEL && !(f.weight(k, 0) > 0)) return false; return f.st != CASH; }
inline void bootCase(Fit f, Rng &g) {
  if (f.st == CASH) f.st = PMLR;
  if (!bootable(f) || !f.setupOK()) return;
  ModelObject M, C; Fit::Bufs b, bc; if (f.setup(M, b) < 0) { fail("set-up succeeds", "FinalSetupForFitting"); return; }
  Fit fc = f; fc.st = CASH; bool cash = f.st == PMLR; if (cash && fc.setup(C, bc) < 0) { fail("set-up succeeds", "Cash"); return; }
  unsigned long sd = g.i(1, 1000000); init_genrand(sd); { Quiet q; M.UseBootstrap(); } if (cash) { init_genrand(sd); Quiet q; C.UseBootstrap(); }
  checkSample(M, f, g, 0, cash ? &C : 0); }
}
#endif
