// Run-time contract: masked pixels never influence the fit; unusable unmasked pixels are refused or masked out and reported.
#include "fit.h"
using namespace vh;
int main(int argc, char **argv) {
  Args a = args(argc, argv); Rng g(a.seed + 200);
  int N = a.thorough ? 5000 : 700;
  for (int t = 0; t < N && g_fails < 4; t++) {
    FitOpt fo; fo.pmask = .9; fo.maxd = 6; Fit f = randomFit(g, fo);
    if (g.i(0, 15) == 0 && f.st != CHI_USER) { f.rn = 0; f.sky = 0; f.data[g.i(0, f.N() - 1)] = 0; }      // infinite self-generated weight
    test_case(fmt("seed %llu case %d %s", (unsigned long long)a.seed, t, f.str().c_str()));
    Fit f2 = f; for (int k = 0; k < f.N(); k++) if (!f.userGood(k)) { f2.data[k] = g.b() ? badval(g) : f.data[k]; f2.err[k] = g.b() ? badval(g) : 0; }
    ModelObject M, M2; Fit::Bufs b, b2; int s = f.setup(M, b), s2 = f2.setup(M2, b2);
    wantb("set-up succeeds exactly when every unmasked pixel is usable and one is left", fmt("status %d, contract says %s", s, f.setupOK() ? "success" : "failure"), (s >= 0) == f.setupOK());
    wantb("set-up result does not depend on masked pixels", fmt("%d / %d", s, s2), s == s2);
    if (s < 0) continue;
    wantb("number of valid pixels", fmt("%ld, contract says %ld", M.GetNValidPixels(), f.nGood()), M.GetNValidPixels() == f.nGood() && M2.GetNValidPixels() == f.nGood());
    wantb("set-up keeps the mask it was given", "HasMask", M.HasMask());
    for (int rep = 0; rep < 2; rep++) {
      f.m.randomParams(g); double v, v2; vector<double> d(f.N()), d2(f.N()); const double *w, *w2;
      { Quiet q; v = M.GetFitStatistic(f.m.params.data()); v2 = M2.GetFitStatistic(f.m.params.data()); if (f.st != CASH) { M.ComputeDeviates(d.data(), f.m.params.data()); M2.ComputeDeviates(d2.data(), f.m.params.data()); }
        w = M.GetWeightImageVector(); w2 = M2.GetWeightImageVector(); }
      wantb("fit statistic is finite", fmt("%g", v), std::isfinite(v)); want("fit statistic does not depend on masked pixels", "statistic", v2, v, 1e-12);
      const double *ex = M.GetExpandedModelImageVector(); double e = 0, sc = 0; bool amb = false;
      for (int k = 0; k < f.N(); k++) if (f.good(k)) { double p = f.pix(k, f.modelAt(ex, k)); e += p; sc += fabs(p) + (f.st >= CASH ? 3 * f.eg() * (fabs(f.modelAt(ex, k)) + fabs(f.data[k])) : 0); if (f.st == CHI_MODEL && f.modelAt(ex, k) + f.sky < 1e-9) amb = true; }
      if (!amb) want("fit statistic counts every unmasked pixel exactly once", "statistic", v, e, 1e-9, 1e-9 * sc);
      for (int k = 0; k < f.N(); k++) {
        if (f.st != CASH) { want("deviates do not depend on masked pixels", fmt("pixel %d", k), d2[k], d[k], 1e-12); if (!f.good(k)) want("masked pixels contribute zero deviates", fmt("pixel %d", k), d[k], 0); }
        if (!f.good(k)) { want("masked pixels have weight zero", fmt("pixel %d", k), w[k], 0); want("masked pixels have weight zero", fmt("pixel %d", k), w2[k], 0); } } } }
  return finish();
}
