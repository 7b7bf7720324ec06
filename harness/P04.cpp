// Run-time contract of the pixel weights: the weight image handed out is 1/sigma^2 for the noise information supplied.
#include "fit.h"
using namespace vh;
int main(int argc, char **argv) {
  Args a = args(argc, argv); Rng g(a.seed + 400);
  int N = a.thorough ? 6000 : 900;
  for (int t = 0; t < N && g_fails < 4; t++) {
    FitOpt fo; fo.st = g.i(0, 7) ? g.i(0, 2) : g.i(3, 4); fo.bad = g.b(); Fit f = randomFit(g, fo); if (!f.setupOK()) continue;
    if (f.st == CHI_DATA && g.i(0, 2) == 0 && f.rn > 0) for (auto &x : f.data) if (g.i(0, 3) == 0 && std::isfinite(x)) x = -g.r(0, 30);   // negative fluxes
    if (!f.setupOK()) continue;
    test_case(fmt("seed %llu case %d %s", (unsigned long long)a.seed, t, f.str().c_str()));
    ModelObject M; Fit::Bufs b; if (f.setup(M, b) < 0) { fail("set-up succeeds", "FinalSetupForFitting"); continue; }
    for (int rep = g.i(1, 3); rep > 0; rep--) {
      f.m.randomParams(g); vector<double> dev(f.N()); int op = g.i(0, f.st == CASH ? 0 : 1);
      const double *w; { Quiet q; if (op == 0) M.GetFitStatistic(f.m.params.data()); else M.ComputeDeviates(dev.data(), f.m.params.data()); w = M.GetWeightImageVector(); }
      if (!w) { fail("a weight image exists after set-up", "GetWeightImageVector returned NULL"); break; }
      const double *ex = M.GetExpandedModelImageVector();
      for (int k = 0; k < f.N(); k++) { double md = f.modelAt(ex, k); if (f.st == CHI_MODEL && md + f.sky < 1e-9) continue; double e = f.weight(k, md);
        want("weight image holds 1/sigma^2 for the supplied noise information (0 where masked)", fmt("pixel row %d col %d", k / f.m.DC, k % f.m.DC), w[k], e * e, 1e-9, 1e-12); } } }
  return finish();
}
