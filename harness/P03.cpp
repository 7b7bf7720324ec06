// Run-time contract of GetFitStatistic / ComputeDeviates / mp_enorm against their defining sums.
#include "boot.h"
#include "mp_enorm.h"
using namespace vh;
int main(int argc, char **argv) {
  Args a = args(argc, argv); Rng g(a.seed + 300);
  int N = a.thorough ? 6000 : 700;
  for (int t = 0; t < N && g_fails < 4; t++) {
    if (t % 6 == 5) { int n = g.i(1, 40); vector<double> x(n); double s = 0; bool small = g.b();
      for (auto &v : x) { double e = small ? g.r(-3, 3) : g.i(0, 2) ? g.r(-19, 18) : g.r(19, 21); v = g.i(0, 6) ? g.r(-1, 1) * pow(10, e) : 0; s += v * v; }
      test_case(fmt("mp_enorm seed %llu case %d n %d first %.17g", (unsigned long long)a.seed, t, n, x[0]));
      double r = mp_enorm(n, x.data()); want("norm squared is the sum of squares", "norm^2", r * r, s, 1e-12, n * 1.5e-39); continue; }
    FitOpt fo; Fit f = randomFit(g, fo); if (!f.setupOK()) continue;
    test_case(fmt("seed %llu case %d %s", (unsigned long long)a.seed, t, f.str().c_str()));
    ModelObject M; Fit::Bufs b; if (f.setup(M, b) < 0) { fail("set-up succeeds", "FinalSetupForFitting"); continue; }
    wantb("number of data values", fmt("%ld", M.GetNDataValues()), M.GetNDataValues() == f.N()); wantb("number of valid pixels", fmt("%ld, contract says %ld", M.GetNValidPixels(), f.nGood()), M.GetNValidPixels() == f.nGood());
    for (int rep = g.i(1, 3); rep > 0; rep--) {
      f.m.randomParams(g); vector<double> prm = f.m.params; if (g.i(0, 3) == 0) prm.back() = -g.r(30, 300);   // negative model values
      vector<double> dev(f.N(), 123.), ex; double s; bool first = g.b(); const double *im;
      { Quiet q; if (first && f.st != CASH) M.ComputeDeviates(dev.data(), prm.data());
        s = M.GetFitStatistic(prm.data()); im = M.GetExpandedModelImageVector();
        if (!first && f.st != CASH) M.ComputeDeviates(dev.data(), prm.data()); }
      ex.assign(im, im + f.m.MC() * f.m.MR()); double e = 0, sc = 0; bool neg = false;
      for (int k = 0; k < f.N(); k++) { double md = f.modelAt(ex.data(), k), p = f.pix(k, md); e += p; sc += fabs(p); if (f.good(k) && f.st == PMLR) sc += 2 * f.eg() * fabs(md) * 3; if (f.good(k) && f.st >= CASH) sc += fabs(f.eg() * (f.data[k] + f.sky)); if (f.st == CHI_MODEL && md + f.sky <= 0) neg = true; }
      if (neg) continue;    // model-based errors of a negative model are undefined
      want("fit statistic equals its defining sum", "statistic", s, e, 1e-9, 1e-9 * sc);
      if (f.st == CASH) continue;
      for (int k = 0; k < f.N(); k++) { double md = f.modelAt(ex.data(), k);
        if (f.st == PMLR) want("squared deviate is the pixel's term of the statistic", fmt("pixel %d", k), dev[k] * dev[k], f.good(k) ? fabs(f.pix(k, md)) : 0, 1e-8, 1e-10 * (1 + sc));
        else want("deviate is the weighted residual", fmt("pixel %d", k), dev[k], f.good(k) ? f.weight(k, md) * (f.data[k] - md) : 0, 1e-9, 1e-10); } }
    if (t % 3 == 0) bootCase(f, g); }
  return finish();
}
