// Run-time contract of the output images against the brute-force model and the fit set-up.
#include "fit.h"
using namespace vh;
int main(int argc, char **argv) {
  Args a = args(argc, argv); Rng g(a.seed + 700);
  int N = a.thorough ? 4000 : 500;
  for (int t = 0; t < N && g_fails < 4; t++) {
    FitOpt fo; fo.bad = t % 3 == 0; Fit f = randomFit(g, fo); if (!f.setupOK()) continue;
    test_case(fmt("seed %llu case %d %s", (unsigned long long)a.seed, t, f.str().c_str()));
    ModelObject M; Fit::Bufs b; if (f.setup(M, b) < 0) { fail("set-up succeeds", "FinalSetupForFitting"); continue; }
    { Quiet q; double *x = M.GetModelImageVector(), *y = M.GetResidualImageVector(), *z = M.GetExpandedModelImageVector(); if (x || y || z) fail("no model image before it has been computed", "non-null image"); }
    for (int rep = g.i(1, 4); rep > 0; rep--) {
      f.m.randomParams(g); vector<double> prm = f.m.params, ref = f.m.reference(prm); vector<double> mi(f.N()), ri(f.N()), wi(f.N()), ex(f.m.MC() * f.m.MR()); bool ok = true;
      { Quiet q; if (g.i(0, 3) == 0) M.CreateModelImage(prm.data()); else M.GetFitStatistic(prm.data());
        int order = g.i(0, 2);
        for (int s = 0; s < 4; s++) { int w = (s + order) % 4; double *p = w == 0 ? M.GetModelImageVector() : w == 1 ? M.GetResidualImageVector() : w == 2 ? M.GetWeightImageVector() : M.GetExpandedModelImageVector();
          if (!p) { ok = false; break; } vector<double> &v = w == 0 ? mi : w == 1 ? ri : w == 2 ? wi : ex; memcpy(v.data(), p, v.size() * sizeof(double)); } }
      if (!ok) { fail("images are returned once the model has been computed", "null image"); break; }
      double sc = 0; for (double v : ref) sc = std::max(sc, fabs(v));
      for (int k = 0; k < (int)ex.size(); k++) want("expanded model image is the padded model", fmt("pixel %d", k), ex[k], ref[k], 1e-8, 1e-9 * (1 + sc));
      for (int k = 0; k < f.N(); k++) { double md = f.modelAt(ref.data(), k); string w = fmt("pixel (%d,%d)", k % f.m.DC + 1, k / f.m.DC + 1);
        want("model image is the model at the same data pixel", w, mi[k], md, 1e-8, 1e-9 * (1 + sc));
        if (f.good(k)) want("residual is data - model at the same pixel", w, ri[k], f.data[k] - md, 1e-8, 1e-9 * (1 + sc));
        if (f.st != CHI_MODEL) { double e = f.weight(k, 0); want("weight image is the squared weight in use, zero where masked", w, wi[k], e * e, 1e-9); }
        else if (!f.good(k)) want("weight image is zero where masked", w, wi[k], 0); }
      double *d; { Quiet q; d = M.GetDataVector(); } for (int k = 0; k < f.N(); k++) if (f.good(k)) want("data image is unchanged", fmt("pixel %d", k), d[k], f.data[k]); } }
  return finish();
}
