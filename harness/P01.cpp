// Run-time contract of ModelObject::CreateModelImage / GetSingleFunctionImage against brute force.
#include "model.h"
using namespace vh;
static void cmp(const char *k, Model &m, const vector<double> &e, const double *got, bool crop) {
  if (!got) { fail(k, "null image"); return; }
  double sc = 0; for (double x : e) sc = std::max(sc, fabs(x));
  int W = crop ? m.DC : m.MC(), H = crop ? m.DR : m.MR();
  for (int i = 0; i < H; i++) for (int j = 0; j < W; j++) want(k, fmt("pixel row %d col %d", i, j), got[i * W + j], crop ? e[(i + m.PR()) * m.MC() + j + m.PC()] : e[i * W + j], 1e-8, 1e-9 * (1 + sc)); }
int main(int argc, char **argv) {
  Args a = args(argc, argv); Rng g(a.seed + 100);
  int N = a.thorough ? 3000 : 350;
  for (int t = 0; t < N && g_fails < 4; t++) {
    Model m = randomModel(g); if (t % 50 == 7) { m.DC = 40; m.DR = 37; m.threads = 4; }
    bool late = g.b();
    test_case(fmt("seed %llu case %d %s", (unsigned long long)a.seed, t, m.str().c_str()));
    ModelObject M; if (!m.build(M)) { fail("setup succeeds", "AddPSFVector failed"); continue; }
    { Quiet q; if (!late) m.addFunctions(M); if (M.SetupModelImage(m.DC, m.DR) < 0) { fail("setup succeeds", "SetupModelImage"); continue; } if (late) m.addFunctions(M); }
    if (!m.addRegions(M)) { fail("setup succeeds", "AddOversampledPsfInfo"); continue; }
    wantb("parameter count", "nParams", M.GetNParams() == (int)m.params.size());
    // a history of calls over a small pool of parameter vectors: every result depends only on its own arguments
    vector<vector<double>> pool; for (int k = g.i(1, 3); k > 0; k--) { m.randomParams(g); pool.push_back(m.params); }
    if (pool.size() > 1 && g.b()) { pool.back() = pool[0]; pool.back()[g.i(0, (int)pool[0].size() - 1)] += 0.5 * g.u(); }   // differ in one parameter only
    int rounds = g.i(1, 5); bool first = true;
    for (int r = 0; r < rounds; r++) {
      vector<double> prm = pool[g.i(0, (int)pool.size() - 1)]; int op = first ? 0 : g.i(0, 4); first = false;
      if (op <= 2) { { Quiet q; M.CreateModelImage(prm.data()); }
        vector<double> e = m.reference(prm);
        cmp("model image = convolved sum of components + point sources + oversampled regions", m, e, M.GetExpandedModelImageVector(), false);
        cmp("output image is the PSF-padding-free part", m, e, M.GetModelImageVector(), true); }
      else if (op == 3) { int n = g.i(0, (int)m.comps.size() - 1); double *p; { Quiet q; p = M.GetSingleFunctionImage(prm.data(), n); }
        cmp("single-function image", m, m.reference(prm, n), p, true); }
      else { vector<double> fl(m.comps.size()); Quiet q; M.FindTotalFluxes(prm.data(), g.i(2, 12), g.i(2, 12), fl.data()); } } }
  return finish();
}
