// Run-time contract: a function told about an image behaves like a plain one given the adjusted parameters.
#include "funcs.h"
using namespace vh;
static double relax(const Fn &f) { return f.slow ? 2e-4 : 1e-9; }
int main(int argc, char **argv) {
  Args a = args(argc, argv); Rng g(a.seed + 900);
  static double psf[7 * 5]; for (int k = 0; k < 35; k++) psf[k] = 0.3 + 0.1 * ((k * 7) % 13);
  int N = a.thorough ? 400 : 40;
  for (int k = 0; k < NFN && g_fails < 4; k++) { const Fn &f = FN[k]; int n = np(f);
    for (int t = 0; t < (f.slow ? N / 4 + 2 : N) && g_fails < 4; t++) {
      Vec p = randomParams(f, g); int off = g.i(0, 1) ? 0 : g.i(1, 6), tail = g.i(0, 3); double ps = t == 0 ? 1 : pow(10, g.r(-0.6, 0.6)), rot = t == 0 ? 0 : g.i(0, 5) ? g.r(-180, 180) : 0, sc = t == 0 ? 1 : g.r(0.1, 10), xc = g.r(-10, 60), yc = g.r(-10, 60);
      Vec in(off + n + tail), adj, plain; for (double &v : in) v = g.r(-5, 5); for (int j = 0; j < n; j++) in[off + j] = p[j];
      adj.assign(in.size(), -987654.25); plain = in; for (int j = 0; j < n; j++) plain[off + j] = role(f.roles[j], p[j], ps, rot, sc);
      test_case(fmt("%s at index %d, pixel scale %.9g rotation %.9g intensity %.9g centre (%.6g,%.6g)", show(f, p).c_str(), off, ps, rot, sc, xc, yc));
      auto A = build(f), B = build(f); if (t != 0 || g.b()) A->SetImageParameters(ps, rot, sc); bool sub = g.b(); A->SetSubsampling(sub); B->SetSubsampling(sub);
      if (A->GetNParams() != n) { fail("number of parameters", fmt("%d", A->GetNParams())); break; }
      A->AdjustParametersForImage(in.data(), adj.data(), off);
      for (int j = 0; j < (int)adj.size(); j++) want(j >= off && j < off + n ? "adjusted parameter has the adjustment of its kind" : "parameters of other functions are not touched", fmt("entry %d", j - off), adj[j], j >= off && j < off + n ? plain[j] : -987654.25, 1e-12);
      if (point(f)) { Quiet q; A->AddPsfData(psf, 7, 5); B->AddPsfData(psf, 7, 5); }
      if (g.i(0, 2) == 0) { Vec other = in; for (double &v : other) v *= 1.37; A->Setup(other.data(), off, xc + 1, yc - 2); }   // earlier use of the object
      Vec was = in; A->Setup(in.data(), off, xc, yc); B->Setup(plain.data(), off, xc, yc); wantb("Setup leaves the parameter list alone", "parameters", was == in);
      double L = 3; for (int j = 0; j < n; j++) if (f.roles[j] == 'l') L = plain[off + j]; if (point(f)) L = 1;
      double peak = 0; for (int q = 0; q < (f.slow ? 3 : 10); q++) { double r = L * g.r(0, 3), th = g.r(0, 6.3), x = xc + r * cos(th), y = yc + r * sin(th); if (q == 0) x = xc, y = yc; if (q == 1) x = floor(x), y = floor(y);
        double va = A->GetValue(x, y), vb = B->GetValue(x, y); peak = std::max(peak, fabs(vb));
        want("value for the image equals the plain value for adjusted parameters", fmt("at (%.9g,%.9g) subsampling %d", x, y, (int)sub), va, vb, relax(f), 1e-9 * peak + (f.slow ? 1e-6 * peak : 0)); }
      want("total flux", "TotalFlux", A->TotalFlux(), B->TotalFlux(), 1e-9); } }
  return finish();
}
