// Run-time contract: the fluxes makeimage reports are those of the components of the model.
#include "funcs.h"
#define main makeimage_main
#include "core/makeimage_main.cpp"
#undef main
#include <gsl/gsl_sf_gamma.h>
#include <gsl/gsl_errno.h>
#include "helper_funcs.h"
using namespace vh;
static bool background(const Fn &f) { return !strcmp(f.name, "FlatSky") || !strcmp(f.name, "TiltedSkyPlane"); }
static double analytic(const Fn &f, const Vec &p) {   // integral of the profile over the plane
  const double pi = 3.14159265358979; std::string n = f.name;
  if (n == "Exponential" || n == "Gaussian") return 2 * pi * (1 - p[1]) * p[2] * p[3] * p[3];
  if (n == "Sersic") { double b = Calculate_bn(p[2]); return 2 * pi * p[2] * (1 - p[1]) * p[3] * p[4] * p[4] * exp(b) * pow(b, -2 * p[2]) * gsl_sf_gamma(2 * p[2]); }
  if (n == "PointSource") return p[0];
  if (n == "PointSourceRot") return p[1];
  return NAN; }
static std::string nameOf(int k) { FunctionObject *f = FN[k].make(); std::string s = f->GetShortName(); delete f; return s; }
int main(int argc, char **argv) {
  Args a = args(argc, argv); Rng g(a.seed + 1000); int N = a.thorough ? 400 : 60; gsl_set_error_handler_off();
  for (int t = 0; t < N && g_fails < 4; t++) {
    int nf = t < NFN ? g.i(1, 3) : g.i(1, 6), W = g.i(1, 40), H = g.b() ? W : g.i(1, 40); std::vector<int> kinds; std::vector<int> starts; Vec par; std::vector<int> offs; std::string s;
    for (int k = 0; k < nf; k++) { int q = k == 0 && t < NFN ? t : g.i(0, NFN - 1); if (FN[q].slow && k) q = g.i(0, 3); kinds.push_back(q); if (FN[q].slow) W = H = std::min(W, 5);
      if (k == 0 || g.i(0, 2) == 0) { starts.push_back(k); par.push_back(g.r(-20, 60)); par.push_back(g.r(-20, 60)); s += "| "; }
      offs.push_back((int)par.size()); Vec p = randomParams(FN[q], g); par.insert(par.end(), p.begin(), p.end()); s += show(FN[q], p) + " "; }
    int th = g.i(1, 8), chunk = g.i(1, 12); test_case(fmt("grid %dx%d threads %d chunk %d: ", W, H, th, chunk) + s);
    ModelObject M; { Quiet q; M.SetVerboseLevel(-1); M.SetMaxThreads(th); M.SetOMPChunkSize(chunk); for (int k : kinds) M.AddFunction(FN[k].make()); M.DefineFunctionSets(starts); }
    auto expected = [&](int w, int h, Vec &e) { double tot = 0; e.assign(nf, 0); for (int k = 0; k < nf; k++) { const Fn &f = FN[kinds[k]]; if (background(f)) continue; Vec p(par.begin() + offs[k], par.begin() + offs[k] + np(f)); double v = analytic(f, p);
        if (std::isnan(v)) { auto B = build(f); bool sub = true; (void)sub; B->Setup(p.data(), 0, 0.5 * w, 0.5 * h); v = 0; for (int i = 1; i <= h; i++) for (int j = 1; j <= w; j++) v += B->GetValue(j, i); }
        e[k] = v; tot += v; } return tot; };
    Vec e, got(nf, 0); double tot = expected(W, H, e), gt; Vec was = par; { Quiet q; gt = M.FindTotalFluxes(par.data(), W, H, got.data()); }
    for (int k = 0; k < nf; k++) want(background(FN[kinds[k]]) ? "background components have no flux" : "flux of a component", fmt("component %d (%s)", k, FN[kinds[k]].name), got[k], e[k], 1e-8, 1e-9 * fabs(tot));
    want("total flux is the sum of the component fluxes", "total", gt, tot, 1e-8, 1e-12); wantb("parameters are left alone", "parameters", was == par);
    // as reported by makeimage
    int n = std::min(W, 12); auto opt = std::make_shared<MakeimageOptions>(); opt->printFluxes = false; opt->saveFluxes = true; opt->saveFluxesFileName = "fluxes.txt"; opt->estimationImageSize = n; bool mag = g.b(); double zp = g.r(15, 28); if (mag) opt->magZeroPoint = zp;
    tot = expected(n, n, e); { Quiet q; DetermineFluxes(&M, par.data(), opt, "makeimage"); }
    FILE *F = fopen("fluxes.txt", "r"); if (!F) { fail("reported fluxes", "no file written"); break; } char line[2000]; int row = 0;
    while (fgets(line, sizeof line, F)) { if (line[0] == '#' || line[0] == '\n') continue; char nm[100], m[100]; double fl = NAN, fr = NAN; if (sscanf(line, "%99s %lf %99s %lf", nm, &fl, m, &fr) != 4) { fail("reported fluxes", fmt("line '%s'", line)); break; }
      double ef = row < nf ? e[row] : tot; std::string nmw = row < nf ? nameOf(kinds[row]) : "Total"; wantb("reported component", fmt("row %d: %s instead of %s", row, nm, nmw.c_str()), nmw == nm);
      want("reported flux", fmt("row %d (%s)", row, nm), fl, ef, 2e-4, 1e-300); want("reported fraction", fmt("row %d (%s)", row, nm), fr, row < nf ? ef / tot : 1, 1e-3, 1e-5);
      if (mag && ef > 1e-30) want("reported magnitude", fmt("row %d (%s)", row, nm), atof(m), zp - 2.5 * log10(ef), 1e-5, 2e-4); else if (!mag) wantb("no magnitude without a zero point", m, !strcmp(m, "---")); row++; }
    fclose(F); wantb("one line per component and the total", fmt("%d lines", row), row == nf + 1); }
  return finish();
}
