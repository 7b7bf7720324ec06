// Run-time contract: PSF interpolation for point sources.
#include "model.h"
#include <gsl/gsl_errno.h>
#include <gsl/gsl_spline2d.h>
#include <map>
#include <memory>
#include "func_pointsource-rot.h"
using namespace vh; using std::vector; using std::string;
static const char *NM[] = {"bicubic", "lanczos2", "lanczos3"};
static const char *NM2[] = {"Bicubic", "Lanczos2", "Lanczos3"};
struct Psf { int c, r; vector<double> v; double mx; };
static double sinc(double t) { return t == 0 ? 1 : sin(M_PI * t) / (M_PI * t); }
static double lz(double t, int n) { return fabs(t) >= n ? 0 : sinc(t) * sinc(t / n); }
static double reference(const Psf &p, int kind, double x, double y) {
  double cx = (p.c - 1) / 2.0, cy = (p.r - 1) / 2.0;
  if (fabs(x) > cx || fabs(y) > cy) return 0;
  if (kind) { double s = 0; for (int i = 0; i < p.r; i++) for (int j = 0; j < p.c; j++) s += lz(x - (j - cx), kind + 1) * lz(y - (i - cy), kind + 1) * p.v[i * p.c + j]; return s; }
  vector<double> xs, ys; for (int j = 0; j < p.c; j++) xs.push_back(j - cx); for (int i = 0; i < p.r; i++) ys.push_back(i - cy);
  gsl_spline2d *s = gsl_spline2d_alloc(gsl_interp2d_bicubic, p.c, p.r); gsl_spline2d_init(s, xs.data(), ys.data(), p.v.data(), p.c, p.r);
  double v = gsl_spline2d_eval(s, x, y, 0, 0); gsl_spline2d_free(s); return v; }
int main(int argc, char **argv) {
  Args a = args(argc, argv); Rng g(a.seed + 1400); int N = a.thorough ? 6000 : 700; gsl_set_error_handler_off();
  for (int t = 0; t < N && g_fails < 4; t++) {
    Psf p; p.c = g.i(4, 11); p.r = g.i(0, 3) ? g.i(4, 11) : p.c; p.mx = 0; for (int k = 0; k < p.c * p.r; k++) { p.v.push_back(g.r(-0.2, 3)); p.mx = std::max(p.mx, fabs(p.v.back())); }
    int kind = t % 3; double cx = (p.c - 1) / 2.0, cy = (p.r - 1) / 2.0, tol = 1e-9 * p.mx;
    double *heap = (double *)malloc(sizeof(double) * p.c * p.r); memcpy(heap, p.v.data(), sizeof(double) * p.c * p.r);   // heap block of exactly this size: reads beyond it are caught
    { std::unique_ptr<PsfInterpolator> I(kind == 0 ? (PsfInterpolator *)new PsfInterpolator_bicubic(heap, p.c, p.r) : kind == 1 ? (PsfInterpolator *)new PsfInterpolator_lanczos2(heap, p.c, p.r) : (PsfInterpolator *)new PsfInterpolator_lanczos3(heap, p.c, p.r));
      test_case(fmt("%s on a %dx%d PSF", NM[kind], p.c, p.r));
      for (int i = 0; i < p.r; i++) for (int j = 0; j < p.c; j++) want("the PSF is reproduced at its pixels", fmt("%s, %dx%d PSF, column %d row %d", NM[kind], p.c, p.r, j, i), I->GetValue(j - cx, i - cy), p.v[i * p.c + j], 1e-9, tol);
      for (int q = 0; q < 60; q++) { double x = g.r(-cx - 1, cx + 1), y = g.r(-cy - 1, cy + 1);
        if (q < 8) { x = (q & 1) ? cx : -cx; y = g.r(-cy, cy); if (q & 2) { x *= 1 + 1e-12; } if (q & 4) { double z = x; x = g.r(-cx, cx); y = z < 0 ? -cy : cy; } }
        else if (q < 16) { x = floor(x) + (p.c % 2 ? 0 : 0.5) + g.r(-1e-7, 1e-7); }
        want("interpolated PSF", fmt("%s, %dx%d PSF, at %.17g %.17g", NM[kind], p.c, p.r, x, y), I->GetValue(x, y), reference(p, kind, x, y), 1e-6, 2e-6 * p.mx); }
      double far = g.r(1, 1e5); want("zero outside the PSF", fmt("%s", NM[kind]), I->GetValue(g.b() ? cx + far : -cx - far, g.r(-cy, cy)), 0); want("zero outside the PSF", fmt("%s", NM[kind]), I->GetValue(g.r(-cx, cx), g.b() ? cy + far : -cy - far), 0); }
    // point sources of a model
    bool rot = g.b(), cap = g.b(), norm = g.b(); std::unique_ptr<FunctionObject> F(rot ? (FunctionObject *)new PointSourceRot() : (FunctionObject *)new PointSource());
    int W = g.i(1, 14), Hh = g.i(1, 14), th = g.i(1, 6); double xc = g.r(-2, W + 2), yc = g.r(-2, Hh + 2), I0 = g.r(0.1, 1000), pa = g.r(-200, 400);
    test_case(fmt("%s %s on a %dx%d PSF (normalised %d), image %dx%d, centre %.9g %.9g, PA %g, counts %g, %d threads", rot ? "PointSourceRot" : "PointSource", (cap ? NM2 : NM)[kind], p.c, p.r, (int)norm, W, Hh, xc, yc, pa, I0, th));
    std::map<string, string> ex; int st = 1; if (kind || g.b()) { ex["method"] = (cap ? NM2 : NM)[kind]; Quiet q; st = F->SetExtraParams(ex); }
    wantb("documented interpolation methods are accepted", fmt("%s refuses method %s (returns %d)", rot ? "PointSourceRot" : "PointSource", (cap ? NM2 : NM)[kind], st), st == 1);
    if (st != 1) { free(heap); continue; }
    Psf pn = p; for (double &x : pn.v) x += 0.3; memcpy(heap, pn.v.data(), sizeof(double) * p.c * p.r); double S = 0; for (double x : pn.v) S += x; if (norm) for (double &x : pn.v) x /= S;
    ModelObject M; int ok; vector<double> prm; prm.push_back(xc); prm.push_back(yc); if (rot) prm.push_back(pa); prm.push_back(I0); vector<int> starts(1, 0);
    { Quiet q; M.SetVerboseLevel(-1); M.SetMaxThreads(th); ok = M.AddPSFVector((long)p.c * p.r, p.c, p.r, heap, norm); ok |= M.AddFunction(F.release()); M.DefineFunctionSets(starts); M.SetupModelImage(W, Hh); M.CreateModelImage(prm.data()); }
    wantb("a model with a point source and a PSF can be set up", "set-up fails", ok == 0);
    const double *im = M.GetModelImageVector(); double ph = (pa + 90) * M_PI / 180, C = cos(ph), Sn = sin(ph);
    for (int i = 0; i < Hh; i++) for (int j = 0; j < W; j++) { double dx = j + 1 - xc, dy = i + 1 - yc, u = rot ? dx * C + dy * Sn : dx, v = rot ? -dx * Sn + dy * C : dy;
      if (fabs(fabs(u) - cx) < 1e-6 || fabs(fabs(v) - cy) < 1e-6) continue;
      want("a point source is its counts times the PSF at the offset from its centre", fmt("pixel %d,%d", j + 1, i + 1), im[i * W + j], I0 * reference(pn, kind, u, v), 1e-6, 2e-6 * I0 * p.mx); }
    free(heap); }
  for (int kind = 0; kind < 3; kind++) for (int c = 1; c < 6; c++) for (int r = 1; r < 6; r++) {   // small PSFs and missing PSFs are refused
    ModelObject M; vector<double> v(c * r, 1); FunctionObject *F = new PointSource(); std::map<string, string> ex; ex["method"] = NM[kind]; test_case(fmt("%s with a %dx%d PSF", NM[kind], c, r)); Quiet q; int ok; F->SetExtraParams(ex); bool none = c == 5 && r == 1;
    if (!none) M.AddPSFVector(c * r, c, r, v.data()); ok = M.AddFunction(F); wantb("a PSF too small to interpolate is refused", fmt("status %d", ok), (ok == 0) == (!none && c >= 4 && r >= 4)); }
  std::map<string, string> bad; bad["method"] = "nearest"; PointSource f1; PointSourceRot f2; test_case("unknown method"); { Quiet q; wantb("an unknown method is refused", "PointSource", f1.SetExtraParams(bad) < 0); wantb("an unknown method is refused", "PointSourceRot", f2.SetExtraParams(bad) < 0); }
  return finish();
}
