// Run-time contract: image functions return their documented profile (mean over a regular grid in the pixel when sub-pixel integration is on, line-of-sight integral for 3-D functions), from any number of threads.
#include "funcs.h"
#include "helper_funcs.h"
#include <functional>
#include <gsl/gsl_integration.h>
#include <gsl/gsl_sf_bessel.h>
#include <gsl/gsl_cdf.h>
#include <gsl/gsl_errno.h>
using namespace vh;
static const double PI = 3.14159265358979323846;
typedef std::function<double(double, double)> Prof;
static double gaussian(double d, double s) { return exp(-0.5 * (d / s) * (d / s)); }
static double broken(double r, double h1, double h2, double rb, double al) { // joined at rb: log form, no overflow
  double e = (1 / h1 - 1 / h2) / al, t = al * (r - rb); double l = t > 30 ? t + log1p(exp(-t)) : log1p(exp(t));
  return exp(-r / h1 + e * (l - log1p(exp(-al * rb)))); }
static double sechn(double z, double n, double z0) { double a = 2 / n, t = fabs(z) / (a * z0); return exp(-a * (t + log1p(exp(-2 * t)) - log(2.))); }
static double king(double r, double rc, double rt, double al) { if (r >= rt) return 0; double t = pow(1 + (rt / rc) * (rt / rc), -1 / al); return pow((pow(1 + (r / rc) * (r / rc), -1 / al) - t) / (1 - t), al); }
static double sersic(double x, double n) { return exp(-Calculate_bn(n) * (pow(x, 1 / n) - 1)); }
static double ferrers(double m2, double n) { return m2 > 1 ? 0 : pow(1 - m2, n); }
static Prof profile(const std::string &f, const Vec &p) {
  auto rad = [](double d) { return d / 180 * PI; };
  auto rot = [=](double dx, double dy, double &a, double &b) { double t = rad(p[0]); a = -dx * sin(t) + dy * cos(t); b = -dx * cos(t) - dy * sin(t); };  // along / across the position angle measured from +y
  auto el = [=](std::function<double(double)> law) -> Prof { return [=](double dx, double dy) { double a, b; rot(dx, dy, a, b); return law(hypot(a, b / (1 - p[1]))); }; };
  auto gen = [=](double dx, double dy) { double a, b; rot(dx, dy, a, b); double e = p[2] + 2; return pow(pow(fabs(a), e) + pow(fabs(b) / (1 - p[1]), e), 1 / e); };
  if (f == "Exponential") return el([=](double r) { return p[2] * exp(-r / p[3]); });
  if (f == "Gaussian") return el([=](double r) { return p[2] * gaussian(r, p[3]); });
  if (f == "Sersic") return el([=](double r) { return p[3] * sersic(r / p[4], p[2]); });
  if (f == "GenSersic") return [=](double dx, double dy) { return p[4] * sersic(gen(dx, dy) / p[5], p[3]); };
  if (f == "GenExponential") return [=](double dx, double dy) { return p[3] * exp(-gen(dx, dy) / p[4]); };
  if (f == "CoreSersic") return el([=](double r0) { double r = std::max(r0, 1e-3), n = p[2], ib = p[3], re = p[4], rb = p[5], al = p[6], ga = p[7], b = Calculate_bn(n);
    return ib * pow(2, -ga / al) * exp(b * pow(pow(2, 1 / al) * rb / re, 1 / n)) * pow(1 + pow(rb / r, al), ga / al) * exp(-b * pow((pow(r, al) + pow(rb, al)) / pow(re, al), 1 / (n * al))); });
  if (f == "BrokenExponential") return el([=](double r) { return p[2] * broken(r, p[3], p[4], p[5], p[6]); });
  if (f == "BrokenExponential2D") return [=](double dx, double dy) { double a, b; rot(dx, dy, a, b); return p[1] * broken(fabs(a), p[2], p[3], p[4], p[5]) * exp(-fabs(b) / p[6]); };
  if (f == "EdgeOnRing") return [=](double dx, double dy) { double a, b; rot(dx, dy, a, b); return p[1] * gaussian(b, p[4]) * (gaussian(a - p[2], p[3]) + gaussian(a + p[2], p[3])); };
  if (f == "EdgeOnRing2Side") return [=](double dx, double dy) { double a, b; rot(dx, dy, a, b); return p[1] * gaussian(b, p[5]) * (gaussian(a - p[2], a < p[2] ? p[3] : p[4]) + gaussian(a + p[2], a > -p[2] ? p[3] : p[4])); };
  if (f == "FlatBar") return [=](double dx, double dy) { double a, b; rot(dx, dy, a, b); double r = hypot(a, b / (1 - p[1])), c = hypot(a, b), lim = rad(p[2]), h = p[5], rb = p[6];
    if (c > 0 && r > 0) { double t = fabs(atan(b / a)); h = t > lim ? p[4] : p[5] + (p[4] - p[5]) * (t / lim) * (t / lim); rb *= r / c; } return p[3] * broken(r, p[4], h, rb, p[7]); };
  if (f == "GaussianRing") return el([=](double r) { return p[2] * gaussian(r - p[3], p[4]); });
  if (f == "GaussianRing2Side") return el([=](double r) { return p[2] * gaussian(r - p[3], r < p[3] ? p[4] : p[5]); });
  if (f == "GaussianRingAz") return [=](double dx, double dy) { double a, b; rot(dx, dy, a, b); double m = p[2] * p[3], th = atan2(b, a); return ((p[2] + m) / 2 + (p[2] - m) / 2 * cos(2 * th)) * gaussian(hypot(a, b / (1 - p[1])) - p[4], p[5]); };
  if (f == "Moffat") return el([=](double r) { double al = 0.5 * p[3] / sqrt(pow(2, 1 / p[4]) - 1); return p[2] * pow(1 + (r / al) * (r / al), -p[4]); });
  if (f == "ModifiedKing") return el([=](double r) { return p[2] * king(r, p[3], p[4], p[5]); });
  if (f == "ModifiedKing2") return el([=](double r) { return p[2] * king(r, p[3], p[3] * p[4], p[5]); });
  if (f == "FerrersBar2D") return [=](double dx, double dy) { double m = gen(dx, dy) / p[5]; return p[4] * ferrers(m * m, p[3]); };
  if (f == "FlatSky") return [=](double, double) { return p[0]; };
  if (f == "TiltedSkyPlane") return [=](double dx, double dy) { return p[0] + p[1] * dx + p[2] * dy; };
  if (f == "EdgeOnDisk") return [=](double dx, double dy) { double a, b; rot(dx, dy, a, b); double x = fabs(a) / p[2]; return 2 * p[2] * p[1] * (x == 0 ? 1 : x > 600 ? 0 : x * gsl_sf_bessel_K1(x)) * sechn(b, p[3], p[4]); };
  // 3-D: density at (x, y, z) of the component's frame, integrated over the line of sight
  std::function<double(double, double, double)> den; double lim = 0;
  auto turn = [](double t, double x, double y, double &u, double &v) { u = x * cos(t) + y * sin(t); v = -x * sin(t) + y * cos(t); };
  if (f == "ExponentialDisk3D") { lim = 20 * p[3]; den = [=](double x, double y, double z) { return p[2] * exp(-hypot(x, y) / p[3]) * sechn(z, p[4], p[5]); }; }
  if (f == "BrokenExponentialDisk3D") { lim = 20 * std::max(p[5], p[4]); den = [=](double x, double y, double z) { return p[2] * broken(hypot(x, y), p[3], p[4], p[5], p[6]) * sechn(z, p[7], p[8]); }; }
  if (f == "GaussianRing3D") { lim = 2 * p[5]; den = [=](double x, double y, double z) { double u, v; turn(rad(p[2] + 90), x, y, u, v); return p[4] * gaussian(hypot(u, v / (1 - p[3])) - p[5], p[6]) * exp(-fabs(z) / p[7]); }; }
  if (f == "FerrersBar3D") { lim = 1.01 * std::max(p[5] * p[4] * sin(rad(p[1])), p[4]); den = [=](double x, double y, double z) { double u, v; turn(rad(p[2] + 90), x, y, u, v); double A = v / p[4], B = u / (p[4] * p[5]), C = z / (p[4] * p[6]); return p[3] * ferrers(A * A + B * B + C * C, p[7]); }; }
  if (f == "DattathriPeanut3D") { lim = 10 * p[4]; den = [=](double x, double y, double z) { double u, v; turn(rad(p[2]), x, y, u, v); double z0 = p[8] * (gaussian(hypot(u - p[7], v), p[9]) + gaussian(hypot(u + p[7], v), p[9])) + p[4] * p[6];
      double R = pow(pow(pow(fabs(u) / p[4], p[11]) + pow(fabs(v) / (p[4] * p[5]), p[11]), p[10] / p[11]) + pow(fabs(z) / z0, p[10]), 1 / p[10]), c = cosh(R); return p[3] / (c * c); }; }
  if (!den) return nullptr;
  return [=](double dx, double dy) { double a, b, i = rad(p[1]); rot(dx, dy, a, b); b = -b; double ci = cos(i), si = sin(i);
    // component frame: x along the line of nodes, which lies along the position angle
    auto at = [=](double s) { return den(a, -b * ci + s * si, -b * si - s * ci); };
    std::vector<double> cut = {-lim, lim, 0}; if (ci > 1e-6) cut.push_back(-b * si / ci); for (double q : {-1., 1.}) if (si > 1e-6) cut.push_back(b * ci / si + q * 0.1 * lim), cut.push_back(b * ci / si);
    double L = lim; for (int k = 1; k < 12; k++) { L *= 0.4; cut.push_back(-L); cut.push_back(L); if (ci > 1e-6) cut.push_back(-b * si / ci + L), cut.push_back(-b * si / ci - L); }
    std::sort(cut.begin(), cut.end()); double sum = 0; struct W { std::function<double(double)> f; } w{at}; gsl_function F; F.function = [](double s, void *q) { return ((W *)q)->f(s); }; F.params = &w;
    static thread_local gsl_integration_workspace *ws = gsl_integration_workspace_alloc(2000);
    for (size_t k = 0; k + 1 < cut.size(); k++) { double lo = std::max(cut[k], -lim), hi = std::min(cut[k + 1], lim), r, e; if (!(hi - lo > 1e-12 * lim)) continue; gsl_integration_qag(&F, lo, hi, 1e-12, 1e-8, 2000, GSL_INTEG_GAUSS21, ws, &r, &e); sum += r; }
    return sum; }; }
static double gridMean(const Prof &f, double dx, double dy, int n) { double s = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) s += f(dx - 0.5 + (i + 0.5) / n, dy - 0.5 + (j + 0.5) / n); return s / n / n; }
int main(int argc, char **argv) {
  Args a = args(argc, argv); Rng g(a.seed + 800); gsl_set_error_handler_off();
  for (int k = 0; k < 200 && g_fails < 4; k++) { double n = k == 0 ? 0.36 : k < 40 ? g.r(0.1, 0.37) : g.r(0.37, 12); test_case(fmt("Calculate_bn %.9g", n));
    want("Sersic b_n makes r_e the half-light radius", "b_n", Calculate_bn(n), gsl_cdf_gamma_Pinv(0.5, 2 * n, 1), n > 0.36 ? 1e-3 : 2e-2, 3e-3); }
  for (int k = 0; k < NFN && g_fails < 4; k++) { const Fn &f = FN[k]; int np_ = np(f); if (point(f)) continue; bool flat = !strcmp(f.name, "FlatBar") || !strcmp(f.name, "GaussianRingAz"), los = strstr(f.name, "3D");
    int N = (los ? 12 : 40) * (a.thorough ? 8 : 1);
    for (int t = 0; t < N && g_fails < 4; t++) {
      Vec p = randomParams(f, g); int off = g.i(0, 1) ? 0 : g.i(1, 6), tail = g.i(0, 3); Vec in(off + np_ + tail); for (double &v : in) v = g.r(-5, 5); for (int j = 0; j < np_; j++) in[off + j] = p[j];
      double xc = g.r(-10, 60), yc = g.r(-10, 60); bool sub = !los && g.i(0, 2) == 0; test_case(fmt("%s at index %d, centre (%.9g,%.9g), subsampling %d", show(f, p).c_str(), off, xc, yc, (int)sub));
      auto A = build(f); A->SetSubsampling(sub); if (g.b()) { Vec o = in; for (double &v : o) v *= 1.21; A->Setup(o.data(), off, xc + 3, yc); } A->Setup(in.data(), off, xc, yc);
      Prof P = profile(f.name, p); double L = 3; for (int j = 0; j < np_; j++) if (f.roles[j] == 'l') L = p[j];
      double peak = fabs(P(0.01 * L, 0.02 * L)); int M = los ? 4 : 12; std::vector<double> xs, ys, got, ref; double tol = los ? 2e-3 : 1e-8, ab = los ? (strstr(f.name, "Ferrers") ? 2e-2 : 1e-3) : 1e-9;
      for (int q = 0; q < M; q++) { double r = L * (q < 3 ? g.r(0, 0.3) : g.r(0, 4)), th = g.r(0, 2 * PI), x = xc + r * cos(th), y = yc + r * sin(th); if (g.i(0, 5) == 0 && !los) x = floor(x) + 0.5; if (q == 0 && !flat && !los) x = xc, y = yc; xs.push_back(x); ys.push_back(y);
        peak = std::max(peak, fabs(P(x - xc, y - yc))); got.push_back(A->GetValue(x, y)); }
      for (int q = 0; q < M; q++) { double dx = xs[q] - xc, dy = ys[q] - yc, one = P(dx, dy);
        if (!sub) { want(los ? "line-of-sight integral of the documented density" : "documented profile", fmt("at (%.9g,%.9g)", xs[q], ys[q]), got[q], one, tol, ab * peak + 1e-300); continue; }
        bool ok = close(got[q], one, 1e-8, 1e-9 * peak); for (int n = 2; n <= 100 && !ok; n++) ok = close(got[q], gridMean(P, dx, dy, n), 1e-8, 1e-9 * peak);
        if (!ok) fail("mean of the profile over a regular grid in the pixel", fmt("at (%.9g,%.9g): got %.17g, profile at the centre %.17g, 20x20 mean %.17g", xs[q], ys[q], got[q], one, gridMean(P, dx, dy, 20))); }
      // same values when several threads evaluate the same object
      std::vector<double> par(64 * M);
      #pragma omp parallel for num_threads(8) schedule(static, 1)
      for (int w = 0; w < 64 * M; w++) par[w] = A->GetValue(xs[w % M], ys[w % M]);
      for (int w = 0; w < 64 * M; w++) if (!(par[w] == got[w % M] || (par[w] != par[w] && got[w % M] != got[w % M]))) { fail("evaluating in parallel changes nothing", fmt("at (%.9g,%.9g): serial %.17g, in parallel %.17g", xs[w % M], ys[w % M], got[w % M], par[w])); break; } } }
  return finish();
}
