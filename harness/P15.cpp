// Multi-image set-ups: parameter assembly and joint statistic/deviates against a direct statement of the contract.
#include "boot.h"
#include "model_object_multimage.h"
#include "param_holder.h"
#include "paramvector_processing.h"
#include "definitions_multimage.h"
using namespace vh;
// where a centre of the reference image appears in an image (pixels `ps` times the reference's, axes turned CCW by rot degrees)
static void carried(double ps, double rot, double xr, double yr, double xn, double yn, double xi, double yi, double &x, double &y) {
  double t = rot * M_PI / 180, dx = (xn - xr) / ps, dy = (yn - yr) / ps; x = xi + dx * cos(t) + dy * sin(t); y = yi - dx * sin(t) + dy * cos(t); }
// the parameter vector of image im: layout = sizes/starts of the shared functions, loc = numbers of local parameters
static vector<double> assembled(const vector<double> &all, int nIm, int im, const vector<int> &size, const vector<int> &start, const vector<int> &loc) {
  int pos = 5 * (nIm - 1), ng = 0; for (size_t k = 0; k < size.size(); k++) ng += size[k] + 2 * start[k];
  vector<double> out(all.begin() + pos, all.begin() + pos + ng); double xr = all[pos], yr = all[pos + 1];
  if (im > 0) { const double *d = &all[5 * (im - 1)]; int o = 0; bool first = true;
    for (size_t k = 0; k < size.size(); k++) { if (start[k]) { if (first) { out[0] = d[3]; out[1] = d[4]; first = false; } else carried(d[0], d[1], xr, yr, all[pos + o], all[pos + o + 1], d[3], d[4], out[o], out[o + 1]); o += 2; } o += size[k]; } }
  int q = pos + ng; for (int j = 0; j < im; j++) q += loc[j];
  for (int j = 0; j < loc[im]; j++) out.push_back(all[q + j]);
  return out; }
static double someScale(Rng &g) { return g.i(0, 3) == 0 ? 1 : g.b() ? g.r(.2, 1) : g.r(1, 5); }
static double someRot(Rng &g) { return g.i(0, 3) == 0 ? 90. * g.i(-3, 3) : g.r(-180, 360); }
static void vectors(Rng &g, int t, uint64_t seed) {
  int nIm = g.i(1, 5), nf = g.i(1, 6); vector<int> size, start, loc; int sets = 0, np = 0, nl = 0;
  for (int k = 0; k < nf; k++) { size.push_back(g.i(0, 7)); start.push_back(k == 0 || g.b()); sets += start.back(); np += size.back() + 2 * start.back(); }
  bool locs = g.b(); for (int k = 0; k < nIm; k++) { loc.push_back(locs && g.b() ? g.i(1, 9) : 0); nl += loc.back(); }
  int tot = 5 * (nIm - 1) + np + nl; string sig = fmt("vectors: seed %llu case %d images %d functions", (unsigned long long)seed, t, nIm); for (int k = 0; k < nf; k++) sig += fmt(" %s%d", start[k] ? "|" : "", size[k]); sig += " local"; for (int x : loc) sig += fmt(" %d", x); test_case(sig);
  std::unique_ptr<bool[]> flags(new bool[nf]); for (int k = 0; k < nf; k++) flags[k] = start[k];
  ParamHolder H; H.GeneralSetup(nIm, nf, tot, sets, size, flags.get(), loc);
  for (int rep = 0; rep < 3; rep++) {
    vector<double> all(tot); for (double &x : all) x = g.r(-50, 300); for (int k = 0; k < nIm - 1; k++) { all[5 * k] = someScale(g); all[5 * k + 1] = someRot(g); all[5 * k + 2] = g.r(.1, 10); }
    vector<double> keep = all; H.AddNewParameterVector(all.data()); wantb("the full parameter vector is not modified", "AddNewParameterVector", keep == all);
    for (int q = 0; q < 2 * nIm; q++) { int im = q < nIm ? q : g.i(0, nIm - 1); vector<double> ref = assembled(all, nIm, im, size, start, loc), out(ref.size(), -777.), d(3, -777.);
      H.GetParamsForModelObject(im, out.data()); for (size_t k = 0; k < ref.size(); k++) want("an image's parameter vector is its own centres plus the shared and local parameters", fmt("image %d entry %zu", im, k), out[k], ref[k], 1e-10, 1e-9);
      H.GetImageParams(im, d.data()); double e[3] = {1, 0, 1}; if (im) for (int k = 0; k < 3; k++) e[k] = all[5 * (im - 1) + k]; for (int k = 0; k < 3; k++) want("image-description parameters are the image's own", fmt("image %d entry %d", im, k), d[k], e[k], 0, 0);
      vector<double> direct(ref.size(), -777.); H.AssembleParametersForImage(all.data(), im, direct.data()); for (size_t k = 0; k < ref.size(); k++) want("AssembleParametersForImage", fmt("image %d entry %zu", im, k), direct[k], ref[k], 1e-10, 1e-9);
      if (!nl) { vector<double> o2(np, -777.); AssembleParamsForImage(all.data(), tot, nIm, im, nf, size, flags.get(), sets, o2.data()); for (int k = 0; k < np; k++) want("AssembleParamsForImage", fmt("image %d entry %d", im, k), o2[k], ref[k], 1e-10, 1e-9); }
      double a[5] = {-7, -7, -7, -7, -7}; int st = ExtractImageParams(all.data(), im, a[0], a[1], a[2], a[3], a[4]); wantb("ExtractImageParams status", fmt("image %d: %d", im, st), st == (im ? 0 : -1)); for (int k = 0; k < 5; k++) want("image-description parameters are the image's own block of five", fmt("image %d entry %d", im, k), a[k], im ? all[5 * (im - 1) + k] : -7., 0, 0); } } }
// ---- whole objects
static const int INTENS[5] = {2, 2, 3, 2, 0}, SIZE[5] = {3, 3, 4, 3, -1};   // positions of the intensity and size parameters
struct Multi { vector<Fit> f; vector<Comp> global; vector<vector<Comp>> local; vector<Fit::Bufs> bufs; ModelObjectMultImage M; vector<ModelObject *> obj;
  vector<double> all; vector<int> size, start, loc;
  string str() const { string s = fmt("%zu images, shared", f.size()); for (auto &c : global) s += fmt(" %s%d", c.start ? "|" : "", c.kind); s += " params"; for (double p : all) s += fmt(" %.7g", p); for (auto &x : f) s += " // " + x.str(); return s; }
  void random(Rng &g, int bad = 1) {
    int nIm = g.i(1, 3); FitOpt o; o.bad = bad; int mode = g.i(0, 2); int nf = g.i(1, 4);
    for (int k = 0; k < nf; k++) { Comp c; c.kind = g.i(0, 4); c.start = k == 0 || g.b(); global.push_back(c); } if (g.b()) { Comp c; c.kind = 4; c.start = false; global.push_back(c); }
    bool locs = g.b();
    for (int i = 0; i < nIm; i++) { o.st = mode == 0 ? CASH : mode == 1 ? PMLR : g.i(0, 2); f.push_back(randomFit(g, o)); Fit &x = f.back(); vector<Comp> l; if (locs && g.b()) { int n = g.i(1, 2); for (int k = 0; k < n; k++) { Comp c; c.kind = g.i(0, 4); c.start = k == 0 || g.b(); l.push_back(c); } }
      x.m.comps = global; x.m.comps.insert(x.m.comps.end(), l.begin(), l.end()); x.m.nGlobal = global.size(); local.push_back(l); x.fnLate = false; x.m.randomParams(g); int n = 0; for (auto &c : l) n += NPAR[c.kind] + 2 * c.start; loc.push_back(n); }
    for (auto &c : global) { size.push_back(NPAR[c.kind]); start.push_back(c.start); }
    bufs.resize(nIm); params(g); }
  // a full parameter vector and, per image, the parameters its own plain model has then
  void params(Rng &g) {
    int nIm = f.size(); all.clear(); for (int i = 1; i < nIm; i++) { all.push_back(someScale(g)); all.push_back(someRot(g)); all.push_back(g.r(.3, 4)); all.push_back(g.r(-1, f[i].m.DC + 2)); all.push_back(g.r(-1, f[i].m.DR + 2)); }
    Model gm = f[0].m; gm.comps = global; gm.randomParams(g); all.insert(all.end(), gm.params.begin(), gm.params.end());
    for (int i = 0; i < nIm; i++) { Model lm = f[i].m; lm.comps = local[i]; lm.randomParams(g); all.insert(all.end(), lm.params.begin(), lm.params.end()); }
    for (int i = 0; i < nIm; i++) { vector<double> p = assembled(all, nIm, i, size, start, loc); double ps = 1, rot = 0, fl = 1; if (i) ps = all[5 * (i - 1)], rot = all[5 * (i - 1) + 1], fl = all[5 * (i - 1) + 2];
      int o = 0; for (auto &c : global) { o += 2 * c.start; if (c.kind != 4) p[o] -= rot; p[o + INTENS[c.kind]] *= fl; if (SIZE[c.kind] >= 0) p[o + SIZE[c.kind]] /= ps; o += NPAR[c.kind]; } f[i].m.params = p; } }
  bool setup() {
    Quiet q; M.SetVerboseLevel(-1);
    for (size_t i = 0; i < f.size(); i++) { ModelObject *o = new ModelObject(); f[i].setup(*o, bufs[i], false); o->PopulateParameterNames(); o->FinalModelSetup(); M.AddModelObject(o); obj.push_back(o); }
    vector<int> st; for (size_t k = 0; k < global.size(); k++) { if (global[k].start) st.push_back(k); M.AddFunction(makeFn(global[k])); } M.DefineFunctionSets(st); M.PopulateParameterNames(); M.FinalModelSetup();
    if (f[0].st == CASH) M.UseCashStatistic(); else if (f[0].st == PMLR) M.UsePoissonMLR();
    return M.FinalSetupForFitting() >= 0; }
  // reference: images, statistic
  bool usable(vector<vector<double>> &ex) { ex.clear(); for (auto &x : f) { ex.push_back(x.m.reference(x.m.params)); for (int k = 0; k < x.N(); k++) if (x.st == CHI_MODEL && x.modelAt(ex.back().data(), k) + x.sky <= .05) return false; } return true; }
};
static void whole(Rng &g, int t, uint64_t seed) {
  std::unique_ptr<Multi> P(new Multi); Multi &X = *P; X.random(g); test_case(fmt("fit: seed %llu case %d ", (unsigned long long)seed, t) + X.str());
  for (auto &x : X.f) if (!x.setupOK()) return;
  if (!X.setup()) { fail("set-up succeeds", "FinalSetupForFitting"); return; }
  int n = X.f.size(); long N = 0, V = 0; for (auto &x : X.f) { N += x.N(); V += x.nGood(); }
  wantb("the full vector holds all image-description, shared and local parameters", fmt("%d, expected %zu", X.M.GetNParams(), X.all.size()), X.M.GetNParams() == (int)X.all.size());
  wantb("data values of all images", fmt("%ld, expected %ld", (long)X.M.GetNDataValues(), N), X.M.GetNDataValues() == N); wantb("valid pixels of all images", fmt("%ld, expected %ld", X.M.GetNValidPixels(), V), X.M.GetNValidPixels() == V); wantb("number of images", "GetNImages", X.M.GetNImages() == n);
  vector<vector<double>> ex; bool cash = X.f[0].st == CASH; int f0 = g_fails;
  for (int rep = 0; rep < 3; rep++) {
    if (rep) X.params(g); if (!X.usable(ex)) continue;
    double sc = 0, e = 0; for (int i = 0; i < n; i++) { Fit &x = X.f[i]; for (int k = 0; k < x.N(); k++) { double md = x.modelAt(ex[i].data(), k), p = x.pix(k, md); e += p; sc += fabs(p); if (x.st >= CASH && x.good(k)) sc += 6 * x.eg() * fabs(md) + fabs(x.eg() * (x.data[k] + x.sky)); } }
    vector<double> keep = X.all; double st; auto stat = [&] { { Quiet q; st = X.M.GetFitStatistic(X.all.data()); } want("joint statistic is the sum over the images", fmt("statistic (parameter set %d)", rep), st, e, 1e-8, 1e-9 * sc); };
    if (g.b() || cash) stat();
    if (!cash) { vector<double> dev(N, -777.); { Quiet q; X.M.ComputeDeviates(dev.data(), X.all.data()); } long o = 0;
      for (int i = 0; i < n; i++) { Fit &x = X.f[i]; for (int k = 0; k < x.N(); k++) { double md = x.modelAt(ex[i].data(), k), p = x.pix(k, md), d = dev[o + k]; if (x.st == PMLR) want("squared joint deviates are the images' terms in order", fmt("image %d pixel %d", i, k), d * d, fabs(p), 1e-7, 1e-9 * (1 + sc)); else want("joint deviates are the images' weighted residuals in order", fmt("image %d pixel %d", i, k), d, x.good(k) ? x.weight(k, md) * (x.data[k] - md) : 0, 1e-7, 1e-8); } o += x.N(); } }
    if (g.b()) stat();
    { Quiet q; X.M.CreateAllModelImages(X.all.data()); } for (int i = 0; i < n; i++) { Quiet q; const double *im = X.M.GetModelImageVector(i); for (int k = 0; k < X.f[i].N(); k++) want("each image's model image is made from its own parameters", fmt("image %d pixel %d", i, k), im[k], X.f[i].modelAt(ex[i].data(), k), 1e-8, 1e-10); }
    wantb("the full parameter vector is not modified", "statistic / deviates", keep == X.all); if (g_fails > f0) return; }
  // bootstrap: every image has its own slot of as many entries as it has valid pixels
  for (auto &x : X.f) if (!bootable(x) && !(x.st == CASH)) return;
  if (!X.usable(ex)) return; if (!cash) for (int i = 0; i < n; i++) if (!distinct(X.f[i], ex[i])) return;
  init_genrand(g.i(1, 1000000)); int rc; { Quiet q; rc = X.M.UseBootstrap(); } wantb("UseBootstrap", "status", rc == 0);
  for (int rep = 0; rep < 3; rep++) {
    if (rep) { Quiet q; X.M.MakeBootstrapSample(); }
    double st; { Quiet q; st = X.M.GetFitStatistic(X.all.data()); } double own = 0, sc = 0; vector<vector<double>> od;
    for (int i = 0; i < n; i++) { Quiet q; od.push_back(vector<double>(X.f[i].nGood())); double s = cash ? X.obj[i]->CashStatistic(X.f[i].m.params.data()) : 0; (void)s; }
    if (cash) continue;
    vector<double> dev(V, -777.); { Quiet q; X.M.ComputeDeviates(dev.data(), X.all.data()); } double ss = 0; for (double d : dev) ss += d * d; own = ss; sc = ss; want("bootstrap joint statistic is the sum of the squared joint deviates", "statistic", st, own, 1e-7, 1e-8 * (1 + sc));
    long o = 0; for (int i = 0; i < n; i++) { Fit &x = X.f[i]; long nv = x.nGood(); for (long k = 0; k < nv; k++) { double d = dev[o + k], bd = -1; int best = -1; for (int p = 0; p < x.N(); p++) if (x.good(p)) { double r = devOf(x, p, x.modelAt(ex[i].data(), p)), q = x.st == PMLR ? fabs(fabs(r) - fabs(d)) : fabs(r - d); if (best < 0 || q < bd) best = p, bd = q; }
        if (bd > 1e-6 * (1e-2 + fabs(d))) { fail("in bootstrap mode every image has its own slot of one entry per valid pixel", fmt("image %d (slot %ld..%ld) entry %ld is %.12g, which none of its good pixels gives (closest: pixel %d, off by %.3g)", i, o, o + nv - 1, k, d, best, bd)); return; } } o += nv; } } }
int main(int c, char **v) {
  Args a = args(c, v); Rng g(a.seed);
  for (int t = 0; t < (a.thorough ? 3000 : 300); t++) { double x = 0, y = 0; int st; double ps = someScale(g), rot = someRot(g), q[6]; for (double &z : q) z = g.r(-100, 300); test_case(fmt("centre: scale %.9g rotation %.9g ref %.9g %.9g set %.9g %.9g image %.9g %.9g", ps, rot, q[0], q[1], q[2], q[3], q[4], q[5])); double ex, ey; carried(ps, rot, q[0], q[1], q[2], q[3], q[4], q[5], ex, ey);
    std::tie(x, y, st) = CalculateOffset_X0Y0(q[0], q[1], q[2], q[3], q[4], q[5], ps, rot); want("shared centre carried to the image", "X0", x, ex, 1e-10, 1e-9); want("shared centre carried to the image", "Y0", y, ey, 1e-10, 1e-9); wantb("status", fmt("%d", st), st == 0); }
  for (int t = 0; t < (a.thorough ? 3000 : 400) && g_fails < 4; t++) vectors(g, t, a.seed);
  for (int t = 0; t < (a.thorough ? 3000 : 250) && g_fails < 4; t++) whole(g, t, a.seed);
  return finish();
}
