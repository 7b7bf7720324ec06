// Random models and their brute-force image, shared by the replay harnesses.
#ifndef VH_MODEL_H
#define VH_MODEL_H
#include "common.h"
#include "model_object.h"
#include "psf_oversampling_info.h"
#include "psf_interpolators.h"
#include "function_objects/func_gaussian.h"
#include "function_objects/func_exp.h"
#include "function_objects/func_sersic.h"
#include "function_objects/func_moffat.h"
#include "function_objects/func_flatsky.h"
#include "function_objects/func_pointsource.h"
#include <memory>
#include <map>
#include <omp.h>
namespace vh {
using std::vector; using std::string;
struct Comp { int kind; bool start; vector<double> par; int method = 0; };   // kind 0 Gaussian 1 Exp 2 Sersic 3 Moffat 4 FlatSky 5 PointSource
static const int NPAR[6] = {4, 4, 5, 5, 1, 1};
inline FunctionObject *makeFn(const Comp &c) {
  FunctionObject *f = 0;
  switch (c.kind) { case 0: f = new Gaussian(); break; case 1: f = new Exponential(); break; case 2: f = new Sersic(); break; case 3: f = new Moffat(); break; case 4: f = new FlatSky(); break;
    case 5: { f = new PointSource(); std::map<string, string> m; m["method"] = c.method == 0 ? "bicubic" : c.method == 1 ? "lanczos2" : "lanczos3"; Quiet q; f->SetExtraParams(m); } break; }
  f->SetSubsampling(false); return f; }
struct RegionSpec { int x1, y1, x2, y2, scale, pc, pr; bool norm; vector<double> psf; };
struct Model {
  int DC = 1, DR = 1, pc = 0, pr = 0; bool conv = false, norm = true; vector<double> psf;
  vector<Comp> comps; vector<double> params; vector<RegionSpec> regs; int threads = 1, chunk = 10;
  int X0 = 0, Y0 = 0, nGlobal = -1;
  int PC() const { return conv ? pc : 0; } int PR() const { return conv ? pr : 0; }
  int MC() const { return DC + 2 * PC(); } int MR() const { return DR + 2 * PR(); }
  string str() const { string s = fmt("data %dx%d psf %s %dx%d norm %d threads %d chunk %d comps", DC, DR, conv ? "yes" : "no", pc, pr, (int)norm, threads, chunk);
    for (auto &c : comps) s += fmt(" %s%d", c.start ? "|" : "", c.kind); s += fmt(" regions %zu", regs.size()); for (auto &r : regs) s += fmt(" [%d:%d,%d:%d]x%d", r.x1, r.x2, r.y1, r.y2, r.scale); s += " params"; for (double p : params) s += fmt(" %.9g", p); return s; }
  void randomParams(Rng &g) {
    params.clear();
    for (auto &c : comps) {
      if (c.start) { params.push_back(g.r(-1, DC + 2)); params.push_back(g.r(-1, DR + 2)); }
      for (int k = 0; k < NPAR[c.kind]; k++) {
        double v = 0;
        if (c.kind == 4) v = g.r(0.1, 2); else if (c.kind == 5) v = g.r(10, 100);
        else if (k == 0) v = g.r(0, 180); else if (k == 1) v = g.r(0, .8);
        else if (c.kind == 2) v = k == 2 ? g.r(.5, 4) : k == 3 ? g.r(1, 10) : g.r(1, 5);
        else if (c.kind == 3) v = k == 2 ? g.r(1, 10) : k == 3 ? g.r(1, 5) : g.r(1.5, 4);
        else v = k == 2 ? g.r(1, 10) : g.r(1, 4);
        params.push_back(v); } } }
  // build the real object (data not added); f filled with the function objects
  bool build(ModelObject &M, const double *sys = 0) const {
    Quiet q; bool ok = true;
    M.SetVerboseLevel(-1); M.SetMaxThreads(threads); M.SetOMPChunkSize(chunk);
    if (conv) ok = M.AddPSFVector((long)pc * pr, pc, pr, const_cast<double *>(psf.data()), norm) == 0 && ok;
    return ok; }
  bool addFunctions(ModelObject &M) const {
    Quiet q; vector<int> st; bool ok = true;
    for (size_t k = 0; k < comps.size(); k++) { if (comps[k].start) st.push_back((int)k); ok = M.AddFunction(makeFn(comps[k]), nGlobal < 0 || (int)k < nGlobal) == 0 && ok; }
    M.DefineFunctionSets(st); return ok; }
  bool addRegions(ModelObject &M) const {
    Quiet q; bool ok = true;
    for (auto &r : regs) { PsfOversamplingInfo I(const_cast<double *>(r.psf.data()), r.pc, r.pr, r.scale, fmt("%d:%d,%d:%d", r.x1 + X0, r.x2 + X0, r.y1 + Y0, r.y2 + Y0), X0, Y0, false, r.norm); ok = M.AddOversampledPsfInfo(&I) == 0 && ok; }
    return ok; }
  static vector<double> normed(const vector<double> &p, bool n) { vector<double> q = p; if (n) { double s = 0; for (double x : p) s += x; for (double &x : q) x /= s; } return q; }
  static PsfInterpolator *interp(int method, const vector<double> &p, int c, int r) {
    double *d = const_cast<double *>(p.data());
    return method == 0 ? (PsfInterpolator *)new PsfInterpolator_bicubic(d, c, r) : method == 1 ? (PsfInterpolator *)new PsfInterpolator_lanczos2(d, c, r) : (PsfInterpolator *)new PsfInterpolator_lanczos3(d, c, r); }
  // full (expanded) model image; only = -1 all components, else that component alone
  vector<double> reference(const vector<double> &prm, int only = -1) const {
    vector<std::unique_ptr<FunctionObject>> F; int off = 0; double x0 = 0, y0 = 0; int meth = 0; bool anyps = false;
    for (auto &c : comps) { if (c.kind == 5 && !anyps) { meth = c.method; anyps = true; }
      if (c.start) { x0 = prm[off]; y0 = prm[off + 1]; off += 2; }
      F.emplace_back(makeFn(c)); F.back()->Setup(const_cast<double *>(prm.data()), off, x0, y0); off += NPAR[c.kind]; }
    vector<double> P = conv ? normed(psf, norm) : vector<double>();
    vector<double> out = grid(F, only, MC(), MR(), PC(), PR(), 1, 1, 1, P, anyps ? meth : -1, 1);
    for (auto &r : regs) { int x1 = std::max(1, r.x1), y1 = std::max(1, r.y1), x2 = std::min(DC, r.x2), y2 = std::min(DR, r.y2), s = r.scale, W = (x2 - x1 + 1) * s + 2 * r.pc, H = (y2 - y1 + 1) * s + 2 * r.pr;
      vector<double> o = grid(F, only, W, H, r.pc, r.pr, x1, y1, s, normed(r.psf, r.norm), anyps ? 0 : -1, s);
      for (int i = 0; i < y2 - y1 + 1; i++) for (int j = 0; j < x2 - x1 + 1; j++) { double e = 0; for (int k = 0; k < s; k++) for (int l = 0; l < s; l++) e += o[(r.pr + i * s + k) * W + r.pc + j * s + l];
        out[(PR() + y1 - 1 + i) * MC() + PC() + x1 - 1 + j] = e / (double)(s * s); } }
    return out; }
  static vector<double> grid(vector<std::unique_ptr<FunctionObject>> &F, int only, int W, int H, int pc, int pr, int x1, int y1, int s, const vector<double> &P, int meth, int pscale) {
    vector<double> im(W * H), pt(W * H); std::unique_ptr<PsfInterpolator> I(meth >= 0 && !P.empty() ? interp(meth, P, pc, pr) : 0);
    for (size_t k = 0; k < F.size(); k++) { if (only >= 0 && (int)k != only) continue; auto &f = F[k];
      if (f->IsPointSource()) { f->AddPsfInterpolator(I.get()); f->SetOversamplingScale(pscale); }
      for (int i = 0; i < H; i++) for (int j = 0; j < W; j++) { double x = x1 + (j - pc + 0.5) / s - 0.5, y = y1 + (i - pr + 0.5) / s - 0.5;
        (f->IsPointSource() ? pt : im)[i * W + j] += f->GetValue(x, y); } }
    if (!P.empty()) { vector<double> cv(W * H); int cy = pr / 2, cx = pc / 2;
      for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { double e = 0; for (int i = 0; i < pr; i++) { int yy = y - i + cy; if (yy < 0 || yy >= H) continue; for (int j = 0; j < pc; j++) { int xx = x - j + cx; if (xx < 0 || xx >= W) continue; e += P[i * pc + j] * im[yy * W + xx]; } } cv[y * W + x] = e; }
      im = cv; }
    for (int k = 0; k < W * H; k++) im[k] += pt[k];
    return im; }
};
struct GenOpt { bool psf = true, regs = true, ps = true; int maxd = 9; };
inline Model randomModel(Rng &g, GenOpt o = GenOpt()) {
  Model m; m.DC = g.i(1, o.maxd); m.DR = g.i(1, o.maxd); m.threads = g.i(1, 4); m.chunk = g.i(1, 12);
  m.conv = o.psf && g.i(0, 3) > 0; m.norm = g.i(0, 3) > 0; bool ps = o.ps && m.conv && g.b();
  if (m.conv) { m.pc = g.i(ps ? 4 : 1, 7); m.pr = g.i(ps ? 4 : 1, 7); m.psf.resize(m.pc * m.pr); for (auto &x : m.psf) x = g.r(0.05, 2); }
  int nf = g.i(1, 5); int meth = g.i(0, 2);
  for (int k = 0; k < nf; k++) { Comp c; c.kind = ps && g.i(0, 2) == 0 ? 5 : g.i(0, 4); c.start = k == 0 || g.i(0, 2) == 0; c.method = meth; m.comps.push_back(c); }
  m.randomParams(g);
  if (o.regs && g.i(0, 2) == 0 && m.DC > 1 && m.DR > 1) { int nr = g.i(1, 3);
    for (int k = 0; k < nr; k++) { RegionSpec r; r.x1 = g.i(1, m.DC - 1); r.y1 = g.i(1, m.DR - 1); r.x2 = g.i(r.x1 + 1, m.DC + 2); r.y2 = g.i(r.y1 + 1, m.DR + 2); if (g.i(0, 4) == 0) r.x1 -= g.i(0, 2); if (g.i(0, 4) == 0) r.y1 -= g.i(0, 2);
      r.scale = g.i(1, 4); r.pc = g.i(4, 6); r.pr = g.i(4, 6); r.norm = g.i(0, 3) > 0; r.psf.resize(r.pc * r.pr); for (auto &x : r.psf) x = g.r(0.05, 2);
      if (ps && r.norm) { double q = 0; for (double x : r.psf) q += x; for (double &x : r.psf) x /= q; }   // known finding P06: point sources in regions ignore the normalisation request
      m.regs.push_back(r); } }
  return m; }
}
#endif
