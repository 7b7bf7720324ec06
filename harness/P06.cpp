// Run-time contract of OversampledRegion: region pixels = block means of the oversampled, PSF-convolved image; other pixels untouched.
#include "common.h"
#include "oversampled_region.h"
#include "downsample.h"
#include "function_objects/func_gaussian.h"
#include "function_objects/func_exp.h"
#include "function_objects/func_flatsky.h"
#include "function_objects/func_pointsource.h"
#include "function_objects/psf_interpolators.h"
#include <memory>
#include <omp.h>
using namespace vh;
using std::vector;
int main(int argc, char **argv) {
  Args a = args(argc, argv); Rng g(a.seed + 600);
  int N = a.thorough ? 3000 : 400;
  for (int t = 0; t < N && g_fails < 4; t++) {
    if (t % 4 == 0) {   // DownsampleAndReplace alone
      int s = g.i(1, 5), nc = g.i(1, 6), nr = g.i(1, 6), PC = g.i(0, 4), PR = g.i(0, 4), QC = g.i(0, 4), QR = g.i(0, 4), sx = g.i(1, 5), sy = g.i(1, 5);
      int OC = nc * s + 2 * PC, OR = nr * s + 2 * PR, MC = sx - 1 + nc + g.i(0, 4) + 2 * QC, MR = sy - 1 + nr + g.i(0, 4) + 2 * QR;
      test_case(fmt("DownsampleAndReplace scale %d region %dx%d at (%d,%d), oversampled PSF pad %d,%d, main %dx%d PSF pad %d,%d", s, nc, nr, sx, sy, PC, PR, MC, MR, QC, QR));
      vector<double> o(OC * OR), m(MC * MR); for (auto &x : o) x = g.r(-3, 9); for (auto &x : m) x = g.r(-3, 9); vector<double> m0 = m;
      { Quiet q; DownsampleAndReplace(o.data(), OC, OR, PC, PR, m.data(), MC, MR, QC, QR, sx, sy, s, g.i(0, 2)); }
      for (int r = 0; r < MR; r++) for (int q = 0; q < MC; q++) {
        double e = m0[r * MC + q]; int rr = r - (sy - 1 + QR), qq = q - (sx - 1 + QC);
        if (rr >= 0 && rr < nr && qq >= 0 && qq < nc) { e = 0; for (int k = 0; k < s; k++) for (int l = 0; l < s; l++) e += o[(rr * s + PR + k) * OC + qq * s + PC + l]; e /= (double)s * s; }
        want("DownsampleAndReplace block mean / untouched", fmt("main pixel row %d col %d", r, q), m[r * MC + q], e, 1e-9, 1e-10); }
      continue;
    }
    int s = g.i(1, 4), nbc = g.i(1, 5), nbr = g.i(1, 5), x1 = g.i(1, 5), y1 = g.i(1, 5), QC = g.i(0, 5), QR = g.i(0, 5), MC = x1 - 1 + nbc + g.i(0, 4) + 2 * QC, MR = y1 - 1 + nbr + g.i(0, 4) + 2 * QR;
    bool psfOn = g.b(), norm = g.b(); int pc = g.i(4, 7), pr = g.i(4, 7); int nt = g.i(1, 4);
    bool ps = psfOn && g.b();
    omp_set_num_threads(nt);
    test_case(fmt("region scale %d size %dx%d at (%d,%d) main %dx%d main PSF pad %d,%d psf %d (%dx%d norm %d) pointsource %d threads %d seed %llu case %d", s, nbc, nbr, x1, y1, MC, MR, QC, QR, (int)psfOn, pc, pr, (int)norm, (int)ps, nt, (unsigned long long)a.seed, t));
    vector<double> psf(pc * pr); for (auto &x : psf) x = g.r(0.1, 2); double S = 0; for (double x : psf) S += x; if (S == 0) continue;
    if (ps && norm) { for (auto &x : psf) x /= S; S = 1; }   // un-normalised PSF + point source: known finding, dedicated case below
    vector<double> P = psf; if (norm) for (auto &x : P) x /= S;
    vector<FunctionObject *> F; vector<std::unique_ptr<FunctionObject>> own;
    int nf = g.i(1, 4);
    for (int k = 0; k < nf; k++) {
      FunctionObject *f; double par[8]; double xc = g.r(x1 - 2, x1 + nbc + 2), yc = g.r(y1 - 2, y1 + nbr + 2);
      int kind = g.i(0, 2);
      if (ps && k == 0) { f = new PointSource(); par[0] = g.r(10, 100); }
      else if (kind == 0) { f = new Gaussian(); par[0] = g.r(0, 180); par[1] = g.r(0, .8); par[2] = g.r(1, 10); par[3] = g.r(1, 4); }
      else if (kind == 1) { f = new Exponential(); par[0] = g.r(0, 180); par[1] = g.r(0, .8); par[2] = g.r(1, 10); par[3] = g.r(1, 4); }
      else { f = new FlatSky(); par[0] = g.r(-2, 2); }
      f->SetSubsampling(false); f->Setup(par, 0, xc, yc); F.push_back(f); own.emplace_back(f); }
    std::swap(F[0], F[g.i(0, nf - 1)]);
    OversampledRegion R; vector<double> m(MC * MR); for (auto &x : m) x = g.r(-3, 9); vector<double> m0 = m;
    { Quiet q; if (psfOn) R.AddPSFVector(psf.data(), pc, pr, norm); R.SetupModelImage(x1, y1, nbc, nbr, MC, MR, QC, QR, s);
      R.ComputeRegionAndDownsample(m.data(), F, nf);
      if (g.b()) R.ComputeRegionAndDownsample(m.data(), F, nf); }
    PsfInterpolator_bicubic I(P.data(), pc, pr);
    int pX = psfOn ? pc : 0, pY = psfOn ? pr : 0, W = nbc * s + 2 * pX, H = nbr * s + 2 * pY;
    vector<double> im(W * H), pt(W * H), cv(W * H);
    for (auto f : F) if (f->IsPointSource()) f->AddPsfInterpolator(&I), f->SetOversamplingScale(s);
    for (int i = 0; i < H; i++) for (int j = 0; j < W; j++) {
      double x = x1 + (j - pX + 0.5) / s - 0.5, y = y1 + (i - pY + 0.5) / s - 0.5;
      for (auto f : F) (f->IsPointSource() ? pt : im)[i * W + j] += f->GetValue(x, y); }
    if (psfOn) for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { double e = 0;
      for (int i = 0; i < pr; i++) for (int j = 0; j < pc; j++) { int yy = y - (i - pr / 2), xx = x - (j - pc / 2); if (yy >= 0 && yy < H && xx >= 0 && xx < W) e += P[i * pc + j] * im[yy * W + xx]; } cv[y * W + x] = e; }
    else cv = im;
    for (int k = 0; k < W * H; k++) cv[k] += pt[k];
    for (int r = 0; r < MR; r++) for (int q = 0; q < MC; q++) {
      double e = m0[r * MC + q]; int rr = r - (y1 - 1 + QR), qq = q - (x1 - 1 + QC); bool in = rr >= 0 && rr < nbr && qq >= 0 && qq < nbc;
      if (in) { e = 0; for (int k = 0; k < s; k++) for (int l = 0; l < s; l++) e += cv[(rr * s + pY + k) * W + qq * s + pX + l]; e /= (double)s * s; }
      want(in ? "region pixel is the mean of its sub-pixels" : "pixels outside the region are untouched", fmt("main pixel row %d col %d", r, q), m[r * MC + q], e, 1e-7, 1e-8); }
  }
  { test_case("region with PSF of sum 2 and normalisation requested, point source of flux 16 at the centre");
    PointSource f; double par[1] = {16}; f.SetSubsampling(false); f.Setup(par, 0, 4, 4); vector<double> psf(25, 0.08), m(49, 0.0); vector<FunctionObject *> F(1, &f);
    OversampledRegion R; { Quiet q; R.AddPSFVector(psf.data(), 5, 5, true); R.SetupModelImage(2, 2, 5, 5, 7, 7, 0, 0, 2); R.ComputeRegionAndDownsample(m.data(), F, 1); }
    vector<double> pn(25, 0.04); PsfInterpolator_bicubic I(pn.data(), 5, 5); f.AddPsfInterpolator(&I); f.SetOversamplingScale(2);
    double e = 0; for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++) e += f.GetValue(4 + (k + .5) / 2 - .5, 4 + (l + .5) / 2 - .5) / 4;
    if (!close(m[3 * 7 + 3], e, 1e-7, 1e-9)) { if (close(m[3 * 7 + 3], 2 * e, 1e-7, 1e-9)) fail("region point sources use the normalised PSF", fmt("centre pixel: got %.12g, contract says %.12g", m[3 * 7 + 3], e)); else fail("region pixel is the mean of its sub-pixels", fmt("centre pixel: got %.12g, contract says %.12g", m[3 * 7 + 3], e)); } }
  return finish();
}
