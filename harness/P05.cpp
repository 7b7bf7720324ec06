// Contract of Convolver at run time: result = linear convolution with the (normalised) PSF centred at (n/2, m/2).
#include "common.h"
#include "convolver.h"
using namespace vh;
int main(int argc, char **argv) {
  Args a = args(argc, argv); Rng g(a.seed);
  int N = a.thorough ? 4000 : 600;
  for (int t = 0; t < N; t++) {
    int pc = g.i(1, 9), pr = g.i(1, 9), ic = g.i(1, 12), ir = g.i(1, 12); bool norm = g.b();
    test_case(fmt("psf %d x %d (cols x rows), image %d x %d, normalize=%d, seed %llu case %d", pc, pr, ic, ir, (int)norm, (unsigned long long)a.seed, t));
    std::vector<double> psf(pc * pr), im(ic * ir), orig, P;
    for (auto &x : psf) x = g.r(0, 3);
    // pixel sums near one (nearly normalised), tiny and large ones
    { int kind = g.i(0, 4); double T = 0; for (double x : psf) T += x; if (kind < 3 && T > 0) for (auto &x : psf) x *= (kind == 0 ? 1 + g.r(-1, 1) * pow(10, -g.i(1, 5)) : kind == 1 ? pow(10, g.i(-9, -1)) : pow(10, g.i(1, 8))) / T; }
    for (auto &x : im) x = g.r(-2, 10);
    if (g.i(0, 3) == 0) { for (auto &x : im) x = 0; im[g.i(0, ic * ir - 1)] = 1; }
    P = psf; double S = 0; for (double x : P) S += x;
    if (norm) for (auto &x : P) x /= S;
    orig = im;
    Convolver cv; int dbg = g.i(0, 1);
    { Quiet q; cv.SetupPSF(psf.data(), pc, pr, norm); cv.SetupImage(ic, ir); cv.DoFullSetup(dbg, false);
    cv.ConvolveImage(im.data()); if (g.b()) { im = orig; cv.ConvolveImage(im.data()); } }
    double scale = 0; for (double x : orig) scale = std::max(scale, fabs(x)); for (double x : P) scale = std::max(scale, fabs(x)); scale *= 1 + (norm ? 1 : S);
    for (int y = 0; y < ir; y++) for (int x = 0; x < ic; x++) {
      double e = 0;
      for (int i = 0; i < pr; i++) for (int j = 0; j < pc; j++) { int yy = y - (i - pr / 2), xx = x - (j - pc / 2); if (yy >= 0 && yy < ir && xx >= 0 && xx < ic) e += P[i * pc + j] * orig[yy * ic + xx]; }
      if (fabs(e - im[y * ic + x]) > 1e-9 * scale) { fail("ConvolveImage is the linear convolution", fmt("pixel row %d col %d: got %.15g, contract says %.15g", y, x, im[y * ic + x], e)); y = ir; break; }
    }
    if (g_fails > 3) break;
  }
  return finish();
}
