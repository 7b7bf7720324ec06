// Run-time contract of the random-number generators (against std::mt19937) and of the summary statistics (against their definitions).
#include "common.h"
#include <random>
#include <tuple>
#include "mersenne_twister.h"
#include "statistics.h"
using namespace vh;
typedef unsigned long ul;
static void derived(int kind, std::mt19937 &ref, const std::string &w) {
  ul x = ref();
  if (kind == 0) want("genrand_int32 follows MT19937", w, genrand_int32(), x, 0, 0);
  else if (kind == 1) { double v = genrand_real1(); want("genrand_real1 is x/(2^32-1)", w, v, x / 4294967295.0, 1e-15, 0); wantb("genrand_real1 lies in [0,1]", w, v >= 0 && v <= 1); }
  else if (kind == 2) { double v = genrand_real2(); want("genrand_real2 is x/2^32", w, v, x / 4294967296.0, 0, 0); wantb("genrand_real2 lies in [0,1)", w, v >= 0 && v < 1); }
  else if (kind == 3) { double v = genrand_real3(); want("genrand_real3 is (x+1/2)/2^32", w, v, (x + 0.5) / 4294967296.0, 0, 0); wantb("genrand_real3 lies in (0,1)", w, v > 0 && v < 1); }
  else if (kind == 4) { ul y = ref(); double v = genrand_res53(); want("genrand_res53 is the 53-bit fraction", w, v, ((x >> 5) * 67108864.0 + (y >> 6)) / 9007199254740992.0, 0, 0); wantb("genrand_res53 lies in [0,1)", w, v >= 0 && v < 1); }
  else want("genrand_int31 is the upper 31 bits", w, (double)genrand_int31(), (double)(x >> 1), 0, 0); }
int main(int argc, char **argv) {
  Args a = args(argc, argv); Rng g(a.seed + 1300);
  { test_case("default seed"); std::mt19937 ref(5489u); for (int k = 0; k < 1500 && g_fails < 4; k++) want("genrand_int32 without seeding uses seed 5489", fmt("output %d", k), genrand_int32(), ref(), 0, 0); }
  { test_case("init_by_array 123 234 345 456"); ul key[4] = {0x123, 0x234, 0x345, 0x456}, ex[5] = {1067595299, 955945823, 477289528, 4107218783ul, 4228976476ul}; init_by_array(key, 4); for (int k = 0; k < 5; k++) want("init_by_array follows the reference", fmt("output %d", k), genrand_int32(), ex[k], 0, 0); }
  int N = a.thorough ? 3000 : 300;
  for (int t = 0; t < N && g_fails < 4; t++) {
    ul s = t < 20 ? (ul[]){0, 1, 5489, 0x7fffffff, 0x80000000ul, 0xffffffff, 0x100000000ul, 0x100000001ul, 0xfffffffffffffffful, 2, 3, 4, 623, 624, 625, 19650218, 1812433253, 0xdeadbeeful, 42, 10}[t] : g.next() >> g.i(0, 62);
    int n = t % 10 == 0 ? 200000 : g.i(1, 4000); test_case(fmt("seed %lu, %d outputs", s, n)); init_genrand(s); std::mt19937 ref((uint32_t)s); int only = g.i(0, 8);
    for (int k = 0; k < n && g_fails < 4; k++) derived(only < 6 ? only : g.i(0, 5), ref, fmt("output %d", k)); }
  // extreme words: outputs 0 and 2^32-1 (seed, position found by search)
  static const struct { ul s; long p; } ext[] = {{110, 13384555}, {153, 14847640}, {348, 15482962}, {292, 25260319}};
  for (int t = 0; t < (a.thorough ? 4 : 2) && g_fails < 4; t++) for (int kind = 0; kind <= 4; kind++) {
    if (kind == 4 && !a.thorough) continue;
    test_case(fmt("seed %lu up to the extreme word at %ld, generator %d", ext[t].s, ext[t].p, kind)); init_genrand(ext[t].s); std::mt19937 ref((uint32_t)ext[t].s);
    long skip = ext[t].p - 10; for (long k = 0; k < skip; k++) genrand_int32(); ref.discard(skip); for (int k = 0; k < 20; k++) derived(kind, ref, fmt("near output %ld", skip + k)); }
  // statistics
  for (int t = 0; t < (a.thorough ? 40000 : 4000) && g_fails < 4; t++) {
    int n = t < 60 ? t + 1 : t % 50 == 0 ? g.i(1000, 5000) : g.i(1, 120), style = g.i(0, 4); std::vector<double> v(n);
    double off = style == 1 ? g.r(-1e6, 1e6) : g.r(-3, 3);
    for (auto &x : v) x = style == 2 ? off : style == 3 ? (double)g.i(-2, 2) : off + g.r(-1, 1) * pow(10, style == 4 ? g.i(-3, 3) : 0);
    test_case(fmt("sample of %d values, style %d, first %.17g", n, style, v[0]));
    std::vector<double> w = v, srt = v; std::sort(srt.begin(), srt.end());
    long double m = 0, ss = 0, mx = 0; for (double x : v) m += x, mx = std::max(mx, (long double)fabs(x)); m /= n; for (double x : v) ss += (x - m) * (x - m);
    want("Mean is the sum over n", "mean", Mean(w.data(), n), m, 1e-9, 1e-12 * (1 + mx));
    if (n > 1) want("StandardDeviation is sqrt(sum (x-mean)^2 / (n-1))", "sigma", StandardDeviation(w.data(), n), sqrtl(ss / (n - 1)), 1e-6, 1e-9 * (1 + mx));
    wantb("Mean and StandardDeviation leave the sample alone", "sample", w == v);
    int lo = (int)std::floor(0.1585 * n + 0.5) - 1, hi = (int)std::floor(0.8415 * n + 0.5); lo = std::max(lo, 0); hi = std::min(hi, n - 1);
    double L, U; std::tie(L, U) = ConfidenceInterval(w.data(), n);
    want("lower bound of the 68.3% interval", fmt("n %d", n), L, srt[lo], 0, 0); want("upper bound of the 68.3% interval", fmt("n %d", n), U, srt[hi], 0, 0); wantb("the sample is sorted in place", "sample", w == srt);
    double l = g.r(-1e4, 1e4); int p = g.i(0, 40); long d = g.i(0, 3) == 0 ? p + 2 + g.i(0, 3) : p + 2 + (long)(g.next() % 100000); if (g.i(0, 50) == 0) d += 6000000000L; int chi = g.i(0, 1);
    double m2 = chi ? l : -2 * l;
    want("AIC_corrected is -2 ln L + 2k + 2k(k+1)/(n-k-1)", fmt("lnL %.17g k %d n %ld chi2 %d", l, p, d, chi), AIC_corrected(l, p, d, chi), m2 + 2.0 * p + 2.0 * p * (p + 1.0) / ((double)d - p - 1.0), 1e-10, 1e-9);
    want("BIC is -2 ln L + k ln n", fmt("lnL %.17g k %d n %ld chi2 %d", l, p, d, chi), BIC(l, p, d, chi), m2 + p * log((double)d), 1e-10, 1e-9); }
  return finish();
}
