// Run-time contract of bootstrap resampling: sample entries, extreme generator outputs, rows stored from bootstrap iterations.
#include "boot.h"
#include "param_struct.h"
#include "bootstrap_errors.h"
#include <functional>
#include <fcntl.h>
using namespace vh;
// (seed, number of draws before it, value): positions at which MT19937 gives its extreme outputs
static const struct { unsigned long seed; long pos; } TOP[] = {{110, 13384555}, {348, 15482962}, {368, 16291813}, {153, 14847640}};   // 2^32-1 (three), 0
static string capture(std::function<void()> fn) { fflush(stdout); char nm[] = "bootoutXXXXXX"; int fd = mkstemp(nm), so = dup(1), se = dup(2); dup2(fd, 1); dup2(open("/dev/null", O_WRONLY), 2); fn(); fflush(stdout); dup2(so, 1); dup2(se, 2); ::close(so); ::close(se);
  string s; lseek(fd, 0, SEEK_SET); char b[4096]; ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) s.append(b, k); ::close(fd); unlink(nm); return s; }
// printed summary of the free parameters: computed from exactly the successful iterations
static void summary(const string &p, const vector<double> &rows, int n, int rc, const Fit &f, const vector<mp_par> &lim, ModelObject &M) {
  size_t at = p.find("Best-fit\t"); if (rc < 3) { wantb("no summary statistics from fewer than three successful iterations", p, at == string::npos); return; }
  if (at == string::npos) { fail("summary statistics are printed", p); return; }
  std::vector<string> L; size_t i = p.find('\n', at) + 1; while (i < p.size()) { size_t e = p.find('\n', i); if (e == string::npos) e = p.size(); string l = p.substr(i, e - i); if (l.find(" = ") != string::npos) L.push_back(l); i = e + 1; }
  wantb("one summary line per parameter", fmt("%zu", L.size()), (int)L.size() == n); if ((int)L.size() != n) return;
  for (int k = 0; k < n; k++) { string want_ = M.GetParameterName(k); wantb("summary lines are in parameter order", L[k], L[k].compare(0, want_.size() + 3, want_ + " = ") == 0);
    if (lim[k].fixed) { wantb("fixed parameters are marked as such", L[k], L[k].find("[fixed parameter]") != string::npos); continue; }
    double b, pl, mi, lo, hi, hw, mean, sd; if (sscanf(L[k].c_str() + want_.size() + 3, "%lg +%lg, -%lg [%lg -- %lg, %lg]; (%lg +/- %lg)", &b, &pl, &mi, &lo, &hi, &hw, &mean, &sd) != 8) { fail("summary line can be read", L[k]); continue; }
    vector<double> v; double s = 0, q = 0; for (int r = 0; r < rc; r++) { v.push_back(rows[r * n + k]); s += v.back(); } s /= rc; for (double x : v) q += (x - s) * (x - s); std::sort(v.begin(), v.end()); double tol = 1e-4 * (fabs(s) + fabs(v[0]) + fabs(v.back())) + 1e-9; 
    want("summary mean is that of the successful iterations", L[k], mean, s, 0, tol); want("summary standard deviation is that of the successful iterations", L[k], sd, sqrt(q / (rc - 1)), 0, tol); wantb("summary interval ends are stored values", L[k], lo >= v[0] - tol && hi <= v.back() + tol && lo <= hi + tol); } }
int main(int argc, char **argv) {
  Args a = args(argc, argv); Rng g(a.seed + 1100);
  int N = a.thorough ? 3000 : 250;
  for (int t = 0; t < N && g_fails < 4; t++) {
    FitOpt fo; fo.maxd = 5; fo.st = g.i(0, 3); if (fo.st == 3) fo.st = PMLR; Fit f = randomFit(g, fo); if (!f.setupOK()) continue;
    bool zero = false; for (int k = 0; k < f.N(); k++) if (f.good(k) && f.st != CHI_MODEL && !(f.weight(k, 0) > 0)) zero = true; if (zero) continue;
    test_case(fmt("seed %llu case %d %s", (unsigned long long)a.seed, t, f.str().c_str()));
    ModelObject M, C; Fit::Bufs b, bc; if (f.setup(M, b) < 0) { fail("set-up succeeds", "FinalSetupForFitting"); continue; }
    Fit fc = f; fc.st = CASH; bool cash = f.st == PMLR; if (cash && fc.setup(C, bc) < 0) { fail("set-up succeeds", "Cash"); continue; }
    unsigned long sd = g.i(1, 1000000); int rc; init_genrand(sd); { Quiet q; rc = M.UseBootstrap(); } if (rc < 0) { fail("bootstrap mode can be entered", "UseBootstrap"); continue; }
    if (cash) { init_genrand(sd); Quiet q; C.UseBootstrap(); }
    std::map<int, long> hits; long tot = 0; int rounds = f.nGood() <= 12 && t % 4 == 0 ? 60 : 2; bool bad = false;
    for (int r = 0; r < rounds && !bad; r++) { vector<int> s; vector<double> keep = f.m.params;
      if (r) { sd = g.i(1, 1000000); init_genrand(sd); M.MakeBootstrapSample(); if (cash) { init_genrand(sd); C.MakeBootstrapSample(); } }
      bad = !checkSample(M, f, g, &s, cash ? &C : 0); f.m.params = keep; for (int k : s) hits[k]++, tot++; if (s.empty()) break; }
    if (rounds > 10 && !bad && tot >= 50 * f.nGood()) for (int k = 0; k < f.N(); k++) if (f.good(k)) { double e = (double)tot / f.nGood(); if (hits[k] == 0) fail("every unmasked pixel can be drawn", fmt("pixel %d never drawn in %ld draws over %ld pixels", k, tot, f.nGood())); else if (fabs(hits[k] - e) > 8 * sqrt(e) + 8) fail("pixels are drawn with equal probability", fmt("pixel %d drawn %ld times, expected %.0f", k, hits[k], e)); } }
  // extreme generator outputs as the first draw of a sample: nothing outside the image may be read (address sanitizer)
  for (auto &x : TOP) for (int t = 0; t < 2 && g_fails < 4; t++) {
    Fit f; f.m.DC = t ? 3 : 1; f.m.DR = t ? 2 : 1; Comp c; c.kind = 4; c.start = true; f.m.comps.push_back(c); f.m.params = {1, 1, .5}; for (int k = 0; k < f.N(); k++) f.data.push_back(7 + 3 * k);
    test_case(fmt("extreme generator output: seed %lu draw %ld, %dx%d image", x.seed, x.pos, f.m.DC, f.m.DR));
    ModelObject M; Fit::Bufs b; if (f.setup(M, b) < 0) { fail("set-up succeeds", "FinalSetupForFitting"); continue; }
    { Quiet q; M.UseBootstrap(); } init_genrand(x.seed); for (long k = 0; k < x.pos; k++) genrand_int32(); M.MakeBootstrapSample(); checkSample(M, f, g); }
  // rows
  for (int t = 0; t < (a.thorough ? 400 : 60) && g_fails < 4; t++) {
    FitOpt fo; fo.maxd = 5; fo.bad = false; fo.st = g.i(0, 3); if (fo.st == 1) fo.st = PMLR; bool force = t % 3 == 0; if (force) fo.st = CHI_USER; Fit f = randomFit(g, fo); if (force) f.etype = WEIGHTS_ARE_SIGMAS; if (!f.setupOK()) continue; if (f.st == CASH && f.m.comps.size() > 2) continue;
    bool zero = false; for (int k = 0; k < f.N(); k++) if (f.good(k) && f.st != CHI_MODEL && !(f.weight(k, 0) > 0)) zero = true; if (zero) continue;
    int ox = g.i(0, 300), oy = g.i(0, 300), n = (int)f.m.params.size(), NI = g.i(1, 6); vector<mp_par> lim(n); vector<double> off(n, 0.); memset(lim.data(), 0, n * sizeof(mp_par));
    bool infeasible = g.i(0, 4) == 0 && f.st != CASH;   // more free parameters than valid pixels: no iteration succeeds
    int p = 0; for (auto &c : f.m.comps) { if (c.start) { off[p] = ox; off[p + 1] = oy; p += 2; } p += NPAR[c.kind]; }
    if (f.nGood() < 2) continue;
    for (int k = 0; k < n - 1; k++) lim[k].fixed = 1; lim[n - 1].limited[0] = lim[n - 1].limited[1] = 1; lim[n - 1].limits[0] = f.m.params[n - 1] - .05; lim[n - 1].limits[1] = f.m.params[n - 1] + .05;
    bool poison = f.st == CHI_USER && f.etype == WEIGHTS_ARE_SIGMAS && f.nGood() > 3 && force; if (poison) { int k = 0; while (!f.good(k)) k++; f.data[k] = 1e150; f.err[k] = 1e-200; NI = g.i(8, 16); }   // samples containing this pixel have non-finite deviates: their fits fail
    if (infeasible && !poison && f.nGood() < n) for (int k = 0; k < n; k++) lim[k].fixed = 0; else infeasible = false;
    int api = force ? 1 : g.i(0, 1); unsigned long sd = g.i(1, 100000);
    test_case(fmt("rows: seed %llu case %d %s offsets %d %d iterations %d api %d rng %lu free %d", (unsigned long long)a.seed, t, f.str().c_str(), ox, oy, NI, api, sd, infeasible ? n : 1));
    ModelObject M; Fit::Bufs b; if (f.setup(M, b) < 0) { fail("set-up succeeds", "FinalSetupForFitting"); continue; }
    M.AddImageOffsets(ox, oy); { Quiet q; M.PopulateParameterNames(); } int stat = f.st == PMLR ? FITSTAT_POISSON_MLR : f.st == CASH ? FITSTAT_CASH : FITSTAT_CHISQUARE; int rc;
    vector<double> out(n * NI, -777.); vector<vector<double>> rows;
    if (api == 0) { Quiet q; rc = BootstrapErrorsArrayOnly(f.m.params.data(), lim, true, &M, 1e-6, NI, infeasible ? n : 1, stat, out.data(), sd, false); }
    else { char nm[] = "bootrowsXXXXXX"; int fd = mkstemp(nm); FILE *fp = fdopen(fd, "w+"); string printed = capture([&] { rc = BootstrapErrors(f.m.params.data(), lim, true, &M, 1e-6, NI, infeasible ? n : 1, stat, fp, sd); });
      
      rewind(fp); char line[100000]; int r = 0; while (fgets(line, sizeof line, fp)) if (line[0] != '#' && strlen(line) > 1 && !isalpha((unsigned char)line[0])) { char *q = line; for (int k = 0; k < n && r < NI; k++) out[r * n + k] = strtod(q, &q); r++; } fclose(fp); unlink(nm); wantb("one output line per successful iteration", fmt("%d lines, %d reported", r, rc), r == rc);
      summary(printed, out, n, rc, f, lim, M); }
    wantb("number of successful iterations", fmt("%d of %d", rc, NI), rc >= 0 && rc <= NI); if (infeasible) wantb("iterations whose fit fails are not counted", fmt("%d", rc), rc == 0); else if (!poison) wantb("all iterations of an easy fit succeed", fmt("%d of %d", rc, NI), rc == NI);
    for (int r = 0; r < NI; r++) for (int k = 0; k < n; k++) { double v = out[r * n + k];
      if (r >= rc) { want("rows beyond the successful iterations are untouched", fmt("row %d parameter %d", r, k), v, -777.); continue; }
      double e = f.m.params[k] + off[k], tol = api ? 2e-6 * (1 + fabs(e)) : 1e-12 * (1 + fabs(e)); if (k < n - 1) want("stored row keeps parameter order and adds the image offset to positions only", fmt("row %d parameter %d", r, k), v, e, 0, tol);
      else wantb("free parameter stays within its limits in every stored row", fmt("row %d: %.12g outside [%.12g, %.12g]", r, v, lim[k].limits[0], lim[k].limits[1]), v >= lim[k].limits[0] - tol && v <= lim[k].limits[1] + tol); } }
  return finish();
}
