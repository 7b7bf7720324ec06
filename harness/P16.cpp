// Reported positions: printed, saved and stored centres against fitted value + section offset, on the real functions.
#define main p15_main
#include "P15.cpp"
#undef main
#include <fstream>
#include <sstream>
#include "print_results.h"
#include "print_results_multi.h"
#include "utilities_multimfit.h"
#include "utilities_pub.h"
#include "solver_results.h"
struct Line { string name; double v; vector<double> more; bool fixed = false; };
static vector<Line> linesOf(const vector<string> &S, const char *prefix) {
  vector<Line> out; for (const string &whole : S) { std::istringstream is(whole); string l; while (std::getline(is, l)) {
    size_t np = strlen(prefix); if (l.compare(0, np, prefix) == 0) l = l.substr(np); size_t t = l.find("\t\t"); if (t == string::npos || l.compare(0, 8, "FUNCTION") == 0) continue;
    Line x; x.name = l.substr(0, t); const char *p = l.c_str() + t + 2; char *q; x.v = strtod(p, &q); if (q == p) continue; string rest = q; size_t e = rest.find("+/- "); if (e != string::npos) x.more.push_back(strtod(rest.c_str() + e + 4, 0));
    else if (rest.compare(0, 2, "\t\t") == 0) { if (rest.compare(2, 5, "fixed") == 0) x.fixed = true; else { double a, b; if (sscanf(rest.c_str() + 2, "%lg,%lg", &a, &b) == 2) x.more = {a, b}; } }
    out.push_back(x); } }
  return out; }
static double tolOf(const string &n, double e) { return n == "X0" || n == "Y0" ? 6e-5 + 6e-6 * fabs(e) : 6e-6 * fabs(e) + 1e-300; }
static void same(const char *what, const vector<Line> &L, const vector<string> &names, const vector<double> &v, const vector<double> *errs, const vector<SimpleParameterInfo> *lim) {
  if (L.size() != v.size()) { fail("every parameter is written exactly once", fmt("%s: %zu lines for %zu parameters", what, L.size(), v.size())); return; }
  for (size_t k = 0; k < v.size(); k++) { wantb("parameters are written under their own names, in order", fmt("%s line %zu: %s instead of %s", what, k, L[k].name.c_str(), names[k].c_str()), L[k].name == names[k]);
    want("centres are written as fitted value plus the offset of their axis, other parameters unaltered", fmt("%s line %zu (%s)", what, k, L[k].name.c_str()), L[k].v, v[k], 0, tolOf(names[k], v[k]));
    if (errs) { if (L[k].more.size() != 1) fail("errors are written when given", fmt("%s line %zu", what, k)); else want("every value is written with its own error", fmt("%s line %zu", what, k), L[k].more[0], (*errs)[k], 6e-5, 6e-5); }
    if (lim) { wantb("fixed parameters are marked", fmt("%s line %zu", what, k), L[k].fixed == ((*lim)[k].fixed == 1)); if (!L[k].fixed && L[k].more.size() == 2 && names[k] != "X0" && names[k] != "Y0") { want("own limits", fmt("%s line %zu lower", what, k), L[k].more[0], (*lim)[k].limits[0], 1e-5, 1e-9); want("own limits", fmt("%s line %zu upper", what, k), L[k].more[1], (*lim)[k].limits[1], 1e-5, 1e-9); } } } }
static void row(const char *what, const string &s, const vector<double> &v, char sep) {
  const char *p = s.c_str(); vector<double> got; while (*p) { char *q; double x = strtod(p, &q); if (q == p) { fail("a row holds numbers and separators only", fmt("%s: %s", what, p)); return; } got.push_back(x); p = q; if (*p == sep) p++; else if (*p) { fail("a row holds numbers and separators only", fmt("%s: %s", what, p)); return; } }
  if (got.size() != v.size()) { fail("a row holds every parameter once", fmt("%s: %zu numbers for %zu parameters", what, got.size(), v.size())); return; }
  for (size_t k = 0; k < v.size(); k++) want("centres are written as fitted value plus the offset of their axis, other parameters unaltered", fmt("%s entry %zu", what, k), got[k], v[k], 2e-9, 1e-300); }
static vector<string> fileLines(const string &n) { std::ifstream f(n); vector<string> v; string l; while (std::getline(f, l)) v.push_back(l + "\n"); return v; }
static int someOff(Rng &g) { return g.i(0, 4) == 0 ? 0 : g.i(1, 3000); }
// an image-section specification and the offsets it implies
static string section(Rng &g, int ox, int oy) { string s = g.b() ? "name.fits" : "dir.d/im_a.fits"; if (g.i(0, 2) == 0) s += fmt("[%d]", g.i(1, 9)); return s + fmt("[%d:%d,%d:%d]", ox + 1, ox + g.i(1, 500), oy + 1, oy + g.i(1, 500)); }
static void single(Rng &g, int t, uint64_t seed) {
  Fit f; Model &m = f.m; m.DC = 2; m.DR = 2; int nf = g.i(1, 6); for (int k = 0; k < nf; k++) { Comp c; c.kind = g.i(0, 4); c.start = k == 0 || g.b(); m.comps.push_back(c); } m.randomParams(g); for (double &p : m.params) if (g.i(0, 3) == 0) p *= 100; int n = m.params.size(), ox = someOff(g), oy = someOff(g);
  string sig = fmt("single: seed %llu case %d offsets %d %d functions", (unsigned long long)seed, t, ox, oy); for (auto &c : m.comps) sig += fmt(" %s%d", c.start ? "|" : "", c.kind); for (double p : m.params) sig += fmt(" %.9g", p); test_case(sig);
  ModelObject M; { Quiet q; M.SetVerboseLevel(-1); vector<int> st; for (size_t k = 0; k < m.comps.size(); k++) { if (m.comps[k].start) st.push_back(k); M.AddFunction(makeFn(m.comps[k])); } M.DefineFunctionSets(st); M.PopulateParameterNames(); M.AddImageOffsets(ox, oy); }
  vector<string> names; vector<double> e = m.params, off(n, 0.); int p = 0; for (auto &c : m.comps) { if (c.start) { off[p] = ox; off[p + 1] = oy; p += 2; } p += NPAR[c.kind]; } for (int k = 0; k < n; k++) { e[k] += off[k]; names.push_back(M.GetParameterName(k)); }
  int a = -1, b = -1; std::tie(a, b) = M.GetImageOffsets(); wantb("the recorded offsets are returned", fmt("%d %d", a, b), a == ox && b == oy);
  vector<double> tab(n, 0.), keep = m.params, errs(n); for (double &x : errs) x = g.r(.001, 9); M.GetImageOffsets(tab.data()); for (int k = 0; k < n; k++) want("the offset table holds the offsets in the centre slots and zeros elsewhere", fmt("entry %d", k), tab[k], off[k], 0, 0);
  const char sep = g.b() ? '\t' : ' '; row("row", M.PrintModelParamsHorizontalString(m.params.data(), string(1, sep)), e, sep);
  const char *pre = g.b() ? "" : "#"; vector<string> S; M.PrintModelParamsToStrings(S, m.params.data(), nullptr, pre); same("values", linesOf(S, pre), names, e, 0, 0);
  S.clear(); M.PrintModelParamsToStrings(S, m.params.data(), errs.data(), pre); same("values and errors", linesOf(S, pre), names, e, &errs, 0);
  vector<mp_par> lim(n); memset(lim.data(), 0, n * sizeof(mp_par)); vector<SimpleParameterInfo> si(n); for (int k = 0; k < n; k++) { lim[k].fixed = g.i(0, 2) == 0; lim[k].limited[0] = lim[k].limited[1] = 1; lim[k].limits[0] = m.params[k] - g.r(0, 9); lim[k].limits[1] = m.params[k] + g.r(0, 9); si[k].fixed = lim[k].fixed; si[k].limits[0] = lim[k].limits[0]; si[k].limits[1] = lim[k].limits[1]; }
  M.AddParameterInfo(lim); S.clear(); M.PrintModelParamsToStrings(S, m.params.data(), nullptr, pre, true); same("values and limits", linesOf(S, pre), names, e, 0, &si);
  char nm[] = "saved2XXXXXX"; int fd = mkstemp(nm); FILE *fp = fdopen(fd, "w"); vector<string> hdr; SaveParameters2(fp, m.params.data(), &M, hdr, pre); fclose(fp); same("SaveParameters2", linesOf(fileLines(nm), pre), names, e, 0, 0); unlink(nm);
  wantb("the parameters are not modified", "printing", keep == m.params);
  int sx, sy; string sec = section(g, ox, oy); std::tie(sx, sy) = DetermineImageOffset(sec); wantb("the section's offsets are its first column and row less one", fmt("%s: %d %d", sec.c_str(), sx, sy), sx == ox && sy == oy); std::tie(sx, sy) = DetermineImageOffset("plain.fits"); wantb("no section, no offset", fmt("%d %d", sx, sy), sx == 0 && sy == 0); }
static void several(Rng &g, int t, uint64_t seed) {
  std::unique_ptr<Multi> P(new Multi); Multi &X = *P; X.random(g, 0); for (auto &x : X.f) if (!x.setupOK()) return; for (auto &l : X.local) if (l.size()) return;   // per-image functions: own layout, not printed by these functions
  int n = X.f.size(), N = X.all.size(); vector<int> ox(n), oy(n); string sig = fmt("several: seed %llu case %d offsets", (unsigned long long)seed, t); for (int i = 0; i < n; i++) { ox[i] = someOff(g); oy[i] = someOff(g); sig += fmt(" %d,%d", ox[i], oy[i]); } test_case(sig + " " + X.str());
  if (!X.setup()) { fail("set-up succeeds", "FinalSetupForFitting"); return; } for (int i = 0; i < n; i++) X.obj[i]->AddImageOffsets(ox[i], oy[i]);
  vector<double> off(N, 0.), e = X.all, errs(N), keep = X.all; for (double &x : errs) x = g.r(.001, 9); vector<string> names(N), fn; static const char *LAB[5] = {"PIXEL_SCALE", "ROTATION", "FLUX_SCALE", "X0", "Y0"}; int base = 5 * (n - 1), p = base;
  for (int i = 1; i < n; i++) { off[5 * i - 2] = ox[i]; off[5 * i - 1] = oy[i]; for (int k = 0; k < 5; k++) names[5 * (i - 1) + k] = LAB[k]; }
  for (auto &c : X.global) { if (c.start) { off[p] = ox[0]; off[p + 1] = oy[0]; p += 2; } p += NPAR[c.kind]; } for (int k = 0; k < N; k++) e[k] += off[k]; for (int k = 0; k < N - base; k++) names[base + k] = X.obj[0]->GetParameterName(k);
  vector<double> tab(N, 0.); X.M.GetImageOffsets(tab.data()); for (int k = 0; k < N; k++) want("the offset table holds every image's offsets in its own centre slots and zeros elsewhere", fmt("entry %d", k), tab[k], off[k], 0, 0);
  row("row", X.M.PrintModelParamsHorizontalString(X.all.data(), "\t"), e, '\t');
  auto turned = [&](const vector<double> &v) { vector<double> r(v.begin() + base, v.end()); r.insert(r.end(), v.begin(), v.begin() + base); return r; }; vector<string> tn(names.begin() + base, names.end()); tn.insert(tn.end(), names.begin(), names.begin() + base);
  for (int w = 0; w < 2; w++) { vector<string> S; vector<double> er = turned(errs); { Quiet q; X.M.PrintModelParamsToStrings(S, X.all.data(), w ? errs.data() : nullptr, "", false); } same(w ? "all parameters, errors" : "all parameters", linesOf(S, ""), tn, turned(e), w ? &er : 0, 0); }
  for (int q = 0; q < 2 * n; q++) { int i = q < n ? q : g.i(0, n - 1); vector<double> own = assembled(X.all, n, i, X.size, X.start, X.loc); int o = 0; for (auto &c : X.global) { if (c.start) { own[o] += ox[i]; own[o + 1] += oy[i]; o += 2; } o += NPAR[c.kind]; }
    vector<string> S; { Quiet z; X.M.GetParameterStringsForOneImage(S, X.all.data(), i); } vector<string> on(names.begin() + base, names.end()); same(fmt("image %d", i).c_str(), linesOf(S, ""), on, own, 0, 0);
    if (i == 0) { S.clear(); vector<double> er(errs.begin() + base, errs.end()); { Quiet z; X.M.GetParameterStringsForOneImage(S, X.all.data(), 0, errs.data()); } same("image 0, errors", linesOf(S, ""), on, own, &er, 0); } }
  // saved image information
  for (int w = 0; w < 2; w++) { vector<ImageInfo> info(n); vector<int> nc(n); for (int i = 0; i < n; i++) nc[i] = info[i].nCombined = g.i(1, 5); SolverResults sr; if (w) { sr.SetSolverType(MPFIT_SOLVER); sr.StoreErrors(errs.data(), N); } else sr.SetSolverType(DIFF_EVOLN_SOLVER);
    string nm = "imageinfo.dat"; vector<string> hdr; SaveImageInfoParameters(X.all.data(), &X.M, info, sr, nm, hdr); vector<string> F = fileLines(nm); unlink(nm.c_str()); vector<Line> L, all = linesOf(F, ""); int blocks = -1; vector<int> gnc(n, 1); for (auto &l : F) { if (l.compare(0, 11, "IMAGE_START") == 0) blocks++; if (l.compare(0, 9, "NCOMBINED") == 0 && blocks >= 0 && blocks < n) gnc[blocks] = atoi(l.c_str() + 9); }
    wantb("one block per image", fmt("%d", blocks + 1), blocks == n - 1); wantb("number of combined exposures is saved", "NCOMBINED", gnc == nc); for (auto &l : all) if (l.name != "NCOMBINED" && l.name != "GAIN") L.push_back(l);
    vector<string> in; for (int i = 1; i < n; i++) for (const char *q : {"PIXEL_SCALE", "IMAGE_PA", "FLUX_SCALE", "X0", "Y0"}) in.push_back(q); vector<double> v(e.begin(), e.begin() + base), er(errs.begin(), errs.begin() + base); same("saved image information", L, in, v, w ? &er : 0, 0); }
  // the way in
  vector<mp_par> lim(N), l0; memset(lim.data(), 0, N * sizeof(mp_par)); for (auto &x : lim) { x.fixed = g.b(); for (int w = 0; w < 2; w++) { x.limited[w] = g.b(); x.limits[w] = g.r(-500, 500); } } l0 = lim; vector<double> v = e; CorrectForImageOffsets(v.data(), lim, &X.M);
  for (int k = 0; k < N; k++) { want("start values lose the offset that reporting adds", fmt("entry %d", k), v[k], X.all[k], 1e-12, 1e-9); wantb("flags stay", fmt("entry %d", k), lim[k].fixed == l0[k].fixed && lim[k].limited[0] == l0[k].limited[0] && lim[k].limited[1] == l0[k].limited[1]); for (int w = 0; w < 2; w++) want("set limits lose the offset, unset ones stay", fmt("entry %d limit %d", k, w), lim[k].limits[w], l0[k].limits[w] - (l0[k].limited[w] ? off[k] : 0), 1e-12, 1e-9); if (off[k] != 0) want("the offset is recorded", fmt("entry %d", k), lim[k].offset, off[k], 0, 0); }
  wantb("the parameters are not modified", "printing", keep == X.all); }
int main(int c, char **v) {
  Args a = args(c, v); Rng g(a.seed + 1600);
  for (int t = 0; t < (a.thorough ? 6000 : 600) && g_fails < 4; t++) single(g, t, a.seed);
  for (int t = 0; t < (a.thorough ? 3000 : 300) && g_fails < 4; t++) several(g, t, a.seed);
  return finish();
}
