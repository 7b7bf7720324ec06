// Shared by the replay harnesses: seeded generator, failure reporting, tolerant comparison.
// A harness drives the REAL functions compiled from /repo and compares with an independent statement of the contract.
#ifndef VH_COMMON_H
#define VH_COMMON_H
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <string>
#include <vector>
#include <set>
#include <algorithm>
#include <limits>
#include <unistd.h>
namespace vh {
struct Rng { uint64_t s; explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int i(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }
  double u() { return (double)(next() >> 11) / 9007199254740992.0; }
  double r(double lo, double hi) { return lo + (hi - lo) * u(); }
  bool b() { return next() >> 63; } };
static long g_cases = 0; static std::set<std::string> g_sigs; static int g_fails = 0; static std::string g_now;
static std::vector<std::string> g_samples;
inline std::string fmt(const char *f, ...) { char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline void test_case(const std::string &sig) { g_cases++; g_now = sig; static FILE *now = fopen("now.txt", "w"); if (now) { rewind(now); fprintf(now, "%s\n", sig.c_str()); fflush(now); } if (g_sigs.size() < 200000) g_sigs.insert(sig); if (g_samples.size() < 3) g_samples.push_back(sig); }
// one line per failure: FAIL|contract|input|expected/got
inline void fail(const char *contract, const std::string &detail) {
  for (auto &ch : g_now) if (ch == '|') ch = ';';
  if (g_fails++ < 5) { dprintf(1, "FAIL|%s|%s|%s\n", contract, g_now.c_str(), detail.c_str()); } }
inline bool close(double a, double b, double rel = 1e-9, double abs_ = 1e-12) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return fabs(a - b) <= abs_ + rel * std::max(fabs(a), fabs(b)); }
inline void want(const char *contract, const std::string &what, double got, double exp, double rel = 1e-9, double abs_ = 1e-12) {
  if (!close(got, exp, rel, abs_)) fail(contract, fmt("%s: got %.17g, contract says %.17g", what.c_str(), got, exp)); }
inline void wantb(const char *contract, const std::string &what, bool ok) { if (!ok) fail(contract, what); }
struct Args { uint64_t seed = 1; bool thorough = false; double secs = 20; };
inline Args args(int c, char **v) { Args a; for (int k = 1; k + 1 < c; k += 2) { if (!strcmp(v[k], "--seed")) a.seed = strtoull(v[k+1], 0, 10); if (!strcmp(v[k], "--tier")) a.thorough = !strcmp(v[k+1], "thorough"); } setvbuf(stdout, 0, _IONBF, 0); return a; }
inline int finish() { for (auto &s : g_samples) dprintf(1, "SAMPLE|%s\n", s.c_str()); dprintf(1, "RAN|%ld|%zu|%d\n", g_cases, g_sigs.size(), g_fails); return g_fails ? 1 : 0; }
// silence the code under test
struct Quiet { int so, se; Quiet() { fflush(stdout); fflush(stderr); so = dup(1); se = dup(2); FILE *f = fopen("/dev/null", "w"); dup2(fileno(f), 1); dup2(fileno(f), 2); fclose(f); } ~Quiet() { fflush(stdout); fflush(stderr); dup2(so, 1); dup2(se, 2); ::close(so); ::close(se); } };
}

#include <csignal>
volatile sig_atomic_t stopSignal_flag = 0;   // defined by the main programs
#endif
