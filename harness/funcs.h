// The image functions of the standard build: factories, parameter domains, roles (a position angle, d unchanged, i intensity, l length, v inverse length).
#ifndef VH_FUNCS_H
#define VH_FUNCS_H
#include "common.h"
#include <memory>
#include "function_object.h"
#include "func_exp.h"
#include "func_sersic.h"
#include "func_gen-sersic.h"
#include "func_core-sersic.h"
#include "func_gen-exp.h"
#include "func_broken-exp.h"
#include "func_broken-exp2d.h"
#include "func_edge-on-ring.h"
#include "func_edge-on-ring2side.h"
#include "func_flatbar.h"
#include "func_gaussian-ring.h"
#include "func_gaussian-ring2side.h"
#include "func_gaussian-ring-az.h"
#include "func_gaussian.h"
#include "func_moffat.h"
#include "func_king.h"
#include "func_king2.h"
#include "func_ferrersbar2d.h"
#include "func_flatsky.h"
#include "func_tilted-sky-plane.h"
#include "func_peanut_dattathri.h"
#include "func_edge-on-disk.h"
#include "func_expdisk3d.h"
#include "func_brokenexpdisk3d.h"
#include "func_gaussianring3d.h"
#include "func_ferrersbar3d.h"
#include "func_pointsource.h"
#include "func_pointsource-rot.h"
namespace vh {
typedef std::vector<double> Vec;
template <class T> FunctionObject *make() { return new T(); }
// domain letters per parameter: A angle, e ellipticity, n index, I intensity, l length, b break length, v inverse length, c shape offset, p positive number, z axis ratio, x exponent, k concentration, D free angle, s slope
struct Fn { const char *name; FunctionObject *(*make)(); const char *roles, *dom; bool slow; };
static const Fn FN[] = {
  {"Exponential", make<Exponential>, "adil", "AeIl", 0}, {"Sersic", make<Sersic>, "addil", "AenIl", 0}, {"GenSersic", make<GenSersic>, "adddil", "AecnIl", 0},
  {"CoreSersic", make<CoreSersic>, "addilldd", "AenIlbpg", 0}, {"GenExponential", make<GenExponential>, "addil", "AecIl", 0},
  {"BrokenExponential", make<BrokenExponential>, "adilllv", "AeIllbv", 0}, {"BrokenExponential2D", make<BrokenExponential2D>, "ailllvl", "AIllbvl", 0},
  {"EdgeOnRing", make<EdgeOnRing>, "ailll", "AIlll", 0}, {"EdgeOnRing2Side", make<EdgeOnRing2Side>, "aillll", "AIllll", 0}, {"FlatBar", make<FlatBar>, "addilllv", "AefIllbv", 0},
  {"GaussianRing", make<GaussianRing>, "adill", "AeIll", 0}, {"GaussianRing2Side", make<GaussianRing2Side>, "adilll", "AeIlll", 0}, {"GaussianRingAz", make<GaussianRingAz>, "adidll", "AeIzll", 0},
  {"Gaussian", make<Gaussian>, "adil", "AeIl", 0}, {"Moffat", make<Moffat>, "adild", "AeIlm", 0}, {"ModifiedKing", make<ModifiedKing>, "adilld", "AeIltp", 0}, {"ModifiedKing2", make<ModifiedKing2>, "adildd", "AeIlkp", 0},
  {"FerrersBar2D", make<FerrersBar2D>, "adddil", "AecpIl", 0}, {"FlatSky", make<FlatSky>, "i", "I", 0}, {"TiltedSkyPlane", make<TiltedSkyPlane>, "idd", "Iss", 0},
  {"DattathriPeanut3D", make<DattathriPeanut3D>, "addilddllldd", "ADDIlzzllluu", 1}, {"EdgeOnDisk", make<EdgeOnDisk>, "aildl", "AIlEl", 0}, {"ExponentialDisk3D", make<ExponentialDisk3D>, "adildl", "ADIlEl", 1},
  {"BrokenExponentialDisk3D", make<BrokenExponentialDisk3D>, "adilllvdl", "ADIllbvEl", 1}, {"GaussianRing3D", make<GaussianRing3D>, "adddilll", "ADDeIlLl", 1}, {"FerrersBar3D", make<FerrersBar3D>, "addilddd", "ADDIlzzx", 1},
  {"PointSource", make<PointSource>, "i", "I", 0}, {"PointSourceRot", make<PointSourceRot>, "ai", "AI", 0} };
static const int NFN = sizeof FN / sizeof FN[0];
inline int np(const Fn &f) { return (int)strlen(f.roles); }
inline bool point(const Fn &f) { return !strncmp(f.name, "PointS", 6); }
inline Vec randomParams(const Fn &f, Rng &g) {
  Vec p; double len = pow(10, g.r(-0.5, 1.2));
  for (const char *d = f.dom; *d; d++) { double v = 0, l = len * g.r(0.5, 2);
    switch (*d) { case 'A': v = g.r(-200, 400); break; case 'e': v = g.r(0, 0.8); break; case 'n': v = g.i(0, 3) ? g.r(0.4, 6) : g.r(0.2, 0.36); break; case 'I': v = pow(10, g.r(-1, 3)); break; case 'l': v = l; break; case 'L': v = l * 0.3; break;
      case 'b': v = l * g.r(1, 3); break; case 'v': v = g.r(0.5, 4) / l; break; case 'c': v = g.r(-0.8, 2); break; case 'p': v = g.r(0.5, 4); break; case 'g': v = g.r(0, 0.9); break; case 'f': v = g.r(5, 85); break;
      case 'z': v = g.r(0.15, 1); break; case 'm': v = g.r(1.2, 5); break; case 't': v = l * g.r(2, 6); break; case 'k': v = g.r(1.5, 8); break; case 'x': v = g.r(0, 3); break; case 's': v = g.r(-2, 2); break; case 'D': v = g.r(0, 90); break;
      case 'E': v = g.i(0, 2) ? g.r(0.7, 10) : 200; break; case 'u': v = g.r(1.5, 4); break; }
    p.push_back(v); }
  return p; }
inline double role(char r, double v, double ps, double rot, double sc) { return r == 'a' ? v - rot : r == 'i' ? v * sc : r == 'l' ? v / ps : r == 'v' ? v * ps : v; }
inline std::string show(const Fn &f, const Vec &p) { std::string s = f.name; for (double v : p) s += fmt(" %.9g", v); return s; }
inline std::unique_ptr<FunctionObject> build(const Fn &f) { return std::unique_ptr<FunctionObject>(f.make()); }
}
#endif
