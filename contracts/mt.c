/* Contracts of the random-number functions, discharged by CBMC on the text of core/mersenne_twister.cpp itself (included below,
   compiled as C: the file is in the common subset).  Machine integers and doubles are bit-precise; all loops have constant trip
   counts and are unwound completely (unwinding assertions), so nothing is bounded. */
#include "core/mersenne_twister.cpp"
unsigned nondet_uint(void); int nondet_int(void); unsigned long nondet_ulong(void);
/* ---- definitions of MT19937 (Matsumoto & Nishimura 1998) on 32-bit words */
static unsigned tw(unsigned u, unsigned l, unsigned m) { unsigned y = (u & 0x80000000u) | (l & 0x7fffffffu); return m ^ (y >> 1) ^ ((l & 1u) ? 0x9908b0dfu : 0u); }
static unsigned temper(unsigned y) { y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; y ^= y >> 18; return y; }
/* ---- genrand_int32 with words left in the state: pre 0 <= mti < 624, words are 32-bit numbers; ghosts: any word j, the word read */
void step(void) {
  __CPROVER_havoc_object(mt); mti = nondet_int(); __CPROVER_assume(0 <= mti && mti < 624);
  int s = mti, j = nondet_int(); __CPROVER_assume(0 <= j && j < 624); unsigned long w = mt[s], gj = mt[j]; __CPROVER_assume(w <= 0xffffffffUL);
  unsigned long r = genrand_int32();
  __CPROVER_assert(mt[j] == gj, "genrand_int32: every word of the state is kept while words are left");
  __CPROVER_assert(mti == s + 1, "genrand_int32: moves to the next word");
  __CPROVER_assert(r == temper((unsigned)w), "genrand_int32: output is the tempered word, in [0,2^32-1]");
  __CPROVER_assert(0, "REACHABLE"); }
/* ---- genrand_int32 with the state used up: the next 624 words follow the recurrence */
void block(void) {
  unsigned long g[624]; for (int i = 0; i < 624; i++) g[i] = mt[i] = nondet_uint(); mti = 624;
  unsigned long r = genrand_int32();
  for (int k = 0; k < 624; k++) { unsigned long l = k < 623 ? g[k + 1] : mt[0], m = k < 227 ? g[k + 397] : mt[k - 227];
    __CPROVER_assert(mt[k] == tw((unsigned)g[k], (unsigned)l, (unsigned)m), "genrand_int32: x[k+624] = x[k+397] ^ twist(x[k], x[k+1])"); }
  __CPROVER_assert(mti == 1, "genrand_int32: starts again at the first word");
  __CPROVER_assert(r == temper((unsigned)mt[0]), "genrand_int32: output is the tempered word, in [0,2^32-1]");
  __CPROVER_assert(0, "REACHABLE"); }
/* ---- genrand_int32 before any seeding: the default seed 5489 (the statement about blocks applies to the seeded state) */
void unseeded(void) {
  mti = 625; unsigned long r = genrand_int32(); unsigned x[624], f[624]; x[0] = 5489u;
  for (int k = 1; k < 624; k++) x[k] = 1812433253u * (x[k - 1] ^ (x[k - 1] >> 30)) + k;
  for (int k = 0; k < 624; k++) { f[k] = tw(x[k], k < 623 ? x[k + 1] : f[0], k < 227 ? x[k + 397] : f[k - 227]);
    __CPROVER_assert(mt[k] == f[k], "genrand_int32: an unseeded generator behaves as if seeded with 5489"); }
  __CPROVER_assert(mti == 1 && r == temper(f[0]), "genrand_int32: first number of an unseeded generator");
  __CPROVER_assert(0, "REACHABLE"); }
/* ---- seeding */
void seed(void) {
  unsigned long s = nondet_ulong(); init_genrand(s);
  __CPROVER_assert(mti == 624, "init_genrand: the next number starts a new block");
  __CPROVER_assert(mt[0] == (unsigned)s, "init_genrand: first word is the seed modulo 2^32");
  for (int k = 1; k < 624; k++) __CPROVER_assert(mt[k] == (unsigned)(1812433253u * ((unsigned)mt[k - 1] ^ ((unsigned)mt[k - 1] >> 30)) + k), "init_genrand: x[k] = 1812433253 (x[k-1] ^ (x[k-1] >> 30)) + k modulo 2^32");
  __CPROVER_assert(0, "REACHABLE"); }
/* ---- derived generators: checked against the contract of genrand_int32 (any 32-bit value), not its body */
unsigned long g_out[2]; int g_n;   /* ghost: the values the calls returned */
unsigned long genrand_int32(void)
  __CPROVER_assigns(g_n, __CPROVER_object_whole(g_out))
  __CPROVER_requires(0 <= g_n && g_n < 2)
  __CPROVER_ensures(g_n == __CPROVER_old(g_n) + 1)
  __CPROVER_ensures(__CPROVER_return_value <= 0xffffffffUL)
  __CPROVER_ensures(__CPROVER_old(g_n) == 0 ? g_out[0] == __CPROVER_return_value : (g_out[1] == __CPROVER_return_value && g_out[0] == __CPROVER_old(g_out[0])));
double genrand_real1(void)
  __CPROVER_requires(g_n == 0)
  __CPROVER_assigns(g_n, __CPROVER_object_whole(g_out))
  __CPROVER_ensures(g_n == 1)
  __CPROVER_ensures(0.0 <= __CPROVER_return_value && __CPROVER_return_value <= 1.0)
  __CPROVER_ensures((__CPROVER_return_value == 0.0) == (g_out[0] == 0))
  __CPROVER_ensures((__CPROVER_return_value == 1.0) == (g_out[0] == 0xffffffffUL))
  __CPROVER_ensures(__CPROVER_return_value * 4294967296.0 - (double)g_out[0] >= -1e-6 && __CPROVER_return_value * 4294967296.0 - (double)g_out[0] <= 1.0 + 1e-6);
double genrand_real2(void)
  __CPROVER_requires(g_n == 0)
  __CPROVER_assigns(g_n, __CPROVER_object_whole(g_out))
  __CPROVER_ensures(g_n == 1)
  __CPROVER_ensures(0.0 <= __CPROVER_return_value && __CPROVER_return_value < 1.0)
  __CPROVER_ensures(__CPROVER_return_value * 4294967296.0 == (double)g_out[0]);
double genrand_real3(void)
  __CPROVER_requires(g_n == 0)
  __CPROVER_assigns(g_n, __CPROVER_object_whole(g_out))
  __CPROVER_ensures(g_n == 1)
  __CPROVER_ensures(0.0 < __CPROVER_return_value && __CPROVER_return_value < 1.0)
  __CPROVER_ensures(__CPROVER_return_value * 4294967296.0 == (double)g_out[0] + 0.5);
double genrand_res53(void)
  __CPROVER_requires(g_n == 0)
  __CPROVER_assigns(g_n, __CPROVER_object_whole(g_out))
  __CPROVER_ensures(g_n == 2)
  __CPROVER_ensures(0.0 <= __CPROVER_return_value && __CPROVER_return_value < 1.0)
  __CPROVER_ensures(__CPROVER_return_value * 9007199254740992.0 == (double)((g_out[0] >> 5) * 67108864UL + (g_out[1] >> 6)));
long genrand_int31(void)
  __CPROVER_requires(g_n == 0)
  __CPROVER_assigns(g_n, __CPROVER_object_whole(g_out))
  __CPROVER_ensures(g_n == 1)
  __CPROVER_ensures(__CPROVER_return_value == (long)(g_out[0] >> 1));
void real1(void) { genrand_real1(); __CPROVER_assert(0, "REACHABLE"); }
void real2(void) { genrand_real2(); __CPROVER_assert(0, "REACHABLE"); }
void real3(void) { genrand_real3(); __CPROVER_assert(0, "REACHABLE"); }
void res53(void) { genrand_res53(); __CPROVER_assert(0, "REACHABLE"); }
void int31(void) { genrand_int31(); __CPROVER_assert(0, "REACHABLE"); }
