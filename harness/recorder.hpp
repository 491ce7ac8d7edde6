// Recorder: calls the real library (headers of /repo/include) and writes one record
// per call.  It decides nothing: the records are judged by the Quint specification.
//
//   rec scan <seed> <n> <k> <dict> [fn...]   search the argument space for telling calls
//   rec list                                 the signatures that can be called
//   rec replay                               calls read from stdin, "fn A B C a b c" per line
// Output: "fn A B C R a b c r [rank]", types in decimal, bits in hex; "! fn A B C a b c why" for a
// call that does not return.
//
// While scanning, a reference value of higher precision ranks the calls of a stratum (the
// larger the deviation, the more telling); the k highest of every stratum, the special
// values and a random sample are recorded.
#ifndef RECORDER_HPP
#define RECORDER_HPP
#ifdef GCEM_FIRST       // nothing of the standard library has been included
#include "gcem.hpp"
#endif
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <limits>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#ifdef AMONG_OTHERS     // everything of the standard library in sight, and macros that gcem promises to survive
#include <math.h>
#include <complex>
#include <numeric>
#include <valarray>
using namespace std;
#undef signbit
#define abs(x) ((x) < 0 ? -(x) : (x))
#define min(x, y) ((x) < (y) ? (x) : (y))
#define max(x, y) ((x) > (y) ? (x) : (y))
#define round(x) ((long)((x) + 0.5))
#define signbit(x) ((x) < 0)
#endif
#include "gcem.hpp"

typedef __float128 Q;
typedef long double L;
typedef unsigned __int128 U128;
typedef __int128 I128;
extern "C" { Q sinq(Q); Q cosq(Q); Q tanq(Q); Q asinq(Q); Q acosq(Q); Q atanq(Q); Q atan2q(Q,Q); Q sinhq(Q); Q coshq(Q); Q tanhq(Q);
 Q asinhq(Q); Q acoshq(Q); Q atanhq(Q); Q expq(Q); Q expm1q(Q); Q logq(Q); Q log1pq(Q); Q log2q(Q); Q log10q(Q); Q sqrtq(Q); Q hypotq(Q,Q);
 Q powq(Q,Q); Q lgammaq(Q); Q tgammaq(Q); Q erfq(Q); Q floorq(Q); Q ceilq(Q); Q truncq(Q); Q roundq(Q); Q fmodq(Q,Q); Q fabsq(Q); int isnanq(Q); int isinfq(Q); }
#define M1(n) inline L m_##n(L x) { return std::n(x); } inline Q m_##n(Q x) { return n##q(x); }
#define M2(n) inline L m_##n(L x, L y) { return std::n(x,y); } inline Q m_##n(Q x, Q y) { return n##q(x,y); }
M1(sin) M1(cos) M1(tan) M1(asin) M1(acos) M1(atan) M1(sinh) M1(cosh) M1(tanh) M1(asinh) M1(acosh) M1(atanh) M1(exp) M1(expm1) M1(log)
M1(log1p) M1(log2) M1(log10) M1(sqrt) M1(lgamma) M1(tgamma) M1(erf) M1(floor) M1(ceil) M1(trunc) M1(round)
M2(atan2) M2(hypot) M2(pow) M2(fmod)
template<class V> inline V m_abs(V x) { return x < 0 ? -x : x; }
template<class V> inline V m_max(V x, V y) { return x < y ? y : x; }
template<class V> inline V m_min(V x, V y) { return x < y ? x : y; }
template<class V> inline bool m_nan(V x) { return x != x; }
template<class V> inline bool m_inf(V x) { return !m_nan(x) && m_nan(x - x); }

struct Rng { uint64_t s;
  uint64_t operator()() { uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double u() { return ((*this)() >> 11) / 9007199254740992.0; }
  int below(int n) { return (int)((*this)() % (uint64_t)n); } };

template<class T> struct Tid;
#define TID(t,i) template<> struct Tid<t> { enum { v = i }; };
TID(float,0) TID(double,1) TID(long double,2) TID(signed char,3) TID(unsigned char,4) TID(short,5)
TID(unsigned short,6) TID(int,7) TID(unsigned,8) TID(long,9) TID(unsigned long,10) TID(bool,11)
TID(long long,9) TID(unsigned long long,10) TID(char,3)
// the type of a result the specification knows no name for
template<class T> struct Tid { enum { v = 14 }; };
template<int i> struct Ty;
#define TYP(i,T) template<> struct Ty<i> { typedef T t; };
TYP(0,float) TYP(1,double) TYP(2,long double) TYP(3,signed char) TYP(4,unsigned char) TYP(5,short) TYP(6,unsigned short) TYP(7,int)
TYP(8,unsigned) TYP(9,long) TYP(10,unsigned long) TYP(11,bool)

template<class T> U128 bits(T x) { U128 b = 0; memcpy(&b, &x, sizeof(T) > 10 ? 10 : sizeof(T)); return b; }
template<class T> T unbits(U128 b) { T x; memset((void*)&x, 0, sizeof x); memcpy((void*)&x, &b, sizeof(T) > 10 ? 10 : sizeof(T)); return x; }
// one bit pattern for all NaNs
inline U128 canon(int ty, U128 b) {
  if (ty == 0) { float x = unbits<float>(b); return x != x ? (U128)0x7fc00000u : b; }
  if (ty == 1) { double x = unbits<double>(b); return x != x ? (U128)0x7ff8000000000000ull : b; }
  if (ty == 2) { L x = unbits<L>(b); return x != x ? ((U128)0x7fff << 64) | 0xc000000000000000ull : b; }
  return b; }

struct Rec { int fn, A, B, C, R; U128 a, b, c, r; double score; int mate = -1; };
inline void hex(FILE *o, U128 v) { if (v >> 64) fprintf(o, " %llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
  else fprintf(o, " %llx", (unsigned long long)v); }
inline void put(FILE *o, const Rec &r) { fprintf(o, "%d %d %d %d %d", r.fn, r.A, r.B, r.C, r.R); hex(o, r.a); hex(o, r.b); hex(o, r.c); hex(o, r.r); if (r.score > 0) fprintf(o, " %.3g", r.score); fputc('\n', o); }

// ------------------------------------------------------------ calls that do not return
static volatile unsigned long long g_calls; static Rec g_cur; static unsigned long long g_seen; static int g_still; static int g_limit = 8;
inline void give_up(const char *why) { fflush(stdout); printf("! %d %d %d %d", g_cur.fn, g_cur.A, g_cur.B, g_cur.C); hex(stdout, g_cur.a); hex(stdout, g_cur.b);
  hex(stdout, g_cur.c); printf(" %s\n", why); fflush(stdout); _exit(0); }
inline void on_signal(int s) { if (s == SIGVTALRM) { if (g_calls == g_seen) { if (++g_still >= g_limit) give_up("hangs"); } else { g_seen = g_calls; g_still = 0; } return; }
  give_up(s == SIGSEGV ? "crashes" : s == SIGFPE ? "traps" : "aborts"); }
inline void watch() { static char stk[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
  int sg[] = { SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT, SIGTRAP }; for (int s : sg) sigaction(s, &sa, 0);
  sa.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGVTALRM, &sa, 0);
  struct itimerval it = { { 1, 0 }, { 1, 0 } }; setitimer(ITIMER_VIRTUAL, &it, 0); }
template<class A, class B, class C> inline void now(int fn, A a, B b, C c) { g_cur.fn = fn; g_cur.A = Tid<A>::v; g_cur.B = Tid<B>::v; g_cur.C = Tid<C>::v;
  g_cur.a = bits(a); g_cur.b = bits(b); g_cur.c = bits(c); g_calls = g_calls + 1; }
struct None {}; template<> struct Tid<None> { enum { v = 15 }; }; template<> inline U128 bits<None>(None) { return 0; }

// ------------------------------------------------------------ arguments
// what is being looked for: 0 values, 1 NaN arguments, 2 limiting and invalid arguments
static double g_heavy = 70000; // how many steps a call of binomial_coef may take
static uint64_t g_sweep; static int g_mode; static bool g_odd; // g_odd: a call outside the domain of interest
struct Ctx; typedef Rec (*Fp)(U128, U128, U128); typedef void (*Rp)(Ctx &, U128, U128, U128);
struct Ctx { bool reg; std::map<int, Fp> tab; std::map<int, Rp> rel; std::vector<Rec> mates; static int key(int f, int a, int b, int c) { return ((f * 16 + a) * 16 + b) * 16 + c; }
  Rng g; long n; int k; std::vector<L> dict, hot; // numbers in the sources; those that are new in them
  L lit() { return !hot.empty() && g.below(2) ? hot[g() % hot.size()] : dict[g() % dict.size()]; }
  // a number made from one in the sources
  L derived() { L x = lit(); if (hot.empty() || g.below(4)) return x; switch (g.below(7)) { case 0: return x * 2; case 1: return x / 2; case 2: return std::sqrt(m_abs(x)); case 3: return x * x; case 4: return x < 5000 ? std::exp2(x) : x; case 5: return x < 5000 ? std::pow(10.0L, x) : x; default: return x * (1 + g.below(1000)) + (L)(g.below(5) - 2); } }
  // a number between two neighbours in the list
  L between() { size_t i = g() % dict.size(); L a = dict[i], b = i + 1 < dict.size() ? dict[i + 1] : a * 2; if (!hot.empty() && g.below(2)) { a = hot[g() % hot.size()]; b = a * (g.below(2) ? 1.25L : 0.8L); } return a + (b - a) * (L)g.u(); } std::vector<int> only; std::vector<Rec> out; std::unordered_map<uint64_t, std::vector<Rec> > best;
  bool want(int fn) { return only.empty() || std::find(only.begin(), only.end(), fn) != only.end(); }
  // nothing is known about how far off a call outside the domain of interest may be
  void rank(Rec &r) { if (g_odd) r.score = 1e-6 + 1e-9 * g.u(); }
  bool few = false; // only the most telling calls of every tuple of types
  void keep(uint64_t key, const Rec &r, int k) { if (few) { key = 0; k = 3; } std::vector<Rec> &v = best[key]; if ((int)v.size() < k) { v.push_back(r); return; }
    int w = 0; for (int i = 1; i < (int)v.size(); i++) if (v[i].score < v[w].score) w = i; if (v[w].score < r.score) v[w] = r; }
  void flush() { for (auto &e : best) for (auto &r : e.second) out.push_back(r); best.clear(); for (auto &r : out) { put(stdout, r); if (r.mate >= 0) put(stdout, mates[r.mate]); } out.clear(); mates.clear(); fflush(stdout); } };

template<class T, bool F> struct Gen;
template<class T> struct Gen<T, true> { // floating
  static void specials(std::vector<T> &v) { typedef std::numeric_limits<T> N; T p[] = { T(0), N::infinity(), N::quiet_NaN(), N::min(), N::max(), N::denorm_min(), N::epsilon(), T(1), T(2), T(0.5), T(3), T(10),
      std::nextafter(T(1),T(2)), std::nextafter(T(1),T(0)), N::min()/2, std::nextafter(N::min(),T(0)), std::nextafter(N::min(),T(1)), N::max()/2, T(1.5), T(1e-3), T(100), T(1000), T(1e10) };
    for (T x : p) { v.push_back(x); v.push_back(-x); } }
  static T any(Ctx &c, double lo, double hi) { typedef std::numeric_limits<T> N; Rng &g = c.g; T s = (g() & 1) ? T(1) : T(-1); T m = T(1) + T(g() >> 1) / T(9223372036854775808.0L);
    switch (g.below(16)) {
      case 0: { int e = N::min_exponent - N::digits + (int)(g() % (uint64_t)(N::max_exponent - N::min_exponent + N::digits)); return s * std::ldexp(m, e - 1); }
      case 1: { int e = g.below(260) - 130; return s * std::ldexp(m, e); }
      case 2: case 3: return s * std::ldexp(m, g.below(24) - 14);
      case 4: { T x = (T)c.derived(); int j = g.below(9) - 4; for (int i = 0; i < (j < 0 ? -j : j); i++) x = std::nextafter(x, j < 0 ? -N::infinity() : N::infinity()); return g.below(4) ? x : -x; }
      case 5: { T x = (T)c.derived(); return s * x * (T(1) + std::ldexp(m - T(1.5), -g.below(N::digits))); }
      case 6: return s * T(g.below(200)) + T(g.below(2)) / 2;
      case 7: { T x = std::nextafter(T(g.below(400)) / 2, s * N::infinity()); return g.below(2) ? x : -x; }
      case 8: { T x = T(1) + s * std::ldexp(m, -1 - g.below(N::digits)); return g.below(3) ? x : -x; }
      case 9: { T x = g.below(3) ? std::ldexp(T(1), g.below(140) - 70) : (T)std::pow(10.0L, (L)(g.below(3) ? g.below(61) - 30 : g.below(2 * N::max_exponent10) - N::max_exponent10)); int j = g.below(5) - 2; for (int i = 0; i < (j < 0 ? -j : j); i++) x = std::nextafter(x, j < 0 ? T(0) : N::infinity()); return s * x; }
      case 10: { T x = (T)c.between(); return g.below(3) ? x : -x; }
      default: return T(lo) + (T(hi) - T(lo)) * (m - T(1)); } }
  static int bucket(T x, bool fine) { if (x != x) return 1; if (x - x != x - x) return x > 0 ? 2 : 3; if (x == 0) return 4; int e; T m = std::frexp(x < 0 ? -x : x, &e); int sg = x < 0;
    int b = e >= -72 && e <= 72 ? (fine ? 3000 + (e + 100) * 8 + (e >= -20 && e <= 20 ? (int)((m - T(0.5)) * 16) : 0) : e >= -8 && e <= 12 ? 200 + e : 300 + (e + 100) / 8) : e < 0 ? 100 - (-e) / (fine ? 64 : 400) : 100 + e / (fine ? 64 : 400);
    if (!fine && b < 0) b = 0; return 10 + b * 2 + sg; }
  static L val(T x) { return x; } };
template<class T> struct Gen<T, false> { // integral
  typedef std::numeric_limits<T> N;
  static void specials(std::vector<T> &v) { for (int i = N::is_signed ? -22 : 0; i <= 34; i++) v.push_back((T)i); if (sizeof(T) > 1) { int m[] = { 50, 64, 100, 128, 255, 256, 1000, 32767 }; for (int i : m) { v.push_back((T)i); if (N::is_signed) v.push_back((T)-i); } }
    for (int i = 0; i < 3; i++) { v.push_back((T)(N::max() - (T)i)); v.push_back((T)(N::min() + (T)i)); } v.push_back((T)(N::max() / 2)); v.push_back((T)(N::max() / 2 + 1)); }
  static T any(Ctx &c, double lo, double hi) { Rng &g = c.g; int w = sizeof(T) * 8; switch (g.below(6)) {
      case 0: return (T)g();
      case 4: { L d = c.derived(); if (d > 9e18L) d = 9e18L; int64_t x = (int64_t)d + g.below(5) - 2; return (T)(N::is_signed && g.below(3) == 0 ? -x : x); }
      case 5: { uint64_t x = (1ull << g.below(w)) + (uint64_t)g.below(3) - 1; return (T)(N::is_signed && g.below(2) ? (uint64_t)0 - x : x); }
      case 1: case 2: { uint64_t x = g() >> (64 - 1 - g.below(w)); return (T)((N::is_signed && (g() & 1)) ? -(int64_t)x : (int64_t)x); }
      default: { double x = lo + (hi - lo) * g.u(); if (x > 9e18) x = 9e18; if (x < -9e18) x = -9e18; return (T)(int64_t)x; } } }
  static int bucket(T x, bool fine) { I128 y = x; U128 m = y < 0 ? -y : y; int e = 0; while (m >> e) e++; return 10 + ((e * 4 + (int)((m << 3 >> e) & 3)) << 1) + (y < 0); }
  static L val(T x) { return (L)x; } };
template<> struct Gen<bool, false> { static void specials(std::vector<bool> &v) { v.push_back(false); v.push_back(true); } static bool any(Ctx &c, double, double) { return c.g() & 1; }
  static int bucket(bool x, bool) { return x; } static L val(bool x) { return x; } };
// a conversion that stays in range
template<class T> T cast(L x) { typedef std::numeric_limits<T> N; if (!N::is_integer) return (T)x; if (!(x > (L)N::min())) return N::min(); if (x >= (L)N::max()) return N::max(); return (T)x; }
template<class T> struct G : Gen<T, std::is_floating_point<T>::value> { typedef Gen<T, std::is_floating_point<T>::value> B;
  static T pick(Ctx &c, double lo, double hi) { if (g_mode == 2 && c.g.below(8) < 5) { static std::vector<T> sp; if (sp.empty()) B::specials(sp); return sp[c.g() % sp.size()]; } return B::any(c, lo, hi); } };
template<class T, bool F> struct Nan { static bool set(Ctx &, T &) { return false; } };
template<class T> struct Nan<T, true> { static bool set(Ctx &c, T &x) { x = std::numeric_limits<T>::quiet_NaN(); if (c.g() & 1) x = -x; return true; } };
template<class T> bool nan_(Ctx &c, T &x) { return Nan<T, std::is_floating_point<T>::value>::set(c, x); }

template<class R> struct Prec { typedef L v; }; template<> struct Prec<L> { typedef Q v; };
template<class V> double tod(V x) { return (double)x; }
// deviation of r from t in units of eps*scale; large when one of them is not finite
template<class R, class V, bool F> struct Dev { static double d(R r, V t, V scale) { V v = (V)r; if (m_nan(t) || m_nan(v)) return m_nan(t) && m_nan(v) ? 0 : 1e30;
    if (m_inf(t) || m_inf(v)) return m_inf(t) && m_inf(v) && (t < 0) == (v < 0) ? 0 : (m_abs(t) > (V)(std::numeric_limits<R>::max() / 4) ? 1 : 1e29);
    V s = m_abs(scale) * (V)std::numeric_limits<R>::epsilon() + (V)std::numeric_limits<R>::min(); V e = m_abs(v - t) / s; return e < 1e28 ? (double)e : 1e28; } };
template<class R, class V> struct Dev<R, V, false> { static double d(R r, V t, V) { return (V)r == t ? 0 : 1e30; } };
template<class R, class V> double dev(R r, V t, V s) { return Dev<R, V, std::is_floating_point<R>::value>::d(r, t, s); }

template<class F, class A> Rec call1(A a) { now(F::id, a, None(), None()); auto r = F::call(a); typedef decltype(r) R; Rec x; x.fn = F::id; x.A = Tid<A>::v; x.B = x.C = 15; x.R = Tid<R>::v;
  x.a = bits(a); x.b = x.c = 0; x.r = canon(Tid<R>::v, bits(r)); x.score = 0; return x; }
template<class F, class A, class B> Rec call2(A a, B b) { now(F::id, a, b, None()); auto r = F::call(a, b); typedef decltype(r) R; Rec x; x.fn = F::id; x.A = Tid<A>::v; x.B = Tid<B>::v; x.C = 15; x.R = Tid<R>::v;
  x.a = bits(a); x.b = bits(b); x.c = 0; x.r = canon(Tid<R>::v, bits(r)); x.score = 0; return x; }
template<class F, class A, class B, class C> Rec call3(A a, B b, C c) { now(F::id, a, b, c); auto r = F::call(a, b, c); typedef decltype(r) R; Rec x; x.fn = F::id; x.A = Tid<A>::v; x.B = Tid<B>::v; x.C = Tid<C>::v; x.R = Tid<R>::v;
  x.a = bits(a); x.b = bits(b); x.c = bits(c); x.r = canon(Tid<R>::v, bits(r)); x.score = 0; return x; }

// a call asked for; not made (fn 0) where the function promises nothing at all
inline Rec norec() { Rec r; memset((void*)&r, 0, sizeof r); r.mate = -1; return r; }
template<class F, class A> Rec via1(U128 a, U128, U128) { A x = unbits<A>(a); return F::ok(x) ? call1<F>(x) : norec(); }
template<class F, class A, class B> Rec via2(U128 a, U128 b, U128) { A x = unbits<A>(a); B y = unbits<B>(b); return F::ok(x, y) ? call2<F>(x, y) : norec(); }
template<class F, class A, class B, class C> Rec via3(U128 a, U128 b, U128 c) { A x = unbits<A>(a); B y = unbits<B>(b); C z = unbits<C>(c); return F::ok(x, y, z) ? call3<F>(x, y, z) : norec(); }

// calls whose value is trivial (NaN, infinite, zero, as the reference says too) share a few strata
template<class V> int dull(double dev, V t) { return dev > 2 ? 0 : m_nan(t) ? 1 : m_inf(t) ? 2 : t == 0 ? 3 : 0; }
inline uint64_t odd(uint64_t key) { return (1ull << 61) + key * 0x9E3779B97F4A7C15ull % 61; }
template<class V> uint64_t stratum(uint64_t key, double dev, V t) { int d = dull(dev, t); return d ? (1ull << 60) + d * 1000 + key % 37 : key; }

#ifdef RELATIONS
#include "relations.hpp"
#define RELATE1 if (c.reg) c.rel[Ctx::key(F::id, Tid<A>::v, 15, 15)] = relvia1<F, A>; else { relate1<F, A>(c, n); return; }
#define RELATE2 if (c.reg) c.rel[Ctx::key(F::id, Tid<A>::v, Tid<B>::v, 15)] = relvia2<F, A, B>; else { relate2<F, A, B>(c, n); return; }
#define RELATE3 if (c.reg) c.rel[Ctx::key(F::id, Tid<A>::v, Tid<B>::v, Tid<C>::v)] = relvia3<F, A, B, C>; else { relate3<F, A, B, C>(c, n); return; }
#else
#define RELATE1
#define RELATE2
#define RELATE3
#endif
// one type of a unary function
template<class F, class A> void scan1(Ctx &c, long n) { RELATE1 if (c.reg) { c.tab[Ctx::key(F::id, Tid<A>::v, 15, 15)] = via1<F, A>; return; } typedef decltype(F::call(A())) R; typedef typename Prec<R>::v V; std::vector<A> sp; G<A>::specials(sp);
  for (A a : sp) if (F::ok(a)) c.out.push_back(call1<F>(a));
  bool fl = std::is_floating_point<A>::value;
  if (fl) for (L d : c.dict) for (int s = -1; s < 2; s += 2) { A a = (A)(s * d); if (!F::ok(a)) continue; Rec r = call1<F>(a); V x = (V)a, t = F::ref(x); r.score = dev<R, V>(unbits<R>(r.r), t, F::scale(x, t)); c.keep((1u << 30) + c.g.below(400), r, 1); }
  if (!fl && sizeof(A) == 1) n = std::min(n, 2000L);
  // every g_sweep-th number of a type of 32 or 16 bits (0: none)
  if (g_sweep && g_mode == 0 && (sizeof(A) == 4 || sizeof(A) == 2)) { uint64_t step = sizeof(A) == 2 ? 1 : std::is_floating_point<A>::value ? g_sweep : g_sweep * 16, end = 1ull << (8 * sizeof(A));
    for (uint64_t b = c.g() % step; b < end; b += step) { A a = unbits<A>((U128)b); g_odd = false; if (!F::ok(a)) continue; Rec r = call1<F>(a); V x = (V)a, t = F::ref(x); r.score = dev<R, V>(unbits<R>(r.r), t, F::scale(x, t)) + 1e-9 * c.g.u(); c.rank(r);
      c.keep(g_odd ? odd(G<A>::bucket(a, true)) : stratum(G<A>::bucket(a, true), r.score, t), r, c.k); } }
  for (long i = 0; i < n; i++) { A a = G<A>::pick(c, F::lo(), F::hi()); if (g_mode == 1 && !nan_(c, a)) continue; g_odd = false; if (!F::ok(a)) continue; Rec r = call1<F>(a); V x = (V)a, t = F::ref(x);
    r.score = dev<R, V>(unbits<R>(r.r), t, F::scale(x, t)) + 1e-9 * c.g.u(); c.rank(r); c.keep(g_odd ? odd(G<A>::bucket(a, true)) : stratum(G<A>::bucket(a, true), r.score, t), r, c.k); }
  c.flush(); }
template<class F, class A, class B> void scan2(Ctx &c, long n) { RELATE2 if (c.reg) { c.tab[Ctx::key(F::id, Tid<A>::v, Tid<B>::v, 15)] = via2<F, A, B>; return; } typedef decltype(F::call(A(), B())) R; typedef typename Prec<R>::v V; std::vector<A> sa; std::vector<B> sb; G<A>::specials(sa); G<B>::specials(sb);
  bool fl = std::is_floating_point<A>::value || std::is_floating_point<B>::value;
  if (n >= 20000) for (A a : sa) for (B b : sb) { if (F::ok(a, b)) c.out.push_back(call2<F>(a, b)); }
  else for (int i = 0; i < 400; i++) { A a = sa[c.g() % sa.size()]; B b = sb[c.g() % sb.size()]; if (F::ok(a, b)) c.out.push_back(call2<F>(a, b)); }
  (void)fl;
  for (long i = 0; i < n; i++) { A a = G<A>::pick(c, F::lo(), F::hi()); B b = G<B>::pick(c, F::lo2(), F::hi2());
    if (!c.g.below(10)) b = cast<B>(G<A>::val(a) * (c.g.below(3) ? 1 + (c.g.u() - 0.5) * std::ldexp(1.0, -c.g.below(30)) : (L)(1 + c.g.below(9)))); else if (!c.g.below(20)) a = cast<A>(G<B>::val(b) * (1 + c.g.below(9)));
    if (F::id == 16 && std::is_integral<B>::value && std::is_floating_point<A>::value && c.g.below(3) == 0) a = cast<A>((c.g() & 1 ? 1 : -1) * std::exp((L)(c.g.u() - 0.5) * std::ldexp(L(1), c.g.below(14)) / (m_abs(G<B>::val(b)) + 1)));
    if (g_mode == 1 && !(c.g.below(2) ? nan_(c, a) : nan_(c, b))) continue; g_odd = false;
    if (!F::ok(a, b)) continue; Rec r = call2<F>(a, b); V x = (V)a, y = (V)b, t = F::template ref<A, B>(x, y); r.score = dev<R, V>(unbits<R>(r.r), t, F::scale(x, y, t)) + 1e-9 * c.g.u(); c.rank(r);
    c.keep(g_odd ? odd(G<A>::bucket(a, false) * 100003ull + G<B>::bucket(b, false)) : stratum(G<A>::bucket(a, false) * 100003ull + G<B>::bucket(b, false), r.score, t), r, c.k); }
  c.flush(); }
template<class F, class A, class B, class C> void scan3(Ctx &c, long n) { RELATE3 if (c.reg) { c.tab[Ctx::key(F::id, Tid<A>::v, Tid<B>::v, Tid<C>::v)] = via3<F, A, B, C>; return; } typedef decltype(F::call(A(), B(), C())) R; typedef typename Prec<R>::v V; std::vector<A> sa; std::vector<B> sb; std::vector<C> sc; G<A>::specials(sa); G<B>::specials(sb); G<C>::specials(sc);
  for (int i = 0; i < 1500; i++) { A a = sa[c.g() % sa.size()]; B b = sb[c.g() % sb.size()]; C z = sc[c.g() % sc.size()]; if (F::ok(a, b, z)) c.out.push_back(call3<F>(a, b, z)); }
  for (long i = 0; i < n; i++) { A a = G<A>::pick(c, F::lo(), F::hi()); B b = G<B>::pick(c, F::lo2(), F::hi2()); C z = G<C>::pick(c, F::lo3(), F::hi3()); g_odd = false;
    if (g_mode == 1) { int j = c.g.below(3); if (!(j == 0 ? nan_(c, a) : j == 1 ? nan_(c, b) : nan_(c, z))) continue; }
    if (!F::ok(a, b, z)) continue; Rec r = call3<F>(a, b, z); V x = (V)a, y = (V)b, w = (V)z, t = F::ref(x, y, w); r.score = dev<R, V>(unbits<R>(r.r), t, F::scale(x, y, w, t)) + 1e-9 * c.g.u(); c.rank(r);
    L zz = G<C>::val(z); uint64_t kz = zz > 0 && zz < 1 ? 5 + (uint64_t)(zz * 8) : zz <= 0 ? 1 : 2; if (zz > 0 && zz < 1e-3L) kz = 3; if (zz > 0.999L && zz < 1) kz = 4;
    c.keep(g_odd ? odd((G<A>::bucket(a, false) * 100003ull + G<B>::bucket(b, false)) * 29ull + kz) : stratum((G<A>::bucket(a, false) * 100003ull + G<B>::bucket(b, false)) * 29ull + kz, r.score, t), r, c.k); }
  c.flush(); }

// a few calls of any tuple of types
template<class T> T some(Ctx &c, double lo, double hi) { static std::vector<T> sp; if (sp.empty()) G<T>::specials(sp); return c.g.below(3) == 0 ? (T)sp[c.g() % sp.size()] : c.g.below(3) == 0 ? cast<T>((L)c.g.below(12)) : G<T>::any(c, lo, hi); }
#ifdef RELATIONS
template<class F, class A> void few1(Ctx &c) { if (c.reg || !c.want(F::id)) return; for (long i = 0; i < c.n; i++) { g_odd = false; rel1<F, A>(c, some<A>(c, F::lo(), F::hi()), false); } c.flush(); }
template<class F, class A, class B> void few2(Ctx &c) { if (c.reg || !c.want(F::id)) return; for (long i = 0; i < c.n; i++) { g_odd = false; rel2<F, A, B>(c, some<A>(c, F::lo(), F::hi()), some<B>(c, F::lo2(), F::hi2()), false); } c.flush(); }
template<class F, class A, class B, class C> void few3(Ctx &c) { if (c.reg || !c.want(F::id)) return; for (long i = 0; i < c.n; i++) { g_odd = false; rel3<F, A, B, C>(c, some<A>(c, F::lo(), F::hi()), some<B>(c, F::lo2(), F::hi2()), some<C>(c, F::lo3(), F::hi3()), false); } c.flush(); }
#else
template<class F, class A> void few1(Ctx &c) { if (c.reg || !c.want(F::id)) return; typedef decltype(F::call(A())) R; typedef typename Prec<R>::v V;
  for (long i = 0; i < c.n; i++) { g_odd = false; A a = some<A>(c, F::lo(), F::hi()); if (!F::ok(a)) continue; Rec r = call1<F>(a); V x = (V)a, t = F::ref(x); r.score = dev<R, V>(unbits<R>(r.r), t, F::scale(x, t)) + 1e-9 * c.g.u(); c.rank(r); c.keep(0, r, 3); } c.flush(); }
template<class F, class A, class B> void few2(Ctx &c) { if (c.reg || !c.want(F::id)) return; typedef decltype(F::call(A(), B())) R; typedef typename Prec<R>::v V;
  for (long i = 0; i < c.n; i++) { g_odd = false; A a = some<A>(c, F::lo(), F::hi()); B b = some<B>(c, F::lo2(), F::hi2()); if (!F::ok(a, b)) continue; Rec r = call2<F>(a, b); V x = (V)a, y = (V)b, t = F::template ref<A, B>(x, y); r.score = dev<R, V>(unbits<R>(r.r), t, F::scale(x, y, t)) + 1e-9 * c.g.u(); c.rank(r); c.keep(0, r, 3); } c.flush(); }
template<class F, class A, class B, class C> void few3(Ctx &c) { if (c.reg || !c.want(F::id)) return; typedef decltype(F::call(A(), B(), C())) R; typedef typename Prec<R>::v V;
  for (long i = 0; i < c.n; i++) { g_odd = false; A a = some<A>(c, F::lo(), F::hi()); B b = some<B>(c, F::lo2(), F::hi2()); C z = some<C>(c, F::lo3(), F::hi3()); if (!F::ok(a, b, z)) continue; Rec r = call3<F>(a, b, z); V x = (V)a, y = (V)b, w = (V)z, t = F::ref(x, y, w); r.score = dev<R, V>(unbits<R>(r.r), t, F::scale(x, y, w, t)) + 1e-9 * c.g.u(); c.rank(r); c.keep(0, r, 3); } c.flush(); }
#endif

inline U128 unhex(const char *s) { U128 v = 0; for (; *s; s++) v = v * 16 + (U128)(*s <= '9' ? *s - '0' : *s - 'a' + 10); return v; }
inline int run(int argc, char **argv, void (*body)(Ctx &)) {
  Ctx c; c.reg = false; c.g.s = 0; c.n = 0; c.k = 1; watch();
  if (argc > 1 && !strcmp(argv[1], "replay")) { c.reg = true; g_mode = getenv("RELATION") ? atoi(getenv("RELATION")) : 2; body(c); int f, A, B, C; char a[40], b[40], z[40]; g_limit = 5; if (const char *h = getenv("HEAVY")) { g_heavy = atof(h); g_limit = 100; }
    while (scanf("%d %d %d %d %39s %39s %39s", &f, &A, &B, &C, a, b, z) == 7) { auto i = c.tab.find(Ctx::key(f, A, B, C)); if (i == c.tab.end()) continue; auto q = c.rel.find(i->first); if (q != c.rel.end()) { q->second(c, unhex(a), unhex(b), unhex(z)); c.flush(); continue; } Rec r = i->second(unhex(a), unhex(b), unhex(z)); if (r.fn) put(stdout, r); }
    return 0; }
  if (argc > 1 && !strcmp(argv[1], "list")) { c.reg = true; body(c); for (auto &e : c.tab) printf("%d %d %d %d\n", e.first >> 12, e.first >> 8 & 15, e.first >> 4 & 15, e.first & 15); return 0; }
  if (argc < 6) return 2;
  c.g.s = strtoull(argv[2], 0, 10) * 0x1234567ull + 99; c.n = atol(argv[3]); c.k = atoi(argv[4]); FILE *d = fopen(argv[5], "r"); char ln[200]; while (d && fgets(ln, sizeof ln, d)) { bool h = *ln == '*'; L v = strtold(ln + h, 0); c.dict.push_back(v); if (h) c.hot.push_back(v); } if (d) fclose(d); if (c.dict.empty()) c.dict.push_back(1);
  if (const char *m = getenv("MODE")) g_mode = atoi(m);
  c.few = getenv("FEW") != 0; if (const char *w = getenv("SWEEP")) g_sweep = strtoull(w, 0, 10);
  for (int i = 6; i < argc; i++) c.only.push_back(atoi(argv[i]));
  body(c); fprintf(stderr, "calls %llu\n", (unsigned long long)g_calls); return 0; }
#endif
