// The functions of the library as the recorder sees them: how to call them, where to look
// (argument ranges), which calls not to make at all (overflow of a signed type, exponential
// running time), and a higher-precision value used only for ranking.
#ifndef FNS_HPP
#define FNS_HPP
#include "recorder.hpp"
#ifdef USE_BOOST
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/beta.hpp>
#include <boost/math/special_functions/erf.hpp>
typedef boost::math::policies::policy<boost::math::policies::domain_error<boost::math::policies::ignore_error>, boost::math::policies::pole_error<boost::math::policies::ignore_error>,
  boost::math::policies::overflow_error<boost::math::policies::ignore_error>, boost::math::policies::underflow_error<boost::math::policies::ignore_error>,
  boost::math::policies::rounding_error<boost::math::policies::ignore_error>, boost::math::policies::evaluation_error<boost::math::policies::ignore_error>, boost::math::policies::promote_double<false>,
  boost::math::policies::promote_float<false> > Pol;
// the reference may take forever outside
inline bool near_(L a, L b = 1) { return a > 1e-4L && a < 1e6L && b > 1e-4L && b < 1e6L; }
inline L b_gp(L a, L x) { if (!near_(a)) return 0; if (!(a > 0) || !(x >= 0) || !std::isfinite(a) || !std::isfinite(x)) return 0; try { return boost::math::gamma_p(a, x, Pol()); } catch (...) { return 0; } }
inline L b_ib(L a, L b, L x) { if (!near_(a, b)) return 0; if (!(a > 0) || !(b > 0) || !(x >= 0) || !(x <= 1) || !std::isfinite(a) || !std::isfinite(b)) return 0; try { return boost::math::ibeta(a, b, x, Pol()); } catch (...) { return 0; } }
inline L b_gpi(L a, L p) { if (!near_(a)) return 0; if (!(a > 0) || !(p >= 0) || !(p <= 1) || !std::isfinite(a)) return 0; try { return boost::math::gamma_p_inv(a, p, Pol()); } catch (...) { return 0; } }
inline L b_ibi(L a, L b, L p) { if (!near_(a, b)) return 0; if (!(a > 0) || !(b > 0) || !(p >= 0) || !(p <= 1) || !std::isfinite(a) || !std::isfinite(b)) return 0; try { return boost::math::ibeta_inv(a, b, p, Pol()); } catch (...) { return 0; } }
inline L b_erfi(L p) { if (!(p > -1 && p < 1)) return 0; try { return boost::math::erf_inv(p, Pol()); } catch (...) { return 0; } }
#endif

// calls outside the domain of interest are made now and then only
inline bool rare() { static unsigned n; if (g_mode) return true; if (++n % 24) return false; return g_odd = true; }
#define MOST(c) ((c) || rare())
#define IN(x, lo, hi) ((L)(x) >= lo && (L)(x) <= hi)
#define FN1(name, ID, REF, SCALE, LO, HI) struct F_##name { enum { id = ID }; template<class A> static auto call(A a) -> decltype(gcem::name(a)) { return gcem::name(a); } \
  template<class V> static V ref(V x) { return REF; } template<class V> static V scale(V x, V t) { (void)x; (void)t; return SCALE; } static double lo() { return LO; } static double hi() { return HI; } \
  template<class A> static bool ok(A) { return true; } };
#define FN1OK(name, ID, REF, SCALE, LO, HI, OK) struct F_##name { enum { id = ID }; template<class A> static auto call(A a) -> decltype(gcem::name(a)) { return gcem::name(a); } \
  template<class V> static V ref(V x) { return REF; } template<class V> static V scale(V x, V t) { (void)x; (void)t; return SCALE; } static double lo() { return LO; } static double hi() { return HI; } \
  template<class A> static bool ok(A a) { return OK; } };
#define FN2(name, ID, REF, SCALE, LO, HI, LO2, HI2, OK) struct F_##name { enum { id = ID }; template<class A, class B> static auto call(A a, B b) -> decltype(gcem::name(a, b)) { return gcem::name(a, b); } \
  template<class A, class B, class V> static V ref(V x, V y) { typedef typename std::common_type<A, B>::type TC; (void)sizeof(TC); (void)x; (void)y; return REF; } template<class V> static V scale(V x, V y, V t) { (void)x; (void)y; (void)t; return SCALE; } \
  static double lo() { return LO; } static double hi() { return HI; } static double lo2() { return LO2; } static double hi2() { return HI2; } template<class A, class B> static bool ok(A a, B b) { (void)a; (void)b; return OK; } };
#define FN3(name, ID, REF, SCALE, LO, HI, LO2, HI2, LO3, HI3, OK) struct F_##name { enum { id = ID }; template<class A, class B, class C> static auto call(A a, B b, C c) -> decltype(gcem::name(a, b, c)) { return gcem::name(a, b, c); } \
  template<class V> static V ref(V x, V y, V z) { return REF; } template<class V> static V scale(V x, V y, V z, V t) { (void)x; (void)y; (void)z; (void)t; return SCALE; } \
  static double lo() { return LO; } static double hi() { return HI; } static double lo2() { return LO2; } static double hi2() { return HI2; } static double lo3() { return LO3; } static double hi3() { return HI3; } \
  template<class A, class B, class C> static bool ok(A a, B b, C c) { return OK; } };

// |x| exists in the type of x
template<class A> bool absfits(A a) { return !std::is_integral<A>::value || !std::is_signed<A>::value || a != std::numeric_limits<A>::min(); }
template<class T, bool F> struct CompI { static I128 c(T x) { return (I128)x; } };
template<class T> struct CompI<T, true> { static I128 c(T x) { return x == x && x < T(1e18) && x > T(-1e18) ? (I128)x : 0; } };
template<class T> I128 toi(T x) { return CompI<T, std::is_floating_point<T>::value>::c(x); }
inline I128 tob(L x) { return x == x && x < 1e30L && x > -1e30L ? (I128)x : 0; }
template<class T> bool wholenum(T x) { return !std::is_floating_point<T>::value || (L)x == (L)toi(x); }
inline I128 igcd(I128 a, I128 b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while (b) { I128 t = a % b; a = b; b = t; } return a; }
template<class T> bool fits(I128 v) { typedef std::numeric_limits<T> N; return N::is_integer ? v <= (I128)N::max() && v >= (I128)N::min() : true; }
template<class A, class B> bool lcmok(A a, B b) { typedef typename std::common_type<A, B>::type T; if (!absfits(a) || !absfits(b) || !wholenum(a) || !wholenum(b)) return false; I128 x = toi(a), y = toi(b); x = x < 0 ? -x : x; y = y < 0 ? -y : y;
  if (!fits<T>(x) || !fits<T>(y)) return false; I128 g = igcd(x, y); if (g == 0) return true; return fits<T>(x / g) && (std::numeric_limits<T>::is_integer ? (long double)(x / g) * (long double)y < 1.7e19L && fits<T>(x / g * y) : true); }
template<class A, class B> bool gcdok(A a, B b) { typedef typename std::common_type<A, B>::type T; if (!absfits(a) || !absfits(b) || !wholenum(a) || !wholenum(b)) return false; I128 x = toi(a), y = toi(b); return fits<T>(x < 0 ? -x : x) && fits<T>(y < 0 ? -y : y); }
inline double dbinom(double n, double k) { if (k > n) return std::pow(2.0, n); if (k > n - k) k = n - k; double r = 1; for (int i = 0; i < k && r < 1e12; i++) r = r * (n - i) / (i + 1); return r; }
template<class A, class B> bool binok(A a, B b) { typedef typename std::common_type<A, B>::type T; if (!wholenum(a) || !wholenum(b)) return false; I128 n = toi(a), k = toi(b); return n >= 0 && k >= 0 && n <= 3000 && k <= 3000 && dbinom((double)n, (double)k) <= g_heavy && fits<T>((I128)dbinom((double)n, (double)k)); }
template<class V> V rbinom(V n, V k) { if (k > n) return 0; V r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r; }
template<class A, class B> bool powok(A a, B b) { typedef typename std::common_type<A, B>::type T; if (!std::numeric_limits<T>::is_integer) return true; if ((L)b < 0) return false; T x = (T)a; if (x == T(0) || x == T(1)) return true;
  if (!std::numeric_limits<T>::is_signed && sizeof(T) >= 4) return true; if (std::numeric_limits<T>::is_signed && x == T(-1)) return true; L m = std::pow(std::fabs((L)x), (L)b); return m <= (L)std::numeric_limits<T>::max(); }
template<class T, bool U> struct PowRef { template<class V> static V f(V x, V y) { return m_pow(x, y); } };
template<class T> struct PowRef<T, true> { template<class V> static V f(V x, V y) { // exact in an integer type
  T b = (T)tob((L)x), r = 1; U128 e = (U128)tob((L)y); if (std::numeric_limits<T>::is_signed) { I128 p = 1, bb = tob((L)x); if (bb == 0 || bb == 1) return e == 0 ? V(1) : (V)bb; if (bb == -1) return (e & 1) ? V(-1) : V(1); for (U128 i = 0; i < e && i < 130; i++) p *= bb; return (V)p; }
  while (e) { if (e & 1) r = (T)(r * b); b = (T)(b * b); e >>= 1; } return (V)r; } };
template<class V> V rfact(V n) { V r = 1; for (int i = 2; i <= (int)n && i < 40; i++) r *= i; return r; }
template<class A> bool factok(A a) { return std::is_floating_point<A>::value || ((L)a >= 0 && (L)a <= 20 && rfact((L)a) <= (L)std::numeric_limits<A>::max()); }
template<class V> V rlgam(V x) { return x > 0 ? m_lgamma(x) : V(0); }
template<class V> V rlm(V a, V p) { V s = 0; for (int i = 0; i < (int)p && i < 70; i++) s += V(1.1447298858494001741434273513530587116473L) * i / 2 + rlgam(a - V(i) / 2); return s; }

// x converted to T, as integers are
template<class T, class V> T tc(V x) { return std::numeric_limits<T>::is_integer ? (T)tob((L)x) : (T)x; }
FN1OK(abs, 1, m_abs(x), V(1), -100, 100, absfits(a))
FN1(sgn, 2, x > 0 ? V(1) : x < 0 ? V(-1) : V(0), V(1), -100, 100)
FN1(signbit, 3, V(std::signbit((L)x)), V(1), -100, 100)
FN2(copysign, 4, std::signbit((L)x) == std::signbit((L)y) ? x : -x, V(1), -100, 100, -100, 100, true)
FN2(min, 5, m_min((V)tc<TC>(x), (V)tc<TC>(y)), V(1), -100, 100, -100, 100, true)
FN2(max, 6, m_max((V)tc<TC>(x), (V)tc<TC>(y)), V(1), -100, 100, -100, 100, true)
FN1(floor, 7, m_floor(x), V(1), -1000, 1000)
FN1(ceil, 8, m_ceil(x), V(1), -1000, 1000)
FN1(trunc, 9, m_trunc(x), V(1), -1000, 1000)
FN1(round, 10, m_round(x), V(1), -1000, 1000)
FN2(fmod, 11, m_fmod(x, y), m_abs(x), -1000, 1000, -50, 50, MOST(m_abs((L)a) <= m_abs((L)b) * 1e7L))
FN2(gcd, 12, (V)igcd(tob((L)x), tob((L)y)), V(1), -1000, 1000, -1000, 1000, gcdok(a, b))
FN2(lcm, 13, (x == 0 || y == 0) ? V(0) : m_abs(x / (V)igcd(tob((L)x), tob((L)y)) * y), V(1), -1000, 1000, -1000, 1000, lcmok(a, b))
FN1OK(factorial, 14, std::is_floating_point<V>::value && sizeof(V) && x == m_trunc(x) && x >= 0 && x < 25 ? rfact(x) : m_tgamma(x + 1), m_abs(t) * (30 + m_abs(m_log(m_abs(t)))), 0, 21, factok(a))
FN2(binomial_coef, 15, rbinom(x, y), V(1), 0, 70, 0, 12, binok(a, b))
FN2(pow, 16, (PowRef<TC, std::is_integral<TC>::value>::f(x, y)), m_abs(t) * (2 + m_min(m_abs(y), m_abs(y * m_log(m_abs(x))))), -20, 20, -20, 20, powok(a, b) && MOST((L)a >= 0 || std::is_integral<B>::value) && MOST(!std::is_integral<B>::value || IN(b, -300, 300) || !(m_abs((L)b * std::log(m_abs((L)a))) > 12000)))
FN1OK(sqrt, 17, m_sqrt(x), t, 0, 10, MOST(!(a < A(0))))
FN1OK(inv_sqrt, 18, 1 / m_sqrt(x), t, 0, 10, MOST(!(a < A(0))))
FN2(hypot, 19, m_hypot(x, y), t, -100, 100, -100, 100, true)
FN1(exp, 20, m_exp(x), t * (32 + m_abs(x)), -100, 100)
FN1(expm1, 21, m_expm1(x), m_abs(x) < V(1e-4L) ? t : m_max(V(1), m_abs(t)) * (4 + m_abs(x) / 8), -3, 3)
FN1OK(log, 22, m_log(x), t, 0, 20, MOST(!(a < A(0))))
FN1OK(log1p, 23, m_log1p(x), m_abs(x) < V(1e-4L) ? t : m_max(V(1), m_abs(t)) + 1 / (1 + x), -1, 5, MOST((L)a >= -1))
FN1OK(log2, 24, m_log2(x), t, 0, 20, MOST(!(a < A(0))))
FN1OK(log10, 25, m_log10(x), t, 0, 20, MOST(!(a < A(0))))
FN1OK(sin, 26, m_sin(x), x, -20, 20, MOST(IN(a, -65536, 65536)))
FN1OK(cos, 27, m_cos(x), 1 + m_abs(x), -20, 20, MOST(IN(a, -65536, 65536)))
FN1OK(tan, 28, m_tan(x), m_abs(x) * (1 + t * t), -20, 20, MOST(IN(a, -65536, 65536)))
FN1OK(asin, 29, m_asin(x), x * m_min(V(1e9), 1 + 1 / m_sqrt(m_abs(1 - x * x))), -1, 1, MOST(IN(a, -1, 1)))
FN1OK(acos, 30, m_acos(x), 1 + m_min(V(1e9), 1 / m_sqrt(m_abs(1 - x * x))), -1, 1, MOST(IN(a, -1, 1)))
FN1(atan, 31, m_atan(x), t, -10, 10)
FN2(atan2, 32, m_atan2(x, y), t, -10, 10, -10, 10, true)
FN1(sinh, 33, m_sinh(x), m_max(V(1), m_abs(t)) * (4 + m_abs(x) / 8), -10, 10)
FN1(cosh, 34, m_cosh(x), t * (4 + m_abs(x) / 8), -10, 10)
FN1(tanh, 35, m_tanh(x), t, -25, 25)
FN1(asinh, 36, m_asinh(x), m_max(V(1), m_abs(t)), -10, 10)
FN1OK(acosh, 37, m_acosh(x), 1 + m_abs(t) + m_min(V(1e4), 1 / m_sqrt(x - 1)), 1, 10, MOST((L)a >= 1))
FN1OK(atanh, 38, m_atanh(x), m_max(V(1), m_abs(t)), -1, 1, MOST(IN(a, -1, 1)))
FN1OK(lgamma, 39, x > 0 ? m_lgamma(x) : V(1) / V(0), m_max(V(1), m_abs(t)), 0, 60, MOST(!(a < A(0))))
FN1(tgamma, 40, m_tgamma(x), m_abs(t) * (4 + m_abs(m_log(m_abs(t)))), -6, 60)
FN2(beta, 41, m_exp(rlgam(x) + rlgam(y) - rlgam(x + y)), t * (1 + m_abs(rlgam(x)) + m_abs(rlgam(y)) + m_abs(rlgam(x + y))), 0, 20, 0, 20, MOST(IN(a, 1e-20L, 1e12L) && IN(b, 1e-20L, 1e12L)))
FN2(lbeta, 42, rlgam(x) + rlgam(y) - rlgam(x + y), 1 + m_abs(rlgam(x)) + m_abs(rlgam(y)) + m_abs(rlgam(x + y)), 0, 20, 0, 20, MOST(IN(a, 1e-20L, 1e12L) && IN(b, 1e-20L, 1e12L)))
FN2(lmgamma, 43, rlm(x, y), 1 + m_abs(t) + m_abs(rlgam(x)), 0, 30, 0, 12, (L)b < 100 && MOST((L)b >= 1 && 2 * (L)a > (L)b - 1 && (L)a <= 1e12L))
FN2(log_binomial_coef, 44, rlgam(x + 1) - rlgam(y + 1) - rlgam(x - y + 1), 1 + m_abs(rlgam(x + 1)) + m_abs(rlgam(y + 1)), 0, 60, 0, 30, MOST((L)b >= 0 && (L)a >= (L)b && (L)a <= 1e12L))
FN1(erf, 45, m_erf(x), t, -4, 4)
#ifdef USE_BOOST
FN1OK(erf_inv, 46, (V)b_erfi((L)x), 1 + m_exp(m_min(V(60), t * t)), -1, 1, MOST(IN(a, -1, 1)))
FN2(incomplete_gamma, 47, (V)b_gp((L)x, (L)y), V(1), 0, 40, 0, 60, MOST(IN(a, 1e-6L, 1500) && IN(b, 1e-18L, 1e4L) && (a > 0.001 || b < 1)))
FN2(incomplete_gamma_inv, 48, (V)b_gpi((L)x, (L)y), 1 + t, 0, 30, 0, 1, MOST(IN(a, 0.0625L, 1000) && IN(b, 0.00390625L, 0.99609375L)))
FN3(incomplete_beta, 49, (V)b_ib((L)x, (L)y, (L)z), V(1), 0, 20, 0, 20, 0, 1, MOST(IN(a, 0.001L, 1000) && IN(b, 0.001L, 1000) && IN(c, 0, 1)))
FN3(incomplete_beta_inv, 50, (V)b_ibi((L)x, (L)y, (L)z), V(1), 0, 10, 0, 10, 0, 1, MOST(IN(a, 0.0625L, 500) && IN(b, 0.0625L, 500) && IN(c, 0.03125L, 0.96875L) && (a <= 1 || a >= 1.25) && (b <= 1 || b >= 1.25)))
#else
FN1OK(erf_inv, 46, V(0), V(1), -1, 1, MOST(IN(a, -1, 1)))
FN2(incomplete_gamma, 47, V(0), V(1), 0, 40, 0, 60, MOST(IN(a, 1e-6L, 1500) && IN(b, 1e-18L, 1e4L) && (a > 0.001 || b < 1)))
FN2(incomplete_gamma_inv, 48, V(0), V(1), 0, 30, 0, 1, MOST(IN(a, 0.0625L, 1000) && IN(b, 0.00390625L, 0.99609375L)))
FN3(incomplete_beta, 49, V(0), V(1), 0, 20, 0, 20, 0, 1, MOST(IN(a, 0.001L, 1000) && IN(b, 0.001L, 1000) && IN(c, 0, 1)))
FN3(incomplete_beta_inv, 50, V(0), V(1), 0, 10, 0, 10, 0, 1, MOST(IN(a, 0.0625L, 500) && IN(b, 0.0625L, 500) && IN(c, 0.03125L, 0.96875L) && (a <= 1 || a >= 1.25) && (b <= 1 || b >= 1.25)))
#endif

// ------------------------------------------------------------ types a function is scanned with
#ifdef LIGHT
// fewer of them, for programs that are built many times
template<class F> void all1(Ctx &c) { if (!c.want(F::id)) return; scan1<F, float>(c, c.n); scan1<F, double>(c, c.n); scan1<F, L>(c, c.n); int k = c.k; c.k = 1; long m = c.n / 20; scan1<F, int>(c, m); scan1<F, unsigned long>(c, m); scan1<F, signed char>(c, m); c.k = k; }
template<class F> void flt1(Ctx &c) { if (!c.want(F::id)) return; scan1<F, float>(c, c.n); scan1<F, double>(c, c.n); scan1<F, L>(c, c.n); }
template<class F> void all2(Ctx &c) { if (!c.want(F::id)) return; scan2<F, float, float>(c, c.n); scan2<F, double, double>(c, c.n); scan2<F, L, L>(c, c.n); long m = c.n / 20; scan2<F, float, int>(c, m); scan2<F, int, double>(c, m); scan2<F, long, L>(c, m); scan2<F, int, int>(c, m); }
template<class F> void lm2(Ctx &c) { if (!c.want(F::id)) return; long m = c.n / 4; scan2<F, float, int>(c, m); scan2<F, double, int>(c, m); scan2<F, L, unsigned long>(c, m); scan2<F, int, int>(c, m); }
template<class F> void flt2(Ctx &c) { if (!c.want(F::id)) return; scan2<F, float, float>(c, c.n); scan2<F, double, double>(c, c.n); scan2<F, L, L>(c, c.n); scan2<F, float, double>(c, c.n / 10); }
template<class F> void int2(Ctx &c) { if (!c.want(F::id)) return; scan2<F, int, int>(c, c.n); scan2<F, unsigned long, unsigned long>(c, c.n); long m = c.n / 4; scan2<F, long, long>(c, m); scan2<F, short, short>(c, m); scan2<F, int, unsigned>(c, m); scan2<F, unsigned char, long>(c, m); }
template<class F> void fint2(Ctx &c) { if (!c.want(F::id)) return; long m = c.n / 4; scan2<F, double, double>(c, m); scan2<F, float, int>(c, m); scan2<F, L, L>(c, m); }
template<class F> void pow2(Ctx &c) { if (!c.want(F::id)) return; scan2<F, float, int>(c, c.n); scan2<F, double, int>(c, c.n); scan2<F, L, int>(c, c.n); long m = c.n / 4; scan2<F, double, long>(c, m); scan2<F, float, unsigned long>(c, m); scan2<F, L, signed char>(c, m); }
template<class F> void all3(Ctx &c) { if (!c.want(F::id)) return; scan3<F, float, float, float>(c, c.n); scan3<F, double, double, double>(c, c.n); scan3<F, L, L, L>(c, c.n / 2); long m = c.n / 40; scan3<F, int, int, double>(c, m); scan3<F, float, int, int>(c, m); scan3<F, int, int, int>(c, m); }
#else
// real functions of one argument: the three float types, and the integer types
template<class F> void all1(Ctx &c) { if (!c.want(F::id)) return; scan1<F, float>(c, c.n); scan1<F, double>(c, c.n); scan1<F, L>(c, c.n);
  int k = c.k; c.k = 1; long m = c.n / 20; scan1<F, int>(c, m); scan1<F, unsigned>(c, m); scan1<F, long>(c, m); scan1<F, unsigned long>(c, m); scan1<F, short>(c, m); scan1<F, unsigned short>(c, m); scan1<F, signed char>(c, m); scan1<F, unsigned char>(c, m); c.k = k; }
template<class F> void flt1(Ctx &c) { if (!c.want(F::id)) return; scan1<F, float>(c, c.n); scan1<F, double>(c, c.n); scan1<F, L>(c, c.n); }
template<class F> void mixed2(Ctx &c) { long m = c.n / 40; scan2<F, float, double>(c, m); scan2<F, double, float>(c, m); scan2<F, L, float>(c, m); scan2<F, double, L>(c, m); scan2<F, int, double>(c, m); scan2<F, double, int>(c, m);
  scan2<F, float, int>(c, m); scan2<F, int, float>(c, m); scan2<F, long, L>(c, m); scan2<F, L, unsigned>(c, m); scan2<F, int, int>(c, m); scan2<F, short, short>(c, m); scan2<F, unsigned char, int>(c, m); scan2<F, unsigned long, long>(c, m); scan2<F, unsigned, long>(c, m); scan2<F, float, unsigned long>(c, m); }
template<class F> void lm2(Ctx &c) { if (!c.want(F::id)) return; mixed2<F>(c); long m = c.n / 4; scan2<F, float, int>(c, m); scan2<F, double, int>(c, m); scan2<F, L, int>(c, m); scan2<F, double, unsigned char>(c, m); scan2<F, L, unsigned long>(c, m); scan2<F, float, long>(c, m); }
template<class F> void all2(Ctx &c) { if (!c.want(F::id)) return; scan2<F, float, float>(c, c.n); scan2<F, double, double>(c, c.n); scan2<F, L, L>(c, c.n); mixed2<F>(c); }
template<class F> void flt2(Ctx &c) { if (!c.want(F::id)) return; scan2<F, float, float>(c, c.n); scan2<F, double, double>(c, c.n); scan2<F, L, L>(c, c.n); scan2<F, float, double>(c, c.n / 10); scan2<F, double, L>(c, c.n / 10); scan2<F, L, float>(c, c.n / 10); }
template<class F> void int2(Ctx &c) { if (!c.want(F::id)) return; scan2<F, int, int>(c, c.n); scan2<F, long, long>(c, c.n); scan2<F, unsigned, unsigned>(c, c.n); scan2<F, unsigned long, unsigned long>(c, c.n); long m = c.n / 10;
  scan2<F, short, short>(c, m); scan2<F, unsigned short, unsigned short>(c, m); scan2<F, signed char, signed char>(c, m); scan2<F, unsigned char, unsigned char>(c, m); scan2<F, int, long>(c, m); scan2<F, long, int>(c, m); scan2<F, int, unsigned>(c, m); scan2<F, unsigned, int>(c, m);
  scan2<F, unsigned, long>(c, m); scan2<F, long, unsigned long>(c, m); scan2<F, unsigned long, int>(c, m); scan2<F, short, int>(c, m); scan2<F, unsigned char, long>(c, m); scan2<F, signed char, unsigned>(c, m); scan2<F, short, unsigned short>(c, m); }
template<class F> void fint2(Ctx &c) { if (!c.want(F::id)) return; long m = c.n / 4; scan2<F, double, double>(c, m); scan2<F, float, float>(c, m); scan2<F, L, L>(c, m); scan2<F, double, int>(c, m); scan2<F, long, float>(c, m); scan2<F, L, unsigned>(c, m); }
template<class F> void pow2(Ctx &c) { if (!c.want(F::id)) return; scan2<F, float, int>(c, c.n); scan2<F, double, int>(c, c.n); scan2<F, L, int>(c, c.n); long m = c.n / 4; scan2<F, double, long>(c, m); scan2<F, float, long>(c, m); scan2<F, L, long>(c, m); scan2<F, double, unsigned>(c, m);
  scan2<F, float, unsigned long>(c, m); scan2<F, L, unsigned char>(c, m); scan2<F, double, short>(c, m); scan2<F, double, unsigned long>(c, m); scan2<F, float, signed char>(c, m); scan2<F, L, unsigned>(c, m); scan2<F, float, unsigned>(c, m); }
template<class F> void all3(Ctx &c) { if (!c.want(F::id)) return; scan3<F, float, float, float>(c, c.n); scan3<F, double, double, double>(c, c.n); scan3<F, L, L, L>(c, c.n / 2); long m = c.n / 40; scan3<F, float, double, float>(c, m); scan3<F, int, double, double>(c, m);
  scan3<F, double, int, float>(c, m); scan3<F, int, int, double>(c, m); scan3<F, float, int, int>(c, m); scan3<F, L, int, double>(c, m); scan3<F, int, int, int>(c, m); scan3<F, float, float, L>(c, m); scan3<F, double, unsigned, L>(c, m); }
#endif
#endif
