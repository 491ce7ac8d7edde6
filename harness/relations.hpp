// Pairs of calls that are related: a call and its mirror image or exchange of arguments
// (g_mode 3), or a call with integral or mixed arguments and its conversion (g_mode 4).
// A pair is put out as two consecutive records; what has to hold between them is decided by
// the specification (pairs.qnt).  The search prefers pairs whose results differ.
#ifndef RELATIONS_HPP
#define RELATIONS_HPP
enum { ODD = -1, EVEN = 1, NO = 0 };
// what the search expects of f(-x), f(x,-y) and f(y,x); only for ranking
inline int mirror1(int f) { switch (f) { case 2: case 9: case 10: case 11: case 26: case 28: case 29: case 31: case 32: case 33: case 35: case 36: case 45: case 46: case 7: case 8: return ODD;
  case 1: case 19: case 27: case 34: return EVEN; case 16: return 2; } return NO; }
inline int mirror2(int f) { return f == 11 || f == 19 ? EVEN : NO; }
inline bool exchange(int f) { return f == 5 || f == 6 || f == 12 || f == 13 || f == 19 || f == 41 || f == 42; }

template<class T, bool F> struct Neg { static bool ok(T) { return false; } static T n(T x) { return x; } };
template<class T> struct Neg<T, true> { static bool ok(T) { return true; } static T n(T x) { return -x; } };
template<class T> struct Neg<T, false> { static bool ok(T x) { return std::numeric_limits<T>::is_signed && x != std::numeric_limits<T>::min(); } static T n(T x) { return (T)-x; } };
template<class T> struct NegT : Neg<T, std::is_floating_point<T>::value> {};
inline L value(const Rec &r) { switch (r.R) { case 0: return unbits<float>(r.r); case 1: return unbits<double>(r.r); case 2: return unbits<L>(r.r); case 7: return unbits<int>(r.r); case 9: return unbits<long>(r.r);
  case 10: return unbits<unsigned long>(r.r); case 8: return unbits<unsigned>(r.r); default: return (L)(uint64_t)r.r; } }
inline double differ(const Rec &x, const Rec &y, int sign) { if (sign == 3) return x.r == y.r && x.R == y.R ? 0 : 2; L a = value(x), b = value(y); if (a != a || b != b) return a != a && b != b ? 0 : 3; if (sign == -1) b = -b; if (sign == 2) { a = std::fabs(a); b = std::fabs(b); }
  if (a == b) return 0; L d = std::fabs(a - b) / (std::fabs(a) + std::fabs(b)); return d == d ? 1 + (double)d : 2; }
inline void pair_(Ctx &c, uint64_t key, Rec x, const Rec &y, int sign, bool special) { x.score = differ(x, y, sign) + 1e-9 * c.g.u() + 1e-12; x.mate = (int)c.mates.size(); c.mates.push_back(y); c.mates.back().score = x.score;
  if (special) c.out.push_back(x); else c.keep(key, x, c.k); }

template<class F, class M, class R, bool FR> struct Conv { template<class A> static void c1(Ctx &, uint64_t, const Rec &, A, bool) {} template<class A, class B> static void c2(Ctx &, uint64_t, const Rec &, A, B, bool) {} template<class A, class B, class C> static void c3(Ctx &, uint64_t, const Rec &, A, B, C, bool) {} };
template<class F, class M, class R> struct Conv<F, M, R, true> {
  template<class A> static void c1(Ctx &c, uint64_t k, const Rec &x, A a, bool s) { if (std::is_same<A, R>::value) return; R p = (R)a; if (F::ok(p)) pair_(c, k, x, call1<F>(p), 3, s); }
  template<class A, class B> static void c2(Ctx &c, uint64_t k, const Rec &x, A a, B b, bool s) { if (std::is_same<A, R>::value && std::is_same<B, R>::value) return; R p = (R)a, q = (R)b; if (F::ok(p, q)) pair_(c, k, x, call2<F>(p, q), 3, s); }
  template<class A, class B, class C> static void c3(Ctx &c, uint64_t k, const Rec &x, A a, B b, C z, bool s) { if (std::is_same<A, R>::value && std::is_same<B, R>::value && std::is_same<C, R>::value) return; R p = (R)a, q = (R)b, w = (R)z; if (F::ok(p, q, w)) pair_(c, k, x, call3<F>(p, q, w), 3, s); } };

template<class F> struct Other { typedef F t; };
struct F_floor; struct F_ceil; template<> struct Other<F_floor> { typedef F_ceil t; }; template<> struct Other<F_ceil> { typedef F_floor t; };

template<class F, class A> void rel1(Ctx &c, A a, bool s) { if (!F::ok(a)) return; typedef decltype(F::call(a)) R; uint64_t k = G<A>::bucket(a, true); 
  if (g_mode == 3) { if (mirror1(F::id) != NO && NegT<A>::ok(a)) { A m = NegT<A>::n(a); if (F::ok(m)) pair_(c, k, call1<F>(a), call1<typename Other<F>::t>(m), mirror1(F::id), s); else if (s) pair_(c, k, call1<F>(a), call1<F>(a), EVEN, s); } else pair_(c, k, call1<F>(a), call1<F>(a), EVEN, s); }
  else Conv<F, F, R, std::is_floating_point<R>::value>::c1(c, k, call1<F>(a), a, s); }
template<class F, class A, class B, bool X> struct Swap { static void go(Ctx &, uint64_t, A, B, bool) {} };
template<class F, class A, class B> struct Swap<F, A, B, true> { static void go(Ctx &c, uint64_t k, A a, B b, bool s) { if (F::ok(b, a)) pair_(c, k ^ 77, call2<F>(a, b), call2<F>(b, a), EVEN, s); } };
template<class F, class A, class B> void rel2(Ctx &c, A a, B b, bool s) { if (!F::ok(a, b)) return; typedef decltype(F::call(a, b)) R; uint64_t k = G<A>::bucket(a, false) * 100003ull + G<B>::bucket(b, false);
  if (g_mode == 3) { 
    Swap<F, A, B, F::id == 5 || F::id == 6 || F::id == 12 || F::id == 13 || F::id == 19 || F::id == 41 || F::id == 42>::go(c, k, a, b, s);
    if (mirror1(F::id) != NO && NegT<A>::ok(a)) { A m = NegT<A>::n(a); if (F::ok(m, b)) pair_(c, k, call2<F>(a, b), call2<F>(m, b), mirror1(F::id), s); }
    if (mirror2(F::id) != NO && NegT<B>::ok(b)) { B m = NegT<B>::n(b); if (F::ok(a, m)) pair_(c, k ^ 99, call2<F>(a, b), call2<F>(a, m), mirror2(F::id), s); } }
  else Conv<F, F, R, std::is_floating_point<R>::value>::c2(c, k, call2<F>(a, b), a, b, s); }
template<class F, class A, class B, class C> void rel3(Ctx &c, A a, B b, C z, bool s) { if (!F::ok(a, b, z)) return; typedef decltype(F::call(a, b, z)) R; uint64_t k = (G<A>::bucket(a, false) * 100003ull + G<B>::bucket(b, false)) * 29 + (uint64_t)(G<C>::val(z) > 0 && G<C>::val(z) < 1 ? G<C>::val(z) * 8 : 9);
  if (g_mode == 4) Conv<F, F, R, std::is_floating_point<R>::value>::c3(c, k, call3<F>(a, b, z), a, b, z, s); }
template<class F, class A> void relvia1(Ctx &c, U128 a, U128, U128) { rel1<F, A>(c, unbits<A>(a), true); }
template<class F, class A, class B> void relvia2(Ctx &c, U128 a, U128 b, U128) { rel2<F, A, B>(c, unbits<A>(a), unbits<B>(b), true); }
template<class F, class A, class B, class C> void relvia3(Ctx &c, U128 a, U128 b, U128 z) { rel3<F, A, B, C>(c, unbits<A>(a), unbits<B>(b), unbits<C>(z), true); }
template<class F, class A> void relate1(Ctx &c, long n) { std::vector<A> sp; G<A>::specials(sp); for (A a : sp) rel1<F, A>(c, a, true);
  for (L d : c.dict) for (int s = -1; s < 2; s += 2) rel1<F, A>(c, (A)(s * d), false);
  if (sizeof(A) == 1) n = std::min(n, 2000L); for (long i = 0; i < n; i++) { g_odd = false; rel1<F, A>(c, G<A>::any(c, F::lo(), F::hi()), false); } c.flush(); }
template<class F, class A, class B> void relate2(Ctx &c, long n) { std::vector<A> sa; std::vector<B> sb; G<A>::specials(sa); G<B>::specials(sb);
  for (int i = 0; i < 300; i++) rel2<F, A, B>(c, sa[c.g() % sa.size()], sb[c.g() % sb.size()], true);
  for (long i = 0; i < n; i++) { A a = G<A>::any(c, F::lo(), F::hi()); B b = G<B>::any(c, F::lo2(), F::hi2()); if (!c.g.below(10)) b = cast<B>(G<A>::val(a) * (c.g.below(3) ? 1 + (c.g.u() - 0.5) * std::ldexp(1.0, -c.g.below(30)) : (L)(1 + c.g.below(9)))); rel2<F, A, B>(c, a, b, false); } c.flush(); }
template<class F, class A, class B, class C> void relate3(Ctx &c, long n) { std::vector<A> sa; std::vector<B> sb; std::vector<C> sc; G<A>::specials(sa); G<B>::specials(sb); G<C>::specials(sc);
  for (int i = 0; i < 500; i++) rel3<F, A, B, C>(c, sa[c.g() % sa.size()], sb[c.g() % sb.size()], sc[c.g() % sc.size()], true);
  for (long i = 0; i < n; i++) rel3<F, A, B, C>(c, G<A>::any(c, F::lo(), F::hi()), G<B>::any(c, F::lo2(), F::hi2()), G<C>::any(c, F::lo3(), F::hi3()), false); c.flush(); }
#endif
