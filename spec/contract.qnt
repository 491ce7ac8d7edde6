// -*- mode: Bluespec; -*-
// The contract of every function of the library: what a call may return.
//
// A call is a record (function, argument types, arguments, result).  `judge` gives, for
// a call, the clause that governs it (the number of the property) and how much of what
// the clause allows the result used up, in thousandths: 0 exact, 1000 all of it, more
// than 1000 a violation.
module contract {
  import real.* from "./real"
  import fp.* from "./fp"

  // ------------------------------------------------------------ function ids
  pure val ABS = 1
  pure val SGN = 2
  pure val SIGNBIT = 3
  pure val COPYSIGN = 4
  pure val MIN = 5
  pure val MAX = 6
  pure val FLOOR = 7
  pure val CEIL = 8
  pure val TRUNC = 9
  pure val ROUND = 10
  pure val FMOD = 11
  pure val GCD = 12
  pure val LCM = 13
  pure val FACTORIAL = 14
  pure val BINOMIAL = 15
  pure val POW = 16
  pure val SQRT = 17
  pure val INVSQRT = 18
  pure val HYPOT = 19
  pure val EXP = 20
  pure val EXPM1 = 21
  pure val LOG = 22
  pure val LOG1P = 23
  pure val LOG2 = 24
  pure val LOG10 = 25
  pure val SIN = 26
  pure val COS = 27
  pure val TAN = 28
  pure val ASIN = 29
  pure val ACOS = 30
  pure val ATAN = 31
  pure val ATAN2 = 32
  pure val SINH = 33
  pure val COSH = 34
  pure val TANH = 35
  pure val ASINH = 36
  pure val ACOSH = 37
  pure val ATANH = 38
  pure val LGAMMA = 39
  pure val TGAMMA = 40
  pure val BETA = 41
  pure val LBETA = 42
  pure val LMGAMMA = 43
  pure val LOGBINOM = 44
  pure val ERF = 45
  pure val ERFINV = 46
  pure val INCGAMMA = 47
  pure val INCGAMMAINV = 48
  pure val INCBETA = 49
  pure val INCBETAINV = 50

  type Call = { fn: int, A: int, B: int, C: int, R: int, a: Num, b: Num, c: Num, r: Num }
  type Verdict = { p: int, q: int }

  // the property that owns the value clause of a function
  pure def owner(fn: int): int =
    if (fn <= 6) 7 else if (fn <= 10) 6 else if (fn == 11) 25 else if (fn <= 13) 8
    else if (fn <= 15) 9 else if (fn == 16) 10 else if (fn <= 19) 12 else if (fn <= 21) 13
    else if (fn <= 25) 14 else if (fn <= 28) 15 else if (fn <= 32) 16 else if (fn <= 35) 17
    else if (fn <= 38) 18 else if (fn <= 44) 19 else if (fn == 45) 20 else if (fn == 46) 21
    else if (fn == 47) 22 else if (fn == 49) 23 else 24

  // ------------------------------------------------------------ result types
  // The type of the result.  Functions over the reals return the common type of the
  // arguments, double if that is an integer type.
  pure def resultType(fn: int, A: int, B: int, C: int): int =
    if (fn == ABS) A
    else if (fn == SGN) I32
    else if (fn == SIGNBIT) BOOL
    else if (fn == COPYSIGN) A
    else if (fn == FACTORIAL) A
    else if (fn == MIN or fn == MAX or fn == GCD or fn == LCM or fn == BINOMIAL or fn == POW) common(A, B)
    else if (fn == LMGAMMA) retOf(A)
    else retOf(common(common(A, B), C))

  // ------------------------------------------------------------ measures
  pure val BAD = 100000000
  pure def yes(b: bool): int = if (b) 0 else BAD
  pure def ratio(err: Dy, tol: Dy): int =
    if (err.m == 0) 0
    else if (tol.m == 0) BAD
    else if (dlog2(err) > dlog2(tol) + 16) BAD
    else imin(BAD, dfloor(dscale(ddiv(dabs(err), tol), 1000)))
  pure def qmax(a: int, b: int): int = imax(a, b)
  pure def wantNan(r: Num): int = yes(isNan(r))
  pure def wantInf(r: Num): int = yes(isPosInf(r))
  pure def wantNegInf(r: Num): int = yes(isNegInf(r))
  pure def wantZero(r: Num): int = yes(isZero(r))
  pure def wantInt(r: Num, n: int): int = yes(isFin(r) and deq(r.v, di(n)))
  // r is t up to tol; an infinity where the tolerance reaches beyond the largest number
  pure def approx(r: Num, t: Dy, tol: Dy, T: int): int =
    if (isNan(r)) BAD
    else if (isInf(r)) yes(r.neg == (t.m < 0) and dle(maxF(T), dadd(dabs(t), tol)))
    else ratio(dsub(r.v, t), dadd(tol, dscale(minN(T), 4)))
  // relative tolerance of k eps
  pure def rel(r: Num, t: Dy, k: int, T: int): int = approx(r, t, dmul(dscale(dabs(t), k), eps(T)), T)
  // k eps max(1,|t|)
  pure def mixed(r: Num, t: Dy, k: int, T: int): int =
    approx(r, t, dmul(dscale(dmax(D1, dabs(t)), k), eps(T)), T)
  pure def tiny(x: Num, T: int): bool = isFin(x) and dlt(dabs(x.v), minN(T))
  pure def negative(x: Num): bool = not(isZero(x)) and not(isNan(x)) and x.neg
  pure def positive(x: Num): bool = not(isZero(x)) and not(isNan(x)) and not(x.neg)
  pure def isInteger(x: Num): bool = isFin(x) and disInt(x.v)

  // the fixed-point constants as dyadics
  pure val DPI: Dy = { m: PI, e: -256 }
  pure val DLN2: Dy = { m: LN2, e: -256 }
  pure val DLN10: Dy = { m: LN10, e: -256 }

  pure def at(p: int, q: int): Verdict = { p: p, q: q }
  // nothing is promised for this call
  pure val FREE: Verdict = { p: 0, q: 0 }

  // ------------------------------------------------- C07 comparison and sign
  // numbers of an integer type or the same float value
  pure def sameNum(x: Num, y: Num): bool =
    if (isNan(x) or isNan(y)) isNan(x) and isNan(y)
    else if (isInf(x) or isInf(y)) isInf(x) and isInf(y) and x.neg == y.neg
    else deq(x.v, y.v)
  pure def convTo(x: Num, t: int): Num =
    if (isFloat(t)) conv(x, t)
    else if (isFin(x) and disInt(x.v)) { val n = wrapInt(dtrunc(x.v), t)
                                         { c: FIN, neg: n < 0, v: di(n) } }
    else x
  pure def less(x: Num, y: Num): bool =
    if (isInf(x) and isInf(y)) x.neg and not(y.neg)
    else if (isInf(x)) x.neg
    else if (isInf(y)) not(y.neg)
    else dlt(x.v, y.v)
  pure def signOf(x: Num): int = if (isNan(x) or isZero(x)) 0 else if (x.neg) -1 else 1

  pure def judgeSign(k: Call): Verdict =
    if (k.fn == ABS)
      // |min| of a signed type does not fit
      (if (isInt(k.A) and dlt(di(intMax(k.A)), dabs(k.a.v))) FREE
       else if (isNan(k.a)) at(4, wantNan(k.r))
       else if (isInf(k.a)) at(5, wantInf(k.r))
       else at(7, yes(isFin(k.r) and deq(k.r.v, dabs(k.a.v)) and not(k.r.neg))))
    else if (k.fn == SGN) at(7, wantInt(k.r, signOf(k.a)))
    else if (k.fn == SIGNBIT) at(7, wantInt(k.r, if (k.a.neg) 1 else 0))
    else if (k.fn == COPYSIGN)
      (if (isNan(k.a)) at(4, wantNan(k.r))
       else at(7, yes(k.r.c == k.a.c and k.r.neg == k.b.neg and deq(dabs(k.r.v), dabs(k.a.v)))))
    else {
      val T = common(k.A, k.B)
      val x = convTo(k.a, T)
      val y = convTo(k.b, T)
      val lo = if (less(y, x)) y else x
      val hi = if (less(y, x)) x else y
      if (isNan(x) or isNan(y)) FREE
      else at(7, yes(sameNum(k.r, if (k.fn == MIN) lo else hi))) }

  // ------------------------------------------------------------ C06 rounding
  // halves away from zero
  pure def roundHalf(a: Dy): int = {
    val m = dfloor(dadd(dabs(a), dy(1, -1)))
    if (a.m < 0) -m else m }
  pure def judgeRound(k: Call): Verdict = {
    val x = conv(k.a, k.R)
    if (isNan(x)) at(4, wantNan(k.r))
    else if (isInf(x)) at(5, yes(isInf(k.r) and k.r.neg == x.neg))
    else if (isZero(x)) at(6, yes(isZero(k.r) and k.r.neg == x.neg))
    else {
      // beyond 2^64 every number of the three formats is an integer
      val t = if (x.v.e >= 0) x.v
              else di(if (k.fn == FLOOR) dfloor(x.v) else if (k.fn == CEIL) dceil(x.v)
                      else if (k.fn == TRUNC) dtrunc(x.v) else roundHalf(x.v))
      at(6, yes(isFin(k.r) and deq(k.r.v, t))) } }

  // ------------------------------------------------- C08, C09 integer functions
  // Euclid's algorithm; 128 steps suffice below 2^64 (see euclid.qnt)
  pure def gcdInt(a: int, b: int): int =
    range(0, 128).foldl({ a: a, b: b }, (s, i) => if (s.b == 0) s else { a: s.b, b: s.a % s.b }).a
  // the largest integer up to which results in type t are claimed to be exact
  pure def exactMax(t: int): int = if (isFloat(t)) 2^(prec(t)) else intMax(t)
  pure def nat(x: Num, lim: int): bool = isInteger(x) and dle(dabs(x.v), di(lim))
  pure def judgeGcd(k: Call): Verdict = {
    val T = common(k.A, k.B)
    val lim = imin(2^63 - 1, exactMax(T))
    // |x| must exist in x's own type and in the common type
    val okA = nat(k.a, imin(lim, if (isInt(k.A)) intMax(k.A) else lim))
    val okB = nat(k.b, imin(lim, if (isInt(k.B)) intMax(k.B) else lim))
    if (not(okA and okB)) FREE
    else {
      val a = iabs(dtrunc(k.a.v))
      val b = iabs(dtrunc(k.b.v))
      val g = gcdInt(a, b)
      if (k.fn == GCD) at(8, wantInt(k.r, g))
      else {
        val l = if (a == 0 or b == 0) 0 else (a / g) * b
        if (l > exactMax(T)) FREE else at(8, wantInt(k.r, l)) } } }

  pure def fact(n: int): int = range(1, n + 1).foldl(1, (s, i) => s * i)
  // Pascal's triangle by rows of products: C(n,k) = prod (n-i)/(i+1)
  pure def binom(n: int, k: int): int =
    if (k > n) 0 else range(0, k).foldl(1, (s, i) => (s * (n - i)) / (i + 1))
  pure def judgeBinom(k: Call): Verdict = {
    val T = common(k.A, k.B)
    if (not(nat(k.a, 2^20)) or not(nat(k.b, 2^20)) or k.a.v.m < 0 or k.b.v.m < 0) FREE
    else {
      val t = binom(dtrunc(k.a.v), dtrunc(k.b.v))
      if (t > exactMax(T)) FREE else at(9, wantInt(k.r, t)) } }
  pure def judgeFact(k: Call): Verdict =
    if (isInt(k.A)) {
      val n = dtrunc(k.a.v)
      if (n < 0 or n > 30) FREE
      else if (fact(n) > intMax(k.A)) FREE
      else at(9, wantInt(k.r, fact(n))) }
    else FREE // over the reals: see judgeGamma

  // ------------------------------------------------------------ C10, C11 pow
  pure def odd(n: int): bool = iabs(n) % 2 == 1
  pure def judgePowInt(k: Call): Verdict = {
    val T = common(k.A, k.B)
    val n = dtrunc(k.b.v)
    if (isInt(T)) {
      val x = dtrunc(convTo(k.a, T).v)
      if (n < 0) FREE
      else if (n == 0) at(10, wantInt(k.r, 1))
      else if (x == 0) at(10, wantInt(k.r, 0))
      else if (x == 1) at(10, wantInt(k.r, 1))
      else if (x == -1) at(10, wantInt(k.r, if (odd(n)) -1 else 1))
      else if (n > 128) FREE
      else {
        val t = x^n
        if (t > intMax(T) or t < intMin(T)) FREE else at(10, wantInt(k.r, t)) } }
    else {
      val x = conv(k.a, T)
      val neg = x.neg and odd(n)
      if (n == 0) at(10, wantInt(k.r, 1))
      else if (isNan(x)) at(4, wantNan(k.r))
      else if (isInf(x)) at(5, if (n > 0) yes(isInf(k.r) and k.r.neg == neg) else wantZero(k.r))
      else if (isZero(x)) at(5, if (n > 0) wantZero(k.r)
                                else yes(isInf(k.r) and (k.r.neg == neg or not(x.neg))))
      else if (deq(dabs(x.v), D1)) at(10, wantInt(k.r, if (neg) -1 else 1))
      else if (tiny(x, T)) FREE
      else {
        val p = dpow(x.v, iabs(n))
        val l = dlog2(p)
        // beyond doubt out of the range of every type
        if (iabs(l) > 2^16 + 8 * iabs(n) / 2^(prec(T) - 1))
          at(10, if ((l > 0) == (n > 0)) yes(isInf(k.r) and k.r.neg == neg) else wantZero(k.r))
        else if (8 * (iabs(n) + 4) > 2^(prec(T) - 1)) FREE
        else {
          val t = if (n > 0) p else ddiv(D1, p)
          at(10, rel(k.r, t, iabs(n) + 4, T)) } } } }
  pure def judgePowReal(k: Call): Verdict = {
    val T = common(k.A, k.B)
    val x = conv(k.a, T)
    val y = conv(k.b, T)
    if (isZero(y)) at(5, wantInt(k.r, 1))
    else if (isNan(x) or isNan(y)) at(4, wantNan(k.r))
    else if (negative(x)) at(5, wantNan(k.r))
    else if (isZero(x)) at(5, if (y.neg) wantInf(k.r) else wantZero(k.r))
    else if (isInf(x)) at(5, if (y.neg) wantZero(k.r) else wantInf(k.r))
    else if (isFin(x) and deq(x.v, D1)) (if (isInf(y)) FREE else at(11, wantInt(k.r, 1)))
    else if (isInf(y)) at(5, if (dlt(x.v, D1) == y.neg) wantInf(k.r) else wantZero(k.r))
    else if (tiny(x, T)) FREE
    else {
      val l = dcut(dmul(y.v, dlog(x.v)))
      val big = dle(di(40000), dabs(l))
      if (big) at(11, if (l.m > 0) wantInf(k.r) else wantZero(k.r))
      else {
        val t = dexp(l)
        val tol = dmul(dscale(dmul(t, dadd(di(2), dabs(l))), 8), eps(T))
        at(11, approx(k.r, t, tol, T)) } } }
  pure def judgePow(k: Call): Verdict = if (isInt(k.B)) judgePowInt(k) else judgePowReal(k)

  // ------------------------------------------------------------ C25 fmod
  pure def judgeFmod(k: Call): Verdict = {
    val T = k.R
    val x = conv(k.a, T)
    val y = conv(k.b, T)
    if (isNan(x) or isNan(y)) at(4, wantNan(k.r))
    else if (isInf(x) or isZero(y)) at(5, wantNan(k.r))
    else if (isInf(y)) FREE
    else if (tiny(y, T)) FREE
    else if (dle(dshift(dabs(y.v), prec(T) - 2), dabs(x.v))) FREE
    else if (not(isFin(k.r))) at(25, BAD)
    else if (dlt(dabs(x.v), dabs(y.v))) at(25, yes(deq(k.r.v, x.v)))
    else if (disInt(x.v) and disInt(y.v) and dle(dabs(x.v), di(2^(prec(T) - 1)))) {
      val n = dtrunc(dabs(x.v)) % dtrunc(dabs(y.v))
      at(25, wantInt(k.r, if (x.neg) -n else n)) }
    else {
      val tol = dadd(dmul(dscale(dabs(x.v), 4), eps(T)), minN(T))
      // r = x - n y for some integer n
      val d = dsub(x.v, k.r.v)
      val h = ddiv(d, y.v)
      val n = dfloor(dadd(h, dy(1, -1)))
      val off = dsub(d, dscale(y.v, n))
      // with the sign of x, and not above |y|
      val side = if (x.neg) dneg(k.r.v) else k.r.v
      at(25, qmax(ratio(off, tol),
             qmax(if (side.m < 0) ratio(side, tol) else 0,
                  if (dle(side, dabs(y.v))) 0 else ratio(dsub(side, dabs(y.v)), tol)))) } }

  // ------------------------------------------------------------ C12 roots
  pure def judgeSqrt(k: Call): Verdict = {
    val T = k.R
    val x = conv(k.a, T)
    val inv = k.fn == INVSQRT
    if (isNan(x)) at(4, wantNan(k.r))
    else if (negative(x)) at(5, wantNan(k.r))
    else if (isInf(x)) at(5, if (inv) wantZero(k.r) else wantInf(k.r))
    else if (isZero(x)) at(5, if (inv) wantInf(k.r) else wantZero(k.r))
    else if (isNan(k.r) or (isFin(k.r) and k.r.neg)) at(12, BAD)
    else if (tiny(x, T) and (if (inv) isInf(k.r) else isZero(k.r))) at(12, 0)
    else if (inv) at(12, rel(k.r, ddiv(D1, dsqrt(x.v)), 16, T))
    else at(12, rel(k.r, dsqrt(x.v), if (T == F80) 64 else 16, T)) }
  pure def judgeHypot(k: Call): Verdict = {
    val T = k.R
    val x = conv(k.a, T)
    val y = conv(k.b, T)
    if (isNan(x) or isNan(y)) at(4, wantNan(k.r))
    else if (isInf(x) or isInf(y)) at(5, wantInf(k.r))
    else {
      val a = dmax(dabs(x.v), dabs(y.v))
      val b = dmin(dabs(x.v), dabs(y.v))
      val t = if (b.m == 0) a else if (dlog2(b) + 400 < dlog2(a)) a
              else dsqrt(dadd(dmul(x.v, x.v), dmul(y.v, y.v)))
      at(12, rel(k.r, t, 32, T)) } }

  // ------------------------------------------------------------ C13 exp
  // beyond 2^15 the result is decided by the sign
  pure def huge(x: Dy): bool = dle(di(32768), dabs(x))
  pure def judgeExp(k: Call): Verdict = {
    val T = k.R
    val x = conv(k.a, T)
    val m1 = k.fn == EXPM1
    if (isNan(x)) at(4, wantNan(k.r))
    else if (isPosInf(x)) at(5, wantInf(k.r))
    else if (isNegInf(x)) at(5, if (m1) wantInt(k.r, -1) else wantZero(k.r))
    else if (huge(x.v)) at(13, if (positive(x)) wantInf(k.r) else if (m1) wantInt(k.r, -1) else wantZero(k.r))
    else {
      val c = 32 + (if (T == F80) dceil(dabs(x.v)) else 0)
      if (m1) {
        val t = dexpm1(x.v)
        if (dle(dscale(dabs(x.v), 10000), D1)) at(13, rel(k.r, t, 8, T)) else at(13, mixed(k.r, t, c, T)) }
      else at(13, rel(k.r, dexp(x.v), c, T)) } }

  // ------------------------------------------------------------ C14 logarithms
  pure def judgeLog(k: Call): Verdict = {
    val T = k.R
    val x = conv(k.a, T)
    if (isNan(x)) at(4, wantNan(k.r))
    else if (negative(x)) at(5, wantNan(k.r))
    else if (isInf(x)) at(5, wantInf(k.r))
    else if (isZero(x)) at(5, wantNegInf(k.r))
    else if (tiny(x, T) and isNegInf(k.r)) at(14, 0)
    else {
      val l = dlog(x.v)
      val t = if (k.fn == LOG) l else if (k.fn == LOG2) ddiv(l, DLN2) else ddiv(l, DLN10)
      at(14, rel(k.r, t, 16, T)) } }
  pure def judgeLog1p(k: Call): Verdict = {
    val T = k.R
    val x = conv(k.a, T)
    if (isNan(x)) at(4, wantNan(k.r))
    else if (isPosInf(x)) at(5, wantInf(k.r))
    else if (isInf(x)) at(5, wantNan(k.r))
    else if (deq(x.v, di(-1))) at(5, wantNegInf(k.r))
    else if (dlt(x.v, di(-1))) at(5, wantNan(k.r))
    else {
      val t = dlog1p(x.v)
      if (dle(dscale(dabs(x.v), 10000), D1)) at(14, rel(k.r, t, 8, T)) else
      // 1 + x is rounded first
      at(14, approx(k.r, t, dmul(dadd(dscale(dmax(D1, dabs(t)), 16), ddiv(D1, dadd(D1, x.v))), eps(T)), T)) } }

  // ------------------------------------------------------------ C15 trigonometry
  pure def judgeTrig(k: Call): Verdict = {
    val T = k.R
    val x = conv(k.a, T)
    if (isNan(x)) at(4, wantNan(k.r))
    else if (isInf(x)) at(5, wantNan(k.r))
    else if (dle(di(65536), dabs(x.v))) FREE
    else if (not(isFin(k.r))) at(15, BAD)
    else {
      val tol = dmul(dscale(dabs(x.v), 8), eps(T))
      if (k.fn == SIN) at(15, approx(k.r, dsin(x.v), tol, T))
      else if (k.fn == COS) at(15, approx(k.r, dcos(x.v), dadd(tol, dscale(eps(T), 8)), T))
      else {
        // r = tan(x + d), |d| <= tol  iff  sin x - r cos x is at most tol hypot(1,r)
        val e = dsub(dsin(x.v), dmul(k.r.v, dcos(x.v)))
        val h = dsqrt(dadd(D1, dmul(k.r.v, k.r.v)))
        // by convention tan is 1.633124e16 at the numbers nearest to +-pi/2
        val pole = dle(dabs(dsub(dabs(x.v), dshift(DPI, -1))), dscale(eps(T), 2))
        val w = if (pole) dscale(tol, 128) else tol
        at(15, ratio(e, dadd(dmul(w, h), dscale(minN(T), 4)))) } } }

  // ------------------------------------------------------------ C16 inverse trigonometry
  pure def unit(r: Num, T: int): int =
    if (isFin(r) and dle(dabs(r.v), dadd(D1, dscale(eps(T), 4)))) 0 else BAD
  pure def above(x: Dy, hi: Dy, slack: Dy): int = if (dle(x, hi)) 0 else ratio(dsub(x, hi), slack)
  // distance, relative to |r|, of the angle r from atan x
  pure def atanOff(r: Dy, x: Dy): Dy =
    if (dle(dy(1, 60), dabs(x))) {
      val i = ddiv(D1, dabs(x))
      val t = dsub(dshift(DPI, -1), dcut(i))
      dsub(dabs(r), t) }
    else ddiv(dsub(dsin(r), dmul(x, dcos(r))), dsqrt(dadd(D1, dmul(x, x))))
  pure def judgeArc(k: Call): Verdict = {
    val T = k.R
    val x = conv(k.a, T)
    val e = eps(T)
    val K = if (T == F80) 128 else 24
    if (isNan(x)) at(4, wantNan(k.r))
    else if (k.fn == ATAN) {
      if (isInf(x)) at(5, if (x.neg) rel({ c: k.r.c, neg: not(k.r.neg), v: dneg(k.r.v) }, dshift(DPI, -1), 2, T)
                          else rel(k.r, dshift(DPI, -1), 2, T))
      else if (not(isFin(k.r))) at(16, BAD)
      else if (isZero(k.r)) at(16, yes(dle(dabs(x.v), dscale(minN(T), 2))))
      else if (isZero(x) or (k.r.neg != x.neg)) at(16, BAD)
      else at(16, qmax(above(dabs(k.r.v), dshift(DPI, -1), dscale(e, 2)),
                       ratio(atanOff(k.r.v, x.v), dadd(dmul(dscale(dabs(k.r.v), K), e), dscale(minN(T), 4))))) }
    else if (isInf(x) or dlt(D1, dabs(x.v))) at(5, wantNan(k.r))
    else if (not(isFin(k.r))) at(16, BAD)
    else if (k.fn == ASIN)
      at(16, qmax(above(dabs(k.r.v), dshift(DPI, -1), dscale(e, 2)),
                  ratio(dsub(dsin(k.r.v), x.v),
                        dadd(dmul(dadd(dmul(dscale(dabs(k.r.v), K), dabs(dcos(k.r.v))), dmul(dy(3, -3), dmul(x.v, x.v))), e), dscale(minN(T), 4)))))
    else
      at(16, qmax(if (k.r.neg and not(isZero(k.r))) BAD else above(k.r.v, DPI, dscale(e, 4)),
                  ratio(dsub(dcos(k.r.v), x.v), dmul(dadd(dmul(dscale(dabs(k.r.v), K), dabs(dsin(k.r.v))), dy(3, -3)), e)))) }
  pure def judgeAtan2(k: Call): Verdict = {
    val T = k.R
    val y = conv(k.a, T)
    val x = conv(k.b, T)
    val e = eps(T)
    val K = if (T == F80) 128 else 24
    // the magnitude and sign of the result in the limiting cases
    val s = if (y.neg) -1 else 1
    if (isNan(x) or isNan(y)) at(4, wantNan(k.r))
    else if (isInf(x) and isInf(y)) FREE
    else if ((tiny(x, T) and not(isZero(x))) or (tiny(y, T) and not(isZero(y)))) FREE
    else if (isZero(y) and isFin(x))
      at(5, if (x.neg) rel(k.r, dscale(DPI, s), 4, T) else wantZero(k.r))
    else if (isZero(x) or isInf(y)) at(5, rel(k.r, dshift(dscale(DPI, s), -1), 4, T))
    else if (isInf(x)) at(5, if (x.neg) rel(k.r, dscale(DPI, s), 4, T) else yes(isZero(k.r)))
    else if (not(isFin(k.r))) at(16, BAD)
    else if (not(isZero(k.r)) and k.r.neg != y.neg) at(16, BAD)
    // one argument vanishes next to the other
    else if (dlog2(y.v) > dlog2(x.v) + 400) at(16, rel(k.r, dshift(dscale(DPI, s), -1), 4, T))
    else if (dlog2(x.v) > dlog2(y.v) + 400)
      at(16, if (x.neg) rel(k.r, dscale(DPI, s), 4, T) else rel(k.r, ddiv(y.v, x.v), K, T))
    else {
      val sh = -imax(dlog2(x.v), dlog2(y.v))
      val u = dshift(x.v, sh)
      val v = dshift(y.v, sh)
      val h = dsqrt(dadd(dmul(u, u), dmul(v, v)))
      val sn = dsin(k.r.v)
      val cs = dcos(k.r.v)
      val crs = dsub(dmul(v, cs), dmul(u, sn))
      val dot = dadd(dmul(u, cs), dmul(v, sn))
      at(16, qmax(above(dabs(k.r.v), DPI, dscale(e, 4)),
             if (dot.m <= 0) BAD
             else ratio(ddiv(crs, h), dadd(dmul(dscale(dabs(k.r.v), K), e), dscale(minN(T), 4))))) } }

  // ------------------------------------------------------------ C17 hyperbolic
  pure def dsinh(x: Dy): Dy =
    if (dlog2(x) < -60) x
    else { val p = dexp(x)
           dshift(dsub(p, ddiv(D1, p)), -1) }
  pure def dcosh(x: Dy): Dy = { val p = dexp(x)
                                dshift(dadd(p, ddiv(D1, p)), -1) }
  pure def dtanh(x: Dy): Dy =
    if (dlog2(x) < -60) x
    else if (dle(di(200), dabs(x))) di(dsgn(x))
    else { val p = dexp(dshift(x, 1))
           ddiv(dsub(p, D1), dadd(p, D1)) }
  pure def judgeHyp(k: Call): Verdict = {
    val T = k.R
    val x = conv(k.a, T)
    // e^|x| may overflow a little before the result does
    val lim = dmul(di(emax(T)), DLN2)
    if (isNan(x)) at(4, wantNan(k.r))
    else if (k.fn == TANH)
      (if (isInf(x)) at(5, wantInt(k.r, if (x.neg) -1 else 1))
       else if (isZero(x)) at(17, wantZero(k.r))
       else at(17, qmax(unit(k.r, T), rel(k.r, dtanh(x.v), 16, T))))
    else if (isInf(x)) at(5, if (k.fn == COSH or not(x.neg)) wantInf(k.r) else wantNegInf(k.r))
    else if (isZero(x)) at(17, if (k.fn == COSH) wantInt(k.r, 1) else wantZero(k.r))
    else if (dle(lim, dabs(x.v)) and isInf(k.r)) at(17, yes(k.fn == COSH or k.r.neg == x.neg) )
    else if (huge(x.v)) at(17, BAD)
    else {
      val c = 32 + (if (T == F80) dceil(dabs(x.v)) else 0)
      if (k.fn == COSH) at(17, rel(k.r, dcosh(x.v), c, T))
      else at(17, mixed(k.r, dsinh(x.v), c, T)) } }

  // ------------------------------------------------------------ C18 inverse hyperbolic
  pure def judgeArcHyp(k: Call): Verdict = {
    val T = k.R
    val x = conv(k.a, T)
    if (isNan(x)) at(4, wantNan(k.r))
    else if (k.fn == ASINH) {
      if (isInf(x)) at(5, yes(isInf(k.r) and k.r.neg == x.neg))
      else if (isZero(x)) at(18, wantZero(k.r))
      else {
        val a = dabs(x.v)
        val t = if (dlog2(a) < -60) a
                else if (dlog2(a) > 200) dadd(dlog(a), DLN2)
                else dlog(dcut(dadd(a, dsqrt(dadd(D1, dmul(a, a))))))
        at(18, mixed(k.r, if (x.neg) dneg(t) else t, 16, T)) } }
    else if (k.fn == ACOSH) {
      if (isPosInf(x)) at(5, wantInf(k.r))
      else if (isInf(x) or dlt(x.v, D1)) at(5, wantNan(k.r))
      else if (deq(x.v, D1)) at(18, wantZero(k.r))
      else if (not(isFin(k.r)) or k.r.neg) at(18, BAD)
      else if (dlog2(x.v) > 200) at(18, rel(k.r, dadd(dlog(x.v), DLN2), 16, T))
      else if (huge(k.r.v)) at(18, BAD)
      else {
        // x * x - 1 loses at most min(eps, (x - 1)^2) next to 1
        val d = dsub(x.v, D1)
        val t = dlog(dcut(dadd(x.v, dsqrt(dmul(d, dadd(x.v, D1))))))
        val lost = ddiv(dmin(eps(T), dmul(d, d)), t)
        at(18, qmax(ratio(dsub(dcosh(k.r.v), x.v), dmul(dscale(dmul(x.v, dadd(D1, k.r.v)), 16), eps(T))),
                    ratio(dsub(k.r.v, t), dscale(dadd(dmul(dmax(D1, t), eps(T)), lost), 16)))) } }
    else {
      if (isInf(x) or dlt(D1, dabs(x.v))) at(5, wantNan(k.r))
      else if (deq(dabs(x.v), D1)) at(5, yes(isInf(k.r) and k.r.neg == x.neg))
      else if (isZero(x)) at(18, wantZero(k.r))
      else if (dlog2(x.v) < -60) at(18, mixed(k.r, x.v, 16, T))
      else at(18, mixed(k.r, dshift(dlog(ddiv(dadd(D1, x.v), dsub(D1, x.v))), -1), 16, T)) } }

  // ------------------------------------------------------------ C19 gamma family
  // log Gamma is claimed up to this argument (beyond it the real layer is not exact enough)
  pure val GBIG: Dy = { m: 1, e: 40 }
  pure def glim(x: Dy): bool = dle(x, GBIG) and dle(dy(1, -100), x)
  pure def lgTol(t: Dy, T: int): Dy = dmul(dscale(dmax(D1, dabs(t)), if (T == F80) 2048 else 64), eps(T))
  pure def gammaTol(t: Dy, T: int): Dy =
    dmul(dscale(dabs(t), (if (T == F80) 4096 else 96) + 24 * iabs(dlog2(t))), eps(T))
  pure def judgeGamma1(k: Call): Verdict = {
    val T = k.R
    val x0 = conv(k.a, T)
    // factorial(x) = Gamma(x+1); x + 1 is rounded
    val x = if (k.fn == FACTORIAL and isFin(x0)) roundTo(dadd(x0.v, D1), T) else x0
    if (isNan(x)) at(4, wantNan(k.r))
    else if (k.fn == LGAMMA) {
      if (isZero(x) or isPosInf(x) or (negative(x) and isInteger(x))) at(5, wantInf(k.r))
      else if (negative(x)) FREE
      else if (tiny(x, T)) FREE
      else if (not(dle(x.v, GBIG))) at(19, yes(isPosInf(k.r) or (isFin(k.r) and dlt(x.v, k.r.v))))
      else if (not(dle(dy(1, -100), x.v)))
        at(19, approx(k.r, dneg(dlog(x.v)), lgTol(dlog(x.v), T), T))
      else { val t = dlgamma(x.v)
             at(19, approx(k.r, t, lgTol(t, T), T)) } }
    else {
      if (isZero(x) or isPosInf(x)) at(5, wantInf(k.r))
      else if (isInf(x) or (negative(x) and isInteger(x))) at(5, wantNan(k.r))
      else if (tiny(x, T)) FREE
      else if (dle(di(8192), dabs(x.v))) at(19, if (x.neg) wantZero(k.r) else wantInf(k.r))
      else if (dlog2(x.v) < -100) { val t = ddiv(D1, x.v)
             at(19, approx(k.r, t, gammaTol(t, T), T)) }
      else { val t = dgamma(x.v)
             at(19, approx(k.r, t, gammaTol(t, T), T)) } } }
  pure def judgeBeta(k: Call): Verdict = {
    val T = k.R
    val a = conv(k.a, T)
    val b = conv(k.b, T)
    if (isNan(a) or isNan(b)) at(4, wantNan(k.r))
    else if (tiny(a, T) and tiny(b, T)) FREE
    else if ((isZero(a) and positive(b) and isFin(b) and glim(b.v)) or (isZero(b) and positive(a) and isFin(a) and glim(a.v)))
      at(5, wantInf(k.r))
    else if (negative(a) or negative(b) or isInf(a) or isInf(b)) FREE
    else if (not(glim(a.v)) or not(glim(b.v))) FREE
    else {
      val la = dlgamma(a.v)
      val lb = dlgamma(b.v)
      val lc = dlgamma(dadd(a.v, b.v))
      val t = dsub(dadd(la, lb), lc)
      val m = dadd(D1, dadd(dabs(la), dadd(dabs(lb), dabs(lc))))
      val tol = dmul(dscale(m, if (T == F80) 2048 else 64), eps(T))
      if (k.fn == LBETA) at(19, approx(k.r, t, tol, T))
      else if (dle(dy(1, -3), tol)) FREE
      else if (dle(di(40000), dabs(t))) at(19, if (t.m > 0) wantInf(k.r) else wantZero(k.r))
      else { val p = dexp(t)
             at(19, approx(k.r, p, dshift(dmul(p, tol), 1), T)) } } }
  pure def judgeLm(k: Call): Verdict = {
    val T = k.R
    val a = conv(k.a, T)
    val p = dtrunc(k.b.v)
    if (not(isInteger(k.b))) FREE
    else if (isNan(a)) at(4, wantNan(k.r))
    else if (p < 1) at(5, wantNan(k.r))
    else if (not(isFin(a)) or p > 64) FREE
    else if (dle(dshift(a.v, 1), di(p - 1))) FREE
    else if (not(glim(dsub(a.v, dy(p - 1, -1)))) or not(glim(a.v))) FREE
    else {
      val t = range(0, p).foldl({ s: D0, m: D1 }, (s, i) => {
        val g = dlgamma(dsub(a.v, dy(i, -1)))
        val c = dmul({ m: LNPI, e: -256 }, dy(i, -1))
        { s: dadd(s.s, dadd(g, c)), m: dadd(s.m, dadd(dabs(g), c)) } })
      at(19, approx(k.r, t.s, dmul(dscale(t.m, (if (T == F80) 2048 else 64) + p), eps(T)), T)) } }
  pure def judgeLb(k: Call): Verdict = {
    val T = k.R
    val n = conv(k.a, T)
    val m = conv(k.b, T)
    if (isNan(n) or isNan(m)) at(4, wantNan(k.r))
    else if (not(isFin(n)) or not(isFin(m)) or negative(n) or negative(m)) FREE
    else if (dlt(n.v, m.v) or not(dle(n.v, GBIG))) FREE
    else {
      val l1 = dlgamma(dadd(n.v, D1))
      val l2 = dlgamma(dadd(m.v, D1))
      val l3 = dlgamma(dadd(dsub(n.v, m.v), D1))
      // the arguments of log Gamma are rounded: each error counts log(n) times
      val g = dadd(dadd(D1, dabs(l1)), dadd(dabs(l2), dabs(l3)))
      at(19, approx(k.r, dsub(l1, dadd(l2, l3)), dmul(dscale(g, if (T == F80) 2048 else 64), eps(T)), T)) } }

  // ------------------------------------------------------------ C20, C21 erf
  // in epsilons: up to 2.1 a continued fraction cancels, the more the larger x is
  pure def erfLoss(x: Dy): Dy =
    if (dlt(di(22), dscale(dabs(x), 10))) di(8) else dadd(di(16), dshift(dexp(dshift(dmul(x, x), 1)), 1))
  pure def judgeErf(k: Call): Verdict = {
    val T = k.R
    val x = conv(k.a, T)
    if (isNan(x)) at(4, wantNan(k.r))
    else if (isInf(x)) at(5, wantInt(k.r, if (x.neg) -1 else 1))
    else if (isZero(x)) at(20, wantZero(k.r))
    else {
      val t = derf(x.v)
      at(20, qmax(unit(k.r, T), approx(k.r, t, dmul(dmul(dabs(t), erfLoss(x.v)), eps(T)), T))) } }
  pure def judgeErfInv(k: Call): Verdict = {
    val T = k.R
    val p = conv(k.a, T)
    if (isNan(p)) at(4, wantNan(k.r))
    else if (isInf(p) or dlt(D1, dabs(p.v))) at(5, wantNan(k.r))
    else if (deq(dabs(p.v), D1)) at(5, yes(isInf(k.r) and k.r.neg == p.neg))
    else if (isZero(p)) at(21, wantZero(k.r))
    else if (not(isFin(k.r))) at(21, BAD)
    else at(21, ratio(dsub(derf(k.r.v), p.v), dadd(dmul(dmul(dabs(p.v), dshift(erfLoss(k.r.v), 1)), eps(T)), dscale(minN(T), 16)))) }

  // ------------------------------------------------ C22-C24 incomplete functions
  pure def tens(n: int): Dy = ddiv(D1, di(10^n))
  // The absolute error allowed in P(a,z).
  // a < 10: a continued fraction, which loses e^(z-a) while z - a < 10; else
  // a fixed quadrature over a window around a, which cuts off the tails.
  pure def incGammaTol(a: Dy, z: Dy, T: int): Dy = {
    val big = if (T == F80) 32 else 1
    val e = dscale(eps(T), big)
    if (dlt(a, di(10)))
      (if (dle(dadd(di(10), dy(1, -9)), dsub(z, a))) dscale(e, 32)
       else {
         val g = dexp(dmax(D0, dsub(z, a)))
         dmul(e, dadd(di(32), dmul(dadd(D1, ddiv(D1, a)), dscale(g, 4)))) })
    else if (dlt(dmul(dadd(di(3), dy(1, -9)), a), z)) dscale(e, 32)
    else {
      val cut = if (dlt(z, a)) (if (dle(a, di(30))) tens(8) else D0)
                else if (dle(a, di(30))) dscale(tens(4), 2)
                else if (dle(a, di(50))) dscale(tens(5), 5)
                else if (dle(a, di(70))) tens(6)
                else if (dle(a, di(90))) tens(8)
                else if (dle(a, di(300))) tens(10)
                else D0
      dadd(cut, dmul(e, dscale(dadd(di(4), a), 32))) } }
  pure def judgeIncGamma(k: Call): Verdict = {
    val T = k.R
    val a = conv(k.a, T)
    val z = conv(k.b, T)
    if (isNan(a) or isNan(z)) at(4, wantNan(k.r))
    else if (negative(a)) at(5, wantNan(k.r))
    else if (isZero(z)) at(5, wantZero(k.r))
    else if (negative(z) or isInf(z) or isInf(a)) FREE
    else if (isZero(a)) at(5, wantInt(k.r, 1))
    else if (dlt(di(1500), a.v) or dlt(a.v, dy(1, -20)) or dlt(di(10000), z.v) or dlt(z.v, dy(1, -60))) FREE
    else {
      val tol = incGammaTol(a.v, z.v, T)
      if (dlt(dy(1, -3), tol)) FREE
      else {
        val t = dgammaP(a.v, z.v)
        // relative to the result in the lower tail
        val lower = dlt(a.v, di(10)) and dlt(z.v, a.v)
        val c = dadd(di(64), dadd(ddiv(di(4), a.v),
                dscale(dadd(dabs(dmul(a.v, dlog(z.v))), dadd(a.v, dabs(dlgamma(a.v)))), 8)))
        at(22, approx(k.r, t, if (lower) dmul(dmul(t, c), dscale(eps(T), if (T == F80) 32 else 1)) else tol, T)) } } }
  pure def incBetaTol(a: Dy, b: Dy, T: int): Dy =
    dmul(dscale(eps(T), if (T == F80) 32 else 1), dadd(di(128), dscale(dadd(a, b), 48)))
  pure def shape(x: Num): bool = isFin(x) and positive(x) and dle(dy(1, -10), x.v) and dle(x.v, di(1000))
  pure def judgeIncBeta(k: Call): Verdict = {
    val T = k.R
    val a = conv(k.a, T)
    val b = conv(k.b, T)
    val z = conv(k.c, T)
    if (isNan(a) or isNan(b) or isNan(z)) at(4, wantNan(k.r))
    else if (not(shape(a)) or not(shape(b))) FREE
    else if (isZero(z)) at(5, wantZero(k.r))
    else if (isInf(z) or negative(z) or dlt(D1, z.v)) FREE
    else if (deq(z.v, D1)) at(5, wantInt(k.r, 1))
    else if (dlt(z.v, dy(1, -60))) FREE
    else {
      val t = dbetaI(a.v, b.v, z.v)
      val tol = incBetaTol(a.v, b.v, T)
      // relative to the result in the lower tail
      val lower = dlt(dmul(z.v, dadd(dadd(a.v, b.v), di(2))), a.v)
      val more = dmul(dscale(dabs(dmul(a.v, dlog(z.v))), 8), dscale(eps(T), if (T == F80) 32 else 1))
      at(23, approx(k.r, t, if (lower) dmul(t, dadd(tol, more)) else tol, T)) } }

  // The inverses are judged by where they land: some x within 8 eps of the result has the
  // value p, up to the error the forward function is allowed.
  pure def within(lo: Dy, p: Dy, hi: Dy, tol: Dy): int =
    qmax(above(lo, p, tol), above(p, hi, tol))
  pure def unitP(p: Num): bool = isFin(p) and dle(dy(1, -5), p.v) and dle(p.v, dsub(D1, dy(1, -5)))
  pure def middleP(p: Num): bool = isFin(p) and dle(dy(1, -8), p.v) and dle(p.v, dsub(D1, dy(1, -8)))
  pure def judgeIncGammaInv(k: Call): Verdict = {
    val T = k.R
    val a = conv(k.a, T)
    val p = conv(k.b, T)
    if (isNan(a) or isNan(p)) at(4, wantNan(k.r))
    else if (isZero(p)) at(5, wantZero(k.r))
    else if (positive(p) and (isInf(p) or dlt(D1, p.v))) at(5, wantNan(k.r))
    else if (isInf(a) or negative(a) or isZero(a)) FREE
    else if (isFin(p) and deq(p.v, D1)) at(5, wantInf(k.r))
    else if (not(middleP(p)) or dlt(a.v, dy(1, if (T == F32) -3 else -4)) or dlt(di(1000), a.v)) FREE
    else if (not(positive(k.r)) or not(isFin(k.r)) or dlt(di(10000), k.r.v) or dlt(k.r.v, dy(1, -140))) at(24, BAD)
    else {
      val d = dmul(k.r.v, dscale(eps(T), 8))
      val lo = dsub(k.r.v, d)
      val hi = dadd(k.r.v, d)
      at(24, within(dgammaP(a.v, lo), p.v, dgammaP(a.v, hi), dshift(incGammaTol(a.v, hi, T), 1))) } }
  // (the results of smaller parameters underflow in float)
  pure def shapeInv(x: Num, T: int): bool =
    isFin(x) and dle(dy(1, if (T == F32) -2 else -4), x.v) and dle(x.v, di(500)) and (dle(x.v, D1) or dle(dy(5, -2), x.v))
  pure def judgeIncBetaInv(k: Call): Verdict = {
    val T = k.R
    val a = conv(k.a, T)
    val b = conv(k.b, T)
    val p = conv(k.c, T)
    if (isNan(a) or isNan(b) or isNan(p)) at(4, wantNan(k.r))
    else if (not(shape(a)) or not(shape(b))) FREE
    else if (isZero(p)) at(5, wantZero(k.r))
    else if (isFin(p) and deq(p.v, D1)) at(5, wantInt(k.r, 1))
    else if (not(unitP(p)) or not(shapeInv(a, T)) or not(shapeInv(b, T))) FREE
    else if (not(isFin(k.r)) or not(positive(k.r)) or dlt(D1, k.r.v) or dlt(k.r.v, dy(1, -140))) at(24, BAD)
    else {
      val d = dmul(k.r.v, dscale(eps(T), 8))
      val lo = dsub(k.r.v, d)
      val hi = dadd(k.r.v, d)
      val l = dbetaI(a.v, b.v, lo)
      val h = if (dle(D1, hi)) D1 else dbetaI(a.v, b.v, hi)
      at(24, within(l, p.v, h, dshift(incBetaTol(a.v, b.v, T), 1))) } }

  // ------------------------------------------------------------ verdict
  pure def promised(k: Call): Verdict =
    if (k.R != resultType(k.fn, k.A, k.B, k.C)) at(1, BAD)
    else if (k.fn <= 6) judgeSign(k)
    else if (k.fn <= 10) judgeRound(k)
    else if (k.fn == FMOD) judgeFmod(k)
    else if (k.fn == GCD or k.fn == LCM) judgeGcd(k)
    else if (k.fn == FACTORIAL) (if (isInt(k.A)) judgeFact(k) else judgeGamma1(k))
    else if (k.fn == BINOMIAL) judgeBinom(k)
    else if (k.fn == POW) judgePow(k)
    else if (k.fn == SQRT or k.fn == INVSQRT) judgeSqrt(k)
    else if (k.fn == HYPOT) judgeHypot(k)
    else if (k.fn == EXP or k.fn == EXPM1) judgeExp(k)
    else if (k.fn == LOG1P) judgeLog1p(k)
    else if (k.fn >= LOG and k.fn <= LOG10) judgeLog(k)
    else if (k.fn >= SIN and k.fn <= TAN) judgeTrig(k)
    else if (k.fn >= ASIN and k.fn <= ATAN) judgeArc(k)
    else if (k.fn == ATAN2) judgeAtan2(k)
    else if (k.fn >= SINH and k.fn <= TANH) judgeHyp(k)
    else if (k.fn >= ASINH and k.fn <= ATANH) judgeArcHyp(k)
    else if (k.fn == LGAMMA or k.fn == TGAMMA) judgeGamma1(k)
    else if (k.fn == BETA or k.fn == LBETA) judgeBeta(k)
    else if (k.fn == LMGAMMA) judgeLm(k)
    else if (k.fn == LOGBINOM) judgeLb(k)
    else if (k.fn == ERF) judgeErf(k)
    else if (k.fn == ERFINV) judgeErfInv(k)
    else if (k.fn == INCGAMMA) judgeIncGamma(k)
    else if (k.fn == INCBETA) judgeIncBeta(k)
    else if (k.fn == INCGAMMAINV) judgeIncGammaInv(k)
    else judgeIncBetaInv(k)
  // a subnormal argument may be treated as zero, so next to a limit it has no promised value
  pure def subnormal(k: Call): bool =
    Set(conv(k.a, k.R), conv(k.b, k.R), conv(k.c, k.R)).exists(x => tiny(x, k.R) and not(isZero(x)))
  pure def judge(k: Call): Verdict = {
    val v = promised(k)
    if (v.p == 5 and v.q > 1000 and isFloat(k.R) and subnormal(k)) FREE else v }
}
