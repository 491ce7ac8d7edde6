// Machine numbers: how the bits of an argument or result denote a real number.
module fp {
  import real.* from "./real"

  // argument and result types
  pure val F32 = 0
  pure val F64 = 1
  pure val F80 = 2
  pure val I8 = 3
  pure val U8 = 4
  pure val I16 = 5
  pure val U16 = 6
  pure val I32 = 7
  pure val U32 = 8
  pure val I64 = 9
  pure val U64 = 10
  pure val BOOL = 11
  pure val NONE = 15

  pure def isFloat(t: int): bool = t <= 2
  pure def isInt(t: int): bool = t >= 3 and t <= 11
  pure def isUnsigned(t: int): bool = t == 4 or t == 6 or t == 8 or t == 10 or t == 11
  pure def width(t: int): int =
    if (t == 3 or t == 4) 8 else if (t == 5 or t == 6) 16 else if (t == 7 or t == 8) 32
    else if (t == 9 or t == 10) 64 else if (t == 11) 1 else 0
  pure def intMax(t: int): int = if (isUnsigned(t)) 2^width(t) - 1 else 2^(width(t) - 1) - 1
  pure def intMin(t: int): int = if (isUnsigned(t)) 0 else -(2^(width(t) - 1))

  // precision in bits, exponent of the smallest normal, exponent above the largest
  pure def prec(t: int): int = if (t == 0) 24 else if (t == 1) 53 else 64
  pure def emin(t: int): int = if (t == 0) -126 else if (t == 1) -1022 else -16382
  pure def emax(t: int): int = if (t == 0) 128 else if (t == 1) 1024 else 16384
  // machine epsilon, smallest normal, largest finite
  pure def eps(t: int): Dy = { m: 1, e: 1 - prec(t) }
  pure def minN(t: int): Dy = { m: 1, e: emin(t) }
  pure def maxF(t: int): Dy = { m: 2^prec(t) - 1, e: emax(t) - prec(t) }
  pure def denorm(t: int): Dy = { m: 1, e: emin(t) - prec(t) + 1 }

  // a decoded machine number: class FIN (finite, incl. zero), INF, NAN
  pure val FIN = 0
  pure val INF = 1
  pure val NAN = 2
  type Num = { c: int, neg: bool, v: Dy }

  pure def mk(c: int, neg: bool, m: int, e: int): Num =
    { c: c, neg: neg, v: { m: if (neg) -m else m, e: e } }

  // IEEE-754 interchange formats (p-1 stored bits) and x87 extended (64 explicit)
  pure def decIeee(b: int, w: int, p: int, bias: int): Num = {
    val neg = b / 2^(w - 1) % 2 == 1
    val be = b / 2^(p - 1) % 2^(w - p)
    val f = b % 2^(p - 1)
    if (be == 2^(w - p) - 1) (if (f == 0) mk(INF, neg, 1, 0) else mk(NAN, neg, 0, 0))
    else if (be == 0) mk(FIN, neg, f, 2 - bias - p)
    else mk(FIN, neg, f + 2^(p - 1), be + 1 - bias - p) }
  pure def dec80(b: int): Num = {
    val neg = b / 2^79 % 2 == 1
    val be = b / 2^64 % 2^15
    val f = b % 2^64
    if (be == 32767) (if (f == 2^63) mk(INF, neg, 1, 0) else mk(NAN, neg, 0, 0))
    else if (be == 0) mk(FIN, neg, f, -16445)
    else mk(FIN, neg, f, be - 16446) }
  pure def decInt(b: int, t: int): Num = {
    val u = b % 2^width(t)
    val n = if (isUnsigned(t) or u < 2^(width(t) - 1)) u else u - 2^width(t)
    { c: FIN, neg: n < 0, v: { m: n, e: 0 } } }
  pure def decode(b: int, t: int): Num =
    if (t == 0) decIeee(b % 2^32, 32, 24, 127)
    else if (t == 1) decIeee(b % 2^64, 64, 53, 1023)
    else if (t == 2) dec80(b % 2^80)
    else if (t == NONE) mk(FIN, false, 0, 0)
    else decInt(b, t)

  pure def isNan(x: Num): bool = x.c == NAN
  pure def isInf(x: Num): bool = x.c == INF
  pure def isFin(x: Num): bool = x.c == FIN
  pure def isZero(x: Num): bool = x.c == FIN and x.v.m == 0
  pure def isPosInf(x: Num): bool = x.c == INF and not(x.neg)
  pure def isNegInf(x: Num): bool = x.c == INF and x.neg

  // round to nearest even into float type t (used for argument conversion)
  pure def roundTo(a: Dy, t: int): Num =
    if (a.m == 0) mk(FIN, false, 0, 0)
    else {
      val q = imax(dlog2(a) - prec(t) + 1, emin(t) - prec(t) + 1)
      val n = iabs(a.m)
      val r = if (a.e >= q) n * 2^(a.e - q)
              else {
                val d = 2^(q - a.e)
                val f = n / d
                val rem = n % d
                if (2 * rem > d or (2 * rem == d and f % 2 == 1)) f + 1 else f }
      if (dlt(maxF(t), dy(r, q))) mk(INF, a.m < 0, 1, 0)
      else mk(FIN, a.m < 0, r, q) }
  // conversion of a number to float type t
  pure def conv(x: Num, t: int): Num = if (x.c != FIN or x.v.m == 0) x else roundTo(x.v, t)
  // conversion to integer type t (modular)
  pure def wrapInt(n: int, t: int): int = {
    val w = 2^width(t)
    val u = n - w * fdiv(n, w)
    if (isUnsigned(t) or u < w / 2) u else u - w }

  // C++ usual conversions: the common type of two argument types, as used by
  // std::common_type (no promotion when both types are the same)
  pure def promoted(t: int): int = if (isInt(t) and width(t) < 32) I32 else t
  pure def common(a: int, b: int): int =
    if (b == NONE) a
    else if (a == NONE) b
    else if (a == b) a
    else if (isFloat(a) or isFloat(b))
      (if (isFloat(a) and isFloat(b)) imax(a, b) else if (isFloat(a)) a else b)
    else {
      val p = promoted(a)
      val q = promoted(b)
      if (p == q) p
      else if (width(p) == width(q)) imax(p, q)
      else if (width(p) > width(q)) p else q }
  // the return type of a real function: integers are promoted to double
  pure def retOf(t: int): int = if (isFloat(t)) t else F64
}
