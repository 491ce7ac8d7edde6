// Relations between two calls: symmetries (C26), and integral or mixed arguments against
// their conversions (C27).  In the trace every call is followed by its mate.
module pairs {
  import real.* from "./real"
  import fp.* from "./fp"
  import contract.* from "./contract"
  import record.* from "./record"
  import data.* from "./data"

  // ------------------------------------------------------------ C27
  // Functions over the reals: with the arguments converted to the type of the result, the
  // result is the same.
  pure def overReals(k: Call): bool =
    if (k.fn == POW) not(isInt(k.B)) else k.fn >= FLOOR and not(Set(GCD, LCM, FACTORIAL, BINOMIAL, LMGAMMA).contains(k.fn))
  pure def same(x: Num, y: Num): bool = (isNan(x) and isNan(y)) or (x.c == y.c and x.neg == y.neg and deq(x.v, y.v))
  pure def argOk(A: int, a: Num, B: int, b: Num, T: int): bool =
    if (A == NONE) B == NONE else B == T and same(conv(a, T), b)
  pure def converted(x: Call, y: Call): bool = and {
    x.fn == y.fn, isFloat(x.R),
    argOk(x.A, x.a, y.A, y.a, x.R), argOk(x.B, x.b, y.B, y.b, x.R), argOk(x.C, x.c, y.C, y.c, x.R) }
  pure def judgeConverted(x: Call, y: Call): Verdict =
    if (not(overReals(x)) or not(converted(x, y))) FREE
    else at(27, yes(x.R == y.R and same(x.r, y.r)))

  // ------------------------------------------------------------ C26
  pure val ODD = Set(SGN, TRUNC, ROUND, FMOD, SIN, TAN, ASIN, ATAN, ATAN2, SINH, TANH, ASINH, ERF, ERFINV)
  pure val EVEN = Set(ABS, HYPOT, COS, COSH)
  pure val COMMUTES = Set(MIN, MAX, GCD, LCM, HYPOT, BETA, LBETA)
  pure def opposite(x: Num, y: Num): bool =
    isNan(x) or isNan(y) or (x.c == y.c and (if (x.c == INF) x.neg != y.neg else deq(x.v, dneg(y.v))))
  pure def equal(x: Num, y: Num): bool =
    isNan(x) or isNan(y) or (x.c == y.c and (if (x.c == INF) x.neg == y.neg else deq(x.v, y.v)))
  pure def bothNan(x: Call, y: Call): bool = isNan(x.r) == isNan(y.r)
  // arguments that may be taken for zero have no exact symmetry
  pure def normal(x: Num, t: int): bool = not(isFloat(t)) or not(isFin(x)) or isZero(x) or not(tiny(x, t))
  pure def plain(k: Call): bool = not(isNan(k.a)) and not(isNan(k.b)) and normal(k.a, k.A) and normal(k.b, k.B)
  pure def swapped(x: Call, y: Call): bool = x.A == y.B and x.B == y.A and equal(x.a, y.b) and equal(x.b, y.a)
  pure def fstNeg(x: Call, y: Call): bool = x.A == y.A and x.B == y.B and opposite(x.a, y.a) and equal(x.b, y.b)
  pure def sndNeg(x: Call, y: Call): bool = x.A == y.A and x.B == y.B and equal(x.a, y.a) and opposite(x.b, y.b)
  pure def odd26(x: Call, y: Call): int = yes(bothNan(x, y) and opposite(x.r, y.r))
  pure def even26(x: Call, y: Call): int = yes(bothNan(x, y) and equal(x.r, y.r))
  pure def judgeSymmetry(x: Call, y: Call): Verdict =
    if (not(plain(x)) or not(plain(y))) FREE
    else if (x.fn == FLOOR and y.fn == CEIL) (if (fstNeg(x, y)) at(26, odd26(x, y)) else FREE)
    else if (x.fn != y.fn) FREE
    else if (COMMUTES.contains(x.fn) and swapped(x, y)) at(26, even26(x, y))
    else if (x.fn == POW and isInt(x.B) and isFloat(x.R) and fstNeg(x, y))
      at(26, if (odd(dtrunc(x.b.v))) odd26(x, y) else even26(x, y))
    // the sign of a zero divisor, dividend or abscissa means something to atan2
    else if (x.fn == ATAN2 and (isZero(x.a) or isZero(x.b))) FREE
    else if (ODD.contains(x.fn) and fstNeg(x, y)) at(26, odd26(x, y))
    else if (EVEN.contains(x.fn) and fstNeg(x, y)) at(26, even26(x, y))
    else if ((x.fn == HYPOT or x.fn == FMOD) and sndNeg(x, y)) at(26, even26(x, y))
    else FREE
  // ranges; they concern one call
  pure def judgeRange(k: Call): Verdict = {
    val one = dadd(D1, dscale(eps(if (isFloat(k.R)) k.R else F64), 4))
    val big = isFloat(k.A) and isFin(k.a) and dle(di(65536), dabs(k.a.v))
    if (isNan(k.r)) FREE
    else if (((k.fn == SIN or k.fn == COS) and not(big)) or k.fn == TANH or k.fn == ERF)
      at(26, yes(isFin(k.r) and dle(dabs(k.r.v), one)))
    else if (Set(EXP, SQRT, INVSQRT, HYPOT, ACOSH, ACOS).contains(k.fn)) at(26, yes(not(negative(k.r))))
    else if (k.fn == COSH) at(26, yes(isPosInf(k.r) or (isFin(k.r) and dle(dsub(D1, dscale(eps(k.R), 4)), k.r.v))))
    else FREE }

  pure def judgePair(x: Call, y: Call): List[Verdict] =
    [judgeConverted(x, y), judgeSymmetry(x, y), judgeRange(x), judgeRange(y)]

  var l: int
  var judged: int -> int
  var worst: int -> int
  var bad: List[{ i: int, p: int, q: int }]
  type Acc = { judged: int -> int, worst: int -> int, bad: List[{ i: int, p: int, q: int }] }
  pure def consume(acc: Acc, i: int, v: Verdict): Acc = {
    judged: acc.judged.set(v.p, acc.judged.get(v.p) + 1),
    worst: if (v.q > acc.worst.get(v.p)) acc.worst.set(v.p, v.q) else acc.worst,
    bad: if (v.q > 1000 and (PROP == 0 or v.p == PROP)) acc.bad.append({ i: i, p: v.p, q: v.q }) else acc.bad }
  action init = all { l' = 0, judged' = 0.to(31).mapBy(i => 0), worst' = 0.to(31).mapBy(i => 0), bad' = [] }
  // a step consumes a chunk of pairs
  action step = all {
    l < chunks.length(),
    val acc = range(0, sizes[l] / 2).foldl({ judged: judged, worst: worst, bad: bad }, (acc, j) =>
      judgePair(recordAt(chunks[l], 2 * j).k, recordAt(chunks[l], 2 * j + 1).k).foldl(acc, (s, v) =>
        consume(s, l * CHUNK + 2 * j, v)))
    all { l' = l + 1, judged' = acc.judged, worst' = acc.worst, bad' = acc.bad } }
  val accepted = bad.length() == 0
}
