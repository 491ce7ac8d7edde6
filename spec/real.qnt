// -*- mode: Bluespec; -*-
// Real-number layer of the specification.
//
// The contract of a numeric library is stated over the reals; this module gives
// the reals an executable meaning, with unbounded integers only:
//   * `Dy` - an exact dyadic rational m * 2^e (every finite float is one);
//   * fixed-point numbers with P = 256 fractional bits, for series;
//   * the elementary and special functions the library offers.
// Every function below has an absolute or relative error below 2^-120, which is
// 2^55 times smaller than the tightest tolerance of the contract (a few 2^-63);
// realTest.qnt checks the identities that pin them down.
module real {
  // ------------------------------------------------------------- dyadics
  type Dy = { m: int, e: int }

  pure def iabs(x: int): int = if (x < 0) -x else x
  pure def imax(x: int, y: int): int = if (x < y) y else x
  pure def imin(x: int, y: int): int = if (x < y) x else y
  // floor division (the sign of / and % on negative numbers is left open)
  pure def fdiv(a: int, b: int): int =
    if (a >= 0) a / b else -((-a + b - 1) / b)
  pure def cdiv(a: int, b: int): int = -fdiv(-a, b)

  pure def dy(m: int, e: int): Dy = { m: m, e: e }
  pure def di(n: int): Dy = { m: n, e: 0 }
  pure val D0: Dy = { m: 0, e: 0 }
  pure val D1: Dy = { m: 1, e: 0 }
  pure def dneg(a: Dy): Dy = { m: -a.m, e: a.e }
  pure def dabs(a: Dy): Dy = { m: iabs(a.m), e: a.e }
  pure def dadd(a: Dy, b: Dy): Dy =
    if (a.e >= b.e) { m: a.m * 2^(a.e - b.e) + b.m, e: b.e }
    else { m: a.m + b.m * 2^(b.e - a.e), e: a.e }
  pure def dsub(a: Dy, b: Dy): Dy = dadd(a, dneg(b))
  pure def dmul(a: Dy, b: Dy): Dy = { m: a.m * b.m, e: a.e + b.e }
  pure def dscale(a: Dy, k: int): Dy = { m: a.m * k, e: a.e }
  pure def dshift(a: Dy, k: int): Dy = { m: a.m, e: a.e + k }
  pure def dle(a: Dy, b: Dy): bool =
    if (a.e >= b.e) a.m * 2^(a.e - b.e) <= b.m
    else a.m <= b.m * 2^(b.e - a.e)
  pure def dlt(a: Dy, b: Dy): bool = not(dle(b, a))
  pure def deq(a: Dy, b: Dy): bool = dle(a, b) and dle(b, a)
  pure def dmax(a: Dy, b: Dy): Dy = if (dle(a, b)) b else a
  pure def dmin(a: Dy, b: Dy): Dy = if (dle(a, b)) a else b
  pure def dsgn(a: Dy): int = if (a.m > 0) 1 else if (a.m < 0) -1 else 0

  // number of bits of n >= 0, n < 2^40000
  pure def bits(n: int): int =
    [32768, 16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1].foldl(
      { n: n, b: 0 }, (s, k) => {
        val q = s.n / 2^k
        if (q > 0) { n: q, b: s.b + k } else s }).b + (if (n > 0) 1 else 0)
  // position of the leading bit: 2^(dlog2 a) <= |a| < 2^(dlog2 a + 1), a # 0
  pure def dlog2(a: Dy): int = bits(iabs(a.m)) - 1 + a.e
  // round (toward zero) to at most 300 significant bits
  pure def dcut(a: Dy): Dy = {
    val b = bits(iabs(a.m))
    if (b <= 300) a
    else {
      val q = iabs(a.m) / 2^(b - 300)
      { m: if (a.m < 0) -q else q, e: a.e + (b - 300) } } }
  // quotient with 300 significant bits, b # 0
  pure def ddiv(a: Dy, b: Dy): Dy = {
    val s = imax(0, 300 + bits(iabs(b.m)) - bits(iabs(a.m)))
    { m: (a.m * 2^s) / b.m, e: a.e - b.e - s } }
  pure def dfloor(a: Dy): int = if (a.e >= 0) a.m * 2^a.e else fdiv(a.m, 2^(-a.e))
  pure def dtrunc(a: Dy): int = if (a.m >= 0) dfloor(a) else -dfloor(dneg(a))
  pure def dceil(a: Dy): int = -dfloor(dneg(a))
  pure def disInt(a: Dy): bool = if (a.e >= 0) true else a.m % 2^(-a.e) == 0
  // integer square root of n >= 0 (floor): Newton from above
  pure def isqrt(n: int): int =
    if (n == 0) 0 else {
      val s = 2^((bits(n) + 1) / 2)
      range(0, (40) + 1).foldl({ x: s, go: true }, (st, i) =>
        if (not(st.go)) st
        else { val y = (st.x + n / st.x) / 2
               if (y >= st.x) { x: st.x, go: false } else { x: y, go: true } }).x }
  // square root with 256 significant bits
  pure def dsqrt(a: Dy): Dy =
    if (a.m == 0) D0 else {
      val s0 = imax(0, 512 - bits(a.m))
      val s = if ((a.e - s0) % 2 == 0) s0 else s0 + 1
      { m: isqrt(a.m * 2^s), e: (a.e - s) / 2 } }
  // a^n for n >= 0 by repeated squaring, 300 significant bits throughout
  pure def dpow(a: Dy, n: int): Dy =
    range(0, (imax(0, bits(n) - 1)) + 1).foldl({ b: a, r: D1, n: n }, (s, i) =>
      if (s.n == 0) s
      else { b: dcut(dmul(s.b, s.b)),
             r: if (s.n % 2 == 1) dcut(dmul(s.r, s.b)) else s.r,
             n: s.n / 2 }).r

  // --------------------------------------------------------- fixed point
  pure val P = 256
  pure val ONE = 2^256
  pure val HALF = 2^255
  pure def fix(a: Dy): int =
    if (a.e + P >= 0) a.m * 2^(a.e + P)
    else if (a.m >= 0) a.m / 2^(-(a.e + P)) else -((-a.m) / 2^(-(a.e + P)))
  pure def unfix(n: int): Dy = { m: n, e: -P }
  pure def fmul(a: int, b: int): int = (a * b) / ONE
  pure def fquo(a: int, b: int): int = (a * ONE) / b

  pure val PI = 0x3243f6a8885a308d313198a2e03707344a4093822299f31d0082efa98ec4e6c89
  pure val LN2 = 0xb17217f7d1cf79abc9e3b39803f2f6af40f343267298b62d8a0d175b8baafa2b
  pure val LN10 = 0x24d763776aaa2b05ba95b58ae0b4c28a38a3fb3e76977e43a0f187a0807c0b5ca
  pure val LNPI = 0x1250d048e7a1bd0bd5f956c6a843f49985e6ddbf3b3f2606e33802ecaefa9308e
  pure val LNSQRT2PI = 0xeb3f8e4325f5a53494bc900144192023cfb08f8d13458b4ddec6a3133daa155d
  pure val TWOINVSQRTPI = 0x120dd750429b6d11ae3a914fed7fd8688281341d7587cea2e7342b06199cc4161

  // exp of a fixed-point number: a dyadic with relative error < 2^-230
  // (for |x| < 2^20)
  pure def fexp(x: int): Dy = {
    val k = fdiv(x + LN2 / 2, LN2)
    val r = (x - k * LN2) / 256
    val s = range(1, (28) + 1).foldl({ t: ONE, s: ONE }, (a, i) => {
      val t = fmul(a.t, r) / i
      { t: t, s: a.s + t } }).s
    val y = range(1, (8) + 1).foldl(s, (a, i) => fmul(a, a))
    { m: y, e: k - P } }
  // exp of a dyadic, |x| < 2^20
  pure def dexp(x: Dy): Dy = fexp(fix(x))

  // exp(x) - 1 with small relative error
  pure def dexpm1(x: Dy): Dy =
    if (x.m == 0) D0
    else if (dlog2(x) < -60)
      dcut(dadd(x, dshift(dmul(x, x), -1)))
    else dsub(dexp(x), D1)

  // log of a dyadic > 0, fixed point; error < 2^-230 + 2^-240 |log|
  pure def flog(x: Dy): int = {
    val k0 = dlog2(x)
    val y0 = fix({ m: x.m, e: x.e - k0 })
    val k = if (y0 * 10 > 14 * ONE) k0 + 1 else k0
    val y = if (y0 * 10 > 14 * ONE) fix({ m: x.m, e: x.e - k0 - 1 }) else y0
    val t = fquo(y - ONE, y + ONE)
    val t2 = fmul(t, t)
    val s = range(0, (52) + 1).foldl({ p: t, s: 0 }, (a, i) =>
      { p: fmul(a.p, t2), s: a.s + a.p / (2 * i + 1) }).s
    2 * s + k * LN2 }
  pure def dlog(x: Dy): Dy = unfix(flog(x))
  // log(1+x), x > -1, small relative error for small x
  pure def dlog1p(x: Dy): Dy =
    if (x.m == 0) D0
    else if (dlog2(x) < -60) dcut(dsub(x, dshift(dmul(x, x), -1)))
    else dlog(dcut(dadd(D1, x)))

  // sin and cos, fixed point, |x| < 2^40
  pure def fsincos(x: Dy): { s: int, c: int } = {
    val f = fix(x)
    val h = PI / 2
    val q = fdiv(f + h / 2, h)
    val r = (f - q * h) / 16
    val r2 = fmul(r, r)
    val cs = range(1, (22) + 1).foldl({ tc: ONE, c: ONE, ts: r, s: r }, (a, i) => {
      val tc = -fmul(a.tc, r2) / ((2 * i - 1) * (2 * i))
      val ts = -fmul(a.ts, r2) / ((2 * i) * (2 * i + 1))
      { tc: tc, c: a.c + tc, ts: ts, s: a.s + ts } })
    val z = range(1, (4) + 1).foldl({ s: cs.s, c: cs.c }, (a, i) =>
      { s: 2 * fmul(a.s, a.c), c: fmul(a.c, a.c) - fmul(a.s, a.s) })
    val m = q - 4 * fdiv(q, 4)
    if (m == 0) z
    else if (m == 1) { s: z.c, c: -z.s }
    else if (m == 2) { s: -z.s, c: -z.c }
    else { s: -z.c, c: z.s } }
  // relative accuracy for small x
  pure def dsin(x: Dy): Dy =
    if (x.m == 0) D0
    else if (dlog2(x) < -70) x
    else unfix(fsincos(x).s)
  pure def dcos(x: Dy): Dy = unfix(fsincos(x).c)

  // erf, relative error < 2^-120 (also for small x): the series with positive terms
  //   erf x = 2/sqrt(pi) exp(-x^2) sum 2^n x^(2n+1) / (2n+1)!!
  pure def derf(x: Dy): Dy =
    if (x.m == 0) D0
    else if (dlog2(x) < -70) dmul(x, unfix(TWOINVSQRTPI))
    else if (dle(di(14), dabs(x))) di(dsgn(x))
    else {
      val f = fix(x)
      val f2 = fmul(f, f)
      val n = 60 + 3 * (f2 / ONE)
      val s = range(1, (n) + 1).foldl({ t: f, s: f }, (a, i) => {
        val t = (2 * fmul(a.t, f2)) / (2 * i + 1)
        { t: t, s: a.s + t } }).s
      dcut(dmul(dmul(unfix(s), unfix(TWOINVSQRTPI)), fexp(-f2))) }

  // ------------------------------------------------------- gamma family
  pure val STIRLING: List[(int, int)] = [
    (1, 12), (-1, 360), (1, 1260), (-1, 1680), (5, 5940), (-691, 360360), (7, 1092),
    (-3617, 122400), (43867, 244188), (-174611, 125400), (854513, 63756),
    (-236364091, 1506960), (8553103, 3900), (-23749461029, 657720),
    (8615841276005, 12460140), (-7709321041217, 505920), (2577687858367, 6732),
    (-26315271553053477373, 2418179400), (2929993913841559, 8436),
    (-261082718496449122051, 21106800), (1520097643918070802691, 3109932),
    (-27833269579301024235023, 1305480), (596451111593912163277961, 583740),
    (-5609403368997817686249127547, 104700960), (495057205241079648212477525, 161700),
    (-801165718135489957347924991853, 4216680), (29149963634884862421418123812691, 2283876),
    (-2479392929313226753685415739663229, 2679600),
    (84483613348880041862046775994036021, 1170324),
    (-1215233140483755572040304994079820246041491, 201025024200)
  ]
  // log Gamma(x), x > 0 dyadic: shift to x >= 50, then Stirling's series (30 terms,
  // remainder < 2^-190); fixed point
  pure def flgamma(x: Dy): int = {
    val n = if (dle(di(50), x)) 0 else 50 - dfloor(x)
    val prod = if (n == 0) D1
               else range(0, (n - 1) + 1).foldl(D1, (a, i) => dcut(dmul(a, dadd(x, di(i)))))
    val z = dcut(dadd(x, di(n)))
    val fz = fix(z)
    val iz = fquo(ONE, fz)
    val iz2 = fmul(iz, iz)
    val ser = STIRLING.foldl({ p: iz, s: 0 }, (a, c) =>
      { p: fmul(a.p, iz2), s: a.s + (a.p * c._1) / c._2 }).s
    val lz = flog(z)
    fmul(fz - HALF, lz) - fz + LNSQRT2PI + ser - (if (n == 0) 0 else flog(prod)) }
  pure def dlgamma(x: Dy): Dy = unfix(flgamma(x))
  // Gamma(x) for x that is not an integer <= 0 (reflection for negative x)
  pure def dgamma(x: Dy): Dy =
    if (x.m > 0) fexp(flgamma(x))
    else {
      // Gamma(x) = pi / (sin(pi x) Gamma(1-x)); sin(pi x) = (-1)^n sin(pi f), x = n + f
      val n = dfloor(x)
      val f = dsub(x, di(n))
      val g = if (dle(dshift(D1, -1), f)) dsub(D1, f) else f
      val s = if (dlog2(g) < -80) dcut(dmul(g, unfix(PI)))
              else unfix(fsincos(dcut(dmul(g, unfix(PI)))).s)
      val y = fexp(flgamma(dcut(dsub(D1, x))))
      val sgn = if ((-n) % 2 == 0) 1 else -1
      dscale(ddiv(unfix(PI), dcut(dmul(s, y))), sgn) }

  // regularised lower incomplete gamma P(a,x), a > 0, x > 0: all terms positive
  //   x^a e^-x / Gamma(a+1) * sum x^n / ((a+1)...(a+n))
  pure def dgammaP(a: Dy, x: Dy): Dy = {
    val fa = fix(a)
    val fx = fix(x)
    val lp = fmul(fa, flog(x)) - fx - flgamma(dadd(a, D1))
    // beyond this the complement is below 2^-150
    if (dlt(dadd(dscale(a, 2), di(250)), x)) D1
    else if (lp < -40000 * ONE) D0
    else {
      val nmax = 200 + dfloor(x) + 14 * isqrt(imax(1, dfloor(x)))
      val s = range(1, (nmax) + 1).foldl({ t: ONE, s: ONE }, (st, n) =>
        if (st.t * 2^130 < st.s) st
        else { val t = (st.t * fx) / (fa + n * ONE)
               { t: t, s: st.s + t } }).s
      dcut(dmul(unfix(s), fexp(lp))) } }

  // Regularised incomplete beta I_x(a,b) by its series with positive terms (cx = 1 - x),
  //   x^a (1-x)^b / (a B(a,b)) * sum ((a+b)...(a+b+n-1)) / ((a+1)...(a+n)) x^n
  // in blocks of 40 terms, until a term no longer counts.
  pure def ibSeries(a: Dy, b: Dy, x: Dy, cx: Dy, lb: int): Dy = {
    val fa = fix(a)
    val fb = fix(b)
    val fx = fix(x)
    val lp = fmul(fa, flog(x)) + fmul(fb, flog(cx)) - lb
    val s = range(0, 150).foldl({ t: ONE, s: ONE, go: true }, (bl, k) =>
      if (not(bl.go)) bl
      else range(40 * k, 40 * k + 40).foldl(bl, (st, n) =>
        { val t = fmul((st.t * (fa + fb + n * ONE)) / (fa + (n + 1) * ONE), fx)
          { t: t, s: st.s + t, go: t * 2^120 > st.s } })).s
    if (lp < -40000 * ONE) D0
    else dcut(ddiv(dmul(unfix(s), fexp(lp)), a)) }
  // Below the mean the series gives I directly; next to 1 it needs 83/(1-x) terms, so that
  // there the complement is used as long as it leaves enough digits.
  pure def ibBelow(a: Dy, b: Dy, x: Dy, cx: Dy, lb: int): Dy =
    if (dle(x, dy(3, -2)) or dlt(di(32), dmul(a, cx))) ibSeries(a, b, x, cx, lb)
    else dsub(D1, ibSeries(b, a, cx, x, lb))
  pure def dbetaI(a: Dy, b: Dy, x: Dy): Dy =
    if (x.m <= 0) D0
    else if (dle(D1, x)) D1
    else {
      val lb = flgamma(a) + flgamma(b) - flgamma(dadd(a, b))
      val cx = dsub(D1, x)
      if (dle(dmul(x, dadd(dadd(a, b), di(2))), dadd(a, D1))) ibBelow(a, b, x, cx, lb)
      else dsub(D1, ibBelow(b, a, cx, x, lb)) }
}
