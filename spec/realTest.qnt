// Identities that pin down the real-number layer (quint test realTest.qnt).
module realTest {
  import real.* from "./real"
  // |a - b| <= 2^-k (1 + |b|)
  pure def near(a: Dy, b: Dy, k: int): bool =
    dle(dabs(dsub(a, b)), dshift(dadd(D1, dabs(b)), -k))
  pure def relNear(a: Dy, b: Dy, k: int): bool =
    dle(dabs(dsub(a, b)), dshift(dabs(b), -k))
  pure val xs: List[Dy] = [dy(1, -200), dy(1, -80), dy(3, -71), dy(5, -40), dy(1, -7), dy(1, -1), dy(11, -4), dy(1, 0),
    dy(5, -2), dy(3, -1), dy(7, -2), dy(2, 0), dy(25, -3), dy(10, 0), dy(201, -3), dy(77, 0), dy(12345, -5), dy(700, 0)]
  pure def every(p: Dy => bool): bool = 0.to(length(xs) - 1).forall(i => p(xs[i]))
  var u: int
  action init = u' = 0
  action step = u' = u
  run machinTest = {
    // pi = 16 atan(1/5) - 4 atan(1/239)
    def at(n) = range(0, (130) + 1).foldl({ p: ONE / n, s: 0 }, (a, i) =>
      { p: a.p / (n * n), s: a.s + (if (i % 2 == 0) 1 else -1) * (a.p / (2 * i + 1)) }).s
    init.then(all { assert(iabs(16 * at(5) - 4 * at(239) - PI) < 2^20), step }) }
  run ln2Test = {
    // ln 2 = 2 atanh(1/3), ln 10 = 3 ln 2 + ln 1.25, constants of the gamma family
    val ath = range(0, (90) + 1).foldl({ p: ONE / 3, s: 0 }, (a, i) => { p: a.p / 9, s: a.s + a.p / (2 * i + 1) }).s
    init.then(all { assert(iabs(2 * ath - LN2) < 2^20),
      assert(iabs(flog(di(10)) - LN10) < 2^30),
      assert(near(dexp(unfix(LNPI)), unfix(PI), 230)),
      assert(near(dexp(dscale(unfix(LNSQRT2PI), 2)), dscale(unfix(PI), 2), 230)),
      assert(near(dmul(dmul(unfix(TWOINVSQRTPI), unfix(TWOINVSQRTPI)), unfix(PI)), di(4), 250)), step }) }
  run expLogTest = init.then(all {
      assert(every(x => relNear(dexp(dlog(x)), x, 180))),
      assert(every(x => relNear(dmul(dexp(x), dexp(dneg(x))), D1, 200))),
      assert(every(x => relNear(dexp(dscale(x, 2)), dmul(dexp(x), dexp(x)), 200))),
      step })
  run e1Test = {
    val e = range(1, (70) + 1).foldl({ t: ONE, s: ONE }, (a, i) => { t: a.t / i, s: a.s + a.t / i }).s
    init.then(all { assert(near(dexp(D1), unfix(e), 230)), step }) }
  run smallTest = init.then(all {
      assert(every(x => relNear(dexpm1(x), dsub(dexp(x), D1), if (dlog2(x) < -100) -1000 else 110))),
      assert(every(x => relNear(dlog1p(x), dlog(dadd(D1, x)), if (dlog2(x) < -100) -1000 else 110))),
      assert(every(x => relNear(dsin(x), unfix(fsincos(x).s), if (dlog2(x) < -100) -1000 else 110))),
      step })
  run trigTest = init.then(all {
      assert(every(x => { val z = fsincos(x)
        near(unfix(fmul(z.s, z.s) + fmul(z.c, z.c)), D1, 230) })),
      assert(every(x => { val z = fsincos(x)
        val w = fsincos(dscale(x, 2))
        near(unfix(2 * fmul(z.s, z.c)), unfix(w.s), 230) })),
      assert(near(unfix(fsincos(dy(PI, -P - 1)).s), D1, 240)),
      assert(near(dscale(unfix(fsincos(ddiv(dy(PI, -P), di(6))).s), 2), D1, 240)),
      step })
  run sqrtTest = init.then(all {
      assert(every(x => relNear(dmul(dsqrt(x), dsqrt(x)), x, 240))),
      assert(0.to(300).forall(n => isqrt(n) * isqrt(n) <= n and (isqrt(n) + 1) * (isqrt(n) + 1) > n)),
      assert(isqrt((2^300 + 1) * (2^300 + 1)) == 2^300 + 1 and isqrt((2^300 + 1) * (2^300 + 1) - 1) == 2^300),
      step })
  run gammaTest = init.then(all {
      // Gamma(n) = (n-1)!, Gamma(1/2)^2 = pi, recurrence, reflection, duplication
      assert(1.to(60).forall(n => relNear(dgamma(di(n)), di(if (n < 3) 1 else 2.to(n - 1).fold(1, (a, i) => a * i)), 170))),
      assert(relNear(dmul(dgamma(dy(1, -1)), dgamma(dy(1, -1))), unfix(PI), 180)),
      assert(every(x => near(dlgamma(dadd(x, D1)), dadd(dlgamma(x), dlog(x)), 170))),
      assert(relNear(dgamma(dy(-1, -1)), dscale(dgamma(dy(1, -1)), -2), 170)),
      assert(relNear(dmul(dgamma(dy(-5, -1)), dy(-5, -1)), dgamma(dy(-3, -1)), 170)),
      assert(relNear(dmul(dgamma(dy(-41, -2)), dy(-41, -2)), dgamma(dy(-37, -2)), 170)),
      assert([dy(3, -3), dy(5, -1), dy(201, -3)].foldl(true, (b, x) => b and
        near(dadd(dlgamma(x), dlgamma(dadd(x, dy(1, -1)))),
             dadd(dlgamma(dscale(x, 2)), dadd(dmul(dsub(D1, dscale(x, 2)), unfix(LN2)), dshift(unfix(LNPI), -1))), 170))),
      step })
  run incTest = init.then(all {
      // P(1,x) = 1 - e^-x; P(a,x) recurrence; P(1/2,x^2) = erf x
      assert([dy(1, -3), dy(1, 0), dy(9, -1), dy(40, 0)].foldl(true, (b, x) => b and
        near(dgammaP(D1, x), dsub(D1, dexp(dneg(x))), 120))),
      assert([dy(1, -3), dy(1, 0), dy(9, -2), dy(5, 0)].foldl(true, (b, x) => b and
        near(dgammaP(dy(1, -1), dmul(x, x)), derf(x), 115))),
      assert([dy(1, -3), dy(1, 0), dy(9, -1), dy(40, 0)].foldl(true, (b, x) => b and
        near(dadd(dgammaP(dy(7, -1), x), D0),
             dadd(dgammaP(dy(9, -1), x), dexp(dsub(dsub(dmul(dy(7, -1), dlog(x)), x), dlgamma(dy(9, -1))))), 115))),
      // I_x(1,1) = x, I_x(a,1) = x^a, I_x(2,2) = 3x^2-2x^3, symmetry
      assert([dy(1, -30), dy(1, -3), dy(1, -1), dy(7, -3), dy(4095, -12)].foldl(true, (b, x) => b and
        near(dbetaI(D1, D1, x), x, 100) and near(dbetaI(di(3), D1, x), dmul(dmul(x, x), x), 100) and
        near(dbetaI(di(2), di(2), x), dsub(dscale(dmul(x, x), 3), dscale(dmul(dmul(x, x), x), 2)), 100) and
        near(dadd(dbetaI(dy(9, -1), dy(5, -2), x), dbetaI(dy(5, -2), dy(9, -1), dsub(D1, x))), D1, 100))),
      step })
  run bitsTest = init.then(all {
      assert(0.to(300).forall(k => bits(2^k) == k + 1 and bits(2^k - 1) == k)),
      assert(bits(2^33000) == 33001), assert(dpow(dy(3, -1), 5) == dy(243, -5)), step })
}
