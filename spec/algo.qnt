// Models of the recursions inside the functions.  Each machine starts from any call of a
// bounded domain, takes the steps the code takes, and has an invariant that ties every
// intermediate state to the contract; `done` states carry the value the code returns.
// Checked with Apalache (quint verify: every behaviour of the bounded domain) and the
// simulator; the calls in which behaviours end are replayed into the library by the checks
// of C06, C08, C09, C10 (the trace specification judges the answers).

// ---------------------------------------------------------------- gcd, lcm: Euclid
module euclid {
  pure val N = 120
  var a: int
  var b: int
  var x: int
  var y: int
  var steps: int
  action init = {
    nondet p = 0.to(N).oneOf()
    nondet q = 0.to(N).oneOf()
    all { x' = p, y' = q, a' = p, b' = q, steps' = 0 } }
  action step = any {
    all { b != 0, a' = b, b' = a % b, x' = x, y' = y, steps' = steps + 1 },
    all { b == 0, a' = a, b' = b, x' = x, y' = y, steps' = steps } }
  pure def divides(d: int, n: int): bool = n == 0 or (d > 0 and n % d == 0)
  // the common divisors of the pair never change
  val sameDivisors = 1.to(N).forall(d => (divides(d, x) and divides(d, y)) == (divides(d, a) and divides(d, b)))
  // so the last remainder is the greatest of them (zero of two zeros)
  val gcdRight = b == 0 implies
    (if (x == 0 and y == 0) a == 0
     else and { a > 0, divides(a, x), divides(a, y), 1.to(N).forall(d => divides(d, x) and divides(d, y) implies d <= a) })
  // b / gcd is exact, so the product is the least common multiple without a larger intermediate value
  val lcmRight = b == 0 and x > 0 and y > 0 implies and {
    y % a == 0, divides(x, x * (y / a)), divides(y, x * (y / a)),
    1.to(y).forall(k => k * x % y == 0 implies k * x >= x * (y / a)) }
  // numbers up to 120 take at most 11 steps (Lame): the recursion is shallow
  val shallow = steps <= 11
  val correct = sameDivisors and gcdRight and lcmRight and shallow
}

// ---------------------------------------------------------------- pow: squaring
module squaring {
  // base, accumulated value and exponent of pow_integral_compute_recur, modulo M (the
  // wrapping arithmetic of an unsigned type; a prime would do as well)
  pure val M = 256
  pure val N = 31
  var base: int
  var value: int
  var e: int
  var x: int
  var n: int
  var done: bool
  // x^n mod M for n <= N by definition
  pure def power(v: int, k: int): int = 1.to(N).fold(1, (acc, i) => if (i <= k) acc * v % M else acc)
  action init = {
    nondet p = 0.to(M - 1).oneOf()
    nondet q = 0.to(N).oneOf()
    all { x' = p, n' = q, base' = p, value' = 1, e' = q, done' = false } }
  action step = any {
    all { e > 1, base' = base * base % M, value' = if (e % 2 == 1) value * base % M else value, e' = e / 2,
          x' = x, n' = n, done' = false },
    all { e <= 1, value' = if (e == 1) value * base % M else value, e' = 0, base' = base, x' = x, n' = n, done' = true } }
  val invariant_ = value * power(base, e) % M == power(x, n)
  val right = done implies value == power(x, n)
  val correct = invariant_ and right
}

// ---------------------------------------------------------------- binomial_coef: Pascal
module pascal {
  // the recursion as a walk: the list holds the calls still to be made, sum what the
  // finished ones add up to
  pure val N = 7
  var n: int
  var k: int
  var stack: List[(int, int)]
  var sum: int
  pure def choose(m: int, j: int): int =
    if (j > m) 0 else {
      val above = 1.to(N).fold(1, (acc, i) => if (i <= j) acc * (m - i + 1) else acc)
      val below = 1.to(N).fold(1, (acc, i) => if (i <= j) acc * i else acc)
      above / below }
  action init = {
    nondet p = 0.to(N).oneOf()
    nondet q = 0.to(N).oneOf()
    all { n' = p, k' = q, stack' = [(p, q)], sum' = 0 } }
  action step =
    if (length(stack) == 0) all { n' = n, k' = k, stack' = stack, sum' = sum }
    else {
      val top = head(stack)
      val rest = tail(stack)
      all { n' = n, k' = k,
        if (top._2 == 0 or top._1 == top._2) all { stack' = rest, sum' = sum + 1 }
        else if (top._1 == 0) all { stack' = rest, sum' = sum }
        else all { stack' = rest.append((top._1 - 1, top._2 - 1)).append((top._1 - 1, top._2)), sum' = sum } } }
  // what is left plus what is done is the coefficient
  val left = stack.foldl(0, (s, c) => s + choose(c._1, c._2))
  val invariant_ = sum + left == choose(n, k)
  val correct = invariant_ and (length(stack) == 0 implies sum == choose(n, k))
}

// ---------------------------------------------------------------- floor, ceil, trunc, round
module rounding {
  // numbers m * 2^e of a format with P bits; the code converts to an integer, which cuts
  // the fraction off, and corrects the result; numbers of 2^(P-1) and more are integral
  pure val P = 9
  var m: int          // the argument is m / 2^s
  var s: int
  var whole: int      // the integer cut off
  var pc: int         // 0 argument, 1 converted, 2 results known
  var fl: int
  var ce: int
  var tr: int
  var ro: int
  pure def pow2(k: int): int = 1.to(P + 1).fold(1, (acc, i) => if (i <= k) acc * 2 else acc)
  pure def mag(i: int): int = if (i < 0) -i else i
  pure def cut(p: int, q: int): int = if (p < 0) -(-p / q) else p / q
  action init = {
    nondet p = (-511).to(511).oneOf()
    nondet q = 0.to(P + 1).oneOf()
    all { m' = p, s' = q, whole' = 0, pc' = 0, fl' = 0, ce' = 0, tr' = 0, ro' = 0 } }
  action step = any {
    all { pc == 0, pc' = 1, whole' = cut(m, pow2(s)), m' = m, s' = s, fl' = fl, ce' = ce, tr' = tr, ro' = ro },
    all { pc == 1, pc' = 2, whole' = whole, m' = m, s' = s,
          fl' = whole - (if (m < 0 and m < whole * pow2(s)) 1 else 0),
          ce' = whole + (if (m > 0 and m > whole * pow2(s)) 1 else 0),
          tr' = whole,
          // sgn(x) times (|x| cut off, plus one when the rest is a half or more)
          ro' = { val c = cut(mag(m), pow2(s))
                  val r = if (2 * (mag(m) - c * pow2(s)) >= pow2(s)) c + 1 else c
                  if (m < 0) -r else r } },
    all { pc == 2, pc' = 2, whole' = whole, m' = m, s' = s, fl' = fl, ce' = ce, tr' = tr, ro' = ro } }
  val correct = pc == 2 implies and {
    fl * pow2(s) <= m, m < (fl + 1) * pow2(s),
    (ce - 1) * pow2(s) < m, m <= ce * pow2(s),
    mag(tr) * pow2(s) <= mag(m), mag(m) < (mag(tr) + 1) * pow2(s), tr * m >= 0,
    2 * mag(ro * pow2(s) - m) <= pow2(s),
    2 * mag(ro * pow2(s) - m) == pow2(s) implies mag(ro) * pow2(s) > mag(m) }
}

// ---------------------------------------------------------------- sqrt: Newton
module newton {
  // v -> (v + x/v) / 2 in fixed point with F fractional bits, from v = x/2, for the scaled
  // arguments the code iterates on; it stops when two iterates agree
  pure val F = 256
  var x: int
  var v: int
  var k: int
  var done: bool
  action init = {
    nondet p = 16.to(4096).oneOf()
    all { x' = p * F / 16, v' = p * F / 32, k' = 0, done' = false } }
  pure def better(X: int, V: int): int = (V + X * F / V) / 2
  pure def mag(i: int): int = if (i < 0) -i else i
  action step = {
    val w = better(x, v)
    all { x' = x, v' = if (done) v else w, k' = if (done) k else k + 1, done' = (done or mag(w - v) <= 1) } }
  // after the first step the iterate is not below the root (up to the rounding of F), it
  // falls, and it ends within two units of the root
  val above = k >= 1 implies (v + 2) * (v + 2) >= x * F
  val right = done implies and { (v - 3) * (v - 3) <= x * F, (v + 3) * (v + 3) >= x * F }
  // 1 <= x <= 256: a dozen steps, far below the limit of 100 the code sets itself
  val soon = k <= 14
  val correct = above and right and soon
}

// ---------------------------------------------------------------- log, tgamma of large numbers: decimal exponent
module scaling {
  // mantissa() and find_exponent() multiply or divide by ten until the number is in [1,10];
  // the argument is p / q, the number reached num / den; both functions take the same steps
  pure val N = 12
  var p: int
  var q: int
  var num: int
  var den: int
  var e: int
  var steps: int
  pure def pow10(k: int): int = 1.to(6).fold(1, (acc, i) => if (i <= k) acc * 10 else acc)
  action init = {
    nondet a = 1.to(N).oneOf()
    nondet b = 1.to(N).oneOf()
    nondet i = 0.to(3).oneOf()
    nondet up = Set(true, false).oneOf()
    val x = if (up) a * pow10(i) else a
    val y = if (up) b else b * pow10(i)
    all { p' = x, q' = y, num' = x, den' = y, e' = 0, steps' = 0 } }
  action step =
    if (num < den) all { p' = p, q' = q, num' = num * 10, den' = den, e' = e - 1, steps' = steps + 1 }
    else if (num > 10 * den) all { p' = p, q' = q, num' = num, den' = den * 10, e' = e + 1, steps' = steps + 1 }
    else all { p' = p, q' = q, num' = num, den' = den, e' = e, steps' = steps }
  pure def mag(i: int): int = if (i < 0) -i else i
  // the number reached times ten to the exponent is the argument
  val invariant_ = if (e >= 0) num * q * pow10(e) == p * den else num * q == p * den * pow10(-e)
  // and it is in [1,10] after as many steps as the argument has decimal places to move
  val right = (num >= den and num <= 10 * den) or steps < 6
  val soon = steps <= 6 and steps == mag(e)
  val correct = invariant_ and right and soon
}

// ---------------------------------------------------------------- sin, cos, tan: taking full turns off
module turns {
  // tan_begin takes whole multiples of pi off until the number is at most pi, and gives up
  // (NaN) at the third attempt; numbers are multiples of 1/U, pi is rounded to PI/U, and the
  // quotient x/pi is rounded: next below an integer it may come out as that integer
  pure val U = 1000
  pure val PI = 3142
  pure val E = 3
  var x: int
  var r: int
  var count: int
  action init = { nondet a = 0.to(12 * U).oneOf() all { x' = a, r' = a, count' = 0 } }
  pure def near(v: int): bool = (v / PI + 1) * PI - v <= E
  action step = any {
    all { r > PI, x' = x, r' = r - PI * (r / PI), count' = count + 1 },
    all { r > PI, near(r), x' = x, r' = r - PI * (r / PI + 1), count' = count + 1 },
    all { r <= PI, x' = x, r' = r, count' = count } }
  pure def mag(i: int): int = if (i < 0) -i else i
  val same = (x - r) % PI == 0
  // one reduction is enough, whichever way the quotient was rounded, and the rest is in
  // [-E, PI]: the series for small arguments sees nothing below the rounding error
  val once = count <= 1
  val small = r >= -E and (count == 1 implies r < PI)
  val correct = same and once and small
}
