// The Gauss-Legendre tables: the recorded entries, in order, must be the nodes and weights
// of the n-point rule on [-1,1].
//
// A node x is a zero of the Legendre polynomial P_n, its weight 2 / ((1-x^2) P_n'(x)^2).
// The model walks through the entries, evaluating P_n exactly enough by its three-term
// recurrence; then it walks through the monomials and integrates each with the rule.
module tables {
  import real.* from "./real"
  import tabledata.* from "./tabledata"

  // entries are 80-bit floats (see fp.qnt), here as integers scaled by 2^SH
  pure val SH = 200
  pure val U = 2^200
  pure def fixed(b: int): int = {
    val f = b % 2^64
    val e = b / 2^64 % 2^15
    val m = if (e == 0 or e == 32767) 0 else if (e - 16446 + SH >= 0) f * 2^(e - 16446 + SH) else f / 2^(16446 - SH - e)
    if (b / 2^79 == 1) -m else m }
  pure def mul(a: int, b: int): int = fdiv(a * b, U)

  // P_n(x) and P_{n-1}(x), n >= 1
  pure def legendre(n: int, x: int): { p: int, q: int } =
    range(2, n + 1).foldl({ p: x, q: U }, (s, k) =>
      { p: fdiv((2 * k - 1) * mul(x, s.p) - (k - 1) * s.q, k), q: s.p })
  // (1-x^2) P_n'(x) = n (P_{n-1} - x P_n)
  pure def weight(n: int, x: int): int = {
    val s = legendre(n, x)
    val d = n * (s.q - mul(x, s.p))
    fdiv(2 * mul(U - mul(x, x), U) * U, mul(d, d)) }
  pure def sg(a: int): int = if (a > 0) 1 else if (a < 0) -1 else 0
  // x is within a relative 2^-61 of a zero of P_n
  pure def isNode(n: int, x: int): bool = {
    val d = iabs(x) / 2^61 + 1
    iabs(x) < U and sg(legendre(n, x - d).p) * sg(legendre(n, x + d).p) <= 0 }
  // the weight formula has a condition of order n^2: relative 2^-50 covers the rounding of x
  pure def isWeight(n: int, x: int, w: int): bool = {
    val t = weight(n, x)
    w > 0 and iabs(w - t) <= t / 2^50 }
  pure val TOL = U / 2^58

  type Rule = { n: int, x: List[int], w: List[int] }
  pure def rule(i: int): Rule = {
    n: nodes[i].length(),
    x: range(0, nodes[i].length()).foldl([], (a, j) => a.append(fixed(nodes[i][j]))),
    w: range(0, weights[i].length()).foldl([], (a, j) => a.append(fixed(weights[i][j]))) }

  var t: int                 // the table
  var k: int                 // the entry, then n + degree of the monomial
  var cur: Rule
  var powers: List[int]      // x^degree for every node
  var ok: bool
  pure def ones(r: Rule): List[int] = range(0, r.n).foldl([], (a, j) => a.append(U))
  action init = all { t' = 0, k' = 0, cur' = rule(0), powers' = ones(rule(0)), ok' = true }

  action checkEntry = all {
    t < nodes.length(), k < cur.n,
    ok' = and {
      cur.w.length() == cur.n, cur.n == points[t],
      isNode(cur.n, cur.x[k]), isWeight(cur.n, cur.x[k], cur.w[k]),
      // its mirror image is in the table, with the same weight, and no other entry is equal
      range(0, cur.n).foldl(0, (s, j) => if (cur.x[j] == -cur.x[k] and cur.w[j] == cur.w[k]) s + 1 else s) == 1,
      range(0, cur.n).foldl(0, (s, j) => if (cur.x[j] == cur.x[k]) s + 1 else s) == 1 },
    k' = k + 1, t' = t, cur' = cur, powers' = powers }
  action checkMoment = all {
    t < nodes.length(), k >= cur.n, k <= 3 * cur.n - 1,
    val d = k - cur.n
    val s = range(0, cur.n).foldl(0, (a, j) => a + mul(cur.w[j], powers[j]))
    val exact = if (d % 2 == 1) 0 else fdiv(2 * U, d + 1)
    ok' = (iabs(s - exact) <= TOL),
    powers' = range(0, cur.n).foldl([], (a, j) => a.append(mul(powers[j], cur.x[j]))),
    k' = k + 1, t' = t, cur' = cur }
  action nextTable = all {
    t < nodes.length(), k == 3 * cur.n,
    t' = t + 1, k' = 0, ok' = true,
    cur' = if (t + 1 < nodes.length()) rule(t + 1) else cur,
    powers' = if (t + 1 < nodes.length()) ones(rule(t + 1)) else powers }
  action step = any { checkEntry, checkMoment, nextTable }
  val accepted = ok
}
