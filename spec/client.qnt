// The client of the library: in every step it makes some call, of some function with some
// argument types, with arguments drawn from classes that matter for floating-point and
// integer code.  `quint run` turns behaviours of this module into ITF traces; the calls of
// a trace are replayed into the library, and the answers go to the trace specification.
module client {
  import real.* from "./real"
  import fp.* from "./fp"
  import sigs.* from "./sigs"   // generated: the signatures the recorder can call

  // the call being made: function, argument types, argument bits
  var call: { fn: int, A: int, B: int, C: int, a: int, b: int, c: int }
  var made: int

  // ------------------------------------------------------------ arguments
  pure def bias(t: int): int = emax(t) - 1
  // the float of type t with significand m in [2^(p-1), 2^p) and exponent e, or its
  // neighbour j places away; subnormal, zero or infinite beyond the ends
  pure def place(t: int, neg: bool, e: int, f: int, j: int): int = {
    val p = prec(t)
    // position in the ordered list of nonnegative floats
    val pos = (e + bias(t)) * 2^(p - 1) + f + j
    val top = (2 * emax(t) - 1) * 2^(p - 1)
    val q = if (pos < 0) 0 else if (pos > top) top else pos
    val b = if (t == F80) (if (q < 2^63) q else (q / 2^63) * 2^64 + 2^63 + q % 2^63) else q
    if (neg) b + (if (t == F32) 2^31 else if (t == F64) 2^63 else 2^79) else b }
  pure def ofDy(t: int, v: Dy, j: int): int = {
    val r = roundTo(v, t)
    if (r.v.m == 0) place(t, v.m < 0, -bias(t), 0, j)
    else if (isInf(r)) place(t, v.m < 0, emax(t), 0, 0)
    else {
      val e = dlog2(r.v)
      val f = if (e < emin(t)) 0 else dtrunc(dshift(dabs(r.v), prec(t) - 1 - e)) - 2^(prec(t) - 1)
      place(t, v.m < 0, e, f, j) } }
  pure def nanOf(t: int): int =
    if (t == F32) 0x7fc00000 else if (t == F64) 0x7ff8000000000000 else 0x7fffc000000000000000

  // ways of choosing a float: k the class, s the sign, e an exponent, f a fraction,
  // n a small number, j a step in units in the last place
  type Choice = { k: int, s: bool, e: int, f: int, n: int, j: int, w: int }
  pure def floatArg(t: int, c: Choice): int = {
    val p = prec(t)
    val f = c.f % 2^(p - 1)
    if (c.k == 0) place(t, c.s, c.e % 24 - 12, f, 0)                                // moderate
    else if (c.k == 1) place(t, c.s, c.e % (2 * emax(t)) - emax(t), f, 0)           // any magnitude
    else if (c.k == 2) place(t, c.s, c.e % (2 * emax(t)) - emax(t), 0, c.j)         // next to a power of two
    else if (c.k == 3) place(t, c.s, c.e % 40 - 20, 0, c.j)
    else if (c.k == 4) ofDy(t, dy(if (c.s) -c.n else c.n, -1), c.j)                 // next to n/2
    else if (c.k == 5) ofDy(t, di(if (c.s) -c.n else c.n), c.j)                     // next to n
    else if (c.k == 6) place(t, c.s, 0, 0, if (c.s) c.j * (c.n + 1) else c.j * 2^(c.e % p)) // next to one
    else if (c.k == 7) place(t, c.s, emax(t), 0, if (c.n % 3 == 0) 0 else -iabs(c.j))  // infinite, largest
    else if (c.k == 8) place(t, c.s, if (c.n % 2 == 0) emin(t) else -bias(t), 0, c.j)  // smallest, zero
    else if (c.k == 9) (if (c.n % 8 == 0) nanOf(t) else place(t, c.s, -bias(t), 0, 0))
    else if (c.k == 10) place(t, c.s, c.e % 8 - 5, f - f % 2^(p - 1 - imin(p - 1, c.n % 12)), 0)     // few bits
    else if (c.k == 12) {                                                           // next to a power of ten
      val q = 10^(if (c.e % 3 == 0) c.n % 30 else (c.n * 17) % (emax(t) * 3 / 10))
      val d = if (c.f % 2 == 0) di(q) else ddiv(D1, di(q))
      ofDy(t, if (c.s) dneg(d) else d, c.j) }
    else place(t, c.s, c.e % p, f, 0) }                                             // integral and fractional part
  pure def intArg(t: int, c: Choice): int = {
    val w = width(t)
    val v = if (c.k < 5) c.n % 64 else if (c.k < 7) c.f else if (c.k < 10) 2^(c.e % w) + c.j else c.f % 2^(1 + c.e % w)
    val x = if (c.s) -v else v
    val y = if (c.k == 7) (if (c.s) intMin(t) + iabs(c.j) else intMax(t) - iabs(c.j)) else x
    val m = 2^w
    y - m * fdiv(y, m) }
  pure def arg(t: int, c: Choice): int =
    if (t == NONE) 0 else if (isFloat(t)) floatArg(t, c) else intArg(t, c)

  pure def nextToOne(t: int, u: int, n: int, c: Choice): int = {
    val m = iabs(if (not(isUnsigned(u)) and n >= 2^(width(u) - 1)) n - 2^width(u) else n)
    val d = dshift(dy(c.f + 1, -63), c.n % 12 - bits(m))
    val x = if (c.j < 0) ddiv(D1, dadd(D1, d)) else dadd(D1, d)
    ofDy(t, if (c.s) dneg(x) else x, 0) }

  pure val CLASSES = 0.to(12)
  pure val BOOLS = Set(false, true)
  pure val EXPS = 0.to(65535)
  pure val FRACS = 0.to(2^63 - 1)
  pure val SMALL = 0.to(400)
  pure val STEPS = (-3).to(3)

  action init = all { call' = { fn: 0, A: NONE, B: NONE, C: NONE, a: 0, b: 0, c: 0 }, made' = 0 }
  action step = {
    nondet i = 0.to(SIGS.length() - 1).oneOf()
    nondet k1 = CLASSES.oneOf()
    nondet s1 = BOOLS.oneOf()
    nondet e1 = EXPS.oneOf()
    nondet f1 = FRACS.oneOf()
    nondet n1 = SMALL.oneOf()
    nondet j1 = STEPS.oneOf()
    nondet k2 = CLASSES.oneOf()
    nondet s2 = BOOLS.oneOf()
    nondet e2 = EXPS.oneOf()
    nondet f2 = FRACS.oneOf()
    nondet n2 = SMALL.oneOf()
    nondet j2 = STEPS.oneOf()
    nondet k3 = CLASSES.oneOf()
    nondet e3 = EXPS.oneOf()
    nondet f3 = FRACS.oneOf()
    nondet same = 0.to(9).oneOf()
    val sig = SIGS[i]
    val c1 = { k: k1, s: s1, e: e1, f: f1, n: n1, j: j1, w: 0 }
    // now and then the second argument is next to the first
    val c2 = if (same == 0) { k: k1, s: s2, e: e1, f: f1, n: n1, j: j2, w: 0 }
             else { k: k2, s: s2, e: e2, f: f2, n: n2, j: j2, w: 0 }
    val c3 = { k: k3, s: false, e: e3, f: f3, n: n1 + n2, j: j2, w: 0 }
    val second = arg(sig.B, c2)
    // the powers of a number next to one stay in range
    val first = if (sig.fn == 16 and same < 6 and isFloat(sig.A) and isInt(sig.B)) nextToOne(sig.A, sig.B, second, c1)
                else arg(sig.A, c1)
    all {
      call' = { fn: sig.fn, A: sig.A, B: sig.B, C: sig.C,
                a: first, b: second, c: arg(sig.C, c3) },
      made' = made + 1 } }

  // every call the client makes is well formed: its bits decode to a number of the type
  val wellFormed =
    call.fn == 0 or and {
      call.a < 2^80, call.b < 2^80, call.c < 2^80,
      isInt(call.A) implies call.a < 2^width(call.A),
      isInt(call.B) implies call.b < 2^width(call.B) }
}
