// The static side of the library: which type a call has, and that no call throws.
// The compiler's answers for every tuple of arithmetic types are the trace (typedata,
// generated); it is checked entry by entry.
module types {
  import typedata.* from "./typedata"

  // the arithmetic types
  pure val FLOAT = 0
  pure val DOUBLE = 1
  pure val LDOUBLE = 2
  pure val SCHAR = 3
  pure val UCHAR = 4
  pure val SHORT = 5
  pure val USHORT = 6
  pure val INT = 7
  pure val UINT = 8
  pure val LONG = 9
  pure val ULONG = 10
  pure val BOOL = 11
  pure val LLONG = 12
  pure val ULLONG = 13
  pure val CHAR = 14
  pure val NONE = 15
  pure val WCHAR = 16
  pure val CHAR16 = 17
  pure val CHAR32 = 18
  pure val ALL = 0.to(18).exclude(Set(NONE))
  pure val FLOATS = 0.to(2)
  pure val INTS = ALL.exclude(FLOATS)

  // [conv.rank] and size of the integer types (x86-64, where wchar_t is like int, char16_t
  // like unsigned short and char32_t like unsigned)
  pure def like(t: int): int = if (t == WCHAR) INT else if (t == CHAR16) USHORT else if (t == CHAR32) UINT else t
  pure def rank(u: int): int = {
    val t = like(u)
    if (t == BOOL) 0 else if (t == CHAR or t == SCHAR or t == UCHAR) 1
    else if (t == SHORT or t == USHORT) 2 else if (t == INT or t == UINT) 3
    else if (t == LONG or t == ULONG) 4 else 5 }
  pure def bytes(t: int): int =
    if (rank(t) <= 1) 1 else if (rank(t) == 2) 2 else if (rank(t) == 3) 4 else 8
  pure def unsigned(t: int): bool = Set(UCHAR, USHORT, UINT, ULONG, ULLONG, BOOL).contains(like(t))
  pure def toUnsigned(t: int): int = if (t == INT) UINT else if (t == LONG) ULONG else ULLONG
  // [conv.prom]
  pure def promote(t: int): int = if (FLOATS.contains(t)) t else if (rank(t) >= 3) like(t) else INT
  // [expr.arith.conv], the common type
  pure def arith(a: int, b: int): int =
    if (a == b) a
    else if (FLOATS.contains(a) or FLOATS.contains(b)) {
      if (FLOATS.contains(a) and FLOATS.contains(b)) (if (a > b) a else b)
      else if (FLOATS.contains(a)) a else b }
    else {
      val p = promote(a)
      val q = promote(b)
      val hi = if (rank(p) >= rank(q)) p else q
      val lo = if (rank(p) >= rank(q)) q else p
      if (p == q) p
      else if (unsigned(p) == unsigned(q)) hi
      else if (unsigned(hi)) hi                     // rank of the unsigned one not lower
      else if (rank(hi) == rank(lo)) lo
      else if (bytes(hi) > bytes(lo)) hi              // the signed one holds all values
      else toUnsigned(hi) }
  pure def common(a: int, b: int): int = if (a == NONE) b else if (b == NONE) a else arith(a, b)
  pure def common3(a: int, b: int, c: int): int = common(common(a, b), c)
  pure def real(t: int): int = if (INTS.contains(t)) DOUBLE else t

  // the functions, by what they return
  pure val SAME = Set(1, 4, 14)                     // abs copysign factorial: type of the first
  pure val COMMON = Set(5, 6, 12, 13, 15, 16)       // min max gcd lcm binomial_coef pow
  pure val ARITY1 = Set(1, 2, 3, 7, 8, 9, 10, 14, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,
                        33, 34, 35, 36, 37, 38, 39, 40, 45, 46)
  pure val ARITY3 = Set(49, 50)
  pure def arity(f: int): int = if (ARITY1.contains(f)) 1 else if (ARITY3.contains(f)) 3 else 2
  pure def typeOf(f: int, a: int, b: int, c: int): int =
    if (SAME.contains(f)) a
    else if (f == 2) INT
    else if (f == 3) BOOL
    else if (COMMON.contains(f)) common(a, b)
    else if (f == 43) real(a)
    else real(common3(a, b, c))

  // entry: fn 8 | A B C 5 each | R 8 | noexcept 8
  type Entry = { fn: int, A: int, B: int, C: int, R: int, n: int }
  pure def entry(w: int): Entry =
    { fn: w / 2^31, A: w / 2^26 % 32, B: w / 2^21 % 32, C: w / 2^16 % 32, R: w / 2^8 % 256, n: w % 256 }
  pure def holds(e: Entry): bool = e.R == typeOf(e.fn, e.A, e.B, e.C) and e.n == 1

  var l: int
  var seen: int
  var bad: List[int]
  // the tuple (fn, A, B, C) of an entry is the one due: none is left out
  pure def due(f: int, e: Entry): bool = and {
    e.fn == f, ALL.contains(e.A),
    if (arity(f) >= 2) ALL.contains(e.B) else e.B == NONE,
    if (arity(f) == 3) ALL.contains(e.C) else e.C == NONE }
  action init = all { l' = 0, seen' = 0, bad' = [] }
  action step = all {
    l < tables.length(),
    val es = range(0, sizes[l]).foldl([], (acc, i) => acc.append(entry(tables[l] / 2^(40 * i) % 2^40)))
    val n = arity(fns[l])
    all {
      // complete: every tuple once
      es.length() == 18^n,
      es.select(e => not(due(fns[l], e))).length() == 0,
      range(0, es.length()).foldl(Set(), (s, i) => s.union(Set((es[i].A * 32 + es[i].B) * 32 + es[i].C))).size() == es.length(),
      l' = l + 1,
      seen' = seen + es.length(),
      bad' = bad.concat(range(0, es.length()).foldl([], (acc, i) =>
        if (holds(es[i])) acc else acc.append(tables[l] / 2^(40 * i) % 2^40))) } }
  val accepted = bad.length() == 0

  // what the rules themselves guarantee
  run commonTest = assert(and {
    tuples(ALL, ALL).forall(((a, b)) => common(a, b) == common(b, a)),
    ALL.forall(a => common(a, a) == a),
    tuples(INTS, INTS).forall(((a, b)) => INTS.contains(common(a, b)) and bytes(common(a, b)) >= bytes(a)),
    tuples(FLOATS, ALL).forall(((a, b)) => FLOATS.contains(common(a, b))),
    tuples(ALL, ALL, ALL).forall(((a, b, c)) => real(common3(a, b, c)) == real(common3(c, a, b))),
    common(SHORT, USHORT) == INT, common(UINT, LONG) == LONG, common(ULONG, LLONG) == ULLONG, common(CHAR, CHAR) == CHAR,
    common(WCHAR, WCHAR) == WCHAR, common(WCHAR, SHORT) == INT, common(CHAR16, CHAR32) == UINT, common(WCHAR, CHAR32) == UINT, common(CHAR16, CHAR16) == CHAR16 })
}
