// One call, many evaluations: by several compilers and optimisation levels, under two groups
// of language standards, in a constant expression and at run time, with traps on undefined
// behaviour.  The trace groups the evaluations of a call; the state is what is known about
// the current call.
//
// Configuration of an evaluation (8 bits of the record):
//   bit 7  it gave no value (not a constant expression; crashed; did not end)
//   bit 6  it is a constant expression
//   bit 5  under C++14 or later
module agree {
  import real.* from "./real"
  import fp.* from "./fp"
  import contract.* from "./contract"
  import record.* from "./record"
  import data.* from "./data"

  pure def failed(e: Event): bool = e.cfg / 128 == 1
  pure def static(e: Event): bool = e.cfg / 64 % 2 == 1
  pure def class(e: Event): int = e.cfg / 32 % 2

  // ------------------------------------------------------------ C28
  // calls nothing is promised about: the result overflows an integral type, or a
  // combinatorial function is called outside its domain
  pure def exempt(k: Call): bool = and {
    k.fn == ABS or k.fn == GCD or k.fn == LCM or k.fn == BINOMIAL
      or (k.fn == FACTORIAL and isInt(k.A)) or (k.fn == POW and isInt(k.A) and isInt(k.B)),
    judge({ ...k, R: resultType(k.fn, k.A, k.B, k.C) }).p == 0 }

  // ------------------------------------------------------------ C02
  // Which calls have to be constant expressions: those with a finite result, none of whose
  // arguments is extreme.
  pure def moderate(x: Num, t: int): bool =
    isZero(x) or (isFin(x) and dle(dy(1, -60), dabs(x.v)) and dle(dabs(x.v), dy(1, 60)))
  pure def overIntegers(k: Call): bool = isInt(k.A) and (k.fn <= 15 or (k.fn == POW and isInt(k.B)))
  pure def shaped(x: Num): bool = isFin(x) and dle(dy(1, -2), x.v) and dle(x.v, di(256))
  pure def domain(k: Call): bool =
    if (k.fn == TGAMMA or k.fn == FACTORIAL) isFin(k.a) and dle(di(-100), k.a.v)
    else if (k.fn == BINOMIAL) dle(k.a.v, di(60)) and not(exempt(k))
    else if (k.fn == INCGAMMAINV) shaped(k.a) and unitP(k.b)
    else if (k.fn == INCBETAINV) shaped(k.a) and shaped(k.b) and unitP(k.c)
    else if (k.fn == INCBETA) shaped(k.a) and shaped(k.b)
    else if (k.fn == INCGAMMA) shaped(k.a)
    else not(exempt(k))
  // a zero may be what is left of a number too small
  pure def mayVanish(fn: int): bool =
    Set(POW, EXP, TGAMMA, FACTORIAL, BETA, INCGAMMA, INCBETA, INCGAMMAINV, INCBETAINV).contains(fn)
  pure def ordinary(k: Call): bool =
    isInt(k.R) or (isZero(k.r) and not(mayVanish(k.fn))) or (isFin(k.r) and not(tiny(k.r, k.R)))
  pure def due(k: Call): bool = and {
    overIntegers(k) or (moderate(k.a, k.A) and moderate(k.b, k.B) and moderate(k.c, k.C)),
    domain(k), ordinary(k) }

  // ------------------------------------------------------------ the call being followed
  type Known = { raw: int, seen: int -> bool, bits: int -> int, R: int -> int, k: int -> Call }
  pure val NOCALL: Call = { fn: 0, A: NONE, B: NONE, C: NONE, R: NONE, a: decode(0, NONE), b: decode(0, NONE), c: decode(0, NONE), r: decode(0, NONE) }
  pure def fresh(raw: int): Known =
    { raw: raw, seen: Map(0 -> false, 1 -> false), bits: Map(0 -> 0, 1 -> 0), R: Map(0 -> 0, 1 -> 0), k: Map(0 -> NOCALL, 1 -> NOCALL) }
  // an evaluation at run time: the first of its class is what the others have to match
  pure def learn(s: Known, e: Event): Known =
    if (failed(e) or static(e) or s.seen.get(class(e))) s
    else { raw: s.raw, seen: s.seen.set(class(e), true), bits: s.bits.set(class(e), e.bits),
           R: s.R.set(class(e), e.k.R), k: s.k.set(class(e), e.k) }
  pure def agrees(s: Known, e: Event): bool =
    s.bits.get(class(e)) == e.bits and s.R.get(class(e)) == e.k.R
  pure def verdict(s: Known, e: Event): List[Verdict] =
    if (failed(e) and static(e))
      (if (not(s.seen.get(class(e)))) []
       else if (due(s.k.get(class(e)))) [at(2, BAD)] else [])
    else if (failed(e)) (if (exempt(e.k)) [] else [at(28, BAD)])
    else if (static(e)) (if (s.seen.get(class(e))) [at(2, yes(agrees(s, e)))] else [])
    else if (s.seen.get(class(e))) [at(3, yes(agrees(s, e))), at(28, 0)]
    else [at(28, 0)]

  var l: int
  var known: Known
  var judged: int -> int
  var worst: int -> int
  var bad: List[{ i: int, p: int, q: int }]
  type Acc = { s: Known, judged: int -> int, worst: int -> int, bad: List[{ i: int, p: int, q: int }] }
  pure def consume(acc: Acc, i: int, v: Verdict): Acc = { ...acc,
    judged: acc.judged.set(v.p, acc.judged.get(v.p) + 1),
    worst: if (v.q > acc.worst.get(v.p)) acc.worst.set(v.p, v.q) else acc.worst,
    bad: if (v.q > 1000 and (PROP == 0 or v.p == PROP)) acc.bad.append({ i: i, p: v.p, q: v.q }) else acc.bad }
  pure def observe(acc: Acc, i: int, e: Event): Acc = {
    val s = if (e.raw == acc.s.raw) acc.s else fresh(e.raw)
    verdict(s, e).foldl({ ...acc, s: learn(s, e) }, (a, v) => consume(a, i, v)) }
  action init = all {
    l' = 0, known' = fresh(-1), judged' = 0.to(31).mapBy(i => 0), worst' = 0.to(31).mapBy(i => 0), bad' = [] }
  action step = all {
    l < chunks.length(),
    val acc = range(0, sizes[l]).foldl({ s: known, judged: judged, worst: worst, bad: bad }, (acc, i) =>
      observe(acc, l * CHUNK + i, recordAt(chunks[l], i)))
    all { l' = l + 1, known' = acc.s, judged' = acc.judged, worst' = acc.worst, bad' = acc.bad } }
  val accepted = bad.length() == 0
}
