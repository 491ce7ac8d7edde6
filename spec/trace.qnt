// Trace validation: the recorded calls, in order, must be behaviours the contract allows.
// The trace is split into chunks; a step consumes one chunk.
module trace {
  import fp.* from "./fp"
  import contract.* from "./contract"
  import record.* from "./record"
  import data.* from "./data"

  // position in the trace; calls judged and greatest use of the tolerance, by property;
  // rejected calls, as (position, property, use)
  var l: int
  var judged: int -> int
  var worst: int -> int
  var peak: int -> int          // position of the call that used the most
  var bad: List[{ i: int, p: int, q: int }]

  type Acc = { judged: int -> int, worst: int -> int, peak: int -> int, bad: List[{ i: int, p: int, q: int }] }
  // C05 also owns rejected infinities and NaNs wherever they occur: they have no other place
  pure def claim(v: Verdict, k: Call): Verdict =
    if (PROP == 5 and v.q > 1000 and v.p > 5 and isFloat(k.R) and not(isFin(k.r))) at(5, v.q) else v
  pure def consume(acc: Acc, i: int, v: Verdict): Acc = {
    judged: acc.judged.set(v.p, acc.judged.get(v.p) + 1),
    worst: if (v.q > acc.worst.get(v.p)) acc.worst.set(v.p, v.q) else acc.worst,
    peak: if (v.q > acc.worst.get(v.p)) acc.peak.set(v.p, i) else acc.peak,
    bad: if (v.q > 1000 and (PROP == 0 or v.p == PROP)) acc.bad.append({ i: i, p: v.p, q: v.q }) else acc.bad }

  action init = all {
    l' = 0,
    judged' = 0.to(31).mapBy(i => 0),
    worst' = 0.to(31).mapBy(i => 0),
    peak' = 0.to(31).mapBy(i => -1),
    bad' = [] }
  action step = all {
    l < chunks.length(),
    val acc = range(0, sizes[l]).foldl({ judged: judged, worst: worst, peak: peak, bad: bad }, (acc, i) =>
      consume(acc, l * CHUNK + i, {
        val k = recordAt(chunks[l], i).k
        claim(judge(k), k) }))
    all { l' = l + 1, judged' = acc.judged, worst' = acc.worst, peak' = acc.peak, bad' = acc.bad } }
  // every call so far is one the contract allows
  val accepted = bad.length() == 0
}
