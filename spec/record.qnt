// How recorded calls are laid out in the trace: one number per chunk of records.
//   fn 8 | cfg 8 | A B C R 4 each | a 80 | b 80 | c 80 | r 80     (352 bits)
module record {
  import fp.* from "./fp"
  import contract.* from "./contract"

  pure val W = 352
  type Event = { cfg: int, bits: int, raw: int, k: Call }
  pure def recordAt(chunk: int, i: int): Event = {
    val w = chunk / 2^(W * i) % 2^W
    val r = w % 2^80
    val c = w / 2^80 % 2^80
    val b = w / 2^160 % 2^80
    val a = w / 2^240 % 2^80
    val R = w / 2^320 % 16
    val C = w / 2^324 % 16
    val B = w / 2^328 % 16
    val A = w / 2^332 % 16
    // raw: the call without its configuration, result and the type of that
    { cfg: w / 2^336 % 256, bits: r, raw: (w / 2^344) * 2^252 + (w / 2^324 % 2^12) * 2^240 + w / 2^80 % 2^240,
      k: { fn: w / 2^344, A: A, B: B, C: C, R: R,
           a: decode(a, A), b: decode(b, B), c: decode(c, C), r: decode(r, R) } } }
}
