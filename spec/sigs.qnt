// Placeholder; every run generates its own (see client.qnt).
module sigs {
  pure val SIGS: List[{ fn: int, A: int, B: int, C: int }] = [
    { fn: 7, A: 0, B: 15, C: 15 }, { fn: 16, A: 1, B: 7, C: 15 }, { fn: 49, A: 2, B: 2, C: 2 }]
}
