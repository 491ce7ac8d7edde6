// Placeholder; every run generates its own (see tables.qnt).
module tabledata {
  pure val points: List[int] = [1]
  pure val nodes: List[List[int]] = [[0]]
  pure val weights: List[List[int]] = [[0]]
}
