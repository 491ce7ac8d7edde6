// Placeholder; every run generates its own (see types.qnt).
module typedata {
  pure val fns: List[int] = []
  pure val tables: List[int] = []
  pure val sizes: List[int] = []
}
