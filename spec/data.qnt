// Placeholder; every run generates its own (see trace.qnt).
module data {
  pure val CHUNK = 100
  pure val PROP = 0
  pure val chunks: List[int] = []
  pure val sizes: List[int] = []
}
