// stub: a check replaces this file by the behaviour it recorded
module data {
  pure val KNOWN: Set[str] = Set()
  pure val TT: List[List[(str, int)]] = []
  pure val N: int = 0
}
