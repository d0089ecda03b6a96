// The part of the state every specification shares: how much of the recorded
// behaviour is consumed, the first clause that failed, and the listed
// deviations (known findings) the behaviour needed.
module machine {
  import trace.* from "./trace"
  import data.* from "./data"

  var l: int
  var verdict: str
  var known: Set[str]

  action start: bool = all { l' = 0, verdict' = "ok", known' = Set() }
  // the next recorded event is an `op`
  pure def isOp(i: int, op: str): bool = i < N and evAt(i)._1 == op
  action on(op: str): bool = all { l < N, verdict == "ok", evAt(l)._1 == op }
  def w: int = evAt(l)._2
  action consume(v: str): bool = all { l' = l + 1, verdict' = orElse(flagVerdict(flags(w)), v), known' = known }
  // as consume; `dev` names a deviation the event shows ("" if none)
  action consumeDev(v: str, dev: str): bool = all {
    l' = l + 1,
    verdict' = orElse(flagVerdict(flags(w)), if (dev != "" and KNOWN.contains(dev)) "ok" else v),
    known' = if (dev != "" and KNOWN.contains(dev)) known.union(Set(dev)) else known }
}
