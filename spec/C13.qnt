// C13  Regimes of a converging-diverging nozzle: the limits between regimes and
// the exit and adapted Mach numbers inside each of them.
module C13 {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"
  import machine.* from "./machine"
  import nozzlelaw.* from "./nozzlelaw"

  pure val G = q(14, 10)
  var noz: Noz

  // 1 As/Ac, 2 choked subsonic, 3 shock at exit, 4 choked supersonic
  pure def nozOf(v: int): Noz = { a: fd(v, 1), n0: fd(v, 2), nsw: fd(v, 3), n1: fd(v, 4) }
  // 1 NPR, 2 exit Mach, 3 Mach of the jet adapted to the ambient pressure
  pure def judgeFlow(n: Noz, v: int): str = {
    val npr = fd(v, 1)
    clauses([
      (exitOk(G, n, npr, fd(v, 2)), "the exit Mach number is not the one of this regime"),
      (jetOk(G, n, npr, fd(v, 3)), "the Mach number adapted to the ambient pressure is not the one of this regime"),
      (npr > n.nsw or about(npr, n.nsw) or approx(fd(v, 2), fd(v, 3), E9), "the exit is subsonic but not adapted to the ambient pressure"),
      // at most the Mach number of an isentropic expansion
      (fd(v, 3) <= machOf(G, npr) + E6, "the jet is faster than an isentropic expansion to the ambient pressure")])
  }

  action Limits = all { on("Limits"), consume(judgeLimits(G, nozOf(w))), noz' = nozOf(w) }
  action Flow = all { on("Flow"), consume(judgeFlow(noz, w)), noz' = noz }
  action init = all { start, noz' = { a: S, n0: S, nsw: S, n1: S } }
  action step = any { Limits, Flow }
  val inv = verdict == "ok"
}
