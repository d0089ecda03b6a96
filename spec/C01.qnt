// C01  Isentropic relations, their inverses, and the velocity of a flow.
module C01 {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"
  import machine.* from "./machine"

  // fields: 1 gamma, 2 input, 3 output
  pure def g(v: int): int = fd(v, 1)
  pure def x(v: int): int = fd(v, 2)
  pure def y(v: int): int = fd(v, 3)

  pure def judgeTtTs(v: int): str = clauses([
    (close(y(v), TtTs(g(v), x(v)), E12), "energy: Tt/Ts is not 1+(gamma-1)/2 M^2")])
  pure def judgePtPs(v: int): str = clauses([
    (close(y(v), PtPs(g(v), x(v)), E11), "isentropic: Pt/Ps is not (Tt/Ts)^(gamma/(gamma-1))")])
  pure def judgeInvT(v: int): str = clauses([
    (fin(y(v)) and y(v) >= 0, "Mach from Tt/Ts is not a non-negative number"),
    (close(TtTs(g(v), y(v)), x(v), E12), "Mach from Tt/Ts is not the inverse of Tt/Ts")])
  pure def judgeInvP(v: int): str = clauses([
    (fin(y(v)) and y(v) >= 0, "Mach from Pt/Ps is not a non-negative number"),
    (close(PtPs(g(v), y(v)), x(v), E11), "Mach from Pt/Ps is not the inverse of Pt/Ps")])
  // velocity: fields 1 r, 2 gamma, 3 Mach, 4 Tt, 5 V
  pure def judgeVel(v: int): str = {
    val ts = div(fd(v, 4), TtTs(fd(v, 2), fd(v, 3)))
    clauses([
      (fin(fd(v, 5)) and fd(v, 5) >= 0, "velocity is not a non-negative number"),
      (close(sq(fd(v, 5)), mul(sq(fd(v, 3)), mul(mul(fd(v, 2), fd(v, 1)), ts)), E11),
        "velocity is not Mach times the local speed of sound")])
  }

  action StagnationTemperature = all { on("TtTs"), consume(judgeTtTs(w)) }
  action StagnationPressure = all { on("PtPs"), consume(judgePtPs(w)) }
  action MachOfTemperature = all { on("InvT"), consume(judgeInvT(w)) }
  action MachOfPressure = all { on("InvP"), consume(judgeInvP(w)) }
  action Velocity = all { on("Vel"), consume(judgeVel(w)) }

  action init = start
  action step = any { StagnationTemperature, StagnationPressure, MachOfTemperature, MachOfPressure, Velocity }
  val inv = verdict == "ok"
}
