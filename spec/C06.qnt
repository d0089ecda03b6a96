// C06  Prandtl-Meyer function, its inverses, and isentropic turning.
module C06 {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"
  import machine.* from "./machine"

  // fields: 1 gamma, 2 input, 3 output
  pure def judgePM(v: int): str = clauses([
    (near(fd(v, 3), prandtlMeyer(fd(v, 1), fd(v, 2)), E9), "Prandtl-Meyer angle")])
  pure def judgeInv(v: int): str = clauses([
    (fin(fd(v, 3)) and fd(v, 3) >= S, "no supersonic Mach number for a turning angle"),
    (near(prandtlMeyer(fd(v, 1), fd(v, 3)), fd(v, 2), E6), "Mach number does not give back the Prandtl-Meyer angle")])
  pure def judgePMmu(v: int): str = clauses([
    (fin(fd(v, 3)) and fd(v, 3) >= S, "no supersonic Mach number for an angle omega-mu"),
    (near(prandtlMeyer(fd(v, 1), fd(v, 3)) - machAngle(fd(v, 3)), fd(v, 2), E8), "Mach number does not give back omega-mu")])
  // expansion (p2/p1 < 1) or compression: fields 1 gamma, 2 Mach, 3 p2/p1, 4 turning (omega2-omega1)
  pure def judgeTurn(v: int): str = {
    val g = fd(v, 1)
    val t2 = isenT(g, div(PtPs(g, fd(v, 2)), fd(v, 3)))
    val m2 = sqrt(div(2 * (t2 - S), g - S))
    clauses([
      (near(fd(v, 4), prandtlMeyer(g, m2) - prandtlMeyer(g, fd(v, 2)), E7), "turning of an isentropic pressure ratio"),
      (if (fd(v, 3) < S) fd(v, 4) > 0 else true, "expansion does not turn the flow away")])
  }
  // pressure ratio of a turning towards the flow (omega1-omega2): fields 1 gamma, 2 Mach, 3 dev, 4 p2/p1
  pure def judgePressure(v: int): str = {
    val g = fd(v, 1)
    if (not(fin(fd(v, 4)) and fd(v, 4) > 0)) "no pressure ratio for a turning angle"
    else {
      val t2 = isenT(g, div(PtPs(g, fd(v, 2)), fd(v, 4)))
      val m2 = sqrt(imax(0, div(2 * (t2 - S), g - S)))
      clauses([
        (m2 >= S - E6, "isentropic turning to a subsonic flow"),
        (near(prandtlMeyer(g, fd(v, 2)) - prandtlMeyer(g, imax(m2, S)), fd(v, 3), 2 * E6), "pressure ratio of an isentropic turning")])
    }
  }

  action Angle = all { on("PM"), consume(judgePM(w)) }
  action MachOfAngle = all { on("Inv"), consume(judgeInv(w)) }
  action MachOfOmegaMinusMu = all { on("PMmu"), consume(judgePMmu(w)) }
  action Turning = all { on("Turn"), consume(judgeTurn(w)) }
  action PressureOfTurning = all { on("Pressure"), consume(judgePressure(w)) }

  action init = start
  action step = any { Angle, MachOfAngle, MachOfOmegaMinusMu, Turning, PressureOfTurning }
  val inv = verdict == "ok"
}
