// C03  Normal shock: conservation of mass, momentum and energy, second law, inverses.
module C03 {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"
  import machine.* from "./machine"

  // fields: 1 gamma, 2 Mn, 3 Ps ratio, 4 Rho ratio, 5 Ts ratio, 6 downstream Mn, 7 Pt ratio
  pure def judgeShock(v: int): str = {
    val g = fd(v, 1)
    val m = fd(v, 2)
    val pr = fd(v, 3)
    val rr = fd(v, 4)
    val tr = fd(v, 5)
    val m2 = fd(v, 6)
    val pt = fd(v, 7)
    if (not([3, 4, 5, 6, 7].select(k => not(fin(fd(v, k)) and fd(v, k) > 0)).length() == 0)) "a ratio is not a positive number"
    else clauses([
      (close(pr, mul(rr, tr), E11), "state: Ps ratio is not Rho ratio times Ts ratio"),
      (massOk(m, m2, pr, rr, E10), "mass is not conserved across the shock"),
      (momentumOk(g, m, m2, pr, E10), "momentum is not conserved across the shock"),
      (energyOk(g, m, m2, tr, E10), "energy is not conserved across the shock"),
      (close(mul(pt, PtPs(g, m)), mul(pr, PtPs(g, m2)), E10), "total pressure ratio is not the one of the two states"),
      (pr >= S - E11 and rr >= S - E11 and m2 <= S + E11, "the shock is not a compression to subsonic flow"),
      (pt <= S + E11 and entropyJump(g, pr, rr) >= -E9, "entropy decreases across the shock"),
      (rr <= div(g + S, g - S) + E11, "density ratio above its limit")])
  }
  // fields: 1 gamma, 2 pressure ratio, 3 Mn
  pure def judgeInvP(v: int): str = clauses([
    (fin(fd(v, 3)) and fd(v, 3) >= 0, "no Mach number for a pressure ratio"),
    (close(shockP(fd(v, 1), fd(v, 3)), fd(v, 2), E11), "Mach number does not give back the static pressure ratio")])
  // fields: 1 gamma, 2 total pressure ratio, 3 Mn: monotone, so bracketed
  pure def judgeInvPt(v: int): str = {
    val g = fd(v, 1)
    val m = fd(v, 3)
    if (not(fin(m) and m > S)) "no supersonic Mach number for a total pressure ratio"
    else {
      val lo = m - mul(m, 2 * E5)
      val hi = m + mul(m, 2 * E5)
      clauses([(shockPt(g, imax(lo, S)) >= fd(v, 2) - E12 and shockPt(g, hi) <= fd(v, 2) + E12,
        "Mach number does not give back the total pressure ratio")])
    }
  }
  // two shocks, the second stronger: fields 1 gamma, 2 Mn, 3 Mn', then both Ps, Rho, M2, Pt ratios
  pure def judgeOrder(v: int): str = clauses([
    (fd(v, 5) > fd(v, 4) and fd(v, 7) > fd(v, 6), "a stronger shock compresses less"),
    (fd(v, 9) < fd(v, 8) and fd(v, 11) < fd(v, 10), "a stronger shock loses less total pressure")])

  action Shock = all { on("Shock"), consume(judgeShock(w)) }
  action MachOfPressureRatio = all { on("InvP"), consume(judgeInvP(w)) }
  action MachOfTotalPressureRatio = all { on("InvPt"), consume(judgeInvPt(w)) }
  action Stronger = all { on("Order"), consume(judgeOrder(w)) }

  action init = start
  action step = any { Shock, MachOfPressureRatio, MachOfTotalPressureRatio, Stronger }
  val inv = verdict == "ok"
}
