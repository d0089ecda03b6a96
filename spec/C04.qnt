// C04  Plane oblique shock: deflection, weak and strong shock angles, limits.
module C04 {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"
  import machine.* from "./machine"

  // recorded deflection against the law; slope: degrees
  // fields: 1 gamma, 2 Mach, 3 sigma, 4 deflection
  pure def judgeDefl(v: int): str = clauses([
    (near(fd(v, 4), deflection(fd(v, 1), fd(v, 2), fd(v, 3)), E8), "deflection is not the one of conserved tangential velocity"),
    (fd(v, 4) >= -E8, "flow turned away from the shock")])
  // shock given by its pressure ratio. fields: 1 gamma, 2 Mach, 3 pressure ratio, 4 deflection, 5 downstream Mach
  pure def mnOfP(g: int, pr: int): int = sqrt(S + mul(pr - S, div(g + S, 2 * g)))
  pure def judgePr(v: int): str = {
    val g = fd(v, 1)
    val mn = mnOfP(g, fd(v, 3))
    val s = deg(asin(div(mn, fd(v, 2))))
    val tr = div(fd(v, 3), shockRho(g, mn))
    clauses([
      (near(fd(v, 4), deflection(g, fd(v, 2), s), E7), "deflection of a shock of given pressure ratio"),
      (fin(fd(v, 5)) and fd(v, 5) > 0, "no downstream Mach number"),
      (approx(sq(fd(v, 5)), machBehind2(g, fd(v, 2), tr), E8), "total temperature is not conserved by the downstream Mach number")])
  }
  // shock angle of a deflection. fields: 1 gamma, 2 Mach, 3 deflection, 4 sigma
  pure def weakOk(g: int, m: int, d: int, s: int, tol: int): str = clauses([
    (fin(s), "no shock angle"),
    (s <= sigmaDevMax(g, m) + E3 and s >= machAngle(m) - E3, "shock angle not on the weak branch"),
    (near(deflection(g, m, s), d, tol), "weak shock angle does not give back the deflection")])
  pure def judgeWeak(v: int): str = weakOk(fd(v, 1), fd(v, 2), fd(v, 3), fd(v, 4), E7)
  pure def judgeStrong(v: int): str = clauses([
    (fin(fd(v, 4)), "no shock angle"),
    (fd(v, 4) >= sigmaDevMax(fd(v, 1), fd(v, 2)) - E3 and fd(v, 4) <= r(90) + E9, "shock angle not on the strong branch"),
    (near(deflection(fd(v, 1), fd(v, 2), fd(v, 4)), fd(v, 3), E7), "strong shock angle does not give back the deflection")])
  // iterative solution, deflection to the left (>0) or to the right (<0)
  pure def judgeIter(v: int): str = clauses([
    (fin(fd(v, 4)), "no shock angle"),
    (if (fd(v, 3) < 0) fd(v, 4) <= 0 else fd(v, 4) >= 0, "shock on the other side than the deflection"),
    (weakOk(fd(v, 1), fd(v, 2), iabs(fd(v, 3)), iabs(fd(v, 4)), 5 * E6) == "ok",
      weakOk(fd(v, 1), fd(v, 2), iabs(fd(v, 3)), iabs(fd(v, 4)), 5 * E6))])
  // started from a given angle: whichever branch
  pure def judgeIterInit(v: int): str = clauses([
    (fin(fd(v, 5)), "no shock angle"),
    (near(deflection(fd(v, 1), fd(v, 2), fd(v, 5)), fd(v, 3), 5 * E6), "shock angle does not give back the deflection")])
  // limits. fields: 1 gamma, 2 Mach, 3 sigma_DevMax, 4 dev_Max, 5 sigma_Sonic, 6 dev_Sonic
  pure def judgeLimits(v: int): str = {
    val g = fd(v, 1)
    val m = fd(v, 2)
    val mn = mul(m, sind(fd(v, 5)))
    if (not(fin(fd(v, 3)) and fin(fd(v, 4)) and fin(fd(v, 5)) and fin(fd(v, 6)))) "a limit is not a number"
    else clauses([
      (near(fd(v, 3), sigmaDevMax(g, m), E6), "shock angle of maximum deflection"),
      (near(fd(v, 4), deflection(g, m, sigmaDevMax(g, m)), E7), "maximum deflection"),
      (approx(machBehind2(g, m, div(shockP(g, mn), shockRho(g, mn))), S, E7), "flow behind the sonic shock angle is not sonic"),
      (near(fd(v, 6), deflection(g, m, fd(v, 5)), E7), "deflection of the sonic shock angle"),
      (fd(v, 6) <= fd(v, 4) + E8 and fd(v, 5) <= fd(v, 3) + E6, "sonic point beyond the maximum deflection")])
  }
  // fields: 1 gamma, 2 Mach, 3 deflection, 4 weak, 5 strong, 6 iterative
  pure def judgeBranches(v: int): str = clauses([
    (fin(fd(v, 4)) and fin(fd(v, 5)) and fin(fd(v, 6)), "no shock angle"),
    (fd(v, 4) <= fd(v, 5) + E6, "weak shock angle above the strong one"),
    (near(fd(v, 4), fd(v, 6), E3), "closed form and iterative shock angles differ")])

  // no attached shock turns the flow that much: a wave that does not turn it at all is returned. 
  // fields: 1 gamma, 2 Mach, 3 deflection, 4 weak, 5 strong
  pure def judgeDetached(v: int): str = clauses([
    (fd(v, 3) > deflection(fd(v, 1), fd(v, 2), sigmaDevMax(fd(v, 1), fd(v, 2))), "DRIVER: attached"),
    (fin(fd(v, 4)) and fin(fd(v, 5)), "no shock angle"),
    (near(fd(v, 4), machAngle(fd(v, 2)), E7), "detached shock: the weak solution is not the Mach wave"),
    (near(fd(v, 5), r(90), E8), "detached shock: the strong solution is not the normal shock")])

  action Deflection = all { on("Defl"), consume(judgeDefl(w)) }
  action PressureRatio = all { on("Pr"), consume(judgePr(w)) }
  action WeakAngle = all { on("Weak"), consume(judgeWeak(w)) }
  action StrongAngle = all { on("Strong"), consume(judgeStrong(w)) }
  action IterativeAngle = all { on("Iter"), consume(judgeIter(w)) }
  action IterativeAngleFrom = all { on("IterInit"), consume(judgeIterInit(w)) }
  action Limits = all { on("Limits"), consume(judgeLimits(w)) }
  action DetachedShock = all { on("Detached"), consume(judgeDetached(w)) }
  action Branches = all { on("Branches"), consume(judgeBranches(w)) }

  action init = start
  action step = any { Deflection, PressureRatio, WeakAngle, StrongAngle, IterativeAngle, IterativeAngleFrom, Limits, DetachedShock, Branches }
  val inv = verdict == "ok"
}
