// C02  Mass flow of a sonic-throat stream tube: A/A*, the mass flow weight, and
// the subsonic and supersonic Mach numbers of a section.
module C02 {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"
  import machine.* from "./machine"

  // Mach numbers closer than this to 1 belong to both branches (double root)
  pure val SONIC = E4
  pure def residual(g: int, m: int, s: int): bool = {
    // absolute tolerance of the iteration (1.5e-8 on Mach) seen through d sigma / d M
    val tol = E7 + div(4 * E8, imin(m, S))
    near(sigma(g, m), s, mul(tol, imax(s, S)))
  }
  // fields: 1 gamma, 2 input, 3 output
  pure def judgeSigma(v: int): str = clauses([
    (close(fd(v, 3), sigma(fd(v, 1), fd(v, 2)), E11), "A/A* is not the isentropic area ratio")])
  pure def judgeWeight(v: int): str = clauses([
    (near(fd(v, 2), 0, 0) and near(fd(v, 3), 0, 0) or close(fd(v, 3), weight(fd(v, 1), fd(v, 2)), E11), "mass flow per unit area is not rho V of the isentropic flow")])
  pure def judgeSub(v: int): str = clauses([
    (fin(fd(v, 3)) and fd(v, 3) > 0, "no subsonic Mach number"),
    (fd(v, 3) <= S + SONIC, "subsonic Mach number above 1"),
    (residual(fd(v, 1), fd(v, 3), fd(v, 2)), "subsonic Mach number does not give back A/A*")])
  pure def judgeSup(v: int): str = clauses([
    (fin(fd(v, 3)), "no supersonic Mach number"),
    (fd(v, 3) >= S - SONIC, "supersonic Mach number below 1"),
    (residual(fd(v, 1), fd(v, 3), fd(v, 2)), "supersonic Mach number does not give back A/A*")])
  // fields: 1 gamma, 2 A/A*, 3 Mach indicating the branch, 4 output
  pure def judgeGuess(v: int): str = clauses([
    (fin(fd(v, 4)) and fd(v, 4) > 0, "no Mach number"),
    (if (fd(v, 3) > S) fd(v, 4) >= S - SONIC else fd(v, 4) <= S + SONIC, "Mach number on the other branch than asked"),
    (residual(fd(v, 1), fd(v, 4), fd(v, 2)), "Mach number does not give back A/A*")])
  // fields: 1 gamma, 2 Mach, 3 A/A* from the code, 4 weight from the code, 5 weight at Mach 1 from the code
  pure def judgeConserved(v: int): str = clauses([
    (close(mul(fd(v, 3), fd(v, 4)), fd(v, 5), E11), "mass flow is not conserved between a section and its throat"),
    (fd(v, 3) >= S - E12, "A/A* below 1"),
    (fd(v, 4) <= fd(v, 5) + E12, "mass flow above the choked mass flow")])

  action AreaRatio = all { on("Sigma"), consume(judgeSigma(w)) }
  action Weight = all { on("Weight"), consume(judgeWeight(w)) }
  action SubsonicMach = all { on("Sub"), consume(judgeSub(w)) }
  action SupersonicMach = all { on("Sup"), consume(judgeSup(w)) }
  action MachNearGuess = all { on("Guess"), consume(judgeGuess(w)) }
  action Conserved = all { on("Cons"), consume(judgeConserved(w)) }

  action init = start
  action step = any { AreaRatio, Weight, SubsonicMach, SupersonicMach, MachNearGuess, Conserved }
  val inv = verdict == "ok"
}
