// C28  The legacy interfaces answer as documented: same laws with their own
// fixed default gas, same results as the modules they stand for.
module C28 {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"
  import machine.* from "./machine"

  pure val TOL = E11
  // Mach number from the pressure ratio of total to static
  pure def machOfP(g: int, p: int): int = sqrt(2 * div(isenT(g, p) - S, g - S))
  // 1 function, 2 gamma, 3-5 arguments, 6 result
  pure def law(f: int, g: int, a: int, b: int, c: int, x: int): bool = fin(x) and
    if (f == 0) close(x, TtTs(g, a), TOL)
    else if (f == 1) close(x, PtPs(g, a), TOL)
    else if (f == 2) approx(TtTs(g, x), a, TOL) and x >= 0
    else if (f == 3) approx(TtTs(g, x), isenT(g, a), TOL) and x >= 0
    else if (f == 4) approx(mul(sq(x), TtTs(g, a)), mul(mul(mul(g, c), b), sq(a)), TOL) and x >= 0
    else if (f == 5) near(x, prandtlMeyer(g, a), E9)
    else if (f == 6) near(prandtlMeyer(g, x), a, E5)
    else if (f == 7) near(x, prandtlMeyer(g, machOfP(g, div(PtPs(g, a), b))) - prandtlMeyer(g, a), E8)
    else if (f == 8) near(prandtlMeyer(g, machOfP(g, div(PtPs(g, a), x))), prandtlMeyer(g, a) - b, E5)
    else if (f == 9) close(x, weight(g, a), TOL)
    else if (f == 10) close(x, sigma(g, a), TOL)
    else close(sigma(g, x), a, E5) and (x > S) == (b > S)
  pure val NAMES = ["TtTs_Mach", "PtPs_Mach", "Mach_TtTs", "Mach_PtPs", "Velocity_MachTi", "PrandtlMeyer_Mach", "Mach_PrandtlMeyer",
    "deflection_Mach_IsentropicPsratio", "IsentropicPsratio_Mach_deflection", "WeightMassFlow", "Sigma_Mach", "Mach_Sigma"]
  action Legacy = all { on("Legacy"), consume(clauses([
    (law(ifd(w, 1), fd(w, 2), fd(w, 3), fd(w, 4), fd(w, 5), fd(w, 6)), "a legacy function is not the documented relation with the gas given, or 1.4")])) }
  // 1-2 results of an alias and of the function it stands for
  action Alias = all { on("Alias"), consume(clauses([
    (fd(w, 1) == fd(w, 2) or close(fd(w, 1), fd(w, 2), E12), "an alias does not answer as the function it stands for")])) }
  action init = start
  action step = any { Legacy, Alias }
  val inv = verdict == "ok"
}
