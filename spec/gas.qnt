// Laws of an ideal gas with constant specific heat ratio, in fixed point.
module gas {
  import num.* from "./num"

  // 1 + (g-1)/2 M^2
  pure def TtTs(g: int, m: int): int = S + (g - S) * sq(m) / (2 * S)
  pure def PtPs(g: int, m: int): int = pow(TtTs(g, m), div(g, g - S))
  // isentropic pressure ratio associated to a temperature ratio
  pure def isenP(g: int, t: int): int = pow(t, div(g, g - S))
  pure def isenT(g: int, p: int): int = pow(p, div(g - S, g))
  // A/A*
  pure def sigma(g: int, m: int): int =
    div(pow(mul(div(2 * S, g + S), TtTs(g, m)), div(g + S, 2 * (g - S))), m)
  // mass flow per unit area, times sqrt(r Tt)/Pt
  pure def weight(g: int, m: int): int =
    div(mul(sqrt(g), m), pow(TtTs(g, m), div(g + S, 2 * (g - S))))

  // ---- normal shock: conservation residuals --------------------------------
  // upstream Mach m1, downstream m2, ratios of pressure and density
  pure def massOk(m1: int, m2: int, pr: int, rr: int, tol: int): bool =
    // rho1 u1 = rho2 u2  with  u = M sqrt(g p / rho)
    close(sq(m1), mul(sq(m2), mul(pr, rr)), tol)
  pure def momentumOk(g: int, m1: int, m2: int, pr: int, tol: int): bool =
    close(S + mul(g, sq(m1)), mul(pr, S + mul(g, sq(m2))), tol)
  pure def energyOk(g: int, m1: int, m2: int, tr: int, tol: int): bool =
    close(TtTs(g, m1), mul(tr, TtTs(g, m2)), tol)
  // closed forms (checked against the conservation laws in gas_test)
  pure def shockP(g: int, m: int): int = S + 2 * g * (sq(m) - S) / (g + S)
  pure def shockRho(g: int, m: int): int = div(mul(g + S, sq(m)), 2 * S + mul(g - S, sq(m)))
  pure def shockM2(g: int, m: int): int = sqrt(div(TtTs(g, m), mul(g, sq(m)) - (g - S) / 2))
  pure def shockPt(g: int, m: int): int = div(mul(shockP(g, m), PtPs(g, shockM2(g, m))), PtPs(g, m))
  // entropy jump (s2-s1)/r across a shock: -ln of the total pressure ratio
  pure def entropyJump(g: int, pr: int, rr: int): int = div(ln(pr) - mul(g, ln(rr)), g - S)

  // ---- oblique shock -------------------------------------------------------
  // tangent of the flow deflection behind a shock of angle s (degrees)
  pure def deflection(g: int, m: int, s: int): int = {
    val sc = sincos(rad(s))
    val mn2 = mul(sq(m), sq(sc.s))
    val rr = div(mul(g + S, mn2), 2 * S + mul(g - S, mn2))
    // tan(s - d) = tan(s)/rr, solved for tan(d)
    deg(atan(div(mul(rr - S, mul(sc.s, sc.c)), mul(rr, sq(sc.c)) + sq(sc.s))))
  }

  // square of the sine of the angle of maximum deflection, of the sonic angle
  pure def sin2DevMax(g: int, m: int): int = {
    val m2 = sq(m)
    val g1 = g + S
    div(mul(g1, m2) - 4 * S + sqrt(mul(g1, mul(g1, sq(m2)) + mul(8 * (g - S), m2) + 16 * S)), mul(4 * g, m2))
  }
  pure def sin2Sonic(g: int, m: int): int = {
    val m2 = sq(m)
    val g1 = g + S
    div(mul(g1, m2) - (3 * S - g) + sqrt(mul(g1, mul(g1, sq(m2)) - mul(2 * (3 * S - g), m2) + g + 9 * S)), mul(4 * g, m2))
  }
  pure def sigmaDevMax(g: int, m: int): int = deg(asin(sqrt(sin2DevMax(g, m))))
  pure def sigmaSonic(g: int, m: int): int = deg(asin(sqrt(sin2Sonic(g, m))))
  // square of the Mach number behind a wave of temperature ratio tr (total temperature is conserved)
  pure def machBehind2(g: int, m: int, tr: int): int = div(2 * (div(TtTs(g, m), tr) - S), g - S)

  // ---- Prandtl-Meyer -------------------------------------------------------
  pure def prandtlMeyer(g: int, m: int): int = {
    val b = sqrt(sq(m) - S)
    val c = sqrt(div(g + S, g - S))
    deg(mul(c, atan(div(b, c))) - atan(b))
  }
  pure def machAngle(m: int): int = deg(asin(div(S, m)))
}
