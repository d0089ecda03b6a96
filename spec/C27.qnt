// C27  Enthalpy and entropy functions of air and kerosene are the integrals of
// their specific heat, and the heating value follows.
module C27 {
  import num.* from "./num"
  import trace.* from "./trace"
  import machine.* from "./machine"

  pure val RAIR = q(28704, 100)
  pure val LN10 = ln(r(10))
  // air: a rigid rotator with one vibration at 3090 K, and a small correction
  pure def vibration(t: int): int = { val e = exp(div(r(3090), t)) div(mul(sq(div(r(3090), t)), e), sq(e - S)) }
  pure def airHeat(t: int): int = mul(RAIR, q(35, 10) - mul(q(28, 1000000), t) + mul(q(2240, 100000000000), sq(t)) + vibration(t))
  pure def fuelHeat(t: int): int = mul(RAIR, q(447659, 100000) + mul(q(801994, 100000000), t) - mul(q(18373, 10000000000), sq(t)))

  // three points Gauss quadrature of the specific heats recorded over a small interval
  pure def gauss(a: int, b: int, c: int): int = (5 * a + 8 * b + 5 * c) / 18
  // 1 gas (0 air, 1 kerosene), 2-4 temperatures, 5-7 specific heats there, 8-9 enthalpies at the ends, 10-11 entropy functions at the ends, 12-13 ends
  pure def judge(v: int): str = {
    val dt = fd(v, 13) - fd(v, 12)
    val cps = fds(v, 5, 3)
    val law = range(0, 3).foldl(true, (ok, i) => ok and close(fd(v, 5 + i), if (ifd(v, 1) == 0) airHeat(fd(v, 2 + i)) else fuelHeat(fd(v, 2 + i)), E10))
    // the coefficients are rounded to some digits
    val tol = E9 * 8000
    clauses([
      (law, "the specific heat is not that of the gas"),
      (near(fd(v, 9) - fd(v, 8), mul(dt, gauss(cps[0], cps[1], cps[2])), mul(mul(dt, cps[1]), tol)), "enthalpy is not the integral of the specific heat"),
      (near(mul(mul(fd(v, 11) - fd(v, 10), LN10), RAIR), mul(dt, gauss(div(cps[0], fd(v, 2)), div(cps[1], fd(v, 3)), div(cps[2], fd(v, 4)))), mul(mul(dt, div(cps[1], fd(v, 3))), tol)),
        "the entropy function is not the integral of the specific heat over the temperature")])
  }
  // ratio of specific heats of air: 1 T, 2 ratio, 3 specific heat
  pure def judgeRatio(v: int): str = clauses([
    (approx(mul(fd(v, 2), fd(v, 3) - RAIR), fd(v, 3), E10), "the ratio of specific heats is not that of the gas"),
    (fd(v, 2) > S and fd(v, 2) < q(141, 100), "the ratio of specific heats of air is out of its limits")])
  // heating value: 1 T, 2 effective, 3 at infinity, 4 enthalpy, 5-6 effective and enthalpy at 298.15 K
  pure def judgeHeating(v: int): str = clauses([
    (near(fd(v, 2) + fd(v, 4), fd(v, 5) + fd(v, 6), S / 10), "the heating value does not follow the enthalpy of the fuel"),
    (close(fd(v, 3), r(10300 * 4184), E12), "the heating value at infinity is not that of the fuel"),
    (near(fd(v, 2) + fd(v, 4) - fd(v, 3), mul(RAIR, q(1458146, 1000)), S / 10), "the effective heating value is not that of the fuel")])
  action Integral = all { on("Integral"), consume(judge(w)) }
  action Ratio = all { on("Ratio"), consume(judgeRatio(w)) }
  action Heating = all { on("Heating"), consume(judgeHeating(w)) }
  action init = start
  action step = any { Integral, Ratio, Heating }
  val inv = verdict == "ok"
}
