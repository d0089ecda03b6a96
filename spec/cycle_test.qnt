// The cycle of the specification balances energy, expands to the ambient pressure, and gives published orders of magnitude.
module cycle_test {
  import num.* from "./num"
  import gas.* from "./gas"
  import cyclemachine.* from "./cyclemachine"
  import cyclelaw.* from "./cyclelaw"
  pure def cfm(kind: int, par: int): Cycle = cycleOf(kind, [q(61, 10), q(328, 10), r(1410), r(180), q(14, 10), r(287), q(133, 100), q(2916, 10), r(42800000), par,
    r(22700), r(217), q(8, 10), q(97, 100), q(90, 100), q(89, 100), q(99, 100), q(95, 100), q(98, 100), q(88, 100), q(97, 100)])
  // enthalpy in + fuel = enthalpy out + losses, per unit time
  pure def energy(c: Cycle, v: List[int]): bool = {
    val power = mul(mul(v[5], S + v[10]), mul(cph(c), c.tt4 - v[26]))
    val fan = mul(mul(v[12], cpg(c)), v[13] - v[3])
    val losses = mul(power, S - c.em)
    val inflow = mul(mul(c.m, cpg(c)), v[1]) + mul(mul(v[9], c.pk), c.eb)
    // jets: static enthalpy and kinetic energy
    val core = mul(mul(v[5], S + v[10]), mul(cph(c), div(v[30], TtTs(c.h, v[33]))) + sq(v[34]) / 2)
    val bypass = mul(v[12], mul(cpg(c), div(v[18], TtTs(c.g, v[20]))) + sq(v[21]) / 2)
    close(inflow, core + bypass + losses, E10) and fan > 0
  }
  run givenTest = { val c = cfm(GIVEN, q(16, 10)) val v = whole(c)
    assert(energy(c, v) and near(v[37], q(15492, 100), S) and near(v[38], q(203783, 10000), q(1, 1000))) }
  run drivenTest = { val c = cfm(DRIVEN, q(1, 2)) val v = whole(c)
    assert(energy(c, v) and near(v[37], q(15483, 100), q(1, 100)) and near(v[16], q(15987, 10000), q(1, 10000))) }
}
