// the closed forms of gas.qnt satisfy the conservation laws they come from
module gas_test {
  import num.* from "./num"
  import gas.* from "./gas"
  pure val GS = [105, 110, 120, 130, 140, 167, 200, 250]
  pure val MS = [101, 110, 150, 200, 300, 500, 1000]
  pure def all2(f: (int, int) => bool): bool = GS.select(g => MS.select(m => not(f(g * S / 100, m * S / 100))).length() > 0).length() == 0
  run shockTest = assert(all2((g, m) => and {
    massOk(m, shockM2(g, m), shockP(g, m), shockRho(g, m), E12),
    momentumOk(g, m, shockM2(g, m), shockP(g, m), E12),
    energyOk(g, m, shockM2(g, m), div(shockP(g, m), shockRho(g, m)), E12),
    entropyJump(g, shockP(g, m), shockRho(g, m)) > 0,
    approx(entropyJump(g, shockP(g, m), shockRho(g, m)), -ln(shockPt(g, m)), E12),
  }))
  run obliqueTest = all {
    assert(all2((g, m) => { val d = deflection(g, m, sigmaDevMax(g, m)) and {
      // largest deflection over the whole shock polar
      range(0, 60).select(k => deflection(g, m, machAngle(m) + (r(90) - machAngle(m)) * k / 60) > d + E12).length() == 0,
      deflection(g, m, sigmaDevMax(g, m) - E3) <= d, deflection(g, m, sigmaDevMax(g, m) + E3) <= d } })),
    assert(all2((g, m) => { val mn = mul(m, sqrt(sin2Sonic(g, m)))
      approx(machBehind2(g, m, div(shockP(g, mn), shockRho(g, mn))), S, E12) })),
    assert(all2((g, m) => near(deflection(g, m, machAngle(m)), 0, E9))),
    assert(all2((g, m) => near(deflection(g, m, r(90)), 0, E9))),
  }
  run sonicTest = all {
    assert(close(sigma(q(14, 10), S), S, E12)),
    assert(close(sigma(q(14, 10), 2 * S), q(16875, 10000), E12)),
    assert(near(prandtlMeyer(q(14, 10), S), 0, E9)),
    assert(near(prandtlMeyer(q(14, 10), 2 * S), q(26379760813416446, 10^15), E12)),
    assert(close(machAngle(2 * S), r(30), E12)),
    assert(close(PtPs(q(16, 10), 2 * S), q(8187044460255244, 10^15), E12)),
  }
  run massFlowTest = assert(all2((g, m) => close(mul(sigma(g, m), weight(g, m)), weight(g, S), E12)))
}
