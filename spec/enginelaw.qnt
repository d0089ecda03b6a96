// Balances of a gas generator, a turbojet and a two-flow turbofan: ideal gases
// before and after combustion, polytropic machines.
module enginelaw {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"

  // parameters of an engine (list, in this order)
  pure val OPR = 0
  pure val TT4 = 1
  pure val GC = 2
  pure val GH = 3
  pure val RC = 4
  pure val RH = 5
  pure val XI_INLET = 6
  pure val XI_CC = 7
  pure val ETA_CC = 8
  pure val PCI = 9
  pure val ECHP = 10
  pure val ETHP = 11
  pure val ESHAFT = 12
  pure val XI_NOZZLE = 13
  pure val BPR = 14
  pure val FPR = 15
  pure val ETBP = 16
  pure val EFAN = 17
  // what an engine computes
  type Core = { tt0: int, pt0: int, v0: int, pt2: int, tt2: int, pt3: int, tt3: int, pt4: int, far: int, tt45: int, pt45: int }
  type Jet = { pt9: int, m9: int, v9: int }
  type Fan = { tt5: int, pt5: int, tt17: int, pt17: int, tt19: int, pt19: int, m19: int, v19: int }
  type Conditions = { t0: int, p0: int, m0: int }

  pure def cp(g: int, r: int): int = div(mul(g, r), g - S)
  pure def gasOk(p: List[int]): bool = p[GC] > S and p[GH] > S
  pure val TOL = E12 * 100
  pure def same(a: int, b: int): bool = fin(a) and fin(b) and close(a, b, TOL)

  // flow stopped isentropically
  pure def intakeOk(p: List[int], c: Conditions, k: Core): bool = and {
    same(k.tt0, mul(c.t0, TtTs(p[GC], c.m0))),
    same(k.pt0, mul(c.p0, PtPs(p[GC], c.m0))),
    approx(sq(k.v0), mul(sq(c.m0), mul(mul(p[GC], p[RC]), c.t0)), TOL * 10),
    k.v0 >= 0 }
  pure def inletOk(p: List[int], k: Core): bool = same(k.tt2, k.tt0) and same(k.pt2, mul(k.pt0, p[XI_INLET]))
  // polytropic compression and expansion: exponents in terms of the logarithms of the ratios
  pure def compression(g: int, eta: int, tr: int, pr: int): bool =
    near(mul(mul(ln(tr), eta), g), mul(g - S, ln(pr)), TOL * 10)
  pure def expansion(g: int, eta: int, tr: int, pr: int): bool =
    near(mul(ln(tr), g), mul(mul(g - S, eta), ln(pr)), TOL * 10)
  pure def compressorOk(p: List[int], k: Core): bool = and {
    same(k.pt3, mul(k.pt2, p[OPR])), k.tt3 > 0, k.tt2 > 0,
    compression(p[GC], p[ECHP], div(k.tt3, k.tt2), p[OPR]) }
  // energy of air and fuel before = energy of the products after
  pure def burnerOk(p: List[int], k: Core): bool = and {
    same(k.pt4, mul(k.pt3, p[XI_CC])),
    same(mul(cp(p[GC], p[RC]), k.tt3) + mul(mul(k.far, p[ETA_CC]), p[PCI]), mul(mul(S + k.far, cp(p[GH], p[RH])), p[TT4])) }
  // the turbine drives the compressor
  pure def shaftOk(p: List[int], k: Core): bool =
    approx(mul(mul(mul(S + k.far, cp(p[GH], p[RH])), p[ESHAFT]), p[TT4] - k.tt45), mul(cp(p[GC], p[RC]), k.tt3 - k.tt2), TOL * 100)
  pure def turbineOk(p: List[int], k: Core): bool = and {
    k.tt45 > 0, k.pt45 > 0,
    expansion(p[GH], p[ETHP], div(k.tt45, p[TT4]), div(k.pt45, k.pt4)) }

  // nozzle expanding gas (g, r) of total state (tt, pt) down to the pressure p0: Mach m, velocity v
  pure def nozzleOk(g: int, r: int, tt: int, pt: int, p0: int, m: int, v: int): bool = and {
    fin(m), fin(v), m >= 0, v >= 0,
    // near rest the Mach number is the square root of a small difference
    approx(TtTs(g, m), isenT(g, div(pt, p0)), TOL * 10),
    near(mul(cp(g, r), div(tt, TtTs(g, m))) + sq(v) / 2, mul(cp(g, r), tt), mul(mul(cp(g, r), tt), TOL)) }

  // ideal work (with the polytropic efficiency of the low pressure turbine) down to the ambient pressure
  pure def monoWork(p: List[int], c: Conditions, k: Core): int = {
    val tr = pow(div(c.p0, mul(k.pt45, p[XI_NOZZLE])), div(mul(p[GH] - S, p[ETBP]), p[GH]))
    mul(mul(S + k.far, cp(p[GH], p[RH])), k.tt45 - mul(k.tt45, tr))
  }
  pure def lowTurbineOk(p: List[int], c: Conditions, k: Core, f: Fan): bool = and {
    approx(mul(mul(S + k.far, cp(p[GH], p[RH])), k.tt45 - f.tt5), mul(p[FPR], monoWork(p, c, k)), mul(mul(cp(p[GH], p[RH]), k.tt45), TOL)),
    f.tt5 > 0, f.pt5 > 0,
    expansion(p[GH], p[ETBP], div(f.tt5, k.tt45), div(f.pt5, k.pt45)) }
  pure def fanOk(p: List[int], k: Core, f: Fan): bool = and {
    // power received by the bypass flow = power of the low pressure turbine, less the losses of the shaft
    approx(mul(mul(p[BPR], cp(p[GC], p[RC])), f.tt17 - k.tt2), mul(p[ESHAFT], mul(mul(S + k.far, cp(p[GH], p[RH])), k.tt45 - f.tt5)), mul(mul(cp(p[GH], p[RH]), k.tt45), TOL)),
    f.tt17 > 0, f.pt17 > 0,
    compression(p[GC], p[EFAN], div(f.tt17, k.tt2), div(f.pt17, k.pt2)) }

  // thrust and kinetic energy per unit flow of the core
  pure def thrust(fanned: bool, p: List[int], k: Core, j: Jet, f: Fan): int =
    mul(S + k.far, j.v9) - k.v0 + (if (fanned) mul(p[BPR], f.v19 - k.v0) else 0)
  pure def kinetic(fanned: bool, p: List[int], k: Core, j: Jet, f: Fan): int =
    (mul(S + k.far, sq(j.v9)) - sq(k.v0) + (if (fanned) mul(p[BPR], sq(f.v19) - sq(k.v0)) else 0)) / 2
  // work of an isentropic turbine after the gas generator, down to the pressure p
  pure def idealWork(q: List[int], k: Core, p: int): int =
    mul(mul(S + k.far, cp(q[GH], q[RH])), k.tt45 - mul(k.tt45, isenT(q[GH], div(p, k.pt45))))
}
