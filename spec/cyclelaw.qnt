// Values computed at the stages of a turbofan cycle.
module cyclelaw {
  import num.* from "./num"
  import gas.* from "./gas"
  import cyclemachine.* from "./cyclemachine"

  // a cycle: flight, gases before (g) and after (h) combustion, parameters
  type Cycle = { kind: int, bpr: int, pic: int, tt4: int, m: int, g: int, rg: int, h: int, rh: int, pk: int, par: int,
    p0: int, t0: int, m0: int, xie: int, ec: int, ef: int, eb: int, xib: int, em: int, et: int, xin: int }
  pure def cycleOf(kind: int, l: List[int]): Cycle = { kind: kind, bpr: l[0], pic: l[1], tt4: l[2], m: l[3], g: l[4], rg: l[5], h: l[6], rh: l[7],
    pk: l[8], par: l[9], p0: l[10], t0: l[11], m0: l[12], xie: l[13], ec: l[14], ef: l[15], eb: l[16], xib: l[17], em: l[18], et: l[19], xin: l[20] }
  pure def heat(g: int, r: int): int = div(mul(g, r), g - S)
  pure def cpg(c: Cycle): int = heat(c.g, c.rg)
  pure def cph(c: Cycle): int = heat(c.h, c.rh)
  pure val NV = 42
  pure val UNSET: List[int] = range(0, 42).foldl([], (a, i) => a.append(NAN))

  pure def coreFlow(c: Cycle): int = div(c.m, c.bpr + S)
  pure def fanFlow(c: Cycle): int = c.m - coreFlow(c)
  // velocity reached from rest at (tt, pt) down to the pressure p
  pure def jetMach(g: int, pt: int, p: int): int = sqrt(2 * div(isenT(g, div(pt, p)) - S, g - S))
  pure def jetSpeed(g: int, r: int, tt: int, m: int): int = mul(m, sqrt(div(mul(mul(g, r), tt), TtTs(g, m))))

  // index of each value, and the values each stage sets
  pure val IDX: int -> List[int] = Map(START -> [0, 1, 2], 2 -> [3, 4], 3 -> [5, 6, 7, 8], 4 -> [9, 10, 11],
    13 -> [12, 13, 14, 15], 19 -> [17, 18, 19, 20, 21, 22], HPT -> [23, 24, 25], 5 -> [26, 27, 28, 29], 9 -> [30, 31, 32, 33, 34, 35],
    PERF -> [36, 37, 38, 39, 40, 41])
  // values of a stage from those before it (NAN: not set by this kind)
  pure def valuesOf(c: Cycle, v: List[int], s: int): List[int] =
    if (s == START) [mul(c.p0, PtPs(c.g, c.m0)), mul(c.t0, TtTs(c.g, c.m0)), mul(c.m0, sqrt(mul(mul(c.g, c.rg), c.t0)))]
    else if (s == 2) [v[1], mul(v[0], c.xie)]
    else if (s == 3) {
      val tt3 = mul(v[3], pow(c.pic, div(c.g - S, mul(c.g, c.ec))))
      [coreFlow(c), tt3, mul(v[4], c.pic), mul(mul(coreFlow(c), cpg(c)), tt3 - v[3])]
    } else if (s == 4) {
      // energy of the products = energy of air and burnt fuel
      val far = div(mul(cph(c), c.tt4) - mul(cpg(c), v[6]), mul(c.eb, c.pk) - mul(cph(c), c.tt4))
      [mul(v[5], far), far, mul(v[7], c.xib)]
    } else if (s == 13) {
      if (c.kind == GIVEN) {
        val tt13 = mul(v[3], pow(c.par, div(c.g - S, mul(c.g, c.ef))))
        [fanFlow(c), tt13, mul(v[4], c.par), mul(mul(fanFlow(c), cpg(c)), tt13 - v[3])]
      } else {
        // the power of the low pressure turbine, less the losses of the shaft
        val tt13 = v[3] - div(mul(v[29], c.em), mul(fanFlow(c), cpg(c)))
        val pif = pow(div(tt13, v[3]), div(mul(c.ef, c.g), c.g - S))
        [fanFlow(c), tt13, mul(v[4], pif), pif]
      }
    } else if (s == 19) {
      val pt = mul(v[14], c.xin)
      val m = jetMach(c.g, pt, c.p0)
      val u = jetSpeed(c.g, c.rg, v[13], m)
      [pt, v[13], c.p0, m, u, mul(v[12], u - v[2])]
    } else if (s == HPT) {
      val t = c.tt4 - div(v[8], mul(mul(v[5], S + v[10]), mul(cph(c), c.em)))
      val pr = pow(div(c.tt4, t), div(c.h, mul(c.h - S, c.et)))
      [t, pr, div(v[11], pr)]
    } else if (s == 5) {
      if (c.kind == GIVEN) {
        val t = c.tt4 - div(v[15] + v[8], mul(mul(v[5], S + v[10]), mul(cph(c), c.em)))
        val pr = pow(div(c.tt4, t), div(c.h, mul(c.h - S, c.et)))
        [t, pr, div(v[11], pr), NAN]
      } else {
        // a part of the work of the expansion down to the ambient pressure
        val drop = mul(c.par, v[23] - mul(v[23], isenT(c.h, div(c.p0, v[25]))))
        val t = v[23] - drop
        val pr = pow(div(v[23], t), div(c.h, mul(c.h - S, c.et)))
        [t, pr, div(v[25], pr), -mul(mul(v[5], S + v[10]), mul(cph(c), drop))]
      }
    } else if (s == 9) {
      val pt = mul(v[28], c.xin)
      val m = jetMach(c.h, pt, c.p0)
      val u = jetSpeed(c.h, c.rh, v[26], m)
      [v[26], pt, c.p0, m, u, mul(v[5], u - v[2])]
    } else {
      val f = v[22] + v[35]
      val q = mul(c.pk, v[9])
      val e = (mul(v[5], mul(S + v[10], sq(v[34])) - sq(v[2])) + mul(v[12], sq(v[21]) - sq(v[2]))) / 2
      [f, div(f, c.m), div(v[9] * 1000000, f), div(e, q), div(mul(f, v[2]), e), div(mul(f, v[2]), q)]
    }
  // index where value number i of stage s goes: the fan ratio has a place of its own
  pure def placeOf(kind: int, s: int, i: int): int = if (s == 13 and i == 3 and kind == DRIVEN) 16 else IDX.get(s)[i]
  pure def setStage(c: Cycle, v: List[int], s: int): List[int] = {
    val x = valuesOf(c, v, s)
    x.indices().fold(v, (z, i) => if (x[i] == NAN and c.kind == GIVEN and i == 3) z else z.replaceAt(placeOf(c.kind, s, i), x[i]))
  }
  pure def setStages(c: Cycle, v: List[int], ss: List[int]): List[int] = ss.foldl(v, (z, s) => setStage(c, z, s))
  // the whole cycle at once
  pure def whole(c: Cycle): List[int] =
    setStages(c, UNSET, if (c.kind == GIVEN) [START, 2, 3, 4, 13, 19, 5, 9, PERF] else [START, 2, 3, 4, HPT, 5, 9, 13, 19, PERF])

  // ratio of the stagnation temperatures of an ideal fan giving both jets the same velocity:
  // tl, tr, tc: temperature ratios of burner to flight, of flight, of compressor
  pure def sameJets(bpr: int, tl: int, tr: int, tc: int, tf: int, tol: int): bool = {
    val turbine = tl - mul(tr, tc - S + mul(bpr, tf - S))
    near(turbine - div(tl, mul(tr, tc)), mul(tr, tf) - S, tol)
  }
}
