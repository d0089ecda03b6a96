// C25  An engine's state satisfies the balances of its components for the
// parameters and flight conditions of its last update.
module C25 {
  import num.* from "./num"
  import trace.* from "./trace"
  import machine.* from "./machine"
  import gas.* from "./gas"
  import enginelaw.* from "./enginelaw"

  pure val GENERATOR = 0
  pure val TURBOJET = 1
  pure val TURBOFAN = 2
  // an engine: its kind, parameters and flight conditions now, those of its last
  // update, and the state read after it
  type Engine = { kind: int, p: List[int], c: Conditions, up: List[int], uc: Conditions, updated: bool, k: Core, j: Jet, f: Fan }
  var engines: List[Engine]
  pure val Z: Conditions = { t0: 0, p0: 0, m0: 0 }
  pure val NOCORE: Core = { tt0: 0, pt0: 0, v0: 0, pt2: 0, tt2: 0, pt3: 0, tt3: 0, pt4: 0, far: 0, tt45: 0, pt45: 0 }
  pure val NOJET: Jet = { pt9: 0, m9: 0, v9: 0 }
  pure val NOFAN: Fan = { tt5: 0, pt5: 0, tt17: 0, pt17: 0, tt19: 0, pt19: 0, m19: 0, v19: 0 }
  pure val NONE: Engine = { kind: 0, p: [], c: Z, up: [], uc: Z, updated: false, k: NOCORE, j: NOJET, f: NOFAN }

  pure def coreAt(v: int, i: int): Core = { tt0: fd(v, i), pt0: fd(v, i + 1), v0: fd(v, i + 2), pt2: fd(v, i + 3), tt2: fd(v, i + 4), pt3: fd(v, i + 5),
    tt3: fd(v, i + 6), pt4: fd(v, i + 7), far: fd(v, i + 8), tt45: fd(v, i + 9), pt45: fd(v, i + 10) }
  pure def jetAt(v: int, i: int): Jet = { pt9: fd(v, i), m9: fd(v, i + 1), v9: fd(v, i + 2) }
  pure def fanAt(v: int, i: int): Fan = { tt5: fd(v, i), pt5: fd(v, i + 1), tt17: fd(v, i + 2), pt17: fd(v, i + 3),
    tt19: fd(v, i + 4), pt19: fd(v, i + 5), m19: fd(v, i + 6), v19: fd(v, i + 7) }

  // the gas can expand through the nozzle
  pure def expands(e: Engine, k: Core): bool = mul(k.pt45, e.up[XI_NOZZLE]) > e.uc.p0 + e.uc.p0 / 100

  pure def judgeCore(e: Engine, k: Core): str = clauses([
    (intakeOk(e.up, e.uc, k), "stagnation state or velocity of the flight"),
    (inletOk(e.up, k), "inlet"),
    (compressorOk(e.up, k), "compressor"),
    (burnerOk(e.up, k), "energy balance of the combustion"),
    (shaftOk(e.up, k), "balance of the high pressure shaft"),
    (turbineOk(e.up, k), "high pressure turbine")])
  pure def judgeJet(e: Engine, k: Core, j: Jet): str = {
    val pt = mul(k.pt45, e.up[XI_NOZZLE])
    clauses([
      (same(j.pt9, if (pt > e.uc.p0) pt else e.uc.p0), "total pressure of the nozzle"),
      (nozzleOk(e.up[GH], e.up[RH], k.tt45, j.pt9, e.uc.p0, j.m9, j.v9), "expansion of the nozzle")])
  }
  pure def judgeFan(e: Engine, k: Core, j: Jet, f: Fan): str = if (not(expands(e, k))) "ok" else clauses([
    (lowTurbineOk(e.up, e.uc, k, f), "low pressure turbine"),
    (fanOk(e.up, k, f), "fan"),
    (same(j.pt9, mul(f.pt5, e.up[XI_NOZZLE])), "total pressure of the nozzle"),
    (nozzleOk(e.up[GH], e.up[RH], f.tt5, j.pt9, e.uc.p0, j.m9, j.v9), "expansion of the nozzle"),
    (same(f.tt19, f.tt17) and same(f.pt19, mul(f.pt17, e.up[XI_NOZZLE])), "total state of the bypass nozzle"),
    (f.pt19 < e.uc.p0 or nozzleOk(e.up[GC], e.up[RC], f.tt19, f.pt19, e.uc.p0, f.m19, f.v19), "expansion of the bypass nozzle")])
  pure def judgeState(e: Engine, v: int): str = {
    val k = coreAt(v, 2)
    orElse(judgeCore(e, k),
      if (e.kind == TURBOJET) judgeJet(e, k, jetAt(v, 13))
      else if (e.kind == TURBOFAN) judgeFan(e, k, jetAt(v, 13), fanAt(v, 16)) else "ok")
  }
  // performance: 1 engine, 2 fuel energy, 3 ideal work to the ambient pressure, 4 a pressure, 5 ideal work to
  // it, 6 efficiency, then for engines with a jet 7 kinetic energy, 8-9 thrusts, 10 propulsive efficiency,
  // 11 overall efficiency, 12 consumption
  pure def ratio(v: int, a: int, b: int): bool = b == 0 or approx(mul(v, b), a, mul(iabs(b), TOL * 10) + mul(iabs(a), TOL))
  pure def judgePerf(e: Engine, v: int): str = {
    val fan = e.kind == TURBOFAN
    val burnt = mul(e.k.far, e.p[PCI])
    val scale = mul(mul(cp(e.p[GH], e.p[RH]), e.k.tt45), TOL)
    val th = thrust(fan, e.p, e.k, e.j, e.f)
    val kin = kinetic(fan, e.p, e.k, e.j, e.f)
    val jet = e.kind != GENERATOR
    clauses([
      (same(fd(v, 2), burnt), "energy of the fuel"),
      (near(fd(v, 3), idealWork(e.p, e.k, e.uc.p0), scale) and near(fd(v, 5), idealWork(e.p, e.k, fd(v, 4)), scale), "work of the ideal turbine"),
      (jet or ratio(fd(v, 6), fd(v, 3), burnt), "thermal efficiency"),
      (not(jet) or near(fd(v, 7), kin, scale), "kinetic energy"),
      (not(jet) or near(fd(v, 8), th, mul(iabs(th) + 10 * e.k.v0 + e.j.v9, TOL)), "thrust"),
      (not(jet) or ratio(fd(v, 9), fd(v, 8), if (fan) S + e.p[BPR] else S), "specific thrust"),
      (not(jet) or ratio(fd(v, 6), fd(v, 7), burnt), "thermal efficiency"),
      (not(jet) or iabs(fd(v, 7)) < S or ratio(fd(v, 10), mul(fd(v, 8), e.k.v0), fd(v, 7)), "propulsive efficiency"),
      (not(jet) or ratio(fd(v, 11), mul(fd(v, 8), e.k.v0), burnt), "overall efficiency"),
      (not(jet) or iabs(fd(v, 8)) < S or ratio(fd(v, 12), e.k.far, fd(v, 8)), "specific consumption")])
  }

  // 1 engine, 2 kind, 3 to 20 parameters
  action New = all { on("New"), consume("ok"),
    engines' = engines.replaceAt(ifd(w, 1), { ...NONE, kind: ifd(w, 2), p: fds(w, 3, 18) }) }
  // 1 engine, 2-4 temperature, pressure, Mach
  action Flight = all { on("Flight"), consume("ok"),
    engines' = engines.replaceAt(ifd(w, 1), { ...engines[ifd(w, 1)], c: { t0: fd(w, 2), p0: fd(w, 3), m0: fd(w, 4) } }) }
  // 1 engine, 2 parameter, 3 value
  action Change = all { on("Change"), consume("ok"), {
    val e = engines[ifd(w, 1)]
    engines' = engines.replaceAt(ifd(w, 1), { ...e, p: e.p.replaceAt(ifd(w, 2), fd(w, 3)) }) } }
  action Update = all { on("Update"), consume("ok"), {
    val e = engines[ifd(w, 1)]
    engines' = engines.replaceAt(ifd(w, 1), { ...e, up: e.p, uc: e.c, updated: true }) } }
  // the state of the last update, whatever was set since: 1 engine, 2 to 12 core, 13 to 15 jet, 16 to 23 fan
  action State = all { on("State"), consume(judgeState(engines[ifd(w, 1)], w)), {
    val e = engines[ifd(w, 1)]
    engines' = engines.replaceAt(ifd(w, 1), { ...e, k: coreAt(w, 2),
      j: if (e.kind == GENERATOR) NOJET else jetAt(w, 13), f: if (e.kind == TURBOFAN) fanAt(w, 16) else NOFAN }) } }
  // recorded just after State, nothing being set since the update
  action Perf = all { on("Perf"), consume({
    val e = engines[ifd(w, 1)]
    if (e.kind == TURBOFAN and (not(expands(e, e.k)) or e.f.pt19 < e.uc.p0)) "ok" else judgePerf(e, w) }), engines' = engines }
  action Begin = all { on("Begin"), consume("ok"), engines' = [NONE, NONE, NONE] }
  action init = all { start, engines' = [NONE, NONE, NONE] }
  action step = any { Begin, New, Flight, Change, Update, State, Perf }
  val inv = verdict == "ok"
}
