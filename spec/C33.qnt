// C33  Streams led through shocks, turns, sections and ducts: the elements of all
// the modules compose to one flow that keeps its mass and total temperature,
// accounts for its heat and turning, and never gains total pressure.
module C33 {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"
  import machine.* from "./machine"

  // gas, Mach number, pressure, r times temperature, section, and what is kept of
  // the history: mass flow at the start, total temperature accounted for, lowest total pressure so far
  type Station = { g: int, m: int, p: int, t: int, a: int, q0: int, tt: int, pt: int }
  var st: List[Station]
  pure val NONE: Station = { g: 0, m: 0, p: 0, t: 0, a: 0, q0: 0, tt: 0, pt: 0 }

  pure def flow(z: Station): int = mul(mul(mul(z.p, z.a), z.m), sqrt(div(z.g, z.t)))
  pure def totalT(z: Station): int = mul(z.t, TtTs(z.g, z.m))
  pure def totalP(z: Station): int = mul(z.p, PtPs(z.g, z.m))
  pure def impulse(z: Station): int = mul(mul(z.p, z.a), S + mul(z.g, sq(z.m)))
  // velocity over sqrt(r): M sqrt(g t)
  pure def vel2(z: Station): int = mul(mul(sq(z.m), z.g), z.t)
  pure def entropy(z: Station): int = mul(div(z.g, z.g - S), ln(z.t)) - ln(z.p)

  pure def keepsMass(o: Station, n: Station, tol: int): bool = close(flow(n), flow(o), tol)
  pure def keepsEnergy(o: Station, n: Station, tol: int): bool = close(totalT(n), totalT(o), tol)
  pure def keepsImpulse(o: Station, n: Station, tol: int): bool = close(impulse(n), impulse(o), tol)
  pure def keepsEntropy(o: Station, n: Station, tol: int): bool = approx(entropy(n), entropy(o), tol)

  // a shock at the angle s that turns the stream by d: tangential velocity, normal momentum
  pure def shockOk(o: Station, n: Station, s: int, d: int, tol: int): str = clauses([
    (keepsEnergy(o, n, tol), "total temperature is not kept by the shock"),
    (close(mul(vel2(n), sq(cosd(s - d))), mul(vel2(o), sq(cosd(s))), tol) or s > r(90) - S, "the velocity along the shock is not kept"),
    (close(mul(n.p, S + mul(n.g, sq(mul(n.m, sind(s - d))))), mul(o.p, S + mul(o.g, sq(mul(o.m, sind(s))))), tol), "momentum is not kept by the shock"),
    (keepsMass(o, n, tol), "mass is not kept by the shock"),
    (entropy(n) >= entropy(o) - tol, "the shock is not a compression")])
  pure def friction(g: int, m: int): int = {
    val m2 = sq(m)
    div(S - m2, mul(g, m2)) + mul(div(g + S, 2 * g), ln(div(mul(m2, g + S), 2 * TtTs(g, m))))
  }
  // Newton and secant iterations, closed forms
  pure val NEWTON = E6
  pure val SECANT = 3 * E5
  pure val CLOSED = E9
  pure def isenOk(o: Station, n: Station, tol: int): str = clauses([
    (keepsEnergy(o, n, CLOSED), "total temperature is not kept"),
    (keepsEntropy(o, n, CLOSED), "entropy is not kept"),
    (keepsMass(o, n, tol), "mass is not kept")])

  // the element `kind` of request `x`, with an answer `y` of its own
  pure def element(o: Station, n: Station, kind: int, x: int, y: int, how: int): str =
    if (not(fin(n.m) and n.m > 0 and fin(n.p) and n.p > 0 and fin(n.t) and n.t > 0 and fin(n.a) and n.a > 0)) "the stream has no state after the element"
    else if (kind == 0) orElse(shockOk(o, n, r(90), 0, CLOSED), if (n.m < S) "ok" else "supersonic behind a normal shock")
    else if (kind == 1) orElse(shockOk(o, n, iabs(y), iabs(x), if (how == 1) SECANT else E7),
      if (how == 1 and ((y > 0) != (x > 0))) "shock on the other side" else if (iabs(y) > sigmaDevMax(o.g, o.m) + E3) "not the weak shock" else "ok")
    else if (kind == 2) orElse(shockOk(o, n, y, x, E7), if (y < sigmaDevMax(o.g, o.m) - E3) "not the strong shock" else if (n.m < S) "ok" else "supersonic behind a strong shock")
    else if (kind == 3) orElse(isenOk(o, n, NEWTON), clauses([
      (n.m > S and near(prandtlMeyer(n.g, n.m) - prandtlMeyer(o.g, o.m), x, E5), "the stream is not turned by the angle asked")]))
    else if (kind == 4) orElse(isenOk(o, n, CLOSED), clauses([
      (close(n.p, mul(o.p, x), CLOSED), "the pressure is not the one asked"),
      (o.m <= S or n.m <= S or near(prandtlMeyer(n.g, n.m) - prandtlMeyer(o.g, o.m), y, E7), "turning of the change of pressure")]))
    else if (kind == 5) orElse(isenOk(o, n, NEWTON), clauses([
      (close(n.a, mul(o.a, x), CLOSED), "DRIVER: section"),
      ((n.m > S) == (how > 2), "the stream is on the other side of the throat")]))
    else if (kind == 6) clauses([
      (keepsEnergy(o, n, CLOSED), "total temperature is not kept by friction"),
      (keepsMass(o, n, CLOSED), "mass is not kept by friction"),
      (approx(friction(o.g, o.m) - friction(n.g, n.m), y, E9 + mul(E9, friction(o.g, o.m))), "length of the duct"),
      (entropy(n) >= entropy(o) - E9 and y >= -E9, "friction gains entropy only")])
    else if (kind == 7) clauses([
      (close(totalT(n), mul(totalT(o), x), E8), "the total temperature is not the one of the heat added"),
      (keepsMass(o, n, E8), "mass is not kept by heating"),
      (keepsImpulse(o, n, E8), "impulse is not kept by heating"),
      ((entropy(n) >= entropy(o) - E8) == (x >= S) or approx(entropy(n), entropy(o), E7), "entropy of the heat added")])
    // shock of a given pressure ratio, y: deflection
    else {
      val mn = sqrt(S + mul(x - S, div(o.g + S, 2 * o.g)))
      val s = deg(asin(div(mn, o.m)))
      orElse(shockOk(o, n, s, y, E7), if (close(n.p, mul(o.p, x), CLOSED)) "ok" else "the pressure is not the one asked")
    }

  // 1 stream, 2 gamma, 3 Mach, 4 pressure, 5 temperature (times r), 6 section
  action Start = all { on("Start"), consume("ok"), {
    val z = { ...NONE, g: fd(w, 2), m: fd(w, 3), p: fd(w, 4), t: fd(w, 5), a: fd(w, 6) }
    st' = st.replaceAt(ifd(w, 1), { ...z, q0: flow(z), tt: totalT(z), pt: totalP(z) }) } }
  // what is kept along the whole history (heat accounted for), with the accuracy of the iterations so far
  pure def history(n: Station): str = clauses([
    (close(flow(n), n.q0, 10 * SECANT), "the stream lost or gained mass since its start"),
    (close(totalT(n), n.tt, 10 * SECANT), "the total temperature is not accounted for"),
    (totalP(n) <= n.pt + mul(n.pt, SECANT), "the stream gained total pressure")])
  // 1 stream, 2 element, 3 request, 4 how, 5 Mach, 6 pressure, 7 temperature, 8 section, 9 answer of the element
  action Step = all { on("Step"), {
    val o = st[ifd(w, 1)]
    val n = { ...o, m: fd(w, 5), p: fd(w, 6), t: fd(w, 7), a: fd(w, 8) }
    val heat = ifd(w, 2) == 7
    val bad = element(o, n, ifd(w, 2), fd(w, 3), fd(w, 9), ifd(w, 4))
    val k = if (bad != "ok") n
      else { ...n, tt: if (heat) mul(o.tt, fd(w, 3)) else o.tt, pt: if (heat and fd(w, 3) < S) totalP(n) else imin(o.pt, totalP(n)) }
    all { consume(if (bad != "ok") bad else history({ ...k, pt: if (heat and fd(w, 3) < S) k.pt else o.pt })), st' = st.replaceAt(ifd(w, 1), k) } } }
  // what the library says of the stream at its station: 1 stream, 2 total pressure, 3 total temperature, 4 mass flow,
  // 5 velocity, 6 impulse, 7 section of the throat
  action Measure = all { on("Measure"), {
    val z = st[ifd(w, 1)]
    consume(clauses([
      (close(fd(w, 2), totalP(z), CLOSED), "total pressure of the station"),
      (close(fd(w, 3), totalT(z), CLOSED), "total temperature of the station"),
      (close(fd(w, 4), flow(z), CLOSED), "mass flow of the station"),
      (close(sq(fd(w, 5)), vel2(z), CLOSED), "velocity of the station"),
      (close(fd(w, 6), impulse(z), CLOSED), "impulse of the station"),
      (close(mul(fd(w, 7), sigma(z.g, z.m)), z.a, CLOSED), "section of the throat"),
      (fd(w, 7) <= z.a + mul(z.a, CLOSED), "throat larger than the section")])) },
    st' = st }
  action Begin = all { on("Begin"), consume("ok"), st' = [NONE, NONE] }
  action init = all { start, st' = [NONE, NONE] }
  action step = any { Begin, Start, Step, Measure }
  val inv = verdict == "ok"
}
