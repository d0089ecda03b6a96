// C05  Conical shock: the cone, the shock and the upstream Mach number belong to
// one solution of the Taylor-Maccoll equation.
module C05 {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"
  import machine.* from "./machine"

  // Taylor-Maccoll in velocity components (radial a, transverse b) scaled by the
  // limiting speed; state also carries the sine and cosine of the ray angle
  type TM = { a: int, b: int }
  pure def slope(g: int, p: TM, cot: int): TM = {
    val k = mul((g - S) / 2, S - sq(p.a) - sq(p.b))
    { a: p.b, b: div(mul(sq(p.b), p.a) - mul(k, 2 * p.a + mul(p.b, cot)), k - sq(p.b)) }
  }
  pure def axpy(p: TM, h: int, d: TM): TM = { a: p.a + mul(h, d.a), b: p.b + mul(h, d.b) }
  pure def cotOf(sc: { s: int, c: int }): int = div(sc.c, sc.s)
  // about one step per degree
  pure def steps(span: int): int = 40 + iabs(span) / S
  // integrate from the shock (angle s, degrees) to the ray t (degrees): transverse
  // velocity left there, as the angle (degrees) still missing to a wall
  pure def missing(g: int, m: int, s: int, t: int): int = {
    val d = deflection(g, m, s)
    val mn = mul(m, sind(s))
    val m2 = sqrt(machBehind2(g, m, div(shockP(g, mn), shockRho(g, mn))))
    val q2 = sqrt(div(S, S + div(2 * S, mul(g - S, sq(m2)))))
    val sc = sincos(rad(s - d))
    val n = steps(t - s)
    val span = rad(t - s)
    // steps grow quadratically: weak shocks start close to a sonic transverse speed
    val p0 = { p: { a: mul(q2, sc.c), b: -mul(q2, sc.s) }, cot: cotOf(sincos(rad(s))), at: 0 }
    val e = range(1, n + 1).foldl(p0, (x, i) => {
      val at = span * i * i / (n * n)
      val h = at - x.at
      val c1 = cotOf(sincos(rad(s) + x.at + h / 2))
      val c2 = cotOf(sincos(rad(s) + at))
      val k1 = slope(g, x.p, x.cot)
      val k2 = slope(g, axpy(x.p, h / 2, k1), c1)
      val k3 = slope(g, axpy(x.p, h / 2, k2), c1)
      val k4 = slope(g, axpy(x.p, h, k3), c2)
      { p: { a: x.p.a + mul(h / 6, k1.a + 2 * k2.a + 2 * k3.a + k4.a), b: x.p.b + mul(h / 6, k1.b + 2 * k2.b + 2 * k3.b + k4.b) }, cot: c2, at: at }
    })
    // at the wall the transverse velocity vanishes and varies as -2 x radial velocity
    deg(div(e.p.b, 2 * e.p.a))
  }
  pure def onCone(g: int, m: int, s: int, t: int, tol: int): bool =
    if (not(fin(s) and fin(t) and fin(m)) or m <= S or s <= 0 or t <= 0 or t >= s or s >= r(90)) false
    else iabs(missing(g, m, s, t)) <= tol

  // fields: 1 gamma, 2 Mach, 3 sigma, 4 cone angle
  pure def judgeCone(v: int): str = clauses([
    (fin(fd(v, 4)) and fd(v, 4) > 0 and fd(v, 4) < fd(v, 3), "the cone is not inside its shock"),
    (fd(v, 4) >= deflection(fd(v, 1), fd(v, 2), fd(v, 3)) - E5, "the cone is thinner than the wedge of the same shock"),
    (onCone(fd(v, 1), fd(v, 2), fd(v, 3), fd(v, 4), E4), "the flow behind the shock is not tangent to the cone")])
  // fields: 1 gamma, 2 Mach, 3 cone angle, 4 sigma
  pure def judgeSigma(v: int): str = clauses([
    (fin(fd(v, 4)) and fd(v, 4) > fd(v, 3) and fd(v, 4) < r(90), "the shock angle is not between the cone and 90 degrees"),
    (fd(v, 4) >= machAngle(fd(v, 2)) - E4, "the shock is weaker than a Mach wave"),
    (onCone(fd(v, 1), fd(v, 2), fd(v, 4), fd(v, 3), 2 * E4), "the shock angle is not the one of the cone")])
  // fields: 1 gamma, 2 cone angle, 3 sigma, 4 Mach
  pure def judgeMach(v: int): str = clauses([
    (fin(fd(v, 4)) and fd(v, 4) > S, "no supersonic Mach number"),
    (onCone(fd(v, 1), fd(v, 4), fd(v, 3), fd(v, 2), 2 * E4), "the Mach number is not the one of the cone and shock")])

  action ConeOfShock = all { on("Cone"), consume(judgeCone(w)) }
  action ShockOfCone = all { on("Sigma"), consume(judgeSigma(w)) }
  action MachOfConeAndShock = all { on("Mach"), consume(judgeMach(w)) }

  action init = start
  action step = any { ConeOfShock, ShockOfCone, MachOfConeAndShock }
  val inv = verdict == "ok"
}
