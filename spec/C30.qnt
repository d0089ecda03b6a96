// C30  The curves drawn are the shock and isentropic polars of the flow asked.
module C30 {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"
  import machine.* from "./machine"

  // one figure: gamma, Mach, reference angle and pressure, side of the next points
  // (1 right or C+, -1 left or C-), what is drawn, last ordinate
  type Fig = { g: int, m: int, th: int, p: int, side: int, what: int, last: int, count: int }
  var fig: Fig
  pure val NOFIG: Fig = { g: 0, m: 0, th: 0, p: 0, side: 1, what: 0, last: 0, count: 0 }
  pure val ANGLES = 0
  pure val PRESSURES = 1
  pure val ISENTROPIC = 2

  // shock angle of a point of a figure: given, or from the pressure ratio
  pure def angle(f: Fig, y: int): int =
    if (f.what == ANGLES) y
    else { val mn2 = S + mul(div(y, f.p) - S, div(f.g + S, 2 * f.g)) deg(asin(div(sqrt(mn2), f.m))) }
  // near the normal shock the angle is the arc sine of nearly one
  pure def judgeShock(f: Fig, x: int, y: int): str = {
    val s = angle(f, y)
    val d = f.side * (x - f.th)
    val normal = fin(s) and near(s, 90 * S, S / 100)
    val ymax = if (f.what == ANGLES) 90 * S else mul(f.p, shockP(f.g, f.m))
    clauses([
      (near(y, ymax, mul(ymax, E10)) or fin(s), "a point is beyond the normal shock or before the Mach wave"),
      (near(y, ymax, mul(ymax, E10)) or s >= machAngle(f.m) - E6, "a point is before the Mach wave"),
      (if (near(y, ymax, mul(ymax, E10)) or normal) near(d, 0, S / 10) else near(d, deflection(f.g, f.m, s), E7), "a point is not on the shock polar"),
      (f.count == 0 or y >= f.last, "the points do not go along the polar")])
  }
  pure def judgeIsentropic(f: Fig, x: int, y: int): str = {
    // expansion to the pressure y at constant total pressure
    val tr = div(TtTs(f.g, f.m), isenT(f.g, div(y, f.p)))
    val m2 = sqrt(div(2 * (tr - S), f.g - S))
    clauses([
      (fin(y) and y > 0, "a pressure is not positive"),
      (near(prandtlMeyer(f.g, f.m) - f.side * (x - f.th), prandtlMeyer(f.g, m2), E6 * 10), "a point is not on the isentropic polar")])
  }
  pure def judgeFirst(f: Fig, x: int, y: int): str = if (f.what == ISENTROPIC or f.count > 0) "ok" else clauses([
    (near(x, f.th, E5), "the polar does not start at the Mach wave"),
    (near(y, if (f.what == ANGLES) machAngle(f.m) else f.p, mul(iabs(y), E8)), "the polar does not start at the Mach wave")])
  // 1 what, 2 gamma, 3 Mach, 4-5 reference angle and pressure, 6 side
  action Curve = all { on("Curve"), consume("ok"),
    fig' = { what: ifd(w, 1), g: fd(w, 2), m: fd(w, 3), th: fd(w, 4), p: fd(w, 5), side: ifd(w, 6), last: 0, count: 0 } }
  // 1-2 point
  action Point = all { on("Point"),
    consume(orElse(judgeFirst(fig, fd(w, 1), fd(w, 2)),
      if (fig.what == ISENTROPIC) judgeIsentropic(fig, fd(w, 1), fd(w, 2)) else judgeShock(fig, fd(w, 1), fd(w, 2)))),
    fig' = { ...fig, last: fd(w, 2), count: fig.count + 1 } }
  // 1 number of points of the curve, 2 asked, 3-4 range of the deviations (isentropic), 5-6 first and last abscissa
  pure def judgeEnd(f: Fig, v: int): str = clauses([
    (ifd(v, 1) == ifd(v, 2) + 1, "the curve has not the number of intervals asked"),
    (if (f.what == ISENTROPIC) near(fd(v, 5), f.th + fd(v, 3), E10) and near(fd(v, 6), f.th + fd(v, 4), E10)
      else near(fd(v, 6), f.th, E6), "the curve does not go to its end"),
    (f.what == ISENTROPIC or near(f.last, if (f.what == ANGLES) 90 * S else mul(f.p, shockP(f.g, f.m)), mul(iabs(f.last), E10)), "the curve does not end at the normal shock")])
  action End = all { on("End"), consume(judgeEnd(fig, w)), fig' = fig }
  // 1 kind (0 largest deviation, 1 sonic), 2-3 point
  pure def judgeMark(f: Fig, v: int): str = {
    val s = if (ifd(v, 1) == 0) sigmaDevMax(f.g, f.m) else sigmaSonic(f.g, f.m)
    val y = if (f.what == ANGLES) s else mul(f.p, shockP(f.g, mul(f.m, sind(s))))
    clauses([
      (near(fd(v, 2), f.th + f.side * deflection(f.g, f.m, s), E5), "a mark has not the deviation it stands for"),
      (near(fd(v, 3), y, mul(iabs(y), E6)), "a mark is not on the polar")])
  }
  action Mark = all { on("Mark"), consume(judgeMark(fig, w)), fig' = fig }
  // 1 curves drawn, 2 expected, 3 marks drawn, 4 expected
  action Figure = all { on("Figure"), fig' = fig,
    consume(clauses([
      (ifd(w, 1) == ifd(w, 2), "the curves drawn are not those asked"),
      (ifd(w, 3) == ifd(w, 4), "the marks drawn are not those asked")])) }
  action init = all { start, fig' = NOFIG }
  action step = any { Curve, Point, End, Mark, Figure }
  val inv = verdict == "ok"
}
