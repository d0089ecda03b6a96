// C31  Trigonometry in degrees.
module C31 {
  import num.* from "./num"
  import trace.* from "./trace"
  import machine.* from "./machine"

  // argument of the point (x, y), in degrees, between -180 and 180
  pure def argument(y: int, x: int): int =
    if (x > 0) deg(atan(div(y, x)))
    else if (x < 0) deg(atan(div(y, x))) + (if (y >= 0) 180 * S else -180 * S)
    else if (y > 0) 90 * S else if (y < 0) -90 * S else 0
  // 1 angle, 2 cosine, 3 sine, 4 tangent
  pure def judgeDirect(v: int): str = {
    val a = rad(fd(v, 1))
    val p = sincos(a)
    // rounding of a large angle
    val tol = E12 + mul(E12, iabs(a)) / 100
    clauses([
      (near(fd(v, 2), p.c, tol), "cosine"),
      (near(fd(v, 3), p.s, tol), "sine"),
      (iabs(p.c) < E3 or near(fd(v, 4), div(p.s, p.c), div(10 * tol, sq(p.c))), "tangent")])
  }
  // inverse functions: 1 value in [-1, 1], 2 acos, 3 asin, 4 any value, 5 atan
  pure def judgeInverse(v: int): str = clauses([
    (0 <= fd(v, 2) and fd(v, 2) <= 180 * S + E10 and near(cosd(fd(v, 2)), fd(v, 1), E12 * 10), "arc cosine"),
    (-90 * S - E10 <= fd(v, 3) and fd(v, 3) <= 90 * S + E10 and near(sind(fd(v, 3)), fd(v, 1), E12 * 10), "arc sine"),
    (fin(fd(v, 5)) and near(fd(v, 5), deg(atan(fd(v, 4))), E10), "arc tangent")])
  // 1-2 ordinate and abscissa, 3 angle
  pure def judgeArg(v: int): str = clauses([(fin(fd(v, 3)) and near(fd(v, 3), argument(fd(v, 1), fd(v, 2)), E10), "argument of a point")])
  action Direct = all { on("Direct"), consume(judgeDirect(w)) }
  action Inverse = all { on("Inverse"), consume(judgeInverse(w)) }
  action Arg = all { on("Arg"), consume(judgeArg(w)) }
  action init = start
  action step = any { Direct, Inverse, Arg }
  val inv = verdict == "ok"
}
