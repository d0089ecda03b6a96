// C17  Chebyshev collocation: points, differentiation, interpolation and fit are
// exact for polynomials on any interval.
module C17 {
  import num.* from "./num"
  import trace.* from "./trace"
  import machine.* from "./machine"
  import polylaw.* from "./polylaw"

  // fields 1 n, 2 xmin, 3 xmax
  pure def n(v: int): int = ifd(v, 1)
  pure def a(v: int): int = fd(v, 2)
  pure def b(v: int): int = fd(v, 3)
  pure def span(v: int): int = iabs(b(v) - a(v))

  // 4 index, 5 x, 6 xi
  pure def judgePoint(v: int): str = clauses([
    (closeTo(fd(v, 5), point(a(v), b(v), n(v), ifd(v, 4)), E13, span(v) + iabs(a(v))), "the points are not the Chebyshev points of the interval from xmin to xmax"),
    (closeTo(fd(v, 6), cos(PI * ifd(v, 4) / (n(v) - 1)), E13, S), "the reduced points are not the Chebyshev points from 1 to -1")])
  // 4 order, 5 x, 6 value, 7.. coefficients
  pure def coefs(v: int, m: int): List[int] = fds(v, 7, m)
  pure def judgeDeriv(v: int): str = {
    val c = coefs(v, imin(n(v), 6))
    val k = ifd(v, 4)
    clauses([
      (fin(fd(v, 6)) and near(fd(v, 6), dvalue(c, k, a(v), b(v), fd(v, 5)), rounding(norm(c), n(v), k, a(v), b(v))),
        "the derivative of a polynomial is not exact")])
  }
  // 4 unused, 5 x, 6 value
  pure def judgeInterp(v: int): str = {
    val c = coefs(v, imin(n(v), 6))
    clauses([
      (fin(fd(v, 6)) and near(fd(v, 6), dvalue(c, 0, a(v), b(v), fd(v, 5)), mul(norm(c), E10)), "the interpolation of a polynomial is not exact")])
  }
  pure def judgeFit(v: int): str = {
    val c = coefs(v, imin(n(v), 6))
    clauses([
      (fin(fd(v, 6)) and near(fd(v, 6), dvalue(c, 0, a(v), b(v), fd(v, 5)), mul(norm(c), E8)), "the fit of polynomial data is not that polynomial")])
  }
  // best fit: 4 number of data m, then m triples (x, data, fit): the misfit is orthogonal to the polynomials of degree below n
  pure def judgeBest(v: int): str = {
    val m = ifd(v, 4)
    val big = range(0, m).foldl(0, (s, i) => s + iabs(fd(v, 6 + 3 * i)))
    clauses([
      (range(0, n(v)).indices().forall(k =>
        near(range(0, m).foldl(0, (s, i) => {
          val t = div(fd(v, 5 + 3 * i) - mid(a(v), b(v)), half(a(v), b(v)))
          s + mul(fd(v, 6 + 3 * i) - fd(v, 7 + 3 * i), range(0, k).foldl(S, (p, j) => mul(p, t)))
        }), 0, mul(big, E8))), "the fit is not the closest polynomial to the data")])
  }

  action Point = all { on("Point"), consume(judgePoint(w)) }
  action Deriv = all { on("Deriv"), consume(judgeDeriv(w)) }
  action Interp = all { on("Interp"), consume(judgeInterp(w)) }
  action Fit = all { on("Fit"), consume(judgeFit(w)) }
  action Best = all { on("Best"), consume(judgeBest(w)) }
  action init = start
  action step = any { Point, Deriv, Interp, Fit, Best }
  val inv = verdict == "ok"
}
