// C18  What a collocation object answers does not depend on what was asked before,
// of it or of another one.
module C18 {
  import num.* from "./num"
  import trace.* from "./trace"
  import machine.* from "./machine"
  import polylaw.* from "./polylaw"

  type Obj = { n: int, a: int, b: int }
  var objs: List[Obj]
  // cached value holders: how many times each was computed
  var computed: int -> int

  // 1 object, 2 n, 3 xmin, 4 xmax
  pure def objOf(v: int): Obj = { n: ifd(v, 2), a: fd(v, 3), b: fd(v, 4) }
  // 1 object, 2 index, 3 x, 4 xi
  pure def judgePoint(o: Obj, v: int): str = clauses([
    (closeTo(fd(v, 3), point(o.a, o.b, o.n, ifd(v, 2)), E12, iabs(o.b - o.a) + iabs(o.a)), "the points are not those of this object"),
    (closeTo(fd(v, 4), cos(PI * ifd(v, 2) / (o.n - 1)), E12, S), "the reduced points are not those of this object")])
  // 1 object, 2 order, 3 x, 4 value, 5 to 9 coefficients
  pure def judgeDeriv(o: Obj, v: int): str = {
    val c = fds(v, 5, imin(o.n, 5))
    val k = ifd(v, 2)
    clauses([(fin(fd(v, 4)) and near(fd(v, 4), dvalue(c, k, o.a, o.b, fd(v, 3)), rounding(norm(c), o.n, k, o.a, o.b)), "the differentiation matrix is not the one of the order asked")])
  }
  pure def judgeValue(o: Obj, v: int): str = {
    val c = fds(v, 5, imin(o.n, 5))
    clauses([(fin(fd(v, 4)) and near(fd(v, 4), dvalue(c, 0, o.a, o.b, fd(v, 3)), mul(norm(c), E8)), "interpolation or fit is not the one of this object")])
  }
  // cached property: 1 holder, 2 its parameter, 3 value read, 4 times computed so far
  pure def judgeCached(m: int -> int, v: int): str = clauses([
    (fd(v, 3) == sq(fd(v, 2)) + S, "a cached value is not the one of its holder"),
    (ifd(v, 4) == 1, "a cached value is computed again, or not computed")])

  action Begin = all { on("Begin"), consume("ok"), objs' = [objOf(0), objOf(0)], computed' = Map() }
  action New = all { on("New"), consume("ok"), objs' = objs.replaceAt(ifd(w, 1), objOf(w)), computed' = computed }
  action Point = all { on("Point"), consume(judgePoint(objs[ifd(w, 1)], w)), objs' = objs, computed' = computed }
  action Deriv = all { on("Deriv"), consume(judgeDeriv(objs[ifd(w, 1)], w)), objs' = objs, computed' = computed }
  action Interp = all { on("Interp"), consume(judgeValue(objs[ifd(w, 1)], w)), objs' = objs, computed' = computed }
  action Fit = all { on("Fit"), consume(judgeValue(objs[ifd(w, 1)], w)), objs' = objs, computed' = computed }
  action Cached = all { on("Cached"), consume(judgeCached(computed, w)), objs' = objs, computed' = computed.put(ifd(w, 1), 1) }
  action init = all { start, objs' = [objOf(0), objOf(0)], computed' = Map() }
  action step = any { Begin, New, Point, Deriv, Interp, Fit, Cached }
  val inv = verdict == "ok"
}
