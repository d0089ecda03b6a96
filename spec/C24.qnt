// C24  The secant iteration finds the abscissa of a monotonic function, for every
// element of its arguments.
module C24 {
  import num.* from "./num"
  import trace.* from "./trace"
  import machine.* from "./machine"

  // increasing functions: 0 straight line, 1 cubic, 2 exponential, 3 root
  pure def f(kind: int, a: int, b: int, x: int): int =
    if (kind == 0) mul(a, x) + b
    else if (kind == 1) mul(a, cube(x)) + mul(b, x)
    else if (kind == 2) mul(b, exp(mul(a, x)))
    else sqrt(b + mul(a, x))
  // 1 function, 2-3 parameters, 4 value asked, 5 start, 6 tolerance, 7 result
  pure def judge(v: int): str = {
    val x = fd(v, 7)
    val d = 2 * (if (mul(fd(v, 6), iabs(x)) > fd(v, 6)) mul(fd(v, 6), iabs(x)) else fd(v, 6))
    val lo = f(ifd(v, 1), fd(v, 2), fd(v, 3), x - d)
    val hi = f(ifd(v, 1), fd(v, 2), fd(v, 3), x + d)
    clauses([
      (fin(x), "the result is not a number"),
      (lo <= fd(v, 4) and fd(v, 4) <= hi, "the result is not within the tolerance of the solution")])
  }
  action Solve = all { on("Solve"), consume(judge(w)) }
  action init = start
  action step = any { Solve }
  val inv = verdict == "ok"
}
