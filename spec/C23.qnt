// C23  The integrators advance step by step with the method and error control
// they announce, and end exactly at the end of the range.
module C23 {
  import num.* from "./num"
  import trace.* from "./trace"
  import machine.* from "./machine"
  import odelaw.* from "./odelaw"

  // current integration: equations, place, end, step asked, tolerance, whether adaptive
  type Run = { c: List[int], x: int, y: Y, end: int, h: int, tol: int, adaptive: bool, steps: int }
  var run_: Run
  pure val IDLE: Run = { c: [], x: 0, y: { a: 0, b: 0 }, end: 0, h: 0, tol: 0, adaptive: false, steps: 0 }

  // 1 adaptive, 2 x, 3-4 y, 5 end, 6 step, 7 tolerance, 8 to 17 equations
  action Begin = all { on("Begin"), consume("ok"),
    run_' = { adaptive: fd(w, 1) == S, x: fd(w, 2), y: { a: fd(w, 3), b: fd(w, 4) }, end: fd(w, 5), h: fd(w, 6), tol: fd(w, 7), c: fds(w, 8, 10), steps: 0 } }
  // first point recorded: 1 x, 2-3 y
  action First = all { on("First"),
    consume(if (fd(w, 1) == run_.x and fd(w, 2) == run_.y.a and fd(w, 3) == run_.y.b) "ok" else "the solution does not start at the initial values"), run_' = run_ }
  pure def mag(y: Y): int = S + iabs(y.a) + iabs(y.b)
  pure def judgeFixed(s: Run, x: int, y: Y): str = {
    val h = if (s.end - s.x < s.h) s.end - s.x else s.h
    val want = rk4(s.c, s.x, s.y, h)
    clauses([
      (h > 0, "a step is made beyond the end of the range"),
      (near(x, s.x + h, mul(S + iabs(s.x) + iabs(s.end), E13)), "a step has not the length asked"),
      (near(y.a, want.a, mul(mag(want), E12)) and near(y.b, want.b, mul(mag(want), E12)), "a step is not a fourth order Runge-Kutta step")])
  }
  pure def judgeAdaptive(s: Run, x: int, y: Y): str = {
    val h = x - s.x
    val want = embedded(s.c, s.x, s.y, h)
    clauses([
      (fin(x) and fin(y.a) and fin(y.b), "a step is not a number"),
      ((h > 0) == (s.h > 0) and h != 0 or (h == 0 and s.x == s.end), "a step goes backwards"),
      (if (s.h > 0) x <= s.end + E12 * 10 else x >= s.end - E12 * 10, "a step goes beyond the end of the range"),
      (near(y.a, want.y.a, mul(mag(want.y), E11)) and near(y.b, want.y.b, mul(mag(want.y), E11)), "a step is not the fifth order step"),
      (want.e <= s.tol + s.tol / 1000 + E12, "a step is accepted with an error above the tolerance")])
  }
  // next point: 1 x, 2-3 y
  action Next = all { on("Next"), {
    val x = fd(w, 1)
    val y: Y = { a: fd(w, 2), b: fd(w, 3) }
    all { consume(if (run_.adaptive) judgeAdaptive(run_, x, y) else judgeFixed(run_, x, y)), run_' = { ...run_, x: x, y: y, steps: run_.steps + 1 } } } }
  // the middle of long integrations is not looked at: 1 points passed over, 2 x, 3-4 y of the last but one
  action Skip = all { on("Skip"), {
    val x = fd(w, 2)
    all { consume(clauses([
      (if (run_.h > 0) run_.x < x and x < run_.end else run_.x > x and x > run_.end, "the steps do not advance towards the end of the range"),
      (ifd(w, 1) <= 9990, "the integration does not stop")])),
      run_' = { ...run_, x: x, y: { a: fd(w, 3), b: fd(w, 4) }, steps: run_.steps + ifd(w, 1) } } } }
  // fewest steps the range can need: the adaptive one never enlarges a step whose error is zero
  action End = all { on("End"),
    consume(clauses([
      (near(run_.x, run_.end, mul(S + iabs(run_.end), E13)), "the integration does not end at the end of the range"),
      (ifd(w, 1) == run_.steps + 1, "the numbers of abscissas and values do not match")])), run_' = run_ }
  action init = all { start, run_' = IDLE }
  action step = any { Begin, First, Next, Skip, End }
  val inv = verdict == "ok"
}
