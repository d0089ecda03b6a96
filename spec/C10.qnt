// C10  Riemann problem: the star states are connected to the initial states by a
// shock or an expansion on each side, and by a contact in between.
module C10 {
  import num.* from "./num"
  import trace.* from "./trace"
  import machine.* from "./machine"
  import riemannlaw.* from "./riemannlaw"

  // fields: 1-4 left, 5-8 right, 9-12 star left, 13-16 star right, 17 p*, 18 u*, 19 left fastest, 20 right fastest
  pure def judge(v: int): str = {
    val L = gasAt(v, 1)
    val R = gasAt(v, 5)
    val sL = gasAt(v, 9)
    val sR = gasAt(v, 13)
    if (not(sane(sL) and sane(sR))) "a star state is not a flow state"
    else {
      val vs = sound(sL) + sound(sR)
      val basic = clauses([
        (close(sL.g, L.g, E12) and close(sR.g, R.g, E12), "a star state does not keep the gas of its side"),
        (close(sL.p, sR.p, E9) and close(sL.p, fd(v, 17), E9), "pressure is not continuous at the contact"),
        (closeTo(sL.u, sR.u, E9, vs) and closeTo(sL.u, fd(v, 18), E9, vs), "velocity is not continuous at the contact"),
        (fin(fd(v, 19)) and fin(fd(v, 20)), "the fastest waves are not numbers"),
        (fd(v, 19) <= sL.u + mul(E7, vs) and sR.u <= fd(v, 20) + mul(E7, vs), "waves are not in order")])
      orElse(basic, orElse(leftWave(L, sL, fd(v, 19), true), rightWave(R, sR, fd(v, 20), true)))
    }
  }
  // two formulations of one problem: 1-4 star left, 5-8 star right of the first, 9-12 and 13-16 of the second,
  // 17 velocity of the second frame (moving frame), or mirrored: 18 = 1
  pure def judgeSame(v: int): str = {
    val m = fd(v, 18) != 0
    val a = gasAt(v, 1)
    val b = gasAt(v, 5)
    val c0 = if (m) mirror(gasAt(v, 13)) else gasAt(v, 9)
    val d0 = if (m) mirror(gasAt(v, 9)) else gasAt(v, 13)
    val c = c0.with("u", c0.u + fd(v, 17))
    val d = d0.with("u", d0.u + fd(v, 17))
    val vs = sound(a) + sound(b) + iabs(fd(v, 17))
    clauses([
      (close(a.p, c.p, E7) and close(a.rho, c.rho, E7) and close(b.rho, d.rho, E7), "the solution depends on the frame or the direction"),
      (closeTo(a.u, c.u, E7, vs) and closeTo(b.u, d.u, E7, vs), "the solution depends on the frame or the direction"),
      (close(a.g, c.g, E12) and close(b.g, d.g, E12), "the gas depends on the frame or the direction")])
  }

  action Solve = all { on("Solve"), consume(judge(w)) }
  action SameProblem = all { on("Same"), consume(judgeSame(w)) }
  action init = start
  action step = any { Solve, SameProblem }
  val inv = verdict == "ok"
}
