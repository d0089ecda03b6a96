// C21  The Orr-Sommerfeld operator is the one of its profile, wave number and
// Reynolds number, with no motion at both walls.
module C21 {
  import num.* from "./num"
  import trace.* from "./trace"
  import machine.* from "./machine"
  import oslaw.* from "./oslaw"

  pure def z(v: int, f: int): Cplx = cx(fd(v, f), fd(v, f + 1))
  // flow in fields 1 to 9, 10 point, 11 to 16 perturbation, then B v, At v
  action Inside = all { on("Inside"), consume(judgeInside(flowOf(w, 1), fds(w, 11, 6), ifd(w, 10), z(w, 17), z(w, 19))) }
  // two rows of B, two of At
  action Wall = all { on("Wall"), consume(judgeWall(flowOf(w, 1), fds(w, 11, 6), ifd(w, 10), z(w, 17), z(w, 19), z(w, 21), z(w, 23))) }
  // refused description of the flow: 1 whether it was refused
  action Bad = all { on("Bad"), consume(if (fd(w, 1) == S) "ok" else "an incomplete description of the flow is accepted") }
  action init = start
  action step = any { Inside, Wall, Bad }
  val inv = verdict == "ok"
}
