// C32  The thrust function of a flow at a Mach number, and its inverse on the
// branch of the starting Mach number.
module C32 {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"
  import machine.* from "./machine"

  // (p + rho u^2) A over its reference Pt A*
  pure def thrustFn(g: int, m: int): int = mul(div(sigma(g, m), PtPs(g, m)), S + mul(g, sq(m)))
  // 1 gamma, 2 Mach, 3 thrust function
  pure def judge(v: int): str = clauses([
    (close(fd(v, 3), thrustFn(fd(v, 1), fd(v, 2)), E11), "the thrust function is not that of the flow"),
    (fd(v, 3) >= thrustFn(fd(v, 1), S) - E10, "the thrust function is less than that of the sonic flow")])
  // 1 gamma, 2 thrust, 3 start, 4 Mach found
  pure def judgeInverse(v: int): str = clauses([
    (fin(fd(v, 4)) and fd(v, 4) > 0 and close(thrustFn(fd(v, 1), fd(v, 4)), fd(v, 2), E6 * 20), "the Mach number found has not the thrust asked"),
    ((fd(v, 4) > S) == (fd(v, 3) > S), "the Mach number found is on the other branch")])
  // the flow sections: 1 gamma, 2 Mach, 3 section ratio, 4 total to static pressure ratio, 5 thrust function
  action Direct = all { on("Direct"), consume(judge(w)) }
  action Inverse = all { on("Inverse"), consume(judgeInverse(w)) }
  action init = start
  action step = any { Direct, Inverse }
  val inv = verdict == "ok"
}
