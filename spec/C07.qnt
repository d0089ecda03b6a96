// C07  Fanno flow: adiabatic duct with friction. All the ratios to the sonic
// state describe one flow of constant mass flow and total temperature.
module C07 {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"
  import machine.* from "./machine"

  // fields: 1 gamma, 2 Mach, 3 p/p*, 4 T/T*, 5 rho/rho*, 6 Pt/Pt*, 7 V/V*, 8 (s-s*)/Cp, 9 friction parameter
  pure def judgeState(v: int): str = {
    val g = fd(v, 1)
    val m = fd(v, 2)
    val p = fd(v, 3)
    val t = fd(v, 4)
    val rho = fd(v, 5)
    val pt = fd(v, 6)
    val vel = fd(v, 7)
    if ([3, 4, 5, 6, 7].select(k => not(fin(fd(v, k)) and fd(v, k) > 0)).length() > 0) "a ratio is not a positive number"
    else clauses([
      (close(p, mul(rho, t), E11), "state: p is not rho T"),
      (close(mul(rho, vel), S, E11), "mass flow is not constant along the duct"),
      (close(mul(t, TtTs(g, m)), TtTs(g, S), E11), "total temperature is not constant along the duct"),
      (close(sq(vel), mul(sq(m), t), E11), "velocity is not Mach times the speed of sound"),
      (close(mul(pt, PtPs(g, S)), mul(p, PtPs(g, m)), E10), "total pressure is not the one of the static state"),
      (approx(fd(v, 8), ln(t) - mul(div(g - S, g), ln(p)), E10), "entropy is not the one of the static state"),
      (fd(v, 8) <= E10 and pt >= S - E10, "the sonic state is not the one of maximum entropy"),
      (approx(fd(v, 9), friction(g, m), E10), "friction parameter up to the sonic state"),
      (fd(v, 9) >= -E10, "negative friction parameter")])
  }
  pure def friction(g: int, m: int): int = {
    val m2 = sq(m)
    div(S - m2, mul(g, m2)) + mul(div(g + S, 2 * g), ln(div(mul(m2, g + S), 2 * TtTs(g, m))))
  }
  // a duct between two stations. fields: 1 gamma, 2 M1, 3 M2 closer to sonic, 4 f1, 5 f2, 6 s1, 7 s2, 8 Pt1, 9 Pt2
  pure def judgeDuct(v: int): str = clauses([
    (fd(v, 4) > fd(v, 5), "friction does not drive the flow towards Mach 1"),
    (fd(v, 6) < fd(v, 7), "entropy does not increase along the duct"),
    (fd(v, 8) > fd(v, 9), "total pressure does not decrease along the duct")])

  action State = all { on("State"), consume(judgeState(w)) }
  action Duct = all { on("Duct"), consume(judgeDuct(w)) }
  action init = start
  action step = any { State, Duct }
  val inv = verdict == "ok"
}
