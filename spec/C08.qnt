// C08  Rayleigh flow: frictionless duct with heating. All the ratios to the sonic
// state describe one flow of constant mass flow and impulse.
module C08 {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"
  import machine.* from "./machine"

  pure def TiTicri(g: int, m: int): int = {
    val p = div(g + S, S + mul(g, sq(m)))
    div(mul(mul(sq(m), sq(p)), TtTs(g, m)), TtTs(g, S))
  }
  // fields: 1 gamma, 2 Mach, 3 p/p*, 4 T/T*, 5 Ti/Ti*, 6 rho/rho*, 7 Pi/Pi*, 8 V/V*, 9 (s-s*)/Cp
  pure def judgeState(v: int): str = {
    val g = fd(v, 1)
    val m = fd(v, 2)
    val p = fd(v, 3)
    val t = fd(v, 4)
    val ti = fd(v, 5)
    val rho = fd(v, 6)
    val vel = fd(v, 8)
    if ([3, 4, 5, 6, 7, 8].select(k => not(fin(fd(v, k)) and fd(v, k) > 0)).length() > 0) "a ratio is not a positive number"
    else clauses([
      (close(p, mul(rho, t), E11), "state: p is not rho T"),
      (close(mul(rho, vel), S, E11), "mass flow is not constant along the duct"),
      (close(mul(p, S + mul(g, sq(m))), g + S, E11), "impulse p(1+gamma M^2) is not constant along the duct"),
      (close(sq(vel), mul(sq(m), t), E11), "velocity is not Mach times the speed of sound"),
      (close(mul(ti, TtTs(g, S)), mul(t, TtTs(g, m)), E11), "total temperature is not the one of the static state"),
      (close(mul(fd(v, 7), PtPs(g, S)), mul(p, PtPs(g, m)), E10), "total pressure is not the one of the static state"),
      (approx(fd(v, 9), ln(t) - mul(div(g - S, g), ln(p)), E10), "entropy is not the one of the static state"),
      (fd(v, 9) <= E10 and ti <= S + E10, "the sonic state is not the one of maximum entropy and total temperature")])
  }
  // fields: 1 gamma, 2 Mach, 3 maximum heating ratio
  pure def judgeHeat(v: int): str = clauses([
    (close(mul(fd(v, 3), TiTicri(fd(v, 1), fd(v, 2))), S, E10), "maximum heating ratio is not Ti*/Ti")])
  // listed deviation: the heating ratio of a gas of gamma 1.4 whatever gamma is asked
  pure def devHeat(v: int): str =
    if (judgeHeat(v) != "ok" and close(mul(fd(v, 3), TiTicri(q(14, 10), fd(v, 2))), S, E10)) "rayleigh-heating-gamma" else ""
  // fields: 1 gamma, 2 Ti/Ti*, 3 Mach
  pure def judgeSub(v: int): str = clauses([
    (fin(fd(v, 3)) and fd(v, 3) >= 0 and fd(v, 3) <= S + E7, "not a subsonic Mach number"),
    (near(TiTicri(fd(v, 1), fd(v, 3)), fd(v, 2), E10), "subsonic Mach number does not give back Ti/Ti*")])
  pure def judgeSup(v: int): str = clauses([
    (fin(fd(v, 3)) and fd(v, 3) >= S - E7, "not a supersonic Mach number"),
    (near(TiTicri(fd(v, 1), fd(v, 3)), fd(v, 2), E10), "supersonic Mach number does not give back Ti/Ti*")])
  // heating between two stations. fields: 1 gamma, 2 M1, 3 M2 closer to sonic, 4 Ti1, 5 Ti2, 6 s1, 7 s2, 8 Pi1, 9 Pi2
  pure def judgeDuct(v: int): str = clauses([
    (fd(v, 4) < fd(v, 5), "heating does not drive the flow towards Mach 1"),
    (fd(v, 6) < fd(v, 7), "entropy does not increase with heating"),
    (fd(v, 8) > fd(v, 9), "total pressure does not decrease with heating")])

  action State = all { on("State"), consume(judgeState(w)) }
  action MaximumHeating = all { on("Heat"), consumeDev(judgeHeat(w), devHeat(w)) }
  action SubsonicMach = all { on("Sub"), consume(judgeSub(w)) }
  action SupersonicMach = all { on("Sup"), consume(judgeSup(w)) }
  action Duct = all { on("Duct"), consume(judgeDuct(w)) }
  action init = start
  action step = any { State, MaximumHeating, SubsonicMach, SupersonicMach, Duct }
  val inv = verdict == "ok"
}
