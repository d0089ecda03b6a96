// C12  Unsteady inflow: a reservoir of given total pressure and temperature feeds
// a flow through a right-going wave and a contact.
module C12 {
  import num.* from "./num"
  import trace.* from "./trace"
  import machine.* from "./machine"
  import riemannlaw.* from "./riemannlaw"

  // the object keeps its initial state whatever is solved with it
  var init_state: Gas
  pure val VOID: Gas = { g: 0, rho: 0, u: 0, p: 0 }

  pure def rtt(o: Gas): int = div(o.p, o.rho) + div(mul(o.g - S, sq(o.u)), 2 * o.g)
  pure def ptot(o: Gas): int = mul(o.p, pow(div(rtt(o), div(o.p, o.rho)), div(o.g, o.g - S)))

  // New: 1-4 initial state. Solve: 1-4 initial state object afterwards, 5 pt0, 6 rtt0, 7-10 star left, 11-14 star right, 15 p*, 16 u*
  pure def judgeNew(v: int): str = clauses([(sane(gasAt(v, 1)), "the initial state is not a flow state")])
  pure def judgeSolve(o: Gas, v: int): str = {
    val sL = gasAt(v, 7)
    val sR = gasAt(v, 11)
    if (not(sane(sL) and sane(sR))) "a star state is not a flow state"
    else {
      val vs = sound(sL) + sound(sR)
      orElse(clauses([
        (gasAt(v, 1) == o, "solving changes the initial state given"),
        (close(sL.g, o.g, E12) and close(sR.g, o.g, E12), "a star state does not keep the gas"),
        (close(sL.p, sR.p, E6) and close(sR.p, fd(v, 15), E9), "pressure is not continuous at the contact"),
        (closeTo(sL.u, sR.u, E9, vs) and closeTo(sL.u, fd(v, 16), E9, vs), "velocity is not continuous at the contact"),
        (close(ptot(sL), fd(v, 5), E7), "the inflow does not have the total pressure of the reservoir"),
        (close(rtt(sL), fd(v, 6), E7), "the inflow does not have the total temperature of the reservoir")]),
        rightWave(o, sR, 0, false))
    }
  }
  action New = all { on("New"), consume(judgeNew(w)), init_state' = gasAt(w, 1) }
  action Solve = all { on("Solve"), consume(judgeSolve(init_state, w)), init_state' = init_state }
  action init = all { start, init_state' = VOID }
  action step = any { New, Solve }
  val inv = verdict == "ok"
}
