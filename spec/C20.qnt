// C20  The linear stability operator of a 1D flow is the linearised Euler operator
// of its base state, with the boundary conditions asked.
module C20 {
  import num.* from "./num"
  import trace.* from "./trace"
  import machine.* from "./machine"
  import polylaw.* from "./polylaw"
  import eulerlaw.* from "./eulerlaw"

  // base in fields 1 to 13, 14 point, 15 to 23 perturbation, 24 to 26 B q, 27 to 29 At q
  pure def args(v: int): { m: Base, q: Pert, i: int, bq: Triple, aq: Triple } =
    { m: baseOf(v, 1), i: ifd(v, 14), q: pertOf(v, 15), bq: tripleOf(v, 24), aq: tripleOf(v, 27) }
  action Inside = all { on("Inside"), { val e = args(w) consume(judgeInside(e.m, e.q, e.i, e.bq, e.aq)) } }
  action Momentum = all { on("Momentum"), { val e = args(w) consume(judgeMomentum(e.m, e.q, e.i, e.bq, e.aq)) } }
  action Sym = all { on("Sym"), { val e = args(w) consume(judgeSym(e.m, e.q, e.i, e.bq, e.aq)) } }
  action Per = all { on("Per"), { val e = args(w) consume(judgePer(e.m, e.q, e.i, e.bq, e.aq)) } }
  // 14 Mach gradient, 15.. three rows of 5, 30 largest other entry of the time operator
  action Shock = all { on("Shock"), consume(judgeShock(baseOf(w, 1), fd(w, 14), [rowOf(w, 15), rowOf(w, 20), rowOf(w, 25)], fd(w, 30))) }
  action init = start
  action step = any { Inside, Momentum, Sym, Per, Shock }
  val inv = verdict == "ok"
}
