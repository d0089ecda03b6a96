// C11  Riemann problem: the profile sampled along x/t is the self-similar solution
// made of the waves between the initial and star states.
module C11 {
  import num.* from "./num"
  import trace.* from "./trace"
  import machine.* from "./machine"
  import riemannlaw.* from "./riemannlaw"

  type Pb = { L: Gas, R: Gas, sL: Gas, sR: Gas, wL: int, wR: int }
  pure val VOID: Gas = { g: 0, rho: 0, u: 0, p: 0 }
  var pb: Pb

  // fields of Problem as in C10: 1-4 left, 5-8 right, 9-12 star left, 13-16 star right, 19 20 fastest waves
  pure def problemOf(v: int): Pb =
    { L: gasAt(v, 1), R: gasAt(v, 5), sL: gasAt(v, 9), sR: gasAt(v, 13), wL: fd(v, 19), wR: fd(v, 20) }
  pure def judgeProblem(v: int): str = {
    val b = problemOf(v)
    clauses([(sane(b.L) and sane(b.R) and sane(b.sL) and sane(b.sR) and fin(b.wL) and fin(b.wR), "a state of the solution is not a flow state")])
  }

  // state of a left expansion fan on the ray k
  pure def fan(o: Gas, k: int): Gas = {
    val a = sound(o)
    val u = div(2 * (a + mul((o.g - S) / 2, o.u) + k), o.g + S)
    val c = div(u - k, a)
    val rho = mul(o.rho, pow(c, div(2 * S, o.g - S)))
    { g: o.g, rho: rho, u: u, p: mul(o.p, pow(c, div(2 * o.g, o.g - S))) }
  }
  // left half of the solution (k at the left of the contact), wl: speed of the shock
  pure def leftSide(o: Gas, s: Gas, wl: int, k: int): Gas =
    if (isShock(o, s)) (if (k < wl) o else s)
    else if (k <= o.u - sound(o)) o
    else if (k >= s.u - sound(s)) s
    else fan(o, k)
  pure def exact(b: Pb, k: int): Gas =
    if (k < b.sL.u) leftSide(b.L, b.sL, b.wL, k)
    else mirror(leftSide(mirror(b.R), mirror(b.sR), -b.wR, -k))
  pure def sameState(a: Gas, b: Gas): bool = {
    val vs = sound(a) + sound(b)
    and { close(a.g, b.g, E12), close(a.rho, b.rho, E7), close(a.p, b.p, E7), closeTo(a.u, b.u, E7, vs) }
  }
  // sample: 1 x/t, 2-5 state
  pure def judgeSample(b: Pb, v: int): str = {
    val k = fd(v, 1)
    val s = gasAt(v, 2)
    val d = mul(E8, sound(b.sL) + sound(b.sR) + iabs(b.sL.u))
    if (not(sane(s))) "the sampled state is not a flow state"
    else if (sameState(s, exact(b, k))) "ok"
    // on a discontinuity, either side
    else if (sameState(s, exact(b, k - d)) or sameState(s, exact(b, k + d))) "ok"
    else clauses([
      (close(s.g, exact(b, k).g, E12), "the sampled gas is not the one of this side of the contact"),
      (close(s.p, exact(b, k).p, E7), "the sampled pressure is not the self-similar solution"),
      (close(s.rho, exact(b, k).rho, E7), "the sampled density is not the self-similar solution"),
      (false, "the sampled velocity is not the self-similar solution")])
  }

  action Problem = all { on("Problem"), consume(judgeProblem(w)), pb' = problemOf(w) }
  action Sample = all { on("Sample"), consume(judgeSample(pb, w)), pb' = pb }
  action init = all { start, pb' = { L: VOID, R: VOID, sL: VOID, sR: VOID, wL: 0, wR: 0 } }
  action step = any { Problem, Sample }
  val inv = verdict == "ok"
}
