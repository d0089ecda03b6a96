// Waves of the one-dimensional Euler equations, for ideal gases.
module riemannlaw {
  import num.* from "./num"
  import trace.* from "./trace"

  type Gas = { g: int, rho: int, u: int, p: int }
  pure def gasAt(v: int, i: int): Gas = { g: fd(v, i), rho: fd(v, i + 1), u: fd(v, i + 2), p: fd(v, i + 3) }
  pure def sound(o: Gas): int = sqrt(div(mul(o.g, o.p), o.rho))
  pure def mirror(o: Gas): Gas = o.with("u", -o.u)
  pure def sane(o: Gas): bool = and { fin(o.g), fin(o.rho), fin(o.u), fin(o.p), o.rho > 0, o.p > 0, o.g > S }

  // the state s behind a left-going wave entering the state o; wsp: speed of its foremost edge (if known)
  pure def leftWave(o: Gas, s: Gas, wsp: int, knownW: bool): str = {
    val a = sound(o)
    val as = sound(s)
    val vs = a + as + iabs(o.u - s.u)          // scale of velocities
    if (s.p * 10^9 > o.p * (10^9 + 1)) {
      // shock of speed ws, from its pressure jump
      val ws = o.u - mul(a, sqrt(S + div(mul(o.g + S, div(s.p, o.p) - S), 2 * o.g)))
      val v1 = o.u - ws
      val v2 = s.u - ws
      clauses([
        (not(knownW) or closeTo(wsp, ws, E7, vs), "the speed of a shock is not the one of its pressure jump"),
        (closeTo(mul(o.rho, v1), mul(s.rho, v2), E7, mul(o.rho, v1)), "mass is not conserved across a shock"),
        (closeTo(o.p + mul(o.rho, sq(v1)), s.p + mul(s.rho, sq(v2)), E7, o.p + mul(o.rho, sq(v1))), "momentum is not conserved across a shock"),
        (closeTo(sq(a) / 1 + mul((o.g - S) / 2, sq(v1)), sq(as) + mul((o.g - S) / 2, sq(v2)), E7, sq(a) + sq(v1)), "energy is not conserved across a shock"),
        (v1 >= a - mul(E7, a) and v2 <= as + mul(E7, as), "a shock violates the entropy condition")])
    } else if (s.p * (10^9 + 1) < o.p * 10^9) clauses([
        (not(knownW) or closeTo(wsp, o.u - a, E7, vs), "the head of an expansion does not move at the speed of sound"),
        (close(div(s.p, o.p), pow(div(s.rho, o.rho), o.g), E7), "entropy changes through an expansion"),
        (closeTo(o.u + div(2 * a, o.g - S), s.u + div(2 * as, o.g - S), E7, div(vs, o.g - S)), "the Riemann invariant changes through an expansion")])
    else clauses([
        (not(knownW) or closeTo(wsp, o.u - a, E6, vs), "a vanishing wave does not move at the speed of sound"),
        (close(s.rho, o.rho, E6) and closeTo(s.u, o.u, E6, vs), "a state changes without a wave")])
  }
  pure def rightWave(o: Gas, s: Gas, wsp: int, knownW: bool): str = leftWave(mirror(o), mirror(s), -wsp, knownW)
  pure def isShock(o: Gas, s: Gas): bool = s.p > o.p
}
