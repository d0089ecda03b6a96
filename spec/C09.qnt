// C09  1D flow states as objects: every operation gives the state its law asks
// for, keeps the specific heat ratio, and leaves the other objects alone.
module C09 {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"
  import machine.* from "./machine"

  // one element of the arrays held by an object; on = false: empty slot
  type Obj = { on: bool, g: int, rho: int, u: int, p: int }
  pure val NONE: Obj = { on: false, g: 0, rho: 0, u: 0, p: 0 }
  var slots: List[Obj]

  // events: 1 source slot, 2 target slot, 3 4 5 parameters, 6.. the three slots afterwards
  pure def src(v: int): int = ifd(v, 1)
  pure def dst(v: int): int = ifd(v, 2)
  pure def slotAfter(v: int, k: int): Obj =
    if (fd(v, 6 + 5 * k) == 0) NONE
    else { on: true, g: fd(v, 7 + 5 * k), rho: fd(v, 8 + 5 * k), u: fd(v, 9 + 5 * k), p: fd(v, 10 + 5 * k) }
  pure def after(v: int): List[Obj] = [slotAfter(v, 0), slotAfter(v, 1), slotAfter(v, 2)]

  pure def a2(o: Obj): int = div(mul(o.g, o.p), o.rho)
  pure def mach2(o: Obj): int = div(sq(o.u), a2(o))
  // r Tt = p/rho + (g-1)/(2g) u^2
  pure def rtt(o: Obj): int = div(o.p, o.rho) + div(mul(o.g - S, sq(o.u)), 2 * o.g)
  pure def ptot(o: Obj): int = mul(o.p, pow(div(rtt(o), div(o.p, o.rho)), div(o.g, o.g - S)))
  pure def sane(o: Obj): bool = and { o.on, fin(o.g), fin(o.rho), fin(o.u), fin(o.p), o.rho > 0, o.p > 0, o.g > S }
  pure def same(a: Obj, b: Obj): bool = a == b
  pure def alike(a: Obj, b: Obj, tol: int): bool = and {
    close(a.g, b.g, E12), close(a.rho, b.rho, tol), a.u == b.u or closeTo(a.u, b.u, tol, sqrt(a2(a))), close(a.p, b.p, tol) }

  // the untouched slots, exactly
  pure def others(before: List[Obj], now: List[Obj], d: int): str = clauses([
    (Set(0, 1, 2).forall(k => k == d or same(before[k], now[k])), "an object not operated on has changed")])
  pure def valid(o: Obj, g: int): str = clauses([
    (sane(o), "the resulting state has no positive density and pressure"),
    (close(o.g, g, E12), "the specific heat ratio of the gas is lost")])

  action act(judge: str): bool = all { consume(judge), slots' = after(w) }
  pure def result(before: List[Obj], v: int, g: int, law: str): str = {
    val now = after(v)
    orElse(others(before, now, dst(v)), orElse(valid(now[dst(v)], g), law))
  }

  // parameters: gamma is parameter of New in field 21; rho, u, p in 3 4 5
  pure def judgeNew(before: List[Obj], v: int): str = {
    val o = after(v)[dst(v)]
    orElse(others(before, after(v), dst(v)), clauses([
      (o.on and o.rho == fd(v, 3) and o.u == fd(v, 4) and o.p == fd(v, 5), "a new state does not hold the values given"),
      (close(o.g, fd(v, 21), E12), "a new state does not hold the specific heat ratio given")]))
  }
  pure def judgeCopy(before: List[Obj], v: int): str =
    result(before, v, before[src(v)].g, clauses([(alike(after(v)[dst(v)], before[src(v)], E12), "a copy differs from its original")]))
  pure def judgeSym(before: List[Obj], v: int): str = {
    val o = before[src(v)]
    result(before, v, o.g, clauses([
      (alike(after(v)[dst(v)], o.with("u", -o.u), E12), "the symmetric copy is not the same state with opposite velocity")]))
  }
  // the copy is then changed in place by factors 3 4 5: the original must not follow
  pure def judgeCopyChange(before: List[Obj], v: int): str = {
    val o = before[src(v)]
    val n = after(v)[dst(v)]
    result(before, v, o.g, clauses([
      (close(n.rho, mul(o.rho, fd(v, 3)), E12) and approx(n.u, mul(o.u, fd(v, 4)), E12) and close(n.p, mul(o.p, fd(v, 5)), E12),
        "a copy changed in place does not hold its new values")]))
  }
  pure def judgeJump(before: List[Obj], v: int): str = {
    val o = before[src(v)]
    val n = after(v)[dst(v)]
    result(before, v, o.g, clauses([
      (close(mul(n.rho, n.u), mul(o.rho, o.u), E10), "mass is not conserved by the jump"),
      (close(n.p + mul(n.rho, sq(n.u)), o.p + mul(o.rho, sq(o.u)), E10), "momentum is not conserved by the jump"),
      (close(rtt(n), rtt(o), E10), "energy is not conserved by the jump"),
      (n.p >= o.p - mul(o.p, E10) and n.rho >= o.rho - mul(o.rho, E10), "the jump is not a compression")]))
  }
  // parameter 3: Mach
  pure def judgeIsentropic(before: List[Obj], v: int): str = {
    val o = before[src(v)]
    val n = after(v)[dst(v)]
    result(before, v, o.g, clauses([
      (close(rtt(n), rtt(o), E10), "total temperature changes in an isentropic transformation"),
      (close(ptot(n), ptot(o), E9), "total pressure changes in an isentropic transformation"),
      (n.u >= 0 and approx(mach2(n), sq(fd(v, 3)), E10), "the state does not have the Mach number asked for")]))
  }
  // parameters: 3 total pressure, 4 r Tt, 5 Mach, velocity or pressure
  pure def judgeByM(before: List[Obj], v: int): str = {
    val n = after(v)[dst(v)]
    result(before, v, before[src(v)].g, clauses([
      (close(rtt(n), fd(v, 4), E10), "the state does not have the total temperature asked for"),
      (close(ptot(n), fd(v, 3), E9), "the state does not have the total pressure asked for"),
      (approx(mach2(n), sq(fd(v, 5)), E10) and n.u >= 0, "the state does not have the Mach number asked for")]))
  }
  pure def judgeByU(before: List[Obj], v: int): str = {
    val n = after(v)[dst(v)]
    result(before, v, before[src(v)].g, clauses([
      (close(rtt(n), fd(v, 4), E10), "the state does not have the total temperature asked for"),
      (close(ptot(n), fd(v, 3), E9), "the state does not have the total pressure asked for"),
      (approx(n.u, fd(v, 5), E12), "the state does not have the velocity asked for")]))
  }
  pure def judgeByP(before: List[Obj], v: int): str = {
    val n = after(v)[dst(v)]
    result(before, v, before[src(v)].g, clauses([
      (close(rtt(n), fd(v, 4), E10), "the state does not have the total temperature asked for"),
      (close(ptot(n), fd(v, 3), E9), "the state does not have the total pressure asked for"),
      (close(n.p, fd(v, 5), E12) and n.u >= 0, "the state does not have the pressure asked for")]))
  }
  // queries on slot src: 21 a, 22 u-a, 23 u+a, 24 Mach, 25 mass flow, 26 Ptot, 27 rTtot
  pure def judgeQuery(before: List[Obj], v: int): str = {
    val o = before[src(v)]
    val a = fd(v, 21)
    clauses([
      (after(v) == before, "asking a value changes an object"),
      (a > 0 and close(sq(a), a2(o), E11), "speed of sound"),
      (closeTo(fd(v, 22), o.u - a, E11, a), "left acoustic speed"),
      (closeTo(fd(v, 23), o.u + a, E11, a), "right acoustic speed"),
      (approx(fd(v, 24), div(o.u, a), E11), "Mach number"),
      (approx(fd(v, 25), mul(o.rho, o.u), E11), "mass flow"),
      (close(fd(v, 26), ptot(o), E9), "total pressure"),
      (close(fd(v, 27), rtt(o), E10), "total temperature")])
  }
  // unsteady waves from slot src to pressure 3: 21 rho shock, 22 du shock (3 above p),
  // pressure 4: 23 rho isentropic, 24 du expansion
  pure def judgeWaves(before: List[Obj], v: int): str = {
    val o = before[src(v)]
    val ps = fd(v, 3)
    val rs = fd(v, 21)
    val pe = fd(v, 4)
    val re = fd(v, 23)
    val ae = sqrt(div(mul(o.g, pe), re))
    val ao = sqrt(a2(o))
    if (not(fin(rs) and rs > o.rho and fin(re) and re > 0)) "no density through a wave"
    else clauses([
      (after(v) == before, "asking a value changes an object"),
      // energy across the shock: e2-e1 = (p1+p2)/2 (1/rho1-1/rho2)
      (close(div(div(ps, rs) - div(o.p, o.rho), o.g - S), mul((ps + o.p) / 2, div(S, o.rho) - div(S, rs)), E7), "energy is not conserved through a shock"),
      // du^2 = (p2-p1)(1/rho1-1/rho2)
      (fd(v, 22) >= 0 and close(sq(fd(v, 22)), mul(ps - o.p, div(S, o.rho) - div(S, rs)), E7), "momentum is not conserved through a shock"),
      (close(div(pe, o.p), pow(div(re, o.rho), o.g), E9), "entropy changes through an isentropic wave"),
      (closeTo(fd(v, 24), div(2 * (ae - ao), o.g - S), E9, div(ao, o.g - S)), "Riemann invariant is not conserved through an expansion")])
  }
  // shock moving at 3 into slot src: 21 rho, 22 u, 23 p, 24 gamma behind it, in the same frame
  pure def judgeMovingShock(before: List[Obj], v: int): str = {
    val o = before[src(v)]
    val n: Obj = { on: true, rho: fd(v, 21), u: fd(v, 22), p: fd(v, 23), g: fd(v, 24) }
    val ro = { ...o, u: o.u - fd(v, 3) }
    val rn = { ...n, u: n.u - fd(v, 3) }
    clauses([
      (after(v) == before, "asking a value changes an object"),
      (sane(n) and close(n.g, o.g, E12), "the state behind a moving shock is not a state of the same gas")]).orElse(clauses([
      (close(mul(rn.rho, rn.u), mul(ro.rho, ro.u), E9), "mass is not conserved through a moving shock"),
      (close(rn.p + mul(rn.rho, sq(rn.u)), ro.p + mul(ro.rho, sq(ro.u)), E9), "momentum is not conserved through a moving shock"),
      (close(rtt(rn), rtt(ro), E9), "energy is not conserved through a moving shock"),
      (n.p > o.p and n.rho > o.rho, "a moving shock is not a compression")]))
  }
  // element src of an array object: 3 4 5 unused, 21 22 23 24: gamma, rho, u, p of the element; the slot holds that element
  pure def judgeElement(before: List[Obj], v: int): str = {
    val o = before[src(v)]
    clauses([
      (after(v) == before, "indexing changes an object"),
      (close(fd(v, 21), o.g, E12), "an element of an array state loses the specific heat ratio"),
      (fd(v, 22) == o.rho and fd(v, 23) == o.u and fd(v, 24) == o.p, "an element of an array state has other values")])
  }
  pure def judgeSize(v: int): str = clauses([(fd(v, 1) == fd(v, 2), "size is not the number of elements")])

  action Begin = all { on("Begin"), consume("ok"), slots' = [NONE, NONE, NONE] }
  action New = all { on("New"), act(judgeNew(slots, w)) }
  action Copy = all { on("Copy"), act(judgeCopy(slots, w)) }
  action CopySymmetric = all { on("CopySymmetric"), act(judgeSym(slots, w)) }
  action CopyAndChange = all { on("CopyAndChange"), act(judgeCopyChange(slots, w)) }
  action Jump = all { on("Jump"), act(judgeJump(slots, w)) }
  action Isentropic = all { on("Isentropic"), act(judgeIsentropic(slots, w)) }
  action RecomputeByMach = all { on("ByM"), act(judgeByM(slots, w)) }
  action RecomputeByVelocity = all { on("ByU"), act(judgeByU(slots, w)) }
  action RecomputeByPressure = all { on("ByP"), act(judgeByP(slots, w)) }
  action Query = all { on("Query"), act(judgeQuery(slots, w)) }
  action Waves = all { on("Waves"), act(judgeWaves(slots, w)) }
  action MovingShock = all { on("MovingShock"), act(judgeMovingShock(slots, w)) }
  action Element = all { on("Element"), act(judgeElement(slots, w)) }
  action Size = all { on("Size"), consume(judgeSize(w)), slots' = slots }

  action init = all { start, slots' = [NONE, NONE, NONE] }
  action step = any { Begin, New, Copy, CopySymmetric, CopyAndChange, Jump, Isentropic, RecomputeByMach, RecomputeByVelocity,
    RecomputeByPressure, Query, Waves, MovingShock, Element, Size }
  val inv = verdict == "ok"
}
