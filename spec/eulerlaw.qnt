// The one-dimensional Euler equations linearised about a non-uniform state.
//
// State and perturbation are polynomials (3 coefficients each) of the reduced
// coordinate of the interval from a to b.
module eulerlaw {
  import num.* from "./num"
  import trace.* from "./trace"
  import gas.* from "./gas"
  import polylaw.* from "./polylaw"

  type Base = { n: int, a: int, b: int, g: int, rho: List[int], u: List[int], p: List[int] }
  type Pert = { rho: List[int], u: List[int], p: List[int] }
  type Triple = { rho: int, u: int, p: int }
  pure val NOBASE: Base = { n: 3, a: 0, b: S, g: S, rho: [S], u: [0], p: [S] }
  // 14 fields: n, xmin, xmax, gamma, then 3 coefficients of rho, u, p
  pure def baseOf(v: int, f: int): Base = {
    n: ifd(v, f), a: fd(v, f + 1), b: fd(v, f + 2), g: fd(v, f + 3),
    rho: fds(v, f + 4, 3), u: fds(v, f + 7, 3), p: fds(v, f + 10, 3) }
  pure def pertOf(v: int, f: int): Pert = { rho: fds(v, f, 3), u: fds(v, f + 3, 3), p: fds(v, f + 6, 3) }
  pure def tripleOf(v: int, f: int): Triple = { rho: fd(v, f), u: fd(v, f + 1), p: fd(v, f + 2) }

  pure def value(m: Base, c: List[int], x: int): int = dvalue(c, 0, m.a, m.b, x)
  pure def slope(m: Base, c: List[int], x: int): int = dvalue(c, 1, m.a, m.b, x)
  pure def at(m: Base, q: Pert, x: int): Triple = { rho: value(m, q.rho, x), u: value(m, q.u, x), p: value(m, q.p, x) }
  pure def slopes(m: Base, q: Pert, x: int): Triple = { rho: slope(m, q.rho, x), u: slope(m, q.u, x), p: slope(m, q.p, x) }
  pure def baseFields(m: Base): Pert = { rho: m.rho, u: m.u, p: m.p }
  pure def pos(m: Base, i: int): int = point(m.a, m.b, m.n, i)

  // time derivative of the perturbation
  pure def rate(m: Base, q: Pert, x: int): Triple = {
    val s = at(m, baseFields(m), x)
    val ds = slopes(m, baseFields(m), x)
    val v = at(m, q, x)
    val dv = slopes(m, q, x)
    { rho: -(mul(s.u, dv.rho) + mul(s.rho, dv.u) + mul(ds.u, v.rho) + mul(ds.rho, v.u)),
      u: -(mul(s.u, dv.u) + div(dv.p, s.rho) + mul(ds.u, v.u) - div(mul(ds.p, v.rho), sq(s.rho))),
      p: -(mul(s.u, dv.p) + mul(m.g, mul(s.p, dv.u)) + mul(ds.p, v.u) + mul(m.g, mul(ds.u, v.p))) }
  }
  // size of the terms, for rounding
  pure def sizes(m: Base, q: Pert): Triple = {
    val br = norm(m.rho)  val bu = norm(m.u)  val bp = norm(m.p)
    val vr = norm(q.rho)  val vu = norm(q.u)  val vp = norm(q.p)
    val k = div(r(2 * m.n * m.n), iabs(half(m.a, m.b)))
    val rmin = 2 * m.rho[0] - br
    { rho: mul(k, mul(bu, vr) + mul(br, vu)),
      u: mul(k, mul(bu, vu) + div(vp, rmin) + div(mul(bp, vr), sq(rmin))),
      p: mul(k, mul(bu, vp) + mul(m.g, mul(bp, vu))) + mul(k, mul(m.g, mul(bu, vp))) }
  }
  pure def tripleNear(x: Triple, y: Triple, s: Triple, tol: int): bool =
    near(x.rho, y.rho, mul(s.rho, tol) + 1) and near(x.u, y.u, mul(s.u, tol) + 1) and near(x.p, y.p, mul(s.p, tol) + 1)
  // homogeneous conditions may be written with either sign
  pure def same(x: int, y: int, s: int): bool = near(iabs(x), iabs(y), s)

  pure def judgeInside(m: Base, q: Pert, i: int, bq: Triple, aq: Triple): str = {
    val x = pos(m, i)
    val here = at(m, q, x)
    clauses([
      (tripleNear(bq, rate(m, q, x), sizes(m, q), E11), "the operator is not the linearised Euler operator of the base state"),
      (tripleNear(aq, here, { rho: norm(q.rho), u: norm(q.u), p: norm(q.p) }, E12), "the time operator is not the identity inside the domain")])
  }
  // the boundary point keeps the momentum equation behind a shock
  pure def judgeMomentum(m: Base, q: Pert, i: int, bq: Triple, aq: Triple): str = {
    val x = pos(m, i)
    clauses([
      (near(bq.u, rate(m, q, x).u, mul(sizes(m, q).u, E11) + 1), "behind the shock the operator is not the linearised momentum equation"),
      (near(aq.u, at(m, q, x).u, mul(norm(q.u), E12)), "behind the shock the time operator is not the identity")])
  }
  pure def noTime(aq: Triple): bool = aq.rho == 0 and aq.u == 0 and aq.p == 0
  // symmetry: no velocity and no gradient of density and pressure
  pure def judgeSym(m: Base, q: Pert, i: int, bq: Triple, aq: Triple): str = {
    val x = pos(m, i)
    val d = slopes(m, q, x)
    val k = div(r(2 * m.n * m.n), iabs(half(m.a, m.b)))
    clauses([
      (noTime(aq), "a boundary condition has a time derivative"),
      (same(bq.u, value(m, q.u, x), mul(norm(q.u), E12)), "the symmetry condition is not a zero velocity perturbation"),
      (same(bq.rho, d.rho, mul(mul(k, norm(q.rho)), E11)) and same(bq.p, d.p, mul(mul(k, norm(q.p)), E11)),
        "the symmetry condition is not a zero gradient of density and pressure")])
  }
  // periodicity: equal values (written at the first point) and equal slopes (at the last)
  pure def judgePer(m: Base, q: Pert, i: int, bq: Triple, aq: Triple): str = {
    val x = pos(m, 0)
    val y = pos(m, m.n - 1)
    val k = div(r(2 * m.n * m.n), iabs(half(m.a, m.b)))
    val v = at(m, q, x)  val w = at(m, q, y)
    val dv = slopes(m, q, x)  val dw = slopes(m, q, y)
    clauses([
      (noTime(aq), "a boundary condition has a time derivative"),
      (if (i == 0) same(bq.rho, v.rho - w.rho, mul(norm(q.rho), E12)) and same(bq.u, v.u - w.u, mul(norm(q.u), E12)) and same(bq.p, v.p - w.p, mul(norm(q.p), E12))
       else same(bq.rho, dv.rho - dw.rho, mul(mul(k, norm(q.rho)), E11)) and same(bq.u, dv.u - dw.u, mul(mul(k, norm(q.u)), E11)) and same(bq.p, dv.p - dw.p, mul(mul(k, norm(q.p)), E11)),
        "the periodic condition does not connect values and slopes of both ends")])
  }

  // mode exp(-i omega t) of real part q and imaginary part v
  pure def isMode(m: Base, om: Cplx, q: Pert, v: Pert, x: int, tol: int): bool = {
    val a = at(m, q, x)
    val b = at(m, v, x)
    val both: Pert = { rho: q.rho.concat(v.rho), u: q.u.concat(v.u), p: q.p.concat(v.p) }
    val sz = sizes(m, both)
    val o = cabs1(om)
    // eigenvalue solvers are accurate with respect to the largest term (of dimensionless states)
    val big = sz.rho + sz.u + sz.p + mul(o, norm(both.rho) + norm(both.u) + norm(both.p))
    val s: Triple = { rho: big, u: big, p: big }
    and {
      tripleNear(rate(m, q, x), turn(om.im, a, om.re, b), s, tol),
      tripleNear(rate(m, v, x), turn(om.im, b, -om.re, a), s, tol) }
  }
  pure def turn(k: int, a: Triple, j: int, b: Triple): Triple =
    { rho: mul(k, a.rho) + mul(j, b.rho), u: mul(k, a.u) + mul(j, b.u), p: mul(k, a.p) + mul(j, b.p) }

  // ---- shock at the left end ----------------------------------------------
  // downstream state behind a shock moving at speed s, upstream Mach number m0, total quantities of (r0,u0,p0) at m0ref
  pure def behind(g: int, pt: int, rtt: int, m: int, s: int): Triple = {
    val t = div(rtt, TtTs(g, m))
    val p0 = div(pt, PtPs(g, m))
    val r0 = div(p0, t)
    val a0 = sqrt(mul(g, t))
    val mr = m - div(s, a0)
    val u0 = mul(mr, a0)
    { rho: mul(r0, shockRho(g, mr)), u: s + div(u0, shockRho(g, mr)), p: mul(p0, shockP(g, mr)) }
  }
  // solution of the linearised shock relations: change of the state at the mean
  // position for a displacement dx and a speed s (both small numbers)
  pure def shockResponse(m: Base, grad: int, dx: int, s: int): Triple = {
    val x = pos(m, 0)
    val d = at(m, baseFields(m), x)
    val dd = slopes(m, baseFields(m), x)
    val m1 = div(d.u, sqrt(div(mul(m.g, d.p), d.rho)))
    val m0 = shockM2(m.g, m1)
    val p0 = mul(d.p, shockP(m.g, m1))
    val t0 = div(mul(div(d.p, d.rho), shockP(m.g, m1)), shockRho(m.g, m1))
    val rtt = mul(t0, TtTs(m.g, m0))
    val pt = mul(p0, PtPs(m.g, m0))
    val up = behind(m.g, pt, rtt, m0 + mul(grad, dx), s)
    val dn = behind(m.g, pt, rtt, m0 - mul(grad, dx), -s)
    { rho: (up.rho - dn.rho) / 2 - mul(dd.rho, dx),
      u: (up.u - dn.u) / 2 - mul(dd.u, dx),
      p: (up.p - dn.p) / 2 - mul(dd.p, dx) }
  }
  // one row of the shock condition: k.q' + kx*dx + ks*s = 0
  type Cond = { rho: int, u: int, p: int, x: int, s: int }
  pure def rowOf(v: int, f: int): Cond = { rho: fd(v, f), u: fd(v, f + 1), p: fd(v, f + 2), x: fd(v, f + 3), s: fd(v, f + 4) }
  pure def rowOn(k: Cond, t: Triple, dx: int, s: int): { sum: int, size: int } = {
    val ts = [mul(k.rho, t.rho), mul(k.u, t.u), mul(k.p, t.p), mul(k.x, dx), mul(k.s, s)]
    { sum: ts.foldl(0, (a, b) => a + b), size: ts.foldl(0, (a, b) => a + iabs(b)) }
  }
  // `extra`: size of terms the row is a difference of; `noise`: rounding of these
  pure def holds(k: Cond, t: Triple, dx: int, s: int, extra: int, noise: int, tol: int): bool = {
    val o = rowOn(k, t, dx, s)
    near(o.sum, 0, mul(o.size + mul(iabs(k.s), extra), tol) + noise)
  }
  pure def det(k: List[Cond]): int =
    mul(k[0].rho, mul(k[1].u, k[2].p) - mul(k[1].p, k[2].u)) - mul(k[0].u, mul(k[1].rho, k[2].p) - mul(k[1].p, k[2].rho))
      + mul(k[0].p, mul(k[1].rho, k[2].u) - mul(k[1].u, k[2].rho))
  pure def scale(k: Cond, m: Base): Cond = { ...k, rho: mul(k.rho, m.rho[0]), u: mul(k.u, iabs(m.u[0])), p: mul(k.p, m.p[0]) }
  pure def big(k: Cond): int = iabs(k.rho) + iabs(k.u) + iabs(k.p)
  pure def judgeShock(m: Base, grad: int, ks: List[Cond], timeOther: int): str = {
    val h = 2^70
    val l = iabs(m.b - m.a)
    val vel = iabs(m.u[0])
    val dx = mul(l, h)
    val s = mul(vel, h)
    val onlyX = shockResponse(m, grad, dx, 0)
    val onlyS = shockResponse(m, grad, 0, s)
    val sc = ks.listMap(k => scale(k, m))
    clauses([
      (timeOther == 0, "the shock condition has time derivatives other than the shock speed"),
      (iabs(det(sc)) * 1000 >= mul(big(sc[0]), mul(big(sc[1]), big(sc[2]))), "the shock conditions are not independent"),
      (ks.indices().forall(i => holds(ks[i], onlyS, 0, s, 0, 0, E8)), "a shock condition is not the linearised jump of a moving shock"),
      (ks.indices().forall(i => holds(ks[i], onlyX, dx, 0, mul(mul(vel, iabs(grad)), dx), mul(mul(big(sc[i]), h), E12), E3)), "a shock condition is not the linearised jump of a displaced shock")])
  }
  pure def listMap(xs: List[Cond], f: Cond => Cond): List[Cond] = xs.foldl([], (a, x) => a.append(f(x)))

  // ---- modes at the ends: 0 symmetry, 1 periodic, 2 shock at the left and symmetry at the right
  pure def modeSize(m: Base, q: Pert): int = mul(div(r(2 * m.n * m.n), iabs(half(m.a, m.b))), norm(q.rho) + norm(q.u) + norm(q.p))
  pure def zeroAll(xs: List[int], s: int): bool = xs.indices().forall(i => near(xs[i], 0, s))
  pure def fits(m: Base, q: Pert, kind: int, s: int): bool = {
    val x = pos(m, 0)  val y = pos(m, m.n - 1)
    val dx = slopes(m, q, x)  val dy = slopes(m, q, y)
    val vx = at(m, q, x)  val vy = at(m, q, y)
    if (kind == 0) zeroAll([vx.u, vy.u, dx.rho, dy.rho, dx.p, dy.p], s)
    else if (kind == 2) zeroAll([vy.u, dy.rho, dy.p], s)
    else zeroAll([vx.u - vy.u, vx.rho - vy.rho, vx.p - vy.p, dx.u - dy.u, dx.rho - dy.rho, dx.p - dy.p], s)
  }
}
