// The Orr-Sommerfeld operator: At dv/dt = B v with
//   At v = v'' - k^2 v,   B v = -i k U (v'' - k^2 v) + i k U'' v + (v'''' - 2 k^2 v'' + k^4 v)/Re
// The profile U and the perturbation v are polynomials (3 and 6 real coefficients)
// of the reduced coordinate; the wave number k may be complex.
module oslaw {
  import num.* from "./num"
  import trace.* from "./trace"
  import polylaw.* from "./polylaw"

  type Flow = { n: int, a: int, b: int, k: Cplx, re: int, u: List[int] }
  pure val NOFLOW: Flow = { n: 4, a: -S, b: S, k: C1, re: S, u: [0] }
  // 9 fields: n, xmin, xmax, wave number (2), Reynolds, 3 coefficients
  pure def flowOf(v: int, f: int): Flow =
    { n: ifd(v, f), a: fd(v, f + 1), b: fd(v, f + 2), k: cx(fd(v, f + 3), fd(v, f + 4)), re: fd(v, f + 5), u: fds(v, f + 6, 3) }
  pure def cscale(s: int, z: Cplx): Cplx = { re: mul(s, z.re), im: mul(s, z.im) }
  pure val CI: Cplx = { re: 0, im: S }
  pure def d(m: Flow, c: List[int], k: int, x: int): int = dvalue(c, k, m.a, m.b, x)

  pure def timeRow(m: Flow, c: List[int], x: int): Cplx = {
    val k2 = cmul(m.k, m.k)
    csub(cx(d(m, c, 2, x), 0), cscale(d(m, c, 0, x), k2))
  }
  pure def spaceRow(m: Flow, c: List[int], x: int): Cplx = {
    val k2 = cmul(m.k, m.k)
    val ik = cmul(CI, m.k)
    val v = d(m, c, 0, x)
    val v2 = d(m, c, 2, x)
    val visc = cadd(cadd(cx(d(m, c, 4, x), 0), cscale(-2 * v2, k2)), cscale(v, cmul(k2, k2)))
    cadd(csub(cscale(mul(d(m, m.u, 2, x), v), ik), cscale(d(m, m.u, 0, x), cmul(ik, timeRow(m, c, x)))),
      { re: div(visc.re, m.re), im: div(visc.im, m.re) })
  }
  // rounding errors of both rows
  pure def timeSize(m: Flow, c: List[int]): int =
    mul(rounding(norm(c), m.n, 2, m.a, m.b), r(10)) + mul(mul(norm(c), sq(cabs1(m.k))), E11)
  pure def spaceSize(m: Flow, c: List[int]): int = {
    val k = cabs1(m.k)
    val u = norm(m.u)
    mul(mul(k, u), timeSize(m, c)) + mul(mul(k, norm(c)), mul(rounding(u, m.n, 2, m.a, m.b), r(10)))
      + div(mul(rounding(norm(c), m.n, 4, m.a, m.b), r(10)) + 2 * mul(sq(k), timeSize(m, c)), m.re) + E15
  }
  pure def cnear(x: Cplx, y: Cplx, s: int): bool = near(x.re, y.re, s) and near(x.im, y.im, s)
  pure def pos(m: Flow, i: int): int = point(m.a, m.b, m.n, i)

  pure def judgeInside(m: Flow, c: List[int], i: int, bv: Cplx, av: Cplx): str = clauses([
    (cnear(av, timeRow(m, c, pos(m, i)), timeSize(m, c)), "the time operator is not D2 - k^2"),
    (cnear(bv, spaceRow(m, c, pos(m, i)), spaceSize(m, c)), "the operator is not the Orr-Sommerfeld operator of the profile")])
  // wall: two rows at each end, value and slope of the end point in any order
  pure def judgeWall(m: Flow, c: List[int], i: int, b1: Cplx, b2: Cplx, a1: Cplx, a2: Cplx): str = {
    val v = d(m, c, 0, pos(m, i))
    val s = d(m, c, 1, pos(m, i))
    val sv = mul(norm(c), E12)
    val ss = mul(rounding(norm(c), m.n, 1, m.a, m.b), r(10))
    clauses([
      (a1 == C0 and a2 == C0, "a wall condition has a time derivative"),
      (b1.im == 0 and b2.im == 0, "a wall condition is not real"),
      (or { near(iabs(b1.re), iabs(v), sv) and near(iabs(b2.re), iabs(s), ss), near(iabs(b2.re), iabs(v), sv) and near(iabs(b1.re), iabs(s), ss) },
        "the wall conditions are not a zero value and slope at the wall")])
  }
  // mode exp(-i omega t) of real part c and imaginary part e; `k` multiplies the rounding errors
  pure def isMode(m: Flow, om: Cplx, c: List[int], e: List[int], x: int, k: int): bool = {
    val b = cadd(spaceRow(m, c, x), cmul(CI, spaceRow(m, e, x)))
    val a = cadd(timeRow(m, c, x), cmul(CI, timeRow(m, e, x)))
    val w = cmul(cx(0, -S), cmul(om, a))
    val both = c.concat(e)
    cnear(b, w, k * (spaceSize(m, both) + mul(cabs1(om), timeSize(m, both))))
  }
}
