// One-step methods for y' = F(x, y), two unknowns, F from a family of
// functions with bilinear and polynomial terms.
module odelaw {
  import num.* from "./num"
  import trace.* from "./trace"

  type Y = { a: int, b: int }
  // F = (f0 + f1 x + f2 a + f3 b + f4 a b, g0 + g1 x + g2 a + g3 b + g4 a b)
  pure def rhs(c: List[int], x: int, y: Y): Y = {
    val ab = mul(y.a, y.b)
    { a: c[0] + mul(c[1], x) + mul(c[2], y.a) + mul(c[3], y.b) + mul(c[4], ab),
      b: c[5] + mul(c[6], x) + mul(c[7], y.a) + mul(c[8], y.b) + mul(c[9], ab) }
  }
  pure def plus(y: Y, h: int, k: Y): Y = { a: y.a + mul(h, k.a), b: y.b + mul(h, k.b) }
  pure def comb(y: Y, ts: List[(int, Y)]): Y = ts.foldl(y, (s, t) => plus(s, t._1, t._2))
  pure def rk4(c: List[int], x: int, y: Y, h: int): Y = {
    val k0 = rhs(c, x, y)
    val k1 = rhs(c, x + h / 2, plus(y, h / 2, k0))
    val k2 = rhs(c, x + h / 2, plus(y, h / 2, k1))
    val k3 = rhs(c, x + h, plus(y, h, k2))
    comb(y, [(h / 6, k0), (h / 3, k1), (h / 3, k2), (h / 6, k3)])
  }
  // the embedded pair of Cash and Karp: value and root mean square of the error estimate
  pure def embedded(c: List[int], x: int, y: Y, h: int): { y: Y, e: int } = {
    val k0 = rhs(c, x, y)
    val k1 = rhs(c, x + h / 5, plus(y, h / 5, k0))
    val k2 = rhs(c, x + 3 * h / 10, comb(y, [(3 * h / 40, k0), (9 * h / 40, k1)]))
    val k3 = rhs(c, x + 3 * h / 5, comb(y, [(3 * h / 10, k0), (-9 * h / 10, k1), (6 * h / 5, k2)]))
    val k4 = rhs(c, x + h, comb(y, [(-11 * h / 54, k0), (5 * h / 2, k1), (-70 * h / 27, k2), (35 * h / 27, k3)]))
    val k5 = rhs(c, x + 7 * h / 8, comb(y, [(1631 * h / 55296, k0), (175 * h / 512, k1), (575 * h / 13824, k2), (44275 * h / 110592, k3), (253 * h / 4096, k4)]))
    val y5 = comb(y, [(37 * h / 378, k0), (250 * h / 621, k2), (125 * h / 594, k3), (512 * h / 1771, k5)])
    val y4 = comb(y, [(2825 * h / 27648, k0), (18575 * h / 48384, k2), (13525 * h / 55296, k3), (277 * h / 14336, k4), (h / 4, k5)])
    { y: y5, e: sqrt((sq(y5.a - y4.a) + sq(y5.b - y4.b)) / 2) }
  }
}
