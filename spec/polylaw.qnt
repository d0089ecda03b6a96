// Polynomials on an interval, their derivatives, and Chebyshev points
module polylaw {
  import num.* from "./num"
  import trace.* from "./trace"

  pure def mid(a: int, b: int): int = (a + b) / 2
  pure def half(a: int, b: int): int = (b - a) / 2
  // c0 + c1 t + ... in the reduced coordinate t = (x - mid)/half
  pure def poly(c: List[int], t: int): int = c.foldr(0, (a, s) => mul(s, t) + a)
  pure def norm(c: List[int]): int = c.foldl(0, (s, a) => s + iabs(a))
  pure def dpoly(c: List[int]): List[int] =
    if (c.length() < 2) [0] else range(1, c.length()).foldl([], (s, i) => s.append(c[i] * i))
  pure def deriv(c: List[int], k: int): List[int] = range(0, k).foldl(c, (p, i) => dpoly(p))
  // value of the k-th derivative with respect to x
  pure def dvalue(c: List[int], k: int, a: int, b: int, x: int): int = {
    val h = half(a, b)
    range(0, k).foldl(poly(deriv(c, k), div(x - mid(a, b), h)), (v, i) => div(v, h))
  }
  // rounding of a k-th derivative on n points of data of size s: s n^2k / h^k
  pure def rounding(s: int, n: int, k: int, a: int, b: int): int =
    range(0, k).foldl(mul(s, E12), (v, i) => div(v * n * n, iabs(half(a, b)))) + E15
  pure def point(a: int, b: int, n: int, i: int): int = mid(a, b) - mul(half(a, b), cos(PI * i / (n - 1)))
}
