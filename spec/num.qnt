// -*- mode: Bluespec; -*-
// Fixed-point real arithmetic over unbounded integers.
//
// A real number r is represented by round(r * 2^100).  Every definition is
// total: an undefined operation gives NAN, a value no recorded number can have.
module num {
  pure val S = 2^100
  // sentinels used by the recorder: "not a number", "infinite", "call raised"
  pure val NAN = 2^230
  pure val INF = 2^231
  pure val EXC = 2^232

  pure def iabs(x: int): int = if (x < 0) -x else x
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a > b) a else b
  pure def fin(x: int): bool = and { -(2^220) < x, x < 2^220 }
  pure def r(n: int): int = n * S                 // integer to real
  pure def q(n: int, d: int): int = n * S / d     // rational to real
  pure val ONE = S
  pure val HALF = S / 2
  pure val TWO = 2 * S
  // tolerances
  pure val E3 = S / 10^3
  pure val E4 = S / 10^4
  pure val E5 = S / 10^5
  pure val E6 = S / 10^6
  pure val E7 = S / 10^7
  pure val E8 = S / 10^8
  pure val E9 = S / 10^9
  pure val E10 = S / 10^10
  pure val E11 = S / 10^11
  pure val E12 = S / 10^12
  pure val E13 = S / 10^13
  pure val E15 = S / 10^15

  pure def mul(a: int, b: int): int = a * b / S
  pure def div(a: int, b: int): int = if (b == 0) NAN else a * S / b
  pure def sq(a: int): int = a * a / S
  pure def cube(a: int): int = a * a / S * a / S

  // |a-b| <= tol * max(|a|,|b|), both finite
  pure def close(a: int, b: int, tol: int): bool = and {
    fin(a), fin(b), iabs(a - b) * S <= tol * imax(iabs(a), iabs(b)) }
  // |a-b| <= tol (absolute), both finite
  pure def near(a: int, b: int, tol: int): bool = and {
    fin(a), fin(b), iabs(a - b) <= tol }
  // |a-b| <= tol * scale
  pure def closeTo(a: int, b: int, tol: int, scale: int): bool = and {
    fin(a), fin(b), iabs(a - b) * S <= tol * iabs(scale) }
  // mixed: absolute tol + relative tol
  pure def approx(a: int, b: int, tol: int): bool = and {
    fin(a), fin(b), iabs(a - b) * S <= tol * (S + imax(iabs(a), iabs(b))) }

  // ---- square root -------------------------------------------------------
  pure val SHIFTS = [256, 128, 64, 32, 16, 8, 4, 2, 1]
  // number of bits of a positive integer, minus one
  pure def ilog2(n: int): int =
    SHIFTS.foldl((n, 0), (a, s) => if (a._1 >= 2^s) (a._1 / 2^s, a._2 + s) else a)._2
  pure def isqrt(n: int): int =
    if (n <= 0) 0
    else range(0, 7).foldl(2^((ilog2(n) + 1) / 2), (x, _) => (x + n / x) / 2)
  pure def sqrt(x: int): int = if (x < 0) NAN else isqrt(x * S)

  // ---- logarithm and exponential ----------------------------------------
  pure val LN2 = 878668439483319573618263538048        // ln 2 * 2^100
  pure val PI = 3982441812995697363688351113952          // pi * 2^100
  pure def atanhSeries(z: int): int = {
    val z2 = sq(z)
    // z * (1 + z2/3 + z2^2/5 + ... )
    mul(z, [25, 23, 21, 19, 17, 15, 13, 11, 9, 7, 5, 3, 1].foldl(S / 27, (a, k) => S / k + a * z2 / S))
  }
  pure def ln(x: int): int =
    if (x <= 0 or not(fin(x))) NAN
    else {
      val big = if (x >= S) x else S * S / x
      val k0 = ilog2(big / S)
      val m0 = big / 2^k0
      val up = m0 * 10 > 14 * S
      val m = if (up) m0 / 2 else m0
      val k = if (up) k0 + 1 else k0
      val res = 2 * atanhSeries((m - S) * S / (m + S)) + k * LN2
      if (x >= S) res else -res
    }
  pure def expPos(x: int): int = {
    // x in [0, 120*S]
    val k = x / LN2
    val t = (x - k * LN2) / 16
    val e0 = [11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1].foldl(S, (a, n) => S + a * t / S / n)
    val e1 = sq(sq(sq(sq(e0))))
    e1 * 2^k
  }
  pure def exp(x: int): int =
    if (not(fin(x)) or x > 70 * S) NAN
    else if (x >= 0) expPos(x)
    else if (x < -70 * S) 0
    else S * S / expPos(-x)
  pure def pow(x: int, y: int): int =
    if (x == 0) (if (y > 0) 0 else NAN)
    else if (x < 0 or not(fin(x)) or not(fin(y))) NAN
    else exp(mul(y, ln(x)))

  // ---- trigonometry (radians) -------------------------------------------
  // floor remainder
  pure def fmod(a: int, b: int): int = { val m = a % b if (m < 0) m + b else m }
  pure def sincos(x: int): { s: int, c: int } = {
    val y0 = fmod(x + PI, 2 * PI) - PI
    val t = y0 / 8
    val t2 = sq(t)
    val s0 = mul(t, [16, 14, 12, 10, 8, 6, 4, 2].foldl(S, (a, n) => S - a * t2 / S / (n * (n + 1))))
    val c0 = [17, 15, 13, 11, 9, 7, 5, 3, 1].foldl(S, (a, n) => S - a * t2 / S / (n * (n + 1)))
    [1, 2, 3].foldl({ s: s0, c: c0 }, (p, _) => { s: 2 * mul(p.s, p.c), c: sq(p.c) - sq(p.s) })
  }
  pure def sin(x: int): int = sincos(x).s
  pure def cos(x: int): int = sincos(x).c
  pure def tan(x: int): int = { val p = sincos(x) div(p.s, p.c) }
  pure def atanHalf(x: int): int = div(x, S + sqrt(S + sq(x)))
  pure def atan(x: int): int =
    if (x < 0) -atanP(-x) else atanP(x)
  pure def atanP(x: int): int =
    if (x > S) PI / 2 - atan01(S * S / x) else atan01(x)
  pure def atan01(x: int): int = {
    val z = atanHalf(atanHalf(x))
    val z2 = sq(z)
    4 * mul(z, [25, 23, 21, 19, 17, 15, 13, 11, 9, 7, 5, 3, 1].foldl(S / 27, (a, k) => S / k - a * z2 / S))
  }
  pure def asin(x: int): int =
    if (iabs(x) > S) NAN
    else if (iabs(x) == S) (if (x > 0) PI / 2 else -PI / 2)
    else atan(div(x, sqrt(S - sq(x))))
  pure def acos(x: int): int = { val a = asin(x) if (fin(a)) PI / 2 - a else NAN }
  pure def rad(deg: int): int = deg * PI / (180 * S)
  pure def deg(rd: int): int = rd * 180 * S / PI
  pure def sind(x: int): int = sin(rad(x))
  pure def cosd(x: int): int = cos(rad(x))
  pure def tand(x: int): int = tan(rad(x))

  // ---- complex numbers ---------------------------------------------------
  type Cplx = { re: int, im: int }
  pure val C0: Cplx = { re: 0, im: 0 }
  pure val C1: Cplx = { re: S, im: 0 }
  pure def cx(a: int, b: int): Cplx = { re: a, im: b }
  pure def cadd(a: Cplx, b: Cplx): Cplx = { re: a.re + b.re, im: a.im + b.im }
  pure def csub(a: Cplx, b: Cplx): Cplx = { re: a.re - b.re, im: a.im - b.im }
  pure def cmul(a: Cplx, b: Cplx): Cplx =
    { re: (a.re * b.re - a.im * b.im) / S, im: (a.re * b.im + a.im * b.re) / S }
  pure def cabs1(a: Cplx): int = iabs(a.re) + iabs(a.im)
}
