// C22  Eigenvalues of the stability operators are modes of their flow, known
// spectra are found, and selection, sorting and convergence keep them.
module C22 {
  import num.* from "./num"
  import trace.* from "./trace"
  import machine.* from "./machine"
  import polylaw.* from "./polylaw"
  import eulerlaw.* from "./eulerlaw"
  import oslaw as os from "./oslaw"

  pure def pertN(v: int, f: int, m: int): Pert = { rho: fds(v, f, m), u: fds(v, f + m, m), p: fds(v, f + 2 * m, m) }
  // Euler mode: base 1 to 13, 14 point, 15 coefficients m, 16-17 omega, 3m real, 3m imaginary
  pure def judgeMode(v: int): str = {
    val m = baseOf(v, 1)
    val k = ifd(v, 15)
    clauses([(isMode(m, cx(fd(v, 16), fd(v, 17)), pertN(v, 18, k), pertN(v, 18 + 3 * k, k), pos(m, ifd(v, 14)), E8), "an eigenvalue and its vector are not a mode of the linearised Euler equations")])
  }
  // boundary conditions of a mode: as before, point replaced by the kind (0 symmetry, 1 periodic)
  pure def judgeModeEnds(v: int): str = {
    val m = baseOf(v, 1)
    val k = ifd(v, 15)
    val q = pertN(v, 18, k)
    val e = pertN(v, 18 + 3 * k, k)
    val s = mul(modeSize(m, q) + modeSize(m, e), E8)
    clauses([(fits(m, q, ifd(v, 14), s) and fits(m, e, ifd(v, 14), s), "a mode does not satisfy the boundary conditions")])
  }
  // Orr-Sommerfeld mode: flow 1 to 9, 10 point, 11 coefficients k, 12-13 omega, k real, k imaginary
  pure def judgeWave(v: int): str = {
    val m = os::flowOf(v, 1)
    val k = ifd(v, 11)
    val c = fds(v, 14, k)
    val e = fds(v, 14 + k, k)
    val x = os::pos(m, 0)  val y = os::pos(m, m.n - 1)
    val s = mul(rounding(norm(c) + norm(e), m.n, 1, m.a, m.b), r(10000))
    clauses([
      (os::isMode(m, cx(fd(v, 12), fd(v, 13)), c, e, os::pos(m, ifd(v, 10)), 10^5), "an eigenvalue and its vector are not a mode of the Orr-Sommerfeld equation"),
      (zeroAll([os::d(m, c, 0, x), os::d(m, c, 0, y), os::d(m, e, 0, x), os::d(m, e, 0, y)], s), "a mode does not vanish at the walls"),
      (zeroAll([os::d(m, c, 1, x), os::d(m, c, 1, y), os::d(m, e, 1, x), os::d(m, e, 1, y)], s), "a mode does not have zero slope at the walls")])
  }
  // selection: 1 realmin, 2 realmax, 3 imagmin, 4 imagmax, 5 sort (0 real, 1 imag), 6 number of eigenvalues, 7 number kept,
  // all the eigenvalues (2 each), then the kept ones in order (2 each)
  pure def inside(v: int, z: Cplx): bool = and {
    z.re != NAN, z.im != NAN, z.re >= fd(v, 1), z.re < fd(v, 2), z.im > fd(v, 3), z.im < fd(v, 4) }
  pure def vals(v: int, f: int, k: int): List[Cplx] = range(0, k).foldl([], (a, i) => a.append(cx(fd(v, f + 2 * i), fd(v, f + 2 * i + 1))))
  pure def judgePick(v: int): str = {
    val all_ = vals(v, 8, ifd(v, 6))
    val kept = vals(v, 8 + 2 * ifd(v, 6), ifd(v, 7))
    val wanted = all_.select(z => inside(v, z))
    clauses([
      (wanted.length() == ifd(v, 7), "the selection does not keep the eigenvalues of the window, or keeps others"),
      (kept.indices().forall(i => inside(v, kept[i]) and wanted.indices().exists(j => wanted[j] == kept[i])), "the selection returns a value that is not an eigenvalue of the window"),
      (wanted.indices().forall(i => kept.indices().exists(j => wanted[i] == kept[j])), "an eigenvalue of the window is lost"),
      (kept.indices().forall(i => if (i == 0) true
        else if (ifd(v, 5) == 0) kept[i - 1].re <= kept[i].re else kept[i - 1].im >= kept[i].im), "the selection is not in the order asked")])
  }
  // acoustics of a uniform periodic (family -1, 0, 1: u-a, u, u+a) or closed (family 2) duct:
  // 1 family, 2 wave count, 3 u, 4 a, 5 length, 6-7 eigenvalue
  pure def judgeDuct(v: int): str = {
    val k = fd(v, 2)
    val c = if (ifd(v, 1) == 2) fd(v, 4) / 2 else fd(v, 3) + ifd(v, 1) * fd(v, 4)
    val want = div(mul(2 * mul(PI, k), c), fd(v, 5))
    val sz = div(mul(2 * mul(PI, iabs(k)), iabs(fd(v, 3)) + fd(v, 4)), fd(v, 5))
    clauses([
      (near(fd(v, 6), want, mul(sz, E6)), "an acoustic or convective frequency of a uniform duct is missing"),
      (near(fd(v, 7), 0, mul(sz, E6)), "a wave of a uniform duct is amplified or damped")])
  }
  // viscous modes of a uniform stream between walls: 1 alpha, 2 Re, 3 U, 4 half width, 5 rank, 6-7 omega
  pure def cosh(x: int): int = (exp(x) + exp(-x)) / 2
  pure def sinh(x: int): int = (exp(x) - exp(-x)) / 2
  pure def judgeStokes(v: int): str = {
    val al = mul(fd(v, 1), fd(v, 4))
    val j = ifd(v, 5)
    val h2 = sq(fd(v, 4))
    val p2 = -mul(mul(fd(v, 2), fd(v, 7)), h2) - sq(al)
    val p = sqrt(p2)
    val t = sincos(p)
    val f = if (j % 2 == 0) mul(p, mul(t.s, cosh(al))) + mul(al, mul(sinh(al), t.c)) else mul(p, mul(t.c, sinh(al))) - mul(al, mul(cosh(al), t.s))
    clauses([
      (near(fd(v, 6), mul(fd(v, 1), fd(v, 3)), E6), "a wave of a uniform stream does not travel with it"),
      (p2 > 0 and (j + 1) * PI / 2 < p and p < (j + 2) * PI / 2, "a viscous mode is missing or in the wrong order"),
      (near(f, 0, mul(mul(cosh(al), p + al), E6)), "the damping of a viscous mode is wrong")])
  }
  // published growth rates of the plane channel: 1 case, 2-3 omega
  pure val KNOWNVALUES = [(S * 23752649 / 10^8, S * 373967 / 10^8), (S * 269429615 / 10^9, 0)]
  pure def judgeChannel(v: int): str = clauses([
    (near(fd(v, 2), KNOWNVALUES[ifd(v, 1)]._1, 4 * E8) and near(fd(v, 3), KNOWNVALUES[ifd(v, 1)]._2, 4 * E8), "the plane channel does not have its known growth rate")])
  // convergence: 1-2 eigenvalue, 3-4 converged from a perturbed pair
  pure def judgeConverged(v: int): str = clauses([
    (near(fd(v, 1), fd(v, 3), mul(iabs(fd(v, 1)) + iabs(fd(v, 2)), E7)) and near(fd(v, 2), fd(v, 4), mul(iabs(fd(v, 1)) + iabs(fd(v, 2)), E7)),
      "an approximate eigenpair does not converge to the eigenvalue")])

  action Mode = all { on("Mode"), consume(judgeMode(w)) }
  action ModeEnds = all { on("ModeEnds"), consume(judgeModeEnds(w)) }
  action Wave = all { on("Wave"), consume(judgeWave(w)) }
  action Pick = all { on("Pick"), consume(judgePick(w)) }
  action Duct = all { on("Duct"), consume(judgeDuct(w)) }
  action Stokes = all { on("Stokes"), consume(judgeStokes(w)) }
  action Channel = all { on("Channel"), consume(judgeChannel(w)) }
  action Converged = all { on("Converged"), consume(judgeConverged(w)) }
  action init = start
  action step = any { Mode, ModeEnds, Wave, Pick, Duct, Stokes, Channel, Converged }
  val inv = verdict == "ok"
}
