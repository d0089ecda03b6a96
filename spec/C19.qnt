// C19  Stability operators always describe the base state and boundary conditions
// last given, whatever was asked or refused before.
module C19 {
  import num.* from "./num"
  import trace.* from "./trace"
  import machine.* from "./machine"
  import polylaw.* from "./polylaw"
  import eulerlaw.* from "./eulerlaw"
  import oslaw as os from "./oslaw"

  // what an operator was given; `base` of an Euler one, `flow` of an Orr-Sommerfeld one
  type Given = { euler: bool, on: bool, base: Base, flow: os::Flow, bc: int, grad: int }
  pure val NONE: Given = { euler: true, on: false, base: NOBASE, flow: os::NOFLOW, bc: -1, grad: 0 }
  var ops: List[Given]
  var solved: List[Given]
  pure def usable(g: Given): bool = g.on and g.bc >= 0 and g.bc <= 2

  action keep: bool = all { ops' = ops, solved' = solved }
  // 1 object, 2.. description
  action Begin = all { on("Begin"), consume("ok"), ops' = [NONE, NONE, { ...NONE, euler: false }], solved' = [NONE, NONE, NONE] }
  action SetBase = all {
    on("SetBase"), consume("ok"),
    { val o = ifd(w, 1)
      ops' = ops.replaceAt(o, if (ops[o].euler) { ...ops[o], on: true, base: baseOf(w, 2) } else { ...ops[o], on: true, flow: os::flowOf(w, 2) }) },
    solved' = solved }
  // 2 code, 3 Mach gradient
  action SetBoundary = all { on("SetBoundary"), consume("ok"), ops' = ops.replaceAt(ifd(w, 1), { ...ops[ifd(w, 1)], bc: ifd(w, 2), grad: fd(w, 3) }), solved' = solved }
  // 2 whether the call was refused
  action Bad = all { on("Bad"), consume(if (fd(w, 2) == S) "ok" else "an incomplete base state or unknown boundary condition is accepted"), keep }
  // refused request for matrices or eigenvalues: 1 object
  action Refused = all { on("Refused"), consume(if (usable(ops[ifd(w, 1)])) "the operators are refused though base state and boundary conditions are known" else "ok"), keep }
  // 1 object, 2 point, 3 to 11 perturbation, 12 to 14 B q, 15 to 17 At q
  pure def judgeInsideE(g: Given, v: int): str = judgeInside(g.base, pertOf(v, 3), ifd(v, 2), tripleOf(v, 12), tripleOf(v, 15))
  pure def judgeEnd(g: Given, v: int): str = {
    val q = pertOf(v, 3)  val i = ifd(v, 2)  val bq = tripleOf(v, 12)  val aq = tripleOf(v, 15)
    if (g.bc == 1) judgePer(g.base, q, i, bq, aq)
    else if (g.bc == 2 and i == 0) judgeMomentum(g.base, q, i, bq, aq)
    else judgeSym(g.base, q, i, bq, aq)
  }
  pure def served(g: Given, v: str): str = if (usable(g)) v else "operators are given without a usable base state and boundary conditions"
  action Row = all { on("Row"), consume(served(ops[ifd(w, 1)], judgeInsideE(ops[ifd(w, 1)], w))), keep }
  action End = all { on("End"), consume(served(ops[ifd(w, 1)], judgeEnd(ops[ifd(w, 1)], w))), keep }
  // 1 object, 2.. three rows
  action Shock = all { on("Shock"), { val g = ops[ifd(w, 1)]
    consume(served(g, if (g.bc != 2) "the operators have a shock condition that was not asked" else judgeShock(g.base, g.grad, [rowOf(w, 2), rowOf(w, 7), rowOf(w, 12)], fd(w, 17)))) }, keep }
  action NoShock = all { on("NoShock"), consume(served(ops[ifd(w, 1)], if (ops[ifd(w, 1)].bc == 2) "the operators lack the shock condition" else "ok")), keep }
  // Orr-Sommerfeld: 1 object, 2 point, 3 to 8 perturbation, then the rows
  pure def z(v: int, f: int): Cplx = cx(fd(v, f), fd(v, f + 1))
  action OsRow = all { on("OsRow"), consume(served(ops[ifd(w, 1)], os::judgeInside(ops[ifd(w, 1)].flow, fds(w, 3, 6), ifd(w, 2), z(w, 9), z(w, 11)))), keep }
  action OsWall = all { on("OsWall"), consume(served(ops[ifd(w, 1)], os::judgeWall(ops[ifd(w, 1)].flow, fds(w, 3, 6), ifd(w, 2), z(w, 9), z(w, 11), z(w, 13), z(w, 15)))), keep }
  action Solve = all { on("Solve"), { val o = ifd(w, 1) all { consume(served(ops[o], "ok")), ops' = ops, solved' = solved.replaceAt(o, ops[o]) } } }
  // eigenvalues given by the last solution. 1 object, 2 point, 3 number of coefficients m, 4-5 omega, then 3 m real parts, 3 m imaginary parts
  pure def pertN(v: int, f: int, m: int): Pert = { rho: fds(v, f, m), u: fds(v, f + m, m), p: fds(v, f + 2 * m, m) }
  pure def judgePair(g: Given, v: int): str = {
    val m = ifd(v, 3)
    if (not(g.on)) "there are eigenvalues though none were computed"
    else if (g.euler) clauses([(isMode(g.base, cx(fd(v, 4), fd(v, 5)), pertN(v, 6, m), pertN(v, 6 + 3 * m, m), pos(g.base, ifd(v, 2)), E8), "an eigenvalue is not one of the base state last solved")])
    else clauses([(os::isMode(g.flow, cx(fd(v, 4), fd(v, 5)), fds(v, 6, m), fds(v, 6 + m, m), os::pos(g.flow, ifd(v, 2)), 10^5), "an eigenvalue is not one of the flow last solved")])
  }
  // the same at the ends
  pure def judgePairEnds(g: Given, v: int): str = {
    val m = ifd(v, 3)
    val q = pertN(v, 6, m)
    val e = pertN(v, 6 + 3 * m, m)
    val s = mul(modeSize(g.base, q) + modeSize(g.base, e), E8)
    if (not(g.on)) "there are eigenvalues though none were computed"
    else clauses([(fits(g.base, q, g.bc, s) and fits(g.base, e, g.bc, s), "a mode is not one of the boundary conditions last solved")])
  }
  action PairEnds = all { on("PairEnds"), consume(judgePairEnds(solved[ifd(w, 1)], w)), keep }
  action Pair = all { on("Pair"), consume(judgePair(solved[ifd(w, 1)], w)), keep }
  action NoPair = all { on("NoPair"), consume(if (solved[ifd(w, 1)].on) "the eigenvalues are lost" else "ok"), keep }
  action init = all { start, ops' = [NONE, NONE, NONE], solved' = [NONE, NONE, NONE] }
  action step = any { Begin, SetBase, SetBoundary, Bad, Refused, Row, End, Shock, NoShock, OsRow, OsWall, Solve, Pair, PairEnds, NoPair }
  val inv = verdict == "ok"
}
