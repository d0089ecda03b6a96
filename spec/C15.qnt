// C15  The default gas is what was last set or restored, and nothing else changes it.
module C15 {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"
  import machine.* from "./machine"
  import nozzlelaw.* from "./nozzlelaw"

  type DG = { g: int, r: int }
  var cur: DG
  var saved: DG
  pure val NOTHING: DG = { g: 0, r: 0 }
  pure val G0 = q(14, 10)

  // fields: 1 parameter, 2 gamma() and 3 r_ideal() observed afterwards
  pure def seen(v: int, expected: DG): str = clauses([
    (fd(v, 2) == expected.g, "the default specific heat ratio is not the one last set or restored"),
    (fd(v, 3) == expected.r, "the default gas constant is not the one last set or restored")])

  // 1 function, 2 3 as above, 4 5 arguments, 6 result
  pure def law(g: int, f: int, x: int, y: int, res: int): bool =
    if (f == 0) close(res, TtTs(g, x), E9)
    else if (f == 1) close(res, sigma(g, x), E9)
    else if (f == 2) close(res, shockP(g, x), E9)
    else if (f == 3) close(sq(res), div(mul(g, x), y), E9)      // speed of sound of a state
    else false
  // 4: nozzle; 4 As/Ac, 5 NPR, 6 exit Mach, 7 8 9 limits
  pure def nozzleAt(gl: int, ge: int, v: int): bool = {
    val n = { a: fd(v, 4), n0: fd(v, 7), nsw: fd(v, 8), n1: fd(v, 9) }
    judgeLimits(gl, n) == "ok" and exitOk(ge, n, fd(v, 5), fd(v, 6))
  }
  pure def judgeDefault(c: DG, v: int): str =
    orElse(seen(v, c), clauses([
      (if (ifd(v, 1) == 4) nozzleAt(c.g, c.g, v) else law(c.g, ifd(v, 1), fd(v, 4), fd(v, 5), fd(v, 6)), "a function called without a gas does not use the default gas")]))
  pure def deviation(c: DG, v: int): str =
    if (seen(v, c) != "ok" or judgeDefault(c, v) == "ok") ""
    else if (ifd(v, 1) == 4) (if (nozzleAt(G0, c.g, v)) "nozzle-exit-mixed-gamma" else "")
    else if (law(G0, ifd(v, 1), fd(v, 4), fd(v, 5), fd(v, 6))) "default-gamma-at-import" else ""

  action keep: bool = all { cur' = cur, saved' = saved }
  action Begin = all { on("Begin"), consume("ok"), cur' = { g: fd(w, 2), r: fd(w, 3) }, saved' = NOTHING }
  action SetGamma = { val n = cur.with("g", fd(w, 1)) all { on("SetGamma"), consume(seen(w, n)), cur' = n, saved' = saved } }
  action SetR = { val n = cur.with("r", fd(w, 1)) all { on("SetR"), consume(seen(w, n)), cur' = n, saved' = saved } }
  action Save = all { on("Save"), consume(seen(w, cur)), cur' = cur, saved' = cur }
  action Restore = all { on("Restore"), saved != NOTHING, consume(seen(w, saved)), cur' = saved, saved' = saved }
  action Call = all { on("Call"), consume(seen(w, cur)), keep }
  action Default = all { on("Default"), consumeDev(judgeDefault(cur, w), deviation(cur, w)), keep }

  action init = all { start, cur' = NOTHING, saved' = NOTHING }
  action step = any { Begin, SetGamma, SetR, Save, Restore, Call, Default }
  val inv = verdict == "ok"
}
