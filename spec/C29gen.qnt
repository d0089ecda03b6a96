// Sequences of calls of three functions on a few points and gases, in every
// form, with what a user does in between: changing the default gas, writing in
// arrays that were handed out, and calls that fail.
module C29gen {
  // what has been asked: (function, gas, point)
  var asked: Set[(int, int, int)]
  var wrote: int
  // the last call
  type Call = { op: str, f: int, g: int, form: int, pts: List[int], reuse: bool }
  var call: Call
  pure val FUN = Set(0, 1, 2)
  pure val GAS = Set(0, 1, 2)
  pure val PTS = Set(0, 1, 2, 3)
  // number of points of a form: a number, numpy number, array without dimension, array of 1, of 3, column and strided, of 4, 2x2,
  // first argument an array with a number, and the converse
  pure def npts(form: int): int = if (form <= 3) 1 else if (form <= 5) 3 else if (form <= 7) 4 else 2
  // reuse: the caller keeps his arrays and writes the new values in them
  action Ask(f: int, g: int, form: int, a: int, b: int, c: int, d: int, reuse: bool): bool = all {
    asked' = asked.union([a, b, c, d].slice(0, npts(form)).foldl(Set(), (s, p) => s.union(Set((f, g, p))))), wrote' = wrote,
    call' = { op: "ask", f: f, g: g, form: form, pts: [a, b, c, d].slice(0, npts(form)), reuse: reuse } }
  action SetGas(g: int): bool = all { asked' = asked, wrote' = wrote, call' = { op: "gas", f: 0, g: g, form: 0, pts: [], reuse: false } }
  action Write: bool = all { asked' = asked, wrote' = wrote + 1, call' = { op: "write", f: 0, g: 0, form: 0, pts: [], reuse: false } }
  action Fail(f: int, how: int): bool = all { asked' = asked, wrote' = wrote, call' = { op: "fail", f: f, g: 0, form: how, pts: [], reuse: false } }
  action init = all { asked' = Set(), wrote' = 0, call' = { op: "none", f: 0, g: 0, form: 0, pts: [], reuse: false } }
  action anyAsk = {
    nondet f = FUN.oneOf()
    nondet g = GAS.oneOf()
    nondet form = 0.to(9).oneOf()
    nondet a = PTS.oneOf()
    nondet b = PTS.oneOf()
    nondet c = PTS.oneOf()
    nondet d = PTS.oneOf()
    nondet reuse = Set(true, false).oneOf()
    Ask(f, g, form, a, b, c, d, reuse)
  }
  // again what was asked, in any form
  action again = all { asked != Set(), {
    nondet z = asked.oneOf()
    nondet form = 0.to(9).oneOf()
    nondet b = PTS.oneOf()
    nondet c = PTS.oneOf()
    nondet d = PTS.oneOf()
    nondet reuse = Set(true, false).oneOf()
    Ask(z._1, z._2, form, z._3, b, c, d, reuse) } }
  // the point asked last in a list
  action againLast = all { asked != Set(), {
    nondet z = asked.oneOf()
    nondet form = Set(4, 5).oneOf()
    nondet b = PTS.oneOf()
    nondet a = PTS.oneOf()
    nondet reuse = Set(true, false).oneOf()
    Ask(z._1, z._2, form, a, b, z._3, a, reuse) } }
  // other points in the arrays of the call before
  action sameArrays = all { call.op == "ask", {
    nondet a = PTS.oneOf()
    nondet b = PTS.oneOf()
    nondet c = PTS.oneOf()
    nondet d = PTS.oneOf()
    Ask(call.f, call.g, call.form, a, b, c, d, true) } }
  action step = any {
    anyAsk, anyAsk, again, again, againLast, sameArrays, sameArrays,
    { nondet g = GAS.oneOf() SetGas(g) },
    all { wrote < 3, Write },
    { nondet f = FUN.oneOf() nondet how = 0.to(2).oneOf() Fail(f, how) },
  }
  val inv = asked.forall(z => FUN.contains(z._1) and GAS.contains(z._2) and PTS.contains(z._3))
}
