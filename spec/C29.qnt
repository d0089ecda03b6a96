// C29  Functions are functions: what is answered depends on the arguments only.
//
// The state remembers the first answer to every question.  Every later answer
// to the same question, asked in whatever form and whatever happened since,
// has to be the same one.
module C29 {
  import num.* from "./num"
  import trace.* from "./trace"
  import machine.* from "./machine"
  // (function, gas, first argument, second argument) -> answer
  type Question = { f: int, g: int, x: int, y: int }
  var memo: Question -> int
  // precision of the iterations of each function of the session
  var precision: List[int]

  pure def question(v: int): Question = { f: ifd(v, 1), g: ifd(v, 2), x: ifd(v, 3), y: ifd(v, 4) }
  pure def agree(a: int, b: int, p: int): bool =
    (not(fin(a)) and not(fin(b))) or (fin(a) and fin(b) and iabs(a - b) <= mul(p, S + iabs(a)))
  // 1 to 4 question, 5 answer
  pure def judgeAnswer(m: Question -> int, ps: List[int], v: int): str = {
    val q = question(v)
    clauses([
      (not(m.keys().contains(q)) or agree(m.get(q), fd(v, 5), ps[q.f]), "another answer to the same question")])
  }
  action Begin = all { on("Begin"), consume("ok"), memo' = Map(), precision' = [fd(w, 1), fd(w, 2), fd(w, 3)] }
  action Answer = all { on("Answer"), consume(judgeAnswer(memo, precision, w)), precision' = precision, {
    val q = question(w)
    memo' = if (memo.keys().contains(q)) memo else memo.put(q, fd(w, 5)) } }
  // changes of the default gas, failed calls, writing in what was handed out
  action Between = all { on("Between"), consume("ok"), memo' = memo, precision' = precision }
  action init = all { start, memo' = Map(), precision' = [0, 0, 0] }
  action step = any { Begin, Answer, Between }
  val inv = verdict == "ok"
}
