// C26  A staged turbofan cycle computes its stages in order, from its current
// parameters, and ends at the performance of the whole cycle, as the functions do.
module C26 {
  import num.* from "./num"
  import trace.* from "./trace"
  import machine.* from "./machine"
  import cyclemachine.* from "./cyclemachine"
  import cyclelaw.* from "./cyclelaw"

  type Obj = { c: Cycle, at: Place, v: List[int] }
  var objs: List[Obj]
  pure val NOCYCLE: Cycle = cycleOf(0, UNSET)
  pure val NOBODY: Obj = { c: NOCYCLE, at: NOWHERE, v: UNSET }

  // values read after the operation: place, number of changed values, then index and value of each
  pure def readAt(v: List[int], x: int, i: int): List[int] =
    range(0, ifd(x, i)).foldl(v, (z, k) => z.replaceAt(ifd(x, i + 1 + 2 * k), fd(x, i + 2 + 2 * k)))
  pure def agree(want: int, got: int): bool = if (fin(want)) fin(got) and close(want, got, E10) else not(fin(got))
  pure def judge(o: Obj, op: int, corps: int, fan: int, got: List[int]): { verdict: str, o: Obj } = {
    val r = computed(o.c.kind, o.at, op)
    val want = setStages(o.c, o.v, r.done)
    val touched = r.done.foldl(Set(), (z, s) => IDX.get(s).foldl(z, (y, i) => y.union(Set(i))).union(if (s == 13) Set(16) else Set()))
    { verdict: clauses([
        (got.indices().forall(i => touched.contains(i) or got[i] == o.v[i]), "a stage which could not be computed changes values"),
        (got.indices().forall(i => agree(want[i], got[i])), "the values of a stage are not those of the cycle"),
        (corps == r.at.corps and (o.c.kind == CORE or fan == r.at.fan), "the stage reached is not the last one computed")]),
      o: { ...o, at: r.at, v: got } }
  }
  // 1 object, 2 kind, 3 to 23 parameters, 24-25 place, 26... values
  action Make = all { on("Make"), {
    val o: Obj = { c: cycleOf(ifd(w, 2), fds(w, 3, 21)), at: NOWHERE, v: UNSET }
    // cycles with a fan compute their core when they are made
    val z = judge(o, if (o.c.kind == CORE) SHOW else TO4, ifd(w, 24), ifd(w, 25), readAt(UNSET, w, 26))
    all { consume(z.verdict), objs' = objs.replaceAt(ifd(w, 1), z.o) } } }
  // parameters changed on the object: 1 object, 2 unused, 3 to 23 parameters
  action Change = all { on("Change"), consume("ok"), {
    val o = objs[ifd(w, 1)]
    objs' = objs.replaceAt(ifd(w, 1), { ...o, c: cycleOf(o.c.kind, fds(w, 3, 21)) }) } }
  // 1 object, 2 operation, 3-4 place, 5... values
  action Do = all { on("Do"), {
    val z = judge(objs[ifd(w, 1)], ifd(w, 2), ifd(w, 3), ifd(w, 4), readAt(objs[ifd(w, 1)].v, w, 5))
    all { consume(z.verdict), objs' = objs.replaceAt(ifd(w, 1), z.o) } } }

  // functions: 1 kind, 2 to 22 parameters, then what they answer
  pure def judgeFunction(x: int): str = {
    val c = cycleOf(ifd(x, 1), fds(x, 2, 21))
    val v = whole(c)
    if (c.kind == DRIVEN) clauses([
      (agree(v[37], fd(x, 23)), "specific thrust"), (agree(v[38], fd(x, 24)), "specific consumption"),
      (agree(v[39], fd(x, 25)), "thermal efficiency"), (agree(v[40], fd(x, 26)), "propulsive efficiency"),
      (agree(v[41], fd(x, 27)), "overall efficiency"), (agree(v[16], fd(x, 28)), "pressure ratio of the fan")])
    // printed with the precision of a report
    else clauses([
      (agree(v[8], fd(x, 23)) and agree(v[15], fd(x, 24)), "powers of the compressor and of the fan"),
      (agree(v[26], fd(x, 25)), "temperature after the turbine"),
      (near(v[36], fd(x, 26), S * 51 / 100) and near(v[37], fd(x, 27), S * 51 / 100), "thrust"),
      (near(v[38], fd(x, 28), E9), "specific consumption"),
      (near(v[39], fd(x, 29), S * 51 / 100000), "thermal efficiency"), (near(v[40], fd(x, 30), S * 51 / 100000), "propulsive efficiency"),
      (near(v[41], fd(x, 31), S * 51 / 100000), "overall efficiency")])
  }
  // 1 unused, 2 to 22 parameters, 23 to 26 ratios of the fan, flight, compressor, burner, 27 temperature after the fan
  pure def judgeOptimum(x: int): str = {
    val c = cycleOf(DRIVEN, fds(x, 2, 21))
    val v = setStages(c, UNSET, [START, 2, 3])
    clauses([
      (agree(div(v[1], c.t0), fd(x, 24)) and agree(div(v[6], v[3]), fd(x, 25)), "temperature ratios of flight and compressor"),
      (agree(div(mul(cph(c), c.tt4), mul(cpg(c), v[1])), fd(x, 26)), "temperature ratio of the burner"),
      (sameJets(c.bpr, fd(x, 26), fd(x, 24), fd(x, 25), fd(x, 23), E9), "the ideal jets have not the same velocity"),
      (agree(mul(v[3], fd(x, 23)), fd(x, 27)), "temperature after the fan")])
  }
  action Function = all { on("Function"), consume(judgeFunction(w)), objs' = objs }
  action Optimum = all { on("Optimum"), consume(judgeOptimum(w)), objs' = objs }
  action Begin = all { on("Begin"), consume("ok"), objs' = [NOBODY, NOBODY] }
  action init = all { start, objs' = [NOBODY, NOBODY] }
  action step = any { Begin, Make, Change, Do, Function, Optimum }
  val inv = verdict == "ok"
}
