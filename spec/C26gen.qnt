// The machine of the staged cycle objects, explored completely and used to
// generate histories.  `age` gives for each block of values the number of the
// start it belongs to.
module C26gen {
  import cyclemachine.* from "./cyclemachine"
  type Obj = { kind: int, at: Place, starts: int, age: int -> int }
  var obj: Obj
  var last: str
  pure val OPS = Set(0, 1, 2, 3, 4, 14, 13, 19, 40, 5, 9, 100, 59)
  pure val BLOCKS = Set(1, 2, 3, 4, 13, 19, 40, 5, 9, 100)
  pure def inputs(kind: int, s: int): Set[int] =
    if (s == START) Set()
    else if (s == 2) Set(1)
    else if (s == 3) Set(2)
    else if (s == 4) Set(3)
    else if (s == 13) (if (kind == GIVEN) Set(2) else Set(2, 5))
    else if (s == 19) Set(1, 13)
    else if (s == HPT) Set(3, 4)
    else if (s == 5) (if (kind == GIVEN) Set(3, 4, 13) else Set(3, 4, 40))
    else if (s == 9) Set(1, 3, 5)
    else Set(1, 3, 4, 13, 19, 9)
  pure def oldest(ages: Set[int], top: int): int = ages.fold(top, (a, b) => if (b < a) b else a)
  pure def advance(o: Obj, op: int): Obj = {
    val r = computed(o.kind, o.at, op)
    r.done.foldl({ ...o, at: r.at }, (z, s) => {
      val n = if (s == START) z.starts + 1 else z.starts
      { ...z, starts: n, age: z.age.put(s, if (s == START) n else oldest(inputs(z.kind, s).map(b => z.age.get(b)), n)) } })
  }
  pure def made(kind: int): Obj = {
    val o: Obj = { kind: kind, at: NOWHERE, starts: 0, age: BLOCKS.mapBy(b => 0) }
    if (kind == CORE) o else advance(o, TO4)
  }
  action init = { nondet kind = Set(0, 1, 2).oneOf() all { obj' = made(kind), last' = "make" } }
  action Make(kind: int): bool = all { obj' = made(kind), last' = "make" }
  action Do(op: int): bool = all { obj' = advance(obj, op), last' = "do" }
  // new conditions or parameters, then a new start
  action Restart(what: int): bool = all { obj' = advance(obj, START), last' = "restart" }
  action begin = init
  action small = { nondet op = OPS.oneOf() all { obj.starts < 3 or op != 1, Do(op) } }
  action step = any {
    { nondet kind = Set(0, 1, 1, 2, 2).oneOf() Make(kind) },
    { nondet op = OPS.oneOf() Do(op) },
    { nondet op = OPS.oneOf() Do(op) },
    { nondet op = Set(13, 19, 40, 5, 9, 59, 100).oneOf() Do(op) },
    { nondet op = OPS.oneOf() all { computed(obj.kind, obj.at, op).done != [], Do(op) } },
    { nondet op = OPS.oneOf() all { computed(obj.kind, obj.at, op).done != [], Do(op) } },
    { nondet op = Set(2, 3, 4, 40, 5, 9).oneOf() all { computed(obj.kind, obj.at, op).done != [], Do(op) } },
    { nondet op = Set(2, 3, 4, 40, 5, 9).oneOf() all { computed(obj.kind, obj.at, op).done != [], Do(op) } },
    { nondet op = Set(2, 3, 4, 40, 5, 9).oneOf() all { computed(obj.kind, obj.at, op).done != [], Do(op) } },
    { nondet op = Set(59, 100).oneOf() all { obj.at.corps > 5, Do(op) } },
    { nondet what = 0.to(4).oneOf() all { obj.at.corps > 2, Restart(what) } },
  }
  // the places reached say which stages belong to the current start
  pure def reached(o: Obj): Set[int] = BLOCKS.filter(s =>
    if (s == 13 or s == 19) o.at.fan >= s
    else if (s == HPT) o.kind == DRIVEN and o.at.corps >= 5
    else if (s == 5) o.at.corps >= (if (o.kind == GIVEN) 5 else 6)
    else if (s == PERF) false
    else o.at.corps >= s)
  // all values of the stages reached are those of the current start: none is missing or mixed
  val fresh = reached(obj).forall(s => obj.age.get(s) == obj.starts)
  // from anywhere the two completing operations end the cycle
  val completes = obj.kind == CORE or obj.at.corps == 0 or {
    val z = advance(advance(obj, TO4), TO9)
    z.at == { corps: 9, fan: 19 } and z.age.get(PERF) == z.starts
  }
  // no stage can be computed before those it starts from
  val ordered = OPS.forall(s => not(BLOCKS.contains(s)) or not(allowed(obj.kind, obj.at, s)) or inputs(obj.kind, s).forall(b => obj.age.get(b) == obj.starts))
  val inv = fresh and completes and ordered
}
