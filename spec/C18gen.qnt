// Histories of collocation objects: what is asked for, in any order.  `upto` is
// the highest order of differentiation asked so far, which must not matter.
module C18gen {
  type Obj = { on: bool, upto: int, points: bool }
  var objs: List[Obj]
  pure val OBJS = Set(0, 1)
  pure def fresh(u: int, p: bool): Obj = { on: true, upto: u, points: p }

  action init = objs' = [{ on: false, upto: 0, points: false }, { on: false, upto: 0, points: false }]
  action step = any {
    { nondet o = OBJS.oneOf()
      nondet dim = 0.to(5).oneOf()
      nondet interval = 0.to(3).oneOf()
      all { not(objs[o].on) or objs[o].upto > 1, New(o) } },
    { nondet o = OBJS.oneOf()
      nondet k = 1.to(4).oneOf()
      all { objs[o].on, Matder(o, k) } },
    { nondet o = OBJS.oneOf()
      nondet k = 1.to(4).oneOf()
      all { objs[o].on, Matder(o, k) } },
    { nondet o = OBJS.oneOf()
      all { objs[o].on, Points(o) } },
    { nondet o = OBJS.oneOf()
      all { objs[o].on, Interp(o) } },
    { nondet o = OBJS.oneOf()
      all { objs[o].on, Fit(o) } },
    { nondet o = OBJS.oneOf()
      all { objs[o].on, BadOrder(o) } },
  }
  action New(o: int): bool = objs' = objs.replaceAt(o, fresh(0, false))
  action Matder(o: int, k: int): bool = objs' = objs.replaceAt(o, fresh(if (k > objs[o].upto) k else objs[o].upto, objs[o].points))
  action Points(o: int): bool = objs' = objs.replaceAt(o, fresh(objs[o].upto, true))
  action Interp(o: int): bool = objs' = objs.replaceAt(o, fresh(objs[o].upto, true))
  action Fit(o: int): bool = objs' = objs.replaceAt(o, fresh(objs[o].upto, true))
  // order 0 is refused and changes nothing
  action BadOrder(o: int): bool = objs' = objs
  val inv = OBJS.forall(o => objs[o].upto <= 4 and (objs[o].on or objs[o].upto == 0))
}
