// Life of stability operators: base state, boundary conditions, cached matrices and
// eigenvalues.  Objects 0 and 1 are Euler operators, 2 an Orr-Sommerfeld one.
// Checked exhaustively with TLC for one object of each kind; its histories are
// replayed into the code by C19.
module C19gen {
  // -1: none.  Base states 0..2; boundary conditions 0 symmetry, 1 periodic,
  // 2 shock, 3 incoherent, 4 shock without its parameter (0 wall for object 2).
  type Cache = { base: int, bc: int }
  type Op = { base: int, bc: int, cache: Cache, eig: Cache, refused: bool }
  var ops: List[Op]
  pure val NOTHING: Cache = { base: -1, bc: -1 }
  pure val FRESH: Op = { base: -1, bc: -1, cache: NOTHING, eig: NOTHING, refused: false }
  pure val OBJS = 0.to(2)
  pure def usable(o: Op): bool = o.base >= 0 and o.bc >= 0 and o.bc <= 2
  pure def filled(o: Op): Op =
    if (usable(o)) { ...o, cache: (if (o.cache == NOTHING) { base: o.base, bc: o.bc } else o.cache), refused: false }
    else { ...o, refused: true }

  action init = ops' = [FRESH, FRESH, FRESH]
  action SetBase(o: int, b: int): bool = ops' = ops.replaceAt(o, { ...ops[o], base: b, cache: NOTHING, refused: false })
  action SetBoundary(o: int, c: int): bool = ops' = ops.replaceAt(o, { ...ops[o], bc: c, cache: NOTHING, refused: false })
  // refused at once, nothing changes
  action BadBase(o: int): bool = ops' = ops.replaceAt(o, { ...ops[o], refused: true })
  action BadBoundary(o: int): bool = ops' = ops.replaceAt(o, { ...ops[o], refused: true })
  action Get(o: int): bool = ops' = ops.replaceAt(o, filled(ops[o]))
  action Solve(o: int): bool = ops' = ops.replaceAt(o, { val f = filled(ops[o]) if (f.refused) f else { ...f, eig: f.cache } })
  action Pick(o: int): bool = ops' = ops.replaceAt(o, { ...ops[o], refused: ops[o].eig == NOTHING })
  // some choices are repeated so that random histories make them more often
  action any_step(OS: Set[int]): bool = any {
    { nondet o = OS.oneOf()
      nondet b = 0.to(2).oneOf()
      SetBase(o, b) },
    { nondet o = OS.oneOf()
      nondet b = 0.to(2).oneOf()
      all { ops[o].cache != NOTHING, SetBase(o, b) } },
    { nondet o = OS.oneOf()
      nondet c = 0.to(2).oneOf()
      all { o < 2 or c == 0, SetBoundary(o, c) } },
    { nondet o = OS.oneOf()
      nondet c = 0.to(4).oneOf()
      all { o < 2 or c == 0, ops[o].cache != NOTHING, SetBoundary(o, c) } },
    { nondet o = OS.oneOf()
      nondet c = 0.to(2).oneOf()
      if (c == 0) BadBase(o) else BadBoundary(o) },
    { nondet o = OS.oneOf()
      Get(o) },
    { nondet o = OS.oneOf()
      all { usable(ops[o]), Get(o) } },
    { nondet o = OS.oneOf()
      all { usable(ops[o]), ops[o].cache == NOTHING, Get(o) } },
    { nondet o = OS.oneOf()
      all { ops[o].cache == NOTHING, Get(o) } },
    { nondet o = OS.oneOf()
      Solve(o) },
    // solved before, and changed since
    { nondet o = OS.oneOf()
      nondet c = 0.to(2).oneOf()
      all { o < 2 or c == 0, ops[o].eig != NOTHING, ops[o].eig.bc != c, SetBoundary(o, c) } },
    { nondet o = OS.oneOf()
      all { usable(ops[o]), ops[o].eig != NOTHING, ops[o].eig != { base: ops[o].base, bc: ops[o].bc }, Solve(o) } },
    { nondet o = OS.oneOf()
      all { usable(ops[o]), ops[o].eig != NOTHING, ops[o].eig != { base: ops[o].base, bc: ops[o].bc }, Solve(o) } },
    { nondet o = OS.oneOf()
      nondet sorting = 0.to(1).oneOf()
      Pick(o) },
  }
  action step = any_step(OBJS)
  val inv = OBJS.forall(o => and {
    // matrices, when kept, are those of the current description
    ops[o].cache == NOTHING or ops[o].cache == { base: ops[o].base, bc: ops[o].bc },
    ops[o].cache != NOTHING implies usable(ops[o]),
    // eigenvalues come from a usable description
    ops[o].eig == NOTHING or (ops[o].eig.base >= 0 and ops[o].eig.bc <= 2),
    o == 2 implies ops[o].bc <= 0 })
}
// the same machine with one Euler and one Orr-Sommerfeld operator, for exhaustive checking
module C19small {
  import C19gen.*
  action begin = init
  action small = any_step(Set(0, 2))
}
