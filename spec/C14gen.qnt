// Histories of two nozzles: built with one of several section laws, then given
// pressure ratios in any order.  The driver of C14 replays them into the real class.
module C14gen {
  type Noz = { built: bool, regime: int, sets: int }
  var nz: List[Noz]
  pure val SHAPES = 0.to(6)
  pure val LEVELS = 0.to(3)

  // regimes: 0 subsonic, 1 shock in the diffuser, 2 over-expanded, 3 under-expanded, -1 none yet
  action init = nz' = [{ built: false, regime: -1, sets: 0 }, { built: false, regime: -1, sets: 0 }]
  action step = any {
    { nondet i = Set(0, 1).oneOf()
      nondet shape = SHAPES.oneOf()
      nondet gas = 0.to(7).oneOf()
      nondet regime = (-1).to(3).oneOf()
      nondet level = LEVELS.oneOf()
      all { nz[i].sets > 1 or not(nz[i].built), Build(i, regime) } },
    { nondet i = Set(0, 1).oneOf()
      nondet regime = 0.to(3).oneOf()
      nondet level = LEVELS.oneOf()
      all { nz[i].built, Set_NPR(i, regime) } },
    { nondet i = Set(0, 1).oneOf()
      all { nz[i].built, nz[i].regime >= 0, Again(i) } },
    { nondet i = Set(0, 1).oneOf()
      all { nz[i].built, nz[i].regime >= 0, Look(i) } },
  }
  action Build(i: int, regime: int): bool = nz' = nz.replaceAt(i, { built: true, regime: regime, sets: if (regime >= 0) 1 else 0 })
  action Set_NPR(i: int, regime: int): bool = nz' = nz.replaceAt(i, { built: true, regime: regime, sets: nz[i].sets + 1 })
  // the same pressure ratio again
  action Again(i: int): bool = nz' = nz.replaceAt(i, { built: true, regime: nz[i].regime, sets: nz[i].sets + 1 })
  // read the distributions without setting anything
  action Look(i: int): bool = nz' = nz
  val inv = nz.indices().forall(i => nz[i].regime >= 0 implies nz[i].built)
}
