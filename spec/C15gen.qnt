// The default gas: current and saved values, as a machine with finitely many
// levels.  Checked exhaustively with TLC; its histories are replayed by C15.
module C15gen {
  type Gas = { g: int, r: int }
  var cur: Gas
  var saved: Gas        // g = -1: nothing saved yet
  var ref: Gas          // what cur was at the last save, or NOTHING (ghost)
  var restored: bool    // the last action was a restore (ghost)

  pure val NOTHING: Gas = { g: -1, r: -1 }
  pure val GAMMAS = 0.to(3)
  pure val RS = 0.to(2)
  pure val CALLS = 0.to(39)

  action init = all { cur' = { g: 0, r: 0 }, saved' = NOTHING, ref' = NOTHING, restored' = false }
  action SetGamma(g: int): bool = all { cur' = cur.with("g", g), saved' = saved, ref' = ref, restored' = false }
  action SetR(r: int): bool = all { cur' = cur.with("r", r), saved' = saved, ref' = ref, restored' = false }
  action Save: bool = all { cur' = cur, saved' = cur, ref' = cur, restored' = false }
  action Restore: bool = all { saved != NOTHING, cur' = saved, saved' = saved, ref' = ref, restored' = true }
  // any other function of the library, successful or not
  action Call(c: int): bool = all { cur' = cur, saved' = saved, ref' = ref, restored' = false }
  // functions called without a gas
  action Default(d: int): bool = all { cur' = cur, saved' = saved, ref' = ref, restored' = false }
  action step = any {
    { nondet g = GAMMAS.oneOf()
      SetGamma(g) },
    { nondet r = RS.oneOf()
      SetR(r) },
    Save, Restore,
    { nondet c = CALLS.oneOf()
      Call(c) },
    { nondet d = 0.to(5).oneOf()
      Default(d) },
  }
  val inv = and {
    saved == ref,
    restored implies cur == ref,
    cur.g.in(GAMMAS) and cur.r.in(RS) }
}
