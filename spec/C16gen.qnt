// Variable denominations: the selected software and its table, as a machine.
// Checked exhaustively with TLC on a few names; its histories are replayed by C16.
module C16gen {
  // a table maps names to denominations; "" means the name is not there
  type Table = str -> str
  var sw: str
  var tbl: Table
  var failed: bool       // the last operation was refused (ghost)
  var before: Table      // table before the last operation (ghost)

  pure val NAMES = Set("P", "p", "rho", "Vx", "u_avg", "new")
  pure val VALUES = Set("A", "B")
  pure val WAYS = 0.to(2)
  // as shipped, on these names
  pure def shipped(s: str): Table =
    if (s == "ic3") Map("P" -> "P", "p" -> "P", "rho" -> "RHO", "Vx" -> "U_X", "u_avg" -> "U_AVG", "new" -> "")
    else Map("P" -> "", "p" -> "", "rho" -> "", "Vx" -> "", "u_avg" -> "Uavg", "new" -> "")

  action init = all { sw' = "ic3", tbl' = shipped("ic3"), failed' = false, before' = shipped("ic3") }
  action same: bool = all { sw' = sw, tbl' = tbl, failed' = false, before' = tbl }
  action refuse: bool = all { sw' = sw, tbl' = tbl, failed' = true, before' = tbl }
  action Select(s: str): bool = all { sw' = s, tbl' = shipped(s), failed' = false, before' = tbl }
  action SelectUnknown: bool = refuse
  action Add(n: str, x: str): bool =
    if (tbl.get(n) == "") all { sw' = sw, tbl' = tbl.set(n, x), failed' = false, before' = tbl } else refuse
  action Assign(n: str, x: str): bool =
    if (tbl.get(n) != "") all { sw' = sw, tbl' = tbl.set(n, x), failed' = false, before' = tbl } else refuse
  action Get(n: str): bool = same
  action Keys: bool = same
  action Show: bool = same
  action Expressions: bool = same
  action step = any {
    { nondet s = Set("ic3", "of").oneOf()
      nondet alias = 0.to(6).oneOf()
      Select(s) },
    SelectUnknown,
    { nondet n = NAMES.oneOf()
      nondet x = VALUES.oneOf()
      Add(n, x) },
    { nondet n = NAMES.oneOf()
      nondet x = VALUES.oneOf()
      Assign(n, x) },
    { nondet n = NAMES.oneOf()
      nondet spelling = 0.to(2).oneOf()
      nondet way = WAYS.oneOf()
      Get(n) },
    Keys, Show, Expressions,
  }
  val inv = and {
    sw.in(Set("ic3", "of")),
    failed implies tbl == before,
    // a name never disappears
    failed or tbl == before or tbl == shipped(sw) or NAMES.forall(n => before.get(n) != "" implies tbl.get(n) != "") }
}
