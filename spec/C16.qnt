// C16  Variable denominations: names give what the selected software, and the
// additions and changes made since it was selected, say; refused operations and
// queries change nothing.
module C16 {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"
  import machine.* from "./machine"

  // names and denominations by number (the driver reads these lists)
  pure val NAMES = ["P", "p", "Ps", "rho", "T", "V", "Vx", "Vy", "Vz", "u_avg", "rho_avg", "tauw_avg", "mulam_avg", "t_avg", "u_rms", "u_rey", "new", "NEW", "RHO", "U_avg", "pS", "nothing", "Mach", "S", "a", "Mx", "alpha", "Pt", "mach"]
  pure val DENOM = ["P", "RHO", "T", "U", "U_X", "U_Y", "U_Z", "U_AVG", "RHO_AVG", "TauWallAvg", "MU_LAM_AVG", "T_AVG", "U_RMS", "U_REY", "Uavg", "rhoAVG", "???", "AAA", "BBB", "CCC"]
  // the same name ignoring capital letters
  pure val CANON = [0, 0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 16, 3, 9, 2, 21, 22, 23, 24, 25, 26, 27, 22]
  type Table = int -> int
  pure val IC3: Table = Map(0 -> 0, 1 -> 0, 2 -> 0, 3 -> 1, 4 -> 2, 5 -> 3, 6 -> 4, 7 -> 5, 8 -> 6, 9 -> 7, 10 -> 8, 11 -> 9, 12 -> 10, 13 -> 11, 14 -> 12, 15 -> 13)
  pure val FOAM: Table = Map(9 -> 14, 10 -> 15, 11 -> 16, 12 -> 16, 13 -> 16, 14 -> 16, 15 -> 16)
  var tbl: Table

  pure def answers(t: Table, n: int): Set[int] =
    if (t.keys().contains(n)) Set(t.get(n)) else t.keys().filter(k => CANON[k] == CANON[n]).map(k => t.get(k))

  // Select: 1 software (0 IC3, 1 OpenFOAM, 2 unknown), 2 refused
  pure def selected(t: Table, v: int): Table = if (ifd(v, 1) == 0) IC3 else if (ifd(v, 1) == 1) FOAM else t
  pure def judgeSelect(v: int): str = clauses([((fd(v, 2) != 0) == (ifd(v, 1) == 2), "a known software is refused or an unknown one accepted")])
  // Add and Assign: 1 name, 2 denomination, 3 refused
  pure def present(t: Table, n: int): bool = t.keys().contains(n)
  pure def added(t: Table, v: int): Table = if (present(t, ifd(v, 1))) t else t.put(ifd(v, 1), ifd(v, 2))
  pure def assigned(t: Table, v: int): Table = if (present(t, ifd(v, 1))) t.put(ifd(v, 1), ifd(v, 2)) else t
  pure def judgeAdd(t: Table, v: int): str = clauses([((fd(v, 3) != 0) == present(t, ifd(v, 1)), "adding a name must be refused exactly when it is there")])
  pure def judgeAssign(t: Table, v: int): str = clauses([((fd(v, 3) != 0) == not(present(t, ifd(v, 1))), "changing a name must be refused exactly when it is not there")])
  // Get: 1 name, 2 denomination, or -1 if refused, -2 if it is none of the known ones
  pure def judgeGet(t: Table, v: int): str = {
    val m = answers(t, ifd(v, 1))
    clauses([
      (not(m == Set()) or ifd(v, 2) == -1, "a name that is not in the table is given a denomination"),
      (m == Set() or ifd(v, 2) != -1, "a name of the table is refused"),
      (m == Set() or m.contains(ifd(v, 2)), "the denomination is not the one of the table")])
  }
  // All: 1 number of keys, 2.. denomination of every name of NAMES looked up exactly (-1: not a key)
  pure def judgeAll(t: Table, v: int): str = clauses([
    (ifd(v, 1) == t.keys().size(), "the names are not those of the table"),
    (NAMES.indices().forall(i => ifd(v, 2 + i) == (if (t.keys().contains(i)) t.get(i) else -1)), "the table is not the one of the selected software with the changes made since")])
  // Expr: values of the extended expressions for 1 rho, 2 p, 3 4 5 velocity: 6 Pt, 7 T, 8 S, 9 V, 10 a, 11 Mach, 12 Mx, 13 alpha
  pure def judgeExpr(v: int): str = {
    val g = q(14, 10)
    val rho = fd(v, 1)
    val p = fd(v, 2)
    val u2 = sq(fd(v, 3)) + sq(fd(v, 4)) + sq(fd(v, 5))
    val a2 = div(mul(g, p), rho)
    clauses([
      (close(fd(v, 6), mul(p, PtPs(g, sqrt(div(u2, a2)))), E9), "expression of the total pressure"),
      (close(fd(v, 7), div(div(p, rho), q(2871, 10)), E9), "expression of the temperature"),
      (near(fd(v, 8), ln(p) - mul(g, ln(rho)), E9), "expression of the entropy"),
      (approx(sq(fd(v, 9)), u2, E9), "expression of the velocity"),
      (close(sq(fd(v, 10)), a2, E9), "expression of the speed of sound"),
      (approx(sq(fd(v, 11)), div(u2, a2), E9), "expression of the Mach number"),
      (approx(mul(fd(v, 12), sqrt(a2)), fd(v, 3), E9), "expression of the axial Mach number"),
      (closeTo(fd(v, 13), deg(atan(div(fd(v, 4), fd(v, 3)))), E9, S), "expression of the flow angle")])
  }
  // Copied: 1 number of names of the table missing or different among the expressions (redefined ones apart)
  pure def judgeCopied(v: int): str = clauses([(fd(v, 1) == 0, "a name of the table is missing among the expressions")])
  // refused exactly when the table has no P, rho, V, Vx or Vy
  pure def complete(t: Table): bool = Set(0, 3, 5, 6, 7).forall(n => answers(t, n) != Set())
  pure def judgeRefused(t: Table): str = clauses([(not(complete(t)), "expressions are refused though all the variables are there")])

  action Begin = all { on("Begin"), consume("ok"), tbl' = IC3 }
  action Select = all { on("Select"), consume(judgeSelect(w)), tbl' = selected(tbl, w) }
  action Add = all { on("Add"), consume(judgeAdd(tbl, w)), tbl' = added(tbl, w) }
  action Assign = all { on("Assign"), consume(judgeAssign(tbl, w)), tbl' = assigned(tbl, w) }
  action Get = all { on("Get"), consume(judgeGet(tbl, w)), tbl' = tbl }
  action All = all { on("All"), consume(judgeAll(tbl, w)), tbl' = tbl }
  action Expr = all { on("Expr"), consume(judgeExpr(w)), tbl' = tbl }
  action Copied = all { on("Copied"), consume(judgeCopied(w)), tbl' = tbl }
  action Refused = all { on("Refused"), consume(judgeRefused(tbl)), tbl' = tbl }
  action init = all { start, tbl' = IC3 }
  action step = any { Begin, Select, Add, Assign, Get, All, Expr, Copied, Refused }
  val inv = verdict == "ok"
}
