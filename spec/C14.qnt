// C14  Flow in a nozzle: after any history of pressure ratios, the distributions
// are those of the last one: isentropic, same mass flow everywhere, choked and
// supersonic where it must be, one normal shock at most, and the exit pressure.
module C14 {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"
  import machine.* from "./machine"

  type Noz = { on: bool, g: int, a: int, n0: int, nsw: int, n1: int, npr: int }
  // walk along the nodes of one distribution
  type Walk = { noz: int, mdot: int, m: int, pt: int, area: int, area2: int, side: int, side2: int, jumped: bool, count: int }
  var nzs: List[Noz]
  var walk: Walk

  pure val NOZ0: Noz = { on: false, g: 0, a: 0, n0: 0, nsw: 0, n1: 0, npr: 0 }
  pure def startWalk(i: int): Walk = { noz: i, mdot: 0, m: 0, pt: S, area: 0, area2: 0, side: -S, side2: -S, jumped: false, count: 0 }

  pure def machOf(g: int, npr: int): int = sqrt(div(2 * (isenT(g, npr) - S), g - S))
  // Build: 1 slot, 2 gamma, 3 As/Ac of the section law, 4 NPR or none, 5 6 7 limits held by the object, 8 its As/Ac
  pure def nozOf(v: int): Noz = { on: true, g: fd(v, 2), a: fd(v, 3), n0: fd(v, 5), nsw: fd(v, 6), n1: fd(v, 7), npr: fd(v, 4) }
  pure def judgeBuild(v: int): str = {
    val n = nozOf(v)
    if (not(fin(n.n0) and fin(n.nsw) and fin(n.n1) and n.n0 >= S and n.nsw >= S and n.n1 >= S)) "a limit is not a pressure ratio above 1"
    else {
      val m0 = machOf(n.g, n.n0)
      val m1 = machOf(n.g, n.n1)
      clauses([
        (close(fd(v, 8), n.a, E9), "the section ratio of the nozzle is not the one of its section law"),
        (n.n0 <= n.nsw + E9 and n.nsw <= n.n1 + E9, "the limits are not ordered: choked subsonic, shock at exit, choked supersonic"),
        (m0 <= S + E6 and approx(sigma(n.g, m0), n.a, E6), "the choked subsonic limit is not the subsonic isentropic flow of this section ratio"),
        (m1 >= S - E6 and approx(sigma(n.g, m1), n.a, E6), "the choked supersonic limit is not the supersonic isentropic flow of this section ratio"),
        (close(mul(n.nsw, shockP(n.g, m1)), n.n1, E6), "the shock at exit limit is not the static pressure behind a shock of the supersonic flow")])
    }
  }
  pure def regime(n: Noz): int = if (n.npr < n.n0) 0 else if (n.npr < n.nsw) 1 else 2

  // upstream Mach number of the shock of total pressure loss `pl`
  pure def shockMach(g: int, pl: int): int = {
    val b = range(0, 45).foldl((S, 12 * S), (iv, i) => {
      val m = (iv._1 + iv._2) / 2
      if (shockPt(g, m) > pl) (m, iv._2) else (iv._1, m) })
    (b._1 + b._2) / 2
  }

  // Node: 1 slot, 2 index, 3 area/throat area, 4 side (-1 upstream, 0 throat, 1 downstream), 5 M, 6 Ps, 7 Pt, 8 next area (none at the exit)
  pure def judgeNode(ns: List[Noz], k: Walk, v: int): str = {
    val n = ns[k.noz]
    val area = fd(v, 3)
    val m = fd(v, 5)
    val ps = fd(v, 6)
    val pt = fd(v, 7)
    val side = fd(v, 4)
    val last = fd(v, 8) == NAN
    val jump = k.count > 0 and not(close(pt, k.pt, E10))
    val choked = regime(n) > 0
    val mdot = mul(mul(pt, weight(n.g, m)), area)
    if (not(fin(m) and fin(ps) and fin(pt) and m > 0 and ps > 0 and pt > 0)) "a Mach number or a pressure is not positive"
    else if (k.count == 0 and not(close(pt, S, E10) or (k.count == 0 and choked and side >= 0))) "the inlet total pressure is not the reference"
    else orElse(clauses([
      (ifd(v, 1) == k.noz and ifd(v, 2) == k.count, "nodes out of order"),
      (close(mul(ps, PtPs(n.g, m)), pt, E9), "static and total pressures do not match the Mach number"),
      (k.count == 0 or close(mdot, k.mdot, E6), "the mass flow is not the same in all sections"),
      (not(choked) or close(mdot, weight(n.g, S), E6), "the mass flow is not the choked one"),
      (choked or m < S, "the flow reaches the speed of sound though the throat is not choked"),
      (not(choked) or side > 0 or m <= S + E6, "the flow is supersonic upstream of the throat"),
      (not(choked) or side != 0 or near(m, S, E6), "the throat of a choked nozzle is not sonic"),
      (not(jump) or (regime(n) == 1 and not(k.jumped) and side >= 0), "total pressure changes where no shock can be"),
      (not(jump) or (pt < k.pt and m < S), "the flow behind the shock is not subsonic with a lower total pressure"),
      (regime(n) != 2 or side <= 0 or m >= S - E6, "the diffuser of a supersonic nozzle is not supersonic"),
      (regime(n) != 1 or side <= 0 or k.jumped or jump or m >= S - E6, "the flow is subsonic in the diffuser before the shock"),
      (not(k.jumped) or jump or m < S, "the flow is supersonic behind the shock")]),
      if (jump) {
        val as = sigma(n.g, shockMach(n.g, pt))
        clauses([
          (k.side2 < 0 or k.area2 <= as + mul(as, E6), "the shock is downstream of the section its losses belong to"),
          (last or as <= fd(v, 8) + mul(as, E6), "the shock is upstream of the section its losses belong to")])
      }
      else if (last) clauses([
        (regime(n) == 2 or close(mul(ps, n.npr), S, E6), "the exit pressure is not the one of this pressure ratio"),
        (regime(n) != 2 or close(mul(ps, n.n1), S, E6), "the exit pressure is not the one of the supersonic flow")])
      else "ok")
  }
  pure def nextWalk(ns: List[Noz], k: Walk, v: int): Walk = {
    val pt = fd(v, 7)
    val m = fd(v, 5)
    { noz: k.noz, mdot: if (k.count == 0) mul(mul(pt, weight(ns[k.noz].g, m)), fd(v, 3)) else k.mdot, m: m, pt: pt,
      area: fd(v, 3), area2: k.area, side: fd(v, 4), side2: k.side, jumped: k.jumped or (k.count > 0 and not(close(pt, k.pt, E10))), count: k.count + 1 }
  }
  // Set, Again and Look: 1 slot, 2 pressure ratio; the whole distribution follows
  pure def judgeSet(ns: List[Noz], v: int): str = clauses([
    (ns[ifd(v, 1)].on, "no such nozzle"),
    (fd(v, 2) > S, "not a pressure ratio")])

  action Begin = all { on("Begin"), consume("ok"), nzs' = [NOZ0, NOZ0], walk' = startWalk(0) }
  action Build = all { on("Build"), consume(judgeBuild(w)), nzs' = nzs.replaceAt(ifd(w, 1), nozOf(w)), walk' = startWalk(ifd(w, 1)) }
  action Assign = all { on("Set"), consume(judgeSet(nzs, w)), nzs' = nzs.replaceAt(ifd(w, 1), nzs[ifd(w, 1)].with("npr", fd(w, 2))), walk' = startWalk(ifd(w, 1)) }
  // nothing is set: the pressure ratio is the one the specification remembers
  action Look = all { on("Look"), consume(judgeSet(nzs, w)), nzs' = nzs, walk' = startWalk(ifd(w, 1)) }
  action Node = all { on("Node"), consume(judgeNode(nzs, walk, w)), nzs' = nzs, walk' = nextWalk(nzs, walk, w) }

  action init = all { start, nzs' = [NOZ0, NOZ0], walk' = startWalk(0) }
  action step = any { Begin, Build, Assign, Look, Node }
  val inv = verdict == "ok"
}
