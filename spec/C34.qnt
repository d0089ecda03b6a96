// C34  Waves in a tube: the states of one problem are the start of the next.
module C34 {
  import num.* from "./num"
  import trace.* from "./trace"
  import machine.* from "./machine"
  import riemannlaw.* from "./riemannlaw"

  var cells: List[Gas]
  // 0 unknown, 1 wave to the left, 2 contact, 3 wave to the right
  var links: List[int]

  pure def same(a: Gas, b: Gas, tol: int): bool = {
    val vs = sound(a) + sound(b) + iabs(a.u)
    and { close(a.g, b.g, E12), close(a.rho, b.rho, tol), close(a.p, b.p, tol), closeTo(a.u, b.u, tol, vs) }
  }
  // the contact between two cells
  pure def contact(a: Gas, b: Gas): str = clauses([
    (close(a.p, b.p, E9), "pressure is not continuous at the contact"),
    (closeTo(a.u, b.u, E9, sound(a) + sound(b)), "velocity is not continuous at the contact")])
  pure def gases(a: Gas, s: Gas): str = clauses([
    (sane(s), "the state behind a wave is not a flow state"), (sane(s) and close(a.g, s.g, E12), "a wave changes the gas")])

  // between the cells a and b, of the link k: star states l and r, star pressure and velocity, fastest waves
  pure def meeting(a: Gas, b: Gas, k: int, l: Gas, r: Gas, v: int, j: int): str =
    orElse(gases(a, l), orElse(gases(b, r), orElse(contact(l, r), orElse(clauses([
      (close(fd(v, j), l.p, E9) and closeTo(fd(v, j + 1), l.u, E9, sound(l) + sound(r)), "the star state is not that of the contact"),
      (fd(v, j + 2) <= l.u + mul(E7, sound(l)) and l.u <= fd(v, j + 3) + mul(E7, sound(r)), "waves are not in order"),
      (k != 1 or (same(l, b, E7) and same(r, b, E7)), "waves beside the one that joins the states (a wave to the left)"),
      (k != 2 or (same(l, a, E7) and same(r, b, E7)), "waves although the states are joined by a contact"),
      (k != 3 or (same(l, a, E7) and same(r, a, E7)), "waves beside the one that joins the states (a wave to the right)")]),
      orElse(leftWave(a, l, fd(v, j + 2), true), rightWave(b, r, fd(v, j + 3), true))))))

  // Gauss-Legendre points and weights of [0,1]
  pure val NODES = [q(33765242898424, 10^15), q(169395306766868, 10^15), q(380690406958402, 10^15), q(619309593041598, 10^15), q(830604693233132, 10^15), q(966234757101576, 10^15)]
  pure val WEIGHTS = [q(85662246189585, 10^15), q(180380786524069, 10^15), q(233956967286346, 10^15), q(233956967286346, 10^15), q(180380786524069, 10^15), q(85662246189585, 10^15)]
  // conserved quantity (mass, momentum, energy) and its flux
  pure def total(o: Gas, m: int): int = if (m == 0) o.rho else if (m == 1) mul(o.rho, o.u) else div(o.p, o.g - S) + mul(o.rho, sq(o.u)) / 2
  pure def flux(o: Gas, m: int): int = if (m == 0) mul(o.rho, o.u) else if (m == 1) o.p + mul(o.rho, sq(o.u)) else mul(o.u, total(o, 2) + o.p)
  // scale of the quantity and of its flux
  pure def scaleOf(o: Gas, m: int): int = {
    val c = sound(o) + iabs(o.u)
    if (m == 0) o.rho else if (m == 1) mul(o.rho, c) else mul(o.rho, sq(c))
  }
  // samples: parts of the profile, each six points (ray, gas)
  pure def partOf(v: int, j: int, m: int, lo: int, hi: int): int = range(0, 6).foldl(0, (acc, k) =>
    acc + mul(mul(hi - lo, WEIGHTS[k]), total(gasAt(v, j + 5 * k + 1), m)))
  pure def placed(v: int, j: int, lo: int, hi: int): bool = range(0, 6).foldl(true, (ok, k) =>
    ok and near(fd(v, j + 5 * k), lo + mul(hi - lo, NODES[k]), mul(E9, iabs(lo) + iabs(hi))))
  pure def sampled(v: int, j: int): bool = range(0, 36).foldl(true, (ok, k) => ok and sane(gasAt(v, j + 5 * k + 1)))
  // 1 cell, 2-8 rays between the parts, then the samples
  pure def budget(a: Gas, b: Gas, v: int): str = {
    def e(k: int): int = fd(v, 2 + k)
    def inside(m: int): int = range(0, 6).foldl(0, (acc, k) => acc + partOf(v, 9 + 30 * k, m, e(k), e(k + 1)))
    def goes(m: int): int = mul(e(6), total(b, m)) - mul(e(0), total(a, m)) - flux(b, m) + flux(a, m)
    def room(m: int): int = mul(iabs(e(0)) + iabs(e(6)), scaleOf(a, m) + scaleOf(b, m))
    if (not(sampled(v, 9))) "a sampled state is not a flow state"
    else clauses([
      (range(0, 6).foldl(true, (ok, k) => ok and placed(v, 9 + 30 * k, e(k), e(k + 1))), "DRIVER: places of the samples"),
      (near(inside(0), goes(0), mul(E6, room(0))), "the profile does not hold the mass that flowed in"),
      (near(inside(1), goes(1), mul(E6, room(1))), "the profile does not hold the momentum that flowed in"),
      (near(inside(2), goes(2), mul(E6, room(2))), "the profile does not hold the energy that flowed in")])
  }

  pure def turned(k: int): int = if (k == 1) 3 else if (k == 3) 1 else k
  pure def put3(s: List[int], i: int, m: List[int]): List[int] = s.slice(0, i).concat(m).concat(s.slice(i + 1, s.length()))
  action keep: bool = all { cells' = cells, links' = links }

  // 1 number of cells, the cells
  action Fill = all { on("Fill"), consume("ok"),
    cells' = range(0, ifd(w, 1)).foldl([], (acc, k) => acc.append(gasAt(w, 2 + 4 * k))),
    links' = range(1, ifd(w, 1)).foldl([], (acc, _) => acc.append(0)) }
  // 1 left cell, 2-5 and 6-9 star states, 10-13 p* u* fastest waves
  action Meet = all { on("Meet"), {
    val i = ifd(w, 1)
    val bad = meeting(cells[i], cells[i + 1], links[i], gasAt(w, 2), gasAt(w, 6), w, 10)
    all { consume(bad),
      if (bad == "ok" and links[i] == 0) all {
        cells' = cells.slice(0, i + 1).append(gasAt(w, 2)).append(gasAt(w, 6)).concat(cells.slice(i + 1, cells.length())),
        links' = put3(links, i, [1, 2, 3]) }
      else keep } } }
  // 1 right side (1) or left (0), 2-5 and 6-9 star states of the gas and its mirror image, 10-13 as above
  action Wall = all { on("Wall"), {
    val right = ifd(w, 1) == 1
    val a = if (right) cells[cells.length() - 1] else mirror(cells[0])
    val b = mirror(a)
    val s = gasAt(w, if (right) 2 else 6)
    val bad = orElse(meeting(a, b, 0, gasAt(w, 2), gasAt(w, 6), w, 10),
      clauses([(closeTo(s.u, 0, E9, sound(s) + iabs(a.u)) and same(gasAt(w, 6), mirror(gasAt(w, 2)), E9), "the gas goes through the wall")]))
    all { consume(bad),
      if (bad != "ok") keep
      else if (right) all { cells' = cells.append(s), links' = links.append(1) }
      else all { cells' = [s].concat(cells), links' = [3].concat(links) } } } }
  pure def rtt(o: Gas): int = div(o.p, o.rho) + div(mul(o.g - S, sq(o.u)), 2 * o.g)
  pure def ptot(o: Gas): int = mul(o.p, pow(div(rtt(o), div(o.p, o.rho)), div(o.g, o.g - S)))
  // 1 total pressure, 2 total temperature, 3-6 and 7-10 states at both sides of the contact
  action Inflow = all { on("Inflow"), {
    val l = gasAt(w, 3)
    val s = gasAt(w, 7)
    val bad = orElse(gases(cells[0], l), orElse(gases(cells[0], s), orElse(clauses([
      (close(l.p, s.p, E6), "pressure is not continuous at the contact"),
      (closeTo(l.u, s.u, E9, sound(l) + sound(s)), "velocity is not continuous at the contact"),
      (close(ptot(l), fd(w, 1), E7), "the inflow does not have the total pressure of the reservoir"),
      (close(rtt(l), fd(w, 2), E7), "the inflow does not have the total temperature of the reservoir")]),
      rightWave(cells[0], s, 0, false))))
    all { consume(bad),
      if (bad != "ok") keep else all { cells' = [l, s].concat(cells), links' = [2, 3].concat(links) } } } }
  // 1 cell
  action Drop = all { on("Drop"), consume("ok"), {
    val i = ifd(w, 1)
    all { cells' = cells.slice(0, i).concat(cells.slice(i + 1, cells.length())),
      links' = if (i == 0) links.slice(1, links.length()) else if (i == cells.length() - 1) links.slice(0, links.length() - 1)
        else links.slice(0, i - 1).append(0).concat(links.slice(i + 1, links.length())) } } }
  // the cells as the library mirrors them, from left to right afterwards
  action Mirror = all { on("Mirror"), {
    val n = cells.length()
    all { consume(if (range(0, n).foldl(true, (ok, k) => ok and gasAt(w, 1 + 4 * k) == mirror(cells[n - 1 - k]))) "ok" else "the mirror image is not the state with opposite velocity"),
      cells' = range(0, n).foldl([], (acc, k) => acc.append(mirror(cells[n - 1 - k]))),
      links' = range(0, n - 1).foldl([], (acc, k) => acc.append(turned(links[n - 2 - k]))) } } }
  // the cells seen from a moving frame: 1 its velocity, the cells
  action Move = all { on("Move"), {
    val n = cells.length()
    val t = range(0, n).foldl([], (acc, k) => acc.append(gasAt(w, 2 + 4 * k)))
    all { consume(if (range(0, n).foldl(true, (ok, k) => ok and same(t[k], { ...cells[k], u: cells[k].u - fd(w, 1) }, E12))) "ok" else "DRIVER: frame"),
      cells' = t, links' = links } } }
  action Budget = all { on("Budget"), consume(budget(cells[ifd(w, 1)], cells[ifd(w, 1) + 1], w)), keep }
  action Begin = all { on("Begin"), consume("ok"), cells' = [], links' = [] }
  action init = all { start, cells' = [], links' = [] }
  action step = any { Begin, Fill, Meet, Wall, Inflow, Drop, Mirror, Move, Budget }
  val inv = verdict == "ok"
}
