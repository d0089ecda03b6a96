// Regimes of a converging-diverging nozzle: limits and exit Mach numbers
module nozzlelaw {
  import num.* from "./num"
  import gas.* from "./gas"
  import trace.* from "./trace"

  // section ratio and limit pressure ratios: choked subsonic, shock at exit, choked supersonic
  type Noz = { a: int, n0: int, nsw: int, n1: int }
  pure def machOf(G: int, npr: int): int = sqrt(div(2 * (isenT(G, npr) - S), G - S))

  // subsonic exit behind a shock: mass flow of the choked throat
  pure def shocked(G: int, n: Noz, npr: int, m: int): bool = and {
    fin(m), m > 0, m <= S + E6,
    close(mul(mul(PtPs(G, m), weight(G, m)), n.a), mul(npr, weight(G, S)), E7),
    PtPs(G, m) <= npr + mul(npr, E7) }
  pure def isentropic(G: int, npr: int, m: int): bool = fin(m) and m >= 0 and close(PtPs(G, m), npr, E8)
  pure def design(G: int, n: Noz, m: int): bool = fin(m) and m >= S - E6 and approx(sigma(G, m), n.a, E6)
  // jet behind the oblique shock that brings the exit pressure to the ambient one
  pure def jet(G: int, n: Noz, npr: int, m: int): bool = {
    val m1 = machOf(G, n.n1)
    val p = div(n.n1, npr)
    val rr = div(mul(G + S, p) + (G - S), mul(G - S, p) + (G + S))
    val t = div(p, rr)
    fin(m) and m > 0 and approx(sq(m), machBehind2(G, m1, t), E7)
  }
  pure def about(a: int, b: int): bool = close(a, b, E7)

  // the law of the regime; on a limit, of either regime
  pure def exitOk(G: int, n: Noz, npr: int, m: int): bool = or {
    (npr < n.n0 or about(npr, n.n0)) and isentropic(G, npr, m) and m <= S + E6,
    (npr >= n.n0 or about(npr, n.n0)) and (npr <= n.nsw or about(npr, n.nsw)) and shocked(G, n, npr, m),
    (npr > n.nsw or about(npr, n.nsw)) and design(G, n, m) }
  pure def jetOk(G: int, n: Noz, npr: int, m: int): bool = or {
    (npr < n.n0 or about(npr, n.n0)) and isentropic(G, npr, m) and m <= S + E6,
    (npr >= n.n0 or about(npr, n.n0)) and (npr <= n.nsw or about(npr, n.nsw)) and shocked(G, n, npr, m),
    (npr > n.nsw or about(npr, n.nsw)) and (npr <= n.n1 or about(npr, n.n1)) and jet(G, n, npr, m),
    (npr > n.n1 or about(npr, n.n1)) and isentropic(G, npr, m) and m >= S - E6 }

  pure def judgeLimits(G: int, n: Noz): str = {
    if (not(fin(n.n0) and fin(n.nsw) and fin(n.n1) and n.n0 >= S and n.nsw >= S and n.n1 >= S)) "a limit is not a pressure ratio above 1"
    else {
      val m0 = machOf(G, n.n0)
      val m1 = machOf(G, n.n1)
      clauses([
        (n.n0 <= n.nsw + E9 and n.nsw <= n.n1 + E9, "the limits are not ordered: choked subsonic, shock at exit, choked supersonic"),
        (m0 <= S + E6 and approx(sigma(G, m0), n.a, E6), "the choked subsonic limit is not the subsonic isentropic flow of this section ratio"),
        (m1 >= S - E6 and approx(sigma(G, m1), n.a, E6), "the choked supersonic limit is not the supersonic isentropic flow of this section ratio"),
        (close(mul(n.nsw, shockP(G, m1)), n.n1, E6), "the shock at exit limit is not the static pressure behind a shock of the supersonic flow")])
    }
  }
}
