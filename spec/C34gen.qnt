// Histories of the waves in a tube: which cells stand beside each other and what is known of the wave between them.
module C34gen {
  // links between neighbours: 0 nothing known, 1 a wave to the left, 2 a contact, 3 a wave to the right
  var links: List[int]
  var last: str
  // cells left of the place of the last step before it, and cells the last step added (ghost)
  var added: int
  pure val MOST = 6
  pure def turned(k: int): int = if (k == 1) 3 else if (k == 3) 1 else k
  pure def insert3(s: List[int], i: int, m: List[int]): List[int] = s.slice(0, i).concat(m).concat(s.slice(i + 1, s.length()))

  action become(t: List[int], what: str): bool = all { links' = t, last' = what, added' = t.length() - links.length() }
  action init = all { links' = [], last' = "none", added' = 0 }

  action Fill(n: int): bool = become(if (n == 2) [0] else if (n == 3) [0, 0] else [0, 0, 0], "Fill")
  // the two cells meet: a wave each way and a contact, unless what is between them is one wave already
  action Meet(i: int): bool = become(if (links[i] == 0) insert3(links, i, [1, 2, 3]) else links, if (links[i] == 0) "Meet" else "Again")
  // the gas at the end meets a wall
  action WallRight: bool = become(links.append(1), "WallRight")
  action WallLeft: bool = become([3].concat(links), "WallLeft")
  // a reservoir is opened at the left end
  action Inflow: bool = become([2, 3].concat(links), "Inflow")
  // the cell between two waves has vanished (they met)
  action Drop(i: int): bool = become(links.slice(0, i - 1).append(0).concat(links.slice(i + 1, links.length())), "Drop")
  action Cut(left: bool): bool = become(if (left) links.slice(1, links.length()) else links.slice(0, links.length() - 1), "Cut")
  action Mirror: bool = become(range(0, links.length()).foldl([], (acc, i) => acc.append(turned(links[links.length() - 1 - i]))), "Mirror")
  action Move: bool = become(links, "Move")
  action Budget(i: int): bool = become(links, "Budget")

  action step = any {
    all { links.length() == 0, { nondet n = 2.to(4).oneOf() nondet gas = 0.to(5).oneOf() Fill(n) } },
    all { links.length() > 0, { nondet i = links.indices().oneOf() all { links[i] != 0 or links.length() + 2 <= MOST, Meet(i) } } },
    all { links.length() > 0, links.length() < MOST, WallRight },
    all { links.length() > 0, links.length() < MOST, WallLeft },
    all { links.length() > 0, links.length() + 2 <= MOST, { nondet strength = 0.to(2).oneOf() Inflow } },
    all { links.length() > 3, { nondet i = 1.to(links.length() - 1).oneOf() Drop(i) } },
    all { links.length() > 4, { nondet left = Set(true, false).oneOf() Cut(left) } },
    all { links.length() > 0, { nondet i = links.indices().oneOf() all { links[i] != 0, Meet(i) } } },
    all { links.length() > 0, Mirror },
    all { links.length() > 0, { nondet c = 0.to(2).oneOf() Move } },
    all { links.length() > 0, { nondet i = links.indices().oneOf() Budget(i) } },
  }
  val inv = and {
    links.length() <= MOST,
    links.indices().forall(i => links[i] >= 0 and links[i] <= 3),
    last == "Meet" implies added == 2,
    Set("Again", "Mirror", "Move", "Budget").contains(last) implies added == 0,
    Set("WallRight", "WallLeft").contains(last) implies added == 1,
    // what is between two cells is lost only when one of them vanishes
    added < 0 implies Set("Drop", "Cut").contains(last) }
}
