// Histories of engines: made, put in flight conditions, changed, updated, read
// and asked for their performance, in any order, several at a time.
module C25gen {
  type Eng = { on: bool, flying: bool, updated: bool, stale: bool }
  var es: List[Eng]
  pure val NEW: Eng = { on: true, flying: false, updated: false, stale: false }
  action init = es' = [{ ...NEW, on: false }, { ...NEW, on: false }, { ...NEW, on: false }]
  action New(o: int): bool = es' = es.replaceAt(o, NEW)
  action Flight(o: int): bool = es' = es.replaceAt(o, { ...es[o], flying: true, stale: es[o].updated })
  action Change(o: int): bool = es' = es.replaceAt(o, { ...es[o], stale: es[o].updated })
  action Update(o: int): bool = es' = es.replaceAt(o, { ...es[o], updated: true, stale: false })
  action State(o: int): bool = es' = es
  action Perf(o: int): bool = es' = es
  action step = {
    nondet o = Set(0, 1, 2).oneOf()
    any {
      { nondet kind = Set(0, 1, 2).oneOf()
        nondet gases = 0.to(3).oneOf()
        all { not(es[o].on) or es[o].updated, New(o) } },
      { nondet where = 0.to(5).oneOf()
        all { es[o].on, Flight(o) } },
      { nondet par = 0.to(17).oneOf()
        all { es[o].on, Change(o) } },
      all { es[o].on, es[o].flying, Update(o) },
      all { es[o].on, es[o].flying, not(es[o].updated) or es[o].stale, Update(o) },
      all { es[o].updated, State(o) },
      all { es[o].updated, not(es[o].stale), Perf(o) },
    } }
  val inv = es.indices().forall(o => not(es[o].stale) or es[o].updated)
}
