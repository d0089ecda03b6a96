// Histories of two streams of gas: which elements a stream may be led through.
module C33gen {
  type Stream = { on: bool, sup: bool, tube: bool, pt: int, tt: int }
  var s: List[Stream]
  // what the last step was, and the stream before it
  var last: str
  var before: Stream
  var who: int
  pure val OFF: Stream = { on: false, sup: false, tube: false, pt: 0, tt: 0 }
  pure val DEPTH = 3
  action lead(o: int, z: Stream, what: str): bool = all {
    s' = s.replaceAt(o, z), last' = what, before' = s[o], who' = o }
  action init = all { s' = [OFF, OFF], last' = "none", before' = OFF, who' = 0 }
  // pt: how often total pressure was lost, tt: how often heat was added (less the times it was taken)
  pure def lost(z: Stream): Stream = { ...z, pt: if (z.pt < DEPTH) z.pt + 1 else z.pt }
  pure def heated(z: Stream, d: int): Stream = { ...z, tt: if (z.tt + d < DEPTH and z.tt + d > -DEPTH) z.tt + d else z.tt }

  action Start(o: int, sup: bool): bool = lead(o, { ...OFF, on: true, sup: sup }, "Start")
  // a shock normal to the stream, one turning it (weak or strong), and one of a given pressure
  action Normal(o: int): bool = lead(o, lost({ ...s[o], sup: false }), "Normal")
  action Oblique(o: int): bool = lead(o, lost(s[o]), "Oblique")
  action Strong(o: int): bool = lead(o, lost({ ...s[o], sup: false }), "Strong")
  action ShockTo(o: int): bool = lead(o, lost(s[o]), "ShockTo")
  // isentropic: turned, led to a pressure, to a section (through a throat or not)
  action Turn(o: int): bool = lead(o, s[o], "Turn")
  action PressureTo(o: int, sup: bool): bool = lead(o, { ...s[o], sup: sup }, "PressureTo")
  action Section(o: int, sup: bool): bool = lead(o, { ...s[o], sup: sup }, "Section")
  // ducts of constant section
  action Friction(o: int): bool = lead(o, lost(s[o]), "Friction")
  action Heat(o: int, more: bool): bool = lead(o, if (more) heated(lost(s[o]), 1) else heated(s[o], -1), "Heat")
  action Measure(o: int): bool = lead(o, s[o], "Measure")

  action step = {
    nondet o = Set(0, 1).oneOf()
    any {
      all { not(s[o].on), { nondet sup = Set(true, false).oneOf() nondet form = 0.to(3).oneOf() nondet gas = 0.to(7).oneOf() Start(o, sup) } },
      all { s[o].on and s[o].pt == DEPTH, { nondet sup = Set(true, false).oneOf() nondet form = 0.to(3).oneOf() nondet gas = 0.to(7).oneOf() Start(o, sup) } },
      { nondet how = 0.to(2).oneOf() all { s[o].on, s[o].sup, Normal(o) } },
      { nondet how = 0.to(1).oneOf() all { s[o].on, s[o].sup, Oblique(o) } },
      all { s[o].on, s[o].sup, Strong(o) },
      { nondet how = 0.to(1).oneOf() all { s[o].on, s[o].sup, ShockTo(o) } },
      { nondet how = 0.to(3).oneOf() all { s[o].on, s[o].sup, Turn(o) } },
      { nondet how = 0.to(2).oneOf() nondet sup = Set(true, false).oneOf() all { s[o].on, PressureTo(o, sup) } },
      { nondet how = 0.to(2).oneOf() nondet sup = Set(true, false).oneOf() all { s[o].on, Section(o, sup) } },
      all { s[o].on, Friction(o) },
      { nondet more = Set(true, false).oneOf() all { s[o].on, Heat(o, more) } },
      { nondet how = 0.to(1).oneOf() all { s[o].on, Measure(o) } },
    } }
  // only a throat (or a new stream) makes a subsonic stream supersonic; only shocks and ducts lose total pressure;
  // only a heated duct changes the total temperature
  val inv = and {
    (s[who].sup and not(before.sup)) implies Set("Start", "Section", "PressureTo", "none").contains(last),
    (s[who].pt != before.pt) implies Set("Start", "Normal", "Oblique", "Strong", "ShockTo", "Friction", "Heat").contains(last),
    (s[who].tt != before.tt) implies Set("Start", "Heat").contains(last),
    last == "Turn" implies s[who].sup }
}
