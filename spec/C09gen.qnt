// Histories of 1D state objects: three slots, each empty or holding an object.
// The driver of C09 replays these histories into the real classes.
module C09gen {
  var slots: List[str]        // "none", "steady", "unsteady"
  var age: int

  pure val SLOTS = 0.to(2)
  pure val LEVELS = 0.to(11)
  action keep(s: List[str]): bool = all { slots' = s, age' = age + 1 }
  action init = all { slots' = ["none", "none", "none"], age' = 0 }

  action New(d: int, cls: str): bool = keep(slots.replaceAt(d, cls))
  action step = any {
    // create with parameters drawn by the driver from (a, b, c, e) levels
    { nondet d = SLOTS.oneOf()
      nondet cls = Set("steady", "unsteady").oneOf()
      nondet a = LEVELS.oneOf()
      nondet b = LEVELS.oneOf()
      nondet c = LEVELS.oneOf()
      New(d, cls) },
    { nondet s = SLOTS.oneOf()
      nondet d = SLOTS.oneOf()
      all { slots[s] != "none", s != d, Copy(s, d) } },
    { nondet s = SLOTS.oneOf()
      nondet d = SLOTS.oneOf()
      all { slots[s] == "unsteady", s != d, CopySymmetric(s, d) } },
    { nondet s = SLOTS.oneOf()
      nondet d = SLOTS.oneOf()
      all { slots[s] == "unsteady", s != d, CopyAndChange(s, d) } },
    { nondet s = SLOTS.oneOf()
      nondet d = SLOTS.oneOf()
      all { slots[s] != "none", Jump(s, d) } },
    { nondet s = SLOTS.oneOf()
      nondet d = SLOTS.oneOf()
      nondet a = LEVELS.oneOf()
      all { slots[s] != "none", Isentropic(s, d) } },
    { nondet s = SLOTS.oneOf()
      nondet a = LEVELS.oneOf()
      nondet b = LEVELS.oneOf()
      nondet c = LEVELS.oneOf()
      nondet by = Set("M", "u", "p").oneOf()
      all { slots[s] != "none", Recompute(s) } },
    { nondet s = SLOTS.oneOf()
      nondet a = LEVELS.oneOf()
      all { slots[s] == "unsteady", Waves(s) } },
    { nondet s = SLOTS.oneOf()
      nondet a = LEVELS.oneOf()
      all { slots[s] != "none", Element(s) } },
  }
  action Copy(s: int, d: int): bool = keep(slots.replaceAt(d, slots[s]))
  action CopySymmetric(s: int, d: int): bool = keep(slots.replaceAt(d, "unsteady"))
  action CopyAndChange(s: int, d: int): bool = keep(slots.replaceAt(d, "unsteady"))
  // jump and isentropic states are plain states
  action Jump(s: int, d: int): bool = keep(slots.replaceAt(d, "steady"))
  action Isentropic(s: int, d: int): bool = keep(slots.replaceAt(d, "steady"))
  action Recompute(s: int): bool = keep(slots)
  action Waves(s: int): bool = keep(slots)
  action Element(s: int): bool = keep(slots)

  val inv = slots.length() == 3
}
