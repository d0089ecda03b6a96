// Stages of a turbofan cycle and the order in which they can be computed.
module cyclemachine {
  // kinds: 0 core only, 1 fan pressure ratio given, 2 fan driven by a part of the power
  pure val CORE = 0
  pure val GIVEN = 1
  pure val DRIVEN = 2
  // stages (planes of the engine); START computes the intake, HPT the turbine of
  // the compressor, PERF the performance
  pure val START = 1
  pure val HPT = 40
  pure val PERF = 100
  // operations besides the stages: complete the core, complete the engine, print
  pure val TO4 = 14
  pure val TO9 = 59
  pure val SHOW = 0
  type Place = { corps: int, fan: int }
  pure val NOWHERE: Place = { corps: 0, fan: 0 }

  pure def hasStage(kind: int, s: int): bool =
    if (s == START or s == 2 or s == 3 or s == 4) true
    else if (s == HPT) kind == DRIVEN
    else kind != CORE
  // a stage is computed only once what it starts from has been
  pure def allowed(kind: int, p: Place, s: int): bool = hasStage(kind, s) and
    if (s == START) true
    else if (s == 2) p.corps == 1
    else if (s == 3) p.corps == 2
    else if (s == 4) p.corps == 3
    else if (s == 13) (if (kind == GIVEN) p.corps >= 2 else p.corps >= 6)
    else if (s == 19) p.fan == 13
    else if (s == HPT) p.corps == 4
    else if (s == 5) (if (kind == GIVEN) p.corps == 4 and p.fan >= 13 else p.corps == 5)
    else if (s == 9) p.corps == (if (kind == GIVEN) 5 else 6)
    else p.corps == 9 and p.fan == 19
  pure def after(kind: int, p: Place, s: int): Place =
    if (s == START) { corps: 1, fan: 0 }
    else if (s == 13 or s == 19) { ...p, fan: s }
    else if (s == HPT) { ...p, corps: 5 }
    else if (s == 5) { ...p, corps: if (kind == GIVEN) 5 else 6 }
    else if (s == PERF) p
    else { ...p, corps: s }
  // stages an operation attempts, in order
  pure def attempts(kind: int, p: Place, op: int): List[int] =
    if (op == SHOW) []
    else if (op == TO4) (if (p.corps == 0) [START] else []).concat([2, 3, 4])
    else if (op == TO9) (if (kind == GIVEN) (if (p.fan == 0) [13, 19] else if (p.fan == 13) [19] else []).concat([5, 9, PERF])
      else [HPT, 5, 9, 13, 19, PERF])
    else [op]
  // stages it computes, and where it ends
  pure def computed(kind: int, p: Place, op: int): { done: List[int], at: Place } =
    attempts(kind, p, op).foldl({ done: [], at: p }, (z, s) =>
      if (allowed(kind, z.at, s)) { done: z.done.append(s), at: after(kind, z.at, s) } else z)
}
