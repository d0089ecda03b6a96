// Access to the recorded behaviour, shared by the specifications of all properties.
//
// An event is (operation, fields): field 0 is a set of flags, the others are
// the real numbers given to and returned by the operation.
module trace {
  import num.* from "./num"
  import data.* from "./data"

  pure val B = 2^256
  pure val OFF = 2^255
  pure def evAt(l: int): (str, int) = TT[l / 25][l % 25]
  pure def fd(w: int, i: int): int = (w / 2^(256 * i)) % B - OFF
  // field i rounded to a plain integer
  pure def ifd(w: int, i: int): int = fd(w, i) / S
  pure def fds(w: int, i: int, n: int): List[int] = range(i, i + n).foldl([], (a, k) => a.append(fd(w, k)))
  pure def flags(w: int): int = w % B - OFF

  // what the recorder saw besides the values
  pure def flagVerdict(f: int): str =
    if (f == 0) "ok"
    else if ((f / 8) % 2 == 1) "the call raised an exception or did not answer"
    else if (f % 2 == 1) "the call modified its input"
    else if ((f / 2) % 2 == 1) "the result does not have the shape of the input"
    else if ((f / 4) % 2 == 1) "the same call repeated gives another result"
    else "the result does not have the expected type"

  // first clause that does not hold
  pure def clauses(cs: List[(bool, str)]): str =
    cs.foldl("ok", (a, c) => if (a != "ok" or c._1) a else c._2)
  pure def orElse(a: str, b: str): str = if (a != "ok") a else b
}
