// the one-step methods have the order they should have
module odelaw_test {
  import num.* from "./num"
  import odelaw.* from "./odelaw"
  // a' = a, b' = 5 x^4 cannot be written; use b' = 2 x b-free: a' = a, b' = x
  pure val C = [0, 0, S, 0, 0, 0, S, 0, 0, 0]
  run orderTest = {
    val y = { a: S, b: 0 }
    val h = S / 10
    val r4 = rk4(C, 0, y, h)
    val r5 = embedded(C, 0, y, h)
    all {
      assert(near(r4.a, exp(h), S / 10^6)), assert(not(near(r4.a, exp(h), S / 10^9))),
      assert(near(r5.y.a, exp(h), S / 10^8)), assert(near(r5.y.b, sq(h) / 2, E15)), assert(near(r4.b, sq(h) / 2, E15)),
      assert(r5.e > 0 and r5.e < S / 10^6) }
  }
}
