// One nondeterministic integer per action is expanded into many independent
// choices.  r is drawn uniformly from 0..10^300 and read as base-1000 digits.
module rnd {
  import fx.* from "./fx"
  pure val RMAX: int = 10^900
  // k-th base-1000 digit of r
  pure def dig(r: int, k: int): int = (r / 1000^k) % 1000
  // integer in 0..n-1
  pure def pick(r: int, k: int, n: int): int = dig(r, k) * n / 1000
  // fixed-point number on a 1000 point grid in [lo, hi]
  pure def rng(r: int, k: int, lo: Fx, hi: Fx): Fx = lo + (hi - lo) * dig(r, k) / 999
  // the same, but with probability n/1000 the special value z (three times in
  // four) or a value 10^-3 to 10^-7 of the range away from it
  pure def rngz(r: int, k: int, lo: Fx, hi: Fx, z: Fx, n: int): Fx = {
    pure val d = dig(r, k)
    pure val e = (hi - lo) / 10^(3 + (d / 4) % 5)
    if (d >= n) lo + (hi - lo) * (d - n) / (999 - n)
    else if (d % 4 != 0) z
    else if (z >= hi or (z > lo and (d / 20) % 2 == 1)) z - e
    else z + e
  }
  pure def wholeOf(x: Fx): Fx = ((x + 100 * S + S / 2) / S - 100) * S
  // the same, but every sixth value is a whole number
  pure def rngw(r: int, k: int, lo: Fx, hi: Fx, z: Fx, n: int): Fx =
    if (dig(r, k) % 6 == 5) wholeOf(rngz(r, k, lo, hi, z, n)) else rngz(r, k, lo, hi, z, n)
  pure def elem(l: List[a], r: int, k: int): a = l[pick(r, k, l.length())]
}
