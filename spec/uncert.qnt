// A measured bicycle: benchmark parameters with standard deviations.  Gives
// the exact nominal canonical matrices / state space and the first-order
// propagated standard deviations of each entry.
module uncert {
  import fx.* from "./fx"
  import rnd.* from "./rnd"
  import whipple.* from "./whipple"

  var par: Par
  var sig: Par                 // standard deviation per parameter (0 = exact)
  var speed: Fx
  var asInt: bool              // the speed is passed as an integer
  var shared: bool             // the deviations stem from one measurement
  var canon: Canon
  var ss: SS
  var stdM: List[Fx]           // M, C1, K0, K2 flattened
  var stdA: List[Fx]           // A (16) then B (8), flattened

  pure def flat(m: Mat): List[Fx] = m.foldl(List(), (l, row) => l.concat(row))
  pure def flatC(k: Canon): List[Fx] = flat(k.M).concat(flat(k.C1)).concat(flat(k.K0)).concat(flat(k.K2))
  pure def flatS(s: SS): List[Fx] = flat(s.A).concat(flat(s.B))
  pure val H: int = 10^20      // step 1e-20

  pure def fC(p: Par): List[Fx] = flatC(canonical(p))
  pure def fS(p: Par, v: Fx): List[Fx] = flatS(stateSpace(canonical(p), v, p.get("g")))

  // derivative of the k-th output list with respect to each key, times sigma
  pure def addVar(acc: List[Fx], hi: List[Fx], lo: List[Fx], s: Fx): List[Fx] =
    range(0, acc.length()).foldl(List(), (l, j) =>
      l.append(acc[j] + sq(mul((hi[j] - lo[j]) * S / (2 * H), s))))

  // derivative of every output along the direction of the deviations
  pure def along(hi: List[Fx], lo: List[Fx]): List[Fx] =
    range(0, hi.length()).foldl(List(), (l, j) => l.append(sq((hi[j] - lo[j]) * S / (2 * H))))
  pure def moved(p: Par, ks: Set[str], s: Par, h: int): Par =
    ks.fold(p, (m, k) => m.put(k, p.get(k) + h * s.get(k) / S))

  action choose: bool = {
    nondet r = oneOf(0.to(RMAX))
    val q0 = genBench(r, 0)
    // another bicycle, or the last one with a few parameters corrected
    val ed = Set(elem(BENCH_KEYS, r, 50), elem(BENCH_KEYS, r, 51))
    val p = if (pick(r, 52, 3) == 0) q0 else ed.fold(par, (m, k) => m.put(k, q0.get(k)))
    val ks = Set(elem(BENCH_KEYS, r, 40), elem(BENCH_KEYS, r, 41), elem(BENCH_KEYS, r, 42)).exclude(Set("v"))
    val s: Par = p.keys().mapBy(k => if (ks.contains(k)) rng(r, 43, q(1, 1000), q(1, 50)) else 0)
    val isI = pick(r, 45, 4) == 0
    val v = if (pick(r, 53, 3) == 0 and not(isI)) speed else if (isI) i(pick(r, 46, 11)) else rngz(r, 47, q(-3, 1), q(15, 1), 0, 80)
    val z16: List[Fx] = range(0, 16).foldl(List(), (l, j) => l.append(0))
    val z24: List[Fx] = range(0, 24).foldl(List(), (l, j) => l.append(0))
    // e.g. two masses weighed on one scale: +-s_k of one common source
    val sh = pick(r, 54, 3) == 0
    val up = moved(p, ks, s, H)
    val dn = moved(p, ks, s, -H)
    all {
      par' = p, sig' = s, speed' = v, asInt' = isI, shared' = sh,
      canon' = canonical(p),
      ss' = stateSpace(canonical(p), v, p.get("g")),
      stdM' = if (sh) along(fC(up), fC(dn)) else ks.fold(z16, (acc, k) =>
        addVar(acc, fC(p.put(k, p.get(k) + H)), fC(p.put(k, p.get(k) - H)), s.get(k))),
      stdA' = if (sh) along(fS(up, v), fS(dn, v)) else ks.fold(z24, (acc, k) =>
        addVar(acc, fS(p.put(k, p.get(k) + H), v), fS(p.put(k, p.get(k) - H), v), s.get(k)))
    }
  }
  action init = {
    nondet r = oneOf(0.to(RMAX))
    val p = genBench(r, 0)
    val s: Par = p.keys().mapBy(k => 0)
    val c = canonical(p)
    val a = stateSpace(c, 0, p.get("g"))
    all { par' = p, sig' = s, speed' = 0, asInt' = false, shared' = false, canon' = c, ss' = a,
          stdM' = range(0, 16).foldl(List(), (l, j) => l.append(0)),
          stdA' = range(0, 24).foldl(List(), (l, j) => l.append(0)) }
  }
  action step = choose
  val nonneg = stdM.indices().forall(j => stdM[j] >= 0) and stdA.indices().forall(j => stdA[j] >= 0)
}
