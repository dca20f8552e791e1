// The Carvallo-Whipple bicycle with a leaning rider upper body (Moore 2012),
// linearised about upright straight running, derived here from first
// principles: small lateral displacement y, yaw psi, roll phi, steer delta and
// rider lean theta with the rolling constraints
//    y' = v psi,   psi' = (v cos(lam) delta + c cos(lam) delta') / w,
// projected onto the admissible virtual displacements (phi, delta, theta).
// The locked part is the whipple module applied to frame + rider.
module lean {
  import fx.* from "./fx"
  import rnd.* from "./rnd"
  import whipple.* from "./whipple"
  import leanpar.* from "./leanpar"


  type Call = { op: str, scal: Par, arrs: str -> List[Fx], seq: str, bogus: List[str] }
  var base: Par
  var call: Call
  var stacked: bool
  var want: List[Elem]

  pure def over(p: Par, o: Par): Par = o.keys().fold(p, (m, k) => m.put(k, o.get(k)))
  pure val BOGUS: List[List[str]] = [[], [], ["mX"], ["lam", "speed"], ["mB"]]
  pure def makeCall(r: int, nS: int, nA: int, n: int, op: str): Call = {
    pure val ks = LEAN_KEYS.concat(["v", "v", "v", "v", "g", "rr", "rf", "d1", "k9", "c9"])
    pure val alt = range(0, 4).foldl(List(), (l, j) => l.append(genLean(r, 60 * (j + 1))))
    pure val ak = range(0, nA).foldl(Set(), (s, j) => s.union(Set(elem(ks, r, 20 + j))))
    pure val sk = range(0, nS).foldl(Set(), (s, j) => s.union(Set(elem(ks, r, 10 + j)))).exclude(ak)
    {
      op: op,
      scal: sk.mapBy(k => alt[3].get(k)),
      arrs: ak.mapBy(k => range(0, n).foldl(List(), (l, j) => l.append(alt[j].get(k)))),
      seq: elem(["ndarray", "ndarray", "list", "tuple"], r, 5),
      bogus: elem(BOGUS, r, 6)
    }
  }
  pure def results(b: Par, c: Call): List[Elem] = {
    pure val p = over(b, c.scal)
    pure val ak = c.arrs.keys()
    if (ak == Set()) [evalLean(p)]
    else {
      pure val n = ak.fold(0, (m, k) => c.arrs.get(k).length())
      range(0, n).foldl(List(), (l, j) =>
        l.append(evalLean(over(p, ak.mapBy(k => c.arrs.get(k)[j])))))
    }
  }
  action init = {
    nondet r = oneOf(0.to(RMAX))
    all {
      base' = genLean(r, 0),
      call' = { op: "new", scal: Map(), arrs: Map(), seq: "list", bogus: [] },
      stacked' = false,
      want' = [evalLean(genLean(r, 0))]
    }
  }
  action doCall(nS: int, nA: int, n: int, r: int): bool = {
    val c = makeCall(r, nS, nA, n, "call")
    all { base' = base, call' = c, stacked' = (c.arrs.keys() != Set()), want' = results(base, c) }
  }
  action scalarCall = { nondet r = oneOf(0.to(RMAX)) doCall(pick(r, 1, 5), 0, 1, r) }
  action arrayCall = { nondet r = oneOf(0.to(RMAX)) doCall(pick(r, 1, 3), 1 + pick(r, 2, 3), 1 + pick(r, 3, 3), r) }
  action badLen = {
    nondet r = oneOf(0.to(RMAX))
    val c0 = makeCall(r, pick(r, 1, 2), 2 + pick(r, 2, 2), 2 + pick(r, 3, 2), "badlen")
    val ak = c0.arrs.keys()
    all {
      ak.size() >= 2,
      base' = base,
      {
        nondet victim = oneOf(ak)
        val l = c0.arrs.get(victim)
        val l2 = if (pick(r, 4, 2) == 0) l.append(l[0]) else l.slice(0, l.length() - 1)
        call' = { ...c0, arrs: c0.arrs.put(victim, l2) }
      },
      stacked' = true,
      want' = []
    }
  }
  // the user changes parameters of the object
  action edit = {
    nondet r = oneOf(0.to(RMAX))
    val ks = LEAN_KEYS.concat(["v", "v", "g"])
    val other = genLean(r, 60)
    val changed = range(0, 1 + pick(r, 1, 4)).foldl(Set(), (s, j) => s.union(Set(elem(ks, r, 10 + j))))
    val b = changed.fold(base, (m, k) => m.put(k, other.get(k)))
    all {
      base' = b,
      call' = { op: "edit", scal: Map(), arrs: Map(), seq: elem(["inplace", "replace"], r, 5), bogus: [] },
      stacked' = false,
      want' = [evalLean(b)]
    }
  }
  action step = any { scalarCall, arrayCall, badLen, edit }
  action stepArr = any { arrayCall, arrayCall, scalarCall, edit }

  // locking the lean joint (theta'' = theta' = theta = 0) leaves the whipple model
  val lockedOK = want.indices().forall(j => {
    val p = want[j].par
    val B = want[j].B
    // M3 from W: the roll/steer block of the inverse of B's 3x3 block
    val Mi = inv3([[B[8][0], B[8][1], B[8][2]], [B[10][0], B[10][1], B[10][2]], [B[11][0], B[11][1], B[11][2]]])
    val k = canonical(locked(p))
    and { near(Mi[0][0], k.M[0][0], 20), near(Mi[0][1], k.M[0][1], 20), near(Mi[1][1], k.M[1][1], 20) }
  })
  val geometryOK = want.indices().forall(j => {
    // rear wheel centre, front wheel centre and steer axis reproduce the ground contact
    val p = want[j].par
    val G = geometry(p)
    near(mul(p.get("d2"), cos(G.lam)) - mul(p.get("d1") + p.get("d3"), sin(G.lam)), p.get("rr") - p.get("rf"), 25)
  })
}
