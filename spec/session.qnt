// A session with a model object: one base parameter set, any number of calls
// with call-local overrides.  The object's state is its base parameters; no
// call changes it.  Every state records the call and the exact results the
// call has to produce.
module session {
  import fx.* from "./fx"
  import rnd.* from "./rnd"
  import whipple.* from "./whipple"

  type Call = {
    op: str,                    // "new", "edit", "call", "badlen"
    scal: Par,                  // scalar overrides
    arrs: str -> List[Fx],      // array overrides
    seq: str,                   // container type used for arrays
    bogus: List[str]            // unknown names passed along
  }
  type Elem = { par: Par, canon: Canon, ss: SS, chi: List[Fx] }

  var kind: str                 // "whipple" or "feedback"
  var base: Par                 // parameters of the model object
  var call: Call
  var stacked: bool             // results carry a leading array dimension
  var want: List[Elem]           // one element per evaluation

  pure def genGains(r: int, k0: int): Par =
    range(0, 8).foldl(Map(), (m, j) =>
      m.put(GAIN_KEYS[j], rngz(r, k0 + j, q(-60, 1), q(60, 1), 0, 400)))
  pure def genAll(r: int, k0: int, knd: str): Par = {
    pure val b = genBench(r, k0)
    if (knd == "whipple") b
    else range(0, 8).foldl(b, (m, j) => m.put(GAIN_KEYS[j], genGains(r, k0 + 30).get(GAIN_KEYS[j])))
  }
  pure def keysOf(knd: str): List[str] =
    if (knd == "whipple") BENCH_KEYS.concat(["v", "v", "v", "g", "g", "c", "lam"])
    else BENCH_KEYS.concat(["v", "v", "v", "g", "g"]).concat(GAIN_KEYS).concat(GAIN_KEYS)

  pure val WHOLE: Set[str] = Set("v", "g", "mB").union(range(0, 8).foldl(Set(), (m, j) => m.union(Set(GAIN_KEYS[j]))))

  pure def hasGains(p: Par): bool = p.keys().contains("kTphi_phi")
  pure def evalAt(p: Par): Elem = {
    pure val k = canonical(p)
    pure val s = stateSpace(k, p.get("v"), p.get("g"))
    pure val t = if (hasGains(p)) closedLoop(s, gains(p)) else s
    { par: p, canon: k, ss: t, chi: charpoly(t.A) }
  }
  pure def over(p: Par, o: Par): Par = o.keys().fold(p, (m, k) => m.put(k, o.get(k)))

  pure val BOGUS: List[List[str]] = [[], [], ["mX"], ["lamb", "speed"], ["V"]]

  // nS scalar overrides, nA array overrides of length n
  pure def makeCall(r: int, knd: str, nS: int, nA: int, n: int, op: str): Call = {
    pure val ks = keysOf(knd)
    pure val alt = range(0, 5).foldl(List(), (l, j) => l.append(genAll(r, 40 * (j + 1), knd)))
    pure val ak = range(0, nA).foldl(Set(), (s, j) => s.union(Set(elem(ks, r, 20 + j))))
    pure val sk = range(0, nS).foldl(Set(), (s, j) => s.union(Set(elem(ks, r, 10 + j)))).exclude(ak)
    {
      op: op,
      scal: sk.mapBy(k => alt[4].get(k)),
      // unrelated values, pairs of equal values, values that hardly differ or
      // whole numbers
      arrs: ak.mapBy(k => range(0, n).foldl(List(), (l, j) => l.append({
        pure val a = alt[0].get(k) pure val b = alt[1].get(k)
        if (pick(r, 7, 5) == 0) a + j * (b - a) / 10^(3 + pick(r, 8, 5))
        else if (pick(r, 7, 5) == 1) alt[j / 2].get(k)
        else if (pick(r, 7, 5) == 2 and WHOLE.contains(k)) wholeOf(alt[j].get(k))
        else alt[j].get(k) }))),
      seq: elem(["ndarray", "ndarray", "list", "tuple"], r, 5),
      bogus: elem(BOGUS, r, 6)
    }
  }
  pure def results(b: Par, c: Call): List[Elem] = {
    pure val p = over(b, c.scal)
    pure val ak = c.arrs.keys()
    if (ak == Set()) [evalAt(p)]
    else {
      pure val n = ak.fold(0, (m, k) => c.arrs.get(k).length())
      range(0, n).foldl(List(), (l, j) =>
        l.append(evalAt(over(p, ak.mapBy(k => c.arrs.get(k)[j])))))
    }
  }
  pure val NEW: Call = { op: "new", scal: Map(), arrs: Map(), seq: "list", bogus: [] }

  action mk(knd: str): bool = {
    nondet r = oneOf(0.to(RMAX))
    all {
      kind' = knd,
      base' = genAll(r, 0, knd),
      call' = NEW,
      stacked' = false,
      want' = [evalAt(genAll(r, 0, knd))]
    }
  }
  action keep = all { kind' = kind, base' = base }
  action doCall(nS: int, nA: int, n: int, r: int): bool = {
    val c = makeCall(r, kind, nS, nA, n, "call")
    all { keep, call' = c, stacked' = (c.arrs.keys() != Set()), want' = results(base, c) }
  }
  // two array overrides of different lengths must be rejected
  action badLen = {
    nondet r = oneOf(0.to(RMAX))
    val c0 = makeCall(r, kind, pick(r, 1, 2), 2 + pick(r, 2, 2), 2 + pick(r, 3, 3), "badlen")
    val ak = c0.arrs.keys()
    all {
      ak.size() >= 2,
      keep,
      {
        nondet victim = oneOf(ak)
        val l = c0.arrs.get(victim)
        val l2 = if (pick(r, 4, 2) == 0) l.append(l[0]) else l.slice(0, l.length() - 1)
        call' = { ...c0, arrs: c0.arrs.put(victim, l2) }
      },
      stacked' = true,
      want' = []
    }
  }
  action scalarCall = { nondet r = oneOf(0.to(RMAX)) doCall(pick(r, 1, 5), 0, 1, r) }
  action arrayCall = { nondet r = oneOf(0.to(RMAX)) doCall(pick(r, 1, 3), 1 + pick(r, 2, 3), 1 + pick(r, 3, 4), r) }

  // one bicycle at several forward speeds
  action speedCall = {
    nondet r = oneOf(0.to(RMAX))
    val n = 1 + pick(r, 1, 6)
    val vs = range(0, n).foldl(List(), (l, j) => l.append({
      val x = rngz(r, 10 + j, q(-3, 1), q(12, 1), 0, 100)
      if (pick(r, 2, 4) == 0) wholeOf(x)
      // all but standing still
      else if (pick(r, 2, 4) == 1) x / 10^(1 + pick(r, 20 + j, 10))
      else x }))
    val c = { op: "call", scal: Map(), arrs: Map("v" -> vs), seq: "ndarray", bogus: [] }
    all { keep, call' = c, stacked' = true, want' = results(base, c) }
  }

  // the sign of the discriminant of the characteristic polynomial tells
  // whether there is exactly one complex pair
  pure def discriminant(k: Canon, g: Fx, v: Fx): Fx = {
    pure val p = charpoly(stateSpace(k, v, g).A)
    pure val d0 = sq(p[2]) - 3 * mul(p[1], p[3]) + 12 * p[4]
    pure val d1 = 2 * mul3(p[2], p[2], p[2]) - 9 * mul3(p[1], p[2], p[3]) + 27 * mul3(p[1], p[1], p[4])
      + 27 * sq(p[3]) - 72 * mul(p[2], p[4])
    4 * mul3(d0, d0, d0) - sq(d1)
  }
  // speeds around one at which two real eigenvalues become a complex pair
  action mergeCall = {
    nondet r = oneOf(0.to(RMAX))
    val k = canonical(base)
    val g = base.get("g")
    val dv = q(1, 2)
    val signs = range(0, 21).foldl(List(), (l, j) => l.append(discriminant(k, g, j * dv) > 0))
    val at = range(0, 20).select(j => signs[j] != signs[j + 1])
    val n = 2 + pick(r, 1, 5)
    all {
      at.length() > 0,
      {
        val j = elem(at, r, 2)
        val root = range(0, 60).foldl({ lo: j * dv, hi: (j + 1) * dv }, (b, i) => {
          val mid = (b.lo + b.hi) / 2
          if ((discriminant(k, g, mid) > 0) == signs[j]) { lo: mid, hi: b.hi } else { lo: b.lo, hi: mid } })
        val vs = range(0, n).foldl(List(), (l, i) => l.append({
          val d = rng(r, 10 + i, q(1, 1), q(9, 1)) / 10^(2 + pick(r, 20 + i, 8))
          if (pick(r, 30 + i, 3) == 0) root.lo - d else root.hi + d }))
        val c = { op: "call", scal: Map(), arrs: Map("v" -> vs), seq: "ndarray", bogus: [] }
        all { keep, call' = c, stacked' = true, want' = results(base, c) }
      }
    }
  }
  action speedStep = any { speedCall, mergeCall }

  // the user changes parameters of the object
  action edit = {
    nondet r = oneOf(0.to(RMAX))
    val ks = keysOf(kind)
    val other = genAll(r, 40, kind)
    val changed = range(0, 1 + pick(r, 1, 4)).foldl(Set(), (s, j) => s.union(Set(elem(ks, r, 10 + j))))
    val b = changed.fold(base, (m, k) => m.put(k, other.get(k)))
    all {
      kind' = kind,
      base' = b,
      call' = { ...NEW, op: "edit", seq: elem(["inplace", "replace"], r, 5) },
      stacked' = false,
      want' = [evalAt(b)]
    }
  }

  action init = any { mk("whipple"), mk("feedback") }
  action initW = mk("whipple")
  action initF = mk("feedback")
  action step = any { scalarCall, arrayCall, badLen, edit }
  action stepArr = any { arrayCall, arrayCall, arrayCall, scalarCall, edit }

  // ---- invariants of the specification -------------------------------------
  val selfTest = paperOK
  val symmetric = want.indices().forall(j => and {
    want[j].canon.M[0][1] == want[j].canon.M[1][0],
    want[j].canon.K0[0][1] == want[j].canon.K0[1][0],
    want[j].canon.M[0][0] > 0 })
  // M B = [0; I]
  val inverse = want.indices().forall(j => {
    val M = want[j].canon.M
    val B = want[j].ss.B
    val d = mul(M[0][0], M[1][1]) - mul(M[0][1], M[1][0])
    or {
      ab(d) * 10^4 < S,     // too ill conditioned to say anything
      range(0, 2).foldl(true, (ok, a) => ok and range(0, 2).foldl(true, (o2, b) => o2 and
        near(mul(M[a][0], B[2][b]) + mul(M[a][1], B[3][b]), if (a == b) S else 0, 25)))
    }
  })
  // call-locality: elements differ from the base only in overridden keys
  val local = want.indices().forall(j => base.keys().forall(k =>
    want[j].par.get(k) == base.get(k) or call.scal.keys().contains(k) or call.arrs.keys().contains(k)))
  // the trace of A is minus the first coefficient
  val traceOK = want.indices().forall(j =>
    near(want[j].chi[1], -(want[j].ss.A[2][2] + want[j].ss.A[3][3]), 25))
  // zero gains give the open loop
  val zeroGain = want.indices().forall(j =>
    (hasGains(want[j].par) and GAIN_KEYS.indices().forall(a => want[j].par.get(GAIN_KEYS[a]) == 0))
      implies want[j].ss == stateSpace(want[j].canon, want[j].par.get("v"), want[j].par.get("g")))
}
