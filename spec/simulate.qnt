// Simulations with one model object: the state trajectory is the flow of the
// specified linear system under the input law u(t, x), recorded inputs are
// that law along the trajectory, and every call leaves the object unchanged.
//
// The input laws are u = F x + a + b t + d sin(omega t + eta), so the flow is
// that of an augmented autonomous linear system and can be computed with a
// Taylor series in exact arithmetic.
module simulate {
  import fx.* from "./fx"
  import rnd.* from "./rnd"
  import whipple.* from "./whipple"
  import leanpar.* from "./leanpar"

  type Law = { F: Mat, a: List[Fx], b: List[Fx], d: List[Fx], omega: Fx, eta: Fx }
  type Call = {
    op: str,            // "new", "edit", "free", "forced", "modes", "array"
    scal: Par,          // scalar overrides
    arrs: str -> List[Fx],
    t: List[Fx],        // requested times
    x0: List[Fx],       // initial conditions as given by the caller
    law: Law,
    seq: str,           // container of the times
    xseq: str,          // container of the initial conditions
    useq: str           // what the input function returns
  }
  type Out = {
    par: Par,
    x: List[List[Fx]],  // trajectory
    Phi: List[Mat],     // transition matrices from t[0] (mode simulations)
    A: Mat,
    speed: Fx           // upper estimate of the fastest rate of the system
  }

  var kind: str         // "whipple", "feedback" or "lean"
  var base: Par
  var call: Call
  var want: Out

  // ---- the system -----------------------------------------------------------
  pure def system(knd: str, p: Par): SS =
    if (knd == "lean") {
      pure val e = evalLean(p)
      { A: e.A, B: e.B }
    } else {
      pure val s = stateSpace(canonical(p), p.get("v"), p.get("g"))
      if (knd == "feedback") closedLoop(s, gains(p)) else s
    }
  pure def genGains(r: int, k0: int): Par =
    range(0, 8).foldl(Map(), (m, j) =>
      m.put(GAIN_KEYS[j], rngz(r, k0 + j, q(-30, 1), q(30, 1), 0, 400)))
  pure def genAll(r: int, k0: int, knd: str): Par =
    if (knd == "lean") genLean(r, k0)
    else {
      pure val b = genBench(r, k0)
      if (knd == "whipple") b
      else range(0, 8).foldl(b, (m, j) => m.put(GAIN_KEYS[j], genGains(r, k0 + 30).get(GAIN_KEYS[j])))
    }
  pure def keysOf(knd: str): List[str] =
    if (knd == "lean") LEAN_KEYS.concat(["v", "v", "v", "v", "rr", "rr", "g", "k9"])
    else if (knd == "whipple") BENCH_KEYS.concat(["v", "v", "v", "g", "g", "c", "lam"])
    else BENCH_KEYS.concat(["v", "v", "v", "g", "g"]).concat(GAIN_KEYS).concat(GAIN_KEYS)
  pure def over(p: Par, o: Par): Par = o.keys().fold(p, (m, k) => m.put(k, o.get(k)))

  // ---- linear algebra ---------------------------------------------------------
  pure def mv(X: Mat, z: List[Fx]): List[Fx] =
    X.foldl(List(), (l, row) => l.append(
      range(0, z.length()).foldl(0, (s, k) => if (row[k] == 0) s else s + mul(row[k], z[k]))))
  pure def norm(X: Mat): Fx = X.foldl(0, (m, row) => mx(m, row.foldl(0, (s, x) => s + ab(x))))
  pure def add(a: List[Fx], b: List[Fx]): List[Fx] =
    range(0, a.length()).foldl(List(), (l, k) => l.append(a[k] + b[k]))
  // one Taylor step of length h
  pure def taylor(X: Mat, z: List[Fx], h: Fx, n: int): List[Fx] =
    range(1, n).foldl((z, z), (acc, k) => {
      pure val t = mv(X, acc._2).foldl(List(), (l, y) => l.append(mul(y, h) / k))
      (add(acc._1, t), t)
    })._1
  pure def flow(X: Mat, z: List[Fx], h: Fx): List[Fx] = {
    pure val nm = mul(norm(X), h) / S + 1
    pure val steps = nm / 8 + 1
    pure val terms = 32 + 6 * (nm / steps + 1)
    range(0, steps).foldl(z, (y, k) => taylor(X, y, h / steps, terms))
  }
  // a power of two (times S) at least max_k |a_k|^(1/k): half a bound on the
  // moduli of the eigenvalues (Fujiwara)
  pure def rootScale(chi: List[Fx]): Fx =
    range(0, 14).foldl((S, false), (acc, j) => {
      pure val ok = range(1, chi.length()).foldl(true, (o, k) => o and ab(chi[k]) <= S * 2^(j * k))
      if (acc._2) acc else (S * 2^j, ok)
    })._1

  // ---- calls ------------------------------------------------------------------
  pure val NOLAW: Law = { F: [], a: [], b: [], d: [], omega: 0, eta: 0 }
  pure def genLaw(r: int, k0: int, n: int, m: int): Law = {
    pure def z(k, lo, hi, pr) = rngz(r, k0 + k, lo, hi, 0, pr)
    pure def vec(k1, lo, hi, pr) = range(0, m).foldl(List(), (l, j) => l.append(z(k1 + j, lo, hi, pr)))
    pure val fb = pick(r, k0, 2) == 0
    {
      F: range(0, m).foldl(List(), (rows, a) => rows.append(
        range(0, n).foldl(List(), (row, b) => row.append(
          if (fb) z(1 + a * n + b, q(-20, 1), q(20, 1), 700) else 0)))),
      a: vec(40, q(-5, 1), q(5, 1), 400),
      b: vec(44, q(-5, 1), q(5, 1), 400),
      d: vec(48, q(-5, 1), q(5, 1), 400),
      omega: z(52, q(1, 2), q(10, 1), 0),
      eta: z(53, q(-3, 1), q(3, 1), 300)
    }
  }
  pure def matadd(X: Mat, Y: Mat): Mat =
    range(0, X.length()).foldl(List(), (rows, a) => rows.append(add(X[a], Y[a])))

  // n sample times from t0 over a span, evenly or unevenly spaced
  pure def genTimes(r: int, k0: int, t0: Fx, span: Fx, n: int): List[Fx] =
    if (pick(r, k0, 2) == 0)
      range(0, n).foldl(List(), (l, j) => l.append(t0 + span * j / (n - 1)))
    else
      range(1, n).foldl([t0], (l, j) =>
        l.append(l[j - 1] + mul(span / (n - 1), rng(r, k0 + j, q(1, 5), q(1, 1)))))

  // the initial condition really used: the wheel rate of the leaning rider
  // model is that of the forward speed
  pure def start(knd: str, p: Par, x0: List[Fx]): List[Fx] =
    if (knd == "lean") x0.replaceAt(9, -div(p.get("v"), p.get("rr"))) else x0

  pure def sampled(X: Mat, z0: List[Fx], t: List[Fx], n: int): List[List[Fx]] =
    range(1, t.length()).foldl(([z0.slice(0, n)], z0), (acc, j) => {
      pure val z = flow(X, acc._2, t[j] - t[j - 1])
      (acc._1.append(z.slice(0, n)), z)
    })._1
  pure def unit(n: int, j: int): List[Fx] =
    range(0, n).foldl(List(), (l, k) => l.append(if (k == j) S else 0))
  pure def transpose(X: Mat): Mat =
    range(0, X[0].length()).foldl(List(), (l, j) => l.append(col(X, j)))

  pure def dims(knd: str): (int, int) = if (knd == "lean") (12, 3) else (4, 2)

  pure def genX0(r: int, k0: int, knd: str): List[Fx] =
    range(0, dims(knd)._1).foldl(List(), (l, j) =>
      l.append({
        val x = rngz(r, k0 + j, q(-1, 2), q(1, 2), 0, 250)
        if (dig(r, k0) % 6 == 0) wholeOf(2 * x) else x }))

  pure val SPANS: List[int] = [2, 4, 8, 16]
  action doSim(op: str, r: int): bool = {
    val n = dims(kind)._1
    val m = dims(kind)._2
    val alt = genAll(r, 60, kind)
    val ks = keysOf(kind)
    val sk = range(0, pick(r, 1, 4)).foldl(Set(), (s, j) => s.union(Set(elem(ks, r, 10 + j))))
    val scal = sk.mapBy(k => alt.get(k))
    val p = over(base, scal)
    val sys = system(kind, p)
    val zl: Mat = range(0, m).foldl(List(), (rows, a) => rows.append(range(0, n).foldl(List(), (o, k) => o.append(0))))
    val zm: List[Fx] = range(0, m).foldl(List(), (o, k) => o.append(0))
    val law = if (op == "forced") genLaw(r, 120, n, m)
              else { F: zl, a: zm, b: zm, d: zm, omega: 0, eta: 0 }
    val cl = matadd(sys.A, matmul(sys.B, law.F))
    val speed = rootScale(charpoly(cl))
    val t0 = rngz(r, 2, q(-2, 1), q(3, 1), 0, 500)
    val nt = (if (kind == "lean") 3 else 4) + pick(r, 3, 5)
    val span = mn(i(3), elem(SPANS, r, 4) * div(S, speed))
    val t = genTimes(r, 30, t0, span, nt)
    val x0 = genX0(r, 42, kind)
    val c = {
      op: op, scal: scal, arrs: Map(), t: t, x0: if (op == "modes") [] else x0, law: law,
      seq: elem(["ndarray", "ndarray", "list", "tuple"], r, 5),
      xseq: elem(["ndarray", "list", "tuple"], r, 6),
      useq: elem(["ndarray", "list", "tuple", "ndarray"], r, 7) }
    val X = if (op == "forced")
        range(0, n).foldl(List(), (rows, j) => rows.append(cl[j].concat(
          [mv(sys.B, law.a)[j], mv(sys.B, law.b)[j], mv(sys.B, law.d)[j], 0]))).concat(
          range(0, 4).foldl(List(), (o, k) => o.append(range(0, n + 4).foldl(List(), (l, j) => l.append(
            if (k == 1 and j == n) S
            else if (k == 2 and j == n + 3) law.omega
            else if (k == 3 and j == n + 2) -law.omega
            else 0)))))
      else sys.A
    val z0 = if (op == "forced") start(kind, p, x0).concat(
        [S, t0, sin(mul(law.omega, t0) + law.eta), cos(mul(law.omega, t0) + law.eta)])
      else start(kind, p, x0)
    all {
      kind' = kind, base' = base, call' = c,
      want' = {
        par: p, A: sys.A, speed: speed,
        x: if (op == "modes") [] else sampled(X, z0, t, n),
        Phi: if (op != "modes") []
          else {
            // rows: images of the unit vectors, one list per time
            val im = range(0, n).foldl(List(), (l, j) => l.append(sampled(sys.A, unit(n, j), t, n)))
            range(0, t.length()).foldl(List(), (l, k) => l.append(
              transpose(range(0, n).foldl(List(), (rows, j) => rows.append(im[j][k])))))
          }
      }
    }
  }
  pure val NOOUT: Out = { par: Map(), x: [], Phi: [], A: [], speed: 0 }
  // arrays of parameter values can not be simulated, whatever their length
  action doArray(r: int): bool = {
    val alt = genAll(r, 60, kind)
    val k = elem(keysOf(kind), r, 1)
    val n = 1 + pick(r, 2, 3)
    all {
      kind' = kind, base' = base,
      call' = {
        op: "array", scal: Map(), arrs: Map(k -> range(0, n).foldl(List(), (l, j) => l.append(alt.get(k)))),
        t: [0, q(1, 20), q(1, 10)], x0: genX0(r, 42, kind), law: NOLAW,
        seq: "ndarray", xseq: elem(["ndarray", "list"], r, 6), useq: "ndarray" },
      want' = NOOUT
    }
  }
  action mk(knd: str): bool = {
    nondet r = oneOf(0.to(RMAX))
    all {
      kind' = knd, base' = genAll(r, 0, knd), want' = NOOUT,
      call' = { op: "new", scal: Map(), arrs: Map(), t: [], x0: [], law: NOLAW,
                seq: "list", xseq: "list", useq: "list" }
    }
  }
  // the user edits a few parameters of the model between two simulations
  action doEdit(r: int): bool = {
    val alt = genAll(r, 60, kind)
    val ks = keysOf(kind)
    val sk = range(0, 1 + pick(r, 1, 4)).foldl(Set(), (s, j) => s.union(Set(elem(ks, r, 10 + j))))
    all {
      kind' = kind, base' = over(base, sk.mapBy(k => alt.get(k))), want' = NOOUT,
      call' = { op: "edit", scal: Map(), arrs: Map(), t: [], x0: [], law: NOLAW,
                seq: elem(["inplace", "replace"], r, 8), xseq: "list", useq: "list" }
    }
  }
  action init = any { mk("whipple"), mk("feedback") }
  action initLean = mk("lean")
  action free = { nondet r = oneOf(0.to(RMAX)) doSim("free", r) }
  action forced = { nondet r = oneOf(0.to(RMAX)) doSim("forced", r) }
  action modes = { nondet r = oneOf(0.to(RMAX)) doSim("modes", r) }
  action array = { nondet r = oneOf(0.to(RMAX)) doArray(r) }
  action edit = { nondet r = oneOf(0.to(RMAX)) doEdit(r) }
  action step = any { free, forced, forced, modes, array, edit }

  // ---- invariants of the specification ------------------------------------------
  // the flow is a group: composing back over the whole span returns the start
  // (checked for free motion), and mode transition matrices start at I
  val reversible = or {
    call.op != "free",
    {
      val back = flow(want.A.foldl(List(), (l, row) => l.append(row.foldl(List(), (o, x) => o.append(-x)))),
                      want.x[want.x.length() - 1], call.t[call.t.length() - 1] - call.t[0])
      back.indices().forall(k => near(back[k], want.x[0][k], 12))
    }
  }
  val phiStart = or {
    call.op != "modes",
    want.Phi[0].indices().forall(a => want.Phi[0].indices().forall(b =>
      want.Phi[0][a][b] == (if (a == b) S else 0)))
  }
  val increasing = call.t.indices().forall(k => k == 0 or call.t[k - 1] < call.t[k])
}
