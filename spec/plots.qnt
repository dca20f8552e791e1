// Drawing figures from one model object (or measured bicycle).  Every state
// records a plotting call and the exact data its figure has to show: the state
// matrix, characteristic polynomial and spectral abscissa of every sample, the
// frequency response, the gains.  No call changes the object.
module plots {
  import fx.* from "./fx"
  import rnd.* from "./rnd"
  import whipple.* from "./whipple"
  import leanpar.* from "./leanpar"

  type Call = {
    op: str,                // what is drawn
    scal: Par,              // scalar overrides
    arrs: str -> List[Fx],  // array overrides, all of the same length
    first: str,             // name of the parameter of the abscissa
    seq: str,               // container of the arrays
    opt: str -> int         // options of the plotting function
  }
  type Resp = { w: Fx, idx: int, re: Fx, im: Fx }
  type Sample = { par: Par, A: Mat, chi: List[Fx], top: Fx, resp: List[Resp] }

  var kind: str             // "whipple", "feedback", "lean" or "bicycle"
  var base: Par
  var other: Par            // a second bicycle to compare with
  var call: Call
  var want: List[Sample]
  var want2: List[Sample]   // samples of the second bicycle
  var bands: List[(int, int)]   // maximal runs of at least two stable samples

  // ---- stability --------------------------------------------------------------
  // coefficients (highest first) of p(s + h)
  pure def shifted(a: List[Fx], h: Fx): List[Fx] = {
    pure val n = a.length()
    range(0, n - 1).foldl(a, (c, j) =>
      range(1, n - j).foldl(c, (d, k) => d.replaceAt(k, d[k] + mul(h, d[k - 1]))))
  }
  // Routh's array: all roots of a monic polynomial in the open left half plane
  pure def hurwitz(a: List[Fx]): bool = {
    pure val n = a.length() - 1
    pure def part(o: int): List[Fx] = range(0, n / 2 + 2).foldl(List(), (l, j) =>
      l.append(if (2 * j + o <= n) a[2 * j + o] else 0))
    range(0, n).foldl({ r: part(0), s: part(1), ok: true }, (acc, j) =>
      if (not(acc.ok) or acc.s[0] <= 0) { ...acc, ok: false }
      else {
        r: acc.s, ok: true,
        s: range(0, acc.s.length()).foldl(List(), (l, k) => l.append(
          if (k + 1 < acc.s.length()) acc.r[k + 1] - mul(div(acc.r[0], acc.s[0]), acc.s[k + 1]) else 0))
      }).ok
  }
  // largest real part of the roots (bisection, about 10 decimals)
  pure def abscissa(a: List[Fx]): Fx = {
    pure val hi = range(0, 20).foldl((S, false), (acc, j) =>
      if (acc._2) acc else (S * 2^j, hurwitz(shifted(a, S * 2^j))))._1
    // it is at least the mean of the real parts
    range(0, 60).foldl((-a[1] / (a.length() - 1) - S, hi), (b, j) => {
      pure val m = (b._1 + b._2) / 2
      if (hurwitz(shifted(a, m))) (b._1, m) else (m, b._2)
    })._2
  }
  // p has degree 6 and six more roots are zero for the leaning rider
  pure def nonzero(knd: str, chi: List[Fx]): List[Fx] = if (knd == "lean") chi.slice(0, 7) else chi
  pure def topOf(knd: str, chi: List[Fx]): Fx = {
    pure val t = abscissa(nonzero(knd, chi))
    if (knd == "lean") mx(0, t) else t
  }
  pure def runs(st: List[bool]): List[(int, int)] =
    range(0, st.length()).foldl({ out: List(), from: -1 }, (acc, j) => {
      pure val from = if (not(st[j])) -1 else if (acc.from < 0) j else acc.from
      pure val ends = st[j] and (j + 1 == st.length() or not(st[j + 1]))
      { from: from, out: if (ends and j > from) acc.out.append((from, j)) else acc.out }
    }).out

  // ---- frequency response -------------------------------------------------------
  type Cx = { re: Fx, im: Fx }
  pure def cmul(a: Cx, b: Cx): Cx =
    { re: mul(a.re, b.re) - mul(a.im, b.im), im: mul(a.re, b.im) + mul(a.im, b.re) }
  pure def cdiv(a: Cx, b: Cx): Cx = {
    pure val d = sq(b.re) + sq(b.im)
    { re: div(mul(a.re, b.re) + mul(a.im, b.im), d), im: div(mul(a.im, b.re) - mul(a.re, b.im), d) }
  }
  // numerator coefficients of e_y' adj(sI - A) b (Faddeev-LeVerrier)
  pure def numer(A: Mat, b: List[Fx], y: int): List[Fx] = {
    pure val n = A.length()
    pure val chi = charpoly(A)
    pure def mvb(z: List[Fx]): List[Fx] = A.foldl(List(), (l, row) =>
      l.append(range(0, n).foldl(0, (s, k) => s + mul(row[k], z[k]))))
    // M_0 b = b, M_k b = A M_(k-1) b + c_k b
    range(1, n).foldl({ z: b, out: [b[y]] }, (acc, k) => {
      pure val Az = mvb(acc.z)
      pure val z = range(0, n).foldl(List(), (l, j) => l.append(Az[j] + mul(chi[k], b[j])))
      { z: z, out: acc.out.append(z[y]) }
    }).out
  }
  pure def horner(a: List[Fx], s: Cx): Cx =
    a.foldl({ re: 0, im: 0 }, (acc, c) => { pure val t = cmul(acc, s) { re: t.re + c, im: t.im } })
  pure val LN10: Fx = 23025850929940456840179914546843642076011
  pure def response(ss: SS, u: int, y: int, idx: int): Resp = {
    // the idx-th of 1000 frequencies spaced evenly on a logarithmic scale
    pure val w = exp(LN10 * 2 * idx / 999)
    pure val s = { re: 0, im: w }
    pure val G = cdiv(horner(numer(ss.A, col(ss.B, u), y), s), horner(charpoly(ss.A), s))
    { w: w, idx: idx, re: G.re, im: G.im }
  }

  // ---- the system ---------------------------------------------------------------
  pure def system(knd: str, p: Par): SS =
    if (knd == "lean") { pure val e = evalLean(p) { A: e.A, B: e.B } }
    else {
      pure val s = stateSpace(canonical(p), p.get("v"), p.get("g"))
      if (knd == "feedback") closedLoop(s, gains(p)) else s
    }
  pure def sample(knd: str, p: Par, freqs: List[int], u: int, y: int): Sample = {
    pure val s = system(knd, p)
    pure val chi = if (knd == "lean") evalLean(p).chi else charpoly(s.A)
    { par: p, A: s.A, chi: chi, top: topOf(knd, chi),
      resp: freqs.foldl(List(), (l, f) => l.append(response(s, u, y, f))) }
  }
  pure def genGain(r: int, k: int): Fx = rngz(r, k, q(-60, 1), q(60, 1), 0, 400)
  // half of the bicycles are close to a self-stable design; some run under a
  // thousandth of the gravity, where the time scale stretches and every
  // eigenvalue is small
  pure val WEAK: Fx = q(1, 100)
  pure def genAll(r: int, k0: int, knd: str): Par = {
    pure val known = pick(r, 201, 2) == 0
    pure val weak = known and pick(r, 200, 3) == 0
    if (knd == "lean") (if (known) nearLean(r, k0) else genLean(r, k0))
    else {
      pure val b0 = if (known) nearDesign(elem([CLASSIC, BROWSER], r, 202), r, k0) else genBench(r, k0)
      pure val b = if (weak) b0.put("g", WEAK) else b0
      pure val f = (if (weak) 1000 else 1) * (if (known) 50 else 1)
      if (knd == "feedback") range(0, 8).foldl(b, (m, j) => m.put(GAIN_KEYS[j], genGain(r, k0 + 30 + j) / f))
      else b
    }
  }
  pure def keysOf(knd: str): List[str] =
    if (knd == "lean") LEAN_KEYS else if (knd == "feedback") BENCH_KEYS.concat(GAIN_KEYS) else BENCH_KEYS
  pure def over(p: Par, o: Par): Par = o.keys().fold(p, (m, k) => m.put(k, o.get(k)))

  // n increasing values from a to b; sometimes given in descending order
  pure def ramp(r: int, k: int, a: Fx, b: Fx, n: int): List[Fx] = {
    pure val lo = mn(a, b) pure val hi = mx(a, b) + (if (a == b) S else 0)
    range(0, n).foldl(List(), (l, j) => l.append(
      if (dig(r, k) < 150) hi - (hi - lo) * j / mx(n - 1, 1)
      else lo + (hi - lo) * j / mx(n - 1, 1)))
  }
  pure val NEW: Call = { op: "new", scal: Map(), arrs: Map(), first: "", seq: "list", opt: Map() }

  action keep = all { kind' = kind, base' = base, other' = other }
  // samples over one varied parameter, with possibly a second one
  action drawModel(op: str, n: int, r: int): bool = {
    val ks = keysOf(kind)
    val alt = genAll(r, 60, kind)
    val x = if (pick(r, 1, 10) < 7) "v" else if (op == "gains") elem(BENCH_KEYS, r, 2) else elem(ks, r, 2)
    val vals =
      if (x == "v") {
        val f = if (base.get("g") == WEAK) 32 else 1
        ramp(r, 3, rng(r, 4, 0, q(5, 1)) / f, rng(r, 5, q(5, 1), q(12, 1)) / f, n)
      }
      else ramp(r, 3, base.get(x), alt.get(x), n)
    val y = elem(if (kind == "feedback") GAIN_KEYS else ks, r, 6)
    val second = if (y == x or pick(r, 7, 4) > 0) Map()
                 else Map(y -> ramp(r, 8, base.get(y), alt.get(y), n))
    val arrs = if (n == 0) Map() else second.put(x, vals)
    val sk = range(0, pick(r, 9, 4)).foldl(Set(), (s, j) => s.union(Set(elem(ks, r, 10 + j)))).exclude(arrs.keys())
    val scal = sk.mapBy(k => alt.get(k))
    val p = over(base, scal)
    val ws = if (n == 0) [sample(kind, p, [], 0, 0)]
      else range(0, n).foldl(List(), (l, j) => l.append(
        sample(kind, over(p, arrs.keys().mapBy(k => arrs.get(k)[j])), [], 0, 0)))
    all {
      keep, want' = ws, want2' = [],
      call' = { op: op, scal: scal, arrs: arrs, first: x,
        seq: elem(["ndarray", "ndarray", "list", "tuple"], r, 15),
        opt: Map("hide" -> pick(r, 16, 3), "sort" -> pick(r, 17, 4), "shade" -> pick(r, 18, 3),
                 "axes" -> pick(r, 19, 2), "colors" -> pick(r, 20, 3)) },
      bands' = runs(ws.foldl(List(), (l, e) => l.append(e.top <= 0)))
    }
  }
  // a measured bicycle: figures over forward speed, speeds in any order
  action drawBike(op: str, r: int): bool = {
    val n = 2 + pick(r, 1, 9)
    val mixed = pick(r, 2, 3) == 0
    val f = if (base.get("g") == WEAK) 32 else 1
    val vs = if (mixed) range(0, n).foldl(List(), (l, j) => l.append((rng(r, 10 + j, q(1, 20), q(10, 1)) + j) / f))
             else ramp(r, 3, rng(r, 4, 0, q(5, 1)) / f, rng(r, 5, q(5, 1), q(12, 1)) / f, n)
    val bode = op == "bode" or op == "bodespeeds" or op == "bodebikes"
    val speeds = if (bode) vs.slice(0, if (op == "bodespeeds") mn(n, 3) else 1) else vs
    // rising order: repeated minimum extraction
    val up = range(0, speeds.length()).foldl((speeds, List()), (acc, j) => {
      val m = acc._1.foldl(acc._1[0], (a, b) => mn(a, b))
      val at = range(0, acc._1.length()).foldl(-1, (f, k) => if (f < 0 and acc._1[k] == m) k else f)
      (acc._1.slice(0, at).concat(acc._1.slice(at + 1, acc._1.length())), acc._2.append(m))
    })._2
    val order = if (bode) speeds else up
    val u = pick(r, 40, 2)
    val y = pick(r, 41, 4)
    val freqs = if (bode) [0, 1 + pick(r, 42, 300), 300 + pick(r, 43, 400), 700 + pick(r, 44, 299), 999] else []
    def along(p) = order.foldl(List(), (l, v) => l.append(sample("bicycle", p.put("v", v), freqs, u, y)))
    val ws = along(base)
    all {
      keep, want' = ws,
      want2' = if (op == "bikes" or op == "bodebikes") along(other) else [],
      call' = { op: op, scal: Map(), arrs: Map("v" -> speeds), first: "v",
        seq: elem(["ndarray", "ndarray", "list"], r, 45),
        opt: Map("u" -> u, "y" -> y, "largest" -> pick(r, 46, 3), "generic" -> pick(r, 47, 2),
                 "axes" -> pick(r, 48, 2), "shade" -> pick(r, 49, 4), "legend" -> pick(r, 50, 2)) },
      bands' = runs(ws.foldl(List(), (l, e) => l.append(e.top < 0)))
    }
  }
  action mk(knd: str): bool = {
    nondet r = oneOf(0.to(RMAX))
    all {
      kind' = knd, base' = genAll(r, 0, knd), other' = genAll(r, 100, knd), call' = NEW,
      want' = [], want2' = [], bands' = []
    }
  }
  action parts = { nondet r = oneOf(0.to(RMAX)) drawModel("parts", 2 + pick(r, 0, 11), r) }
  action vectors = { nondet r = oneOf(0.to(RMAX)) drawModel("vectors",
    if (kind == "lean") pick(r, 0, 2) else elem([0, 1, 2, 3, 4, 5, 7, 10, 11, 13], r, 0), r) }
  action gainPlot = all { kind == "feedback", { nondet r = oneOf(0.to(RMAX)) drawModel("gains", 1 + pick(r, 0, 8), r) } }
  action bike = { nondet r = oneOf(0.to(RMAX)) drawBike(elem(
    ["speed", "speed", "plotly", "plotly", "bikes", "bode", "bodespeeds", "bodebikes"], r, 0), r) }

  action init = any { mk("whipple"), mk("feedback") }
  action initLean = mk("lean")
  action initBike = mk("bicycle")
  action step = any { parts, vectors, gainPlot }
  action stepLean = any { parts, parts, vectors }
  action stepBike = bike

  // ---- invariants -----------------------------------------------------------------
  // the abscissa is the boundary of the Hurwitz property and at least the mean
  // of the real parts
  val boundary = want.indices().forall(j => {
    val e = want[j]
    val a = nonzero(kind, e.chi)
    val d = q(1, 10^6)
    and {
      hurwitz(shifted(a, e.top + d)),
      kind == "lean" or not(hurwitz(shifted(a, e.top - d))),
      e.top + d >= -a[1] / (a.length() - 1),
      // complementary criterion for negative determinants
      a[a.length() - 1] >= -d or e.top > 0
    }
  })
  // the quartic's Hurwitz determinants agree with Routh's array
  val quartic = want.indices().forall(j => {
    val a = want[j].chi
    kind == "lean" or hurwitz(a) ==
      (a[1] > 0 and a[3] > 0 and a[4] > 0
        and mul3(a[1], a[2], a[3]) - sq(a[3]) - mul3(a[1], a[1], a[4]) > 0)
      or ab(want[j].top) < q(1, 10^6)
  })
  val bandsOK = bands.indices().forall(j => and {
    bands[j]._1 < bands[j]._2,
    range(bands[j]._1, bands[j]._2 + 1).foldl(true, (ok, k) => ok and want[k].top <= 0) })
  // (sI - A) X = B holds for the response: row of the roll angle gives the rate
  val rates = want.indices().forall(j => want[j].resp.indices().forall(k =>
    want[j].resp[k].w > 0))
}
