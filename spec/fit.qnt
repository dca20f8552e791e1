// The statistics of a period estimate.  A lightly (or
// strongly) damped oscillation
//   f(t) = o + exp(-z w t) (b sin(D w t) + c cos(D w t)),  D = sqrt(1 - z^2)
// is recorded with a small disturbance whose sign alternates (in ones, twos or
// threes), so that the least-squares fit returns the parameters themselves and
// the residuals are the disturbance.  The covariance of the fit is
//   U = SSE / (n - 5) (J^T J)^-1
// with the Jacobian J of f, and the uncertainty of the period follows from it.
// Goodness of fit is that of any two short series.
module fit {
  import fx.* from "./fx"
  import rnd.* from "./rnd"

  type P5 = { o: Fx, b: Fx, c: Fx, z: Fx, w: Fx }
  var par: P5
  var rate: Fx
  var n: int
  var eps: Fx          // size of the disturbance
  var group: int       // samples of equal sign
  var period: Fx
  var std: (Fx, Fx)    // of the period: frequency and damping independent / correlated
  var rows: List[(int, List[Fx])]    // rows of the Jacobian, by number of the sample
  var how: int         // 0 rate, 1 times
  var start: Fx        // first of the times; the function is that of the time since then
  // goodness of fit of two series: r^2, SSE, SST, SSR
  var ym: List[Fx]
  var yp: List[Fx]
  var good: List[Fx]

  pure def D(p: P5): Fx = sqrt(S - sq(p.z))
  // the Jacobian of f at time t, given the decay and the sine and cosine there
  pure def row(p: P5, t: Fx, e: Fx, s: Fx, c: Fx): List[Fx] = {
    pure val osc = mul(p.b, s) + mul(p.c, c)
    pure val tilt = mul(p.b, c) - mul(p.c, s)       // d osc / d angle
    pure val et = mul(e, t)
    [ S, mul(e, s), mul(e, c),
      -mul3(p.w, et, osc) - mul(mul3(et, p.w, div(p.z, D(p))), tilt),
      -mul3(p.z, et, osc) + mul3(et, D(p), tilt) ]
  }
  pure def ang(x: Fx): Fx = x - (x / (2 * PI)) * 2 * PI - PI
  pure def rowAt(p: P5, t: Fx): List[Fx] = {
    pure val a = ang(mul3(D(p), p.w, t))
    row(p, t, exp(-mul3(p.z, p.w, t)), -sin(a), -cos(a))
  }
  type Acc = { t: Fx, e: Fx, s: Fx, c: Fx, H: List[List[Fx]] }
  pure def normal(p: P5, dt: Fx, nn: int): List[List[Fx]] = {
    pure val de = exp(-mul3(p.z, p.w, dt))
    pure val a = mul3(D(p), p.w, dt)
    pure val ds = sin(a) pure val dc = cos(a)
    pure val z5 = [0, 0, 0, 0, 0]
    pure val acc: Acc = { t: 0, e: S, s: 0, c: S, H: [z5, z5, z5, z5, z5] }
    range(0, nn).foldl(acc, (x, k) => {
      val r = row(p, x.t, x.e, x.s, x.c)
      { t: x.t + dt, e: mul(x.e, de),
        s: mul(x.s, dc) + mul(x.c, ds), c: mul(x.c, dc) - mul(x.s, ds),
        H: range(0, 5).foldl(List(), (h, i1) => h.append(
          range(0, 5).foldl(List(), (l, j1) => l.append(x.H[i1][j1] + mul(r[i1], r[j1]))))) }
    }).H
  }
  // eliminate the first unknown
  pure def reduce(h: List[List[Fx]]): List[List[Fx]] =
    range(1, h.length()).foldl(List(), (m, i1) => m.append(
      range(1, h.length()).foldl(List(), (l, j1) => l.append(
        h[i1][j1] - div(mul(h[i1][0], h[0][j1]), h[0][0])))))
  // variances and covariance of z and w per unit variance
  pure def cov2(h: List[List[Fx]]): (Fx, Fx, Fx) = {
    pure val r = reduce(reduce(reduce(h)))
    pure val d = mul(r[0][0], r[1][1]) - mul(r[0][1], r[1][0])
    (div(r[1][1], d), div(-r[0][1], d), div(r[0][0], d))
  }
  // T = 2 pi / (D w)
  pure def stdT(p: P5, h: List[List[Fx]], s2: Fx): (Fx, Fx) = {
    pure val T = div(2 * PI, mul(D(p), p.w))
    pure val u = cov2(h)
    pure val gz = mul(T, div(p.z, sq(D(p))))
    pure val gw = -div(T, p.w)
    pure val ind = mul(sq(gz), u._1) + mul(sq(gw), u._3)
    (sqrt(mul(s2, ind)), sqrt(mul(s2, ind + 2 * mul3(gz, gw, u._2))))
  }
  pure def mean(l: List[Fx]): Fx = sum(l) / l.length()
  pure def ss(a: List[Fx], b: Fx): Fx = a.foldl(0, (x, y) => x + sq(y - b))
  pure def sse(a: List[Fx], b: List[Fx]): Fx = a.indices().fold(0, (x, j) => x + sq(a[j] - b[j]))
  pure def goodness(m: List[Fx], p: List[Fx]): List[Fx] =
    [ div(ss(p, mean(m)), ss(m, mean(m))), sse(m, p), ss(m, mean(m)), ss(p, mean(m)) ]

  action choose = {
    nondet r = oneOf(0.to(RMAX))
    val p = {
      o: elem(List(0, q(25, 10), i(-3), q(7, 10)), r, 0),
      b: rng(r, 1, q(-3, 1), q(3, 1)), c: elem(List(q(2, 1), q(-2, 1), q(5, 2), q(-35, 10), q(3, 2)), r, 2),
      z: if (pick(r, 22, 3) == 0) rng(r, 3, q(4, 100), q(16, 100)) else rng(r, 3, q(3, 10000), q(15, 1000)), w: rng(r, 4, q(2, 1), q(14, 1)) }
    val T = div(2 * PI, mul(D(p), p.w))
    // fifty to seventy samples per oscillation, few oscillations
    val rt = i(rng(r, 5, i(52), i(70)) / T + 1)
    val nn = (mul3(rng(r, 6, q(4, 1), q(7, 1)), T, rt) + S - 1) / S
    val ep = elem(List(q(1, 1000), q(1, 2000), q(1, 5000)), r, 7)
    val h = normal(p, div(S, rt), nn)
    val len = 3 + pick(r, 20, 6)
    val m = range(0, len).foldl(List(), (l, j) => l.append(rng(r, 30 + j, i(-5), i(5))))
    val g = range(0, len).foldl(List(), (l, j) => l.append(
      if (pick(r, 21, 3) == 0) m[j] + rng(r, 50 + j, q(-1, 10), q(1, 10)) else rng(r, 50 + j, i(-5), i(5))))
    all {
      par' = p, rate' = rt, n' = nn, eps' = ep, group' = 1 + pick(r, 8, 3), period' = T,
      // the sum of squared residuals is n eps^2
      std' = stdT(p, h, sq(ep) * nn / (nn - 5)),
      rows' = range(0, 4).foldl(List(), (l, j) => l.append((pick(r, 10 + j, nn), rowAt(p, div(i(pick(r, 10 + j, nn)), rt))))),
      how' = pick(r, 9, 2), start' = elem(List(0, 0, q(25, 2), i(3000)), r, 23),
      ym' = m, yp' = g, good' = if (ss(m, mean(m)) * 100 > S) goodness(m, g) else []
    }
  }
  action init = choose
  action step = choose

  // the normal matrix is positive definite: variances are positive
  val positive = std._1 > 0 and std._2 > 0
  // correlation hardly matters for light damping
  val close = ab(std._1 - std._2) * (if (par.z < q(2, 100)) 25 else 8) <= std._1
  // the first rows agree with differences of the function itself
  pure def f(p: P5, t: Fx): Fx = {
    pure val a = ang(mul3(D(p), p.w, t))
    p.o - mul(exp(-mul3(p.z, p.w, t)), mul(p.b, sin(a)) + mul(p.c, cos(a)))
  }
  val derived = {
    val t = div(i(rows[0]._1), rate)
    val h = 10^20
    and {
      near((f({ ...par, z: par.z + h }, t) - f({ ...par, z: par.z - h }, t)) * S / (2 * h), rows[0]._2[3], 12),
      near((f({ ...par, w: par.w + h }, t) - f({ ...par, w: par.w - h }, t)) * S / (2 * h), rows[0]._2[4], 12) }
  }
  // when the fit is the mean of the data or the data, r^2 is 0 or 1
  val bounds = goodness(ym.append(i(9)), ym.append(i(9)))[0] == S
}
