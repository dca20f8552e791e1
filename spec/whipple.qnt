// The linearised Carvallo-Whipple bicycle (Meijaard, Papadopoulos, Ruina and
// Schwab 2007, Appendix A) in 40-digit fixed-point arithmetic.
module whipple {
  import fx.* from "./fx"
  import rnd.* from "./rnd"

  type Par = str -> Fx
  type Mat = List[List[Fx]]

  // ---- generation of physically meaningful benchmark parameters -----------
  // digits used: k0 .. k0+29
  pure def genBench(r: int, k0: int): Par = {
    pure def u(k, lo, hi) = rng(r, k0 + k, lo, hi)
    pure def z(k, lo, hi) = rngz(r, k0 + k, lo, hi, 0, 100)
    pure val mB = u(0, q(5, 1), q(120, 1))
    // like parts are sometimes equal or nearly so
    pure def like(k, lo, hi, x) = rngz(r, k0 + k, lo, hi, x, 120)
    pure val mR = u(2, q(1, 2), q(8, 1))
    pure val mH = like(1, q(1, 2), q(12, 1), mR)
    pure val mF = like(3, q(1, 2), q(8, 1), mR)
    // planar rear frame inertia from principal values and an angle, so that
    // it is always positive definite
    pure val ia = u(4, q(1, 5), q(14, 1))
    pure val ib = like(5, q(1, 5), q(14, 1), ia)
    pure val ha = u(6, q(1, 50), q(1, 1))
    pure val hb = like(7, q(1, 50), q(1, 1), ha)
    pure val al = z(8, q(-3, 2), q(3, 2))
    pure val be = z(9, q(-3, 2), q(3, 2))
    pure val Rxx = u(10, q(1, 100), q(1, 4))
    pure val Fxx = like(11, q(1, 100), q(1, 4), Rxx)
    pure val ca = cos(al) pure val sa = sin(al)
    pure val cb = cos(be) pure val sb = sin(be)
    Map(
      "mB" -> mB, "mH" -> mH, "mR" -> mR, "mF" -> mF,
      "IBxx" -> mul(ia, sq(ca)) + mul(ib, sq(sa)),
      "IBzz" -> mul(ia, sq(sa)) + mul(ib, sq(ca)),
      "IBxz" -> mul(ib - ia, mul(sa, ca)),
      "IByy" -> u(12, q(1, 10), q(15, 1)),
      "IHxx" -> mul(ha, sq(cb)) + mul(hb, sq(sb)),
      "IHzz" -> mul(ha, sq(sb)) + mul(hb, sq(cb)),
      "IHxz" -> mul(hb - ha, mul(sb, cb)),
      "IHyy" -> u(13, q(1, 20), q(1, 1)),
      "IRxx" -> Rxx, "IRyy" -> u(14, q(1, 50), q(1, 2)),
      "IFxx" -> Fxx, "IFyy" -> like(15, q(1, 50), q(1, 2), u(14, q(1, 50), q(1, 2))),
      "c" -> z(16, q(-1, 10), q(1, 5)),
      "lam" -> z(17, q(-1, 5), q(3, 4)),
      "g" -> rngz(r, k0 + 18, q(1, 1), q(20, 1), q(981, 100), 500),
      "v" -> rngw(r, k0 + 19, q(-3, 1), q(12, 1), 0, 100),
      "rF" -> u(20, q(1, 10), q(9, 20)),
      "rR" -> like(21, q(1, 10), q(9, 20), u(20, q(1, 10), q(9, 20))),
      "w" -> u(22, q(7, 10), q(18, 10)),
      "xB" -> z(23, q(-1, 5), q(8, 10)),
      "zB" -> u(24, q(-14, 10), q(-3, 10)),
      "xH" -> z(25, q(3, 10), q(12, 10)),
      "zH" -> u(26, q(-11, 10), q(-2, 10))
    )
  }

  // two published designs with a self-stable speed range (about 4.3 to 6.0 and
  // 4 to 7 m/s), every parameter within 4 percent; digits used: k0 .. k0+29
  pure val CLASSIC: Par = Map(
    "IBxx" -> q(92000000, 10^7), "IBxz" -> q(24000000, 10^7), "IByy" -> q(110000000, 10^7), "IBzz" -> q(28000000, 10^7),
    "IFxx" -> q(1405000, 10^7), "IFyy" -> q(2800000, 10^7), "IHxx" -> q(589200, 10^7), "IHxz" -> q(-75600, 10^7),
    "IHyy" -> q(600000, 10^7), "IHzz" -> q(70800, 10^7), "IRxx" -> q(603000, 10^7), "IRyy" -> q(1200000, 10^7),
    "c" -> q(800000, 10^7), "g" -> q(98100000, 10^7), "lam" -> q(3141593, 10^7), "mB" -> q(850000000, 10^7),
    "mF" -> q(30000000, 10^7), "mH" -> q(40000000, 10^7), "mR" -> q(20000000, 10^7), "rF" -> q(3500000, 10^7),
    "rR" -> q(3000000, 10^7), "v" -> q(50000000, 10^7), "w" -> q(10200000, 10^7), "xB" -> q(3000000, 10^7),
    "xH" -> q(9000000, 10^7), "zB" -> q(-9000000, 10^7), "zH" -> q(-7000000, 10^7))
  pure val BROWSER: Par = Map(
    "IBxx" -> q(21892000, 10^7), "IBxz" -> q(-2709000, 10^7), "IByy" -> q(29923000, 10^7), "IBzz" -> q(16179000, 10^7),
    "IFxx" -> q(884000, 10^7), "IFyy" -> q(1494000, 10^7), "IHxx" -> q(2534000, 10^7), "IHxz" -> q(-720000, 10^7),
    "IHyy" -> q(2461000, 10^7), "IHzz" -> q(956000, 10^7), "IRxx" -> q(904000, 10^7), "IRyy" -> q(1525000, 10^7),
    "c" -> q(686000, 10^7), "g" -> q(98100000, 10^7), "lam" -> q(3997000, 10^7), "mB" -> q(330440000, 10^7),
    "mF" -> q(20200000, 10^7), "mH" -> q(32200000, 10^7), "mR" -> q(31100000, 10^7), "rF" -> q(3435000, 10^7),
    "rR" -> q(3410000, 10^7), "v" -> q(10000000, 10^7), "w" -> q(11210000, 10^7), "xB" -> q(3746000, 10^7),
    "xH" -> q(8669000, 10^7), "zB" -> q(-6816000, 10^7), "zH" -> q(-7482000, 10^7))
  pure def nearDesign(d: Par, r: int, k0: int): Par =
    range(0, BENCH_KEYS.length()).foldl(d, (m, j) => m.put(BENCH_KEYS[j],
      mul(d.get(BENCH_KEYS[j]), rng(r, k0 + j, q(96, 100), q(104, 100)))))

  pure val BENCH_KEYS: List[str] = ["IBxx", "IBxz", "IByy", "IBzz", "IFxx",
    "IFyy", "IHxx", "IHxz", "IHyy", "IHzz", "IRxx", "IRyy", "c", "g", "lam",
    "mB", "mF", "mH", "mR", "rF", "rR", "v", "w", "xB", "xH", "zB", "zH"]
  pure val GAIN_KEYS: List[str] = ["kTphi_phi", "kTphi_del", "kTphi_phid",
    "kTphi_deld", "kTdel_phi", "kTdel_del", "kTdel_phid", "kTdel_deld"]

  // ---- canonical matrices --------------------------------------------------
  type Canon = { M: Mat, C1: Mat, K0: Mat, K2: Mat }

  pure def canonical(p: Par): Canon = {
    pure def m(k) = p.get(k)
    pure val mR = m("mR") pure val mB = m("mB")
    pure val mH = m("mH") pure val mF = m("mF")
    pure val rR = m("rR") pure val rF = m("rF")
    pure val w = m("w") pure val c = m("c")
    pure val xB = m("xB") pure val zB = m("zB")
    pure val xH = m("xH") pure val zH = m("zH")
    pure val cl = cos(m("lam")) pure val sl = sin(m("lam"))
    // whole bicycle
    pure val mT = mR + mB + mH + mF
    pure val xT = div(mul(xB, mB) + mul(xH, mH) + mul(w, mF), mT)
    pure val zT = div(mul(zB, mB) + mul(zH, mH) - mul(rR, mR) - mul(rF, mF), mT)
    pure val Txx = m("IRxx") + m("IBxx") + m("IHxx") + m("IFxx")
      + mul(mR, sq(rR)) + mul(mB, sq(zB)) + mul(mH, sq(zH)) + mul(mF, sq(rF))
    pure val Txz = m("IBxz") + m("IHxz") - mul3(mB, xB, zB) - mul3(mH, xH, zH)
      + mul3(mF, w, rF)
    // for the axisymmetric wheels I_zz = I_xx
    pure val Tzz = m("IRxx") + m("IBzz") + m("IHzz") + m("IFxx")
      + mul(mB, sq(xB)) + mul(mH, sq(xH)) + mul(mF, sq(w))
    // front assembly
    pure val mA = mH + mF
    pure val xA = div(mul(xH, mH) + mul(w, mF), mA)
    pure val zA = div(mul(zH, mH) - mul(rF, mF), mA)
    pure val Axx = m("IHxx") + m("IFxx") + mul(mH, sq(zH - zA)) + mul(mF, sq(rF + zA))
    pure val Axz = m("IHxz") - mul3(mH, xH - xA, zH - zA) + mul3(mF, w - xA, rF + zA)
    pure val Azz = m("IHzz") + m("IFxx") + mul(mH, sq(xH - xA)) + mul(mF, sq(w - xA))
    pure val uA = mul(xA - w - c, cl) - mul(zA, sl)
    pure val All = mul(mA, sq(uA)) + mul(Axx, sq(sl)) + 2 * mul3(Axz, sl, cl) + mul(Azz, sq(cl))
    pure val Alx = -mul3(mA, uA, zA) + mul(Axx, sl) + mul(Axz, cl)
    pure val Alz = mul3(mA, uA, xA) + mul(Axz, sl) + mul(Azz, cl)
    pure val mu = mul(div(c, w), cl)
    pure val SR = div(m("IRyy"), rR)
    pure val SF = div(m("IFyy"), rF)
    pure val ST = SR + SF
    pure val SA = mul(mA, uA) + mul3(mu, mT, xT)
    pure val clw = div(cl, w)
    pure val Mpd = Alx + mul(mu, Txz)
    {
      M: [[Txx, Mpd], [Mpd, All + 2 * mul(mu, Alz) + mul(sq(mu), Tzz)]],
      K0: [[mul(mT, zT), -SA], [-SA, -mul(SA, sl)]],
      K2: [[0, mul(ST - mul(mT, zT), clw)], [0, mul(SA + mul(SF, sl), clw)]],
      C1: [[0, mul(mu, ST) + mul(SF, cl) + mul(Txz, clw) - mul3(mu, mT, zT)],
           [-(mul(mu, ST) + mul(SF, cl)), mul(Alz, clw) + mul(mu, SA + mul(Tzz, clw))]]
    }
  }

  // ---- state space ---------------------------------------------------------
  pure def inv2(M: Mat): Mat = {
    pure val d = mul(M[0][0], M[1][1]) - mul(M[0][1], M[1][0])
    [[div(M[1][1], d), -div(M[0][1], d)], [-div(M[1][0], d), div(M[0][0], d)]]
  }
  pure def mm2(X: Mat, Y: Mat): Mat = [
    [mul(X[0][0], Y[0][0]) + mul(X[0][1], Y[1][0]), mul(X[0][0], Y[0][1]) + mul(X[0][1], Y[1][1])],
    [mul(X[1][0], Y[0][0]) + mul(X[1][1], Y[1][0]), mul(X[1][0], Y[0][1]) + mul(X[1][1], Y[1][1])]]

  type SS = { A: Mat, B: Mat }
  pure def stateSpace(k: Canon, v: Fx, g: Fx): SS = {
    pure val W = inv2(k.M)
    pure def K(i, j) = mul(g, k.K0[i][j]) + mul(sq(v), k.K2[i][j])
    pure val KK = mm2(W, [[K(0, 0), K(0, 1)], [K(1, 0), K(1, 1)]])
    pure def C(i, j) = mul(v, k.C1[i][j])
    pure val CC = mm2(W, [[C(0, 0), C(0, 1)], [C(1, 0), C(1, 1)]])
    {
      A: [[0, 0, S, 0], [0, 0, 0, S],
          [-KK[0][0], -KK[0][1], -CC[0][0], -CC[0][1]],
          [-KK[1][0], -KK[1][1], -CC[1][0], -CC[1][1]]],
      B: [[0, 0], [0, 0], W[0], W[1]]
    }
  }
  // matrix product of an n x m and an m x p matrix
  pure def matmul(X: Mat, Y: Mat): Mat =
    range(0, X.length()).foldl(List(), (rows, a) => rows.append(
      range(0, Y[0].length()).foldl(List(), (row, b) => row.append(
        range(0, Y.length()).foldl(0, (s, k) => s + mul(X[a][k], Y[k][b]))))))
  pure def matsub(X: Mat, Y: Mat): Mat =
    range(0, X.length()).foldl(List(), (rows, a) => rows.append(
      range(0, X[0].length()).foldl(List(), (row, b) => row.append(X[a][b] - Y[a][b]))))

  // full state feedback u = -K x added in parallel to the inputs
  pure def gains(p: Par): Mat = [
    [p.get("kTphi_phi"), p.get("kTphi_del"), p.get("kTphi_phid"), p.get("kTphi_deld")],
    [p.get("kTdel_phi"), p.get("kTdel_del"), p.get("kTdel_phid"), p.get("kTdel_deld")]]
  pure def closedLoop(s: SS, K: Mat): SS = { A: matsub(s.A, matmul(s.B, K)), B: s.B }

  // characteristic polynomial coefficients of an n x n matrix, highest first
  // (Faddeev-LeVerrier)
  pure def charpoly(A: Mat): List[Fx] = {
    pure val n = A.length()
    pure def trace(X: Mat): Fx = range(0, n).foldl(0, (s, k) => s + X[k][k])
    pure def addDiag(X: Mat, c: Fx): Mat =
      range(0, n).foldl(List(), (rows, a) => rows.append(
        range(0, n).foldl(List(), (row, b) => row.append(if (a == b) X[a][b] + c else X[a][b]))))
    pure val zero: Mat = range(0, n).foldl(List(), (rows, a) => rows.append(
      range(0, n).foldl(List(), (row, b) => row.append(0))))
    range(1, n + 1).foldl((addDiag(zero, S), [S]), (acc, k) => {
      pure val AM = matmul(A, acc._1)
      pure val c = -trace(AM) / k
      (addDiag(AM, c), acc._2.append(c))
    })._2
  }

  // ---- spec self test: the benchmark bicycle of the paper -------------------
  pure val PAPER: Par = Map(
    "w" -> q(102, 100), "c" -> q(8, 100), "lam" -> PI / 10, "g" -> q(981, 100), "v" -> q(5, 1),
    "rR" -> q(3, 10), "mR" -> i(2), "IRxx" -> q(603, 10000), "IRyy" -> q(12, 100),
    "xB" -> q(3, 10), "zB" -> q(-9, 10), "mB" -> i(85), "IBxx" -> q(92, 10), "IBxz" -> q(24, 10),
    "IByy" -> i(11), "IBzz" -> q(28, 10), "xH" -> q(9, 10), "zH" -> q(-7, 10), "mH" -> i(4),
    "IHxx" -> q(5892, 100000), "IHxz" -> q(-756, 100000), "IHyy" -> q(6, 100), "IHzz" -> q(708, 100000),
    "rF" -> q(35, 100), "mF" -> i(3), "IFxx" -> q(1405, 10000), "IFyy" -> q(28, 100))
  // 14 digit values published by Meijaard et al., and the exact eigenvalue
  // polynomial at v = 5 m/s
  pure val paperOK: bool = {
    pure val k = canonical(PAPER)
    and {
      near(k.M[0][0], q(8081722, 100000), 9),
      near(k.M[0][1], q(231941332208709, 10^14), 13),
      near(k.M[1][1], q(29784188199686, 10^14), 13),
      near(k.K0[0][0], q(-8095, 100), 9),
      near(k.K0[0][1], q(-259951685249872, 10^14), 13),
      near(k.K0[1][1], q(-80329488458618, 10^14), 13),
      near(k.K2[0][1], q(7659734589573222, 10^14), 13),
      near(k.K2[1][1], q(265431523794604, 10^14), 13),
      near(k.C1[0][1], q(3386641391492494, 10^14), 13),
      near(k.C1[1][0], q(-85035641456978, 10^14), 13),
      near(k.C1[1][1], q(168540397397560, 10^14), 13)
    }
  }
}
