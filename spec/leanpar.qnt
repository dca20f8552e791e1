// Steer axis parameters of Moore 2012 (with a leaning rider): the planar
// geometry behind them and the generation of physical ones.
module leanpar {
  import fx.* from "./fx"
  import rnd.* from "./rnd"
  import whipple.* from "./whipple"

  pure val LEAN_KEYS: List[str] = ["c9", "d1", "d2", "d3", "d4", "g", "ic11", "ic22", "ic31",
    "ic33", "id11", "id22", "ie11", "ie22", "ie31", "ie33", "if11", "if22", "ig11", "ig22",
    "ig31", "ig33", "k9", "l1", "l2", "l3", "l4", "l5", "l6", "mc", "md", "me", "mf", "mg",
    "rf", "rr", "v"]

  type Geo = { lam: Fx, w: Fx, c: Fx }
  // planar geometry recovered from Moore's steer axis offsets
  pure def geometry(p: Par): Geo = {
    pure val a = p.get("d1") + p.get("d3")
    pure val R = sqrt(sq(p.get("d2")) + sq(a))
    pure val lam = acos(div(p.get("rr") - p.get("rf"), R)) - atan2(a, p.get("d2"))
    pure val cl = cos(lam) pure val sl = sin(lam)
    pure val c = div(mul(p.get("rf"), sl) - p.get("d3"), cl)
    { lam: lam, c: c, w: div(p.get("d1") + mul(p.get("rr"), sl), cl) - c }
  }
  // inertia (11, 31, 33) in the steer axis frame -> (xx, xz, zz)
  pure def unrot(lam: Fx, a: Fx, b: Fx, d: Fx): (Fx, Fx, Fx) = {
    pure val cl = cos(lam) pure val sl = sin(lam)
    ( mul(a, sq(cl)) + 2 * mul3(b, cl, sl) + mul(d, sq(sl)),
      mul3(d - a, sl, cl) + mul(b, sq(cl) - sq(sl)),
      mul(a, sq(sl)) - 2 * mul3(b, cl, sl) + mul(d, sq(cl)) )
  }
  // the combined benchmark bicycle when the lean joint is locked
  pure def locked(p: Par): Par = {
    pure val G = geometry(p)
    pure val cl = cos(G.lam) pure val sl = sin(G.lam)
    pure val rR = p.get("rr") pure val rF = p.get("rf")
    pure val xC = mul(p.get("l1"), cl) + mul(p.get("l2"), sl)
    pure val zC = -rR - mul(p.get("l1"), sl) + mul(p.get("l2"), cl)
    pure val xH = G.w + mul(p.get("l3"), cl) + mul(p.get("l4"), sl)
    pure val zH = -rF - mul(p.get("l3"), sl) + mul(p.get("l4"), cl)
    pure val xG = p.get("l5")
    pure val zG = -rR + p.get("d4") + p.get("l6")
    pure val mC = p.get("mc") pure val mG = p.get("mg")
    pure val mB = mC + mG
    pure val xB = div(mul(mC, xC) + mul(mG, xG), mB)
    pure val zB = div(mul(mC, zC) + mul(mG, zG), mB)
    pure val C = unrot(G.lam, p.get("ic11"), p.get("ic31"), p.get("ic33"))
    pure val H = unrot(G.lam, p.get("ie11"), p.get("ie31"), p.get("ie33"))
    Map(
      "mB" -> mB, "xB" -> xB, "zB" -> zB,
      "IBxx" -> C._1 + mul(mC, sq(zC - zB)) + p.get("ig11") + mul(mG, sq(zG - zB)),
      "IBxz" -> C._2 - mul3(mC, xC - xB, zC - zB) + p.get("ig31") - mul3(mG, xG - xB, zG - zB),
      "IBzz" -> C._3 + mul(mC, sq(xC - xB)) + p.get("ig33") + mul(mG, sq(xG - xB)),
      "mH" -> p.get("me"), "xH" -> xH, "zH" -> zH,
      "IHxx" -> H._1, "IHxz" -> H._2, "IHzz" -> H._3,
      "mR" -> p.get("md"), "mF" -> p.get("mf"), "rR" -> rR, "rF" -> rF,
      "IRxx" -> p.get("id11"), "IRyy" -> p.get("id22"),
      "IFxx" -> p.get("if11"), "IFyy" -> p.get("if22"),
      "w" -> G.w, "c" -> G.c, "lam" -> G.lam, "g" -> p.get("g"), "v" -> p.get("v"))
  }

  // generate from a physical bicycle + upper body (digits k0 .. k0+39)
  pure def genLean(r: int, k0: int): Par = leanOf(genBench(r, k0), r, k0)
  // the upper body is carried by a stiff spring: the rest decides stability
  pure def nearLean(r: int, k0: int): Par =
    leanOf(nearDesign(BROWSER, r, k0), r, k0)
      .put("k9", rng(r, k0 + 39, q(200, 1), q(600, 1))).put("c9", rng(r, k0 + 38, q(20, 1), q(80, 1)))
      .put("d4", q(-67, 100)).put("l5", rng(r, k0 + 34, q(20, 100), q(26, 100)))
      .put("l6", q(-27, 100)).put("mg", q(488, 10))
  pure def leanOf(b: Par, r: int, k0: int): Par = {
    pure def u(k, lo, hi) = rng(r, k0 + k, lo, hi)
    pure def z(k, lo, hi) = rngz(r, k0 + k, lo, hi, 0, 150)
    pure val lam = b.get("lam")
    pure val cl = cos(lam) pure val sl = sin(lam)
    pure val w = b.get("w") pure val c = b.get("c")
    pure val rR = b.get("rR") pure val rF = b.get("rF")
    pure val d1 = mul(cl, c + w) - mul(rR, sl)
    pure val d3 = mul(rF, sl) - mul(c, cl)
    pure val xH = b.get("xH") - w
    pure val zH = b.get("zH") + rF
    pure val zC = b.get("zB") + rR
    pure val ga = u(30, q(1, 2), q(3, 1))
    pure val gb = u(31, q(1, 5), q(2, 1))
    pure val ge = z(32, q(-1, 2), q(1, 2))
    pure val C = unrot(-lam, b.get("IBxx"), b.get("IBxz"), b.get("IBzz"))
    pure val H = unrot(-lam, b.get("IHxx"), b.get("IHxz"), b.get("IHzz"))
    Map(
      "rf" -> rF, "rr" -> rR, "d1" -> d1, "d3" -> d3,
      "d2" -> div(rR + mul(d1, sl) - rF + mul(d3, sl), cl),
      "d4" -> u(33, q(-9, 10), q(0, 1)),
      "l1" -> mul(b.get("xB"), cl) - mul(zC, sl),
      "l2" -> mul(b.get("xB"), sl) + mul(zC, cl),
      "l3" -> mul(xH, cl) - mul(zH, sl),
      "l4" -> mul(xH, sl) + mul(zH, cl),
      "l5" -> z(34, q(-1, 5), q(7, 10)),
      "l6" -> u(35, q(-6, 10), q(-1, 10)),
      "ic11" -> C._1, "ic31" -> C._2, "ic33" -> C._3, "ic22" -> b.get("IByy"),
      "ie11" -> H._1, "ie31" -> H._2, "ie33" -> H._3, "ie22" -> b.get("IHyy"),
      "id11" -> b.get("IRxx"), "id22" -> b.get("IRyy"),
      "if11" -> b.get("IFxx"), "if22" -> b.get("IFyy"),
      "ig11" -> mul(ga, sq(cos(ge))) + mul(gb, sq(sin(ge))),
      "ig33" -> mul(ga, sq(sin(ge))) + mul(gb, sq(cos(ge))),
      "ig31" -> mul3(gb - ga, sin(ge), cos(ge)),
      "ig22" -> u(36, q(1, 2), q(3, 1)),
      "mc" -> b.get("mB"), "md" -> b.get("mR"), "me" -> b.get("mH"), "mf" -> b.get("mF"),
      "mg" -> u(37, q(5, 1), q(70, 1)),
      "c9" -> z(38, q(0, 1), q(100, 1)), "k9" -> z(39, q(-50, 1), q(300, 1)),
      "g" -> b.get("g"), "v" -> b.get("v"))
  }
  type Elem = { par: Par, A: Mat, B: Mat, chi: List[Fx] }

  pure def col(M: Mat, j: int): List[Fx] = M.foldl(List(), (l, row) => l.append(row[j]))
  // inverse of a symmetric 3x3 matrix by cofactors
  pure def inv3(m: Mat): Mat = {
    pure def cof(a, b, c, d) = mul(m[a][c], m[b][d]) - mul(m[a][d], m[b][c])
    pure val c00 = cof(1, 2, 1, 2)
    pure val c01 = -cof(1, 2, 0, 2)
    pure val c02 = cof(1, 2, 0, 1)
    pure val d = mul(m[0][0], c00) + mul(m[0][1], c01) + mul(m[0][2], c02)
    pure val c11 = cof(0, 2, 0, 2)
    pure val c12 = -cof(0, 2, 0, 1)
    pure val c22 = cof(0, 1, 0, 1)
    [[div(c00, d), div(c01, d), div(c02, d)],
     [div(c01, d), div(c11, d), div(c12, d)],
     [div(c02, d), div(c12, d), div(c22, d)]]
  }

  pure def evalLean(p: Par): Elem = {
    pure val b = locked(p)
    pure val k = canonical(b)
    pure val v = p.get("v") pure val g = p.get("g")
    pure val cl = cos(b.get("lam"))
    pure val clw = div(cl, b.get("w"))
    pure val mu = mul(b.get("c"), clw)
    pure val mG = p.get("mg") pure val h = p.get("l6")
    pure val zG = -p.get("rr") + p.get("d4") + h
    pure val mh = mul(mG, h)
    pure val pp = p.get("ig31") - mul(mh, p.get("l5"))
    pure val m02 = p.get("ig11") + mul(mh, zG)
    pure val m12 = mul(mu, pp)
    pure val M = [
      [k.M[0][0], k.M[0][1], m02],
      [k.M[1][0], k.M[1][1], m12],
      [m02, m12, p.get("ig11") + mul(mh, h)]]
    pure val C = [
      [mul(v, k.C1[0][0]), mul(v, k.C1[0][1]), 0],
      [mul(v, k.C1[1][0]), mul(v, k.C1[1][1]), 0],
      [0, mul(v, mul(clw, pp) - mul(mh, mu)), p.get("c9")]]
    pure def kk(i, j) = mul(g, k.K0[i][j]) + mul(sq(v), k.K2[i][j])
    pure val K = [
      [kk(0, 0), kk(0, 1), mul(g, mh)],
      [kk(1, 0), kk(1, 1), 0],
      [mul(g, mh), -mul3(sq(v), mh, clw), mul(g, mh) + p.get("k9")]]
    pure val W = inv3(M)
    pure val a1 = matmul(W, K)
    pure val a2 = matmul(W, C)
    pure def row(j: int): List[Fx] =
      // q1 q2 q3 q4 q6 q7 q8 q9 u4 u6 u7 u9
      [0, 0, 0, -a1[j][0], 0, -a1[j][1], 0, -a1[j][2], -a2[j][0], 0, -a2[j][1], -a2[j][2]]
    pure val z12: List[Fx] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]
    pure val z3: List[Fx] = [0, 0, 0]
    pure def e(j: int, x: Fx): List[Fx] = z12.replaceAt(j, x)
    pure val A = [
      e(9, -p.get("rr")),
      e(2, v),
      e(5, mul(v, clw)).replaceAt(10, mu),
      e(8, S), e(9, S), e(10, S),
      e(9, div(p.get("rr"), p.get("rf"))),
      e(11, S),
      row(0), z12, row(1), row(2)]
    pure val sub: Mat = [
      [0, 0, 0, S, 0, 0], [0, 0, 0, 0, S, 0], [0, 0, 0, 0, 0, S]].concat(
      range(0, 3).foldl(List(), (l, j) => l.append(
        [-a1[j][0], -a1[j][1], -a1[j][2], -a2[j][0], -a2[j][1], -a2[j][2]])))
    {
      par: p,
      A: A,
      B: [z3, z3, z3, z3, z3, z3, z3, z3, W[0], z3, W[1], W[2]],
      chi: charpoly(sub).concat([0, 0, 0, 0, 0, 0])
    }
  }

  // ------------------------------------------------------- call sessions ----
}
