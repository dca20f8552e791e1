// The ideal measurement of a bicycle: geometry with either method, orientations
// of the hanging parts and the periods of undamped pendulums.  Everything is
// derived from the bicycle, never from the formulas that invert it.
module ideal {
  import fx.* from "./fx"
  import rnd.* from "./rnd"
  import bodies.* from "./bodies"

  type Orient = { alpha: Fx, a: Fx, T: Fx }
  type Part = { name: str, body: Body, orients: List[Orient], Tc: Fx, exact: bool,
    rods: List[Rod] }
  // how an orientation is drawn: along its line, centred at the foot of the
  // perpendicular from the mass centre, as long as the measured inertia
  type Rod = { x: Fx, z: Fx, hx: Fx, hz: Fx }

  pure val DEG: Fx = div(i(180), PI)

  var bench: str -> Fx           // the bicycle: what has to come back
  var meas: str -> Fx            // measured data without the orientations
  var parts: List[Part]          // hanging parts with their orientations
  var form: { split: bool, wheelbase: bool, flywheel: bool, unc: int, force: bool }

  // ---- the experiments ----------------------------------------------------
  pure def torsional(I: Fx, k: Fx): Fx = mul(2 * PI, sqrt(div(I, k)))
  pure def compound(I: Fx, m: Fx, l: Fx, g: Fx): Fx =
    mul(2 * PI, sqrt(div(I + mul(m, sq(l)), mul3(m, g, l))))

  // the bicycle is turned by th (anticlockwise seen from the right); the part
  // hangs from its reference point (xr, zr) such that the vertical rod axis
  // passes through its mass centre
  pure def orient(b: Body, xr: Fx, zr: Fx, lam: Fx, th: Fx, k: Fx): Orient = {
    pure val x = b.x - xr
    pure val up = zr - b.z
    // vertical direction in the bicycle's x, z axes
    pure val n = (sin(th), -cos(th))
    { alpha: i(90) + mul(lam + th, DEG),
      a: mul(x, cos(th)) - mul(up, sin(th)),
      T: torsional(along(b, n, n), k) }
  }
  // n separated angles, no two equal modulo half a turn; sometimes nearly zero,
  // where the mass centre line is vertical in the bicycle's frame (a line is kept
  // as its slope, so exactly vertical is left to the arithmetic)
  pure def angles(r: int, k: int, n: int): List[Fx] = {
    pure val off = pick(r, k, n)
    range(0, n).foldl([], (l, j) => {
      pure val slot = (j * (if (n % 2 == 1) 2 else 1) + off) % n
      pure val width = div(PI - q(1, 5), i(n))
      pure val base = q(1, 10) + mul(width, i(slot))
      pure val th = if (slot == 0 and pick(r, k + 13, 6) == 0) q(1, 10000)
        else base + mul(rng(r, k + 1 + j, q(1, 10), q(8, 10)), width)
      // half of them turned by half a turn
      l.append(if (pick(r, k + 14, 3) == 0 and j % 2 == 1) th - PI else th)
    })
  }

  // Readings with errors.  The lines no longer meet in one point: the mass
  // centre is the average of their pairwise intersections.  An error e of the
  // reading shifts the line by e; with direction (nx, nz) of the rod a point p
  // lies on line j if the cross product of p - centre and n_j is e_j
  pure def spoiled(o: Orient, e: Fx, f: Fx): Orient =
    { ...o, a: o.a + e, T: mul(o.T, S + f) }
  pure def fitted(b: Body, th: List[Fx], e: List[Fx], J: List[Fx]): Body = {
    pure val n = th.length()
    pure val pairs = range(0, n).foldl([], (l, j) => range(0, n).foldl(l, (ll, k) =>
      if (j < k) ll.append((j, k)) else ll))
    // x cos(th) + z sin(th) = e on each line, relative to the true centre
    pure val at = pairs.foldl((0, 0), (acc, p) => {
      pure val det = sin(th[p._2] - th[p._1])
      (acc._1 + div(mul(e[p._1], sin(th[p._2])) - mul(e[p._2], sin(th[p._1])), det),
       acc._2 + div(mul(e[p._2], cos(th[p._1])) - mul(e[p._1], cos(th[p._2])), det))
    })
    // least squares for xx, xz, zz of J = n . I n with n = (sin th, -cos th)
    pure val rows = th.foldl([], (l, t) => l.append([sq(sin(t)), -2 * mul(sin(t), cos(t)), sq(cos(t))]))
    pure def nrm(p: int, q2: int): Fx = rows.foldl(0, (s2, row) => s2 + mul(row[p], row[q2]))
    pure def rhs(p: int): Fx = range(0, n).foldl(0, (s2, j) => s2 + mul(rows[j][p], J[j]))
    pure def det3(c0: List[Fx], c1: List[Fx], c2: List[Fx]): Fx =
      mul(c0[0], mul(c1[1], c2[2]) - mul(c1[2], c2[1]))
      - mul(c1[0], mul(c0[1], c2[2]) - mul(c0[2], c2[1]))
      + mul(c2[0], mul(c0[1], c1[2]) - mul(c0[2], c1[1]))
    pure def col(p: int): List[Fx] = [nrm(0, p), nrm(1, p), nrm(2, p)]
    pure val rh = [rhs(0), rhs(1), rhs(2)]
    pure val dt = det3(col(0), col(1), col(2))
    { ...b, x: b.x + at._1 / pairs.length(), z: b.z + at._2 / pairs.length(),
      xx: div(det3(rh, col(1), col(2)), dt), xz: div(det3(col(0), rh, col(2)), dt),
      zz: div(det3(col(0), col(1), rh), dt) }
  }

  pure def rod(b: Body, th: Fx, x0: Fx, z0: Fx, e: Fx, J: Fx): Rod = {
    pure val out = e - mul(b.x - x0, cos(th)) - mul(b.z - z0, sin(th))
    { x: b.x + mul(out, cos(th)), z: b.z + mul(out, sin(th)),
      hx: mul(J / 2, sin(th)), hz: -mul(J / 2, cos(th)) }
  }

  // digits k .. k+15 for the orientations, e .. e+24 for the errors
  pure def hang(r: int, k: int, e: int, noise: bool, nm: str, b: Body, xr: Fx, zr: Fx, lam: Fx,
                stiff: Fx, g: Fx): Part = {
    pure val n = elem([3, 3, 3, 4, 5, 6, 10, 12], r, k)
    pure val th = angles(r, k + 1, n)
    pure val tc = compound(b.yy, b.m, sqrt(sq(b.x - xr) + sq(b.z - zr)), g)
    pure val right = th.foldl([], (l, t) => l.append(orient(b, xr, zr, lam, t, stiff)))
    if (not(noise)) { name: nm, body: b, orients: right, Tc: tc, exact: true,
      rods: th.foldl([], (l, t) => l.append(rod(b, t, b.x, b.z, 0, along(b, (sin(t), -cos(t)), (sin(t), -cos(t)))))) }
    else {
      pure val ea = range(0, n).foldl([], (l, j) => l.append(rng(r, e + j, q(-1, 100), q(1, 100))))
      pure val ef = range(0, n).foldl([], (l, j) => l.append(rng(r, e + 12 + j, q(-1, 100), q(1, 100))))
      pure val os = range(0, n).foldl([], (l, j) => l.append(spoiled(right[j], ea[j], ef[j])))
      pure val J = os.foldl([], (l, o) => l.append(mul(sq(div(o.T, 2 * PI)), stiff)))
      pure val fit = fitted(b, th, ea, J)
      pure val len = sqrt(sq(fit.x - xr) + sq(fit.z - zr))
      { name: nm, body: { ...fit, yy: mul(sq(div(tc, 2 * PI)), mul3(b.m, g, len)) - mul(b.m, sq(len)) },
        orients: os, Tc: tc, exact: false,
        rods: range(0, n).foldl([], (l, j) => l.append(rod(fit, th[j], b.x, b.z, ea[j], J[j]))) }
    }
  }

  action init = {
    nondet r = oneOf(0.to(RMAX))
    val rF = rng(r, 0, q(15, 100), q(4, 10))
    val rR = rngz(r, 1, q(15, 100), q(4, 10), rF, 200)
    val lam = rngz(r, 2, q(1, 20), q(7, 10), q(314, 1000), 50)
    val w = rng(r, 3, q(8, 10), q(16, 10))
    // the fork offset decides the trail
    val fo = rngz(r, 4, q(-3, 100), q(12, 100), 0, 100)
    val c = div(mul(rF, sin(lam)) - fo, cos(lam))
    val g = rngz(r, 5, q(95, 10), q(10, 1), q(981, 100), 500)
    val isSplit = pick(r, 6, 2) == 0
    val fly = pick(r, 8, 4) == 0
    val stiff = rng(r, 9, q(1, 1), q(12, 1))
    val bx = (q(1, 10), q(7, 10)) val bz = (q(-8, 10), q(-3, 10))
    val B = genBody(r, 10, (q(3, 1), q(25, 1)), bx, bz, (q(1, 10), q(25, 10)))
    val F0 = genBody(r, 18, (q(1, 2), q(5, 1)), (w - q(3, 10), w + q(2, 10)),
                     (q(-9, 10), q(-1, 10)), (q(1, 50), q(1, 2)))
    val B0 = genBody(r, 26, (q(1, 2), q(5, 1)), (w - q(5, 10), w + q(1, 10)),
                     (q(-12, 10), q(-6, 10)), (q(1, 50), q(1, 2)))
    // the parts do not hang from their mass centres
    val F = if (ab(F0.x - w) + ab(F0.z + rF) < q(3, 100)) { ...F0, x: w - q(1, 20) } else F0
    // handlebar reference point in the steer axis frame of the fork
    val l1 = rngz(r, 34, q(-1, 10), q(1, 10), 0, 50)
    val l2 = rng(r, 35, q(3, 10), q(9, 10))
    val xG = w + mul(l1, cos(lam)) - mul(l2, sin(lam))
    val zG = -rF - mul(l1, sin(lam)) - mul(l2, cos(lam))
    val G = if (ab(B0.x - xG) + ab(B0.z - zG) < q(3, 100)) { ...B0, x: xG + q(1, 20) } else B0
    val noise = pick(r, 64, 5) < 2
    val pB = hang(r, 70, 130, noise, "B", B, 0, -rR, lam, stiff, g)
    val pF = hang(r, 90, 160, noise, if (isSplit) "S" else "H", F, w, -rF, lam, stiff, g)
    val pG = hang(r, 110, 190, noise, "G", G, xG, zG, lam, stiff, g)
    val H = if (isSplit) combine(pF.body, pG.body) else pF.body
    val mR = rng(r, 36, q(1, 2), q(6, 1)) val mF = rng(r, 37, q(1, 2), q(6, 1))
    val Rxx = rng(r, 38, q(1, 100), q(1, 4)) val Fxx = rng(r, 39, q(1, 100), q(1, 4))
    val Ryy = rng(r, 40, q(1, 50), q(1, 2)) val Fyy = rng(r, 41, q(1, 50), q(1, 2))
    val lF = rng(r, 42, q(1, 10), q(4, 10)) val lR = rng(r, 43, q(1, 10), q(4, 10))
    val nF = i(1 + pick(r, 44, 15)) val nR = i(1 + pick(r, 45, 15))
    val mP = rng(r, 46, q(1, 1), q(8, 1)) val lP = rng(r, 47, q(5, 10), q(14, 10))
    val dP = rng(r, 48, q(1, 100), q(6, 100))
    val IP = mul(mP, div(3 * sq(dP / 2) + sq(lP), i(12)))
    val mD = rng(r, 49, q(1, 2), q(4, 1))
    val Dxx = rng(r, 50, q(1, 100), q(1, 5)) val Dyy = rng(r, 51, q(1, 100), q(1, 5))
    // offsets of the wheel centres from the steer axis, distance along it
    val ra = mul(w + c, cos(lam)) - mul(rR, sin(lam))
    val rc = mul(w, sin(lam)) + mul(rR - rF, cos(lam))
    // the distance along the steer axis is measured without a sign
    val base = pick(r, 7, 2) == 0 or rc < q(1, 50)
    val d1 = rng(r, 52, q(1, 100), q(3, 100)) val d2 = rng(r, 53, q(1, 100), q(5, 100))
    val d3 = rng(r, 54, q(1, 100), q(5, 100)) val d4 = rng(r, 55, q(1, 100), q(3, 100))
    val h1 = rng(r, 56, q(1, 10), q(5, 10)) val h3 = rng(r, 57, q(1, 10), q(5, 10))
    val h5 = rng(r, 58, q(1, 10), q(5, 10))
    val d5 = rng(r, 59, q(8, 1000), q(2, 100)) val d6 = rng(r, 60, q(1, 100), q(4, 100))
    val h6 = rng(r, 61, q(1, 10), q(4, 10))
    val geo = if (base) Map("w" -> w, "gamma" -> i(90) - mul(lam, DEG), "f" -> fo)
      else Map("h1" -> h1, "h3" -> h3, "h5" -> h5, "d1" -> d1, "d2" -> d2, "d3" -> d3, "d4" -> d4,
        "h2" -> ra - h1 + h3 - d1 / 2 + d2 / 2, "h4" -> fo + d3 / 2 + h5 - d4 / 2,
        "d" -> sqrt(sq(rc) + sq(ra - fo)) - (d2 + d3) / 2)
    val common = Map("g" -> g, "dF" -> mul(mul(2 * PI, nF), rF), "nF" -> nF,
      "dR" -> mul(mul(2 * PI, nR), rR), "nR" -> nR, "mB" -> B.m, "mR" -> mR, "mF" -> mF,
      "lF" -> lF, "lR" -> lR, "mP" -> mP, "lP" -> lP, "dP" -> dP,
      "TcF1" -> compound(Fyy, mF, lF, g), "TcR1" -> compound(Ryy, mR, lR, g),
      "TtF1" -> torsional(Fxx, stiff), "TtR1" -> torsional(Rxx, stiff),
      "TtP1" -> torsional(IP, stiff))
    // the flywheel is measured together with the front wheel
    val flyM = if (fly) Map("mD" -> mD + mF, "TcD1" -> compound(Dyy + Fyy, mD + mF, lF, g),
      "TtD1" -> torsional(Dxx + Fxx, stiff)) else Map()
    val splitM = if (isSplit) Map("mS" -> F.m, "mG" -> G.m, "h6" -> h6,
      "h7" -> h6 + l1 - d5 / 2 + d6 / 2, "d5" -> d5, "d6" -> d6,
      "l" -> sqrt(sq(l1) + sq(l2)) + d5 / 2 + d6 / 2) else Map("mH" -> H.m)
    val flyB = if (fly) Map("mD" -> mD, "IDxx" -> Dxx, "IDyy" -> Dyy) else Map()
    val bodyB = [("B", pB.body), ("H", H)].concat(if (isSplit) [("S", pF.body), ("G", pG.body)] else [])
      .foldl(Map(), (m, nb) => m.put(nb._1, nb._2))
    all {
      bench' = join([Map("w" -> w, "c" -> c, "lam" -> lam, "rF" -> rF, "rR" -> rR, "g" -> g,
          "mR" -> mR, "mF" -> mF, "IRxx" -> Rxx, "IRyy" -> Ryy, "IFxx" -> Fxx, "IFyy" -> Fyy), flyB]
        .concat(bodyB.keys().fold([], (l, n) => l.append(flat(n, bodyB.get(n)))))),
      meas' = join([common, geo, flyM, splitM]),
      parts' = [pB, pF].concat(if (isSplit) [pG] else []),
      form' = { split: isSplit, wheelbase: base, flywheel: fly, unc: pick(r, 62, 3),
                force: pick(r, 63, 2) == 0 }
    }
  }
  action step = init

  pure def join(l: List[str -> Fx]): str -> Fx =
    l.foldl(Map(), (m, n) => n.keys().fold(m, (mm, k) => mm.put(k, n.get(k))))
  pure def flat(n: str, b: Body): str -> Fx =
    if (n == "B") Map("mB" -> b.m, "xB" -> b.x, "zB" -> b.z, "IBxx" -> b.xx, "IByy" -> b.yy,
      "IBzz" -> b.zz, "IBxz" -> b.xz)
    else if (n == "H") Map("mH" -> b.m, "xH" -> b.x, "zH" -> b.z, "IHxx" -> b.xx, "IHyy" -> b.yy,
      "IHzz" -> b.zz, "IHxz" -> b.xz)
    else if (n == "S") Map("mS" -> b.m, "xS" -> b.x, "zS" -> b.z, "ISxx" -> b.xx, "ISyy" -> b.yy,
      "ISzz" -> b.zz, "ISxz" -> b.xz)
    else Map("mG" -> b.m, "xG" -> b.x, "zG" -> b.z, "IGxx" -> b.xx, "IGyy" -> b.yy,
      "IGzz" -> b.zz, "IGxz" -> b.xz)

  // the steer axis passes the wheel centres at the measured offsets
  val consistent = {
    val lam = bench.get("lam")
    near(mul(bench.get("c"), cos(lam)),
         mul(bench.get("rF"), sin(lam)) - (if (form.wheelbase) meas.get("f") else
           meas.get("h4") - meas.get("d3") / 2 - meas.get("h5") + meas.get("d4") / 2), 30)
  }
  // without errors the fit gives back the body, in whatever order
  val recovers = parts.indices().forall(j => parts[j].exact implies {
    val b = parts[j].body
    val th = parts[j].orients.foldl([], (l, o) => l.append(div(o.alpha - i(90), DEG) - bench.get("lam")))
    val J = th.foldl([], (l, t) => l.append(along(b, (sin(t), -cos(t)), (sin(t), -cos(t)))))
    val f = fitted(b, th, th.foldl([], (l, t) => l.append(0)), J)
    near(f.x, b.x, 20) and near(f.z, b.z, 20) and near(f.xx, b.xx, 20) and near(f.xz, b.xz, 20)
      and near(f.zz, b.zz, 20)
  })
  // moments measured about perpendicular directions add up
  val positive = parts.indices().forall(j => parts[j].orients.indices().forall(n =>
    parts[j].orients[n].T > 0 and ab(parts[j].orients[n].a) <= i(2)))
}
