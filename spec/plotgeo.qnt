// Drawings of a bicycle: parameter set objects and measured bicycles draw
// wheels, frame, steer axis, mass centres, radii of gyration and inertia
// ellipses.  Every state holds one drawing call and the shapes it has to add,
// in (x, z) coordinates of the bicycle.
module plotgeo {
  import fx.* from "./fx"
  import rnd.* from "./rnd"
  import whipple.* from "./whipple"
  import bodies.* from "./bodies"
  import setpars.* from "./setpars"
  import shapes.* from "./shapes"

  type Call = { op: str, group: List[str], flag: bool, fresh: bool, com: bool, ell: bool }
  var kind: str            // parameterization, or "bicycle"
  var par: Par
  var call: Call
  var want: Shapes

  pure def drawn(knd: str, p: Par, c: Call): Shapes = {
    pure val every = bodiesOf(knd)
    if (c.op == "geometry") drawGeometry(p, c.flag)
    else if (c.op == "centres") drawDots(knd, p, c.group)
    else if (c.op == "radii") drawRadii(knd, p, c.group)
    else if (c.op == "ellipsoids") drawSolids(knd, p, c.group)
    else if (c.op == "diamond") drawDiamond(p, c.flag)
    else if (c.op == "all") {
      pure val s = plus(plus(drawRadii(knd, p, every), drawSolids(knd, p, every)),
        plus(drawGeometry(p, true), drawDots(knd, p, every)))
      if (knd == M19) plus(s, drawDiamond(p, false)) else s
    }
    else drawBicycle(knd, p, c.com, c.ell)
  }

  // ---- generation -----------------------------------------------------------------
  // a moment about y that belongs to a real body: between the difference and
  // the sum of the planar ones
  pure def realYY(r: int, k: int, a: Fx, b: Fx): Fx = {
    pure val d = ab(a - b)
    d + mul(a + b - d, rng(r, k, q(1, 20), q(19, 20)))
  }
  pure def lightest(xx: Fx, zz: Fx, xz: Fx): Fx = (xx + zz - sqrt(sq(xx - zz) + 4 * sq(xz))) / 2
  pure def genPar(r: int, knd: str): Par =
    if (knd == M19) {
      ["D", "H", "P"].foldl(gen19(r, 1), (p, b) => {
        pure val n = FRAMES19.get(b)
        p.put(n[5], sqrt(realYY(r, if (b == "D") 50 else if (b == "H") 51 else 52, sq(p.get(n[3])), sq(p.get(n[4])))))
      })
    } else {
      pure val b0 = if (pick(r, 40, 3) == 0) nearDesign(elem([CLASSIC, BROWSER], r, 41), r, 1) else genBench(r, 1)
      // aligned principal axes, upright steer axis, equal wheels
      pure val b1 = if (pick(r, 42, 4) == 0) b0.put("IBxz", 0) else b0
      pure val b2 = if (pick(r, 43, 4) == 0) b1.put("IHxz", 0) else b1
      pure val b3 = if (pick(r, 44, 6) == 0) b2.put("lam", 0) else b2
      pure val b4 = if (pick(r, 45, 3) == 0) b3.put("rR", b3.get("rF")) else b3
      pure val p = ["B", "H"].foldl(b4, (p, b) => {
        pure val n = FRAMES.get(b)
        pure val lo = lightest(p.get(n[3]), p.get(n[5]), p.get(n[6]))
        p.put(n[4], realYY(r, if (b == "B") 50 else 51, lo, p.get(n[3]) + p.get(n[5]) - lo))
      })
      pure def part(p0: Par, b: str, k: int): Par = {
        pure val n = FRAMES.get(b)
        pure val a = rng(r, k, q(1, 100), q(1, 2))
        pure val c = rng(r, k + 1, q(1, 100), q(1, 2))
        pure val t = rng(r, k + 2, q(-3, 2), q(3, 2))
        p0.put(n[0], rng(r, k + 3, q(1, 2), q(6, 1))).put(n[1], rng(r, k + 4, q(3, 10), q(12, 10)))
          .put(n[2], rng(r, k + 5, q(-13, 10), q(-2, 10)))
          .put(n[3], mul(a, sq(cos(t))) + mul(c, sq(sin(t)))).put(n[5], mul(a, sq(sin(t))) + mul(c, sq(cos(t))))
          .put(n[6], mul3(c - a, sin(t), cos(t))).put(n[4], realYY(r, k + 6, a, c))
      }
      if (knd == "bicycle") {
        pure val p1 = if (pick(r, 80, 3) == 0) part(part(p, "G", 81), "S", 91) else p
        if (pick(r, 101, 4) == 0) p1.put("mD", rng(r, 102, q(1, 2), q(5, 1))).put("IDxx", rng(r, 103, q(1, 100), q(1, 5)))
          .put("IDyy", rng(r, 104, q(1, 50), q(2, 5))) else p1
      }
      else if (knd == MFB) GAINS.indices().fold(p, (o, j) => o.put(GAINS[j], rng(r, 60 + j, q(-9, 1), q(9, 1)))) else p
    }
  pure def someOf(l: List[str], r: int): List[str] = {
    pure val n = 1 + pick(r, 70, l.length())
    range(0, n).foldl(([], l), (acc, j) => {
      pure val k = pick(r, 71 + j, acc._2.length())
      (acc._1.append(acc._2[k]), acc._2.slice(0, k).concat(acc._2.slice(k + 1, acc._2.length())))
    })._1
  }
  action draw(op: str, r: int): bool = {
    val c = { op: op, group: if (op == "centres" or op == "radii" or op == "ellipsoids")
        (if (pick(r, 1, 3) == 0) bodiesOf(kind) else someOf(bodiesOf(kind), r)) else [],
      flag: pick(r, 2, 3) > 0, fresh: pick(r, 3, 3) == 0, com: pick(r, 4, 3) > 0, ell: pick(r, 5, 3) > 0 }
    all { kind' = kind, par' = par, call' = c, want' = drawn(kind, par, c) }
  }
  action init = {
    nondet r = oneOf(0.to(RMAX))
    val k = elem([M07, M07, MFB, M19, M19, "bicycle", "bicycle", "bicycle"], r, 0)
    all {
      kind' = k, par' = genPar(r, k), want' = NONE,
      call' = { op: "new", group: [], flag: false, fresh: true, com: false, ell: false }
    }
  }
  action step = {
    nondet r = oneOf(0.to(RMAX))
    if (kind == "bicycle") draw(elem(["matplotlib", "plotly"], r, 0), r)
    else if (kind == M19) draw(elem(["geometry", "centres", "radii", "ellipsoids", "diamond", "all"], r, 0), r)
    else draw(elem(["geometry", "centres", "radii", "ellipsoids", "all"], r, 0), r)
  }

  // ---- invariants -------------------------------------------------------------------
  // both feet lie on the steer axis, perpendicular below the hubs
  val feet = {
    val e = axis(par)
    val G = onGround(par)
    Set(hubs(par)._1, hubs(par)._2).forall(h => {
      val f = foot(par, h)
      near(mul(h._1 - f._1, e._1) + mul(h._2 - f._2, e._2), 0, 25)
        and near(mul(f._1 - G._1, e._2) - mul(f._2 - G._2, e._1), 0, 25)
    })
  }
  // the ellipsoid really has the inertia of its body
  val ellipsoid = or {
    kind == "bicycle",
    want.ells.keys().forall(b => {
      val P = want.ells.get(b)
      val y = bodyAt(kind, par, b)
      val K = planar(y)
      // out of plane semi axis
      val Y = (K.xx + K.zz - div(y.yy, y.m)) * 5 / 2
      near((P.zz + Y) / 5, K.xx, 25) and near((P.xx + Y) / 5, K.zz, 25) and near(-P.xz / 5, K.xz, 25)
        and near((P.xx + P.zz) / 5, div(y.yy, y.m), 25)
    })
  }
  val positive = want.ells.keys().forall(b => {
    val P = want.ells.get(b)
    P.xx > 0 and mul(P.xx, P.zz) > sq(P.xz)
  })
}
