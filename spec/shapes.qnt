// Shapes of a bicycle's drawing, in (x, z) coordinates of the bicycle.
module shapes {
  import fx.* from "./fx"
  import rnd.* from "./rnd"
  import whipple.* from "./whipple"
  import bodies.* from "./bodies"
  import setpars.* from "./setpars"

  type Pt = (Fx, Fx)
  type Sym = { xx: Fx, xz: Fx, zz: Fx }       // symmetric planar matrix
  type Gyr = { at: Pt, kyy: Fx, rays: Sym, round: bool }
  type Shapes = {
    wheels: List[{ at: Pt, rad: Fx }],        // rear, front
    paths: List[List[Pt]],                    // polylines
    ground: bool,
    dots: str -> Pt,                          // mass centres
    gyr: str -> Gyr,                          // radii of gyration
    ells: str -> Sym,                         // ellipse: x' P^-1 x = 1
    mids: str -> Pt                           // centres of the ellipses
  }
  pure val NONE: Shapes = { wheels: [], paths: [], ground: false, dots: Map(), gyr: Map(), ells: Map(), mids: Map() }

  // ---- frame geometry ---------------------------------------------------------
  pure def hubs(p: Par): (Pt, Pt) = ((0, -p.get("rR")), (p.get("w"), -p.get("rF")))
  pure def onGround(p: Par): Pt = (p.get("w") + p.get("c"), 0)
  // direction of the steer axis (downwards) and foot of the perpendicular
  pure def axis(p: Par): Pt = (sin(p.get("lam")), cos(p.get("lam")))
  pure def foot(p: Par, h: Pt): Pt = {
    pure val e = axis(p)
    pure val G = onGround(p)
    pure val s = mul(h._1 - G._1, e._1) + mul(h._2 - G._2, e._2)
    (G._1 + mul(s, e._1), G._2 + mul(s, e._2))
  }
  pure def frame(p: Par): List[Pt] = {
    pure val h = hubs(p)
    [h._1, foot(p, h._1), foot(p, h._2), h._2]
  }
  pure def steer(p: Par): List[Pt] = [foot(p, hubs(p)._2), onGround(p)]
  pure def wheelsOf(p: Par): List[{ at: Pt, rad: Fx }] =
    [{ at: hubs(p)._1, rad: p.get("rR") }, { at: hubs(p)._2, rad: p.get("rF") }]

  // ---- inertia ------------------------------------------------------------------
  pure def planar(b: Body): Sym = { xx: div(b.xx, b.m), xz: div(b.xz, b.m), zz: div(b.zz, b.m) }
  // lines of half length k_b along a and k_a along b: sum of squares h h d d'
  pure def swap(K: Sym): Sym = { xx: K.zz, xz: -K.xz, zz: K.xx }
  pure def sameRadii(K: Sym): bool = ab(K.xx - K.zz) < q(1, 10^9) and ab(K.xz) < q(1, 10^9)
  // squared semi axes of the solid uniform ellipsoid with these radii
  pure def solid(b: Body): Sym = {
    pure val K = planar(b)
    pure val Y = div(b.yy, b.m)
    { xx: (Y + K.zz - K.xx) * 5 / 2, zz: (Y + K.xx - K.zz) * 5 / 2, xz: -K.xz * 5 }
  }
  // the greatest planar moment
  pure def top(b: Body): Fx = (b.xx + b.zz + sqrt(sq(b.xx - b.zz) + 4 * sq(b.xz))) / 2
  // ellipse of a measured bicycle: long axis along the least moment, aspect
  // the root of the ratio of the moments, size the greatest moment (any unit)
  pure def sketch(b: Body): Sym =
    { xx: mul(top(b), b.zz), zz: mul(top(b), b.xx), xz: -mul(top(b), b.xz) }

  pure def bodyAt(knd: str, p: Par, b: str): Body = bodyOf(if (knd == "bicycle") M07 else knd, p, b)
  pure def bodiesOf(knd: str): List[str] = labels(if (knd == "bicycle") M07 else knd)
  pure def mapOf(l: List[str], f: (str) => a): str -> a =
    l.foldl(Map(), (m, b) => m.put(b, f(b)))
  pure def centreOf(knd: str, p: Par, b: str): Pt = (bodyAt(knd, p, b).x, bodyAt(knd, p, b).z)

  pure def drawGeometry(p: Par, axisToo: bool): Shapes = { ...NONE,
    wheels: wheelsOf(p), ground: true,
    paths: if (axisToo) [frame(p), steer(p)] else [frame(p)] }
  pure def drawDots(knd: str, p: Par, g: List[str]): Shapes =
    { ...NONE, dots: mapOf(g, b => centreOf(knd, p, b)) }
  pure def drawRadii(knd: str, p: Par, g: List[str]): Shapes = { ...NONE,
    gyr: mapOf(g, b => {
      pure val y = bodyAt(knd, p, b)
      { at: centreOf(knd, p, b), kyy: sqrt(div(y.yy, y.m)), rays: swap(planar(y)), round: sameRadii(planar(y)) }
    }) }
  pure def drawSolids(knd: str, p: Par, g: List[str]): Shapes = { ...NONE,
    ells: mapOf(g, b => solid(bodyAt(knd, p, b))), mids: mapOf(g, b => centreOf(knd, p, b)) }
  // the rider's diamond: width along the aa axis, length perpendicular to it
  pure def drawDiamond(p: Par, lines: bool): Shapes = {
    pure val u = (mul(cos(p.get("alphaP")), p.get("wP")) / 2, -mul(sin(p.get("alphaP")), p.get("wP")) / 2)
    pure val n = (mul(sin(p.get("alphaP")), p.get("lP")) / 2, mul(cos(p.get("alphaP")), p.get("lP")) / 2)
    pure def pt(a: int, b: int): Pt =
      (p.get("xP") + a * u._1 + b * n._1, p.get("zP") + a * u._2 + b * n._2)
    pure val ring = [pt(1, 0), pt(0, -1), pt(-1, 0), pt(0, 1), pt(1, 0)]
    { ...NONE, paths: if (lines) [ring, [pt(-1, 0), pt(1, 0)], [pt(0, -1), pt(0, 1)]] else [ring] }
  }
  pure def plus(a: Shapes, b: Shapes): Shapes = {
    wheels: a.wheels.concat(b.wheels), paths: a.paths.concat(b.paths), ground: a.ground or b.ground,
    dots: b.dots.keys().fold(a.dots, (m, k) => m.put(k, b.dots.get(k))),
    gyr: b.gyr.keys().fold(a.gyr, (m, k) => m.put(k, b.gyr.get(k))),
    ells: b.ells.keys().fold(a.ells, (m, k) => m.put(k, b.ells.get(k))),
    mids: b.mids.keys().fold(a.mids, (m, k) => m.put(k, b.mids.get(k)))
  }
  // figures of a measured bicycle
  pure def drawBicycle(knd: str, p: Par, com: bool, ell: bool): Shapes = {
    // handlebar, fork and flywheel appear where they were measured separately;
    // the flywheel's mass centre is the front wheel's and is not marked
    pure val every = bodiesOf(knd).concat(["G", "S", "D"].select(b =>
      p.keys().contains(if (b == "G") "mG" else if (b == "S") "mS" else "mD")))
    plus(plus(drawGeometry(p, true), if (com) drawDots(knd, p, every.select(b => b != "D" or knd != "bicycle")) else NONE),
      if (ell) { ...NONE, ells: mapOf(every, b => sketch(bodyAt(knd, p, b))),
                 mids: mapOf(every, b => centreOf(knd, p, b)) } else NONE)
  }
}
