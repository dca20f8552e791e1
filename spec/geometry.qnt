// Planar geometry of a bicycle: one bicycle and all its descriptions, derived
// from coordinates of points and the direction of the steer axis.
module geometry {
  import fx.* from "./fx"
  import rnd.* from "./rnd"

  type Pt = (Fx, Fx)
  type Bike = { rF: Fx, rR: Fx, w: Fx, c: Fx, lam: Fx }

  var bike: Bike
  var desc: str -> Fx        // offsets and other descriptions of the same bicycle
  var feet: List[Pt]         // hub, foot on the steer axis, foot, hub
  var tape: str -> Fx        // tape measurements h1..h5, d1..d4, d, h6, h7, d5, d6, l
  var bar: str -> Fx         // handlebar reference: l1, l2, u1, u2
  var point: { x: Fx, z: Fx, dist: Fx }
  var line: { m: Fx, b: Fx, x: Fx, z: Fx, px: Fx, pz: Fx }
  var space: { p: List[Fx], u: List[Fx], v: List[Fx], dist: Fx, angle: Fx, proj: List[Fx] }
  var links: { L1: Fx, L2: Fx, D: Fx, t1: Fx, t2: Fx }
  var unc: int

  pure def dot2(a: Pt, b: Pt): Fx = mul(a._1, b._1) + mul(a._2, b._2)
  pure def sub(a: Pt, b: Pt): Pt = (a._1 - b._1, a._2 - b._2)
  pure def at(a: Pt, s: Fx, d: Pt): Pt = (a._1 + mul(s, d._1), a._2 + mul(s, d._2))
  pure def len2(a: Pt): Fx = sqrt(dot2(a, a))
  // foot of a point on the line through o with unit direction d
  pure def footOn(p: Pt, o: Pt, d: Pt): Pt = at(o, dot2(sub(p, o), d), d)
  pure def dot3(a: List[Fx], b: List[Fx]): Fx = mul(a[0], b[0]) + mul(a[1], b[1]) + mul(a[2], b[2])
  pure def lin3(a: List[Fx], s: Fx, b: List[Fx]): List[Fx] =
    [a[0] + mul(s, b[0]), a[1] + mul(s, b[1]), a[2] + mul(s, b[2])]
  pure def vec3(r: int, k: int): List[Fx] = [rngz(r, k, i(-2), i(2), 0, 80),
    rngz(r, k + 1, i(-2), i(2), 0, 80), rngz(r, k + 2, i(-2), i(2), 0, 80)]

  action init = {
    nondet r = oneOf(0.to(RMAX))
    val rF = rng(r, 0, q(1, 10), q(5, 10))
    val rR = rngz(r, 1, q(1, 10), q(5, 10), rF, 250)
    val lam = rngz(r, 2, q(-2, 10), q(10, 10), 0, 80)
    val w = rng(r, 3, q(7, 10), q(18, 10))
    // zero fork offset, zero trail or free
    val kind = pick(r, 4, 6)
    val c = if (kind == 0) 0 else if (kind == 1) mul(rF, div(sin(lam), cos(lam)))
      else rng(r, 5, q(-1, 10), q(3, 10))
    // steer axis: through (w + c, 0), downward direction
    val e3 = (sin(lam), cos(lam)) val e1 = (cos(lam), -sin(lam))
    val o = (w + c, 0)
    val hubR = (0, -rR) val hubF = (w, -rF)
    val fR = footOn(hubR, o, e3) val fF = footOn(hubF, o, e3)
    val ra = dot2(sub(fR, hubR), e1)       // rear frame offset
    val fo = dot2(sub(hubF, fF), e1)       // fork offset
    val rc = dot2(sub(fF, fR), e3)         // distance along the steer axis
    val d1 = rng(r, 10, q(1, 100), q(3, 100)) val d2 = rng(r, 11, q(1, 100), q(5, 100))
    val d3 = rng(r, 12, q(1, 100), q(5, 100)) val d4 = rng(r, 13, q(1, 100), q(3, 100))
    val h1 = rng(r, 14, q(1, 10), q(5, 10)) val h3 = rng(r, 15, q(1, 10), q(5, 10))
    val h5 = rng(r, 16, q(1, 10), q(5, 10))
    val d5 = rng(r, 17, q(8, 1000), q(2, 100)) val d6 = rng(r, 18, q(1, 100), q(4, 100))
    val h6 = rng(r, 19, q(1, 10), q(4, 10))
    val l1 = rngz(r, 20, q(-2, 10), q(2, 10), 0, 100)
    val l2 = rng(r, 21, q(2, 10), q(9, 10))
    val ref = at(at(hubF, -l2, e3), l1, e1)
    val px = rng(r, 22, q(-1, 2), q(2, 1)) val pz = rng(r, 23, q(-12, 10), q(2, 10))
    val onAxis = pick(r, 24, 8) == 0
    val pt = if (onAxis) at(o, -pz, e3) else (px, pz)
    val m = rngz(r, 25, i(-5), i(5), 0, 80) val b = rngz(r, 26, i(-2), i(2), 0, 150)
    val lx = rng(r, 27, i(-2), i(2)) val lz = rng(r, 28, i(-2), i(2))
    val ln = sqrt(S + sq(m))
    val lp = footOn((lx, lz), (0, b), (div(S, ln), div(m, ln)))
    val p3 = vec3(r, 30)
    val u3 = { val u = vec3(r, 33) if (dot3(u, u) < q(1, 100)) [S, 0, 0] else u }
    val v3 = { val v = vec3(r, 36)
      if (pick(r, 39, 8) == 0) lin3([0, 0, 0], q(3, 2), u3)
      else if (pick(r, 39, 8) == 1) lin3([0, 0, 0], q(-7, 10), u3)
      else if (dot3(v, v) < q(1, 100)) [0, S, 0] else v }
    val uu = dot3(u3, u3) val vv = dot3(v3, v3)
    val rest = lin3(p3, -div(dot3(p3, u3), uu), u3)
    val L1 = rng(r, 40, q(2, 10), q(12, 10))
    val t1 = rng(r, 41, q(1, 10), q(29, 10))
    // the second link goes on from the elbow to a point on the axis
    val D = rng(r, 42, q(1, 10), q(15, 10))
    val ex = mul(L1, cos(t1)) val ez = mul(L1, sin(t1))
    val L2 = sqrt(sq(D - ex) + sq(ez))
    all {
      bike' = { rF: rF, rR: rR, w: w, c: c, lam: lam },
      desc' = Map("a" -> ra, "b" -> fo, "c" -> rc, "cm" -> mul(c, cos(lam))),
      feet' = [hubR, fR, fF, hubF],
      tape' = Map("h1" -> h1, "h3" -> h3, "h5" -> h5, "d1" -> d1, "d2" -> d2, "d3" -> d3, "d4" -> d4,
        "h2" -> ra - h1 + h3 - d1 / 2 + d2 / 2, "h4" -> fo + d3 / 2 + h5 - d4 / 2,
        "d" -> sqrt(sq(rc) + sq(ra - fo)) - (d2 + d3) / 2,
        "h6" -> h6, "h7" -> h6 + l1 - d5 / 2 + d6 / 2, "d5" -> d5, "d6" -> d6,
        "l" -> sqrt(sq(l1) + sq(l2)) + d5 / 2 + d6 / 2),
      bar' = Map("l1" -> l1, "l2" -> l2, "u1" -> w - ref._1, "u2" -> -rF - ref._2),
      point' = { x: pt._1, z: pt._2, dist: len2(sub(pt, footOn(pt, o, e3))) },
      line' = { m: m, b: b, x: lx, z: lz, px: lp._1, pz: lp._2 },
      space' = { p: p3, u: u3, v: v3, dist: sqrt(dot3(rest, rest)),
        angle: acos(mx(-S, mn(S, div(dot3(u3, v3), mul(sqrt(uu), sqrt(vv)))))), proj: rest },
      links' = { L1: L1, L2: L2, D: D, t1: t1, t2: t1 + atan2(ez, D - ex) },
      unc' = pick(r, 43, 3)
    }
  }
  action step = init

  // the offsets describe the wheelbase and the height difference of the hubs
  val wheelbase = near(bike.w, mul(desc.get("a") + desc.get("b"), cos(bike.lam))
    + mul(desc.get("c"), sin(bike.lam)), 30)
  val heights = near(bike.rF - bike.rR, mul(desc.get("a") + desc.get("b"), sin(bike.lam))
    - mul(desc.get("c"), cos(bike.lam)), 30)
  val forkOffset = near(desc.get("b"), mul(bike.rF, sin(bike.lam)) - desc.get("cm"), 30)
  // the projection on the line is the nearest of its points
  val nearest = {
    val q0 = (line.x - line.px, line.z - line.pz)
    near(q0._1 + mul(q0._2, line.m), 0, 30) and near(line.pz, mul(line.m, line.px) + line.b, 30)
  }
  val elbow = near(sq(links.L2), sq(links.L1) + sq(links.D)
    - 2 * mul3(links.L1, links.D, cos(links.t1)), 30) and links.t2 >= links.t1
  val normal = near(dot3(space.proj, space.u), 0, 30)
}
