// Rigid bodies with a symmetry plane: mass, mass centre and central inertia.
// Groups of bodies are formed through second moments about the origin.
module bodies {
  import fx.* from "./fx"
  import rnd.* from "./rnd"

  type Body = { m: Fx, x: Fx, y: Fx, z: Fx, xx: Fx, yy: Fx, zz: Fx, xz: Fx }

  pure val NOBODY: Body = { m: 0, x: 0, y: 0, z: 0, xx: 0, yy: 0, zz: 0, xz: 0 }

  // second moments about the origin
  pure def atOrigin(b: Body): Body = { ...b,
    xx: b.xx + mul(b.m, sq(b.y) + sq(b.z)),
    yy: b.yy + mul(b.m, sq(b.x) + sq(b.z)),
    zz: b.zz + mul(b.m, sq(b.x) + sq(b.y)),
    xz: b.xz - mul3(b.m, b.x, b.z) }
  pure def atCentre(b: Body): Body = { ...b,
    xx: b.xx - mul(b.m, sq(b.y) + sq(b.z)),
    yy: b.yy - mul(b.m, sq(b.x) + sq(b.z)),
    zz: b.zz - mul(b.m, sq(b.x) + sq(b.y)),
    xz: b.xz + mul3(b.m, b.x, b.z) }
  pure def combine(a: Body, b: Body): Body = {
    pure val A = atOrigin(a)
    pure val B = atOrigin(b)
    pure val m = a.m + b.m
    atCentre({ m: m,
      x: div(mul(a.m, a.x) + mul(b.m, b.x), m),
      y: div(mul(a.m, a.y) + mul(b.m, b.y), m),
      z: div(mul(a.m, a.z) + mul(b.m, b.z), m),
      xx: A.xx + B.xx, yy: A.yy + B.yy, zz: A.zz + B.zz, xz: A.xz + B.xz })
  }

  // several bodies at once
  pure def group(l: List[Body]): Body =
    l.foldl(NOBODY, (g, b) => if (g.m == 0) b else combine(g, b))

  // inertia with respect to another point of the plane
  pure def about(b: Body, x: Fx, z: Fx): Body = {
    pure val dx = x - b.x
    pure val dz = z - b.z
    { ...b, xx: b.xx + mul(b.m, sq(dz)), yy: b.yy + mul(b.m, sq(dx) + sq(dz)),
      zz: b.zz + mul(b.m, sq(dx)), xz: b.xz - mul3(b.m, dx, dz) }
  }
  // u . I v for two in-plane directions (x, z)
  pure def along(b: Body, u: (Fx, Fx), v: (Fx, Fx)): Fx =
    mul3(u._1, v._1, b.xx) + mul(mul(u._1, v._2) + mul(u._2, v._1), b.xz)
      + mul3(u._2, v._2, b.zz)

  // random planar body: digits k .. k+6
  pure def genBody(r: int, k: int, ms: (Fx, Fx), xs: (Fx, Fx), zs: (Fx, Fx), js: (Fx, Fx)): Body = {
    pure val px = rng(r, k, js._1, js._2)
    pure val pz = rng(r, k + 1, js._1, js._2)
    pure val al = rngz(r, k + 2, q(-3, 2), q(3, 2), 0, 100)
    pure val ca = cos(al) pure val sa = sin(al)
    { m: rng(r, k + 3, ms._1, ms._2), x: rngz(r, k + 4, xs._1, xs._2, 0, 30), y: 0,
      z: rng(r, k + 5, zs._1, zs._2),
      xx: mul(px, sq(ca)) + mul(pz, sq(sa)), zz: mul(px, sq(sa)) + mul(pz, sq(ca)),
      xz: mul(pz - px, mul(sa, ca)), yy: rng(r, k + 6, js._1, js._2) }
  }
}
