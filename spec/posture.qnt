// A rider on a bicycle: where knees, feet, elbows and hands are, from the
// measured lengths of the bicycle and of the body.  Points are given in the
// benchmark frame (x forward, y to the right, z down).
module posture {
  import fx.* from "./fx"
  import rnd.* from "./rnd"

  type Pt = { x: Fx, y: Fx, z: Fx }
  type Dim = str -> Fx

  // reference lengths of a body and of a bicycle; s scales all of them
  pure def draw(r: int, k: int, s: Fx): Dim = Map(
    "Lj3L" -> mul(s, rng(r, k, q(435, 1000), q(463, 1000))),
    "Lj5L" -> mul(s, rng(r, k + 1, q(855, 1000), q(895, 1000))),
    "Lj6L" -> mul(s, rng(r, k + 2, q(42, 1000), q(58, 1000))),
    "Ls4L" -> mul(s, rng(r, k + 3, q(478, 1000), q(505, 1000))),
    "Ls4w" -> mul(s, rng(r, k + 4, q(325, 1000), q(365, 1000))),
    "La2L" -> mul(s, rng(r, k + 5, q(285, 1000), q(312, 1000))),
    "La4L" -> mul(s, rng(r, k + 6, q(550, 1000), q(580, 1000))),
    "La5L" -> mul(s, rng(r, k + 7, q(44, 1000), q(56, 1000))),
    "hunch" -> rng(r, k + 8, q(12, 100), q(55, 100)),
    "hbb" -> mul(s, rng(r, k + 9, q(27, 100), q(31, 100))),
    "lcs" -> mul(s, rng(r, k + 10, q(42, 100), q(48, 100))),
    "lst" -> mul(s, rng(r, k + 11, q(48, 100), q(55, 100))),
    "lsp" -> mul(s, rng(r, k + 12, q(15, 100), q(25, 100))),
    "lamst" -> rng(r, k + 13, q(119, 100), q(131, 100)),
    "whb" -> mul(s, rng(r, k + 14, q(44, 100), q(60, 100))),
    "w" -> mul(s, rng(r, k + 15, q(100, 100), q(114, 100))),
    "rR" -> mul(s, rng(r, k + 16, q(30, 100), q(36, 100))),
    "rF" -> mul(s, rng(r, k + 17, q(30, 100), q(36, 100))),
    "LhbR" -> mul(s, rng(r, k + 18, q(92, 100), q(112, 100))),
    "LhbF" -> mul(s, rng(r, k + 19, q(65, 100), q(95, 100))))

  // two circles in the plane: centre and radius of each; the intersection to
  // the left (side = 1) or right (-1) of the way from the first to the second
  pure def meet(ax: Fx, az: Fx, ra: Fx, bx: Fx, bz: Fx, rb: Fx, side: int): { x: Fx, z: Fx, h2: Fx } = {
    pure val d = sqrt(sq(bx - ax) + sq(bz - az))
    pure val c = div(sq(ra) - sq(rb) + sq(d), 2 * d)
    pure val h2 = sq(ra) - sq(c)
    pure val h = side * sqrt(mx(h2, 0))
    pure val ux = div(bx - ax, d)
    pure val uz = div(bz - az, d)
    { x: ax + mul(c, ux) + mul(h, uz), z: az + mul(c, uz) - mul(h, ux), h2: h2 }
  }

  pure def bb(d: Dim): Pt =
    { x: sqrt(sq(d.get("lcs")) - sq(d.get("rR") - d.get("hbb"))), y: 0, z: -d.get("hbb") }
  pure def saddle(d: Dim): Pt = {
    pure val l = d.get("lsp") + d.get("lst")
    { x: bb(d).x - mul(l, cos(d.get("lamst"))), y: 0, z: bb(d).z - mul(l, sin(d.get("lamst"))) }
  }
  // knees bend forward: the circle around the hip first, the pedal below it
  pure def knee(d: Dim): { x: Fx, z: Fx, h2: Fx } =
    meet(saddle(d).x, saddle(d).z, d.get("Lj3L"), bb(d).x, bb(d).z,
      d.get("Lj5L") + d.get("Lj6L") - d.get("Lj3L"), 1)
  // the grips are measured from the wheel centres, half a handlebar aside
  pure def reach(d: Dim, l: str): Fx = sqrt(sq(d.get(l)) - sq(d.get("whb") / 2))
  pure def grip(d: Dim): { x: Fx, z: Fx, h2: Fx } =
    meet(0, -d.get("rR"), reach(d, "LhbR"), d.get("w"), -d.get("rF"), reach(d, "LhbF"), 1)
  pure def shoulder(d: Dim): Pt =
    { x: saddle(d).x + mul(d.get("Ls4L"), sin(d.get("hunch"))), y: d.get("Ls4w") / 2,
      z: saddle(d).z - mul(d.get("Ls4L"), cos(d.get("hunch"))) }
  // elbows hang: in the vertical plane through shoulder and hand, below
  pure def arm(d: Dim): { elbow: Pt, hand: Pt, h2: Fx, hor: Fx } = {
    pure val s = shoulder(d)
    pure val g = grip(d)
    pure val dx = g.x - s.x
    pure val dy = d.get("whb") / 2 - s.y
    pure val hor = sqrt(sq(dx) + sq(dy))
    pure val e = meet(0, s.z, d.get("La2L"), hor, g.z, d.get("La4L") + d.get("La5L") - d.get("La2L"), -1)
    { elbow: { x: s.x + mul(div(e.x, hor), dx), y: s.y + mul(div(e.x, hor), dy), z: e.z },
      hand: { x: g.x, y: d.get("whb") / 2, z: g.z }, h2: e.h2, hor: hor }
  }

  // the pose: what a bicycle and rider must be like for a comfortable seat
  pure def fits(d: Dim): bool = and {
    knee(d).h2 > sq(mul(d.get("Lj3L"), q(3, 10))),
    knee(d).h2 < sq(mul(d.get("Lj3L"), q(8, 10))),
    grip(d).h2 > sq(q(15, 100)),
    grip(d).z < -d.get("rF") - d.get("rF") / 2,
    arm(d).h2 > sq(mul(d.get("La2L"), q(25, 100))),
    arm(d).h2 < sq(mul(d.get("La2L"), q(75, 100))),
    shoulder(d).z < grip(d).z,
    grip(d).x > shoulder(d).x
  }
  pure def pose(d: Dim): str -> Pt = {
    pure val a = arm(d)
    pure val k = knee(d)
    Map("hip" -> saddle(d), "knee" -> { x: k.x, y: 0, z: k.z }, "foot" -> bb(d),
      "shoulder" -> shoulder(d), "elbow" -> a.elbow, "hand" -> a.hand)
  }
  // the first of several drawings that fits
  pure def choose(r: int, s: Fx): Dim =
    range(0, 12).foldl((false, Map("w" -> 0)), (acc, j) =>
      if (acc._1) acc else {
        pure val d = draw(r, 2 + 20 * j, s)
        (fits(d), d)
      })._2

  var dim: Dim
  var pts: str -> Pt
  var act: str

  action init = {
    nondet r = oneOf(0.to(RMAX))
    val s = elem(List(S, S, S, q(3, 5), q(4, 5), q(108, 100)), r, 0)
    val d = choose(r, s)
    all { fits(d), dim' = d, pts' = pose(d), act' = "new" }
  }
  // one thing is adjusted and the rider sits again
  action step = {
    nondet r = oneOf(0.to(RMAX))
    nondet what = Set("lsp", "LhbR", "LhbF", "whb", "hunch", "Lj5L", "La4L", "Ls4w", "w", "rF", "hbb").oneOf()
    val d = dim.put(what, mul(dim.get(what), rng(r, 0, q(95, 100), q(105, 100))))
    val e = if (fits(d)) d else dim
    all { dim' = e, pts' = pose(e), act' = what }
  }

  pure def dist(a: Pt, b: Pt): Fx = sqrt(sq(a.x - b.x) + sq(a.y - b.y) + sq(a.z - b.z))
  val limbs = and {
    near(dist(pts.get("hip"), pts.get("knee")), dim.get("Lj3L"), 20),
    near(dist(pts.get("knee"), pts.get("foot")), dim.get("Lj5L") + dim.get("Lj6L") - dim.get("Lj3L"), 20),
    near(dist(pts.get("shoulder"), pts.get("elbow")), dim.get("La2L"), 20),
    near(dist(pts.get("elbow"), pts.get("hand")), dim.get("La4L") + dim.get("La5L") - dim.get("La2L"), 20)
  }
  val onBike = and {
    near(dist(pts.get("hip"), pts.get("foot")), dim.get("lsp") + dim.get("lst"), 20),
    near(dist(pts.get("foot"), { x: 0, y: 0, z: -dim.get("rR") }), dim.get("lcs"), 20),
    near(dist(pts.get("hand"), { x: 0, y: 0, z: -dim.get("rR") }), dim.get("LhbR"), 20),
    near(dist(pts.get("hand"), { x: dim.get("w"), y: 0, z: -dim.get("rF") }), dim.get("LhbF"), 20)
  }
  val natural = and {
    pts.get("knee").x > pts.get("hip").x,
    pts.get("elbow").z > pts.get("shoulder").z,
    pts.get("hand").x > pts.get("shoulder").x
  }
  val poseOk = limbs and onBike and natural
}
