// Rigid bodies made of point masses.  Every tensor is computed from the points
// themselves; rotating, moving, splitting and swinging the body acts on the
// points, so the transformation formulas of the code are checked against
// first principles.
module inertia {
  import fx.* from "./fx"
  import rnd.* from "./rnd"

  type Pt = { m: Fx, x: Fx, y: Fx, z: Fx }
  type Tensor = { xx: Fx, yy: Fx, zz: Fx, xy: Fx, xz: Fx, yz: Fx }
  type Sum = { m: Fx, x: Fx, y: Fx, z: Fx }
  // numbers observed for one operation
  type Act = { op: str, arg: List[Fx], out: List[Fx], beta: List[Fx], part: List[Pt] }

  var body: List[Pt]
  var eye: Tensor           // about the mass centre
  var com: Sum
  var act: Act
  var inv: List[Fx]         // trace, sum of principal minors, determinant
  var angle: Fx             // total rotation since the start
  var first: Tensor
  var unc: int              // which numbers carry uncertainties

  pure def total(l: List[Pt]): Sum = {
    pure val m = l.foldl(0, (s, p) => s + p.m)
    { m: m, x: div(l.foldl(0, (s, p) => s + mul(p.m, p.x)), m),
      y: div(l.foldl(0, (s, p) => s + mul(p.m, p.y)), m),
      z: div(l.foldl(0, (s, p) => s + mul(p.m, p.z)), m) }
  }
  pure def tensorAt(l: List[Pt], x: Fx, y: Fx, z: Fx): Tensor =
    l.foldl({ xx: 0, yy: 0, zz: 0, xy: 0, xz: 0, yz: 0 }, (t, p) => {
      val a = p.x - x
      val b = p.y - y
      val c = p.z - z
      { xx: t.xx + mul(p.m, sq(b) + sq(c)), yy: t.yy + mul(p.m, sq(a) + sq(c)),
        zz: t.zz + mul(p.m, sq(a) + sq(b)), xy: t.xy - mul3(p.m, a, b),
        xz: t.xz - mul3(p.m, a, c), yz: t.yz - mul3(p.m, b, c) }
    })
  pure def central(l: List[Pt]): Tensor = {
    pure val c = total(l)
    tensorAt(l, c.x, c.y, c.z)
  }
  pure def flat(t: Tensor): List[Fx] = [t.xx, t.yy, t.zz, t.xy, t.xz, t.yz]
  pure def invariants(t: Tensor): List[Fx] = [
    t.xx + t.yy + t.zz,
    mul(t.xx, t.yy) + mul(t.yy, t.zz) + mul(t.xx, t.zz) - sq(t.xy) - sq(t.xz) - sq(t.yz),
    mul3(t.xx, t.yy, t.zz) + 2 * mul3(t.xy, t.yz, t.xz) - mul(t.xx, sq(t.yz))
      - mul(t.yy, sq(t.xz)) - mul(t.zz, sq(t.xy)) ]
  // components of a point along axes turned by a about y
  pure def turn(p: Pt, a: Fx): Pt = {
    pure val ca = cos(a)
    pure val sa = sin(a)
    { ...p, x: mul(ca, p.x) - mul(sa, p.z), z: mul(sa, p.x) + mul(ca, p.z) }
  }
  pure def turnAll(l: List[Pt], a: Fx): List[Pt] = l.foldl([], (o, p) => o.append(turn(p, a)))
  // moment about the axis through the mass centre along u, from distances
  pure def about(l: List[Pt], ux: Fx, uy: Fx, uz: Fx): Fx = {
    pure val c = total(l)
    l.foldl(0, (s, p) => {
      val a = p.x - c.x
      val b = p.y - c.y
      val d = p.z - c.z
      s + mul(p.m, sq(mul(b, uz) - mul(d, uy)) + sq(mul(d, ux) - mul(a, uz))
                   + sq(mul(a, uy) - mul(b, ux)))
    })
  }

  // pairs of equal points on both sides make the xz plane a symmetry plane
  pure def mirror(l: List[Pt]): List[Pt] =
    l.foldl([], (o, p) => o.append(p).append({ ...p, y: -p.y }))
  pure def genBody(r: int, k: int, shape: str): List[Pt] = {
    pure val off = { x: rng(r, k, q(-2, 1), q(2, 1)), y: rng(r, k + 1, q(-1, 1), q(1, 1)),
                     z: rng(r, k + 2, q(-2, 1), q(1, 1)) }
    pure val n = 2 + pick(r, k + 3, 4)
    if (shape == "ring" or shape == "ball") {
      // two or three equal principal values
      pure val m = rng(r, k + 4, q(1, 10), q(20, 1))
      pure val d = rng(r, k + 5, q(1, 10), q(1, 1))
      pure val h = if (shape == "ball") d else rngz(r, k + 6, q(1, 10), q(3, 2), 0, 200)
      pure val al = rng(r, k + 7, q(-3, 1), q(3, 1))
      // the axis of symmetry leaves the xz plane's normal in half of the cases
      pure val be = rngz(r, k + 8, q(-3, 1), q(3, 1), 0, 500)
      [(d, 0, 0), (-d, 0, 0), (0, 0, d), (0, 0, -d), (0, h, 0), (0, -h, 0)].foldl([], (o, t) => {
        val p = turn({ m: m, x: t._1, y: mul(cos(be), t._2) - mul(sin(be), t._3),
                       z: mul(sin(be), t._2) + mul(cos(be), t._3) }, al)
        o.append({ m: m, x: p.x + off.x, y: p.y, z: p.z + off.z })
      })
    } else if (shape == "planar") {
      mirror(range(0, n).foldl([], (o, j) => o.append({
        m: rng(r, k + 8 + 4 * j, q(1, 100), q(40, 1)),
        x: off.x + rng(r, k + 9 + 4 * j, q(-1, 1), q(1, 1)), y: rng(r, k + 10 + 4 * j, q(1, 20), q(1, 2)),
        z: off.z + rng(r, k + 11 + 4 * j, q(-1, 1), q(1, 1)) })))
    } else {
      range(0, n + 2).foldl([], (o, j) => o.append({
        m: rng(r, k + 8 + 4 * j, q(1, 100), q(40, 1)),
        x: off.x + rng(r, k + 9 + 4 * j, q(-1, 1), q(1, 1)),
        y: off.y + rng(r, k + 10 + 4 * j, q(-1, 1), q(1, 1)),
        z: off.z + rng(r, k + 11 + 4 * j, q(-1, 1), q(1, 1)) }))
    }
  }

  // axes between 3 and 10, at least a tenth of the even spacing apart
  pure def axes(r: int, k: int): List[Fx] = {
    pure val n = 3 + pick(r, k, 8)
    pure val wide = elem([1, 1, 2], r, k + 1)
    pure val start = rng(r, k + 2, -PI, PI)
    range(0, n).foldl([], (o, j) =>
      o.append(start + (PI / n / wide) * j + mul(rng(r, k + 3 + j, 0, q(9, 10)), PI / n / wide)
        + (if (dig(r, k + 20 + j) < 150) PI else 0)))
  }
  pure def operation(r: int, b: List[Pt]): Act = {
    pure val e = central(b)
    pure val c = total(b)
    pure val op = elem(["rotate", "rotate", "undo", "move", "swing", "twist", "axes", "axes",
                        "split", "tube", "principal"], r, 0)
    pure val none: Act = { op: op, arg: [], out: [], beta: [], part: [] }
    if (op == "rotate") {
      val a = rngz(r, 1, -2 * PI, 2 * PI, PI / 2, 60)
      { ...none, arg: [a], out: flat(central(turnAll(b, a))) }
    } else if (op == "move") {
      val d = [rng(r, 1, q(-2, 1), q(2, 1)), rngz(r, 2, q(-1, 1), q(1, 1), 0, 200), rng(r, 3, q(-2, 1), q(2, 1))]
      { ...none, arg: d, out: flat(tensorAt(b, c.x + d[0], c.y + d[1], c.z + d[2])) }
    } else if (op == "swing") {
      // hung on a horizontal axis along y through a point of the body
      val px = c.x + rng(r, 1, q(1, 10), q(1, 1))
      val pz = c.z + rng(r, 2, q(-1, 1), q(1, 1))
      val l = sqrt(sq(px - c.x) + sq(pz - c.z))
      val g = rng(r, 3, q(1, 1), q(20, 1))
      val j = b.foldl(0, (s, p) => s + mul(p.m, sq(p.x - px) + sq(p.z - pz)))
      { ...none, arg: [c.m, g, l, 2 * mul(PI, sqrt(div(j, mul3(c.m, g, l))))], out: [e.yy] }
    } else if (op == "twist") {
      val a = rng(r, 1, -PI, PI)
      val j = about(b, cos(a), 0, -sin(a))
      val k = rng(r, 2, q(1, 100), q(20, 1))
      { ...none, arg: [k, 2 * mul(PI, sqrt(div(j, k)))], out: [j] }
    } else if (op == "axes") {
      val be = axes(r, 1)
      { ...none, beta: be, arg: be.foldl([], (o, a) => o.append(about(b, cos(a), 0, -sin(a)))),
        out: [e.xx, e.xz, e.zz] }
    } else if (op == "split") {
      val n = 1 + pick(r, 1, b.length() - 1)
      val p1 = b.slice(0, n)
      val p2 = b.slice(n, b.length())
      val c1 = total(p1)
      val c2 = total(p2)
      { ...none, arg: flat(central(p1)).concat(flat(central(p2))), out: flat(e),
        part: [{ m: c1.m, x: c1.x, y: c1.y, z: c1.z }, { m: c2.m, x: c2.x, y: c2.y, z: c2.z }] }
    } else if (op == "tube") {
      // a thick tube is a solid cylinder without its core
      val l = rngz(r, 1, q(1, 20), q(3, 1), 0, 50)
      val m = rng(r, 2, q(1, 10), q(30, 1))
      val ro = rng(r, 3, q(1, 100), q(1, 1))
      val ri = mul(ro, rngz(r, 4, q(1, 100), q(99, 100), 0, 150))
      val mo = div(mul(m, sq(ro)), sq(ro) - sq(ri))
      val mi = mo - m
      { ...none, arg: [l, m, ro, ri],
        out: [mul(mo, sq(ro)) / 2 - mul(mi, sq(ri)) / 2,
              mul(mo, 3 * sq(ro) + sq(l)) / 12 - mul(mi, 3 * sq(ri) + sq(l)) / 12] }
    } else none      // undo, principal
  }
  pure def turned(a: Act, total: Fx): Fx =
    if (a.op == "rotate") a.arg[0] else if (a.op == "undo") -total else 0

  action init = {
    nondet r = oneOf(0.to(RMAX))
    val b = genBody(r, 0, elem(["planar", "planar", "free", "free", "ring", "ball"], r, 60))
    val e = central(b)
    all {
      body' = b, eye' = e, com' = total(b), inv' = invariants(e), angle' = 0, first' = e,
      unc' = pick(r, 61, 4),
      act' = { op: "principal", arg: [], out: [], beta: [], part: [] }
    }
  }
  action step = {
    nondet r = oneOf(0.to(RMAX))
    val a = operation(r, body)
    val t = turned(a, angle)
    val b = if (t == 0) body else turnAll(body, t)
    all {
      act' = a, body' = b, eye' = central(b), com' = total(b), inv' = invariants(central(b)),
      angle' = angle + t, first' = first, unc' = unc
    }
  }

  // rotating changes neither the invariants nor the middle moment
  val rigid = invariants(first).indices().forall(j =>
    near(invariants(first)[j], inv[j], 25)) and near(first.yy, eye.yy, 30)
  // turning back gives the first tensor again
  val undone = angle == 0 implies range(0, 6).foldl(true, (k, j) =>
    k and near(flat(first)[j], flat(eye)[j], 25))
  // sums of two moments exceed the third
  val triangle = eye.xx + eye.yy >= eye.zz - 1000 and eye.yy + eye.zz >= eye.xx - 1000
    and eye.zz + eye.xx >= eye.yy - 1000
  // moving away from the mass centre adds inertia about every axis
  val steiner = act.op == "move" implies
    (act.out[0] >= eye.xx - 1000 and act.out[1] >= eye.yy - 1000 and act.out[2] >= eye.zz - 1000)
}
