// The steering assembly of a stored bicycle: which parts are separately
// known, and the inertia of every selection of parts in the steer axis frame.
module steer {
  import fx.* from "./fx"
  import rnd.* from "./rnd"
  import whipple.* from "./whipple"
  import bodies.* from "./bodies"

  type Sel = { handlebar: bool, fork: bool, wheel: bool }
  // tensor in the frame aligned with the steer axis: 1 forward, 3 downward
  type Tensor = { t11: Fx, t13: Fx, t22: Fx, t33: Fx }
  type Result = { sel: Sel, ok: bool, mass: Fx, centre: Tensor, axis: Tensor, dist: Fx }

  var par: Par
  var kind: str          // "whole", "split", "forkonly", "baronly", "nomass"
  var forkB: Body
  var barB: Body
  var res: List[Result]

  pure val FLAGS: List[Sel] = range(0, 8).foldl([], (l, n) =>
    l.append({ handlebar: n % 2 == 1, fork: (n / 2) % 2 == 1, wheel: n / 4 == 1 }))

  // parts a selection is made of
  pure def body(s: Sel, h: Body, b: Body, f: Body, wh: Body): Body =
    group([if (s.handlebar and s.fork) h else if (s.fork) f else if (s.handlebar) b else NOBODY,
           if (s.wheel) wh else NOBODY].select(p => p.m > 0))
  pure def available(s: Sel, k: str): bool =
    s.handlebar == s.fork or k == "split"
      or (s.fork and k == "forkonly") or (s.handlebar and k == "baronly")

  pure def tensor(b: Body, lam: Fx): Tensor = {
    pure val e1 = (cos(lam), -sin(lam))
    pure val e3 = (sin(lam), cos(lam))
    { t11: along(b, e1, e1), t13: along(b, e1, e3), t22: b.yy, t33: along(b, e3, e3) }
  }
  // foot of the mass centre on the steer axis through (w + c, 0)
  pure def foot(b: Body, p: Par): (Fx, Fx) = {
    pure val lam = p.get("lam")
    pure val x0 = p.get("w") + p.get("c")
    pure val s = mul(b.x - x0, sin(lam)) + mul(b.z, cos(lam))
    (x0 + mul(s, sin(lam)), mul(s, cos(lam)))
  }
  pure def result(s: Sel, k: str, p: Par, f: Body, b: Body): Result = {
    pure val h: Body = { m: p.get("mH"), x: p.get("xH"), y: 0, z: p.get("zH"),
      xx: p.get("IHxx"), yy: p.get("IHyy"), zz: p.get("IHzz"), xz: p.get("IHxz") }
    pure val wh: Body = { m: p.get("mF"), x: p.get("w"), y: 0, z: -p.get("rF"),
      xx: p.get("IFxx"), yy: p.get("IFyy"), zz: p.get("IFxx"), xz: 0 }
    pure val tot = body(s, h, b, f, wh)
    pure val ft = foot(tot, p)
    { sel: s, ok: available(s, k), mass: tot.m, centre: tensor(tot, p.get("lam")),
      axis: tensor(about(tot, ft._1, ft._2), p.get("lam")),
      dist: sqrt(sq(tot.x - ft._1) + sq(tot.z - ft._2)) }
  }

  action init = {
    nondet r = oneOf(0.to(RMAX))
    val p0 = genBench(r, 0)
    val k = elem(["whole", "split", "split", "forkonly", "baronly", "nomass"], r, 40)
    val f = genBody(r, 41, (q(1, 2), q(6, 1)), (q(3, 10), q(12, 10)), (q(-11, 10), q(-2, 10)),
                    (q(1, 50), q(1, 2)))
    val b = genBody(r, 50, (q(1, 2), q(6, 1)), (q(3, 10), q(11, 10)), (q(-12, 10), q(-6, 10)),
                    (q(1, 50), q(1, 2)))
    val h = combine(f, b)
    val p = if (k != "split") p0 else p0.put("mH", h.m).put("xH", h.x).put("zH", h.z)
      .put("IHxx", h.xx).put("IHyy", h.yy).put("IHzz", h.zz).put("IHxz", h.xz)
    all {
      par' = p, kind' = k, forkB' = f, barB' = b,
      res' = FLAGS.foldl([], (l, s) => l.append(result(s, k, p, f, b)))
    }
  }
  action step = init

  pure def chosen(l: List[Result], hb: bool, fk: bool, wl: bool): Result =
    l.select(x => x.sel == { handlebar: hb, fork: fk, wheel: wl })[0]
  // nothing selected, nothing there; the axis never lowers the moments
  val empty = chosen(res, false, false, false).axis == { t11: 0, t13: 0, t22: 0, t33: 0 }
  val more = 0.to(7).forall(n => {
    val x = res[n]
    x.axis.t33 >= x.centre.t33 - 1000 and near(x.axis.t11, x.centre.t11, 30)
      and near(x.axis.t13, x.centre.t13, 30)
      and near(x.axis.t33, x.centre.t33 + mul(x.mass, sq(x.dist)), 30)
  })
  // moments about the steer axis are additive over the parts
  val additive = near(chosen(res, true, true, true).axis.t33,
    chosen(res, true, true, false).axis.t33 + chosen(res, false, false, true).axis.t33, 28)
  val splitSum = kind == "split" implies near(chosen(res, true, true, false).axis.t33,
    chosen(res, true, false, false).axis.t33 + chosen(res, false, true, false).axis.t33, 28)
}
