// Seating riders on one bicycle: a bicycle object, stored rider files and a
// history of attempts.  The combined rear body follows from moments about the
// origin of the benchmark frame, not from distances to the common centre.
module rider {
  import fx.* from "./fx"
  import rnd.* from "./rnd"
  import whipple.* from "./whipple"
  import bodies.* from "./bodies"

  pure def rear(p: Par): Body = { m: p.get("mB"), x: p.get("xB"), y: 0, z: p.get("zB"),
    xx: p.get("IBxx"), yy: p.get("IByy"), zz: p.get("IBzz"), xz: p.get("IBxz") }

  // what is stored for the riders of this bicycle
  pure val RIDERS: List[str] = ["Anna", "Bob", "Carla", "Dan"]
  // "file": usable parameter file, "broken": the file lacks entries,
  // "none": no file, "nodir": the rider does not exist
  pure def genRider(r: int, k: int, wide: bool): Body = {
    pure val px = rng(r, k, q(1, 2), q(12, 1))
    pure val pz = rng(r, k + 1, q(1, 2), q(12, 1))
    pure val al = rngz(r, k + 2, q(-3, 2), q(3, 2), 0, 100)
    pure val ca = cos(al) pure val sa = sin(al)
    { m: rng(r, k + 3, q(10, 1), q(140, 1)), x: rngz(r, k + 4, q(-1, 2), q(1, 1), 0, 60),
      y: if (wide) rng(r, k + 5, q(-1, 4), q(1, 4)) else 0,
      z: rng(r, k + 6, q(-16, 10), q(-1, 2)),
      xx: mul(px, sq(ca)) + mul(pz, sq(sa)), zz: mul(px, sq(sa)) + mul(pz, sq(ca)),
      xz: mul(pz - px, mul(sa, ca)), yy: rng(r, k + 7, q(1, 2), q(12, 1)) }
  }

  var par: Par                       // stored bicycle
  var measured: bool                 // measured bicycle data is stored too
  var kind: str -> str               // rider -> what is stored
  var body: str -> Body              // rider -> stored parameters
  var unc: int                       // which values carry uncertainties
  var seat: str                      // rider on the bicycle, "" if none
  var frame: Body                    // rear body of the bicycle object
  var act: { op: str, rider: str, recalc: bool, out: str }

  action init = {
    nondet r = oneOf(0.to(RMAX))
    val p = genBench(r, 0)
    all {
      par' = p,
      measured' = (pick(r, 40, 2) == 0),
      kind' = RIDERS.indices().fold(Map(), (m, j) =>
        m.put(RIDERS[j], elem(List("file", "file", "file", "broken", "none", "nodir"), r, 41 + j))),
      body' = RIDERS.indices().fold(Map(), (m, j) =>
        m.put(RIDERS[j], genRider(r, 50 + 10 * j, pick(r, 45, 3) == 0))),
      unc' = pick(r, 46, 5),
      seat' = "", frame' = rear(p),
      act' = { op: "load", rider: "", recalc: false, out: "ok" }
    }
  }

  action add = {
    nondet who = RIDERS.indices().map(j => RIDERS[j]).oneOf()
    nondet again = Set(true, false, false).oneOf()
    // the rider files hold all that is needed unless a recalculation is asked for
    val can = kind.get(who) == "file" and not(again)
    val out = if (seat != "") "seated" else if (can) "ok" else "fail"
    all {
      seat' = if (out == "ok") who else seat,
      frame' = if (out == "ok") combine(frame, body.get(who)) else frame,
      act' = { op: "add", rider: who, recalc: again, out: out },
      par' = par, measured' = measured, kind' = kind, body' = body, unc' = unc
    }
  }
  // the bicycle is loaded afresh
  action reload = all {
    seat' = "", frame' = rear(par),
    act' = { op: "load", rider: "", recalc: false, out: "ok" },
    par' = par, measured' = measured, kind' = kind, body' = body, unc' = unc
  }
  action step = {
    nondet c = 0.to(4).oneOf()
    if (c == 0) reload else add
  }

  // at most one rider, and the rear body is that of the seated rider
  val oneRider = frame == (if (seat == "") rear(par) else combine(rear(par), body.get(seat)))
  // adding mass never lowers the planar principal sum
  val grows = seat != "" implies (frame.m > rear(par).m and
    frame.xx + frame.zz > rear(par).xx + rear(par).zz)
  // combining is symmetric
  val symmetric = seat == "" or {
    val a = combine(rear(par), body.get(seat))
    val b = combine(body.get(seat), rear(par))
    near(a.x, b.x, 30) and near(a.xx, b.xx, 30) and near(a.xz, b.xz, 30) and near(a.yy, b.yy, 30)
  }
  val realistic = frame.xx > 0 and frame.zz > 0 and mul(frame.xx, frame.zz) > sq(frame.xz)
}
