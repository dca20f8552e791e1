// The web application: browser sessions that select a stored bicycle, edit its
// table, choose what is displayed and over which speeds.  The server has no
// state of its own: what a session sees depends on that session only.
module app {
  import fx.* from "./fx"
  import rnd.* from "./rnd"
  import whipple.* from "./whipple"
  import bodies.* from "./bodies"
  import setpars.* from "./setpars"
  import shapes.* from "./shapes"
  import appdata.* from "./appdata"

  type Session = {
    bike: str,
    cells: Par,            // the tables; the steer axis tilt in degrees
    shown: List[str],      // ticked display options, in the order of ticking
    lo: int, hi: int       // speed range
  }
  type Act = { op: str, who: int, arg: str, table: str, news: Par, early: bool }
  // exact eigenvalue polynomial of a design: coefficients of s^4..s^0, each a
  // polynomial in the speed (lowest power first)
  type View = { tables: Par, shapes: Shapes, poly: List[List[Fx]], size: List[Mat] }

  var sessions: int -> Session
  var act: Act
  var view: View           // what the acting session sees afterwards

  pure val WHO: List[int] = [0, 1]
  // the cells of each table, by their parameters
  pure val TABLES: str -> List[str] = Map(
    "wheels" -> ["rF", "mF", "IFxx", "IFyy", "rR", "mR", "IRxx", "IRyy"],
    "frames" -> ["xB", "zB", "mB", "IBxx", "IByy", "IBzz", "IBxz",
                 "xH", "zH", "mH", "IHxx", "IHyy", "IHzz", "IHxz"],
    "general" -> ["w", "c", "lam", "g"])
  pure val OPTIONS: List[str] = ["centers", "ellipse", "stability"]

  pure def tableOf(bike: str): Par = {
    // some files hold more than the table shows
    pure val p = TABLES.keys().fold(Map(), (m, t) => TABLES.get(t).foldl(m, (n, k) => n.put(k, STORED.get(bike).get(k))))
    p.put("lam", div(mul(p.get("lam"), i(180)), PI))
  }
  pure def design(cells: Par): Par = cells.put("lam", mul(cells.get("lam"), PI) / 180)

  pure def eigenpoly(p: Par): List[List[Fx]] = {
    pure val k = canonical(p)
    pure val W = inv2(k.M)
    pure val C = mm2(W, k.C1)
    pure val g = p.get("g")
    pure val P = mm2(W, [[mul(g, k.K0[0][0]), mul(g, k.K0[0][1])], [mul(g, k.K0[1][0]), mul(g, k.K0[1][1])]])
    pure val Q = mm2(W, k.K2)
    // mixed determinant: det(X + Y) = det X + mix(X, Y) + det Y
    pure def mix(X: Mat, Y: Mat): Fx =
      mul(X[0][0], Y[1][1]) + mul(Y[0][0], X[1][1]) - mul(X[0][1], Y[1][0]) - mul(Y[0][1], X[1][0])
    pure def det(X: Mat): Fx = mix(X, X) / 2
    pure def tr(X: Mat): Fx = X[0][0] + X[1][1]
    [[S], [0, tr(C)], [tr(P), 0, tr(Q) + det(C)], [0, mix(C, P), 0, mix(C, Q)],
     [det(P), 0, mix(P, Q), 0, det(Q)]]
  }
  // the state matrix is A0 + v A1 + v^2 A2
  pure def parts(p: Par): List[Mat] = {
    pure val k = canonical(p)
    pure def at(v: Fx): Mat = stateSpace(k, v, p.get("g")).A
    pure val a = at(0)
    pure val b = at(S)
    pure val c = at(-S)
    pure def comb(f: (Fx, Fx, Fx) => Fx): Mat = range(0, 4).foldl(List(), (rows, x) => rows.append(
      range(0, 4).foldl(List(), (row, y) => row.append(f(a[x][y], b[x][y], c[x][y])))))
    [a, comb((x, y, z) => (y - z) / 2), comb((x, y, z) => (y + z) / 2 - x)]
  }
  pure def has(l: List[str], o: str): bool = l.foldl(false, (b, x) => b or x == o)
  // a box that is ticked is reported after those ticked before
  pure def flip(l: List[str], o: str): List[str] =
    if (has(l, o)) l.select(x => x != o) else l.append(o)
  pure def see(s: Session): View = {
    // entries the tables do not show keep their stored values
    pure val d = s.cells.keys().fold(STORED.get(s.bike), (m, k) => m.put(k, design(s.cells).get(k)))
    { tables: s.cells, shapes: drawBicycle("bicycle", d, has(s.shown, "centers"), has(s.shown, "ellipse")),
      poly: eigenpoly(d), size: parts(d) }
  }
  pure val FIRST: Session = { bike: BIKE0, cells: tableOf(BIKE0), shown: SHOWN0, lo: LO0, hi: HI0 }

  // ---- a physically meaningful design --------------------------------------------
  pure def sound(p: Par): bool = and {
    mul(p.get("IBxx"), p.get("IBzz")) > sq(p.get("IBxz")) * 11 / 10,
    mul(p.get("IHxx"), p.get("IHzz")) > sq(p.get("IHxz")) * 11 / 10
  }
  pure def rounded(x: Fx, n: int): Fx = (if (x < 0) -((-x + S / 10^n / 2) / (S / 10^n)) else (x + S / 10^n / 2) / (S / 10^n)) * (S / 10^n)
  pure def typed(r: int, k: int, s: Session, c: str): Fx = {
    pure val x = s.cells.get(c)
    pure val y = STORED.get(s.bike).get(c)
    pure val f = rng(r, k, q(8, 10), q(12, 10))
    pure val special = pick(r, k + 1, 4) == 0
    if (c == "lam") (if (special) i(pick(r, k + 2, 35)) else rng(r, k + 2, 0, i(40)))
    else if (c == "c") (if (special) 0 else rounded(rng(r, k + 2, q(-5, 100), q(15, 100)), 4))
    else if (c == "g") (if (special) i(2 + pick(r, k + 2, 18)) else rounded(mul(i(10), f), 2))
    else if (c == "IBxz" or c == "IHxz") (if (special) 0 else rounded(mul(y, rng(r, k, -S, S)), 4))
    else if (c == "IBzz" and special) s.cells.get("IBxx")
    else if (c == "IHzz" and special) s.cells.get("IHxx")
    else if (c == "rF" and special) s.cells.get("rR")
    else if (special and Set("mB", "mH", "mR", "mF").contains(c)) i(1 + pick(r, k + 2, if (c == "mB") 90 else 6))
    else if (pick(r, k + 3, 5) == 0) y
    else { pure val z = rounded(mul(y, f), 4) if (z == 0) y else z }
  }

  // ---- actions ----------------------------------------------------------------------
  action become(a: Act, s: Session): bool = all {
    sessions' = sessions.put(a.who, s), act' = a, view' = see(s)
  }
  pure val ACT: Act = { op: "", who: 0, arg: "", table: "", news: Map(), early: false }
  action one(r: int): bool = {
    val w = elem(WHO, r, 0)
    val s = sessions.get(w)
    val op = elem(["select", "select", "edit", "edit", "edit", "edit", "toggle", "toggle", "slide", "slide", "reset", "reload"], r, 1)
    val bike = {
      val b = elem(BIKES, r, 2)
      if (b == s.bike) BIKES[(pick(r, 2, BIKES.length()) + 1) % BIKES.length()] else b
    }
    val tab = elem(["wheels", "frames", "general"], r, 3)
    val cs = TABLES.get(tab)
    val n = elem([1, 1, 1, 2, 5], r, 4)
    val news0 = range(0, n).foldl(Map(), (m, j) => {
      val c = elem(cs, r, 10 + 6 * j)
      m.put(c, typed(r, 11 + 6 * j, s, c))
    })
    val news = if (sound(news0.keys().fold(s.cells, (m, k) => m.put(k, news0.get(k))))) news0
              else tableOf(s.bike)
    val t = elem(OPTIONS, r, 5)
    val a = -9 + pick(r, 6, 19)
    val b = -9 + pick(r, 7, 19)
    val near = pick(r, 8, 3)
    val lo = if (near == 0) 0 else 5 * mn(a, b)
    val hi = if (near == 0) 5 * (1 + pick(r, 7, 4)) else 5 * mx(a, b)
    val x = { ...ACT, op: op, who: w, early: pick(r, 9, 2) == 0 }
    if (op == "select") become({ ...x, arg: bike }, { ...s, bike: bike, cells: tableOf(bike) })
    else if (op == "reset") become(x, { ...s, cells: tableOf(s.bike) })
    else if (op == "edit")
      become({ ...x, table: tab, news: if (news == news0) news else cs.foldl(Map(), (m, k) => m.put(k, news.get(k))) },
        { ...s, cells: (if (news == news0) news.keys() else cs.foldl(Set(), (u, k) => u.union(Set(k))))
            .fold(s.cells, (m, k) => m.put(k, news.get(k))) })
    else if (op == "toggle") become({ ...x, arg: t },
      { ...s, shown: flip(s.shown, t) })
    else if (op == "slide") become(x, { ...s, lo: lo, hi: hi })
    else become(x, FIRST)
  }
  action init = all {
    sessions' = Map(0 -> FIRST, 1 -> FIRST),
    act' = { ...ACT, op: "load" },
    view' = see(FIRST)
  }
  action step = { nondet r = oneOf(0.to(RMAX)) one(r) }

  // one session that ticks every option, in every order, and selects every
  // stored bicycle
  action stepTour = {
    val s = sessions.get(0)
    val k = range(0, BIKES.length()).foldl(0, (f, j) => if (BIKES[j] == s.bike) j else f)
    val b = BIKES[(k + 1) % BIKES.length()]
    val t = OPTIONS.select(o => not(has(s.shown, o)))
    // between two bicycles one box is ticked anew: alternately the first and
    // the second ticked, which leads through all six orders
    val again = s.shown[k % 2]
    if (t.length() > 0)
      become({ ...ACT, op: "toggle", arg: t[0] }, { ...s, shown: s.shown.append(t[0]) })
    else if (act.op == "select")
      become({ ...ACT, op: "toggle", arg: again, early: k % 3 == 0 }, { ...s, shown: flip(s.shown, again) })
    else
      become({ ...ACT, op: "select", arg: b, early: k % 2 == 0 }, { ...s, bike: b, cells: tableOf(b) })
  }

  // ---- invariants ---------------------------------------------------------------------
  // selecting, resetting or loading shows what is stored
  val fresh = or {
    act.op == "edit" or act.op == "toggle" or act.op == "slide",
    design(view.tables).get("lam") == STORED.get(sessions.get(act.who).bike).get("lam")
      or near(design(view.tables).get("lam"), STORED.get(sessions.get(act.who).bike).get("lam"), 35)
  }
  // no box is ticked twice
  val ticks = WHO.indices().forall(w => sessions.get(w).shown.indices().forall(a =>
    sessions.get(w).shown.indices().forall(b => a == b or sessions.get(w).shown[a] != sessions.get(w).shown[b])))
  val ordered = WHO.indices().forall(w => sessions.get(w).lo <= sessions.get(w).hi)
  // the polynomial is the characteristic polynomial of the state matrix
  val polynomial = Set(0, S, i(-3), i(7)).forall(v => {
    val A = stateSpace(canonical(design(view.tables)), v, view.tables.get("g")).A
    val chi = charpoly(A)
    val e = range(0, 5).foldl(List(), (l, j) => l.append(
      view.poly[j].foldl((0, S), (acc, c) => (acc._1 + mul(c, acc._2), mul(acc._2, v)))._1))
    and {
      range(0, 5).foldl(true, (ok, j) => ok and near(chi[j], e[j], 20)),
      range(0, 4).foldl(true, (ok, x) => ok and range(0, 4).foldl(true, (ko, y) => ko and
        near(A[x][y], view.size[0][x][y] + mul(v, view.size[1][x][y]) + mul(sq(v), view.size[2][x][y]), 20)))
    }
  })
  // the app shows physically meaningful designs only
  val soundness = sound(view.tables)
}
