// Parameter set objects: construction, conversion between parameterizations,
// storage in files, mass centres and inertia of their bodies.  The state is
// the list of objects made so far; nothing that is done with an object except
// editing its entries changes it, and nothing changes another one.
module parsets {
  import fx.* from "./fx"
  import rnd.* from "./rnd"
  import whipple.* from "./whipple"
  import bodies.* from "./bodies"
  import leanpar.* from "./leanpar"
  import setpars.* from "./setpars"

  type Obj = { kind: str, par: Par, rider: bool, src: int }
  type Act = { op: str, obj: int, name: str, ok: bool, extra: bool, bad: str, group: List[str], no: int }

  var objs: List[Obj]
  var act: Act
  var centre: Body          // mass and mass centre of the group in act
  var eyes: str -> Body     // bodies of the object in act
  var princ: str -> List[Fx]  // greatest and least planar moments

  pure def convert(o: Obj, goal: str): Obj =
    if (o.kind == goal) o
    else if (goal == M12) { ...o, kind: goal, par: toMoore(o.par) }
    else if (o.kind == M19) { ...o, kind: goal, rider: true,
      par: if (goal == M07) toBenchmark(o.par) else withGains(toBenchmark(o.par)) }
    else { ...o, kind: goal, par: withGains(o.par) }

  // --- generation ---------------------------------------------------------------
  pure def genObj(r: int, kind: str): Obj = {
    pure val b0 = genBench(r, 1)
    // nearly round bodies
    pure val b = if (dig(r, 45) < 120) b0.put("IHzz", b0.get("IHxx")).put("IHxz", 0)
                 else if (dig(r, 45) < 160) b0.put("IBxz", 0)
                 // minute and enormous numbers are numbers too
                 else if (dig(r, 45) < 260) b0.put("c", rng(r, 46, -S, S) / 10^15).put("g", S * 10^(10 + pick(r, 47, 8)))
                 else b0
    { kind: kind, src: -1, rider: kind == M19 or pick(r, 0, 2) == 0,
      par: if (kind == M07) b
           else if (kind == MFB) GAINS.indices().fold(b, (o, j) =>
             o.put(GAINS[j], rngz(r, 50 + j, q(-50, 1), q(50, 1), 0, 300)))
           else if (kind == M12) toMoore(b)
           else if (kind == M19) gen19(r, 1) else genLean(r, 1) }
  }
  pure val NOACT: Act = { op: "", obj: 0, name: "", ok: true, extra: false, bad: "", group: [], no: 0 }

  pure def lightest(b: Body): Fx = {
    pure val s = b.xx + b.zz
    pure val d = sqrt(sq(b.xx - b.zz) + 4 * sq(b.xz))
    (s - d) / 2
  }
  action observe(l: List[Obj], a: Act): bool = {
    val o = l[if (a.op == "reject") 0 else a.obj]
    all {
      objs' = l, act' = a,
      eyes' = labels(o.kind).foldl(Map(), (m, b) => m.put(b, bodyOf(o.kind, o.par, b))),
      centre' = if (a.op != "weigh") NOBODY else group(a.group.foldl([], (g, b) => g.append(bodyOf(o.kind, o.par, b)))),
      princ' = labels(o.kind).foldl(Map(), (m, b) => {
        val y = bodyOf(o.kind, o.par, b)
        m.put(b, [y.xx + y.zz - lightest(y), lightest(y)])
      })
    }
  }
  action make = {
    nondet r = oneOf(0.to(RMAX))
    val kind = elem([M07, M07, MFB, M12, M19, M19, MRL], r, 60)
    val l = objs.append(genObj(r, kind))
    observe(l, { ...NOACT, op: "new", obj: l.length() - 1, name: kind, extra: pick(r, 61, 2) == 0 })
  }
  pure val BAD: List[str] = ["missing", "int", "text", "none", "list", "array", "uncertain",
    "complex", "numpyint", "numpy32", "bool", "string number"]
  // an object is refused unless every required entry is a float
  action reject = {
    nondet r = oneOf(0.to(RMAX))
    val kind = elem(NAMES, r, 60)
    val k = elem(required(kind), r, 61)
    val bad = elem(BAD, r, 62)
    observe(objs, { ...NOACT, op: "reject", name: kind, ok: false, extra: pick(r, 63, 2) == 0,
      obj: objs.length(), bad: bad, group: [k] })
  }
  // every required entry of every parameterization in turn: first left out,
  // then spoiled in one of the other ways
  pure val SLOTS: List[(str, str)] = NAMES.foldl([], (l, n) =>
    required(n).foldl(l, (m, k) => m.append((n, k))))
  action sweep = {
    val n = act.no
    val s = SLOTS[n % SLOTS.length()]
    val round = n / SLOTS.length()
    observe(objs, { ...NOACT, op: "reject", name: s._1, ok: false, extra: n % 2 == 1,
      obj: objs.length(), group: [s._2], no: n + 1,
      bad: if (round == 0) "missing" else BAD[1 + (n + 5 * round) % (BAD.length() - 1)] })
  }
  action turn = {
    nondet r = oneOf(0.to(RMAX))
    val j = pick(r, 60, objs.length())
    val o = objs[j]
    val goal = elem([M07, MFB, M12, M19, MRL, M07, MFB, M12, "Nobody2000", "", "meijaard2007"], r, 61)
    val ok = allowed(o.kind, goal)
    // converting to itself gives the object itself
    val l = if (ok and goal != o.kind) objs.append({ ...convert(o, goal), src: j }) else objs
    observe(l, { ...NOACT, op: "convert", obj: j, name: goal, ok: ok })
  }
  action store = {
    nondet r = oneOf(0.to(RMAX))
    val j = pick(r, 60, objs.length())
    val l = objs.append({ ...objs[j], src: j })
    observe(l, { ...NOACT, op: elem(["yaml", "ini"], r, 61), obj: j, name: objs[j].kind })
  }
  // entries that can be changed on their own
  pure def single(kind: str): List[str] =
    if (kind == M07 or kind == MFB) ["mB", "mH", "mF", "mR", "xB", "zB", "xH", "zH", "w", "rF", "rR", "v", "g"]
    else if (kind == M19) ["mP", "mD", "mH", "mF", "xP", "zP", "xD", "zD", "v", "g"]
    else if (kind == M12) ["mc", "md", "v", "g"] else ["v", "g"]
  // the user changes entries of an object: some or all of them, in the
  // dictionary of the object or by giving it another one
  action edit = {
    nondet r = oneOf(0.to(RMAX))
    val j = pick(r, 64, objs.length())
    val o = objs[j]
    val alt = genObj(r, o.kind).par
    val ks = if (pick(r, 65, 2) == 0) o.par.keys()
             else range(0, 1 + pick(r, 66, 3)).foldl(Set(), (m, i) =>
               m.union(Set(elem(single(o.kind), r, 67 + i))))
    val par = ks.fold(o.par, (m, k) => m.put(k, alt.get(k)))
    // whatever was derived from the object is not the same bicycle any more
    val l = range(0, objs.length()).foldl([], (acc, i) => acc.append(
      if (i == j) { ...o, par: par, src: -1 }
      else if (objs[i].src == j) { ...objs[i], src: -1 } else objs[i]))
    observe(l, { ...NOACT, op: "edit", obj: j, name: o.kind, extra: pick(r, 70, 2) == 0 })
  }
  pure def shuffled(l: List[str], r: int): List[str] = {
    // some of the bodies in some order
    pure val n = 1 + pick(r, 50, l.length())
    range(0, n).foldl(([], l), (acc, j) => {
      val k = pick(r, 51 + j, acc._2.length())
      (acc._1.append(acc._2[k]), acc._2.slice(0, k).concat(acc._2.slice(k + 1, acc._2.length())))
    })._1
  }
  action weigh = {
    nondet r = oneOf(0.to(RMAX))
    val ok = objs.indices().filter(j => labels(objs[j].kind).length() > 0)
    if (ok == Set()) make else {
      nondet j = ok.oneOf()
      observe(objs, { ...NOACT, op: "weigh", obj: j, name: objs[j].kind,
        group: shuffled(labels(objs[j].kind), r) })
    }
  }
  action init = {
    nondet r = oneOf(0.to(RMAX))
    val kind = elem([M07, MFB, M12, M19, M19, MRL], r, 60)
    val o = genObj(r, kind)
    all {
      objs' = [o],
      act' = { ...NOACT, op: "new", name: kind, extra: pick(r, 61, 2) == 0 },
      eyes' = Map(), centre' = NOBODY, princ' = Map()
    }
  }
  action step = {
    nondet c = 0.to(10).oneOf()
    if (c <= 1) make else if (c <= 2) reject else if (c <= 5) turn else if (c <= 7) store
    else if (c <= 8) edit else weigh
  }
  action stepConvert = {
    nondet c = 0.to(9).oneOf()
    if (c <= 2) make else if (c <= 3) edit else turn
  }
  action stepStore = {
    nondet c = 0.to(9).oneOf()
    if (c <= 1) make else if (c <= 3) reject else if (c <= 5) turn else if (c <= 6) edit else store
  }
  action stepWeigh = {
    nondet c = 0.to(9).oneOf()
    if (c <= 1) make else if (c <= 3) turn else if (c <= 4) edit else weigh
  }

  // --- what must hold of the specification itself -------------------------------
  // required entries are there
  val complete = objs.indices().forall(j => {
    val want = required(objs[j].kind)
    want.indices().forall(i => objs[j].par.keys().contains(want[i])) })
  // conversions keep total mass, mass centre and total second moments
  pure def whole(o: Obj): Body = group(labels(o.kind).foldl([], (g, b) => g.append(bodyOf(o.kind, o.par, b))))
  pure def alike(a: Fx, b: Fx): bool = near(a, b, 25)
  val conserved = objs.indices().forall(j => {
    val o = objs[j]
    o.src < 0 or labels(o.kind).length() == 0 or {
      val a = whole(objs[o.src])
      val b = whole(o)
      alike(a.m, b.m) and alike(a.x, b.x) and alike(a.z, b.z) and alike(a.xx, b.xx)
        and alike(a.yy, b.yy) and alike(a.zz, b.zz) and alike(a.xz, b.xz)
    }
  })
  // the steer axis description gives the bicycle back
  val moore = objs.indices().forall(j => {
    val o = objs[j]
    o.kind != M12 or o.src < 0 or objs[o.src].kind == M12 or {
      val p = objs[o.src].par
      val G = geometry(o.par)
      val C = unrot(G.lam, o.par.get("ic11"), o.par.get("ic31"), o.par.get("ic33"))
      near(G.lam, p.get("lam"), 20) and near(G.w, p.get("w"), 20) and near(G.c, p.get("c"), 20)
        and near(C._1, p.get("IBxx"), 20) and near(C._2, p.get("IBxz"), 20) and near(C._3, p.get("IBzz"), 20)
    }
  })
  // the least planar moment is not negative
  val planar = eyes.keys().forall(b => princ.get(b)[1] >= -1000 and princ.get(b)[0] >= princ.get(b)[1])
}
