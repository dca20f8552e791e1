// The sheet a parameter set is shown as (in a notebook): one row per parameter
// of its parameterization, under the parameter's own symbol, with the value it
// has at that moment to three decimals.
module sheet {
  import fx.* from "./fx"
  import rnd.* from "./rnd"
  import whipple.* from "./whipple"
  import bodies.* from "./bodies"
  import leanpar.* from "./leanpar"
  import setpars.* from "./setpars"

  // value in thousandths: anything from lo to hi is a correct rounding
  type Line = { name: str, tex: str, lo: int, hi: int }

  pure val BENCH_TEX: str -> str = Map(
    "IBxx" -> "I_{Bxx}", "IBxz" -> "I_{Bxz}", "IByy" -> "I_{Byy}", "IBzz" -> "I_{Bzz}",
    "IFxx" -> "I_{Fxx}", "IFyy" -> "I_{Fyy}", "IHxx" -> "I_{Hxx}", "IHxz" -> "I_{Hxz}",
    "IHyy" -> "I_{Hyy}", "IHzz" -> "I_{Hzz}", "IRxx" -> "I_{Rxx}", "IRyy" -> "I_{Ryy}",
    "c" -> "c", "g" -> "g", "lam" -> "\lambda", "mB" -> "m_B", "mF" -> "m_F", "mH" -> "m_H",
    "mR" -> "m_R", "rF" -> "r_F", "rR" -> "r_R", "v" -> "v", "w" -> "w", "xB" -> "x_B",
    "xH" -> "x_H", "zB" -> "z_B", "zH" -> "z_H",
    "kTphi_phi" -> "k_{T_{\phi}\phi}", "kTphi_del" -> "k_{T_{\phi}\delta}",
    "kTphi_phid" -> "k_{T_{\phi}\dot{\phi}}", "kTphi_deld" -> "k_{T_{\phi}\dot{\delta}}",
    "kTdel_phi" -> "k_{T_{\delta}\phi}", "kTdel_del" -> "k_{T_{\delta}\delta}",
    "kTdel_phid" -> "k_{T_{\delta}\dot{\phi}}", "kTdel_deld" -> "k_{T_{\delta}\dot{\delta}}")
  pure val LEAN_TEX: str -> str = Map(
    "c9" -> "c_9", "k9" -> "k_9", "d1" -> "d_1", "d2" -> "d_2", "d3" -> "d_3", "d4" -> "d_4",
    "g" -> "g", "v" -> "v", "rf" -> "r_f", "rr" -> "r_r",
    "ic11" -> "I_{C11}", "ic22" -> "I_{C22}", "ic31" -> "I_{C31}", "ic33" -> "I_{C33}",
    "id11" -> "I_{D11}", "id22" -> "I_{D22}",
    "ie11" -> "I_{E11}", "ie22" -> "I_{E22}", "ie31" -> "I_{E31}", "ie33" -> "I_{E33}",
    "if11" -> "I_{F11}", "if22" -> "I_{F22}",
    "ig11" -> "I_{G11}", "ig22" -> "I_{G22}", "ig31" -> "I_{G31}", "ig33" -> "I_{G33}",
    "l1" -> "l_1", "l2" -> "l_2", "l3" -> "l_3", "l4" -> "l_4", "l5" -> "l_5", "l6" -> "l_6",
    "mc" -> "m_C", "md" -> "m_D", "me" -> "m_E", "mf" -> "m_F", "mg" -> "m_G")
  pure val M19_TEX: str -> str = Map(
    "alphaD" -> "\alpha_D", "alphaH" -> "\alpha_H", "alphaP" -> "\alpha_P", "c" -> "c", "g" -> "g",
    "kDaa" -> "k_{Daa}", "kDbb" -> "k_{Dbb}", "kDyy" -> "k_{Dyy}", "kFaa" -> "k_{Faa}",
    "kFyy" -> "k_{Fyy}", "kHaa" -> "k_{Haa}", "kHbb" -> "k_{Hbb}", "kHyy" -> "k_{Hyy}",
    "kPaa" -> "k_{Paa}", "kPbb" -> "k_{Pbb}", "kPyy" -> "k_{Pyy}", "kRaa" -> "k_{Raa}",
    "kRyy" -> "k_{Ryy}", "lP" -> "l_P", "lam" -> "\lambda", "mD" -> "m_D", "mF" -> "m_F",
    "mH" -> "m_H", "mP" -> "m_P", "mR" -> "m_R", "rF" -> "r_F", "rR" -> "r_R", "v" -> "v",
    "w" -> "w", "wP" -> "w_P", "xD" -> "x_D", "xH" -> "x_H", "xP" -> "x_P", "zD" -> "z_D",
    "zH" -> "z_H", "zP" -> "z_P")
  pure def symbol(kind: str, k: str): str =
    if (kind == M19) M19_TEX.get(k)
    else if (kind == M12 or kind == MRL) LEAN_TEX.get(k) else BENCH_TEX.get(k)

  pure def fdiv(a: int, b: int): int = if (a >= 0) a / b else -((-a + b - 1) / b)
  pure def thousandths(x: Fx): int = fdiv(2000 * x + S, 2 * S)
  // the entries are binary fractions near the specified numbers
  pure def slack(x: Fx): Fx = ab(x) / 10^12 + S / 10^15
  pure def sheetOf(kind: str, p: Par): List[Line] =
    required(kind).foldl(List(), (l, k) => l.append({ name: k, tex: symbol(kind, k),
      lo: thousandths(p.get(k) - slack(p.get(k))), hi: thousandths(p.get(k) + slack(p.get(k))) }))

  pure def genPar(r: int, kind: str): Par = {
    pure val b = genBench(r, 1)
    if (kind == M07) b
    else if (kind == MFB) GAINS.indices().fold(b, (o, j) =>
      o.put(GAINS[j], rngz(r, 50 + j, q(-50, 1), q(50, 1), 0, 300)))
    else if (kind == M12) toMoore(b)
    else if (kind == M19) gen19(r, 1) else genLean(r, 1)
  }

  var kind: str
  var par: Par
  var rows: List[Line]
  var op: str             // "new", "entry", "all", "show"
  var edited: Set[str]

  action init = {
    nondet r = oneOf(0.to(RMAX))
    val k = elem(NAMES, r, 90)
    val p = genPar(r, k)
    all { kind' = k, par' = p, rows' = sheetOf(k, p), op' = "new", edited' = Set() }
  }
  // some entries are given other values, small and large ones among them
  action entry = {
    nondet r = oneOf(0.to(RMAX))
    val n = 1 + pick(r, 0, 3)
    val p = range(0, n).foldl(par, (m, j) => m.put(elem(required(kind), r, 1 + 3 * j),
      rng(r, 2 + 3 * j, -S, S) * 10^(pick(r, 3 + 3 * j, 10)) / 10^4))
    val e = range(0, n).foldl(Set(), (s, j) => s.union(Set(elem(required(kind), r, 1 + 3 * j))))
    all { kind' = kind, par' = p, rows' = sheetOf(kind, p), op' = "entry", edited' = e }
  }
  // the set is given another dictionary
  action fresh = {
    nondet r = oneOf(0.to(RMAX))
    val p = genPar(r, kind)
    all { kind' = kind, par' = p, rows' = sheetOf(kind, p), op' = "all", edited' = par.keys() }
  }
  action show = all { kind' = kind, par' = par, rows' = rows, op' = "show", edited' = Set() }
  action step = any { entry, entry, fresh, show }

  // ---- invariants -------------------------------------------------------------
  val onceEach = rows.indices().forall(a => rows.indices().forall(b =>
    (rows[a].name == rows[b].name or rows[a].tex == rows[b].tex) implies a == b))
  val complete = rows.length() == par.keys().size() and rows.indices().forall(a =>
    par.keys().contains(rows[a].name))
  val halfUnit = rows.indices().forall(a => {
    val x = par.get(rows[a].name)
    and { 2 * ab(1000 * x - rows[a].lo * S) <= S + 2000 * slack(x) + 2,
          2 * ab(1000 * x - rows[a].hi * S) <= S + 2000 * slack(x) + 2,
          rows[a].hi - rows[a].lo <= 1 + 2000 * slack(x) / S }
  })
}
