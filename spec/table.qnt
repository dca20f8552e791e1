// Comparison tables of bicycles: one row per parameter that any compared
// bicycle has, in alphabetical order regardless of case; per bicycle one column
// pair holding its value and uncertainty rounded to the decimal place of the
// leading digit of the uncertainty.  A table is produced any number of times,
// in either format, always with the same content.
module table {
  import fx.* from "./fx"
  import rnd.* from "./rnd"

  type Key = { name: str, tex: str }
  // the documented variables in alphabetical order (regardless of case)
  pure val BENCH: List[Key] = [
    { name: "c", tex: "c" },
    { name: "g", tex: "g" },
    { name: "IBxx", tex: "I_{Bxx}" },
    { name: "IBxz", tex: "I_{Bxz}" },
    { name: "IByy", tex: "I_{Byy}" },
    { name: "IBzz", tex: "I_{Bzz}" },
    { name: "IFxx", tex: "I_{Fxx}" },
    { name: "IFyy", tex: "I_{Fyy}" },
    { name: "IHxx", tex: "I_{Hxx}" },
    { name: "IHxz", tex: "I_{Hxz}" },
    { name: "IHyy", tex: "I_{Hyy}" },
    { name: "IHzz", tex: "I_{Hzz}" },
    { name: "IRxx", tex: "I_{Rxx}" },
    { name: "IRyy", tex: "I_{Ryy}" },
    { name: "lam", tex: "\lambda" },
    { name: "mB", tex: "m_B" },
    { name: "mF", tex: "m_F" },
    { name: "mH", tex: "m_H" },
    { name: "mR", tex: "m_R" },
    { name: "rF", tex: "r_F" },
    { name: "rR", tex: "r_R" },
    { name: "v", tex: "v" },
    { name: "w", tex: "w" },
    { name: "xB", tex: "x_B" },
    { name: "xH", tex: "x_H" },
    { name: "zB", tex: "z_B" },
    { name: "zH", tex: "z_H" }]
  pure val MEAS: List[Key] = [
    { name: "aB1", tex: "a_{B1}" },
    { name: "aB10", tex: "a_{B10}" },
    { name: "aH3", tex: "a_{H3}" },
    { name: "alphaB1", tex: "\alpha_{B1}" },
    { name: "alphaB10", tex: "\alpha_{B10}" },
    { name: "alphaH2", tex: "\alpha_{H2}" },
    { name: "d", tex: "d" },
    { name: "d3", tex: "d_3" },
    { name: "dP", tex: "d_P" },
    { name: "ds1", tex: "d_{s1}" },
    { name: "ds3", tex: "d_{s3}" },
    { name: "f", tex: "f" },
    { name: "g", tex: "g" },
    { name: "gamma", tex: "\gamma" },
    { name: "h4", tex: "h_4" },
    { name: "hbb", tex: "h_{bb}" },
    { name: "l", tex: "l" },
    { name: "lamst", tex: "\lambda_{st}" },
    { name: "lcs", tex: "l_{cs}" },
    { name: "LhbF", tex: "l_{hbF}" },
    { name: "LhbR", tex: "l_{hbR}" },
    { name: "lP", tex: "l_P" },
    { name: "Lp", tex: "L_p" },
    { name: "lsp", tex: "l_{sp}" },
    { name: "lst", tex: "l_{st}" },
    { name: "mB", tex: "m_B" },
    { name: "nF", tex: "n_F" },
    { name: "TcB1", tex: "T^c_{B1}" },
    { name: "TcH1", tex: "T^c_{H1}" },
    { name: "TcR1", tex: "T^c_{R1}" },
    { name: "TtB1", tex: "T^t_{B1}" },
    { name: "TtB10", tex: "T^t_{B10}" },
    { name: "TtB2", tex: "T^t_{B2}" },
    { name: "TtP1", tex: "T^t_{P1}" },
    { name: "w", tex: "w" },
    { name: "whb", tex: "w_{hb}" },
    { name: "xcl", tex: "x_{cl}" },
    { name: "zcl", tex: "z_{cl}" }]

  // a stored quantity: mant * 10^ex, uncertainty smant * 10^sex
  type Num = { kind: str, mant: int, ex: int, smant: int, sex: int }
  // what a cell pair has to show: value and uncertainty in units of 10^-ZERO;
  // at an exact half both neighbours are acceptable
  type Cell = { kind: str, lo: int, hi: int, slo: int, shi: int, place: int }
  type Row = { key: Key, cells: List[Cell] }

  pure val ZERO: int = 30
  pure def units(m: int, e: int): int = m * 10^(ZERO + e)

  var source: str
  var bikes: List[str -> Num]
  var rows: List[Row]
  var op: str          // "new", "rst", "file", "round"

  pure def lead(n: int): int = range(0, 80).foldl(0, (e, k) => if (n >= 10^k) k else e)
  pure def fdiv(a: int, b: int): int = if (a >= 0) a / b else -((-a + b - 1) / b)
  // floor and ceiling of x to a multiple of u when x is half way, otherwise
  // twice the nearest
  pure def near2(x: int, u: int): (int, int) = {
    pure val f = fdiv(x, u)
    pure val rem = x - f * u
    if (2 * rem < u) (f * u, f * u)
    else if (2 * rem > u) ((f + 1) * u, (f + 1) * u)
    else (f * u, (f + 1) * u)
  }
  pure def cell(n: Num): Cell = {
    pure val x = units(n.mant, n.ex)
    pure val s = units(n.smant, n.sex)
    if (n.kind != "unc") { kind: n.kind, lo: x, hi: x, slo: s, shi: s, place: 0 }
    else {
      pure val u = 10^lead(s)
      pure val a = near2(x, u)
      pure val b = near2(s, u)
      { kind: "unc", lo: a._1, hi: a._2, slo: b._1, shi: b._2, place: lead(s) - ZERO }
    }
  }
  pure val MISSING: Cell = { kind: "missing", lo: 0, hi: 0, slo: 0, shi: 0, place: 0 }
  pure def num(r: int, k: int): Num = {
    pure val digits = 1 + pick(r, k, 7)
    pure val m0 = (dig(r, k + 1) * 1000000 + dig(r, k + 2) * 1000 + dig(r, k + 7)) % 10^digits
    pure val m = if (pick(r, k + 3, 8) == 0) 0 else m0
    pure val e = pick(r, k + 4, 9) - 7
    pure val kind = elem(["unc", "unc", "unc", "unc", "unc", "unc", "sure", "plain"], r, k + 5)
    pure val sm = if (kind == "unc") elem([1, 2, 5, 9, 10, 25, 95, 96, 99, 100, 349, 951, 999], r, k + 6) else 0
    // uncertainties between a millionth and a hundred times the value's last digit
    pure val se = mx(-12, mn(1, e + pick(r, k + 8, 8) - 5))
    { kind: kind, mant: if (pick(r, k + 9, 3) == 0) -m else m, ex: e, smant: sm, sex: se }
  }
  pure def keysOf(s: str): List[Key] = if (s == "Benchmark") BENCH else MEAS
  pure def genBike(r: int, k0: int, s: str): str -> Num = {
    pure val ks = keysOf(s)
    pure val n = 1 + pick(r, k0, 7)
    range(0, n).foldl(Map(), (m, j) =>
      m.put(elem(ks, r, k0 + 1 + 11 * j).name, num(r, k0 + 2 + 11 * j)))
  }
  pure def table(s: str, bs: List[str -> Num]): List[Row] =
    keysOf(s).foldl(List(), (l, k) =>
      if (bs.indices().exists(j => bs[j].keys().contains(k.name)))
        l.append({ key: k, cells: bs.foldl(List(), (c, b) =>
          c.append(if (b.keys().contains(k.name)) cell(b.get(k.name)) else MISSING)) })
      else l)

  action init = {
    nondet r = oneOf(0.to(RMAX))
    val s = elem(["Benchmark", "Measured"], r, 0)
    val bs = range(0, 1 + pick(r, 1, 3)).foldl(List(), (l, j) => l.append(genBike(r, 10 + 90 * j, s)))
    all { source' = s, bikes' = bs, rows' = table(s, bs), op' = "new" }
  }
  action produce = {
    nondet o = oneOf(Set("rst", "file", "data"))
    all { source' = source, bikes' = bikes, rows' = rows, op' = o }
  }
  // a new table of the same bicycles in the other format, or of some of them
  action other = {
    nondet o = oneOf(Set("plain", "latex"))
    all { source' = source, bikes' = bikes, rows' = rows, op' = o }
  }
  action step = any { produce, produce, other }

  // ---- invariants -------------------------------------------------------------
  val onceEach = rows.indices().forall(a => rows.indices().forall(b =>
    rows[a].key.name == rows[b].key.name implies a == b))
  val complete = bikes.indices().forall(j => bikes[j].keys().forall(k =>
    rows.indices().exists(a => rows[a].key.name == k and rows[a].cells[j].kind != "missing")))
  // the rounded value is within half a unit of the stored one
  val halfUnit = rows.indices().forall(a => rows[a].cells.indices().forall(j => {
    val c = rows[a].cells[j]
    c.kind != "unc" or {
      val x = bikes[j].get(rows[a].key.name)
      and { 2 * ab(units(x.mant, x.ex) - c.lo) <= 10^(c.place + ZERO),
            2 * ab(units(x.smant, x.sex) - c.slo) <= 10^(c.place + ZERO),
            c.slo > 0 }
    }
  }))
}
