// Numbers in parameter text files: arbitrary magnitudes and precision, the
// mean of several values and its uncertainty, and the precision kept when a
// value is written.
//
// A literal is  mant * 10^ex ; uncertainties the same.  A written uncertain
// number keeps the digits of its uncertainty down to place 10^place (rule of
// the Particle Data Group: two significant digits when the leading three are
// 100..354, one otherwise).
module textfile {
  import fx.* from "./fx"
  import rnd.* from "./rnd"

  type Lit = { mant: int, ex: int, smant: int, sex: int }  // smant 0: certain
  type Line = { name: str, lits: List[Lit], layout: int }
  type Entry = { num: int, scale: int, cnt: int, varnum: int, unc: bool }

  pure val ZERO: int = 45           // all numbers are held in units of 10^-45

  pure val NAMES: List[str] = ["rR", "rF", "w", "c", "lam", "mB", "IBxx", "IBxz", "xB", "zB", "g",
                               "whb", "d", "TcB1", "TtF1", "alphaB1", "lP", "h6", "kTdel_phid", "v"]

  var lines: List[Line]
  var dict: str -> Entry
  var slack: str -> int             // unit of the last written digit

  pure def units(mant: int, ex: int): int = mant * 10^(ZERO + ex)

  pure def lit(r: int, k: int, unc: bool): Lit = {
    pure val digits = 1 + pick(r, k, 6)
    pure val m = (dig(r, k + 1) * 1000 + dig(r, k + 2)) % 10^digits
    pure val e = pick(r, k + 3, 14) - 9
    pure val sm = if (unc) 1 + dig(r, k + 5) % 999 else 0
    { mant: if (pick(r, k + 4, 3) == 0) -m else m, ex: e, smant: sm, sex: e - pick(r, k + 6, 3) }
  }
  pure def line(r: int): Line = {
    pure val unc = pick(r, 1, 2) == 0
    pure val n = [1, 1, 1, 2, 3, 4, 5, 7][pick(r, 2, 8)]
    { name: elem(NAMES, r, 3), layout: pick(r, 4, 6),
      lits: range(0, n).foldl(List(), (l, j) => l.append(lit(r, 10 + 8 * j, unc))) }
  }
  pure def entry(l: Line): Entry = {
    num: l.lits.foldl(0, (s, x) => s + units(x.mant, x.ex)),
    cnt: l.lits.length(), scale: ZERO,
    varnum: l.lits.foldl(0, (s, x) => s + units(x.smant, x.sex)^2),
    unc: l.lits.indices().exists(j => l.lits[j].smant > 0)
  }

  // ---- precision of a written uncertain number ------------------------------
  // decimal exponent of the leading digit of n > 0 (in units)
  pure def lead(n: int): int = range(0, 200).foldl(0, (e, k) => if (n >= 10^k) k else e)
  // place (power of ten in units) of the last digit kept for uncertainty n
  pure def place(n: int): int = {
    pure val e = lead(n)
    pure val top = if (e >= 2) n / 10^(e - 2) else n * 10^(2 - e)    // three digits
    if (top < 354) e - 1 else e
  }
  pure def sqrt0(a: int): int = if (a <= 0) 0 else
    range(0, 400).foldl(10^((lead(a) / 2) + 1), (x, k) => { pure val nx = (x + a / x) / 2  if (nx < x) nx else x })

  // unit of the last digit a written entry keeps (0: written exactly)
  pure def keeps(d: Entry): int = {
    pure val sd = sqrt0(d.varnum) / d.cnt
    if (d.unc and sd > 0) 10^place(sd) else 0
  }

  action init = all { lines' = [], dict' = Map(), slack' = Map() }
  action step = {
    nondet r = oneOf(0.to(RMAX))
    val l = line(r)
    if (dict.keys().contains(l.name)) all { lines' = lines, dict' = dict, slack' = slack }
    else all { lines' = lines.append(l), dict' = dict.put(l.name, entry(l)),
      slack' = slack.put(l.name, keeps(entry(l))) }
  }
  val known = dict.keys() == lines.indices().map(j => lines[j].name)
  // the mean lies between the smallest and the largest value
  val between = lines.indices().forall(j => {
    val l = lines[j]
    val d = dict.get(l.name)
    and {
      l.lits.indices().exists(a => units(l.lits[a].mant, l.lits[a].ex) * d.cnt <= d.num),
      l.lits.indices().exists(a => units(l.lits[a].mant, l.lits[a].ex) * d.cnt >= d.num)
    }
  })
}
